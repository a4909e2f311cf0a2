use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;

// ---------------------------------------------------------------- allocator
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
pub struct Counting;
#[global_allocator]
static A: Counting = Counting;
fn add(n: usize) -> bool {
    let c = CUR.fetch_add(n, Relaxed) + n;
    if c > CAP.load(Relaxed) {
        CUR.fetch_sub(n, Relaxed);
        return false;
    }
    PEAK.fetch_max(c, Relaxed);
    true
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n) {
            return std::ptr::null_mut();
        }
        let r = System.realloc(p, l, n);
        if r.is_null() {
            CUR.fetch_sub(n, Relaxed);
        } else {
            CUR.fetch_sub(l.size(), Relaxed);
        }
        r
    }
}
pub fn set_mem_cap(n: usize) {
    CAP.store(CUR.load(Relaxed).saturating_add(n), Relaxed);
}
pub fn reset_peak() {
    let c = CUR.load(Relaxed);
    BASE.store(c, Relaxed);
    PEAK.store(c, Relaxed);
}
pub fn peak() -> usize {
    PEAK.load(Relaxed).saturating_sub(BASE.load(Relaxed))
}

pub fn set_cpu_timer(secs: u64) {
    let t = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: secs as _, tv_usec: 0 },
    };
    unsafe {
        libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
    }
}

// ---------------------------------------------------------------- panics
thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST.with(|l| *l.borrow_mut() = format!("{} @ {}", msg.chars().take(160).collect::<String>(), loc));
    }));
}
pub fn guard<T>(f: impl FnOnce() -> T) -> std::result::Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| LAST.with(|l| l.borrow().clone()))
}

// ---------------------------------------------------------------- data
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => panic!("bad hex"),
    };
    (0..b.len() / 2).map(|i| d(b[2 * i]) << 4 | d(b[2 * i + 1])).collect()
}
pub fn digest(b: &[u8]) -> String {
    hex(&Sha256::digest(b)[..8])
}
/// independent bitwise CRC-32
pub fn crc32(b: &[u8]) -> u32 {
    let mut c = 0xffff_ffffu32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}
/// the same over long runs: eight bytes at a time
pub struct Crc {
    t: Box<[[u32; 256]; 8]>,
    c: u32,
}
impl Crc {
    pub fn new() -> Self {
        let mut t = Box::new([[0u32; 256]; 8]);
        for i in 0..256usize {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 != 0 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
            }
            t[0][i] = c;
        }
        for i in 0..256 {
            for k in 1..8 {
                let x = t[k - 1][i];
                t[k][i] = (x >> 8) ^ t[0][(x & 0xff) as usize];
            }
        }
        Crc { t, c: !0 }
    }
    pub fn add(&mut self, b: &[u8]) {
        let mut c = self.c;
        let it = b.chunks_exact(8);
        let rest = it.remainder();
        for x in it {
            let v = u64::from_le_bytes(x.try_into().unwrap()) ^ c as u64;
            c = 0;
            for k in 0..8 {
                c ^= self.t[7 - k][((v >> (8 * k)) & 0xff) as usize];
            }
        }
        for x in rest {
            c = (c >> 8) ^ self.t[0][((c ^ *x as u32) & 0xff) as usize];
        }
        self.c = c;
    }
    pub fn get(&self) -> u32 {
        !self.c
    }
}
/// Bytes with long runs of one byte in them: (where, how many, which).
#[derive(Default)]
pub struct Store {
    pub dense: Vec<u8>,
    pub gaps: Vec<(u64, u64, u8)>,
}
impl Store {
    pub fn of(v: &Value) -> Self {
        match v["gaps"].as_array() {
            Some(a) => Store {
                dense: data(&v["dense"]),
                gaps: a.iter().map(|g| (un64(&g[0]), un64(&g[1]), g[2].as_u64().unwrap() as u8)).collect(),
            },
            None => Store { dense: data(v), gaps: vec![] },
        }
    }
    pub fn len(&self) -> u64 {
        self.dense.len() as u64 + self.gaps.iter().map(|g| g.1).sum::<u64>()
    }
    /// copies what there is at pos, up to the next run's edge
    pub fn copy(&self, pos: u64, buf: &mut [u8]) -> usize {
        let mut before = 0u64;
        let mut end = u64::MAX;
        for (at, n, b) in &self.gaps {
            if pos < *at {
                end = *at;
                break;
            }
            if pos < at + n {
                let k = (buf.len() as u64).min(at + n - pos) as usize;
                buf[..k].fill(*b);
                return k;
            }
            before += n;
        }
        let o = pos - before;
        if o >= self.dense.len() as u64 {
            return 0;
        }
        let k = (buf.len() as u64).min(self.dense.len() as u64 - o).min(end - pos) as usize;
        buf[..k].copy_from_slice(&self.dense[o as usize..o as usize + k]);
        k
    }
    pub fn plain(dense: Vec<u8>) -> Arc<Self> {
        Arc::new(Store { dense, gaps: vec![] })
    }
    /// all of buf, or as much as there is
    pub fn fill(&self, pos: u64, buf: &mut [u8]) -> usize {
        let mut k = 0;
        while k < buf.len() {
            let n = self.copy(pos + k as u64, &mut buf[k..]);
            if n == 0 {
                break;
            }
            k += n;
        }
        k
    }
    pub fn crc(&self, from: u64, to: u64) -> u32 {
        if self.gaps.is_empty() {
            let n = self.dense.len() as u64;
            return crc32(&self.dense[from.min(to).min(n) as usize..to.min(n) as usize]);
        }
        let mut c = Crc::new();
        let mut b = vec![0u8; 1 << 16];
        let mut p = from;
        while p < to {
            let k = (b.len() as u64).min(to - p) as usize;
            let n = self.copy(p, &mut b[..k]);
            if n == 0 {
                break;
            }
            c.add(&b[..n]);
            p += n as u64;
        }
        c.get()
    }
    pub fn digest(&self) -> String {
        if self.gaps.is_empty() {
            return digest(&self.dense);
        }
        format!("far:{}:{:08x}", self.len(), self.crc(0, self.len()))
    }
}
pub fn l64(v: u64) -> Value {
    json!([v & 0xffff, (v >> 16) & 0xffff, (v >> 32) & 0xffff, v >> 48])
}
pub fn l32(v: u32) -> Value {
    json!([v & 0xffff, v >> 16])
}
pub fn un64(v: &Value) -> u64 {
    if let Some(a) = v.as_array() {
        let mut r = 0u64;
        for (i, x) in a.iter().enumerate() {
            r |= x.as_u64().unwrap() << (16 * i);
        }
        return r;
    }
    if let Some(s) = v.as_str() {
        return s.parse().unwrap();
    }
    v.as_u64().unwrap_or(0)
}
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}
pub fn data(v: &Value) -> Vec<u8> {
    if let Some(s) = v.as_str() {
        return unhex(s);
    }
    if let Some(s) = v["hex"].as_str() {
        return unhex(s);
    }
    if let Some(s) = v["file"].as_str() {
        return std::fs::read(s).unwrap();
    }
    if let Some(a) = v["cat"].as_array() {
        return a.iter().flat_map(data).collect();
    }
    let n = v["len"].as_u64().unwrap_or(0) as usize;
    let mut r = Rng(v["seed"].as_u64().unwrap_or(1));
    let mut out = Vec::with_capacity(n);
    match v["gen"].as_str().unwrap_or("zero") {
        "zero" => out.resize(n, 0),
        "byte" => out.resize(n, v["b"].as_u64().unwrap_or(0x41) as u8),
        "rand" => {
            while out.len() < n {
                out.extend_from_slice(&r.next().to_le_bytes());
            }
        }
        "text" => {
            let words: Vec<Vec<u8>> = (0..200)
                .map(|_| (0..1 + r.below(9)).map(|_| b'a' + r.below(26) as u8).collect())
                .collect();
            while out.len() < n {
                let a = r.below(200);
                let b = r.below(a + 1);
                out.extend_from_slice(&words[b as usize]);
                out.push(if r.below(12) == 0 { b'\n' } else { b' ' });
            }
        }
        // long-range copies at assorted distances, short repeats, literals
        "lz" => {
            while out.len() < n {
                let k = r.below(10);
                if out.is_empty() || k < 2 {
                    for _ in 0..1 + r.below(12) {
                        out.push(r.next() as u8);
                    }
                } else {
                    let maxd = out.len() as u64;
                    let d = 1 + match r.below(5) {
                        0 => r.below(maxd.min(4)),
                        1 => r.below(maxd.min(128)),
                        2 => r.below(maxd.min(5000)),
                        3 => r.below(maxd.min(100_000)),
                        _ => r.below(maxd),
                    };
                    let l = match r.below(6) {
                        0 => 1,
                        1 => 2 + r.below(3),
                        2 => 2 + r.below(16),
                        3 => 2 + r.below(300),
                        4 => 270 + r.below(8),
                        _ => r.below(2000),
                    };
                    for _ in 0..l {
                        let b = out[out.len() - d as usize];
                        out.push(b);
                    }
                }
            }
        }
        "mix" => {
            let mut i = 0u64;
            while out.len() < n {
                let l = 1 + r.below(v["seg"].as_u64().unwrap_or(70_000)) as usize;
                if i % 2 == 0 {
                    for _ in 0..l {
                        out.push(r.next() as u8);
                    }
                } else {
                    let p = 1 + r.below(50) as usize;
                    let s = out.len();
                    for j in 0..l {
                        let b = if j < p { r.next() as u8 } else { out[s + j - p] };
                        out.push(b);
                    }
                }
                i += 1;
            }
        }
        "x86" => {
            while out.len() < n {
                match r.below(4) {
                    0 => {
                        out.push(0xe8 + r.below(2) as u8);
                        out.extend_from_slice(&(r.below(1 << 20) as u32).to_le_bytes());
                    }
                    1 => {
                        out.extend_from_slice(&[0x0f, 0x80 + r.below(16) as u8]);
                        out.extend_from_slice(&(r.next() as u32 & 0xff0fffff).to_le_bytes());
                    }
                    _ => out.push(r.next() as u8),
                }
            }
        }
        // random bytes whose checksum is 0 (or the given one)
        "crc" => {
            while out.len() < n {
                out.push(r.next() as u8);
            }
            if n >= 4 {
                let mut want = !(v["crc"].as_u64().unwrap_or(0) as u32);
                for _ in 0..32 {
                    want = if want >> 31 == 1 { ((want ^ 0xEDB88320) << 1) | 1 } else { want << 1 };
                }
                let x = !crc32(&out[..n - 4]) ^ want;
                out[n - 4..].copy_from_slice(&x.to_le_bytes());
            }
        }
        g => panic!("gen {}", g),
    }
    out.truncate(n);
    out
}
pub fn usizes(v: &Value) -> Vec<usize> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
        .unwrap_or_default()
}

fn kind_err(k: &str) -> Error {
    match k {
        "interrupted" => Error::from(ErrorKind::Interrupted),
        "eof" => Error::from(ErrorKind::UnexpectedEof),
        "wouldblock" => Error::from(ErrorKind::WouldBlock),
        "timedout" => Error::from(ErrorKind::TimedOut),
        "denied" => Error::from(ErrorKind::PermissionDenied),
        "notfound" => Error::from(ErrorKind::NotFound),
        "data" => Error::new(ErrorKind::InvalidData, "injected"),
        "input" => Error::new(ErrorKind::InvalidInput, "injected"),
        "broken" => Error::from(ErrorKind::BrokenPipe),
        "writezero" => Error::from(ErrorKind::WriteZero),
        "unsupported" => Error::from(ErrorKind::Unsupported),
        "memory" => Error::from(ErrorKind::OutOfMemory),
        _ => Error::new(ErrorKind::Other, "injected"),
    }
}

// ---------------------------------------------------------------- sources
/// Seekable archive source with short reads and a fault at the n-th operation.
#[derive(Clone)]
pub struct Src {
    pub data: Arc<Store>,
    pos: u64,
    short: Vec<usize>,
    i: usize,
    pub ops: Arc<AtomicUsize>,
    pub hit: Arc<AtomicBool>,
    fail_at: Option<usize>,
    fail_kind: String,
    sticky: bool,
}
impl Src {
    pub fn new(data: Arc<Store>, v: &Value) -> Self {
        Src {
            data,
            pos: 0,
            short: usizes(&v["short"]),
            i: 0,
            ops: Arc::new(AtomicUsize::new(0)),
            hit: Arc::new(AtomicBool::new(false)),
            fail_at: v["fail_at"].as_u64().map(|x| x as usize),
            fail_kind: v["fail_kind"].as_str().unwrap_or("other").into(),
            sticky: v["sticky"].as_bool().unwrap_or(false),
        }
    }
    fn tick(&mut self) -> Result<bool> {
        let k = self.ops.fetch_add(1, Relaxed);
        if let Some(f) = self.fail_at {
            if k == f || (self.sticky && k > f) {
                self.hit.store(true, Relaxed);
                if self.fail_kind == "zero" {
                    return Ok(true);
                }
                return Err(kind_err(&self.fail_kind));
            }
        }
        Ok(false)
    }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.tick()? {
            return Ok(0);
        }
        let len = self.data.len() as u64;
        if self.pos >= len {
            return Ok(0);
        }
        let mut n = (buf.len() as u64).min(len - self.pos) as usize;
        if !self.short.is_empty() && n > 0 {
            n = n.min(self.short[self.i % self.short.len()].max(1));
            self.i += 1;
        }
        n = self.data.fill(self.pos, &mut buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Src {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        if self.fail_kind != "zero" {
            self.tick()?;
        }
        let np = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.data.len() as i128 + x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
        };
        if np < 0 || np > u64::MAX as i128 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        self.pos = np as u64;
        Ok(self.pos)
    }
}

/// Data source of an added entry: split pattern, failure at an offset.
pub struct DataSrc {
    pub data: Arc<Store>,
    pos: u64,
    chunks: Vec<usize>,
    i: usize,
    fail_at: Option<usize>,
    fail_kind: String,
}
impl DataSrc {
    pub fn new(v: &Value, dflt: &Value) -> Self {
        let ch = if v["chunks"].is_null() { dflt } else { &v["chunks"] };
        DataSrc {
            data: Arc::new(Store::of(&v["data"])),
            pos: 0,
            chunks: usizes(ch),
            i: 0,
            fail_at: v["fail_at"].as_u64().map(|x| x as usize),
            fail_kind: v["fail_kind"].as_str().unwrap_or("other").into(),
        }
    }
}
impl Read for DataSrc {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut n = (buf.len() as u64).min(self.data.len() - self.pos) as usize;
        if !self.chunks.is_empty() && n > 0 {
            n = n.min(self.chunks[self.i % self.chunks.len()].max(1));
            self.i += 1;
        }
        if let Some(f) = self.fail_at {
            if self.pos >= f as u64 {
                return Err(kind_err(&self.fail_kind));
            }
            n = n.min(f - self.pos as usize);
        }
        n = self.data.fill(self.pos, &mut buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}

// ---------------------------------------------------------------- sink
#[derive(Clone, Debug)]
pub enum Op {
    Write(u64, Vec<u8>),
    Seek(u64),
    Flush,
}
#[derive(Default)]
pub struct SinkState {
    pub buf: Vec<u8>,
    pub pages: Option<Pages>,
    pub pos: u64,
    pub short: Vec<usize>,
    pub i: usize,
    pub ops: usize,
    pub faulted: bool,
    pub nfaults: usize,
    pub fail_at: Option<usize>,
    pub fail_kind: String,
    pub sticky: bool,
    pub log: Option<Vec<Op>>,
    /// where the first write since the mark was cleared went
    pub first: Option<u64>,
}
#[derive(Clone)]
pub struct Sink(pub Rc<RefCell<SinkState>>);
impl Sink {
    pub fn new(v: &Value) -> Self {
        Sink(Rc::new(RefCell::new(SinkState {
            short: usizes(&v["short"]),
            fail_at: v["fail_at"].as_u64().map(|x| x as usize),
            fail_kind: v["fail_kind"].as_str().unwrap_or("other").into(),
            sticky: v["sticky"].as_bool().unwrap_or(false),
            pages: if v["pages"].as_bool().unwrap_or(false) { Some(Pages::default()) } else { None },
            log: if v["log"].as_bool().unwrap_or(false) { Some(vec![]) } else { None },
            ..Default::default()
        })))
    }
    pub fn dense(&self) -> Vec<u8> {
        self.0.borrow().buf.clone()
    }
    pub fn store(&self) -> Store {
        let s = self.0.borrow();
        match &s.pages {
            Some(p) => p.store(),
            None => Store { dense: s.buf.clone(), gaps: vec![] },
        }
    }
}
/// Output of which whole pages hold one byte over and over; other pages are kept up to a limit,
/// beyond which the oldest but the first is given up (and reads as `LOST`).
const PAGE: usize = 1 << 16;
const KEPT: usize = 1 << 10;
#[derive(Clone)]
enum Page {
    Of(u8),
    Bytes(Vec<u8>),
    Lost,
}
const LOST: u8 = 0xEE;
#[derive(Default)]
pub struct Pages {
    full: Vec<Page>,
    /// the page being filled
    last: Vec<u8>,
    kept: usize,
    next: usize,
    pub lost: bool,
}
impl Pages {
    pub fn len(&self) -> u64 {
        (self.full.len() * PAGE + self.last.len()) as u64
    }
    fn apply(&mut self, mut pos: u64, mut b: &[u8]) {
        while !b.is_empty() {
            let (k, o) = ((pos / PAGE as u64) as usize, (pos % PAGE as u64) as usize);
            let n = b.len().min(PAGE - o);
            while k > self.full.len() {
                self.last.resize(PAGE, 0);
                self.push();
            }
            if k < self.full.len() {
                let p = &mut self.full[k];
                match p {
                    Page::Bytes(v) => v[o..o + n].copy_from_slice(&b[..n]),
                    Page::Of(x) => {
                        let mut v = vec![*x; PAGE];
                        v[o..o + n].copy_from_slice(&b[..n]);
                        *p = Page::Bytes(v);
                    }
                    Page::Lost => {}
                }
            } else {
                if self.last.len() < o + n {
                    self.last.resize(o + n, 0);
                }
                self.last[o..o + n].copy_from_slice(&b[..n]);
                if self.last.len() == PAGE {
                    self.push();
                }
            }
            pos += n as u64;
            b = &b[n..];
        }
    }
    fn push(&mut self) {
        let b = std::mem::take(&mut self.last);
        self.last.reserve_exact(PAGE);
        if b.iter().all(|x| *x == b[0]) {
            self.full.push(Page::Of(b[0]));
            return;
        }
        self.full.push(Page::Bytes(b));
        self.kept += 1;
        while self.kept > KEPT {
            self.next += 1;
            if let Page::Bytes(_) = self.full[self.next] {
                self.full[self.next] = Page::Lost;
                self.kept -= 1;
                self.lost = true;
            }
        }
    }
    fn store(&self) -> Store {
        let mut s = Store::default();
        let mut at = 0u64;
        for p in &self.full {
            let mut run = |b: u8| {
                match s.gaps.last_mut() {
                    Some((p, n, x)) if *x == b && *p + *n == at => *n += PAGE as u64,
                    _ => s.gaps.push((at, PAGE as u64, b)),
                }
            };
            match p {
                Page::Of(b) => run(*b),
                Page::Lost => run(LOST),
                Page::Bytes(v) => s.dense.extend_from_slice(v),
            }
            at += PAGE as u64;
        }
        s.dense.extend_from_slice(&self.last);
        s
    }
}
impl SinkState {
    pub fn len(&self) -> u64 {
        self.pages.as_ref().map(|p| p.len()).unwrap_or(self.buf.len() as u64)
    }
    fn tick(&mut self, can_zero: bool) -> Result<bool> {
        let k = self.ops;
        self.ops += 1;
        if let Some(f) = self.fail_at {
            if k == f || (self.sticky && k > f) {
                if self.fail_kind == "zero" {
                    if can_zero {
                        self.faulted = true;
                        self.nfaults += 1;
                        return Ok(true);
                    }
                    return Ok(false);
                }
                self.faulted = true;
                self.nfaults += 1;
                return Err(kind_err(&self.fail_kind));
            }
        }
        Ok(false)
    }
}
pub fn apply(buf: &mut Vec<u8>, pos: u64, b: &[u8]) {
    let e = pos as usize + b.len();
    if buf.len() < e {
        buf.resize(e, 0);
    }
    buf[pos as usize..e].copy_from_slice(b);
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let mut s = self.0.borrow_mut();
        if b.is_empty() {
            return Ok(0);
        }
        if s.tick(true)? {
            return Ok(0);
        }
        let mut n = b.len();
        if !s.short.is_empty() {
            n = n.min(s.short[s.i % s.short.len()].max(1));
            s.i += 1;
        }
        let pos = s.pos;
        s.first.get_or_insert(pos);
        match s.pages.as_mut() {
            Some(p) => p.apply(pos, &b[..n]),
            None => apply(&mut s.buf, pos, &b[..n]),
        }
        if let Some(l) = s.log.as_mut() {
            l.push(Op::Write(pos, b[..n].to_vec()));
        }
        s.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        let mut s = self.0.borrow_mut();
        s.tick(false)?;
        if let Some(l) = s.log.as_mut() {
            l.push(Op::Flush);
        }
        Ok(())
    }
}
impl Seek for Sink {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let mut s = self.0.borrow_mut();
        s.tick(false)?;
        let np = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => s.len() as i128 + x as i128,
            SeekFrom::Current(x) => s.pos as i128 + x as i128,
        };
        if np < 0 {
            return Err(Error::from(ErrorKind::InvalidInput));
        }
        s.pos = np as u64;
        let pos = s.pos;
        if let Some(l) = s.log.as_mut() {
            l.push(Op::Seek(pos));
        }
        Ok(pos)
    }
}
