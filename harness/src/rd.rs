//! Reading archives.
use crate::env::*;
use crate::wr::{describe, password};
use serde_json::{json, Value};
use sevenz_rust::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Read;
use std::sync::Arc;

const SENTINEL: &str = "harness-visitor-error";

fn e_class(e: &Error) -> String {
    let s = format!("{:?}", e);
    if s.contains(SENTINEL) {
        return "err:visitor".into();
    }
    if s.contains("injected") {
        return "err:injected".into();
    }
    match e {
        Error::PasswordRequired => "err:password_required".into(),
        _ => "err".into(),
    }
}

fn pick<'a>(v: &'a Value, idx: i64, k: usize) -> &'a Value {
    // visitor program: by visit ordinal or by entry index, else default
    if let Some(a) = v.as_array() {
        if k < a.len() {
            return &a[k];
        }
        return &Value::Null;
    }
    let x = &v[idx.to_string()];
    if !x.is_null() {
        return x;
    }
    &v["*"]
}

/// reads an entry according to `a`; returns (status, bytes)
fn consume(r: &mut dyn Read, a: &Value, bufs: &[usize]) -> (String, Vec<u8>, Option<std::io::Error>) {
    let want = a["read"].as_i64().unwrap_or(-1);
    let mut got = vec![];
    let mut i = 0;
    loop {
        let mut n = if bufs.is_empty() { 65536 } else { bufs[i % bufs.len()] };
        i += 1;
        if want >= 0 {
            let left = want as usize - got.len().min(want as usize);
            if left == 0 {
                return (if want == 0 { "skip" } else { "part" }.into(), got, None);
            }
            n = n.min(left);
        }
        let o = got.len();
        got.resize(o + n, 0xAA);
        match r.read(&mut got[o..]) {
            Ok(m) => {
                if m > n {
                    got.truncate(o);
                    return ("overrun".into(), got, None);
                }
                got.truncate(o + m);
                if m == 0 && n > 0 {
                    // the end must stay the end
                    let mut b = [0u8; 7];
                    return match r.read(&mut b) {
                        Ok(0) => ("ok".into(), got, None),
                        Ok(_) => ("more".into(), got, None),
                        Err(_) => ("err_after_end".into(), got, None),
                    };
                }
            }
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {
                got.truncate(o);
            }
            Err(e) => {
                got.truncate(o);
                return ("err".into(), got, Some(e));
            }
        }
        if got.len() > (1 << 28) {
            return ("endless".into(), got, None);
        }
    }
}

struct Visits<'a> {
    base: usize,
    count: usize,
    names: Vec<String>,
    contents: &'a [Arc<Store>],
    prog: &'a Value,
    bufs: Vec<usize>,
    keep: bool,
    seen: Vec<bool>,
    out: Vec<Value>,
    full: bool,
}
impl<'a> Visits<'a> {
    /// an entry too long to keep: compared as it comes, and the bytes at the given places kept
    fn visit_far(&mut self, e: &SevenZArchiveEntry, r: &mut dyn Read, idx: i64, a: &Value) -> Result<bool, Error> {
        let want = if idx >= 0 && (idx as usize) < self.contents.len() { Some(self.contents[idx as usize].clone()) } else { None };
        let wins: Vec<(u64, u64)> =
            a["far"]["win"].as_array().map(|w| w.iter().map(|x| (un64(&x[0]), un64(&x[1]))).collect()).unwrap_or_default();
        let mut kept: Vec<Vec<u8>> = wins.iter().map(|_| vec![]).collect();
        let fill = a["far"]["fill"].as_u64().unwrap_or(0) as u8;
        let mut others = 0u64;
        let (mut crc, mut n, mut same) = (Crc::new(), 0u64, true);
        let mut i = 0;
        let mut w = vec![];
        let mut buf = vec![];
        let mut err = None;
        let st = loop {
            let k = if self.bufs.is_empty() { 1 << 16 } else { self.bufs[i % self.bufs.len()] };
            i += 1;
            buf.resize(k, 0xAA);
            let m = match r.read(&mut buf) {
                Ok(0) => {
                    let mut b = [0u8; 7];
                    break match r.read(&mut b) {
                        Ok(0) => "ok",
                        Ok(_) => "more",
                        Err(_) => "err_after_end",
                    };
                }
                Ok(m) if m > k => break "overrun",
                Ok(m) => m,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                Err(e) => {
                    err = Some(e);
                    break "err";
                }
            };
            if self.full {
                crc.add(&buf[..m]);
            }
            if let Some(s) = &want {
                w.resize(m, 0);
                same = same && s.fill(n, &mut w) == m && w[..] == buf[..m];
            }
            let mut inside = 0u64;
            for ((at, len), k) in wins.iter().zip(kept.iter_mut()) {
                let (lo, hi) = ((*at).max(n), (at + len).min(n + m as u64));
                if lo < hi {
                    let b = &buf[(lo - n) as usize..(hi - n) as usize];
                    k.extend_from_slice(b);
                    inside += b.iter().filter(|x| **x != fill).count() as u64;
                }
            }
            if !wins.is_empty() && (inside > 0 || buf[..m].iter().any(|x| *x != fill)) {
                others += buf[..m].iter().filter(|x| **x != fill).count() as u64 - inside;
            }
            n += m as u64;
            if n > 1 << 36 {
                break "endless";
            }
        };
        let rel = match &want {
            None => "unknown",
            Some(s) if same && n == s.len() => "eq",
            Some(_) if same => "prefix",
            _ => "wrong",
        };
        let mut o = json!({"i": idx, "st": st, "rel": rel, "n": l64(n)});
        if !wins.is_empty() {
            o["d"] = json!(kept);
            o["others"] = json!(others.min(1 << 30));
        }
        if self.full {
            o["name"] = json!(e.name);
            o["h"] = json!(format!("far:{}:{:08x}", n, crc.get()));
            o["crc"] = l32(crc.get());
        }
        self.out.push(o);
        answer(a, err)
    }
    fn new(ar: &Archive, contents: &'a [Arc<Store>], plan: &'a Value) -> Self {
        Visits {
            base: ar.files.as_ptr() as usize,
            count: ar.files.len(),
            names: ar.files.iter().map(|f| f.name.clone()).collect(),
            contents,
            prog: &plan["visit"],
            bufs: usizes(&plan["buf"]),
            keep: plan["data"].as_bool().unwrap_or(false),
            seen: vec![false; ar.files.len()],
            out: vec![],
            full: plan["brief"].as_bool() != Some(true),
        }
    }
    fn index(&mut self, e: &SevenZArchiveEntry) -> i64 {
        let p = e as *const _ as usize;
        let sz = std::mem::size_of::<SevenZArchiveEntry>();
        if p >= self.base && p < self.base + sz * self.count && (p - self.base) % sz == 0 {
            return ((p - self.base) / sz) as i64;
        }
        for i in 0..self.names.len() {
            if self.names[i] == e.name && !self.seen[i] {
                return i as i64;
            }
        }
        self.names.iter().position(|n| *n == e.name).map(|x| x as i64).unwrap_or(-1)
    }
    fn visit(&mut self, e: &SevenZArchiveEntry, r: &mut dyn Read) -> Result<bool, Error> {
        let idx = self.index(e);
        if idx >= 0 {
            self.seen[idx as usize] = true;
        }
        let k = self.out.len();
        let a = pick(self.prog, idx, k);
        let gapped = idx >= 0 && (idx as usize) < self.contents.len() && !self.contents[idx as usize].gaps.is_empty();
        if a["far"].is_object() || (gapped && a["read"].as_i64().unwrap_or(-1) < 0) {
            return self.visit_far(e, r, idx, a);
        }
        let (st, got, err) = consume(r, a, &self.bufs);
        let rel = if idx >= 0 && (idx as usize) < self.contents.len() {
            let mut start = vec![];
            let c = if gapped {
                // one byte more than was read: there is always more
                start.resize(got.len() + 1, 0);
                let n = self.contents[idx as usize].fill(0, &mut start);
                start.truncate(n);
                &start
            } else {
                &self.contents[idx as usize].dense
            };
            if *c == got {
                "eq"
            } else if c.len() > got.len() && c[..got.len()] == got[..] {
                "prefix"
            } else {
                "wrong"
            }
        } else {
            "unknown"
        };
        let mut o = json!({"i": idx, "st": st, "rel": rel, "n": l64(got.len() as u64)});
        if self.full {
            o["name"] = json!(e.name);
            o["h"] = json!(digest(&got));
            o["crc"] = l32(crc32(&got));
        }
        if self.keep {
            o["d"] = json!(got);
        }
        self.out.push(o);
        answer(a, err)
    }
}

/// what the visitor tells the iteration
fn answer(a: &Value, err: Option<std::io::Error>) -> Result<bool, Error> {
    if let Some(e) = err {
        if a["ret"].as_str() != Some("ignore") {
            return Err(Error::io(e));
        }
    }
    match a["ret"].as_str() {
        Some("stop") => Ok(false),
        Some("err") => Err(Error::other(SENTINEL)),
        _ => Ok(true),
    }
}

fn blocks(ar: &Archive, src: &mut Src, pw: &[u8]) -> Value {
    let mut v = vec![];
    for i in 0..ar.folders.len() {
        let r = guard(|| {
            let b = BlockDecoder::new(i, ar, pw, src);
            let n = b.entry_count();
            let base = ar.files.as_ptr() as usize;
            let sz = std::mem::size_of::<SevenZArchiveEntry>();
            let es: Vec<i64> = b
                .entries()
                .iter()
                .map(|e| ((e as *const _ as usize as i64) - base as i64) / sz as i64)
                .collect();
            let names: Vec<String> = b.entries().iter().map(|e| e.name.clone()).collect();
            json!({"n": n, "es": es, "names": names})
        });
        v.push(r.unwrap_or_else(|p| json!({"panic": p})));
    }
    json!(v)
}

fn one_block(ar: &Archive, bi: usize, mut src: Src, pw: &[u8], contents: &[Arc<Store>], plan: &Value) -> Value {
    let visits = RefCell::new(Visits::new(ar, contents, plan));
    let r = guard(|| {
        BlockDecoder::new(bi, ar, pw, &mut src)
            .for_each_entries(&mut |e: &SevenZArchiveEntry, rd: &mut dyn Read| visits.borrow_mut().visit(e, rd))
    });
    let end = match r {
        Ok(Ok(true)) => "ok".to_string(),
        Ok(Ok(false)) => "stopped".to_string(),
        Ok(Err(e)) => e_class(&e),
        Err(p) => format!("panic:{}", p),
    };
    let out = visits.try_borrow_mut().map(|mut v| std::mem::take(&mut v.out)).unwrap_or_default();
    json!({"b": bi, "end": end, "visits": out})
}

/// One read of an archive image following plan `r`.
pub fn read_once(bytes: &Arc<Store>, contents: &[Arc<Store>], r: &Value) -> Value {
    let (mut o, hit) = read_once2(bytes, contents, r);
    o["hit"] = json!(hit.load(std::sync::atomic::Ordering::Relaxed));
    o
}
fn read_once2(bytes: &Arc<Store>, contents: &[Arc<Store>], r: &Value) -> (Value, Arc<std::sync::atomic::AtomicBool>) {
    let src = Src::new(bytes.clone(), &r["src"]);
    let len = if r["len"].is_null() { bytes.len() } else { un64(&r["len"]) };
    let pw = password(&r["pw"]);
    match r["via"].as_str().unwrap_or("new") {
        // the archive parsed first and handed over
        "archive" => {
            let o = guard(|| {
                let mut s = src.clone();
                let ar = Archive::read(&mut s, len, pw.as_slice())?;
                Ok(SevenZReader::from_archive(ar, s, pw))
            });
            rest(o, src, contents, r)
        }
        // through a file
        v @ ("path" | "apath") => {
            static K: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            let k = K.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let p = std::env::temp_dir().join(format!("sevenz-harness-{}-{}.7z", std::process::id(), k));
            std::fs::write(&p, &bytes.dense[..]).unwrap();
            let o = guard(|| {
                if v == "path" {
                    SevenZReader::open(&p, pw)
                } else {
                    let ar = if pw.is_empty() { Archive::open(&p)? } else { Archive::open_with_password(&p, &pw)? };
                    let f = std::fs::File::open(&p).unwrap();
                    Ok(SevenZReader::from_archive(ar, f, pw))
                }
            });
            let _ = std::fs::remove_file(&p);
            rest(o, src, contents, r)
        }
        _ => rest(guard(|| SevenZReader::new(src.clone(), len, pw)), src, contents, r),
    }
}
fn rest<R: Read + std::io::Seek>(
    opened: Result<Result<SevenZReader<R>, Error>, String>,
    src: Src,
    contents: &[Arc<Store>],
    r: &Value,
) -> (Value, Arc<std::sync::atomic::AtomicBool>) {
    let ops = src.ops.clone();
    let hit = src.hit.clone();
    let mode = r["mode"].as_str().unwrap_or("each");
    let pwv = password(&r["pw"]).to_vec();
    let mut out = json!({});
    let brief = r["brief"].as_bool() == Some(true);
    let mut rdr = match opened {
        Ok(Ok(x)) => {
            out["open"] = json!("ok");
            x
        }
        Ok(Err(e)) => {
            out["open"] = json!(e_class(&e));
            if r["msg"].as_bool() == Some(true) {
                out["msg"] = json!(format!("{:?}", e));
            }
            out["src_ops"] = json!(ops.load(std::sync::atomic::Ordering::Relaxed));
            return (out, hit);
        }
        Err(p) => {
            out["open"] = json!(format!("panic:{}", p));
            return (out, hit);
        }
    };
    let list: Vec<Value> = rdr.archive().files.iter().map(describe).collect();
    if brief {
        out["list"] = json!(digest(Value::Array(list).to_string().as_bytes()));
    } else {
        out["list"] = Value::Array(list);
    }
    out["open_ops"] = json!(ops.load(std::sync::atomic::Ordering::Relaxed));
    if mode == "open" {
        return (out, hit);
    }
    if r["blocks"].as_bool() != Some(false) && !brief {
        let mut s2 = src.clone();
        out["blocks"] = blocks(rdr.archive(), &mut s2, &pwv);
    }
    match mode {
        "each" => {
            let vs = RefCell::new(Visits::new(rdr.archive(), contents, r));
            let q = guard(|| rdr.for_each_entries(|e, rd| vs.borrow_mut().visit(e, rd)));
            out["end"] = json!(match q {
                Ok(Ok(())) => "ok".to_string(),
                Ok(Err(e)) => {
                    if r["msg"].as_bool() == Some(true) {
                        out["msg"] = json!(format!("{:?}", e));
                    }
                    e_class(&e)
                }
                Err(p) => format!("panic:{}", p),
            });
            out["visits"] =
                Value::Array(vs.try_borrow_mut().map(|mut v| std::mem::take(&mut v.out)).unwrap_or_default());
        }
        "blocks" => {
            let ar = rdr.archive();
            let order: Vec<usize> = if r["order"].is_null() { (0..ar.folders.len()).collect() } else { usizes(&r["order"]) };
            out["per_block"] = Value::Array(
                order
                    .iter()
                    .filter(|b| **b < ar.folders.len())
                    .map(|b| one_block(ar, *b, src.clone(), &pwv, contents, r))
                    .collect(),
            );
        }
        "shared" => {
            // one source shared by successive block decoders
            let ar = rdr.archive().clone();
            let order: Vec<usize> = if r["order"].is_null() { (0..ar.folders.len()).collect() } else { usizes(&r["order"]) };
            let mut s = src.clone();
            let mut res = vec![];
            for b in order.into_iter().filter(|b| *b < ar.folders.len()) {
                let visits = RefCell::new(Visits::new(&ar, contents, r));
                let q = guard(|| {
                    BlockDecoder::new(b, &ar, &pwv, &mut s)
                        .for_each_entries(&mut |e: &SevenZArchiveEntry, rd: &mut dyn Read| visits.borrow_mut().visit(e, rd))
                });
                let end = match q {
                    Ok(Ok(true)) => "ok".to_string(),
                    Ok(Ok(false)) => "stopped".to_string(),
                    Ok(Err(e)) => e_class(&e),
                    Err(p) => format!("panic:{}", p),
                };
                let o = visits.try_borrow_mut().map(|mut v| std::mem::take(&mut v.out)).unwrap_or_default();
                res.push(json!({"b": b, "end": end, "visits": o}));
            }
            out["per_block"] = Value::Array(res);
        }
        "par" => {
            let ar = rdr.archive();
            let order: Vec<usize> = if r["order"].is_null() { (0..ar.folders.len()).collect() } else { usizes(&r["order"]) };
            let res: Vec<Value> = std::thread::scope(|sc| {
                let hs: Vec<_> = order
                    .iter()
                    .filter(|b| **b < ar.folders.len())
                    .map(|b| {
                        let b = *b;
                        let s = src.clone();
                        let pwv = &pwv;
                        sc.spawn(move || one_block(ar, b, s, pwv, contents, r))
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| json!({"end":"panic:thread"}))).collect()
            });
            out["per_block"] = Value::Array(res);
        }
        "twice" => {
            // iterate the same reader two times
            for k in ["", "2"] {
                let vs = RefCell::new(Visits::new(rdr.archive(), contents, r));
                let q = guard(|| rdr.for_each_entries(|e, rd| vs.borrow_mut().visit(e, rd)));
                out[format!("end{}", k)] = json!(match q {
                    Ok(Ok(())) => "ok".to_string(),
                    Ok(Err(e)) => e_class(&e),
                    Err(p) => format!("panic:{}", p),
                });
                out[format!("visits{}", k)] =
                    Value::Array(vs.try_borrow_mut().map(|mut v| std::mem::take(&mut v.out)).unwrap_or_default());
            }
        }
        m => panic!("mode {}", m),
    }
    out["src_ops"] = json!(ops.load(std::sync::atomic::Ordering::Relaxed));
    (out, hit)
}

fn mutate(b: &Arc<Store>, m: &Value) -> Vec<u8> {
    let mut b = b.dense.clone();
    for e in m.as_array().unwrap_or(&vec![]) {
        if let Some(x) = e["xor"].as_array() {
            let o = x[0].as_u64().unwrap() as usize;
            if o < b.len() {
                b[o] ^= x[1].as_u64().unwrap() as u8;
            }
        }
        if let Some(x) = e["set"].as_array() {
            let o = x[0].as_u64().unwrap() as usize;
            if o < b.len() {
                b[o] = x[1].as_u64().unwrap() as u8;
            }
        }
        if let Some(n) = e["trunc"].as_u64() {
            b.truncate(n as usize);
        }
        if e["blank"].as_bool() == Some(true) && b.len() >= 32 {
            b[8..32].fill(0);
        }
        if !e["append"].is_null() {
            b.extend(data(&e["append"]));
        }
        if let Some(x) = e["splice"].as_array() {
            let o = (x[0].as_u64().unwrap() as usize).min(b.len());
            let n = (o + x[1].as_u64().unwrap() as usize).min(b.len());
            b.splice(o..n, unhex(x[2].as_str().unwrap()));
        }
        if e["fixcrc"].as_bool() == Some(true) {
            fix_crc(&mut b);
        }
    }
    b
}
/// recompute header and start-header checksums (for damage that is made to look consistent)
pub fn fix_crc(b: &mut Vec<u8>) {
    if b.len() < 32 {
        return;
    }
    let off = u64::from_le_bytes(b[12..20].try_into().unwrap());
    let sz = u64::from_le_bytes(b[20..28].try_into().unwrap());
    let s = off.saturating_add(32);
    if let Some(e) = s.checked_add(sz) {
        if e <= b.len() as u64 {
            let c = crc32(&b[s as usize..e as usize]);
            b[28..32].copy_from_slice(&c.to_le_bytes());
        }
    }
    let c = crc32(&b[12..32]);
    b[8..12].copy_from_slice(&c.to_le_bytes());
}

/// A plan is one read, or a sweep of reads over mutations / faults whose distinct outcomes are
/// collected with a count and the first example.
pub fn read_plan(bytes: &Arc<Store>, contents: &[Arc<Store>], r: &Value) -> Value {
    let sw = &r["sweep"];
    if sw.is_null() {
        if r["mutate"].is_null() {
            return read_once(bytes, contents, r);
        }
        return read_once(&Store::plain(mutate(bytes, &r["mutate"])), contents, r);
    }
    let base = if r["mutate"].is_null() { bytes.clone() } else { Store::plain(mutate(bytes, &r["mutate"])) };
    let whole = base.clone();
    let base = &base.dense;
    let mut outs: BTreeMap<String, (u64, Value)> = BTreeMap::new();
    let mut total = 0u64;
    let mut probe = |b: &Arc<Store>, r: &Value, tag: Value| {
        let mut o = read_once(b, contents, r);
        if let Some(m) = o.as_object_mut() {
            m.remove("src_ops");
            m.remove("open_ops");
        }
        total += 1;
        let e = outs.entry(o.to_string()).or_insert((0, json!({"at": tag, "read": o})));
        e.0 += 1;
    };
    let lo = sw["from"].as_u64().unwrap_or(0) as usize;
    let hi = (sw["to"].as_u64().unwrap_or(base.len() as u64) as usize).min(base.len());
    let step = sw["step"].as_u64().unwrap_or(1) as usize;
    let fix = sw["fixcrc"].as_bool() == Some(true);
    match sw["kind"].as_str().unwrap() {
        "xor" => {
            for i in (lo..hi).step_by(step) {
                for x in usizes(&sw["vals"]) {
                    let mut b = base.to_vec();
                    b[i] ^= x as u8;
                    if fix {
                        fix_crc(&mut b);
                    }
                    probe(&Store::plain(b), r, json!([i, x]));
                }
            }
        }
        "set" => {
            for i in (lo..hi).step_by(step) {
                for x in usizes(&sw["vals"]) {
                    if base[i] == x as u8 {
                        continue;
                    }
                    let mut b = base.to_vec();
                    b[i] = x as u8;
                    if fix {
                        fix_crc(&mut b);
                    }
                    probe(&Store::plain(b), r, json!([i, x]));
                }
            }
        }
        "trunc" => {
            for i in (lo..hi).step_by(step) {
                probe(&Store::plain(base[..i].to_vec()), r, json!([i, 0]));
            }
        }
        "delete" => {
            for i in (lo..hi).step_by(step) {
                let mut b = base.to_vec();
                b.remove(i);
                if fix {
                    fix_crc(&mut b);
                }
                probe(&Store::plain(b), r, json!([i, 0]));
            }
        }
        "swap" => {
            for i in (lo..hi.saturating_sub(1)).step_by(step) {
                let mut b = base.to_vec();
                b.swap(i, i + 1);
                if b[..] != base[..] {
                    probe(&Store::plain(b), r, json!([i, 0]));
                }
            }
        }
        "srcfault" => {
            // fail each source operation in turn
            let n0 = read_once(&whole, contents, r)["src_ops"].as_u64().unwrap_or(0) as usize;
            let n = n0.min(sw["max"].as_u64().unwrap_or(400) as usize);
            for k in 0..n {
                let mut r2 = r.clone();
                r2["sweep"] = Value::Null;
                r2["src"]["fail_at"] = json!(k);
                r2["src"]["fail_kind"] = sw["fail_kind"].clone();
                r2["src"]["sticky"] = sw["sticky"].clone();
                probe(&whole, &r2, json!([k, n0]));
            }
        }
        k => panic!("sweep {}", k),
    }
    let v: Vec<Value> = outs
        .into_iter()
        .map(|(_, (c, mut v))| {
            v["count"] = json!(c);
            v
        })
        .collect();
    json!({"sweep": v, "total": total})
}

pub fn run(v: &Value) -> Value {
    let mut b = match v["bytes"].as_array() {
        Some(a) => Store { dense: a.iter().map(|x| x.as_u64().unwrap() as u8).collect(), gaps: vec![] },
        None => Store::of(&v["bytes"]),
    };
    if v["fixcrc"].as_bool() == Some(true) {
        fix_crc(&mut b.dense);
    }
    let b = Arc::new(b);
    let contents: Vec<Arc<Store>> = v["contents"].as_array().map(|a| a.iter().map(|x| Arc::new(Store::of(x))).collect()).unwrap_or_default();
    let srcs: Vec<Value> = contents
        .iter()
        .map(|d| json!({"n": l64(d.len()), "crc": l32(d.crc(0, d.len())), "h": d.digest()}))
        .collect();
    json!({"reads": v["reads"].as_array().unwrap_or(&vec![]).iter().map(|r| read_plan(&b, &contents, r)).collect::<Vec<_>>(),
           "srcs": srcs, "len": b.len()})
}
