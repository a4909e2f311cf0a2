//! Extraction to and compression of real directory trees (inside scratch directories only).
use crate::env::*;
use crate::wr::{methods, password};
use serde_json::{json, Value};
use sevenz_rust::*;
use std::cell::RefCell;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// FILETIME (100 ns since 1601) of a system time
fn ft(t: SystemTime) -> u64 {
    const D: i128 = 116_444_736_000_000_000;
    let x = match t.duration_since(UNIX_EPOCH) {
        Ok(d) => (d.as_nanos() / 100) as i128,
        Err(e) => -((e.duration().as_nanos() / 100) as i128),
    };
    (x + D) as u64
}
fn from_ft(v: u64) -> SystemTime {
    const D: i128 = 116_444_736_000_000_000;
    let x = (v as i128 - D) * 100;
    if x >= 0 {
        UNIX_EPOCH + Duration::new((x / 1_000_000_000) as u64, (x % 1_000_000_000) as u32)
    } else {
        UNIX_EPOCH - Duration::new((-x / 1_000_000_000) as u64, (-x % 1_000_000_000) as u32)
    }
}

fn file_digest(p: &Path) -> (String, u64) {
    let d = std::fs::read(p).unwrap_or_default();
    (digest(&d), d.len() as u64)
}
/// as visit_far makes it
fn far_digest(p: &Path) -> (String, u64) {
    use std::io::Read;
    let (mut c, mut n, mut buf) = (Crc::new(), 0u64, vec![0u8; 1 << 20]);
    let mut f = std::fs::File::open(p).unwrap();
    loop {
        let m = f.read(&mut buf).unwrap();
        if m == 0 {
            break (format!("far:{}:{:08x}", n, c.get()), n);
        }
        c.add(&buf[..m]);
        n += m as u64;
    }
}
pub fn snapshot(root: &Path) -> Value {
    snapshot_by(root, file_digest)
}
fn snapshot_by(root: &Path, dig: fn(&Path) -> (String, u64)) -> Value {
    let mut out = vec![];
    fn walk(p: &Path, root: &Path, out: &mut Vec<Value>, dig: fn(&Path) -> (String, u64)) {
        let mut es: Vec<_> = match std::fs::read_dir(p) {
            Ok(r) => r.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
            Err(_) => return,
        };
        es.sort();
        for e in es {
            let m = match std::fs::symlink_metadata(&e) {
                Ok(m) => m,
                Err(_) => continue,
            };
            let rel = e.strip_prefix(root).unwrap().to_string_lossy().to_string();
            let k = if m.file_type().is_symlink() {
                "link"
            } else if m.is_dir() {
                "dir"
            } else if m.is_file() {
                "file"
            } else {
                "other"
            };
            let (h, n) = if k == "file" { dig(&e) } else { (digest(&[]), 0) };
            out.push(json!({"path": rel, "kind": k, "h": h, "n": l64(n),
                "mt": l64(ft(m.modified().unwrap()))}));
            if k == "dir" {
                walk(&e, root, out, dig);
            }
        }
    }
    walk(root, root, &mut out, dig);
    Value::Array(out)
}

/// {"root": scratch dir, "dest": relative dest, "bytes"/"w"...}: extracts with the default function
/// or with a recording stand-in that only notes the target path it was given.
pub fn extract(v: &Value) -> Value {
    let root = PathBuf::from(v["root"].as_str().unwrap());
    let bytes = if v["w"].is_object() {
        let s = crate::wr::session(&v["w"]);
        if !s.finished {
            return json!({"session": "failed", "ops": s.results});
        }
        s.sink.dense()
    } else {
        data(&v["bytes"])
    };
    let contents: Vec<Value> =
        v["contents"].as_array().map(|a| a.iter().map(|c| json!({"h": digest(&data(c)), "n": l64(data(c).len() as u64)})).collect()).unwrap_or_default();
    let full = root.join(v["dest"].as_str().unwrap_or("out"));
    for p in v["prepare"].as_array().unwrap_or(&vec![]) {
        let t = root.join(p["path"].as_str().unwrap());
        match p["kind"].as_str().unwrap() {
            "dir" => std::fs::create_dir_all(&t).unwrap(),
            "file" => {
                if let Some(q) = t.parent() {
                    std::fs::create_dir_all(q).unwrap();
                }
                std::fs::write(&t, data(&p["data"])).unwrap()
            }
            k => panic!("prepare {}", k),
        }
    }
    let before = snapshot(&root);
    let pw = password(&v["pw"]);
    let src = Src::new(Store::plain(bytes.clone()), &v["src"]);
    let calls = RefCell::new(vec![]);
    let how = v["how"].as_str().unwrap_or("default");
    let cwd = std::env::current_dir().ok();
    // a destination given relative to the working directory
    let dest = if v["rel"] == true {
        std::env::set_current_dir(&root).unwrap();
        PathBuf::from(v["dest"].as_str().unwrap_or("out"))
    } else {
        full
    };
    let mut note = |e: &SevenZArchiveEntry, rd: &mut dyn Read, p: &PathBuf| {
        let mut b = vec![];
        rd.read_to_end(&mut b).map_err(Error::io)?;
        let q = if p.is_absolute() { p.clone() } else { root.join(p) };
        let rel = q.strip_prefix(&root).map(|x| x.to_string_lossy().to_string());
        calls.borrow_mut().push(json!({
            "name": e.name, "path": rel.clone().unwrap_or_else(|_| p.to_string_lossy().to_string()),
            "under_root": rel.is_ok(), "h": digest(&b),
        }));
        Ok(true)
    };
    let r = guard(|| match how {
        "default" => {
            if pw.is_empty() {
                decompress(src, &dest)
            } else {
                decompress_with_password(src, &dest, pw.clone())
            }
        }
        "file" => {
            let p = root.join("__archive.7z");
            std::fs::write(&p, &bytes).unwrap();
            let r = if pw.is_empty() {
                decompress_file(&p, &dest)
            } else {
                decompress_file_with_password(&p, &dest, pw.clone())
            };
            let _ = std::fs::remove_file(&p);
            r
        }
        // stand-in: records the target, touches nothing
        "record" => decompress_with_extract_fn_and_password(src, &dest, pw.clone(), &mut note),
        "record_nopw" => decompress_with_extract_fn(src, &dest, &mut note),
        "record_file" => {
            let p = root.join("__archive.7z");
            std::fs::write(&p, &bytes).unwrap();
            let r = decompress_file_with_extract_fn(&p, &dest, &mut note);
            let _ = std::fs::remove_file(&p);
            r
        }
        // the default function given as a custom one
        "own_nopw" => decompress_with_extract_fn(src, &dest, |e, rd, p| {
            calls.borrow_mut().push(json!({"name": e.name}));
            default_entry_extract_fn(e, rd, p)
        }),
        // stops after k entries through the custom function
        "custom" => decompress_with_extract_fn_and_password(
            src,
            &dest,
            pw.clone(),
            |e: &SevenZArchiveEntry, rd: &mut dyn Read, p: &PathBuf| {
                calls.borrow_mut().push(json!({"name": e.name}));
                if calls.borrow().len() as u64 > v["stop_after"].as_u64().unwrap_or(u64::MAX) {
                    return Ok(false);
                }
                default_entry_extract_fn(e, rd, p)
            },
        ),
        h => panic!("how {}", h),
    });
    if let Some(c) = cwd {
        let _ = std::env::set_current_dir(c);
    }
    let res = match r {
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(e)) => format!("err:{:?}", e).chars().take(300).collect(),
        Err(p) => format!("panic:{}", p),
    };
    let cls = if res == "ok" { "ok" } else if res.starts_with("err") { "err" } else { "panic" };
    json!({"r": cls, "msg": res, "before": before, "after": snapshot(&root), "calls": *calls.borrow(), "srcs": contents})
}

/// {"root": scratch dir, "tree": [{path, kind, data, mt}], "how": ..., "filter": [rejected rel paths]}
pub fn compress(v: &Value) -> Value {
    let root = PathBuf::from(v["root"].as_str().unwrap());
    let base = root.join("src");
    std::fs::create_dir_all(&base).unwrap();
    let tree = v["tree"].as_array().unwrap();
    for t in tree {
        let p = base.join(t["path"].as_str().unwrap());
        if let Some(q) = p.parent() {
            std::fs::create_dir_all(q).unwrap();
        }
        match t["kind"].as_str().unwrap() {
            "dir" => std::fs::create_dir_all(&p).unwrap(),
            "file" if t["data"]["gaps"].is_array() => {
                // runs of zeros are left out of the file
                let d = Store::of(&t["data"]);
                let (mut f, mut at) = (std::fs::File::create(&p).unwrap(), 0u64);
                let mut buf = vec![0u8; 1 << 20];
                loop {
                    let m = d.fill(at, &mut buf);
                    if m == 0 {
                        break;
                    }
                    if buf[..m].iter().any(|x| *x != 0) {
                        use std::io::{Seek, Write};
                        f.seek(std::io::SeekFrom::Start(at)).unwrap();
                        f.write_all(&buf[..m]).unwrap();
                    }
                    at += m as u64;
                }
                f.set_len(at).unwrap();
            }
            "file" => std::fs::write(&p, data(&t["data"])).unwrap(),
            "link" => std::os::unix::fs::symlink(t["to"].as_str().unwrap(), &p).unwrap(),
            "fifo" => {
                let c = std::ffi::CString::new(p.to_string_lossy().as_bytes()).unwrap();
                unsafe {
                    libc::mkfifo(c.as_ptr(), 0o600);
                }
            }
            k => panic!("tree kind {}", k),
        }
    }
    for t in tree.iter().rev() {
        if !t["mt"].is_null() && t["kind"] != "link" && t["kind"] != "fifo" {
            let p = base.join(t["path"].as_str().unwrap());
            let f = std::fs::File::open(&p).unwrap();
            f.set_times(std::fs::FileTimes::new().set_modified(from_ft(un64(&t["mt"])))).unwrap();
        }
    }
    let far = tree.iter().any(|t| t["data"]["gaps"].is_array());
    let snap = snapshot_by(&base, if far { far_digest } else { file_digest });
    let start = v["start"].as_str();
    let src = if let Some(s) = start { base.join(s) } else { base.clone() };
    let cwd = std::env::current_dir().ok();
    // the ways to spell the source path
    let src = match v["spell"].as_str().unwrap_or("abs") {
        "rel" => {
            std::env::set_current_dir(&root).unwrap();
            PathBuf::from("src").join(start.unwrap_or("."))
        }
        "dotrel" => {
            std::env::set_current_dir(&root).unwrap();
            PathBuf::from(format!("./src/{}", start.unwrap_or("")))
        }
        // relative to the tree itself; a single component if nothing is below
        "inside" => {
            std::env::set_current_dir(&base).unwrap();
            PathBuf::from(start.unwrap_or("."))
        }
        "slash" if src.is_dir() => PathBuf::from(format!("{}/", src.display())),
        _ => src,
    };
    let filt: Vec<String> =
        v["reject"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let asked = RefCell::new(vec![]);
    let filter = |p: &Path| -> bool {
        let rel = p.strip_prefix(&src).map(|x| x.to_string_lossy().to_string()).unwrap_or("?".into());
        asked.borrow_mut().push(rel.clone());
        !filt.contains(&rel)
    };
    let pw = password(&v["pw"]);
    let how = v["how"].as_str().unwrap();
    // where an archive is put: possibly over a longer file, possibly named by one relative component
    let target = |p: &str| -> PathBuf {
        let d = if v["near"] == true {
            std::env::set_current_dir(&root).unwrap();
            PathBuf::from("out.7z")
        } else {
            root.join(p)
        };
        if let Some(n) = v["stale"].as_u64() {
            if let Some(q) = d.parent() {
                let _ = std::fs::create_dir_all(q);
            }
            std::fs::write(&d, vec![0x37u8; n as usize]).unwrap();
        }
        d
    };
    let r = guard(|| -> Result<Vec<u8>, Error> {
        let sink = Sink::new(&v["sink"]);
        match how {
            "compress" => {
                sevenz_rust::compress(&src, sink.clone())?;
            }
            "encrypted" => {
                compress_encypted(&src, sink.clone(), pw.clone())?;
            }
            "to_path" => {
                let d = target("nested/dir/out.7z");
                compress_to_path(&src, &d)?;
                return Ok(std::fs::read(&d)?);
            }
            "to_path_encrypted" => {
                let d = target("nested/dir/out.7z");
                compress_to_path_encrypted(&src, &d, pw.clone())?;
                return Ok(std::fs::read(&d)?);
            }
            "solid" | "nonsolid" => {
                let mut w = SevenZWriter::new(sink.clone())?;
                if v["hdr_first"] == true {
                    w.set_encrypt_header(v["hdr"] == true);
                }
                if !v["methods"].is_null() {
                    w.set_content_methods(methods(&v["methods"]));
                }
                if v["hdr"].is_boolean() && v["hdr_first"] != true {
                    w.set_encrypt_header(v["hdr"] == true);
                }
                if how == "solid" {
                    w.push_source_path(&src, &filter)?;
                } else {
                    w.push_source_path_non_solid(&src, &filter)?;
                }
                w.finish()?;
            }
            // every file and directory given one by one, into a file
            "entries" | "entries_old" => {
                let d = target("entries.7z");
                let mut w = SevenZWriter::create(&d)?;
                if !v["methods"].is_null() {
                    w.set_content_methods(methods(&v["methods"]));
                }
                for t in snap.as_array().unwrap() {
                    let name = t["path"].as_str().unwrap().to_string();
                    let p = base.join(&name);
                    #[allow(deprecated)]
                    let e = if how == "entries" {
                        SevenZArchiveEntry::from_path(&p, name)
                    } else {
                        SevenZWriter::<std::fs::File>::create_archive_entry(&p, name)
                    };
                    match t["kind"].as_str().unwrap() {
                        "file" => {
                            w.push_archive_entry(e, Some(std::fs::File::open(&p)?))?;
                        }
                        "dir" => {
                            w.push_archive_entry::<&[u8]>(e, None)?;
                        }
                        _ => (),
                    }
                }
                w.finish()?;
                return Ok(std::fs::read(&d)?);
            }
            h => panic!("how {}", h),
        }
        Ok(sink.dense())
    });
    if let Some(c) = cwd {
        let _ = std::env::set_current_dir(c);
    }
    let mut out = json!({"tree": snap, "asked": *asked.borrow()});
    match r {
        Ok(Ok(b)) => {
            out["r"] = json!("ok");
            if let Some(needles) = v["clear"].as_array() {
                let hit = |n: &Value| {
                    let n = data(n);
                    n.len() <= b.len() && b.windows(n.len().max(1)).any(|w| w == &n[..])
                };
                out["clear"] = json!(needles.iter().map(hit).collect::<Vec<bool>>());
            }
            let b = Store::plain(b);
            if let Some(rs) = v["reads"].as_array() {
                out["reads"] = Value::Array(rs.iter().map(|r| crate::rd::read_once(&b, &[], r)).collect());
            }
            let mut plan = json!({"pw": v["pw"]});
            if far {
                plan["visit"] = json!({"*": {"far": {}}});
            }
            out["read"] = crate::rd::read_once(&b, &[], &plan);
        }
        Ok(Err(e)) => {
            out["r"] = json!("err");
            out["msg"] = json!(format!("{:?}", e));
        }
        Err(p) => {
            out["r"] = json!("panic");
            out["msg"] = json!(p);
        }
    }
    out
}
