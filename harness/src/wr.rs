//! Writer sessions.
use crate::env::*;
use crate::rd;
use serde_json::{json, Value};
use sevenz_rust::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn password(v: &Value) -> Password {
    if let Some(a) = v.as_array() {
        let u: Vec<u16> = a.iter().map(|x| x.as_u64().unwrap() as u16).collect();
        Password::from(&u[..])
    } else if let Some(s) = v.as_str() {
        Password::from(s)
    } else {
        Password::empty()
    }
}

pub fn lzma_opts(v: &Value) -> lzma::LZMA2Options {
    let mut o = lzma::LZMA2Options::with_preset(v["preset"].as_u64().unwrap_or(6) as u32);
    if v["preset"].is_null() {
        o.dict_size = 1 << 16;
    }
    if let Some(d) = v["dict"].as_u64() {
        o.dict_size = d as u32;
    }
    if let Some(d) = v["lc"].as_u64() {
        o.lc = d as u32;
    }
    if let Some(d) = v["lp"].as_u64() {
        o.lp = d as u32;
    }
    if let Some(d) = v["pb"].as_u64() {
        o.pb = d as u32;
    }
    if let Some(d) = v["nice"].as_u64() {
        o.nice_len = d as u32;
    }
    if let Some(d) = v["depth"].as_i64() {
        o.depth_limit = d as i32;
    }
    match v["mode"].as_str() {
        Some("fast") => o.mode = lzma::LZMA2Options::with_preset(0).mode,
        Some("normal") => o.mode = lzma::LZMA2Options::with_preset(6).mode,
        _ => {}
    }
    match v["mf"].as_str() {
        Some("hc4") => o.mf = lzma::LZMA2Options::with_preset(0).mf,
        Some("bt4") => o.mf = lzma::LZMA2Options::with_preset(6).mf,
        _ => {}
    }
    if !v["preset_dict"].is_null() {
        o.preset_dict = Some(data(&v["preset_dict"]));
    }
    o
}

pub fn method(v: &Value) -> SevenZMethodConfiguration {
    let name = v["m"].as_str().unwrap();
    let m = match name {
        "COPY" => SevenZMethod::COPY,
        "LZMA" => SevenZMethod::LZMA,
        "LZMA2" => SevenZMethod::LZMA2,
        "AES" => SevenZMethod::AES256SHA256,
        "BZIP2" => SevenZMethod::BZIP2,
        "ZSTD" => SevenZMethod::ZSTD,
        "DELTA" => SevenZMethod::DELTA_FILTER,
        "X86" => SevenZMethod::BCJ_X86_FILTER,
        x => panic!("method {}", x),
    };
    let mut c = SevenZMethodConfiguration::new(m);
    if name == "AES" {
        if v["noopt"].as_bool() != Some(true) {
            let mut o = AesEncoderOptions::new(password(&v["pw"]));
            if let Some(s) = v["salt"].as_str() {
                o.salt.copy_from_slice(&unhex(s));
            }
            if let Some(s) = v["iv"].as_str() {
                o.iv.copy_from_slice(&unhex(s));
            }
            if let Some(s) = v["cyc"].as_u64() {
                o.num_cycles_power = s as u8;
            }
            c = c.with_options(o.into());
        }
    } else if let Some(n) = v["num"].as_u64() {
        c = c.with_options(MethodOptions::Num(n as u32));
    } else if v["opts"].as_bool() == Some(true) {
        c = c.with_options(lzma_opts(v).into());
    }
    c
}
pub fn methods(v: &Value) -> Vec<SevenZMethodConfiguration> {
    v.as_array().unwrap().iter().map(method).collect()
}

pub fn entry(v: &Value) -> SevenZArchiveEntry {
    let mut e = SevenZArchiveEntry::new();
    e.name = v["name"].as_str().unwrap_or("").to_string();
    e.is_directory = v["dir"].as_bool().unwrap_or(false);
    e.is_anti_item = v["anti"].as_bool().unwrap_or(false);
    e.has_stream = v["hs"].as_bool().unwrap_or(false);
    if let Some(n) = v["used"].as_u64() {
        // as an entry looks that comes out of another archive
        e.has_stream = true;
        e.has_crc = n & 1 == 0;
        e.crc = 0x5bad_c0de ^ n;
        e.size = 77 + n;
        e.compressed_size = 33 + n;
        e.compressed_crc = 0x0dd_c0de ^ n;
    }
    // [present, raw]
    let t = |k: &str| -> (bool, u64) {
        if v[k].is_null() {
            (false, 0)
        } else {
            (v[k][0].as_bool().unwrap(), un64(&v[k][1]))
        }
    };
    let (p, r) = t("ct");
    e.has_creation_date = p;
    e.creation_date = r.into();
    let (p, r) = t("at");
    e.has_access_date = p;
    e.access_date = r.into();
    let (p, r) = t("mt");
    e.has_last_modified_date = p;
    e.last_modified_date = r.into();
    let (p, r) = t("attr");
    e.has_windows_attributes = p;
    e.windows_attributes = r as u32;
    e
}

pub fn describe(e: &SevenZArchiveEntry) -> Value {
    json!({
        "nu": e.name.encode_utf16().collect::<Vec<u16>>(), "dir": e.is_directory, "anti": e.is_anti_item, "hs": e.has_stream,
        "ct": [e.has_creation_date, l64(e.creation_date.to_raw())],
        "at": [e.has_access_date, l64(e.access_date.to_raw())],
        "mt": [e.has_last_modified_date, l64(e.last_modified_date.to_raw())],
        "attr": [e.has_windows_attributes, l32(e.windows_attributes)],
        "crc": [e.has_crc, l32(e.crc as u32)], "size": l64(e.size),
        "csize": l64(e.compressed_size), "ccrc": l32(e.compressed_crc as u32),
    })
}

fn err_class(e: &Error) -> String {
    format!("{:?}", e).chars().take(200).collect()
}

pub struct Session {
    pub results: Vec<Value>,
    pub contents: Vec<(String, Arc<Store>)>,
    pub sink: Sink,
    pub finished: bool,
    /// operation-log index after which finish() had returned
    pub fin_ops: usize,
}

fn src_info(name: &str, d: &Store) -> Value {
    json!({"name": name, "n": l64(d.len()), "crc": l32(d.crc(0, d.len())), "h": d.digest()})
}

pub fn session(v: &Value) -> Session {
    let sink = Sink::new(&v["sink"]);
    let mut results = vec![];
    let mut contents: Vec<(String, Arc<Store>)> = vec![];
    let mut finished = false;
    let mut fin_ops = 0;
    let dch = &v["chunks"];
    let w = guard(|| SevenZWriter::new(sink.clone()));
    let mut w = match w {
        Ok(Ok(w)) => Some(w),
        Ok(Err(e)) => {
            results.push(json!({"op":"new","r":"err","e":err_class(&e)}));
            None
        }
        Err(p) => {
            results.push(json!({"op":"new","r":"panic","e":p}));
            None
        }
    };
    if w.is_some() {
        if !v["methods"].is_null() {
            w.as_mut().unwrap().set_content_methods(methods(&v["methods"]));
        }
        if let Some(b) = v["hdr_enc"].as_bool() {
            w.as_mut().unwrap().set_encrypt_header(b);
        }
        for op in v["ops"].as_array().unwrap_or(&vec![]) {
            let kind = op["op"].as_str().unwrap();
            let nf0 = sink.0.borrow().nfaults;
            let o0 = sink.0.borrow().ops;
            let mut res = json!({"op": kind});
            let mut dead = false;
            let mut st = |r: &str, e: String| {
                res["r"] = json!(r);
                if !e.is_empty() {
                    res["e"] = json!(e);
                }
            };
            match kind {
                "setm" => {
                    w.as_mut().unwrap().set_content_methods(methods(&op["methods"]));
                    st("ok", String::new());
                }
                "sethdr" => {
                    w.as_mut().unwrap().set_encrypt_header(op["on"].as_bool().unwrap());
                    st("ok", String::new());
                }
                "file" => {
                    let e = entry(&op["e"]);
                    let name = e.name.clone();
                    let has_reader = !op["data"].is_null();
                    let mut src = if has_reader { Some(DataSrc::new(op, dch)) } else { None };
                    let d = src.as_ref().map(|s| s.data.clone()).unwrap_or_default();
                    let dir = e.is_directory;
                    let none = Arc::new(Store::default());
                    sink.0.borrow_mut().first = None;
                    let r = guard(|| {
                        w.as_mut().unwrap().push_archive_entry(e, src.take()).map(|e| describe(e))
                    });
                    res["src"] = src_info(&name, if dir { &none } else { &d });
                    res["reader"] = json!(has_reader);
                    let mut st = |r: &str, e: String| {
                        res["r"] = json!(r);
                        if !e.is_empty() {
                            res["e"] = json!(e);
                        }
                    };
                    match r {
                        Ok(Ok(e)) => {
                            st("ok", String::new());
                            res["entry"] = e;
                            let p1 = sink.0.borrow().pos;
                            let p0 = sink.0.borrow().first.unwrap_or(p1);
                            res["packed"] = json!({"n": l64(p1.saturating_sub(p0)),
                              "crc": l32({
                                let s = sink.0.borrow();
                                let n = s.buf.len() as u64;
                                match s.pages {
                                    Some(_) => {
                                        drop(s);
                                        sink.store().crc(p0, p1)
                                    }
                                    None => crc32(&s.buf[p0.min(p1).min(n) as usize..p1.min(n) as usize]),
                                }
                              })});
                            contents.push((name, if dir { none } else { d }));
                        }
                        Ok(Err(e)) => st("err", err_class(&e)),
                        Err(p) => {
                            st("panic", p);
                            dead = true;
                        }
                    }
                }
                "solid" => {
                    let es: Vec<_> = op["es"].as_array().unwrap().iter().map(|x| entry(&x["e"])).collect();
                    let srcs: Vec<DataSrc> =
                        op["es"].as_array().unwrap().iter().map(|x| DataSrc::new(x, dch)).collect();
                    let ds: Vec<(String, Arc<Store>)> = es
                        .iter()
                        .zip(srcs.iter())
                        .map(|(e, s)| (e.name.clone(), s.data.clone()))
                        .collect();
                    let r = guard(|| {
                        let readers: Vec<SourceReader<DataSrc>> =
                            srcs.into_iter().map(SourceReader::new).collect();
                        w.as_mut()
                            .unwrap()
                            .push_archive_entries(es, SeqReader::new(readers))
                            .map(|_| ())
                    });
                    res["srcs"] = Value::Array(ds.iter().map(|(n, d)| src_info(n, d)).collect());
                    let mut st = |r: &str, e: String| {
                        res["r"] = json!(r);
                        if !e.is_empty() {
                            res["e"] = json!(e);
                        }
                    };
                    match r {
                        Ok(Ok(())) => {
                            st("ok", String::new());
                            contents.extend(ds);
                        }
                        Ok(Err(e)) => st("err", err_class(&e)),
                        Err(p) => {
                            st("panic", p);
                            dead = true;
                        }
                    }
                }
                "finish" => {
                    let wr = w.take().unwrap();
                    match guard(|| wr.finish().map(|_| ())) {
                        Ok(Ok(())) => {
                            st("ok", String::new());
                            finished = true;
                        }
                        Ok(Err(e)) => st("err", format!("{:?}", e)),
                        Err(p) => st("panic", p),
                    }
                    fin_ops = sink.0.borrow().log.as_ref().map(|l| l.len()).unwrap_or(0);
                    dead = true;
                }
                k => panic!("op {}", k),
            }
            let o1 = sink.0.borrow().ops;
            res["ops"] = json!([o0, o1]);
            res["faulted"] = json!(sink.0.borrow().faulted);
            res["hit"] = json!(sink.0.borrow().nfaults > nf0);
            results.push(res);
            if dead {
                break;
            }
        }
    }
    // a dropped (unfinished) writer must not do anything surprising either
    let _ = guard(|| drop(w));
    Session { results, contents, sink, finished, fin_ops }
}

pub fn run(v: &Value) -> Value {
    let s = session(v);
    let bytes = Arc::new(s.sink.store());
    let lost = s.sink.0.borrow().pages.as_ref().map(|p| p.lost).unwrap_or(false);
    let mut out = json!({
        "ops": s.results, "finished": s.finished, "len": bytes.len(), "sink_ops": s.sink.0.borrow().ops,
        "faulted": s.sink.0.borrow().faulted, "ah": digest(&bytes.dense),
    });
    if s.sink.0.borrow().pages.is_some() {
        // the start and the header of a file too long to keep
        let mut head = vec![0u8; 32];
        let n = bytes.fill(0, &mut head);
        head.truncate(n);
        let at = if n == 32 { u64::from_le_bytes(head[12..20].try_into().unwrap()).saturating_add(32) } else { 0 };
        let k = bytes.len().saturating_sub(at).min(1 << 16) as usize;
        let mut hdr = vec![0u8; k];
        let n = bytes.fill(at, &mut hdr);
        hdr.truncate(n);
        out["far"] = json!({"head": head, "at": l64(at), "hdr": hdr, "len": l64(bytes.len()), "lost": lost});
    } else {
        if v["keep"].as_bool() == Some(true) {
            out["bytes"] = json!(hex(&bytes.dense));
        }
        if let Some(p) = v["save"].as_str() {
            std::fs::write(p, &bytes.dense[..]).unwrap();
        }
    }
    if let Some(needles) = v["clear"].as_array() {
        // which of these byte strings occur in the file
        let hits: Vec<bool> = needles
            .iter()
            .map(|n| {
                let n = data(n);
                n.len() <= bytes.dense.len() && bytes.dense.windows(n.len().max(1)).any(|w| w == &n[..])
            })
            .collect();
        out["clear"] = json!(hits);
    }
    let contents: Vec<Arc<Store>> = s.contents.iter().map(|c| c.1.clone()).collect();
    if v["also_unfinished"].as_bool() != Some(true) && !s.finished {
        out["reads"] = json!([]);
    } else {
        out["reads"] = Value::Array(
            v["reads"].as_array().unwrap_or(&vec![]).iter().map(|r| rd::read_plan(&bytes, &contents, r)).collect(),
        );
    }
    if v["crash"].is_object() {
        out["crash"] = crash(&s, &contents, &v["crash"]);
    }
    out
}

/// Every prefix of the output operation log, the last write possibly torn.
fn crash(s: &Session, contents: &[Arc<Store>], v: &Value) -> Value {
    let log = s.sink.0.borrow().log.clone().unwrap_or_default();
    let mut img: Vec<u8> = vec![];
    let mut outs: BTreeMap<String, (u64, Value)> = BTreeMap::new();
    let tears = v["tears"].as_u64().unwrap_or(0) as usize;
    let read = &v["read"];
    let mut probe = |img: &Vec<u8>, k: usize, t: i64, complete: bool| {
        let mut o = rd::read_plan(&Arc::new(Store { dense: img.clone(), gaps: vec![] }), contents, read);
        if let Some(m) = o.as_object_mut() {
            m.remove("src_ops");
            m.remove("open_ops");
        }
        let key = format!("{}|{}", complete, o);
        let e = outs.entry(key).or_insert((0, json!({"at": [k, t], "complete": complete, "read": o})));
        e.0 += 1;
    };
    probe(&img, 0, -1, false);
    let n = log.len();
    for (k, op) in log.iter().enumerate() {
        if let Op::Write(p, b) = op {
            // torn: every strict prefix of a small write, sampled prefixes of a large one
            let cuts: Vec<usize> = if b.len() <= tears {
                (1..b.len()).collect()
            } else {
                (1..tears).map(|i| i * b.len() / tears).filter(|c| *c > 0).collect()
            };
            for c in cuts {
                let mut im = img.clone();
                apply(&mut im, *p, &b[..c]);
                probe(&im, k, c as i64, false);
            }
            apply(&mut img, *p, b);
        }
        probe(&img, k + 1, -1, s.finished && k + 1 == n);
    }
    Value::Array(
        outs.into_iter()
            .map(|(_, (c, mut v))| {
                v["count"] = json!(c);
                v
            })
            .collect(),
    )
}
