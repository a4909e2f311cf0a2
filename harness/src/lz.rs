//! LZMA / LZMA2 codecs used directly.
use crate::env::*;
use crate::wr::lzma_opts;
use lzma_rust::*;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::sync::Arc;

/// Encodes `data` following `steps` (write sizes; 0 = flush); returns stream bytes or error.
fn enc(v: &Value) -> (Value, Vec<u8>, Vec<u8>) {
    let d = data(&v["data"]);
    let opts = lzma_opts(&v["opts"]);
    let sink = Sink::new(&v["sink"]);
    let steps = usizes(&v["steps"]);
    let lzma2 = v["codec"].as_str() == Some("lzma2");
    let r = guard(|| -> std::io::Result<Value> {
        let cw = CountingWriter::new(sink.clone());
        let cnt = cw.counting();
        let mut info = json!({});
        let run = |w: &mut dyn Write| -> std::io::Result<()> {
            let mut off = 0;
            let mut i = 0;
            while off < d.len() {
                if steps.is_empty() {
                    w.write_all(&d)?;
                    break;
                }
                let n = steps[i % steps.len()];
                i += 1;
                if n == 0 {
                    w.flush()?;
                    if steps.iter().all(|x| *x == 0) {
                        break;
                    }
                    continue;
                }
                let n = n.min(d.len() - off);
                w.write_all(&d[off..off + n])?;
                off += n;
            }
            Ok(())
        };
        if lzma2 {
            let mut w = LZMA2Writer::new(cw, &opts);
            run(&mut w)?;
            if v["end_flush"].as_bool() == Some(true) {
                w.flush()?;
            }
            if v["end"].as_str() == Some("finish") {
                w.finish()?;
            } else {
                let _ = w.write(&[])?;
            }
            if v["refinish"].as_bool() == Some(true) {
                info["refinish"] = json!(w.finish().is_ok());
                info["write_after"] = json!(w.write(&[1]).is_ok());
            }
        } else {
            let exp = if v["expected"].is_null() { None } else { Some(un64(&v["expected"])) };
            let mut w = match v["ctor"].as_str() {
                Some("header") => LZMAWriter::new_use_header(cw, &opts, exp)?,
                Some("noheader") => LZMAWriter::new_no_header(cw, &opts, v["eos"].as_bool().unwrap_or(false))?,
                _ => LZMAWriter::new(
                    cw,
                    &opts,
                    v["header"].as_bool().unwrap_or(false),
                    v["eos"].as_bool().unwrap_or(false),
                    exp,
                )?,
            };
            info["props"] = json!(w.props());
            run(&mut w)?;
            if v["end"].as_str() == Some("finish") {
                w.finish()?;
            } else {
                let _ = w.write(&[])?;
            }
            info["usize"] = l64(w.get_uncompressed_size());
            if v["refinish"].as_bool() == Some(true) {
                info["refinish"] = json!(w.finish().is_ok());
                info["write_after"] = json!(w.write(&[1]).is_ok());
            }
        }
        info["counted"] = json!(cnt.get());
        Ok(info)
    });
    let bytes = sink.dense();
    let mut out = match r {
        Ok(Ok(i)) => json!({"r": "ok", "info": i}),
        Ok(Err(e)) => json!({"r": "err", "e": format!("{:?}", e)}),
        Err(p) => json!({"r": "panic", "e": p}),
    };
    out["faulted"] = json!(sink.0.borrow().faulted);
    out["sink_ops"] = json!(sink.0.borrow().ops);
    out["props"] = json!(opts.get_props());
    out["dict"] = l32(opts.dict_size);
    out["n"] = l64(d.len() as u64);
    (out, d, bytes)
}

pub fn encode(v: &Value) -> Value {
    let (mut out, d, bytes) = enc(v);
    out["len"] = json!(bytes.len());
    if let Some(p) = v["save"].as_str() {
        std::fs::write(p, &bytes).unwrap();
    }
    if let Some(p) = v["save_data"].as_str() {
        std::fs::write(p, &d).unwrap();
    }
    if v["keep"].as_bool() == Some(true) {
        out["bytes"] = json!(bytes);
        out["data"] = json!(d);
    }
    out["h"] = json!(digest(&d));
    out
}

/// LZMA2 of more than fits into a buffer: `plan` lists [piece, times]; piece -b-1 stands for 65536 bytes b.
pub fn encode_far(v: &Value) -> Value {
    let opts = lzma_opts(&v["opts"]);
    let sink = Sink::new(&v["sink"]);
    let pool: Vec<Vec<u8>> = v["pool"].as_array().unwrap().iter().map(data).collect();
    let r = guard(|| -> std::io::Result<()> {
        let mut w = LZMA2Writer::new(CountingWriter::new(sink.clone()), &opts);
        for p in v["plan"].as_array().unwrap() {
            let k = p[0].as_i64().unwrap();
            let run = vec![(-k - 1) as u8; if k < 0 { 65536 } else { 0 }];
            let piece = if k < 0 { &run } else { &pool[k as usize] };
            for _ in 0..p[1].as_u64().unwrap() {
                w.write_all(piece)?;
            }
        }
        w.finish()?;
        Ok(())
    });
    let bytes = sink.dense();
    let mut out = match r {
        Ok(Ok(())) => json!({"r": "ok"}),
        Ok(Err(e)) => json!({"r": "err", "e": format!("{:?}", e)}),
        Err(p) => json!({"r": "panic", "e": p}),
    };
    out["props"] = json!(opts.get_props());
    std::fs::write(v["save"].as_str().unwrap(), &bytes).unwrap();
    out["len"] = json!(bytes.len());
    out
}

fn dec_with(bytes: Arc<Vec<u8>>, v: &Value) -> (String, Vec<u8>, Option<usize>) {
    let preset = if v["preset_dict"].is_null() { None } else { Some(data(&v["preset_dict"])) };
    let dict = un64(&v["dict"]) as u32;
    let bufs = usizes(&v["buf"]);
    let src = Src::new(Store::plain(bytes.to_vec()), &v["src"]);
    let max = v["max"].as_u64().unwrap_or(1 << 28) as usize;
    let mut got = vec![];
    let drive = |r: &mut dyn Read, got: &mut Vec<u8>| -> String {
        let mut i = 0;
        loop {
            let n = if bufs.is_empty() { 65536 } else { bufs[i % bufs.len()] };
            i += 1;
            let o = got.len();
            got.resize(o + n, 0xAA);
            match r.read(&mut got[o..]) {
                Ok(m) if m > n => {
                    got.truncate(o);
                    return "overrun".into();
                }
                Ok(m) => {
                    got.truncate(o + m);
                    if m == 0 && n > 0 {
                        let mut b = [0u8; 5];
                        return match r.read(&mut b) {
                            Ok(0) => "ok".into(),
                            Ok(_) => "more".into(),
                            Err(_) => "err_after_end".into(),
                        };
                    }
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => got.truncate(o),
                Err(_) => {
                    got.truncate(o);
                    if v["poke"].as_bool() == Some(true) {
                        // the error must not turn into a wrong success later
                        let mut b = [0u8; 64];
                        for _ in 0..3 {
                            if let Ok(m) = r.read(&mut b) {
                                if m > 0 {
                                    return "err_then_data".into();
                                }
                            }
                        }
                    }
                    return "err".into();
                }
            }
            if got.len() > max {
                return "endless".into();
            }
        }
    };
    let mut rest = None;
    let st = guard(|| match v["codec"].as_str().unwrap() {
        "lzma2" => {
            let mut r = LZMA2Reader::new(src, dict, preset.as_deref());
            let s = drive(&mut r, &mut got);
            let mut tail = vec![];
            let _ = r.into_inner().read_to_end(&mut tail);
            rest = Some(tail.len());
            s
        }
        "lzma" => {
            let us = if v["usize"].is_null() { u64::MAX } else { un64(&v["usize"]) };
            let props = v["props"].as_u64().unwrap() as u8;
            let r = if v["ctor"].as_str() == Some("new") && props < 225 {
                let (lc, lp, pb) = (props % 9, props / 9 % 5, props / 45);
                LZMAReader::new(src, us, lc as u32, lp as u32, pb as u32, dict, preset.as_deref())
            } else {
                LZMAReader::new_with_props(src, us, props, dict, preset.as_deref())
            };
            match r {
                Ok(mut r) => drive(&mut r, &mut got),
                Err(_) => "err_open".into(),
            }
        }
        "alone" => {
            let lim = v["limit"].as_u64().unwrap_or(u32::MAX as u64) as u32;
            match LZMAReader::new_mem_limit(src, lim, preset.as_deref()) {
                Ok(mut r) => drive(&mut r, &mut got),
                Err(_) => "err_open".into(),
            }
        }
        c => panic!("codec {}", c),
    });
    let st = match st {
        Ok(s) => s,
        Err(p) => format!("panic:{}", p),
    };
    (st, got, rest)
}

fn dec_report(bytes: Arc<Vec<u8>>, v: &Value, expect: Option<&[u8]>) -> Value {
    let (st, got, rest) = dec_with(bytes, v);
    let mut o = json!({"st": st, "n": l64(got.len() as u64), "h": digest(&got)});
    if let Some(r) = rest {
        o["rest"] = json!(r);
    }
    if let Some(d) = expect {
        o["rel"] = json!(if d == &got[..] {
            "eq"
        } else if d.len() > got.len() && d[..got.len()] == got[..] {
            "prefix"
        } else {
            "wrong"
        });
    }
    if v["keep"].as_bool() == Some(true) {
        o["d"] = json!(got);
    }
    o
}

pub fn decode(v: &Value) -> Value {
    let b: Vec<u8> = if v["bytes"].is_array() {
        v["bytes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
    } else {
        data(&v["bytes"])
    };
    let exp = if v["expect"].is_null() { None } else { Some(data(&v["expect"])) };
    let b = Arc::new(b);
    if let Some(a) = v["runs"].as_array() {
        return json!({"runs": a.iter().map(|r| {
            let mut q = v.clone();
            for (k, x) in r.as_object().unwrap() { q[k] = x.clone(); }
            dec_report(b.clone(), &q, exp.as_deref())
        }).collect::<Vec<_>>()});
    }
    dec_report(b, v, exp.as_deref())
}

/// encode then decode with each of `runs`
pub fn encdec(v: &Value) -> Value {
    let (mut out, d, bytes) = enc(v);
    out["len"] = json!(bytes.len());
    if v["keep"].as_bool() == Some(true) {
        out["bytes"] = json!(bytes);
        out["data"] = json!(d);
    }
    if let Some(p) = v["save"].as_str() {
        std::fs::write(p, &bytes).unwrap();
    }
    out["h"] = json!(digest(&d));
    let b = Arc::new(bytes);
    out["runs"] = Value::Array(
        v["runs"].as_array().unwrap_or(&vec![]).iter().map(|r| dec_report(b.clone(), r, Some(&d))).collect(),
    );
    out
}
