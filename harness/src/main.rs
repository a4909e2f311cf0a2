//! Executes scenarios on the real sevenz-rust / lzma-rust code and reports what it did.
//! One JSON scenario per stdin line, one JSON result per stdout line.  Nothing is judged here.
mod env;
mod lz;
mod paths;
mod rd;
mod wr;

use env::*;
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn run(v: &Value) -> Value {
    match v["kind"].as_str().unwrap_or("") {
        "w" => wr::run(v),
        "r" => rd::run(v),
        "enc" => lz::encode(v),
        "encfar" => lz::encode_far(v),
        "dec" => lz::decode(v),
        "encdec" => lz::encdec(v),
        "extract" => paths::extract(v),
        "compress" => paths::compress(v),
        k => json!({ "harness_error": format!("kind {}", k) }),
    }
}

fn main() {
    install_panic_hook();
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        if line.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("scenario json");
        let limit = v["cpu"].as_u64().unwrap_or(20);
        set_cpu_timer(limit);
        set_mem_cap(v["memcap"].as_u64().unwrap_or(1 << 30) as usize);
        reset_peak();
        let r = match guard(|| run(&v)) {
            Ok(r) => r,
            Err(p) => json!({ "panic": p }),
        };
        set_cpu_timer(0);
        let mut r = r;
        r["id"] = v["id"].clone();
        r["peak"] = json!(peak());
        let mut out = std::io::stdout().lock();
        serde_json::to_writer(&mut out, &r).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
