#!/usr/bin/env python3
"""plant.py DIR: reads DIR/<id>.py files (edit list, demo, meta), confirms each planted change in a
scratch copy of /repo (/tmp/p/repo) and writes seeded/<id>/.  Development aid, used by no check."""
import json, os, re, runpy, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(HERE), "seeded")
SCR = "/tmp/p/repo"

DEMO = r'''#!/bin/bash
# Builds main.rs against the sevenz-rust in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src" "$t/scratch"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
sevenz-rust = { path = "$repo", features = ["compress", "aes256", "bzip2", "zstd"] }
lzma-rust = { path = "$repo/lzma-rust" }
T
cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cd "$t" || exit 3
CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2>"$t/log" || { cat "$t/log"; exit 3; }
cd "$t/scratch" && timeout 200 "$t/target/debug/demo"
'''

PRE = r'''#![allow(dead_code, unused_imports)]
use sevenz_rust::*;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

fn rnd(n: usize, mut s: u32) -> Vec<u8> {
    (0..n).map(|_| { s = s.wrapping_mul(1664525).wrapping_add(1013904223); (s >> 24) as u8 }).collect()
}
fn text(n: usize, mut s: u32) -> Vec<u8> {
    let words = ["alpha ", "beta ", "gamma ", "delta-", "omega\n", "the ", "of "];
    let mut v = Vec::new();
    while v.len() < n {
        s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        v.extend_from_slice(words[(s >> 20) as usize % words.len()].as_bytes());
    }
    v.truncate(n);
    v
}
fn ent(name: &str) -> SevenZArchiveEntry { let mut e = SevenZArchiveEntry::new(); e.name = name.into(); e }
fn read_all(bytes: &[u8], pw: &str) -> Result<Vec<(SevenZArchiveEntry, Vec<u8>)>, Error> {
    let p = if pw.is_empty() { Password::empty() } else { Password::from(pw) };
    let mut r = SevenZReader::new(Cursor::new(bytes.to_vec()), bytes.len() as u64, p)?;
    let mut v = vec![];
    r.for_each_entries(|e, d| { let mut b = vec![]; d.read_to_end(&mut b)?; v.push((e.clone(), b)); Ok(true) })?;
    Ok(v)
}
'''

def sh(cmd, cwd=None, t=900, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, timeout=t, capture_output=True, text=True, env=env)

def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def main(path):
    m = runpy.run_path(path)
    pid = os.path.basename(path)[:-3]
    assert not sh("git status --short", SCR).stdout.strip(), "scratch not clean"
    head = sh("git rev-parse HEAD", "/repo").stdout
    if sh("git rev-parse HEAD", SCR).stdout != head:
        sh("git fetch -q /repo && git checkout -q FETCH_HEAD", SCR)
    for f, a, b in m["EDITS"]:
        p = os.path.join(SCR, f)
        s = open(p).read()
        assert s.count(a) == 1, (pid, f, "found %d times" % s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    try:
        d = os.path.join(SEED, pid)
        os.makedirs(d, exist_ok=True)
        diff = sh("git diff", SCR).stdout
        # the lines changed are the original project's own
        for f in sorted({e[0] for e in m["EDITS"]}):
            base = sh("git log --format=%H --reverse", "/repo").stdout.split()
            n = int(sh("git log --format=%h --grep='^fix:' | wc -l", "/repo").stdout)
            orig = sh("git rev-list HEAD", "/repo").stdout.split()[n]
            for h in re.findall(r"^@@ -(\d+),?(\d*)", sh("git diff -U0 -- " + f, SCR).stdout, re.M):
                k, c = int(h[0]), int(h[1] or 1)
                if c:
                    for l in sh("git blame -s -L %d,%d %s..HEAD -- %s" % (k, k + c - 1, orig, f), "/repo").stdout.splitlines():
                        if not l.startswith("^"):
                            print("  not an original line:", l)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "main.rs"), "w").write(PRE + m["DEMO"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok = sh("bash %s/demo.sh" % d, "/repo")
        bad = sh("bash %s/demo.sh" % d, SCR)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
        t = sh("cargo test -p sevenz-rust -p lzma-rust --all-features --no-fail-fast --offline > /tmp/p/log 2>&1; python3 /opt/vp/results.py /tmp/p/res.json cargo:/tmp/p/log", SCR, env=env)
        res = json.load(open("/tmp/p/res.json"))
        lost = stable() - set(res["passed"])
        good = ok.returncode == 0 and bad.returncode not in (0, 3) and not lost
        print(pid, "OK" if good else "REJECTED", "clean", ok.returncode, "patched", bad.returncode, "tests lost", sorted(lost))
        if not good:
            print(ok.stdout[-800:], ok.stderr[-800:]); print(bad.stdout[-800:], bad.stderr[-800:])
            shutil.rmtree(d)
        else:
            print("   ", (bad.stderr + bad.stdout).strip().splitlines()[:2])
    finally:
        sh("git checkout -q -- .", SCR)

for p in sys.argv[1:]:
    main(p)
