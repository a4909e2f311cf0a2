#!/usr/bin/env python3
"""mutate.py <lane directory> <seed> <count> [file patterns...]: small changes to the code, made at random, and which checks see them.

Works on a clone of /repo and a copy of /verif inside the lane directory; /repo and /verif are only read.
A change that does not build or that the existing tests see is passed over.  One JSON line per change in <lane>/out.jsonl.
"""
import fnmatch, json, os, random, re, shutil, signal, subprocess, sys

REPO, VERIF = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("src/bcj/*", "C12 C04"), ("src/delta.rs", "C12 C04"), ("src/bcj2/*", "C13 C05"), ("src/aes256sha256.rs", "C14 C15 C01 C07"), ("src/password.rs", "C14 C15"),
       ("src/archive.rs", "C04 C02 C03 C05"), ("src/reader.rs", "C04 C08 C20 C06 C05 C22 C07 C21 C02 C13 C14"), ("src/writer.rs", "C02 C03 C18 C15 C01 C17 C21 C19"),
       ("src/writer/*", "C03 C02 C01 C18 C06"), ("src/de_funcs.rs", "C16 C14"), ("src/en_funcs.rs", "C17 C15"), ("src/decoders.rs", "C04 C05 C07 C12"),
       ("src/encoders.rs", "C01 C03 C15"), ("src/folder.rs", "C04 C20 C13 C05"), ("src/method_options.rs", "C01 C03"),
       ("lzma-rust/src/enc/*", "C09 C11 C01"), ("lzma-rust/src/lz/lz_decoder.rs", "C10 C11 C05"), ("lzma-rust/src/lz/*", "C09 C11 C01"),
       ("lzma-rust/src/lib.rs", "C10 C09 C11"), ("lzma-rust/src/state.rs", "C10 C09"), ("lzma-rust/src/*", "C10 C11 C05 C07")]
OPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| ", [" & ", " ^ "]),
       (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.\"])(\d+)(?![\w.\"])", ["+1", "-1", "0"]),
       (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"!(?=[a-z(])", [""]), (r"0x([0-9a-fA-F]+)", ["x1"]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
       (r"\bif (?!let)", ["if !("]), (r"^(\s+)(self\.[\w.\[\]]+ (?:[-+|&^]|<<|>>)?= .*;|[a-z_]\w* (?:[-+|&^]|<<|>>)?= .*;|self\.[\w.]+\(.*\);|[\w.]+\(.*\)\?;|return .*;|break;|continue;)\s*$", ["del"])]


def sh(cmd, cwd=None, t=900, env=None):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -9, "timeout"


def candidates(root, pats):
    out = []
    fs = []
    for d, _, names in os.walk(root):
        for n in names:
            f = os.path.relpath(os.path.join(d, n), root)
            if f.endswith(".rs") and (f.startswith("src/") or f.startswith("lzma-rust/src/")) and not f.endswith("wasm.rs") and not f.endswith("error.rs"):
                fs.append(f)
    for f in sorted(fs):
        if pats and not any(fnmatch.fnmatch(f, p) for p in pats):
            continue
        ls = open(os.path.join(root, f)).read().split("\n")
        stop = len(ls)
        for i, l in enumerate(ls):
            if "#[cfg(test)]" in l:
                stop = min(stop, i)
        mine = []
        for i, l in enumerate(ls[:stop]):
            s = l.strip()
            if s.startswith(("//", "use ", "#[", "pub use", "mod ", "assert", "debug_assert")) or "fn " in s or not s:
                continue
            for pat, reps in OPS:
                for m in re.finditer(pat, l):
                    for rep in reps:
                        if rep in ("+1", "-1", "0"):
                            v = int(m.group(1))
                            w = v + 1 if rep == "+1" else v - 1 if rep == "-1" else 0
                            if w < 0 or w == v:
                                continue
                            n = l[:m.start()] + str(w) + l[m.end():]
                        elif rep == "x1":
                            v = int(m.group(1), 16)
                            n = l[:m.start()] + hex(v ^ (1 << random.randrange(max(1, v.bit_length())))) + l[m.end():]
                        elif rep == "if !(":
                            if not l.rstrip().endswith("{"):
                                continue
                            e = l.rstrip()[:-1].rstrip()
                            n = l[:m.start()] + "if !(" + e[m.end():] + ") {"
                        elif rep == "del":
                            n = m.group(1) + "// deleted"
                        else:
                            n = l[:m.start()] + rep + l[m.end():]
                        if n != l:
                            mine.append((f, i, l, n))
        out.append(mine)
    return out


def setup(lane):
    """a clone of /repo and a copy of /verif that is bound to it"""
    repo, verif = os.path.join(lane, "repo"), os.path.join(lane, "verif")
    os.makedirs(lane, exist_ok=True)
    if not os.path.exists(repo):
        sh("git clone -q %s %s" % (REPO, repo))
        sh("cp %s/Cargo.lock %s/ 2>/dev/null" % (REPO, repo))
    sh("git fetch -q %s HEAD && git checkout -q FETCH_HEAD -- . && git checkout -q FETCH_HEAD" % REPO, repo)
    os.makedirs(verif, exist_ok=True)
    for d in ("spec", "tools"):
        shutil.rmtree(os.path.join(verif, d), ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, d), os.path.join(verif, d))
    sh("mkdir -p %s/harness && cp -r %s/harness/src %s/harness/Cargo.* %s/harness/ && cp %s/known_findings.txt %s/" % (verif, VERIF, VERIF, verif, VERIF, verif))
    sh("rm -rf %s/harness/src && cp -r %s/harness/src %s/harness/ && sed -i 's#\"/repo#\"%s#' %s/harness/Cargo.toml" % (verif, VERIF, verif, repo, verif))
    return repo, verif


def main():
    lane, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    pats = sys.argv[4:]
    repo, verif = setup(lane)
    r = random.Random(seed)
    random.seed(seed)
    groups = [g for g in candidates(repo, pats) if g]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    out = open(os.path.join(lane, "out.jsonl"), "a")
    done = 0
    seen = set()
    while done < count:
        g = r.choices(groups, weights=[len(x) ** .5 for x in groups])[0]
        f, i, a, b = r.choice(g)
        if (f, i, b) in seen:
            continue
        seen.add((f, i, b))
        p = os.path.join(repo, f)
        src = open(p).read()
        ls = src.split("\n")
        assert ls[i] == a
        ls[i] = b
        open(p, "w").write("\n".join(ls))
        rec = {"file": f, "line": i + 1, "old": a.strip(), "new": b.strip()}
        try:
            rc, o = sh("cargo build -p sevenz-rust -p lzma-rust --all-features --offline", repo, env=env)
            if rc != 0:
                continue
            rc, o = sh("timeout 150 cargo test -p sevenz-rust -p lzma-rust --all-features --no-fail-fast --offline > %s/log 2>&1; python3 /opt/vp/results.py %s/res.json cargo:%s/log" % (lane, lane, lane), repo, t=300, env=env)
            try:
                passed = set(json.load(open(lane + "/res.json"))["passed"])
            except Exception:
                passed = set()
            if stable - passed:
                rec["by"] = "tests"
            else:
                ids = next(m for q, m in MAP if fnmatch.fnmatch(f, q)).split()
                rec["by"] = "NOBODY"
                for c in ids:
                    rc, o = sh("python3 tools/check.py %s quick" % c, verif, t=1000, env=dict(env, VERIF_SEED="1", VERIF_TIER="quick"))
                    if rc == 1:
                        rec["by"] = c
                        rec["why"] = next((l for l in o.splitlines() if "VIOLATION" in l or "violat" in l.lower()), "")[:200]
                        break
                    if rc != 0:
                        rec["by"] = "ERROR " + c
                        rec["why"] = o[-600:]
                        break
                done += 1
            out.write(json.dumps(rec) + "\n")
            out.flush()
        finally:
            open(p, "w").write(src)


if __name__ == "__main__":
    main()
