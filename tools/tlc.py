"""Running TLC: model checking runs (which may print scenarios) and judging of recorded traces."""
import json, os, re, shutil, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
TLA = "/opt/veriftools/tla"


class ToolError(Exception):
    pass


def classpath():
    jars = []
    for d, _, fs in os.walk(TLA):
        for f in sorted(fs):
            if f.endswith(".jar"):
                jars.append(os.path.join(d, f))
    jars.sort(key=lambda j: (os.path.basename(j) != "tla2tools.jar", j))
    return ":".join(jars)


CP = classpath()


def scratch(tag):
    os.makedirs(WORK, exist_ok=True)
    return tempfile.mkdtemp(prefix=tag + "-", dir=WORK)


def limit():
    return 6000 if os.environ.get("VERIF_TIER") == "thorough" else 800


def run(module, cfg, extra_files=None, env=None, workers=8, timeout=None, args=(), mem="8g", keep=None):
    """Run TLC on spec/<module>.tla (or a generated one).  Returns (rc, output, dir)."""
    d = scratch("tlc")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for n, t in (extra_files or {}).items():
            with open(os.path.join(d, n), "w") as o:
                o.write(t)
        with open(os.path.join(d, "m.cfg"), "w") as o:
            o.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
               "-config", "m.cfg"] + list(args) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout or limit())
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def counts(out):
    m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def unquote(line):
    """the value PrintT printed for a string"""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        return line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return line


def model(module, cfg, extra_files=None, workers=8, timeout=None, args=(), env=None):
    """Model check; every invariant/property must hold.  Returns dict(states, distinct, sc, wall)."""
    t = time.time()
    rc, out = run(module, cfg, extra_files, env=env, workers=workers, timeout=timeout, args=args)
    sim = "-simulate" in args
    ok = rc == 0 and ("No error has been found" in out or sim)
    if not ok:
        raise ToolError("TLC on %s: rc %d\n%s" % (module, rc, out[-4000:]))
    sc = []
    for l in out.splitlines():
        q = unquote(l)
        if q.startswith("SC "):
            sc.append(json.loads(q[3:]))
    g, d = counts(out)
    return {"states": d, "transitions": g, "sc": sc, "wall": time.time() - t, "out": out}


def judge(module, records, verdict="V", chunks=16, timeout=None, consts="", extra_files=None):
    """As judge1; where the specification cannot be evaluated on some record, the others are still judged:
    what they violate stands, and if they violate nothing the error does."""
    try:
        return judge1(module, records, verdict, chunks, timeout, consts, extra_files)
    except ToolError as e:
        if len(records) < 2 or "timed out" in str(e):
            raise
        bad, n, t0 = {}, max(1, -(-len(records) // 8)), time.time()
        for k in range(0, len(records), n):
            if time.time() - t0 > 300:
                break
            try:
                for i, why in judge1(module, records[k:k + n], verdict, chunks, timeout, consts, extra_files).items():
                    bad[k + i] = why
            except ToolError as e2:
                bad.update({k + i: why for i, why in getattr(e2, "bad", {}).items()})
        if not bad:
            raise e
        return bad


def judge1(module, records, verdict="V", chunks=16, timeout=None, consts="", extra_files=None):
    """Have TLC evaluate the verdict operator of spec/<module>.tla on every record.
    Returns {index: reason} of the records the specification does not allow."""
    if not records:
        raise ToolError("nothing to judge")
    d = scratch("trace")
    try:
        tf = os.path.join(d, "trace.ndjson")
        with open(tf, "w") as o:
            for r in records:
                o.write(json.dumps(r) + "\n")
        cfg = "SPECIFICATION Spec\nCONSTANTS\n  Chunks = %d\n  Verdict <- %s\n%s\nCHECK_DEADLOCK FALSE\n" % (chunks, verdict, consts)
        rc, out = run(module, cfg, extra_files, env={"TRACE": tf}, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bad = {}
    for l in out.splitlines():
        q = unquote(l)
        if q.startswith("VERDICT "):
            _, k, why = q.split(" ", 2)
            bad[int(k) - 1] = why
    g, dist = counts(out)
    n = len(records) + min(chunks, len(records))
    if rc != 0 or dist != n:
        e = ToolError("TLC judge %s: rc %d, %d states for %d records\n%s" % (module, rc, dist, n, out[-4000:]))
        e.bad = bad
        raise e
    return bad
