"""Runs scenarios on the harness: a pool of worker processes, each line in -> line out.
A worker that dies is reported as {"died": reason} for the scenario it was running."""
import json, os, subprocess, threading, queue, signal, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HDIR = os.path.join(VERIF, "harness")
BIN = os.path.join(HDIR, "target", "debug", "harness")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never")
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


def build():
    """Rebuild the harness from /repo's working tree.  Returns None or the compiler output."""
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HDIR, env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return p.stdout
    return None


# A code that hangs must not eat the time of the whole check: after some hangs, or when the
# time is up, what is left is not run any more (and not judged).
START = time.time()
HANGS = [0]
SKIPPED = [0]
MAX_HANGS = 10


def budget():
    return 5400 if os.environ.get("VERIF_TIER") == "thorough" else 560


def spent():
    return HANGS[0] >= MAX_HANGS or time.time() - START > budget()


class Worker:
    def __init__(self):
        self.p = None

    def start(self):
        self.p = subprocess.Popen([BIN], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, bufsize=1)

    def run(self, sc, wall):
        if self.p is None or self.p.poll() is not None:
            self.start()
        res = {}
        killed = []

        def kill():
            killed.append(1)
            self.p.kill()
        tm = threading.Timer(wall, kill)
        tm.start()
        try:
            try:
                self.p.stdin.write(json.dumps(sc) + "\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except (BrokenPipeError, OSError):
                line = ""
        finally:
            tm.cancel()
        if line.endswith("\n"):
            return json.loads(line)
        rc = self.p.wait()
        self.p = None
        if killed or rc == -signal.SIGPROF:
            why = "hang"
            HANGS[0] += 1
        elif rc < 0:
            why = {-signal.SIGABRT: "abort", -signal.SIGSEGV: "segv", -signal.SIGKILL: "killed"}.get(rc, "signal%d" % -rc)
        else:
            why = "exit%d" % rc
        return {"id": sc.get("id"), "died": why}

    def stop(self):
        if self.p is not None and self.p.poll() is None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


def run_all(scs, workers=8, wall=240, progress=None):
    """scs: list of dicts.  Returns the results in the same order."""
    for i, s in enumerate(scs):
        s.setdefault("id", i)
    q = queue.Queue()
    for i in range(len(scs)):
        q.put(i)
    out = [None] * len(scs)

    def loop():
        w = Worker()
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                break
            if spent():
                SKIPPED[0] += 1
                out[i] = {"id": scs[i].get("id"), "died": "not run"}
                continue
            out[i] = w.run(scs[i], wall)
        w.stop()
    ts = [threading.Thread(target=loop) for _ in range(min(workers, max(1, len(scs))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return out


def one(sc, wall=240):
    w = Worker()
    r = w.run(sc, wall)
    w.stop()
    return r
