"""C01, C02, C18: writer sessions and what reads back."""
import sess, tlc
from sess import lz1, lz2, aes, units
from lib import l64

MC = """SPECIFICATION Spec
CONSTANTS
  MaxOps = %d
  MaxFiles = %d
  Alphabet <- %s
  Size <- Z
  Emit = TRUE
  SimLen = %d
INVARIANTS TypeOK BlocksInOrder DirsHaveNoBytes NeverTwice AllVisited
%sCHECK_DEADLOCK FALSE
"""
PROPS = "PROPERTIES Monotone FailedAddsLeaveNothing\n"


def sessions(c, alpha, depth, sim=0, simlen=0):
    out = []
    if depth:
        out += c.model("all sessions of %d operations over %s" % (depth, alpha), "MC_C01", MC % (depth, 99, alpha, 0, PROPS))
    if sim:
        out += c.model("random sessions over " + alpha, "MC_C01", MC % (simlen, 99, alpha, simlen, ""),
                       args=["-simulate", "num=%d" % sim, "-depth", str(simlen + 2), "-seed", str(c.seed)], workers=1)
    seen, res = set(), []
    for s in out:
        k = str(s)
        if k not in seen:
            seen.add(k)
            res.append(s)
    res.sort(key=str)
    return res


STACKS = [
    [lz2()], [lz1()], [aes(), lz2()], [lz2(dict=65536, mode="normal", mf="bt4")], [lz1(mode="normal", mf="bt4", lc=0, lp=2, pb=0)],
    [aes(cyc=0, salt=None, iv=None), lz1()], [lz2(lc=1, lp=3, pb=4)], [aes(pw=[0x70, 0xe9, 0xd83d, 0xde00])], [lz2(nice=8, depth=1)],
    [lz1(lc=8, lp=0, pb=2)], [lz1(lc=4, lp=4, pb=4)], [aes(cyc=3), lz2(mode="normal")],
    [aes(cyc=1), lz1(), lz2()], [lz2(), lz1(lc=0)], [lz1(), aes(cyc=2), lz2()],
    # the dictionary given as a mere number, also one that is no power of two
    [{"m": "LZMA2"}], [{"m": "LZMA"}], [aes(cyc=1), {"m": "LZMA2"}],
    [{"m": "LZMA2", "num": 70000}], [{"m": "LZMA", "num": 5000}], [{"m": "LZMA2", "num": 4096}],
]
# the named levels
STACKS += [[{"m": ["LZMA2", "LZMA"][k % 2], "opts": True, "preset": k}] for k in range(10)]
FAILS = ["other", "eof", "wouldblock", "timedout", "denied", "notfound", "data", "input", "broken", "writezero", "unsupported", "memory"]
GENS = ["text", "rand", "lz", "x86", "zero", "mix", "crc"]
NAMES = ["a.txt", "dir/b", "ü", "日本語.txt", "😀/x", "a b", "very" * 60, "ÿĀ", "x" * 127, "y" * 128, "q\u0101\u0100", "-", ".", "#%&", "\u0001", "tab\tname", "é" * 300]


def pw_of(ms):
    for m in ms:
        if m["m"] == "AES":
            return m["pw"]
    return None


class Build:
    """turns abstract sessions into scenarios"""
    def __init__(self, c):
        self.c, self.k = c, 0

    def name(self):
        self.k += 1
        if self.c.rng.random() < .3:
            return self.c.rng.choice(NAMES) + str(self.k)
        return "f%d" % self.k

    def data(self, size=None):
        r = self.c.rng
        n = size if size is not None else r.choice([1, 2, 3, 5, 17, 40, 90, 200, 255, 256, 300])
        return {"gen": r.choice(GENS), "len": n, "seed": r.randrange(1 << 30)}

    def times(self, e):
        r = self.c.rng
        for k in ("ct", "at", "mt"):
            if r.random() < .4:
                e[k] = [r.random() < .8, str(r.choice([0, 1, 116444736000000000, 132223104000000000, (1 << 64) - 1, r.getrandbits(64), r.getrandbits(57)]))]
        if r.random() < .4:
            e["attr"] = [r.random() < .8, r.choice([0, 1, 0x20, 0x8000, 0x81a48020, 0xffffffff, r.getrandbits(32)])]
        return e

    def one(self, k, meta=False, size=None):
        e = {"name": self.name(), "dir": k in ("dir", "dirdata", "antidir"), "anti": k in ("anti", "antidir")}
        if k in ("data", "empty", "dirdata") and self.c.rng.random() < .5:
            e["hs"] = True
        if self.c.rng.random() < .2:
            e["used"] = self.c.rng.randrange(100)
        if meta:
            self.times(e)
        x = {"e": e}
        if k in ("data", "dirdata"):
            x["data"] = self.data(size)
        elif k == "empty":
            x["data"] = ""
        return x

    def op(self, a, meta=False, size=None):
        r = self.c.rng
        if a["op"] == "setm":
            ms = {"bad": r.choice([[{"m": "BZIP2"}], [{"m": "AES", "noopt": True}], [{"m": "ZSTD"}], [{"m": "X86"}, lz2()], [{"m": "DELTA", "num": 2}]])}.get(a["m"], r.choice(STACKS))
            return {"op": "setm", "methods": jcopy(ms)}
        if a["op"] == "file":
            x = self.one(a["ks"][0], meta, size)
            o = {"op": "file", "e": x["e"]}
            if "data" in x:
                o["data"] = x["data"]
            if a["fail"] != "no" and "data" in x:
                n = x["data"]["len"] if isinstance(x["data"], dict) else 0
                o["fail_at"] = r.choice([0, 1, n // 2, n])
                o["fail_kind"] = r.choice(FAILS)
            return o
        es = [self.one(k, meta, size) for k in a["ks"]]
        for x in es:
            if "data" not in x:
                x["data"] = ""
        if a["fail"] != "no" and es:
            x = r.choice([x for x in es])
            n = x["data"]["len"] if isinstance(x["data"], dict) else 0
            x["fail_at"] = r.choice([0, n // 2, n])
            x["fail_kind"] = r.choice(FAILS)
        return {"op": "solid", "es": es}

    def scenario(self, s, stack=None, meta=False, chunks=None, hdr=None, size=None):
        r = self.c.rng
        st = jcopy(stack if stack is not None else r.choice(STACKS))
        ops = [self.op(a, meta, size) for a in s["ops"]]
        cur = st
        for o in ops:
            if o["op"] == "setm":
                cur = o["methods"]
        if sess.no_encoder(cur):
            ops.append({"op": "setm", "methods": st})
        # one password per archive
        pws = [m["pw"] for ms in [st] + [o["methods"] for o in ops if o["op"] == "setm"] for m in ms if m["m"] == "AES" and "pw" in m]
        pw = pws[0] if pws else None
        for ms in [st] + [o["methods"] for o in ops if o["op"] == "setm"]:
            for i, m in enumerate(ms):
                if m["m"] == "AES" and "pw" in m:
                    ms[i] = dict(m, pw=pw)
        ops.append({"op": "finish"})
        sc = {"kind": "w", "sink": {}, "methods": st, "ops": ops}
        if r.random() < .15:
            sc["sink"]["short"] = r.choice([[1], [3, 1], [16], [7, 64], [100], [5, 4096]])
        if hdr is not None:
            sc["hdr_enc"] = hdr
        if chunks:
            sc["chunks"] = chunks
        rd = {"mode": "each"}
        if pw is not None:
            rd["pw"] = pw
        sc["reads"] = [sess.via(r, rd)]
        return sc


def run(c, scs, group, module="J_Session"):
    scs = [jcopy(s) for s in scs]
    rs = c.run(scs, group)
    recs = [sess.record(c.pid, s, r) for s, r in zip(scs, rs)]
    return c.judge(module, recs, scs, group, rs)


def far(c):
    """contents whose repetition lies as far back as the dictionary reaches"""
    r, scs = c.rng, []
    for d in [(1 << 20) + 1, 3 << 19, 5 << 20] + c.q([r.choice([1 << 22, 7 << 20, 3 << 22, (1 << 23) + 1])], [1 << 22, 3 << 20, 7 << 20, (1 << 23) + 1, 3 << 22, 1 << 24, 3 << 23, (1 << 24) + 1, 17 << 20]):
        for lz in (lz2, lz1):
            t = {"gen": "rand", "len": 70000, "seed": r.randrange(1 << 30)}
            gap = d - 70000 + r.choice([-300, 0, 1, 35000])
            # on its own and over the entries of a solid block
            fill = {"gen": "byte", "b": r.randrange(256), "len": gap}
            e = lambda n, x: {"e": {"name": n}, "data": x}
            ops = [dict(e("x", {"cat": [t, fill, t, {"gen": "rand", "len": 100, "seed": 3}]}), op="file")] if r.random() < .5 else [{"op": "solid", "es": [e("x", t), e("y", fill), e("z", t)]}]
            scs.append({"kind": "w", "sink": {}, "cpu": 120, "methods": [lz(dict=d)], "ops": ops + [{"op": "finish"}], "reads": [{"mode": "each"}]})
    return scs


def jcopy(x):
    import json
    return json.loads(json.dumps(x))


def A(op, ks=(), fail="no", m=""):
    return {"op": op, "ks": list(ks), "fail": fail, "m": m}


def c01(c):
    c.rules.append("distinct sessions: operation sequence, entry kinds and names, contents, methods, read splits")
    b = Build(c)
    r = c.rng
    ss = sessions(c, "Plain", c.q(2, 4), sim=c.q(300, 3000), simlen=c.q(8, 14))
    d3 = sessions(c, "Plain", 3) if not c.thorough else []
    ss += r.sample(d3, min(len(d3), 900))
    run(c, [b.scenario(s, chunks=r.choice([None, [1], [3, 1, 100], [7]]), hdr=r.choice([None, None, False])) for s in ss], "sessions")
    # sizes and contents for every method stack
    scs = []
    sizes = [0, 1, 2, 3, 4, 100, 4095, 4096, 4097, 65535, 65536, 65537, 70000] + c.q([150000], [150000, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1, 3000000])
    for st in STACKS:
        for n in sizes:
            for g in (GENS if c.thorough else r.sample(GENS, 2)):
                d = {"gen": g, "len": n, "seed": r.randrange(1 << 30)}
                k = r.choice(["one", "two", "solid"])
                e = lambda: {"name": b.name()}
                if k == "one":
                    ops = [{"op": "file", "e": e(), "data": d}]
                elif k == "two":
                    ops = [{"op": "file", "e": e(), "data": d}, {"op": "file", "e": e(), "data": b.data()}]
                else:
                    ops = [{"op": "solid", "es": [{"e": e(), "data": b.data()}, {"e": e(), "data": d}, {"e": e(), "data": b.data()}]}]
                scs.append({"kind": "w", "sink": {}, "methods": st, "ops": ops + [{"op": "finish"}],
                            "chunks": r.choice([None, [4096], [1000, 1], [65536]]), "reads": [dict({"mode": "each"}, **({"pw": pw_of(st)} if pw_of(st) else {}))]})
    scs = [{k: v for k, v in s.items() if v is not None} for s in scs]
    run(c, scs, "sizes")
    # default methods (dictionary 8 MiB) and the limits of an LZMA2 chunk
    scs = []
    for n in ([5, 2097152] + c.q([], [2097151, 2097153, 5000000, 9000000])):
        for g in ("text", "rand", "mix"):
            ms = r.choice([None, [lz2(preset=1)], [{"m": "LZMA2"}]])
            sc = {"kind": "w", "sink": {}, "cpu": 60, "ops": [{"op": "file", "e": {"name": "x"}, "data": {"gen": g, "len": n, "seed": 5}}, {"op": "finish"}], "reads": [{"mode": "each"}]}
            if ms:
                sc["methods"] = ms
            scs.append(sc)
    run(c, scs, "large")
    run(c, far(c), "far matches")
    # many entries; entries without data in every position modulo 8 and around byte boundaries
    scs = []
    for n in [7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257] + c.q([], [1000, 4096, 16384]):
        for mode in ("solid", "single", "mixed", "holes"):
            if mode != "solid" and n > 1000:
                continue
            es = []
            for i in range(n):
                k = "data" if mode in ("solid", "single") else r.choice(["data", "empty", "none", "dir", "data"])
                es.append(b.one(k, size=r.randrange(1, 9)))
            if mode == "solid":
                ops = [{"op": "solid", "es": [dict(x, data=x.get("data", "")) for x in es]}]
            elif mode == "holes":
                ops = []
                for i in range(0, n, 5):
                    ops.append({"op": "solid", "es": [dict(x, data=x.get("data", "")) for x in es[i:i + 5]]})
            else:
                ops = [dict(x, op="file") for x in es]
            scs.append({"kind": "w", "sink": {}, "methods": [lz2()], "ops": ops + [{"op": "finish"}], "reads": [{"mode": "each"}]})
    # more entries than 16 bits count, most without data (few names, which need not differ)
    for n, g in c.q([(0, 66000), (2000, 100)], [(0, 66000), (2000, 100), (16500, 100)]):
        ops = [{"op": "solid", "es": [{"e": {"name": "abc"[i % 3]}, "data": {"gen": "text", "len": i % 3, "seed": i}} for i in range(g)]}]
        ops += [{"op": "file", "e": {"name": "abc"[i % 3], "dir": i % 5 == 0}} for i in range(n)]
        scs.append({"kind": "w", "sink": {}, "cpu": 60, "methods": [lz2()], "ops": ops + [{"op": "finish"}], "reads": [{"mode": "each"}]})
    run(c, scs, "many entries")
    # entries longer than 32 bits count
    if c.thorough:
        from far import Far
        scs = []
        for k, (st, solid) in enumerate([([lz2(preset=0)], False), ([lz1(preset=0)], True), ([aes(cyc=1), lz2(preset=0)], False)]):
            G4, t = 1 << 32, lambda: bytes(r.randrange(256) for _ in range(300))
            big = Far(t(), (G4 + r.randrange(70000), 0x11), t(), (r.randrange(1 << 20), 7), t()).store()
            ops = [dict(b.one("data"), op="file")]
            if solid:
                ops.append({"op": "solid", "es": [b.one("data"), {"e": {"name": "big"}, "data": big}, b.one("data")]})
            else:
                ops.append({"op": "file", "e": {"name": "big"}, "data": big})
            ops.append(dict(b.one("data"), op="file"))
            scs.append({"kind": "w", "sink": {"pages": True}, "cpu": 1500, "methods": st, "ops": ops + [{"op": "finish"}], "reads": [dict({"mode": "each"}, **({"pw": pw_of(st)} if pw_of(st) else {}))]})
        run(c, scs, "entries beyond 4 GiB")
    # names
    scs = []
    for k in range(c.q(40, 400)):
        names = [r.choice(NAMES) for _ in range(r.randrange(1, 5))] + [""] * (r.random() < .2)
        names += ["".join(chr(r.choice([r.randrange(1, 128), r.randrange(0x80, 0x800), r.randrange(0x800, 0xd800), r.randrange(0xe000, 0x110000)])) for _ in range(r.randrange(1, 20))) for _ in range(3)]
        scs.append({"kind": "w", "sink": {}, "methods": [lz2()],
                    "ops": [dict(b.one("data", size=4), op="file") for _ in names] + [{"op": "finish"}], "reads": [{"mode": "each"}]})
        for o, n in zip(scs[-1]["ops"], names):
            o["e"]["name"] = n
    for n in [32766, 32767, 32768, 65535, 65536, 70000]:
        x = [dict(b.one("data", size=4), op="file") for _ in range(3)]
        x[1]["e"]["name"] = "n" * n if n % 2 else "é😀"[n // 2 % 2] * n
        scs.append({"kind": "w", "sink": {}, "methods": [lz2()], "ops": x + [{"op": "finish"}], "reads": [{"mode": "each"}]})
    run(c, scs, "names")


def c02(c):
    c.rules.append("distinct sessions: metadata presence and values, kinds, numbers of entries")
    b = Build(c)
    r = c.rng
    # every presence pattern of a few entries for each field, other fields present or not
    scs = []
    T = {"ct": "132223104000000000", "at": str((1 << 64) - 1), "mt": "1", "attr": 0x81a48020}

    def sc(es, solid=False):
        if solid:
            ops = [{"op": "solid", "es": [dict(x, data=x.get("data", "")) for x in es]}]
        else:
            ops = [dict(x, op="file") for x in es]
        return {"kind": "w", "sink": {}, "methods": [lz2()], "ops": ops + [{"op": "finish"}], "reads": [{"mode": "each"}]}
    for n in (1, 2, 3, 4):
        for f in ("ct", "at", "mt", "attr"):
            for mask in range(1 << n):
                es = [b.one(r.choice(["data", "data", "empty", "none", "dir"]), size=3) for _ in range(n)]
                for i in range(n):
                    if mask >> i & 1:
                        es[i]["e"][f] = [True, T[f]]
                    for g in ("ct", "at", "mt", "attr"):
                        if g != f and r.random() < .3:
                            es[i]["e"][g] = [r.random() < .5, T[g]]
                scs.append(sc(es))
    # anti marks
    for n in (1, 2, 3, 4, 5):
        for mask in range(1 << n):
            ks = [("anti" if mask >> i & 1 else r.choice(["none", "dir", "empty"])) for i in range(n)]
            ks = [("antidir" if k == "anti" and r.random() < .3 else k) for k in ks]
            if r.random() < .5:
                ks.insert(r.randrange(len(ks) + 1), "data")
            scs.append(sc([b.one(k, size=2) for k in ks]))
    run(c, scs, "presence patterns")
    # bit vectors around byte boundaries, one field defined at single positions or missing at single positions
    scs = []
    for n in [7, 8, 9, 15, 16, 17, 24, 25, 31, 33] + c.q([], [63, 64, 65, 255, 256, 257, 1023, 1025]):
        for f in ("ct", "at", "mt", "attr", "anti"):
            for mode in ("one", "allbut", "rand", "all", "none"):
                es = []
                pos = r.randrange(n)
                for i in range(n):
                    on = {"one": i == pos, "allbut": i != pos, "rand": r.random() < .5, "all": True, "none": False}[mode]
                    if f == "anti":
                        es.append(b.one("anti" if on else r.choice(["data", "none", "dir"]), size=1))
                    else:
                        es.append(b.one(r.choice(["data", "none", "dir"]), size=1))
                        if on:
                            es[-1]["e"][f] = [True, str(r.getrandbits(32 if f == "attr" else 64))]
                scs.append(sc(es, solid=False))
    run(c, scs, "bit vectors")
    # single-bit values: every bit of a time and of the attributes; random sessions with metadata
    scs = []
    for k in range(64):
        es = [b.one("data", size=1), b.one("none"), b.one("dir")]
        for i, f in enumerate(("ct", "at", "mt")):
            es[i]["e"][f] = [True, str(1 << k)]
            es[(i + 1) % 3]["e"][f] = [True, str((1 << 64) - 1 - (1 << k))]
        if k < 32:
            es[0]["e"]["attr"] = [True, 1 << k]
            es[1]["e"]["attr"] = [True, 0xffffffff ^ (1 << k)]
        scs.append(sc(es))
    ss = sessions(c, "Plain", 2, sim=c.q(300, 3000), simlen=c.q(6, 12))
    scs += [b.scenario(s, meta=True) for s in ss]
    run(c, scs, "sessions with metadata")


def c18(c):
    c.rules.append("distinct sessions with failing adds")
    b = Build(c)
    r = c.rng
    ss = sessions(c, "Failing", c.q(2, 4), sim=c.q(200, 3000), simlen=c.q(7, 12))
    if not c.thorough:
        d = sessions(c, "Failing", 3)
        ss += r.sample(d, min(len(d), 1000))
    run(c, [b.scenario(s, meta=True, chunks=r.choice([None, [1], [5, 2]])) for s in ss], "failing adds")
    # a source failing at every offset of larger data, so that compressed bytes have gone out
    scs = []
    for st in STACKS:
        for n in (0, 1, 1000, 70000) + c.q((200000,), (200000, 1000000)):
            for f in sorted({0, 1, n // 3, n // 2, max(0, n - 1), n}):
                if f > n:
                    continue
                d = {"gen": r.choice(["rand", "mix", "text"]), "len": n, "seed": r.randrange(1 << 30)}
                bad = dict(b.one("data"), op="file")
                bad["data"] = d
                bad["fail_at"] = f
                bad["fail_kind"] = r.choice(FAILS)
                good = [dict(b.one("data", True), op="file") for _ in range(3)]
                sol = {"op": "solid", "es": [dict(b.one("data")), dict(b.one("data"), data=d, fail_at=f, fail_kind=r.choice(FAILS)), b.one("data")]}
                ops = [good[0], bad, good[1], sol, good[2]] if r.random() < .5 else [sol, good[0], bad]
                rd = {"mode": "each"}
                if pw_of(st):
                    rd["pw"] = pw_of(st)
                scs.append({"kind": "w", "sink": {}, "methods": st, "ops": ops + [{"op": "finish"}], "reads": [rd]})
    run(c, scs, "late failures")
