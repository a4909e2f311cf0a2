"""C19, C21, C22: output that ends early or fails, failing sources, blanked start headers."""
import sess, p_session, p_foreign
from p_session import jcopy, pw_of, STACKS
from lib import un

MC = """SPECIFICATION Spec
CONSTANTS
  MaxAdds = %d
  MaxPieces = %d
  Emit = TRUE
INVARIANTS CrashSafe FaultShown FinishedIsAll NotFinished Described
CHECK_DEADLOCK FALSE
"""
KINDS = ["other", "eof", "wouldblock", "timedout", "denied", "notfound", "data", "input", "broken", "writezero", "unsupported", "memory"]


def rd_of(st, **k):
    d = {"mode": "each", "blocks": False}
    if pw_of(st) is not None:
        d["pw"] = pw_of(st)
    d.update(k)
    return d


def small(ops, n):
    for o in ops:
        for x in (o["es"] if o["op"] == "solid" else [o]):
            if isinstance(x.get("data"), dict):
                x["data"]["len"] = min(x["data"]["len"], n)
    return ops


def adds(b, r, kinds):
    """operations for the adds of a model behaviour: the number of pieces decides about the size"""
    ops = []
    for n in kinds:
        if r.random() < .35:
            es = [b.one(k, True, size=r.choice([1, 30, 300 * n])) for k in r.choice([["data", "data"], ["data", "dir", "data"], ["data", "empty"], ["data"]])]
            ops.append({"op": "solid", "es": [dict(x, data=x.get("data", "")) for x in es]})
        else:
            ops.append(dict(b.one(r.choice(["data", "data", "data", "empty", "none", "dir"]), True, size=r.choice([1, 40, 700 * n, 3000 * n])), op="file"))
    return ops


def read_rec(x):
    d = sess.read(x)
    d["hasblocks"], d["blocks"] = False, []
    return d


# ---------------------------------------------------------------- C19
def c19(c):
    c.rules.append("distinct sessions; every image on the way (after each output operation and with the last write torn) is an evaluation inside of them (coverage.images)")
    b = p_session.Build(c)
    r = c.rng
    c.model("writer over a device", "MC_Store", MC % (3, 2))
    scs = []
    ss = p_session.sessions(c, "Plain", 1, sim=c.q(60, 400), simlen=c.q(4, 8))
    fs = p_session.sessions(c, "Failing", 0, sim=c.q(25, 200), simlen=5)
    for k, st in enumerate(STACKS):
        # every session with one operation, and random ones
        for s in (ss if c.thorough else r.sample(ss, min(len(ss), 24))) + (fs if c.thorough else r.sample(fs, min(len(fs), 5))):
            sc = b.scenario(s, stack=st, meta=True, hdr=r.choice([None, False]), size=r.choice([1, 9, 60, None]))
            if any(o["op"] == "setm" for o in sc["ops"]) and not c.thorough and r.random() < .5:
                continue
            small(sc["ops"], 400)
            sc["sink"] = {"log": True}
            if r.random() < .4:
                sc["sink"]["short"] = r.choice([[1], [3, 1], [16], [7, 64]])
            sc["crash"] = {"tears": c.q(40, 200), "read": sc["reads"][0] | {"blocks": False}}
            sc["reads"] = []
            sc["cpu"] = 120
            scs.append(sc)
    for a in scs:
        for o in a["ops"]:
            if o["op"] == "file" and o.get("fail_at") is None and r.random() < .1:
                o["data"] = {"gen": "rand", "len": r.choice([3000, 9000]), "seed": r.randrange(1 << 30)} if not o["e"].get("dir") else o.get("data")
                if o["data"] is None:
                    del o["data"]
    # contents that look like headers or whole archives
    for k in range(c.q(20, 120)):
        st = jcopy(r.choice(STACKS))
        ops = [{"op": "file", "e": {"name": b.name()}, "data": ghost(r)} for _ in range(r.randrange(1, 4))]
        scs.append({"kind": "w", "sink": {"log": True}, "methods": st, "ops": ops + [{"op": "finish"}], "hdr_enc": r.random() < .5, "cpu": 120,
                    "crash": {"tears": 60, "read": rd_of(st)}})
    rs = c.run(scs, "images on the way")
    images = 0
    recs = []
    for s, q in zip(scs, rs):
        d = sess.record("C19", s, q)
        d["rule"] = "crash"
        d["outs"], d["bytes"], d["srcs"] = [], [], []
        d["probes"] = [{"at": str(x["at"]), "complete": x["complete"], "read": read_rec(x["read"])} for x in q.get("crash", [])]
        images += sum(x["count"] for x in q.get("crash", []))
        recs.append(d)
    c.notes["images"] = images
    c.judge("J_Store", recs, scs, "images on the way", rs)


def ghost(r):
    """bytes that contain a header of another archive, or a whole other archive"""
    import struct, ref7z
    nm = "ghost%d" % r.randrange(100)
    name = nm.encode("utf-16-le") + b"\0\0"
    h = b"\x01\x05\x01\x0e\x01\x80\x0f\x01\x80\x11" + bytes([len(name) + 1]) + b"\0" + name + b"\0\0"
    k = r.random()
    if k < .35:
        return h.hex()
    if k < .7:
        s = struct.pack("<QQI", 0, len(h), ref7z.crc(h))
        return (b"7z\xbc\xaf\x27\x1c\0\x04" + struct.pack("<I", ref7z.crc(s)) + s + h).hex()
    if k < .85:
        return (b"7z\xbc\xaf\x27\x1c\0\x04" + bytes(24) + h).hex()
    return (bytes(r.choice([1, 0x17, 0, 5, 4, 6, 7, 11, 0x0c]) for _ in range(r.randrange(5, 200)))).hex()


# ---------------------------------------------------------------- C21
def fault_ops(s, q):
    """records of the operations with what hit them"""
    out = sess.ops(s, q)
    kind = s["sink"].get("fail_kind", "other")
    for o, x in zip(out, q.get("ops", [])):
        o["hit"] = bool(x.get("hit", x.get("op") == "new"))
        # an interrupted write may be tried again, and so may one that took nothing
        o["must"] = kind != "interrupted" and (kind != "zero" or s["sink"].get("sticky", False))
        o["faulted"] = False
    return out


def c21(c):
    c.rules.append("distinct sessions with the failing operation, kind and stickiness; source failures are swept inside of a scenario (coverage.source_failures)")
    b = p_session.Build(c)
    r = c.rng
    plans = c.model("writer over a failing device", "MC_Store", MC % (c.q(3, 4), 2))
    plans = [x for _, x in sorted({str(x): x for x in plans}.items())]
    # sessions run clean first, for the number of output operations
    base = []
    for k in range(c.q(70, 300)):
        st = jcopy(STACKS[k % len(STACKS)])
        sc = {"kind": "w", "sink": {}, "methods": st, "ops": adds(b, r, [r.choice([1, 2]) for _ in range(r.randrange(1, 4))]) + [{"op": "finish"}],
              "hdr_enc": r.random() < .6, "reads": [rd_of(st)]}
        if r.random() < .5:
            sc["sink"]["short"] = r.choice([[1], [9], [100, 1], [4096]])
        if r.random() < .5:
            sc["chunks"] = r.choice([[1], [4096], [64, 1]])
        base.append(sc)
    clean = c.run([jcopy(x) for x in base], "clean runs")
    scs = []
    for s, q in zip(base, clean):
        n = q.get("sink_ops", 0)
        if not q.get("finished"):
            if q.get("died") != "not run":
                c.violation("clean runs", "a session without failures did not finish", s, q)
            continue
        ks = list(range(n)) if n <= c.q(24, 200) else sorted(set(list(range(6)) + list(range(n - 8, n)) + [r.randrange(n) for _ in range(c.q(12, 150))]))
        for k in ks:
            t = jcopy(s)
            t["sink"].update(fail_at=k, fail_kind=r.choice(KINDS + ["zero", "zero", "interrupted"]), sticky=r.random() < .4)
            if t["sink"]["fail_kind"] == "interrupted":
                t["sink"]["sticky"] = False      # writing goes on until it is not
            t["also_unfinished"] = True
            scs.append(t)
    # behaviours of the model: which operation fails, where in it, and whether the device goes on failing
    for p in plans if c.thorough else r.sample(plans, min(len(plans), 500)):
        if p["fault"]["at"] == 0:
            continue
        st = jcopy(r.choice(STACKS))
        s = {"kind": "w", "sink": {}, "methods": st, "ops": adds(b, r, p["plan"]) + [{"op": "finish"}], "reads": [rd_of(st)], "also_unfinished": True, "_p": p}
        scs.append(s)
    todo = [s for s in scs if "_p" in s]
    cl = c.run([{k: v for k, v in jcopy(s).items() if k != "_p"} for s in todo], "clean runs")
    for s, q in zip(todo, cl):
        p = s.pop("_p")
        at = p["fault"]["at"]
        if "ops" not in q or len(q["ops"]) < at:
            if q.get("died") != "not run":
                c.violation("clean runs", "a session without failures did not finish", s, q)
            scs.remove(s)
            continue
        o0, o1 = q["ops"][at - 1]["ops"]
        m = o1 - o0
        ph = p["fault"]["ph"]
        off = {"first": 0, "later": m - 1 if r.random() < .3 else r.randrange(max(1, m)), "hdr": max(0, m - 3), "seek": max(0, m - 2), "sig": max(0, m - 1)}[ph]
        s["sink"].update(fail_at=o0 + min(off, max(0, m - 1)), fail_kind=r.choice(KINDS), sticky=p["fault"]["sticky"])
    rs = c.run(scs, "failing output")
    recs = []
    for s, q in zip(scs, rs):
        d = sess.record("C21", s, q)
        d.update(rule="fault", ops=fault_ops(s, q), reads=[read_rec(x) for x in q.get("reads", [])], outs=[], probes=[], bytes=[], srcs=[])
        recs.append(d)
    c.judge("J_Store", recs, scs, "failing output", rs)
    # sources
    scs = []
    for k in range(c.q(60, 240)):
        st = jcopy(STACKS[k % len(STACKS)])
        s = {"kind": "w", "sink": {}, "methods": st, "ops": adds(b, r, [r.choice([1, 2]) for _ in range(r.randrange(1, 5))]) + [{"op": "finish"}],
             "hdr_enc": r.random() < .6, "cpu": 120, "reads": [source_plan(c, r, rd_of(st)) for _ in range(c.q(3, 6))]}
        scs.append(s)
    rs = c.run(scs, "failing source")
    total = 0
    recs = []
    for s, q in zip(scs, rs):
        d = sess.record("C21", s, q)
        d.update(rule="source", reads=[], outs=outs(s, q), probes=[], bytes=[], srcs=[])
        total += sum(x.get("total", 0) for x in q.get("reads", []))
        recs.append(d)
    c.judge("J_Store", recs, scs, "failing source", rs)
    tab = p_foreign.table(c)
    ss = p_foreign.model(c, tab, "random archives", 3, 3, "AllBodies", "OptSeq", sim=c.q(120, 1000), depth=90)
    scs = []
    for s in ss:
        by = p_foreign.assemble(s, tab, r, gap=r.choice([b"", b"\0" * 5]))
        if not s["bytes"]:
            continue
        rd = {"mode": "each", "blocks": False}
        if any(tab[f - 1]["_aes"] for f in s["fo"]):
            rd["pw"] = p_foreign.PW
        scs.append({"kind": "r", "bytes": by.hex(), "contents": [x.hex() for x in p_foreign.contents(s, tab)], "reads": [source_plan(c, r, rd) for _ in range(2)], "cpu": 120, "_h": s["bytes"]})
    rs = c.run([{k: v for k, v in s.items() if k != "_h"} for s in scs], "failing source, other writers")
    recs = []
    for s, q in zip(scs, rs):
        recs.append({"rule": "sourcef", "died": q.get("died", q.get("panic", "")) or "", "bytes": s["_h"], "srcs": q.get("srcs", []), "outs": outs(s, q), "probes": [], "ops": [], "reads": []})
        total += sum(x.get("total", 0) for x in q.get("reads", []))
    c.judge("J_Store", recs, scs, "failing source, other writers", rs)
    c.notes["source_failures"] = total


def source_plan(c, r, rd):
    rd = dict(rd)
    rd["src"] = {}
    if r.random() < .6:
        rd["src"]["short"] = r.choice([[1], [7], [64, 1], [300]])
    if r.random() < .4:
        rd["buf"] = r.choice([[1], [64], [5, 300]])
    rd["sweep"] = {"kind": "srcfault", "fail_kind": r.choice(KINDS + ["zero", "interrupted"]), "sticky": r.random() < .4, "max": c.q(250, 2000)}
    if rd["sweep"]["fail_kind"] == "interrupted":
        rd["sweep"]["sticky"] = False
    return rd


def outs(s, q):
    o = []
    for p, x in zip(s["reads"], q.get("reads", [])):
        real = p["sweep"]["fail_kind"] not in ("zero", "interrupted")
        for y in x.get("sweep", []):
            o.append({"at": "operation %d" % y["at"][0], "real": real, "hit": bool(y["read"].get("hit")), "opening": y["at"][0] < y["read"].get("open_ops", 0), "read": read_rec(y["read"])})
    return o


# ---------------------------------------------------------------- C22
MCB = """SPECIFICATION Spec
CONSTANTS
  MaxEntries = %d
  Emit = TRUE
INVARIANTS NeverWrong FoundWhenAlone
CHECK_DEADLOCK FALSE
"""


def ghost_units(r, how):
    """a name whose bytes, followed by those of the rest of the header, look like a header"""
    if how == "broken":
        b = r.choice([b"\x01\x05\x01\x0e\x02", b"\x01\x04\x06\x01", b"\x17\x06\x01\x01", b"\x01\x05\x7f\x7f", bytes(r.choice([1, 0x17, 4, 5, 6, 7, 0x11, 0x0e]) for _ in range(r.randrange(2, 20)))])
    elif how == "short":
        # a header that ends in the name
        b = b"\x61\x01\x05\x01\x19\x01\x01\x0e\x01\x80\x11\x05\x00\x78"
    elif how == "free":
        # entries without streams; the terminator of the name is the one of the ghost's name
        b = r.choice([b"\x01\x05\x01\x0e\x01\x80\x0f\x01\x80\x11\x05\x00\x78\x00", b"\x01\x05\x01\x0e\x01\x80\x11\x05\x00\x78\x00"])
    else:
        # one stream, copied, that ends where the ghost starts (see place_matches)
        b = MARK + MZ[1:] + b"\x00\x07\x0b\x01\x00\x01\x01\x00" + MC2 + b"\x00\x00\x05\x01\x11\x05\x00\x78\x00"
    if len(b) % 2:
        b = b"a" + b
    u = [b[i] + 256 * b[i + 1] for i in range(0, len(b), 2)]
    return None if 0 in u or any(0xd800 <= x < 0xe000 for x in u) else b.decode("utf-16-le")


def c22(c):
    c.rules.append("distinct sessions whose contents and names hold what looks like a header; each is read with its start header zeroed")
    b = p_session.Build(c)
    r = c.rng
    lay = c.model("search for the header", "MC_Blank", MCB % c.q(2, 3))
    lay = [x for _, x in sorted({str(x): x for x in lay}.items())]
    scs = []
    for l in lay if c.thorough else r.sample(lay, min(len(lay), 900)):
        st = jcopy({"plain": [sess.lz2()], "packed": r.choice(STACKS), "encrypted": r.choice([s for s in STACKS if pw_of(s) is not None])}[l["hdr"]])
        if l["hdr"] == "plain" and r.random() < .5:
            st = jcopy(r.choice([s for s in STACKS if pw_of(s) is None]))
        ops = []
        for k, e in enumerate(l["ents"]):
            u = {"no": None}.get(e["n"], 1) and ghost_units(r, e["n"])
            d = {"name": b.name() if u is None else u, "dir": e["k"] == "dir", "anti": False}
            if l["hdr"] == "packed" and r.random() < .7:
                d["name"] = "n" * 200 if u is None else d["name"]
            if u is None and r.random() < .4:
                b.times(d)
            o = {"op": "file", "e": d}
            if e["k"] == "data":
                g = ghost(r)
                o["data"] = {"no": {"gen": "rand", "len": r.choice([1, 40, 700]), "seed": r.randrange(1 << 30)},
                             "short": g, "broken": (bytes(r.choice([1, 0x17, 0, 4, 5, 6, 7, 11, 12, 9, 33]) for _ in range(r.randrange(4, 300)))).hex()}[e["d"]]
            elif e["k"] == "empty":
                o["data"] = ""
            ops.append(o)
        if r.random() < .3:
            ops = [{"op": "solid", "es": [{"e": o["e"], "data": o.get("data", "")} for o in ops]}]
        scs.append({"kind": "w", "sink": {}, "methods": st, "ops": ops + [{"op": "finish"}], "hdr_enc": l["hdr"] == "encrypted" or r.random() < .5})
        if any(e["n"] == "match" for e in l["ents"]):
            scs[-1]["_m"] = True
    # sessions of the writer
    for s in p_session.sessions(c, "Plain", 1, sim=c.q(80, 500), simlen=c.q(6, 10)):
        sc = b.scenario(s, meta=True, hdr=r.choice([None, False]), size=r.choice([1, 9, 60, 500, None]))
        if not any(o["op"] == "setm" for o in sc["ops"]):
            sc.pop("reads", None)
            scs.append(sc)
    for k in range(c.q(15, 60)):
        sc = {"kind": "w", "sink": {}, "methods": jcopy(r.choice(STACKS)), "ops": [{"op": "file", "e": {"name": b.name()}, "data": {"gen": r.choice(["rand", "mix", "text"]), "len": r.choice([3000, 70000, 1200000, 300000]), "seed": k}} for _ in range(r.randrange(1, 4))] + [{"op": "finish"}]}
        sc["big"] = True
        scs.append(sc)
    place_matches(c, scs)
    full = []
    for s in scs:
        rd = rd_of(s["methods"])
        s["reads"] = [dict(rd, mutate=[{"blank": True}])]
        f = [True]
        if r.random() < .3:
            s["reads"].append(dict(rd, mutate=[{"blank": True}], src={"short": r.choice([[1], [7], [100, 1]])} if not s.get("big") else {"short": [4096, 100]}))
            f.append(True)
        if pw_of(s["methods"]) is not None and not s.get("big"):
            for pw in (None, "other"):
                x = {k: v for k, v in rd.items() if k != "pw"}
                if pw:
                    x["pw"] = pw
                s["reads"].append(dict(x, mode="open", mutate=[{"blank": True}]))
                f.append(False)
        full.append(f)
        s["keep"] = not s.get("big")
        s["cpu"] = 120
    rs = c.run(scs, "blanked start headers")
    recs, amb = [], 0
    for s, q, f in zip(scs, rs, full):
        d = sess.record("C22", s, q)
        rr = [read_rec(x) for x in q.get("reads", [])]
        keep = [k for k in range(len(rr)) if f[k] or not rr[k]["open"].startswith("err")]
        d.update(rule="blank", reads=[rr[k] for k in keep], full=[f[k] for k in keep], big=bool(s.get("big")), bytes=list(bytes.fromhex(q.get("bytes", ""))) or [0] * 40, outs=[], probes=[], srcs=[])
        amb += any(x["open"].startswith("err") for x in rr[:1])
        recs.append(d)
    c.notes["not_recovered"] = amb
    c.judge("J_Store", recs, scs, "blanked start headers", rs)


def place_matches(c, scs):
    """ghosts with streams: their streams are made to end where they start"""
    ms = [s for s in scs if s.get("_m")]
    rs = c.run([dict({k: v for k, v in jcopy(s).items() if k != "_m"}, keep=True) for s in ms], "ghosts to be placed")
    n = 0
    for s, q in zip(ms, rs):
        by = bytes.fromhex(q.get("bytes", ""))
        off = 32 + int.from_bytes(by[12:20], "little") if len(by) >= 32 else 0
        at = by.rfind(MARK)
        if at >= off > 0 and at - 33 < 16384:
            for o in s["ops"]:
                for e in ([x["e"] for x in o["es"]] if o["op"] == "solid" else [o["e"]] if o["op"] == "file" else []):
                    if MARK in ub(e["name"]):
                        v = at - 33
                        b = ub(e["name"]).replace(MZ, b"\x09" + bytes([0x80 | v >> 8, v & 255])).replace(MC2, b"\x0c" + bytes([0x80 | v >> 8, v & 255]))
                        u = [b[i] + 256 * b[i + 1] for i in range(0, len(b), 2)]
                        if 0 not in u and not any(0xd800 <= x < 0xe000 for x in u):
                            e["name"] = b.decode("utf-16-le")
                            n += 1
        s.pop("_m")
    c.notes["ghosts_with_streams"] = n


MARK, MZ, MC2 = b"\x01\x04\x06\x01\x01\x09", b"\x09\x80\x55", b"\x0c\x80\x55"


def ub(u):
    return u.encode("utf-16-le", "surrogatepass")
