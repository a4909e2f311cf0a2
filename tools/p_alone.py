"""C11: the LZMA writer and reader."""
import lzma, struct
import bodies
from bodies import text, rnd, x86
from lib import l32, l64
from p_encode import options, play, seg
from p_lzma import BUFS, LCLP

CFG = """SPECIFICATION Spec
CONSTANTS
 Kinds = {%s}
 Sizes = {%s}
 MaxOps = %d
 Declared = {%s}
 Emit = TRUE
 Lazy = %s
INVARIANTS EndKnown
CHECK_DEADLOCK FALSE
"""
REL = ["none", "exact", "less", "more", "high"]


def model(c, name, kinds, sizes, maxops, declared=REL, sim=0):
    args, w = (), 8
    if sim:
        args, w = ["-simulate", "num=%d" % sim, "-depth", str(maxops + 5), "-seed", str(c.seed)], 1
    q = lambda l: ",".join('"%s"' % k for k in l)
    s = c.model(name, "MC_Alone", CFG % (q(kinds), ",".join(map(str, sizes)), maxops, q(declared), "TRUE" if sim else "FALSE"), args=args, workers=w)
    u = {str(x): x for x in s}
    return [u[k] for k in sorted(u)]


def item(r, s, d=None, steps=None, dict=None, big=False):
    """scenario and record of a behaviour"""
    f = s["f"]
    o = options(r, dict)
    if r.random() < .4:
        o["lc"], o["lp"] = r.choice(LCLP)
    pre = b""
    if f["preset"]:
        m = r.choice([1, 2, 5, 16, 100, 1000, 4096])
        pre = r.choice([text, rnd])(r, m)
        if r.random() < .2 and o["dict"] % 16 == 0 and o["dict"] <= 65536:
            pre = text(r, o["dict"] + r.randrange(1, 700))
        o["preset_dict"] = pre.hex()
    if d is None:
        d, steps, fe = play(r, s, pre)
    n = len(d)
    exp = {"none": None, "exact": n, "less": n - 1 if r.random() < .7 else r.randrange(n or 1), "more": n + r.choice([1, 1, 5, 65536]), "high": n + r.choice([2 ** 32, 2 ** 63, 2 ** 33])}[f["exp"]]
    props = (o["pb"] * 5 + o["lp"]) * 9 + o["lc"]
    runs = []
    for k in range(3):
        x = {"poke": True}
        if k:
            x["buf"] = r.choice(BUFS[3:] + [[65536]] if big else BUFS)
            if r.random() < .4:
                x["src"] = {"short": r.choice([[1], [3, 1, 50]])}
        if f["header"]:
            x["codec"] = "alone"
        else:
            x.update({"codec": "lzma", "props": props, "dict": o["dict"], "usize": l64(2 ** 64 - 1 if f["eos"] and (k == 2 or f["exp"] == "none" and r.random() < .5) else n)})
            if pre:
                x["preset_dict"] = pre.hex()
            if r.random() < .5:
                x["ctor"] = "new"
        runs.append(x)
    sc = {"kind": "encdec", "codec": "lzma", "opts": o, "data": d.hex(), "steps": steps, "keep": True, "header": f["header"], "eos": f["eos"], "runs": runs, "cpu": 120}
    if exp is not None:
        sc["expected"] = l64(exp)
    if f["ctor"] != "new":
        sc["ctor"] = f["ctor"]
    if f["close"] == "finish":
        sc["end"] = "finish"
    rec = {"want": s["res"], "header": f["header"], "eos": f["eos"], "exp": [] if exp is None else l64(exp), "n": n, "props": props, "dict": l32(o["dict"]),
           "pre": list(pre[-o["dict"]:]), "full": not big, "other": ""}
    return sc, rec, d, o["dict"], pre


def judge(c, items, group):
    scs = [i[0] for i in items]
    rs = c.run(scs, group)
    recs = []
    for (sc, rec, d, ds, pre), q in zip(items, rs):
        b = bytes(q.get("bytes") or b"")
        rec["died"] = q.get("died", q.get("panic", "")) or ""
        rec["res"] = q.get("r", "none")
        rec["b"] = list(b if rec["full"] else b[:13])
        rec["data"] = list(d) if rec["full"] else []
        rec["runs"] = [{"st": x["st"], "rel": x.get("rel", "")} for x in q.get("runs", [])] if rec["res"] == "ok" else []
        lclp = rec["props"] % 9 + rec["props"] // 9 % 5
        if rec["res"] == "ok" and not pre and lclp <= 4:
            h = b[:13] if rec["header"] else bytes([rec["props"]]) + struct.pack("<IQ", ds, 2 ** 64 - 1 if rec["eos"] and len(d) % 2 else len(d))
            try:
                x = lzma.LZMADecompressor(format=lzma.FORMAT_ALONE)
                y = x.decompress(h + (b[13:] if rec["header"] else b))
                rec["other"] = "eq" if y == d else "other bytes"
            except lzma.LZMAError as e:
                rec["other"] = "an error"
        for k in ("bytes", "data"):
            q.pop(k, None)
        recs.append(rec)
    c.judge("J_Alone", recs, scs, group, rs)


def c11(c):
    c.rules.append("distinct parameters, inputs and splits")
    r = c.rng
    ss = model(c, "parameters and writes", ["rnd", "same", "back"], [1, 30], 2)
    if not c.thorough:
        r.shuffle(ss)
        ss = ss[:1500]
    judge(c, [item(r, s) for s in ss], "parameters and writes")
    ss = model(c, "many writes", ["rnd", "same", "back", "text", "few", "near", "x86"], [1, 2, 3, 17, 90, 300], 9, sim=c.q(400, 5000))
    ss += model(c, "larger writes", ["rnd", "same", "back", "text", "few", "near", "x86"], [1, 272, 273, 274, 1000, 2500], 5, ["none", "exact"], sim=c.q(60, 800))
    judge(c, [item(r, s) for s in ss], "many writes")
    items = []
    for s in model(c, "inputs longer than the dictionary", ["back"], [1], 1, ["none", "exact"], sim=c.q(24, 150)):
        n = r.randrange(6000, 20000)
        d = bytearray()
        while len(d) < n:
            d += seg(r, r.choice(["same", "back", "back", "text", "near", "few"]), r.randrange(1, 1500), d)
        items.append(item(r, s, bytes(d[:n]), r.choice([[], [1000], [4096, 1], [777, 0]]), r.choice([4096, 4097, 4111, 5000])))
    judge(c, items, "inputs longer than the dictionary")
    # dictionaries of any size the header can carry and the memory holds
    items = []
    for s in model(c, "large dictionaries", ["back", "text"], [1, 30, 300], 2, ["none", "exact"], sim=c.q(80, 600)):
        k = r.randrange(20, c.q(26, 27))
        items.append(item(r, s, dict=r.choice([1 << k, (1 << k) + (1 << k - 1), (1 << k) - 1, r.randrange(1 << k, 2 << k)])))
    judge(c, items, "large dictionaries")
    items = []
    for s in model(c, "long inputs", ["back"], [1], 1, ["none", "exact", "less", "more"], sim=c.q(40, 300)):
        n = r.choice([65536, 100000, 300000, 400000, 700000] + ([2 ** 21 + 1, 5000000] if c.thorough else [2 ** 21 + 1]))
        d = bytearray()
        pool = [rnd(r, 70000), text(r, 60000), x86(r, 40000)]
        while len(d) < n:
            if r.random() < .6:
                p = r.choice(pool)
                i = r.randrange(len(p))
                d += p[i:i + r.randrange(1, 70000)]
            else:
                d += seg(r, r.choice(["same", "back", "text", "near", "few", "rnd"]), r.choice([5, 300, 5000, 40000]), d[-9000:])
        items.append(item(r, s, bytes(d[:n]), r.choice([[], [65536], [1 << 20], [100000, 0], [33], [4096, 1, 70000]]), r.choice([4096, 65535, 65536, 1 << 17, 1 << 18, 1 << 20]), big=True))
        o = items[-1][0]["opts"]
        if o["depth"] > 100:
            o["depth"] = 30
    judge(c, items, "long inputs")
