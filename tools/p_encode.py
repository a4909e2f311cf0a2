"""C09: what the LZMA2 encoder writes."""
import lzma
import bodies
from bodies import text, rnd, x86

CFG = """SPECIFICATION Spec
CONSTANTS
 Kinds = {%s}
 Sizes = {%s}
 MaxOps = %d
 Room = %d
 Most = %d
 Preset = %s
 Emit = TRUE
 Lazy = %s
INVARIANTS LegalOrder Conserved Complete
CHECK_DEADLOCK FALSE
"""
LCLP2 = [(lc, lp) for lc in range(5) for lp in range(5) if lc + lp <= 4]


def model(c, name, kinds, sizes, maxops, room, preset=False, sim=0):
    args, w = (), 8
    if sim:
        args, w = ["-simulate", "num=%d" % sim, "-depth", str(maxops * 8 + 8), "-seed", str(c.seed)], 1
    cfg = CFG % (",".join('"%s"' % k for k in kinds), ",".join(map(str, sizes)), maxops, room, room // 2 + 1, "TRUE" if preset else "FALSE", "TRUE" if sim else "FALSE")
    s = c.model(name, "MC_Writer", cfg, args=args, workers=w)
    u = {str(x): x for x in s}
    return [u[k] for k in sorted(u)]


def seg(r, kind, n, so):
    """n bytes of a kind, given what went before"""
    if kind == "rnd":
        return rnd(r, n)
    if kind == "same":
        return bytes([r.choice(b"\0a\xff")]) * n
    if kind == "text":
        return text(r, n)
    if kind == "few":
        return bytes(r.choice(b"ab") for _ in range(n))
    if kind == "back" and so:
        d = r.choice([1, 2, 3, 4, 7, 16, 100, 1000, 4095, 4096, 4097, 8192, len(so)])
        d = min(max(1, d), len(so))
        b = bytearray()
        s = bytes(so[-d:])
        while len(b) < n:
            b += s
            if r.random() < .3:
                b.append(r.randrange(256))
        return bytes(b[:n])
    if kind == "near":
        # the same but for single bytes, so that repetitions of distances are used
        s = bytes(so[-64:]) or b"0123456789abcdef"
        s = bytearray(s * (n // len(s) + 1))[:n]
        for i in range(0, n, r.choice([5, 9, 17])):
            s[i] = r.randrange(256)
        return bytes(s)
    return x86(r, n)[:n]


def options(r, dict=None):
    lc, lp = r.choice(LCLP2 + [(3, 0)] * 8)
    return {"dict": dict or r.choice([4096, 4096, 4097, 5000, 8192, 12288, 65536]), "lc": lc, "lp": lp, "pb": r.choice([0, 1, 2, 2, 3, 4]),
            "nice": r.choice([8, 9, 16, 17, 18, 32, 64, 128, 200, 272, 273]), "depth": r.choice([0, 0, 1, 2, 8, 100, 1000]),
            "mode": r.choice(["fast", "normal"]), "mf": r.choice(["hc4", "bt4"])}


def chunks_of(b):
    """the chunk headers -> list, bytes behind the end marker (-1: no end marker)"""
    cs, p = [], 0
    while p < len(b):
        k = b[p]
        if k == 0:
            return cs, len(b) - p - 1
        if k < 128:
            if p + 3 > len(b):
                break
            n = int.from_bytes(b[p + 1:p + 3], "big") + 1
            cs.append([k, n, n, 0])
            p += 3 + n
        else:
            h = b[p:p + 6] + bytes(6)
            un = ((k & 31) << 16) + int.from_bytes(h[1:3], "big") + 1
            pk = int.from_bytes(h[3:5], "big") + 1
            cs.append([k & 0xe0, un, pk, h[5] if k >= 192 else 0])
            p += 5 + (k >= 192) + pk
    return cs, -1


def scenario(d, steps, o, pre=b"", end=None, flush_end=False, refinish=False):
    if pre:
        o = dict(o, preset_dict=pre.hex())
    s = {"kind": "enc", "codec": "lzma2", "opts": o, "data": d.hex() if isinstance(d, bytes) else d, "steps": steps, "keep": True, "cpu": 120}
    if end:
        s["end"] = end
    if flush_end:
        s["end_flush"] = True
    return s


def judge(c, items, group, full):
    """items: scenario, data, options, preset"""
    import os
    scs = [i[0] for i in items]
    rs = c.run(scs, group)
    recs = []
    for (sc, d, o, pre), q in zip(items, rs):
        b = bytes(q.get("bytes") or b"")
        cs, tail = chunks_of(b)
        props = (o["pb"] * 5 + o["lp"]) * 9 + o["lc"] if "pb" in o else q.get("props", 0)
        if "dict" not in o:
            o = dict(o, dict=sum(x << 16 * k for k, x in enumerate(q.get("dict", [4096]))))
        rec = {"died": q.get("died", q.get("panic", "")) or "", "res": q.get("r", "none"), "b": [], "cs": cs, "tail": tail,
               "props": props, "dict": o["dict"], "pre": list(pre[-o["dict"]:]), "data": [], "n": len(d), "other": ""}
        if full:
            rec["b"] = list(b)
            rec["data"] = list(d)
        if not pre and rec["res"] == "ok":
            try:
                x = lzma.decompress(b, format=lzma.FORMAT_RAW, filters=[{"id": lzma.FILTER_LZMA2, "dict_size": max(4096, o["dict"])}])
                rec["other"] = "eq" if x == d else "other bytes"
            except lzma.LZMAError as e:
                rec["other"] = "an error"
        if pre:
            rec["pre"] = list(pre)
        q.pop("bytes", None)
        q.pop("data", None)
        recs.append(rec)
    c.judge("J_Writer", recs, scs, group, rs)


def play(r, s, pre=b""):
    """the data and steps of a behaviour"""
    d, steps = bytearray(), []
    for k, n in s["ops"]:
        if k == "f":
            steps.append(0)
        else:
            d += seg(r, k, n, pre + d)
            steps.append(n)
    fe = False
    while steps and steps[-1] == 0:
        steps.pop()
        fe = True
    return bytes(d), steps, fe


def c09(c):
    c.rules.append("distinct inputs, splits and options")
    presets(c)
    r = c.rng
    items = []
    ss = model(c, "writes and flushes", ["rnd", "same", "back"], [1, 5, 40], c.q(3, 4), 1000)
    for s in ss:
        d, st, fe = play(r, s)
        o = options(r)
        items.append((scenario(d, st, o, end=r.choice([None, "finish"]), flush_end=fe), d, o, b""))
    judge(c, items, "writes and flushes", True)
    items = []
    for name, sizes, ops, k in (("many writes", [1, 2, 3, 17, 90, 300], 14, c.q(250, 3000)), ("larger writes", [1, 100, 272, 273, 274, 1000, 4096, 2000], 7, c.q(40, 500))):
        for s in model(c, name, ["rnd", "same", "back", "text", "few", "near", "x86"], sizes, ops, 1 << 20, sim=k):
            d, st, fe = play(r, s)
            o = options(r)
            items.append((scenario(d, st, o, end=r.choice([None, "finish"]), flush_end=fe), d, o, b""))
    judge(c, items, "many writes", True)
    items = []
    for k, sizes, ops in ((c.q(80, 800), [1, 3, 40, 200], 6), (c.q(20, 200), [300, 1000, 3000], 5)):
        for s in model(c, "after a preset dictionary", ["back", "text", "few", "near", "rnd"], sizes, ops, 1 << 20, preset=True, sim=k):
            o = options(r)
            m = r.choice([1, 2, 5, 16, 100, 1000, 4096])
            p = r.choice([text, rnd])(r, m)
            if r.random() < .2 and o["dict"] % 16 == 0:
                p = text(r, o["dict"] + r.randrange(1, 700))
            d, st, fe = play(r, s, p)
            items.append((scenario(d, st, o, pre=p, end=r.choice([None, "finish"]), flush_end=fe), d, o, p))
    items = [(a, d, o, p[-o["dict"]:]) for a, d, o, p in items]
    judge(c, items, "after a preset dictionary", True)
    # round the dictionary several times, decoded in the specification
    items = []
    for k in range(c.q(16, 120)):
        n = r.randrange(9000, 40000)
        d = bytearray()
        while len(d) < n:
            d += seg(r, r.choice(["same", "back", "back", "back", "text", "near", "few"]), r.randrange(1, 1500), d)
        d = bytes(d[:n])
        o = options(r, r.choice([4096, 4097, 4111, 5000]))
        items.append((scenario(d, r.choice([[], [1000], [4096, 1, 0], [777, 0]]), o), d, o, b""))
    judge(c, items, "round the dictionary", True)
    long(c)
    if c.thorough:
        renumbered(c)


def presets(c):
    """the named levels, as they are and with some options changed"""
    r = c.rng
    items = []
    ss = model(c, "levels", ["rnd", "same", "back", "text", "few", "near"], [1, 3, 40, 300], 10, 1 << 20, sim=c.q(60, 600))
    for k, s in enumerate(ss):
        d, st, fe = play(r, s)
        o = {"preset": k % 10}
        o.update({x: y for x, y in options(r).items() if x not in ("lc", "lp", "dict") and r.random() < .15 * (k % 20 > 9)})
        if "pb" in o:
            o.update({"lc": 3, "lp": 0})
        items.append((scenario(d, st, o, end=r.choice([None, "finish"]), flush_end=fe), d, o, b""))
    judge(c, items, "levels", True)
    items = []
    for k in range(c.q(20, 60)):
        # what a level with a small dictionary can no longer refer to
        p = rnd(r, r.choice([1000, 30000]))
        gap = [1 << 18, 1 << 20][k // 2 % 2] - len(p) + r.choice([-2000, -1, 0, 1, 2, 5000])
        d = p + text(r, 5000) + bytes(gap - 5000) + p + text(r, 300) if k % 2 else text(r, 4000) + x86(r, 60000) + p + x86(r, 20000) + p
        o = {"preset": (k // 2 % 2) if k % 2 else k // 2 % 10}
        items.append((scenario(d, r.choice([[], [65536], [100000, 0]]), o), d, o, b""))
    judge(c, items, "levels, longer", False)


def long(c):
    """limits of chunks and of the window; the chunks are judged in the specification, the bytes by liblzma"""
    r = c.rng
    items = []
    K = ["rnd", "same", "back", "text", "few", "near", "x86"]
    for k in range(c.q(60, 500)):
        n = r.choice([65535, 65536, 65537, 65536 * 2, 100000, 300000, 400000, 700000] + ([2 ** 21 - 274, 2 ** 21 - 273, 2 ** 21, 2 ** 21 + 1, 3000000] if k % 4 == 0 or c.thorough else []))
        m = r.random()
        if m < .25:
            d = rnd(r, min(n, 300000))
        elif m < .45 and n > 2000000:
            d = seg(r, r.choice(["same", "back"]), n, b"xy")
        else:
            d = bytearray()
            pool = [rnd(r, 70000), text(r, 60000), x86(r, 40000)]
            while len(d) < n:
                if r.random() < .5:
                    p = r.choice(pool)
                    i = r.randrange(len(p))
                    d += p[i:i + r.randrange(1, 70000)]
                elif r.random() < .3:
                    d += rnd(r, r.choice([10, 1000, 65530, 65536, 66000]))
                else:
                    d += seg(r, r.choice(K[1:]), r.choice([5, 300, 5000, 40000]), d[-9000:])
            d = bytes(d[:n])
        o = options(r, r.choice([4096, 4096, 65535, 65536, 65537, 1 << 17, 1 << 18, 1 << 20]))
        if o["depth"] > 100:
            o["depth"] = 30
        st = r.choice([[], [65536], [1 << 20], [100000, 0], [300000, 0, 1], [4096, 1, 70000], [33], [50000, 0, 0, 3]])
        items.append((scenario(d, st, o, end=r.choice([None, "finish"]), flush_end=r.random() < .2), d, o, b""))
    judge(c, items, "long inputs", False)
    # matches that are dear, so that chunks are filled to their very limit
    items = []
    for k in range(c.q(10, 80)):
        o = options(r, r.choice([1 << 17, 1 << 19, 1 << 20]))
        if o["depth"] > 100:
            o["depth"] = 30
        t = rnd(r, min(o["dict"] - 5000, r.choice([60000, 200000, 500000])))
        d = bytearray(t)
        lo, hi = r.choice([(2, 5), (3, 6), (4, 12), (6, 40)])
        while len(d) < c.q(1200000, 2500000):
            at = r.randrange(len(t))
            d += t[at:at + r.randrange(lo, hi)]
            if r.random() < .05:
                d.append(r.randrange(256))
        d = bytes(d)
        items.append((scenario(d, r.choice([[], [65536], [300001]]), o), d, o, b""))
    judge(c, items, "dear matches", False)
    # matches at and around the distance of the whole dictionary
    items = []
    for k in range(c.q(6, 40)):
        o = options(r, r.choice(c.q([(1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 19, 2000000, 3 << 20], [1 << 20, 3 << 20, 5 << 20, (1 << 22) + 1, 1 << 23, 3 << 22, 17 << 20])))
        o["depth"] = 30
        t = rnd(r, 70000)
        gap = o["dict"] - len(t) + r.choice([-300, -1, 0, 1, 35000])
        d = t + bytes([r.randrange(256)]) * gap + t + rnd(r, 100)
        items.append((scenario(d, r.choice([[], [65536], [300001]]), o), d, o, b""))
    judge(c, items, "far matches", False)


def renumbered(c):
    """inputs in the course of which the match finders renumber their positions"""
    import hashlib, os, tempfile
    r = c.rng
    with tempfile.TemporaryDirectory() as t:
        for mf, mode, dict in (("hc4", "fast", 3 << 28), ("bt4", "normal", 3 << 28), ("hc4", "normal", 1 << 28)):
            o = dict_options(mf, mode, dict)
            pool = [rnd(r, 70000), text(r, 60000), x86(r, 40000), text(r, 200001), rnd(r, 3)]
            plan, n, want = [], 0, hashlib.sha256()
            end = (1 << 31) - dict
            while n < end + (64 << 20):
                near = abs(n - end) < 32 << 20
                if r.random() < (.5 if near else .15):
                    p = [r.randrange(len(pool)), r.choice([1, 1, 2])]
                else:
                    p = [-1 - r.choice([0, 0, 97, 255]), r.choice([1, 3, 10] if near else [30, 100, 200])]
                b = (pool[p[0]] if p[0] >= 0 else bytes([-p[0] - 1]) * 65536) * p[1]
                if n + len(b) >= (1 << 31) - 1:
                    break
                want.update(b)
                n += len(b)
                plan.append(p)
            path = os.path.join(t, "x")
            sc = {"kind": "encfar", "opts": o, "pool": [x.hex() for x in pool], "plan": plan, "save": path, "cpu": 1500, "memcap": 14 << 30}
            rs = c.run([sc], "positions renumbered", wall=1500, workers=1)
            q = rs[0]
            b = open(path, "rb").read() if os.path.exists(path) else b""
            cs, tail = chunks_of(b)
            other = "an error"
            if q.get("r") == "ok":
                try:
                    x, got, m = lzma.LZMADecompressor(format=lzma.FORMAT_RAW, filters=[{"id": lzma.FILTER_LZMA2, "dict_size": dict}]), hashlib.sha256(), 0
                    y = x.decompress(b, 1 << 22)
                    while y or not x.eof:
                        got.update(y)
                        m += len(y)
                        if x.eof or (not y and x.needs_input):
                            break
                        y = x.decompress(b"", 1 << 22)
                    other = "eq" if x.eof and m == n and got.digest() == want.digest() else "other bytes"
                except lzma.LZMAError:
                    pass
            rec = {"died": q.get("died", q.get("panic", "")) or "", "res": q.get("r", "none"), "b": [], "cs": cs, "tail": tail,
                   "props": (o["pb"] * 5 + o["lp"]) * 9 + o["lc"], "dict": dict, "pre": [], "data": [], "n": n, "other": other}
            c.judge("J_Writer", [rec], [sc], "positions renumbered", rs)


def dict_options(mf, mode, dict):
    return {"dict": dict, "lc": 3, "lp": 0, "pb": 2, "nice": 64, "depth": 8, "mode": mode, "mf": mf}
