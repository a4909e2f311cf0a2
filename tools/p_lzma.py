"""C10: LZMA and LZMA2 decoding."""
import lzma
import bodies, reflzma
from lib import l64

CFG = """SPECIFICATION Spec
CONSTANTS
 Raw=%s
 Dict=%d
 Pre=%d
 Lits%s
 Near=%s
 Lens%s
 RawLens=%s
 Controls=%s
 MaxC=%d
 MaxP=%d
 Bads=%s
 Emit=TRUE
 Lazy=%s
INVARIANTS StateOK RepsOK Emitted
CHECK_DEADLOCK FALSE
"""
ALLC = "{1,2,128,160,192,224}"
LCLP = [(lc, lp) for lc in range(9) for lp in range(5)]
LCLP2 = [(lc, lp) for lc in range(5) for lp in range(5) if lc + lp <= 4]
KIND = {0: "lit", 1: "match", 2: "short", 3: "rep"}


def pk(p):
    return ("lit", p[1]) if p[0] == 0 else ("match", p[1], p[2]) if p[0] == 1 else ("short",) if p[0] == 2 else ("rep", p[1], p[2])


def b2(r, n):
    return bytes(r.getrandbits(8) for _ in range(n))


def raw_stream(s, q, pre, r, eos):
    """-> bytes, what comes out before the end (or the error), claimed length"""
    ps = [pk(p) for p in s["cs"][0]["pk"]]
    if s["end"] == "dist":
        before = bytes(reflzma.encode(ps[:-1], *q, preset=pre)[1])
        b, out, _ = reflzma.encode(ps, *q, preset=pre)
        return b + b2(r, 20), before[len(pre):], len(out) - len(pre)
    b, out, _ = reflzma.encode(ps + ([("eos", r.choice([2, 2, 3, 20]))] if eos else []), *q, preset=pre)
    return b, bytes(out[len(pre):]), len(out) - len(pre)


def chunk_stream(s, r, pre):
    out, base, m, q = bytearray(pre), 0, None, (3, 0, 2)
    b = b""
    before = None
    for k, c in enumerate(s["cs"]):
        ctl = c["c"]
        last = k == len(s["cs"]) - 1
        if last and s["end"] == "order":
            before = bytes(out)
        if ctl in (1, 2):
            if ctl == 1:
                base = len(out)
            d = b2(r, c["n"])
            out += d
            b += bytes([ctl]) + (c["n"] - 1).to_bytes(2, "big") + d
            continue
        if ctl < 128:
            b += bytes([ctl]) + b2(r, 6)
            continue
        if ctl >= 224:
            base = len(out)
        if ctl >= 192 or m is None:
            lc, lp = r.choice(LCLP2)
            q = (lc, lp, r.randrange(5))
            m = None
        if ctl >= 160 and m is not None:
            m.reset()
        ps = [pk(p) for p in c["pk"]]
        n0 = len(out)
        if last and s["end"] == "dist":
            import copy
            before = bytes(reflzma.encode(ps[:-1], *q, model=copy.deepcopy(m), out=bytearray(out), base=base)[1])
        d, out, m = reflzma.encode(ps, *q, model=m, out=out, base=base)
        n = len(out) - n0 - 1
        b += bytes([ctl | n >> 16]) + (n & 0xffff).to_bytes(2, "big") + (len(d) - 1).to_bytes(2, "big")
        if ctl >= 192:
            b += bytes([(q[2] * 5 + q[1]) * 9 + q[0]])
        b += d
    b += b"\0"
    if s["end"] == "ok":
        before = bytes(out)
    return b + b2(r, r.randrange(3)), before[len(pre):]


BUFS = [[1], [2, 1, 5], [7], [300, 1], [4096], [4095], [4097], [273]]


def reads(r, n):
    rs = [{}]
    for _ in range(n):
        x = {"buf": r.choice(BUFS)}
        if r.random() < .4:
            x["src"] = {"short": r.choice([[1], [3, 1, 50]])}
        rs.append(x)
    return rs


def rec_of(kind, b, out, r, dict=4096, q=None, size=None, pre=b"", end="?", n=2):
    """size: None unknown (LZMA)"""
    sc = {"kind": "dec", "codec": kind, "bytes": b.hex(), "dict": dict, "expect": out.hex(), "runs": reads(r, n), "poke": True}
    rec = {"k": kind, "b": list(b), "props": 0, "dict": max(4096, (dict + 15) & ~15), "size": 0, "pre": list(pre), "end": end, "out": list(out)}
    if pre:
        sc["preset_dict"] = pre.hex()
    if kind == "lzma":
        sc["props"] = rec["props"] = (q[2] * 5 + q[1]) * 9 + q[0]
        if size is None:
            sc["usize"] = l64(2 ** 64 - 1)
            rec["size"] = -(len(out) + 300)
        else:
            sc["usize"] = l64(size)
            rec["size"] = size
        for x in sc["runs"]:
            if r.random() < .5:
                x["ctor"] = "new"
    return sc, rec


def judge(c, items, group):
    scs = [i[0] for i in items]
    recs = [i[1] for i in items]
    rs = c.run(scs, group)
    for rec, q in zip(recs, rs):
        rec["died"] = q.get("died", q.get("panic", "")) or ""
        rec["runs"] = [{"st": x["st"], "rel": x.get("rel", "")} for x in q.get("runs", [])]
    c.judge("J_Lzma", recs, scs, group, rs)


def model(c, name, raw, dict=4096, pre=0, lits="={97}", near="{1}", lens="={2}", rawlens="{1}", controls=ALLC, maxc=1, maxp=3, bads=True, sim=0):
    t = lambda x: "TRUE" if x else "FALSE"
    args, w = (), 8
    if sim:
        args, w = ["-simulate", "num=%d" % sim, "-depth", str(maxc * (maxp + 1) + 8), "-seed", str(c.seed)], 1
    s = c.model(name, "MC_Lzma", CFG % (t(raw), dict, pre, lits, near, lens, rawlens, controls, maxc, maxp, t(bads), t(sim)), args=args, workers=w)
    return sorted(s, key=str)


def c10(c):
    c.rules.append("distinct streams (each decoded with several ways to read)")
    r = c.rng
    FAR = "{1,2,3,4,5,8,13,33,64,127,128,129,200,500,1000,2049,4095,4096}"
    # packets, exhaustively
    ss = model(c, "packets", True, lits="={97,254}", near="{1,2}", lens="={2,3}", maxp=c.q(3, 4))
    items = []
    for s in ss:
        for _ in range(c.q(1, 1)):
            q = r.choice(LCLP) + (r.randrange(5),)
            eos = r.random() < .4
            b, out, n = raw_stream(s, q, b"", r, eos)
            items.append(rec_of("lzma", b, out, r, q=q, size=None if eos and r.random() < .8 else n, end=s["end"]))
    judge(c, items, "packets")
    # long sequences of packets, with and without a preset dictionary
    items = []
    for name, pre, dict, lits, maxp, bads, k in (("long sequences", 0, 4096, "<-AllBytes", 60, False, 150), ("sequences that go round the dictionary", 0, 4096, "={0,97,98,254}", 110, False, 120),
                                                 ("reaching too far", 0, 4096, "={97,98}", 12, True, 100), ("preset dictionary", 37, 4096, "={97,98}", 12, True, 80),
                                                 ("whole preset dictionary", 4096, 4096, "={97,200}", 40, False, 60), ("preset, larger dictionary", 300, 8192, "={5,97}", 100, False, 40)):
        for s in model(c, name, True, dict=dict, pre=pre, lits=lits, near=FAR, lens="<-SomeLens", maxp=maxp, bads=bads, sim=c.q(k, k * 12)):
            p = b2(r, pre)
            q = r.choice(LCLP) + (r.randrange(5),)
            eos = r.random() < .4 and s["end"] == "ok"
            b, out, n = raw_stream(s, q, p, r, eos)
            if pre == 4096 and r.random() < .4:
                p = b2(r, 16 * r.randrange(1, 300)) + p
                sc, rec = rec_of("lzma", b, out, r, dict=dict, q=q, size=None if eos else n, pre=p, end=s["end"])
                if sc["usize"] != l64(2 ** 64 - 1) and n < 0:
                    continue
                rec["pre"] = list(p[-4096:])
                # a known length shortens the dictionary but for the preset one
                items.append((sc, rec))
                continue
            items.append(rec_of("lzma", b, out, r, dict=dict, q=q, size=None if eos and r.random() < .8 else n, pre=p, end=s["end"]))
    judge(c, items, "long sequences")
    # chunks, exhaustively
    ss = model(c, "chunks", False, rawlens="{1,3}", controls="{1,2,3,127,128,160,192,224}", maxc=3, maxp=1)
    ss += model(c, "chunks of two packets", False, rawlens="{2}", controls="{1,2,4,128,160,192,224}", maxc=c.q(2, 3), maxp=2)
    items = []
    for s in ss:
        b, out = chunk_stream(s, r, b"")
        items.append(rec_of("lzma2", b, out, r, end=s["end"], n=1))
    judge(c, items, "chunks")
    items = []
    for name, pre, dict, lits, maxc, maxp, bads, k in (("many chunks", 0, 4096, "={0,97,98}", 9, 3, False, 120), ("long chunks", 0, 4096, "<-AllBytes", 4, 30, False, 80),
                                                      ("chunks that go wrong", 0, 4096, "={97}", 6, 4, True, 120), ("chunks after a preset dictionary", 50, 4096, "={97,98}", 5, 6, True, 100),
                                                      ("chunks, larger dictionary", 0, 12288, "={5,97}", 7, 40, False, 30)):
        for s in model(c, name, False, dict=dict, pre=pre, lits=lits, near=FAR, lens="<-SomeLens", rawlens="{1,2,300,4095,4096,4097}" if not bads else "{1,2,9}", maxc=maxc, maxp=maxp, bads=bads, sim=c.q(k, k * 12)):
            p = b2(r, pre)
            b, out = chunk_stream(s, r, p)
            items.append(rec_of("lzma2", b, out, r, dict=dict, pre=p, end=s["end"]))
    judge(c, items, "long chunk sequences")
    others(c)


def others(c):
    """streams of another encoder, judged by decoding them in the specification, and long ones by what went in"""
    r = c.rng
    items = []
    for lc, lp in LCLP2:
        for pb in range(5):
            for k in range(c.q(1, 6)):
                d = r.choice([bodies.text(r, r.randrange(1, 900)), bytes(r.choice(b"ab") for _ in range(r.randrange(1, 700))), bodies.x86(r, r.randrange(1, 400)), b2(r, r.randrange(1, 300))])
                f = {"lc": lc, "lp": lp, "pb": pb, "dict_size": 4096, "nice_len": r.choice([5, 64, 273]), "mode": r.choice([lzma.MODE_FAST, lzma.MODE_NORMAL]), "mf": r.choice([lzma.MF_HC4, lzma.MF_BT4, lzma.MF_BT2, lzma.MF_HC3, lzma.MF_BT3]), "depth": 0}
                b = lzma.compress(d, format=lzma.FORMAT_RAW, filters=[dict(f, id=lzma.FILTER_LZMA1)])
                items.append(rec_of("lzma", b, d, r, q=(lc, lp, pb), size=r.choice([len(d), None])))
                b = lzma.compress(d, format=lzma.FORMAT_RAW, filters=[dict(f, id=lzma.FILTER_LZMA2)])
                items.append(rec_of("lzma2", b, d, r))
    judge(c, items, "streams of liblzma")
    # long ones: what went in is what has to come out
    items = []
    for k in range(c.q(24, 160)):
        n = r.choice([65536, 65537, 70000, 150000, 300000, 2 ** 21 + 5] + ([5000000] if c.thorough else []))
        base = bodies.text(r, 5000) + b2(r, 3000)
        d = r.choice([lambda: (base * (n // len(base) + 1))[:n], lambda: b2(r, min(n, 200000)), lambda: bytes(n), lambda: b"".join(r.choice([base[:r.randrange(1, 5000)], b2(r, 500), bytes(700)]) for _ in range(n // 1500))])()
        lc, lp = r.choice(LCLP2)
        pb = r.randrange(5)
        ds = r.choice([4096, 4112, 8192, 65536, 1 << 20])
        f = {"lc": lc, "lp": lp, "pb": pb, "dict_size": ds}
        kind = r.choice(["lzma", "lzma2"])
        b = lzma.compress(d, format=lzma.FORMAT_RAW, filters=[dict(f, id=lzma.FILTER_LZMA1 if kind == "lzma" else lzma.FILTER_LZMA2)])
        sc, rec = rec_of(kind, b, d, r, dict=ds, q=(lc, lp, pb), size=len(d))
        sc["cpu"] = 60
        for x in sc["runs"]:
            if x.get("buf", [9999])[0] < 100:
                x["buf"] = r.choice([[65536, 1], [4096], [100000], [1 << 21], [70001]])
            if "src" in x:
                x["src"] = {"short": [4096, 1]}
        items.append((sc, {"k": "big"}))
    for m, cut in ((65536, 0), (65536, 1), (65535, 0)):
        d = b2(r, m * 3)
        b = b"".join(bytes([1 if i == 0 else 2]) + (m - 1).to_bytes(2, "big") + d[i * m:(i + 1) * m] for i in range(3)) + b"\0"
        for ds in (4096, 65536, 131072):
            sc, rec = rec_of("lzma2", b, d, r, dict=ds)
            items.append((sc, {"k": "big"}))
    # chunks that unpack to the most there may be
    for un in (2 ** 21, 2 ** 21 - 1, 65536, 65537):
        ps, n = [("lit", 5), ("lit", 6)], 2
        while n < un:
            l = min(273, un - n)
            if l == 1:
                ps.append(("short",))
            else:
                ps.append(r.choice([("match", r.randrange(1, min(n, 4096) + 1), l), ("rep", 0, l)]))
            n += l
        p1, out, m = reflzma.encode(ps, 3, 0, 2)
        p2, out, m = reflzma.encode([("lit", 1), ("rep", 1, 30)], 3, 0, 2, model=m, out=out, base=0)
        if len(p1) <= 65536:
            b = bytes([224 | (un - 1) >> 16]) + ((un - 1) & 0xffff).to_bytes(2, "big") + (len(p1) - 1).to_bytes(2, "big") + bytes([93]) + p1
            b += bytes([128]) + (30).to_bytes(2, "big") + (len(p2) - 1).to_bytes(2, "big") + p2 + b"\0"
            sc, rec = rec_of("lzma2", b, bytes(out), r, dict=4096)
            items.append((sc, {"k": "big"}))
    for sc, _ in items:
        sc["cpu"] = 120
    judge(c, items, "long streams")
