"""C05: input that no writer made."""
import lzma, struct
import bodies, ref7z, p_foreign, p_session, sess
from bodies import ID
from p_foreign import num, start_header, PW

MC = """SPECIFICATION Spec
CONSTANTS
  Which = %d
  Ins = %d
  Emit = TRUE
INVARIANTS Total Bounded LegalOk Emitted
CHECK_DEADLOCK FALSE
"""
SIG = b"7z\xbc\xaf\x27\x1c\0\x04"


def file_of(h, pack=b"", off=None, size=None, crc=None):
    return start_header(len(pack) if off is None else off, len(h) if size is None else size, ref7z.crc(h) if crc is None else crc) + pack + h


def rnd(r, n):
    return bytes(r.getrandbits(8) for _ in range(n))


def edits(h, r):
    """one edit of a header"""
    n = len(h)
    i = r.randrange(n)
    k = r.randrange(12)
    w = r.choice([1, 1, 1, 2, 4, 8])
    if k == 0:
        return h[:i] + h[i + w:]
    if k == 1:
        return h[:i] + h[i:i + w] + h[i:]
    if k in (2, 3, 4):
        return h[:i] + bytes([r.choice([0, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xe0, 0xf0, 0xfe, 0xff])]) + h[i + 1:]
    if k == 5:
        return h[:i] + b"\xff" + struct.pack("<Q", r.choice([2 ** 63, 2 ** 64 - 1, 2 ** 32, 2 ** 31, 2 ** 62, 2 ** 64 - len(h), 2 ** 40])) + h[i + 1:]
    if k == 6:
        return h[:i] + b"\xf0" + struct.pack("<I", r.choice([2 ** 32 - 1, 2 ** 31, 2 ** 28, 10 ** 6])) + h[i + 1:]
    if k == 7:
        return h[:i + 1]
    if k == 8:
        j = r.randrange(n)
        return h[:i] + h[j:]
    if k == 9:
        return h[:i] + bytes([h[i] ^ 1 << r.randrange(8)]) + h[i + 1:]
    if k == 10:
        return h[:i] + bytes([(h[i] + r.choice([1, 255])) & 255]) + h[i + 1:]
    return h[:i] + rnd(r, w) + h[i:]


def anynum(r):
    return num(r.choice([0, 1, 2, 3, 4, 5, 31, 32, 33, 127, 128, 255, 1000, 70000, 2 ** 31, 2 ** 32 - 1, 2 ** 40, 2 ** 63, 2 ** 64 - 1]) if r.random() < .5 else r.randrange(8))


def some_props(r, k):
    if k == "lzma":
        return bytes([r.choice([0, 93, 224, 225, 255, r.randrange(256)])]) + struct.pack("<I", r.choice([0, 1, 4095, 4096, 1 << 16, 1 << 24, 1 << 31, 2 ** 32 - 1]))
    if k == "lzma2":
        return bytes([r.choice([0, 1, 8, 20, 38, 39, 40, 41, 63, 255])])
    if k == "delta":
        return rnd(r, 1)
    if k == "aes":
        return bodies.Coder("aes", salt=rnd(r, r.choice([0, 1, 16])), iv=rnd(r, r.choice([0, 1, 16])), power=r.choice([0, 1, 2, 63, 62, 25, 40, 8])).props()
    return b""


def some_folder(r, sane):
    """a folder record of coders that exist, with properties and bindings that need not fit"""
    ks = list(ID) + [None]
    n = r.choice([1, 1, 2, 2, 3, 4, 5])
    out, tin = b"", 0
    for _ in range(n):
        k = r.choice(ks)
        if k in ("x86n",):
            k = "copy"
        i = ID[k] if k else rnd(r, r.randrange(5))
        p = some_props(r, k) if r.random() < .8 else rnd(r, r.choice([0, 1, 2, 5, 18, 40]))
        f = len(i) | (0x20 if p else 0)
        nin = 4 if k == "bcj2" else 1
        cx = nin != 1
        if not sane and r.random() < .15:
            cx, nin = True, r.choice([0, 1, 2, 4, 32, 33])
        b = bytes([f | (0x10 if cx else 0)]) + i
        if cx:
            b += num(nin) + num(1 if sane or r.random() < .8 else r.randrange(4))
        if p:
            b += num(len(p)) + p
        out += b
        tin += nin
    ins, outs = list(range(tin)), list(range(n))
    r.shuffle(ins)
    if n > 1 and r.random() < .7:
        main = r.choice(outs)
        outs = [o for o in outs if o != main]
    r.shuffle(outs)
    binds = [(ins.pop() if ins else r.randrange(6), outs.pop()) for _ in range(n - 1) if outs]
    if not sane and r.random() < .3:
        binds = [(r.randrange(6), r.randrange(5)) for _ in range(n - 1)]
    out = num(n) + out + b"".join(num(a) + num(b) for a, b in binds)
    np = max(0, tin - (n - 1))
    if np > 1:
        pk = ins if sane or r.random() < .7 else [r.randrange(6) for _ in range(np)]
        out += b"".join(num(x) for x in pk)
    return out, n, np


def some_header(r):
    """-> packed bytes, header"""
    nf = r.choice([1, 1, 1, 2, 3])
    sane = r.random() < .6
    fs = [some_folder(r, sane) for _ in range(nf)]
    np = sum(f[2] for f in fs)
    pack = b""
    sizes = []
    for _ in range(np):
        d = r.choice([lambda: rnd(r, r.randrange(40)), lambda: b"\0" * r.randrange(20), lambda: lzma.compress(bytes(r.randrange(60)), format=lzma.FORMAT_RAW, filters=[{"id": lzma.FILTER_LZMA2}]),
                      lambda: bodies.lzma1_raw(bytes(r.randrange(1, 60)))])()
        pack += d
        sizes.append(num(len(d)) if r.random() < .93 else anynum(r))
    sz = lambda: num(r.choice([0, 1, 5, 16, 40, 100, 5000])) if r.random() < .85 else anynum(r)
    h = b"\1\4\6" + (num(0) if r.random() < .95 else anynum(r)) + num(np) + b"\x09" + b"".join(sizes) + b"\0"
    h += b"\7\x0b" + num(nf) + b"\0" + b"".join(f[0] for f in fs) + b"\x0c" + b"".join(sz() for f in fs for _ in range(f[1])) + b"\0"
    subs = [1] * nf
    if r.random() < .5:
        subs = [r.choice([0, 1, 1, 2, 3]) for _ in range(nf)]
        h += b"\x08\x0d" + b"".join(num(s) for s in subs)
        if any(s > 1 for s in subs):
            h += b"\x09" + b"".join(num(r.choice([0, 1, 2, 9])) if r.random() < .9 else anynum(r) for s in subs for _ in range(max(0, s - 1)))
        h += b"\0"
    h += b"\0"
    n = sum(subs)
    h += b"\5" + num(n) + b"\x11" + num(1 + 4 * n) + b"\0" + b"".join(bytes([97 + i, 0, 0, 0]) for i in range(n)) + b"\0\0"
    return pack, h


def dict_kib(chain):
    s = 0
    for c in chain:
        p = c.props()
        if c.kind == "lzma":
            s += struct.unpack("<I", p[1:5])[0] // 1024 + 1
        elif c.kind == "lzma2":
            s += ref7z.lzma2_dict(p[0]) // 1024 + 4
        else:
            s += 64
    return s


def go(c, items, group):
    """items: (rule, file bytes, judged bytes, dicts, opts) -> verdicts"""
    scs = []
    for rule, by, _, _, o in items:
        s = {"kind": "r", "bytes": by.hex(), "contents": [], "cpu": 60, "memcap": 1 << 36, "reads": [dict({"mode": "each"}, **o)]}
        if c.rng.random() < .3 and "len" not in o:
            sess.via(c.rng, s["reads"][0])
        scs.append(s)
    rs = c.run(scs, group)
    recs = []
    for (rule, by, hb, dk, _), q in zip(items, rs):
        died = q.get("died", q.get("panic", "")) or ""
        rd = (q.get("reads") or [{}])[0]
        recs.append({"rule": rule, "died": died, "open": rd.get("open", "?"), "end": rd.get("end", ""),
                     "st": sorted({v["st"] for v in rd.get("visits", [])}),
                     "peak": q.get("peak", 0) // 1024, "len": len(by), "bytes": list(hb), "dicts": dk})
    c.judge("J_Malformed", recs, scs, group, rs)


def c05(c):
    c.rules.append("distinct inputs")
    r = c.rng
    # headers cut and pasted by the specification
    hs = []
    for w, ins in ((1, 1), (2, c.q(0, 1)), (3, 1), (4, 1)):
        x = sorted({bytes(b) for b in c.model("cut and paste of header %d" % w, "MC_Malformed", MC % (w, ins))})
        hs += x if c.thorough else r.sample(x, min(len(x), 2500))
    go(c, [("header", file_of(h, rnd(r, 20)), h, 0, {}) for h in hs], "cut and paste")
    # edits of good headers
    tab = p_foreign.table(c)
    ss = p_foreign.model(c, tab, "random archives", c.q(3, 4), c.q(4, 8), "AllBodies", "OptSeq", sim=c.q(400, 3000), depth=90)
    items = []
    for s in ss:
        aes = any(tab[f - 1]["_aes"] for f in s["fo"])
        by = p_foreign.assemble(s, tab, r)
        h0 = bytes(s["bytes"])
        pack = by[32:len(by) - len(h0)]
        o = {"pw": PW} if aes and r.random() < .8 else {}
        for k in range(c.q(12, 40)):
            h = edits(h0, r)
            while r.random() < .25:
                h = edits(h, r) if h else h
            items.append(("header", file_of(h, pack), h, 0, o))
        for k in range(c.q(4, 12)):
            p = bytearray(pack)
            if p:
                for _ in range(r.choice([1, 1, 3, 30])):
                    p[r.randrange(len(p))] = r.randrange(256)
            else:
                p = bytearray(rnd(r, 4))
            if r.random() < .3:
                p = bytearray(rnd(r, len(pack)))
            items.append(("header", file_of(h0, bytes(p)), h0, 0, o))
        k = r.randrange(len(pack) + 1)
        items.append(("header", file_of(h0, pack[:k]), h0, 0, o))
    items = [x for x in items if x[2]]
    go(c, items, "edited archives")
    # coders with properties and bindings of any kind
    items = []
    for k in range(c.q(4000, 40000)):
        pack, h = some_header(r)
        items.append(("header", file_of(h, pack), h, 0, {"pw": PW} if r.random() < .8 else {}))
    go(c, items, "arbitrary coders")
    # encoded headers: bad headers inside of good containers, and bad containers
    C = bodies.Coder
    encs = [[C("copy")], [C("lzma")], [C("lzma2")], [C("x86"), C("lzma")], [C("bzip2")], [C("lzma"), C("aes", salt=b"", iv=b"12345678", power=1)]]
    items = []
    inner = r.sample(hs, min(len(hs), c.q(800, 6000)))
    for s in r.sample(ss, min(len(ss), c.q(200, 1500))):
        inner += [bytes(s["bytes"]), edits(bytes(s["bytes"]), r)]
    for h in inner:
        if not h:
            continue
        e = r.choice(encs)
        d, rec = p_foreign.encoded_header(h, 20, e, ref7z.pw_bytes(PW))
        o = {"pw": PW} if e[-1].kind == "aes" else {}
        # what dictionaries the inner header declares is not known here: 4 GiB at most are allowed for
        items.append(("inner", file_of(rec, rnd(r, 20) + d), h, dict_kib(e) + 1200000, o))
        for k in range(c.q(2, 5)):
            x = edits(rec, r)
            if x:
                items.append(("header", file_of(x, rnd(r, 20) + d), x, 0, o))
        if d:
            p = bytearray(d)
            p[r.randrange(len(p))] ^= r.randrange(1, 256)
            items.append(("inner", file_of(rec, rnd(r, 20) + bytes(p)), b"", dict_kib(e), o))
    go(c, items, "encoded headers")
    # headers that expand to themselves or declare much
    items = []
    for big in (1 << 20, 1 << 26, 1 << 31, 1 << 32, 1 << 40, 2 ** 63, 2 ** 64 - 1):
        for e in encs[:3]:
            h = b"\1\5\0\0"
            d, rec = p_foreign.encoded_header(h, 0, e, b"")
            i = rec.rindex(b"\x0c")
            x = rec[:i + 1] + num(big) + rec[i + 2:]
            items.append(("header", file_of(x, d), x, 0, {}))
            items.append(("header", file_of(x[:-6] + b"\0\0", d), x[:-6] + b"\0\0", 0, {}))
    rec = b"\x17\6\0\1\x09" + num(40) + b"\0\7\x0b\1\0\1\1\0\x0c" + num(40) + b"\0\0"
    items.append(("inner", file_of(rec, rec + b"\0" * (40 - len(rec))), b"", 0, {}))
    # start headers
    good = b"\1\5\1\x0e\1\x80\x11\5\0a\0\0\0\0\0"
    ext = [0, 1, 12, 31, 32, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 48, 2 ** 62, 2 ** 63 - 33, 2 ** 63 - 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 33, 2 ** 64 - 32, 2 ** 64 - 1, len(good), len(good) + 1]
    for a in ext:
        for b in ext:
            f = file_of(good, b"", off=a, size=b)
            items.append(("inner", f, b"", 0, {}))
            items.append(("inner", f[:12] + bytes(20) + f[32:], b"", 0, {}))
            items.append(("inner", f[:8] + bytes(24) + f[32:], b"", 0, {}))
    f = file_of(good)
    for k in range(len(f) + 1):
        items.append(("inner", f[:k], b"", 0, {}))
        items.append(("inner", f[:8] + bytes(24)[:max(0, k - 8)] + f[32:k], b"", 0, {}))
        items.append(("inner", f[:k] + rnd(r, 40), b"", 0, {}))
    for k in range(c.q(400, 4000)):
        n = r.choice([0, 1, 5, 40, 300, 3000])
        t = r.choice([rnd(r, n), bytes(n), b"\x17\6" * (n // 2), b"\1\4" * (n // 2), bytes(r.choice([0, 1, 23, 6, 4, 5, 17]) for _ in range(n))])
        items.append(("inner", r.choice([SIG + bytes(24) + t, SIG + t, file_of(t, rnd(r, 9)), t]), b"", 0, {}))
        h = r.choice(inner)
        items.append(("inner", SIG + bytes(24) + rnd(r, 30) + h + r.choice([b"", b"\0", rnd(r, 3)]), b"", 1200000, {"pw": PW}))
    go(c, items, "start headers")
    streams(c)


def streams(c):
    """LZMA, LZMA2 and .lzma streams read directly"""
    r = c.rng
    scs, recs = [], []
    base = []
    for k in range(c.q(60, 300)):
        d = r.choice([bodies.text(r, r.randrange(1, 400)), bodies.rnd(r, r.randrange(1, 200)), bytes(r.randrange(1, 5000)), bodies.x86(r, r.randrange(1, 300))])
        lc, lp, pb = r.choice([(3, 0, 2), (0, 0, 0), (0, 4, 4), (4, 0, 0), (1, 3, 2), (2, 2, 1)])
        ds = r.choice([4096, 1 << 16])
        f = {"lc": lc, "lp": lp, "pb": pb, "dict_size": ds}
        base.append(("lzma", lzma.compress(d, format=lzma.FORMAT_RAW, filters=[dict(f, id=lzma.FILTER_LZMA1)]), (pb * 5 + lp) * 9 + lc, ds, len(d)))
        base.append(("lzma2", lzma.compress(d, format=lzma.FORMAT_RAW, filters=[dict(f, id=lzma.FILTER_LZMA2)]), 0, ds, len(d)))
        base.append(("alone", lzma.compress(d, format=lzma.FORMAT_ALONE, filters=[dict(f, id=lzma.FILTER_LZMA1)]), 0, ds, len(d)))
    for kind, b, props, ds, n in base:
        for k in range(c.q(25, 80)):
            x = bytearray(edits(b, r))
            while r.random() < .3 and x:
                x = bytearray(edits(bytes(x), r))
            if r.random() < .1:
                x = bytearray(b[:1] + rnd(r, len(b)))
            if not x:
                continue
            s = {"kind": "dec", "codec": kind, "bytes": bytes(x).hex(), "dict": r.choice([ds, ds, 0, 1, 5, 1 << 20]), "cpu": 60, "memcap": 1 << 36, "poke": True}
            dk = s["dict"] // 1024
            if kind == "lzma":
                s["props"] = r.choice([props, props, props, 224, 225, 255, r.randrange(256)])
                s["usize"] = r.choice([n, n, n - 1, n + 1, 0, 10 ** 6])
                if r.random() < .4:
                    s["usize"] = 2 ** 64 - 1
            elif kind == "alone":
                dk = struct.unpack("<I", bytes(x[1:5]) + b"\0" * (4 - len(x[1:5])))[0] // 1024 if len(x) > 1 else 0
                if r.random() < .5:
                    s["limit"] = r.choice([0, 1, 100, 5000, 1 << 20])
                    dk = min(dk, s["limit"])
            if "usize" in s:
                s["usize"] = [(s["usize"] >> (16 * i)) & 0xffff for i in range(4)]
            if r.random() < .4:
                s["buf"] = r.choice([[1], [3, 100], [4096]])
            if r.random() < .15 and kind != "alone":
                s["preset_dict"] = bodies.rnd(r, r.randrange(1, 50)).hex()
            scs.append(s)
            recs.append(dk)
    rs = c.run(scs, "streams")
    rr = []
    for s, dk, q in zip(scs, recs, rs):
        died = q.get("died", q.get("panic", "")) or ""
        st = q.get("st", "?")
        rr.append({"rule": "inner", "died": died, "open": "err" if st == "err_open" else "ok", "end": "" if st == "err_open" else st, "st": [],
                   "peak": q.get("peak", 0) // 1024, "len": len(s["bytes"]) // 2, "bytes": [], "dicts": dk})
    # a stream that ends in an error may not end at all: err_after_end, more, endless and panics are not results
    c.judge("J_Malformed", rr, scs, "streams", rs)
