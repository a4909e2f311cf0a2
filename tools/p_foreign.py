"""C04: archives composed by the specification (MC_Foreign), read by the code."""
import json, os, random, struct
import bodies, ref7z, sess, tlc
from lib import l64, l32
from p_session import jcopy

CFG = """SPECIFICATION Spec
CONSTANTS
  MaxFolders = %d
  MaxEmpty = %d
  Bodies <- %s
  Opts <- %s
  Emit = TRUE
INVARIANTS Inverts NoPrefix
CHECK_DEADLOCK FALSE
"""
PW = "p\u00e4ss"


def num(v):
    """7z NUMBER"""
    for n in range(8):
        if v < 1 << (7 * (n + 1)):
            m = (0xff00 >> n) & 0xff
            return bytes([m | v >> (8 * n)]) + (v & ((1 << (8 * n)) - 1)).to_bytes(n, "little")
    return b"\xff" + v.to_bytes(8, "little")


def start_header(off, size, crc):
    s = struct.pack("<QQI", off, size, crc)
    return b"7z\xbc\xaf\x27\x1c\0\x04" + struct.pack("<I", ref7z.crc(s)) + s


def encoded_header(hdr, pos, chain, pwb):
    """-> packed bytes, encoded header record"""
    b = bodies.body(chain, [hdr], pwb)
    d = b["_packed"][0]
    rec = b"\x17\x06" + num(pos) + num(1) + b"\x09" + num(len(d)) + b"\x00\x07\x0b" + num(1) + b"\0"
    rec += num(len(b["coders"]))
    for c in b["coders"]:
        rec += bytes([len(c["id"]) | (0x20 if c["props"] else 0)]) + bytes(c["id"])
        if c["props"]:
            rec += num(len(c["props"])) + bytes(c["props"])
    for x in b["binds"]:
        rec += num(x[0]) + num(x[1])
    rec += b"\x0c" + b"".join(num(sum(v << 16 * i for i, v in enumerate(x))) for x in b["sizes"])
    rec += b"\x0a\x01" + struct.pack("<I", ref7z.crc(hdr)) + b"\0\0"
    return d, rec


def assemble(sc, tab, r, encode=None, gap=b""):
    hdr = bytes(sc["bytes"])
    pack = bytes(r.getrandbits(8) for _ in range(sc["pos"]))
    for f in sc["fo"]:
        for d in tab[f - 1]["_packed"]:
            pack += d
    pack += gap
    h = hdr
    if encode:
        d, h = encoded_header(hdr, len(pack), encode, ref7z.pw_bytes(PW))
        pack += d
    return start_header(len(pack), len(h), ref7z.crc(h)) + pack + h


def contents(sc, tab):
    subs = [s for f in sc["fo"] for s in tab[f - 1]["_subs"]]
    out, k = [], 0
    for kind in sc["fl"]:
        if kind == "data":
            out.append(subs[k])
            k += 1
        else:
            out.append(b"")
    return out


def run(c, scs, tab, group, reads=None):
    r = c.rng
    C = bodies.Coder
    encs = [None, None, [C("copy")], [C("lzma")], [C("lzma2")], [C("lzma"), C("aes", salt=b"", iv=b"12345678", power=1)]]
    out = []
    for s in scs:
        enc = r.choice(encs) if s["bytes"] else None
        aes = any(tab[f - 1]["_aes"] for f in s["fo"]) or (enc and enc[-1].kind == "aes")
        b = assemble(s, tab, r, enc, gap=r.choice([b"", b"", b"\0" * 7]))
        cs = contents(s, tab)
        rd = {"mode": "each", "msg": True}
        if aes:
            rd["pw"] = PW
        if r.random() < .3:
            rd["src"] = {"short": r.choice([[1], [3, 1, 50], [7]])}
        if r.random() < .3:
            rd["buf"] = r.choice([[1], [5, 1], [64]])
        sess.via(r, rd)
        out.append({"kind": "r", "bytes": b.hex(), "contents": [x.hex() for x in cs], "reads": [rd], "_h": s["bytes"], "_s": s})
    rs = c.run([{k: v for k, v in o.items() if not k.startswith("_")} for o in out], group)
    recs = [{"died": q.get("died", q.get("panic", "")) or "", "bytes": o["_h"], "srcs": q.get("srcs", []),
             "reads": [sess.read(x) for x in q.get("reads", [])], "msg": [x.get("msg", "") for x in q.get("reads", [])]} for o, q in zip(out, rs)]
    return c.judge("J_Foreign", recs, out, group, rs)


def table(c, mid=False):
    pwb = ref7z.pw_bytes(PW)
    return bodies.table(c.rng, pwb, big=c.thorough, mid=mid)


def model(c, tab, name, fold, empty, which, opts, sim=0, depth=60):
    d = tlc.scratch("bodies")
    p = os.path.join(d, "b.ndjson")
    with open(p, "w") as o:
        for b in tab:
            o.write(json.dumps(bodies.public(b)) + "\n")
    args, w = (), 8
    if sim:
        args, w = ["-simulate", "num=%d" % sim, "-depth", str(depth), "-seed", str(c.seed)], 1
    try:
        return c.model(name, "MC_ForeignQ", CFG % (fold, empty, which, opts), args=args, workers=w, env={"BODIES": p})
    finally:
        os.remove(p)
        os.rmdir(d)


def c04(c):
    c.rules.append("distinct archives: folder bodies, files, choice of optional records, container of the header")
    tab = table(c)
    run(c, model(c, tab, "one folder, files, defaults", 1, 2, "AllBodies", "NoOpts"), tab, "bodies")
    a = model(c, tab, "record choices A", 1, 1, "Few", "OptsA")
    b = model(c, tab, "record choices B", 1, 2, "One", "OptsB")
    d = model(c, tab, "checksum choices", 2, 0, "Two", "OptsC")
    for n, x in (("choices A", a), ("choices B", b), ("choices C", d)):
        x.sort(key=str)
        run(c, x if c.thorough else c.rng.sample(x, min(len(x), 700)), tab, n)
    s = model(c, tab, "random archives", c.q(4, 6), c.q(4, 10), "AllBodies", "OptSeq", sim=c.q(700, 8000), depth=90)
    run(c, s, tab, "random archives")
    longer(c)


def longer(c):
    """offsets and sizes beyond 32 bits"""
    import far
    r = c.rng
    scs, hs = [], []
    for f, h, cs, nf in far.archives(r, c.thorough):
        rd = [{"mode": "each", "cpu": 600}]
        if sum(map(len, cs)) < 1 << 20 and r.random() < .5:
            rd.append({"mode": "each", "src": {"short": r.choice([[1], [3, 1, 50], [7]])}})
        scs.append({"kind": "r", "cpu": 600, "bytes": f.store(), "contents": [x.store() for x in cs], "reads": rd})
        hs.append(list(h))
    rs = c.run(scs, "beyond 32 bits")
    recs = [{"died": q.get("died", q.get("panic", "")) or "", "bytes": h, "srcs": q.get("srcs", []),
             "reads": [sess.read(x) for x in q.get("reads", [])], "msg": []} for h, q in zip(hs, rs)]
    c.judge("J_Foreign", recs, scs, "beyond 32 bits", rs)
