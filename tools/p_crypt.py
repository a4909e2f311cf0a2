"""C14, C15: encryption."""
import struct
import bodies, p_paths, p_session, ref7z, sess
from bodies import Coder, text, rnd, x86
from p_foreign import num, encoded_header, start_header
from p_session import jcopy
from sess import aes, lz1, lz2, units

CFG = """SPECIFICATION Spec
CONSTANTS
 Makers = {%s}
 Powers = {%s}
 Salts = {%s}
 Vectors = {%s}
 Chains = {%s}
 Lengths = {%s}
 Headers = {%s}
 MaxTries = %d
 Changes = {"low", "high", "both"}
 Emit = TRUE
 Lazy = %s
INVARIANTS Honest Independent
CHECK_DEADLOCK FALSE
"""
CHAINS = ["copy aes", "lzma2 aes", "lzma aes", "aes", "x86 lzma aes", "bzip2 aes", "aes copy", "aes lzma2", "lzma2 aes aes", "zstd aes"]


def model(c, name, makers, powers, salts, ivs, chains, lengths, headers, tries, sim=0):
    args, w = (), 8
    if sim:
        args, w = ["-simulate", "num=%d" % sim, "-depth", str(tries + 3), "-seed", str(c.seed)], 1
    q = lambda l: ",".join('"%s"' % k for k in l)
    n = lambda l: ",".join(map(str, l))
    s = c.model(name, "MC_Crypt", CFG % (q(makers), n(powers), n(salts), n(ivs), q(chains), n(lengths), q(headers), tries, "TRUE" if sim else "FALSE"), args=args, workers=w)
    u = {str(x): x for x in s}
    return [u[k] for k in sorted(u)]


def header_of(bs, names, empty=0, crc=True, pos=0):
    """a plain header over folder bodies; every checksum recorded (or none); `empty` further empty files"""
    packs = [d for b in bs for d in b["_packed"]]
    h = b"\x01\x04\x06" + num(pos) + num(len(packs)) + b"\x09" + b"".join(num(len(d)) for d in packs) + b"\0"
    h += b"\x07\x0b" + num(len(bs)) + b"\0"
    for b in bs:
        h += num(len(b["coders"]))
        for c in b["coders"]:
            p = bytes(c["props"])
            h += bytes([len(c["id"]) | (0x20 if p else 0) | (0x10 if c["nin"] > 1 or c["nout"] > 1 else 0)]) + bytes(c["id"])
            if c["nin"] > 1 or c["nout"] > 1:
                h += num(c["nin"]) + num(c["nout"])
            if p:
                h += num(len(p)) + p
        h += b"".join(num(x) + num(y) for x, y in b["binds"])
        if len(b["packed"]) > 1:
            h += b"".join(num(x) for x in b["packed"])
    h += b"\x0c" + b"".join(num(sum(v << 16 * i for i, v in enumerate(x))) for b in bs for x in b["sizes"]) + b"\0"
    subs = [s for b in bs for s in b["_subs"]]
    h += b"\x08\x0d" + b"".join(num(len(b["_subs"])) for b in bs)
    z = b"".join(num(len(s)) for b in bs for s in b["_subs"][:-1])
    h += b"\x09" + z + (b"\x0a\x01" + b"".join(struct.pack("<I", s.crc() if hasattr(s, "crc") else ref7z.crc(s)) for s in subs) if crc else b"") + b"\0\0"
    n = len(subs) + empty
    h += b"\x05" + num(n)
    if empty:
        v = [0] * len(subs) + [1] * empty
        bits = lambda v: bytes(sum(x << (7 - i) for i, x in enumerate(v[k:k + 8])) for k in range(0, len(v), 8))
        h += b"\x0e" + num((n + 7) // 8) + bits(v) + b"\x0f" + num((empty + 7) // 8) + bits([1] * empty)
    nm = b"".join(x.encode("utf-16-le") + b"\0\0" for x in names)
    return h + b"\x11" + num(len(nm) + 1) + b"\0" + nm + b"\0\0", packs


KINDS = ["ascii", "latin", "cjk", "emoji", "wide", "nul", "space"]


def password(r, n, kind=None):
    kind = kind or r.choice(KINDS)
    u = []
    for k in range(n):
        lo, hi = {"ascii": (0x21, 0x7f), "latin": (0xa1, 0x180), "cjk": (0x4e01, 0x9fff), "emoji": (0x21, 0x7f), "wide": (0xe001, 0xffff), "nul": (0x21, 0x7f), "space": (0x20, 0x23)}[kind]
        x = r.randrange(lo, hi)
        u.append(x if x & 255 else x + 1)
    if kind == "nul" and n > 2:
        u[r.randrange(1, n - 1)] = 0
    if kind == "space" and r.random() < .5:
        u[-1] = 0x20
    if kind == "emoji":
        for k in range(0, n - 1, 2):
            u[k], u[k + 1] = 0xd83d, 0xde01 + r.randrange(50)
    if kind == "wide" and n > 1:
        u[0] = 0xffff
    return u


def form(r, u):
    """as the caller passes it"""
    s = b"".join(struct.pack("<H", x) for x in u)
    try:
        t = s.decode("utf-16-le")
    except UnicodeDecodeError:
        return u
    return t if r.random() < .6 else u


def attempt(r, u, a):
    """units of the password of attempt a"""
    k = {"first": 0, "last": len(u) - 1, "middle": (len(u) + 1) // 2 - 1}.get(a[1])
    v = list(u)
    if a[0] == "none":
        return []
    if a[0] == "zero":
        return v + [0]
    if a[0] == "added":
        return v + [r.choice([v[-1], 0x20, 0x31, 0x101]) if v[-1] & 255 else 0x31]
    if a[0] == "dropped":
        return v[:-1]
    if a[0] == "low":
        v[k] ^= r.choice([1, 0x20, 0x80, 1 << r.randrange(8)])
    elif a[0] == "high":
        v[k] ^= r.choice([1, 0x80, 1 << r.randrange(8)]) << 8
    elif a[0] == "both":
        w = (v[k] >> 8 | v[k] << 8) & 0xffff
        v[k] = w if w >> 8 != v[k] >> 8 and w & 255 != v[k] & 255 else v[k] ^ r.choice([0x0101, 0xffff, 0x2020])
    return v


SIZES = [1, 2, 15, 16, 17, 31, 32, 33, 100, 511, 512, 513]


def chain_of(r, f, iv=None):
    out = []
    for k in f["chain"].split():
        out.append(Coder("aes", salt=rnd(r, f["salt"]), iv=iv if iv is not None else rnd(r, f["iv"]), power=f["power"], alt=r.choice([None, "salt", "iv"])) if k == "aes" else Coder(k))
    return out


def data_of(r, n):
    return r.choice([text, rnd, x86])(r, n)


def reads(r, ts, count):
    rd = []
    for pw in ts:
        x = {"mode": r.choice(["each", "each", "each", "twice"]), "brief": True}
        if pw is not None:
            x["pw"] = pw
        if r.random() < .4:
            x["src"] = {"short": r.choice([[1], [3, 1, 50], [7], [16], [511], [513, 1]])}
        if r.random() < .4:
            x["buf"] = r.choice([[1], [5, 1], [15], [16], [17, 3], [64]])
        sess.via(r, x)
        x["mode"] = "each"
        rd.append(x)
    return rd


def scenario(r, s, sizes=None):
    f = s["f"]
    u = password(r, f["len"])
    pwb = ref7z.pw_bytes(u)
    tries = []
    for t in s["tries"]:
        v = attempt(r, u, t["a"])
        tries.append({"pw": v, "none": t["a"][0] == "none", "ok": t["ok"]})
    forms = [None if t["none"] else form(r, t["pw"]) for t in tries]
    rec = {"pw": u, "tries": tries, "plain": [], "foreign": f["maker"] == "foreign", "locked": f["hdr"] == "encrypted", "props": []}
    if f["maker"] == "foreign":
        n = r.choice([1, 1, 2, 3])
        bs, ents, conts = [], [], []
        plainat = r.randrange(n) if n > 1 and r.random() < .5 else -1
        for k in range(n):
            subs = [data_of(r, z) for z in (sizes or [r.choice(SIZES) for _ in range(r.choice([1, 1, 2, 3]))])]
            if k == plainat:
                b = bodies.body([Coder(r.choice(["copy", "lzma2"]))], subs, pwb)
            else:
                ch = chain_of(r, f)
                b = bodies.body(ch, subs, pwb, order=r.sample(range(len(ch)), len(ch)))
                if not rec["props"]:
                    rec["props"] = list([c for c in ch if c.kind == "aes"][0].props())
                if f["power"] in (0, 1, 2, 3, 63) and f["chain"] in ("copy aes", "aes", "aes copy") and sum(map(len, subs)) <= 64:
                    c = [c for c in ch if c.kind == "aes"][0]
                    rec["plain"].append({"props": list(c.props()), "data": list(b["_packed"][0]), "want": list(b"".join(subs))})
            bs.append(b)
            for x in subs:
                ents.append({"enc": k != plainat, "n": len(x)})
                conts.append(x)
        extra = r.choice([0, 0, 1])
        ents += [{"enc": False, "n": 0}] * extra
        conts += [b""] * extra
        hdr, packs = header_of(bs, ["e%d" % i for i in range(len(ents))], extra)
        pack = b"".join(packs)
        if f["hdr"] != "plain":
            ch = [Coder(r.choice(["lzma", "lzma2", "copy"]))]
            if f["hdr"] == "encrypted":
                ch.append(Coder("aes", salt=rnd(r, f["salt"]), iv=rnd(r, f["iv"]), power=f["power"], alt=r.choice([None, "salt", "iv"])))
            d, h = encoded_header(hdr, len(pack), ch, pwb)
            pack += d
        else:
            h = hdr
        b = start_header(len(pack), len(h), ref7z.crc(h)) + pack + h
        sc = {"kind": "r", "bytes": b.hex(), "contents": [x.hex() for x in conts], "reads": reads(r, forms, len(ents)), "cpu": 60}
        rec["ents"] = ents
    else:
        salt, iv = rnd(r, 16).hex(), rnd(r, 16).hex()
        a = aes(form(r, u), cyc=f["power"], salt=salt, iv=iv)
        ms = [a] + {"aes": [], "lzma2 aes": [lz2()], "lzma aes": [lz1()]}[f["chain"]]
        ops, ents = [], []
        for k in range(r.choice([1, 2, 3])):
            x = {"op": "file", "e": {"name": "e%d" % k}, "data": data_of(r, r.choice(sizes or SIZES)).hex()}
            ents.append({"enc": True, "n": len(x["data"]) // 2})
            ops.append(x)
        if r.random() < .4:
            es = [{"e": {"name": "s%d" % k}, "data": data_of(r, r.choice(sizes or SIZES)).hex()} for k in range(2)]
            ents += [{"enc": True, "n": len(x["data"]) // 2} for x in es]
            ops.append({"op": "solid", "es": es})
        sc = {"kind": "w", "sink": {}, "methods": ms, "ops": ops + [{"op": "finish"}], "reads": reads(r, forms, len(ents)), "keep": True, "cpu": 60}
        if f["hdr"] == "plain":
            sc["hdr_enc"] = False
        rec["ents"] = ents
        rec["_ops"] = ops
        rec["props"] = [f["power"] | 0xc0, 0xff] + list(bytes.fromhex(salt + iv))
    return sc, rec


def judge(c, items, group):
    scs = [i[0] for i in items]
    rs = c.run(scs, group)
    recs = []
    for (sc, rec), q in zip(items, rs):
        rec = dict(rec)
        ops = rec.pop("_ops", None)
        rec["died"] = q.get("died", q.get("panic", "")) or ""
        rec["made"] = "ok"
        if sc["kind"] == "w" and not rec["died"]:
            bad = [o for o in q.get("ops", []) if o.get("r") != "ok"]
            rec["made"] = "ok" if not bad else str(bad[0].get("r"))
            b = bytes.fromhex(q.get("bytes") or "") if isinstance(q.get("bytes"), str) else bytes(q.get("bytes") or [])
            if not bad and (rec["props"][0] & 63) <= 3 and len(sc["methods"]) == 1:
                rec["plain"] = writer_blocks(b, ref7z.pw_bytes(rec["pw"]), ops)
            q.pop("bytes", None)
        rec["tries"] = []
        for t, x in zip(items[len(recs)][1]["tries"], q.get("reads", [])):
            rec["tries"].append(dict(t, open=x.get("open", "?"), end=x.get("end", "?"),
                                     visits=[{"i": v["i"], "st": v["st"], "rel": v["rel"]} for v in x.get("visits", [])]))
        recs.append(rec)
    c.judge("J_Crypt", recs, scs, group, rs)


def writer_blocks(b, pwb, ops):
    """packed streams of the first block of an archive the code wrote, with what they have to stand for"""
    try:
        plain, _, _, _ = ref7z.header(b, pwb)
        st = ref7z.main_streams(plain)
        f = st["folders"][0]
        cd = [c for c in f["coders"] if c[0] == bodies.ID["aes"]][0]
        n = st["packs"][0]
        if n > 128:
            return []
        return [{"props": list(cd[3]), "data": list(b[32 + st["pos"]:32 + st["pos"] + n]), "want": list(bytes.fromhex(ops[0]["data"]))}]
    except Exception:
        return []       # C03 and C14's reads see to that


def c14(c):
    c.rules.append("distinct archives, passwords and attempts")
    r = c.rng
    c.model("vectors of the building blocks", "MC_Vectors", "SPECIFICATION Spec\nINVARIANTS Sha Aes Bijective Tables Padding\nCHECK_DEADLOCK FALSE\n")
    both = ["foreign", "writer"]
    hd = ["plain", "encoded", "encrypted"]
    ss = model(c, "one attempt each", both, [1, 63], [0, 5, 16], [0, 16], ["copy aes", "lzma2 aes", "aes"], [1, 8, 15, 17], hd, 1)
    if not c.thorough:
        ss = r.sample(ss, min(len(ss), 900))
    judge(c, [scenario(r, s) for s in ss], "one attempt each")
    ss = model(c, "sequences of attempts", both, [0, 1, 2, 3, 4, 5, 7, 9, 63], list(range(17)), list(range(17)), CHAINS, [1, 2, 3, 7, 8, 9, 12, 15, 16, 17, 31, 70], hd, 5, sim=c.q(700, 8000))
    judge(c, [scenario(r, s) for s in ss], "sequences of attempts")
    ss = model(c, "higher costs, more data", both, c.q([8, 9, 14, 19], [8, 9, 14, 19, 20]), [0, 8, 16], [0, 8, 16], CHAINS, [1, 5, 20], hd, 2, sim=c.q(30, 200))
    judge(c, [scenario(r, s, [4095, r.choice([4096, 4097, 8192, 20000, 70001])]) for s in ss], "higher costs, more data")


# ------------------------------------------------------------------ C15
class Secrets(p_session.Build):
    def name(self):
        self.k += 1
        r = self.c.rng
        s = "".join(chr(r.choice([r.randrange(0x61, 0x7b), r.randrange(0x30, 0x3a), r.randrange(0xe0, 0x200), r.randrange(0x4e00, 0x9fff)])) for _ in range(r.randrange(8, 30)))
        return s if r.random() < .7 else "report-%s/secret%d.txt" % (s[:3], self.k)

    def data(self, size=None):
        r = self.c.rng
        n = size if size is not None else r.choice([20, 24, 33, 64, 100, 257])
        return r.choice([text, rnd, x86])(r, n).hex()

    def op(self, a, meta=False, size=None):
        r = self.c.rng
        if a["op"] == "sethdr":
            return {"op": "sethdr", "on": a["on"]}
        if a["op"] == "setm":
            return {"op": "setm", "methods": self.stack(a["m"] == "aes")}
        o = p_session.Build.op(self, dict(a, fail="no"), meta, size)
        if a["fail"] != "no":
            o["fail_at"] = r.choice([0, 5, len(o["data"]) // 2])
            o["fail_kind"] = "other"
        return o

    def stack(self, enc):
        r = self.c.rng
        if not enc:
            return r.choice([[lz2()], [lz1()]])
        a = aes(self.pw, cyc=r.choice([0, 1, 2, 3]), salt=r.choice([None, rnd(r, 16).hex()]), iv=r.choice([None, rnd(r, 16).hex()]))
        # what is encrypted may be compressed once more
        return r.choice([[]] * 7 + [[lz1()], [lz2()]]) + [a] + r.choice([[], [lz2()], [lz1()]])


def secret(b, s, size=None, deep=True):
    r = b.c.rng
    u = password(r, r.choice([1, 4, 8, 13, 40]))
    b.pw = form(r, u)
    start = r.random() < .5
    methods = b.stack(start)
    ops = [b.op(a, size=size) for a in s["ops"]]
    sc = {"kind": "w", "sink": {}, "methods": methods, "ops": ops + [{"op": "finish"}], "keep": True}
    hdr = r.choice([None, None, True])
    if hdr is not None:
        sc["hdr_enc"] = hdr
    # whatever is looked for is long enough not to occur by chance
    needles = []
    for o in ops:
        for x in ([o] if o["op"] == "file" else o.get("es", [])):
            n = x["e"]["name"]
            d = bytes.fromhex(x.get("data") or "")
            needles.append({"failed": o.get("fail_at") is not None and x.get("data") is not None, "names": [n.encode("utf-16-le")[:16], n.encode("utf-16-le")[-16:], n.encode()],
                            "datas": [d[k:k + 12] for k in (0, len(d) // 2, len(d) - 12) if k >= 0 and len(d) >= 12 and k + 12 <= len(d)]})
    sc["clear"] = [x.hex() for n in needles for x in n["names"] + n["datas"]]
    tries = [None, u] + [attempt(r, u, a) for a in r.sample([("low", "first"), ("high", "last"), ("both", "middle"), ("added", "-")] + ([("dropped", "-")] if len(u) > 1 else []), 2)]
    r.shuffle(tries)
    sc["reads"] = [sess.via(r, dict({"mode": "each"}, **({} if t is None else {"pw": form(r, t)}))) for t in tries]
    return sc, {"pw": u, "needles": needles, "tries": tries, "start": start, "deep": deep}


def judge_secret(c, items, group):
    scs = [i[0] for i in items]
    rs = c.run(scs, group)
    recs = []
    for (sc, m), q in zip(items, rs):
        died = q.get("died", q.get("panic", "")) or ""
        hits = list(q.get("clear", []))
        names, datas = [], []
        for n in m["needles"]:
            a, hits = hits[:len(n["names"])], hits[len(n["names"]):]
            d, hits = hits[:len(n["datas"])], hits[len(n["datas"]):]
            if not n["failed"]:
                names.append(any(a))
                datas.append(any(d))
        b = q.get("bytes") or []
        b = list(bytes.fromhex(b)) if isinstance(b, str) else b
        first = {"op": "setm", "as": [], "fail": False, "badm": False, "m": "aes" if m["start"] else "x", "on": True, "res": "ok", "e": "", "faulted": False, "entry": sess.NOENT, "packed": sess.NOPACK}
        tries = []
        for t, x in zip(m["tries"], q.get("reads", [])):
            y = sess.read(x)
            tries.append({"pw": t or [], "none": t is None, "open": y["open"], "list": y["list"], "end": y["end"], "visits": y["visits"]})
        recs.append({"died": died, "ops": [first] + sess.ops(sc, q), "pw": m["pw"], "b": b if len(b) < 4000 else [], "deep": m["deep"], "names": names, "datas": datas, "tries": tries})
        q.pop("bytes", None)
    c.judge("J_Secret", recs, scs, group, rs)


def sessions(c, depth, sim=0, simlen=0):
    MC = p_session.MC.replace("TypeOK", "HeaderKept ContentKept OpenListing TypeOK")
    out = []
    if depth:
        out += c.model("all sessions of %d operations" % depth, "MC_Secret", MC % (depth, 99, "Secrets", 0, "PROPERTIES Switched\n"))
    if sim:
        out += c.model("random sessions", "MC_Secret", MC % (simlen, 99, "Secrets", simlen, ""), args=["-simulate", "num=%d" % sim, "-depth", str(simlen + 2), "-seed", str(c.seed)], workers=1)
    u = {str(x): x for x in out}
    return [u[k] for k in sorted(u)]


LONGN = lambda r, k: "".join(chr(r.choice([r.randrange(0x61, 0x7b), r.randrange(0x30, 0x3a), r.randrange(0x4e00, 0x9fff)])) for _ in range(12)) + str(k)


def trees(c, S, shapes):
    """trees compressed under a password"""
    r = c.rng
    items = []
    for nodes in shapes:
        names = {}
        nm = lambda p: "/".join(names.setdefault(x, LONGN(r, len(names))) for x in p)
        how = r.choice(["encrypted", "to_path_encrypted", "encrypted", "solid", "nonsolid"])
        u = password(r, r.choice([1, 1, 2, 3, 8, 20, 60]))
        t = [{"path": nm(p), "kind": k} for p, k in sorted(nodes) if k in ("file", "dir")]
        for x in t:
            if x["kind"] == "file":
                x["data"] = r.choice([text, rnd])(r, r.choice([0, 1, 15, 16, 17, 33, 100, 700, 5000])).hex()
        sc = {"kind": "compress", "root": S.new(), "tree": t, "how": how, "reject": [], "sink": {}, "pw": form(r, u)}
        hdr = True
        if how in ("solid", "nonsolid"):
            hdr = r.random() < .6
            sc["methods"] = [aes(sc["pw"], cyc=r.choice([0, 1, 8]))] + r.choice([[], [lz2()], [lz1()]])
            if not hdr or r.random() < .5:
                sc["hdr"] = hdr
                sc["hdr_first"] = r.random() < .5
        need = {}
        for x in t:
            n = x["path"].split("/")[-1]
            d = bytes.fromhex(x.get("data", ""))
            need[x["path"]] = ([n.encode("utf-16-le")[:16], n.encode("utf-16-le")[-16:], n.encode()], [d[k:k + 12] for k in (0, len(d) // 2, len(d) - 12) if len(d) >= 12 and 0 <= k <= len(d) - 12])
        sc["clear"] = [y.hex() for x in t for z in need[x["path"]] for y in z]
        tries = [None, u] + [attempt(r, u, a) for a in r.sample([("low", "first"), ("high", "last"), ("added", "-")] + ([("dropped", "-")] if len(u) > 1 else []), 1)]
        sc["reads"] = [sess.via(r, {} if x is None else {"pw": form(r, x)}) for x in tries]
        items.append((sc, need, [x == u for x in tries], hdr))
    scs = [i[0] for i in items]
    rs = c.run(scs, "trees")
    recs = []
    for (sc, need, right, hdr), q in zip(items, rs):
        hits = iter(q.get("clear", []))
        got = {p: ([next(hits, False) for _ in n], [next(hits, False) for _ in d]) for p, (n, d) in need.items()}
        t = p_paths.tree(q.get("tree", []))
        key = {tuple(map(tuple, p_paths.parts(p))): v for p, v in got.items()}
        g = [key.get(tuple(map(tuple, x["p"])), ([], [])) for x in t]
        recs.append({"died": q.get("died", q.get("panic", "")) or "", "res": q.get("r", "none"), "t": [{"p": x["p"], "k": x["k"], "h": x["h"], "n": x["n"]} for x in t],
                     "whole": "encrypted" in sc["how"], "rej": [], "enc": True, "hdr": hdr, "names": [any(a) for a, b in g], "datas": [any(b) for a, b in g],
                     "tries": [{"right": w, "open": x.get("open", "none"), "end": x.get("end", "none") if x.get("end") else "none",
                                "visits": [{"st": v["st"], "h": v["h"], "n": v["n"]} for v in x.get("visits", [])]} for w, x in zip(right, q.get("reads", []))]})
    c.judge("J_SecretTree", recs, scs, "trees", rs)


def c15(c):
    c.rules.append("distinct sessions, passwords, names and contents")
    b = Secrets(c)
    r = c.rng
    ss = sessions(c, c.q(3, 4))
    if not c.thorough:
        ss = r.sample(ss, min(len(ss), 700))
    judge_secret(c, [secret(b, s, deep=r.random() < .5) for s in ss], "short sessions")
    judge_secret(c, [secret(b, s, deep=r.random() < .1) for s in sessions(c, 0, c.q(250, 3000), c.q(8, 14))], "long sessions")
    judge_secret(c, [secret(b, s, size=r.choice([5000, 70000]), deep=False) for s in sessions(c, 0, c.q(60, 400), 5)], "larger contents")
    with p_paths.Scratch() as S:
        m = p_paths.cmodel(c, "trees", ["a", "b", "c"], ["file", "dir"], c.q(5, 9), 3, 0, sim=c.q(120, 1200))
        trees(c, S, [[(x["p"], x["k"]) for x in s["t"]] for s in m])
