"""C12: branch and delta filters."""
import lzma, struct
import bodies, ref7z, sess
from bodies import Coder, rnd, text, x86
from lib import l32, l64
from p_crypt import header_of
from p_foreign import start_header
from far import FILL, Far, archive as archive_far, limbs32

CFG = """SPECIFICATION Spec
CONSTANTS
 Kind = "%s"
 Dist = %d
 Letters = {%s}
 MaxLen = %d
 EmitFrom = %d
INVARIANTS SameLength Restores Converts Stream
CHECK_DEADLOCK FALSE
"""
LETTERS = {"x86": [[232, 0, 255, 1], [233, 232, 0, 255], [232, 254, 255, 127]], "arm": [[235, 0, 255], [235, 234, 128]],
           "armt": [[240, 248, 247, 0], [240, 248, 255, 239]], "ppc": [[72, 75, 1, 255], [72, 76, 0, 1]],
           "sparc": [[64, 127, 192, 63], [64, 65, 127, 191]], "delta": [[0, 1, 255], [128, 3]]}
PW = "filters"
BRANCH = [k for k in LETTERS if k != "delta"]


def folder(fs, rest, data, subs, order=None):
    """fs: filters (outermost first); data: what the innermost filter of a reader gets; rest: coders below"""
    inner = bodies.body(rest, [data], ref7z.pw_bytes(PW)) if rest else None
    chain = fs + rest
    n = len(chain)
    order = order or list(range(n))
    pos = {ci: k for k, ci in enumerate(order)}
    sizes = [len(data)] * len(fs) + ([sum(x << 16 * i for i, x in enumerate(s)) for s in inner["sizes"]] if rest else [])
    packed = inner["_packed"][0] if rest else data
    ss = [b"\0" * k for k in subs]
    return {"coders": [{"id": list(bodies.ID[chain[ci].kind]), "nin": 1, "nout": 1, "props": list(chain[ci].props())} for ci in order],
            "binds": [(pos[i], pos[i + 1]) for i in range(n - 1)], "packed": [pos[n - 1]], "sizes": [l64(sizes[ci]) for ci in order],
            "_packed": [packed], "_subs": ss, "_aes": any(x.kind == "aes" for x in rest),
            "rec": {"lib": list(lib(fs, data)), "fs": [{"k": c.kind, "dist": c.k.get("dist", 0)} for c in fs], "data": list(data), "subs": list(subs)}}


def cipher(r):
    return Coder("aes", salt=rnd(r, r.choice([0, 16])), iv=rnd(r, r.choice([0, 16])), power=r.randrange(3))


def lib(fs, d):
    """what another implementation makes of it"""
    for c in reversed(fs):
        d = ref7z.unfilter({"id": lzma.FILTER_DELTA, "dist": c.k["dist"]} if c.kind == "delta" else {"id": ref7z.BCJ[bodies.ID[c.kind]]}, d)
    return d


def archive(bs, crc=False):
    n = sum(len(b["_subs"]) for b in bs)
    hdr, packs = header_of(bs, ["e%d" % i for i in range(n)], crc=crc)
    pack = b"".join(packs)
    return start_header(len(pack), len(hdr), ref7z.crc(hdr)) + pack + hdr


def plan(r, mode=None, sched=True):
    x = {"mode": mode or r.choice(["each", "each", "blocks"]), "brief": True, "data": True}
    if sched and r.random() < .7:
        x["src"] = {"short": r.choice([[1], [2], [3], [4, 1], [5, 3], [7, 4, 1], [4095], [4097, 1], [4093, 3]])}
    if sched and r.random() < .7:
        x["buf"] = r.choice([[1], [2], [3, 1], [4], [5], [4095], [4096], [4091, 5], [1, 4096]])
    return sess.via(r, x)


def one_filter(k, dist):
    return Coder(k, dist=dist) if k == "delta" else Coder(k)


def judge(c, items, group):
    scs = [{"kind": "r", "bytes": archive(bs).hex(), "contents": [], "cpu": 60,
            "reads": [dict(x, pw=PW) for x in rd] if any(b["_aes"] for b in bs) else rd} for bs, rd in items]
    rs = c.run(scs, group)
    recs = []
    for (bs, rd), q in zip(items, rs):
        flat(q)
        recs.append({"died": q.get("died", q.get("panic", "")) or "", "folders": [b["rec"] for b in bs],
                     "reads": [{"open": x.get("open", "?"), "end": x.get("end", "?"), "visits": [{"i": v["i"], "st": v["st"], "d": v.get("d", [])} for v in x.get("visits", [])]}
                               for x in q.get("reads", [])]})
    c.judge("J_Filters", recs, scs, group, rs)


def flat(q):
    """reads block by block as one walk"""
    for x in q.get("reads", []):
        if "per_block" in x:
            x["visits"] = [v for b in x["per_block"] for v in b["visits"]]
            x["end"] = ([b["end"] for b in x["per_block"] if b["end"] != "ok"] or ["ok"])[0]


def pattern(r, k):
    """an instruction of the kind that is (nearly) converted"""
    b = r.randrange(256)
    z = r.choice([0, 0xff])
    if k == "x86":
        return r.choice([bytes([0xe8 + r.randrange(2)]) + rnd(r, 3) + bytes([r.choice([0, 0xff, 0, 0xff, 1, 0xfe])]),
                         bytes([0xe8, 0xe9]) + rnd(r, 2) + bytes([z, z]), bytes([0xe8]) * r.randrange(1, 5) + bytes([b, z, z, z, z]),
                         bytes([0xe8, b, z, z]), bytes([0xe9, 0xe8, b, b, z, z])])
    if k == "arm":
        return rnd(r, 3) + bytes([r.choice([0xeb, 0xeb, 0xea, 0x0b])])
    if k == "armt":
        return r.choice([bytes([b, 0xf0 | r.randrange(8), b ^ 0x5a, 0xf8 | r.randrange(8)]), bytes([b, 0xf0, b, 0xf0, b, 0xf8]), bytes([b, 0xf7, b, 0xff, b, 0xff])])
    if k == "ppc":
        return bytes([0x48 | r.randrange(4)]) + rnd(r, 2) + bytes([r.choice([1, 1, 0x41, 0xfd, 0, 2, 3])])
    if k == "sparc":
        return r.choice([bytes([0x40, r.randrange(0x40)]), bytes([0x7f, 0xc0 | r.randrange(0x40)]), bytes([0x40, 0x40 | b]), bytes([0x7f, b & 0xbf])]) + rnd(r, 2)
    return rnd(r, r.randrange(1, 5))


def stream(r, k, n, edges):
    """n bytes with instructions across the edges and anywhere else"""
    d = bytearray(r.choice([rnd, rnd, text, x86])(r, n))
    while r.random() < .9 and n:
        for _ in range(max(1, n // 40)):
            p = pattern(r, k)
            a = r.randrange(n)
            if k in ("arm", "ppc", "sparc") and r.random() < .8:
                a -= a % 4
            if k == "armt" and r.random() < .8:
                a -= a % 2
            d[a:a + len(p)] = p
        break
    for e in edges:
        p = pattern(r, k)
        a = e - r.randrange(len(p) + 2)
        if a >= 0 and a < n:
            d[a:a + len(p)] = p
    return bytes(d[:n])


def far(c, items, group):
    """items: kind, body, pieces [(at, data or streams, what another implementation makes of them)], length, reading plan"""
    scs, recs = [], []
    for k, b, wins, n, x in items:
        x = dict(x, mode="each", brief=True, visit={"*": {"far": {"win": [[str(at), len(o)] for at, _, o in wins], "fill": FILL}}})
        scs.append({"kind": "r", "bytes": archive_far([b])[0].store(), "contents": [], "reads": [x], "cpu": 600})
    rs = c.run(scs, group)
    for (k, b, wins, n, x), q in zip(items, rs):
        recs.append({"died": q.get("died", q.get("panic", "")) or "", "k": k, "n": l64(n),
                     "wins": [dict({"at": limbs32(at), "lib": list(o)}, **(d if isinstance(d, dict) else {"data": list(d)})) for at, d, o in wins],
                     "reads": [{"open": y.get("open", "?"), "end": y.get("end", "?"),
                                "visits": [{"i": v["i"], "st": v["st"], "n": v["n"], "d": v.get("d", []), "others": v.get("others", 0)} for v in y.get("visits", [])]} for y in q.get("reads", [])]})
    c.judge("J_Far", recs, scs, group, rs)


def far_item(r, k, places, tail):
    """windows full of instructions at the given places of a stream"""
    pieces, wins, at = [], [], 0
    for p in places:
        w = bytes([FILL]) * 8 + stream(r, k, 64, [20, 40]) + bytes([FILL]) * 8
        p -= p % 4
        pieces += [(p - at, FILL), w]
        wins.append((p, w, ref7z.unfilter({"id": ref7z.BCJ[bodies.ID[k]], "start_offset": p & 0xffffffff}, w)))
        at = p + len(w)
    data = Far(*pieces, (tail, FILL))
    n = len(data)
    b = {"coders": [{"id": list(bodies.ID[k]), "nin": 1, "nout": 1, "props": []}], "binds": [], "packed": [0], "sizes": [l64(n)], "_packed": [data], "_subs": [data]}
    return k, b, wins, n, {"buf": r.choice([[1 << 16], [100000], [4096], [1 << 20, 4097]])}


def cut(r, n, parts):
    at = sorted(r.randrange(n + 1) for _ in range(parts - 1))
    return [b - a for a, b in zip([0] + at, at + [n])]


def c12(c):
    c.rules.append("distinct byte sequences through distinct filters, and splits")
    r = c.rng
    # every short sequence over alphabets of instruction bytes
    items = []
    for k in LETTERS:
        for j, ls in enumerate(LETTERS[k]):
            for dist in ([0] if k != "delta" else [1, 2, 3, 5]):
                n = {4: c.q(6, 8), 3: c.q(7, 10), 2: c.q(9, 12)}[len(ls)] if j == 0 or c.thorough else {4: 5, 3: 6, 2: 8}[len(ls)]
                ss = c.model("%s %s dist %d" % (k, ls, dist), "MC_Filters", CFG % (k, dist, ",".join(map(str, ls)), n, 1))
                ss = [bytes(s) for s in sorted(ss)]
                if not c.thorough and len(ss) > 6000:
                    ss = r.sample(ss, 6000)
                for x in range(0, len(ss), 300):
                    bs = [folder([one_filter(k, dist)], [] if r.random() < .7 else [Coder("copy")], s, [len(s)]) for s in ss[x:x + 300]]
                    items.append((bs, [plan(r)]))
    judge(c, items, "every short sequence")
    # longer ones over the same alphabets
    items = []
    for k in LETTERS:
        for _ in range(c.q(6, 60)):
            ls = [r.choice(LETTERS[k])] if r.random() < .8 else [sum(LETTERS[k], [])]
            bs = []
            for _ in range(200):
                n = r.randrange(7, 25)
                s = bytes(r.choice(ls[0]) if r.random() < .9 else r.randrange(256) for _ in range(n))
                bs.append(folder([one_filter(k, r.choice([1, 2, 3, 4, 8, 15]))], [], s, cut(r, n, r.choice([1, 1, 2]))))
            items.append((bs, [plan(r)]))
    judge(c, items, "longer sequences")
    # the same windows at the edges of the buffer and of the cut between entries
    items = []
    for k in BRANCH:
        for _ in range(c.q(16, 120)):
            bs = []
            for _ in range(8):
                n = r.choice([4090, 4094, 4095, 4096, 4097, 4098, 4100, 4102, 8187, 8190, 8192, 8195, 12290]) if c.thorough or r.random() < .4 else r.choice([4095, 4096, 4097, 4099, 4101])
                d = stream(r, k, n, [4096, 4096, 4092, 8188, 8192, 12288])
                if r.random() < .5:
                    sub = [n]
                elif r.random() < .5:
                    sub = [4096, n - 4096] if n > 4096 else [n - 3, 3]
                else:
                    sub = cut(r, n, r.choice([2, 3, 7]))
                rest = r.choice([[], [Coder("copy")], [Coder("lzma2")], [Coder("lzma2", stored=True)], [Coder("lzma")], [Coder("zstd")], [cipher(r)]])
                bs.append(folder([Coder(k)], rest, d, sub, None if not rest or r.random() < .5 else [1, 0]))
            items.append((bs, [plan(r), plan(r, "each", False)]))
    judge(c, items, "around the edges of buffers")
    # delta at every distance
    items = []
    for base in range(0, 256, 8):
        for n in c.q([40, 600], [5, 40, 255, 257, 600, 3000]):
            bs = [folder([Coder("delta", dist=d + 1)], r.choice([[], [Coder("lzma2")]]), rnd(r, r.choice([n, n, d, d + 1, d + 2]) or 1), []) for d in range(base, base + 8)]
            for b in bs:
                n1 = len(b["rec"]["data"])
                sub = [n1] if r.random() < .5 else cut(r, n1, 3)
                b["rec"]["subs"], b["_subs"] = sub, [b"\0" * x for x in sub]
            items.append((bs, [plan(r)]))
    judge(c, items, "delta at every distance")
    # filters on filters, over every kind of coder
    items = []
    for _ in range(c.q(60, 600)):
        bs = []
        for _ in range(5):
            n = r.choice([1, 2, 3, 4, 5, 8, 17, 100, 1000, 4097])
            ks = [r.choice(list(LETTERS)) for _ in range(r.choice([1, 2, 2, 3]))]
            fs = [Coder(k, dist=r.randrange(1, 257)) if k == "delta" else Coder(k) for k in ks]
            rest = r.choice([[], [Coder("lzma2")], [Coder("lzma", lc=0, lp=2, pb=0)], [Coder("bzip2")], [Coder("zstd")], [Coder("copy"), Coder("lzma2")], [cipher(r)], [Coder("copy"), cipher(r)],
                              [Coder("lzma2"), cipher(r)]])
            m = len(fs) + len(rest)
            bs.append(folder(fs, rest, stream(r, ks[-1], n, [n, 4096]), cut(r, n, r.choice([1, 2, 4])), r.sample(range(m), m)))
        items.append((bs, [plan(r), plan(r)]))
    judge(c, items, "filters on filters")
    # streams through several buffers
    items = []
    for k in LETTERS:
        for _ in range(c.q(2, 10)):
            n = r.choice([20000, 30011]) if c.thorough else r.choice([16390, 20001])
            d = stream(r, k, n, [4096 * i for i in range(1, 9)])
            f = one_filter(k, r.choice([1, 4, 256]))
            items.append(([folder([f], r.choice([[], [Coder("lzma2")]]), d, cut(r, n, r.choice([1, 4])))], [plan(r), plan(r)]))
    judge(c, items, "longer streams")
    # beyond 2 and 4 GiB
    items = []
    G2, G4 = 1 << 31, 1 << 32
    for k in BRANCH:
        for _ in range(c.q(1, 3)):
            places = [r.randrange(0, 4000), r.randrange(1 << 16, 1 << 30), (1 << 30) - r.randrange(100), G2 - 4096 + r.randrange(100), G2 - r.randrange(8, 72), G2 + 4096 * r.randrange(1, 90) - 40]
            if c.thorough or k in ("x86", "armt"):
                places += [G2 + (1 << 30) + r.randrange(4000), G4 - (1 << 24) - r.randrange(8, 72), G4 - 4096 + r.randrange(100), G4 - r.randrange(8, 72), G4 + 4096 * r.randrange(1, 90) - 40]
            if c.thorough:
                places += [G4 + G2 - 40, G4 + G2 + 1000 * r.randrange(1, 100)]
            items.append(far_item(r, k, places, r.randrange(100000)))
    far(c, items, "beyond 2 and 4 GiB")
