"""C13: the four-stream branch converter."""
import struct
import bodies, ref7z
from far import FILL, Far
from bodies import Coder, rnd, text, x86
from lib import l64
from p_crypt import header_of
from p_filters import cut, far, flat, plan
from p_foreign import start_header

CFG = """SPECIFICATION %s
CONSTANTS
 Letters = {%s}
 Targets = {%s}
 MaxTok = %d
 MaxOut = %d
 Fills = {%s}
 Asks = {%s}
 Emit = %s
INVARIANTS Inverts Whole InOrder NoDeadWait
%sCHECK_DEADLOCK FALSE
"""
PW = "bcj2 p\u00e4ss"


def cfg(letters, targets, tok, out, fills, asks, emit, live=False):
    n = lambda l: ",".join(map(str, l))
    return CFG % ("Fair" if live else "Spec", n(letters), n(targets), tok, out, n(fills), n(asks), "TRUE" if emit else "FALSE", "PROPERTIES Ends\n" if live else "")


def streams(s):
    return [bytes(s["s"][k]) for k in "mcjr"]


def folder(st, n, subs, chains=None, order=None, packs=None, whole=True):
    b = bodies.bcj2_join(st, n, chains or [[], [], [], []], [b"\0" * k for k in subs], ref7z.pw_bytes(PW), order, packs)
    b["rec"] = {"s": {k: list(d) for k, d in zip("mcjr", st)}, "n": n, "subs": list(subs), "whole": whole}
    return b


def archive(bs, crc=None):
    n = sum(len(b["_subs"]) for b in bs)
    hdr, packs = header_of(bs, ["e%d" % i for i in range(n)], crc=False)
    pack = b"".join(packs)
    return start_header(len(pack), len(hdr), ref7z.crc(hdr)) + pack + hdr


def judge(c, items, group):
    scs = []
    for bs, rd in items:
        if any(b["_aes"] for b in bs):
            rd = [dict(x, pw=PW) for x in rd]
        scs.append({"kind": "r", "bytes": archive(bs).hex(), "contents": [], "reads": rd, "cpu": 60})
    rs = c.run(scs, group)
    recs = []
    for (bs, rd), q in zip(items, rs):
        flat(q)
        recs.append({"died": q.get("died", q.get("panic", "")) or "", "folders": [b["rec"] for b in bs],
                     "reads": [{"open": x.get("open", "?"), "end": x.get("end", "?"), "visits": [{"i": v["i"], "st": v["st"], "d": v.get("d") or []} for v in x.get("visits", [])]}
                               for x in q.get("reads", [])]})
    c.judge("J_Bcj2", recs, scs, group, rs)


def split(r, d, always=None):
    return bodies.bcj2_split(r, d, always)


def code(r, n):
    """bytes full of branches"""
    o = b""
    while len(o) < n:
        k = r.randrange(8)
        if k == 0:
            o += bytes([0xe8, r.randrange(256), r.randrange(256), r.choice([0, 255, 1]), r.choice([0, 255])])
        elif k == 1:
            o += bytes([0xe9]) + rnd(r, 3) + bytes([r.choice([0, 255, 0x0f, 0xe8])])
        elif k == 2:
            o += bytes([0x0f, 0x80 | r.randrange(16)]) + rnd(r, 3) + bytes([r.choice([0, 255, 0x0f])])
        elif k == 3:
            o += bytes([r.choice([0xe8, 0xe9, 0x0f, 0x8f, 0x80, 0x0f])]) * r.randrange(1, 4)
        else:
            o += rnd(r, r.randrange(1, 4))
    return o[:n]


CHAINS = [[], ["copy"], ["lzma"], ["lzma2"], ["lzma2", "copy"], ["delta"], ["bzip2"], ["zstd"], ["aes"], ["lzma", "aes"], ["lzma2", "aes"], ["x86", "lzma2"]]


def chain(r, ks=None):
    out = []
    for k in (r.choice(CHAINS) if ks is None else ks):
        out.append(Coder("delta", dist=r.randrange(1, 9)) if k == "delta" else Coder("aes", salt=rnd(r, r.choice([0, 8, 16])), iv=rnd(r, r.choice([0, 7, 16])), power=r.randrange(4)) if k == "aes" else Coder(k))
    return out


def graph(r, st, n, subs, ks=None, whole=True):
    """the streams, each through coders of its own, with everything in any order"""
    ch = [chain(r, ks[k] if ks else None) for k in range(4)]
    # coders that need a byte to work on
    ch = [[c for c in x if d or c.kind in ("copy", "lzma", "lzma2", "aes")] for x, d in zip(ch, st)]
    m = 1 + sum(map(len, ch))
    return folder(st, n, subs, ch, r.sample(range(m), m), r.sample(range(4), 4), whole)


def parts(r, n):
    return [n] if r.random() < .5 or n < 2 else cut(r, n, r.choice([2, 3, 5]))


def c13(c):
    c.rules.append("distinct sets of four streams, coders, orders and splits")
    r = c.rng
    # everything in small pieces, every schedule: liveness and safety of the reader
    c.model("reader, every schedule", "MC_Bcj2", cfg([232, 15, 128, 7], [0, 9], 3, 12, [1, 2, 5], [1, 3, 8], False, live=True))
    if c.thorough:
        c.model("reader, longer streams", "MC_Bcj2", cfg([232, 233, 15, 128], [0, 255], 4, 16, [1, 3], [1, 4], False, live=True))
    # every stream of a few tokens
    ss = c.model("streams", "MC_Bcj2", cfg([232, 233, 15, 128, 7], [0, 65535], c.q(4, 5), 30, [], [], True))
    ss = [s for _, s in sorted({str(s): s for s in ss}.items())]
    if len(ss) > c.q(4000, 60000):
        ss = r.sample(ss, c.q(4000, 60000))
    items = []
    for x in range(0, len(ss), 200):
        bs = [folder(streams(s), s["n"], parts(r, s["n"]), order=None, packs=r.sample(range(4), 4)) for s in ss[x:x + 200]]
        items.append((bs, [plan(r)]))
    judge(c, items, "every short stream")
    # schedules of the model
    ss = c.model("schedules", "MC_Bcj2", cfg([232, 233, 15, 143, 7], [0, 255, 3855], 7, 40, [1, 2, 3, 5], [1, 2, 3, 4, 7], True), args=["-simulate", "num=%d" % c.q(1500, 12000), "-depth", "140", "-seed", str(c.seed)], workers=1)
    items = []
    for _, s in sorted({str(s): s for s in ss}.items()):
        items.append(([folder(streams(s), s["n"], [s["n"]] if r.random() < .7 else parts(r, s["n"]))],
                      [{"mode": "each", "brief": True, "data": True, "src": {"short": s["fills"] or [1]}, "buf": s["asks"] or [1]}]))
    judge(c, items, "schedules of the reader")
    # coders under the inputs
    items = []
    for _ in range(c.q(120, 1500)):
        bs = []
        for _ in range(r.choice([1, 2, 3])):
            n = r.choice([1, 2, 4, 5, 6, 9, 40, 300, 1000, 5000])
            d = r.choice([code, code, x86, rnd, text])(r, n)
            bs.append(graph(r, split(r, d, r.choice([None, None, True, False])), n, parts(r, n)))
        items.append((bs, [plan(r), plan(r)]))
    judge(c, items, "coder graphs")
    # streams that end early
    items = []
    for _ in range(c.q(150, 1500)):
        n = r.choice([5, 6, 9, 40, 300])
        st = split(r, code(r, n), r.choice([None, True]))
        k = r.randrange(3)
        if not st[k]:
            k = 0
        st[k] = st[k][:len(st[k]) - r.choice([1, 1, 2, 3, 4, 5])] if r.random() < .7 else st[k][:r.randrange(len(st[k]))]

        ks = None if r.random() < .5 else [[], [], [], []]
        bs = [graph(r, st, n, parts(r, n), ks, whole=False)]
        items.append((bs, [plan(r), plan(r)]))
    judge(c, items, "streams that end early")
    # any selector bytes and targets at all
    items = []
    for _ in range(c.q(300, 4000)):
        bs = []
        for _ in range(4):
            m = code(r, r.randrange(1, 40))
            st = [m, rnd(r, 4 * r.randrange(8)), rnd(r, 4 * r.randrange(8)), b"\0" + rnd(r, r.randrange(4, 16))]
            bs.append(folder(st, r.randrange(1, len(m) + 20), [1], whole=False))
            n = bs[-1]["rec"]["n"]
            sub = parts(r, n)
            bs[-1]["rec"]["subs"], bs[-1]["_subs"] = sub, [b"\0" * x for x in sub]
        items += [([b], [plan(r)]) for b in bs]
    judge(c, items, "arbitrary streams")
    # longer than the buffers of the code
    items = []
    for n in c.q([262139, 262150], [262139, 262143, 262144, 262150, 300000, 524293]):
        d = bytearray(rnd(r, n))
        for k in range(0, n - 10, 977):
            d[k:k + 5] = code(r, 5)
        for e in (262144, 524288):
            for w in range(-20, 12, 6):
                if 0 < e + w < n - 5:
                    d[e + w:e + w + 5] = bytes([0xe8 + (w & 1)]) + rnd(r, 3) + bytes([r.choice([0, 255])])
        items.append(([graph(r, split(r, bytes(d)), n, cut(r, n, 3), r.choice([[[], [], [], []], [["lzma2"], ["lzma2"], ["lzma"], []]]))], [plan(r, "each", False)]))
    if c.thorough:
        d = b"".join(bytes([0xe8]) + struct.pack("<I", (k * 7919) & 0xffffffff) for k in range(66000))
        items.append(([folder(split(r, d, True), len(d), [len(d)])], [plan(r, "each", False)]))
    judge(c, items, "longer than the buffers")
    # beyond 2 and 4 GiB
    items = []
    for at in [(1 << 31) - 40, (1 << 32) - 40] + c.q([], [(1 << 32) + 1000, (1 << 32) + (1 << 31) - 40]):
        d = bytes([FILL]) * 8 + code(r, 200) + bytes([FILL]) * 8
        st = bodies.bcj2_split(r, d, r.choice([None, True]), at)
        n = at + len(d) + 3000
        b = bodies.bcj2_join(st, n, [[], [], [], []], [b""])
        main = Far((at, FILL), st[0], (3000, FILL))
        b["_packed"][0], b["_subs"] = main, [Far((n, FILL))]
        items.append(("bcj2", b, [(at, {"s": {k: list(x) for k, x in zip("mcjr", st)}, "n": len(d)}, d)], n, {"buf": r.choice([[1 << 16], [100000, 1]])}))
    far(c, items, "beyond 2 and 4 GiB")
