"""C06: damaged archives."""
import sess, p_session, p_foreign, ref7z
from p_session import jcopy, pw_of, STACKS
from p_iterate import multi
from lib import l32

MC = """SPECIFICATION Spec
CONSTANTS
  Lens <- %s
  MaxHits = %d
  Emit = TRUE
INVARIANTS NeverWrong NoFalseError
CHECK_DEADLOCK FALSE
"""


def outs(r, single=False):
    """results of a read or of a sweep -> outcomes"""
    l = r["sweep"] if "sweep" in r else [{"at": r.get("_at", []), "read": r}]
    o = []
    for x in l:
        q = x["read"]
        b = q.get("list")
        o.append({"at": str(x["at"]), "open": q.get("open", "?"), "dig": b if isinstance(b, str) else "", "list": b if isinstance(b, list) else [],
                  "end": q.get("end", ""), "visits": [dict({"h": "", "crc": [0, 0]}, **{k: v for k, v in y.items() if k in ("i", "st", "rel", "n", "crc")}) for y in q.get("visits", [])]})
    return o


def flat(reads):
    o = []
    for r in reads:
        o += outs(r)
    return o


def records(c, scs, rs, rule):
    recs = []
    for s, q in zip(scs, rs):
        died = q.get("died", q.get("panic", "")) or ""
        rd = q.get("reads", [])
        base = ""
        if rule == "same" and not died:
            b = rd[0] if rd else {}
            if b.get("open") != "ok" or b.get("end") != "ok" or not isinstance(b.get("list"), str):
                died = "the undamaged archive cannot be read"
            else:
                base = b["list"]
            rd = rd[1:]
        n = len(s["contents"]) if "contents" in s else sum(len(o["es"]) if o["op"] == "solid" else 1 for o in s["ops"] if o["op"] in ("file", "solid"))
        recs.append({"died": died, "rule": rule, "base": base, "crcs": [[0, 0]] * n, "outs": [] if died else flat(rd)})
    return recs


def sweeps(length, r, c, fix=False, lo=0, hi=None):
    hi = length if hi is None else hi
    n = hi - lo
    step = max(1, n // c.q(500, 3000))
    f = {"from": lo + r.randrange(step), "to": hi, "step": step}
    out = [dict(f, kind="xor", vals=[1 << r.randrange(8), r.choice([0x80, 0xff, 0x7f])]), dict(f, kind="set", vals=[0, r.randrange(256)]),
           dict(f, kind="trunc", step=max(1, step * 2)), dict(f, kind="delete", step=max(1, step * 2)), dict(f, kind="swap", step=max(1, step * 2))]
    if fix:
        for x in out:
            x["fixcrc"] = True
    return out


def apply(hits, total, n, r):
    """damages of the model -> changes of a file of n bytes"""
    m = []
    for h in hits:
        lo = (h["i"] - 1) * n // total
        o = min(n - 1, lo + r.randrange(max(1, n // total)))
        k = h["k"]
        w = r.choice([1, 1, 2, 5, 16])
        if k == "change":
            m.append({"xor": [o, r.randrange(1, 256)]} if r.random() < .7 else {"splice": [o, w, bytes(r.getrandbits(8) for _ in range(w)).hex()]})
        elif k == "remove":
            m.append({"splice": [o, w, ""]})
        elif k == "insert":
            m.append({"splice": [o, 0, bytes(r.getrandbits(8) for _ in range(w)).hex()]})
        elif k == "swap":
            m.append({"splice": [o, 2, bytes([r.getrandbits(8), r.getrandbits(8)]).hex()]})
        else:
            m.append({"trunc": o})
    return m


def c06(c):
    c.rules.append("distinct archives; every damage is an evaluation of its own inside of them (coverage.damages)")
    b = p_session.Build(c)
    r = c.rng
    damages = 0
    # what damages there are to combine
    hs = c.model("one or two damages", "MC_Damage", MC % ("L232", c.q(1, 2)))
    hs += c.model("two damages of a short block", "MC_Damage", MC % ("L22", 2))
    hs = [x for _, x in sorted({str(x): x for x in hs}.items())]
    # archives of the writer: sweeps over all of the file
    arcs = []
    for st in STACKS[:c.q(12, 12)]:
        for k in range(c.q(3, 8)):
            ops = multi(b, r, st, r.choice([1, 2, 3]))
            for o in ops:
                for x in (o["es"] if o["op"] == "solid" else [o]):
                    if isinstance(x.get("data"), dict):
                        x["data"]["len"] = min(x["data"]["len"], 1500)
            if not any(isinstance(x.get("data"), dict) for o in ops for x in (o["es"] if o["op"] == "solid" else [o])):
                ops.append(dict(b.one("data", size=60), op="file"))
            arcs.append({"kind": "w", "sink": {}, "methods": st, "ops": ops + [{"op": "finish"}], "cpu": 120, "hdr_enc": r.random() < .7})
    lens = [q.get("len", 0) for q in c.run([dict(jcopy(a), reads=[]) for a in arcs], "lengths")]
    scs = []
    for a, n in zip(arcs, lens):
        if not n:
            continue                 # it did not get that far; C01 and C18 say what is wrong
        pw = pw_of(a["methods"])
        rd = {"mode": "each", "brief": True}
        if pw is not None:
            rd["pw"] = pw
        reads = [jcopy(rd)]
        for s in sweeps(n, r, c):
            reads.append(dict(rd, sweep=s))
        # the beginning and the end of the file, byte by byte
        for lo, hi in ((0, 40), (max(0, n - 60), n)):
            reads.append(dict(rd, sweep={"kind": "xor", "from": lo, "to": hi, "vals": [1 << k for k in range(8)] + [255]}))
            reads.append(dict(rd, sweep={"kind": "trunc", "from": lo, "to": hi}))
        for h in r.sample(hs, min(len(hs), c.q(60, 400))):
            reads.append(dict(rd, mutate=apply(h, 7 if any(x["i"] > 4 for x in h) else 4, n, r)))
        scs.append(dict(a, reads=reads))
    rs = c.run(scs, "damaged archives")
    damages += sum(x.get("total", 1) for q in rs for x in q.get("reads", []))
    c.judge("J_Damage", records(c, scs, rs, "same"), scs, "damaged archives", rs)
    # archives of other writers, with the checksums of the header made right again: what is listed must be what is delivered
    tab = p_foreign.table(c)
    ss = p_foreign.model(c, tab, "random archives", 3, 3, "AllBodies", "OptSeq", sim=c.q(160, 1500), depth=90)
    scs = []
    for s in ss:
        aes = any(tab[f - 1]["_aes"] for f in s["fo"])
        by = p_foreign.assemble(s, tab, r)
        if len(by) > 6000:
            continue
        cs = p_foreign.contents(s, tab)
        hl = len(s["bytes"])
        rd = {"mode": "each", "blocks": False}
        if aes:
            rd["pw"] = p_foreign.PW
        reads = []
        h0 = len(by) - hl
        st = max(1, hl // c.q(60, 400))
        reads.append(dict(rd, sweep={"kind": "xor", "from": h0 + r.randrange(st), "to": len(by), "step": st, "vals": [1 << r.randrange(8), r.randrange(1, 256)], "fixcrc": True}))
        reads.append(dict(rd, sweep={"kind": "set", "from": h0 + r.randrange(st), "to": len(by), "step": st, "vals": [r.choice([0, 1, 255, r.randrange(256)])], "fixcrc": True}))
        d = max(1, h0 // c.q(30, 200))
        reads.append(dict(rd, sweep={"kind": "xor", "from": 32, "to": h0, "step": d, "vals": [r.randrange(1, 256)]}))
        reads.append(dict(rd, sweep={"kind": "trunc", "from": 32, "to": len(by), "step": max(1, len(by) // 30)}))
        scs.append({"kind": "r", "bytes": by.hex(), "contents": [x.hex() for x in cs], "reads": reads, "cpu": 120, "memcap": 1 << 34})
    rs = c.run(scs, "consistent headers")
    damages += sum(x.get("total", 1) for q in rs for x in q.get("reads", []))
    c.judge("J_Damage", records(c, scs, rs, "list"), scs, "consistent headers", rs)
    # lengths and checksums that do not fit the content (the rest of the archive being right)
    scs = []
    for s in ss[:c.q(160, 1500)]:
        cs = p_foreign.contents(s, tab)
        if not any(cs):
            continue
        aes = any(tab[f - 1]["_aes"] for f in s["fo"])
        for what in ("crc", "short", "long"):
            t = [dict(x) for x in tab]
            # shortened packed data of a body
            f = r.choice(s["fo"])
            pk = list(tab[f - 1]["_packed"])
            j = r.randrange(len(pk))
            if what == "crc":
                if not pk[j]:
                    continue
                o = r.randrange(len(pk[j]))
                pk[j] = pk[j][:o] + bytes([pk[j][o] ^ r.randrange(1, 256)]) + pk[j][o + 1:]
            elif what == "short":
                pk[j] = pk[j][:-1] + bytes([0]) if pk[j] else pk[j]
            else:
                o = r.randrange(len(pk[j]) + 1)
                pk[j] = (pk[j][:o] + bytes([r.getrandbits(8)]) + pk[j][o:])[:len(pk[j])]
            t[f - 1]["_packed"] = pk
            by = p_foreign.assemble(s, t, r)
            rd = {"mode": "each", "blocks": False}
            if aes:
                rd["pw"] = p_foreign.PW
            if r.random() < .5:
                rd["buf"] = r.choice([[1], [7, 3], [64]])
            scs.append({"kind": "r", "bytes": by.hex(), "contents": [x.hex() for x in cs], "reads": [rd], "memcap": 1 << 34})
    rs = c.run(scs, "substituted streams")
    damages += len(scs)
    c.judge("J_Damage", records(c, scs, rs, "list"), scs, "substituted streams", rs)
    c.notes["damages"] = damages
