"""C07: splits of reads and writes."""
import sess, p_session, p_foreign
from p_session import jcopy, pw_of, STACKS
from p_iterate import multi

MC = """SPECIFICATION Spec
CONSTANTS
  Len0 = %d
  Unit = %d
  Back = %d
  MaxRead = %d
  MaxAsk = %d
  Emit = TRUE
INVARIANTS InOrder Complete Conserved
PROPERTIES EndsAlways
CHECK_DEADLOCK FALSE
"""


def splits(c):
    s = c.model("cipher and filter", "MC_Split", MC % (4, 2, 1, 3, 2))
    s += c.model("filter with a long tail", "MC_Split", MC % (4, 1, 2, 2, 2))
    if c.thorough:
        s += c.model("longer", "MC_Split", MC % (6, 2, 2, 3, 2))
    return [x for _, x in sorted({str(x): x for x in s}.items())]


def stretch(p, r):
    """small splits of the model -> splits around the sizes the code's buffers have"""
    q = r.random()
    if q < .35:
        return p
    if q < .7:
        u = r.choice([5, 13, 15, 16, 17, 31, 127, 511, 512, 513])
        return [max(1, x * u + r.choice([-1, 0, 0, 1])) for x in p]
    return [max(1, x * r.choice([1000, 4095, 4096, 4097, 8192, 65535, 65536])) for x in p]


def c07(c):
    c.rules.append("distinct archives and splits of source reads, consumer buffers, data-source reads and sink writes")
    b = p_session.Build(c)
    r = c.rng
    sp = splits(c)

    def plan(pw):
        p = {"mode": "each", "blocks": False}
        if pw is not None:
            p["pw"] = pw
        return p

    def split(p):
        p = dict(p)
        x = r.choice(sp)
        k = r.randrange(3)
        if k != 1:
            p["src"] = {"short": stretch(x["src"], r)}
        if k != 0:
            p["buf"] = stretch(x["buf"], r)
        return p
    # reading archives of other writers: every body, valid and damaged
    tab = p_foreign.table(c, mid=True)
    ss = p_foreign.model(c, tab, "one folder, files, defaults", 1, 0, "AllBodies", "NoOpts")
    ss += p_foreign.model(c, tab, "random archives", 3, 2, "AllBodies", "OptSeq", sim=c.q(700, 2000), depth=90)
    for dmg in (False, True):
        scs = []
        for s in ss * c.q(2, 6):
            aes = any(tab[f - 1]["_aes"] for f in s["fo"])
            C = p_foreign.bodies.Coder
            by = p_foreign.assemble(s, tab, r, r.choice([None, [C("lzma")], [C("copy")]]) if s["bytes"] else None)
            pl = plan(p_foreign.PW if aes else None)
            n = len(by)
            mut = None
            if dmg:
                if n < 60:
                    continue
                o = r.randrange(32, n)
                if r.random() < .4:          # the last bytes of a packed stream
                    ps = [len(d) for f in s["fo"] for d in tab[f - 1]["_packed"]]
                    o = min(n - 1, max(32, 32 + s["pos"] + sum(ps[:r.randrange(len(ps)) + 1]) - r.randrange(1, 12))) if ps else o
                mut = [r.choice([{"xor": [o, r.randrange(1, 256)]}, {"trunc": o}, {"xor": [r.randrange(32, n), 1 << r.randrange(8)]}])]
                pl["mutate"] = mut
            rds = [pl] + [split(pl) for _ in range(c.q(5, 8))]
            scs.append({"kind": "r", "bytes": by.hex(), "contents": [x.hex() for x in p_foreign.contents(s, tab)], "reads": rds, "_h": s["bytes"], "memcap": 1 << 34})
        g = "damaged archives" if dmg else "archives of other writers"
        rs = c.run([{k: v for k, v in o.items() if not k.startswith("_")} for o in scs], g)
        recs = [{"kind": "r", "whole": not dmg, "died": q.get("died", q.get("panic", "")) or "", "bytes": o["_h"], "srcs": q.get("srcs", []),
                 "reads": [sess.read(x) for x in q.get("reads", [])]} for o, q in zip(scs, rs)]
        c.judge("J_Split", recs, scs, g, rs)
    # writing: the source's reads and the sink's writes split, then the reads
    scs = []
    for k in range(c.q(500, 5000)):
        st = r.choice(STACKS)
        ops = multi(b, r, st, r.choice([1, 2, 3]))
        if r.random() < .2:
            ops.append({"op": "file", "e": {"name": b.name()}, "data": {"gen": r.choice(p_session.GENS), "len": r.choice([65536, 70000, 140000, 300000]), "seed": k}})
        x = r.choice(sp)
        sc = {"kind": "w", "sink": {}, "methods": st, "ops": ops + [{"op": "finish"}]}
        if r.random() < .7:
            sc["chunks"] = stretch(x["src"], r)
        if r.random() < .7:
            sc["sink"]["short"] = stretch(r.choice(sp)["src"], r)
        if r.random() < .5:
            for o in ops:
                for e in (o["es"] if o["op"] == "solid" else [o]):
                    if "data" in e:
                        b.times(e["e"])
        sc["reads"] = [split(plan(pw_of(st))) for _ in range(2)]
        scs.append(sc)
    scs = [jcopy(s) for s in scs]
    rs = c.run(scs, "writing")
    recs = [dict(sess.record("C07", s, q), kind="w") for s, q in zip(scs, rs)]
    c.judge("J_Split", recs, scs, "writing", rs)
