"""C08, C20: iteration with visitors; blocks on their own, in any order and in parallel."""
import sess, p_session, p_foreign
from p_session import jcopy, pw_of, STACKS

MC = """SPECIFICATION Spec
CONSTANTS
  MaxEnt = %d
  MaxBlk = %d
  MaxBlkLen = %d
  Specials = %d
  Emit = TRUE
INVARIANTS Once Ordered StopEnds EndsRight NotStuck
CHECK_DEADLOCK FALSE
"""
STOPS = {"go": None, "stop": "stop", "err": "err", "ignore": "ignore"}


def program(prog):
    """list of {read, ret} -> the harness's visitor program"""
    return {str(i): {k: v for k, v in (("read", a["read"]), ("ret", STOPS[a["ret"]])) if v is not None} for i, a in enumerate(prog)}


def plan(r, prog, mode, nblk, pw, rng):
    p = {"mode": mode, "visit": program(prog)}
    if pw is not None:
        p["pw"] = pw
    if mode in ("blocks", "shared", "par"):
        o = list(range(nblk))
        rng.shuffle(o)
        if rng.random() < .3:
            o += [rng.choice(o)] if o else []
        p["order"] = o
    if rng.random() < .3:
        p["src"] = {"short": rng.choice([[1], [3, 1, 50], [7], [13, 4096]])}
    if rng.random() < .4:
        p["buf"] = rng.choice([[1], [5, 1], [64], [2, 3]])
    return sess.via(rng, p)


def rec_read(p, x, prog):
    o = sess.read(x)
    o["mode"] = p["mode"]
    o["prog"] = prog
    o["per"] = [{"b": q.get("b", -1), "end": q["end"], "visits": q.get("visits", [])} for q in x.get("per_block", [])]
    o["order"] = p.get("order", [])
    o["full"] = True
    o["visits2"] = x.get("visits2", [])
    o["end2"] = x.get("end2", "")
    return o


def w_records(scs, rs, progs):
    out = []
    for s, q, pr in zip(scs, rs, progs):
        d = sess.record("", s, q)
        d["foreign"] = False
        d["bytes"], d["srcs"] = [], []
        d["reads"] = [rec_read(p, x, pr[k]) for k, (p, x) in enumerate(zip(s["reads"], q.get("reads", [])))]
        out.append(d)
    return out


def judge_w(c, scs, progs, group):
    for k in range(0, len(scs), 5000):
        ss = [jcopy(s) for s in scs[k:k + 5000]]
        rs = c.run(ss, group)
        c.judge("J_Iterate", w_records(ss, rs, progs[k:k + 5000]), ss, group, rs)


def concrete(b, sc, r, stack):
    """abstract shape -> writer operations, sizes per entry, number of blocks"""
    ops, sizes, nb = [], [], 0
    for o in sc["ops"]:
        if o["solid"]:
            es = []
            for k in o["ks"]:
                x = b.one(k, size=r.choice([3, 3, 5, 40, 300]) if k == "data" else None)
                x["data"] = x.get("data", "")
                es.append(x)
                sizes.append(x["data"]["len"] if isinstance(x["data"], dict) else 0)
            ops.append({"op": "solid", "es": es})
            nb += 1
        else:
            x = b.one(o["ks"][0], size=r.choice([3, 7, 200]) if o["ks"][0] == "data" else None)
            sizes.append(x["data"]["len"] if isinstance(x.get("data"), dict) else 0)
            nb += "data" in x
            ops.append(dict(x, op="file"))
    return ops, sizes, nb


def scale(prog, sizes, r):
    """the model's 3 bytes -> the real size"""
    out = []
    for a, n in zip(prog, sizes):
        k = a["read"]
        if k == 3:
            k = n
        elif k == 1:
            k = r.choice([1, max(1, n // 2), max(1, n - 1)])
        if k > n:
            k = n
        out.append({"read": k, "ret": a["ret"]})
    return out


STK = [STACKS[0], STACKS[1], STACKS[2], STACKS[4], STACKS[6]]


def c08(c):
    c.rules.append("distinct archives (shape, methods, contents) and visitor programs")
    b = p_session.Build(c)
    r = c.rng
    sc = c.model("shapes with one special action", "MC_Iterate", MC % (3, 1, 3, 1))
    if c.thorough:
        # all of the model, and samples of its behaviours for the code (there are too many to keep)
        c.model("shapes with two special actions", "MC_Iterate", (MC % (3, 2, 3, 2)).replace("Emit = TRUE", "Emit = FALSE"))
        for name, k in (("shapes with two special actions, samples", (3, 2, 3, 2)), ("longer shapes, samples", (4, 2, 4, 1)), ("long shapes, samples", (6, 3, 4, 3))):
            sc += c.model(name, "MC_Iterate", MC % k, args=["-simulate", "num=30000", "-depth", "40", "-seed", str(c.seed)], workers=1)
    sc.sort(key=str)
    seen, u = set(), []
    for s in sc:
        if str(s) not in seen:
            seen.add(str(s))
            u.append(s)
    sc = r.sample(u, min(len(u), c.q(2200, 30000)))
    scs, progs = [], []
    for s in sc:
        st = r.choice(STK)
        ops, sizes, nb = concrete(b, s, r, st)
        pr = scale(s["prog"], sizes, r)
        pw = pw_of(st)
        modes = ["each", r.choice(["each", "each", "blocks", "shared"])]
        scs.append({"kind": "w", "sink": {}, "methods": st, "ops": ops + [{"op": "finish"}], "reads": [plan(r, pr, m, nb, pw, r) for m in modes]})
        progs.append([pr] * 2)
    judge_w(c, scs, progs, "visitor programs")
    # larger blocks, larger entries, several special actions
    scs, progs = [], []
    for k in range(c.q(300, 3000)):
        shape = []
        for _ in range(r.randrange(1, 4)):
            if r.random() < .7:
                shape.append({"solid": True, "ks": [r.choice(["data", "data", "data", "empty", "dir"]) for _ in range(r.randrange(1, 9))]})
            else:
                shape.append({"solid": False, "ks": [r.choice(["data", "empty", "dir"])]})
        st = r.choice(STK)
        ops, sizes, nb = concrete(b, {"ops": shape}, r, st)
        if r.random() < .4:
            for o in ops:
                for x in (o["es"] if o["op"] == "solid" else [o]):
                    if isinstance(x.get("data"), dict) and r.random() < .5:
                        x["data"]["len"] = r.choice([5000, 65536, 70000, 200000])
            sizes = [x["data"]["len"] if isinstance(x.get("data"), dict) else 0 for o in ops for x in (o["es"] if o["op"] == "solid" else [o])]
        pr = []
        for n in sizes:
            q = r.random()
            if q < .6:
                pr.append({"read": -1, "ret": "go"})
            else:
                pr.append({"read": r.choice([-1, 0, n, r.randrange(n + 1), max(0, n - 1)]), "ret": r.choice(["go", "go", "go", "ignore", "ignore", "stop", "err"])})
        pw = pw_of(st)
        ms = ["each", r.choice(["each", "blocks", "shared", "twice"])]
        scs.append({"kind": "w", "sink": {}, "methods": st, "ops": ops + [{"op": "finish"}], "reads": [plan(r, pr, m, nb, pw, r) for m in ms]})
        progs.append([pr] * 2)
    judge_w(c, scs, progs, "larger archives")
    foreign(c, c.q(250, 3000), ["each", "each", "blocks"], "archives of other writers", special=True)
    longer(c, ["each", "blocks"], "beyond 32 bits", special=True)


def longer(c, modes, group, special):
    """archives with offsets and sizes beyond 32 bits"""
    import far
    r = c.rng
    out, progs = [], []
    for f, h, cs, nb in far.archives(r, c.thorough):
        rds, prs = [], []
        for m in modes:
            pr = []
            for x in cs:
                n = len(x)
                pr.append({"read": r.choice([-1, 0, n, r.randrange(n + 1)] if n < 1 << 20 else [-1, 0, 3, 100000]), "ret": r.choice(["go"] * 6 + ["ignore", "ignore", "stop", "err"])}
                          if special and r.random() < .6 else {"read": -1, "ret": "go"})
            p = plan(r, pr, m, nb, None, r)
            p.pop("via", None)
            if sum(map(len, cs)) > 1 << 20:
                p.pop("src", None)
                p.pop("buf", None)
            rds.append(p)
            prs.append(pr)
        out.append({"kind": "r", "cpu": 600, "bytes": f.store(), "contents": [x.store() for x in cs], "reads": rds, "_h": list(h)})
        progs.append(prs)
    judge_r(c, out, progs, group)


def foreign(c, num, modes, group, special):
    r = c.rng
    tab = p_foreign.table(c)
    ss = p_foreign.model(c, tab, "random archives", c.q(4, 6), c.q(4, 8), "AllBodies", "OptSeq", sim=num, depth=90)
    out, progs = [], []
    for s in ss:
        aes = any(tab[f - 1]["_aes"] for f in s["fo"])
        b = p_foreign.assemble(s, tab, r)
        cs = p_foreign.contents(s, tab)
        nb = len(s["fo"])
        rds, prs = [], []
        for m in modes:
            pr = []
            for x in cs:
                n = len(x)
                pr.append({"read": r.choice([-1, -1, 0, n, r.randrange(n + 1)]), "ret": r.choice(["go"] * 6 + ["ignore", "ignore", "stop", "err"])}
                          if special and r.random() < .5 else {"read": -1, "ret": "go"})
            rds.append(plan(r, pr, m, nb, p_foreign.PW if aes else None, r))
            prs.append(pr)
        out.append({"kind": "r", "bytes": b.hex(), "contents": [x.hex() for x in cs], "reads": rds, "_h": s["bytes"]})
        progs.append(prs)
    judge_r(c, out, progs, group)


def judge_r(c, out, progs, group):
    rs = c.run([{k: v for k, v in o.items() if not k.startswith("_")} for o in out], group)
    recs = []
    for o, q, pr in zip(out, rs, progs):
        recs.append({"died": q.get("died", q.get("panic", "")) or "", "foreign": True, "bytes": o["_h"], "srcs": q.get("srcs", []), "ops": [],
                     "reads": [rec_read(p, x, pr[k]) for k, (p, x) in enumerate(zip(o["reads"], q.get("reads", [])))]})
    return c.judge("J_Iterate", recs, out, group, rs)


BLK = """SPECIFICATION Spec
CONSTANTS
  NBlk = %d
  MaxJobs = %d
  Emit = TRUE
INVARIANTS OwnData Partition
CHECK_DEADLOCK FALSE
"""


def multi(b, r, st, nb):
    """an archive of nb blocks, with entries without data in between"""
    ops, n = [], 0
    while n < nb:
        if r.random() < .3:
            ops.append(dict(b.one(r.choice(["none", "dir"])), op="file"))
        if r.random() < .5:
            es = [dict(b.one(r.choice(["data", "data", "empty", "none"]), size=r.choice([1, 5, 300, 3000]))) for _ in range(r.randrange(1, 5))]
            ops.append({"op": "solid", "es": [dict(x, data=x.get("data", "")) for x in es]})
        else:
            ops.append(dict(b.one("data", size=r.choice([1, 40, 2000, 70000] if r.random() < .3 else [1, 40, 200])), op="file"))
        n += 1
    return ops


def count(ops):
    return sum(len(o["es"]) if o["op"] == "solid" else 1 for o in ops)


def c20(c):
    c.rules.append("distinct archives, orders of their blocks and ways of decoding them")
    b = p_session.Build(c)
    r = c.rng
    for nb, mj in c.q([(3, 4), (4, 3)], [(3, 5), (4, 4), (5, 4)]):
        js = c.model("orders of %d blocks" % nb, "MC_Blocks", BLK % (nb, mj))
        js.sort(key=str)
        u = {str((j["jobs"], j["common"])): j for j in js}
        js = list(u.values())
        scs, progs = [], []
        for k in range(0, len(js), 4):
            st = r.choice(STK)
            ops = multi(b, r, st, nb)
            n = count(ops)
            pr = [{"read": -1, "ret": "go"}] * n
            rds = []
            for j in js[k:k + 4]:
                p = plan(r, pr, "shared" if j["common"] else r.choice(["par", "par", "blocks"]), nb, pw_of(st), r)
                p["order"] = [x - 1 for x in j["jobs"]]
                rds.append(p)
            rds.append(plan(r, pr, "each", nb, pw_of(st), r))
            scs.append({"kind": "w", "sink": {}, "methods": st, "ops": ops + [{"op": "finish"}], "reads": rds})
            progs.append([pr] * len(rds))
        judge_w(c, scs, progs, "orders of %d blocks" % nb)
    # many blocks at once; a part of the decoders leaves entries or stops
    scs, progs = [], []
    for k in range(c.q(150, 1500)):
        st = r.choice(STK)
        nb = r.choice([2, 5, 9, 17, 24])
        ops = multi(b, r, st, nb)
        n = count(ops)
        prs = []
        rds = []
        for m in ("par", r.choice(["par", "blocks", "shared"])):
            pr = [{"read": -1, "ret": "go"} if r.random() < .8 else {"read": r.choice([0, -1]), "ret": r.choice(["go", "stop", "err", "ignore"])} for _ in range(n)]
            p = plan(r, pr, m, nb, pw_of(st), r)
            rds.append(p)
            prs.append(pr)
        scs.append({"kind": "w", "sink": {}, "methods": st, "ops": ops + [{"op": "finish"}], "reads": rds})
        progs.append(prs)
    judge_w(c, scs, progs, "many blocks")
    foreign(c, c.q(250, 3000), ["par", "blocks", "shared"], "archives of other writers", special=False)
    longer(c, ["shared", "par"], "beyond 32 bits", special=False)
