"""C03: files the writer finishes, parsed by the specification."""
import sess, ref7z, p_session
from sess import lz1, lz2, aes
from lib import l64, l32
from p_session import Build, sessions, jcopy, pw_of, STACKS, GENS


def facts(b, st, pwb):
    out = []
    k = 0
    for fi, f in enumerate(st["folders"]):
        outs = ref7z.folder_outputs(b, st, fi, pwb)
        d = outs[f["main"]]
        subs, p = [], 0
        while k < len(st["subs"]) and st["subs"][k][0] == fi:
            z = st["subs"][k][1]
            s = d[p:p + z] if z >= 0 else b""
            subs.append({"n": l64(len(s)), "crc": l32(ref7z.crc(s))})
            p += z
            k += 1
        out.append({"outs": [l64(len(o)) for o in outs], "n": l64(len(d)), "crc": l32(ref7z.crc(d)), "subs": subs})
    return out


def container(b, pwb):
    r = {"plain": [], "efacts": [], "facts": [], "pyerr": ""}
    try:
        plain, isenc, raw, est = ref7z.header(b, pwb)
        if isenc:
            r["plain"] = list(plain)
            r["efacts"] = facts(b, est, pwb)
        st = ref7z.main_streams(plain) if plain else None
        if st:
            r["facts"] = facts(b, st, pwb)
    except ref7z.Bad as e:
        r["pyerr"] = str(e)
    except Exception as e:
        r["pyerr"] = "%s %s" % (type(e).__name__, e)
    return r


def run(c, scs, group):
    scs = [jcopy(s) for s in scs]
    for s in scs:
        s["keep"] = True
        s["reads"] = []
        if c.rng.random() < .3 and not s["sink"]:
            s["sink"] = {"short": c.rng.choice([[1], [3, 1], [16], [7, 64], [100], [5, 4096]])}
    rs = c.run(scs, group)
    recs = []
    for s, r in zip(scs, rs):
        rec = sess.record(c.pid, s, r)
        b = bytes.fromhex(r.get("bytes", "")) if r.get("finished") else b""
        r.pop("bytes", None)
        rec["bytes"] = list(b)
        pws = [m["pw"] for ms in [s.get("methods") or []] + [o["methods"] for o in s["ops"] if o["op"] == "setm"] for m in ms if m["m"] == "AES" and "pw" in m]
        rec.update(container(b, ref7z.pw_bytes(pws[0]) if pws else b"") if b else {"plain": [], "efacts": [], "facts": [], "pyerr": ""})
        recs.append(rec)
    return c.judge("J_Container", recs, scs, group, rs)


def c03(c):
    c.rules.append("distinct sessions; each finished file parsed byte by byte by the specification's grammar")
    b = Build(c)
    r = c.rng
    ss = sessions(c, "Plain", 2, sim=c.q(150, 2000), simlen=c.q(6, 12))
    if c.thorough:
        ss += sessions(c, "Plain", 3)
    run(c, [b.scenario(s, meta=True, hdr=r.choice([None, None, False])) for s in ss], "sessions")
    # every method stack, contents from empty to several chunks
    scs = []
    for st in STACKS + [[lz2(dict=d)] for d in (4097, 6143, 6144, 65535, 100000, 1 << 20, (1 << 20) + 1)] + [[lz1(dict=d)] for d in (4096, 5000, 65537)]:
        for n in [0, 1, 5, 300, 1500] + c.q([], [5000, 20000]):
            for solid in (False, True):
                d = {"gen": r.choice(GENS), "len": n, "seed": r.randrange(1 << 30)}
                if solid:
                    ops = [{"op": "solid", "es": [b.one("data", True), {"e": {"name": b.name()}, "data": d}, b.one("empty"), b.one("data")]}]
                else:
                    ops = [{"op": "file", "e": {"name": b.name()}, "data": d}] * 1 + [dict(b.one("data"), op="file")]
                scs.append({"kind": "w", "sink": {}, "methods": st, "hdr_enc": r.random() < .7, "ops": ops + [{"op": "finish"}], "chunks": r.choice([[1000], [7]])})
    run(c, scs, "methods")
    run(c, p_session.far(c), "far matches")
    # numbers of entries around the sizes of the variable-length numbers and of the bit vectors
    scs = []
    for n in [1, 7, 8, 9, 15, 16, 17, 127, 128, 129] + c.q([], [255, 256, 257, 700]):
        for mode in ("solid", "single", "mixed"):
            es = [b.one("data" if mode != "mixed" else r.choice(["data", "empty", "none", "dir", "anti"]), meta=n < 20, size=r.randrange(1, 4)) for _ in range(n)]
            ops = [{"op": "solid", "es": es}] if mode == "solid" else [dict(x, op="file") for x in es]
            scs.append({"kind": "w", "sink": {}, "methods": r.choice([[lz2()], [lz1()]]), "ops": ops + [{"op": "finish"}]})
    run(c, scs, "many entries")
