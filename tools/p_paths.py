"""C16, C17: extraction to and compression of directory trees, inside scratch directories."""
import hashlib, os, shutil
import p_session, sess, tlc
from bodies import rnd, text
from lib import l64, un
from p_session import jcopy, pw_of
from sess import aes, lz1, lz2

digest = lambda b: hashlib.sha256(b).hexdigest()[:16]
EPOCH = 116444736000000000
DEST = "p/q/r/s/t/out"


def parts(p):
    return [list(x.encode()) for x in p.split("/") if x != ""]


def tree(snap):
    return [{"p": parts(x["path"]), "k": x["kind"], "h": x["h"], "n": x["n"], "mt": x["mt"]} for x in snap]


class Scratch:
    def __enter__(self):
        self.d = tlc.scratch("paths")
        self.n = 0
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def new(self):
        self.n += 1
        p = os.path.join(self.d, "e%d" % self.n)
        os.mkdir(p)
        return p


# ------------------------------------------------------------------ C16
XCFG = """SPECIFICATION Spec
CONSTANTS
 Words = {%s}
 MaxWords = %d
 MaxEntries = %d
 Emit = TRUE
 Lazy = %s
INVARIANTS Inside Rooted OneKind NothingElse Complete Refusal
CHECK_DEADLOCK FALSE
"""


def xmodel(c, name, words, mw, me, sim=0):
    args, w = (), 8
    if sim:
        args, w = ["-simulate", "num=%d" % sim, "-depth", str((2 + mw) * me + me + 5), "-seed", str(c.seed)], 1
    s = c.model(name, "MC_Extract", XCFG % (",".join('"%s"' % x for x in words), mw, me, "TRUE" if sim else "FALSE"), args=args, workers=w)
    u = {str(x): x for x in s}
    return [u[k] for k in sorted(u)]


LONG = "l" * 40


def when(r):
    return EPOCH + r.choice([0, 1, -1, 10 ** 7, -10 ** 7 - 3, 16094592000000001, r.randrange(-10 ** 7 * 2 * 10 ** 9, 10 ** 7 * 10 ** 10), r.randrange(0, 2 * 10 ** 16)])


def name_of(r, root, ws, fresh):
    ws = [LONG if w == "long" else "a\\b" if w == "back" else fresh.get(w, w) for w in ws]
    if ws[0] == "" and len(ws) > 1:
        return root + "/abs/" + "/".join(ws[1:])       # absolute, but inside of the scratch directory
    return "/".join(ws)


def extraction(c, root, es, how, prepare=(), size=None, stack=None, style="lf"):
    """es: [(name, is_dir)]"""
    r = c.rng
    ms = stack or r.choice([[lz2()], [lz1()], [lz2()], [aes("pw"), lz2()]])
    ents, ops = [], []
    for n, d in es:
        e = {"name": n, "dir": d}
        data = None if d else r.choice([text, rnd])(r, size if size is not None else r.choice([0, 0, 1, 5, 40, 300]))
        mt = []
        if r.random() < .6:
            v = when(r)
            mt = l64(v)
            e["mt"] = [True, str(v)]
        if r.random() < .3:
            e["at"] = [True, str(when(r))]
        if r.random() < .3:
            e["ct"] = [True, str(when(r))]
        if r.random() < .3:
            e["attr"] = [True, r.choice([0x10, 0x20, 1, 0x81a48020, 0x41ed8010])]
        x = {"e": e}
        if data is not None and (data or r.random() < .5):
            x["data"] = data.hex()
        ents.append({"name": list(n.encode()), "dir": d, "h": digest(data or b""), "n": l64(len(data or b"")), "mt": mt})
        ops.append(x)
    if style == "solid":
        out = [{"op": "solid", "es": [dict(x, data=x.get("data", "")) for x in ops]}]
    elif style == "mixed":
        out, k = [], 0
        while k < len(ops):
            if r.random() < .5:
                m = r.randrange(1, 4)
                out.append({"op": "solid", "es": [dict(x, data=x.get("data", "")) for x in ops[k:k + m]]})
                k += m
            else:
                out.append(dict(ops[k], op="file"))
                k += 1
    else:
        out = [dict(x, op="file") for x in ops]
    w = {"kind": "w", "sink": {}, "methods": jcopy(ms), "ops": out + [{"op": "finish"}]}
    sc = {"kind": "extract", "root": root, "dest": DEST, "w": w, "how": how, "prepare": list(prepare)}
    if pw_of(ms):
        sc["pw"] = pw_of(ms)
    if r.random() < .3:
        sc["src"] = {"short": r.choice([[1], [3, 1, 50]])}
    # the ways in that take no password
    if not pw_of(ms) and r.random() < .4:
        sc["how"] = {"record": r.choice(["record_nopw", "record_file"]), "default": "own_nopw"}.get(how, how)
    if r.random() < .25:
        sc["rel"] = True
    return sc, {"how": how, "dest": parts(DEST), "es": ents}


def xjudge(c, items, group):
    scs = [i[0] for i in items]
    rs = c.run(scs, group)
    recs = []
    for (sc, rec), q in zip(items, rs):
        if "session" in q:
            raise tlc.ToolError("the archive to extract could not be written: %s" % str(q)[:300])
        calls = []
        for k in q.get("calls", []):
            p = [x for x in (parts(k["path"]) if k.get("under_root") else []) if x != [46]] if "path" in k else []
            d = rec["dest"]
            up = [46, 46] in p
            under = "path" in k and k["under_root"] and p[:len(d)] == d and not up
            if sc["how"].startswith("record"):
                calls.append({"name": list(k["name"].encode()), "p": p[len(d):] if under else [], "under": under, "h": k["h"]})
        recs.append(dict(rec, died=q.get("died", q.get("panic", "")) or "", res=q.get("r", "none"), before=tree(q.get("before", [])), after=tree(q.get("after", [])), calls=calls))
    c.judge("J_Extract", recs, scs, group, rs)


WORDS = ["a", "b", "..", ".", ""]
FRESH = ["\u00fc", "\u65e5\u672c", "\U0001f600", "a b", "-", "~", "$HOME", "*", "x" * 120, "CON", "a:b", "\u0001", "tab\t", "..x", "x..", "...", " "]


def c16(c):
    c.rules.append("distinct archives: names, kinds, contents, times; what was there before")
    r = c.rng
    with Scratch() as S:
        one = xmodel(c, "names of one entry", WORDS + ["..."], 4, 1)
        two = xmodel(c, "names of two entries", ["a", "b", ".."], 2, 2)
        many = xmodel(c, "names of several entries", ["a", "b", "..", ".", "", "...", "back", "..a", "long"], c.q(4, 5), c.q(5, 8), sim=c.q(500, 6000))
        if not c.thorough:
            one = r.sample(one, min(len(one), 700))
            two = r.sample(two, min(len(two), 500))
        for name, ss in (("one entry", one), ("two entries", two), ("several entries", many)):
            items = []
            for s in ss:
                root = S.new()
                items.append(extraction(c, root, [(name_of(r, root, e["ws"], {}), e["dir"]) for e in s["es"]], r.choice(["default", "default", "file", "record"]), style=r.choice(["each", "solid", "mixed"]) if not any(e["dir"] for e in s["es"]) else r.choice(["each", "mixed"])))
            xjudge(c, items, name)
        # good names only: trees of many entries, things already there
        items = []
        for k in range(c.q(250, 3000)):
            root = S.new()
            es, used, dirs = [], set(), [""]
            for _ in range(r.choice([1, 3, 8, 30] if c.thorough else [1, 3, 8, 15])):
                d = r.choice(dirs)
                n = (d + "/" if d else "") + r.choice(FRESH + ["f%d" % len(es)] * 10)
                if r.random() < .1:
                    n = n.replace("/", r.choice(["/./", "//"]), 1)
                key = "/".join(x for x in n.split("/") if x not in ("", "."))
                if key in used:
                    continue
                isd = r.random() < .35
                used.add(key)
                if isd:
                    dirs.append(n)
                    if r.random() < .5 and r.random() < .8:
                        es.append((n + ("/" if r.random() < .2 else ""), True))
                else:
                    es.append((n, False))
                    if r.random() < .3 and d == "":
                        pass
            if not es:
                continue
            r.shuffle(es)
            prep = []
            if r.random() < .5:
                prep.append({"path": DEST, "kind": "dir"})
            if r.random() < .4:
                prep.append({"path": DEST + "/keep/old.txt", "kind": "file", "data": "6f6c64"})
            if r.random() < .4 and any(not d for _, d in es):
                f = r.choice([n for n, d in es if not d])
                prep.append({"path": DEST + "/" + f, "kind": "file", "data": rnd(r, 400).hex()})
            if r.random() < .3:
                prep.append({"path": "p/other/x", "kind": "file", "data": "00"})
            items.append(extraction(c, root, es, r.choice(["default", "default", "file", "record"]), prep, style=r.choice(["each", "mixed"]) if any(d for _, d in es) else r.choice(["each", "solid", "mixed"])))
        xjudge(c, items, "trees")
        items = []
        for st in p_session.STACKS[:8]:
            for n in c.q([4096, 70000], [4095, 4096, 65536, 70000, 300000]):
                root = S.new()
                ms = [dict(m, pw="secret") if m["m"] == "AES" else m for m in st]
                items.append(extraction(c, root, [("d/one", False), ("d", True), ("two", False)], r.choice(["default", "file"]), size=n, stack=ms, style=r.choice(["each", "mixed"])))
        xjudge(c, items, "larger files")


# ------------------------------------------------------------------ C17
CCFG = """SPECIFICATION Spec
CONSTANTS
 NamesIn = {%s}
 Kinds = {%s}
 MaxNodes = %d
 MaxDepth = %d
 MaxReject = %d
 Emit = TRUE
 Lazy = %s
INVARIANTS Exactly Sound OnlyFiles
CHECK_DEADLOCK FALSE
"""


def cmodel(c, name, names, kinds, nodes, depth, reject, sim=0):
    args, w = (), 8
    if sim:
        args, w = ["-simulate", "num=%d" % sim, "-depth", str(nodes + reject + 4), "-seed", str(c.seed)], 1
    q = lambda l: ",".join('"%s"' % x for x in l)
    s = c.model(name, "MC_Compress", CCFG % (q(names), q(kinds), nodes, depth, reject, "TRUE" if sim else "FALSE"), args=args, workers=w)
    u = {str(x): x for x in s}
    return [u[k] for k in sorted(u)]


HOWS = ["compress", "encrypted", "to_path", "to_path_encrypted"]
EACH = ["entries", "entries_old"]  # pushed one by one by the caller


def compression(c, root, nodes, rej, how, names, size=None, start=None):
    """nodes: [(path components, kind)]"""
    r = c.rng
    nm = lambda p: "/".join(names.get(x, x) for x in p)
    t = []
    for p, k in sorted(nodes):
        x = {"path": nm(p), "kind": k}
        if k == "file":
            x["data"] = r.choice([text, rnd])(r, size if size is not None else r.choice([0, 0, 1, 7, 100, 400])).hex()
        if k == "link":
            x["to"] = r.choice(["nowhere", "/dev/null", "..", nm(r.choice(nodes)[0])])
        if k in ("file", "dir") and r.random() < .7:
            x["mt"] = str(when(r))
        t.append(x)
    sc = {"kind": "compress", "root": root, "tree": t, "how": how, "reject": [nm(p) for p in rej], "sink": {}}
    if "encrypted" in how:
        sc["pw"] = r.choice(["pw", "\u00fc\u65e5", "x" * 40])
    elif how in ["solid", "nonsolid"] + EACH and r.random() < .7:
        ms = r.choice([[lz2()], [lz1()], [aes("pw", cyc=1), lz2()]])
        sc["methods"] = jcopy(ms)
        if pw_of(ms):
            sc["pw"] = pw_of(ms)
    if start is not None:
        sc["start"] = nm(start)
    if how not in EACH and r.random() < .5:
        sc["spell"] = r.choice(["rel", "dotrel", "inside", "slash"])
    if how.startswith("to_path") or how in EACH:
        if sc.get("spell") != "inside" and r.random() < .3:
            sc["near"] = True
        if r.random() < .3:
            sc["stale"] = r.choice([1, 31, 32, 500, 100000])
    whole = how in HOWS + EACH
    return sc, {"how": how, "whole": whole, "rej": [] if whole else [parts(nm(p)) for p in rej]}


def cjudge(c, items, group):
    scs = [i[0] for i in items]
    rs = c.run(scs, group)
    recs = []
    for (sc, rec), q in zip(items, rs):
        rd = q.get("read", {})
        t = tree(q.get("tree", []))
        single = False
        root = []
        if "start" in sc:
            s = parts(sc["start"])
            it = [x for x in t if x["p"] == s]
            single = bool(it) and it[0]["k"] == "file"
            if single:
                root = s[-1]
                t = [dict(it[0], p=[])]
            else:
                t = [dict(x, p=x["p"][len(s):]) for x in t if x["p"][:len(s)] == s and len(x["p"]) > len(s)]
        l = [{"name": list("".join(map(chr, e["nu"])).encode("utf-16", "surrogatepass").decode("utf-16").encode()), "dir": e["dir"], "mt": e["mt"]} for e in rd.get("list", [])]
        recs.append(dict(rec, died=q.get("died", q.get("panic", "")) or "", res=q.get("r", "none"), t=t, single=single, root=root, open=rd.get("open", "none"), end=rd.get("end", "none"),
                         list=l, visits=[{"i": v["i"], "st": v["st"], "h": v["h"], "n": v["n"]} for v in rd.get("visits", [])]))
    c.judge("J_Compress", recs, scs, group, rs)


def c17(c):
    c.rules.append("distinct trees, filters and ways to compress")
    r = c.rng
    with Scratch() as S:
        small = cmodel(c, "small trees, filters", ["a", "b"], ["file", "dir"], 3, 2, 1)
        odd = cmodel(c, "small trees with links and pipes", ["a", "b"], ["file", "dir", "link", "fifo"], 2, 2, 1)
        many = cmodel(c, "larger trees, filters", ["a", "b", "c", "d"], ["file", "file2", "dir", "dir2", "link", "fifo"][:4:2] + ["dir", "link", "fifo"], c.q(9, 14), 4, 3, sim=c.q(250, 3000))
        if not c.thorough:
            small = r.sample(small, min(len(small), 500))
            odd = r.sample(odd, min(len(odd), 400))
        for name, ss in (("small trees", small), ("links and pipes", odd), ("larger trees", many)):
            items = []
            for s in ss:
                nodes = [(x["p"], x["k"]) for x in s["t"]]
                pool = r.sample(FRESH, 4)
                names = dict(zip("abcd", r.choice([["a", "b", "c", "d"], ["a", "ab", "aa", "a.b"], ["b", "B", "bb", "b-"], pool])))
                for how in [r.choice(HOWS + HOWS + EACH)] + (["solid", "nonsolid"] if not name.startswith("larger") or r.random() < .7 else ["solid"]):
                    items.append(compression(c, S.new(), nodes, s["rej"], how, names))
            cjudge(c, items, name)
        # parts of a tree, single files
        items = []
        for s in r.sample(many, min(len(many), c.q(80, 800))):
            nodes = [(x["p"], x["k"]) for x in s["t"]]
            good = [n for n in nodes if n[1] in ("file", "dir")]
            if not good:
                continue
            p, k = r.choice(good)
            for how in HOWS[:1] + [r.choice(HOWS)] + ["solid", "nonsolid"]:
                items.append(compression(c, S.new(), nodes, [], how, {}, start=p))
        cjudge(c, items, "parts of a tree")
        items = []
        for n in c.q([4096, 65536, 150000], [4095, 4096, 4097, 65536, 150000, 2000000]):
            for how in HOWS + EACH + ["solid", "nonsolid"]:
                items.append(compression(c, S.new(), [(["a"], "dir"), (["a", "x"], "file"), (["a", "y"], "file"), (["b"], "file")], [], how, {}, size=n))
        cjudge(c, items, "larger files")
        # more than 4 GiB together, and a file longer than that
        if c.thorough:
            from far import Far
            items = []
            for how, sizes in [("solid", [(1 << 31) + 70000, 5, (1 << 31) - 60000, 9, 77]), ("nonsolid", [(1 << 32) + 5, 6]), ("solid", [4, (1 << 32), 8])]:
                it = compression(c, S.new(), [(["f%d" % i], "file") for i in range(len(sizes))], [], how, {}, size=3)
                for x, n in zip(it[0]["tree"], sizes):
                    if n > 1 << 20:
                        x["data"] = Far(b"begins", (n - 10, 0), b"ends").store()
                it[0].update(methods=[lz2(preset=0)], cpu=1500)
                it[0].pop("pw", None)
                items.append(it)
            cjudge(c, items, "more than 4 GiB")
        # many files
        items = []
        for n in c.q([130, 300], [130, 300, 1500]):
            for how in ["compress", "entries", "solid", "nonsolid"]:
                items.append(compression(c, S.new(), [(["d%d" % (i % 7), "f%d" % i], "file") for i in range(n)] + [(["d%d" % i], "dir") for i in range(7)], [], how, {}, size=r.choice([0, 3, 20])))
                items[-1][0]["cpu"] = 60
        cjudge(c, items, "many files")
