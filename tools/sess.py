"""Writer sessions: building scenarios, projecting what the code did for the specification."""
import copy
from lib import l32, l64, un

SMALL = {"m": "LZMA2", "opts": True, "dict": 4096, "mode": "fast", "mf": "hc4", "nice": 32}


def lz2(**k):
    d = dict(SMALL)
    d.update(k)
    return d


def lz1(**k):
    d = dict(SMALL, m="LZMA")
    d.update(k)
    return d


def aes(pw="pass", **k):
    d = {"m": "AES", "pw": pw, "cyc": 1, "salt": "00" * 16, "iv": "11" * 16}
    d.update(k)
    return {a: b for a, b in d.items() if b is not None}


def via(r, rd):
    """the ways to open an archive: a reader, an archive parsed first, a file"""
    if "src" not in rd and "via" not in rd and r.random() < .5:
        rd["via"] = r.choice(["archive", "path", "apath"])
    return rd


def units(s):
    b = s.encode("utf-16-le", "surrogatepass")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def times(e, k):
    """what the entry is given: [present, value] -> limbs or []"""
    v = e.get(k)
    if v is None or not v[0]:
        return []
    x = int(v[1]) if isinstance(v[1], (int, str)) else un(v[1])
    return l32(x) if k == "attr" else l64(x)


def arg(e, has_reader, src):
    return {"nu": units(e.get("name", "")), "dir": bool(e.get("dir")), "anti": bool(e.get("anti")),
            "ct": times(e, "ct"), "at": times(e, "at"), "mt": times(e, "mt"), "attr": times(e, "attr"),
            "rd": has_reader, "n": src["n"], "crc": src["crc"], "h": src["h"]}


NOENT = {"nu": [], "size": [0, 0, 0, 0], "hs": False, "crc": [False, [0, 0]], "csize": [0, 0, 0, 0], "ccrc": [0, 0]}
NOPACK = {"n": [0, 0, 0, 0], "crc": [0, 0]}
NOSRC = {"n": [0, 0, 0, 0], "crc": [0, 0], "h": ""}


def fails(x, n):
    return x.get("fail_at") is not None and x.get("fail_kind") != "interrupted" and x["fail_at"] <= n


def no_encoder(ms):
    return any(m["m"] not in ("LZMA", "LZMA2", "AES") or (m["m"] == "AES" and m.get("noopt")) for m in ms)


def ops(sc, res):
    """operations with their outcomes, as records of Session.tla"""
    out = []
    bad = no_encoder(sc.get("methods") or [])
    for op, r in zip(sc["ops"], res.get("ops", [])):
        if r.get("op") == "new":
            return [{"op": "new", "as": [], "fail": False, "badm": False, "m": "", "on": True, "res": r["r"], "e": r.get("e", ""),
                     "faulted": False, "entry": NOENT, "packed": NOPACK}]
        o = {"op": op["op"], "as": [], "fail": False, "badm": False, "m": "", "on": True,
             "res": r["r"], "e": str(r.get("e", ""))[:200], "faulted": bool(r.get("faulted")),
             "entry": r.get("entry", NOENT), "packed": r.get("packed", NOPACK)}
        if op["op"] == "setm":
            bad = no_encoder(op["methods"])
            o["m"] = "aes" if any(m["m"] == "AES" for m in op["methods"]) else "x"
        elif op["op"] == "sethdr":
            o["on"] = op["on"]
        elif op["op"] == "file":
            hr = op.get("data") is not None
            src = r.get("src", NOSRC)
            o["as"] = [arg(op["e"], hr, src)]
            o["fail"] = fails(op, un(src["n"])) and hr
            o["badm"] = bad
        elif op["op"] == "solid":
            srcs = r.get("srcs", [])
            o["as"] = [arg(x["e"], True, srcs[i] if i < len(srcs) else NOSRC) for i, x in enumerate(op["es"])]
            o["fail"] = any(fails(x, un(srcs[i]["n"])) for i, x in enumerate(op["es"]) if i < len(srcs))
            o["badm"] = bad
        out.append(o)
    return out


def read(r):
    b = r.get("blocks")
    blocks = []
    for x in b or []:
        if "panic" in x:
            blocks.append({"n": -1, "es": [], "panic": x["panic"]})
        else:
            blocks.append({"n": x["n"], "es": x["es"], "panic": ""})
    return {"open": r.get("open", "?"), "list": r.get("list", []), "end": r.get("end", "?"),
            "visits": r.get("visits", []), "hasblocks": b is not None, "blocks": blocks}


def record(pid, sc, res):
    return {"prop": pid, "id": sc.get("id", 0), "died": res.get("died", res.get("panic", "")) or "",
            "ops": ops(sc, res), "reads": [read(x) for x in res.get("reads", [])]}
