"""Shared by all checks: context, evidence, violations, known findings."""
import hashlib, json, os, random, shutil, sys, time
import hz, tlc

VERIF = tlc.VERIF
REPLAY = os.path.join(VERIF, "work", "replay")


def l64(v):
    return [v & 0xffff, (v >> 16) & 0xffff, (v >> 32) & 0xffff, (v >> 48) & 0xffff]


def l32(v):
    return [v & 0xffff, (v >> 16) & 0xffff]


def un(l):
    return sum(x << (16 * i) for i, x in enumerate(l))


def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: "):
                # known: property=<id> key=<key> <what fails>
                a = l[7:].split(" ", 2)
                out.append((a[0].split("=", 1)[1], a[1].split("=", 1)[1], a[2] if len(a) > 2 else ""))
    return out


class Ctx:
    def __init__(self, pid, level, technique):
        self.pid, self.level, self.technique = pid, level, technique
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.viol = []          # (key, reason, scenario, result)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0}
        self.models = []
        self.groups = {}
        self.samples = []
        self.seen = set()
        self.nontrivial = 0
        self.rules = []
        self.assume = []
        self.notes = {}

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def build(self):
        e = hz.build()
        if e is not None:
            raise tlc.ToolError("harness does not build:\n" + e[-3000:])

    # -- the specification's own state space
    def model(self, name, module, cfg, **kw):
        r = tlc.model(module, cfg, **kw)
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]
        self.models.append({"name": name, "module": module, "states": r["states"], "transitions": r["transitions"],
                            "scenarios": len(r["sc"]), "wall_s": round(r["wall"], 1)})
        return r["sc"]

    # -- running on the code
    def run(self, scs, group, wall=240, workers=8):
        t = time.time()
        for i, s in enumerate(scs):
            s["id"] = i
        rs = hz.run_all(scs, workers=workers, wall=wall)
        for r in rs:
            if "harness_error" in r:
                raise tlc.ToolError("harness: " + r["harness_error"])
        g = self.groups.setdefault(group, {"scenarios": 0, "wall_s": 0.0})
        g["scenarios"] += len(scs)
        g["wall_s"] = round(g["wall_s"] + time.time() - t, 1)
        self.cov["evaluations"] += len(scs)
        for s in scs:
            c = {k: v for k, v in s.items() if k != "id"}
            h = hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()
            if h not in self.seen:
                self.seen.add(h)
                self.nontrivial += 1
        if scs and len(self.samples) < 12:
            j = json.dumps(self.rng.choice(scs))
            self.samples.append({"group": group, "scenario": j[:600]})
        return rs

    # -- verdicts
    def judge(self, module, recs, scs, group, rs=None, verdict="V", consts="", key=None, timeout=None, chunks=16):
        """recs: records for the spec; scs: the scenarios they came from"""
        t = time.time()
        if rs and any(r.get("died") == "not run" for r in rs):
            keep = [k for k, r in enumerate(rs) if r.get("died") != "not run"]
            recs, scs, rs = [recs[k] for k in keep], [scs[k] for k in keep], [rs[k] for k in keep]
            if not recs:
                return {}
        bad = tlc.judge(module, recs, verdict=verdict, consts=consts, timeout=timeout, chunks=chunks)
        self.cov["traces_validated_against_impl"] += len(recs)
        g = self.groups.setdefault(group, {"scenarios": 0, "wall_s": 0.0})
        g["judged"] = g.get("judged", 0) + len(recs)
        g["judge_s"] = round(g.get("judge_s", 0) + time.time() - t, 1)
        for k in sorted(bad):
            kk = "%s:%s" % (group, key(k) if key else hashlib.sha1(json.dumps(scs[k], sort_keys=True).encode()).hexdigest()[:12])
            self.viol.append((kk, "%s: %s" % (group, bad[k]), scs[k], rs[k] if rs else None, recs[k]))
        return bad

    def violation(self, group, reason, sc, result=None):
        self.viol.append((group, "%s: %s" % (group, reason), sc, result, None))

    def finish(self, assumptions=()):
        kn = {(p, k): w for p, k, w in known()}
        real, listed = [], []
        for v in self.viol:
            (listed if (self.pid, v[0]) in kn else real).append(v)
        cov = dict(self.cov)
        cov["distinct_nontrivial"] = self.nontrivial
        cov["rule"] = "; ".join(self.rules) or "scenarios with different content"
        cov["samples"] = self.samples or ["-"]
        cov["models"] = self.models
        cov["groups"] = self.groups
        if hz.SKIPPED[0]:
            cov["not_run"] = hz.SKIPPED[0]
        cov.update(self.notes)
        if self.level == "other":
            cov["explanation"] = self.technique
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": list(assumptions) + self.assume, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(real)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as o:
            json.dump(ev, o, indent=1)
        for v in listed:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, kn[(self.pid, v[0])]))
        if real:
            os.makedirs(REPLAY, exist_ok=True)
            for n, v in enumerate(real[:5]):
                p = os.path.join(REPLAY, "%s-%d.json" % (self.pid, n))
                with open(p, "w") as o:
                    json.dump({"property": self.pid, "key": v[0], "reason": v[1], "scenario": v[2], "result": v[3], "record": v[4]}, o, indent=1)
                print("  %s [%s]" % (v[1][:300], v[0]))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            if len(real) > 5:
                print("  ... and %d more" % (len(real) - 5))
            sys.stdout.flush()
            return 1
        print("%s ok: %d scenarios, %d records judged, %d model states, %.1f s" % (
            self.pid, self.cov["evaluations"], self.cov["traces_validated_against_impl"], self.cov["states"], time.time() - self.t0))
        return 0
