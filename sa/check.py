"""Common driver of the checks: known findings, evidence, exit codes."""
import importlib
import json
import os
import pickle
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.path.insert(0, os.path.join(HERE, "rules"))
import facts  # noqa: E402


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def load_prog(groups):
    """Extract the current tree. SA_DEVCACHE (development only) reuses a
    pickle made from the very same sources."""
    c = os.environ.get("SA_DEVCACHE")
    if c:
        h = facts.tree_hash(groups)
        p = os.path.join(c, h + ".pkl")
        if os.path.exists(p):
            with open(p, "rb") as f:
                return pickle.load(f)
        prog = facts.load(groups)
        os.makedirs(c, exist_ok=True)
        with open(p, "wb") as f:
            pickle.dump(prog, f)
        return prog
    return facts.load(groups)


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.violations = {}
        self.cov = {}
        self.obl = {}          # rule -> [obligations, discharged]
        self.samples = {}
        self.assumptions = []

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def obligation(self, rule, ok, where=""):
        o = self.obl.setdefault(rule, [0, 0])
        o[0] += 1
        o[1] += bool(ok)
        s = self.samples.setdefault(rule, [])
        if len(s) < 40 and where:
            s.append(where)

    def need(self, rule, minimum=1):
        """A rule that found nothing to decide is broken, not satisfied."""
        n = self.obl.get(rule, [0, 0])[0]
        if n < minimum:
            raise facts.AnalysisBroken(
                "%s: rule '%s' found %d instance(s), at least %d expected" % (self.pid, rule, n, minimum))

    def violation(self, key, where, func, msg, path=None, rule=None):
        if key not in self.violations:
            self.violations[key] = dict(key=key, where=where, func=func, msg=msg,
                                        path=path or [], rule=rule or "")

    def from_alarms(self, alarms, rule=None):
        for a in sorted(alarms.values(), key=lambda a: (a["file"], a["line"], a["msg"])):
            fn = a["func"]
            self.violation("%s | %s" % (fn, a["inst"]), "%s:%d" % (a["file"], a["line"]),
                           fn, a["msg"], a["path"], rule)


def main(argv):
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv or "thorough" in argv[1:] else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    c = Check(pid, tier)
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(c)
    except facts.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 3
    known = [k for k in known_findings() if k["property"] == pid and k.get("status") != "fixed"]
    kkeys = {k["key"]: k for k in known}
    fresh, listed = [], []
    for v in c.violations.values():
        (listed if v["key"] in kkeys else fresh).append(v)
    ev_dir = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(ev_dir, exist_ok=True)
    replay = os.path.join(ev_dir, pid + ".violations.json")
    for v in listed:
        print("KNOWN-FINDING: property=%s %s (%s, in %s)" % (pid, kkeys[v["key"]]["what"], v["where"], v["func"]))
    if fresh:
        with open(replay, "w") as f:
            json.dump(fresh, f, indent=1)
    elif os.path.exists(replay):
        os.unlink(replay)
    tot = sum(o[0] for o in c.obl.values())
    dis = sum(o[1] for o in c.obl.values())
    cov = dict(obligations=tot, discharged=dis,
               rules={r: dict(obligations=o[0], discharged=o[1], sample=c.samples.get(r, [])[:12])
                      for r, o in sorted(c.obl.items())},
               explanation=getattr(mod, "EXPLANATION", (mod.__doc__ or "").strip()))
    cov.update(c.cov)
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "other"),
              coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + c.assumptions,
              violations=len(fresh))
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations over %s, %d discharged, %d known, %d new violation(s), %.1fs" % (
        pid, tot, ", ".join("%s=%s" % (k, v) for k, v in c.cov.items() if isinstance(v, int)),
        dis, len(listed), len(fresh), time.time() - t0))
    for v in fresh:
        print("  %s: %s [%s] in %s" % (v["where"], v["msg"], v["rule"], v["func"]))
        for p in v["path"][:12]:
            print("      via %s" % p)
    if fresh:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
