"""Harness shared by all checks: violations, known findings, evidence, exit status."""
import json, os, sys, time, traceback
from . import build
from .build import AnalysisBroken, VERIF

class Check:
    def __init__(s, pid, level="other"):
        s.pid, s.level = pid, level
        s.tier = os.environ.get("VERIF_TIER", "quick")
        if s.tier not in ("quick", "thorough"): s.tier = "quick"
        s.t0 = time.time()
        s.viol, s.known = [], []
        s.counts, s.samples, s.notes = {}, [], []
        s.functions = set()
        s.extra = {}
        s.rule = ""
        s.assumptions = []
        s.kf = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            s.kf = [k for k in json.load(open(p))["findings"] if k["property"] == pid and k.get("status") == "known"]
    def count(s, what, n=1): s.counts[what] = s.counts.get(what, 0) + n
    def sample(s, txt):
        if len(s.samples) < 12: s.samples.append(txt)
    def need(s, what, minimum):
        """a rule that matches too few instances gives no answer"""
        if s.counts.get(what, 0) < minimum:
            raise AnalysisBroken("%s: only %d instances of '%s' (at least %d were confirmed by hand)" % (s.pid, s.counts.get(what, 0), what, minimum))
    def violation(s, key, msg):
        for k in s.kf:
            if k["key"] == key:
                s.known.append((k, msg)); return
        if (key, msg) not in s.viol: s.viol.append((key, msg))
    def finish(s):
        tier = s.tier
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        d = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
        cov = {"explanation": s.rule, "analysed": dict(sorted(s.counts.items())), "functions_analysed": len(s.functions),
               "samples": s.samples}
        cov.update(s.extra)
        if s.notes: cov["notes"] = s.notes
        ev = {"property": s.pid, "tier": tier, "seed": seed, "level": s.level, "coverage": cov,
              "assumptions": s.assumptions, "wall_s": round(time.time() - s.t0, 2), "violations": len(s.viol)}
        json.dump(ev, open(os.path.join(d, s.pid + ".json"), "w"), indent=1)
        print("%s: %s; %.1f s" % (s.pid, ", ".join("%d %s" % (n, w) for w, n in sorted(s.counts.items())), time.time() - s.t0))
        for k, msg in s.known: print("KNOWN-FINDING: property=%s %s" % (s.pid, k["what"]))
        rep = os.path.join(d, s.pid + ".violations.txt")
        if s.viol:
            with open(rep, "w") as f:
                for key, msg in s.viol: f.write("[%s] %s\n\n" % (key, msg))
            for key, msg in s.viol[:40]: print("  [%s] %s" % (key, msg))
            print("VIOLATION property=%s replay=%s" % (s.pid, rep))
            return 1
        try: os.remove(rep)
        except FileNotFoundError: pass
        print("%s: held" % s.pid)
        return 0

def main(pid, fn, level="other"):
    ck = Check(pid, level)
    try:
        fn(ck)
        return ck.finish()
    except AnalysisBroken as e:
        if ck.viol:          # what was found stands, even if a later part gave no answer
            print("note: analysis incomplete: %s" % e)
            return ck.finish()
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e)); return 2
    except Exception:
        traceback.print_exc()
        if ck.viol:
            print("note: analysis incomplete"); return ck.finish()
        print("ANALYSIS-BROKEN property=%s: internal error" % pid); return 3
