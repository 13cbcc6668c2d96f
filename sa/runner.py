"""Runs the rules of one property, writes evidence, prints the verdict."""
import json
import os
import sys
import time
import traceback

from . import program
from .core import AnalysisLimit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Anchor(Exception):
    """An anchor of the property (public function, message, file) is gone."""


PRELOADED = {}    # development: all properties in one go


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obl = []        # (rule, instance, where, verdict, detail)
        self.notes = []
        self.functions = set()
        self.loops = 0
        self.events = 0
        self.calls = 0
        self._P = {}
        self.rules = {}

    def P(self, ndebug=True):
        if ndebug not in self._P:
            self._P[ndebug] = PRELOADED.get(ndebug) or program.load(ndebug)
        return self._P[ndebug]

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, inst, where="", detail=""):
        self.obl.append((rule, str(inst), where, "holds", detail))

    def bad(self, rule, inst, where, detail):
        self.obl.append((rule, str(inst), where, "violated", detail))

    def undec(self, rule, inst, where, detail):
        self.obl.append((rule, str(inst), where, "undecided", detail))

    def check(self, rule, inst, where, cond, detail=""):
        if cond:
            self.ok(rule, inst, where)
        else:
            self.bad(rule, inst, where, detail)
        return cond

    def analysed(self, I):
        """Account for what an interpreter pass covered."""
        self.functions |= I.visited
        self.loops += len(I.loops)
        self.events += len(I.ev)

    def fn(self, qn, n=None, tu=None, pred=None):
        """Anchor function(s) by qualified name."""
        P = self.P()
        fs = [f for f in P.byqn.get(qn, []) if isinstance(f.d.get("body"), dict) and (pred is None or pred(f))]
        if not fs:
            raise Anchor("function %s not found in the current tree" % qn)
        return fs if n is None else fs[n]


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out


def main(prop, rules):
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ctx = Ctx(prop, tier)
    rc = None
    err = None
    try:
        for r in rules:
            try:
                r(ctx)
            except Anchor:
                raise
            except program.BuildError:
                raise
            except AnalysisLimit as e:
                ctx.undec(getattr(r, "__name__", "rule"), "analysis limit", "", str(e))
            except Exception as e:  # an unexpected shape is not a verdict
                ctx.undec(getattr(r, "__name__", "rule"), "internal", "", "%s: %s\n%s" % (
                    type(e).__name__, e, traceback.format_exc()))
    except Anchor as e:
        err = "ANCHOR property=%s %s" % (prop, e)
        rc = 2
    except program.BuildError as e:
        err = "BUILD property=%s %s" % (prop, e)
        rc = 2
    viol = [o for o in ctx.obl if o[3] == "violated"]
    undec = [o for o in ctx.obl if o[3] == "undecided"]
    kf = known_findings(prop)
    known = []
    new = []
    for o in viol:
        key = "%s %s" % (o[0], o[1])
        if key in kf:
            known.append(o)
        else:
            new.append(o)
    if rc is None and not ctx.obl:
        err = "EMPTY property=%s no obligation was generated: the rule matched nothing" % prop
        rc = 2
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    files = {}
    for q, w in ctx.functions:
        files.setdefault(w.split(":")[0], set()).add(q)
    samples = [{"rule": o[0], "instance": o[1], "where": o[2], "verdict": o[3]} for o in ctx.obl[:25]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the resolved AST exported from /repo's current sources. Rules: " + "; ".join(
                "%s: %s" % kv for kv in sorted(ctx.rules.items())),
            "obligations": len(ctx.obl),
            "discharged": sum(1 for o in ctx.obl if o[3] == "holds"),
            "undecided": len(undec),
            "violated": len(viol),
            "functions_analysed": len(ctx.functions),
            "loops_analysed": ctx.loops,
            "events_recorded": ctx.events,
            "sites_inspected": ctx.calls,
            "functions_by_file": {k: sorted(v)[:40] for k, v in sorted(files.items())},
            "samples": samples,
            "undecided_obligations": [{"rule": o[0], "instance": o[1], "where": o[2], "why": o[4][:1500]} for o in undec][:20],
        },
        "assumptions": ctx.notes + [
            "real-number arithmetic for floating point; models of the standard library, Abseil and protobuf calls are trusted",
            "clang's resolved AST of the translation units of the BUILD files is the program (NDEBUG semantics: assertions are not guards)"],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    ep = os.path.join(evdir, prop + ".json")
    with open(ep, "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for o in undec:
        print("UNDECIDED property=%s rule=%s %s %s: %s" % (prop, o[0], o[1], o[2], o[4].splitlines()[0] if o[4] else ""))
        if os.environ.get("VERIF_DEBUG"):
            print(o[4])
    if err:
        print(err)
        return rc
    for o in known:
        print("KNOWN-FINDING: property=%s %s %s at %s" % (prop, o[0], o[1], o[2]))
    if new:
        rp = os.path.join(evdir, prop + ".violation.txt")
        with open(rp, "w") as f:
            f.write("property %s\nre-run: python3 /verif/check.py %s\n\n" % (prop, prop))
            for o in new:
                f.write("%s: rule %s [%s]\n    %s\n    rule text: %s\n" % (o[2], o[0], o[1], o[4], ctx.rules.get(o[0], "")))
        for o in new[:20]:
            print("%s: %s [%s] %s" % (o[2], o[0], o[1], o[4][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s obligations=%d undecided=%d functions=%d (%.1fs)" % (
        prop, len(ctx.obl), len(undec), len(ctx.functions), time.time() - t0))
    return 0
