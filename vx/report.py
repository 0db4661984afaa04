"""Check context: obligations, violations, known findings, evidence, exit code."""
import json, os, sys, time, hashlib
from . import ir
from .ir import AnalysisBroken, VERIF

FINDINGS = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """{key: description} of the recorded (not repaired) findings of a property"""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            head, _, desc = line[len("finding:"):].partition(" :: ")
            kv = dict(x.split("=", 1) for x in head.split() if "=" in x)
            if kv.get("property") == prop:
                out[kv["key"]] = desc.strip()
    return out


class Ctx:
    def __init__(self, prop, tier, seed, program):
        self.prop, self.tier, self.seed, self.P = prop, tier, seed, program
        self.rules = {}       # rule -> text
        self.instances = {}   # rule -> list of instance descriptions
        self.bad = []         # (rule, key, where, message)
        self.t0 = time.time()
        self.functions = set()
        self.notes = []

    # a rule is a named obligation template; every instance analysed is recorded
    def rule(self, name, text, minimum=1):
        self.rules[name] = (text, minimum)
        self.instances.setdefault(name, [])

    def ok(self, rule, inst, fn=None):
        self.instances[rule].append(inst)
        if fn is not None:
            self.functions.add(fn["q"] if isinstance(fn, dict) else fn)

    def violation(self, rule, key, where, message, fn=None):
        """key: location-free identity of the failing construct (used by the known-findings file)"""
        key = rule + ":" + key.replace(" ", "_")
        self.instances[rule].append(key)
        if fn is not None:
            self.functions.add(fn["q"] if isinstance(fn, dict) else fn)
        if not any(b[1] == key and b[2] == where for b in self.bad):
            self.bad.append((rule, key, where, message))

    def need(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)

    def fn(self, q, n=None):
        """anchor: the definition of a function, by qualified name"""
        fs = self.P.fn_q(q)
        if n is not None:
            fs = [f for f in fs if len(f["p"]) == n]
        if not fs:
            raise AnalysisBroken("anchor vanished: no definition of %s" % q)
        self.functions.add(q)
        return fs[0]

    def klass(self, q):
        c = self.P.classes.get(q)
        if c is None:
            raise AnalysisBroken("anchor vanished: no class %s" % q)
        return c

    def finish(self):
        for r, (text, minimum) in self.rules.items():
            if len(self.instances[r]) < minimum:
                raise AnalysisBroken("rule %s matched %d instances (at least %d expected)" % (r, len(self.instances[r]), minimum))
        known = known_findings(self.prop)
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        fresh, listed = [], []
        for b in self.bad:
            (listed if b[1] in known else fresh).append(b)
        total = sum(len(v) for v in self.instances.values())
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
            "wall_s": round(time.time() - self.t0, 3),
            "violations_file": None,
            "coverage": {
                "explanation": "Static analysis of the resolved program (clang 18 AST of every non-test translation unit of /repo, "
                               "template instantiations included). Each rule was evaluated on every instance it matches in the current tree; "
                               "%d rule instances in total, over %d named functions; the rest of the program was scanned for further instances." % (total, len(self.functions)),
                "translation_units": len(self.P.tus),
                "functions_in_program": len([f for f in self.P.functions.values() if "body" in f]),
                "functions_analysed": sorted(self.functions)[:400],
                "rules": [{"rule": r, "text": t, "instances": len(self.instances[r]), "minimum": m,
                           "violations": len([b for b in self.bad if b[0] == r]),
                           "sample": [str(x) for x in self.instances[r][:12]]} for r, (t, m) in self.rules.items()],
                "instances": total,
                "known_findings_seen": [b[1] for b in listed],
                "notes": self.notes,
            },
        }
        rep = os.path.join(ev_dir, "%s.violations.txt" % self.prop)
        with open(rep, "w") as f:
            for rule, key, where, msg in self.bad:
                f.write("%s: [%s] %s\n    rule: %s\n    instance: %s%s\n" % (where, rule, msg, self.rules[rule][0], key,
                                                                          "  (known finding)" if key in known else ""))
        if fresh:
            ev["violations_file"] = rep
        with open(os.path.join(ev_dir, "%s.json" % self.prop), "w") as f:
            json.dump(ev, f, indent=1)
        for rule, key, where, msg in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, where, msg))
        for k in known:
            if k not in [b[1] for b in listed]:
                print("note: recorded finding no longer present: %s" % k)
        print("%s: %d rules, %d instances, %d violations (%d known), %.1f s" % (self.prop, len(self.rules), total, len(self.bad), len(listed), time.time() - self.t0))
        if fresh:
            for rule, key, where, msg in fresh[:40]:
                print("  %s: [%s] %s  {%s}" % (where, rule, msg, key))
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            return 1
        return 0


def loc(fn, node=None):
    return "%s:%s (%s)" % (fn["f"], node["l"] if node is not None and "l" in node else fn["l"], fn["q"])
