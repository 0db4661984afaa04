"""Checks made of confirmed facts: every function of a scope (part of the program) is compared with its confirmed facts.

A scope is a list of (file pattern, function pattern) pairs; the functions existing when the table was confirmed are listed in
it.  Functions extracted later are analysed inside their callers."""
import json, os, re
from . import facts, gfacts, loops
from .report import loc

TABLES = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tables")


class Scope:
    def __init__(self, prop, parts, text, minimum, diag=True, exclude=(), what="function"):
        self.prop, self.parts, self.text, self.minimum, self.diag = prop, [(re.compile(a), re.compile(b)) for a, b in parts], text, minimum, diag
        self.exclude = [re.compile(x) for x in exclude]
        self.table = os.path.join(TABLES, prop.lower() + ".json")
        self.what = what

    def select(self, fn):
        return any(a.match(fn["f"]) and b.search(fn["q"]) for a, b in self.parts) and not any(x.search(fn["q"]) for x in self.exclude) and not gfacts.trivial(fn)

    def tables(self, P, kn):
        """{key: (facts, where, global)} for the constant tables of the scope"""
        out = {}
        for g in P.globals.values():
            if "init" in g and any(a.match(g["f"]) and b.search(g["q"]) for a, b in self.parts) and not any(x.search(g["q"]) for x in self.exclude) and "vega::" in g["q"]:
                F = gfacts.global_facts(P, g, kn)
                out["global " + g["q"].replace("vega::", "")] = (F.freeze(), F.where, g)
        return out

    def freeze(self, P):
        kn = gfacts.known(P)
        out = {k: f for k, (f, w, g) in self.tables(P, kn).items() if f["sinks"]}
        for k, (f, w, fn) in sorted(gfacts.scope_facts(P, self.select, kn).items()):
            if f["sinks"] or f["diag"]:
                out[k] = f
        return out

    def run(self, ctx):
        P = ctx.P
        ctx.rule("data", self.text[0], self.minimum)
        ctx.rule("condition", self.text[1], max(1, self.minimum // 10))
        if self.diag:
            ctx.rule("report", "errors and warnings are raised under exactly the confirmed conditions", 0)
        frozen = json.load(open(self.table))
        kn = gfacts.known(P)
        cur = gfacts.scope_facts(P, lambda fn: True, kn, only=set(frozen), names=set(base(k) for k in frozen))
        cur.update(self.tables(P, kn))
        present = {base(k) for k in cur}
        gone = {base(k) for k in frozen} - present
        vanished = set(kn) - {f["q"] for f in P.functions.values() if "body" in f}
        vn = {"%s(" % v.split("::")[-1] for v in vanished} | {norm_(v) for v in vanished}
        skipped = 0
        for k, fz in frozen.items():
            c = cur.get(k)
            if c is None:
                # other parameter types; not decided among overloads
                alt = [x for x in cur if base(x) == base(k)]
                c = cur[alt[0]] if len(alt) == 1 and alt[0] not in frozen and sum(base(x) == base(k) for x in frozen) == 1 else None
            if c is None:
                skipped += 1
                continue
            cf, where, fn = c
            diffs = facts.compare(fz, cf, sels=False)
            if (diffs or fz["diag"] != cf["diag"]) and vn and refers(fz, vn):
                ctx.notes.append("%s: calls a function which no longer exists under its name; not decided" % k)
                skipped += 1
                continue
            for s in sorted(set(cf["sinks"]) - set(fz["sinks"])):
                diffs.append(("sink", s, "%s receives {%s} which it did not receive" % (s, ", ".join(cf["sinks"][s])), s))
            for rule, key, msg, sink in diffs:
                ctx.violation("condition" if rule == "guard" else "data", "%s:%s" % (k.split("(")[0], key[:200]), where.get(sink) or loc(fn), "%s: %s" % (fn["q"].replace("vega::", ""), clip(msg)), fn)
            for s, d in fz["sinks"].items():
                ctx.ok("data", "%s: %s" % (k.split("(")[0], s[:80]), fn)
                for l, g in d.items():
                    if g:
                        ctx.ok("condition", "%s: %s <- %s" % (k.split("(")[0], s[:60], l[:60]), fn)
            if not self.diag:
                continue
            for kind in ("warning", "error"):
                a, b = fz["diag"].get(kind), cf["diag"].get(kind)
                if a is None and b is None:
                    continue
                if a != b:
                    lost = [x for x in (a or []) if x not in (b or [])]
                    new = [x for x in (b or []) if x not in (a or [])]
                    ctx.violation("report", "%s:%s" % (k.split("(")[0], kind), where.get("diag:" + kind) or loc(fn), "%s: %s%s" % (
                        fn["q"].replace("vega::", ""),
                        "no %s any more when [%s] " % (kind, clip("; ".join(lost))) if lost or b is None else "",
                        "%s when [%s]" % (kind, clip("; ".join(new))) if new else ""), fn)
                else:
                    ctx.ok("report", "%s %s" % (k.split("(")[0], kind), fn)
        loops.check(ctx, self.select)
        ctx.need(skipped * 3 <= len(frozen), "%d of %d confirmed functions of %s vanished" % (skipped, len(frozen), self.prop))
        if skipped:
            ctx.notes.append("%d of the confirmed functions no longer exist" % skipped)


def clip(s):
    return s if len(s) < 900 else s[:900] + "..."


def norm_(q):
    return gfacts.norm(q)


def base(k):
    return re.sub(r"<[^()]*>", "", k.split("(")[0])


def refers(fz, names):
    t = json.dumps(fz)
    return any(n in t for n in names)
