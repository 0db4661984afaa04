"""C12: nothing is read before it is given a value."""
import re
from .. import ir, definite
from ..report import loc

SC = re.compile(r"^(const )?(int|unsigned int|long|unsigned long|short|unsigned short|char|unsigned char|signed char|bool|float|double|long long|unsigned long long|long double|wchar_t)$")


def scalar_of(P):
    def f(t):
        t = (t or "").strip()
        if not t or t.endswith("]"):
            return False
        return bool(SC.match(t)) or t.endswith("*") or t.endswith("*const") or t.replace("const ", "") in P.enums
    return f


def noreturns(P):
    """functions which always end with an exception, least fixpoint over the call graph"""
    dead = {"exit", "std::exit", "abort", "std::abort", "std::terminate", "std::rethrow_exception", "std::__throw_bad_alloc", "_exit"}
    virt = {}

    def is_dead(n):
        if n.get("q") in dead:
            return True
        return n.get("id") in ids
    ids = set()
    fns = [f for f in P.functions.values() if "body" in f and f["q"].startswith("vega::") and f.get("kind") not in ("ctor", "dtor") and (f.get("r") == "void" or True)]
    cand = [f for f in fns if any(True for _ in ir.nodes(f["body"], "throw"))]
    changed = True
    while changed:
        changed = False
        for f in fns:
            if f["id"] in ids:
                continue
            if not (f in cand or any(x.get("id") in ids for x in ir.nodes(f["body"], "call"))):
                continue
            if any(True for _ in ir.nodes(f["body"], "return")):
                continue
            d = definite.Definite(P, f, lambda t: False, is_dead)
            if d.run(f["body"]) is definite.ALL:
                if all(o in ids or "body" not in P.functions.get(o, {}) for o in P.overriders(f["id"])) or not P.overriders(f["id"]):
                    ids.add(f["id"])
                    changed = True
    return is_dead, ids


def run(ctx):
    P = ctx.P
    ctx.rule("local", "a local variable is given a value on every path before it is read", 30)
    ctx.rule("attribute", "every constructor gives a value to every number, flag, enumeration and pointer of the object (in the class, in the constructor, or before the first read in the passes of the writers)", 150)
    scalar = scalar_of(P)
    noret, ids = noreturns(P)
    ctx.need(len(ids) >= 1, "functions which always raise an error")
    for fn in list(P.functions.values()):
        if "body" not in fn or not (fn["q"].startswith("vega::") or fn["q"] == "main"):
            continue
        bodies = [fn["body"]] + [x["body"] for x in ir.nodes(fn["body"], "lambda") if isinstance(x.get("body"), dict)]
        for b in bodies:
            d = definite.Definite(P, fn, scalar, noret)
            d.run(b)
            badv = {}
            for v, n in d.bad:
                badv.setdefault(v["n"], (v, n))
            for v, n in badv.values():
                ctx.violation("local", "%s:%s" % (fn["q"].replace("vega::", ""), v["n"]), loc(fn, n), "%s reads %s on a path which gives it no value" % (fn["q"].replace("vega::", ""), v["n"]), fn)
            for v in d.tracked.values():
                if v["n"] not in badv:
                    ctx.ok("local", "%s:%s" % (fn["q"], v["n"]), fn)
    members(ctx, P, scalar, noret)


def members(ctx, P, scalar, noret):
    ctors = {}
    for f in P.functions.values():
        if f.get("kind") == "ctor" and "body" in f:
            ctors.setdefault(f.get("cls"), []).append(f)
    read, written = set(), {}
    for f in P.functions.values():
        if "body" not in f:
            continue
        for b in [f["body"]] + [i["e"] for i in f.get("inits", []) if i.get("e")]:
            left = set()
            for n in ir.walk(b):
                if n.get("k") == "asg" and n.get("op") == "=" and n["a"].get("k") == "mem":
                    left.add(id(n["a"]))
                    written.setdefault(n["a"].get("q"), []).append(f)
                if n.get("k") == "mem" and id(n) not in left:
                    read.add(n.get("q"))
    for c in sorted(P.classes.values(), key=lambda c: c["q"]):
        if not c["q"].startswith("vega::"):
            continue
        own = ctors.get(c["q"], [])
        for f in c["fields"]:
            if f.get("static") or not scalar(f["t"]):
                continue
            inst = "%s.%s" % (c["q"].replace("vega::", ""), f["n"])
            if f.get("hasinit"):
                ctx.ok("attribute", inst)
                continue
            missing = []
            for k in own:
                if any(i.get("field") == f["n"] and i.get("written", True) for i in k.get("inits", [])) or any(i.get("delegating") for i in k.get("inits", [])):
                    continue
                if not assigns(P, k, f, scalar, noret):
                    missing.append(k)
            if not missing:
                ctx.ok("attribute", inst)
            elif f["q"] not in read:
                ctx.ok("attribute", inst + " (never read)")
            elif (P.is_a(c["q"], "vega::Writer") or c["q"] in HELD) and f["q"] in written:
                ctx.ok("attribute", inst + " (set by the pass of the writer)")
            else:
                ctx.violation("attribute", inst, loc(missing[0]), "%s is left without a value by the constructor of %s (line %s)" % (f["n"], c["q"].replace("vega::", ""), missing[0]["l"]), missing[0])


# state of one pass of a writer: set when the pass begins
HELD = ("vega::systus::SystusMatrices",)


def assigns(P, k, f, scalar, noret):
    """the constructor's body assigns the attribute on every path"""
    d = definite.Definite(P, k, scalar, noret)

    class D(definite.Definite):
        def E(self, n, st):
            if n is not None and n.get("k") == "asg" and n.get("op") == "=" and n["a"].get("k") == "mem" and n["a"].get("q") == f["q"]:
                st = self.E(n["b"], st)
                return st if st is definite.ALL else st | {"F"}
            return super().E(n, st)
    d = D(P, k, scalar, noret)
    st = d.run(k["body"])
    return st is definite.ALL or "F" in st
