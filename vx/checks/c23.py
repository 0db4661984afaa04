"""C23: an error raised anywhere reaches a handler which is made for it."""
import re
from .. import ir, pp, escape, gfacts
from ..report import loc

# explicit throws which state an impossible state of the program (confirmed by reading): they may be reached by noexcept functions
ASSERTIONS = {
    "vega::Model::getLoadingsByLoadSet": "removing a loading removes it from its load sets",
    "vega::CoordinateSystemStorage::findByPosition": "coordinate system positions were given by the same storage",
    "vega::Mesh::findCell": "cell positions held by groups and iterators were given by the mesh",
    "vega::DOF::findByPosition": "positions come from iterators over 0..5",
    "vega::Model::Container::find": "a reference without any identifier cannot be built",
    "vega::DOFMatrix::addComponent": "the two triangles of a symmetric matrix are added consistently",
}


def plain(q):
    return re.sub(r"<.*?>(?=::|$)", "", q)


def strip(n):
    while n is not None and n.get("k") in ("cast", "icast", "paren"):
        n = n["e"]
    return n


def integral(t):
    return re.sub(r"const ", "", t or "") in ("int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "signed char", "unsigned char", "long long", "unsigned long long", "bool")


def run(ctx):
    P = ctx.P
    ctx.rule("handled", "every exception raised on the way of a translation is of a type that one of the handlers above it takes", 60)
    ctx.rule("noexcept", "no exception that the program raises leaves a function declared noexcept (or a destructor)", 300)
    ctx.rule("order", "no handler is hidden by an earlier handler of the same try block, and exceptions are caught by reference", 10)
    ctx.rule("text", "a text is never built by adding a number to a string literal (which moves the pointer)", 200)
    ctx.rule("lost", "a handler does something with what it caught: reports, answers, throws, or resumes at a place it sets", 8)
    ctx.rule("copied", "a handler which throws what it caught again throws the error itself, not a copy of its base class", 1)
    X = escape.Escape(P, True)
    main = [f for f in P.functions.values() if f["q"] == "main" and "body" in f]
    ctx.need(main, "anchor vanished: main()")
    out = X.get(main[0])
    reach = reachable(P, main[0])
    for f in P.functions.values():
        if "body" in f and f["id"] in reach:
            for n in ir.nodes(f["body"], "throw"):
                if n.get("e"):
                    ctx.ok("handled", "%s throws %s" % (f["q"], escape.norm(n["e"].get("t"))), f)
    for (t, _), (w, q) in sorted(out.items()):
        if not t.startswith("rethrow "):
            ctx.violation("handled", "%s from %s" % (t, plain(q)), "%s (%s)" % (w, q), "an exception of type %s raised here is caught by no handler: the program is aborted" % t)
    Y = escape.Escape(P, False)
    kn = gfacts.known(P)
    callers = {}
    for f in P.functions.values():
        if "body" in f:
            for n in ir.nodes(f["body"], "call"):
                g = P.functions.get(n.get("id"))
                if g is not None and g["q"] not in kn:
                    callers.setdefault(g["q"], set()).add(f["q"])

    def origins(q):
        """a helper which is new stands for its callers"""
        out, work, seen = set(), [q], set()
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in kn or x not in callers:
                out.add(plain(x))
            else:
                work += list(callers[x])
        return out
    for f in P.functions.values():
        if "body" not in f or not f["q"].startswith("vega::"):
            continue
        if f.get("noexcept") or f.get("kind") == "dtor":
            ctx.ok("noexcept", f["q"], f)
            for (t, _), (w, q) in sorted(Y.get(f).items()):
                if not origins(q) & set(ASSERTIONS):
                    ctx.violation("noexcept", "%s lets %s from %s" % (plain(f["q"]), t, plain(q)), loc(f, f), "is declared noexcept and lets an exception of type %s raised in %s (%s) out: the program is aborted" % (t, q, w), f)
        for n in ir.walk(f["body"]):
            if n.get("k") == "try":
                handlers(ctx, X, f, n)
            elif n.get("k") == "bin" and n.get("op") in ("+", "-"):
                for a, b in ((n["a"], n["b"]), (n["b"], n["a"])):
                    if strip(a).get("k") == "str":
                        ctx.ok("text", f["q"], f)
                        if integral(b.get("t")) or strip(b).get("k") == "int":
                            ctx.violation("text", "%s: %s" % (f["q"], pp.E(n)[:100]), loc(f, n), "adds a number to a string literal", f)
            elif n.get("k") == "call" and n.get("op") == "+":
                ctx.ok("text", f["q"], f)


def reachable(P, f):
    seen, work = {f["id"]}, [f]
    while work:
        f = work.pop()
        for n in ir.walk({"k": "block", "s": [f["body"]] + [i["e"] for i in f.get("inits") or [] if isinstance(i, dict) and i.get("e")]}):
            ids = [n.get("id")] if n.get("k") in ("call", "ctor", "ref", "mem") else []
            if n.get("k") == "call" and n.get("v") and n.get("id"):
                ids += list(P.overriders(n["id"]))
            for i in ids:
                g = P.functions.get(i)
                if g is not None and "body" in g and i not in seen:
                    seen.add(i)
                    work.append(g)
    return seen


ACT = ("return", "throw", "asg", "break", "continue", "call", "un")


def handlers(ctx, X, f, n):
    seen = []
    for h in n["h"]:
        t = X.handler(h)
        inst = "%s catch %s" % (f["q"], escape.norm(t) if t else "...")
        ctx.ok("order", inst, f)
        for s in seen:
            if s is None or t is not None and escape.norm(s) in X.bases(escape.norm(t)):
                ctx.violation("order", inst, loc(f, h if "l" in h else n), "an earlier handler (%s) takes these exceptions first" % (escape.norm(s) if s else "..."), f)
        seen.append(t)
        if t is not None and not t.rstrip().endswith("&") and not t.rstrip().endswith("*") and X.P.classes.get(escape.norm(t)) is not None or t is not None and escape.norm(t) in escape.STD and not t.rstrip().endswith("&"):
            ctx.violation("order", inst + " by value", loc(f, h if "l" in h else n), "catches by value: the concrete error is sliced", f)
        v = (h.get("v") or {}).get("id")
        for x in ir.nodes(h.get("body") or h.get("s") or {"k": "block"}, "throw"):
            e = x.get("e")
            ctx.ok("copied", "%s throw" % inst, f)
            while e is not None and (e["k"] in ("cast", "icast", "paren") or e["k"] == "ctor" and e.get("cp") and len(e["a"]) == 1):
                e = e["a"][0] if e["k"] == "ctor" else e["e"]
            if e is not None and e["k"] == "ref" and v is not None and e.get("id") == v:
                took = X.tryof(f, X.prune(n), None, {})[1][n["h"].index(h)]
                other = sorted({escape.norm(a[0]).replace("rethrow ", "") for a in took} - {escape.norm(t)})
                if other:
                    ctx.violation("copied", inst, loc(f, x), "throws a copy of type %s of the error it caught, which may be %s: what it was is lost" % (escape.norm(t), ", ".join(other[:4])), f)
        ctx.ok("lost", inst, f)
        b = h.get("body") or h.get("s")
        if b is None or not any(x.get("k") in ACT for x in ir.walk(b)):
            took = X.tryof(f, X.prune(n), None, {})[1][n["h"].index(h)]
            optional = t is not None and escape.norm(t) == "std::invalid_argument" and all("stoi" in q or "stod" in q for _, q in took.values())
            if not optional:
                ctx.violation("lost", inst, loc(f, h if "l" in h else n), "the handler does nothing: the error is lost", f)
