"""C38: every kind is dealt with, as what it is."""
import json, os, re
from .. import ir, pp, kinds
from ..definite import ALL, Definite, meet
from ..report import loc
from . import c22, c39

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tables", "c38.json")
# kinds which several classes share on purpose: the other kind of the same classes tells them apart
SHARED = {"vega::CoordinateSystem::Type"}


class Casts(c22.Facts):
    """under which kind each downcast is made"""

    def __init__(self, P, fn, out):
        c22.Facts.__init__(self, P, fn, lambda *a: None, {"n": 0, "noret": c22.noreturn})
        self.out, self.expr, self.only = out, {}, {}

    def text(self, n):
        t = c22.Facts.text(self, n)
        self.expr.setdefault(t, c22.strip(n))
        return t

    def kindset(self, n):
        """kind by which a container was filtered"""
        n = c22.strip(n)
        if n.get("k") == "ref":
            return self.only.get(n.get("id"))
        if n.get("k") == "call" and n.get("n") == "filter" and n.get("a"):
            c = c22.const(n["a"][0])
            if c and c[0] == "enum":
                return c[1]
        return None

    def decl(self, v, st):
        if v.get("init") is not None:
            k = self.kindset(v["init"])
            if k:
                self.only[v["id"]] = k
        return c22.Facts.decl(self, v, st)

    def S(self, s, st):
        if s is not None and s.get("k") == "rfor":
            k = self.kindset(s["r"])
            if k:
                self.only[s["v"]["id"]] = k
        return c22.Facts.S(self, s, st)

    def obj(self, n):
        n = c22.strip(n)
        while n is not None and (n.get("k") == "call" and (n.get("op") in ("->", "*") or n.get("n") == "get") and n.get("o") is not None or n.get("k") == "un" and n.get("op") == "*"):
            n = c22.strip(n["o"] if n["k"] == "call" else n["e"])
        return n

    def E(self, n, st):
        if n is not None and st is not ALL and n.get("k") == "call" and n.get("n") == "static_pointer_cast" and n.get("a"):
            x = self.obj(n["a"][0])
            if self.pure(x):
                tx = self.text(x)
                ks = set()
                for t, op, c in st:
                    if op == "==" and c[0] == "enum":
                        e = self.expr.get(t)
                        if e is not None and e.get("k") in ("mem", "call"):
                            b = self.obj(e["b"] if e["k"] == "mem" else e.get("o") or e)
                            if self.pure(b) and self.text(b) == tx:
                                ks.add(c[1])
                if x.get("k") == "ref" and x.get("id") in self.only:
                    ks.add(self.only[x["id"]])
                self.out.setdefault(id(n), (n, set()))[1].update(ks)
        return c22.Facts.E(self, n, st)


class Reach(Definite):
    """whether the end of each group of a switch is reached"""

    def __init__(self, P, fn):
        Definite.__init__(self, P, fn, lambda t: False, c22.noreturn)
        self.fall = []

    def E(self, n, st):
        if n is None or st is ALL:
            return st
        for x in ir.walk(n):
            if x.get("k") == "throw" and n is x or x.get("k") == "call" and c22.noreturn(x) and x is n:
                return ALL
        return st

    def C(self, n, st):
        return (st, st) if not (n and n.get("k") == "bool") else ((st, ALL) if n["v"] else (ALL, st))

    def decl(self, v, st):
        return st

    def S(self, s, st):
        if s is None or st is ALL:
            return st
        if s.get("k") != "switch":
            return Definite.S(self, s, st)
        self.loops.append([ALL, False])
        cur, default, labels, some = ALL, False, set(), None
        body = s["body"]
        for x in (body["s"] if body.get("k") == "block" else [body]):
            first = True
            while x is not None and x.get("k") in ("case", "default"):
                if first and cur is not ALL and some is not None:
                    self.fall.append((s, some, x))
                first = False
                if x["k"] == "default":
                    default = True
                else:
                    labels.add(c22.strip(x["v"]).get("n"))
                cur, some = st, None
                x = x.get("s")
            if x is not None:
                cur = self.S(x, cur)
                if x.get("k") not in ("nop", "null") and not (x.get("k") == "block" and not x["s"]) and not (x.get("k") == "expr" and x["e"].get("k") == "cast"):
                    some = x
        lp = self.loops.pop()
        out = meet(cur, lp[0])
        e = enum(self.P, s["c"])
        if not default and not (e and labels >= {v["n"] for v in e["e"]}):
            out = meet(out, st)
        return out


def enum(P, c):
    while c is not None:
        e = P.enums.get((c.get("t") or "").replace("const ", ""))
        if e or c.get("k") not in ("icast", "cast", "paren"):
            return e
        c = c["e"]
    return None


def own(fn):
    return "body" in fn and fn["q"].startswith("vega")


def mentions(fn):
    return {((n.get("t") or "").replace("const ", ""), n["n"]) for p in [fn["body"]] + [i["e"] for i in fn.get("inits") or [] if isinstance(i, dict) and i.get("e")] for n in ir.walk(p)
            if n.get("k") == "ref" and n.get("dk") == "enumc" and (n.get("t") or "").startswith(("vega", "const vega"))}


def distinguished(fn):
    """enumerators which the function tells from others: in case labels and comparisons"""
    out = set()
    for n in ir.walk(fn["body"]):
        if n.get("k") in ("bin", "call") and n.get("op") in ("==", "!="):
            sides = [n["a"], n["b"]] if n["k"] == "bin" else ([n["o"]] if n.get("o") is not None else []) + n["a"]
        elif n.get("k") == "case":
            sides = [n["v"]]
        else:
            continue
        for x in sides:
            x = c22.strip(x)
            if x.get("k") == "ref" and x.get("dk") == "enumc" and (x.get("t") or "").startswith(("vega", "const vega")):
                out.add(((x.get("t") or "").replace("const ", ""), x["n"]))
    return out


def freeze(P):
    out = {}
    for fn in P.functions.values():
        if own(fn) and "<" not in fn["q"]:
            for e in distinguished(fn):
                out.setdefault(fn["q"], set()).add("::".join(e))
    return {q: sorted(v) for q, v in out.items()}


def run(ctx):
    P = ctx.P
    by = kinds.kinds(P)
    ctx.rule("cast", "where an entity is treated as a class under a kind, every class that is constructed with that kind is that class or derives from it", 70)
    ctx.rule("kind", "a kind stands for one class (or one class and those derived from it)", 60)
    ctx.rule("through", "no alternative of a switch runs into the next one", 250)
    ctx.rule("total", "a switch over kinds without default has an alternative for each of them that the program can produce", 0)
    ctx.rule("still", "each kind that was told from the others where the table was confirmed is still told from them there", 250)
    ctx.rule("name", "two kinds do not have the same name, in the tables that name them", 30)
    for (t, e), cl in sorted(by.items()):
        if t in SHARED:
            continue
        top = [c for c in cl if all(kinds.derives(P, d, c) for d in cl)]
        if not top:
            # a common base which is no class of its own kind
            commons = [c for c in P.classes if c.startswith("vega") and all(kinds.derives(P, d, c) for d in cl)]
            kinds_of = {k for k, v in by.items() if k[0] == t and any(kinds.derives(P, d, c) for c in commons for d in v)}
            near = [c for c in commons if {k for k, v in by.items() if k[0] == t and any(kinds.derives(P, d, c) for d in v)} == {(t, e)}]
            if not near:
                c = sorted(cl)[-1]
                ctx.violation("kind", "%s::%s" % (t, e), loc(cl[c]), "%s are all constructed with %s::%s: what depends on it cannot tell them apart" % (" and ".join(sorted(cl)), t, e), cl[c])
                continue
        ctx.ok("kind", "%s::%s" % (t, e))
    used = c39.used(P)
    table = json.load(open(TABLE))
    allf = {}
    for fn in P.functions.values():
        if own(fn):
            allf.setdefault(fn["q"], []).append(fn)
    kn = None
    for fn in P.functions.values():
        if not own(fn):
            continue
        out = {}
        if any(n.get("n") == "static_pointer_cast" for n in ir.nodes(fn["body"], "call")):
            Casts(P, fn, out).S(fn["body"], frozenset())
        for n, ks in out.values():
            T = (n.get("ta") or [""])[0].replace("const ", "").strip()
            cl = None
            for k in sorted(ks):
                c = by.get(tuple(k.rsplit("::", 1)))
                if c:
                    cl = set(c) if cl is None else cl & set(c)
            if not cl or T not in P.classes:
                continue
            k = " and ".join(sorted(k for k in ks if tuple(k.rsplit("::", 1)) in by))
            bad = sorted(c for c in cl if not kinds.derives(P, c, T) and not kinds.derives(P, T, c))
            if bad:
                ctx.violation("cast", "%s:%s:%s" % (fn["q"], k, T), loc(fn, n), "an entity of the kind %s is treated as %s, but %s is constructed with that kind" % (k, T, ", ".join(bad)), fn)
            else:
                ctx.ok("cast", "%s:%s:%s" % (fn["q"], k, T), fn)
        sw = [n for n in ir.nodes(fn["body"], "switch")]
        if sw:
            r = Reach(P, fn)
            r.S(fn["body"], frozenset())
            for s, a, x in r.fall:
                ctx.violation("through", "%s:%s" % (fn["q"], pp.E(x["v"]) if x.get("v") else "default"), loc(fn, x), "what is done for the alternative before runs on into `%s`" % ("case " + pp.E(x["v"]) if x.get("v") else "default"), fn)
            for s in sw:
                labels, default = set(), False
                for x in ir.walk(s["body"]):
                    if x.get("k") == "case":
                        labels.add(c22.strip(x["v"]).get("n"))
                        ctx.ok("through", "%s:%s" % (fn["q"], pp.E(x["v"])), fn)
                    elif x.get("k") == "default":
                        default = True
                e = enum(P, s["c"])
                if e and not default:
                    en = e.get("q") or e.get("n")
                    miss = [v["n"] for v in e["e"] if v["n"] not in labels and (en, v["n"]) in used]
                    if miss:
                        ctx.violation("total", "%s:%s" % (fn["q"], en), loc(fn, s), "the switch over %s has no alternative for %s and no default" % (en, ", ".join(miss)), fn)
                    else:
                        ctx.ok("total", "%s:%s" % (fn["q"], en), fn)
    from .. import gfacts
    kn = gfacts.known(P)
    ids = {}
    for q, es in table.items():
        if q not in allf:
            continue
        have = set()
        todo, seen = list(allf[q]), set()
        while todo:
            f = todo.pop()
            if f["id"] in seen:
                continue
            seen.add(f["id"])
            have |= {"::".join(m) for m in mentions(f)}
            for n in ir.walk(f["body"]):
                if n.get("k") == "call" and n.get("id") in P.functions:
                    g = P.functions[n["id"]]
                    if "body" in g and g["q"] not in kn:
                        todo.append(g)
                elif n.get("k") == "ref" and n.get("dk") == "global":
                    g = P.globals.get(n.get("id"))
                    if g and "init" in g:
                        for m in ir.walk(g["init"]):
                            if m.get("k") == "ref" and m.get("dk") == "enumc":
                                have.add("%s::%s" % ((m.get("t") or "").replace("const ", ""), m["n"]))
        f = allf[q][0]
        if not have and es and len(es) < 3:
            continue
        for e in es:
            if e in have:
                ctx.ok("still", "%s:%s" % (q, e), f)
            else:
                ctx.violation("still", "%s:%s" % (q, e), loc(f), "%s no longer tells %s from the other kinds" % (q, e), f)
    for g in P.globals.values():
        if "init" not in g or not g["q"].startswith("vega") or not re.search(r"stringBy|toString|ByString|SOLVERNAME|stringSystus|ByInterpolation|NomPara", g["q"]):
            continue
        names = {}
        for c, n in c22.keys(g["init"]):
            v = c22.const(n["a"][1]) if len(n["a"]) > 1 else None
            if v and v[0] == "str":
                names.setdefault(v[1], []).append((c[1], n))
        for v, l in names.items():
            key = "%s:%s" % (g["q"], v)
            if len(l) > 1 and key not in SAME:
                ctx.violation("name", key, "%s:%s" % (g.get("f"), l[1][1].get("l")), "%s gives the name \"%s\" to %s" % (g["q"], v, " and ".join(str(x[0]) for x in l)))
            else:
                ctx.ok("name", key)


# two kinds which do have the same name
SAME = set()
