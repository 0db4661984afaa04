"""C28: a container is not changed, in a way that invalidates the traversal, while it is traversed."""
import re
from .. import ir, definite
from ..report import loc

VEC = re.compile(r"(const )?std::(vector|deque|basic_string|__cxx11::basic_string)<")
NODE = re.compile(r"(const )?(std::(map|set|multimap|multiset|list|forward_list)|boost::bimap\S*)<")
HASH = re.compile(r"(const )?std::unordered_\w+<")
GROW = {"push_back", "emplace_back", "insert", "emplace", "resize", "assign", "push_front", "emplace_front", "reserve", "swap", "operator=", "append"}
SHRINK = {"erase", "clear", "pop_back", "pop_front", "remove", "remove_if", "swap", "operator=", "assign", "extract"}
MODELC = "vega::Model::Container<"


def strip(n):
    while n is not None and n.get("k") in ("cast", "icast", "paren"):
        n = n["e"]
    return n


def path(n):
    """access path of a container: (root id, field, field, ...)"""
    n = strip(n)
    if n is None:
        return None
    k = n.get("k")
    if k == "ref":
        return (n.get("id") or n.get("q"),)
    if k == "this":
        return ("this",)
    if k == "mem":
        b = path(n.get("b")) if n.get("b") else ("this",)
        return b + (n["q"],) if b else None
    if k == "un" and n.get("op") == "*":
        return path(n["e"])
    if k == "call" and n.get("op") in ("->", "*") and n.get("o") is not None:
        return path(n["o"])
    return None


def invalidating(t, name, ty):
    if VEC.match(t) or HASH.match(t):
        return name in GROW or name in SHRINK or (HASH.match(t) and name == "operator[]")
    if NODE.match(t):
        return name in SHRINK
    return False


class Mods:
    """fields of the object which a member function changes, transitively: {function id: {(field, call name)}}"""
    def __init__(self, P):
        self.P, self.cache = P, {}

    def of(self, i, depth=0):
        if i in self.cache:
            return self.cache[i]
        self.cache[i] = set()
        f = self.P.functions.get(i)
        out = set()
        if f is None or "body" not in f or f.get("const") or depth > 8:
            return out
        for n in ir.walk(f["body"]):
            if n.get("k") != "call" or n.get("o") is None:
                continue
            p = path(n["o"])
            if p is None or p[0] != "this":
                continue
            if len(p) > 1 and not (n.get("q") or "").startswith("vega::"):
                out.add((p[1:], n["n"], n["o"].get("t") or ""))
            elif (n.get("q") or "").startswith("vega::"):
                for fld, m, t in self.of(n["id"], depth + 1):
                    out.add((p[1:] + fld, m, t))
        self.cache[i] = out
        return out


def bare(n):
    n = strip(n)
    while n is not None and n.get("k") == "ctor" and len(n.get("a") or []) == 1:
        n = strip(n["a"][0])
    return n


class Live(definite.Definite):
    """the state holds the local iterators whose element is still in its container"""
    def __init__(self, P, fn, noret):
        super().__init__(P, fn, lambda t: False, noret)
        self.known, self.bad, self.erased, self.names = set(), [], [], {}

    def decl(self, v, st):
        if v.get("init") is not None:
            st = self.E(v["init"], st)
        if "iterator" in (v.get("t") or "") and "&" not in v["t"]:
            self.known.add(v["id"])
            return st if st is definite.ALL else st | {v["id"]}
        return st

    def E(self, n, st):
        if n is None:
            return st
        k = n.get("k")
        if k == "lambda":
            return st
        if k == "ref" and n.get("id") in self.known:
            if st is not definite.ALL and n["id"] not in st:
                self.bad.append(n)
                return st | {n["id"]}
            return st
        if k == "asg" and n["a"].get("k") == "ref" or k == "call" and n.get("op") == "=" and (n.get("o") or {}).get("k") == "ref":
            tgt = n["a"] if k == "asg" else n["o"]
            st = self.E(n["b"] if k == "asg" else n["a"][0], st)
            return st | {tgt["id"]} if st is not definite.ALL and tgt.get("id") in self.known else st
        st = super().E(n, st)
        if k == "call" and n.get("n") in ("erase", "extract") and len(n.get("a") or []) == 1 and st is not definite.ALL:
            a = bare(n["a"][0])
            if a is not None and a.get("k") == "ref" and a.get("id") in self.known:
                self.erased.append(n)
                return st - {a["id"]}
        return st

    def S(self, s, st):
        if s is not None and s.get("k") in ("while", "for") and st is not definite.ALL:
            # the condition and the body once more, after the body
            body = {"k": "block", "s": [s["body"]], "l": s.get("l")}
            lost = set()
            for c in ir.nodes(s["body"], "call"):
                if c.get("n") in ("erase", "extract") and len(c.get("a") or []) == 1:
                    a = bare(c["a"][0])
                    if a is not None and a.get("k") == "ref":
                        lost.add(a.get("id"))
            if lost and s.get("c") is not None:
                if s.get("init"):
                    st = self.S(s["init"], st)
                inc = [{"k": "expr", "e": s["inc"]}] if s.get("inc") else []
                again = {"k": "expr", "e": s["c"]}
                self.loops.append([definite.ALL, definite.ALL])
                t, f = self.C(s["c"], st)
                e = definite.meet(self.S(body, t), self.loops[-1][1])
                self.loops.pop()
                for x in inc + [again]:
                    e = self.S(x, e)
        return super().S(s, st)


def run(ctx):
    P = ctx.P
    from . import c12
    noret, _ = c12.noreturns(P)
    ctx.rule("erased", "an iterator whose element has been erased is given another one before it is used again", 1)
    for fn in list(P.functions.values()):
        if "body" not in fn or not (fn["q"].startswith("vega::") or fn["q"] == "main"):
            continue
        for b in [fn["body"]] + [x["body"] for x in ir.nodes(fn["body"], "lambda") if isinstance(x.get("body"), dict)]:
            d = Live(P, fn, noret)
            d.run(b)
            short = fn["q"].replace("vega::", "")
            for n in d.bad[:1]:
                ctx.violation("erased", "%s:%s" % (short, n["n"]), loc(fn, n), "%s uses the iterator %s after its element has been erased" % (short, n["n"]), fn)
            for n in d.erased:
                if not d.bad:
                    ctx.ok("erased", short, fn)
    ctx.rule("traversal", "nothing in the body of a loop over a container invalidates the iterators of that container, unless the loop is left at once", 300)
    mods = Mods(P)
    for fn in list(P.functions.values()):
        if "body" not in fn or not (fn["q"].startswith("vega::") or fn["q"] == "main"):
            continue
        alias = {}
        for n in ir.nodes(fn["body"], "decl"):
            for v in n["v"]:
                if v.get("init") is not None and (v.get("t") or "").endswith("&") or v.get("ref"):
                    p = path(v["init"])
                    if p:
                        alias[v["id"]] = p
        short = fn["q"].replace("vega::", "")
        for n in ir.nodes(fn["body"], "rfor", "for", "while"):
            for cp, ct, what in traversed(P, n, alias):
                bad = None
                for c in effective(n["body"]):
                    if c.get("k") != "call" or c.get("o") is None:
                        continue
                    p = canon(path(c["o"]), alias)
                    if p is None:
                        continue
                    if p == cp and invalidating(ct, c["n"], None):
                        bad = c
                    elif (c.get("q") or "").startswith("vega::"):
                        for fld, m, t in mods.of(c["id"]):
                            if p + fld == cp and invalidating(ct, m, None):
                                bad = c
                    if bad is not None and n["k"] != "rfor" and renewed(bad):
                        bad = None
                    if bad is not None:
                        break
                if bad is not None:
                    ctx.violation("traversal", "%s:%s.%s" % (short, what, bad["n"]), loc(fn, bad), "%s changes %s (%s) while it traverses it" % (short, what, bad["n"]), fn)
                else:
                    ctx.ok("traversal", "%s:%s" % (short, what), fn)


def renewed(c):
    return c.get("n") in ("erase", "insert")


def canon(p, alias):
    d = 0
    while p and p[0] in alias and d < 5:
        p = alias[p[0]] + p[1:]
        d += 1
    return p


def traversed(P, n, alias):
    if n["k"] == "rfor":
        r = strip(n["r"])
        p = canon(path(r), alias)
        if p:
            yield from storage(P, p, r.get("t") or "", r.get("n") or "it")
        return
    # for (it = c.begin(); ...) and while over an iterator
    if n.get("init") is not None:
        for c in ir.nodes(n["init"], "call"):
            if c.get("n") in ("begin", "cbegin", "rbegin") and c.get("o") is not None:
                p = canon(path(c["o"]), alias)
                if p:
                    yield from storage(P, p, c["o"].get("t") or "", c["o"].get("n") or "it")


def storage(P, p, t, name):
    t = t.replace("const ", "")
    if t.startswith(MODELC):
        begin = [f for f in P.functions.values() if f.get("cls") == t and f["n"] == "begin" and "body" in f]
        used = {x.get("q") for b in begin for x in ir.nodes(b["body"], "mem")}
        for f in (P.classes.get(t) or {}).get("fields", ()):
            if begin and f["q"] not in used:
                continue
            if NODE.match(f["t"]) or HASH.match(f["t"]) or VEC.match(f["t"]):
                yield p + (f["q"],), f["t"], name
        return
    if VEC.match(t) or NODE.match(t) or HASH.match(t):
        yield p, t, name


def effective(body):
    """nodes of the body, without the blocks which leave the loop at their end"""
    def leaves(b):
        ss = b["s"] if b.get("k") == "block" else [b]
        return bool(ss) and ss[-1].get("k") in ("break", "return") or bool(ss) and ss[-1].get("k") == "expr" and ss[-1]["e"].get("k") == "throw"

    def rec(n):
        if n.get("k") == "block" and leaves(n) and n is not body:
            return
        if n.get("k") == "lambda":
            return
        yield n
        for c in ir.children(n):
            yield from rec(c)
    if leaves(body) and body.get("k") == "block":
        return
    yield from rec(body)
