"""C20: every loop moves on towards its end in each of its iterations."""
import re
from .. import ir, pp
from ..definite import Definite, meet, ALL
from ..report import loc

TOK = "vega::nastran::NastranTokenizer"
# methods which consume what is there (when there is nothing left they answer a default, or throw)
CONSUME = re.compile(r"^(next(?!SymbolType)\w*|skip\w*|readLine\w*|replaceTabs)$")
GROW = {"push_back", "emplace_back", "insert", "emplace", "push_front", "resize", "append", "operator+=", "push"}
SHRINK = {"erase", "pop_back", "pop_front", "pop", "clear", "remove_prefix", "remove_suffix", "advance"}
STREAM = re.compile(r"basic_(i|o|f|if|of|s|is|os)?\w*stream|filtering_stream")


def strip(n):
    while n is not None and n.get("k") in ("cast", "icast", "paren"):
        n = n["e"]
    return n


def roots(n):
    """the variables and attributes that an expression names"""
    out = set()
    for x in ir.walk(n):
        k = x.get("k")
        if k == "ref" and x.get("id") and x.get("dk") not in ("enumc", "func"):
            out.add(x["id"])
        elif k == "mem":
            o = strip(x.get("o") or x.get("e") or {})
            if o.get("k") == "this":
                out.add("this." + x["n"])
        elif k == "this":
            out.add("this")
    return out


def leaves(n):
    """the alternatives of a condition"""
    n = strip(n)
    if n.get("k") == "bin" and n.get("op") == "||":
        return leaves(n["a"]) | leaves(n["b"])
    return frozenset([pp.E(n)])


def root(n):
    n = strip(n)
    while n is not None:
        k = n.get("k")
        if k == "ref":
            return n.get("id")
        if k == "this":
            return "this"
        if k == "mem":
            o = strip(n.get("o") or n.get("e") or {})
            if o.get("k") == "this" or not o:
                return "this." + n["n"]
            n = o
            continue
        if k == "un" and n.get("op") in ("*", "&"):
            n = strip(n["e"])
            continue
        if k == "call" and n.get("o") is not None and (n.get("op") in ("*", "->", "[]", "++", "--", "<<", ">>") or n.get("n") in ("begin", "end", "rbegin", "rend")):
            n = strip(n["o"])
            continue
        if k == "sub" or k == "idx":
            n = strip(n.get("a") or n.get("e"))
            continue
        return None
    return None


class Adv(Definite):
    """the resources which have moved on every path"""

    def __init__(self, P, fn, summ, track=None):
        Definite.__init__(self, P, fn, lambda t: False)
        self.summ, self.rets, self.backs = summ, ALL, {}
        self.heads, self.neg = [], frozenset()

    def E(self, n, st):
        if n is None or st is ALL:
            return st
        k = n.get("k")
        if k == "asg":
            st = self.E(n["b"], self.sub(n["a"], st))
            r = root(n["a"])
            if r and pp.E(n["a"]) != pp.E(n["b"]):
                st = st | {r}
            return st
        if k == "un" and n.get("op") in ("++", "--"):
            st = self.sub(n, st)
            r = root(n["e"])
            return st | {r} if r else st
        if k == "bin" and n.get("op") in ("&&", "||"):
            a = self.E(n["a"], st)
            return meet(a, self.E(n["b"], a))
        if k == "cond":
            st = self.E(n["c"], st)
            return meet(self.E(n["a"], st), self.E(n["b"], st))
        if k == "lambda":
            return st
        if k == "throw":
            return ALL
        if k in ("call", "ctor"):
            st = self.sub(n, st)
            if st is ALL:
                return st
            add = set()
            q, name, op = n.get("q") or "", n.get("n") or "", n.get("op")
            o, args = n.get("o"), n.get("a") or []
            both = ([o] if o is not None else []) + list(args)
            if op in ("++", "--", "+=", "-=", "=", ">>", "<<", "/=", "*="):
                lhs = both[0]
                if not (op == "=" and len(both) > 1 and pp.E(both[0]) == pp.E(both[1])):
                    add.add(root(lhs))
                    if op == ">>" and len(both) > 1:
                        add.add(root(both[1]))
            elif q.startswith(TOK + "::") and CONSUME.match(name) and name not in ("nextSymbolType",):
                add.add(root(o) if o is not None else "this")
            elif q.startswith(("std::", "boost::")):
                if name in GROW | SHRINK and o is not None:
                    add.add(root(o))
                if name in ("getline", "advance") and args:
                    add.add(root(args[0]))
                    if len(args) > 1:
                        add.add(root(args[1]))
                if name in ("read", "get", "ignore", "operator>>") and o is not None:
                    add.add(root(o))
            else:
                f = self.P.functions.get(n.get("id"))
                if f is not None and "body" in f:
                    s = self.summ(f)
                    if s is ALL:
                        return ALL
                    for r in s:
                        if r == "this":
                            add.add(root(o) if o is not None else "this")
                        elif isinstance(r, int) and r < len(args):
                            add.add(root(args[r]))
            add.discard(None)
            return st | add
        return self.sub(n, st)

    def C(self, n, st):
        k = (n or {}).get("k")
        if k in ("paren", "icast", "cast"):
            return self.C(n["e"], st)
        if k == "int":
            return (st, ALL) if str(n.get("v")) != "0" else (ALL, st)
        return Definite.C(self, n, st)

    def S(self, s, st):
        if s is not None and s.get("k") in ("while", "for", "do"):
            return self.loop(s, st)
        if s is not None and s.get("k") == "if" and st is not ALL and self.heads and not s.get("init") and not s.get("cv"):
            # a chain of alternatives which covers the loop condition
            t, f = self.C(s["c"], st)
            keep = self.neg
            self.neg = keep | leaves(s["c"])
            if self.heads[-1] and self.heads[-1] <= self.neg:
                f = ALL
            a = self.S(s["a"], t)
            b = self.S(s.get("b"), f)
            self.neg = keep
            return meet(a, b)
        if s is not None and s.get("k") == "return":
            self.rets = meet(self.rets, self.E(s.get("e"), st))
            return ALL
        return Definite.S(self, s, st)

    def loop(self, s, st):
        k = s["k"]
        if s.get("init"):
            st = self.S(s["init"], st)
        if s.get("cv"):
            st = self.decl(s["cv"], st)
        if st is ALL:
            return ALL
        # one iteration from nothing
        e0 = frozenset()
        self.loops.append([ALL, ALL])
        self.heads.append(leaves(s["c"]) if s.get("c") and k != "do" else frozenset())
        keep, self.neg = self.neg, frozenset()
        if k == "do":
            e = self.S(s["body"], e0)
            back, _ = self.C(s["c"], meet(e, self.loops[-1][1]))
        else:
            t, _ = self.C(s.get("c"), e0)
            e = self.S(s["body"], t)
            back = meet(e, self.loops[-1][1])
            if s.get("inc") and back is not ALL:
                back = self.E(s["inc"], back)
        self.loops.pop()
        self.heads.pop()
        self.neg = keep
        self.backs[id(s)] = (s, back)
        # the state after it
        self.loops.append([ALL, ALL])
        if k == "do":
            e = self.S(s["body"], st)
            _, out = self.C(s["c"], meet(e, self.loops[-1][1]))
        else:
            t, out = self.C(s.get("c"), st)
            self.S(s["body"], t)
            if s.get("c") is None:
                out = ALL
        lp = self.loops.pop()
        return meet(out, lp[0])

    def decl(self, v, st):
        return self.E(v["init"], st) if v.get("init") is not None and st is not ALL else st


def summary(P):
    memo = {}

    def f(fn):
        i = fn["id"]
        if i in memo:
            return memo[i]
        memo[i] = frozenset()
        a = Adv(P, fn, f)
        end = meet(a.S(fn["body"], frozenset()), a.rets)
        if end is ALL:
            memo[i] = ALL
            return ALL
        ps = {p["id"]: j for j, p in enumerate(fn["p"]) if p.get("id")}
        out = set()
        for r in end:
            if r == "this" or isinstance(r, str) and r.startswith("this."):
                out.add("this")
            elif r in ps and (fn["p"][ps[r]].get("t") or "").endswith(("&", "*")):
                out.add(ps[r])
        memo[i] = frozenset(out)
        return memo[i]
    return f


def exits(body):
    """conditions under which the loop is left from inside"""
    out = []

    def go(n, conds, inner):
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k in ("return", "throw") or k == "break" and not inner:
            out.extend(conds)
            return
        if k == "if":
            go(n["a"], conds + [n["c"]], inner)
            if n.get("b"):
                go(n["b"], conds + [n["c"]], inner)
            return
        if k == "switch":
            go(n["body"], conds + [n["c"]], True)
            return
        if k == "lambda":
            return
        if k in ("while", "for", "do", "rfor"):
            go(n["body"], conds + ([n["c"]] if n.get("c") else []), True)
            return
        for c in ir.children(n):
            go(c, conds, inner)
    go(body, [], False)
    return out


def relevant(s):
    R = set()
    c = s.get("c")
    const = c is None or strip(c).get("k") in ("bool", "int")
    if not const:
        R |= roots(c)
    if const:
        for e in exits(s["body"]):
            R |= roots(e)
    # what these depend on within the body
    deps = []

    def go(n, conds):
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "if":
            go(n["c"], conds)
            cc = conds | roots(n["c"])
            go(n["a"], cc)
            if n.get("b"):
                go(n["b"], cc)
            return
        if k in ("while", "for", "do", "switch") and n.get("c"):
            conds = conds | roots(n["c"])
        if k == "asg":
            deps.append((root(n["a"]), roots(n["b"]) | conds))
        if k == "call" and n.get("op") in ("=", "+=", ">>") and (n.get("o") is not None or n.get("a")):
            both = ([n["o"]] if n.get("o") is not None else []) + list(n.get("a") or [])
            deps.append((root(both[0]), conds.union(*[roots(x) for x in both[1:]])))
        if k == "decl":
            for v in n["v"]:
                if v.get("init") is not None:
                    deps.append((v["id"], roots(v["init"]) | conds))
        for x in ir.children(n):
            go(x, conds)
    go(s["body"], set())
    ch = True
    while ch:
        ch = False
        for a, b in deps:
            if a in R and not b <= R:
                R |= b
                ch = True
    return R


def step(n):
    """(variable, +1/-1) of an increment expression"""
    n = strip(n)
    if n.get("k") == "un" and n.get("op") in ("++", "--"):
        return root(n["e"]), 1 if n["op"] == "++" else -1
    if n.get("k") == "call" and n.get("op") in ("++", "--"):
        o = n.get("o") or (n.get("a") or [None])[0]
        return root(o), 1 if n["op"] == "++" else -1
    if n.get("k") == "asg" and n.get("op") in ("+=", "-="):
        b = strip(n["b"])
        neg = b.get("k") == "un" and b.get("op") == "-"
        if neg:
            b = strip(b["e"])
        if b.get("k") in ("int", "float"):
            return root(n["a"]), (1 if n["op"] == "+=" else -1) * (-1 if neg else 1)
    return None, 0


def run(ctx):
    P = ctx.P
    ctx.rule("progress", "on every path through an iteration, something on which the end of the loop depends moves on (a field or a line is consumed, an iterator or counter stepped, a container changed)", 120)
    ctx.rule("direction", "the counter of a loop steps towards the bound it is compared with", 80)
    ctx.rule("recursion", "no function calls itself again, directly or through others, except along the finite structures that were confirmed", 0)
    S = summary(P)
    for fn in list(P.functions.values()):
        if "body" not in fn or not fn["q"].startswith("vega::"):
            continue
        bodies = [fn["body"]] + [x["body"] for x in ir.nodes(fn["body"], "lambda") if x.get("body")]
        for b in bodies:
            lam = set()
            if b is fn["body"]:
                for x in ir.nodes(b, "lambda"):
                    lam |= {id(y) for y in ir.walk(x)}
            if not any(x.get("k") in ("while", "for", "do") and id(x) not in lam for x in ir.walk(b)):
                continue
            a = Adv(P, fn, S)
            a.S(b, frozenset())
            for s, back in a.backs.values():
                loop(ctx, fn, s, back)
    recursion(ctx, P)


def loop(ctx, fn, s, back):
    R = relevant(s)
    inst = "%s:%s %s" % (fn["q"], s["k"], pp.E(s["c"])[:120] if s.get("c") else "(;;)")
    at = loc(fn, s)
    if back is not ALL and not (set(back) & R):
        # an attribute of this object stands for the object
        if not ("this" in R and any(str(r).startswith("this") for r in back)) and not ("this" in back and any(str(r).startswith("this") for r in R)):
            ctx.violation("progress", inst, at, "an iteration can end without any step: the loop depends on %s" % (", ".join(sorted(name(fn, r) for r in R)) or "nothing"), fn)
    ctx.ok("progress", inst, fn)
    if s["k"] == "for" and s.get("inc") and s.get("c"):
        v, d = step(s["inc"])
        if v:
            for x in ir.walk(s["c"]):
                if x.get("k") == "lambda":
                    break
                pair = None
                if x.get("k") == "bin" and x.get("op") in ("<", "<=", ">", ">="):
                    pair = (x["a"], x["b"], x["op"])
                elif x.get("k") == "call" and x.get("op") in ("<", "<=", ">", ">="):
                    both = ([x["o"]] if x.get("o") is not None else []) + list(x.get("a") or [])
                    if len(both) == 2:
                        pair = (both[0], both[1], x["op"])
                if not pair:
                    continue
                a, b, op = pair
                ra, rb = plain(a), plain(b)
                if v not in (ra, rb):
                    continue
                up = (op[0] == "<") == (v == ra)
                ctx.ok("direction", inst, fn)
                if up != (d > 0):
                    ctx.violation("direction", inst, at, "the counter moves away from its bound", fn)
                if not up and op in (">=", "<=") and v == ra and unsigned(a) and zero(b):
                    ctx.violation("direction", inst, at, "an unsigned counter is always >= 0", fn)


def plain(n):
    n = strip(n)
    return n.get("id") if n.get("k") == "ref" else root(n) if n.get("k") == "mem" else None


def unsigned(n):
    return (strip(n).get("t") or "").replace("const ", "").startswith(("unsigned", "size_t"))


def zero(n):
    n = strip(n)
    return n.get("k") == "int" and str(n.get("v")) == "0"


def name(fn, r):
    r = str(r)
    for p in fn["p"]:
        if p.get("id") == r:
            return p["n"]
    if r.startswith("this"):
        return r
    for x in ir.walk(fn["body"]):
        if x.get("k") == "ref" and x.get("id") == r:
            return x.get("n") or r
    return r


# recursion along finite structures, confirmed by reading
CONFIRMED = {
    "vega::CellContainer::hasCellsIncludingGroups": "groups of a container, by name: finite nesting",
    "vega::CellContainer::getCellsIncludingGroups": "groups of a container, by name: finite nesting",
    "vega::CellContainer::getCellPositionsIncludingGroups": "groups of a container, by name: finite nesting",
    "vega::CellContainer::getCellIdsIncludingGroups": "groups of a container, by name: finite nesting",
    "vega::nastran::NastranTokenizer::splitFreeFormat": "each call has read a line of the input",
    "vega::nastran::NastranTokenizer::splitFixedFormat": "each call has read a line of the input",
}


def recursion(ctx, P):
    g = {}
    for f in P.functions.values():
        if "body" not in f or not f["q"].startswith("vega::"):
            continue
        out = set()
        for n in ir.walk({"k": "block", "s": [f["body"]] + [x["e"] for x in f.get("inits") or [] if isinstance(x, dict) and x.get("e")]}):
            if n.get("k") in ("call", "ctor") and n.get("id") in P.functions:
                out.add(n["id"])
                if n.get("v"):
                    out |= set(P.overriders(n["id"]))
        g[f["id"]] = {x for x in out if x in P.functions and "body" in P.functions[x]}
    for c in sccs(g):
        if len(c) > 1 or c[0] in g.get(c[0], ()):
            names = sorted({short(P.functions[x]["q"]) for x in c})
            confirmed = any(n in CONFIRMED for n in names)
            for x in sorted(c):
                f = P.functions[x]
                ctx.ok("recursion", short(f["q"]), f)
                if not confirmed:
                    ctx.violation("recursion", short(f["q"]), loc(f, f), "calls itself again through %s" % ", ".join(names)[:200], f)


def short(q):
    return re.sub(r"<.*>", "<>", q)


def sccs(g):
    idx, low, st, on, out, cnt = {}, {}, [], set(), [], [0]
    for v0 in g:
        if v0 in idx:
            continue
        work = [(v0, iter(g.get(v0, ())))]
        idx[v0] = low[v0] = cnt[0]
        cnt[0] += 1
        st.append(v0)
        on.add(v0)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g.get(w, ()))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out
