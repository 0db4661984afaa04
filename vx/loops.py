"""Loops which go on: what a loop does for each of its elements must not be cut short.

For every loop, a structured path analysis of the body tells whether an iteration which had an effect outside of the loop
can be followed by another one (the loop accumulates) and whether the loop can be left from its body.  A loop which
accumulates and is left early forgets the remaining elements; a search whose effect was always followed by the end of the
loop and no longer is answers its last match instead of its first.  Both are confirmed per function."""
import json, os, re
from . import ir, pp
from .definite import Definite, ALL
from .report import loc

TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tables", "loops.json")
PURE = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "at", "front", "back", "get", "count", "size", "length", "data", "c_str", "str", "empty", "lower_bound", "upper_bound",
        "what", "lock", "first", "second", "substr", "compare", "good", "fail", "eof", "is_open", "tellg"}
SIMPLE = re.compile(r"(const )?(unsigned|int|long|short|double|float|bool|char|size_t|std::(__cxx11::)?basic_string<|std::string)")
LOOPS = ("while", "for", "do", "rfor")


def strip(n):
    while n is not None and n.get("k") in ("icast", "cast", "paren") and n.get("e") is not None:
        n = n["e"]
    return n


def root(n):
    """the variable (or None: this or a value) an lvalue belongs to, and whether a pointer or a reference is followed"""
    deep = False
    while n is not None:
        k = n.get("k")
        if k == "ref":
            return n, deep
        if k == "mem":
            deep = deep or bool(n.get("arrow"))
            n = n.get("b")
        elif k == "call" and n.get("op") in ("[]", "*", "->"):
            deep = True
            n = n.get("o") or (n.get("a") or [None])[0]
        elif k == "un" and n.get("op") == "*":
            deep = True
            n = n.get("e")
        elif k in ("icast", "cast", "paren"):
            n = n.get("e")
        elif k == "sub":
            n = n.get("a") or n.get("b")
        else:
            return None, deep
    return None, deep


class Loop:
    """path analysis of the body of one loop"""
    def __init__(self, P, loop):
        self.P, self.loop = P, loop
        self.locals = {}
        self.targets = []
        self.varies = False     # some effect is not the assignment of a constant, for which the first and the last match are the same
        self.ctl, self.head = set(), set()
        for part in (loop.get("c"), loop.get("inc"), loop.get("init")):
            for x in ir.walk(part or {}):
                if x.get("k") == "ref":
                    self.ctl.add(x.get("id"))
                if x.get("k") == "mem":     # steps of the loop, wherever they are written
                    self.head.add(pp.E(x))
        for x in ir.walk(loop.get("body") or {}):
            if x.get("k") == "decl":
                for v in x["v"]:
                    self.locals[v["id"]] = v.get("t") or ""
            if x.get("k") in LOOPS:
                for v in [x.get("v"), x.get("cv")] + ((x.get("init") or {}).get("v") or [] if isinstance(x.get("init"), dict) else []):
                    if isinstance(v, dict) and v.get("id"):
                        self.locals[v["id"]] = v.get("t") or ""
        self.left = set()       # how the body is left: {had an effect}
        self.where = None
        self.breaks = []

    def own(self, n, deep):
        """a value of one iteration"""
        i = n.get("id") if n is not None else None
        if i in self.ctl and not deep:
            return True
        if i not in self.locals:
            return False
        t = self.locals[i]
        return not (t.endswith("&") or t.endswith("*") or "shared_ptr" in t.split("<")[0] or "iterator" in t) or not deep and ("iterator" in t or "shared_ptr" in t.split("<")[0] or t.endswith("*"))

    def effects(self, n):
        """the names of what an expression changes outside of the iteration"""
        out = set()
        for x in ir.walk(n or {}):
            k = x.get("k")
            if k == "lambda":
                continue
            if k == "asg" or k == "un" and x.get("op") in ("++", "--", "p++", "p--", "++p", "--p"):
                r, d = root(x["a"] if k == "asg" else x.get("e"))
                if not self.own(r, d) and pp.E(strip(x["a"] if k == "asg" else x["e"])) not in self.head:
                    out.add(pp.E(strip(x["a"] if k == "asg" else x["e"])))
                    v = strip(x.get("b")) if k == "asg" and x.get("op") == "=" else None
                    if v is None or not (v.get("k") in ("bool", "int", "str") or v.get("dk") == "enumc"):
                        self.varies = True
            elif k == "call":
                op, nm, n0 = x.get("op"), x.get("n") or "", len(out)
                if op in ("<<", "=", "+=", "-=", "*=", "++", "--", ">>"):
                    o = x.get("o") or (x.get("a") or [None])[0]
                    while strip(o) is not None and strip(o).get("k") == "call" and strip(o).get("op") in ("<<", ">>"):
                        o = strip(o).get("o") or (strip(o).get("a") or [None])[0]
                    r, d = root(o)
                    if not self.own(r, d):
                        out.add(pp.E(strip(o)))
                elif op:
                    continue
                elif x.get("o") is not None:
                    if nm in PURE or (x.get("id") or "").endswith("#1"):
                        continue
                    r, d = root(x["o"])
                    if strip(x["o"]).get("k") == "call" and not strip(x["o"]).get("op"):
                        r, d = None, True
                    if not self.own(r, d):
                        out.add(pp.E(strip(x["o"])) + "." + nm)
                else:
                    f = self.P.functions.get(x.get("id"))
                    for j, a in enumerate(x.get("a") or []):
                        if f is not None and j < len(f["p"]):
                            t = f["p"][j]["t"]
                            if t.endswith("&") and not t.startswith("const ") and "&&" not in t:
                                r, d = root(a)
                                if r is None or not self.own(r, d):
                                    out.add(pp.E(strip(a)) + " by " + nm)
                if len(out) > n0:
                    self.varies = True
        return out

    def X(self, n, st):
        e = self.effects(n)
        if e and st:
            self.targets += [e]
            return {1}
        return st

    def run(self):
        body = self.S(self.loop.get("body"), {0}, 0)
        fall, brk, cont = body
        nxt = fall | cont
        return nxt, self.left | brk

    def S(self, s, st, depth):
        """(falls through, breaks, continues) for the states which enter"""
        none = (set(), set(), set())
        if s is None:
            return st, set(), set()
        if not st:
            return none
        k = s.get("k")
        if k == "block":
            B, C = set(), set()
            for x in s["s"]:
                st, b, c = self.S(x, st, depth)
                B |= b
                C |= c
            return st, B, C
        if k == "decl":
            for v in s["v"]:
                st = self.X(v.get("init"), st)
            return st, set(), set()
        if k == "expr":
            e = strip(s["e"])
            if e is not None and e.get("k") == "throw":
                return none
            return self.X(s["e"], st), set(), set()
        if k == "throw":
            return none
        if k == "if":
            if s.get("init"):
                st = self.S(s["init"], st, depth)[0]
            if s.get("cv"):
                st = self.X(s["cv"].get("init"), st)
            st = self.X(s["c"], st)
            a, b = self.S(s["a"], st, depth), self.S(s.get("b"), st, depth)
            return a[0] | b[0], a[1] | b[1], a[2] | b[2]
        if k == "return":
            st = self.X(s.get("e"), st)
            self.left |= st
            self.breaks.append(s)
            return none
        if k == "break":
            if depth == 0:
                self.breaks.append(s)
            return set(), st, set()
        if k == "continue":
            return set(), set(), st
        if k in LOOPS:
            if s.get("init"):
                st = self.S(s["init"], st, depth)[0]
            if k == "rfor":
                st = self.X(s.get("r"), st)
            else:
                st = self.X(s.get("c"), st)
            f, b, c = self.S(s.get("body"), st, depth + 1)
            if s.get("inc"):
                f = self.X(s["inc"], f | c)
            return (st if k != "do" else set()) | f | b | c, set(), set()
        if k == "switch":
            st = self.X(s.get("c"), st)
            cur, B, C = set(), set(), set()
            body, default = s["body"], False
            for x in (body["s"] if body.get("k") == "block" else [body]):
                while x is not None and x.get("k") in ("case", "default"):
                    cur = cur | st
                    default = default or x["k"] == "default" or bool(x.get("default"))
                    x = x.get("s")
                if x is not None:
                    cur, b, c = self.S(x, cur, depth + 1)
                    B |= b
                    C |= c
            return cur | B | (set() if default else st), set(), C
        if k == "try":
            F, B, C = self.S(s["body"], st, depth)
            for h in s["h"]:
                f, b, c = self.S(h["body"] if "body" in h else h, st, depth)
                F, B, C = F | f, B | b, C | c
            return F, B, C
        if k in ("nop", "null"):
            return st, set(), set()
        if k == "label":
            return self.S(s.get("s"), st, depth)
        return self.X(s, st), set(), set()


def endless(loop):
    c = strip(loop.get("c"))
    return loop.get("k") != "rfor" and (c is None or c.get("k") in ("bool", "int"))


def analyse(P, fn):
    """[(loop, accumulates and is left early, targets when every effect ends the loop)]"""
    out = []
    for x in ir.walk(fn.get("body") or {}):
        if x.get("k") in LOOPS and not endless(x):
            L = Loop(P, x)
            nxt, left = L.run()
            t = sorted(set().union(*L.targets)) if L.targets else []
            flag = any(y.get("k") == "asg" and strip(y["a"]).get("k") == "ref" and strip(y["a"]).get("id") in L.ctl for y in ir.walk(x.get("body") or {}))
            out.append((x, 1 in nxt and bool(left), t if 1 in left and 1 not in nxt and L.varies else None, t, L.breaks, flag or bool(left)))
    return out


KILL = {"clear", "assign", "reset", "str"}


class Carry(Definite):
    """the variables of the enclosing code which an iteration reads before it sets them again"""
    def __init__(self, P, fn, outside):
        super().__init__(P, fn, lambda t: False)
        self.tracked = outside

    def E(self, n, st):
        if n is not None and n.get("k") == "call":
            nm, op = n.get("n"), n.get("op")
            for a in n.get("a") or []:
                a = strip(a)
                if a is not None and a.get("k") == "ref" and a.get("id") in self.tracked and not SIMPLE.match(self.tracked[a["id"]].get("t") or ""):
                    super().E(a, st)
            o = strip(n.get("o"))
            if op == "=" and o is None and n.get("a"):
                o, rest = strip(n["a"][0]), n["a"][1:]
            else:
                rest = n.get("a") or []
            if o is not None and o.get("k") == "ref" and o.get("id") in self.tracked and (op == "=" or nm in KILL and not op and (nm != "str" or rest) and (nm != "reset" or not rest)):
                for a in rest:
                    st = self.E(a, st)
                return st if st is ALL else st | {o["id"]}
        return super().E(n, st)


def modified(x):
    """{id: names} of the variables which an expression tree changes"""
    out = set()
    for y in ir.walk(x):
        k = y.get("k")
        if k == "asg" or k == "un" and "++" in (y.get("op") or "") or k == "un" and "--" in (y.get("op") or ""):
            t = [y.get("a") if k == "asg" else y.get("e")]
        elif k == "call":
            if y.get("op") in ("<<", "=", "+=", "-=", "*=", "++", "--", ">>"):
                t = [y.get("o") or (y.get("a") or [None])[0]]
            elif y.get("o") is not None and not y.get("op") and y.get("n") not in PURE and not (y.get("id") or "").endswith("#1"):
                t = [y["o"]]
            elif y.get("op") == "[]":
                t = []
            else:
                t = []
        else:
            continue
        for e in t:
            r, d = root(strip(e))
            if r is not None:
                out.add((r.get("id"), d))
    return out


def carried(P, fn):
    """{name: [how many nested loops carry a value of it from one iteration to the next, per declaration]} of the locals used in loops"""
    decls = {p["id"]: p for p in fn["p"] if p.get("id")}
    for x in ir.walk(fn.get("body") or {}):
        if x.get("k") == "decl":
            for v in x["v"]:
                decls[v["id"]] = v
    depth, where, seen = {}, {}, set()

    def visit(n, chain):
        """chain: {id: loops so far which carry it}"""
        if n.get("k") == "lambda":
            chain = {}
        if n.get("k") in LOOPS and not endless(n):
            inside, ctl = set(), set()
            for x in ir.walk(n):
                if x.get("k") == "decl":
                    inside |= {v["id"] for v in x["v"]}
            for part in (n.get("c"), n.get("inc"), n.get("init"), n.get("v") if isinstance(n.get("v"), dict) else None):
                for x in ir.walk(part or {}):
                    t = (decls.get(x.get("id")) or {}).get("t") or ""
                    if x.get("id") in decls and (SIMPLE.match(t) or "iterator" in t.lower() or t.endswith("*")):
                        ctl.add(x["id"])
            used = {x.get("id") for x in ir.walk(n.get("body") or {}) if x.get("k") == "ref"} & set(decls)
            seen.update(used)
            mod = modified(n.get("body") or {})
            out = {}
            for i in used - inside - ctl:
                t = decls[i].get("t") or ""
                if t.endswith("&"):     # an object of the caller or elsewhere
                    continue
                if any(a == i and (not d or "shared_ptr" not in t.split("<")[0] and not t.endswith("*") and "iterator" not in t) for a, d in mod):
                    out[i] = decls[i]
            C = Carry(P, fn, out)
            st = frozenset()
            if n.get("k") == "while":
                st = C.C(n.get("c"), st)[0]
            C.loops.append([ALL, ALL])
            C.S(n.get("body"), st)
            chain = dict(chain)
            for v, ref in C.bad:
                if v["id"] not in where or chain.get(v["id"], 0) + 1 > depth.get(v["id"], 0):
                    where[v["id"]] = ref
            for i in {v["id"] for v, ref in C.bad}:
                chain[i] = chain.get(i, 0) + 1
                depth[i] = max(depth.get(i, 0), chain[i])
        for c in ir.children(n):
            visit(c, chain)

    if fn.get("body"):
        visit(fn["body"], {})
    out = {}
    for i in seen:
        out.setdefault(decls[i]["n"], []).append((depth.get(i, 0), where.get(i)))
    return {k: sorted(v, key=lambda x: -x[0]) for k, v in out.items()}


def base(q):
    return re.sub(r"<.*>", "", q)


def key(fn):
    return fn["q"] + "(" + ",".join(p["t"] for p in fn["p"]) + ")"


def freeze(P):
    out = {}
    for fn in P.functions.values():
        if "body" not in fn or "vega" not in fn["q"]:
            continue
        r = analyse(P, fn)
        out[key(fn)] = {"left": sum(1 for x in r if x[1]), "first": sorted("; ".join(x[2]) for x in r if x[2]),
                        "carry": {k: [x[0] for x in v] for k, v in sorted(carried(P, fn).items())} if r else {}}
    return out


def check(ctx, select):
    """the rule `loop` over the selected functions"""
    P = ctx.P
    ctx.rule("loop", "a loop which works on each of its elements is left early only where confirmed, and a search which ended at its first match still does", 0)
    ctx.rule("carry", "a variable keeps its value from one iteration of a loop to the next only where confirmed; the others are set anew before they are read", 0)
    frozen = json.load(open(TABLE))
    cur = {}
    for fn in P.functions.values():
        if "body" in fn and select(fn):
            cur[key(fn)] = (fn, analyse(P, fn))
    # loops moved between functions: the total over the scope decides with the function
    total = sum(1 for fn, r in cur.values() for x in r if x[1])
    names = {base(fn["q"]) for fn, r in cur.values()}
    was = sum(f["left"] for k, f in frozen.items() if base(k.split("(")[0]) in names)
    for k, (fn, r) in sorted(cur.items()):
        fz = frozen.get(k)
        if fz is None:
            continue
        left = [x for x in r if x[1]]
        if len(left) > fz["left"] and total > was:
            x = left[-1]
            b = x[4][-1] if x[4] else x[0]
            ctx.violation("loop", "left:" + fn["q"], loc(fn, b), "%s: a loop which goes on to change {%s} for its other elements can be left here before them (%d such loops, %d confirmed)" % (
                fn["q"].replace("vega::", ""), ", ".join(x[3])[:200], len(left), fz["left"]), fn)
        for t in fz["first"]:
            if any("; ".join(x[3]) == t and not x[5] and x[0].get("k") == "rfor" or "; ".join(x[3]) == t and not x[5] and not x[4] for x in r) and not any(x[2] and "; ".join(x[2]) == t for x in r):
                x = [x for x in r if "; ".join(x[3]) == t][0]
                ctx.violation("loop", "first:" + fn["q"] + t, loc(fn, x[0]), "%s: this loop ended at the first element for which it changed {%s}; it now goes on, and the last one wins" % (fn["q"].replace("vega::", ""), t[:200]), fn)
        if r and fz["carry"]:
            for n, v in carried(P, fn).items():
                f = fz["carry"].get(n)
                if f is None:
                    continue
                bad = [j for j in range(len(v)) if v[j][0] > f[j]] if len(v) == len(f) else [0] if v[0][0] > f[0] else []
                if bad:
                    ctx.violation("carry", "%s:%s" % (fn["q"], n), loc(fn, v[bad[0]][1]), "%s: %s is read here with the value which the previous iteration of a loop left in it; it was set anew in each iteration" % (
                        fn["q"].replace("vega::", ""), n), fn)
                else:
                    ctx.ok("carry", "%s:%s" % (fn["q"], n), fn)
        for x in r:
            ctx.ok("loop", "%s:%s" % (fn["q"], x[0].get("l")), fn)

