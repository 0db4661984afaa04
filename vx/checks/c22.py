"""C22: every alternative the program distinguishes can be taken."""
import json, os, re
from .. import ir, pp
from ..definite import Definite, meet, ALL
from ..report import loc

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tables", "c22.json")
PURE = {"size", "empty", "length", "find", "count", "compare", "substr", "begin", "end", "cbegin", "cend", "rbegin", "rend", "get", "front", "back", "at", "c_str", "str", "data",
        "first", "second", "fabs", "abs", "find_first_of", "find_last_of", "rfind", "starts_with", "is_initialized", "value", "isnan", "isfinite", "find_first_not_of", "find_last_not_of",
        "distance", "next", "prev", "dynamic_pointer_cast", "static_pointer_cast", "boost::algorithm::trim_copy", "is_equal"}
NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
MIR = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


def strip(n):
    while n is not None:
        k = n.get("k")
        if k in ("icast", "paren", "defarg"):
            n = n["e"]
        elif k == "cast" and n.get("t") != "void":
            n = n["e"]
        elif k == "ctor" and len(n.get("a") or []) in (1, 2) and ("basic_string" in (n.get("q") or "") or n.get("cp")):
            if len(n["a"]) == 2 and n["a"][1].get("k") != "defarg":
                return n
            n = n["a"][0]
        else:
            return n
    return n


def const(n):
    """(kind, value) of a constant, or None"""
    n = strip(n)
    if n is None:
        return None
    k = n.get("k")
    if k in ("int", "float"):
        try:
            return "num", float(n["v"])
        except ValueError:
            return None
    if k == "char":
        return "chr", n["v"]
    if k == "str":
        return "str", n["v"]
    if k == "bool":
        return "bool", bool(n["v"])
    if k in ("null", "nullptr"):
        return "ptr", None
    if k == "ref" and n.get("dk") == "enumc":
        return "enum", n.get("q") or n["n"]
    if k == "un" and n.get("op") == "-":
        c = const(n["e"])
        return (c[0], -c[1]) if c and c[0] == "num" else None
    return None


class Facts(Definite):
    """what is known to hold: atoms (text, operator, constant)"""

    def __init__(self, P, fn, report, rw):
        Definite.__init__(self, P, fn, lambda t: False, rw["noret"])
        self.report, self.rw, self.roots = report, rw, {}
        self.caught, self.sized = set(), set()
        for x in ir.walk(fn["body"]):
            if x.get("k") == "lambda":
                self.caught |= {y["id"] for y in ir.walk(x) if y.get("k") == "ref" and y.get("id")}
            if x.get("k") == "un" and x.get("op") == "&":
                e = strip(x["e"])
                if e.get("k") == "ref" and e.get("id"):
                    self.caught.add(e["id"])
            if x.get("k") == "decl":
                for v in x["v"]:
                    if (v.get("t") or "").endswith(("&", "&&")) and v.get("init") is not None:
                        r = self.base(v["init"])
                        if r and not (v.get("t") or "").startswith("const "):
                            self.caught.add(r)
                    if v.get("static") or v.get("sc") == "static":
                        self.caught.add(v["id"])
        self.refs = {p["id"] for p in fn["p"] if p.get("id") and (p.get("t") or "").endswith("&") and not (p.get("t") or "").startswith("const ")}

    def base(self, n):
        n = strip(n)
        while n is not None:
            k = n.get("k")
            if k == "ref":
                return n.get("id")
            if k == "mem":
                n = strip(n.get("b"))
            elif k == "call" and n.get("o") is not None:
                n = strip(n["o"])
            elif k == "un" and n.get("op") in ("*", "&"):
                n = strip(n["e"])
            elif k == "sub":
                n = strip(n["b"])
            else:
                return None
        return None

    # ---- texts of expressions without effects
    def pure(self, n):
        n = strip(n)
        k = n.get("k")
        if k == "ref":
            return n.get("dk") not in ("fn",) and n.get("id") not in self.caught
        if k in ("int", "float", "char", "str", "bool", "null", "this"):
            return True
        if k == "mem":
            return self.pure(n["b"])
        if k == "un":
            return n.get("op") in ("-", "*", "!", "+", "~") and self.pure(n["e"])
        if k == "bin":
            return self.pure(n["a"]) and self.pure(n["b"])
        if k == "sub":
            return self.pure(n["b"]) and self.pure(n["i"])
        if k == "call":
            if n.get("op") in ("++", "--", "=", "+=", "-=", "<<", ">>", "()"):
                return False
            name, q = n.get("n") or "", n.get("q") or ""
            f = self.P.functions.get(n.get("id"))
            ok = q.startswith(("std::", "boost::", "fs::")) and (name in PURE or n.get("op")) or str(n.get("id") or "").endswith("#1") and f is not None
            return bool(ok) and all(self.pure(x) for x in ([n["o"]] if n.get("o") is not None else []) + list(n.get("a") or []))
        if k == "ctor":
            return bool(n.get("cp")) and all(self.pure(x) for x in n["a"])
        return False

    def text(self, n):
        n = strip(n)
        t = pp.E(n)
        # two variables of the same name are different
        ns = sorted({str(x["id"]) for x in ir.walk(n) if x.get("k") == "ref" and x.get("dk") in ("var", "parm") and x.get("id")})
        if ns:
            t += "\0" + ",".join(ns)
        if t not in self.roots:
            loc_ = True
            ids = set()
            for x in ir.walk(n):
                if x.get("k") == "ref":
                    if x.get("dk") in ("enumc", "fn", "func"):
                        continue
                    ids.add(x.get("id"))
                    if x.get("dk") not in ("var", "parm") or x.get("id") in self.refs or (x.get("t") or "").endswith("&"):
                        loc_ = False
                elif x.get("k") == "this" or x.get("k") == "mem" and x.get("arrow") or x.get("k") == "un" and x.get("op") == "*" or x.get("k") == "sub":
                    loc_ = False
                elif x.get("k") == "call" and (x.get("op") in ("*", "->", "[]") or x.get("id") in self.P.functions or x.get("arrow")):
                    loc_ = False
            self.roots[t] = (frozenset(ids), loc_)
            # the size of a container does not change when one of its elements does
            if n.get("k") == "call" and n.get("n") in ("size", "empty", "length") and (n.get("q") or "").startswith("std::") and strip(n.get("o") or {}).get("k") == "ref":
                self.sized.add(t)
        return t

    def atom(self, n):
        """an atomic condition, or None"""
        n = strip(n)
        k = n.get("k")
        op, a, b = None, None, None
        if k == "bin" and n.get("op") in NEG:
            op, a, b = n["op"], n["a"], n["b"]
        elif k == "call" and n.get("op") in NEG:
            s = ([n["o"]] if n.get("o") is not None else []) + list(n.get("a") or [])
            if len(s) != 2:
                return None
            op, a, b = n["op"], s[0], s[1]
        if op is not None:
            a, b = strip(a), strip(b)
            ca, cb = const(a), const(b)
            if ca is not None and cb is not None:
                return None
            if ca is not None:
                a, b, ca, cb, op = b, a, cb, ca, MIR[op]
            if cb is not None:
                if a.get("k") == "call" and a.get("n") == "compare" and cb == ("num", 0.0) and op in ("==", "!="):
                    s = a.get("a") or []
                    lit = const(s[-1]) if s else None
                    if lit and lit[0] == "str" and self.pure(a["o"]):
                        if len(s) == 1:
                            return self.text(a["o"]), op, lit
                        if len(s) == 3 and const(s[0]) == ("num", 0.0) and const(s[1]) == ("num", float(len(lit[1]))):
                            return self.text(a["o"]), "^" if op == "==" else "!^", lit
                if a.get("k") == "call" and a.get("n") == "find" and a.get("o") is not None and "basic_string" in (a["o"].get("t") or "") and cb == ("num", 0.0) and op in ("==", "!="):
                    lit = const(a["a"][0]) if len(a["a"]) == 1 or a["a"][1].get("k") == "defarg" else None
                    if lit and lit[0] == "str" and self.pure(a["o"]):
                        return self.text(a["o"]), "^" if op == "==" else "!^", lit
                if not self.pure(a):
                    return None
                if cb[0] in ("str", "enum", "chr", "ptr") and op not in ("==", "!="):
                    return None
                t = a.get("t") or ""
                if cb[0] == "bool" and op in ("==", "!="):
                    return self.text(a), "==", ("bool", cb[1] == (op == "=="))
                if cb[0] == "ptr":
                    return self.text(a), "==", ("bool", op == "!=")
                return self.text(a), op, cb
            if self.pure(a) and self.pure(b):
                ta, tb = self.text(a), self.text(b)
                neg = op in ("!=", ">=", "<=")
                o = NEG[op] if neg else op
                if o == ">":
                    ta, tb, o = tb, ta, "<"
                if o == "==" and tb < ta:
                    ta, tb = tb, ta
                t = "%s %s %s" % (ta, o, tb)
                ra, rb = self.roots[self.text(a)], self.roots[self.text(b)]
                self.roots[t] = (ra[0] | rb[0], ra[1] and rb[1])
                return t, "==", ("bool", not neg)
            return None
        if k == "call" and n.get("n") == "compare" and (n.get("a") or []):
            lit = const(n["a"][-1])
            if lit and lit[0] == "str" and self.pure(n["o"]):
                if len(n["a"]) == 1:
                    return self.text(n["o"]), "!=", lit
                if len(n["a"]) == 3 and const(n["a"][0]) == ("num", 0.0) and const(n["a"][1]) == ("num", float(len(lit[1]))):
                    return self.text(n["o"]), "!^", lit
        if k in ("ref", "mem", "call", "sub") and self.pure(n):
            t = n.get("t") or ""
            if "int" in t.split() or t in ("int", "unsigned int", "long", "unsigned long", "double"):
                return self.text(n), "!=", ("num", 0.0)
            if n.get("op") == "bool":
                return self.text(n["o"]), "==", ("bool", True)
            return self.text(n), "==", ("bool", True)
        return None

    @staticmethod
    def neg(a):
        t, op, c = a
        if c[0] == "bool":
            return t, "==", ("bool", not c[1])
        return t, {"^": "!^", "!^": "^"}.get(op) or NEG[op], c

    @staticmethod
    def contra(atoms, a):
        """a fact of the state which the atom contradicts"""
        t, op, c = a
        for f in atoms:
            if f[0] != t:
                continue
            o, d = f[1], f[2]
            if d[0] != c[0]:
                continue
            x, y = d[1], c[1]
            if c[0] == "bool":
                if x != y:
                    return f
            elif c[0] == "num":
                lo, hi, lo_s, hi_s = float("-inf"), float("inf"), False, False
                for oo, v in ((o, x), (op, y)):
                    if oo in ("==", ">", ">=") and (v > lo or v == lo and oo == ">"):
                        lo, lo_s = v, oo == ">"
                    if oo in ("==", "<", "<=") and (v < hi or v == hi and oo == "<"):
                        hi, hi_s = v, oo == "<"
                if lo > hi or lo == hi and (lo_s or hi_s):
                    return f
                if lo == hi and any(oo == "!=" and v == lo for oo, v in ((o, x), (op, y))):
                    return f
            elif c[0] == "str":
                def ok(oo, v, s):
                    return {"==": s == v, "!=": s != v, "^": s.startswith(v), "!^": not s.startswith(v)}[oo]
                if o == "==" and not ok(op, y, x) or op == "==" and not ok(o, x, y):
                    return f
                if o == "^" and op == "^" and not (x.startswith(y) or y.startswith(x)):
                    return f
                if o == "!^" and op == "^" and y.startswith(x) or op == "!^" and o == "^" and x.startswith(y):
                    return f
            else:
                if o == "==" and (op == "==") != (x == y):
                    return f
                if op == "==" and o == "!=" and x == y:
                    return f
        return None

    # ---- what changes the facts
    def place(self, n):
        """the variable an expression designates a part of: (\"el\", id) for an element of a library container"""
        b, n = self.base(n), strip(n)
        if b and n.get("k") == "call" and (n.get("op") == "[]" or n.get("n") in ("at", "front", "back")) and (n.get("q") or "").startswith("std::") \
                and strip(n.get("o") or {}).get("k") == "ref" and not (n.get("q") or "").startswith(("std::map", "std::unordered_map")):
            return ("el", b)
        return b

    def kill(self, st, ids, world=False):
        if st is ALL or not st:
            return st
        el = {i[1] for i in ids if isinstance(i, tuple)}
        return frozenset(f for f in st if not (self.roots[f[0]][0] & ids) and not (el and f[0] not in self.sized and self.roots[f[0]][0] & el) and not (world and not self.roots[f[0]][1]))

    def writes(self, n):
        """(variables written, whether anything else may change) by the evaluation of one node (not its children)"""
        k = n.get("k")
        if k == "asg":
            a = strip(n["a"])
            b = self.base(a)
            ids = {b} if b else set()
            return ids, a.get("k") != "ref" or b in self.refs or b is None or a.get("dk") not in ("var", "parm")
        if k == "un" and n.get("op") in ("++", "--"):
            a = strip(n["e"])
            b = self.base(a)
            return ({b} if b else set()), a.get("k") != "ref" or b in self.refs
        if k == "un" and n.get("op") == "&":
            b = self.base(n["e"])
            return ({b} if b else set()), False
        if k == "del":
            return set(), True
        if k in ("call", "ctor"):
            ids, world = set(), False
            q, name, op = n.get("q") or "", n.get("n") or "", n.get("op")
            f = self.P.functions.get(n.get("id"))
            lib = q.startswith(("std::", "boost::"))
            constm = str(n.get("id") or "").endswith("#1")
            if k == "call" and n.get("o") is not None and not constm and not (lib and (name in PURE or op in ("->", "*", "[]", "==", "!=", "bool"))):
                b = self.base(n["o"])
                if b:
                    ids.add(b)
                if not lib:
                    world = True
                elif strip(n["o"]).get("k") != "ref" or b in self.refs:
                    world = True
            args = list(n.get("a") or [])
            if k == "call" and n.get("o") is None and op in ("=", "+=", "++", "--", ">>", "<<", "-=") and args:
                b = self.base(args[0])
                ids |= {b} if b else set()
                if op == ">>" and len(args) > 1 and self.base(args[1]):
                    ids.add(self.base(args[1]))
                args = []
            for j, a in enumerate(args):
                b = self.place(a)
                if not b:
                    continue
                if f is not None and j < len(f["p"]):
                    t = f["p"][j].get("t") or ""
                    if t.endswith("&") and not t.startswith("const ") or t.endswith("*") and not t.startswith("const "):
                        ids.add(b)
                elif not (lib and (name in PURE or op in NEG)) and k == "call" and a.get("k") not in ("icast", "ctor", "cast"):
                    ids.add(b)
            if k == "call" and not lib and not constm and not (f is not None and f.get("kind") == "ctor"):
                world = world or self.P.functions.get(n.get("id")) is not None or "callee" in n or "ptm" in n
            if k == "ctor" and not lib and f is not None and n.get("a") and not n.get("cp"):
                world = True
            return ids, world
        return set(), False

    def effect(self, n, st):
        ids, world = self.writes(n)
        return self.kill(st, frozenset(ids), world) if ids or world else st

    def all_writes(self, n):
        ids, world = set(), False
        for x in ir.walk(n):
            i, w = self.writes(x)
            ids |= i
            world |= w
            if x.get("k") == "decl":
                ids |= {v["id"] for v in x["v"]}
            if x.get("k") == "rfor":
                ids.add(x["v"]["id"])
        return frozenset(ids), world

    def E(self, n, st):
        if n is None or st is ALL:
            return st
        k = n.get("k")
        if k == "throw":
            return ALL
        if k == "lambda":
            return st
        if k == "bin" and n.get("op") in ("&&", "||"):
            t, f = self.C(n, st)
            return meet(t, f)
        if k == "cond":
            t, f = self.C(n["c"], st, True)
            return meet(self.E(n["a"], t), self.E(n["b"], f))
        if k == "asg":
            st = self.E(n["b"], self.E(n["a"], st))
            st = self.effect(n, st)
            a = strip(n["a"])
            if n.get("op") == "=" and a.get("k") == "ref" and a.get("dk") in ("var", "parm"):
                st = self.know(a, n["b"], st)
            return st
        st = self.sub(n, st)
        if st is ALL:
            return st
        if k in ("call", "ctor"):
            st = self.effect(n, st)
            if k == "call" and self.noreturn(n):
                return ALL
            if k == "call" and n.get("op") == "=" and n.get("o") is not None and strip(n["o"]).get("k") == "ref" and "basic_string" in (n["o"].get("t") or ""):
                st = self.know(strip(n["o"]), n["a"][0], st)
            return st
        if k in ("un", "del"):
            return self.effect(n, st)
        return st

    def know(self, a, b, st):
        c = const(b)
        if st is ALL or c is None or not self.pure(a) or a.get("id") in self.refs:
            return st
        t = self.text(a)
        if not self.roots[t][1]:
            return st
        ty = a.get("t") or ""
        if c[0] == "num" and ty not in ("int", "unsigned int", "long", "unsigned long", "double", "unsigned short", "size_t"):
            if ty != "bool":
                return st
            c = ("bool", c[1] != 0)
        if c[0] == "ptr":
            c = ("bool", False)
        return st | {(t, "==", c)}

    def decl(self, v, st):
        if v.get("init") is not None:
            st = self.E(v["init"], st)
        if st is not ALL:
            st = self.kill(st, frozenset([v["id"]]))
            if v.get("init") is not None and not (v.get("t") or "").endswith("&") and v["id"] not in self.caught:
                st = self.know({"k": "ref", "dk": "var", "id": v["id"], "n": v["n"], "t": v.get("t")}, v["init"], st)
        return st

    # ---- conditions
    def C(self, n, st, other=False, pos=True):
        """other: there is something to do when it is false too; pos: it is not negated"""
        if n is None:
            return st, ALL
        if st is ALL:
            return ALL, ALL
        m = strip(n)
        k = m.get("k")
        if k == "un" and m.get("op") == "!":
            a, b = self.C(m["e"], st, other, not pos)
            return b, a
        if k == "bin" and m.get("op") in ("&&", "||"):
            t, f = self.C(m["a"], st, False, pos)
            if m["op"] == "&&":
                t2, f2 = self.C(m["b"], t, False, pos)
                t, f = t2, meet(f, f2)
            else:
                t2, f2 = self.C(m["b"], f, False, pos)
                t, f = meet(t, t2), f2
            return t, f
        if k == "bool" or k == "int":
            v = bool(m["v"]) if k == "bool" else str(m["v"]) != "0"
            return (st, ALL) if v else (ALL, st)
        at = self.atom(m)
        st = self.E(m, st)
        if st is ALL:
            return ALL, ALL
        if at is None or not self.pure(m):
            return st, st
        self.rw["n"] += 1
        na = self.neg(at)
        x, y = self.contra(st, at), self.contra(st, na)
        never = x if pos else y
        always = y if pos else x
        if never:
            self.report(m, at if pos else na, never, True)
        elif always and other:
            self.report(m, at if pos else na, always, False)
        return (ALL if x else st | {at}), (ALL if y else st | {na})

    def S(self, s, st):
        if s is None or st is ALL:
            return st
        k = s.get("k")
        if k == "if":
            if s.get("init"):
                st = self.S(s["init"], st)
            if s.get("cv"):
                st = self.decl(s["cv"], st)
            t, f = self.C(s["c"], st, bool(s.get("b")))
            return meet(self.S(s["a"], t), self.S(s.get("b"), f))
        if k in ("while", "for", "do", "rfor"):
            if s.get("init"):
                st = self.S(s["init"], st)
            if k == "rfor":
                st = self.E(s["r"], st)
            if st is ALL:
                return ALL
            first = st
            ids, world = frozenset(), False
            for part in (s.get("c"), s["body"], s.get("inc"), s.get("cv")):
                if part:
                    i, w = self.all_writes(part)
                    ids, world = ids | i, world or w
            if k == "rfor":
                ids |= {s["v"]["id"]}
            st = self.kill(st, ids, world)
            self.loops.append([ALL, ALL])
            if k == "do":
                e = self.S(s["body"], st)
                t, f = self.C(s["c"], meet(e, self.loops[-1][1]))
                out = f
            elif k == "rfor":
                self.S(s["body"], st)
                out = st
            else:
                t, out = self.C(s.get("c"), st)
                e = self.S(s["body"], t)
                if s.get("inc"):
                    self.E(s["inc"], meet(e, self.loops[-1][1]))
            lp = self.loops.pop()
            return meet(out, lp[0])
        if k == "switch":
            if s.get("cv"):
                st = self.decl(s["cv"], st)
            st = self.E(s["c"], st)
            if st is ALL:
                return ALL
            c = strip(s["c"])
            t = self.text(c) if self.pure(c) else None
            self.loops.append([ALL, False])
            cur, default, labels = ALL, False, set()
            body = s["body"]
            for x in (body["s"] if body.get("k") == "block" else [body]):
                while x is not None and x.get("k") in ("case", "default"):
                    e = st
                    if x["k"] == "default":
                        default = True
                    else:
                        labels.add(strip(x["v"]).get("n"))
                        cv = const(x["v"])
                        if t and cv:
                            at = (t, "==", cv)
                            y = self.contra(st, at)
                            self.rw["n"] += 1
                            if y:
                                self.report(x, at, y, True)
                                e = ALL
                            else:
                                e = st | {at} if cur is ALL else st
                    cur = meet(cur, e)
                    x = x.get("s")
                if x is not None:
                    cur = self.S(x, cur)
            lp = self.loops.pop()
            out = meet(cur, lp[0])
            e = self.P.enums.get((s["c"].get("t") or "").replace("const ", "")) or self.P.enums.get((c.get("t") or "").replace("const ", ""))
            if not default and not (e and labels >= {v["n"] for v in e["e"]}):
                out = meet(out, st)
            return out
        if k == "try":
            ids, world = self.all_writes(s["body"])
            h0 = self.kill(st, ids, world)
            out = self.S(s["body"], st)
            for h in s["h"]:
                out = meet(out, self.S(h["body"] if "body" in h else h, h0))
            return out
        if k == "return":
            self.E(s.get("e"), st)
            return ALL
        return Definite.S(self, s, st)


def noreturn(n):
    return n.get("n") in ("exit", "abort", "terminate", "_exit", "rethrow_exception")


def show(a):
    t, op, c = a
    v = c[1]
    t = re.sub("\0[^ ]*", "", t)
    if c[0] == "bool":
        return t if v else "not (%s)" % t
    if op == "^":
        return '%s begins with "%s"' % (t, v)
    if op == "!^":
        return '%s does not begin with "%s"' % (t, v)
    return "%s %s %s" % (t, op, '"%s"' % v if c[0] == "str" else "%g" % v if c[0] == "num" else v)


UPPER = {"nextString", "nextSymbol", "to_upper_copy"}
# alternatives kept for kinds which no reader makes yet
RESERVED = {("vega::Analysis::Type", "UNKNOWN"), ("vega::FrequencySearch::FrequencyType", "STEP")}


def compared(P):
    """enumerators that something depends on: in comparisons and case labels"""
    out = {}
    for f in P.functions.values():
        if "body" not in f or not f["q"].startswith("vega"):
            continue
        for n in ir.walk(f["body"]):
            if n.get("k") in ("bin", "call") and n.get("op") in ("==", "!="):
                sides = [n["a"], n["b"]] if n["k"] == "bin" else ([n["o"]] if n.get("o") is not None else []) + n["a"]
            elif n.get("k") == "case":
                sides = [n["v"]]
            else:
                continue
            for x in sides:
                x = strip(x)
                if x.get("k") == "ref" and x.get("dk") == "enumc":
                    out.setdefault(((x.get("t") or "").replace("const ", ""), x["n"]), (f, n))
    return out


def literals(ctx, P, fn):
    """tests of text which no text can pass"""
    up = {}
    for n in ir.walk(fn["body"]):
        # variables which hold upper case text only
        src = []
        if n.get("k") == "decl":
            src = [(v["id"], v.get("init")) for v in n["v"] if "basic_string" in (v.get("t") or "")]
        elif n.get("k") == "asg" and strip(n["a"]).get("k") == "ref":
            src = [(strip(n["a"])["id"], n["b"])]
        elif n.get("k") == "call" and n.get("op") == "=" and n.get("o") is not None and strip(n["o"]).get("k") == "ref":
            src = [(strip(n["o"])["id"], n["a"][0])]
        elif n.get("k") == "call" and n.get("op") in ("+=", ">>") and n.get("o") is not None and strip(n["o"]).get("k") == "ref":
            src = [(strip(n["o"])["id"], None)]
        elif n.get("k") == "call" and n.get("op") is None:
            src = [(strip(a)["id"], None) for a in n["a"] if strip(a).get("k") == "ref" and strip(a).get("dk") == "var" and "basic_string" in (a.get("t") or "") and not (n.get("q") or "").startswith(("std::", "boost::"))]
        for i, e in src:
            up.setdefault(i, []).append(upper(e))
    for n in ir.walk(fn["body"]):
        if n.get("k") != "call":
            continue
        s = [strip(x) for x in ([n["o"]] if n.get("o") is not None else []) + list(n.get("a") or [])]
        lits = [x["v"] for x in s if x.get("k") == "str"]
        if n.get("n") == "compare" and lits and len(s) == 4:
            a, b = const(s[1]), const(s[2])
            if a and b and a[0] == b[0] == "num":
                bad = b[1] < len(lits[-1])
                yield n, "%s" % pp.E(n), bad and '`%s` compares %d characters with the %d characters of "%s"' % (pp.E(n), b[1], len(lits[-1]), lits[-1])
        if n.get("op") in ("==", "!=") and len(s) == 2 and len(lits) == 1:
            o = s[0] if s[1].get("k") == "str" else s[1]
            if o.get("k") == "call" and o.get("n") == "substr" and len(o["a"]) == 2:
                b = const(o["a"][1])
                if b and b[0] == "num":
                    yield n, pp.E(n), b[1] < len(lits[0]) and '`%s` compares at most %d characters with the %d characters of "%s"' % (pp.E(n), b[1], len(lits[0]), lits[0])
            up_ = o.get("k") == "ref" and o.get("dk") == "var" and up.get(o["id"]) and all(x for x in up[o["id"]] if x is not None) and any(up[o["id"]]) or upper(o)
            if up_ and o.get("k") != "str":
                yield n, pp.E(n), lits[0] != lits[0].upper() and '`%s` compares upper case text with "%s"' % (pp.E(n), lits[0])
        if n.get("n") in ("find", "compare", "rfind") and lits and s[0].get("k") == "ref" and s[0].get("dk") == "var" and up.get(s[0]["id"]) and all(x for x in up[s[0]["id"]] if x is not None) and any(up[s[0]["id"]]):
            yield n, pp.E(n), lits[-1] != lits[-1].upper() and '`%s` looks for "%s" in upper case text' % (pp.E(n), lits[-1])


def upper(e):
    """the text is upper case (None: without letters that matter)"""
    e = strip(e)
    if e is None:
        return False
    if e.get("k") == "str":
        return None if e["v"] == e["v"].upper() else False
    if e.get("k") == "ctor" and not e.get("a"):
        return None
    return e.get("k") == "call" and e.get("n") in UPPER


def keys(init):
    """(key, node) of a constant table: {{k, v}, ...} or map_list_of(k, v)(k, v) ..."""
    init = strip(init)
    if init.get("k") == "ctor" and init.get("a"):
        a = strip(init["a"][0])
        if a.get("k") == "init":
            for e in a["a"]:
                e = strip(e)
                if e.get("k") in ("ctor", "init") and len(e.get("a") or []) >= 2:
                    c = const(e["a"][0])
                    if c:
                        yield c, e
            return
        init = a
    while init is not None and init.get("k") == "call" and (init.get("op") == "()" or init.get("n") in ("map_list_of", "list_of")):
        a = init.get("a") or []
        if len(a) >= 2 and const(a[0]):
            yield const(a[0]), init
        init = strip(init["o"]) if init.get("o") is not None else None


def reached(P):
    """the functions that a run of the program can come to (constructors count as reached)"""
    work, seen = [], set()

    def put(i):
        if i in P.functions and i not in seen:
            seen.add(i)
            work.append(i)

    def scan(n):
        for x in ir.walk(n):
            if x.get("k") in ("call", "ctor", "ref", "mem") and x.get("id"):
                put(x["id"])
                if x.get("k") == "call" and x.get("v"):
                    for o in P.overriders(x["id"]):
                        put(o)
    for f in P.functions.values():
        if f["n"] == "main" or f.get("kind") in ("ctor", "dtor") or f["n"].startswith("operator"):
            put(f["id"])
        if f.get("virtual") and not (f.get("cls") or "").startswith("vega") :
            put(f["id"])
    for g in P.globals.values():
        if "init" in g:
            scan(g["init"])
    for c in P.classes.values():
        for f in c["fields"]:
            if isinstance(f.get("init"), dict):
                scan(f["init"])
    while work:
        f = P.functions[work.pop()]
        if "body" in f:
            scan(f["body"])
        for i in f.get("inits") or []:
            if isinstance(i, dict) and i.get("e"):
                scan(i["e"])
        for p in f["p"]:
            if isinstance(p.get("def"), dict):
                scan(p["def"])
    return seen


def judged(P):
    from .. import gfacts
    r = reached(P)
    out = {}
    for f in P.functions.values():
        if "body" in f and f["q"].startswith("vega") and f.get("kind") not in ("ctor", "dtor") and not f["n"].startswith("operator") and not gfacts.trivial(f) and "<" not in f["q"]:
            out.setdefault(f["q"], [False, f])
            out[f["q"]][0] |= f["id"] in r
    return out


def freeze(P):
    return sorted(q for q, (r, f) in judged(P).items() if r)


def run(ctx):
    from . import c39
    P = ctx.P
    ctx.rule("text", "a test of text can succeed: as many characters are compared as its literal has, in the case the text is in", 30)
    for fn in P.functions.values():
        if "body" in fn and fn["q"].startswith("vega"):
            for n, inst, bad in literals(ctx, P, fn):
                if bad:
                    ctx.violation("text", "%s:%s" % (fn["q"], inst), loc(fn, n), bad + ": this alternative can never be taken", fn)
                else:
                    ctx.ok("text", fn["q"] + ":" + inst, fn)
    ctx.rule("keyword", "no constant table has two entries for one key (the second is never used), no keyword of a card table has lower case letters or blanks", 200)
    for g in P.globals.values():
        if "init" not in g or not g["q"].startswith("vega"):
            continue
        seen = {}
        cards = "FUNCTION_BY_KEYWORD" in g["q"] or "parseElementFPtr" in (g.get("ts") or "")
        for c, n in keys(g["init"]):
            k = "%s[%s]" % (g["q"], c[1])
            if c in seen and "multimap" not in (g.get("t") or ""):
                ctx.violation("keyword", k, "%s:%s" % (g.get("f"), n.get("l")), "%s has two entries for %s: the second is never used" % (g["q"], c[1]))
            elif cards and c[0] == "str" and (c[1] != c[1].upper() or " " in c[1]):
                ctx.violation("keyword", k, "%s:%s" % (g.get("f"), n.get("l")), "the keyword \"%s\" of %s is never read: keywords are trimmed and in upper case" % (c[1], g["q"]))
            else:
                ctx.ok("keyword", k)
            seen[c] = n
    ctx.rule("kind", "every kind that something depends on can be made: its enumerator is produced somewhere", 120)
    used = c39.used(P)
    for (t, e), (f, n) in sorted(compared(P).items(), key=lambda x: x[0]):
        if (t, e) in RESERVED or not t.startswith("vega"):
            continue
        if (t, e) in used:
            ctx.ok("kind", "%s::%s" % (t, e))
        else:
            ctx.violation("kind", "%s::%s" % (t, e), loc(f, n), "%s depends on %s::%s, which nothing in the program produces" % (f["q"], t, e), f)
    ctx.rule("decided", "no condition is already decided by what holds whenever it is reached: each of its outcomes can happen", 1500)
    for fn in P.functions.values():
        if "body" not in fn or not (fn["q"] or "").startswith("vega") or fn.get("f", "").startswith("Test"):
            continue
        rw = {"n": 0, "noret": noreturn}

        def report(n, at, why, never):
            ctx.violation("decided", "%s:%s" % (fn["q"], show(at)), loc(fn, n), "`%s` is always %s here: `%s` holds whenever this is reached" % (show(at), "false" if never else "true", show(why)), fn)
        Facts(P, fn, report, rw).S(fn["body"], frozenset())
        if rw["n"]:
            for _ in range(rw["n"]):
                ctx.ok("decided", fn["q"], fn)
    ctx.rule("reached", "what a run of the program could come to when the table was confirmed, it still can: no handler or pass has lost its last caller", 700)
    J = judged(P)
    for q in json.load(open(TABLE)):
        if q not in J:
            continue
        if J[q][0]:
            ctx.ok("reached", q, J[q][1])
        else:
            ctx.violation("reached", q, loc(J[q][1]), "nothing calls %s any more: what it does can never happen" % q, J[q][1])
