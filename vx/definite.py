"""Definite assignment: a forward must-analysis (join = intersection) over the structured IR."""
from . import ir

ALL = None      # unreachable: everything is assigned


def meet(a, b):
    if a is ALL:
        return b
    if b is ALL:
        return a
    return a & b


class Definite:
    def __init__(self, P, fn, scalar, noreturn=lambda n: False):
        self.P, self.fn, self.scalar, self.noreturn = P, fn, scalar, noreturn
        self.tracked = {}
        self.bad = []
        self.loops = []
        self.reads = 0
        self.thisfields = None

    def run(self, body):
        return self.S(body, frozenset())

    # ---- expressions: returns the state after evaluation
    def E(self, n, st):
        if n is None:
            return st
        k = n.get("k")
        if k == "ref":
            i = n.get("id")
            if i in self.tracked:
                self.reads += 1
                if st is not ALL and i not in st:
                    self.bad.append((self.tracked[i], n))
                    return st | {i}
            return st
        if k == "asg":
            a = n["a"]
            if a.get("k") == "ref" and a.get("id") in self.tracked:
                st = self.E(n["b"], st)
                if n.get("op") != "=":
                    st = self.E(a, st)
                return st if st is ALL else st | {a["id"]}
            return self.E(n["b"], self.E(a, st) if self.deref(a) else self.sub(a, st))
        if k == "bin" and n.get("op") in ("&&", "||"):
            st = self.E(n["a"], st)
            b = self.E(n["b"], st)
            self.last = (n, st, b)
            return meet(st, b)
        if k == "cond":
            st = self.E(n["c"], st)
            return meet(self.E(n["a"], st), self.E(n["b"], st))
        if k == "un" and n.get("op") == "&":
            return self.give(n["e"], st)
        if k == "lambda":
            for x in ir.walk(n):
                if x.get("k") == "ref" and x.get("id") in self.tracked and st is not ALL:
                    st = st | {x["id"]}
            return st
        if k == "call" or k == "ctor":
            o = n.get("o")
            if o is not None:
                st = self.E(o, st)
            f = self.P.functions.get(n.get("id"))
            out = []
            for j, a in enumerate(n.get("a") or []):
                if a.get("k") == "ref" and a.get("id") in self.tracked:
                    if f is not None and j < len(f["p"]):
                        t = f["p"][j]["t"]
                        byref = t.endswith("&") and not t.startswith("const ") and "&&" not in t
                    else:
                        byref = n.get("op") == ">>" or n.get("op") is None and k == "call"
                    if byref:
                        out.append(a["id"])
                        continue
                st = self.E(a, st)
            if st is not ALL:
                st = st | set(out)
            if k == "call" and self.noreturn(n):
                return ALL
            return st
        if k == "cast" and n.get("t") == "void":
            return st if n["e"].get("k") == "ref" else self.E(n["e"], st)
        if k == "throw":
            self.sub(n, st)
            return ALL
        return self.sub(n, st)

    def deref(self, a):
        return a.get("k") != "ref"

    def give(self, e, st):
        while e.get("k") in ("cast", "icast", "paren"):
            e = e["e"]
        if e.get("k") == "ref" and e.get("id") in self.tracked:
            return st if st is ALL else st | {e["id"]}
        return self.E(e, st)

    def sub(self, n, st):
        for c in ir.children(n):
            st = self.E(c, st)
        return st

    # ---- conditions: the states when it is true and false
    def C(self, n, st):
        if n is None:
            return st, ALL
        k = n.get("k")
        if k == "un" and n.get("op") == "!":
            a, b = self.C(n["e"], st)
            return b, a
        if k == "bin" and n.get("op") == "&&":
            t, f = self.C(n["a"], st)
            t2, f2 = self.C(n["b"], t)
            return t2, meet(f, f2)
        if k == "bin" and n.get("op") == "||":
            t, f = self.C(n["a"], st)
            t2, f2 = self.C(n["b"], f)
            return meet(t, t2), f2
        if k in ("paren", "icast", "cast"):
            return self.C(n["e"], st)
        if k == "bool":
            return (st, ALL) if n["v"] else (ALL, st)
        st = self.E(n, st)
        return st, st

    # ---- statements
    def S(self, s, st):
        if s is None:
            return st
        k = s.get("k")
        if k == "block":
            for x in s["s"]:
                st = self.S(x, st)
            return st
        if k == "decl":
            for v in s["v"]:
                st = self.decl(v, st)
            return st
        if k == "expr":
            return self.E(s["e"], st)
        if k == "if":
            if s.get("init"):
                st = self.S(s["init"], st)
            if s.get("cv"):
                st = self.decl(s["cv"], st)
            t, f = self.C(s["c"], st)
            return meet(self.S(s["a"], t), self.S(s.get("b"), f))
        if k == "return":
            self.E(s.get("e"), st)
            return ALL
        if k in ("while", "for", "do", "rfor"):
            if s.get("init"):
                st = self.S(s["init"], st)
            if k == "rfor":
                st = self.E(s["r"], st)
            if s.get("cv"):
                st = self.decl(s["cv"], st)
            self.loops.append([ALL, ALL])
            if k == "do":
                e = self.S(s["body"], st)
                t, f = self.C(s["c"], meet(e, self.loops[-1][1]))
                out = f
            else:
                t, f = self.C(s.get("c"), st) if k != "rfor" else (st, st)
                e = self.S(s["body"], t)
                if s.get("inc"):
                    self.E(s["inc"], meet(e, self.loops[-1][1]))
                out = f
            lp = self.loops.pop()
            return meet(out, lp[0])
        if k == "break":
            if self.loops:
                self.loops[-1][0] = meet(self.loops[-1][0], st)
            return ALL
        if k == "continue":
            for lp in reversed(self.loops):
                if lp[1] is not False:
                    lp[1] = meet(lp[1], st)
                    break
            return ALL
        if k == "switch":
            if s.get("cv"):
                st = self.decl(s["cv"], st)
            st = self.E(s["c"], st)
            self.loops.append([ALL, False])
            cur, default, labels = ALL, False, set()
            body = s["body"]
            for x in (body["s"] if body.get("k") == "block" else [body]):
                while x.get("k") in ("case", "default"):
                    cur = meet(cur, st)
                    if x["k"] == "default" or x.get("default"):
                        default = True
                    for y in ir.walk(x.get("v") or {}):
                        if y.get("dk") == "enumc":
                            labels.add(y["n"])
                    x = x.get("s")
                    if x is None:
                        break
                if x is not None:
                    cur = self.S(x, cur)
            lp = self.loops.pop()
            out = meet(cur, lp[0])
            e = self.P.enums.get((s["c"].get("t") or "").replace("const ", ""))
            while e is None and s["c"].get("k") in ("icast", "cast") and s["c"].get("e"):
                s = {"c": s["c"]["e"]}
                e = self.P.enums.get((s["c"].get("t") or "").replace("const ", ""))
            if not default and not (e and labels >= {v["n"] for v in e["e"]}):
                out = meet(out, st)
            return out
        if k == "try":
            out = self.S(s["body"], st)
            for h in s["h"]:
                out = meet(out, self.S(h["body"] if "body" in h else h, st))
            return out
        if k in ("nop", "null"):
            return st
        if k == "label":
            return self.S(s.get("s"), st)
        return self.E(s, st)

    def decl(self, v, st):
        if v.get("init") is not None:
            st = self.E(v["init"], st)
            return st
        if self.scalar(v.get("t")):
            self.tracked[v["id"]] = v
            if st is not ALL:
                st = st - {v["id"]}
        return st
