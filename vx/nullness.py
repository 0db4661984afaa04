"""What a lookup answered is used only after it was tested: pointers which may be null, and containers which may be empty.

A forward must-analysis over the structured IR; the state holds facts ("nn", path) -- the pointer is not null -- and
("ne", path) -- the container holds an element.  Paths are the access paths of the source (variables, members, getters without
arguments), so that a test of p->q() answers for a later p->q()."""
import re
from . import ir, pp, definite
from .definite import ALL, meet

PTR = re.compile(r"^(?:const )?std::(?:shared|unique)_ptr<")
RAW = re.compile(r"\*(?: ?const)?(?: ?&)?$")
GROW = {"push_back", "push_front", "emplace_back", "emplace_front", "insert", "emplace", "add", "push", "append"}
KEEP = {"push_back", "push_front", "emplace_back", "insert", "push"}
SHRINK = {"clear", "erase", "pop_back", "pop_front", "pop", "resize", "remove", "swap", "assign"}
FIRST = {"front", "back", "first", "last", "top"}
CONT = re.compile(r"std::(?:vector|set|map|list|deque|unordered_\w+|multi\w+|basic_string)<")
BEGIN = {"begin", "rbegin", "cbegin", "crbegin"}


def plain(q):
    return re.sub(r"<[^<>]*>", "", q)


def isptr(t):
    t = t or ""
    return bool(PTR.search(t)) or bool(RAW.search(t)) and "char" not in t and "FILE" not in t


def strip(n):
    while n is not None:
        k = n.get("k")
        if k in ("icast", "paren") or k == "cast" and n.get("ck") != "Dynamic":
            n = n["e"]
        elif k == "ctor" and len(n.get("a") or []) == 1:
            n = n["a"][0]
        elif k == "call" and n.get("n") in ("move", "static_pointer_cast", "const_pointer_cast", "forward") and len(n.get("a") or []) == 1:
            n = n["a"][0]
        elif k == "call" and n.get("n") == "get" and n.get("o") is not None and isptr(n["o"].get("t")):
            n = n["o"]
        else:
            return n
    return n


def path(n):
    """text of an access path, or None"""
    n = strip(n)
    if n is None:
        return None
    k = n.get("k")
    if k == "this":
        return "this"
    if k == "ref":
        return n.get("id") or n.get("n") if n.get("dk") in ("var", "parm") else n.get("n")
    if k == "mem":
        if n.get("b") is None:
            return "this." + n["n"]
        b = path(n["b"])
        return None if b is None else b + "." + n["n"]
    if k == "un" and n.get("op") == "*":
        return path(n["e"])
    if k == "call" and n.get("op") in ("->", "*") and n.get("o") is not None and not n.get("a"):
        return path(n["o"])
    if k == "call" and not n.get("op"):
        if n.get("o") is not None:
            b = path(n["o"])
        else:
            b = ""
        if b is None:
            return None
        args = [path(a) or (pp.E(a) if a.get("k") != "call" else None) for a in n.get("a") or []]
        if any(a is None for a in args):
            return None
        return "%s.%s(%s)" % (b, n.get("n"), ",".join(args))
    if k in ("int", "str", "bool"):
        return str(n.get("v"))
    return None


def nullptr(n):
    n = strip(n)
    return n is not None and (n.get("k") in ("null", "nullptr") or n.get("k") in ("ctor", "init") and not n.get("a") and isptr(n.get("t")))


def false(n):
    n = strip(n)
    return n is not None and n.get("k") == "bool" and n.get("v") in (False, 0, "false")


def block(s):
    return (s.get("s") or [] if s.get("k") == "block" else [s]) if s is not None else []


def intval(n):
    n = strip(n)
    return n["v"] if n is not None and n.get("k") == "int" else None


class Nullable:
    """functions which may answer a null pointer"""
    def __init__(self, P, noret, known=None):
        self.P, self.noret = P, noret
        self.fns = {}
        self.sums, self.known = {}, known
        for _ in range(8):
            before = len(self.fns)
            for fn in P.functions.values():
                if "body" in fn and fn["id"] not in self.fns and isptr(fn.get("r")) and fn["q"].startswith("vega::"):
                    d = Known(P, fn, noret, self)
                    d.run(fn["body"])
                    if d.ret:
                        new = known is not None and plain(fn["q"]) not in known
                        # a helper which is new stands for what it asks
                        self.fns[fn["id"]] = min(d.rets) if new and d.rets else fn["q"]
            if len(self.fns) == before:
                break

    def summary(self, f):
        """(parameters which are not null once f has returned, what is known of them where f answers true, and false)"""
        if f["id"] not in self.sums:
            self.sums[f["id"]] = (frozenset(),) * 3
            ps = {p["id"]: j for j, p in enumerate(f["p"]) if p.get("id")}

            def facts(st):
                return frozenset() if st is ALL else frozenset((k, ps.get(x, x)) for k, x in st if x in ps or x.startswith("this.") and "@" not in x)
            if f.get("r") == "bool" or any(isptr(p.get("t")) or CONT.search(p.get("t") or "") for p in f["p"]):
                d = Known(self.P, f, self.noret, self)
                d.outs, d.split = ALL, [ALL, ALL]
                e = meet(d.run(f["body"]), d.outs)
                if e is not ALL:
                    self.sums[f["id"]] = (facts(e), facts(d.split[0]), facts(d.split[1]))
        return self.sums[f["id"]]

    def source(self, n):
        n = strip(n)
        if n is not None and n.get("k") == "call" and n.get("id") in self.fns:
            return self.fns[n["id"]]
        return None


class Known(definite.Definite):
    def __init__(self, P, fn, noret, N):
        super().__init__(P, fn, lambda t: False, noret)
        self.N = N
        self.var = {}       # path of a local pointer -> where its value comes from
        self.bad = []       # (rule, source, path, node)
        self.good = []
        self.ret = False
        self.rets = set()   # what is answered where it may be null
        self.flags = {}     # bool variables -> the condition they hold
        self.unless = {}    # bool variables -> the conditions which make them false
        self.outs, self.split = ALL, None
        self.alias = {}     # local -> the access path it was initialised with

    # ---- facts
    def know(self, st, *facts):
        if st is ALL:
            return st
        out = {f for f in facts if f[1] is not None}
        return st | out | {(k, self.alias[p]) for k, p in out if p in self.alias}

    def drop(self, st, p, kinds=("nn", "ne")):
        if st is ALL or p is None:
            return st
        return frozenset(f for f in st if not (f[0] in kinds and (f[1] == p or f[1].startswith(p + "."))))

    def bind(self, p, src, st, t):
        st = self.drop(st, p)
        self.alias.pop(p, None)
        if path(src) is not None and p is not None:
            self.alias[p] = path(src)
        if isptr(t):
            w = self.N.source(src) or ("null" if nullptr(src) else None)
            sp = path(src)
            if w is not None and not (st is not ALL and ("nn", sp) in st):
                self.var[p] = w
                return st
            if sp in self.var and st is not ALL and ("nn", sp) not in st:
                self.var.setdefault(p, self.var[sp])
                return st
            return self.know(st, ("nn", p))
        sp = path(src)
        if st is not ALL and ("ne", sp) in st:
            st = self.know(st, ("ne", p))
        s = strip(src)
        if s is not None and s.get("k") in ("init", "ctor") and len(s.get("a") or s.get("e") or []) >= 1 and s.get("k") == "init":
            st = self.know(st, ("ne", p))
        return st

    def decl(self, v, st):
        p = v.get("id")
        if v.get("init") is not None:
            st = self.E(v["init"], st)
            if (v.get("t") or "").replace("const ", "") == "bool":
                self.flags[p] = v["init"]
            return self.bind(p, v["init"], st, v.get("t"))
        if isptr(v.get("t")) and PTR.search(v["t"]):
            self.var[p] = "null"
        return self.drop(st, p)

    # ---- expressions
    def use(self, o, n, st):
        """a pointer is dereferenced"""
        o = strip(o)
        p = path(o)
        if st is not ALL and ("nn", p) in st:
            if p in self.var or self.N.source(o):
                self.good.append(("pointer", self.var.get(p) or self.N.source(o), p, n))
            return st
        w = self.var.get(p) if o is not None and o.get("k") == "ref" else self.N.source(o)
        if w is not None and st is not ALL:
            self.bad.append(("pointer", w, p, n))
            return self.know(st, ("nn", p))
        return st

    def kept(self, a, n, st):
        """a pointer is put in a container"""
        p, s = path(a), strip(a)
        w = self.var.get(p) if s is not None and s.get("k") == "ref" else self.N.source(s)
        if w is not None and w != "null" or nullptr(s):
            if ("nn", p) in st:
                self.good.append(("kept", w, p, n))
            else:
                self.bad.append(("kept", w or "null", p, n))

    def first(self, o, n, st):
        """an element of a container is taken"""
        p = path(o)
        if st is ALL or ("ne", p) in st:
            self.good.append(("element", p, p, n))
            return st
        self.bad.append(("element", pp.E(o), p, n))
        return self.know(st, ("ne", p))

    def E(self, n, st):
        if n is None:
            return st
        k = n.get("k")
        if k == "lambda":
            return st
        if k == "cond":
            a, b = self.C(n["c"], st)
            return meet(self.E(n["a"], a), self.E(n["b"], b))
        if k == "bin" and n.get("op") in ("&&", "||"):
            a, b = self.C(n, st)
            return meet(a, b)
        if k == "asg" or k == "call" and n.get("op") == "=" and n.get("o") is not None:
            tgt = n["a"] if k == "asg" else n["o"]
            src = n["b"] if k == "asg" else n["a"][0]
            st = self.E(src, st)
            t = strip(tgt)
            if t is not None and t.get("k") == "ref":
                if not false(src):
                    self.flags.pop(t.get("id"), None)
                    self.unless.pop(t.get("id"), None)
                return self.bind(path(t), src, st, tgt.get("t"))
            st = self.E(tgt, st)
            return self.bind(path(t), src, st, tgt.get("t")) if path(t) is not None else st
        o = None
        if k == "call" and n.get("op") in ("->", "*") and isptr((n.get("o") or {}).get("t")) and not n.get("a"):
            o = n["o"]
        elif k == "mem" and n.get("b") is not None and isptr(n["b"].get("t")):
            o = n["b"]
        elif k == "un" and n.get("op") == "*" and isptr(n["e"].get("t")):
            o = n["e"]
        elif k == "call" and n.get("o") is not None and not n.get("op") and RAW.search(n["o"].get("t") or ""):
            o = n["o"]
        if o is not None:
            st = self.E(o, st)
            st = self.use(o, n, st)
            if k == "call":
                for a in n.get("a") or []:
                    st = self.E(a, st)
                if self.noreturn(n):
                    return ALL
            return st
        if k == "call" and n.get("n") in FIRST and n.get("o") is not None and not n.get("a"):
            st = self.E(n["o"], st)
            return self.first(n["o"], n, st)
        if k in ("call", "un") and n.get("op") in ("*", "->"):
            b = strip(n.get("o") or n.get("e") or (n.get("a") or [None])[0])
            if b is not None and b.get("k") == "call" and b.get("n") in BEGIN and b.get("o") is not None:
                st = self.E(b["o"], st)
                return self.first(b["o"], n, st)
        st = super().E(n, st)
        if k == "call" and n.get("n") in KEEP and n.get("o") is not None and st is not ALL and CONT.search(n["o"].get("t") or ""):
            for a in n.get("a") or []:
                if isptr(a.get("t")):
                    self.kept(a, n, st)
        if k == "call" and st is not ALL:
            st = self.called(n, st, 0)
        if k == "call" and n.get("o") is not None and st is not ALL:
            p = path(n["o"])
            if n.get("n") in SHRINK:
                st = self.drop(st, p, ("ne",))
            elif n.get("n") in GROW:
                st = self.know(st, ("ne", p))
        return st

    def called(self, n, st, which):
        """what a call of a function tells of its arguments"""
        f = self.P.functions.get(n.get("id"))
        if st is ALL or f is None or "body" not in f or not f["q"].startswith("vega") or f["id"] == self.fn.get("id"):
            return st
        a = n.get("a") or []
        o = path(n["o"]) if n.get("o") is not None else "this"
        return self.know(st, *[(k, path(a[j]) if type(j) is int else o and o + j[4:]) for k, j in self.N.summary(f)[which] if type(j) is str or j < len(a)])

    # ---- conditions
    def C(self, n, st):
        if n is None:
            return super().C(n, st)
        m = n
        while m.get("k") in ("paren", "icast") or m.get("k") == "cast" and m.get("t") == "bool":
            m = m["e"]
        k = m.get("k")
        if k == "un" and m.get("op") == "!" or k == "bin" and m.get("op") in ("&&", "||"):
            return super().C(m, st)
        op, a, b = None, None, None
        if k == "bin" and m.get("op") in ("==", "!=", "<", ">", "<=", ">="):
            op, a, b = m["op"], m["a"], m["b"]
        elif k == "call" and m.get("op") in ("==", "!="):
            s = ([m["o"]] if m.get("o") else []) + list(m.get("a") or [])
            if len(s) == 2:
                op, a, b = m["op"], s[0], s[1]
        if op is not None:
            flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
            for x, y, r in ((a, b, op), (b, a, flip.get(op, op))):
                if nullptr(y) and r in ("==", "!="):
                    st = self.E(x, st)
                    yes = self.know(st, ("nn", path(x)))
                    return (yes, st) if r == "!=" else (st, yes)
                s, c = strip(x), intval(y)
                if c is not None and s is not None and s.get("k") == "call" and s.get("n") in ("size", "length", "count") and s.get("o") is not None:
                    st = self.E(x, st)
                    yes = self.know(st, ("ne", path(s["o"])))
                    t = r == ">" or r == ">=" and c >= 1 or r == "==" and c >= 1 or r == "!=" and c == 0
                    f = r == "<" and c >= 1 or r == "<=" and c >= 0 or r == "!=" and c >= 1 or r == "==" and c == 0
                    return (yes if t else st), (yes if f else st)
                if r in ("==", "!=") and s is not None and s.get("k") == "call" and s.get("n") in BEGIN and strip(y).get("n") in ("end", "cend", "rend"):
                    st = self.E(x, st)
                    yes = self.know(st, ("ne", path(s["o"])))
                    return (yes, st) if r == "!=" else (st, yes)
            return super().C(m, st)
        if k == "call" and m.get("n") in ("operator bool",) and m.get("o") is not None and isptr(m["o"].get("t")):
            m = m["o"]
            k = m.get("k")
        if k == "call" and m.get("n") == "empty" and m.get("o") is not None:
            st = self.E(m, st)
            return st, self.know(st, ("ne", path(m["o"])))
        if k == "call" and m.get("n") == "size" and m.get("o") is not None:
            st = self.E(m, st)
            return self.know(st, ("ne", path(m["o"]))), st
        if k == "ref" and (m.get("id") in self.flags or m.get("id") in self.unless):
            keep = len(self.bad), len(self.good)
            g, u = self.flags.pop(m["id"], None), self.unless.pop(m["id"], None)
            t, f = self.C(g, st) if g is not None else (st, st)
            for c in u or ():
                t, f = self.C(c, t)[1], st
            if g is not None:
                self.flags[m["id"]] = g
            if u is not None:
                self.unless[m["id"]] = u
            del self.bad[keep[0]:], self.good[keep[1]:]
            return t, f
        if k == "call" and m.get("t") == "bool":
            st = self.E(m, st)
            return self.called(m, st, 1), self.called(m, st, 2)
        if isptr(m.get("t")):
            st = self.E(m, st)
            return self.know(st, ("nn", path(m))), st
        return super().C(n, st)

    def answer(self, e, p):
        self.ret = True
        w = self.N.source(e) or self.var.get(p)
        self.rets.add("null" if w is None or w == "null" else w)

    def S(self, s, st):
        if s is not None and s.get("k") == "return" and self.split is not None:
            e = strip(s["e"]) if s.get("e") is not None else None
            if e is not None and (self.fn.get("r") or "") == "bool":
                a, b = self.C(e, st)
                if e.get("k") == "bool":
                    a, b = (st, ALL) if e.get("v") in (True, 1, "true") else (ALL, st)
                self.split = [meet(self.split[0], a), meet(self.split[1], b)]
                self.outs = meet(self.outs, meet(a, b))
            else:
                self.outs = meet(self.outs, self.E(s.get("e"), st))
            return ALL
        if s is not None and s.get("k") == "return" and s.get("e") is not None and isptr(self.fn.get("r")) and st is not ALL:
            e = strip(s["e"])
            p = path(e)
            if nullptr(e):
                self.answer(e, p)
            elif ("nn", p) not in st:
                if self.N.source(e) or e is not None and e.get("k") == "ref" and p in self.var:
                    self.answer(e, p)
                elif e is not None and e.get("k") == "cond" and (nullptr(e["a"]) or nullptr(e["b"])):
                    self.answer(e["b"] if nullptr(e["a"]) else e["a"], None)
        if s is not None and s.get("k") == "if" and s.get("c") is not None and s.get("b") is None:
            for x in block(s.get("a")):
                if x.get("k") == "expr":
                    x = x["e"]
                if x.get("k") == "asg" and x.get("op", "=") == "=" and x["a"].get("k") == "ref" and false(x["b"]):
                    r = super().S(s, st)
                    self.unless.setdefault(x["a"].get("id"), []).append(s["c"])
                    return r
        if s is not None and s.get("k") == "rfor":
            p = path(s["r"])
            body = s["body"]
            st = self.E(s["r"], st)
            self.loops.append([ALL, ALL])
            v = s.get("v") or {}
            inner = self.know(st, ("ne", p))
            self.S(body, inner)
            lp = self.loops.pop()
            return meet(st, lp[0])
        if s is not None and s.get("k") in ("while", "for", "do"):
            # what the body changes is not known at its beginning
            st0 = st
            if s.get("init"):
                st0 = self.S(s["init"], st0)
            for x in ir.walk(s["body"]):
                if x.get("k") == "asg" or x.get("k") == "call" and x.get("op") == "=" and x.get("o") is not None:
                    st0 = self.drop(st0, path(x["a"] if x["k"] == "asg" else x["o"])) if isptr((x["a"] if x["k"] == "asg" else x["o"]).get("t")) else st0
                elif x.get("k") == "call" and x.get("n") in SHRINK and x.get("o") is not None:
                    st0 = self.drop(st0, path(x["o"]), ("ne",))
            s2 = {k: v for k, v in s.items() if k != "init"}
            return super().S(s2, st0)
        return super().S(s, st)
