"""C27: a file that cannot be written is noticed."""
import re
from .. import ir, pp
from ..definite import Definite, meet, ALL
from ..report import loc

OUT = re.compile(r"basic_(o|)fstream|::(o|)fstream$")
TEST = {"is_open", "good"}
FAIL = {"fail", "bad"}
MED = re.compile(r"^MED[a-z]+[A-Z]\w*$")
INFO = {"MEDlibraryNumVersion"}


def strip(n):
    while n is not None and n.get("k") in ("cast", "icast", "paren"):
        n = n["e"]
    return n


def key(n):
    n = strip(n)
    if n is None:
        return None
    if n.get("k") == "ref":
        return n.get("id")
    if n.get("k") == "mem":
        b = strip(n["b"])
        return "this." + n["n"] if b.get("k") == "this" else None
    return None


def stream(t):
    return bool(OUT.search((t or "").replace("const ", "").replace(" &", "").split("<")[0] + ("<" if "<" in (t or "") else ""))) if t else False


def isstream(t):
    t = (t or "").replace("const ", "").rstrip("& ")
    return t.startswith(("std::basic_ofstream", "std::basic_fstream", "std::ofstream", "std::fstream"))


class Open(Definite):
    """the state holds the streams that are closed, or known to be open"""

    def __init__(self, P, fn, ctx):
        Definite.__init__(self, P, fn, lambda t: False)
        self.ctx, self.mine, self.bad, self.opened = ctx, set(), [], []

    def E(self, n, st):
        if n is None or st is ALL:
            return st
        k = n.get("k")
        if k == "throw":
            return ALL
        if k == "lambda":
            return st
        if k == "bin" and n.get("op") in ("&&", "||"):
            t, f = self.C(n, st)
            return meet(t, f)
        if k == "cond":
            t, f = self.C(n["c"], st)
            return meet(self.E(n["a"], t), self.E(n["b"], f))
        if k == "call" and n.get("o") is not None and isstream(strip(n["o"]).get("t")) and n.get("op") is None:
            i = key(n["o"])
            for a in n["a"]:
                st = self.E(a, st)
            if i and n.get("n") == "open":
                self.mine.add(i)
                self.opened.append((i, n))
                return st - {i}
            if i and n.get("n") == "close":
                return st | {i}
            if n.get("n") in TEST | FAIL | {"rdstate", "exceptions", "setf", "unsetf", "precision", "operator!", "operator bool"}:
                return st
            return self.use(i, n, st)
        if k == "ref" or k == "mem":
            i = key(n)
            if i in self.mine and isstream(n.get("t")):
                return self.use(i, n, st)
            return self.sub(n, st) if k == "mem" else st
        if k in ("call", "ctor"):
            st = self.sub(n, st)
            return st
        return self.sub(n, st)

    def use(self, i, n, st):
        if i in self.mine and st is not ALL and i not in st:
            self.bad.append((i, n))
            return st | {i}
        return st

    def decl(self, v, st):
        st = self.E(v["init"], st) if v.get("init") is not None else st
        if st is not ALL and isstream(v.get("t")) and not (v.get("t") or "").endswith("&"):
            i = v.get("init")
            args = [a for a in (i.get("a") or []) if a.get("k") != "defarg"] if i and strip(i).get("k") == "ctor" else []
            if args:
                self.mine.add(v["id"])
                self.opened.append((v["id"], v["init"]))
                return st - {v["id"]}
            return st | {v["id"]}
        return st

    def C(self, n, st):
        if n is None or st is ALL:
            return st, ALL if n is None else st
        m = strip(n)
        k = m.get("k")
        if k == "un" and m.get("op") == "!" or k == "call" and m.get("op") == "!" :
            e = m["e"] if k == "un" else (m.get("o") or m["a"][0])
            if isstream(strip(e).get("t")):
                i = key(e)
                return st, st | {i}
            a, b = self.C(e, st)
            return b, a
        if k == "call" and m.get("o") is not None and isstream(strip(m["o"]).get("t")):
            i = key(m["o"])
            if m.get("n") in TEST or m.get("op") == "bool" or m.get("n") == "operator bool":
                return st | {i}, st
            if m.get("n") in FAIL:
                return st, st | {i}
        if k in ("ref", "mem") and isstream(m.get("t")):
            return st | {key(m)}, st
        if k == "ref" and m.get("id") in self.flags:
            return self.C(self.flags[m["id"]], st)
        return Definite.C(self, m, st)

    flags = {}

    def S(self, s, st):
        if s is not None and s.get("k") == "decl":
            for v in s["v"]:
                if v.get("init") is not None and (v.get("t") or "").replace("const ", "") == "bool":
                    self.flags = dict(self.flags)
                    self.flags[v["id"]] = v["init"]
                    st = self.C(v["init"], st)
                    st = meet(*st)
                else:
                    st = self.decl(v, st)
            return st
        return Definite.S(self, s, st)


def ends(s):
    """the statement cannot be left at its end"""
    if s is None:
        return False
    k = s.get("k")
    if k == "block":
        return any(ends(x) for x in s["s"])
    if k == "expr":
        return ends(s["e"])
    if k == "if":
        return bool(s.get("b")) and ends(s["a"]) and ends(s["b"])
    return k in ("throw", "return") or k == "call" and s.get("n") in ("exit", "abort")


def negative(n, what):
    """+1: the condition holds when the result is an error; -1: when it is not; 0: it is no such test"""
    n = strip(n)
    if n.get("k") == "un" and n.get("op") == "!":
        return -negative(n["e"], what)
    if n.get("k") == "bin" and n.get("op") in ("<", "<=", ">=", ">", "==", "!=", "||", "&&"):
        if n["op"] in ("||", "&&"):
            return negative(n["a"], what) or negative(n["b"], what)
        a, b, op = n["a"], n["b"], n["op"]
        a, b = strip(a), strip(b)
        if what(b):
            a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if what(a):
            v = b.get("v") if b.get("k") == "int" else -b["e"]["v"] if b.get("k") == "un" and b.get("op") == "-" and b["e"].get("k") == "int" else None
            v = int(v) if v is not None else None
            if (op, v) in (("<", 0), ("<=", -1), ("==", -1), ("!=", 0)):
                return 1
            if (op, v) in ((">=", 0), (">", -1), ("!=", -1), ("==", 0)):
                return -1
    return 0


def results(ctx, P, fn):
    """MED calls and what becomes of their results"""
    body = fn["body"]
    ifs = [n for n in ir.walk(body) if n.get("k") == "if"]
    flags = {}
    for n in ir.walk(body):
        if n.get("k") == "decl":
            for v in n["v"]:
                if v.get("init") is not None and (v.get("t") or "").replace("const ", "") == "bool":
                    flags[v["id"]] = v["init"]

    def cond(c):
        c = strip(c)
        return flags[c["id"]] if c.get("k") == "ref" and c.get("id") in flags else c

    def tested(what, after=None):
        for i in ifs:
            s = negative(cond(i["c"]), what)
            neg = strip(i["c"])
            if s == 1 and ends(i["a"]) or s == -1 and ends(i.get("b")):
                return i
        return None

    def rec(n, store):
        if not isinstance(n, dict):
            return
        if n.get("k") == "call" and MED.match(n.get("n") or "") and (n.get("q") or "").startswith("MED"):
            yield n, store
        if n.get("k") == "asg" and strip(n["a"]).get("k") == "ref":
            yield from rec(n["b"], (strip(n["a"])["id"], n))
            return
        if n.get("k") == "decl":
            for v in n["v"]:
                if v.get("init") is not None:
                    yield from rec(v["init"], (v["id"], v))
            return
        keep = n.get("k") in ("icast", "cast", "paren")
        for c in ir.children(n):
            yield from rec(c, store if keep else None)
    for n, store in rec(body, None):
        if n["n"] in INFO:
            continue
        inst = "%s:%s" % (fn["q"], n["n"])
        if store is None:
            ok = tested(lambda x: x is n)
        else:
            # the first test of the variable after it was assigned, in the same sequence of statements
            ok = after(body, n, store[0], cond)
        if not ok:
            r = parent_return(body, n)
            ok = r
        yield n, inst, ok


def parent_return(body, n):
    for r in ir.nodes(body, "return"):
        if r.get("e") is not None and any(x is n for x in ir.walk(r["e"])):
            return True
    return False


def after(body, n, var, cond):
    def find(b):
        for x in ir.walk(b):
            if x.get("k") != "block":
                continue
            for j, s in enumerate(x["s"]):
                if s.get("k") in ("expr", "decl") and any(y is n for y in ir.walk(s)):
                    return x["s"][j + 1:]
        return []
    for s in find(body):
        if s.get("k") == "if":
            r = negative(cond(s["c"]), lambda x: x.get("k") == "ref" and x.get("id") == var)
            if r == 1 and ends(s["a"]) or r == -1 and ends(s.get("b")):
                return True
        for x in ir.walk(s):
            if x.get("k") == "asg" and strip(x["a"]).get("id") == var:
                return False
    return False


NEUTRAL = TEST | FAIL | {"rdstate", "setf", "unsetf", "precision", "width", "fill", "flags", "imbue", "eof", "clear", "open", "tellp"}


class Complete(Open):
    """("d", i): nothing was written into the stream i since it was last tested; ("s", i): it is closed or flushed since its last write"""

    def __init__(self, W, fn):
        Definite.__init__(self, W.P, fn, lambda t: False)
        self.W, self.flags, self.late, self.owned, self.conds, self.opencond, self.exits = W, {}, [], {}, [], {}, []
        self.locals, self.member = {}, {}

    def use(self, i, n, st):
        if st is ALL or i is None or ("x", i) in st:
            return st
        self.owned.setdefault(i, n)
        return st - {("d", i), ("s", i)}

    def shut(self, i, n, st):
        self.member.setdefault(i, n)
        return st if st is ALL or i is None else st | {("s", i)}

    def good(self, i, st):
        return st | {("d", i)} if st is not ALL and ("s", i) in st else st

    def E(self, n, st):
        if n is None or st is ALL:
            return st
        k = n.get("k")
        if k == "throw":
            return ALL
        if k == "lambda":
            return st
        if k == "bin" and n.get("op") in ("&&", "||") or k == "un" and n.get("op") == "!":
            return meet(*self.C(n, st))
        if k == "cond":
            t, f = self.C(n["c"], st)
            return meet(self.E(n["a"], t), self.E(n["b"], f))
        if k == "call" and n.get("o") is not None and isstream(strip(n["o"]).get("t")) and n.get("op") is None:
            i = key(n["o"])
            for a in n["a"]:
                st = self.E(a, st)
            nm = n.get("n")
            if nm == "open":
                self.member.setdefault(i, n)
                t = tuple(self.conds)
                self.opencond[i] = self.opencond[i] & set(t) if i in self.opencond else set(t)
                return st
            if nm in ("close", "flush"):
                return self.shut(i, n, st)
            if nm == "exceptions" and n["a"]:
                return st if st is ALL else st | {("x", i), ("d", i)}
            if nm in NEUTRAL or nm in ("operator!", "operator bool"):
                return st
            return self.use(i, n, st)
        if k in ("ref", "mem") and isstream(n.get("t")):
            i = key(n)
            return self.use(i, n, st) if i else self.sub(n, st)
        if k in ("call", "ctor"):
            f = self.P.functions.get(n.get("id"))
            if n.get("o") is not None:
                st = self.E(n["o"], st)
            post = []
            for j, a in enumerate(n.get("a") or []):
                b = strip(a)
                if f is not None and "body" in f and j < len(f["p"]) and b.get("k") in ("ref", "mem") and key(b) and f["p"][j].get("id") and isstream(f["p"][j].get("t")):
                    post.append((key(b), self.W.summary(f, j)))
                    continue
                st = self.E(a, st)
            for i, sm in post:
                if st is ALL or ("x", i) in st:
                    continue
                h = frozenset(x for x in "ds" if (x, i) in st)
                e, touches, owns = sm[h]
                if touches:
                    self.owned.setdefault(i, n)
                if owns:
                    self.member.setdefault(i, n)
                st = ALL if e is ALL else (st - {("d", i), ("s", i)}) | {(x, i) for x in e}
            if st is not ALL and f is not None:
                for i in self.W.members(f):
                    st = self.use(i, n, st)
            if k == "call" and (n.get("n") in ("exit", "abort", "terminate")):
                return ALL
            return st
        return self.sub(n, st)

    def decl(self, v, st):
        st = self.E(v["init"], st) if v.get("init") is not None else st
        if st is not ALL and isstream(v.get("t")) and not (v.get("t") or "").endswith("&"):
            self.locals[v["id"]] = v
            self.owned.pop(v["id"], None)
            return (st | {("d", v["id"])}) - {("s", v["id"])}
        return st

    def C(self, n, st):
        if n is None or st is ALL:
            return st, ALL if n is None else st
        m = strip(n)
        k = m.get("k")
        e = None
        if k == "un" and m.get("op") == "!" or k == "call" and m.get("op") == "!":
            e = m["e"] if k == "un" else (m.get("o") or m["a"][0])
            if not isstream(strip(e).get("t")):
                a, b = self.C(e, st)
                return b, a
            return st, self.good(key(e), st)
        if k == "call" and m.get("o") is not None and isstream(strip(m["o"]).get("t")):
            i = key(m["o"])
            if m.get("n") == "is_open":
                return st, (st if st is ALL or i is None else st | {("d", i)})
            if m.get("n") in TEST or m.get("op") == "bool" or m.get("n") == "operator bool":
                return self.good(i, st), st
            if m.get("n") in FAIL:
                return st, self.good(i, st)
        if k in ("ref", "mem") and isstream(m.get("t")):
            return self.good(key(m), st), st
        if k == "ref" and m.get("id") in self.flags:
            return self.C(self.flags[m["id"]], st)
        return Definite.C(self, m, st)

    def cond(self, c):
        c = strip(c)
        return pp.E(strip(self.flags[c["id"]]) if c.get("k") == "ref" and c.get("id") in self.flags else c)

    def leave(self, s, st, scope=None):
        """the function (or the block which holds the local streams `scope`) is left normally"""
        if st is ALL:
            return
        for i, n in list(self.owned.items()):
            if i in self.locals and (scope is None or i in scope) or scope is None and str(i).startswith("this."):
                if ("d", i) not in st:
                    self.late.append((i, s if s is not None else n))

    def S(self, s, st):
        if s is None or st is ALL:
            return st
        k = s.get("k")
        if k == "decl":
            return Open.S(self, s, st)
        if k == "block":
            for x in s["s"]:
                st = self.S(x, st)
            mine = {v["id"] for x in s["s"] if x.get("k") == "decl" for v in x["v"] if v.get("id") in self.locals}
            self.leave(None, st, mine)
            for i in mine:
                self.owned.pop(i, None)
            return st
        if k == "if":
            if s.get("init"):
                st = self.S(s["init"], st)
            if s.get("cv"):
                st = self.decl(s["cv"], st)
            c = self.cond(s["c"])
            t, f = self.C(s["c"], st)
            if f is not ALL:
                f = f | {("d", i) for i, cs in self.opencond.items() if c in cs}
            self.conds.append(c)
            a = self.S(s["a"], t)
            self.conds[-1] = "!(%s)" % c
            b = self.S(s.get("b"), f)
            self.conds.pop()
            return meet(a, b)
        if k == "return":
            st = self.E(s.get("e"), st)
            self.leave(s, st)
            self.exits.append(st)
            return ALL
        if k in ("while", "for", "do", "rfor"):
            if s.get("init"):
                st = self.S(s["init"], st)
            if k == "rfor":
                st = self.E(s["r"], st)
            cur, out = st, ALL
            for _ in range(4):
                keep = len(self.late)
                self.loops.append([ALL, ALL])
                t, f = (self.C(s.get("c"), cur) if k in ("while", "for") else (cur, cur))
                e = meet(self.S(s["body"], t), self.loops[-1][1])
                if s.get("inc") and e is not ALL:
                    e = self.E(s["inc"], e)
                if k == "do" and e is not ALL:
                    e, f = self.C(s["c"], e)
                lp = self.loops.pop()
                out = meet(f, lp[0])
                nxt = meet(st, e)
                if nxt == cur:
                    break
                cur = nxt
                del self.late[keep:]
            return out
        if k == "try":
            b = self.S(s["body"], st)
            h0 = meet(st, b)
            for i in self.owned:
                h0 = h0 - {("d", i), ("s", i)} if h0 is not ALL and i not in self.locals else h0
            for h in s["h"]:
                b = meet(b, self.S(h["body"] if "body" in h else h, h0))
            return b
        return Definite.S(self, s, st)


class Writers:
    def __init__(self, P):
        self.P, self.sums, self.mem = P, {}, {}

    def summary(self, f, j):
        """what the function does to the stream given as its argument j, from each state"""
        k = (f["id"], j)
        if k not in self.sums:
            self.sums[k] = {frozenset(h): (frozenset(), True, False) for h in ((), ("d",), ("s",), ("d", "s"))}
            i, out = f["p"][j]["id"], {}
            for h in list(self.sums[k]):
                c = Complete(self, f)
                e = c.S(f["body"], frozenset((x, i) for x in h))
                for x in c.exits:
                    e = meet(e, x)
                out[h] = (ALL if e is ALL else frozenset(x for x in "ds" if (x, i) in e), i in c.owned, i in c.member)
            self.sums[k] = out
        return self.sums[k]

    def members(self, f, depth=0):
        """the streams of the object which a method writes, directly or not"""
        if f["id"] in self.mem:
            return self.mem[f["id"]]
        self.mem[f["id"]] = set()
        out = set()
        if "body" in f and f["q"].startswith("vega"):
            for n in ir.walk(f["body"]):
                if n.get("k") == "mem" and isstream(n.get("t")) and (key(n) or "").startswith("this."):
                    out.add(key(n))
                elif n.get("k") == "call":
                    g = self.P.functions.get(n.get("id"))
                    if g is not None and strip(n.get("o") or {"k": "this"}).get("k") == "this":
                        out |= self.members(g)
            if out and all(self.harmless(f, i) for i in out):
                out = set()
        self.mem[f["id"]] = out
        return out

    def harmless(self, f, i):
        c = Complete(self, f)
        e = c.S(f["body"], frozenset([("d", i)]))
        for x in c.exits:
            e = meet(e, x)
        return e is ALL or ("d", i) in e


def run(ctx):
    P = ctx.P
    ctx.rule("complete", "what was written into an output file is known to have reached it before the function which opened or closed it returns: the stream is tested after it was closed or flushed", 8)
    W = Writers(P)
    ctx.rule("open", "an output file is written only where it is known to have been opened: a file that cannot be opened is an error", 8)
    ctx.rule("med", "the result of every MED operation is tested, and a failure leaves the function with an error", 10)
    for fn in P.functions.values():
        if "body" not in fn or not fn["q"].startswith("vega"):
            continue
        if any(isstream(x.get("t")) for x in ir.walk(fn["body"]) if x.get("k") in ("ref", "mem", "ctor")) or any(isstream(v.get("t")) for d in ir.nodes(fn["body"], "decl") for v in d["v"]):
            o = Open(P, fn, ctx)
            o.S(fn["body"], frozenset())
            done = set()
            for i, n in o.bad:
                done.add(i)
                nm = str(i).split("@")[0]
                ctx.violation("open", "%s:%s" % (fn["q"], nm), loc(fn, n), "%s is written although it may not be open: a failure to open it goes unnoticed" % nm, fn)
            for i, n in o.opened:
                if i not in done:
                    ctx.ok("open", "%s:%s" % (fn["q"], str(i).split("@")[0]), fn)
            c = Complete(W, fn)
            st = frozenset(("d", key(n)) for n in ir.walk(fn["body"]) if n.get("k") == "mem" and isstream(n.get("t")) and key(n))
            ps = {p["id"] for p in fn["p"] if p.get("id")}
            st = c.S(fn["body"], st)
            c.leave(None, st)
            seen = set()
            for i, n in c.late:
                if i in seen or i in ps or i not in c.locals and i not in c.member:
                    continue
                seen.add(i)
                nm = c.locals[i]["n"] if i in c.locals else str(i)
                ctx.violation("complete", "%s:%s" % (fn["q"], nm), loc(fn, n), "%s is written, but not known to have been written entirely: it is not tested after it was closed" % nm, fn)
            for i in sorted(set(c.member) - seen - ps, key=str):
                ctx.ok("complete", "%s:%s" % (fn["q"], c.locals[i]["n"] if i in c.locals else i), fn)
        for n, inst, ok in results(ctx, P, fn):
            if ok:
                ctx.ok("med", inst, fn)
            else:
                ctx.violation("med", inst, loc(fn, n), "a failure of %s is not noticed: its result is not tested before the next step" % n["n"], fn)
