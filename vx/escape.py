"""Exceptions which escape from each function: least fixpoint over the call graph, with virtual calls resolved to every override."""
import re
from . import ir

STD = {"std::logic_error": "std::exception", "std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error",
       "std::length_error": "std::logic_error", "std::domain_error": "std::logic_error", "std::future_error": "std::logic_error",
       "std::runtime_error": "std::exception", "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
       "std::underflow_error": "std::runtime_error", "std::system_error": "std::runtime_error", "std::ios_base::failure": "std::system_error",
       "std::bad_alloc": "std::exception", "std::bad_cast": "std::exception", "std::bad_typeid": "std::exception", "std::bad_function_call": "std::exception",
       "boost::bad_lexical_cast": "std::bad_cast", "boost::filesystem::filesystem_error": "std::system_error", "boost::program_options::error": "std::logic_error",
       "boost::bad_any_cast": "std::bad_cast"}
LIB = {"stoi": ("std::invalid_argument", "std::out_of_range"), "stod": ("std::invalid_argument", "std::out_of_range"), "stof": ("std::invalid_argument", "std::out_of_range"),
       "stol": ("std::invalid_argument", "std::out_of_range"), "stoul": ("std::invalid_argument", "std::out_of_range"), "stoull": ("std::invalid_argument", "std::out_of_range"),
       "stoll": ("std::invalid_argument", "std::out_of_range"), "lexical_cast": ("boost::bad_lexical_cast",)}


def norm(t):
    t = (t or "").replace("const ", "").replace("struct ", "").replace("class ", "").strip()
    while t.endswith(("&", "*const", " ")):
        t = t[:-6] if t.endswith("*const") else t[:-1]
    t = t.replace("std::__cxx11::", "std::").replace("boost::wrapexcept<boost::bad_lexical_cast>", "boost::bad_lexical_cast").strip()
    if t.startswith("std::basic_string<char"):
        return "std::string"
    return t


class Escape:
    """esc[(function, values of its boolean parameters that are literals at the call)] = {(type, origin): (where, function)}; what a handler throws again is named rethrow TYPE"""

    def __init__(self, P, lib=True):
        self.P, self.lib = P, lib
        self.tab = {}
        self.work, self.memo = [], {}
        self.fns = [f for f in P.functions.values() if "body" in f and (f["q"].startswith("vega::") or f["q"] == "main")]
        self.mine = {f["id"] for f in self.fns}
        for f in self.fns:
            self.tab[(f["id"], ())] = {}
        self.users, self.now = {}, None
        todo = list(self.tab)
        queued = set(todo)
        while todo:
            key = todo.pop()
            queued.discard(key)
            self.now = key
            new = self.of(P.functions[key[0]], dict(key[1]))
            e = self.tab[key]
            grew = False
            for t, w in new.items():
                if t not in e:
                    e[t] = w
                    grew = True
            again = list(self.users.get(key, ())) if grew else []
            for k in self.work:
                if k not in self.tab:
                    self.tab[k] = {}
                    again.append(k)
            self.work = []
            for k in again:
                if k not in queued:
                    queued.add(k)
                    todo.append(k)

    def get(self, f):
        return self.tab.get((f["id"], ()), {})

    def callee(self, i, n):
        if i not in self.mine:
            return {}
        f = self.P.functions[i]
        ctx = []
        for p, a in zip(f["p"], n.get("a") or []):
            while a.get("k") in ("cast", "icast", "paren", "defarg") and a.get("e"):
                a = a["e"]
            if a.get("k") == "bool" and p.get("id"):
                ctx.append((p["id"], bool(a["v"])))
        key = (i, tuple(ctx))
        self.users.setdefault(key, {})[self.now] = 1
        if key not in self.tab:
            self.work.append(key)
            return {}
        return self.tab[key]

    def truth(self, n, ctx):
        """the value of a condition, when the literal arguments decide it"""
        while n.get("k") in ("cast", "icast", "paren"):
            n = n["e"]
        k = n.get("k")
        if k == "bool":
            return bool(n["v"])
        if k == "ref":
            return ctx.get(n.get("id"))
        if k == "un" and n.get("op") == "!":
            t = self.truth(n["e"], ctx)
            return None if t is None else not t
        if k == "bin" and n.get("op") in ("&&", "||"):
            a, b = self.truth(n["a"], ctx), self.truth(n["b"], ctx)
            dom = n["op"] == "||"
            if a is dom or b is dom:
                return dom
            return None if a is None or b is None else not dom
        return None

    def bases(self, t):
        out = [t]
        work = [t]
        while work:
            x = work.pop()
            b = [STD[x]] if x in STD else []
            c = self.P.classes.get(x)
            if c is not None:
                b += [norm(y if isinstance(y, str) else y.get("t") or y.get("q")) for y in c.get("bases") or []]
            for y in b:
                if y not in out:
                    out.append(y)
                    work.append(y)
        return out

    def caught(self, t, h):
        return h is None or norm(h) in self.bases(t)

    def relevant(self, f):
        """the parts of a function that matter here, in order"""
        if f["id"] not in self.memo:
            self.memo[f["id"]] = [self.prune(x["e"]) for x in f.get("inits") or [] if isinstance(x, dict) and x.get("e")] + [self.prune(f["body"])]
        return [x for x in self.memo[f["id"]] if x is not None]

    def prune(self, n):
        if not isinstance(n, dict):
            return None
        k = n.get("k")
        if k in ("try", "if", "cond", "throw", "call", "ctor"):
            m = dict(n)
            if k == "try":
                m["body"] = self.prune(n["body"]) or {"k": "block", "s": []}
                m["h"] = [dict(h, body=self.prune(h.get("body") or h.get("s") or {}) or {"k": "block", "s": []}) for h in n["h"]]
                return m
            if k in ("if", "cond"):
                parts = {x: self.prune(n[x]) if n.get(x) else None for x in ("init", "cv", "c", "a", "b") if x in n}
                if not any(parts.values()):
                    return None
                return {"k": "if", "c0": n["c"], "cv": n.get("cv"), "s": [x for x in (parts.get("init"), parts.get("cv"), parts.get("c")) if x], "a": parts.get("a"), "b": parts.get("b")}
            kids = [y for y in (self.prune(c) for c in ir.children(n)) if y]
            if k == "throw":
                return {"k": "throw", "e": {"k": "block", "s": kids, "t": n["e"].get("t")} if n.get("e") else None, "l": n.get("l", 0)}
            lib = self.lib and (n.get("q") or "").startswith(("std::", "boost::")) and n.get("n") in LIB
            mine = n.get("id") in self.mine or n.get("v")
            if lib or mine:
                return {"k": "call", "id": n.get("id"), "v": n.get("v"), "a": n.get("a"), "q": n.get("q"), "n": n.get("n"), "l": n.get("l", 0), "kids": kids}
            return {"k": "block", "s": kids} if kids else None
        kids = [y for y in (self.prune(c) for c in ir.children(n)) if y]
        if not kids:
            return None
        return kids[0] if len(kids) == 1 else {"k": "block", "s": kids}

    def of(self, f, ctx):
        out = {}
        assigned = {x["a"].get("id") for x in ir.nodes(f["body"], "asg") if x["a"].get("k") == "ref"}
        ctx = {p: v for p, v in ctx.items() if p not in assigned}
        for n in self.relevant(f):
            self.walk(f, n, out, None, ctx)
        return out

    def handler(self, h):
        """None: catches everything"""
        v = h.get("v")
        return h.get("t") or (v.get("t") if isinstance(v, dict) else None)

    def tryof(self, f, n, current, ctx):
        """(what the handlers do not catch, [what each of them catches])"""
        body = {}
        self.walk(f, n["body"], body, current, ctx)
        left, took = dict(body), []
        for h in n["h"]:
            ht = self.handler(h)
            got = {t: w for t, w in left.items() if self.caught(t[0].replace("rethrow ", ""), ht)}
            for t in got:
                del left[t]
            took.append(got)
        return left, took

    def walk(self, f, n, out, current, ctx):
        k = n.get("k") if isinstance(n, dict) else None
        if k == "try":
            left, took = self.tryof(f, n, current, ctx)
            for h, got in zip(n["h"], took):
                hb = h.get("body") or h.get("s")
                if hb:
                    self.walk(f, hb, out, got, ctx)
            for t, w in left.items():
                out.setdefault(t, w)
            return
        if k in ("if", "cond"):
            t = self.truth(n["c0"], ctx) if not n.get("cv") else None
            for x in n["s"] + [n.get("a") if t is not False else None, n.get("b") if t is not True else None]:
                if x:
                    self.walk(f, x, out, current, ctx)
            return
        if k == "throw":
            e = n.get("e")
            if e is None:
                for t, w in (current or {}).items():
                    out.setdefault(("rethrow " + t[0].replace("rethrow ", ""), t[1]), w)
                return
            self.walk(f, e, out, current, ctx)
            out.setdefault((norm(e.get("t")), f["q"]), ("%s:%s" % (f["f"], n.get("l", f["l"])), f["q"]))
            return
        if k in ("call", "ctor"):
            i = n.get("id")
            ids = [i] if i else []
            if n.get("v") and i:
                ids += list(self.P.overriders(i))
            for j in ids:
                for t, w in self.callee(j, n).items():
                    out.setdefault(t, w)
            q = n.get("q") or ""
            if self.lib and q.startswith(("std::", "boost::")):
                for t in LIB.get(n.get("n"), ()):
                    out.setdefault((t, q + " in " + f["q"]), ("%s:%s" % (f["f"], n.get("l", f["l"])), q))
        for c in n.get("kids") or n.get("s") or ():
            self.walk(f, c, out, current, ctx)
