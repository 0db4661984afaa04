"""Folding of the initialisers of constant tables: nested tuples of ints, texts and enumerators."""


class Unknown(Exception):
    pass


class Folder:
    def __init__(self, P):
        self.P, self.cache, self.busy = P, {}, set()

    def glob(self, q):
        """value of a global, by id or qualified name"""
        if q not in self.P.globals:
            q = self.ids().get(q, q)
        if q in self.cache:
            return self.cache[q]
        g = self.P.globals.get(q)
        if g is None or g.get("init") is None or q in self.busy:
            raise Unknown(q)
        self.busy.add(q)
        try:
            v = self.cache[q] = self.fold(g["init"], {})
        finally:
            self.busy.discard(q)
        return v

    def ids(self):
        if not hasattr(self, "_ids"):
            self._ids = {g.get("q"): i for i, g in self.P.globals.items()}
        return self._ids

    def fold(self, n, env):
        k = n.get("k")
        if k in ("cast", "icast", "paren", "defarg"):
            return self.fold(n["e"], env)
        if k in ("int", "str", "bool", "float"):
            return n.get("v")
        if k == "un" and n.get("op") == "-":
            return -self.fold(n["e"], env)
        if k == "bin" and n.get("op") in ("+", "-", "*"):
            a, b = self.fold(n["a"], env), self.fold(n["b"], env)
            return a + b if n["op"] == "+" else a - b if n["op"] == "-" else a * b
        if k == "init":
            return [self.fold(x, env) for x in n["a"]]
        if k == "ref":
            if n.get("dk") == "enumc":
                return ("enum", n["q"], n.get("v"))
            if n.get("id") in env:
                return env[n["id"]]
            if n.get("dk") == "global":
                return self.glob(n["id"] if n.get("id") in self.P.globals else n["q"])
            raise Unknown(n.get("n"))
        if k == "mem":
            b = self.fold(n["b"], env)
            if isinstance(b, dict) and n["n"] in b:
                return b[n["n"]]
            raise Unknown(n["n"])
        if k == "ctor":
            return self.ctor(n, env)
        if k == "call":
            return self.call(n, env)
        raise Unknown(k)

    def ctor(self, n, env):
        q = n.get("q") or ""
        a = [x for x in n["a"] if x.get("k") != "defarg"]
        if q.startswith("std::allocator"):
            return None
        if n.get("cp") and a:
            return self.fold(a[0], env)
        if q.startswith("vega::"):
            fn = self.P.functions.get(n.get("id"))
            if fn is None:
                raise Unknown(q)
            env2 = {}
            for i, p in enumerate(fn.get("p") or []):
                if i < len(n["a"]):
                    env2[p["id"]] = self.fold(n["a"][i], env)
                elif p.get("def"):
                    env2[p["id"]] = self.fold(p["def"], env)
            r = {}
            for i in fn.get("inits") or []:
                if i.get("field"):
                    try:
                        r[i["field"]] = self.fold(i["e"], env2)
                    except Unknown:
                        pass
            return r
        if q.startswith("std::pair") and len(a) == 2:
            return (self.fold(a[0], env), self.fold(a[1], env))
        if not a:
            return []
        if len(a) == 1:
            return self.fold(a[0], env)
        v = [self.fold(x, env) for x in a if (x.get("q") or "").startswith("std::allocator") is False]
        v = [x for x in v if x is not None]
        return v[0] if len(v) == 1 else v

    def call(self, n, env):
        q = n.get("q") or ""
        if q in ("std::move", "std::forward") or n.get("n") in ("move", "forward"):
            return self.fold(n["a"][0], env)
        if n.get("n") in ("make_pair",):
            return tuple(self.fold(x, env) for x in n["a"])
        fn = self.P.functions.get(n.get("id"))
        if fn is None or not fn.get("body") or n.get("id") in self.busy:
            raise Unknown(q)
        self.busy.add(n["id"])
        env2 = {}
        for p, x in zip(fn.get("p") or [], n["a"]):
            env2[p["id"]] = self.fold(x, env)
        try:
            r = self.body(fn["body"], env2)
        finally:
            self.busy.discard(n["id"])
        if r is None:
            raise Unknown(q)
        return r[0]

    def body(self, s, env):
        """straight-line code that fills a table; returns (value,) when it returns"""
        k = s["k"]
        if k == "block":
            for x in s["s"]:
                r = self.body(x, env)
                if r is not None:
                    return r
            return None
        if k == "decl":
            for v in s["v"] if isinstance(s.get("v"), list) else [s["v"]]:
                env[v["id"]] = self.fold(v["init"], env) if v.get("init") is not None else []
            return None
        if k == "return":
            return (self.fold(s["e"], env),)
        if k == "expr":
            self.effect(s["e"], env)
            return None
        raise Unknown(k)

    def effect(self, e, env):
        while e.get("k") in ("cast", "icast", "paren"):
            e = e["e"]
        if e.get("k") == "call" and e.get("op") == "=" or e.get("k") == "asg" and e.get("op") == "=":
            if e.get("k") == "call":
                lhs, rhs = (e["o"], e["a"][0]) if e.get("o") is not None else (e["a"][0], e["a"][1])
            else:
                lhs, rhs = e["a"], e["b"]
            if lhs.get("k") == "ref" and lhs.get("id") in env:
                env[lhs["id"]] = self.fold(rhs, env)
                return
            if lhs.get("k") == "call" and lhs.get("op") == "[]":
                o, i = (lhs["o"], lhs["a"][0]) if lhs.get("o") is not None else (lhs["a"][0], lhs["a"][1])
                t, key, v = self.fold(o, env), self.fold(i, env), self.fold(rhs, env)
                for j, x in enumerate(t):
                    if isinstance(x, (tuple, list)) and len(x) == 2 and x[0] == key:
                        t[j] = (key, v)
                        return
                t.append((key, v))
                return
        if e.get("k") == "call" and e.get("o") is not None and e.get("n") in ("push_back", "emplace_back", "insert", "emplace"):
            t = self.fold(e["o"], env)
            a = [self.fold(x, env) for x in e["a"]]
            if isinstance(t, list) and a:
                t.append(a[0] if len(a) == 1 else tuple(a))
                return
        if e.get("k") == "call" and e.get("n") == "reserve":
            return
        raise Unknown("effect")


def table(v):
    """a folded map as {key: value}"""
    r = {}
    for x in v:
        if not isinstance(x, (tuple, list)) or len(x) != 2:
            raise Unknown("entry")
        k = x[0]
        r.setdefault(k[1] if isinstance(k, tuple) and k[:1] == ("enum",) else k, x[1])
    return r
