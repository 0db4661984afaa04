"""Which numbering an integer belongs to: the identifier of a node (a cell, ...), which the input gives, or its position in the mesh.

A unit is (subject, kind), subject in node / cell / cs / None (not said), kind in id / pos.  Units come from the program's own
declarations (parameter, attribute and function names; the alias pos_t) and from the calls which convert between the numberings;
locals take the unit of what they are initialised with, and their own name only otherwise."""
import re
from . import ir

WORDS = re.compile(r"[A-Z]?[a-z]+|[A-Z]+(?![a-z])|[0-9]+")
RETURNS = {
    "findOrReserveNode": ("node", "pos"), "addNode": ("node", "pos"), "findOrReserveCoordinateSystem": ("cs", "pos"),
    "addOrFindOrientation": ("cs", "pos"), "findOrientation": ("cs", "pos"), "addCell": ("cell", "pos"), "generateSkinCell": ("cell", "pos"),
}
INTS = {"int", "long", "unsigned int", "unsigned long", "short", "unsigned short", "long long", "unsigned long long", "char"}
INTBOX = re.compile(r"(?:const )?(?:std::(?:vector|set|list|array|initializer_list|unordered_set|deque)<(?:const )?(?:unsigned )?(?:int|long)\b)")


def bare(t):
    return (t or "").replace("const ", "").rstrip("&").strip()


def numeric(t):
    return bare(t) in INTS or bool(INTBOX.match(t or ""))


def by_name(name):
    w = [x.lower() for x in WORDS.findall(name or "")]
    while w and (w[-1].isdigit()):
        w.pop()
    if not w:
        return None
    if "by" in w:
        w = w[:w.index("by")]
        if not w:
            return None
    last = w[-1]
    if last in ("id", "ids", "nodeid", "nodeids"):
        kind = "id"
    elif last in ("position", "positions"):
        kind = "pos"
    elif last == "pos":
        kind = "pos"
    else:
        return None
    if len(w) > 1 and w[-2] in ("type", "part", "group", "connectivity", "subcase", "step", "frequency", "order", "dot", "swap", "equal", "field", "end", "stresses", "elements", "dof", "current"):
        return None
    head = w[:-1]
    subj = None
    if "node" in head or last.startswith("node"):
        subj = "node"
    elif "cell" in head:
        subj = "cell"
    elif head and head[-1] in ("cs", "cp", "cd", "system"):
        subj = "cs"
    elif last == "pos":
        return None
    return subj, kind


def by_type(v):
    return (None, "pos") if re.search(r"\bpos_t\b", v.get("ts") or "") and (bare(v.get("ts")) in ("pos_t", "vega::pos_t") or re.match(r"(const )?std::(vector|set|list)<(vega::)?pos_t", v.get("ts"))) else None


def declared(v):
    if not numeric(v.get("t")):
        return None
    n, t = by_name(v.get("n")), by_type(v)
    if n and t:
        return n if n[1] == t[1] else None
    return n or t


def returned(n):
    if n["n"] in RETURNS:
        return RETURNS[n["n"]]
    return declared({"n": n["n"], "t": n.get("t"), "ts": n.get("rs")})


def compatible(a, b):
    if a is None or b is None:
        return True
    return a[1] == b[1] and (a[0] is None or b[0] is None or a[0] == b[0])


def key_unit(n):
    """the numbering of the keys of a map"""
    while n.get("k") in ("cast", "icast", "paren"):
        n = n["e"]
    ts, name = n.get("ts") or "", n.get("n") or ""
    if not re.match(r"(const )?std::(__cxx11::)?(unordered_)?(multi)?map<(const )?(unsigned )?(int|long)\b", n.get("t") or ""):
        return None
    u = None
    if "By" in name:
        u = by_name(re.sub("([A-Za-z]+)", lambda m: m.group(1)[0].lower() + m.group(1)[1:], name[name.rindex("By") + 2:], count=1) or None)
    t = (None, "pos") if re.match(r"(const )?(std::)?(unordered_)?(multi)?map<(const )?(vega::)?pos_t\b", ts) else None
    if u and t:
        return u if u[1] == t[1] else None
    return u or t


TOKEN = ("vega::nastran::NastranTokenizer::nextInt",)


class Flow:
    def __init__(self, P, fn):
        self.P, self.fn = P, fn
        self.loc = {}
        self.decl = {}
        for p in fn["p"]:
            self.decl[p["id"]] = declared(p)
        self.bodies = [fn["body"]] + [x for i in fn.get("inits", []) for x in [i.get("e")] if x]
        for _ in range(3):
            for b in self.bodies:
                for n in ir.walk(b):
                    self.learn(n)

    def bind(self, v, u):
        if v["id"] in self.decl:
            return
        if u is None:
            u = None
        s = self.loc.setdefault(v["id"], set())
        s.add(u)

    def learn(self, n):
        k = n.get("k")
        if k == "decl":
            for v in n.get("v", ()):
                if v.get("init") is not None and numeric(v.get("t")):
                    self.bind(v, self.unit(v["init"]) or declared(v))
                elif numeric(v.get("t")):
                    self.bind(v, declared(v))
        elif k == "asg" and n.get("op") == "=" and n["a"]["k"] == "ref":
            i = n["a"].get("id")
            if i in self.loc:
                self.loc[i].add(self.unit(n["b"]))
        elif k == "call" and n.get("n") in ("push_back", "insert", "emplace_back") and len(n.get("a") or []) == 1 and (n.get("o") or {}).get("k") == "ref":
            i = n["o"].get("id")
            if i in self.loc and numeric(n["o"].get("t")):
                self.loc[i].discard(None)
                self.loc[i].add(self.unit(n["a"][0]))
        elif k == "rfor" and isinstance(n.get("v"), dict):
            self.bind(n["v"], self.unit(n.get("r")) or declared(n["v"]))

    def unit(self, n, depth=0):
        if n is None or depth > 12:
            return None
        k = n["k"]
        if k in ("cast", "icast", "paren"):
            return self.unit(n.get("e"), depth + 1)
        if k == "ref":
            i = n.get("id")
            if i in self.loc:
                u = {x for x in self.loc[i]}
                return next(iter(u)) if len(u) == 1 else None
            if i in self.decl:
                return self.decl[i]
            return None
        if k == "mem":
            if n.get("n") in ("id", "position") and n.get("q", "").startswith(("vega::Node::", "vega::Cell::")):
                return n["q"].split("::")[1].lower(), {"id": "id", "position": "pos"}[n["n"]]
            if n.get("n") in ("first", "second") and n["b"].get("k") in ("ref", "mem"):
                m = re.search(r"pair<(?:const )?([\w:]+), (?:const )?([\w:]+)>", n["b"].get("ts") or "")
                if m and m.group(1 if n["n"] == "first" else 2) in ("pos_t", "vega::pos_t"):
                    return (None, "pos")
                return None
            return declared({"n": n.get("n"), "t": n.get("t"), "ts": n.get("ts")}) if numeric(n.get("t")) else None
        if k == "cond":
            a, b = self.unit(n["a"], depth + 1), self.unit(n["b"], depth + 1)
            return a if a == b else None
        if k == "un" and n.get("op") == "*":
            return self.unit(n["e"], depth + 1)
        if k == "ctor" and not n.get("cp") and INTBOX.match(n.get("t") or n.get("q") or "") and n.get("a") and n["a"][0].get("k") == "init":
            n = n["a"][0]
            us = {self.unit(x, depth + 1) for x in n.get("a") or []}
            return next(iter(us)) if len(us) == 1 else None
        if k == "ctor" and n.get("cp") and n["a"]:
            return self.unit(n["a"][0], depth + 1)
        if k == "call":
            m = n.get("n")
            if not numeric(n.get("t")):
                if m in ("begin", "end", "cbegin", "rbegin", "find") and n.get("o") is not None:
                    return self.unit(n["o"], depth + 1)
                return None
            if n.get("op") in ("[]", "*") and n.get("o") is not None:
                return self.unit(n["o"], depth + 1) if re.search(r"std::(vector|array|list|deque|__cxx11|_Rb|set|__gnu|_List|initializer)", n.get("q", "")) else None
            if n.get("q") in TOKEN:
                return (None, "id")
            if m in ("at", "front", "back") and n.get("o") is not None and "map" not in (n.get("q") or ""):
                return self.unit(n["o"], depth + 1)
            if (n.get("q") or "").startswith("vega::"):
                return returned(n)
        return None

    def target(self, n):
        if n["k"] == "ref" and n.get("id") in self.loc:
            return declared(n)
        return self.unit(n)


def say(u):
    return "a%s %s" % (" " + {"cs": "coordinate system"}.get(u[0], u[0]) if u[0] else "", {"id": "identifier", "pos": "position"}[u[1]])


def text(n):
    while n.get("k") in ("cast", "icast", "paren") or n.get("k") == "call" and n.get("op") in ("->", "*", "[]") and n.get("o"):
        n = n.get("e") or n.get("o")
    return n.get("n") or n.get("k")
