"""Provenance facts: which leaves reach a sink, how (sign, kind of arithmetic, last operation applied)
and under which conditions.

Facts abstract from association order, temporaries, helpers, early returns versus nesting and statement
order, so that they survive refactoring, but not from which value reaches which sink under which condition."""
import re
from .absint import show, flat, leaves, atom_text, cut


def flip(s):
    return s.replace("-", "") if "-" in s else s + "-"


def inv(s):
    return s.replace("/", "") if "/" in s else s + "/"


def tagged(t, sign="", ops=frozenset(), out=None, mix=False, path=""):
    """{(sign, ops, leaf, frommix, path)}; path: argument position inside pairs and multi-argument applications"""
    if out is None:
        out = set()
    k = t[0]
    if k in ("any", "bag", "list"):
        for x in t[1]:
            tagged(x, sign, ops, out, mix, path)
    elif k == "mix":
        for x in t[1]:
            tagged(x, "", frozenset(("mix",)), out, True, path)
    elif k == "pair":
        tagged(t[1], sign, ops, out, mix, path + "@1")
        tagged(t[2], sign, ops, out, mix, path + "@2")
    elif k in ("elem", "iter"):
        tagged(t[1], sign, ops, out, mix, path)
    elif k == "op":
        o, a = t[1], t[2]
        if o == "neg" or (o == "-" and len(a) == 1):
            tagged(a[0], flip(sign), ops, out, mix, path)
        elif o == "-" and len(a) == 2:
            tagged(a[0], sign, ops | {"+"}, out, mix, path)
            tagged(a[1], flip(sign), ops | {"+"}, out, mix, path)
        elif o == "/" and len(a) == 2:
            tagged(a[0], sign, ops | {"*"}, out, mix, path)
            tagged(a[1], inv(sign), ops | {"*"}, out, mix, path)
        else:
            for x in a:
                tagged(x, sign, ops | {o}, out, mix, path)
    elif k == "app":
        if not t[2]:
            out.add((sign, ops, t, mix, path))
        multi = len(t[2]) > 1 and t[1].replace("ctor:", "").startswith("vega::")
        for i, x in enumerate(t[2]):
            tagged(x, sign, ops, out, mix, path + "@%d" % i if multi and len(path) < 6 else path)
    else:
        out.add((sign, ops, t, mix, path))
    return out


def signed_leaves(t):
    return {(s, l) for s, o, l, m, p in tagged(t)}


def units(pc):
    return {atom_text(a) for a in pc if a[0] not in ("or", "and") or not isinstance(a[1], frozenset)}


CAP = 24


def negate(t):
    return t[1:] if t.startswith("!") else "!" + t


def clauses(pc):
    """the conjunction pc as a disjunction of conjunctions of literals (texts); None when too large"""
    out = [frozenset()]
    for a in sorted(pc, key=atom_text):
        alts = expand(a)
        if alts is None:
            return None
        out = [c | d for c in out for d in alts if not any(negate(x) in c for x in d)]
        out = [x for x in (eqsimp(c) for c in out) if x is not None]
        if len(out) > CAP:
            return None
    return simplify(out)


def eqsimp(c):
    """x == a makes x != b redundant, and x == b impossible (a, b different literals)"""
    eq = {}
    for l in c:
        if not l.startswith("!") and " == " in l:
            x, v = l.rsplit(" == ", 1)
            if eq.setdefault(x, v) != v and islit(eq[x]) and islit(v):
                return None
    if not eq:
        return c
    return frozenset(l for l in c if not (l.startswith("!") and " == " in l and l[1:].rsplit(" == ", 1)[0] in eq and islit(l.rsplit(" == ", 1)[1])))


def islit(v):
    return v[:1] in "'-0123456789" or re.match(r"[\w:]+$", v) is not None and ("::" in v or v.isupper())


def expand(a):
    if a[0] == "or" and isinstance(a[1], frozenset):
        r = []
        for x in a[1]:
            e = expand(x)
            if e is None:
                return None
            r += e
        return r if len(r) <= CAP else None
    if a[0] == "and" and isinstance(a[1], frozenset):
        r = [frozenset()]
        for x in a[1]:
            e = expand(x)
            if e is None:
                return None
            r = [c | d for c in r for d in e]
            if len(r) > CAP:
                return None
        return r
    return [frozenset((atom_text(a),))]


def simplify(cs):
    """absorption, complementary merging and unit consensus"""
    cs = set(cs)
    for _ in range(60):
        changed = False
        for c in sorted(cs, key=lambda c: (len(c), sorted(c))):
            if c not in cs:
                continue
            for d in list(cs):
                if d is c or d == c or d not in cs:
                    continue
                if c < d:
                    cs.discard(d)
                    changed = True
                    continue
                for l in c:
                    n = negate(l)
                    if n in d and (c - {l}) <= (d - {n}):
                        cs.discard(d)
                        cs.add(d - {n})
                        changed = True
                        break
        if not changed:
            break
    # exclusive equalities: x == a is redundant next to x == b negated, handled by assume()
    return sorted(cs, key=lambda c: (len(c), sorted(c)))


class Guard:
    """disjunction of path conditions; degrades to the common literals when it grows too large"""
    __slots__ = ("cs", "common", "seen")

    def __init__(self):
        self.cs, self.common, self.seen = [], None, set()

    def add(self, pc):
        if pc in self.seen:
            return
        self.seen.add(pc)
        u = units(pc)
        self.common = u if self.common is None else self.common & u
        if self.cs is not None:
            c = clauses(pc)
            if c is None or len(self.cs) + len(c) > 3 * CAP:
                self.cs = None
            else:
                self.cs = simplify(list(self.cs) + c)
                if len(self.cs) > CAP:
                    self.cs = None

    def freeze(self):
        if self.cs is None:
            return sorted("* " + x for x in self.common)
        if self.cs == [frozenset()]:
            return []
        return [" & ".join(sorted(c)) for c in self.cs]


class Facts:
    """sink -> leaf text -> set of conditions which hold whenever the leaf reaches the sink"""

    def __init__(self, leafname):
        self.sinks = {}
        self.sel = {}
        self.diag = {}
        self.where = {}
        self.leafname = leafname

    def put(self, sink, term, pc, node=None, fn=None):
        if term[0] == "list" and 1 < len(term[1]) <= 30:
            for i, x in enumerate(term[1]):
                self.put("%s[%d]" % (sink, i), x, pc, node, fn)
            return
        s = self.sinks.setdefault(sink, {})
        if sink not in self.where and fn is not None:
            self.where[sink] = "%s:%s (%s)" % (fn["f"], (node or {}).get("l", fn["l"]), fn["q"])
        got = False
        for sign, ops, l, mix, path in tagged(term):
            nm = self.leafname(l, mix)
            if nm is None:
                continue
            got = True
            nm = sign + nm + self.optag(l, ops) + (path if l[0] == "tok" else "")
            s.setdefault(nm, Guard()).add(pc)
        if not got:
            s.setdefault(self.other(term), Guard()).add(pc)

    @staticmethod
    def other(t):
        """name of a term without interesting leaf"""
        if t[0] == "app" and t[1].startswith("vega::"):
            return t[1].split("::")[-1] + "()"
        if t[0] == "fld":
            return "." + t[2]
        return "."

    @staticmethod
    def optag(l, ops):
        if l[0] != "tok":
            return ""
        return ("*" if "*" in ops else "") + ("+" if "+" in ops else "")

    def select(self, term, pc):
        if term[0] in ("any", "mix", "obj", "lam", "bag", "list", "ref"):
            return
        ns = sorted({s + n for s, o, l, m, p in tagged(term) for n in [self.leafname(l, m)] if n is not None})
        if not ns:
            return
        k = " ".join(ns)
        self.sel.setdefault(k, Guard()).add(pc)

    def note(self, kind, pc, node, fn, site=None):
        """a diagnostic is issued under these conditions"""
        self.diag.setdefault(kind, {}).setdefault(site, Guard()).add(pc)
        self.where.setdefault("diag:" + kind, "%s:%s (%s)" % (fn["f"], node.get("l", fn["l"]), fn["q"]))

    def freeze(self):
        return {"diag": {k: sorted(" | ".join(g.freeze()) for g in d.values()) for k, d in self.diag.items()},
                "sinks": {s: {l: g.freeze() for l, g in sorted(d.items())} for s, d in sorted(self.sinks.items())},
                "sel": {v: g.freeze() for v, g in sorted(self.sel.items()) if g.freeze()}}


def compare(frozen, cur, guards=True, sels=True):
    """[(rule, key, message, sink)] differences of a function's facts with the confirmed ones"""
    out = []
    fs, cs = frozen["sinks"], cur["sinks"]
    for sink, leaves_ in fs.items():
        if sink not in cs:
            out.append(("sink", sink, "%s is no longer reached (it received %s)" % (sink, ", ".join(leaves_) or "nothing"), sink))
            continue
        c = cs[sink]
        miss = [l for l in leaves_ if l not in c and l != "."]
        extra = [l for l in c if l not in leaves_ and l != "."]
        if miss or extra:
            out.append(("leaf", sink, "%s receives {%s} instead of {%s}" % (sink, ", ".join(x for x in c if x != "."), ", ".join(x for x in leaves_ if x != ".")), sink))
            continue
        if guards:
            for l, g in leaves_.items():
                if l in c and sorted(g) != sorted(c[l]):
                    lost = [x for x in g if x not in c[l]]
                    new = [x for x in c[l] if x not in g]
                    out.append(("guard", "%s<-%s" % (sink, l), "%s reaches %s %s%s" % (
                        l if l != "." else "control", sink, ("no longer only when [%s]" % "; ".join(lost)) if lost else "",
                        (" only when [%s]" % "; ".join(new)) if new else ""), sink))
                    break
    if sels:
        for v, g in frozen["sel"].items():
            c = cur["sel"].get(v)
            if c is None:
                out.append(("select", v, "the value {%s} is no longer selected when [%s]" % (v, "; ".join(g)), None))
            elif sorted(c) != sorted(g):
                out.append(("select", v, "the value {%s} is selected when [%s] instead of [%s]" % (v, "; ".join(c), "; ".join(g)), None))
    return out
