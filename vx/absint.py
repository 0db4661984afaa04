"""A provenance dataflow analysis over the structured IR.

Forward, flow-sensitive, path-INsensitive (states are joined at every merge
point), with inlining of helper functions (so that extracting a helper does not
change the result) and unrolling of loops whose trip count is a literal.
Values are terms describing where a value comes from; nothing is executed and no
solver is involved.

Terms (hashable tuples)
  ('c', v)            literal           ('null',)
  ('enum', q)         enumerator        ('glob', q) global
  ('sym', name)       root (parameter, this, unknown)
  ('fld', base, n)    field of an unknown object
  ('app', f, args)    uninterpreted application
  ('op', o, args)     operator
  ('obj', oid, cls)   object allocated during the analysis
  ('list', items)     container with known content;  ('bag', frozenset) unordered/unknown length
  ('lam', key)        closure
  ('any', frozenset)  join of alternatives
  ('mix', frozenset)  unknown function of the given leaves (loop widening)
  ('tok', ...)        domain specific leaves
"""
import re
from . import ir, pp

MAXANY = 24


def is_const(t):
    return t[0] in ("c", "enum", "null")


def flat(t):
    """alternatives of a term"""
    return t[1] if t[0] == "any" else frozenset((t,))


def join(a, b):
    if a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == "list" and b[0] == "list":
        if len(a[1]) == len(b[1]):
            return ("list", tuple(join(x, y) for x, y in zip(a[1], b[1])))
        return ("bag", frozenset(a[1]) | frozenset(b[1]))
    if a[0] in ("list", "bag") and b[0] in ("list", "bag"):
        return ("bag", frozenset(a[1]) | frozenset(b[1]))
    if a[0] == "mix" and b[0] == "mix":
        return ("mix", a[1] | b[1])
    if a[0] == "mix":
        return ("mix", a[1] | leaves(b))
    if b[0] == "mix":
        return ("mix", b[1] | leaves(a))
    s = flat(a) | flat(b)
    if len(s) > MAXANY:
        return ("mix", leaves(("any", s)))
    return ("any", s)


def leaves(t, out=None):
    top = out is None
    if top:
        out = set()
    k = t[0]
    if k in ("any", "bag", "list", "mix"):
        for x in t[1]:
            leaves(x, out)
    elif k in ("app", "op"):
        if k == "app" and not t[2]:
            out.add(t)
        for x in t[2]:
            leaves(x, out)
    elif k == "fld":
        out.add(t)
    else:
        out.add(t)
    return frozenset(out) if top else out


def contains(t, sub):
    if t == sub:
        return True
    k = t[0]
    if k in ("any", "bag", "list", "mix"):
        return any(contains(x, sub) for x in t[1])
    if k in ("app", "op"):
        return any(contains(x, sub) for x in t[2])
    if k in ("fld", "elem", "iter"):
        return contains(t[1], sub)
    if k == "pair":
        return contains(t[1], sub) or contains(t[2], sub)
    return False


def iterated(t):
    """containers a loop condition iterates over"""
    out = set()
    k = t[0]
    if k == "iter":
        out.add(t[1])
    if k == "app" and t[1] == "size" and t[2]:
        out.add(t[2][0])
    if k in ("any", "bag", "list", "mix"):
        for x in t[1]:
            out |= iterated(x)
    if k in ("app", "op"):
        for x in t[2]:
            out |= iterated(x)
    return out


def depth(t):
    k = t[0]
    if k in ("any", "bag", "list", "mix"):
        return 1 + max([depth(x) for x in t[1]] or [0])
    if k in ("app", "op"):
        return 1 + max([depth(x) for x in t[2]] or [0])
    if k == "fld":
        return 1 + depth(t[1])
    return 1


def bigger(t, left):
    """remaining size budget, negative when the term is larger"""
    left -= 1
    if left < 0:
        return left
    k = t[0]
    if k in ("any", "bag", "list", "mix"):
        xs = t[1]
    elif k in ("app", "op"):
        xs = t[2]
    elif k in ("fld", "elem", "iter"):
        xs = t[1:2]
    elif k == "pair":
        xs = t[1:3]
    else:
        return left
    for x in xs:
        left = bigger(x, left)
        if left < 0:
            return left
    return left


BIG = 60


def trim(t):
    """leaves which grow around a loop are cut off"""
    if bigger(t, BIG) >= 0:
        return t
    if t[0] == "fld":
        return ("fld", ("sym", "rec"), t[2])
    return ("sym", "rec")


def slim(t):
    """a joined value which has grown out of proportion keeps its leaves only"""
    if bigger(t, 25 * BIG) >= 0 and not (t[0] == "any" and depth(t) > 16):
        return t
    if t[0] in ("list", "bag"):
        return ("bag", frozenset((mixed(leaves(t)),)))
    return mixed(leaves(t))


def mixed(ls):
    return ("mix", frozenset(trim(x) for x in ls))


def widen(old, new):
    if old == new:
        return old
    if old is None:
        return new
    if old[0] in ("list", "bag") and new[0] in ("list", "bag"):
        items = frozenset(old[1]) | frozenset(new[1])
        if len(items) > MAXANY or any(depth(x) > 12 or bigger(x, 4 * BIG) < 0 for x in items):
            return ("bag", frozenset((mixed(leaves(("bag", items))),)))
        return ("bag", items)
    return mixed(leaves(old) | leaves(new))


class State:
    __slots__ = ("env", "heap", "aux", "pc")

    def __init__(self, env=None, heap=None, aux=None, pc=frozenset()):
        self.env, self.heap, self.aux, self.pc = env or {}, heap or {}, aux or {}, pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.aux), self.pc)

    def take(self, o):
        self.env, self.heap, self.aux, self.pc = o.env, o.heap, o.aux, o.pc


# ---- path facts: normalised conditions known to hold (atoms are (text, polarity) or ('or', frozenset of atoms))
def atoms(t, pol, out):
    k = t[0]
    if k == "c":
        return out
    if k == "atom":
        out.add(t[1] if pol else neg(t[1]))
        return out
    if k == "op":
        o, a = t[1], t[2]
        if o == "!" and len(a) == 1:
            return atoms(a[0], not pol, out)
        if o in ("&&", "||"):
            if (o == "&&") == pol:
                for x in a:
                    atoms(x, pol, out)
            else:
                alts = []
                for x in a:
                    s = set()
                    atoms(x, pol, s)
                    if not s:
                        return out
                    alts.append(s)
                flatn = set()
                for s in alts:
                    if len(s) == 1:
                        y = next(iter(s))
                        if y[0] == "or":
                            flatn |= y[1]
                        else:
                            flatn.add(y)
                    else:
                        flatn.add(("and", frozenset(s)))
                out.add(("or", frozenset(flatn)))
            return out
        if o in ("==", "!=") and len(a) == 2:
            if o == "!=":
                pol = not pol
            x, y = a
            if x[0] in ("c", "null", "enum") and y[0] not in ("c", "null", "enum"):
                x, y = y, x
            if y == ("null",) or (y[0] == "c" and y[1] in (0, False) and not isinstance(y[1], float) and not isinstance(y[1], str)):
                return atoms(x, not pol, out)
            if y == ("c", True) and isinstance(y[1], bool):
                return atoms(x, pol, out)
            for p, q in ((x, y), (y, x)):
                if p[0] == "app" and p[1] in ("find", "std::find") and p[2] and q[0] == "iter":
                    out.add(("in(%s)" % ",".join(cut(z) for z in p[2] if z[0] != "iter" or p[1] == "find"), not pol))
                    return out
            if y[0] in ("c", "enum"):
                out.add(("%s == %s" % (cut(x), cut(y)), pol))
                return out
            p, q = sorted((cut(x), cut(y)))
            out.add(("%s == %s" % (p, q), pol))
            return out
        if o in ("<", ">", "<=", ">=") and len(a) == 2:
            x, y = a
            if o in (">", "<="):
                x, y = y, x
            if o in (">=", "<="):
                pol = not pol
            # now the atom is x < y
            if x == ("c", 0) and y[0] == "app" and y[1] in ("size", "length", "count"):
                return atoms(y, pol, out)
            if y == ("c", 1) and x[0] == "app" and x[1] in ("size", "length", "count"):
                return atoms(x, not pol, out)
            p, q = cut(x), cut(y)
            if x[0] in ("c", "enum") and y[0] not in ("c", "enum"):
                out.add(("%s > %s" % (q, p), pol))
            else:
                out.add(("%s < %s" % (p, q), pol))
            return out
    if k in ("any", "mix") and len(t) > 2 and all(x[0] == "c" and isinstance(x[1], bool) for x in t[1]):
        out.add(("flag%d" % t[2], pol))
        return out
    if k == "app" and t[1] in ("empty", "string::empty"):
        return atoms(("app", "size", t[2]), not pol, out)
    if k == "app" and t[1] == "count":
        out.add(("in(%s)" % ",".join(cut(z) for z in t[2]), pol))
        return out
    out.add((cut(t), pol))
    return out


def cut(t):
    s = show(t)
    if len(s) > 400:
        import hashlib
        h = hashlib.md5(s.encode()).hexdigest()[:12]
        if "out:" in s or "line(" in s or "read(" in s:
            DIGEST[h] = s
        s = s[:60] + "..#" + h
    return s


DIGEST = {}     # digest -> text of the terms which depend on a variable filled by a call


def before(pc, t):
    """conditions on a variable which is filled again: they were about what it held before"""
    s = show(t)

    def about(x):
        return s in x or any(s in DIGEST.get(h, "") for h in re.findall(r"\.\.#([0-9a-f]{12})", x))

    def old(a):
        if a[0] in ("or", "and") and isinstance(a[1], frozenset):
            xs = [old(x) for x in a[1]]
            return None if None in xs else (a[0], frozenset(xs))
        if not about(a[0]):
            return a
        return None if a[0].startswith("before ") else ("before " + a[0], a[1])
    r = {old(a) for a in pc}
    r.discard(None)
    return frozenset(r)


def neg(a):
    if a[0] in ("or", "and") and isinstance(a[1], frozenset):
        return ("and" if a[0] == "or" else "or", frozenset(neg(x) for x in a[1]))
    return (a[0], not a[1])


def conj(g):
    g = frozenset(g)
    return next(iter(g)) if len(g) == 1 else ("and", g)


def is_boolish(t):
    return (t[0] == "c" and isinstance(t[1], bool)) or t[0] == "atom" or (t[0] == "op" and t[1] in ("!", "&&", "||", "==", "!=", "<", ">", "<=", ">=")) or \
        (t[0] == "app" and t[1] in ("empty", "count", "string::empty", "is_equal", "is_zero", "vega::is_equal", "vega::is_zero"))


def gated_bool(alts):
    """[(guards, boolean term)] -> one boolean term, or None"""
    if not all(is_boolish(v) for _, v in alts):
        return None
    # a search which returns false from within its loop: true is what remains
    fs = [set(g) for g, v in alts if v == ("c", False)]
    if len(fs) < len(alts) and any(v == ("c", True) and any(set(g) < f and any("each(" in atom_text(a) for a in f - set(g)) for f in fs) for g, v in alts):
        d = gated_bool([(g, ("c", v == ("c", False))) for g, v in alts]) if all(v[0] == "c" for _, v in alts) else None
        if d is None or d[0] != "atom":
            return None
        return ("atom", neg(d[1]))
    ors = []
    for g, v in alts:
        if v == ("c", False):
            continue
        s = set(g)
        if v != ("c", True):
            s |= atoms(v, True, set())
        if not s:
            return None
        # flatten nested conjunctions
        fl = set()
        for a in s:
            if a[0] == "and":
                fl |= a[1]
            else:
                fl.add(a)
        ors.append(fl)
    if not ors:
        return ("c", False)
    for _ in range(3):
        units = [next(iter(s)) for s in ors if len(s) == 1]
        for s in ors:
            if len(s) > 1:
                for u in units:
                    if neg(u) in s and len(s) > 1:
                        s.discard(neg(u))
    parts = frozenset(conj(s) for s in ors)
    if len(parts) == 1:
        return ("atom", next(iter(parts)))
    # a and !a
    if any(neg(p) in parts for p in parts):
        return ("c", True)
    return ("atom", ("or", parts))


LIT = re.compile(r" == (['\d-].*|[\w:]*::\w+|[A-Z_0-9]+)$")
NONZERO = re.compile(r" == -?[1-9]\d*$")


def assume(pc, t, pol):
    new = atoms(t, pol, set())
    if not new:
        return pc
    pc = set(pc) | new
    for _ in range(4):
        changed = False
        for a in list(pc):
            if a[0] == "and":
                pc.discard(a)
                pc |= a[1]
                changed = True
            elif a[0] == "or":
                if any(x in pc for x in a[1]):
                    pc.discard(a)
                    changed = True
                    continue
                rest = frozenset(x for x in a[1] if neg(x) not in pc)
                if rest != a[1]:
                    pc.discard(a)
                    if len(rest) == 1:
                        pc.add(next(iter(rest)))
                    elif rest:
                        pc.add(("or", rest))
                    changed = True
        if not changed:
            break
    # x == a implies x != b for another literal b
    eqs = {}
    for a in pc:
        if a[0] not in ("or", "and") and a[1] is True and " == " in a[0] and LIT.search(a[0]):
            eqs[a[0].rsplit(" == ", 1)[0]] = a[0]
    if eqs:
        pc = {a for a in pc if a[0] in ("or", "and") or a[1] is True or " == " not in a[0] or not LIT.search(a[0]) or
              a[0].rsplit(" == ", 1)[0] not in eqs or eqs[a[0].rsplit(" == ", 1)[0]] == a[0]}
        pc = {a for a in pc if a[0] in ("or", "and") or a[1] is False or a[0] not in eqs or not NONZERO.search(eqs[a[0]])}
    return frozenset(pc)


def atom_text(a):
    if a[0] in ("or", "and") and isinstance(a[1], frozenset):
        return "(" + (" %s " % a[0]).join(sorted(atom_text(x) for x in a[1])) + ")"
    return a[0] if a[1] else "!" + a[0]


def counters_of(fn):
    """local variables which are incremented or decremented"""
    c = fn.get("_counters")
    if c is None:
        c = fn["_counters"] = frozenset(n["e"]["id"] for n in ir.nodes(fn["body"], "un") if n["op"] in ("++", "--") and n["e"]["k"] == "ref")
    return c


def only(s):
    """the single statement of a block"""
    while s is not None and s["k"] == "block" and len(s["s"]) == 1:
        s = s["s"][0]
    return s


def nested(s):
    """if (a) { if (b) X } is if (a && b) X"""
    r = s.get("_nested")
    if r is not None:
        return r[0]
    if r is None:
        r = s
        if not s.get("b") and not s.get("cv") and not s.get("init"):
            x = only(s["a"])
            if x is not None and x["k"] == "if":
                x = nested(x)
                if not x.get("b") and not x.get("cv") and not x.get("init"):
                    r = dict(s)
                    r["c"] = {"k": "bin", "op": "&&", "a": s["c"], "b": x["c"], "t": "bool", "l": s["c"].get("l", s.get("l"))}
                    r["a"] = x["a"]
        s["_nested"] = (r,)
    return r


def headed(s):
    """while (true) { if (c) break; X } is while (!c) { X }"""
    r = s.get("_headed")
    if r is not None:
        return r[0]
    if r is None:
        r = s
        c = s.get("c")
        if (c is None or c["k"] in ("int", "bool") and c.get("v") in (1, True)) and s["body"]["k"] == "block" and s["body"]["s"]:
            x = s["body"]["s"][0]
            if x["k"] == "if" and not x.get("b") and not x.get("cv") and not x.get("init") and (only(x["a"]) or {}).get("k") == "break":
                r = dict(s)
                r["c"] = {"k": "un", "op": "!", "e": x["c"], "t": "bool", "l": x.get("l")}
                if x["c"]["k"] == "un" and x["c"]["op"] == "!":
                    r["c"] = x["c"]["e"]
                r["body"] = dict(s["body"])
                r["body"]["s"] = s["body"]["s"][1:]
        s["_headed"] = (r,)
    return r


def fluent(fn):
    """returns *this on every path"""
    r = fn.get("_fluent")
    if r is None:
        r = False
        if "body" in fn and fn["r"].endswith("&") and not fn.get("static"):
            r, todo, seen = True, [fn["body"]], 0
            while todo:
                n = todo.pop()
                if isinstance(n, dict):
                    if n.get("k") == "lambda":
                        continue
                    if n.get("k") == "return":
                        seen += 1
                        e = n.get("e")
                        if not (e and e["k"] == "un" and e["op"] == "*" and e["e"]["k"] == "this"):
                            r = False
                    todo.extend(n.values())
                elif isinstance(n, list):
                    todo.extend(n)
            r = r and seen > 0
        fn["_fluent"] = r
    return r


def decls_in(n):
    """local variables declared inside a statement"""
    c = n.get("_decls")
    if c is None:
        out = []
        for x in ir.walk(n):
            k = x.get("k")
            if k == "decl":
                out += [v["id"] for v in x["v"]]
            elif k == "rfor":
                out.append(x["v"]["id"])
            if x.get("cv"):
                out.append(x["cv"]["id"])
        c = n["_decls"] = tuple(out)
    return c


def leave(n, st):
    """the state after a scope: its variables are gone"""
    if st is not None and n is not None:
        for i in decls_in(n):
            st.env.pop(i, None)
    return st


def peel(n):
    while n is not None and (n.get("k") in ("icast", "cast", "paren") and n.get("e") is not None or n.get("k") == "ctor" and n.get("cp") and len(n.get("a") or []) == 1):
        n = n["e"] if n.get("k") != "ctor" else n["a"][0]
    return n


def operand(n):
    """object and arguments of an operator call"""
    return ([n["o"]] if n.get("o") is not None else []) + list(n.get("a") or [])


def as_range(s):
    """an iterator or index loop over a whole container, which only looks at the element, as a loop over its elements"""
    if "_range" in s:
        return s["_range"][0]
    s["_range"] = (None,)
    init, c, inc = s.get("init"), peel(s.get("c")), peel(s.get("inc"))
    if not init or init.get("k") != "decl" or len(init["v"]) != 1 or c is None or inc is None:
        return None
    v = init["v"][0]
    i0, vid = peel(v.get("init")), v["id"]

    def var(n):
        n = peel(n)
        return n is not None and n.get("k") == "ref" and n.get("id") == vid

    if not (inc.get("k") == "un" and "++" in inc.get("op", "") and var(inc["e"]) or inc.get("k") == "call" and inc.get("op") == "++" and var(operand(inc)[0])):
        return None
    sides = (c["a"], c["b"]) if c.get("k") == "bin" else tuple(operand(c)[:2]) if c.get("k") == "call" and c.get("op") else None
    if sides is None or len(sides) != 2 or i0 is None:
        return None
    if var(sides[1]):
        sides = (sides[1], sides[0])
    end = peel(sides[1])
    if not var(sides[0]) or end is None or end.get("k") != "call" or end.get("o") is None or end.get("op"):
        return None
    cont = end["o"]
    if i0.get("k") == "call" and i0.get("n") in ("begin", "cbegin") and not i0.get("a") and end.get("n") in ("end", "cend") and c.get("op") == "!=" and i0.get("o") is not None:
        index = False
        if pp.E(i0["o"]) != pp.E(cont):
            return None
    elif i0.get("k") == "int" and i0.get("v") == 0 and end.get("n") in ("size", "length") and not end.get("a") and c.get("op") in ("<", "!=") and var(c["a"] if c.get("k") == "bin" else sides[0]):
        index = True
    else:
        return None
    if "string" in (peel(cont).get("t") or "").split("<")[0]:
        return None
    text = pp.E(cont)
    if any(x.get("k") == "call" and not x.get("id", "").endswith("#1") for x in ir.walk(cont)):
        return None
    nid = vid + "#e"
    uses = [0]
    state = {"t": None}

    def elem(n):
        """the element this node names, or None"""
        if n.get("k") == "call" and n.get("op") in ("*", "->") and not index and len(operand(n)) == 1 and var(operand(n)[0]):
            return True
        if index and n.get("k") == "call" and (n.get("op") == "[]" or n.get("n") == "at" and n.get("o") is not None):
            o = operand(n)
            return len(o) == 2 and var(o[1]) and pp.E(o[0]) == text
        return False

    def conv(n):
        if isinstance(n, list):
            return [conv(x) for x in n]
        if not isinstance(n, dict):
            return n
        if elem(n):
            uses[0] += 1
            t = n.get("t") or ""
            if n.get("op") == "->":
                t = t.rstrip("* ").rstrip()
            if t and (state["t"] is None or n.get("op") != "->"):
                state["t"] = t
            return {"k": "ref", "dk": "var", "id": nid, "n": v["n"], "l": n.get("l"), "t": t}
        out = {k: conv(x) for k, x in n.items() if not k.startswith("_")}
        if n.get("k") in ("mem", "call"):
            b = n.get("b") if n["k"] == "mem" else n.get("o")
            b = peel(b)
            if b is not None and b.get("k") == "call" and b.get("op") == "->" and elem(b):
                out.pop("arrow", None)
        return out

    refs = sum(1 for x in ir.walk(s["body"]) if x.get("k") == "ref" and x.get("id") == vid)
    if not refs:
        return None
    body = conv(s["body"])
    if uses[0] != refs or any(x.get("k") == "ref" and x.get("id") == vid for x in ir.walk(body)):
        return None
    t = state["t"] or ""
    s["_range"] = ({"k": "rfor", "l": s.get("l"), "r": cont, "rt": peel(cont).get("t") or "", "it": "", "body": body,
                   "v": {"id": nid, "n": v["n"], "l": s.get("l"), "t": t + " &", "ts": t + " &"}},)
    return s["_range"][0]


class Frame:
    def __init__(self, fn):
        self.fn = fn
        self.rets = []      # (state, value)
        self.loops = []     # dicts brk/cont


class Event:
    __slots__ = ("kind", "name", "recv", "args", "node", "fn", "conds", "stack", "extra", "pc")

    def __init__(self, kind, name, recv, args, node, fn, conds, stack, extra=None, pc=frozenset()):
        self.kind, self.name, self.recv, self.args, self.node, self.fn = kind, name, recv, args, node, fn
        self.conds, self.stack, self.extra, self.pc = conds, stack, extra, pc


class Domain:
    """override points"""
    maxdepth = 8

    def inline(self, I, fn):
        return False

    def call(self, I, st, n, q, recv, args):
        """return a term to override the default treatment of a call"""
        return None

    def join_aux(self, a, b, pca, pcb):
        return a

    def widen_aux(self, a, b):
        return b

    def stream(self, I, st, n, target, value):
        return None

    def cond(self, I, st, n, term):
        pass

    pushes = False      # what is put into local containers is reported, as are constructor initialisers

    def value_ctor(self, I, cls):
        """classes whose objects are plain values (terms), not heap objects"""
        return True


CONTAINERS = ("std::vector<", "std::list<", "std::set<", "std::deque<", "std::unordered_set<", "std::map<",
              "std::unordered_map<", "std::multimap<", "std::array<", "std::stack<", "std::queue<", "std::multiset<",
              "std::unordered_multimap<", "boost::container::")


def is_container(t):
    t = t.replace("const ", "").strip()
    return t.startswith(CONTAINERS)


def is_ref(t):
    return t.endswith("&")


def is_const_ref(t):
    return t.endswith("&") and (t.startswith("const ") or " const &" in t)


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


class Interp:
    def __init__(self, P, domain):
        self.P, self.D = P, domain
        self.events = []
        self.frames = []
        self.stack = []        # function ids being inlined
        self.callpath = ()     # call lines
        self.iters = ()        # unroll indices
        self.conds = []
        self.lams = {}
        self.selects = set()
        self.pending = {}      # (variable, joined value) -> alternatives which count once the variable is read
        self.counters = set()
        self.loopconds = set()
        self.inlined = set()
        self.steps = 0
        self.gids, self.gtab, self.nogate = {}, {}, 0 if domain.pushes else 1
        self.vbool = {}         # flag -> the condition it was initialised with
        self.vcast = {}         # variable -> class it was dynamically cast to
        self.ctor_of = {}
        for x in P.news:
            self.ctor_of.setdefault((x["cls"], len(x["ta"])), set()).add(x["ctor"])
        self.news_by_cls = {}
        for x in P.news:
            self.news_by_cls.setdefault(x["cls"], []).append(x)

    # ------------------------------------------------------------------ entry
    def run(self, fn, args=None, st=None, this=("sym", "this")):
        st = st or State()
        env = st.env
        for i, p in enumerate(fn["p"]):
            v = args[i] if args and i < len(args) and args[i] is not None else ("sym", p["n"] or "arg%d" % i)
            env[p["id"]] = v
        env["this"] = this
        fr = Frame(fn)
        self.frames.append(fr)
        if fr.fn and "body" in fr.fn:
            self.counters |= counters_of(fr.fn)
        self.stack.append(fn["id"])
        end = self.S(fn["body"], st)
        self.stack.pop()
        self.frames.pop()
        return end, fr.rets

    def event(self, kind, name, recv, args, n, extra=None, st=None):
        if st is not None:
            args = [self.snap(a, st) for a in args]
        self.events.append(Event(kind, name, recv, tuple(args), n, self.frames[-1].fn if self.frames else None,
                                 tuple(self.conds), self.callpath, extra, st.pc if st is not None else frozenset()))

    def snap(self, t, st, d=0):
        """local containers replaced by what they hold at this point"""
        if t[0] == "obj" and d < 4 and (t, "#") in st.heap and is_container(t[2] or ""):
            o = self.origin(t, st)
            if o != t:
                return o
            return self.snap(st.heap[(t, "#")], st, d + 1)
        if t[0] == "list":
            return ("list", tuple(self.snap(x, st, d + 1) for x in t[1]))
        if t[0] in ("bag", "any"):
            a = frozenset(self.snap(x, st, d + 1) for x in t[1])
            return t if a == t[1] else (t[0], a)
        if t[0] == "pair":
            return ("pair", self.snap(t[1], st, d + 1), self.snap(t[2], st, d + 1))
        if t[0] in ("app", "op") and d < 3 and self.D.pushes:
            a = tuple(self.snap(x, st, d + 1) for x in t[2])
            return t if a == t[2] else (t[0], t[1], a)
        return t

    def gate(self, v, sides):
        """v joins the values of sides [(value, path condition)]; returns v marked with the conditions of each alternative"""
        if v[0] not in ("any", "mix") or self.nogate:
            return v
        common = frozenset.intersection(*[p for _, p in sides])
        G = {}
        for x, p in sides:
            p = p - common
            old = self.gates(x)
            same = x[0] == "mix" and v[0] == "mix" and x[1] == v[1]
            for a in (flat(x) if v[0] == "any" else leaves(x)):
                if same:
                    if a in old:
                        G.setdefault(a, set()).update(old[a])
                    continue
                g = G.setdefault(a, set())
                for o in old.get(a) or (frozenset(),):
                    g.add(o | p)
                if len(g) > 12:
                    c = frozenset.intersection(*g)
                    g.clear()
                    g.add(c)
        G = {a: g for a, g in G.items() if g and frozenset() not in g}
        if not G:
            return v[:2]
        key = frozenset((a, frozenset(g)) for a, g in G.items())
        gid = self.gids.get(key)
        if gid is None:
            gid = self.gids[key] = len(self.gids) + 1
            self.gtab[gid] = {a: frozenset(g) for a, g in G.items()}
        return v[:2] + (gid,)

    def gates(self, t):
        """{alternative: disjunction of sets of atoms} of a joined value; an alternative without condition is absent"""
        return self.gtab.get(t[2], {}) if t[0] in ("any", "mix") and len(t) > 2 else {}

    def select(self, v1, pc1, v2, pc2):
        """two alternatives of a value, with the conditions which select them"""
        if v1 == v2 or pc1 == pc2:
            return
        for v, g in ((v1, pc1), (v2, pc2)):
            self.selects.add((v, g))

    def defer(self, k, r, sides):
        """a variable receives r from several sides [(value, path condition)]: they are its alternatives if it is read"""
        p = set()
        for v, g in sides:
            p |= self.pending.get((k, v), set())
        if len({v for v, _ in sides}) > 1 and len({g for _, g in sides}) > 1:
            p |= set(sides)
        if p:
            self.pending.setdefault((k, r), set()).update(p)

    # ------------------------------------------------------------------ joins
    def J(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        env = dict(a.env)
        for k, v in b.env.items():
            o = env.get(k)
            if o is None:
                env[k] = v
            elif o != v:
                if is_boolish(o) and is_boolish(v):
                    common = a.pc & b.pc
                    ga, gb = a.pc - common, b.pc - common
                    if ga and gb and neg(conj(ga)) == conj(gb):
                        gt = gated_bool([(ga, o), (gb, v)])
                        if gt is not None:
                            env[k] = gt
                            continue
                env[k] = self.gate(slim(join(o, v)), [(o, a.pc), (v, b.pc)])
                if k not in self.counters:
                    self.defer(k, env[k], [(o, a.pc), (v, b.pc)])
        heap = dict(a.heap)
        for k, v in b.heap.items():
            o = heap.get(k)
            if o is None:
                # absent on one side: value of the unknown initial field may remain
                heap[k] = v
            elif o != v:
                heap[k] = slim(join(o, v))
                if k[1] != "#":
                    heap[k] = self.gate(heap[k], [(o, a.pc), (v, b.pc)])
                if k[1] != "#":
                    self.select(o, a.pc, v, b.pc)
        return State(env, heap, self.D.join_aux(a.aux, b.aux, a.pc, b.pc), a.pc & b.pc)

    def W(self, old, new):
        env = dict(new.env)
        for k, v in old.env.items():
            n = env.get(k)
            if n is not None and n != v:
                env[k] = self.gate(widen(v, n), [(v, frozenset()), (n, frozenset())])
                self.defer(k, env[k], [(v, frozenset()), (n, frozenset())])
        heap = dict(new.heap)
        for k, v in old.heap.items():
            n = heap.get(k)
            if n is not None and n != v:
                heap[k] = widen(v, n)
        return State(env, heap, self.D.widen_aux(old.aux, new.aux), old.pc & new.pc)

    @staticmethod
    def same(a, b):
        return a.env == b.env and a.heap == b.heap and a.aux == b.aux and a.pc == b.pc

    def JN(self, states):
        """join of several states; the conditions of their values do not depend on the order"""
        states = [x for x in states if x is not None]
        if len(states) < 3:
            r = None
            for x in states:
                r = self.J(r, x)
            return r
        self.nogate += 1
        r = None
        for x in states:
            r = self.J(r, x)
        self.nogate -= 1
        for env in ("env", "heap"):
            e = getattr(r, env)
            for k, v in list(e.items()):
                if v[0] in ("any", "mix") and (env == "env" or k[1] != "#"):
                    sides = [(getattr(x, env)[k], x.pc) for x in states if k in getattr(x, env)]
                    if len({a for a, _ in sides}) > 1:
                        e[k] = self.gate(v, sides)
                        if env == "env":
                            self.defer(k, e[k], [(v, frozenset())])
        return r

    # ------------------------------------------------------------------ statements
    def S(self, s, st):
        """returns the fall-through state, or None when control does not fall through"""
        if s is None or st is None:
            return st
        self.steps += 1
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            return st
        r = m(s, st)
        return leave(s, r) if k in ("if", "for", "rfor", "while", "do", "switch") else r

    def s_expr(self, s, st):
        self.dead = False
        r = self.E(s["e"], st)
        e = s["e"]
        while e["k"] == "cast":
            e = e["e"]
        if self.D.pushes and e["k"] == "call" and r[0] == "app" and (e.get("q") or "").startswith(("std::", "boost::")) and r[1] == e["q"] and e["q"] not in EFFECTS:
            self.event("effect", e["n"], None, r[2], e, st=st)
        if self.dead:
            self.dead = False
            return None
        return st

    dead = False

    def s_block(self, s, st):
        for x in s["s"]:
            if st is None:
                # a later case label is handled by s_switch
                return None
            st = self.S(x, st)
        return leave(s, st)

    def s_decl(self, s, st):
        for v in s["v"]:
            self.declare(v, st)
        if self.dead:
            self.dead = False
            return None
        return st

    def casted(self, n):
        """the class a pointer expression was dynamically cast to"""
        while n["k"] == "cast" or n["k"] == "ctor" and n.get("cp") and n["a"]:
            n = n["e"] if n["k"] == "cast" else n["a"][0]
        if n["k"] == "call" and n.get("q") == "std::dynamic_pointer_cast" and n.get("ta"):
            return n["ta"][0]
        return self.vcast.get(n["id"]) if n["k"] == "ref" and n.get("id") else None

    def isa(self, n, v):
        """what a pointer is called when it is tested: the outcome of a dynamic cast is not that of a null test"""
        t = self.casted(n) if self.D.pushes else None
        return ("app", "isa:" + t, (v,)) if t and v[0] not in ("null", "c") else v

    def cast_from(self, i, n):
        if self.D.pushes:
            t = self.casted(n)
            if t:
                self.vcast[i] = t
            else:
                self.vcast.pop(i, None)

    def declare(self, v, st):
        t = v["t"]
        if v.get("init") is not None and "_ptr<" in t:
            self.cast_from(v["id"], v["init"])
        if v.get("init") is not None and t.replace("const ", "") == "bool":
            self.vbool[v["id"]] = v["init"]
        if v.get("init") is None:
            if t.endswith("]") and "[" in t:
                st.env[v["id"]] = self.mkarray(v, t, st, ())
                return
            st.env[v["id"]] = ("sym", "uninit:" + v["n"])
            return
        if is_ref(t) and not is_const_ref(t):
            lv = self.LV(v["init"], st)
            if lv is not None:
                st.env[v["id"]] = ("ref", lv)
                return
        if t.endswith("]") and "[" in t and v["init"]["k"] == "ctor":
            st.env[v["id"]] = self.mkarray(v, t, st, ())
            return
        val = self.E(v["init"], st)
        if t.endswith("]") and "[" in t and val[0] == "list":
            o = ("obj", self.oid(v), "std::array<%s>" % t)
            st.heap[(o, "#")] = val
            st.env[v["id"]] = o
            return
        if is_container(t) and val[0] not in ("obj", "list", "bag") and (is_ref(t) or t.startswith("const ")) and not (val[0] == "app" and val[1].startswith("ctor:")):
            pass
        elif is_container(t) and val[0] not in ("obj",):
            val = self.mkcont(v, st, val)
        elif val[0] == "obj" and not is_ref(t) and is_container(t) and self.is_lvalue(v["init"]):
            val = self.mkcont(v, st, self.content(val, st))
        st.env[v["id"]] = val

    def mkarray(self, v, t, st, path):
        """a local C array: a container of known length"""
        base, dims = t.split("[", 1)
        d0, _, rest = ("[" + dims).partition("]")
        try:
            n = int(d0[1:])
        except ValueError:
            n = 0
        o = ("obj", self.oid(v) + path, "std::array<%s>" % t)
        if not 0 < n <= 64:
            st.heap[(o, "#")] = ("bag", frozenset())
            return o
        if rest.strip():
            items = tuple(self.mkarray(v, base + rest, st, path + (i,)) for i in range(n))
        else:
            items = (("sym", "uninit"),) * n
        st.heap[(o, "#")] = ("list", items)
        return o

    def is_lvalue(self, n):
        return n["k"] in ("ref", "mem") or (n["k"] == "ctor" and n.get("cp") and n["a"] and n["a"][0]["k"] in ("ref", "mem"))

    def oid(self, n):
        if "k" in n:        # an expression: its id is that of the function it calls
            return ("%s:L%s" % (n.get("id") or "", n.get("l")), self.callpath, self.iters)
        return (n.get("id") or "L%s" % n.get("l"), self.callpath, self.iters)

    def mkcont(self, v, st, val):
        o = ("obj", self.oid(v), v["t"])
        if val[0] in ("list", "bag"):
            st.heap[(o, "#")] = val
        elif val[0] == "obj" and (val, "#") in st.heap:
            st.heap[(o, "#")] = st.heap[(val, "#")]
        elif val[0] == "app" and val[1].startswith("ctor:") and not val[2]:
            st.heap[(o, "#")] = ("list", ())
        elif val[0] == "app" and val[1].startswith("ctor:") and len(val[2]) == 1 and val[2][0][0] in ("list", "bag"):
            st.heap[(o, "#")] = val[2][0]
        else:
            st.heap[(o, "#")] = ("bag", frozenset((("elem", val),)))
            st.heap[(o, "#of")] = val
        return o

    def origin(self, t, st):
        """the value an unmodified local container was copied from"""
        if t[0] == "obj":
            v = st.heap.get((t, "#of"))
            if v is not None and st.heap.get((t, "#")) == ("bag", frozenset((("elem", v),))):
                return v
        return t

    def s_return(self, s, st):
        v = None
        if s.get("e") is not None:
            rt = self.frames[-1].fn["r"] if self.frames[-1].fn else ""
            v = self.E(s["e"], st)
        if self.dead:
            self.dead = False
            return None
        self.frames[-1].rets.append((st, v))
        return None

    def s_nop(self, s, st):
        return st

    def truth(self, t):
        if t[0] == "c" and isinstance(t[1], (bool, int, float)):
            return bool(t[1])
        if t[0] == "null":
            return False
        return None

    def s_if(self, s, st):
        s = nested(s)
        if s.get("init"):
            st = self.S(s["init"], st)
        if s.get("cv"):
            self.declare(s["cv"], st)
        c = self.E(s["c"], st)
        if self.dead:
            self.dead = False
            return None
        self.D.cond(self, st, s, c)
        tv = self.truth(c)
        if tv is True:
            return self.S(s["a"], st)
        if tv is False:
            return self.S(s.get("b"), st) if s.get("b") else st
        s1 = st.copy()
        s2 = st.copy()
        s1.pc = assume(st.pc, c, True)
        s2.pc = assume(st.pc, c, False)
        self.refine(s["c"], True, s1)
        self.refine(s["c"], False, s2)
        self.conds.append((c, True, s))
        r1 = self.S(s["a"], s1)
        self.conds.pop()
        if s.get("b"):
            self.conds.append((c, False, s))
            r2 = self.S(s["b"], s2)
            self.conds.pop()
        else:
            r2 = s2
        return self.J(r1, r2)

    def refine(self, c, pol, st):
        """constant refinement of a variable compared with a literal"""
        while c["k"] in ("cast", "icast", "paren"):
            c = c["e"]
        k = c["k"]
        if k == "un" and c["op"] == "!":
            return self.refine(c["e"], not pol, st)
        if k == "ref" and c.get("id") in self.vbool:
            return self.refine(self.vbool[c["id"]], pol, st)
        if k == "bin" and c["op"] in ("&&", "||"):
            if (c["op"] == "&&") == pol:
                self.refine(c["a"], pol, st)
                self.refine(c["b"], pol, st)
            return
        self.D_refine(c, pol, st)

    def D_refine(self, c, pol, st):
        r = getattr(self.D, "refine", None)
        if r:
            r(self, c, pol, st)

    def s_switch(self, s, st):
        c = self.E(s["c"], st)
        if self.dead:
            self.dead = False
            return None
        fr = self.frames[-1]
        lp = {"brk": [], "cont": None}
        fr.loops.append(lp)
        entry = st
        cur = None
        has_default = False
        body = s["body"]["s"] if s["body"]["k"] == "block" else [s["body"]]
        concrete = is_const(c)
        labels = []

        def unwrap(x):
            labs = []
            while x is not None and x["k"] in ("case", "default"):
                labs.append(x)
                x = x["s"]
            return labs, x
        matched_any = False
        if concrete:
            for x in body:
                for lab in unwrap(x)[0]:
                    if lab["k"] == "case" and self.E(lab["v"], entry) == c:
                        matched_any = True
        alllabels = [self.E(l["v"], entry) for x in body for l in unwrap(x)[0] if l["k"] == "case"]
        pushed = 0
        for x in body:
            labs, sub = unwrap(x)
            if labs:
                take = False
                for lab in labs:
                    if lab["k"] == "default":
                        has_default = True
                        if not (concrete and matched_any):
                            take = True
                    else:
                        v = self.E(lab["v"], entry)
                        if not concrete or v == c:
                            take = True
                if pushed:
                    self.conds.pop()
                    pushed = 0
                labterms = tuple(self.E(l["v"], entry) if l["k"] == "case" else ("default",) for l in labs)
                self.conds.append((("switch", c, labterms), True, s))
                pushed = 1
                if take:
                    e2 = entry.copy()
                    cond = None
                    if ("default",) in labterms:
                        for lt in alllabels:
                            if lt not in labterms:
                                e2.pc = assume(e2.pc, ("op", "==", (c, lt)), False)
                    else:
                        for lt in labterms:
                            q = ("op", "==", (c, lt))
                            cond = q if cond is None else ("op", "||", (cond, q))
                        e2.pc = assume(e2.pc, cond, True)
                    cur = self.J(cur, e2)
                x = sub
            if cur is not None and x is not None:
                cur = self.S(x, cur)
        if pushed:
            self.conds.pop()
        fr.loops.pop()
        out = [cur] + [leave(s["body"], b) for b in lp["brk"]]
        if not has_default and not (concrete and matched_any):
            e2 = entry.copy()
            if not concrete:
                for lt in alllabels:
                    e2.pc = assume(e2.pc, ("op", "==", (c, lt)), False)
            out.append(e2)
        return self.JN(out)

    def s_case(self, s, st):
        return self.S(s["s"], st)

    s_default = s_case

    def s_break(self, s, st):
        fr = self.frames[-1]
        if fr.loops:
            fr.loops[-1]["brk"].append(st)
        return None

    def s_continue(self, s, st):
        fr = self.frames[-1]
        for lp in reversed(fr.loops):
            if lp["cont"] is not None:
                lp["cont"].append(st)
                return None
        return None

    def s_try(self, s, st):
        entry = st.copy()
        out = self.S(s["body"], st)
        hs = self.J(entry, out.copy() if out else None)
        for h in s["h"]:
            r = self.S(h["body"], hs.copy())
            out = self.J(out, r)
        return out

    def s_while(self, s, st):
        s = headed(s)
        return self.loop(s, st, s.get("c"), None, s["body"], cv=s.get("cv"))

    def s_do(self, s, st):
        fr = self.frames[-1]
        out = None
        n = 0
        saved = self.iters
        cur = st
        for it in range(self.UNROLL + 8):
            w = cur.copy()
            lp = {"brk": [], "cont": []}
            fr.loops.append(lp)
            self.iters = saved + (n,) if n == it else saved
            e = self.S(s["body"], w)
            self.iters = saved
            fr.loops.pop()
            for x in lp["cont"]:
                e = self.J(e, leave(s["body"], x))
            for b in lp["brk"]:
                out = self.J(out, leave(body if "body" not in s else s["body"], b))
            if e is None:
                return out
            ct = self.E(s["c"], e)
            if self.dead:
                self.dead = False
                return out
            tv = self.truth(ct)
            if tv is False:
                return self.J(out, e)
            if tv is True and n == it:
                n += 1
                cur = e
                continue
            if tv is None and n == it and self.bounded(s["c"], e):
                ex = e.copy()
                ex.pc = assume(e.pc, ct, False)
                self.refine(s["c"], False, ex)
                out = self.J(out, ex)
                e.pc = assume(e.pc, ct, True)
                self.refine(s["c"], True, e)
                n += 1
                cur = e
                continue
            if tv is None:
                self.loopconds.add(ct)
                ex = e.copy()
                self.refine(s["c"], False, ex)
                self.refine(s["c"], True, e)
            nxt = self.steady(cur, self.J(cur, e))
            if it > n:
                nxt = self.W(cur, nxt)
            else:
                nxt.aux = self.D.widen_aux(cur.aux, nxt.aux)
            if self.same(nxt, cur) or it > n + 8:
                return self.J(out, ex if tv is None else None)
            cur = nxt
        return self.J(out, cur)

    def s_for(self, s, st):
        s = headed(s)
        r = as_range(s)
        if r is not None:
            return self.s_rfor(r, st)
        if s.get("init"):
            st = self.S(s["init"], st)
            if st is None:
                return None
        return self.loop(s, st, s.get("c"), s.get("inc"), s["body"])

    UNROLL = 70

    def loop(self, s, st, c, inc, body, cv=None):
        fr = self.frames[-1]
        out = None
        # --- concrete unrolling
        n = 0
        saved = self.iters
        while st is not None and n < self.UNROLL:
            if cv:
                break
            if c is None:
                break
            probe = self.truth(self.quiet(c, st))
            if probe is None and not self.bounded(c, st):
                break
            ct = self.E(c, st)
            if probe is False:
                self.iters = saved
                return self.J(out, st)
            if probe is None:
                # counted loop with a further, unknown condition: same as an early exit at the top of the body
                ex = st.copy()
                ex.pc = assume(st.pc, ct, False)
                self.refine(c, False, ex)
                out = self.J(out, ex)
                st.pc = assume(st.pc, ct, True)
                self.refine(c, True, st)
            lp = {"brk": [], "cont": []}
            fr.loops.append(lp)
            self.iters = saved + (n,)
            st = self.S(body, st)
            fr.loops.pop()
            for x in lp["cont"]:
                st = self.J(st, leave(body, x))
            for b in lp["brk"]:
                out = self.J(out, leave(body if "body" not in s else s["body"], b))
            if st is not None and inc is not None:
                self.E(inc, st)
            n += 1
        self.iters = saved
        if st is None:
            return out
        # --- fixpoint
        self.prewiden(([inc] if inc else []) + [body], st)
        cur = st
        probe_t = self.quiet(c, st) if c is not None else ("c", True)
        conts = iterated(probe_t)
        for it in range(8):
            w = cur.copy()
            if it and conts:
                self.forget_elems(w, [("elem", x) for x in conts], conts)
            if cv:
                self.declare(cv, w)
            ct = self.E(c, w) if c is not None else ("c", True)
            if self.dead:
                self.dead = False
                return out
            exit_st = w.copy() if c is not None else None
            lp = {"brk": [], "cont": []}
            fr.loops.append(lp)
            if c is not None:
                self.refine(c, True, w)
            self.loopconds.add(ct)
            self.conds.append((("loop", ct), True, s))
            e = self.S(body, w)
            self.conds.pop()
            fr.loops.pop()
            for x in lp["cont"]:
                e = self.J(e, leave(s["body"], x))
            if e is not None and inc is not None:
                self.E(inc, e)
            for b in lp["brk"]:
                out = self.J(out, leave(body if "body" not in s else s["body"], b))
            nxt = self.steady(cur, self.J(cur, e))
            if it >= 1:
                nxt = self.W(cur, nxt)
            elif e is not None:
                nxt.aux = self.D.widen_aux(cur.aux, nxt.aux)
            if self.same(nxt, cur):
                break
            cur = nxt
        if c is not None:
            ex = cur.copy()
            self.quiet(c, ex)
            out = self.J(out, ex)
        return out

    def prewiden(self, nodes, st):
        """counters of a loop which is not unrolled"""
        if getattr(self.D, "prewiden", False):
            for x in nodes:
                for u in ir.nodes(x, "un"):
                    if u["op"] in ("++", "--") and u["e"]["k"] == "ref" and u["e"]["id"] in st.env:
                        o = st.env[u["e"]["id"]]
                        if o[0] == "c" or o[0] in ("any", "mix", "op"):
                            st.env[u["e"]["id"]] = ("sym", "idx%s" % o[1] if o[0] == "c" and isinstance(o[1], int) else "idx")

    @staticmethod
    def steady(cur, nxt):
        """a counter which moved by constants is the counter again"""
        if nxt is not None:
            for k, v in cur.env.items():
                if v[0] == "sym" and v[1].startswith("idx") and nxt.env.get(k, v) != v:
                    if all(x == v or x[0] == "c" for x in leaves(nxt.env[k])):
                        nxt.env[k] = v
        return nxt

    def bounded(self, c, st):
        """a conjunct of the loop condition is decided, and by something else than a literal"""
        if c["k"] == "bin" and c["op"] == "&&":
            return self.bounded(c["a"], st) or self.bounded(c["b"], st)
        return c["k"] == "bin" and c["op"] in ("<", "<=", ">", ">=", "!=") and self.truth(self.quiet(c, st)) is True

    def forget_elems(self, st, elems, conts):
        """each abstract iteration looks at another element: what was stored into the previous one is not its value"""
        for k in [k for k in st.heap if any(contains(k[0], e) for e in elems) or (k[0] in conts and k[1] == "[]" and k[2] is not None and not is_const(k[2]))]:
            del st.heap[k]

    def quiet(self, n, st):
        """evaluate without recording events and without touching the state"""
        ev, se = self.events, self.selects
        self.events, self.selects = [], set()
        d = self.dead
        self.nogate += 1
        t = self.E(n, st.copy())
        self.nogate -= 1
        self.dead = d
        self.events, self.selects = ev, se
        return t

    def s_rfor(self, s, st):
        r = self.E(s["r"], st)
        fr = self.frames[-1]
        items = self.content(r, st)
        out = None
        if items[0] == "list" and len(items[1]) <= self.UNROLL:
            saved = self.iters
            for i, x in enumerate(items[1]):
                if st is None:
                    break
                self.iters = saved + (i,)
                vt = s["v"]["t"]
                if is_ref(vt) and not is_const_ref(vt) and r[0] == "obj":
                    st.env[s["v"]["id"]] = ("ref", ("E", r, ("c", i)))
                else:
                    st.env[s["v"]["id"]] = x
                lp = {"brk": [], "cont": []}
                fr.loops.append(lp)
                st = self.S(s["body"], st)
                fr.loops.pop()
                for c in lp["cont"]:
                    st = self.J(st, leave(s["body"], c))
                for b in lp["brk"]:
                    out = self.J(out, leave(s["body"], b))
            self.iters = saved
            return self.J(out, st)
        self.prewiden([s["body"]], st)
        cur = st
        elem = self.elem_of(r, items, None)
        for it in range(8):
            w = cur.copy()
            if it and elem[0] == "elem":
                self.forget_elems(w, [elem], ())
            vt = s["v"]["t"]
            w.env[s["v"]["id"]] = self.mkcont(s["v"], w, elem) if is_container(vt) and not is_ref(vt) else elem
            lp = {"brk": [], "cont": []}
            fr.loops.append(lp)
            self.conds.append((("each", r), True, s))
            e = self.S(s["body"], w)
            self.conds.pop()
            fr.loops.pop()
            for c in lp["cont"]:
                e = self.J(e, leave(s["body"], c))
            for b in lp["brk"]:
                out = self.J(out, leave(body if "body" not in s else s["body"], b))
            nxt = self.steady(cur, self.J(cur, e))
            if it >= 1:
                nxt = self.W(cur, nxt)
            elif e is not None:
                nxt.aux = self.D.widen_aux(cur.aux, nxt.aux)
            if self.same(nxt, cur):
                break
            cur = nxt
        return self.J(out, cur)

    # ------------------------------------------------------------------ containers
    def content(self, t, st):
        if t[0] in ("list", "bag"):
            return t
        if t[0] == "obj" and (t, "#") in st.heap:
            return st.heap[(t, "#")]
        if t[0] == "app" and t[1].startswith("ctor:") and len(t[2]) == 1 and t[2][0][0] in ("list", "bag"):
            return t[2][0]
        return ("elem", t)

    def elem_of(self, cont, items, idx):
        if items[0] == "list":
            if idx is not None and idx[0] == "c" and isinstance(idx[1], int) and not isinstance(idx[1], bool) and 0 <= idx[1] < len(items[1]):
                return items[1][idx[1]]
            r = None
            for x in items[1]:
                r = join(r, x)
            return r or ("elem", cont)
        if items[0] == "bag":
            r = None
            for x in items[1]:
                r = join(r, x)
            return r or ("elem", cont)
        if idx is not None and is_const(idx):
            return ("app", "[]", (cont, idx))
        if idx is None or idx == ("sym", "idx0"):
            return ("elem", cont)
        return ("app", "[]", (cont, idx))

    def push(self, st, cont, val):
        k = (cont, "#")
        c = st.heap.get(k, ("list", ()))
        if c[0] == "list":
            if len(c[1]) < 200:
                st.heap[k] = ("list", c[1] + (val,))
            else:
                st.heap[k] = ("bag", frozenset(c[1]) | frozenset((val,)))
        elif c[0] == "bag":
            st.heap[k] = ("bag", c[1] | frozenset((val,)))
        else:
            st.heap[k] = ("bag", frozenset((c, val)))

    # ------------------------------------------------------------------ lvalues
    def LV(self, n, st):
        k = n["k"]
        if k == "ref" and n.get("dk") in ("var", "parm"):
            v = st.env.get(n["id"])
            if v is not None and v[0] == "ref":
                return v[1]
            return ("V", n["id"])
        if k == "ref" and n.get("dk") == "global":
            return ("G", n["q"])
        if k == "mem":
            return ("F", self.E(n["b"], st), n["n"])
        if k == "sub":
            return ("E", self.E(n["b"], st), self.E(n["i"], st))
        if k == "call" and n.get("op") == "[]" and "o" in n:
            # element of a container held in an lvalue
            return ("E", self.E(n["o"], st), self.E(n["a"][0], st))
        if k == "call" and n.get("op") == "()" and "o" in n and n["a"] and (n.get("q") or "").startswith("boost::"):
            ix = tuple(self.E(x, st) for x in n["a"])
            return ("E", self.E(n["o"], st), ix[0] if len(ix) == 1 else ("list", ix))
        if k == "call" and n.get("n") in ("at",) and "o" in n:
            return ("E", self.E(n["o"], st), self.E(n["a"][0], st))
        if k == "call" and n.get("n") in ("back", "front") and "o" in n:
            return ("E", self.E(n["o"], st), None)
        if k == "call" and n.get("op") in ("*", "->") and "o" in n:
            return ("D", self.E(n["o"], st))
        if k == "un" and n["op"] == "*":
            return ("D", self.E(n["e"], st))
        if k == "cast":
            return self.LV(n["e"], st)
        if k == "ctor" and n.get("cp") and n["a"]:
            return self.LV(n["a"][0], st)
        if k == "cond":
            return None
        return None

    def load(self, lv, st):
        k = lv[0]
        if k == "V":
            v = st.env.get(lv[1])
            if v is None:
                return ("sym", lv[1].split("@")[0])
            if v[0] == "ref":
                return self.load(v[1], st)
            p = self.pending.get((lv[1], v))
            if p:
                self.selects |= p
            return v
        if k == "G":
            return st.env.get("g:" + lv[1], ("glob", lv[1]))
        if k == "F":
            return self.field(lv[1], lv[2], st)
        if k == "E":
            return self.index(lv[1], lv[2], st)
        if k == "D":
            return self.deref(lv[1], st)
        return ("sym", "?")

    def store(self, lv, val, st, n=None):
        k = lv[0]
        if k == "V":
            v = st.env.get(lv[1])
            if v is not None and v[0] == "ref":
                return self.store(v[1], val, st, n)
            if v is not None and v[0] == "obj" and v[2] and is_container(v[2]) and val[0] != "obj":
                st.heap[(v, "#")] = val if val[0] in ("list", "bag") else ("bag", frozenset((("elem", val),)))
                return
            st.env[lv[1]] = val
        elif k == "G":
            st.env["g:" + lv[1]] = val
        elif k == "F":
            for b in flat(lv[1]):
                if lv[1][0] == "any":
                    st.heap[(b, lv[2])] = join(self.field(b, lv[2], st), val)
                else:
                    st.heap[(b, lv[2])] = val
            self.event("store", lv[2], lv[1], (val,), n or {}, st=st)
        elif k == "E":
            cont, idx = lv[1], lv[2]
            if cont[0] == "obj" and (cont, "#") in st.heap:
                c = st.heap[(cont, "#")]
                if self.D.pushes:
                    self.event("setelem", "[]", cont, (idx or ("sym", "?"), val), n or {}, st=st)
                if c[0] == "list" and idx is not None and idx[0] == "c" and isinstance(idx[1], int) and 0 <= idx[1] < len(c[1]):
                    st.heap[(cont, "#")] = ("list", c[1][:idx[1]] + (val,) + c[1][idx[1] + 1:])
                else:
                    item = ("pair", idx, val) if idx is not None and ("map<" in (cont[2] or "")) else val
                    self.push(st, cont, item)
            else:
                st.heap[(cont, "[]", idx)] = val
                self.event("setelem", "[]", cont, (idx or ("sym", "?"), val), n or {}, st=st)
        elif k == "D":
            self.event("store", "*", lv[1], (val,), n or {}, st=st)

    def field(self, b, name, st):
        if (b, name) in st.heap:
            return st.heap[(b, name)]
        if b[0] == "any":
            r = None
            for x in b[1]:
                r = join(r, self.field(x, name, st))
            return r
        if b[0] == "pair":
            if name == "first":
                return b[1]
            if name == "second":
                return b[2]
        if (b, "#copyof") in st.heap:
            return self.field(st.heap[(b, "#copyof")], name, st)
        return ("fld", b, name)

    def index(self, cont, idx, st):
        if (cont, "[]", idx) in st.heap:
            return st.heap[(cont, "[]", idx)]
        if cont[0] == "any":
            r = None
            for x in cont[1]:
                r = join(r, self.index(x, idx, st))
            return r
        cont = self.origin(cont, st)
        return self.elem_of(cont, self.content(cont, st), idx)

    def deref(self, p, st):
        if p[0] == "any":
            r = None
            for x in p[1]:
                r = join(r, self.deref(x, st))
            return r
        if p[0] == "iter":
            return self.elem_of(p[1], self.content(p[1], st), None)
        return p

    # ------------------------------------------------------------------ expressions
    def E(self, n, st):
        if n is None:
            return ("sym", "none")
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            return ("sym", "?" + n["k"])
        return m(n, st)

    def e_int(self, n, st):
        return ("c", n["v"])

    e_float = e_int
    e_str = e_int
    e_bool = e_int

    def e_char(self, n, st):
        return ("c", chr(n["v"]) if 0 <= n["v"] < 0x110000 else n["v"])

    def e_null(self, n, st):
        return ("null",)

    def e_zero(self, n, st):
        return ("c", 0)

    def e_this(self, n, st):
        return st.env.get("this", ("sym", "this"))

    def e_ref(self, n, st):
        dk = n.get("dk")
        if dk in ("var", "parm"):
            return self.load(("V", n["id"]), st)
        if dk == "enumc":
            return ("enum", n["q"])
        if dk == "fn":
            return ("fn", n["id"], n["q"])
        if dk == "global":
            g = self.P.globals.get(n["id"])
            if g is not None and g.get("const") and g.get("init") is not None and g["init"]["k"] in ("int", "float", "bool"):
                return ("c", g["init"]["v"])
            return self.load(("G", n["q"]), st)
        return ("sym", n.get("n", "?"))

    def e_mem(self, n, st):
        b = self.E(n["b"], st)
        if n.get("method"):
            return ("fn", n["id"], n["q"])
        if b[0] == "iter" or (b[0] == "elem" and n["n"] not in ("first", "second")):
            b = self.deref(b, st)
        return self.field(b, n["n"], st)

    def e_defarg(self, n, st):
        return self.E(n["e"], st)

    e_definit = e_defarg
    e_icast = e_defarg

    def e_cast(self, n, st):
        t = self.E(n["e"], st)
        if n.get("ck") == "ConstructorConversion":
            return t
        return t

    def e_lambda(self, n, st):
        key = (n["id"], n["l"])
        self.lams[key] = n
        return ("lam", key)

    def e_init(self, n, st):
        return ("list", tuple(self.E(x, st) for x in n["a"]))

    def e_throw(self, n, st):
        v = self.E(n["e"], st) if n.get("e") else None
        self.event("throw", n.get("tt"), None, (v,) if v else (), n, st=st)
        self.dead = True
        return ("sym", "throw")

    def e_new(self, n, st):
        if n.get("e") is not None and n["e"]["k"] == "ctor":
            return self.construct(n["e"], n["t"], n["e"]["id"], [self.E(x, st) for x in n["e"]["a"]], st, heap=True)
        o = ("obj", self.oid(n), n["t"])
        return o

    def e_del(self, n, st):
        self.E(n["e"], st)
        return ("sym", "void")

    def e_cond(self, n, st):
        c = self.E(n["c"], st)
        tv = self.truth(c)
        if tv is True:
            return self.E(n["a"], st)
        if tv is False:
            return self.E(n["b"], st)
        d = self.dead
        s1, s2 = st.copy(), st.copy()
        s1.pc = assume(st.pc, c, True)
        s2.pc = assume(st.pc, c, False)
        self.refine(n["c"], True, s1)
        self.refine(n["c"], False, s2)
        a = self.E(n["a"], s1)
        da, self.dead = self.dead, d
        b = self.E(n["b"], s2)
        db, self.dead = self.dead, d
        if da and not db:
            st.take(s2)
            return b
        if db and not da:
            st.take(s1)
            return a
        self.select(a, s1.pc, b, s2.pc)
        r = join(a, b)
        if a != b:
            r = self.gate(r, [(a, s1.pc), (b, s2.pc)])
        st.take(self.J(s1, s2))
        return r

    def e_sub(self, n, st):
        return self.load(self.LV(n, st), st)

    def e_un(self, n, st):
        op = n["op"]
        if op in ("++", "--"):
            lv = self.LV(n["e"], st)
            old = self.load(lv, st) if lv else self.E(n["e"], st)
            new = old if old[0] == "iter" else self.arith("+" if op == "++" else "-", old, ("c", 1))
            if lv:
                self.store(lv, new, st, n)
            return old if n.get("post") else new
        if op == "*":
            return self.deref(self.E(n["e"], st), st)
        if op == "&":
            return self.E(n["e"], st)
        v = self.E(n["e"], st)
        if op == "-":
            if v[0] == "c" and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
                return ("c", -v[1])
            return ("op", "neg", (v,))
        if op == "!":
            tv = self.truth(v)
            if tv is not None:
                return ("c", not tv)
            return ("op", "!", (v,))
        if op == "+":
            return v
        return ("op", op, (v,))

    def arith(self, op, a, b):
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            try:
                num = isinstance(x, (int, float)) and isinstance(y, (int, float))
                if op == "+":
                    if num or (isinstance(x, str) and isinstance(y, str)):
                        return ("c", x + y)
                elif num:
                    if op == "-":
                        return ("c", x - y)
                    if op == "*":
                        return ("c", x * y)
                    if op == "/" and y != 0:
                        if isinstance(x, int) and isinstance(y, int):
                            return ("c", int(x / y))
                        return ("c", x / y)
                    if op == "%" and y != 0:
                        return ("c", x % y)
                    if op == "<":
                        return ("c", x < y)
                    if op == "<=":
                        return ("c", x <= y)
                    if op == ">":
                        return ("c", x > y)
                    if op == ">=":
                        return ("c", x >= y)
                if op == "==" and type(x) == type(y):
                    return ("c", x == y)
                if op == "!=" and type(x) == type(y):
                    return ("c", x != y)
            except Exception:
                pass
        if op in ("==", "!=") and is_const(a) and is_const(b) and a[0] == b[0]:
            return ("c", (a == b) == (op == "=="))
        if a[0] == "mix" and is_const(b):
            return ("mix", a[1] | leaves(b)) if op not in ("==", "!=", "<", ">", "<=", ">=") else ("op", op, (a, b))
        return ("op", op, (a, b))

    def e_bin(self, n, st):
        op = n["op"]
        if op == ",":
            self.E(n["a"], st)
            return self.E(n["b"], st)
        a = self.E(n["a"], st)
        if op in ("&&", "||"):
            tv = self.truth(a)
            if tv is not None:
                if op == "&&":
                    return self.E(n["b"], st) if tv else ("c", False)
                return ("c", True) if tv else self.E(n["b"], st)
            s2 = st.copy()
            d = self.dead
            self.refine(n["a"], op == "&&", s2)
            pc = st.pc
            s2.pc = assume(pc, a, op == "&&")
            b = self.E(n["b"], s2)
            self.dead = d
            j = self.J(st, s2)
            j.pc = pc
            st.take(j)
            return ("op", op, (a, b))
        b = self.E(n["b"], st)
        return self.arith(op, a, b)

    def e_asg(self, n, st):
        op = n["op"]
        lv = self.LV(n["a"], st)
        val = self.E(n["b"], st)
        if n["a"]["k"] == "ref":
            self.vbool.pop(n["a"].get("id"), None)
        if op != "=":
            old = self.load(lv, st) if lv else self.E(n["a"], st)
            val = self.arith(op[:-1], old, val)
        if lv:
            self.store(lv, val, st, n)
        return val

    def e_opaque(self, n, st):
        return ("app", "opaque:" + n.get("cls", "?"), tuple(self.E(x, st) for x in n["a"]))

    # ------------------------------------------------------------------ construction
    def e_ctor(self, n, st):
        if n.get("cp") and len(n["a"]) == 1:
            src = self.E(n["a"][0], st)
            if src[0] == "obj" and is_container(src[2] or "") and n["a"][0]["k"] in ("ref", "mem"):
                # copy of a container value
                return self.content(src, st)
            if src[0] == "obj" and n["a"][0]["k"] in ("ref", "mem", "un", "call") and src[2] == n["q"] and (n["a"][0].get("t") or "").replace("const ", "").rstrip("& ").strip() == n["q"]:
                return self.copy_object(n, n["q"], src, [src], st)
            return src
        args = [self.E(x, st) for x in n["a"] if x["k"] != "defarg" or x["e"]["k"] not in ("ctor",)]
        q = n["q"]
        r = self.D.call(self, st, n, "ctor:" + q, None, args)
        if r is not None:
            return r
        if q.startswith("std::basic_string<"):
            return args[0] if args else ("c", "")
        if q.startswith(("std::shared_ptr<", "std::unique_ptr<", "std::reference_wrapper<")):
            return args[0] if args else ("null",)
        if q.startswith("std::pair<") and len(args) == 2:
            return ("pair", args[0], args[1])
        if is_container(q):
            if not args:
                return ("list", ())
            if len(args) >= 1 and args[0][0] in ("list", "bag"):
                return args[0]
            if q.startswith("std::vector<") and len(args) in (1, 2) and args[0][0] == "c" and isinstance(args[0][1], int) and 0 <= args[0][1] <= 64:
                return ("list", (args[1] if len(args) == 2 else ("c", 0),) * args[0][1])
            if len(args) == 2 and args[0][0] == "iter":
                return self.content(args[0][1], st)
            if len(args) == 1 and args[0][0] in ("obj",):
                return self.content(args[0], st)
            return ("app", "ctor:container", tuple(args))
        return self.construct(n, q, n["id"], args, st)

    def copy_object(self, n, cls, src, args, st):
        o = ("obj", self.oid(n), cls)
        self.event("new", cls, o, args, n, extra="copy", st=st)
        for k in [k for k in st.heap if k[0] == o]:
            del st.heap[k]
        for k in [k for k in st.heap if k[0] == src]:
            st.heap[(o,) + k[1:]] = st.heap[k]
        st.heap[(o, "#copyof")] = src
        return o

    def construct(self, n, cls, ctor_id, args, st, heap=False):
        if not heap and self.D.value_ctor(self, cls):
            return ("app", "ctor:" + cls, tuple(args))
        o = ("obj", self.oid(n), cls)
        fn = self.P.functions.get(ctor_id)
        self.event("new", cls, o, args, n, extra=fn, st=st)
        if fn is not None and self.D.inline(self, fn) and fn["id"] not in self.stack and len(self.stack) < self.D.maxdepth:
            self.run_ctor(fn, o, args, st, n)
        return o

    def run_ctor(self, fn, o, args, st, n):
        saved_this = st.env.get("this")
        for i, p in enumerate(fn["p"]):
            if i < len(args):
                st.env[p["id"]] = args[i]
            elif p.get("def"):
                st.env[p["id"]] = self.E(p["def"], st)
            else:
                st.env[p["id"]] = ("sym", p["n"])
        st.env["this"] = o
        self.stack.append(fn["id"])
        self.frames.append(Frame(fn))
        saved_path = self.callpath
        self.callpath = saved_path + (n.get("l", 0),)
        self.inlined.add(fn["q"])
        for i in fn.get("inits", ()):
            if i.get("field"):
                if i.get("e") is not None:
                    st.heap[(o, i["field"])] = self.E(i["e"], st)
                    if self.D.pushes:
                        self.event("store", i["field"], o, (st.heap[(o, i["field"])],), {"l": fn["l"]}, st=st)
            elif i.get("e") is not None and i["e"]["k"] == "ctor":
                b = i["e"]
                bfn = self.P.functions.get(b["id"])
                bargs = [self.E(x, st) for x in b["a"]]
                if self.D.pushes:
                    self.event("base", b["q"], o, bargs, {"l": fn["l"]}, st=st)
                if bfn is not None and self.D.inline(self, bfn) and bfn["id"] not in self.stack:
                    pe = dict(st.env)
                    self.run_ctor(bfn, o, bargs, st, n)
                    st.env["this"] = o
        end = self.S(fn["body"], st) if "body" in fn else st
        fr = self.frames.pop()
        for s2, _ in fr.rets:
            end = self.J(end, s2)
        self.stack.pop()
        self.callpath = saved_path
        if end is not None and end is not st:
            st.take(end)
        if saved_this is not None:
            st.env["this"] = saved_this

    # ------------------------------------------------------------------ calls
    def lvargs(self, n, st):
        return [self.LV(x, st) if x["k"] in ("ref", "mem", "sub") else None for x in n["a"]]

    def e_call(self, n, st):
        q = n.get("q")
        # stream insertion
        if n.get("op") == "<<":
            r = self.e_stream(n, st)
            if r is not None:
                return r
        if n.get("op") == ">>" and self.D.pushes and "istream" in (n.get("t") or ""):
            src = self.E(n["o"] if "o" in n else n["a"][0], st)
            x = n["a"][-1]
            self.out(x, self.E(x, st), ("app", "read", (slim(src),)), st)
            return src
        recv = self.E(n["o"], st) if "o" in n else None
        if "ptm" in n:
            recv = self.E(n["ptm"], st)
        args = [self.E(x, st) for x in n["a"]]
        if q is None:
            cal = self.E(n.get("callee"), st) if n.get("callee") else None
            if cal is not None and cal[0] == "lam":
                return self.call_lambda(cal, args, n, st)
            r = self.D.call(self, st, n, "indirect", cal, args)
            if r is not None:
                return r
            self.event("call", "indirect", cal, args, n, st=st)
            return ("app", "indirect", tuple(args))
        r = self.D.call(self, st, n, q, recv, args)
        if r is not None:
            return r
        if n.get("op") == "=" and "o" in n and len(args) == 1 and not q.startswith("std::"):
            fn = self.P.functions.get(n.get("id"))
            if fn is None or "body" not in fn or fn.get("defaulted") or (recv is not None and recv[0] not in ("obj",) and not self.D.inline(self, fn)):
                lv = self.LV(n["o"], st)
                if lv is not None:
                    self.store(lv, args[0], st, n)
                    return args[0]
        r = self.std(n, q, recv, args, st)
        if r is not None:
            return r
        if n.get("op") == "()" and recv is not None and recv[0] == "lam":
            return self.call_lambda(recv, args, n, st)
        if n.get("op") == "*" and recv is not None and not args and not q.startswith("vega::"):
            return self.deref(recv, st)
        if recv is not None and recv[0] == "iter" and n.get("op"):
            r = self.iteration(n, recv, args, st)
            if r is not None:
                return r
        fn = self.target(n, recv)
        if fn is not None and "body" in fn and fn["id"] not in self.stack and len(self.stack) < self.D.maxdepth and self.D.inline(self, fn):
            return self.call_inline(fn, recv, args, n, st)
        r = self.iteration(n, recv, args, st)
        if r is not None:
            return r
        self.event("call", q, recv, args, n, st=st)
        if fn is not None and self.D.pushes:
            self.outs(n, fn, q, recv, args, st)
        noret = getattr(self.D, "noreturn", ())
        if q in noret:
            self.dead = True
        if fn is not None and recv is not None and fluent(fn):
            return recv
        res = ("app", q, ((recv,) if recv is not None else ()) + tuple(args))
        # functional update of a value receiver by a non-const method
        if "o" in n and recv is not None and recv[0] not in ("obj", "sym", "fld", "elem", "glob"):
            m = self.P.functions.get(n["id"])
            if self.mutates(n, m):
                lv = self.LV(n["o"], st)
                if lv is not None and lv[0] in ("V",):
                    self.store(lv, ("app", "upd:" + res[1], res[2]), st, n)
        return res

    def outs(self, n, fn, q, recv, args, st):
        """variables and containers given by reference to a function which is not analysed here: they hold what it left in them"""
        for p, a, v in zip(fn.get("p") or (), n["a"], args):
            t = p["t"]
            if not is_ref(t) or is_const_ref(t) or t.endswith("&&"):
                continue
            self.out(a, v, ("app", "out:" + q, ((recv,) if recv is not None else ()) + tuple(slim(x) for x, b in zip(args, n["a"]) if b is not a and x[0] != "obj")), st)

    def out(self, a, v, term, st):
        if v[0] == "obj":
            if (v, "#") in st.heap and is_container(v[2] or ""):
                e = ("elem", term)
                c = st.heap[(v, "#")]
                if c[0] == "list":
                    st.heap[(v, "#")] = ("bag", frozenset(c[1]) | frozenset((e,)))
                else:
                    self.push(st, v, e)
            return
        st.pc = before(st.pc, term)
        t = (a.get("t") or "").replace("const ", "")
        if t in NUM or t.startswith(("std::basic_string<", "std::__cxx11::basic_string<", "std::string")):
            lv = self.LV(a, st)
            if lv is not None and lv[0] == "V":
                self.store(lv, term, st)
            elif lv is not None and lv[0] == "F":
                for b in flat(lv[1]):
                    st.heap[(b, lv[2])] = term

    def iteration(self, n, recv, args, st):
        """iteration protocol of the program's own containers"""
        nm, op = n.get("n"), n.get("op")
        if recv is None:
            return None
        if nm in ("begin", "end") and not args:
            return ("iter", recv)
        if op == "[]" and len(args) == 1:
            return self.elem_of(recv, ("elem", recv), args[0])
        if recv[0] == "iter":
            if op == "*":
                return self.deref(recv, st)
            if op in ("++", "--", "->"):
                return recv
            if op in ("==", "!=") and args:
                return self.arith(op, recv, args[0])
        return None

    def mutates(self, n, m):
        if n.get("op") in ("[]", "*", "->") or n.get("n") in ("at", "begin", "end"):
            return False
        if m is not None:
            return not m.get("const") and not m.get("static")
        c = self.P.classes.get(n.get("cls"))
        if c:
            for x in c["methods"]:
                if x["id"] == n["id"]:
                    return not x.get("const") and not x.get("static")
        return n.get("op") in ("+=", "-=", "*=", "/=", "=", "<<=")

    def target(self, n, recv):
        """callee definition; virtual calls on objects of known class are resolved"""
        fid = n.get("id")
        if n.get("v") and recv is not None and recv[0] == "obj" and recv[2] in self.P.classes:
            c, m = self.P.final_overrider(recv[2], n.get("n"), len(n["a"]))
            if m is not None:
                fid = m["id"]
        elif n.get("v"):
            if self.P.overriders(fid):
                return None
        return self.P.functions.get(fid)

    def call_lambda(self, lam, args, n, st):
        ln = self.lams[lam[1]]
        for i, p in enumerate(ln["p"]):
            if i < len(args):
                st.env[p["id"]] = args[i]
        if ("lam",) + lam[1] in self.stack:
            return ("app", "lambda", tuple(args))
        self.stack.append(("lam",) + lam[1])
        fr = Frame(self.frames[-1].fn)
        self.frames.append(fr)
        if fr.fn and "body" in fr.fn:
            self.counters |= counters_of(fr.fn)
        end = self.S(ln["body"], st.copy())
        self.frames.pop()
        self.stack.pop()
        end, val = self.join_returns(fr, end, ln)
        if end is None:
            self.dead = True
            return ("sym", "throw")
        st.take(end)
        return val or ("sym", "void")

    def join_returns(self, fr, end, fn):
        val, pcv = None, None
        alts = []
        for s2, v in fr.rets:
            if v is not None:
                alts.append((s2.pc, v))
        if len(alts) > 1:
            common = frozenset.intersection(*[p for p, _ in alts])
            gb = gated_bool([(p - common, v) for p, v in alts]) if len({v for _, v in alts}) > 1 else None
            if gb is not None:
                val = gb
            else:
                differ = len({v for _, v in alts}) > 1 and len({p for p, _ in alts}) > 1
                for p, v in alts:
                    if differ:
                        self.selects.add((v, p))
                    val = join(val, v)
                if differ:
                    val = self.gate(val, [(v, p) for p, v in alts])
        elif alts:
            val = alts[0][1]
        for s2, v in fr.rets:
            leave(fn["body"], s2)
            for p in fn["p"]:
                s2.env.pop(p["id"], None)
        end = self.JN([end] + [s2 for s2, v in fr.rets])
        return end, val

    def call_inline(self, fn, recv, args, n, st):
        self.inlined.add(fn["q"])
        saved_this = st.env.get("this")
        lvs = [None] * len(args)
        for i, x in enumerate(n["a"]):
            if i < len(fn["p"]) and is_ref(fn["p"][i]["t"]) and not is_const_ref(fn["p"][i]["t"]):
                lvs[i] = self.LV(x, st)
        for i, p in enumerate(fn["p"]):
            if i < len(args):
                t = p["t"]
                if i < len(lvs) and lvs[i] is not None and args[i][0] != "obj":
                    # self reference guard
                    if lvs[i] == ("V", p["id"]):
                        pass
                    else:
                        st.env[p["id"]] = ("ref", lvs[i])
                else:
                    v = args[i]
                    if is_container(t) and not is_ref(t) and v[0] != "obj":
                        v = self.mkcont(p, st, v)
                    elif is_container(t) and not is_ref(t) and v[0] == "obj":
                        v = self.mkcont(p, st, self.content(v, st))
                    st.env[p["id"]] = v
                if "_ptr<" in t:
                    self.cast_from(p["id"], n["a"][i])
            else:
                st.env[p["id"]] = self.E(p["def"], st) if p.get("def") else ("sym", p["n"])
        if recv is not None:
            st.env["this"] = recv
        fr = Frame(fn)
        self.frames.append(fr)
        if fr.fn and "body" in fr.fn:
            self.counters |= counters_of(fr.fn)
        self.stack.append(fn["id"])
        saved_path, saved_iters = self.callpath, self.iters
        self.callpath = saved_path + (n.get("l", 0),)
        end = self.S(fn["body"], st.copy())
        self.callpath = saved_path
        self.stack.pop()
        self.frames.pop()
        end, val = self.join_returns(fr, end, fn)
        if end is None:
            self.dead = True
            return ("sym", "throw")
        st.take(end)
        if saved_this is not None:
            st.env["this"] = saved_this
        elif recv is not None:
            st.env.pop("this", None)
        return val or ("sym", "void")

    # streams: flatten  s << a << b  and hand each insertion to the domain
    def e_stream(self, n, st):
        chain = []
        cur = n
        while cur["k"] == "call" and cur.get("op") == "<<":
            if "o" in cur:
                if len(cur["a"]) != 1:
                    return None
                chain.append(cur["a"][0])
                cur = cur["o"]
            else:
                if len(cur["a"]) != 2:
                    return None
                chain.append(cur["a"][1])
                cur = cur["a"][0]
        t = cur.get("t") or ""
        if "ostream" not in t and "basic_ostringstream" not in t and "basic_ofstream" not in t and "stringstream" not in t and "basic_iostream" not in t:
            return None
        chain.reverse()
        target = self.E(cur, st)
        for x in chain:
            v = self.E(x, st)
            if self.D.stream(self, st, x, target, v) is None:
                if target[0] == "obj" and "stringstream" in (target[2] or ""):
                    self.push(st, target, v)
        return target

    # std library models
    def std(self, n, q, recv, args, st):
        nm = n.get("n")
        if q in ("std::make_shared", "std::make_unique"):
            cls = n["ta"][0]
            # which constructor?
            cands = self.P.classes.get(cls)
            ctor = None
            if len(args) == 1 and (n["a"][0].get("t") or "").replace("const ", "").rstrip("&* ").strip() == cls:
                uc = [m for m in (cands or {"methods": []})["methods"] if m.get("kind") == "copyctor" and m.get("user")]
                if uc and uc[0]["id"] in self.P.functions:
                    return self.construct(n, cls, uc[0]["id"], args, st, heap=True)
                return self.copy_object(n, cls, args[0], args, st)
            ids = [x["ctor"] for x in self.news_by_cls.get(cls, ()) if x["ta"] == n["ta"]]
            if not ids:
                ids = sorted({x["ctor"] for x in self.news_by_cls.get(cls, ())})
            ids = list(dict.fromkeys(ids))
            fns = [self.P.functions[i] for i in ids if i in self.P.functions]
            ok = [f for f in fns if len([p for p in f["p"] if not p.get("hasdef")]) <= len(args) <= len(f["p"])]
            if len(ok) > 1:
                best = [f for f in ok if self.match_types(f, n)]
                ok = best or ok
            if ok:
                ctor = ok[0]["id"]
            return self.construct(n, cls, ctor, args, st, heap=True)
        if q in ("std::move", "std::forward", "std::ref", "std::cref", "std::dynamic_pointer_cast", "std::static_pointer_cast", "std::addressof"):
            return args[0]
        if q == "std::make_pair" or q == "std::make_tuple" and len(args) == 2:
            return ("pair", args[0], args[1])
        if q == "std::swap" and len(args) == 2:
            l0, l1 = self.LV(n["a"][0], st), self.LV(n["a"][1], st)
            if l0 and l1:
                self.store(l0, args[1], st, n)
                self.store(l1, args[0], st, n)
                return ("sym", "void")
        if q in ("std::to_string",):
            return ("app", "str", (args[0],)) if args[0][0] != "c" else ("c", str(args[0][1]))
        if recv is not None and q.startswith(("std::", "__gnu_cxx::")):
            ct = n["o"].get("t") or n.get("cls") or ""
            cls = n.get("cls") or ""
            if is_container(cls):
                return self.std_container(n, cls, nm, recv, args, st)
            if cls.startswith("std::basic_string<") or cls.startswith("std::__cxx11::basic_string<"):
                if nm in ("c_str", "data"):
                    return recv
                if n.get("op") == "=" or n.get("op") == "+=":
                    lv = self.LV(n["o"], st)
                    v = args[0] if n["op"] == "=" else self.arith("+", recv, args[0])
                    if lv:
                        self.store(lv, v, st, n)
                    return v
                if nm in ("append", "push_back"):
                    lv = self.LV(n["o"], st)
                    v = self.arith("+", recv, args[0])
                    if lv:
                        self.store(lv, v, st, n)
                    return v
                if nm == "clear":
                    lv = self.LV(n["o"], st)
                    if lv:
                        self.store(lv, ("c", ""), st, n)
                    return ("sym", "void")
                if nm in ("erase", "insert", "replace", "pop_back", "resize", "assign"):
                    lv = self.LV(n["o"], st)
                    v = ("app", "string::" + nm, (slim(recv),) + tuple(args))
                    if lv is not None:
                        self.store(lv, v, st, n)
                    return v
                return ("app", "string::" + (nm or "?"), (recv,) + tuple(args))
            if nm == "str" and "stream" in cls:
                if args:
                    st.heap[(recv, "#")] = ("list", (args[0],))
                    return ("sym", "void")
                c = self.content(recv, st)
                if c[0] == "list":
                    if all(x[0] == "c" for x in c[1]):
                        return ("c", "".join(str(x[1]) for x in c[1]))
                    return ("op", "cat", c[1])
                return ("mix", leaves(c))
            if cls.startswith(("std::shared_ptr<", "std::unique_ptr<", "std::__shared_ptr", "std::weak_ptr<", "std::reference_wrapper<", "std::__shared_ptr_access<")):
                if nm in ("get", "lock") or n.get("op") in ("*", "->"):
                    return self.deref(recv, st)
                if n.get("op") == "=":
                    lv = self.LV(n["o"], st)
                    if lv:
                        self.store(lv, args[0], st, n)
                    if n["o"]["k"] == "ref" and n["o"].get("id"):
                        self.cast_from(n["o"]["id"], n["a"][0])
                    return args[0]
                if nm == "operator bool":
                    return ("op", "!=", (self.isa(n["o"], recv), ("null",)))
            if cls.startswith("std::function<") and n.get("op") == "()":
                if recv[0] == "lam":
                    return self.call_lambda(recv, args, n, st)
            if n.get("op") in ("*", "->") and not args:
                return self.deref(recv, st)
            if n.get("op") in ("++", "--"):
                if recv[0] not in ("iter", "any", "mix") and depth(recv) < 12 and not (recv[0] == "app" and recv[1] == "next"):
                    lv = self.LV(n["o"], st)
                    nx = ("app", "next", (recv,))
                    if lv is not None and lv[0] == "V":
                        self.store(lv, nx, st, n)
                    return recv if args else nx
                return recv
            if nm == "operator bool":
                return recv
            if n.get("op") == "=" and cls.startswith(("std::pair<", "std::tuple<")):
                lv = self.LV(n["o"], st)
                if lv:
                    self.store(lv, args[0], st, n)
                return args[0]
        if q.startswith("std::") or q.startswith("boost::") or q.startswith("__gnu_cxx::"):
            op = n.get("op")
            if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/") and (len(args) + (recv is not None)) == 2:
                a2 = ([recv] if recv is not None else []) + args
                if ("null",) in a2 and op in ("==", "!="):
                    a2 = [self.isa(x, v) for x, v in zip(([n["o"]] if recv is not None else []) + n["a"], a2)]
                return self.arith(op, a2[0], a2[1])
            for a in args:
                if a[0] == "lam" and q in ("std::for_each", "std::transform", "std::find_if", "std::any_of", "std::all_of", "std::copy_if", "std::remove_if", "std::count_if"):
                    src = args[0]
                    el = self.elem_of(src[1], self.content(src[1], st), None) if src[0] == "iter" else ("elem", src)
                    self.call_lambda(a, [el] * len(self.lams[a[1]]["p"]), n, st)
            if nm in ("begin", "end", "cbegin", "cend") and len(args) == 1:
                return ("iter", args[0])
            if nm in ("min", "max") and len(args) == 1 and recv is None:
                pass
            # in-place algorithms on a string lvalue
            if q.startswith("boost::") and nm in INPLACE and args:
                lv = self.LV(n["a"][0], st)
                if args[0][0] == "c" and isinstance(args[0][1], str) and nm in ("to_upper", "to_lower"):
                    v = ("c", args[0][1].upper() if nm == "to_upper" else args[0][1].lower())
                else:
                    v = ("app", "boost::" + nm, (slim(args[0]),) + tuple(args[1:]))
                if lv is not None:
                    self.store(lv, v, st, n)
                return ("sym", "void")
            if q.startswith("boost::") and nm == "split" and len(args) >= 2:
                o = args[0]
                if o[0] == "obj" and (o, "#") in st.heap:
                    st.heap[(o, "#")] = ("bag", frozenset((("elem", ("app", "boost::split", tuple(args[1:]))),)))
                    st.heap[(o, "#of")] = ("app", "boost::split", tuple(args[1:]))
                else:
                    lv = self.LV(n["a"][0], st)
                    if lv is not None:
                        self.store(lv, ("app", "boost::split", tuple(args[1:])), st, n)
                return ("sym", "void")
            if self.D.pushes and q == "std::getline" and len(args) >= 2:
                self.out(n["a"][1], args[1], ("app", "line", (args[0],)), st)
                return ("app", q, (args[0],))
            if self.D.pushes and q in ("std::copy", "std::transform", "std::copy_if", "std::set_union", "std::set_difference", "std::set_intersection", "std::remove_copy_if"):
                for a in args:
                    if a[0] == "app" and a[1] in ("std::back_inserter", "std::inserter", "std::front_inserter") and a[2]:
                        src = ("app", nm, tuple(slim(x) for x in args if x is not a))
                        c = a[2][0]
                        if nm == "copy" and args[0][0] == "iter":
                            e = self.content(args[0][1], st)
                            items = e[1] if e[0] in ("list", "bag") else (e,)
                        else:
                            items = (("elem", src),)
                        if c[0] == "obj" and (c, "#") in st.heap:
                            for x in sorted(items, key=repr):
                                self.event("insert", nm, c, (x,), n, st=st)
                            o = st.heap[(c, "#")]
                            st.heap[(c, "#")] = ("bag", frozenset(o[1]) | frozenset(items))
                            st.heap[(c, "#of")] = src
                        else:
                            self.event("insert", nm, c, (src,), n, st=st)
            if q in EFFECTS:
                self.event("effect", nm, None, tuple(args), n, st=st)
            return ("app", q, ((recv,) if recv is not None else ()) + tuple(args))
        return None

    def match_types(self, f, n):
        for p, a in zip(f["p"], n["a"]):
            t = (a.get("t") or "").replace("const ", "").replace("&", "").strip()
            pt = p["t"].replace("const ", "").replace("&", "").strip()
            if t and pt and t != pt and not (t in NUM and pt in NUM):
                if "<" not in pt or pt.split("<")[0] != t.split("<")[0]:
                    if not (a["k"] in ("init", "ctor", "str", "null", "cond", "call", "ref", "mem")):
                        return False
                    if pt in NUM or t in NUM:
                        return False
        return True

    def std_container(self, n, cls, nm, recv, args, st):
        op = n.get("op")
        if nm in ("size", "length", "empty", "count", "begin", "end", "cbegin", "cend", "front", "back", "find", "at") or op == "[]":
            recv = self.origin(recv, st)
        tracked = recv[0] == "obj" and (recv, "#") in st.heap
        ismap = "map<" in cls.split("<")[0] + "<"
        if nm in ("push_back", "emplace_back", "insert", "emplace", "push_front", "push", "emplace_front"):
            val = None
            if nm == "insert" and len(args) == 2 and not ismap and args[0][0] == "iter":
                val = args[1]
                if args[1][0] == "iter":
                    val = self.content(args[1][1], st)
            elif nm == "insert" and len(args) == 3:
                val = self.content(args[1][1], st) if args[1][0] == "iter" else args[1]
            elif nm == "insert" and len(args) == 2 and args[0][0] == "iter" and args[1][0] == "iter":
                val = self.content(args[0][1], st)
            elif nm in ("emplace",) and ismap and len(args) == 2:
                val = ("pair", args[0], args[1])
            elif nm.startswith("emplace") and len(args) != 1:
                val = ("app", "elem", tuple(args))
            elif args:
                val = args[0]
            else:
                val = ("c", 0)
            if nm == "emplace" and ismap and len(args) == 2 and "vector" not in cls.split("<")[0]:
                pass
            if tracked and self.D.pushes:
                self.event("insert", nm, recv, (val,), n, st=st)
            if tracked:
                if val[0] in ("list", "bag") and nm == "insert":
                    for x in sorted(val[1], key=repr) if val[0] == "bag" else val[1]:
                        self.push(st, recv, x)
                    if val[0] == "bag":
                        c = st.heap[(recv, "#")]
                        st.heap[(recv, "#")] = ("bag", frozenset(c[1]))
                else:
                    self.push(st, recv, val)
            else:
                self.event("insert", nm, recv, (val,), n, st=st)
            return ("app", "inserted", (recv,))
        if nm in ("size", "length", "empty", "count", "capacity", "max_size"):
            if nm == "size" and tracked and st.heap[(recv, "#")][0] == "list":
                return ("c", len(st.heap[(recv, "#")][1]))
            if nm == "empty" and tracked and st.heap[(recv, "#")][0] == "list":
                return ("c", len(st.heap[(recv, "#")][1]) == 0)
            return ("app", nm, (recv,) + tuple(args))
        if nm in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend"):
            return ("iter", recv)
        if op == "[]" or nm == "at":
            return self.load(("E", recv, args[0]), st)
        if nm in ("front", "back", "top"):
            c = self.content(recv, st)
            if c[0] == "list" and c[1]:
                return c[1][0 if nm == "front" else -1]
            return self.elem_of(recv, c, None)
        if nm in ("find", "lower_bound", "upper_bound"):
            return ("app", "find", (recv,) + tuple(args))
        if nm == "clear":
            if tracked:
                st.heap[(recv, "#")] = ("list", ())
            else:
                self.event("clear", nm, recv, (), n, st=st)
            return ("sym", "void")
        if nm in ("erase", "pop_back", "pop_front", "remove", "pop"):
            if tracked and self.D.pushes:
                self.event("erase", nm, recv, tuple(args), n, st=st)
            if tracked:
                c = st.heap[(recv, "#")]
                if nm == "pop_back" and c[0] == "list" and c[1]:
                    st.heap[(recv, "#")] = ("list", c[1][:-1])
                elif nm == "pop_front" and c[0] == "list" and c[1]:
                    st.heap[(recv, "#")] = ("list", c[1][1:])
                elif c[0] == "list":
                    st.heap[(recv, "#")] = ("bag", frozenset(c[1]))
            else:
                self.event("erase", nm, recv, tuple(args), n, st=st)
            return ("sym", "void")
        if op == "=":
            lv = self.LV(n["o"], st)
            v = args[0]
            if tracked:
                st.heap[(recv, "#")] = self.content(v, st) if self.content(v, st)[0] in ("list", "bag") else ("bag", frozenset((("elem", v),)))
            elif lv:
                self.store(lv, v, st, n)
            return v
        if nm in ("reserve", "shrink_to_fit"):
            return ("sym", "void")
        if nm == "swap" and args:
            other = args[0]
            c1, c2 = self.content(recv, st), self.content(other, st)
            for lvn, x, c in ((n["o"], recv, c2), (n["a"][0], other, c1)):
                if x[0] == "obj":
                    st.heap[(x, "#")] = c if c[0] in ("list", "bag") else ("bag", frozenset((c,)))
                else:
                    lv = self.LV(lvn, st)
                    if lv is not None:
                        self.store(lv, c if c[0] in ("list", "bag") else c[1], st, n)
            return ("sym", "void")
        if nm in ("resize", "assign", "swap", "splice", "merge", "sort", "reverse", "unique"):
            if tracked:
                c = st.heap[(recv, "#")]
                if nm == "resize" and args and args[0][0] == "c" and c[0] == "list" and args[0][1] <= 64:
                    pad = args[1] if len(args) > 1 else ("c", 0)
                    it = list(c[1][:args[0][1]])
                    it += [pad] * (args[0][1] - len(it))
                    st.heap[(recv, "#")] = ("list", tuple(it))
                elif nm != "reverse":
                    st.heap[(recv, "#")] = ("bag", frozenset(self.content(recv, st)[1]) | frozenset(args))
            else:
                self.event(nm, nm, recv, tuple(args), n, st=st)
            return ("sym", "void")
        return ("app", "cont:" + (nm or "?"), (recv,) + tuple(args))


INPLACE = ("trim", "to_upper", "to_lower", "trim_left", "trim_right", "trim_if", "trim_left_if", "trim_right_if", "erase_all", "erase_head", "erase_tail", "replace_all", "replace_first")
EFFECTS = ("boost::filesystem::copy_file", "boost::filesystem::create_directories", "boost::filesystem::create_directory", "boost::filesystem::remove_all", "boost::filesystem::remove",
           "boost::filesystem::rename", "boost::filesystem::current_path", "std::rename", "std::remove", "boost::add_edge", "boost::add_vertex", "boost::write_graphviz", "boost::filesystem::copy")

NUM = {"int", "double", "unsigned int", "long", "unsigned long", "bool", "float", "char", "short"}


# ---------------------------------------------------------------------- printing
def show(t, names=None):
    k = t[0]
    if k == "c":
        v = t[1]
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, float):
            return repr(v)
        return repr(v) if isinstance(v, str) else str(v)
    if k == "enum":
        return t[1].split("::")[-1] if t[1].count("::") < 2 else "::".join(t[1].split("::")[-2:])
    if k in ("glob",):
        return t[1].split("::")[-1]
    if k == "sym":
        return t[1]
    if k == "null":
        return "null"
    if k == "fld":
        return show(t[1]) + "." + t[2]
    if k == "app":
        f = t[1].replace("vega::", "")
        return "%s(%s)" % (f, ",".join(show(x) for x in t[2]))
    if k == "op":
        if len(t[2]) == 1:
            return "%s(%s)" % (t[1], show(t[2][0]))
        if t[1] in ("+", "*", "&&", "||", "==", "!="):
            return "(" + (" %s " % t[1]).join(sorted(show(x) for x in t[2])) + ")"
        return "(" + (" %s " % t[1]).join(show(x) for x in t[2]) + ")"
    if k == "obj":
        return "new:" + (t[2] or "?").replace("vega::", "").split("<")[0]
    if k == "list":
        return "[" + ",".join(show(x) for x in t[1]) + "]"
    if k == "bag":
        return "bag{" + ",".join(sorted(show(x) for x in t[1])) + "}"
    if k == "any":
        x = sorted({show(x) for x in t[1]})
        return x[0] if len(x) == 1 else "{" + "|".join(x) + "}"
    if k == "mix":
        return "mix{" + ",".join(sorted(show(x) for x in t[1])) + "}"
    if k == "pair":
        return "<%s,%s>" % (show(t[1]), show(t[2]))
    if k == "elem":
        return "each(%s)" % show(t[1])
    if k == "iter":
        return "iter(%s)" % show(t[1])
    if k == "tok":
        kind, lo, hi, d = t[1:]
        if kind in ("ints", "doubles", "text", "peek") and hi >= 10 ** 6:
            hi = lo
        f = lambda x: "~%d" % (x - 10 ** 5) if 10 ** 5 <= x < 10 ** 6 else str(x)
        pos = f(lo) if lo == hi else "%s-%s" % (f(lo), f(hi))
        return "%s[%s%s]" % (kind, pos, "" if d is None else "=" + show(d))
    if k == "atom":
        return atom_text(t[1])
    if k == "lam":
        return "lambda"
    if k == "fn":
        return "&" + t[2]
    if k == "switch":
        return "switch(%s)" % show(t[1])
    return str(t)
