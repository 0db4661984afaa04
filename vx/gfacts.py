"""Facts of an ordinary function (writer, model pass, command line, ...): which data reaches which written keyword, stored
attribute, call or result, and under which conditions.

Each function of a scope is analysed on its own.  Calls to functions which existed when the table was confirmed are sinks or
named terms; functions which are new (an extracted helper) are analysed inside their callers, so that extracting a helper does
not change the facts."""
import itertools, json, os, re
from . import absint, facts, ir
from .absint import Domain, Interp, State, show, flat, leaves

HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = os.path.join(HERE, "tables", "known.json")
WORD = re.compile(r"[A-Za-z_][A-Za-z_0-9]*|\d+(?:\.\d*)?(?:[eE][-+]?\d+)?|\.\d+")
TAIL = 60


def trivial(fn):
    """{ return <field or constant>; }"""
    t = fn.get("_triv")
    if t is None:
        b = fn["body"]
        t = False
        if b["k"] == "block" and len(b["s"]) == 1 and b["s"][0]["k"] == "return" and b["s"][0].get("e") and not fn.get("virtual"):
            e = b["s"][0]["e"]
            while e["k"] == "ctor" and e.get("cp") and e["a"] or e["k"] == "cast":
                e = e["a"][0] if e["k"] == "ctor" else e["e"]
            t = e["k"] in ("mem", "ref")
        fn["_triv"] = t
    return t


class GDomain(Domain):
    maxdepth = 7
    prewiden = True
    pushes = True
    noreturn = ("exit", "abort", "vega::Parser::handleParsingError", "vega::nastran::NastranParser::handleParsingError")

    def __init__(self, P, known, opaque=()):
        self.P, self.known, self.opaque = P, known, opaque

    def inline(self, I, fn):
        q = fn["q"]
        if q in self.noreturn:
            return False
        if fn.get("kind") in ("ctor", "copyctor", "dtor"):
            return False
        if q not in self.known:
            return fn["f"].endswith((".cpp", ".h"))
        return bool(self.known[q])

    # ---- text
    def emit(self, I, st, n, target, v):
        key = self.tkey(target)
        if key is None:
            return
        tails = st.aux.get(key, frozenset(("",)))
        if v[0] == "c" and isinstance(v[1], (str, int, float)) and not isinstance(v[1], bool):
            s = str(v[1])
            if not s:
                return
            I.event("text", s, None, (), n, extra=tails, st=st)
            st.aux[key] = frozenset((t + s)[-TAIL:] for t in tails)
            return
        if v[0] == "op" and v[1] in ("cat", "+") and (v[1] == "cat" or any(x[0] == "c" and isinstance(x[1], str) for x in v[2])):
            for x in v[2]:
                self.emit(I, st, n, target, x)
            return
        if v[0] == "any" and all(x[0] == "c" and isinstance(x[1], str) for x in v[1]):
            I.event("textalt", "", None, (v,), n, extra=tails, st=st)
            out = frozenset((t + x[1])[-TAIL:] for t in tails for x in v[1])
            st.aux[key] = frozenset(sorted(out)[:8])
            return
        I.event("value", "", None, (v,), n, extra=tails, st=st)
        st.aux[key] = frozenset((t + "\u00a7")[-TAIL:] for t in tails)

    def tkey(self, target):
        if target[0] == "glob" and target[1] in ("std::cout", "std::cerr", "std::clog"):
            return None
        if target[0] == "obj":
            return "t:" + str(hash(target))
        return "t:out"

    def stream(self, I, st, n, target, value):
        if target[0] == "obj" and "stringstream" in (target[2] or ""):
            if value[0] == "fn":
                return ("c", 0) if False else self.manip(I, st, target, value, n)
            return None     # collected in the local stream
        if value[0] == "fn":
            return self.manip(I, st, target, value, n)
        if value[0] == "app" and value[1] in ("std::setw", "std::setprecision", "std::setfill", "std::resetiosflags", "std::setiosflags"):
            I.event("manip", value[1], None, value[2], n, st=st)
            return value
        self.emit(I, st, n, target, value)
        return value

    def manip(self, I, st, target, value, n):
        nm = value[2] if len(value) > 2 else str(value)
        if nm.endswith("endl"):
            if target[0] == "obj" and "stringstream" in (target[2] or ""):
                I.push(st, target, ("c", "\n"))
            else:
                self.emit(I, st, n, target, ("c", "\n"))
        else:
            I.event("manip", nm, None, (), n, st=st)
        return value

    # ---- cards of the Nastran writer: position of the next field
    def call(self, I, st, n, q, recv, args):
        if q == "ctor:" + LINE:
            t = ("app", q, tuple(args[:1]))
            st.aux["l:" + show(t)] = frozenset((1,))
            return t
        if q in (LINE + "::add", LINE + "::skip") and recv is not None:
            for r in flat(recv):
                k = "l:" + show(r)
                pos = st.aux.get(k, frozenset(("w0",)))
                kw = show(r[2][0]).strip("'") if r[0] == "app" and r[2] else "?"
                if q.endswith("skip"):
                    by = args[0][1] if args and args[0][0] == "c" else None
                else:
                    tt = (n["a"][0].get("t") or "") if n["a"] else ""
                    by = 1
                    if "VectorialValue" in tt:
                        by = 3
                    elif "vector<" in tt:
                        by = None
                    I.event("card", kw, None, (args[0] if args else ("sym", "blank"),), n, extra=pos, st=st)
                st.aux[k] = frozenset(advance(p, by) for p in pos)
            return recv
        return None

    def join_aux(self, a, b, pca, pcb):
        if a == b:
            return a
        r = dict(a)
        for k in set(a) | set(b):
            o, v = a.get(k), b.get(k)
            if o == v:
                continue
            if k.startswith("l:"):
                u = (o or v) if o is None or v is None else o | v
                if len(u) > 3:
                    u = frozenset(("w0",))
            else:
                u = (o if o is not None else frozenset(("",))) | (v if v is not None else frozenset(("",)))
                if len(u) > 8:
                    u = frozenset(sorted(u, key=lambda x: (len(x), x))[:8])
            r[k] = u
        return r

    def widen_aux(self, old, new):
        if old == new:
            return new
        r = dict(new)
        for k, v in new.items():
            o = old.get(k)
            if k.startswith("l:") and o is not None and o != v:
                r[k] = frozenset(("w0",))
        return r


LINE = "vega::nastran::Line"


def advance(p, by):
    if by is None:
        return "w0"
    if isinstance(p, int):
        return p + by if p + by < 60 else "w0"
    return "w%d" % min(int(p[1:]) + by, 9)


IDENT = re.compile(r"[A-Za-z_][A-Za-z_0-9]*")


def tail_key(tails):
    """the last word written before a value, and how many values were written since"""
    out = set()
    for t in tails:
        m = list(IDENT.finditer(t))
        out.add((m[-1].group() if m else "^", t.count("\u00a7", m[-1].end()) if m else 0))
    if len(out) == 1 and not (len(tails) == 1 and "" in tails):
        w, n = next(iter(out))
        return w if w == "^" or not n else "%s.%d" % (w, n)
    return "|".join(sorted({w for w, n in out}))


def gap(s):
    return re.sub(r"[ \t]+", " ", s)


def lasttok(t):
    """what follows the last word or value of a text"""
    m = list(TOKEN.finditer(t))
    return t[m[-1].end():] if m else ("" if len(t) < TAIL else None)


TOKEN = re.compile(WORD.pattern + "|\u00a7")


def layout(tails, s, value=False):
    """[(separators, next word)] of a text emitted after the given tails"""
    out = []
    pre = sorted({g for g in (lasttok(t) for t in tails) if g is not None})
    if value:
        return [gap(p) + "\u00a7" for p in pre]
    pos = 0
    for i, m in enumerate(WORD.finditer(s)):
        if i == 0:
            out += [gap(p + s[:m.start()]) + m.group() for p in pre]
        else:
            out.append(gap(s[pos:m.start()]) + m.group())
        pos = m.end()
    return out


def atom_ok(t):
    return True


SHORT = (("this.", ""), ("std::", ""), ("vega::", ""))


QUAL = re.compile(r"(?:\w+(?:<[^<>()]*>)?::)+(~?\w+|operator[^\w(]{1,2})(?=\()")


def norm(s):
    s = QUAL.sub(lambda m: m.group(1), s)
    s = s.replace("vega::", "").replace("std::", "")
    s = re.sub(r"\bthis\.", "", s)
    s = re.sub(r"\[abi:\w+\]", "", s)
    return s


def nocut(s):
    if len(s) > 300:
        import hashlib
        return s[:60] + "..#" + hashlib.md5(s.encode()).hexdigest()[:12]
    return s


def whole(f):
    """applications which are leaves as a whole (named results of the program's own functions)"""
    f0 = f.replace("ctor:", "")
    if f.startswith("ctor:"):
        return False
    if f0.startswith("vega::"):
        return True
    return f0 in ("[]", "find", "size", "count", "empty", "indirect", "front", "back", "cont:at") or f0.startswith("string::")


PASS = ("std::to_string", "str", "std::move", "inserted")


NOGATE = (frozenset(),)
MAXGATE = 8


def times(g, h):
    """conjunction of two disjunctions of sets of atoms; too many alternatives are dropped"""
    if h == NOGATE:
        return g
    if g == NOGATE:
        return h
    r = tuple(sorted({x | y for x in g for y in h}, key=lambda c: sorted(map(facts.atom_text, c))))
    return r if len(r) <= MAXGATE else NOGATE


def gtag(t, I=None, sign="", ops=frozenset(), out=None, path="", d=0, gate=NOGATE, held=False):
    """[(sign, operations, leaf, argument position, conditions)]; held: a container stands for its elements"""
    if out is None:
        out = []
    k = t[0]
    if d > 30:
        return out
    if k in ("any", "bag", "list", "mix"):
        G = I.gates(t) if I is not None else {}
        for x in t[1]:
            g = gate
            if x in G:
                g = times(gate, tuple(sorted(G[x], key=lambda c: sorted(map(facts.atom_text, c)))))
            gtag(x, I, sign if k != "mix" else "", ops if k != "mix" else frozenset(("mix",)), out, path, d + 1, g, held and k == "any")
    elif k == "pair":
        gtag(t[1], I, sign, ops, out, path + "@1", d + 1, gate)
        gtag(t[2], I, sign, ops, out, path + "@2", d + 1, gate)
    elif k == "op":
        o, a = t[1], t[2]
        if o == "neg" or (o == "-" and len(a) == 1):
            gtag(a[0], I, facts.flip(sign), ops, out, path, d + 1, gate)
        elif o == "-" and len(a) == 2:
            gtag(a[0], I, sign, ops | {"+"}, out, path, d + 1, gate)
            gtag(a[1], I, facts.flip(sign), ops | {"+"}, out, path, d + 1, gate)
        elif o == "/" and len(a) == 2:
            gtag(a[0], I, sign, ops | {"*"}, out, path, d + 1, gate)
            gtag(a[1], I, facts.inv(sign), ops | {"*"}, out, path, d + 1, gate)
        elif o in ("==", "!=", "<", ">", "<=", ">=", "&&", "||", "!"):
            at = absint.atoms(t, True, set())
            out.append((sign, ops, ("sym", " & ".join(sorted(absint.atom_text(x) for x in at))), path, gate))
        elif o in ("<<", ">>", "%") and len(a) == 2:
            gtag(a[0], I, sign, ops | {o}, out, path, d + 1, gate)
            gtag(a[1], I, sign, ops | {"by" + o}, out, path, d + 1, gate)
        else:
            for x in a:
                gtag(x, I, sign, ops | ({o} if o != "cat" else set()), out, path, d + 1, gate)
    elif k == "app" and t[1].startswith("upd:") and t[2]:
        # a value changed by its own methods: the changes are facts of their own
        gtag(t[2][0], I, sign, ops, out, path, d + 1, gate, held)
    elif k == "app":
        if whole(t[1]) or not t[2]:
            out.append((sign, ops, ("elem", t) if held and not t[1].startswith("ctor:") else t, path, gate))
        else:
            multi = len(t[2]) > 1
            for i, x in enumerate(t[2]):
                gtag(x, I, sign, ops | ({t[1]} if t[1] not in PASS and not t[1].startswith("ctor:") else set()), out,
                     path + "@%d" % i if multi and len(path) < 6 else path, d + 1, gate)
    else:
        out.append((sign, ops, ("elem", t) if held and k in ("fld", "sym", "glob", "elem") else t, path, gate))
    return out


def leafname(t):
    k = t[0]
    if k == "c":
        return "#" + show(t)
    if k == "obj":
        return "<%s>" % (t[2] or "?").replace("vega::", "").split("<")[0]
    if k in ("lam",):
        return None
    if k == "sym" and t[1] in ("void", "this"):
        return None if t[1] == "void" else "this"
    if k == "sym" and t[1].startswith("uninit"):
        return "uninit"
    if k == "elem":
        return show(t)
    return show(t)


class GFacts(facts.Facts):
    def __init__(self, I=None):
        facts.Facts.__init__(self, None)
        self.I, self.sites, self.flags = I, {}, {}
        if I is not None:
            for gid, G in I.gtab.items():
                if all(x[0] == "c" and isinstance(x[1], bool) for x in G):
                    self.flags["flag%d" % gid] = self.flag(G)

    @staticmethod
    def flag(G):
        """the condition under which a boolean variable is true"""
        for v, pol in ((True, True), (False, False)):
            g = [c for x, cs in G.items() if x[1] is v for c in cs]
            if g and all(g) and len(g) <= 6:
                alts = frozenset(absint.conj(c) for c in g)
                a = next(iter(alts)) if len(alts) == 1 else ("or", alts)
                return a if pol else absint.neg(a)
        return None

    def resolve(self, a, d=0):
        if a[0] in ("or", "and") and isinstance(a[1], frozenset):
            return (a[0], frozenset(self.resolve(x, d) for x in a[1]))
        if a[0] not in self.flags:
            return a
        f = self.flags[a[0]]
        if f is None or d > 2:
            return ("flag", a[1])
        f = self.resolve(f, d + 1)
        return f if a[1] else absint.neg(f)

    def path(self, pc):
        """path condition with the boolean variables replaced by what they stand for"""
        if not self.flags or not any(hasflag(a, self.flags) for a in pc):
            return pc
        out = set()
        for a in pc:
            r = self.resolve(a)
            if r[0] == "and" and isinstance(r[1], frozenset):
                out |= r[1]
            else:
                out.add(r)
        return frozenset(out)

    def put(self, sink, term, pc, node=None, fn=None, site=None, held=False):
        if term[0] == "list" and 1 < len(term[1]) <= 40:
            for i, x in enumerate(term[1]):
                self.put("%s[%d]" % (sink, i), x, pc, node, fn, site)
            return
        if term[0] == "app" and term[1].startswith("ctor:vega::") and 2 <= len(term[2]) <= 40:
            nm = norm(term[1][5:])
            for i, x in enumerate(term[2]):
                self.put("%s(%s)[%d]" % (sink, nm, i), x, pc, node, fn, site)
            return
        s = self.sinks.setdefault(sink, {})
        if sink not in self.where and fn is not None:
            self.where[sink] = "%s:%s (%s)" % (fn["f"], (node or {}).get("l", fn["l"]), fn["q"])
        got = False
        for sign, ops, l, path, gate in gtag(term, self.I, held=held):
            nm = leafname(l)
            if nm is None:
                continue
            got = True
            o = "".join(sorted(norm(x).split("::")[-1] if len(x) > 2 else x for x in ops if x != "mix"))
            nm = nocut(norm(sign + nm + ("~" + o if o else "") + path))
            self.fact(s, sink, nm, pc, gate, site)
        if not got:
            self.fact(s, sink, ".", pc, NOGATE, site)

    def fact(self, s, sink, nm, pc, gate, site):
        for g in gate:
            p = self.path(pc | g)
            if len(gate) > 1 and facts.clauses(p) == []:
                continue
            s.setdefault(nm, facts.Guard()).add(p)
            if site is not None:
                self.sites.setdefault((sink, nm), {}).setdefault(site, facts.Guard()).add(p)

    def select(self, term, pc):
        pass

    def note(self, kind, pc, node, fn, site=None):
        facts.Facts.note(self, kind, self.path(pc), node, fn, site)

    def repeats(self, sites):
        """[(k, conditions)]: under which conditions at least k of the sites are reached (k >= 2)"""
        gs = [g.cs for g in sites.values()]
        if len(gs) < 2 or any(g is None for g in gs):
            return
        keys = {frozenset(g) for g in gs}
        if len(keys) == 1:
            yield len(gs), gs[0]
            return
        if len(gs) > 8:
            return
        for k in (2, 3):
            acc = set()
            for sub in itertools.combinations(gs, k):
                cs = [frozenset()]
                for g in sub:
                    cs = [c | x for c in cs for x in g if not any(facts.negate(l) in c for l in x)]
                    cs = [c for c in (facts.eqsimp(c) for c in cs) if c is not None]
                    if len(cs) > facts.CAP:
                        return
                acc |= set(cs)
                if len(acc) > 4 * facts.CAP:
                    return
            if not acc:
                return
            acc = facts.simplify(acc)
            if len(acc) > facts.CAP:
                return
            yield k, acc

    def freeze(self):
        def nz(l):
            return sorted(nocut(norm(x)) for x in l)
        out = {"diag": {k: sorted(" | ".join(nz(g.freeze())) for g in d.values()) for k, d in self.diag.items()},
               "sinks": {s: {l: nz(g.freeze()) for l, g in sorted(d.items())} for s, d in sorted(self.sinks.items())},
               "sel": {}}
        for (sink, nm), sites in sorted(self.sites.items()):
            for k, cs in self.repeats(sites):
                out["sinks"][sink]["%s x%d" % (nm, k)] = [] if cs == [frozenset()] else nz(" & ".join(sorted(c)) for c in cs)
        return out


def hasflag(a, flags):
    if a[0] in ("or", "and") and isinstance(a[1], frozenset):
        return any(hasflag(x, flags) for x in a[1])
    return a[0] in flags


def cont(t):
    """name of a container: a local one is known by the type of its elements"""
    while t[0] == "app" and t[1].startswith("upd:") and t[2]:
        t = t[2][0]
    if t[0] == "obj":
        ty = re.sub(r"\b(const|std|vega|__cxx11)\b(::)?", "", t[2] or "?").replace(" ", "").rstrip("&")
        return nocut("<%s>" % re.sub(r",(less|allocator|hash|equal_to)<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)?[^<>]*>", "", ty))
    return cname(t)


def cname(t):
    while t[0] == "app" and t[1].startswith("upd:") and t[2]:
        t = t[2][0]
    k = t[0]
    if k == "obj":
        return "<%s>" % (t[2] or "?").replace("vega::", "").replace("const ", "").split("<")[0]
    return nocut(norm(show(t)))


IGN = ("handleParsingWarning", "handleParsingError", "handleWritingWarning", "handleWritingError", "getInputContext", "setInputContext", "operator bool")


PURE_C = {"sqrt", "atan2", "sin", "cos", "tan", "acos", "asin", "atan", "fabs", "abs", "pow", "exp", "log", "floor", "ceil", "round", "lround", "isblank", "isdigit", "isspace",
          "isalpha", "isalnum", "toupper", "tolower", "atof", "atoi", "strtod", "strtol", "strspn", "strlen", "strcmp", "strdup", "getenv", "time", "localtime", "perror", "__assert_fail", "indirect"}


def effectful(P, I, e):
    """a call which does more than compute its result"""
    n = e.node
    fn = P.functions.get(n.get("id"))
    if fn is not None:
        if fn["r"] == "void":
            return True
        if n.get("o") is not None or n.get("cls"):
            if fn.get("static"):
                return fn["r"] == "void"
            return not fn.get("const")
        return fn["r"] == "void"
    c = P.classes.get(n.get("cls"))
    if c:
        for m in c["methods"]:
            if m["id"] == n["id"]:
                return not m.get("const") and not m.get("static")
    if "o" not in n and "::" not in e.name:
        return e.name not in PURE_C
    return (n.get("rs") or n.get("t")) == "void" or n.get("op") in ("+=", "-=", "*=", "/=")


def function_facts(P, fn, known, domain=None):
    D = domain or GDomain(P, known)
    I = Interp(P, D)
    st = State()
    this = ("sym", "this")
    args = [("sym", "p%d" % i) for i, p in enumerate(fn["p"])]
    if fn.get("kind") in ("ctor", "copyctor"):
        o = ("obj", ("this", (), ()), fn.get("cls") or fn["q"].rsplit("::", 1)[0])
        st.env["this"] = o
        for p, a in zip(fn["p"], args):
            st.env[p["id"]] = a
        I.frames.append(absint.Frame(fn))
        I.run_ctor(fn, o, args, st, {"l": fn["l"]})
        end, rets = st, []
    else:
        end, rets = I.run(fn, args, st, this=this)
    F = GFacts(I)
    for e in I.events:
        k = e.kind
        site = (id(e.node), e.stack)
        if k == "call":
            nm = e.name.split("::")[-1]
            if nm in ("handleParsingWarning", "handleWritingWarning"):
                F.note("warning", e.pc, e.node, e.fn, (id(e.node), e.stack))
            if nm in ("handleParsingError", "handleWritingError"):
                F.note("error", e.pc, e.node, e.fn, (id(e.node), e.stack))
            if nm in IGN or e.name.startswith(("std::", "boost::", "__gnu_cxx::")):
                continue
            if not effectful(P, I, e):
                continue
            short = norm(e.name)
            recv = ""
            if e.recv is not None and e.recv != this:
                recv = "{%s}" % "|".join(sorted({cname(x) for x in flat(e.recv)}))
            nm = short + nocut(recv)
            if e.recv is not None and e.recv[0] == "app" and len(e.args) > 2:
                cs = ["%d:%s" % (i, show(a)) for i, a in enumerate(e.args) if a[0] == "c"]
                nm += "(%s)" % ",".join(cs) if cs else ""
            for i, a in enumerate(e.args):
                F.put("%s#%d" % (nm, i), a, e.pc, e.node, e.fn, site)
            if not e.args:
                F.put(nm, ("sym", "void"), e.pc, e.node, e.fn, site)
        elif k == "effect" and norm(e.name) not in ("operator++", "operator--"):
            for i, a in enumerate(e.args):
                F.put("%s#%d" % (e.name, i), a, e.pc, e.node, e.fn, site)
        elif k == "base":
            for i, a in enumerate(e.args):
                F.put("base %s#%d" % (norm(e.name), i), a, e.pc, e.node, e.fn)
        elif k == "new" and e.recv is not None and (e.name.startswith("vega::")):
            for i, a in enumerate(e.args):
                F.put("new %s#%d" % (norm(e.name), i), a, e.pc, e.node, e.fn, site)
        elif k == "store":
            base = e.recv
            if base is not None and base[0] == "obj":
                b = cname(base)
            elif base is not None:
                b = cname(base)
            else:
                b = ""
            F.put("set %s.%s" % (b, e.name), e.args[0], e.pc, e.node, e.fn)
        elif k == "setelem" and e.recv is not None:
            ix = e.args[0]
            nm = "setelem %s" % cont(e.recv)
            if absint.is_const(ix) or ix[0] == "list" and all(absint.is_const(x) for x in ix[1]):
                F.put("%s[%s]" % (nm, norm(show(ix))), e.args[-1], e.pc, e.node, e.fn)
            else:
                F.put(nm, e.args[-1], e.pc, e.node, e.fn)
                F.put(nm + " at", ix, e.pc, e.node, e.fn)
        elif k in ("insert", "erase", "clear", "resize", "assign", "swap", "splice", "merge", "sort", "reverse", "unique", "insertover") and e.recv is not None:
            F.put("%s %s" % (k, cont(e.recv)), e.args[-1] if e.args else ("sym", "void"), e.pc, e.node, e.fn, site)
        elif k == "text":
            for w in WORD.findall(e.name):
                F.put("text", ("sym", "'%s'" % w), e.pc, e.node, e.fn, site)
            for w in layout(e.extra, e.name):
                F.put("layout", ("sym", repr(w)), e.pc, e.node, e.fn, site)
        elif k == "textalt":
            for _, _, x, _, gate in gtag(e.args[0], I):
                for g in gate:
                    for w in WORD.findall(x[1]):
                        F.put("text", ("sym", "'%s'?" % w), e.pc | g, e.node, e.fn)
                    for w in layout(e.extra, x[1]):
                        F.put("layout", ("sym", repr(w) + "?"), e.pc | g, e.node, e.fn)
        elif k == "value":
            F.put("text %s" % tail_key(e.extra), e.args[0], e.pc, e.node, e.fn, site)
            for w in layout(e.extra, "", True):
                F.put("layout", ("sym", repr(w)), e.pc, e.node, e.fn, site)
        elif k == "card":
            F.put("card %s[%s]" % (e.name, "|".join(sorted(str(x) for x in e.extra))), e.args[0], e.pc, e.node, e.fn, site)
        elif k == "manip":
            F.put("format %s" % norm(e.name), e.args[0] if e.args else ("sym", "void"), e.pc, e.node, e.fn)
        elif k == "throw":
            F.note("error", e.pc, e.node, e.fn, (id(e.node), e.stack))
    rv = [(s.pc, v) for s, v in rets if v is not None]
    if rv:
        gb = absint.gated_bool(rv) if fn["r"] == "bool" else None
        if gb is not None:
            F.put("return", ("sym", "true"), absint.assume(frozenset(), gb, True) if gb[0] == "atom" else frozenset(), fn, fn)
            if gb[0] == "c":
                F.put("return", gb, frozenset(), fn, fn)
        else:
            for pc, v in rv:
                F.put("return", v, pc, fn, fn, None, absint.is_container(fn["r"]))
            r = F.sinks.get("return", {})
            if fn["r"] == "bool" and "#True" in r and "#False" in r:
                # a flag and early returns are the same: keep the conditions of the exceptional result
                d = "#True" if r["#False"].freeze() else "#False"
                r[d] = facts.Guard()
                r[d].add(frozenset())
    for s in [end] + [s for s, v in rets]:
        if s is None:
            continue
        for key, tails in s.aux.items():
            if key.startswith("t:"):
                for g in sorted({gap(x) for x in (lasttok(t) for t in tails) if x}):
                    F.put("layout", ("sym", repr(g) + " at the end"), frozenset(), fn, fn)
    F.steps = I.steps
    return F


def global_facts(P, g, known):
    """the entries of a constant table"""
    I = Interp(P, GDomain(P, known))
    I.frames.append(absint.Frame({"q": "init", "f": g["f"], "l": g["l"], "p": [], "body": {"k": "block", "s": []}, "r": "void"}))
    t = I.E(g["init"], State())
    F = GFacts()

    def put(sink, t, d=0):
        if t[0] == "list" and d < 3:
            for i, x in enumerate(t[1]):
                if x[0] == "pair" and "map<" in g["t"]:
                    put("%s[%s]" % (sink, norm(show(x[1]))), x[2], d + 1)
                else:
                    put("%s[%d]" % (sink, i), x, d + 1)
        else:
            F.put(sink, t, frozenset(), g, dict(g, q=g["q"]))
    put("entry ", t)
    return F


# ---------------------------------------------------------------- scopes
def known(P):
    """{function name: it is a plain getter}"""
    return json.load(open(KNOWN))


def all_names(P):
    out = {}
    for f in P.functions.values():
        if "body" in f:
            out[f["q"]] = min(out.get(f["q"], 1), int(trivial(f)))
    return out


def fkey(fn):
    return "%s(%s)" % (fn["q"].replace("vega::", ""), ",".join(p["t"].replace("vega::", "").replace("const ", "").rstrip(" &") for p in fn["p"]))


def scope_facts(P, select, kn, only=None, names=None):
    """{function key: (facts, where, fn)} for the functions chosen by select(fn); names: base names among `only`"""
    out = {}
    for fn in P.functions.values():
        if "body" not in fn:
            continue
        if only is not None:
            k = fkey(fn)
            if k not in only and re.sub(r"<[^()]*>", "", k.split("(")[0]) not in names:
                continue
        elif not select(fn):
            continue
        k = fkey(fn)
        if k in out:
            continue
        F = function_facts(P, fn, kn)
        out[k] = (F.freeze(), F.where, fn)
    return out
