"""Domain for the Nastran bulk-data reader: the card cursor is an interval of field
positions (field 1 = first field after the card name); a value read from the card
carries its position, the way it was read and its default."""
from . import absint
from .absint import Domain, Interp, State, show, join, leaves, is_const, flat
from .ir import AnalysisBroken

INF = 10 ** 6
END = 10 ** 7
REL = 10 ** 5
TK = "vega::nastran::NastranTokenizer::"


class CardDomain(Domain):
    maxdepth = 9
    noreturn = ("vega::Parser::handleParsingError", "vega::Tokenizer::handleParsingError", "exit",
                "vega::nastran::NastranParser::handleParsingError")

    def __init__(self, P):
        self.P = P

    def inline(self, I, fn):
        f = fn["f"]
        if fn["q"] in self.noreturn:
            return False
        if f.startswith(("Nastran/NastranParser", "Optistruct/")):
            return True
        # constructors of the model are inlined so that the table speaks of stored attributes
        if fn.get("kind") == "ctor" and f.startswith("Abstract/"):
            return True
        return False

    def value_ctor(self, I, cls):
        return True

    # cursor: alternatives (conditions, lo, hi) of field numbers; REL+k = k fields after a point whose position is not
    # known statically.  Alternatives whose conditions contradict the path are dropped, so correlated tests stay precise.
    START = ((frozenset(), 1, 1),)

    def alts(self, st):
        al = st.aux.get("pos", self.START)
        keep = self.live(al, st.pc)
        if keep != al:
            al = st.aux["pos"] = self.norm(keep)
        return al

    @staticmethod
    def live(al, pc):
        if len(al) == 1:
            return al
        return tuple(x for x in al if not any(absint.neg(g) in pc for g in x[0])) or al

    @staticmethod
    def norm(al):
        by = {}
        for g, lo, hi in al:
            by.setdefault((lo, hi), []).append(g)
        out = []
        for (lo, hi), gs in by.items():
            out.append((frozenset.intersection(*gs), lo, hi))
        if len(out) == 1:
            return ((frozenset(), out[0][1], out[0][2]),)
        if len(out) > 6:
            return CardDomain.hull(out)
        return tuple(sorted(out, key=lambda x: (x[1], x[2])))

    @staticmethod
    def hull(al):
        live = [x for x in al if x[1] != END]
        if not live:
            return ((frozenset(), END, END),)
        lo, hi = min(x[1] for x in live), max(x[2] for x in live)
        if (lo >= REL) != (hi >= REL) or hi - lo > 40:
            lo = hi = REL
        return ((frozenset(), lo, hi),)

    def pos(self, st):
        return self.hull(self.alts(st))[0][1:]

    def setpos(self, st, lo, hi):
        st.aux["pos"] = ((frozenset(), lo, hi),)

    def adv(self, st, n):
        st.aux["pos"] = tuple((g, lo, hi) if lo == END else (g, lo + n, hi + n) for g, lo, hi in self.alts(st))

    def unknown(self, st):
        if self.pos(st)[0] != END:
            self.setpos(st, REL, REL)

    def read(self, I, st, kind, default):
        lo, hi = self.pos(st)
        if lo == END:
            return default if default is not None else ("app", "blank", ())
        self.adv(st, 1)
        I.event("read", "read", None, (("tok", kind, lo, hi, default),), {}, st=st)
        return ("tok", kind, lo, hi, default)

    def refine(self, I, c, pol, st):
        """a card known to be exhausted: every further field is blank"""
        if pol and c["k"] == "call" and c.get("n") in ("isEmptyUntilNextKeyword", "isNextTheLast"):
            if c["n"] == "isEmptyUntilNextKeyword":
                self.setpos(st, END, END)

    def join_aux(self, a, b, pca, pcb):
        p, q = a.get("pos", self.START), b.get("pos", self.START)
        r = dict(a)
        if p == q and len(p) == 1:
            return r
        p = tuple(x for x in self.live(p, pca) if x[1] != END)
        q = tuple(x for x in self.live(q, pcb) if x[1] != END)
        if not p or not q:
            r["pos"] = p or q or ((frozenset(), END, END),)
            return r
        ga, gb = pca - pcb, pcb - pca
        r["pos"] = self.norm([(g | ga, lo, hi) for g, lo, hi in p] + [(g | gb, lo, hi) for g, lo, hi in q])
        return r

    def widen_aux(self, old, new):
        r = dict(new)
        p, q = self.hull(old.get("pos", self.START)), self.hull(new.get("pos", self.START))
        r["pos"] = q if p == q else ((frozenset(), REL, REL),)
        return r

    def call(self, I, st, n, q, recv, args):
        if not q.startswith(TK):
            if q == "vega::nastran::NastranParser::handleParsingError" or q.endswith("::handleParsingError"):
                I.event("error", q, None, (), n, st=st)
                I.dead = True
                return ("sym", "throw")
            return None
        m = q[len(TK):]
        if m in ("nextInt", "nextDouble", "nextString"):
            d = None
            kind = {"nextInt": "i", "nextDouble": "d", "nextString": "s"}[m]
            if args and args[0] == ("c", True):
                d = args[1] if len(args) > 1 else ("sym", "default")
            elif args and args[0][0] != "c":
                d = ("app", "maybe", (args[1],))
            return self.read(I, st, kind, d)
        if m == "nextSymbolString":
            return self.read(I, st, "s", None)
        if m in ("nextInts", "nextDoubles"):
            lo, hi = self.pos(st)
            self.unknown(st)
            return ("bag", frozenset((("tok", "ints" if m == "nextInts" else "doubles", lo, INF, None),)))
        if m == "skip":
            if args[0][0] == "c" and isinstance(args[0][1], int):
                I.event("read", "skip", None, (args[0],), {}, st=st)
                self.adv(st, args[0][1])
            else:
                self.unknown(st)
            return ("sym", "void")
        if m == "skipToNotEmpty":
            self.unknown(st)
            return ("sym", "void")
        if m == "skipToNextKeyword":
            self.setpos(st, END, END)
            return ("sym", "void")
        if m == "nextLine":
            self.setpos(st, REL, REL)
            return ("sym", "void")
        if m in ("currentDataLine", "currentRawDataLine", "remainingTextUntilNextKeyword"):
            lo, hi = self.pos(st)
            return ("tok", "text", lo, INF, None)
        if m.startswith("is"):
            lo, hi = self.pos(st)
            return ("app", m, (("tok", "peek", lo, hi, None),) + tuple(args))
        return None


def keyword_table(P):
    """[(keyword, handler usr)] of the reader's dispatch table"""
    tab = [g for g in P.globals.values() if g["n"] == "PARSE_FUNCTION_BY_KEYWORD" and "init" in g]
    if not tab:
        raise AnalysisBroken("anchor vanished: keyword dispatch table of the Nastran reader")
    out = []

    def strs(n):
        from . import ir
        return [x["v"] for x in ir.nodes(n, "str")]

    def rec(n):
        from . import ir
        k = n["k"]
        if k == "ctor" and n["q"].startswith("std::pair<"):
            ss = strs(n)
            fns = [x for x in ir.nodes(n, "ref") if x.get("dk") == "fn"]
            if ss and fns:
                out.append((ss[0], fns[0]["id"], n["l"]))
                return
        for c in ir.children(n):
            rec(c)
    rec(tab[0]["init"])
    return out, tab[0]


def analyse_card(P, fn, bind=None):
    D = CardDomain(P)
    I = Interp(P, D)
    st = State()
    args = [("sym", p["n"]) for p in fn["p"]]
    # canonical names for the two parameters of a handler
    for i, p in enumerate(fn["p"]):
        if "Tokenizer" in p["t"]:
            args[i] = ("sym", "tok")
        elif p["t"].startswith("vega::Model"):
            args[i] = ("sym", "model")
    I.run(fn, args, st)
    return I


from . import facts as _facts

# calls which only report, compare or convert: no model data flows into them
IGNORED = ("is_equal", "is_zero", "to_str", "handleParsingWarning", "handleParsingError", "getInputContext",
           "setInputContext", "operator=", "str", "size", "operator==", "operator<", "operator bool")


def cname(t):
    if t[0] == "obj":
        return "<%s>" % (t[2] or "?").replace("vega::", "").replace("const ", "").split("<")[0]
    if t[0] == "fld":
        return "%s.%s" % (cname(t[1]), t[2])
    if t[0] == "sym":
        return t[1]
    return t[0]


def leaf_name(l, mix):
    if l[0] == "tok" or l[0] in ("enum", "glob"):
        return show(l)
    if l[0] == "c" and not mix and not isinstance(l[1], bool):
        return "#" + show(l)
    if l[0] == "c" and not mix:
        return show(l)
    if l[0] == "obj" and l[2] and l[2].startswith("vega::"):
        return "<%s>" % l[2].replace("vega::", "")
    return None


def card_facts(P, fn):
    """facts of one card handler; sinks are attributes of the objects built and arguments of the model calls made"""
    I = analyse_card(P, fn)
    F = _facts.Facts(leaf_name)
    for e in I.events:
        if e.kind == "call":
            nm = e.name.split("::")[-1]
            if nm == "handleParsingWarning":
                F.note("warning", e.pc, e.node, e.fn, (id(e.node), e.stack))
            if nm in IGNORED or e.name.startswith(("std::", "boost::", "__gnu_cxx::")):
                continue
            short = e.name.replace("vega::", "")
            recv = ""
            if e.recv is not None:
                cl = sorted({x[2].replace("vega::", "") for x in flat(e.recv) if x[0] == "obj" and x[2]})
                recv = "|".join(cl)
            en = [show(a) for a in e.args if a[0] in ("enum", "glob") or (a[0] == "c" and isinstance(a[1], (str, bool)))]
            nm = "%s%s%s" % (short, "{%s}" % recv if recv else "", "(%s)" % ",".join(en) if en else "")
            for i, a in enumerate(e.args):
                F.put("%s#%d" % (nm, i), a, e.pc, e.node, e.fn)
            if not e.args:
                F.put(nm, ("sym", ""), e.pc, e.node, e.fn)
        elif e.kind == "new" and e.recv is not None:
            cls = e.name.replace("vega::", "")
            for i, a in enumerate(e.args):
                F.put("new %s#%d" % (cls, i), a, e.pc, e.node, e.fn)
        elif e.kind in ("store",):
            F.put("set .%s" % e.name, e.args[0], e.pc, e.node, e.fn)
        elif e.kind in ("insert", "setelem") and e.recv is not None:
            F.put("%s %s" % (e.kind, cname(e.recv)), e.args[-1], e.pc, e.node, e.fn)
        elif e.kind == "read":
            F.put(e.name, e.args[0], e.pc, e.node, e.fn)
        elif e.kind == "error":
            F.note("error", e.pc, e.node, e.fn, (id(e.node), e.stack))
        elif e.kind == "throw":
            F.note("error", e.pc, e.node, e.fn, (id(e.node), e.stack))
    for v, pc in I.selects:
        F.select(v, pc)
    return F
