"""C39: the result of a lookup is used only after it was found."""
import re
from .. import ir, definite, nullness, gfacts
from ..report import loc

FINDERS = {"find", "lower_bound", "upper_bound", "find_if", "find_if_not", "max_element", "min_element", "search", "adjacent_find", "find_first_of", "find_end"}
ITER = re.compile(r"iterator|_iterator")


def strip(n):
    while n is not None and (n.get("k") in ("cast", "icast", "paren") or n.get("k") == "ctor" and n.get("a") and len(n["a"]) == 1 and ITER.search(n.get("t") or n.get("q") or "")):
        n = n["e"] if n["k"] != "ctor" else n["a"][0]
    return n


def lookup(n):
    n = strip(n)
    return n is not None and n.get("k") == "call" and n.get("n") in FINDERS and (n.get("q") or "").startswith(("std::", "boost::")) and ITER.search(n.get("t") or "")


def is_end(n):
    n = strip(n)
    return n is not None and n.get("k") == "call" and n.get("n") in ("end", "cend", "rend")


def find_call(n, op):
    """(variable id, other side) of a comparison of an iterator variable"""
    n = strip(n)
    if n.get("k") == "call" and n.get("op") == op:
        sides = ([n["o"]] if n.get("o") else []) + list(n.get("a") or [])
    elif n.get("k") == "bin" and n.get("op") == op:
        sides = [n["a"], n["b"]]
    else:
        return None
    if len(sides) != 2:
        return None
    for x, y in (sides, sides[::-1]):
        x = strip(x)
        if is_end(y) or strip(y).get("k") == "ref":
            if x.get("k") == "ref":
                return x.get("id")
    return None


class Found(definite.Definite):
    """the state holds the iterators known to designate an element"""
    def __init__(self, P, fn, noret):
        super().__init__(P, fn, lambda t: False, noret)
        self.its = {}
        self.direct = []
        self.uses = 0

    def decl(self, v, st):
        if v.get("init") is not None:
            st = self.E(v["init"], st)
            self.bind(v["id"], v["init"], v)
            if st is not definite.ALL:
                st = st - {v["id"]}
        return st

    def bind(self, i, init, v):
        if lookup(init):
            self.its[i] = v
        elif i in self.its and not lookup(init):
            pass

    def E(self, n, st):
        if n is None:
            return st
        k = n.get("k")
        if k == "asg" and n["a"].get("k") == "ref" or k == "call" and n.get("op") == "=" and (n.get("o") or {}).get("k") == "ref":
            tgt = n["a"] if k == "asg" else n["o"]
            src = n["b"] if k == "asg" else n["a"][0]
            st = self.E(src, st)
            if lookup(src):
                self.its.setdefault(tgt["id"], tgt)
                return st if st is definite.ALL else st - {tgt["id"]}
            if tgt["id"] in self.its and st is not definite.ALL:
                return st | {tgt["id"]}
            return st
        if k == "call" and n.get("op") in ("->", "*") and n.get("o") is not None and ITER.search((n["o"].get("t") or "")):
            o = strip(n["o"])
            if o.get("k") == "ref" and o.get("id") in self.its:
                self.uses += 1
                if st is not definite.ALL and o["id"] not in st:
                    self.bad.append((dict(o, **{"from": self.its[o["id"]].get("init")}), n))
                    return st | {o["id"]}
                return st
            if lookup(o):
                self.uses += 1
                self.direct.append((o, n))
        if k == "un" and n.get("op") == "*" and lookup(n["e"]):
            self.uses += 1
            self.direct.append((strip(n["e"]), n))
        if k == "call" and n.get("n") == "erase" and n.get("a"):
            a = strip(n["a"][0])
            if a.get("k") == "ref" and a.get("id") in self.its and len(n["a"]) == 1:
                self.uses += 1
                if st is not definite.ALL and a["id"] not in st:
                    self.bad.append((a, n))
                    return st | {a["id"]}
        if k == "lambda":
            return st
        return super().E(n, st)

    def C(self, n, st):
        if n is None:
            return super().C(n, st)
        m = strip(n)
        for op in ("==", "!="):
            i = find_call(m, op)
            if i is not None and i in self.its:
                st = self.E(n, st)
                ok = st if st is definite.ALL else st | {i}
                return (ok, st) if op == "!=" else (st, ok)
        return super().C(n, st)


# containers which have an entry for every possible key from the moment they are created (confirmed by reading)
FILLED = {"cellPositionsByType": "vega::Mesh::Mesh", "nodepositionsByCelltype": "vega::CellStorage::CellStorage", "requiredDofsByNode": None,
          "FACE_BY_CELLTYPE": "read only under the case labels of the cell types which it holds"}


def total(o):
    while o is not None and o.get("k") == "call":
        o = strip(o.get("o"))
    return o.get("n") if o is not None and o.get("n") in FILLED else None


def table(P, o):
    """(name of the constant table looked up, enumerators without an entry)"""
    c = strip(o.get("o"))
    while c is not None and c.get("k") == "mem" and c.get("n") in ("left", "right"):
        c = strip(c["b"])
    if c is None or c.get("k") not in ("ref", "mem"):
        return None
    g = P.globals.get(c.get("id")) or next((x for x in P.globals.values() if c.get("q") and x["q"] == c.get("q")), None)
    if g is None or "init" not in g or not o.get("a"):
        return None
    t = (strip(o["a"][0]).get("t") or "").replace("const ", "").replace("&", "").strip()
    e = P.enums.get(t)
    if e is None:
        return None
    have = {x["n"] for x in ir.walk(g["init"]) if x.get("dk") == "enumc" and x.get("t", "").replace("const ", "") == t}
    return c["n"], {v for v in {v["n"] for v in e["e"]} - have if (t, v) in used(P)}


def used(P):
    """enumerators which the program can produce: named elsewhere than in comparisons, case labels and constant tables"""
    if hasattr(P, "_enum_used"):
        return P._enum_used
    out = set()

    def rec(n, skip):
        k = n.get("k")
        if k == "ref" and n.get("dk") == "enumc":
            if not skip:
                out.add((n.get("t", "").replace("const ", ""), n["n"]))
            return
        cmp = k == "bin" and n.get("op") in ("==", "!=") or k == "call" and n.get("op") in ("==", "!=")
        for key, v in n.items():
            for c in ([v] if type(v) is dict else v if type(v) is list else ()):
                if type(c) is dict:
                    rec(c, skip or cmp or (k == "case" and key == "v"))
    for f in P.functions.values():
        if "body" in f:
            rec(f["body"], False)
            for i in f.get("inits", []):
                if i.get("e"):
                    rec(i["e"], False)
            for p in f["p"]:
                if isinstance(p.get("def"), dict):
                    rec(p["def"], False)
    for c in P.classes.values():
        for f in c["fields"]:
            if isinstance(f.get("init"), dict):
                rec(f["init"], False)
    for g in P.globals.values():
        if "init" in g and g["q"].startswith("vega::nastran") or "init" in g and "map" not in g.get("t", ""):
            rec(g["init"], False)
    P._enum_used = out
    return out


# what validate() answers for: an object for which one of these answers nothing is invalid, and invalid objects never reach a writer
VALIDATED = {
    "LinearModal": ["getFrequencySearch"], "LinearDynaModalFreq": ["getFrequencySearch", "getExcitationFrequencies"],
    "LinearDynaDirectFreq": ["getExcitationFrequencies"], "FrequencyOutput": ["getCollection"],
    "DynamicExcitation": ["getLoadSet", "getFunctionTableB", "getDynaDelay", "getDynaPhase"],
}
WRITERS = ("aster::", "systus::", "nastran::NastranWriter")

# uses of an answer which are not preceded by a test, and why it cannot be missing there (confirmed by reading)
VALUE = "the value is put in the model by the parser, together with the objective which refers to it"
PARSED = "created by the same call unless it is told not to, which it is not here"
HELD = "only groups of the mesh are named by a container: the name is tested when it is added"
BOUND = "the contact was written as cells and nodes before, where a missing target is an error"
IDS = "the ids are those of the analyses of the model"
TABLE = "the table is put in the model together with the loading"
TRACED = "only where the analysis holds the reference"
BOTH = "a reference is put in a set after its object was put in the model, and removed with it"
CONFIRMED = {
    ("LinearDynaModalFreq::canReuse", "LinearModal::getFrequencySearch"): "both analyses are validated",
    ("DynamicExcitation::scale", "Model::find"): TABLE,
    ("Mesh::addCell", "Mesh::getOrCreateCellGroupForCS"): PARSED, ("Mesh::updateCell", "Mesh::getOrCreateCellGroupForCS"): PARSED,
    ("CellContainer::hasCellsIncludingGroups", "Mesh::findGroup"): HELD,
    ("NodeContainer::getNodePositionsIncludingGroups", "Mesh::findGroup"): HELD,
    ("NodeContainer::hasNodesIncludingGroups", "Mesh::findGroup"): HELD,
    ("aster::AsterWriter::writeAnalyses", "Mesh::findGroup"): "the names are those of the groups of the mesh",
    ("Model::remove", "Model::Container::find"): TRACED,
    ("aster::AsterWriter::writeCalcFreq", "FrequencySearch::getValue"): VALUE,
    ("aster::AsterWriter::writeAnalysis", "FrequencyExcit::getValue"): VALUE,
    ("aster::AsterWriter::writeAnalysis", "ModalDamping::getFunctionTable"): VALUE,
    ("systus::SystusWriter::writeFrequencyExcit", "FrequencyExcit::getValue"): VALUE,
    ("systus::SystusWriter::writeLinearModalAnalysis", "FrequencySearch::getValue"): VALUE,
    ("systus::SystusWriter::writeModalDamping", "ModalDamping::getFunctionTable"): VALUE,
    ("aster::AsterWriter::writeDefiContact", "Model::find"): BOUND, ("aster::AsterWriter::writeLIAISON_MAIL", "Model::find"): BOUND,
    ("aster::AsterWriter::writeLireMaillage", "Model::find"): BOUND, ("nastran::NastranWriter::writeConstraints", "Model::find"): BOUND,
    ("nastran::NastranParser::parseDMIG", "Model::find"): "the name was found in the table of the matrices, which were put in the model with it",
    ("nastran::NastranParser::parseMAT1", "Model::getOrCreateMaterial"): PARSED, ("nastran::NastranParser::parseMAT8", "Model::getOrCreateMaterial"): PARSED,
    ("nastran::NastranParser::parseMATHP", "Model::getOrCreateMaterial"): PARSED, ("nastran::NastranParser::parseMATS1", "Model::getOrCreateMaterial"): PARSED,
    ("nastran::NastranWriter::writeLoadings", "Mesh::findCoordinateSystem"): "a loading in a coordinate system which does not exist is invalid",
    ("systus::SystusWriter::generateRBEs", "Material::findNature"): "the material of a rigid element set is created with its rigid nature",
    ("systus::SystusWriter::generateSubcases", "Model::getAnalysis"): IDS, ("systus::SystusWriter::writeDat", "Model::getAnalysis"): IDS,
    ("ElementSet::getMaterials", "Model::Container::find"): "its two callers test each material",
    ("Model::getConstraintsByConstraintSet", "Model::find"): BOTH, ("Model::getObjectivesByObjectiveSet", "Model::find"): BOTH,
    ("Model::Container::first", "this"): "its callers test that there is an analysis", ("Model::Container::last", "this->by_id"): "its callers test that there is an analysis",
    ("Model::makeCellsFromRBE", "->rbar->getSlaves()"): "an RBAR is made with its slave",
    ("Model::replaceRigidSegments", "cell.nodeIds"): "every cell has nodes",
    ("NodeStorage::getMinNodeId", "this->nodepositionById"): "a mesh has nodes", ("NodeStorage::getMaxNodeId", "this->nodepositionById"): "a mesh has nodes",
    ("VegaCommandLine::normalize_path", "strpath"): "the paths of the command line are not empty",
    ("aster::AsterWriter::writeAnalyses", "nodePositions"): "a group made for an orientation has nodes",
    ("aster::AsterWriter::writeLireMaillage", "->*zones.begin()->nodePositions()"): "a zone has nodes",
    ("nastran::NastranParser::addSet", "line"): "the line begins with SET",
    ("nastran::NastranParser::parseDMIG", "DOFS::nastranCodeToDOFS(cj)"): "a code of components has a component",
    ("nastran::NastranParser::parseDMIG", "DOFS::nastranCodeToDOFS(c1)"): "a code of components has a component",
}


def plain(q):
    q = q.replace("vega::", "")
    while "<" in q:
        r = nullness.plain(q)
        if r == q:
            break
        q = r
    return q


def pointers(ctx, P, noret):
    kn = {nullness.plain(x) for x in gfacts.known(P)}
    N = nullness.Nullable(P, noret, kn)
    callers = {}
    for f in P.functions.values():
        if "body" in f:
            for n in ir.nodes(f["body"], "call"):
                g = P.functions.get(n.get("id"))
                if g is not None and nullness.plain(g["q"]) not in kn:
                    callers.setdefault(g["q"], set()).add(f["q"])

    def origins(q):
        """a helper which is new stands for its callers"""
        out, work, seen = set(), [q], set()
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if nullness.plain(x) in kn or x not in callers:
                out.add(plain(x))
            else:
                work += list(callers[x])
        return out
    seen = set()
    for fn in list(P.functions.values()):
        if "body" not in fn or not fn["q"].startswith("vega::"):
            continue
        for b in [fn["body"]] + [x["body"] for x in ir.nodes(fn["body"], "lambda") if isinstance(x.get("body"), dict)]:
            d = nullness.Known(P, fn, noret, N)
            d.run(b)
            for r, w, p, n in d.good:
                ctx.ok("pointer" if r == "kept" else r, "%s: %s" % (plain(fn["q"]), plain(w or "")), fn)
            for r, w, p, n in d.bad:
                w = plain(w)
                key = (r, fn["q"], w, n.get("l"))
                if key in seen:
                    continue
                seen.add(key)
                rule = "pointer" if r == "kept" else r
                o = origins(fn["q"])
                source = w.rsplit("::", 1)
                if rule == "pointer" and len(source) == 2 and source[1] in VALIDATED.get(source[0], ()) and all(x.startswith(WRITERS) for x in o):
                    ctx.ok(rule, "%s: %s (validated)" % (plain(fn["q"]), w), fn)
                elif all((x, w) in CONFIRMED for x in o):
                    ctx.ok(rule, "%s: %s (confirmed)" % (plain(fn["q"]), w), fn)
                elif rule == "element":
                    ctx.violation(rule, "%s: %s" % (min(o), w), loc(fn, n), "%s takes an element of %s, which may be empty" % (plain(fn["q"]), w), fn)
                else:
                    ctx.violation(rule, "%s: %s" % (min(o), w), loc(fn, n), "%s %s the answer of %s, which may be a null pointer" % (plain(fn["q"]), "keeps" if r == "kept" else "uses", w if w != "null" else "a test"), fn)
    for c, names in sorted(VALIDATED.items()):
        v = next((f for f in P.functions.values() if f["q"] == "vega::%s::validate" % c and "body" in f), None)
        ctx.need(v is not None, "vega::%s::validate is missing" % c)
        facts = N.summary(v)[1]
        for m in names:
            if ("nn", "this.%s()" % m) in facts:
                ctx.ok("validated", "%s::%s" % (c, m), v)
            else:
                ctx.violation("validated", "%s::%s" % (c, m), loc(v, v), "%s::validate answers true although %s may answer nothing, and the writers use its answer" % (c, m), v)


def run(ctx):
    from . import c12
    P = ctx.P
    ctx.rule("pointer", "a pointer which a function may answer null is used, or put in a container, only where it was tested", 150)
    ctx.rule("element", "the first or last element of a container is taken only where the container was found to hold one", 20)
    ctx.rule("validated", "an object whose answers the writers use untested is invalid when they are missing", 5)
    ctx.rule("lookup", "an iterator got by a lookup is used only where it was compared with the end of its container", 40)
    ctx.rule("table", "a table looked up without a test has an entry for every enumerator of its key", 5)
    ctx.rule("filled", "only the containers filled for every key when the mesh or the pass begins are looked up without a test", 3)
    noret, ids = c12.noreturns(P)
    pointers(ctx, P, noret)
    for fn in list(P.functions.values()):
        if "body" not in fn or not (fn["q"].startswith("vega::") or fn["q"] == "main"):
            continue
        bodies = [fn["body"]] + [x["body"] for x in ir.nodes(fn["body"], "lambda") if isinstance(x.get("body"), dict)]
        for b in bodies:
            d = Found(P, fn, noret)
            d.run(b)
            short = fn["q"].replace("vega::", "")
            for v, n in d.bad:
                if total(strip(v.get("from") or {})):
                    ctx.ok("filled", "%s:%s" % (short, total(strip(v["from"]))), fn)
                    continue
                ctx.violation("lookup", "%s:%s" % (short, v["n"]), loc(fn, n), "%s uses %s although the lookup may have found nothing" % (short, v["n"]), fn)
            for o, n in d.direct:
                t = table(P, o) if not total(o) else None
                if t is not None:
                    if t[1]:
                        ctx.violation("table", "%s:%s" % (short, t[0]), loc(fn, n), "%s looks up %s, which has no entry for %s" % (short, t[0], ", ".join(sorted(t[1]))), fn)
                    else:
                        ctx.ok("table", "%s:%s" % (short, t[0]), fn)
                    continue
                if total(o):
                    ctx.ok("filled", "%s:%s" % (short, total(o)), fn)
                    continue
                ctx.violation("lookup", "%s:%s.%s" % (short, (o.get("o") or {}).get("n") or "", o["n"]), loc(fn, n), "%s uses the result of %s directly, although it may have found nothing" % (short, o["n"]), fn)
            bad = {v["n"] for v, n in d.bad}
            for v in d.its.values():
                if v["n"] not in bad:
                    ctx.ok("lookup", "%s:%s" % (fn["q"], v["n"]), fn)
