"""C02: scaling a load (or a value) multiplies each magnitude exactly once by the factor,
touches nothing else and is never silently ignored."""
from .. import absint, ir
from ..absint import Domain, Interp, State, show, flat, leaves
from ..report import loc

FACTOR = ("sym", "factor")


class D(Domain):
    prewiden = True

    def inline(self, I, fn):
        return True

    def value_ctor(self, I, cls):
        return True

    def inline(self, I, fn):
        return not fn["q"].startswith(("vega::Model::", "vega::Mesh::"))

    def call(self, I, st, n, q, recv, args):
        # ublas/valarray element access, std algorithms with a lambda
        if q == "std::transform" and len(args) == 4 and args[3][0] == "lam":
            src, dst = args[0], args[2]
            el = I.elem_of(src[1], I.content(src[1], st), None) if src[0] == "iter" else ("elem", src)
            v = I.call_lambda(args[3], [el], n, st)
            if dst[0] == "app" and dst[1] in ("std::inserter", "std::back_inserter", "std::front_inserter") and dst[2][0][0] == "obj":
                I.push(st, dst[2][0], v)
            elif dst[0] == "iter":
                I.store(("E", dst[1], None), v, st, n) if dst[1][0] != "fld" else st.heap.__setitem__((dst[1], "[]", None), v)
            else:
                I.event("insertover", "transform", dst, (src, v), n)
            return dst
        return None


def magnitude_sites(P, ctx):
    return ctx


# attributes which are magnitudes, per class (confirmed by reading): scaling must multiply each exactly once
MAGNITUDES = {
    "vega::Gravity": ["scalingFactor"],
    "vega::RotationCenter": ["speed"],
    "vega::RotationNode": ["speed"],
    "vega::ImposedDisplacement": ["displacements"],
    "vega::NodalForce": ["force", "moment"],
    "vega::NodalForceTwoNodes": ["magnitude"],
    "vega::NodalForceFourNodes": ["magnitude"],
    "vega::StaticPressure": ["magnitude"],
    "vega::ForceSurface": ["force", "moment"],
    "vega::ForceLine": ["force"],
    "vega::NormalPressionFace": ["intensity"],
    "vega::NormalPressionShell": ["intensity"],
    "vega::InitialTemperature": ["temperature"],
    "vega::DynamicExcitation": ["functionTableB"],
    "vega::ConstantValue": ["value"],
    "vega::ScalarValue<double>": ["number"],
    "vega::FunctionTable": ["valuesXY"],
    "vega::VectorialFunction": ["_fx", "_fy", "_fz"],
    "vega::VectorialValue": ["value"],
    "vega::ListValue<double>": ["alist"],
    "vega::SetValue<double>": ["aset"],
    "vega::SetValue<int>": ["aset"],
}


def root_field(t, this):
    """this.<f>... -> f"""
    while True:
        if t == this:
            return None
        if t[0] == "fld":
            if t[1] == this:
                return t[2]
            t = t[1]
        elif t[0] in ("elem", "iter"):
            t = t[1]
        elif t[0] == "app" and t[2]:
            rs = [root_field(x, this) for x in t[2]]
            rs = [r for r in rs if r and r != "model"]
            return rs[0] if rs else None
        elif t[0] == "any":
            rs = sorted(r for r in (root_field(x, this) for x in t[1]) if r)
            return rs[0] if rs else None
        else:
            return None


def power(t, orig):
    """exponents of the factor with which `orig` occurs in t; None when t is something else"""
    if t == orig:
        return {0}
    if t[0] == "any":
        out = set()
        for x in t[1]:
            p = power(x, orig)
            if p is None:
                return None
            out |= p
        return out
    if t[0] == "op" and t[1] == "*":
        a, b = t[2]
        if a == FACTOR:
            a, b = b, a
        if b == FACTOR:
            p = power(a, orig)
            return None if p is None else {x + 1 for x in p}
    if t[0] in ("bag", "list"):
        out = set()
        for x in t[1]:
            p = power(x, ("elem", orig))
            if p is None:
                p = power(x, orig)
            if p is None:
                return None
            out |= p
        return out or None
    if t[0] == "mix" and t[1] <= leaves(orig) | {FACTOR}:
        return {1, 2, 3}
    return None


def nothing_to_scale(a, f):
    """the negation of atom a says that attribute f is zero, empty or unavailable"""
    if a[0] in ("or", "and") and isinstance(a[1], frozenset):
        return all(nothing_to_scale(x, f) for x in a[1])
    t, pol = a
    if f is None or ("this.%s" % f) not in t:
        return False
    zero = any(w in t for w in ("is_zero(", "iszero(", "isEmpty(", "UNAVAILABLE", "== 0"))
    if zero:
        return not pol
    return pol      # a pointer/size test of the attribute itself, or a test of its elements


def analyse(ctx, cls, fn):
    """{location: exponents} for every attribute the scale operation changes"""
    P = ctx.P
    I = Interp(P, D())
    this = ("sym", "this")
    st = State()
    end, rets = I.run(fn, [FACTOR], st, this=this)
    finals = [s for s, _ in rets] + ([end] if end else [])
    res, odd = {}, []
    for s in finals:
        for k, v in s.heap.items():
            base, name = k[0], k[1]
            if name in ("#", "#copyof"):
                continue
            if name == "[]":
                orig = I.elem_of(base, ("elem", base), k[2])
            else:
                orig = ("fld", base, name)
            r = name if base == this else root_field(base, this)
            p = power(v, orig)
            res.setdefault(r, []).append(p)
            if p is None:
                odd.append("%s becomes %s" % (show(orig), show(v)))
    # scaled only under some condition: fine when the condition says that there is nothing to scale in that attribute
    part = {}
    heapf = {}
    for s in finals:
        for k, v in s.heap.items():
            if k[1] in ("#", "#copyof"):
                continue
            r = k[1] if k[0] == this else root_field(k[0], this)
            orig = ("fld", k[0], k[1]) if k[1] != "[]" else None
            heapf.setdefault(r, []).append((orig, v))
    for f, ov in heapf.items():
        pcs = [s.pc for s in finals if not any((k[1] if k[0] == this else root_field(k[0], this)) == f for k in s.heap if k[1] not in ("#", "#copyof"))]
        for orig, v in ov:
            if orig is not None and v[0] == "any" and 0 in (power(v, orig) or ()):
                pcs += [pc for x, pc in I.selects if x == orig]
        for pc in pcs:
            bad = [a for a in pc if not nothing_to_scale(absint.neg(a), f)]
            # the atoms which make the difference are those which are not met on the scaling path
            if len(bad) == len(pc) and pc:
                part.setdefault(f, set()).add(" and ".join(sorted(absint.atom_text(a) for a in pc)))
    for e in I.events:
        if e.kind == "call" and e.name.endswith("::scale") and e.recv is not None:
            r = root_field(e.recv, this)
            bad = [a for a in e.pc if not nothing_to_scale(a, r)]
            if bad:
                part.setdefault(r, set()).add("unless " + " and ".join(sorted(absint.atom_text(a) for a in bad)))
    I.partial = part
    for e in I.events:
        if e.kind == "call" and e.name.endswith("::scale") and e.recv is not None:
            r = root_field(e.recv, this)
            if e.args and e.args[0] == FACTOR:
                res.setdefault(r, []).append({1})
            else:
                odd.append("%s scaled by %s" % (show(e.recv), show(e.args[0]) if e.args else "?"))
        if e.kind == "insertover":
            r = root_field(e.args[0], this)
            res.setdefault(r, []).append(None)
            odd.append("scaled values of %s are inserted next to the unscaled ones" % r)
    return I, finals, res, odd


def run(ctx):
    P = ctx.P
    ctx.rule("scaled-once", "the scale operation of a load/value class multiplies each magnitude attribute by the factor exactly once on every path (frozen table of magnitudes) and changes no other attribute", 15)
    ctx.rule("loud", "a concrete class whose scale operation changes nothing refuses loudly (throws) instead of dropping the factor", 1)
    ctx.rule("private-data", "a scale operation only modifies data owned by the object itself, not data reached through a shared pointer or looked up in the model (cloned loads share those with the original)", 15)
    fams = set()
    for c, C in P.classes.items():
        for m in C["methods"]:
            if m["n"] == "scale" and len(m["p"]) == 1 and m.get("virtual"):
                fams.add(c)
    roots = [c for c in fams if not any(b in fams for b in P.bases(c))]
    ctx.need(any(c == "vega::Loading" for c in roots) and any(c == "vega::Value" for c in roots), "scale() of Loading and Value")
    for root in sorted(roots):
        for c in sorted([root] + P.derived(root)):
            C = P.classes[c]
            if C.get("abstract"):
                continue
            owner, m = P.final_overrider(c, "scale", 1)
            fn = P.functions.get(m["id"])
            if fn is None or "body" not in fn:
                # method of a class template that is never instantiated
                continue
            want = MAGNITUDES.get(owner)
            I, finals, res, odd = analyse(ctx, owner, fn)
            if not finals:
                ctx.ok("loud", c + " (throws)", fn)
                continue
            if want is None:
                if C.get("q") == "vega::SetValueAll" or owner == "vega::SetValueAll":
                    continue   # the set of everything has no magnitude
                if not res:
                    ctx.violation("loud", c, loc(fn), "scaling a %s silently does nothing" % c, fn)
                else:
                    bad = [f for f, ps in res.items() if any(p is None or max(p) > 1 for p in ps)]
                    if bad:
                        ctx.violation("scaled-once", "%s.%s" % (c, bad[0]), loc(fn), "%s of %s: %s" % (bad[0], c, "; ".join(odd) or "multiplied more than once"), fn)
                continue
            for f in want:
                key = "%s.%s" % (c, f)
                ps = res.get(f)
                if not ps:
                    ctx.violation("scaled-once", key, loc(fn), "scaling a %s leaves its %s unchanged" % (c, f), fn)
                elif any(p is None for p in ps):
                    ctx.violation("scaled-once", key, loc(fn), "scaling a %s: %s" % (c, "; ".join(odd)), fn)
                elif any(max(p) > 1 for p in ps):
                    ctx.violation("scaled-once", key, loc(fn), "scaling a %s may multiply its %s several times by the factor" % (c, f), fn)
                elif I.partial.get(f):
                    ctx.violation("scaled-once", key, loc(fn), "scaling a %s does not multiply its %s in every case: %s" % (c, f, "; ".join(sorted(I.partial[f]))[:300]), fn)
                elif not all(1 in p for p in ps):
                    ctx.violation("scaled-once", key, loc(fn), "scaling a %s does not multiply its %s" % (c, f), fn)
                else:
                    ctx.ok("scaled-once", key, fn)
            for f in res:
                if f not in want:
                    ctx.violation("scaled-once", "%s.%s" % (c, f), loc(fn), "scaling a %s also changes %s" % (c, f), fn)
            # ownership of what is modified
            fields = {f["n"]: f for k in [c] + P.bases(c) for f in P.classes[k]["fields"]} if True else {}
            for f in res:
                t = (fields.get(f) or {"t": ""})["t"]
                if "shared_ptr<" in t or t.endswith("*") or "Reference<" in t:
                    ctx.violation("private-data", "%s.%s" % (c, f), loc(fn), "scaling a %s modifies the object behind its %s, which clones (and other users) of the load share" % (c, f), fn)
                else:
                    ctx.ok("private-data", "%s.%s" % (c, f), fn)
