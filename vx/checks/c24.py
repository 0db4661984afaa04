"""C24: identifiers and positions of nodes and cells are never taken for each other."""
import re
from .. import ir, units
from ..report import loc


def run(ctx):
    P = ctx.P
    ctx.rule("argument", "an argument of a call is in the numbering (node or cell, identifier or position) that the parameter stands for", 200)
    ctx.rule("stored", "an attribute or a container is given numbers of its own numbering only", 20)
    ctx.rule("compared", "numbers which are compared belong to the same numbering", 5)
    ctx.rule("answered", "a function answers in the numbering that it is named and typed for", 8)
    for fn in list(P.functions.values()):
        if "body" not in fn or not fn["q"].startswith("vega::"):
            continue
        fl = units.Flow(P, fn)
        own = units.returned({"n": fn["n"], "t": fn.get("r"), "rs": fn.get("rs")}) if units.numeric(fn.get("r")) else None
        for b in fl.bodies:
            lam = {id(y) for x in ir.nodes(b, "lambda") for y in ir.walk(x)}
            for n in ir.walk(b):
                check(ctx, P, fn, fl, n, own if id(n) not in lam else None)


def check(ctx, P, fn, fl, n, own):
    k = n.get("k")

    def put(rule, inst, have, want, what, at):
        if have is None or want is None:
            return
        if units.compatible(have, want):
            ctx.ok(rule, inst, fn)
        else:
            ctx.violation(rule, "%s:%s" % (fn["q"].replace("vega::", ""), inst), loc(fn, at), "%s: %s is %s, but %s is given" % (fn["q"].replace("vega::", ""), what, units.say(want), units.say(have)), fn)
    if k in ("call", "ctor"):
        f = P.functions.get(n.get("id"))
        ps = f["p"] if f else []
        args = n.get("a") or []
        if k == "call" and n.get("o") is not None and args and n.get("n") in ("operator[]", "at", "find", "count", "erase"):
            ku = units.key_unit(n["o"])
            if ku:
                put("argument", "%s[key]" % units.text(n["o"]), fl.unit(args[0]), ku, "the key of " + units.text(n["o"]), n)
        if f and f["q"].startswith("vega::"):
            for p, a in zip(ps, args):
                put("argument", "%s.%s" % (f["q"].split("::")[-1], p["n"]), fl.unit(a), units.declared(p), "parameter %s of %s" % (p["n"], f["q"].replace("vega::", "")), n)
        elif k == "call" and n.get("o") is not None and n.get("n") in ("push_back", "insert", "emplace_back", "emplace", "find", "count", "erase", "push_front"):
            for a in args[-1:]:
                put("stored", "%s.%s" % (units.text(n["o"]), n["n"]), fl.unit(a), fl.unit(n["o"]), units.text(n["o"]), n)
    elif k == "asg" and n.get("op") == "=" and n["a"]["k"] == "mem":
        put("stored", units.text(n["a"]), fl.unit(n["b"]), fl.target(n["a"]), units.text(n["a"]), n)
    elif k == "bin" and n.get("op") in ("==", "!=", "<", ">", "<=", ">="):
        put("compared", "%s %s %s" % (units.text(n["a"]), n["op"], units.text(n["b"])), fl.unit(n["b"]), fl.unit(n["a"]), units.text(n["a"]), n)
    elif k == "return" and n.get("e") is not None:
        put("answered", fn["n"], fl.unit(n["e"]), own, "the answer of " + fn["n"], n)
