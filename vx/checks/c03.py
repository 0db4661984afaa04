"""C03: every card of the Nastran/Optistruct bulk data is read field by field into the right attribute."""
import json, os
from .. import absint, facts, ir, loops, nastran
from ..report import loc

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tables", "c03.json")


def current(P):
    tab, g = nastran.keyword_table(P)
    out, cache, where = {}, {}, {}
    for kw, h, l in tab:
        fn = P.functions.get(h)
        if fn is None or "body" not in fn:
            continue
        if h not in cache:
            F = nastran.card_facts(P, fn)
            cache[h] = (F.freeze(), F.where, fn)
        out[kw] = cache[h]
    return out, g


def freeze(P):
    cur, g = current(P)
    return {kw: f for kw, (f, w, fn) in sorted(cur.items())}


def run(ctx):
    P = ctx.P
    ctx.rule("keyword", "every supported card keyword is dispatched to a handler", 80)
    ctx.rule("field", "each attribute of the entities a card creates receives exactly the fields (position, kind, default), signs and enumerators confirmed for that card", 600)
    ctx.rule("condition", "the conditions under which a field is used are those confirmed for that card", 80)
    frozen = json.load(open(TABLE))
    cur, g = current(P)
    ctx.need(len(cur) >= 60, "keyword dispatch table of the reader (%d handlers resolved)" % len(cur))
    done = {}
    for kw, fz in frozen.items():
        if kw not in cur:
            ctx.violation("keyword", kw, "%s:%s" % (g["f"], g["l"]), "card %s is no longer read" % kw)
            continue
        ctx.ok("keyword", kw)
        cf, where, fn = cur[kw]
        n = 0
        for rule, key, msg, sink in facts.compare(fz, cf):
            k = "%s:%s" % (fn["q"], key)
            if k in done:
                continue
            done[k] = 1
            ctx.violation("condition" if rule in ("guard", "select") else "field", "%s:%s" % (kw, key), where.get(sink) or loc(fn), "card %s: %s" % (kw, msg), fn)
        for s in fz["sinks"]:
            ctx.ok("field", "%s %s" % (kw, s), fn)
        ctx.ok("condition", "%s (%d conditional facts)" % (kw, sum(1 for d in fz["sinks"].values() for gg in d.values() if gg) + len(fz["sel"])))
    handlers = {fn["id"] for kw, (f, w, fn) in cur.items()}
    loops.check(ctx, lambda fn: fn["id"] in handlers)
