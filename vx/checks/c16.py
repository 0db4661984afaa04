"""C16: unsupported or malformed input is reported, never silently dropped."""
import json
from .. import facts, nastran
from ..report import loc
from . import c03


def run(ctx):
    P = ctx.P
    ctx.rule("reported", "for every card, a warning (which strict mode turns into an error) or an error is issued under exactly the conditions confirmed for that card", 60)
    frozen = json.load(open(c03.TABLE))
    cur, g = c03.current(P)
    ctx.need(len(cur) >= 60, "keyword dispatch table of the reader (%d handlers resolved)" % len(cur))
    done = set()
    for kw, fz in frozen.items():
        if kw not in cur:
            continue
        cf, where, fn = cur[kw]
        if fn["q"] in done:
            continue
        done.add(fn["q"])
        for kind in ("warning", "error"):
            a, b = fz["diag"].get(kind), cf["diag"].get(kind)
            if a is None and b is None:
                continue
            if a != b:
                lost = [x for x in (a or []) if x not in (b or [])]
                new = [x for x in (b or []) if x not in (a or [])]
                msg = []
                if b is None:
                    msg.append("the %s is no longer issued" % kind)
                if lost:
                    msg.append("no %s any more when [%s]" % (kind, " | ".join(lost)[:300]))
                if new or (a and not b == a and not lost):
                    msg.append("%s issued when [%s]" % (kind, " | ".join(new or b or [])[:300]))
                ctx.violation("reported", "%s:%s" % (kw, kind), where.get("diag:" + kind) or loc(fn), "card %s: %s" % (kw, "; ".join(msg)), fn)
            else:
                ctx.ok("reported", "%s %s" % (kw, kind), fn)
