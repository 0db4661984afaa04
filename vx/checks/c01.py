"""C01: cloning keeps the concrete type and all the data."""
from .. import absint, ir
from ..absint import Domain, Interp, State, show, flat
from ..report import loc


class D(Domain):
    def inline(self, I, fn):
        return True

    def value_ctor(self, I, cls):
        return not cls.startswith("vega::")


def all_fields(P, c):
    out = []
    for k in [c] + P.bases(c):
        for f in (P.classes.get(k) or {"fields": []})["fields"]:
            out.append((k, f))
    return out


# fields which identify the object inside a model and may legitimately be reset by a copy
IDENTITY = {"id", "original_id", "bestId", "_id"}


def run(ctx):
    P = ctx.P
    ctx.rule("own-clone", "every concrete class of a cloneable family declares its own clone operation (otherwise a copy decays to its base type)", 30)
    ctx.rule("exact-copy", "clone returns, on every path, an object of exactly the class it is called on, built by copying *this with every attribute equal to the original's", 30)
    ctx.rule("copy-ctor", "a user written copy constructor/assignment of a model class copies every data member and base", 1)
    fams = set()
    for c, C in P.classes.items():
        for m in C["methods"]:
            if m["n"] == "clone" and not m["p"]:
                fams.add(c)
    ctx.need(len(fams) >= 5, "classes with a clone operation")
    seen = set()
    for root in sorted(fams):
        for c in sorted([root] + P.derived(root)):
            C = P.classes[c]
            if c in seen or C.get("abstract"):
                continue
            seen.add(c)
            owner, m = P.final_overrider(c, "clone", 0)
            if owner != c:
                ctx.violation("own-clone", c, "%s:%s" % (C["f"], C["l"]), "%s inherits clone() from %s: a clone of it is not a %s" % (c, owner, c))
                continue
            ctx.ok("own-clone", c)
            fn = P.functions.get(m["id"])
            if fn is None or "body" not in fn:
                continue  # declared, never defined: it cannot be called
            I = Interp(P, D())
            st = State()
            this = ("obj", ("this", (), ()), c)
            fields = all_fields(P, c)
            end, rets = I.run(fn, [], st, this=this)
            probs = []
            rets = [(s, v) for s, v in rets if v is not None]
            if not rets:
                probs.append("no path returns a clone")
            for s, v in rets:
                for t in flat(v):
                    if t[0] != "obj" or t == this:
                        probs.append("returns %s, which is not a fresh copy" % show(t))
                        continue
                    if t[2] != c:
                        probs.append("returns a %s" % t[2])
                        continue
                    evs = [e for e in I.events if e.kind == "new" and e.recv == t]
                    copied = any(len(e.args) == 1 and e.args[0] == this for e in evs)
                    fldval = {}
                    for k, f in fields:
                        key = (t, f["n"])
                        if key in s.heap:
                            if s.heap[key] != ("fld", this, f["n"]) and f["n"] not in IDENTITY:
                                probs.append("attribute %s of the copy is %s" % (f["n"], show(s.heap[key])))
                        elif not copied and f["n"] not in IDENTITY:
                            probs.append("attribute %s is not copied" % f["n"])
                    for e in I.events:
                        if e.kind == "call" and e.recv == t and I.mutates(e.node, P.functions.get(e.node.get("id"))) and e.node.get("n") not in ("resetId", "markAsWritten"):
                            probs.append("the copy is modified by %s" % e.name)
            if probs:
                ctx.violation("exact-copy", c, loc(fn), "%s::clone: %s" % (c, "; ".join(sorted(set(probs))[:4])), fn)
            else:
                ctx.ok("exact-copy", c, fn)
    # user provided copy operations of classes under /repo
    for c, C in sorted(P.classes.items()):
        for m in C["methods"]:
            iscc = m.get("kind") == "copyctor"
            isas = m["n"] == "operator=" and len(m["p"]) == 1 and m["p"][0]["t"].replace("const ", "").rstrip(" &") == c
            if not (iscc or isas) or not m.get("user") or m.get("deleted"):
                continue
            fn = P.functions.get(m["id"])
            if fn is None or "body" not in fn:
                continue
            I = Interp(P, D())
            this = ("obj", ("this", (), ()), c)
            other = ("sym", "other")
            st = State()
            missing = []
            if iscc:
                st.env[fn["p"][0]["id"]] = other
                st.env["this"] = this
                I.frames.append(absint.Frame(fn))
                I.run_ctor(fn, this, [other], st, {"l": fn["l"]})
                finals = [st]
                for b in C["bases"]:
                    inits = [i for i in fn.get("inits", ()) if i.get("base") == b]
                    B = P.classes.get(b)
                    if B and any(all_fields(P, b)) and not any(i.get("e") and any(x.get("k") == "ref" and x.get("dk") == "parm" for x in ir.walk(i["e"])) for i in inits):
                        missing.append("base " + b)
            else:
                end, rets = I.run(fn, [other], st, this=this)
                finals = [s for s, _ in rets] + ([end] if end else [])
            for f in C["fields"]:
                for s in finals:
                    v = s.heap.get((this, f["n"]))
                    ls = absint.leaves(v) if v is not None else ()
                    if not any(absint.contains(x, ("fld", other, f["n"])) for x in ls):
                        # arrays / containers copied element by element
                        if not any(k[0] == ("fld", this, f["n"]) for k in s.heap if isinstance(k, tuple)):
                            missing.append(f["n"])
            if missing:
                ctx.violation("copy-ctor", "%s:%s" % (c, m["n"]), loc(fn), "%s does not copy %s" % (fn["q"], ", ".join(sorted(set(missing)))), fn)
            else:
                ctx.ok("copy-ctor", c + "::" + m["n"], fn)
