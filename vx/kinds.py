"""Which classes are constructed with which kind (enumerator of a `type` attribute given by constructors)."""
from . import ir


def strip(n):
    while n is not None and (n.get("k") in ("icast", "paren", "defarg", "cast") or n.get("k") == "ctor" and n.get("cp") and n.get("a")):
        n = n["e"] if "e" in n else n["a"][0]
    return n


def value(e, env):
    e = strip(e)
    if e.get("k") == "ref":
        if e.get("dk") == "enumc":
            return {((e.get("t") or "").replace("const ", ""), e["n"])}
        return env.get(e.get("id"), set())
    if e.get("k") == "cond":
        return value(e["a"], env) | value(e["b"], env)
    return set()


def collect(P, f, env, out, d=0):
    if d > 8:
        return
    for i in f.get("inits", []):
        e = i.get("e")
        if not e:
            continue
        if i.get("field"):
            v = value(e, env)
            if v:
                out.setdefault(i["field"], set()).update(v)
        else:
            x = strip(e)
            g = P.functions.get(x.get("id"))
            if g is not None:
                en = {}
                for p, a in zip(g["p"], x.get("a") or []):
                    v = value(a, env)
                    if v:
                        en[p.get("id")] = v
                collect(P, g, en, out, d + 1)


def kinds(P):
    """{(enumeration, enumerator): {class: constructor}}"""
    if hasattr(P, "_kinds"):
        return P._kinds
    by = {}
    for f in P.functions.values():
        if f.get("kind") != "ctor" or "body" not in f or not (f.get("cls") or "").startswith("vega"):
            continue
        if len(f["p"]) == 1 and f["cls"] in f["p"][0]["t"]:
            continue
        out = {}
        collect(P, f, {}, out)
        for v in out.values():
            for e in v:
                by.setdefault(e, {})[f["cls"]] = f
    P._kinds = by
    return by


def derives(P, c, b):
    """c is b or derives from it"""
    todo, seen = [c], set()
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        cl = P.classes.get(x)
        if cl:
            todo += [(y if isinstance(y, str) else y.get("n") or y.get("t")) for y in cl["bases"]]
    return False
