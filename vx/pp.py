"""C-like printing of IR nodes (reports and debugging)."""


def E(n):
    if n is None:
        return "<none>"
    k = n["k"]
    if k in ("int", "float", "char"):
        return repr(n["v"])
    if k == "str":
        return '"' + n["v"].replace("\n", "\\n") + '"'
    if k == "bool":
        return "true" if n["v"] else "false"
    if k == "null":
        return "nullptr"
    if k == "this":
        return "this"
    if k == "ref":
        return n.get("q") if n.get("dk") in ("enumc", "global", "fn") else n["n"]
    if k == "mem":
        return E(n["b"]) + ("->" if n.get("arrow") else ".") + n["n"]
    if k == "call":
        a = ", ".join(E(x) for x in n["a"])
        if "op" in n:
            if "o" in n:
                if n["op"] == "[]":
                    return "%s[%s]" % (E(n["o"]), a)
                if n["op"] == "()":
                    return "%s(%s)" % (E(n["o"]), a)
                if not n["a"]:
                    return "%s%s" % (n["op"], E(n["o"]))
                return "%s %s %s" % (E(n["o"]), n["op"], a)
            return (" %s " % n["op"]).join(E(x) for x in n["a"])
        if "o" in n:
            return "%s%s%s(%s)" % (E(n["o"]), "->" if n.get("arrow") else ".", n.get("n", "?"), a)
        if "ptm" in n:
            return "(%s)(%s)" % (E(n["ptm"]), a)
        if "q" in n:
            q = n["q"]
            if n.get("ta") and q.startswith("std::") :
                q += "<" + ",".join(n["ta"][:1]) + ">"
            return "%s(%s)" % (q, a)
        return "(%s)(%s)" % (E(n.get("callee")), a)
    if k == "ctor":
        if n.get("cp") and len(n["a"]) == 1:
            return E(n["a"][0])
        return "%s{%s}" % (n["q"], ", ".join(E(x) for x in n["a"]))
    if k in ("defarg",):
        return "/*def*/" + E(n["e"])
    if k == "definit":
        return "/*init*/" + E(n["e"])
    if k == "un":
        return (E(n["e"]) + n["op"]) if n.get("post") else n["op"] + E(n["e"])
    if k in ("bin", "asg"):
        return "(%s %s %s)" % (E(n["a"]), n["op"], E(n["b"]))
    if k == "cond":
        return "(%s ? %s : %s)" % (E(n["c"]), E(n["a"]), E(n["b"]))
    if k == "sub":
        return "%s[%s]" % (E(n["b"]), E(n["i"]))
    if k == "icast":
        return E(n["e"])
    if k == "cast":
        return "(%s)%s" % (n["ts"], E(n["e"]))
    if k == "init":
        return "{%s}" % ", ".join(E(x) for x in n["a"])
    if k == "lambda":
        return "[lambda]"
    if k == "new":
        return "new %s(%s)" % (n["t"], E(n.get("e")) if n.get("e") else "")
    if k == "del":
        return "delete " + E(n["e"])
    if k == "throw":
        return "throw " + (E(n["e"]) if n.get("e") else "")
    if k == "zero":
        return "{}"
    return "<%s %s>" % (k, n.get("cls", ""))


def S(n, ind=0):
    p = "  " * ind
    if n is None:
        return p + ";\n"
    k = n["k"]
    L = "%s/*%s*/ " % (p, n.get("l", ""))
    if k == "expr":
        return L + E(n["e"]) + ";\n"
    if k == "block":
        return "".join(S(x, ind) for x in n["s"])
    if k == "decl":
        return "".join(L + "%s %s%s;\n" % (v["ts"] or v["t"], v["n"], " = " + E(v["init"]) if v.get("init") else "") for v in n["v"])
    if k == "if":
        s = (S(n["init"], ind) if n.get("init") else "") + L + "if (%s)\n" % E(n["c"]) + S(n["a"], ind + 1)
        if n.get("b"):
            s += p + "else\n" + S(n["b"], ind + 1)
        return s
    if k == "for":
        return (S(n.get("init"), ind) if n.get("init") else "") + L + "for (;%s;%s)\n" % (E(n.get("c")) if n.get("c") else "", E(n.get("inc")) if n.get("inc") else "") + S(n["body"], ind + 1)
    if k == "rfor":
        return L + "for (%s : %s)\n" % (n["v"]["n"], E(n["r"])) + S(n["body"], ind + 1)
    if k in ("while", "do", "switch"):
        return L + "%s (%s)\n" % (k, E(n["c"])) + S(n["body"], ind + 1)
    if k == "case":
        return L + "case %s:\n" % E(n["v"]) + S(n["s"], ind + 1)
    if k == "default":
        return L + "default:\n" + S(n["s"], ind + 1)
    if k == "return":
        return L + "return %s;\n" % (E(n["e"]) if n.get("e") else "")
    if k == "try":
        s = L + "try\n" + S(n["body"], ind + 1)
        for h in n["h"]:
            s += p + "catch (%s)\n" % h.get("t", "...") + S(h["body"], ind + 1)
        return s
    return L + k + ";\n"


def F(f):
    s = "%s:%s %s %s(%s)\n" % (f["f"], f["l"], f["r"], f["q"], ", ".join("%s %s" % (p["t"], p["n"]) for p in f["p"]))
    for i in f.get("inits", ()):
        if i.get("written"):
            s += "   : %s(%s)\n" % (i.get("field") or i.get("base"), E(i.get("e")))
    return s + (S(f["body"], 1) if "body" in f else "")
