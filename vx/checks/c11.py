"""C11: what is written depends on the input only, not on addresses, hashes of addresses, the clock or random numbers."""
import re
from .. import ir
from ..report import loc

CONT = re.compile(r"(?:const )?(?:std::|boost::)(?:__cxx11::)?(?:(?:unordered|container)_?:*)?(unordered_set|unordered_map|unordered_multiset|unordered_multimap|set|map|multiset|multimap|priority_queue)<")
SOURCES = re.compile(r"^(std::|boost::)?(.*::)?(rand|srand|random|drand48|rand_r|random_device|mt19937|tmpnam|tempnam|mkstemp|getpid|gettid|clock|time|times|now|gettimeofday|clock_gettime|localtime|gmtime|localtime_r|gmtime_r|universal_time|local_time|unique_path|random_generator|get_id|random_shuffle|shuffle)$")
SYSTEM = re.compile(r"^(std::|boost::|::)?[\w:<>, ]*$")


def targs(t):
    """top-level template arguments"""
    i = t.index("<")
    out, d, cur = [], 0, ""
    for ch in t[i + 1:]:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            if ch == ">" and d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def pointer(t):
    """a type whose comparison or hash is that of an address"""
    t = re.sub(r"^const |[ &]+$", "", (t or "").strip())
    if t.endswith("*") or t.endswith("*const"):
        return "char *" not in t.replace("const ", "")
    if re.match(r"(std|boost)::(shared|unique|weak)_ptr<|std::__shared_ptr", t):
        return True
    if re.match(r"std::(pair|tuple|vector|set|array|list)<", t):
        a = targs(t)
        return any(pointer(x) for x in (a if t.startswith(("std::pair", "std::tuple")) else a[:1]))
    return False


def by_address(t):
    """a container whose order is that of addresses"""
    m = CONT.match(t or "")
    if not m:
        return False
    a = targs(t)
    if not pointer(a[0]):
        return False
    kind = m.group(1)
    rest = a[2 if kind in ("map", "multimap", "unordered_map", "unordered_multimap") or kind == "priority_queue" else 1:]
    if not rest:
        return True
    return bool(re.match(r"std::(less|greater|hash|owner_less)<|boost::hash<", rest[0]))


ORDERLESS = {"insert", "emplace", "count", "find", "at", "size", "empty", "operator[]", "max", "min"}


def order_sensitive(P, body, seen=None, local=None):
    """a construct whose outcome depends on the order of the traversal, or None"""
    seen = set() if seen is None else seen
    local = {v["id"] for n in ir.nodes(body, "decl") for v in n["v"]} if local is None else local
    for n in ir.walk(body):
        k = n.get("k")
        if k == "return" or k == "throw":
            return n
        if k == "asg" and n.get("op") in ("=", "-=", "/=") and base(n["a"]) not in local:
            return n
        if k == "asg" and n.get("op") == "+=" and "basic_string" in (n["a"].get("t") or ""):
            return n
        if k == "call":
            q = n.get("q") or ""
            if n.get("op") == "<<" and "stream" in (n.get("t") or ""):
                b = n
                while b.get("k") == "call" and (b.get("o") or b.get("a")):
                    b = b.get("o") or b["a"][0]
                if b.get("q") in ("std::cout", "std::cerr", "std::clog"):
                    continue
                return n
            if q.startswith("std::") and n.get("n") in ("push_back", "emplace_back", "push_front", "push", "append") and base(n.get("o")) not in local:
                return n
            if q.startswith("vega::"):
                f = P.functions.get(n.get("id"))
                if f is None or f.get("const"):
                    continue
                if n["id"] in seen:
                    continue
                seen.add(n["id"])
                if "body" in f:
                    if n.get("cls") and base(n.get("o")) in local and not pointer((n.get("o") or {}).get("t")):
                        continue
                    if order_sensitive(P, f["body"], seen):
                        return n
                else:
                    return n
    return None


def base(n):
    while n is not None:
        if n.get("k") == "ref":
            return n.get("id")
        n = n.get("b") or n.get("o") or n.get("e")
    return None


def run(ctx):
    P = ctx.P
    ctx.rule("order", "no container ordered (or hashed) by addresses is traversed with an effect that depends on the order", 100)
    ctx.rule("comparison", "no order between entities is taken from their addresses: pointers are not compared by <, and sorts and ordered sets of pointers have a comparator", 10)
    ctx.rule("source", "no clock, random number, process number or temporary name is used (the Systus header shows the day of the translation)", 100)
    ctx.rule("address", "no address is written to a stream", 100)
    for fn in list(P.functions.values()):
        if "body" not in fn or not fn["q"].startswith("vega::") and fn["q"] != "main":
            continue
        short = fn["q"].replace("vega::", "")
        calls = {n.get("n") for n in ir.nodes(fn["body"], "call")}
        for n in ir.walk(fn["body"]):
            k = n.get("k")
            if k == "rfor":
                t = n.get("rt") or n["r"].get("t") or ""
                if by_address(t):
                    s = order_sensitive(P, n["body"] if "body" in n else n)
                    if s:
                        ctx.violation("order", "%s:%s" % (short, text(n["r"])), loc(fn, n), "%s traverses %s, which is ordered by addresses, and line %s depends on that order" % (short, text(n["r"]), s.get("l")), fn)
                        continue
                ctx.ok("order", "%s:%s" % (short, n["l"]), fn)
            elif k == "call":
                q, m = n.get("q") or "", n.get("n")
                o = n.get("o")
                if m in ("begin", "cbegin", "rbegin", "end", "rend", "crbegin") and o is not None and by_address(o.get("t")) and m in ("begin", "cbegin", "rbegin", "crbegin"):
                    ctx.violation("order", "%s:%s" % (short, text(o)), loc(fn, n), "%s takes the first of %s, which is ordered by addresses" % (short, text(o)), fn)
                if n.get("op") in ("<", ">", "<=", ">=") and any(pointer(x.get("t")) for x in (n.get("a") or [])):
                    ctx.violation("comparison", "%s:%s" % (short, n["op"]), loc(fn, n), "%s orders two pointers by their addresses" % short, fn)
                if m in ("sort", "stable_sort", "min_element", "max_element", "partial_sort", "nth_element", "lexicographical_compare") and q.startswith("std::"):
                    it = (n["a"][0].get("t") or "") if n.get("a") else ""
                    g = re.search(r"__normal_iterator<(.*?)\*", it)
                    if len(n["a"]) == 2 and g and pointer(g.group(1)):
                        ctx.violation("comparison", "%s:%s" % (short, m), loc(fn, n), "%s: %s of pointers without a comparator" % (short, m), fn)
                    else:
                        ctx.ok("comparison", "%s:%s" % (short, m), fn)
                if not q.startswith("vega::") and SOURCES.match(q) and "date" not in q.lower().split("::")[-1]:
                    if m in ("time", "localtime", "localtime_r", "gmtime", "gmtime_r") and "strftime" in calls and fn["f"].startswith("Systus/"):
                        ctx.ok("source", "%s:%s" % (short, m), fn)
                    else:
                        ctx.violation("source", "%s:%s" % (short, m), loc(fn, n), "%s uses %s" % (short, q), fn)
                if n.get("op") == "<<" and "stream" in (n.get("t") or "") and n.get("a"):
                    t = n["a"][-1].get("t") or ""
                    src = strip(n["a"][-1]).get("t") or ""
                    if address(t) or address(src) and "void" in t:
                        ctx.violation("address", "%s:%s" % (short, text(n["a"][-1])), loc(fn, n), "%s writes the address %s" % (short, text(n["a"][-1])), fn)
                    else:
                        ctx.ok("address", "%s:%s" % (short, n["l"]), fn)
            elif k == "bin" and n.get("op") in ("<", ">", "<=", ">="):
                ta, tb = n["a"].get("t"), n["b"].get("t")
                if pointer(ta) and pointer(tb) and not (ta or "").replace("const ", "").startswith("char"):
                    ctx.violation("comparison", "%s:%s" % (short, n["op"]), loc(fn, n), "%s orders two pointers by their addresses" % short, fn)
                else:
                    ctx.ok("comparison", "%s:%s" % (short, n["l"]), fn)
            elif k == "ctor":
                q = n.get("q") or ""
                if re.match(r"std::(random_device|mersenne_twister|linear_congruential)", q):
                    ctx.violation("source", "%s:%s" % (short, q), loc(fn, n), "%s uses %s" % (short, q), fn)
        ctx.ok("source", fn["q"], fn)


def address(t):
    t = t.replace("const ", "").strip()
    return t in ("void *",) or bool(re.match(r"std::(shared|unique|weak)_ptr<", t)) or t.endswith("*") and not re.match(r"(un)?(signed )?char \*|(\w+::)*basic_streambuf", t)


def strip(n):
    while n.get("k") in ("cast", "icast", "paren"):
        n = n["e"]
    return n


def text(n):
    n = strip(n)
    while n.get("k") == "call" and n.get("op") in ("->", "*", "[]") and n.get("o"):
        n = n["o"]
    return n.get("n") or n.get("k")
