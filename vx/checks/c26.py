"""C26: the conventions about the nodes of cells agree wherever they are stated."""
from .. import consts
from ..consts import Folder, Unknown, table

# faces (outwards, corners from 1) and middle nodes by edge of the Nastran cells (Quick Reference Guide); Systus numbers the
# corners in the same way, each middle node right after the first corner of its edge, vertical edges between the two levels
FACES = {
    "TETRA": [(1, 3, 2), (1, 2, 4), (2, 3, 4), (3, 1, 4)],
    "PYRA": [(1, 4, 3, 2), (1, 2, 5), (2, 3, 5), (3, 4, 5), (4, 1, 5)],
    "PENTA": [(1, 3, 2), (4, 5, 6), (1, 2, 5, 4), (2, 3, 6, 5), (3, 1, 4, 6)],
    "HEXA": [(1, 4, 3, 2), (5, 6, 7, 8), (1, 2, 6, 5), (2, 3, 7, 6), (3, 4, 8, 7), (4, 1, 5, 8)],
}
LEVELS = {"SEG": [2], "TRI": [3], "QUAD": [4], "TETRA": [3, 1], "PYRA": [4, 1], "PENTA": [3, 3], "HEXA": [4, 4]}
CORNERS = {"SEG": 2, "TRI": 3, "QUAD": 4, "TETRA": 4, "PYRA": 5, "PENTA": 6, "HEXA": 8}


def rings(shape):
    """edges of the levels and between them, from 1: [bottom], [vertical], [top]"""
    L = LEVELS[shape]
    if shape == "SEG":
        return [[(1, 2)], [], []]
    n = L[0]
    bottom = [(i + 1, (i + 1) % n + 1) for i in range(n)]
    if len(L) == 1:
        return [bottom, [], []]
    if L[1] == 1:
        return [bottom, [(i + 1, n + 1) for i in range(n)], []]
    return [bottom, [(i + 1, n + i + 1) for i in range(n)], [(n + a, n + b) for a, b in bottom]]


def nastran(shape, n):
    """{local number: corner or edge} of the Nastran convention"""
    c = CORNERS[shape]
    r = {i: i for i in range(1, c + 1)}
    if n > c:
        edges = [e for g in rings(shape) for e in g]
        for i, e in enumerate(edges[:n - c]):
            r[c + i + 1] = e
        if len(edges) < n - c:
            for i in range(len(edges), n - c):
                r[c + i + 1] = "centre"
    return r


def systus(shape, n):
    c = CORNERS[shape]
    if n == c:
        return {i: i for i in range(1, c + 1)}
    b, v, t = rings(shape)
    seq = []
    for e in b:
        seq += [e[0], e]
    if shape == "SEG":
        seq += [2]
    seq += v
    if t:
        for e in t:
            seq += [e[0], e]
    elif v:
        seq += [c]
    return {i + 1: x for i, x in enumerate(seq)}


def rot(t):
    """a cycle, without its starting point"""
    t = list(t)
    i = t.index(min(t))
    return tuple(t[i:] + t[:i])


def shape_of(name):
    s = name.rstrip("0123456789")
    return s if s in CORNERS else None


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield from walk(v)


def strip(n):
    while n is not None and n.get("k") in ("cast", "icast", "paren"):
        n = n["e"]
    return n


def sub(n):
    """(container, index) of a subscript"""
    n = strip(n)
    if n is not None and n.get("k") == "call" and (n.get("op") == "[]" or n.get("n") == "at") and n.get("a"):
        if n.get("o") is not None:
            return n["o"], n["a"][0]
        if len(n["a"]) == 2:
            return n["a"][0], n["a"][1]
    if n is not None and n.get("k") == "idx":
        return n["a"], n["b"]
    return None


class Use:
    """how a table is applied: 'scatter' (x[T[i]] = y[i]) or 'gather' (x[i] = y[T[i]])"""

    def __init__(self, P, gid):
        self.P, self.gid, self.modes, self.seen = P, gid, set(), set()
        for fn in P.functions.values():
            if fn.get("body") and any(n.get("k") == "ref" and n.get("id") == gid for n in walk(fn["body"])):
                self.scan(fn, set())

    def derived(self, n, D):
        return any(x.get("k") == "ref" and (x.get("id") == self.gid or x.get("id") in D) for x in walk(n))

    def scan(self, fn, start):
        key = (fn["id"], frozenset(start))
        if key in self.seen:
            return
        self.seen.add(key)
        D, elems = set(start), set()
        body = fn["body"]
        while True:
            n0 = len(D) + len(elems)
            for n in walk(body):
                if n.get("k") == "decl":
                    for v in n["v"] if isinstance(n["v"], list) else [n["v"]]:
                        if v.get("init") is not None:
                            if self.entry(v["init"], D, elems):
                                elems.add(v["id"])
                            elif self.holds(v["init"], D):
                                D.add(v["id"])
                elif n.get("k") == "rfor":
                    r = n.get("r") or n.get("range") or n.get("c")
                    if r is not None and self.holds(r, D):
                        elems.add(n["v"]["id"])
                elif n.get("k") == "asg" and strip(n["a"]).get("k") == "ref" and self.holds(n["b"], D):
                    D.add(strip(n["a"])["id"])
            if len(D) + len(elems) == n0:
                break
        for n in walk(body):
            if n.get("k") == "asg":
                s = sub(n["a"])
                if s and self.entry(s[1], D, elems):
                    self.modes.add("scatter")
                for x in walk(n["b"]):
                    s = sub(x)
                    if s and not self.holds(s[0], D) and self.entry(s[1], D, elems):
                        self.modes.add("gather")
            elif n.get("k") == "call":
                s = sub(n)
                if s is None:
                    for a in n.get("a") or []:
                        for x in walk(a):
                            s = sub(x)
                            if s and not self.holds(s[0], D) and self.entry(s[1], D, elems):
                                self.modes.add("gather")
                f2 = self.P.functions.get(n.get("id"))
                if f2 is not None and f2.get("body") and f2["f"].startswith(tuple(x + "/" for x in ("Nastran", "Systus", "Abstract", "Aster", "Optistruct"))):
                    st = {p["id"] for p, a in zip(f2.get("p") or [], n.get("a") or []) if self.holds(a, D)}
                    if st:
                        self.scan(f2, st)
            elif n.get("k") == "decl":
                for v in n["v"] if isinstance(n["v"], list) else [n["v"]]:
                    for x in walk(v.get("init")) if v.get("init") is not None else ():
                        s = sub(x)
                        if s and not self.holds(s[0], D) and self.entry(s[1], D, elems):
                            self.modes.add("gather")

    def holds(self, n, D):
        """the table, an iterator to one of its rows, or a row"""
        n = strip(n)
        k = n.get("k")
        if k == "ref":
            return n.get("id") == self.gid or n.get("id") in D
        if k == "mem":
            return self.holds(n["b"], D)
        if k == "ctor":
            return len([a for a in n["a"] if a.get("k") != "defarg"]) == 1 and self.holds(n["a"][0], D)
        if k == "un":
            return self.holds(n["e"], D)
        if k == "call" and (n.get("n") in ("find", "at", "operator->", "operator*", "second") or n.get("op") in ("->", "*", "[]")):
            o = n.get("o") or (n["a"][0] if n.get("a") else None)
            t = (n.get("t") or "")
            return o is not None and self.holds(o, D) and not t.replace("const ", "").strip() in ("int", "unsigned int", "unsigned long")
        return False

    def entry(self, n, D, elems):
        """one number of a row"""
        n = strip(n)
        if n.get("k") == "ref":
            return n.get("id") in elems
        if n.get("k") in ("bin",):
            return self.entry(n["a"], D, elems) or self.entry(n["b"], D, elems)
        s = sub(n)
        if s:
            return self.holds(s[0], D)
        if n.get("k") in ("un",) or n.get("k") == "call" and n.get("op") == "*":
            return False
        return False


def run(ctx):
    P = ctx.P
    F = Folder(P)
    ctx.rule("type", "the number of nodes and the dimension of a cell type are those of its MED code, its description is its name, no two types share a code", 30)
    ctx.rule("face", "the faces of a cell type close up: each edge is shared by two faces, in opposite directions, with one middle node of its own", 4)
    ctx.rule("corner", "the corners of a cell type are the nodes of its linear counterpart", 4)
    ctx.rule("quadratic", "the faces of a quadratic cell type lie on those of its linear counterpart, one by one and in the same order", 2)
    ctx.rule("order", "a row which orders the nodes of a cell uses each of its nodes once", 20)
    ctx.rule("convention", "the order in which nodes are read or written takes the corners, faces (with their orientation) and middle nodes of the cells of Nastran or Systus to those of MED", 15)
    ctx.rule("known", "the cell types given to the model by a reader have an order of nodes there whenever it is not their own", 1)
    types = {}
    for gid, g in P.globals.items():
        if (g.get("init") or {}).get("t", "").replace("const ", "") == "vega::CellType" and (g.get("q") or "").startswith("vega::CellType::"):
            try:
                v = F.glob(gid)
                types[g["q"].split("::")[-1]] = (v, g)
            except Unknown:
                pass
    bycode = {}
    for name, (v, g) in sorted(types.items()):
        code = v.get("code")
        if not isinstance(code, tuple) or code[2] is None:
            continue
        w = "%s:%s (%s)" % (g["f"], g.get("l", 0), g["q"])
        if name in ("RESERVED",) or name.startswith("RESERVED"):
            continue
        bad = []
        if code[1] in bycode:
            bad.append("has the code of %s" % bycode[code[1]])
        bycode[code[1]] = name
        if not code[1].split("::")[-1].startswith(name):
            bad.append("has the code %s" % code[1].split("::")[-1])
        if not name.startswith(("POLY", "UNKNOWN")) and code[2] >= 0:
            n, d = code[2] % 100, code[2] // 100
            if v.get("numNodes") != n:
                bad.append("has %s nodes, its MED code says %d" % (v.get("numNodes"), n))
            dim = v.get("dimension")
            dv = dim.get("code")[2] if isinstance(dim, dict) and isinstance(dim.get("code"), tuple) else None
            if dv is not None and dv != d:
                bad.append("is of dimension %s, its MED code says %d" % (dv, d))
        elif name.startswith("POLY") and name[4:].isdigit() and v.get("numNodes") != int(name[4:]):
            bad.append("has %s nodes" % v.get("numNodes"))
        if v.get("description") != name:
            bad.append("calls itself \"%s\"" % v.get("description"))
        if bad:
            ctx.violation("type", name, w, "cell type %s %s" % (name, "; ".join(bad)), None)
        else:
            ctx.ok("type", name, None)
    num = {v["code"][1]: v.get("numNodes") for v, g in types.values() if isinstance(v.get("code"), tuple)}
    tname = {v["code"][1]: n for n, (v, g) in types.items() if isinstance(v.get("code"), tuple)}
    faces, corners, orders = None, None, []
    for gid, g in P.globals.items():
        t = ((g.get("init") or {}).get("t") or "").replace("const ", "")
        if not t.startswith(("std::unordered_map<vega::CellType::Code, std::vector", "std::map<vega::CellType::Code, std::vector")):
            continue
        try:
            v = table(F.glob(gid))
        except Unknown as e:
            continue
        rows = list(v.values())
        if not rows or not all(isinstance(r, list) and r for r in rows):
            continue
        if isinstance(rows[0][0], list):
            faces = (v, g)
        elif g["f"].startswith("Abstract/"):
            corners = (v, g)
        else:
            orders.append((v, g, gid))
    edges = {}
    if faces is not None:
        v, g = faces
        for code, fl in sorted(v.items()):
            n, name = num.get(code), tname.get(code, code)
            sh = shape_of(name)
            w = "%s:%s (%s)" % (g["f"], g.get("l", 0), g["q"])
            bad = check_faces(name, sh, n, fl, edges)
            if bad:
                ctx.violation("face", name, w, "the faces of %s: %s" % (name, "; ".join(bad[:4])), None)
            else:
                ctx.ok("face", name, None)
        for code, fl in sorted(v.items()):
            name = tname.get(code, code)
            sh = shape_of(name)
            if sh is None or num[code] <= CORNERS[sh]:
                continue
            lin = [c for c in v if shape_of(tname.get(c, "")) == sh and num[c] == CORNERS[sh]]
            if not lin:
                continue
            bad = []
            for i, (a, b) in enumerate(zip(fl, v[lin[0]])):
                ca = [x for x in a if x <= CORNERS[sh]]
                if sorted(ca) != sorted(b):
                    bad.append("face %d has the corners %s instead of %s" % (i + 1, ca, b))
                elif rot(ca) != rot(b):
                    bad.append("face %d turns the other way round (%s instead of %s)" % (i + 1, ca, b))
            if len(fl) != len(v[lin[0]]):
                bad.append("%d faces instead of %d" % (len(fl), len(v[lin[0]])))
            if bad:
                ctx.violation("quadratic", name, "%s:%s (%s)" % (g["f"], g.get("l", 0), g["q"]), "%s: %s" % (name, "; ".join(bad)), None)
            else:
                ctx.ok("quadratic", name, None)
    if corners is not None:
        v, g = corners
        for code, row in sorted(v.items()):
            name = tname.get(code, code)
            sh = shape_of(name)
            if sh is None:
                continue
            if row != list(range(CORNERS[sh])):
                ctx.violation("corner", name, "%s:%s (%s)" % (g["f"], g.get("l", 0), g["q"]), "the corners of %s are %s" % (name, row), None)
            else:
                ctx.ok("corner", name, None)
    fmap = {tname[c]: fl for c, fl in faces[0].items() if c in tname} if faces else {}
    for v, g, gid in orders:
        conv = systus if g["f"].startswith("Systus/") else nastran
        reads = "Parser" in g["q"] or "Reader" in g["q"]
        modes = Use(P, gid).modes
        w = "%s:%s (%s)" % (g["f"], g.get("l", 0), g["q"])
        for code, row in sorted(v.items()):
            name, n = tname.get(code, code.split("::")[-1]), num.get(code)
            inst = "%s:%s" % (g["q"].split("::")[-1], name)
            u = [x for i, x in enumerate(row) if x not in row[:i]]
            if n is None:
                continue
            if sorted(u) != list(range(n)) or (len(row) != n and row[n:] != [row[n - 1]] * (len(row) - n)):
                ctx.violation("order", inst, w, "the order %s of the nodes of %s is not one of its %d nodes" % (row, name, n), None)
                continue
            ctx.ok("order", inst, None)
            sh = shape_of(name)
            if sh is None or len(modes) != 1:
                continue
            row = row[:n]
            M = list(row)
            if ("scatter" in modes) != reads:
                M = [row.index(i) for i in range(n)]
            bad = conform(sh, n, M, conv(sh, n), fmap, name)
            if bad is None:
                continue
            if bad:
                ctx.violation("convention", inst, w, "%s: %s" % (name, "; ".join(bad[:4])), None)
            else:
                ctx.ok("convention", inst, None)
    # readers
    for v, g, gid in orders:
        if "Parser" not in g["q"]:
            continue
        used, users = set(), self_users(P, gid)
        for fn in P.functions.values():
            if fn.get("body") and fn["f"].startswith(g["f"].split("/")[0] + "/"):
                for n in walk(fn["body"]):
                    if n.get("k") == "call" and n.get("id") in users:
                        for a in n.get("a") or []:
                            for x in walk(a):
                                if x.get("k") == "ref" and x.get("dk") == "global" and x.get("q", "").startswith("vega::CellType::"):
                                    used.add((x["q"].split("::")[-1], fn["id"], n.get("l")))
        for name, fid, l in sorted(used):
            codes = [c for c, m in tname.items() if m == name]
            sh = shape_of(name)
            if not codes or sh not in FACES:
                continue
            fn = P.functions[fid]
            if codes[0] not in v:
                ctx.violation("known", "%s:%s" % (fn["n"], name), "%s:%s (%s)" % (fn["f"], l, fn["q"]), "%s has no order of nodes in %s: its cells would be read inside out" % (name, g["q"].split("::")[-1]), fn)
            else:
                ctx.ok("known", "%s:%s" % (fn["n"], name), fn)


def self_users(P, gid):
    return {fn["id"] for fn in P.functions.values() if fn.get("body") and any(n.get("k") == "ref" and n.get("id") == gid for n in walk(fn["body"]))}


def check_faces(name, sh, n, fl, edges):
    bad, seen, mids = [], {}, {}
    if sh is None:
        return ["unknown shape"]
    c = CORNERS[sh]
    for i, f in enumerate(fl):
        k = [x for x in f if x <= c]
        m = [x for x in f if x > c]
        if sorted(set(f)) != sorted(f):
            bad.append("face %d names a node twice: %s" % (i + 1, f))
        if any(not 1 <= x <= (n or 99) for x in f):
            bad.append("face %d has a node out of range: %s" % (i + 1, f))
        if f[:len(k)] != k or m and len(m) != len(k) or (n or c) > c and not m or (n == c and m):
            bad.append("face %d is not a ring of corners followed by its middle nodes: %s" % (i + 1, f))
            continue
        for j, a in enumerate(k):
            b = k[(j + 1) % len(k)]
            if (a, b) in seen:
                bad.append("faces %d and %d run through the edge %d-%d in the same direction" % (seen[a, b] + 1, i + 1, a, b))
            seen[a, b] = i
            if m:
                e = (min(a, b), max(a, b))
                if mids.setdefault(e, m[j]) != m[j]:
                    bad.append("the middle of the edge %d-%d is node %d in face %d, node %d elsewhere" % (e[0], e[1], m[j], i + 1, mids[e]))
    for a, b in seen:
        if (b, a) not in seen:
            bad.append("the edge %d-%d belongs to face %d only" % (a, b, seen[a, b] + 1))
    if len(set(mids.values())) != len(mids):
        bad.append("a node is the middle of two edges")
    edges[name] = mids
    return bad


def conform(sh, n, M, conv, fmap, name):
    """M: local number (from 0) -> MED number (from 0); conv: local number (from 1) -> corner or edge of the convention"""
    bad = []
    pos = {x: i for i, x in conv.items() if not isinstance(x, str)}
    c = CORNERS[sh]
    if any(i not in pos for i in range(1, c + 1)):
        return None
    corner = {i: M[pos[i] - 1] + 1 for i in range(1, c + 1)}     # corner of the convention -> MED node
    if any(x > c for x in corner.values()):
        return ["a corner is taken to the middle node %d" % max(corner.values())]
    if sh in FACES:
        lin = fmap.get(sh + str(c))
        if lin is None:
            return None
        have = {rot(f) for f in lin}
        # MED lists the nodes of a face the way Nastran does for the outward normal, its cells being mirrored
        for f in FACES[sh]:
            g = rot([corner[x] for x in f])
            r = rot([corner[x] for x in reversed(f)])
            if g not in have:
                bad.append("the face %s becomes %s, %s" % (f, g, "turned inside out" if r in have else "which is not a face"))
    elif sh in ("TRI", "QUAD"):
        ring = [corner[i] for i in range(1, c + 1)]
        if rot(ring) != tuple(range(1, c + 1)):
            bad.append("the corners come in the order %s, which %s" % (ring, "turns the cell over" if rot(ring[::-1]) == tuple(range(1, c + 1)) else "is not a ring"))
    mids = {}
    if sh in FACES:
        for f in fmap.get(name) or []:
            k, m = [x for x in f if x <= c], [x for x in f if x > c]
            if len(m) == len(k):
                for j, a in enumerate(k):
                    mids[frozenset((a, k[(j + 1) % len(k)]))] = m[j]
    elif sh in ("TRI", "QUAD"):
        mids = {frozenset((i + 1, (i + 1) % c + 1)): c + i + 1 for i in range(c)}
    else:
        mids = {frozenset((1, 2)): 3}
    for i, e in sorted(conv.items()):
        if isinstance(e, tuple):
            want = mids.get(frozenset(corner[x] for x in e))
            if want is not None and M[i - 1] + 1 != want:
                bad.append("the middle of the edge %d-%d becomes node %d instead of %d" % (e[0], e[1], M[i - 1] + 1, want))
    return bad
