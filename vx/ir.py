"""Loads the resolved program: runs the libTooling extractor on every non-test
translation unit of /repo and merges the per-TU results.

The IR is a tree of dicts (see extractor/vxtract.cpp). `load()` returns a Program.
"""
import hashlib, json, os, subprocess, sys, pickle, gc
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
CACHE = os.environ.get("VX_CACHE", os.path.join(VERIF, ".cache"))
SKIP_DIRS = ("Test", "_build", "testdata", ".git", "cmakemodules", "docker")


class AnalysisBroken(Exception):
    """The analysis lost its footing (vanished anchor, unparsable TU): error exit."""


def sources(root):
    tus, hdrs = [], []
    for d, dn, fn in os.walk(root):
        rel = os.path.relpath(d, root)
        if rel == ".":
            dn[:] = [x for x in dn if x not in SKIP_DIRS and not x.startswith(".")]
        for f in fn:
            p = os.path.normpath(os.path.join(rel, f))
            if f.endswith((".cpp", ".cc", ".cxx")):
                tus.append(p)
            elif f.endswith((".h", ".hpp", ".hh", ".inc", ".in")):
                hdrs.append(p)
    return sorted(tus), sorted(hdrs)


def _sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def _extractor():
    src = os.path.join(VERIF, "extractor", "vxtract.cpp")
    tag = _sha(src)[:16]
    out = os.path.join(CACHE, "vxtract-" + tag)
    if not os.path.exists(out):
        r = subprocess.run(["bash", os.path.join(VERIF, "support", "build_extractor.sh"), out],
                           capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise AnalysisBroken("cannot build the extractor: " + r.stderr[-2000:])
    return out, tag


class Program:
    def __init__(self):
        self.functions = {}   # usr -> fn
        self.by_q = {}        # qualified name -> [fn]
        self.classes = {}     # canonical type -> class
        self.enums = {}
        self.globals = {}     # usr -> var
        self.news = []
        self.tus = []
        self.root = None

    # ---- class helpers
    def cls(self, q):
        return self.classes.get(q)

    def bases(self, q, seen=None):
        """all (transitive) bases, nearest first"""
        out = []
        todo = list(self.classes[q]["bases"]) if q in self.classes else []
        while todo:
            b = todo.pop(0)
            if b in out:
                continue
            out.append(b)
            if b in self.classes:
                todo.extend(self.classes[b]["bases"])
        return out

    def derived(self, q):
        return [c for c in self.classes if q in self.bases(c)]

    def is_a(self, c, q):
        return c == q or q in self.bases(c)

    def methods(self, q):
        return self.classes[q]["methods"] if q in self.classes else []

    def fn_q(self, q):
        """definitions of a qualified name"""
        return [f for f in self.by_q.get(q, []) if "body" in f]

    def overriders(self, usr):
        """all function ids which (transitively) override usr"""
        if not hasattr(self, "_ov"):
            self._ov = {}
            for c in self.classes.values():
                for m in c["methods"]:
                    for o in m.get("ov", ()):
                        self._ov.setdefault(o, set()).add(m["id"])
        out, todo = set(), [usr]
        while todo:
            x = todo.pop()
            for y in self._ov.get(x, ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return out

    def final_overrider(self, cls, name, nparams=None):
        """the method of `name` found first on cls or its bases"""
        for c in [cls] + self.bases(cls):
            for m in self.methods(c):
                if m["n"] == name and (nparams is None or len(m["p"]) == nparams):
                    return c, m
        return None, None


def _resolve(node, types):
    """replace type indices by strings, in place (iterative)"""
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            for k, v in n.items():
                if type(v) is int:
                    if k in ("t", "r", "rt", "ct", "it", "tt"):
                        n[k] = types[v]
                elif type(v) is dict or type(v) is list:
                    stack.append(v)
        else:
            for v in n:
                if type(v) is dict or type(v) is list:
                    stack.append(v)


PLAIN = ("int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "bool", "float", "double", "long long", "unsigned long long")


def _inert(e):
    """an expression without effect, on variables and literals only"""
    k = e["k"]
    if k in ("cast", "icast"):
        return _inert(e["e"])
    if k in ("int", "bool", "str", "char", "float", "null", "this", "zero"):
        return True
    if k == "ref":
        return True
    if k == "un":
        return e["op"] not in ("++", "--", "*") and _inert(e["e"])
    if k == "bin":
        return e["op"] not in ("/", "%") and _inert(e["a"]) and _inert(e["b"])
    return False


def tidy(fn):
    """statements which do nothing are left out"""
    body = fn.get("body")
    if not body:
        return
    blocks = [n for n in walk(body) if n.get("k") == "block"]

    def idle(s):
        k = s["k"]
        if k == "nop":
            return True
        if k == "expr":
            return _inert(s["e"])
        if k == "block":
            return not s["s"]
        return False
    again = True
    while again:
        again = False
        for b in reversed(blocks):
            keep = [s for s in b["s"] if not idle(s)]
            if len(keep) != len(b["s"]):
                b["s"] = keep
                again = True
        decls = [(b, s, v) for b in blocks for s in b["s"] if s["k"] == "decl" for v in s["v"]
                 if v.get("t", "").replace("const ", "") in PLAIN and (v.get("init") is None or _inert(v["init"]))]
        if decls:
            used = {n["id"] for n in walk(body) if n.get("k") == "ref" and "id" in n}
            for b, s, v in decls:
                if v["id"] not in used:
                    s["v"] = [x for x in s["v"] if x is not v]
                    again = True
                    if not s["v"]:
                        b["s"] = [x for x in b["s"] if x is not s]


def extract_tu(ex, inc, root, tu, tmp):
    out = os.path.join(tmp, tu.replace("/", "_") + ".json")
    r = subprocess.run([ex, root, out, os.path.join(root, tu), "--", "-std=gnu++14", "-w",
                        "-include", os.path.join(inc, "vp_compat.h"), "-I" + inc,
                        "-isystem", "/usr/include/hdf5/serial"],
                       capture_output=True, text=True, cwd=tmp)
    return tu, out, r


def load(root=None, verbose=False):
    root = root or REPO
    tus, hdrs = sources(root)
    ex, tag = _extractor()
    inc = os.path.join(VERIF, "support", "include")
    h = hashlib.sha256(tag.encode())
    for p in tus + hdrs:
        h.update(p.encode()); h.update(_sha(os.path.join(root, p)).encode())
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(f.read())
    h.update(os.path.abspath(root).encode())
    key = h.hexdigest()[:24]
    pk = os.path.join(CACHE, "ir-" + key + ".pickle")
    gc.disable()
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                p = pickle.load(f)
            gc.enable()
            return p
        except Exception:
            pass
    tmp = os.path.join(CACHE, "x-%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)

    def one(tu):
        return extract_tu(ex, inc, root, tu, tmp)
    # big TUs first
    order = sorted(tus, key=lambda t: -os.path.getsize(os.path.join(root, t)))
    with ThreadPoolExecutor(8) as tp:
        res = list(tp.map(one, order))
    P = Program()
    P.root = root
    for tu, out, r in sorted(res):
        if r.returncode != 0 or not os.path.exists(out):
            raise AnalysisBroken("cannot analyse %s: %s" % (tu, r.stderr[-1500:]))
        with open(out) as f:
            j = json.load(f)
        if j.get("errors"):
            raise AnalysisBroken("compile errors in %s: %s" % (tu, r.stderr[-1500:]))
        types = j["types"]
        P.tus.append(tu)
        for fn in j["functions"]:
            old = P.functions.get(fn["id"])
            if old is not None and ("body" in old or "body" not in fn):
                continue
            _resolve(fn, types)
            tidy(fn)
            P.functions[fn["id"]] = fn
        for c in j["classes"]:
            if c["q"] not in P.classes:
                _resolve(c, types)
                P.classes[c["q"]] = c
        for e in j["enums"]:
            if e["q"] not in P.enums:
                _resolve(e, types)
                P.enums[e["q"]] = e
        for g in j["globals"]:
            if g["id"] not in P.globals or ("init" in g and "init" not in P.globals[g["id"]]):
                _resolve(g, types)
                P.globals[g["id"]] = g
        P.news.extend(j["news"])
        os.unlink(out)
    os.rmdir(tmp)
    seen, nn = set(), []
    for n in P.news:
        k = json.dumps(n, sort_keys=True)
        if k not in seen:
            seen.add(k); nn.append(n)
    P.news = nn
    for fn in P.functions.values():
        P.by_q.setdefault(fn["q"], []).append(fn)
    try:
        with open(pk + ".tmp%d" % os.getpid(), "wb") as f:
            pickle.dump(P, f, protocol=4)
        os.replace(pk + ".tmp%d" % os.getpid(), pk)
        # keep the cache small
        olds = sorted((os.path.join(CACHE, x) for x in os.listdir(CACHE) if x.startswith("ir-")), key=os.path.getmtime)
        for o in olds[:-6]:
            os.unlink(o)
    except OSError:
        pass
    gc.enable()
    return P


# ---------------------------------------------------------------- tree walking
def children(n):
    for k, v in n.items():
        if type(v) is dict:
            yield v
        elif type(v) is list:
            for x in v:
                if type(x) is dict:
                    yield x


def walk(n):
    """pre-order over all dict nodes, in source order as good as dict order gives"""
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(reversed(list(children(x))))


def nodes(n, *kinds):
    for x in walk(n):
        if x.get("k") in kinds:
            yield x


def calls(n):
    return nodes(n, "call")
