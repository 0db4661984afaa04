#!/usr/bin/env python3
"""Development tool: random source mutants of one file, analysed (never built or run), to measure what the checks notice.

usage: trial.py N SEED CHECK[,CHECK] FILE[:FUNCTION_REGEX] [TU]
       trial.py patch CHECK[,CHECK] a.diff b.diff ...      (analyse patched trees)"""
import importlib, json, os, random, re, shutil, subprocess, sys, copy, io, contextlib, pickle
from concurrent.futures import ProcessPoolExecutor
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vx import ir, report

SCR = "/tmp/w/trial"


def prep(w):
    d = os.path.join(SCR, "w%d" % w)
    if not os.path.exists(d):
        os.makedirs(d)
        files = subprocess.run(["git", "-C", "/repo", "ls-files"], capture_output=True, text=True).stdout.split("\n")
        for f in files:
            if f and not f.startswith(("testdata", "docker", "Test")) and os.path.isfile("/repo/" + f):
                os.makedirs(os.path.dirname(os.path.join(d, f)) or d, exist_ok=True)
                shutil.copy("/repo/" + f, os.path.join(d, f))
    else:
        subprocess.run("cd /repo && git ls-files -z -- '*.h' '*.cpp' ':!Test' | xargs -0 -I{} cp -u {} %s/{}" % d, shell=True)
    return d


def merged(P, root, tus, changed, tmp):
    """P with the functions of the changed files replaced"""
    ex, tag = ir._extractor()
    inc = os.path.join(ir.VERIF, "support", "include")
    P2 = copy.copy(P)
    P2.functions = dict(P.functions)
    P2.globals = dict(P.globals)
    P2.classes = dict(P.classes)
    P2.enums = dict(P.enums)
    P2.by_q = {}
    if hasattr(P2, "_ov"):
        del P2._ov
    for u in [u for u, f in P2.functions.items() if f["f"] in changed]:
        del P2.functions[u]
    for tu in tus:
        tu, out, r = ir.extract_tu(ex, inc, root, tu, tmp)
        if not os.path.exists(out):
            return None
        j = json.load(open(out))
        os.unlink(out)
        if j.get("errors") or r.returncode:
            return None
        for fn in j["functions"]:
            old = P2.functions.get(fn["id"])
            if fn["f"] in changed or old is None:
                if old is not None and fn["f"] in changed and ("body" in old and "body" not in fn):
                    continue
                ir._resolve(fn, j["types"])
                ir.tidy(fn)
                P2.functions[fn["id"]] = fn
        for c in j["classes"]:
            if c["f"] in changed or c["q"] not in P2.classes:
                ir._resolve(c, j["types"]); P2.classes[c["q"]] = c
        for e in j["enums"]:
            if e.get("f") in changed:
                ir._resolve(e, j["types"]); P2.enums[e["q"]] = e
        for g in j["globals"]:
            if g["f"] in changed and not ("init" not in g and "init" in P2.globals.get(g["id"], {})):
                ir._resolve(g, j["types"]); P2.globals[g["id"]] = g
        for x in j["news"]:
            if x not in P2.news:
                P2.news = P2.news + [x]
    for fn in P2.functions.values():
        P2.by_q.setdefault(fn["q"], []).append(fn)
    return P2


def run_checks(P2, checks):
    out = {}
    for c in checks:
        mod = importlib.import_module("vx.checks." + c.lower())
        ctx = report.Ctx(c, "quick", 1, P2)
        try:
            mod.run(ctx)
            known = report.known_findings(c)
            for r, (t, m) in ctx.rules.items():
                if len(ctx.instances[r]) < m:
                    raise ir.AnalysisBroken("rule %s: %d" % (r, len(ctx.instances[r])))
            out[c] = ["%s {%s}" % (b[3], b[1]) for b in ctx.bad if b[1] not in known]
        except ir.AnalysisBroken as e:
            out[c] = "BROKEN %s" % e
        except Exception as e:
            import traceback
            out[c] = "BROKEN " + traceback.format_exc()[-400:]
    return out


OPS = [
    (r"<=", ["<"]), (r">=", [">"]), (r"(?<![<>=!-])<(?![<=a-zA-Z:])", ["<="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"(?<=[\w)\]] )\+(?= [\w(])", ["-"]), (r"(?<=[\w)\]] )-(?= [\w(])", ["+"]), (r"(?<=[\w)\]] )\*(?= [\w(])", ["/"]), (r"\b([0-9])\b", [1, -1]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bif \((?!!)", ["NEG"]), (r"\bbreak;", [""]), (r"\bcontinue;", [";"]),
]


def mutants(text, lo, hi, rng):
    """one random mutant of lines lo..hi: (description, text)"""
    lines = text.split("\n")
    for _ in range(200):
        i = rng.randrange(lo, min(hi, len(lines)))
        l = lines[i]
        st = l.strip()
        if not st or st.startswith(("//", "*", "/*", "#", "}", "{", "case", "default")):
            continue
        k = rng.random()
        new = None
        if k < 0.22:
            # delete a simple statement
            if st.endswith(";") and not re.match(r"(const |auto |int |double |string |shared_ptr|return|throw|using|break|continue|vector|list|map|set|bool|pos_t|size_t|unsigned|else|public|private)", st) and not re.match(r"[\w:<>, ]+ [*&]?\w+\s*(=|;|\(|\{)", st) and st.count("(") == st.count(")"):
                new = l[:len(l) - len(l.lstrip())] + ";"
        elif k < 0.42:
            # swap two arguments / identifiers with a common prefix on the line
            ids = list(re.finditer(r"\b[A-Za-z_]\w*\b", l))
            pairs = [(a, b) for a in ids for b in ids if a.start() < b.start() and a.group() != b.group() and len(a.group()) == len(b.group()) and len(a.group()) > 0 and sum(x != y for x, y in zip(a.group(), b.group())) <= 1]
            if pairs:
                a, b = rng.choice(pairs)
                new = l[:a.start()] + b.group() + l[a.end():b.start()] + a.group() + l[b.end():]
        elif k < 0.55:
            # replace an identifier by a similar one of the neighbourhood
            ids = list(re.finditer(r"\b[A-Za-z_]\w*\b", l))
            if ids:
                a = rng.choice(ids)
                near = set(re.findall(r"\b[A-Za-z_]\w*\b", "\n".join(lines[max(lo, i - 30):min(hi, i + 30)])))
                cand = sorted(x for x in near if x != a.group() and len(x) == len(a.group()) and sum(p != q for p, q in zip(x, a.group())) <= 1)
                if cand:
                    new = l[:a.start()] + rng.choice(cand) + l[a.end():]
        else:
            pat, reps = rng.choice(OPS)
            ms = list(re.finditer(pat, l))
            if ms:
                m = rng.choice(ms)
                r = rng.choice(reps)
                if r == "NEG":
                    if st.endswith("{") and st.count("(") == st.count(")"):
                        p = l.index("(", m.start()); q = l.rindex(")")
                        new = l[:p] + "(!(" + l[p + 1:q] + "))" + l[q + 1:]
                elif isinstance(r, int):
                    v = int(m.group(1)) + r
                    if v >= 0:
                        new = l[:m.start()] + str(v) + l[m.end():]
                else:
                    new = l[:m.start()] + r + l[m.end():]
        if new is not None and new != l:
            return "%d: %s  =>  %s" % (i + 1, st[:110], new.strip()[:110]), "\n".join(lines[:i] + [new] + lines[i + 1:])
    return None, None


def work(a):
    w, muts, checks, f, tu = a
    root = prep(w)
    P = ir.load("/repo")
    orig = open(os.path.join("/repo", f)).read()
    res = []
    tmp = os.path.join(SCR, "t%d" % w)
    os.makedirs(tmp, exist_ok=True)
    for desc, text in muts:
        open(os.path.join(root, f), "w").write(text)
        P2 = merged(P, root, [tu], {f}, tmp)
        res.append((desc, None if P2 is None else run_checks(P2, checks)))
    open(os.path.join(root, f), "w").write(orig)
    return res


def work_patch(a):
    w, diff, checks = a
    root = prep(w)
    P = ir.load("/repo")
    tmp = os.path.join(SCR, "t%d" % w)
    os.makedirs(tmp, exist_ok=True)
    files = re.findall(r"^\+\+\+ b/(\S+)", open(diff).read(), re.M)
    r = subprocess.run(["patch", "-p1", "-s", "-d", root, "-i", os.path.abspath(diff)], capture_output=True, text=True)
    try:
        if r.returncode:
            return diff, "PATCH FAILED " + r.stdout[-300:]
        if any(f.endswith(".h") for f in files):
            tus, _ = ir.sources(root)
        else:
            tus = files
        P2 = merged(P, root, tus, set(files), tmp)
        return diff, None if P2 is None else run_checks(P2, checks)
    finally:
        for f in files:
            shutil.copy("/repo/" + f, os.path.join(root, f))


def allchecks():
    d = os.path.join(ir.VERIF, "vx", "checks")
    return sorted(x[:-3].upper() for x in os.listdir(d) if re.match(r"c\d+\.py$", x))


def main():
    ir.load("/repo")
    if sys.argv[1] == "patch":
        checks = allchecks() if sys.argv[2] == "all" else sys.argv[2].split(",")
        with ProcessPoolExecutor(8) as ex:
            # one private tree per patch slot
            ds = sys.argv[3:]
            groups = [[(i, d, checks) for d in ds[i::8]] for i in range(8)]
            for g in ex.map(_grp, groups):
                for d, res in g:
                    print("==", d, "" if isinstance(res, dict) else (res or "DOES NOT COMPILE"))
                    if isinstance(res, dict):
                        for c, v in res.items():
                            if v:
                                print("    %s: %s" % (c, v if isinstance(v, str) else "%d violations; %s" % (len(v), " || ".join(x[:400] for x in v[:3]))))
        return
    n, seed, checks = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3].split(",")
    if checks == ["all"]:
        checks = allchecks()
    f, _, rx = sys.argv[4].partition(":")
    tu = sys.argv[5] if len(sys.argv) > 5 else f
    P = ir.load("/repo")
    spans = []
    for fn in P.functions.values():
        if fn["f"] == f and "body" in fn and re.search(rx or ".", fn["q"]):
            ls = [x["l"] for x in ir.walk(fn["body"]) if "l" in x and fn["l"] <= x["l"] < fn["l"] + 900]
            if ls:
                spans.append((fn["l"] - 1, max(ls)))
    text = open(os.path.join("/repo", f)).read()
    rng = random.Random(seed)
    muts, seen = [], set()
    while len(muts) < n:
        lo, hi = rng.choices(spans, weights=[b - a + 1 for a, b in spans])[0]
        d, t = mutants(text, lo, hi + 1, rng)
        if d and d not in seen:
            seen.add(d); muts.append((d, t))
        elif d is None and rng.random() < 0.05:
            break
    with ProcessPoolExecutor(8) as ex:
        res = sum(ex.map(work, [(i, muts[i::8], checks, f, tu) for i in range(8)]), [])
    comp = [(d, r) for d, r in res if r is not None]
    caught = [(d, r) for d, r in comp if any(isinstance(v, list) and v for v in r.values())]
    broken = [(d, r) for d, r in comp if any(isinstance(v, str) for v in r.values())]
    print("mutants %d, compile %d, caught %d, broken %d" % (len(res), len(comp), len(caught), len(broken)))
    for d, r in broken[:5]:
        print("  BROKEN", d, [v for v in r.values() if isinstance(v, str)])
    for d, r in sorted(comp, key=lambda x: int(x[0].split(":")[0])):
        if not any(isinstance(v, list) and v for v in r.values()):
            print("  MISSED", d)


def _grp(g):
    return [work_patch(x) for x in g]


if __name__ == "__main__":
    main()
