#!/usr/bin/env python3
"""Development tool: applies behaviour-preserving edits (tools/refactor.cpp) to copies of source files and lists the alarms they raise.

usage: reftrial.py CHECKS FILES [MODES] [SEEDS]"""
import os, re, shutil, subprocess, sys, json
from concurrent.futures import ProcessPoolExecutor
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import trial
from vx import ir
BIN = "/tmp/w/refactor"
MODES = "inv elsif and cond demorgan lambda early late swap strjoin strsplit group noop tmp ternif ret rfor rforidx forwhile whilefor whiletrue cassign flip swif".split()


def one(a):
    w, f, mode, seed, checks = a
    w = os.getpid()
    root = trial.prep(w)
    P = ir.load("/repo")
    tmp = os.path.join(trial.SCR, "t%d" % w)
    os.makedirs(tmp, exist_ok=True)
    inc = os.path.join(ir.VERIF, "support", "include")
    src = os.path.join(root, f)
    out = os.path.join(tmp, "out.cpp")
    tu = f if f.endswith(".cpp") else {"Abstract/Model.h": "Abstract/Model.cpp", "Abstract/Object.h": "Abstract/Model.cpp"}.get(f, f[:-2] + ".cpp")
    r = subprocess.run([BIN, mode, str(seed), src, out, "--", "-x", "c++", "-std=gnu++14", "-w", "-include", os.path.join(inc, "vp_compat.h"), "-I" + inc, "-isystem", "/usr/include/hdf5/serial"], capture_output=True, text=True, cwd=tmp)
    n = int((r.stdout.strip() or "0").split("\n")[-1])
    if r.returncode or not n:
        return f, mode, seed, n, None if n == 0 else "tool failed " + r.stderr[-200:]
    shutil.copy(out, src)
    try:
        os.makedirs("/tmp/w/refout", exist_ok=True)
        shutil.copy(out, "/tmp/w/refout/%s.%s.%s" % (f.replace("/", "_"), mode, seed))
        tus = [tu] if f.endswith(".cpp") else [x for x in dict.fromkeys([tu, "Abstract/Model.cpp", "Nastran/NastranParser.cpp", "Aster/AsterWriter.cpp"]) if os.path.exists(os.path.join(root, x))]
        P2 = trial.merged(P, root, tus, {f}, tmp)
        if P2 is None:
            r = subprocess.run(["clang++", "-fsyntax-only", "-std=gnu++14", "-w", "-include", os.path.join(inc, "vp_compat.h"), "-I" + inc, "-isystem", "/usr/include/hdf5/serial", src], capture_output=True, text=True)
            return f, mode, seed, n, "DOES NOT COMPILE " + " ".join(x for x in r.stderr.split("\n") if "error:" in x)[:300]
        return f, mode, seed, n, trial.run_checks(P2, checks)
    finally:
        shutil.copy("/repo/" + f, src)


def main():
    checks = trial.allchecks() if sys.argv[1] in ("all", "auto") else sys.argv[1].split(",")
    files = sys.argv[2].split(",") if sys.argv[2] != "all" else [f for f in subprocess.run(["git", "-C", "/repo", "ls-files", "*.h", "*.cpp"], capture_output=True, text=True).stdout.split() if not f.startswith(("Test", "testdata"))]

    def chk(f):
        if sys.argv[1] != "auto":
            return checks
        import importlib
        out = ["C01", "C02"] if f.startswith("Abstract/") and os.path.basename(f).split(".")[0] in ("Loading", "Constraint", "Value", "Object", "Reference", "BoundaryCondition", "Model", "Element", "Analysis", "Objective") else []
        out += ["C03", "C16"] if f.startswith(("Nastran/NastranP", "Nastran/NastranT", "Optis")) else []
        for c in checks:
            m = importlib.import_module("vx.checks." + c.lower())
            if hasattr(m, "S") and any(a.match(f) for a, b in m.S.parts):
                out.append(c)
        return out
    modes = sys.argv[3].split(",") if len(sys.argv) > 3 and sys.argv[3] != "all" else MODES
    seeds = [int(x) for x in (sys.argv[4].split(",") if len(sys.argv) > 4 else "0")]
    ir.load("/repo")
    jobs = [(i % 8, f, m, s, chk(f)) for i, (f, m, s) in enumerate((f, m, s) for s in seeds for m in modes for f in files)]
    tot = 0
    with ProcessPoolExecutor(int(os.environ.get("J", "8"))) as ex:
        for f, m, s, n, res in ex.map(one, jobs):
            if n == 0:
                continue
            if isinstance(res, str):
                print("%-28s %-9s %d sites=%d %s" % (f, m, s, n, res))
                continue
            al = [(c, x) for c, r in res.items() for x in ([r] if isinstance(r, str) else r)]
            fn = sorted({(c, (x.split(":")[0] + ":" + x.split(":")[1])[:60] if not x.startswith("BROKEN") else x[:200]) for c, x in al})
            tot += len(fn)
            print("%-28s %-9s %d sites=%d alarms=%d  %s" % (f, m, s, n, len(al), "" if not al else "; ".join("%s %s" % x for x in fn[:12])))
            if os.environ.get("V"):
                for c, x in al[:int(os.environ["V"])]:
                    print("      %s %s" % (c, x[:900]))
    print("functions with alarms:", tot)


if __name__ == "__main__":
    main()
