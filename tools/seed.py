#!/usr/bin/env python3
"""Development tool: confirms planted bugs (builds, passes the stable tests, demo fails with it and passes without it) in
scratch copies of /repo bind-mounted over /repo in a private mount namespace.   usage: seed.py ID... | all [-j N]"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w/seedw"
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json"))["stable"]) if os.path.exists("/opt/vp/BASELINE.json") else set()


def prep(k):
    d = "%s/%d" % (W, k)
    if not os.path.exists(d):
        os.makedirs(W, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", d])
    subprocess.check_call(["git", "-C", d, "fetch", "-q", os.environ.get("SRC", "/repo"), "HEAD"])
    subprocess.check_call(["git", "-C", d, "reset", "-q", "--hard", "FETCH_HEAD"])
    return d


def one(sid, q):
    k = q.get()
    try:
        d = prep(k)
        src = os.path.join(V, "seeded", sid)
        ds = "%s/demo%d" % (W, k)
        shutil.rmtree(ds, ignore_errors=True)
        shutil.copytree(src, ds, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        out = "%s/out%d.json" % (W, k)
        script = f"""set -u
mount --bind {d} /repo || exit 90
cd /repo
git checkout -q -- . ; git status --short | grep -v '^??' && exit 91
git apply --check {src}/patch.diff || exit 92
bash /opt/vp/build.sh >{W}/b{k}.log 2>&1 || exit 93
timeout 300 bash {ds}/demo.sh >{W}/d0{k}.log 2>&1 || exit 94
git apply {src}/patch.diff
bash /opt/vp/test.sh {out} >{W}/t{k}.log 2>&1
cd /repo
timeout 300 bash {ds}/demo.sh >{W}/d{k}.log 2>&1; r=$?
git checkout -q -- .
[ $r -ne 0 ] || exit 95
exit 0
"""
        r = subprocess.run(["unshare", "-m", "bash", "-c", script], capture_output=True, text=True)
        msg = {90: "mount", 91: "dirty", 92: "does not apply", 93: "clean build", 94: "demo fails on the clean tree: " + tail("%s/d0%d.log" % (W, k)), 95: "demo passes with the bug: " + tail("%s/d%d.log" % (W, k)), 0: "ok"}.get(r.returncode, "rc %d %s" % (r.returncode, r.stderr[-300:]))
        if r.returncode in (0, 95):
            j = json.load(open(out))
            if not j["passed"]:
                msg = "does not build " + tail("%s/t%d.log" % (W, k))
            else:
                bad = sorted(base - set(j["passed"]))
                if bad:
                    msg += "; TESTS FAIL: " + ", ".join(bad[:5])
        print("%-8s %s" % (sid, msg), flush=True)
    finally:
        q.put(k)


def tail(f):
    try:
        return open(f, errors="replace").read()[-400:].replace("\n", " / ")
    except OSError:
        return ""


args = sys.argv[1:]
j = 3
if "-j" in args:
    i = args.index("-j"); j = int(args[i + 1]); del args[i:i + 2]
if args == ["all"]:
    args = sorted(os.listdir(os.path.join(V, "seeded")))
q = Queue()
for k in range(j):
    q.put(k)
with ThreadPoolExecutor(j) as ex:
    list(ex.map(lambda s: one(s, q), args))
