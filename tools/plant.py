#!/usr/bin/env python3
"""Dev tool: confirms planted bugs in bind-mounted scratch copies of /repo, keeps them under /verif/seeded, and runs checks on them.
usage: plant.py add BATCH.py [ids...]   BATCH.py defines BUGS: list of dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ text, slicer=bool)
       plant.py check ids... [--props P01,P02]   run the checks of the bugs' properties (or others) on them"""
import sys, os, json, subprocess, shutil, concurrent.futures as cf, threading
V = "/verif"; W = "/tmp/pl"
DEMO_SH = '''#!/bin/bash
# Run in /repo after its build. Exit 0 when the behaviour shown in demo.cpp is right.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -r "$T"' EXIT
g++ -std=c++20 -O0 -w -I"$D/shims" -I"$D" -Iinclude -I/usr/include/postgresql "$D/demo.cpp" EXTRA _build/liblsqecclib.a -lpq -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
'''
NODE_SH = '''#!/bin/bash
# Run in /repo. Exit 0 when the behaviour shown in demo.js is right.
D=$(cd "$(dirname "$0")" && pwd); timeout 120 node "$D/demo.js" "$PWD"
'''
def sh(cmd, repo=None, env=None, timeout=1800):
    full = ["unshare", "-m", "bash", "-c", f"mount --bind {repo} /repo && mount --bind {W}/v{repo.rsplit("/r",1)[1]} /verif && cd /repo && {cmd}"] if repo else ["bash", "-c", cmd]
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(full, capture_output=True, text=True, env=e, timeout=timeout)
lock = threading.Lock(); free = []
def slot():
    with lock:
        if free: return free.pop()
        n = slot.n; slot.n += 1
    subprocess.run(["rsync", "-a", "--delete", "/repo/", f"{W}/r{n}/"])
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "seeded", "/verif/", f"{W}/v{n}/"])
    return f"{W}/r{n}"
slot.n = 0
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def run_checks(repo, props, out):
    for p in props:
        r = sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run_check.py {p} quick", repo)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        out.append(f"   {p}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED' if r.returncode == 0 else 'NO ANSWER ' + r.stderr[-500:]} {v[:1]}")
def add(bug):
    out = [bug["id"]]; repo = slot()
    try:
        d = f"{V}/seeded/{bug['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f, a, bb in bug["edits"]:
            s = open(f"{repo}/{f}").read()
            if s.count(a) != 1: out.append(f"EDIT does not match once: {f}: {a[:60]!r} x{s.count(a)}"); shutil.rmtree(d); return out
            open(f"{repo}/{f}", "w").write(s.replace(a, bb))
        r = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True); open(f"{d}/patch.diff", "w").write(r.stdout)
        if bug.get("js"): open(f"{d}/demo.js", "w").write(bug["js"]); open(f"{d}/demo.sh", "w").write(NODE_SH); os.chmod(f"{d}/demo.sh", 0o755)
        else: open(f"{d}/demo.cpp", "w").write(bug["demo"]); extra = bug.get("extra", ""); shutil.copy(f"{V}/tools/demo_common.hpp", d)
        if bug.get("slicer"): shutil.copytree(f"{V}/shims", f"{d}/shims"); extra += " src/pipelines/slicer.cpp src/layout/ascii_layout_spec.cpp"
        if not bug.get("js"): open(f"{d}/demo.sh", "w").write(DEMO_SH.replace("EXTRA", extra)); os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        dd = f"{repo}-demo"; shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd); shutil.copy(f"{d}/patch.diff", f"{repo}.diff")
        r = sh("bash /opt/vp/build.sh", repo)
        if r.returncode: out.append("BUILD FAILS " + (r.stdout + r.stderr)[-1500:]); return out
        t = f"{repo}.json"; sh(f"bash /opt/vp/test.sh {t}", repo); res = json.load(open(t)); miss = STABLE - set(res["passed"])
        if miss: out.append(f"TESTS FAIL {miss}"); return out
        r = sh(f"bash {dd}/demo.sh", repo); out.append(f"   demo with patch: exit {r.returncode} {(r.stdout + r.stderr)[-300:].strip()}"); bad = r.returncode in (0, 2)
        sh("git checkout -q -- . && bash /opt/vp/build.sh", repo); r = sh(f"bash {dd}/demo.sh", repo)
        if r.returncode or bad: out.append(f"   DEMO NOT RIGHT: without patch exit {r.returncode} {(r.stdout + r.stderr)[-800:]}"); return out
        sh(f"git apply {repo}.diff", repo); run_checks(repo, [bug["property"]], out)
        return out
    finally:
        sh("git checkout -q -- .", repo)
        with lock: free.append(repo)
def check(i, props):
    d = f"{V}/seeded/{i}"; out = [i]; repo = slot()
    try:
        shutil.copy(f"{d}/patch.diff", f"{repo}.diff"); r = sh(f"git apply {repo}.diff", repo)
        if r.returncode: out.append("PATCH DOES NOT APPLY " + r.stderr); return out
        run_checks(repo, props or [json.load(open(f"{d}/meta.json"))["property"]], out); return out
    finally:
        sh("git checkout -q -- .", repo)
        with lock: free.append(repo)
if __name__ == "__main__":
    os.makedirs(W, exist_ok=True); a = sys.argv[2:]; props = None
    if "--props" in a: k = a.index("--props"); props = a[k + 1].split(","); a = a[:k] + a[k + 2:]
    with cf.ThreadPoolExecutor(3) as ex:
        if sys.argv[1] == "add":
            ns = {}; exec(open(a[0]).read(), ns); fs = [ex.submit(add, b) for b in ns["BUGS"] if len(a) == 1 or b["id"] in a[1:]]
        else: fs = [ex.submit(check, i, props) for i in (a or sorted(os.listdir(f"{V}/seeded")))]
        for f in cf.as_completed(fs): print("\n".join(f.result()), flush=True)
