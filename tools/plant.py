#!/usr/bin/env python3
"""Plants bugs:  plant.py SPEC.py [id...]   SPEC.py defines BUGS, a list of dicts
   id, prop, file, edits=[(old,new)...], demo (C source), srcs (files under gel), needs, breaks [, flags, sh]
Confirms each in a scratch copy of /repo (builds, stable tests pass, demo passes without and fails with it, changes
original lines), writes /verif/seeded/<id>/, and says whether the property's check catches it."""
import concurrent.futures as cf, json, os, re, runpy, shutil, subprocess, sys, threading
V = "/verif"
S = "/tmp/plant"
BASE = "c410c1e"
LOCK = threading.Lock()
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
DEMO = """#!/bin/sh
# run in the repository: exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
gcc -g -w {flags} -Igel -I. "$here/demo.c" {srcs} -o "$d/demo" -lm || exit 2
timeout 100 "$d/demo"
"""
def one(b):
    w, good = f"{S}/{b['id']}", False
    shutil.rmtree(w, ignore_errors=True)
    try:
        sh(f"git clone -q /repo {w}")
        f = f"{w}/{b['file']}"
        s = open(f, newline="").read()
        for old, new in b["edits"]:
            if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1: return f"EDIT matches {s.count(old)} times: {old[:60]!r}"
            s = s.replace(old, new)
        blame = sh(f"git -C {w} blame -w -s {BASE}..HEAD -- {b['file']}").stdout.splitlines()
        open(f, "w", newline="").write(s)
        d = subprocess.run(["git", "-C", w, "diff", "-U0"], stdout=subprocess.PIPE).stdout.decode()
        touched = []
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            touched += [blame[k - 1] for k in range(a, a + n)]
        mine = [l for l in touched if not l.startswith("^")]
        if mine and len(mine) == len([t for t in touched]): return "changes only lines of the fixes: " + mine[0][:100]
        o = f"{V}/seeded/{b['id']}"
        os.makedirs(o, exist_ok=True)
        open(f"{o}/patch.diff", "wb").write(subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE).stdout)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{o}/meta.json", "w"), indent=1)
        open(f"{o}/demo.c", "w").write(b["demo"])
        open(f"{o}/demo.sh", "w").write(b.get("sh") or DEMO.format(flags=b.get("flags", ""), srcs=" ".join("gel/" + x for x in b.get("srcs", []))))
        os.chmod(f"{o}/demo.sh", 0o755)
        for n in ("build.sh", "test.sh"):
            t = open(f"/opt/vp/{n}").read().replace("/repo", w).replace("/opt/vp/build.sh", f"{w}/build.sh")
            open(f"{w}/{n}", "w").write(t)
        with LOCK:   # the Unity objects are shared
            r = sh(f"bash {w}/test.sh {w}/out.json")
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        ok = json.load(open(f"{w}/out.json"))["passed"]
        bad = [x for x in st if x not in ok]
        if bad: return f"TESTS fail: {bad[:3]} {r.stdout[-300:] if not ok else ''}"
        r0 = sh(["sh", f"{o}/demo.sh"], cwd="/repo")
        if r0.returncode: return f"DEMO fails on the unchanged tree ({r0.returncode}): {r0.stdout[:600]}"
        r1 = sh(["sh", f"{o}/demo.sh"], cwd=w)
        if r1.returncode == 0: return "DEMO passes with the change"
        if r1.returncode == 2: return "DEMO does not compile with the change: " + r1.stdout[:300]
        good = True
        e = dict(os.environ, VERIF_REPO=w, VERIF_BUILD=f"{w}/vb", VERIF_REPLAYS=f"{w}/vr", VERIF_EVIDENCE=f"{w}/ve", VERIF_NOCORPUS="1")
        r = sh(["python3", f"{V}/checks/run.py", b["prop"]], env=e)
        n = re.search(r"(\d+) cases, .* ([\d.]+) s", r.stdout)
        how = re.search(r"^\[C.*$", r.stdout, re.M)
        return f"{'caught' if r.returncode == 1 and 'VIOLATION property=' + b['prop'] in r.stdout else '*** MISSED rc=%d' % r.returncode} {b['prop']} {n[0] if n else r.stdout[-300:]} {how[0][:110] if how else ''}"
    finally:
        if not good: shutil.rmtree(f"{V}/seeded/{b['id']}", ignore_errors=True)
        shutil.rmtree(w, ignore_errors=True)
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if len(sys.argv) > 2: bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    os.makedirs(S, exist_ok=True)
    with cf.ThreadPoolExecutor(3) as ex:
        for b, r in zip(bugs, ex.map(one, bugs)): print(f"{b['id']:28} {r}", flush=True)
main()
