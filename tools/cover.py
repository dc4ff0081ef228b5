#!/usr/bin/env python3
"""Which lines of the harnesses, shims and repository sources do the checks never execute?
   cover.py C05 C29 ...   (all when none is given); COVER_CASES sets the number of cases per configuration"""
import collections, glob, json, os, re, shutil, subprocess, sys, zlib
sys.path.insert(0, "/verif/checks")
W = "/tmp/cover"
os.environ["VERIF_BUILD"] = W + "/b"
import run
from registry import PROPS
STUB = W + "/stub.c"
os.makedirs(W, exist_ok=True)
open(STUB, "w").write("void __gcov_dump(void); void __real__exit(int); void __wrap__exit(int c) { __gcov_dump(); __real__exit(c); }\n")
subprocess.run(["gcc", "-O1", "-c", STUB, "-o", W + "/stub.o"], check=True)

orig = run.sh
def sh(cmd, **k):
    if cmd[0] in ("gcc", "g++") and "-c" in cmd and not any("engine.cpp" in x for x in cmd):
        cmd = [x for x in cmd if not x.startswith("-O")] + ["--coverage", "-fprofile-update=atomic", "-O0"]
    elif cmd[0] == "g++":
        cmd = cmd[:1] + ["--coverage", W + "/stub.o", "-Wl,--wrap=_exit"] + cmd[1:]
    return orig(cmd, **k)
run.sh = sh
hit = collections.defaultdict(lambda: collections.defaultdict(int))
br = collections.defaultdict(lambda: collections.defaultdict(int))
for pid in sys.argv[1:] or list(PROPS):
    for c in PROPS[pid]["configs"]:
        exe = run.build(pid, dict(c, must_compile=False))
        d = os.path.dirname(exe)
        n = os.environ.get("COVER_CASES", "60000")
        r = orig([exe, "--seed", "1", "--salt", str(zlib.crc32(f"{pid}/{c['name']}".encode())), "--cases", n, "--workers", "8", "--max-seconds", "300", "--out", d + "/r.json", "--fail", d + "/f.tape", "--tmp", d])
        if r.returncode: print(pid, c["name"], "exit", r.returncode, r.stdout[:300])
        for g in glob.glob(d + "/**/*.gcda", recursive=True):
            o = orig(["gcov", "-b", "--json-format", "--stdout", g]).stdout
            for line in o.splitlines():
                if not line.startswith("{"): continue
                for f in json.loads(line)["files"]:
                    p = os.path.realpath(os.path.join("/verif", f["file"]))
                    if not (p.startswith("/verif/harness") or p.startswith("/repo/gel")): continue
                    if p.startswith("/repo/gel") and not any(p.endswith(x) for x in c["need"]) and not p.endswith(".h"): continue
                    for l in f["lines"]:
                        hit[p][l["line_number"]] += l["count"]
                        for k, b in enumerate(x for x in l.get("branches", []) if not x["throw"]): br[p][l["line_number"], l.get("function_name", ""), k] += b["count"]
        shutil.rmtree(d, ignore_errors=True)
for p in sorted(hit):
    src = open(p, errors="replace").read().splitlines()
    for l, n in sorted(hit[p].items()):
        if n == 0: print(f"{p}:{l}: {src[l-1].strip()[:170]}")
    seen = set()
    for (l, f, k), n in sorted(br[p].items()):
        if n == 0 and hit[p][l] and p.endswith(".c") and l not in seen:
            seen.add(l)
            print(f"{p}:{l}: BRANCH {k} {f}: {src[l-1].strip()[:150]}")
