#!/usr/bin/env python3
"""Decides one property:  run.py <id>   (VERIF_SEED, VERIF_TIER=quick|thorough; VERIF_REPO for scratch copies)
   run.py --setup          builds the engine
   run.py --replay <file>  replays a recorded failure and prints its history
Exit 0: held on everything explored; 1: VIOLATION printed; 2: error of the check."""
import concurrent.futures as cf, glob, hashlib, json, os, shutil, subprocess, sys, threading, time, zlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, HERE)
from registry import PROPS  # noqa

ENG_FLAGS = ["-O2", "-g1", "-std=c++17", "-Wall", "-I", f"{VERIF}/engine"]
SAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=all"]
COV = ["-fsanitize-coverage=trace-pc,trace-cmp"]
CONF = f'-DGEL_PAGEMANAGER_CONFIGURATION_HEADER="gel_conf.h"'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def engine(san):
    """engine object, cached by content (setup_cmd builds it; a check builds it if it is missing)"""
    src = [f"{VERIF}/engine/engine.cpp", f"{VERIF}/engine/pbt.hpp"]
    d = f"{BUILD}/engine"
    os.makedirs(d, exist_ok=True)
    out = f"{d}/engine-{'san' if san else 'plain'}-{digest(*src)}.o"
    if not os.path.exists(out):
        tmp = f"{out}.{os.getpid()}.{threading.get_ident()}.tmp"
        r = sh(["g++", *ENG_FLAGS, *(["-fsanitize=address"] if san else []), "-c", src[0], "-o", tmp])
        if r.returncode:
            die("engine does not compile\n" + r.stdout)
        os.replace(tmp, out)
    return out


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


class CompileViolation(Exception):
    pass


def build(pid, cfg):
    """builds one configuration from the repository's current sources; returns the binary"""
    d = f"{BUILD}/{pid}/{cfg['name']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(f"{d}/gel")
    san = cfg.get("san", True)
    inc = ["-I", f"{VERIF}/harness", "-I", f"{REPO}/gel", "-I", REPO, "-I", f"{VERIF}/engine"]
    defs = [CONF] + [f"-D{x}" for x in cfg.get("defs", [])]
    std = ["-g1", "-w", *(["-O0"]), *inc, *defs]
    jobs = []
    need = cfg.get("need", [])
    objs = []
    repo_flags = (SAN + COV if san else []) + cfg.get("repo_flags", [])
    needed = set()
    for s in sorted(glob.glob(f"{REPO}/gel/**/*.c", recursive=True)):
        rel = os.path.relpath(s, f"{REPO}/gel")
        o = f"{d}/gel/{rel.replace('/', '_')}.o"
        req = any(rel == n for n in need)
        jobs.append((["gcc", *std, *repo_flags, "-c", s, "-o", o], o, "repo" if req else "other", rel))
    for s in cfg.get("shims", []):
        o = f"{d}/{s}.o"
        jobs.append((["gcc", *std, *(SAN + COV if san else []), *cfg.get("shim_flags", []), "-c", f"{VERIF}/harness/{s}", "-o", o], o, "shim", s))
    for s in cfg["harness"]:
        o = f"{d}/{s}.o"
        jobs.append((["g++", "-O1", "-g1", "-std=c++17", "-Wall", "-Wno-unused", *inc, *defs, *(SAN if san else []), "-c", f"{VERIF}/harness/{s}", "-o", o], o, "harness", s))
    lib = []
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: sh(j[0]), jobs))
    for (cmd, o, kind, name), r in zip(jobs, res):
        if r.returncode == 0:
            (lib if kind in ("repo", "other") else objs).append(o)
        elif kind == "repo":
            if cfg.get("must_compile"):
                raise CompileViolation(f"gel/{name} does not compile in configuration '{cfg['name']}' ({' '.join(cfg.get('defs', []))})\n{r.stdout[:700]}")
            die(f"gel/{name} does not compile\n{r.stdout[:700]}")
        elif kind == "other":
            pass
        elif kind == "shim" and cfg.get("must_compile"):
            raise CompileViolation(f"a program using the documented interface does not compile in configuration '{cfg['name']}'\n{r.stdout[:700]}")
        else:
            die(f"{name} does not compile\n{r.stdout[:700]}")
    a = f"{d}/libgel.a"
    sh(["ar", "rcs", a, *lib])
    exe = f"{d}/check"
    r = sh(["g++", "-g1", *(SAN if san else []), *objs, engine(san), a, *cfg.get("ld", []), "-o", exe])
    if r.returncode:
        if cfg.get("must_compile"):
            raise CompileViolation(f"a program using the documented interface does not link in configuration '{cfg['name']}'\n{r.stdout[:700]}")
        die(f"link of {pid}/{cfg['name']} failed\n{r.stdout[:700]}")
    return exe


def brief(s):
    """failure text without the sanitizer's memory dump"""
    s = s.split("Shadow bytes around")[0]
    return "\n".join(l[:300] for l in s.splitlines()[:60] if not (l.lstrip().startswith("#") and "(/lib" in l))[:2500]


def violation(pid, path):
    print(f"VIOLATION property={pid} replay={path}", flush=True)


def replay(path):
    path = os.path.abspath(path)
    pid = cfgname = None
    with open(path) as f:
        for line in f:
            if line.startswith("# property="):
                kv = dict(x.split("=", 1) for x in line[2:].split())
                pid, cfgname = kv["property"], kv["config"]
    if not pid:
        die("no '# property=.. config=..' line in " + path)
    cfg = next(c for c in PROPS[pid]["configs"] if c["name"] == cfgname)
    try:
        exe = build(pid, cfg)
    except CompileViolation as e:
        print(e)
        violation(pid, path)
        return 1
    r = sh([exe, "--render", "--replay", path])
    print(r.stdout, end="")
    if r.returncode == 1:
        violation(pid, path)
    return r.returncode


def main():
    if len(sys.argv) < 2:
        die("usage: run.py <property> | --setup | --replay <file>")
    if sys.argv[1] == "--setup":
        engine(True)
        engine(False)
        print("engine built")
        return 0
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    prop = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    rdir = os.path.join(os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays")))
    os.makedirs(rdir, exist_ok=True)
    total = dict(evaluations=0, distinct_nontrivial=0, nontrivial=0, discarded=0)
    samples, labels, configs, fails, rules = [], {}, [], [], []
    regress = 0
    with cf.ThreadPoolExecutor(4) as ex:
        futs = [(c, ex.submit(build, pid, c)) for c in prop["configs"]]
        exes = []
        for c, f in futs:
            try:
                exes.append((c, f.result()))
            except CompileViolation as e:
                p = f"{rdir}/{pid}-{c['name']}-build.txt"
                with open(p, "w") as o:
                    o.write(f"# property={pid} config={c['name']}\n# build failure (the replay rebuilds)\n" + "".join("#   " + l + "\n" for l in str(e).splitlines()))
                print(e)
                fails.append((c["name"], p, "does not build"))
    # 1. recorded minimal failures of earlier defects
    for c, exe in exes:
        tapes = [] if os.environ.get("VERIF_NOCORPUS") else sorted(glob.glob(f"{VERIF}/corpus/{pid}/{c['name']}/*.tape"))
        if tapes:
            regress += len(tapes)
            r = sh([exe] + [x for t in tapes for x in ("--replay", t)])
            if r.returncode == 1:
                for l in r.stdout.splitlines():
                    if l.startswith("REPLAY-FAIL "):
                        bad = l.split(" ", 1)[1]
                        rr = [sh([exe, "--render", "--replay", bad]) for _ in range(3)]
                        if all(x.returncode == 1 for x in rr):
                            p = f"{rdir}/{pid}-{c['name']}-{os.path.basename(bad)}"
                            with open(p, "w") as o:
                                o.write(f"# property={pid} config={c['name']}\n")
                                o.write(open(bad).read())
                            fails.append((c["name"], p, rr[0].stdout[-1500:]))
            elif r.returncode != 0:
                die(f"replay of the recorded cases failed: {r.stdout[:2000]}")
    # 2. seeded search, configuration by configuration
    wsum = sum(c.get("weight", 1) for c in prop["configs"])
    budget = prop[tier]
    for c, exe in exes:
        if any(f[0] == c["name"] for f in fails):
            continue
        n = max(64, int(budget * c.get("weight", 1) / wsum))
        d = os.path.dirname(exe)
        out, fl = f"{d}/result.json", f"{d}/fail.tape"
        limit = (600 if tier == "quick" else 14000) * c.get("weight", 1) * c.get("slow", 1) / wsum
        r = sh([exe, "--seed", str(seed), "--salt", str(zlib.crc32(f"{pid}/{c['name']}".encode())), "--cases", str(n), "--workers", "8", "--max-seconds", str(int(limit)), "--out", out, "--fail", fl, "--tmp", d])
        if r.returncode not in (0, 1) or not os.path.exists(out):
            die(f"{pid}/{c['name']}: engine exit {r.returncode}\n{r.stdout[:2000]}")
        j = json.load(open(out))
        for k in total:
            total[k] += j[k]
        for k, v in j["labels"].items():
            labels[k] = labels.get(k, 0) + v
        if j["rule"] not in rules:
            rules.append(j["rule"])
        configs.append(dict(name=c["name"], evaluations=j["evaluations"], distinct_nontrivial=j["distinct_nontrivial"], discarded=j["discarded"],
                            generated_choices=j["draws"], coverage_edges=j["edges"], search_corpus=j["corpus"], wall_s=j["wall"], stopped_by_time=j["timed_out"]))
        samples += [dict(config=c["name"], case=s.split("\n")) for s in j["samples"][:4]]
        if j["failed"]:
            if j["confirmed"] == 3:
                p = f"{rdir}/{pid}-{c['name']}.tape"
                with open(p, "w") as o:
                    o.write(f"# property={pid} config={c['name']}\n")
                    o.write(open(fl).read())
                print(f"[{pid}/{c['name']}] {brief(j['message'])}\n{brief(j['history'])}", flush=True)
                fails.append((c["name"], p, j["message"]))
            else:
                die(f"{pid}/{c['name']}: a failure did not reproduce: {j['message']}")
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=total["evaluations"], distinct_nontrivial=total["distinct_nontrivial"], rule=" | ".join(rules) or "build only",
                            samples=samples[:12], nontrivial=total["nontrivial"], discarded=total["discarded"], regression_cases_replayed=regress,
                            distribution=dict(sorted(labels.items())), configurations=configs),
              assumptions=prop.get("assumptions", []), wall_s=round(time.time() - t0, 3), violations=len(fails))
    edir = os.environ.get("VERIF_EVIDENCE", f"{VERIF}/evidence")
    os.makedirs(edir, exist_ok=True)
    with open(f"{edir}/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    if not os.environ.get("VERIF_KEEP_BUILD"):
        shutil.rmtree(f"{BUILD}/{pid}", ignore_errors=True)
    print(f"{pid}: {total['evaluations']} cases, {total['distinct_nontrivial']} distinct non-trivial, {len(fails)} violation(s), {ev['wall_s']} s")
    for name, p, msg in fails:
        violation(pid, p)
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main())
