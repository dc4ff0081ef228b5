#!/usr/bin/env python3
"""Mutation sweep (development aid, no check uses it):  mutate.py OUT [file...]   Mutates the files under gel one token or
statement at a time, runs the properties' harnesses on each mutant and lists the mutants nobody notices."""
import concurrent.futures as cf, os, re, shutil, subprocess, sys, random
sys.path.insert(0, "/verif/checks")
os.environ.setdefault("VERIF_BUILD", "/tmp/mut/build")
import run
from registry import PROPS
MAP = {"circular_event_log": ["C06", "C07"], "circular_buffer": ["C01", "C02"], "listx": ["C05"], "queue": ["C03"], "stack": ["C04", "C17", "C18"], "crc16": ["C08"], "crc32": ["C09"],
       "maybe": ["C10"], "struct_update": ["C11"], "watcher": ["C12", "C13"], "pulsecounter": ["C15"], "debounce": ["C14"], "keypad": ["C16"], "page_manager": ["C17", "C18"],
       "parameter": ["C19", "C20", "C21", "C22"], "pid": ["C23", "C24"], "scheduler": ["C25", "C26", "C27", "C28"], "serializer": ["C29", "C27"], "state_machine": ["C30"],
       "stopwatch": ["C32", "C33"], "timer/timer": ["C33"], "timecheck": ["C31", "C32", "C16"], "wearleveling": ["C34", "C35", "C36"]}
S = "/tmp/mut"
OPS = [(r"(?<![<>=!-])<(?![<=])", ["<=", ">="]), (r"<=", ["<", ">"]), (r"(?<![->=])>(?![>=])", [">=", "<="]), (r"(?<!>)>=", [">", "<"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<![+\w(=,\-*/] )(?<=[\w)\]] )\+(?![+=])", ["-"]), (r"(?<=[\w)\]] )-(?![-=>])", ["+"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\|=", ["=", "&="]), (r"&=", ["|="]),
       (r"\+\+", ["--"]), (r"--", ["++"]), (r"<<", [">>"]), (r">>", ["<<"]), (r"(?<=[\w)\]] )%(?= )", ["*", "/"]), (r"(?<=[\w)\]] )\*(?= )", ["+"]), (r"(?<=[\w)\]] )&(?= )", ["|"]), (r"(?<=[\w)\]] )\|(?= )", ["&"]),
       (r"(?<![\w.])\d+(?:UL|ULL|U|L)?(?![\w.])", ["N+1", "N-1"]), (r"0x[0-9A-Fa-f]+", ["N+1", "N-1"]), (r"!(?=[\w(])", [""]),
       (r"\bunsigned long\b", ["uint32_t", "uint16_t"]), (r"\bsize_t\b", ["uint8_t", "uint16_t"]), (r"\buint32_t\b", ["int32_t", "uint16_t"]), (r"\buint16_t\b", ["int16_t", "uint8_t"]), (r"\buint8_t\b", ["int8_t"]),
       (r"\bint64_t\b", ["int32_t"]), (r"\buint64_t\b", ["int64_t"]), (r"\bunsigned int\b", ["int", "uint8_t"]), (r"(?<!unsigned )\bint\b(?! \w+\()", ["int8_t"]), (r"\bfloat\b", ["int"]), (r"\bdouble\b", ["float"]),
       (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"\breturn ([^;{]+);", ["return 0;", "return 1;", "return -1;"]), (r"\bNULL\b", []), (r"\bINCLUDED\(([^()]*)\)", ["0"]), (r"else if \(", ["else if (0 && "]), (r"\bif \((?!.*\bif \()", ["if (1 || ", "if (0 && "])]
def code_mask(src):
    m = bytearray(b"1" * len(src))
    for x in re.finditer(r"/\*.*?\*/|//[^\n]*|\"[^\"\n]*\"|^#include.*?$|^#(?:if|ifdef|ifndef|endif|else|elif|error)[^\n]*", src, re.S | re.M):
        for k in range(*x.span()): m[k] = 48
    return m
def mutants(path):
    src = open(path, newline="").read()
    mask = code_mask(src)
    out = []
    for pat, reps in OPS:
        for x in re.finditer(pat, src):
            if mask[x.start()] == 48: continue
            for r in reps:
                t = r
                if "N" in r and r[0] == "N":
                    lit = x[0]; suf = re.search(r"[UL]*$", lit)[0]; n = int(lit[:len(lit) - len(suf)], 0); n += 1 if "+" in r else -1
                    if n < 0: continue
                    t = (hex(n) if lit.startswith("0x") else str(n)) + suf
                if t != x[0] and t.strip() != x[0].strip(): out.append((x.start(), x.end(), t))
    for x in re.finditer(r"^[ \t]+(?!return|break|continue|case|default|typedef|size_t|int\b|uint|unsigned|[A-Z_a-z0-9]+ +\*?\w+ *(?:=|;|\[))[^\n;{}#]*;(?=[ \t]*\\?\r?$)", src, re.M):
        if mask[x.end() - 1] == 48 or x[0].strip() == ";": continue
        out.append((x.start(), x.end(), " " * 4 + ";"))
    return src, out
def prep(pid):
    for c in PROPS[pid]["configs"]: run.build(pid, c)
def test(pid, c, w, header, k):
    """'killed' / 'survived' / 'nocompile'"""
    d, base = f"{w}/{pid}-{c['name']}", f"{run.BUILD}/{pid}/{c['name']}"
    os.makedirs(d, exist_ok=True)
    san = c.get("san", True)
    inc = ["-I", f"{run.VERIF}/harness", "-I", f"{w}/gel", "-I", w, "-I", f"{run.VERIF}/engine"]
    defs = [run.CONF] + [f"-D{x}" for x in c.get("defs", [])]
    std = ["-g1", "-w", "-O0", *inc, *defs]
    o = []
    try:
        for s in (c["need"] if not header else c["need"]):
            f = f"{d}/{s.replace('/', '_')}.o"
            r = run.sh(["gcc", *std, *(run.SAN + run.COV if san else []), *c.get("repo_flags", []), "-c", f"{w}/gel/{s}", "-o", f])
            if r.returncode: return "nocompile"
            o.append(f)
        for s in c["shims"]:
            f = f"{d}/{s}.o"
            r = run.sh(["gcc", *std, *(run.SAN + run.COV if san else []), *c.get("shim_flags", []), "-c", f"{run.VERIF}/harness/{s}", "-o", f])
            if r.returncode: return "nocompile"
            o.append(f)
        for s in c["harness"]:
            f = f"{base}/{s}.o"
            if header:
                f = f"{d}/{s}.o"
                r = run.sh(["g++", "-O1", "-g1", "-std=c++17", "-w", *inc, *defs, *(run.SAN if san else []), "-c", f"{run.VERIF}/harness/{s}", "-o", f])
                if r.returncode: return "nocompile"
            o.append(f)
        exe = f"{d}/check"
        r = run.sh(["g++", *(run.SAN if san else []), *o, run.engine(san), f"{base}/libgel.a", *c.get("ld", []), "-o", exe])
        if r.returncode: return "nocompile"
        n = max(64, int(PROPS[pid]["quick"] * c.get("weight", 1) / sum(x.get("weight", 1) for x in PROPS[pid]["configs"])))
        import zlib
        r = run.sh([exe, "--seed", "1", "--salt", str(zlib.crc32(f"{pid}/{c['name']}".encode())), "--cases", str(n), "--workers", "2", "--max-seconds", "100", "--out", f"{d}/r.json", "--fail", f"{d}/f.tape", "--tmp", d], env=dict(os.environ, PBT_NOSHRINK="1"))
        return "killed" if r.returncode == 1 else "survived" if r.returncode == 0 else f"error {r.returncode}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
def one(a):
    k, rel, src, (s, e, t) = a
    w = f"{S}/m{k}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo/gel", f"{w}/gel")
    open(f"{w}/gel/{rel}", "w", newline="").write(src[:s] + t + src[e:])
    line = src.count("\n", 0, s) + 1
    ls = src.rfind("\n", 0, s) + 1; le = src.find("\n", e)
    new = (src[ls:s] + "{{" + t + "}}" + src[e:le]).strip().rstrip("\\").strip()
    try:
        pids = next(v for q, v in MAP.items() if q in rel)
        allno = True
        for p in pids:
            for c in PROPS[p]["configs"]:
                r = test(p, c, w, rel.endswith(".h"), k)
                if r == "killed": return k, "killed", rel, line, f"{new}   [{p}/{c['name']}]"
                if r != "nocompile": allno = False
                elif c.get("must_compile"): pass
                if r.startswith("error"): return k, r, rel, line, new
        return k, "nocompile" if allno else "SURVIVED", rel, line, new
    finally:
        shutil.rmtree(w, ignore_errors=True)
def main():
    out, files = sys.argv[1], sys.argv[2:]
    random.seed(int(os.environ.get("MUT_SEED", "1")))
    n = int(os.environ.get("MUT_N", "1000000"))
    work, pids = [], set()
    for q, v in MAP.items():
        for r in sorted(subprocess.run(["git", "-C", "/repo", "ls-files", "gel"], stdout=subprocess.PIPE, text=True).stdout.split()):
            rel = r[4:]
            if q in rel and (not files or any(f in rel for f in files)) and not (q == "stack" and "page" in rel):
                src, ms = mutants(f"/repo/{r}")
                ms = sorted(set(ms))
                if len(ms) > n: ms = random.sample(ms, n)
                work += [(rel, src, m) for m in ms]; pids |= set(v)
    work = [(k, *x) for k, x in enumerate(work)]
    print(len(work), "mutants", flush=True)
    run.engine(True); run.engine(False)
    for p in sorted(pids): prep(p)
    tally = {}
    with open(out, "w") as f, cf.ThreadPoolExecutor(int(os.environ.get("MUT_J", "5"))) as ex:
        for r in ex.map(one, work):
            tally[r[1]] = tally.get(r[1], 0) + 1
            print(*r[1:], file=f, flush=True)
    print(tally)
main()
