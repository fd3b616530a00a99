#!/usr/bin/env python3
"""Build clicon/cligen from REPO's working tree and decide one property.
   run.py C01 [--tier quick|thorough] [--replay FILE] [--seed N] [--cases N]"""
import os, sys, json, subprocess, shutil, time, argparse, glob, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); H = os.path.join(V, "harness")
REPO = os.environ.get("VF_REPO", "/repo")
LIB = "object callback parsetree pt_head handle cv match result read io expand syntax print cvec buf util history regex getline".split()
SAN = "-fsanitize=address,bounds,signed-integer-overflow,shift,null,return,integer-divide-by-zero,unreachable,vla-bound -fno-sanitize-recover=all"
LIBF = f"-g -O1 -fno-omit-frame-pointer -w {SAN} -fsanitize-coverage=inline-8bit-counters -DHAVE_CONFIG_H -I/usr/include/libxml2"
REDIR = "malloc calloc realloc free strdup strndup read write select poll isatty tcgetattr tcsetattr ioctl kill fork waitpid raise regcomp regfree xmlRegexpCompile xmlRegFreeRegexp".split()

def die(msg, rc=2):
    print("ERROR: " + msg); sys.exit(rc)
def sh(cmd, cwd=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout
def ck(cmd, cwd=None):
    rc, o = sh(cmd, cwd)
    if rc: raise RuntimeError(f"{cmd}\n{o[-4000:]}")

def build(prop, bdir):
    """sources -> objects with redirected system calls -> test binary"""
    src = os.path.join(bdir, "src"); os.makedirs(src)
    for f in glob.glob(os.path.join(REPO, "*")):
        b = os.path.basename(f)
        if not os.path.isfile(f) or not b.endswith((".c", ".h", ".y", ".l")): continue
        if b in ("cligen_config.h", "build.c", "lex.cligen_parse.c") or b.startswith("cligen_parse.tab."): continue
        shutil.copy(f, src)
    shutil.copy(os.path.join(H, "config/cligen_config.h"), src)
    os.symlink(".", os.path.join(src, "cligen"))
    with open(os.path.join(src, "build.c"), "w") as f:
        f.write('const char CLIGEN_BUILDSTR[64]="verif";\nconst char CLIGEN_VERSION[64]="7.3.0";\n')
    ck("bison -y -l -d -b cligen_parse -p cligen_parse cligen_parse.y 2>&1; flex -Pcligen_parse cligen_parse.l", src)
    redir = " ".join(f"--redefine-sym {s}=vf_{s}" for s in REDIR)
    jobs = []
    for m in LIB: jobs.append((f"cligen_{m}.c", f"{m}.o", ""))
    # a source file added to the library's SRC list by a change is compiled too
    try:
        mk = open(os.path.join(REPO, "Makefile.in")).read().replace("\\\n", " ")
        for line in mk.splitlines():
            if line.startswith("SRC") and "=" in line:
                for w in line.split("=", 1)[1].split():
                    if w.endswith(".c") and w not in ("build.c",) and w[7:-2] not in LIB and os.path.exists(os.path.join(src, w)):
                        jobs.append((w, "x_" + w[:-2] + ".o", ""))
    except OSError: pass
    jobs += [("cligen_parse.tab.c", "ptab.o", ""), ("lex.cligen_parse.c", "lex.o", "-DYY_NO_INPUT"), ("build.c", "build.o", "")]
    def cc(j):
        s, o, x = j
        ck(f"clang {LIBF} {x} -I. -c {s} -o {o} && objcopy {redir} {o}", src)
        return o
    xx = f"clang++ -std=c++17 -g -O1 -fno-omit-frame-pointer -w -fsanitize=address -I{src} -I{H} -D_GNU_SOURCE -DHAVE_CONFIG_H"
    hs = [prop_source(prop), "main.cc", "vf_sys.cc"] + support(prop_source(prop))
    def cxx(f):
        o = os.path.join(bdir, os.path.basename(f)[:-3] + ".o")
        ck(f"{xx} -c {os.path.join(H, f)} -o {o}", src); return o
    with ThreadPoolExecutor(8) as ex:
        h = [ex.submit(cxx, f) for f in hs]; a = [ex.submit(cc, j) for j in jobs]
        objs = [os.path.join(src, f.result()) for f in a] + [f.result() for f in h]
    exe = os.path.join(bdir, "check")
    ck(f"clang++ {SAN} -g {' '.join(objs)} -o {exe} -lxml2")
    return exe

def prop_source(prop):
    m = json.load(open(os.path.join(H, "props.json")))
    return m[prop]["source"]
def support(main_src):
    t = open(os.path.join(H, main_src)).read(); r = []
    for line in t.splitlines():
        if line.startswith("// LINK:"): r += line[8:].split()
    return r

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1")); ap.add_argument("--replay"); ap.add_argument("--cases", type=int)
    ap.add_argument("--keep", action="store_true"); ap.add_argument("--time", type=float); ap.add_argument("--noev", action="store_true")
    a = ap.parse_args(); t0 = time.time()
    conf = json.load(open(os.path.join(H, "props.json")))[a.prop]
    try: seed = int(a.seed)
    except ValueError: seed = int(hashlib.sha256(a.seed.encode()).hexdigest()[:8], 16)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=f"{a.prop}.", dir=os.path.join(V, "build"))
    rc = 2
    try: rc = decide(a, conf, seed, tier, bdir, t0)
    finally:
        if not a.keep: shutil.rmtree(bdir, ignore_errors=True)
        for f in glob.glob(f"/tmp/vf_{os.getpid()}_*"): os.unlink(f)
    sys.exit(rc)

def decide(a, conf, seed, tier, bdir, t0):
    try: exe = build(a.prop, bdir)
    except RuntimeError as e:
        print(str(e)); die(f"{a.prop}: /repo does not build")
    tb = time.time() - t0
    env = dict(os.environ, TZ="UTC", LC_ALL="C", ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=12:max_allocation_size_mb=1024:symbolize=1:allow_user_segv_handler=0", UBSAN_OPTIONS="print_stacktrace=1", ASAN_SYMBOLIZER_PATH=shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or "/usr/lib/llvm-18/bin/llvm-symbolizer")
    if a.replay:
        p = subprocess.run([exe, "--replay", a.replay, "--seed", str(seed)], env=env); return p.returncode
    cases = a.cases or conf[tier]; tlim = a.time or (600 if tier == "quick" else 3000)
    rdir = os.path.join(V, "replays"); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, f"{a.prop}-{tier}-{seed}.json"); out = os.path.join(bdir, "out.json")
    if os.path.exists(rp): os.unlink(rp)
    p = subprocess.run([exe, "--seed", str(seed), "--cases", str(cases), "--time", str(tlim), "--out", out, "--replay-out", rp, "--workers", "8"], env=env, stdout=subprocess.PIPE, text=True, errors="replace")
    sys.stdout.write(p.stdout)
    if not os.path.exists(out): die(f"{a.prop}: no result (exit {p.returncode})")
    j = json.load(open(out)); props = {x["id"]: x for x in map(json.loads, open(os.path.join(V, "properties.jsonl")))}
    known = []
    try:
        for line in open(os.path.join(V, "known_findings.txt")):
            line = line.strip()
            if line.startswith("known:") and f"property={a.prop} " in line + " ": known.append(line.split(f"property={a.prop}", 1)[1].strip())
    except OSError: pass
    for k in known: print(f"KNOWN-FINDING: property={a.prop} {k}")
    viol = j["violation"]
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": j["evaluations"], "distinct_nontrivial": j["distinct_nontrivial"], "rule": j["rule"], "samples": j["samples"],
                       "nontrivial": j["nontrivial"], "trivial": j["trivial"], "classes": j["labels"], "avg_choices_per_case": j["avg_choices"],
                       "coverage_increasing_cases": j["coverage_increasing_cases"], "unreproducible": j["unreproducible"], "excluded_known": sum(v for k, v in j["labels"].items() if k.startswith("known:"))},
          "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - t0, 2)}
    ev["violations"] = 1 if viol else 0
    ev["build_s"] = round(tb, 2)
    if not a.noev:
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", f"{a.prop}.json"), "w") as f: json.dump(ev, f, indent=1)
    if viol:
        print(f"VIOLATION property={a.prop} replay={rp}"); return 1
    print(f"OK {a.prop} tier={tier} seed={seed} evaluations={j['evaluations']} distinct_nontrivial={j['distinct_nontrivial']} wall={ev['wall_s']}s build={tb:.1f}s")
    return 0
main()
