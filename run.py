#!/usr/bin/env python3
"""Build one check against /repo's current working tree and run it.

  run.py ID [--tier quick|thorough] [--replay FILE] [--max-fail N] [...]
  run.py --build-all            (setup: compile everything once)
"""
import hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
INCS = ["", "compiler", "data-structures", "interpreter", "util", "std"]
WRAPS = ["malloc", "calloc", "realloc", "free", "fopen", "fclose"]

# checks/<file>.cpp : variant, extra link wraps
CONF = {}
def conf():
    for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if f.endswith(".cpp"):
            src = open(os.path.join(VERIF, "checks", f)).read()
            m = re.search(r"^// BUILD:(.*)$", src, re.M)
            opts = dict(kv.split("=", 1) for kv in m.group(1).split()) if m else {}
            CONF[f[:-4].upper()] = opts

def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def digest(*paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def sources():
    t = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"add_library\(\s*yaslapi(.*?)\)", t, re.S)
    return [s for s in re.findall(r"[\w./-]+\.c\b", m.group(1)) if not s.startswith("test/")]

def headers():
    r = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if not x.startswith((".", "_build", "test", "benchmarks"))]
        r += [os.path.join(d, f) for f in fs if f.endswith((".h", ".x", ".inl"))]
    return sorted(r)

def compile_many(jobs):
    """jobs: list of (out, cmd); skipped when out exists (content-addressed names)."""
    jobs = [(o, c) for o, c in jobs if not os.path.exists(o)]
    def one(j):
        o, c = j
        tmp = "%s.tmp%d" % (o, os.getpid())
        r = sh(c + ["-o", tmp])
        if r.returncode:
            return " ".join(c) + "\n" + r.stdout
        os.replace(tmp, o)
        return None
    with ThreadPoolExecutor(max_workers=16) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        print("BUILD ERROR\n" + errs[0])
        sys.exit(2)

def build(ids):
    os.makedirs(BUILD, exist_ok=True)
    hdr = digest(*headers())
    inc = ["-I" + os.path.join(REPO, i) for i in INCS]
    mch = digest(*[os.path.join(VERIF, "mc", f) for f in sorted(os.listdir(os.path.join(VERIF, "mc"))) if f.endswith(".hpp")])
    exes = {}
    jobs, links, seen = [], [], set()
    for variant in sorted({CONF[i].get("variant", "fast") for i in ids}):
        san = ["-fsanitize=address", "-DMC_ASAN", "-fno-omit-frame-pointer"] if variant.startswith("asan") else []
        cov = ["-fsanitize-coverage=trace-pc"] if variant == "asancov" else []      # a call at every basic block of YASL
        cflags = ["gcc", "-std=gnu99", "-g1", "-O1", "-fwrapv", "-fno-strict-aliasing", "-w"] + san + inc
        xflags = ["g++", "-std=c++17", "-g1", "-O1", "-fwrapv", "-w", "-I" + os.path.join(VERIF, "mc")] + san + inc
        lib = []
        for s in sources():
            p = os.path.join(REPO, s)
            o = os.path.join(BUILD, "%s-%s.o" % (s.replace("/", "_"), digest(p, extra=hdr + " ".join(cflags + cov))))
            jobs.append((o, cflags + cov + ["-c", p])); lib.append(o)
        base = []
        for f in ("heap.c", "mc.cpp"):
            p = os.path.join(VERIF, "mc", f)
            fl = cflags if f.endswith(".c") else xflags
            o = os.path.join(BUILD, "%s-%s.o" % (f, digest(p, extra=hdr + mch + " ".join(fl))))
            jobs.append((o, fl + ["-c", p])); base.append(o)
        for i in ids:
            if CONF[i].get("variant", "fast") != variant:
                continue
            p = os.path.join(VERIF, "checks", i.lower() + ".cpp")
            o = os.path.join(BUILD, "%s-%s.o" % (i, digest(p, extra=hdr + mch + " ".join(xflags))))
            jobs.append((o, xflags + ["-c", p]))
            extra = []
            if CONF[i].get("main"):                    # the command line tool, as a function
                p = os.path.join(REPO, "main.c")
                m = os.path.join(BUILD, "main-%s.o" % digest(p, extra=hdr + " ".join(cflags)))
                if (m, "main") not in seen:
                    seen.add((m, "main"))
                    jobs.append((m, cflags + ["-Dmain=yasl_main", "-c", p]))
                extra = [m]
            wraps = WRAPS + [w for w in CONF[i].get("wrap", "").split(",") if w]
            objs = [o] + extra + base + lib
            key = hashlib.sha256(" ".join(objs + wraps).encode()).hexdigest()[:24]
            exe = os.path.join(BUILD, "%s-%s.exe" % (i, key))
            links.append((exe, ["g++"] + san + objs + ["-Wl," + ",".join("--wrap=" + w for w in wraps)] + ["-lm", "-ldl", "-rdynamic"]))
            exes[i] = exe
    compile_many(jobs)
    compile_many(links)
    return exes

def main():
    conf()
    a = sys.argv[1:]
    if a and a[0] == "--build-all":
        build(sorted(CONF))
        return 0
    ident = a[0].upper()
    rest = a[1:]
    tier = "quick"
    if "--tier" in rest:
        tier = rest[rest.index("--tier") + 1]
    exe = build([ident])[ident]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    budget = CONF[ident].get("budget", "400") if tier == "quick" else CONF[ident].get("tbudget", "3000")
    cmd = [exe, ident, "--evidence", os.path.join(VERIF, "evidence", ident + ".json"),
           "--known", os.path.join(VERIF, "known_findings.txt"), "--replays", os.path.join(VERIF, "replays"),
           "--budget", budget, "--seed", os.environ.get("VERIF_SEED", "1"),
           "--workers", str(min(16, os.cpu_count() or 4))] + rest
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:quarantine_size_mb=8:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
    sys.stdout.flush()
    return subprocess.run(cmd, env=env, cwd="/tmp").returncode

if __name__ == "__main__":
    sys.exit(main())
