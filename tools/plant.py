#!/usr/bin/env python3
"""plant.py SPEC.py...: make /verif/seeded/<ID> from a spec, after confirming it in a scratch copy of /repo.
A spec defines ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS and either YASL (program text; its output on the
unchanged tree is what the demo expects) or DEMO (text of demo.sh) with FILES {name: text}."""
import sys, os, subprocess, json, shutil, runpy
W = "/tmp/w/plant"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# The program beside this script must print what it prints on the unchanged tree, and exit likewise.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
timeout 120 ./_build/yasl "$D/demo.yasl" > "$T/out" 2> "$T/err" < /dev/null
echo "exit $?" >> "$T/out"
cmp "$T/out" "$D/expected.txt"
R=$?
rm -r "$T"
exit $R
'''
def plant(spec):
    s = runpy.run_path(spec)
    i = s["ID"]; d = f"{W}/{i}"; o = f"/verif/seeded/{i}"
    if os.path.exists(d): shutil.rmtree(d)
    sh(f"cp -a /repo {d}")
    orig = {}
    for f, a, b in s["EDITS"]:
        t = open(f"{d}/{f}").read()
        if t.count(a) != 1: return f"{i}: {f}: old text occurs {t.count(a)} times"
        open(f"{d}/{f}", "w").write(t.replace(a, b))
    diff = sh(f"git -C {d} diff").stdout
    # removed lines must be the original repository's
    cur = None; own = 0; ln = 0
    for l in diff.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        elif l.startswith("@@"): ln = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and not l.startswith("---"):
            b = sh(f"git -C /repo blame -s --abbrev=12 -L {ln},{ln} -- {cur}").stdout
            n = sh(f"git -C /repo merge-base --is-ancestor {b.split()[0].lstrip('^')} e583010").returncode
            if n: return f"{i}: removes a line of a fix: {l}"
            own += 1; ln += 1
        elif not l.startswith("+"): ln += 1
    if not own: print(f"{i}: note: no removed line")
    tmp = f"{W}/{i}.demo"
    if os.path.exists(tmp): shutil.rmtree(tmp)
    os.makedirs(tmp)
    for n, t in s.get("FILES", {}).items(): open(f"{tmp}/{n}", "w").write(t)
    if "YASL" in s:
        open(f"{tmp}/demo.yasl", "w").write(s["YASL"])
        r = subprocess.run(["timeout", "60", "/repo/_build/yasl", f"{tmp}/demo.yasl"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        open(f"{tmp}/expected.txt", "wb").write(r.stdout + b"exit %d\n" % r.returncode)
        if s.get("SHOW"): print(r.stdout.decode(), r.returncode)
        open(f"{tmp}/demo.sh", "w").write(DEMO)
    else: open(f"{tmp}/demo.sh", "w").write(s["DEMO"])
    ns = f"bash /tmp/w/inns.sh {d} "
    r = sh(f"cd /repo && bash {tmp}/demo.sh")
    if r.returncode: return f"{i}: demo fails on the unchanged tree: {r.stdout[-500:]}"
    r = sh(ns + "bash /opt/vp/build.sh")
    if r.returncode: return f"{i}: does not build: {r.stdout[-800:]}"
    r = sh(ns + f"bash {tmp}/demo.sh")
    if r.returncode == 0: return f"{i}: demo passes with the change"
    demo_out = r.stdout[-200:]
    sh(ns + f"bash /opt/vp/test.sh {W}/{i}.json")
    b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open(f"{W}/{i}.json"))
    reg = sorted(set(b["stable"]) - set(t["passed"]))
    if reg: return f"{i}: {len(reg)} tests regress: {reg[:5]}"
    os.makedirs(o, exist_ok=True)
    open(f"{o}/patch.diff", "w").write(diff)
    for n in os.listdir(tmp): shutil.copy(f"{tmp}/{n}", o)
    json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(f"{o}/meta.json", "w"), indent=1)
    shutil.rmtree(d); shutil.rmtree(tmp)
    return f"{i}: kept ({demo_out.strip()})"
for x in sys.argv[1:]: print(plant(x), flush=True)
