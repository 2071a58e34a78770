#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py   (development tool, not run by any check)
SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO_C and/or DEMO_SH.
Confirms everything in a scratch copy and writes /verif/seeded/ID/."""
import sys, os, subprocess, shutil, json, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
SH = '''#!/bin/bash
# The program demo.c, compiled by the compiler under test, must run and return 0.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
timeout 20 bin/cc -I include -c "$here/demo.c" -o "$d/x.o" || exit 1
gcc -no-pie "$d/x.o" -o "$d/x" || exit 1
timeout 20 "$d/x"
'''
d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
def inns(cmd):
    return subprocess.run(["unshare", "-rm", "bash", "-c", "mount --bind %s/repo /repo && cd /repo && %s" % (d, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
def run(): 
    subprocess.run(["cp", "-a", os.environ.get("VP_REPO", "/repo"), d + "/repo"], check=True)
    out = "/verif/seeded/" + ns["ID"]
    t = d + "/demo"; os.makedirs(t)
    if "DEMO_C" in ns: open(t + "/demo.c", "w").write(ns["DEMO_C"].lstrip("\n"))
    open(t + "/demo.sh", "w").write(ns.get("DEMO_SH", SH).lstrip("\n"))
    for n, c in ns.get("EXTRA", {}).items(): open(t + "/" + n, "w").write(c.lstrip("\n"))
    r = inns("bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh" % t)
    if r.returncode: return "demo fails on the unchanged tree: " + r.stdout.decode()[-500:]
    for f, old, new in ns["EDITS"]:
        p = d + "/repo/" + f; s = open(p).read()
        if s.count(old) != 1: return "edit matches %d times: %s" % (s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", d + "/repo", "diff"], stdout=subprocess.PIPE).stdout
    r = inns("bash /opt/vp/build.sh 2>&1 | grep -E 'error' ; bash %s/demo.sh" % t)
    if r.returncode == 0: return "demo passes with the bug"
    print("demo with bug:", r.returncode, r.stdout.decode("latin-1")[-300:])
    r = inns("bash /opt/vp/test.sh %s/o.json 2>&1 | tail -3" % d)
    o = json.load(open(d + "/o.json"))
    if o["failed"] or len(o["passed"]) < 244: return "tests notice: %d passed, failed %s" % (len(o["passed"]), o["failed"][:5])
    os.makedirs(out, exist_ok=True)
    for n in os.listdir(t): shutil.copy(t + "/" + n, out)
    open(out + "/patch.diff", "wb").write(diff)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    return None
e = run()
shutil.rmtree(d)
print(ns["ID"], "PLANTED" if e is None else "REJECTED: " + e)
