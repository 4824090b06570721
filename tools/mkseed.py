#!/usr/bin/env python3
"""mkseed.py ID...        (re)make /verif/seeded/ID from tools/seeds/ID.py and confirm it
mkseed.py --check ID...   apply the patch to /repo, run the quick check of its property, undo
mkseed.py --demo ID...    only confirm the demo (skip the stable tests)
The spec defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], PKG, DEMO (Go test source with TestZZDemo)."""
import json, os, subprocess, sys, runpy, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = '''#!/bin/bash
# exit 0: the behaviour is as promised; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp "$here"/demo_test.go.txt "$t/demo_test.go"
echo '{"Replace":{"/repo/%(pkg)s/zz_demo_test.go":"'"$t"'/demo_test.go"%(extra)s}}' > "$t/overlay.json"
cd /repo && go test -vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def clean():
    return sh(f"git -C {R} status --porcelain --untracked-files=no").stdout.strip() == ""
def make(id, fast):
    s = runpy.run_path(f"{V}/tools/seeds/{id}.py")
    if not clean(): sys.exit("repo not clean")
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    extra = ""
    # TestMain of client and server packages starts a test server: hide it
    hide = {"server": ["server_test.go","namespace_manager_delete_test.go","testserver_test.go"], "client": ["client_test.go","testserver_test.go","example_client_browse_test.go","example_client_call_test.go","example_client_createsubscription_test.go","example_client_read_test.go"]}
    for f in hide.get(s["PKG"], []):
        extra += f',"/repo/{s["PKG"]}/{f}":""'
    open(d+"/demo_test.go.txt","w").write(s["DEMO"].lstrip("\n"))
    open(d+"/demo.sh","w").write(DEMO % dict(pkg=s["PKG"], extra=extra)); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":s["PROPERTY"],"needs":s["NEEDS"],"what_it_breaks":s["BREAKS"]}, open(d+"/meta.json","w"), indent=1)
    ok = True
    r = sh(f"cd {R} && bash {d}/demo.sh")
    if r.returncode != 0:
        print(id, "DEMO FAILS ON UNCHANGED TREE\n", r.stdout[-3000:], r.stderr[-2000:]); return False
    try:
        for e in s["EDITS"]:
            f, old, new = e[:3]
            t = open(f"{R}/{f}").read()
            if len(e) > 3: # the nth occurrence (from 0)
                p = t.split(old)
                if len(p) < e[3]+2: print(id, "edit matches", len(p)-1, old); return False
                open(f"{R}/{f}","w").write(old.join(p[:e[3]+1])+new+old.join(p[e[3]+1:])); continue
            if t.count(old) != 1:
                print(id, "edit does not match once:", t.count(old), old); return False
            open(f"{R}/{f}","w").write(t.replace(old,new))
        first = sh(f"git -C {R} rev-list --max-parents=0 HEAD").stdout.strip()[:8]
        f = None
        for l in sh(f"git -C {R} diff -U0").stdout.splitlines():
            if l.startswith("--- a/"): f = l[6:]
            if l.startswith("@@"):
                o = l.split()[1][1:].split(",")
                n = int(o[1]) if len(o) > 1 else 1
                if n == 0: print(id, "note: pure insertion at", f, o[0]); continue
                for b in sh(f"git -C {R} blame -s -L {o[0]},+{n} HEAD -- {f}").stdout.splitlines():
                    if not b.lstrip("^").startswith(first[:7]): print(id, "NOT AN ORIGINAL LINE:", b)
        open(d+"/patch.diff","w").write(sh(f"git -C {R} diff").stdout)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(id,"does not build", b.stderr[-2000:]); return False
        if not fast:
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            res = json.load(open("/tmp/seedtest.json"))
            if base is not None:
                missing = base - set(res["passed"])
                if missing: print(id,"STABLE TESTS FAIL", sorted(missing)); ok=False
            else: print(res.keys())
        r = sh(f"cd {R} && bash {d}/demo.sh")
        if r.returncode == 0: print(id,"DEMO PASSES WITH THE PATCH"); ok=False
    finally:
        sh(f"git -C {R} checkout -- .")
    print(id, "made" if ok else "NOT OK")
    return ok
def check(id, tier="quick"):
    d = f"{V}/seeded/{id}"
    p = json.load(open(d+"/meta.json"))["property"]
    if not clean(): sys.exit("repo not clean")
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode: print(id,"does not apply",a.stderr); return
    try:
        r = sh(f"cd {V} && bash check.sh {p} {tier}")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(id, p, "CAUGHT" if r.returncode==1 and v else f"MISSED rc={r.returncode}", v[:1], [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")][-3:] if not v else "")
        if r.returncode not in (0,1): print(r.stderr[-1500:])
    finally:
        sh(f"git -C {R} checkout -- .")
args = sys.argv[1:]
if args[0] == "--check":
    for i in args[1:]: check(i)
elif args[0] == "--demo":
    for i in args[1:]: make(i, True)
else:
    for i in args: make(i, False)
