#!/usr/bin/env python3
"""Development tool: turns bug definitions (tools/seeds/*.py) into seeded/<id>/ after confirming each one
in a scratch copy of /repo. usage: seed.py DEFS.py [ID...]"""
import json, os, subprocess, sys, shutil
W, REPO, OUT = "/tmp/seedw", "/repo", "/verif/seeded"
ENV = ". /opt/vp/env.sh; "
BASE = open("/verif/tools/base_commit").read().strip()
def sh(cmd, cwd=W, timeout=600):
    p = subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, capture_output=True, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout + p.stderr
DEMO = '''#!/bin/bash
# Runs a test that lies beside this file inside package %(pkg)s of the repository in the working directory.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_seeded_demo_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
go test -count=1 -vet=off -tags timetzdata -timeout 120s -overlay "$tmp/overlay.json" -run '^TestSeededDemo$' %(flags)s "./%(pkg)s" 2>&1 | tail -30
exit "${PIPESTATUS[0]}"
'''
SEEDS = {}
def seed(id, prop, edits, needs, breaks, test, pkg=".", flags=""):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, test=test, pkg=pkg, flags=flags)
exec(open(sys.argv[1]).read())
want = sys.argv[2:] or list(SEEDS)
for id in want:
    s = SEEDS[id]
    subprocess.run(["rm", "-rf", W]); subprocess.run(["cp", "-a", REPO, W])
    sh("git checkout -q -- . && git clean -fdq")
    ok = True
    for f, old, new in s["edits"]:
        p = os.path.join(W, f); t = open(p).read()
        if t.count(old) != 1:
            print(id, "EDIT matches", t.count(old), "times in", f, repr(old)[:80]); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok: continue
    rc, diff = sh("git diff")
    # changed lines must be original ones
    cur = None; origs = {}; touched = 0
    for l in diff.split("\n"):
        if l.startswith("--- a/"): cur = l[6:]
        elif l.startswith("-") and not l.startswith("---"):
            if cur not in origs: origs[cur] = set(subprocess.run(["git", "show", f"{BASE}:{cur}"], cwd=REPO, capture_output=True, text=True).stdout.split("\n"))
            touched += 1
            if l[1:] not in origs[cur] : print(id, "WARNING: line not original:", l)
    if not touched: print(id, "WARNING: only adds lines")
    rc, out = sh("go build -tags timetzdata ./... && gofmt -l . | grep -v examples; go test -tags timetzdata -vet=off -count=1 ./...")
    if rc: print(id, "TESTS FAIL / build\n", "\n".join(x for x in out.split("\n") if "FAIL" in x or "error" in x.lower() or ".go:" in x)[:1500]); continue
    d = os.path.join(OUT, id); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO % dict(pkg=s["pkg"], flags=s["flags"]))
    open(d + "/demo_test.go.txt", "w").write(s["test"].strip() + "\n")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r1, o1 = sh(f"bash {d}/demo.sh", cwd=W)
    sh("git checkout -q -- .")
    r0, o0 = sh(f"bash {d}/demo.sh", cwd=W)
    if r0 != 0 or r1 == 0 or "SEEDED" not in o1:
        print(id, "DEMO wrong: clean", r0, "patched", r1, "\n", o0[-1500:] if r0 else o1[-1500:]); shutil.rmtree(d); continue
    # does the property's check see it?
    sh(f"git apply {d}/patch.diff")
    env = dict(os.environ, VERIF_REPO=W, VERIF_TIER="quick")
    p = subprocess.run(["bash", "/verif/run.sh", s["prop"]], env=env, capture_output=True, text=True)
    print(id, "ok; check", s["prop"], "exit", p.returncode, "CAUGHT" if p.returncode == 1 and f"VIOLATION property={s['prop']}" in p.stdout else "MISSED " + (p.stdout + p.stderr)[-300:])
subprocess.run(["rm", "-rf", W])
