#!/usr/bin/env python3
"""mkseed.py SPEC.py...: makes /verif/seeded/<id> from a spec (id, property, needs, breaks,
edits=[(file, old, new)], pkg, demo=Go test body), after checking in a scratch copy that the change
applies to original lines, builds, passes the stable tests and is shown by its demonstration."""
import json, os, shutil, subprocess, sys, tempfile
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated case
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
%(mock)sprintf '{"Replace":{"%%s/%(pkg)s/zz_demo_seed_test.go":"%%s/demo_test.go"%(mockov)s}}' "$PWD" "$tmp"%(mockarg)s > "$tmp/ov.json"
timeout 250 go test -count=1 -vet=off -overlay "$tmp/ov.json" -run '^TestDemoSeed$' ./%(pkg)s
'''
def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def stable_fails(repo):
    pkgs = {}
    for t in base:
        p, n = t.rsplit("/", 1)
        pkgs.setdefault(p, []).append(n)
    bad = ""
    for p, l in pkgs.items():
        rc, o = sh(["go", "test", "-vet=off", "-count=1", "-run", "^(%s)$" % "|".join(l), p], repo)
        if rc: bad += o[-600:]
    return bad
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    S = ns["S"]
    for s in S:
        d = tempfile.mkdtemp(prefix="seed_")
        repo = os.path.join(d, "repo")
        try:
            subprocess.run(["cp", "-a", "/repo", repo], check=True)
            ok = True
            for f, old, new in s["edits"]:
                p = os.path.join(repo, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "edit does not match once:", f, t.count(old)); ok = False; break
                open(p, "w").write(t.replace(old, new))
            if not ok: continue
            rc, diff = sh(["git", "diff", "-U3"], repo)
            # blame of removed lines
            import re
            cur = None
            for l in diff.splitlines():
                if l.startswith("--- a/"): cur = l[6:]
                m = re.match(r"@@ -(\d+)", l)
                if m: n = int(m.group(1)); continue
                if l.startswith("-") and not l.startswith("---"):
                    b = sh(["git", "blame", "-s", "-l", "-L", "%d,%d" % (n, n), "HEAD", "--", cur], repo)[1]
                    if BASE[:39] not in b and l.strip("- \t"):
                        print(s["id"], "WARNING line not original:", l)
                    n += 1
                elif l.startswith(" "): n += 1
            rc, o = sh(["go", "build", "./..."], repo)
            if rc: print(s["id"], "does not build", o); continue
            out = "/verif/seeded/" + s["id"]
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            mocks = {None: [], False: [], True: ["mockfont"], "ot": ["mockfont", "mockot"]}[s.get("mock")]
            open(out + "/demo.sh", "w").write(DEMO % {"pkg": s["pkg"], "mock": "".join('cp "$here/%s.go.txt" "$tmp/%s_test.go"\n' % (m, m) for m in mocks),
                "mockov": "".join(',"%%s/%s/zz_demo_%s_test.go":"%%s/%s_test.go"' % (s["pkg"], m, m) for m in mocks), "mockarg": ' "$PWD" "$tmp"' * len(mocks)})
            for m in mocks:
                open(out + "/%s.go.txt" % m, "w").write(open("/verif/harness/pango/%s.go.txt" % m).read().replace("package PKG", "package " + s["pkg"], 1))
            os.chmod(out + "/demo.sh", 0o755)
            open(out + "/demo_test.go.txt", "w").write(s["demo"])
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            rc1, o1 = sh([out + "/demo.sh"], repo)
            rc0, o0 = sh([out + "/demo.sh"], "/repo")
            if rc0 != 0 or rc1 == 0 or "panic: test timed out" in o1 or "build failed" in o1:
                print(s["id"], "DEMO BAD clean=%d patched=%d" % (rc0, rc1)); print(o0[-1500:] if rc0 else o1[-1500:]); shutil.rmtree(out); continue
            # stable tests
            bad = stable_fails(repo)
            if bad: print(s["id"], "STABLE FAIL", bad); shutil.rmtree(out); continue
            p = subprocess.run(["/verif/check.sh", s["property"], "quick"], cwd="/verif", env=dict(ENV, VERIF_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            rc = p.returncode
            print([l for l in p.stdout.splitlines() if not l.startswith("  ")][-3:])
            print(s["id"], s["property"], "CAUGHT" if rc == 1 else "missed (rc %d)" % rc)
        finally:
            shutil.rmtree(d, ignore_errors=True)
