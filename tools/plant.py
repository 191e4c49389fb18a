#!/usr/bin/env python3
"""plant.py SPEC [id...]: turns the planted changes of a spec into seeded/<id>/,
confirms each in a scratch copy (build, stable tests, demonstration) and runs
its property's check against that copy. Not used by any check."""
import json, os, shutil, subprocess, sys, tempfile, re
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exits 0 when the demonstration passes against the code in the current folder
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOMODCACHE=/root/go/pkg/mod
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
grep -v 'github.com/go-vgo/gt/info ' go.mod > "$w/go.mod" && cp go.sum "$w/go.sum" || exit 3
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"%(extra)s}}' "$PWD" "$d" %(args)s> "$w/o.json"
export TMPDIR="$w"
timeout 240 go test -mod=readonly -modfile="$w/go.mod" -overlay "$w/o.json" -vet=off -count=1 %(flags)s -run '^TestDemo$' ./%(pkg)s > "$w/out" 2>&1
r=$?
tail -n 20 "$w/out"
exit $r
'''
def sh(cmd, cwd, env=None, to=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=to)
spec = {}
exec(open(sys.argv[1]).read(), spec)
want = set(sys.argv[2:])
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for s in spec["SEEDS"]:
    if want and s["id"] not in want:
        continue
    tmp = tempfile.mkdtemp(prefix="plant_")
    repo = os.path.join(tmp, "repo")
    sh("cp -a /repo %s" % repo, "/")
    try:
        dst = os.path.join(verif, "seeded", s["id"])
        os.makedirs(dst, exist_ok=True)
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(s["id"], "edit matches", n, "times in", f); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        patch = sh("git diff", repo).stdout
        flags = s.get("flags", "")
        demo = DEMO % dict(pkg=s["pkg"], extra="", args="", flags=flags)
        if "root" in s:
            demo = demo.replace('"%s/demo_test.go.txt"}}', '"%s/demo_test.go.txt","%s/info.go":"%s/info_stub.go.txt","%s/info_test.go":""}}').replace('"$PWD" "$d" >', '"$PWD" "$d" "$PWD" "$d" "$PWD" >')
            open(os.path.join(dst, "info_stub.go.txt"), "w").write("package riot\n\n// what info.go offers needs a module that is not here\nvar (\n\tInitMemUsed  uint64\n\tInitDiskUsed uint64\n)\n")
        open(os.path.join(dst, "patch.diff"), "w").write(patch)
        open(os.path.join(dst, "demo.sh"), "w").write(demo)
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        open(os.path.join(dst, "demo_test.go.txt"), "w").write(s["demo"].lstrip())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        env = dict(os.environ)
        mf = os.path.join(tmp, "m.mod")
        sh("grep -v 'github.com/go-vgo/gt/info ' go.mod > %s; cp go.sum %s" % (mf, mf[:-3] + "sum"), repo)
        env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly -modfile=" + mf)
        pk = re.search(r'PKGS="(.*)"', open("/opt/vp/env.sh").read()).group(1)
        b = sh("go build " + pk, repo, env)
        if b.returncode:
            print(s["id"], "DOES NOT BUILD", b.stdout[-500:]); continue
        t = sh("go test -json -vet=off -count=1 " + pk, repo, env)
        passed = set()
        for l in t.stdout.splitlines():
            try: d = json.loads(l)
            except Exception: continue
            if d.get("Action") == "pass" and d.get("Test"):
                passed.add(d["Package"] + "/" + d["Test"])
        if stable - passed:
            print(s["id"], "BREAKS TESTS", stable - passed); continue
        good = sh("bash %s/demo.sh" % dst, "/repo")
        bad = sh("bash %s/demo.sh" % dst, repo)
        d = "demo ok" if good.returncode == 0 and bad.returncode == 1 and ("--- FAIL: TestDemo" in bad.stdout or re.search(r"FAIL\tgithub.com\S+\t\d", bad.stdout) or "panic:" in bad.stdout or "fatal error:" in bad.stdout or "FATAL" in bad.stdout) else "DEMO WRONG: clean %d planted %d\n%s\n%s" % (good.returncode, bad.returncode, good.stdout[-700:], bad.stdout[-700:])
        r = sh("%s/bin/gosym -prop %s -noevidence" % (verif, s["property"]), verif, dict(os.environ, VERIF_REPO=repo))
        what = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        why = [l for l in r.stdout.splitlines() if l.startswith("h_") and "paths=" not in l]
        rp = os.path.join(verif, "tools", "seed_results.json")
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        res[s["id"]] = ("caught: " + (why or [""])[0]) if r.returncode == 1 and what else "missed"
        json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
        print(s["id"], s["property"], d, "| CAUGHT" if r.returncode == 1 and what else "| MISSED rc=%d\n%s" % (r.returncode, r.stdout[-1500:]), (why or [""])[0], flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
