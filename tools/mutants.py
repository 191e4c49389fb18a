#!/usr/bin/env python3
"""mutants.py OUT N SEED JOBS FILE...: picks N small changes of the files at random
(tools/mut), keeps those that build and pass the stable tests, and runs the
checks of the properties anchored there until one reports. Results go to OUT
(JSON lines). Not used by any check."""
import json, os, random, re, subprocess, sys, tempfile, shutil, threading, queue, time
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, n, seed, jobs, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
CHECKS = [
    ("core/indexer.go", "C04 C02 C06 C05 C01 C23 C03 C07 C08"),
    ("core/ranker.go", "C11 C12 C09 C10 C07 C08"),
    ("core/uint64.go", "C14"), ("core/data.go", "C27"),
    ("engine.go", "C17 C19 C20 C22 C31 C21 C34 C18 C32"), ("riot.go", "C31 C22"), ("segment.go", "C21 C30 C05 C19 C34"),
    ("indexer_worker.go", "C17 C20 C19 C18 C21 C32"), ("ranker_worker.go", "C17 C19 C20 C18 C32"), ("store_worker.go", "C22 C18 C32"),
    ("stop_tokens.go", "C21 C30 C31"), ("store/", "C16 C15"), ("types/", "C13 C12"),
    ("net/com/", "C25 C31"), ("net/grpc/riot-pb", "C28 C29"), ("net/grpc/", "C25 C24 C34"), ("net/http/", "C25 C24 C34"), ("net/heartb/", "C26 C33"),
]
base = "/repo" if not os.environ.get("VERIF_REPO") else os.environ["VERIF_REPO"]
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOMODCACHE="/root/go/pkg/mod")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
PK = "./core/... ./engine/... ./store/... ./types/... ./utils/... ./net/heartb/... ./net/grpc/riot-pb/..."
def sh(cmd, cwd, to, e=env):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=to)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ""
muts = []
for f in files:
    l = json.loads(subprocess.run(["/tmp/mut", f], cwd=base, stdout=subprocess.PIPE, text=True).stdout) or []
    muts += l
random.Random(seed).shuffle(muts)
q, lock, left = queue.Queue(), threading.Lock(), [n]
for m in muts:
    q.put(m)
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d["File"], d["From"], d["To"], d["New"]))
def work():
    tmp = tempfile.mkdtemp(prefix="mut_")
    repo = os.path.join(tmp, "repo")
    sh("cp -a %s %s" % (base, repo), "/", 60)
    mf = os.path.join(tmp, "m.mod")
    sh("grep -v 'github.com/go-vgo/gt/info ' go.mod > %s; cp go.sum %s" % (mf, mf[:-3] + "sum"), repo, 60)
    e = dict(env, GOFLAGS="-mod=readonly -modfile=" + mf)
    while True:
        with lock:
            if left[0] <= 0 or q.empty():
                break
            m = q.get()
            if (m["File"], m["From"], m["To"], m["New"]) in done:
                continue
            left[0] -= 1
        p = os.path.join(repo, m["File"])
        src = open(p, "rb").read()
        open(p, "wb").write(src[:m["From"]] + m["New"].encode() + src[m["To"]:])
        res = ""
        t0 = time.time()
        try:
            rc, o = sh("go build " + PK + " ./net", repo, 120, e)
            if rc == 0 and "/" not in m["File"] or m["File"].startswith("net/"):
                rc, o = sh("go vet -printf=false ./%s 2>&1 | grep -v 'go-vgo/gt/info\\|^#' | grep 'undefined\\|declared and not used\\|imported and not used\\|cannot use\\|missing return\\|syntax' && exit 1; exit 0" % os.path.dirname(m["File"]), repo, 120, e)
            if rc != 0:
                res = "nobuild"
            else:
                rc, o = sh("go test -json -vet=off -count=1 -timeout 20s " + PK, repo, 120, e)
                passed = set()
                for l in o.splitlines():
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    if d.get("Action") == "pass" and d.get("Test"):
                        passed.add(d["Package"] + "/" + d["Test"])
                if stable - passed:
                    res = "tests"
                else:
                    res, why = "SURVIVED", []
                    for pre, cs in CHECKS:
                        if m["File"].startswith(pre):
                            for c in cs.split():
                                ee = dict(env, VERIF_REPO=repo, VERIF_DIR=verif, VERIF_REPLAYS=os.path.join(tmp, "rp"))
                                rc, o = sh("%s/bin/gosym -noevidence -j %d -prop %s" % (verif, max(2, 8 // jobs), c), verif, 900, ee)
                                if rc == 1:
                                    res = "caught " + c
                                    break
                                if "ERROR load" in o:
                                    res = "nobuild"
                                    break
                                if rc != 0:
                                    why.append("%s rc=%d %s" % (c, rc, o[-300:]))
                                un = [l.strip() for l in o.splitlines() if "not reproduced" in l or "unsupported" in l or "truncated" in l or "mismatch" in l]
                                if un:
                                    why.append(c + ": " + "; ".join(un[:4])[:500])
                            break
                    if res == "SURVIVED":
                        m["notes"] = why
        finally:
            open(p, "wb").write(src)
        m["result"], m["s"] = res, round(time.time() - t0)
        with lock:
            open(out, "a").write(json.dumps(m) + "\n")
            if res not in ("nobuild", "tests"):
                print(res, m["File"], m["Line"], m["Func"], m["What"], m.get("notes", ""), flush=True)
            else:
                left[0] += 1
    shutil.rmtree(tmp)
ts = [threading.Thread(target=work) for _ in range(jobs)]
[t.start() for t in ts]
[t.join() for t in ts]
