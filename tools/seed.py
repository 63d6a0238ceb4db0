#!/usr/bin/env python3
"""Planted bugs.

seed.py make SPEC.py   SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo, pkg)]
seed.py verify ID...   build + stable tests + demo on a scratch copy, without and with the patch
seed.py check ID...    run the property's quick check on a scratch copy with the patch
"""
import json, os, shutil, subprocess, sys, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + "/seeded"
W = "/tmp/seedwork"

DEMO = r'''#!/bin/bash
# Runs demo_test.go inside the package it names, through an overlay.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
pkg=$(sed -n 's,^// pkg: ,,p' "$d/demo_test.go")
r=$PWD
{
  echo '{"Replace":{'
  for f in "$d"/lib/*_test.go.txt; do
    [ -f "$f" ] && [ "$pkg" = proxy ] && echo "\"$r/proxy/$(basename "$f" .txt)\":\"$f\","
  done
  [ -f "$d/lib/vx.go.txt" ] && echo "\"$r/internal/vx/vx.go\":\"$d/lib/vx.go.txt\","
  echo "\"$r/$pkg/zz_demo_test.go\":\"$d/demo_test.go\"}}"
} > "$t/overlay.json"
export TMPDIR=$t
EXTRA=$(sed -n 's,^// flags: ,,p' "$d/demo_test.go")
EXP=$(sed -n 's,^// goexperiment: ,,p' "$d/demo_test.go")
[ -n "$EXP" ] && export GOEXPERIMENT=$EXP
go test -vet=off $EXTRA -overlay "$t/overlay.json" -count=1 -timeout 240s -run '^TestDemo$' "./$pkg"
'''

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, executable="/bin/bash")
    return p.returncode, p.stdout + p.stderr

def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    sh("cp -a /repo %s && cd %s && git checkout -q -- . && git clean -fdq" % (dst, dst))

def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = S + "/" + s["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/lib")
        w = W + "-make"
        copy(w)
        for f, old, new in s["edits"]:
            p = w + "/" + f
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit("%s: %s: %d matches of %r" % (s["id"], f, t.count(old), old))
            open(p, "w").write(t.replace(old, new))
        rc, out = sh(". /opt/vp/env.sh; gofmt -l $(git diff --name-only); git diff", cwd=w)
        i = out.find("diff --git")
        if i > 0:
            print(s["id"], "gofmt:", out[:i])
        open(d + "/patch.diff", "w").write(out[i:])
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        pkg = s.get("pkg", "proxy")
        head = "// pkg: %s\n" % pkg
        if s.get("flags"): head += "// flags: %s\n" % s["flags"]
        if s.get("goexperiment"): head += "// goexperiment: %s\n" % s["goexperiment"]
        open(d + "/demo_test.go", "w").write(head + s["demo"].lstrip("\n"))
        if s.get("lib", pkg == "proxy"):
            for f in glob.glob(V + "/lib/proxyx/*.go"):
                shutil.copy(f, d + "/lib/" + os.path.basename(f) + ".txt")
            shutil.copy(V + "/lib/vx/vx.go", d + "/lib/vx.go.txt")
        else:
            os.rmdir(d + "/lib")
        shutil.rmtree(w)
        print("made", s["id"])

def demo(i, w):
    return sh("bash %s/%s/demo.sh" % (S, i), cwd=w, timeout=300)

def verify(ids):
    bad = 0
    for i in ids:
        w = "%s-%s" % (W, i)
        copy(w)
        rc, out = demo(i, w)
        if rc != 0:
            print(i, "FAIL demo on clean tree:\n", out[-3000:]); bad += 1
        rc, out = sh("git apply %s/%s/patch.diff" % (S, i), cwd=w)
        if rc: print(i, "FAIL apply", out); bad += 1; continue
        rc, out = sh(". /opt/vp/env.sh; go build ./... && go build -tags noquic,pprof ./...", cwd=w)
        if rc: print(i, "FAIL build", out); bad += 1
        rc, out = demo(i, w)
        if rc == 0: print(i, "FAIL demo passes with the patch"); bad += 1
        else: print(i, "demo with patch:", "; ".join(l.strip() for l in out.splitlines() if "_test.go:" in l)[:300] or out[-400:])
        if "[build failed]" in out or "setup failed" in out: print(i, "FAIL demo does not build", out[-1500:]); bad += 1
        if os.environ.get("NOTESTS") is None:
            stable = set(x if isinstance(x, str) else x.get("name", "") for x in json.load(open("/opt/vp/BASELINE.json")).get("stable", []))
            rc, out = sh(". /opt/vp/env.sh; go test ./... 2>&1", cwd=w)
            if rc:
                rc, out = sh(". /opt/vp/env.sh; go test ./... 2>&1", cwd=w)
            if rc: print(i, "FAIL tests", "\n".join(l for l in out.splitlines() if "FAIL" in l or "_test.go" in l)[:1500]); bad += 1
        shutil.rmtree(w)
        print(i, "verified")
    return bad

def check(ids):
    for i in ids:
        prop = json.load(open(S + "/" + i + "/meta.json"))["property"]
        w = "%s-%s" % (W, i)
        copy(w)
        rc, out = sh("git apply %s/%s/patch.diff" % (S, i), cwd=w)
        rc, out = sh("python3 run.py %s quick" % prop, cwd=V, env={"VX_REPO": w, "VERIF_SEED": "1"})
        v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        print(i, prop, "CAUGHT" if rc == 1 and v else "MISSED rc=%d" % rc, v[:1], out[-500:] if not v else "")
        shutil.rmtree(w)
        rf = V + "/tools/seed_results.json"
        res = json.load(open(rf)) if os.path.exists(rf) else {}
        res[i] = prop if rc == 1 and v else "missed"
        json.dump(res, open(rf, "w"), indent=1, sort_keys=True)

if __name__ == "__main__":
    a = sys.argv[1]
    ids = sys.argv[2:]
    if a == "make": make(ids[0])
    else:
        if ids == ["all"]: ids = sorted(os.listdir(S))
        {"verify": verify, "check": check}[a](ids)
