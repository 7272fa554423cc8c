#!/usr/bin/env python3
"""Development aid: make planted changes from a description, and try them. No registered check uses this.

seed.py FILE...      each FILE: first line "id property package", then lines "needs: ..." and "breaks: ...",
                     then edits as in mutate.py, then "@@test" and the Go source of the demonstration.
seed.py --try ID...  apply an existing one in a scratch copy and run everything again."""
import subprocess, sys, os, shutil, re, tempfile, json
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
BUD = os.environ.get("BUD", "40")
SEED = os.environ.get("SEED_DIR", "/verif/seeded")
DEMO = '''#!/bin/bash
# Fails when the planted change is there. Runs in the repository.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
. /opt/vp/env.sh
cd "$R" || exit 1
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/planted_demo_test.go": "%%s/demo_test.go"}}' "$R" "$D" > "$T/o.json"
go test %(flags)s-vet=off -overlay "$T/o.json" -count=1 -run '^TestPlanted$' "./%(pkg)s"
'''
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(env, **kw), capture_output=True, text=True)
def attempt(i, prop):
    d = tempfile.mkdtemp(prefix="seed-"); r = d + "/repo"
    shutil.copytree("/repo", r)
    t = d + "/elsewhere"; shutil.copytree(f"{SEED}/{i}", t)
    out = []
    q = run(["bash", t + "/demo.sh"], r)
    out.append("demo-clean:" + ("ok" if q.returncode == 0 else "FAIL " + q.stdout[-600:] + q.stderr[-600:]))
    q = run(["git", "apply", f"{SEED}/{i}/patch.diff"], r)
    if q.returncode: out.append("DOES NOT APPLY " + q.stderr[:300])
    q = run(["go", "build", "./..."], r)
    if q.returncode: out.append("DOES NOT BUILD " + q.stderr[:300])
    q = run(["bash", t + "/demo.sh"], r)
    out.append("demo-planted:" + ("FAILS(good)" if q.returncode else "passes(BAD)") + (" BUILD" if "build failed" in q.stdout else ""))
    if os.environ.get("SHOW"): out.append(q.stdout[-800:])
    q = run(["go", "test", "-vet=off", "-count=1", "./..."], r)
    out.append("tests:" + ("pass" if q.returncode == 0 else "FAIL " + q.stdout[-400:]))
    for p in prop.split(","):
        q = run(["bash", "/verif/check.sh", p], "/verif", RINGOSIM_REPO=r, RINGOSIM_BUDGET=BUD)
        m = re.findall(r"^run \d+: (\S+)", q.stdout, re.M)
        out.append(f"{p}={'CAUGHT' if q.returncode==1 else 'missed' if q.returncode==0 else 'ERROR'}({','.join(m)})")
        if q.returncode not in (0, 1): out.append(q.stdout[-500:] + q.stderr[-500:])
    print(i, *out, flush=True)
    shutil.rmtree(d)
def make(path):
    text = open(path).read()
    head, test = text.split("@@test\n", 1)
    lines = head.split("\n")
    i, prop, pkg, *flags = lines[0].split()
    meta = {"property": prop}
    for l in lines:
        if l.startswith("needs: "): meta["needs"] = l[7:]
        if l.startswith("breaks: "): meta["what_it_breaks"] = l[8:]
    d = tempfile.mkdtemp(prefix="seed-"); r = d + "/repo"
    shutil.copytree("/repo", r)
    n = 0
    while n < len(lines):
        if lines[n] == "<<<":
            f = lines[n-1].strip(); j = lines.index("---", n); k = lines.index(">>>", j)
            s = open(f"{r}/{f}").read(); old = "\n".join(lines[n+1:j]); new = "\n".join(lines[j+1:k])
            if s.count(old) != 1: print(f"{i}: text found {s.count(old)} times in {f}:\n{old}"); sys.exit(1)
            open(f"{r}/{f}", "w").write(s.replace(old, new)); n = k
        n += 1
    q = run(["gofmt", "-l", "jindo", "buckler", "math"], r)
    diff = run(["git", "diff"], r).stdout
    # Lines of the original repository only: compare with the root commit.
    o = f"{SEED}/{i}"; os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo_test.go", "w").write(test)
    open(o + "/demo.sh", "w").write(DEMO % {"pkg": pkg, "flags": "".join(f + " " for f in flags)})
    json.dump(meta, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
    return i, prop
if sys.argv[1] == "--try":
    for i in sys.argv[2:] or sorted(os.listdir(SEED)):
        attempt(i, os.environ.get("PROPS") or json.load(open(f"{SEED}/{i}/meta.json"))["property"])
else:
    for f in sys.argv[1:]:
        attempt(*make(f))
