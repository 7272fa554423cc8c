#!/usr/bin/env python3
"""Development aid: apply small edits to a scratch copy of /repo and see which checks notice.

mutate.py FILE [NAME...]   FILE holds mutants: blocks "== name props", then "file", "<<<", old, "---", new, ">>>" (repeatable).
No registered check uses this."""
import subprocess, sys, os, shutil, re, tempfile
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
BUD = os.environ.get("BUD", "15"); TEST = os.environ.get("TEST", "0") == "1"
def parse(path):
    out = []; cur = None
    lines = open(path).read().split("\n"); i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("== "):
            f = l[3:].split(); cur = (f[0], f[1:], []); out.append(cur)
        elif l == "<<<":
            fn = lines[i-1].strip(); j = lines.index("---", i); k = lines.index(">>>", j)
            cur[2].append((fn, "\n".join(lines[i+1:j]), "\n".join(lines[j+1:k]))); i = k
        i += 1
    return out
for name, props, edits in parse(sys.argv[1]):
    if len(sys.argv) > 2 and name not in sys.argv[2:]: continue
    d = tempfile.mkdtemp(prefix="mut-"); r = d + "/repo"
    shutil.copytree(os.environ.get("SRC","/repo"), r, ignore=shutil.ignore_patterns(".git"))
    ok = True
    for fn0, old, new in edits:
        fn = fn0.lstrip("*")
        for f in fn.split():
            s = open(f"{r}/{f}").read()
            if old not in s: print(f"{name}: text not found in {f}"); ok = False; break
            open(f"{r}/{f}", "w").write(s.replace(old, new, 1) if not fn0.startswith("*") else s.replace(old, new))
    if not ok: shutil.rmtree(d); continue
    b = subprocess.run(["go", "build", "./..."], cwd=r, env=env, capture_output=True, text=True)
    if b.returncode: print(name, "DOES NOT BUILD", b.stderr[:300]); shutil.rmtree(d); continue
    t = ""
    if TEST:
        q = subprocess.run(["go", "test", "-vet=off", "-count=1", "./..."], cwd=r, env=env, capture_output=True, text=True)
        t = " tests:" + ("pass" if q.returncode == 0 else "FAIL")
    res = []
    for p in props:
        e = dict(env, RINGOSIM_REPO=r, RINGOSIM_BUDGET=BUD)
        q = subprocess.run(["bash", "/verif/check.sh", p], cwd="/verif", env=e, capture_output=True, text=True)
        m = re.findall(r"^run \d+: (\S+)", q.stdout, re.M)
        res.append(f"{p}={'CAUGHT' if q.returncode==1 else 'missed' if q.returncode==0 else 'ERROR'}({','.join(m)})")
        if q.returncode not in (0, 1): print(q.stdout[-500:], q.stderr[-1500:])
    print(f"{name}:{t} {' '.join(res)}", flush=True)
    shutil.rmtree(d)
