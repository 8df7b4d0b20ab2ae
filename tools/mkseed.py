#!/usr/bin/env python3
"""mkseed.py DIR: confirm a planted bug and write its patch.

DIR holds edit.py (a function edit(read, write) that changes a copy of /repo),
demo.sh with its files, and meta.json. Everything runs in a scratch copy."""
import os, sys, subprocess, shutil, tempfile, json, runpy
d = os.path.abspath(sys.argv[1])
w = tempfile.mkdtemp(prefix="seed")
r = os.path.join(w, "repo")
try:
    subprocess.check_call(["cp", "-a", "/repo", r])
    def read(f): return open(os.path.join(r, f)).read()
    def write(f, s): open(os.path.join(r, f), "w").write(s)
    def sub(f, *pairs):
        s = read(f)
        for a, b in pairs:
            assert s.count(a) == 1, (f, a, s.count(a))
            s = s.replace(a, b)
        write(f, s)
    edit = os.path.join(w, "edit.py")
    runpy.run_path(sys.argv[2] if len(sys.argv) > 2 else os.path.join("/tmp/seeds", os.path.basename(d) + ".py"), {"sub": sub, "read": read, "write": write})
    diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
    assert diff, "no change"
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
    subprocess.check_call(["gofmt", "-l", "."], cwd=r)
    subprocess.check_call(["go", "build", "./..."], cwd=r, env=env)
    tmp = os.path.join(w, "tmp"); os.mkdir(tmp)
    log = subprocess.run(["go", "test", "-vet=off", "-count=1", "-json", "./..."], cwd=r, env=dict(env, TMPDIR=tmp), capture_output=True, text=True).stdout
    st = {}
    for l in log.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Test") and e["Action"] in ("pass", "fail"): st[(e["Package"], e["Test"])] = e["Action"]
    base = json.load(open("/opt/vp/BASELINE.json"))
    failed = [k for k, v in st.items() if v == "fail"]
    print("tests:", len(st), "failed:", failed)
    a = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, capture_output=True, text=True)
    print("demo on HEAD:", a.returncode, "with the bug:", b.returncode)
    if a.returncode: print(a.stdout[-1500:], a.stderr[-1500:])
    print("\n".join((b.stdout + b.stderr).splitlines()[:6]))
    if not failed and a.returncode == 0 and b.returncode != 0:
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        print("OK", os.path.basename(d))
    else:
        print("NOT USABLE", os.path.basename(d))
finally:
    shutil.rmtree(w)
