#!/usr/bin/env python3
"""mkseed.py ID PROPERTY EDIT.py MAIN.go 'needs' 'what it breaks': makes and confirms a planted bug in a scratch copy.
EDIT.py is run with cwd = scratch copy of /repo and a helper sub(file, old, new)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = os.path.join(V, "tools", "seedkit")
sid, prop, edit, main, needs, what = sys.argv[1:7]
w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
try:
    r = os.path.join(w, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=r)
    def sub(f, old, new, count=1):
        p = os.path.join(r, f); s = open(p).read()
        assert s.count(old) >= 1, "not found in %s: %r" % (f, old)
        assert count == 0 or s.count(old) == count, "%d times in %s: %r" % (s.count(old), f, old)
        open(p, "w").write(s.replace(old, new))
    exec(compile(open(edit).read(), edit, "exec"), dict(sub=sub, repo=r))
    patch = subprocess.check_output(["git", "diff"], cwd=r, text=True)
    assert patch, "no change"
    d = os.path.join(w, "demo"); os.makedirs(d)
    for f in ("demo.sh", "lib.go"):
        shutil.copy(os.path.join(K, f), d)
    shutil.copy(main, os.path.join(d, "main.go"))
    env = dict(os.environ, GOENV="off", GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", TZ="UTC", LC_ALL="C.UTF-8")
    def sh(c, cwd): return subprocess.run(c, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    p = sh(["go", "vet", "./..."], r)
    if p.returncode: print("vet:", p.stdout[-800:])
    p = sh(["go", "build", "./..."], r); assert p.returncode == 0, p.stdout
    p = sh(["go", "test", "-vet=off", "-count=1", "./..."], r); assert p.returncode == 0, "tests fail:\n" + p.stdout[-2500:]
    p = sh(["bash", os.path.join(d, "demo.sh")], "/repo"); assert p.returncode == 0, "demo fails on clean tree:\n" + p.stdout[-2500:]
    p = sh(["bash", os.path.join(d, "demo.sh")], r); assert p.returncode != 0, "demo passes on patched tree:\n" + p.stdout[-2500:]
    assert "FAIL" in p.stdout or "panic" in p.stdout or "fatal error" in p.stdout, "demo fails for another reason:\n" + p.stdout[-1500:]
    print(p.stdout[:600])
    o = os.path.join(V, "seeded", sid); shutil.rmtree(o, ignore_errors=True); shutil.copytree(d, o)
    open(os.path.join(o, "patch.diff"), "w").write(patch)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(o, "meta.json"), "w"), indent=1)
    print("seeded", sid)
finally:
    shutil.rmtree(w)
