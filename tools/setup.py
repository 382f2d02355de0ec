#!/usr/bin/env python3
"""Warms the Go build cache and parses every specification; the checks build what they need themselves."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import base, shutil
r = base.Run("setup", "quick")
try:
    r.build()
    for f in sorted(os.listdir(base.SPEC)):
        if f.endswith(".tla"):
            p = subprocess.run(["java", "-cp", base.TLA + "/tla2tools.jar:" + base.TLA + "/CommunityModules-deps.jar",
                                "tla2sany.SANY", f], cwd=base.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0 or "*** Errors" in p.stdout or "Parse Error" in p.stdout:
                print(p.stdout[-2000:])
                sys.exit("cannot parse " + f)
    print("setup ok")
finally:
    shutil.rmtree(r.work, ignore_errors=True)
