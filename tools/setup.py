#!/usr/bin/env python3
"""setup_cmd: parses every specification and compiles the Python files; nothing has to be built."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import common
for d in ("lib", "drivers", "checks", "tools", "."):
    for f in os.listdir(os.path.join(V, d)):
        if f.endswith(".py"):
            compile(open(os.path.join(V, d, f)).read(), f, "exec")
w = tempfile.mkdtemp()
try:
    for f in os.listdir(common.SPEC):
        shutil.copy(os.path.join(common.SPEC, f), w)
    for f in sorted(os.listdir(common.SPEC)):
        if f.endswith(".tla"):
            r = subprocess.run(["java", "-Djava.io.tmpdir=" + w, "-cp", common.JARS, "tla2sany.SANY", f], cwd=w,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode or "*** Errors" in r.stdout:
                print(r.stdout)
                sys.exit("specification %s does not parse" % f)
            print("parsed", f)
finally:
    shutil.rmtree(w)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
