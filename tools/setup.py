"""Checks that the tools are there and that the specifications parse."""
import os, subprocess, sys
import vf
for f in sorted(os.listdir(vf.SPEC)):
    if f.endswith(".tla"):
        r = subprocess.run(["tla-sany", f], cwd=vf.SPEC, capture_output=True, text=True)
        if r.returncode != 0 or "Semantic errors" in r.stdout:
            print(f, r.stdout[-2000:])
            sys.exit(1)
        print("parsed", f)
