#!/usr/bin/env python3
"""Nothing is kept between runs; makes sure that the tools needed are there
and that the specification parses."""
import glob, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import JARS, SPEC, VERIF
from plan import CONFIGS

bad = [t for t in ("java", "gcc") if not shutil.which(t)]
for n, c in CONFIGS.items():
    for t in c.get("runner", [])[:1] + [c["env"].get("CC", "gcc")]:
        if not shutil.which(t):
            print("note: %s is not installed; build %s is left out" % (t, n))
for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
    r = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", os.path.basename(f)], cwd=SPEC, capture_output=True, text=True)
    if r.returncode or "error" in (r.stdout + r.stderr).lower():
        bad.append(f + "\n" + r.stdout + r.stderr)
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
if bad:
    sys.exit("setup failed: %s" % bad)
print("setup done")
