#!/usr/bin/env python3
"""Parses every specification; nothing needs to be built (the checks import the code from /repo)."""
import glob, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix="verif_setup_")
try:
    for fn in glob.glob(os.path.join(HERE, "spec", "*.tla")):
        shutil.copy(fn, d)
    mods = sorted(os.path.basename(f) for f in glob.glob(os.path.join(d, "*.tla")))
    r = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY"] + mods, cwd=d, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    bad = r.returncode != 0 or "Fatal" in r.stdout or "*** Errors" in r.stdout or "***Parse Error" in r.stdout
    print("%d specifications parsed" % len(mods) if not bad else r.stdout[-3000:])
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(d, True)
