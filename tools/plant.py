#!/usr/bin/env python3
"""Plant one bug (development tool; no check uses it).

  plant.py DEF.py [--no-tests] [--keep]

DEF.py defines: ID, PROPERTY, EDITS = [(file, old, new), ...], DEMO (Python source), NEEDS, BREAKS and optionally
CHECKS = [ids of the checks to run].  The bug is applied to a scratch copy of /repo under /tmp, must pass the stable
tests there, its demo must pass on /repo and fail on the copy; only then is seeded/<ID>/ written.  Finally the checks
are run against the copy.  Prints one summary line.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = '''#!/bin/sh
# exit 0 on the unchanged tree, nonzero with the patch; run with cwd = the repository, after the build
export MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"
'''


def main():
    d = runpy.run_path(sys.argv[1])
    flags = sys.argv[2:]
    tmp = tempfile.mkdtemp(prefix="bug_", dir="/tmp")
    copy = os.path.join(tmp, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        for path, old, new in d["EDITS"]:
            f = os.path.join(copy, path)
            s = open(f).read()
            if s.count(old) != 1:
                print("%s: EDIT matches %d times: %r" % (d["ID"], s.count(old), old[:70]))
                return
            open(f, "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True).stdout
        demo = os.path.join(tmp, "demo")
        os.makedirs(demo)
        open(os.path.join(demo, "demo.py"), "w").write(d["DEMO"].lstrip("\n"))
        open(os.path.join(demo, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(demo, "demo.sh"), 0o755)

        def run_demo(repo):
            return subprocess.run(["sh", os.path.join(demo, "demo.sh")], cwd=repo, capture_output=True, text=True,
                                  timeout=300)
        clean, patched = run_demo("/repo"), run_demo(copy)
        if clean.returncode != 0 or patched.returncode == 0:
            print("%s: DEMO clean=%d patched=%d\n%s\n%s" % (d["ID"], clean.returncode, patched.returncode,
                                                         clean.stderr[-800:], patched.stderr[-300:]))
            return
        if "--no-tests" not in flags:
            env = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0",
                       OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                       NPY_DISABLE_CPU_FEATURES="AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL")
            xml = os.path.join(tmp, "out.xml")
            subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "--dist", "worksteal",
                            "-W", "ignore", "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=" + xml, "tests"],
                           cwd=copy, env=env, capture_output=True, text=True)
            passed = set()
            for case in ET.parse(xml).getroot().iter("testcase"):
                if all(case.find(x) is None for x in ("failure", "error", "skipped")):
                    passed.add("%s::%s" % (case.get("classname"), case.get("name")))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            failed = [t for t in stable if t not in passed]
            if failed:
                print("%s: TESTS %s" % (d["ID"], failed))
                return
        out = os.path.join(VERIF, "seeded", d["ID"])
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        shutil.copy(os.path.join(demo, "demo.py"), out)
        shutil.copy(os.path.join(demo, "demo.sh"), out)
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        res = []
        for c in d.get("CHECKS", [d["PROPERTY"]]):
            r = subprocess.run([os.path.join(VERIF, "check.py"), c] if os.access(os.path.join(VERIF, "check.py"), os.X_OK)
                               else ["python3", os.path.join(VERIF, "check.py"), c], cwd=VERIF,
                               env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick"),
                               capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append("%s rc=%d %s" % (c, r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED"))
            if r.returncode not in (0, 1):
                res.append(r.stdout[-600:] + r.stderr[-600:])
            if "-v" in flags:
                res.append("\n".join(l for l in r.stdout.splitlines()[-12:]))
        print("%s: OK  %s" % (d["ID"], "; ".join(res)))
    finally:
        shutil.rmtree(tmp)


main()
