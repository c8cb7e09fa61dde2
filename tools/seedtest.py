#!/usr/bin/env python3
"""usage: seedtest.py [--no-tests] [--check] [ID ...]
Confirms planted bugs in scratch copies of /repo: applies, tests pass, demo fails with the patch and passes
without; with --check also runs the property's quick check against the copy (VF_REPO)."""
import json, os, shutil, subprocess, sys, xml.etree.ElementTree as ET
root = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opt = set(a for a in sys.argv[1:] if a.startswith("--"))
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
env0 = dict(os.environ, JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
            OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
for i in args or sorted(os.listdir(os.path.join(root, "seeded"))):
    sd = os.path.join(root, "seeded", i)
    cp = "/tmp/seedcopy_" + i
    shutil.rmtree(cp, ignore_errors=True)
    shutil.copytree("/repo", cp, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    res = []
    try:
        env = dict(env0, PYTHONPATH=cp, VF_REPO=cp)
        p = subprocess.run(["git", "apply", "--unsafe-paths", os.path.join(sd, "patch.diff")], cwd=cp, capture_output=True, text=True)
        res.append("applies" if p.returncode == 0 else "DOES NOT APPLY " + p.stderr[:300])
        d0 = subprocess.run(["bash", os.path.join(sd, "demo.sh")], cwd="/repo", env=env0, capture_output=True, text=True, timeout=300)
        d1 = subprocess.run(["bash", os.path.join(sd, "demo.sh")], cwd=cp, env=env, capture_output=True, text=True, timeout=300)
        res.append("demo clean=%d patched=%d%s" % (d0.returncode, d1.returncode, "" if d0.returncode == 0 and d1.returncode != 0 else " BAD " + (d0.stdout + d0.stderr)[-600:] + (d1.stdout + d1.stderr)[-600:]))
        if "--no-tests" not in opt:
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=400", "-n", "8", "-W", "ignore::SyntaxWarning",
                            "-o", "junit_family=xunit2", "--junitxml=" + cp + "/junit.xml", "tests"], cwd=cp, env=env, capture_output=True, timeout=1500)
            ok = set()
            for tc in ET.parse(cp + "/junit.xml").getroot().iter("testcase"):
                if not list(tc):
                    ok.add(tc.get("classname") + "::" + tc.get("name"))
            miss = [t for t in base if t not in ok and not any(t.endswith(o) or o.endswith(t) for o in ok)]
            res.append("tests ok" if not miss else "TESTS FAIL %s" % miss[:5])
        if "--check" in opt:
            pr = json.load(open(os.path.join(sd, "meta.json")))["property"]
            c = subprocess.run([os.path.join(root, "check"), pr, "--tier", "quick"], env=dict(env0, VF_REPO=cp), capture_output=True, text=True, timeout=900)
            ln = [l for l in c.stdout.split("\n") if "failed clause" in l][:1]
            res.append("check %s rc=%d %s" % (pr, c.returncode, ("CAUGHT " + "".join(ln)[:150]) if "VIOLATION" in c.stdout else "MISSED " + c.stdout[-300:]))
    finally:
        shutil.rmtree(cp, ignore_errors=True)
    print(i, "|", " | ".join(res), flush=True)
