"""Builds /verif/seeded/<id> from tools/seeds/<id>.py (not used by any check).

A seed file defines: property, needs, breaks, edits=[(file, old, new)], demo (python text).
Usage: python3 tools/mkseed.py ID [--tests 'pytest args']
"""
import json, os, subprocess, sys, shutil, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="")


def build(sid, tests=None):
    ns = {}
    exec(open(os.path.join(HERE, "tools/seeds", sid + ".py")).read(), ns)
    d = tempfile.mkdtemp(prefix="seed")
    try:
        r = os.path.join(d, "repo")
        subprocess.check_call(["cp", "-a", "/repo", r])
        out = os.path.join(HERE, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "demo.py"), "w").write(ns["demo"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\n'
            "export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 CUDA_VISIBLE_DEVICES= PYTHONPATH=$PWD\n"
            'exec timeout 280 /opt/venv/bin/python "$D/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=ns["property"], needs=ns["needs"], what_it_breaks=ns["breaks"]),
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        a = subprocess.run([os.path.join(out, "demo.sh")], cwd=r, env=ENV, capture_output=True, text=True)
        for f, old, new in ns["edits"]:
            fp = os.path.join(r, f)
            t = open(fp).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(fp, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        b = subprocess.run([os.path.join(out, "demo.sh")], cwd=r, env=ENV, capture_output=True, text=True)
        print(sid, ns["property"], "demo clean rc", a.returncode, "patched rc", b.returncode)
        if a.returncode:
            print(a.stdout[-800:], a.stderr[-1500:])
        if not b.returncode:
            print("NOT DETECTED BY DEMO", b.stdout[-500:])
        else:
            print("   ", (b.stderr or b.stdout).strip().splitlines()[-1][:200])
        # the checks against the patched copy
        for pid in [ns["property"]] + ns.get("also", []):
            c = subprocess.run(["python3-vt", "check.py", pid], cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick"))
            print("    check", pid, "rc", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or "UNDEC" in l or "REFUT" in l][:4], c.stderr[-300:] if c.returncode not in (0, 1) else "")
        if tests:
            t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-n", "8", "-p", "no:cacheprovider", "-m", "not gpu and not async_"] + ["--deselect=tests/utils_tests/test_pretrained_models.py", "--ignore=tests/utils_tests/test_pretrained_models.py"] + tests.split(),
                               cwd=r, env=dict(ENV, PYTHONPATH=r), capture_output=True, text=True)
            print("    tests:", t.stdout.strip().splitlines()[-1])
            if t.returncode:
                print(t.stdout[-1500:])
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    a = sys.argv[1:]
    tests = None
    if "--tests" in a:
        i = a.index("--tests")
        tests = a[i + 1]
        del a[i:i + 2]
    for s in a:
        build(s, tests)
