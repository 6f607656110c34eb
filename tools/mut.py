"""Mutation experiments on a scratch copy (development aid, no check uses it).
stdin: python list of (property, file, old, new); args are passed to check.py"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = sys.stdin.read()
ns = {}
if src.lstrip().startswith("["):
    muts = eval(src)
else:
    exec(src, ns)
    muts = ns["M"]
def one(m):
    pid, f, old, new = m
    d = tempfile.mkdtemp(prefix="mut")
    try:
        r = d + "/repo"
        shutil.copytree(os.environ.get("MUT_BASE", "/repo"), r, ignore=shutil.ignore_patterns(".git", "docs", "examples", "assets"))
        t = open(r + "/" + f).read()
        if old not in t:
            return "%s NO MATCH %s %r" % (pid, f, old[:60])
        open(r + "/" + f, "w").write(t.replace(old, new, 1))
        c = subprocess.run(["python3-vt", "check.py", pid] + sys.argv[1:], cwd=HERE, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=r, VERIF_VERBOSE="1", VERIF_SEED="1", VERIF_EVIDENCE=d))
        ls = [l for l in c.stdout.splitlines() if l.startswith(("REFUTED", "UNDECIDED", "VIOLATION")) or "replay" in l and "FAIL" in l]
        return "%s rc=%d %r -> %r\n      %s" % (pid, c.returncode, old[:50], new[:50], "\n      ".join(l[:170] for l in ls[:6])) + (c.stderr[-500:] if c.returncode not in (0, 1) else "")
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, muts):
        print(r)
