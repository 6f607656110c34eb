#!/usr/bin/env python3
"""check.py <property>: verify the contracts of one property against /repo.

1. Deductive part: every verification unit of contracts/<id>.py is run by pydv
   over the current source of /repo (z3 discharges each obligation).
2. Replay part: dyn/<id>.py executes the real code (CPython) against the same
   contracts on concrete inputs; it turns failed obligations into failing inputs
   and stands in, labelled bounded, for a unit the verifier could not decide.
"""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

VENV = "/opt/venv/bin/python"

BASE_TRUST = [
    "pydv: /verif/pydv, the symbolic semantics of the Python subset (own verifier)",
    "z3 4.x (python3-vt z3-solver)",
    "floats treated as mathematical reals; Python ints are unbounded",
    "CPython list/deque/dict semantics as modelled in pydv/builtin_fns.py",
]


def run_unit(args):
    modname, idx, tier = args
    from pydv.unit import Unit  # noqa

    m = importlib.import_module("contracts." + modname)
    u = m.units(tier)[idx]
    import signal

    def late(*a):
        raise TimeoutError("time limit of the unit")

    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(min(u.time_limit + 30, max(10, DEADLINE[0] - time.time()))))
    try:
        return u.verify()
    except Exception as e:  # a bug of the verifier: no verdict
        import traceback

        return dict(
            unit=u.name,
            verdict="UNDECIDED",
            reason="verifier error: %s\n%s" % (e, traceback.format_exc()[-800:]),
            obligations=0,
            discharged=0,
            failed=[],
            touched=[],
            covers=u.covers,
            solver_s=0,
            solver_calls=0,
            wall_s=0,
        )
    finally:
        signal.alarm(0)


DEADLINE = [time.time() + (420 if os.environ.get("VERIF_TIER", "quick") == "quick" else 3000)]


def known_findings(pid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line[len("known: property=%s " % pid):])
    return out


def _violates(path):
    try:
        return bool(json.load(open(path)).get("violation"))
    except Exception:
        return False


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = pid.lower()
    m = importlib.import_module("contracts." + mod)
    units = m.units(tier)
    only = os.environ.get("VERIF_UNIT")
    idxs = [i for i, u in enumerate(units) if not only or only in u.name]

    scratch = tempfile.mkdtemp(prefix="verif_%s_" % mod)
    dyn_out = os.path.join(scratch, "dyn.json")
    dyn_path = os.path.join(HERE, "dyn", mod + ".py")
    proc = None
    if os.path.exists(dyn_path) and not only and "--no-dyn" not in sys.argv:
        env = dict(os.environ)
        env.update(
            PYTHONPATH=os.environ.get("VERIF_REPO", "/repo"),
            PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1",
            OMP_NUM_THREADS="1",
            MKL_NUM_THREADS="1",
            HOME=scratch,
        )
        proc = subprocess.Popen(
            [VENV, os.path.join(HERE, "dyn", "main.py"), mod, "--seed", str(seed),
             "--tier", tier, "--out", dyn_out, "--scratch", scratch],
            cwd=scratch, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(scratch, "dyn.err"), "w"),
            start_new_session=True,
        )
    results = []
    nproc = max(1, min(7, len(idxs)))
    with mp.get_context("fork").Pool(nproc, maxtasksperchild=4) as pool:
        it = pool.imap_unordered(run_unit, [(mod, i, tier) for i in idxs], chunksize=1)
        dyn_hit = named_at = None
        while len(results) < len(idxs):
            try:
                r = it.next(timeout=2)
            except mp.TimeoutError:
                # a failing input is already at hand: grant the verifier a little
                # longer to name the obligation, then stop
                if dyn_hit is None and proc is not None and proc.poll() is not None:
                    dyn_hit = _violates(dyn_out) and time.time()
                named = any(r["verdict"] == "REFUTED" for r in results)
                if named and named_at is None:
                    named_at = time.time()
                late = time.time() - t0 > (600 if tier == "quick" else 3000)
                if late or dyn_hit and (named or time.time() - dyn_hit > 60) or (
                        named and (proc is None or proc.poll() is not None) and time.time() - named_at > 90):
                    pool.terminate()
                    done = {r["unit"] for r in results}
                    for i in idxs:
                        if units[i].name not in done:
                            results.append(dict(
                                unit=units[i].name, verdict="UNDECIDED", wall_s=0, failed=[], obligations=0,
                                discharged=0, touched=[], covers=[], solver_s=0, solver_calls=0,
                                reason="stopped: " + ("time limit" if late else "the violation is already established")))
                    break
                continue
            results.append(r)
            if os.environ.get("VERIF_VERBOSE"):
                print(r["verdict"], r["unit"], r["wall_s"], r["reason"],
                      [f["name"] for f in r["failed"]], flush=True)
    results.sort(key=lambda r: r["unit"])
    dyn = None
    if proc is not None:
        late = False
        try:
            proc.wait(timeout=max(10, 650 - (time.time() - t0)) if tier == "quick" else 3000)
        except subprocess.TimeoutExpired:
            late = True
        try:
            # processes the code under test left behind go with it
            os.killpg(proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        proc.wait()
        err = ("timeout\n" if late else "") + open(os.path.join(scratch, "dyn.err")).read()
        if os.path.exists(dyn_out):
            dyn = json.load(open(dyn_out))
        else:
            dyn = dict(evaluations=0, distinct=0, samples=[], violation=None,
                       error="no output: " + (err or "")[-1500:])
    shutil.rmtree(scratch, ignore_errors=True)

    refuted = [r for r in results if r["verdict"] == "REFUTED"]
    undecided = [r for r in results if r["verdict"] == "UNDECIDED"]
    proved = [r for r in results if r["verdict"] == "PROVED"]
    obligations = sum(r["obligations"] for r in results)
    discharged = sum(r["discharged"] for r in results)
    known = known_findings(pid)

    viol = None
    known_hit = []
    if dyn and dyn.get("known"):
        for k in dyn["known"]:
            known_hit.append(k)
    if dyn and dyn.get("violation"):
        viol = "input"
    elif refuted:
        viol = "proof"

    funcs = sorted({f for r in proved for f in r["touched"]})
    bounded = sorted({f for r in undecided for f in (r["covers"] or r["touched"])})
    evidence = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="proof",
        coverage=dict(
            obligations=obligations,
            discharged=discharged,
            checker_cmd="python3-vt /verif/check.py %s" % pid,
            trusted_base=BASE_TRUST + list(getattr(m, "TRUSTED", [])),
            backend="z3 (via pydv symbolic execution)",
            solver_s=round(sum(r["solver_s"] for r in results), 3),
            solver_calls=sum(r["solver_calls"] for r in results),
            units_proved=[
                dict(unit=r["unit"], obligations=r["obligations"], paths=r.get("paths"),
                     loops=r.get("loops"), names=r.get("names"), solver_s=r["solver_s"])
                for r in proved
            ],
            units_undecided=[
                dict(unit=r["unit"], reason=r["reason"]) for r in undecided
            ],
            units_refuted=[
                dict(unit=r["unit"], failed=[f["name"] for f in r["failed"]])
                for r in refuted
            ],
            functions_under_contract=funcs,
            bounded_functions=bounded,
            bounded_parts=list(getattr(m, "BOUNDED", [])),
            replay=None if dyn is None else dict(
                label="bounded: concrete execution of the real code",
                evaluations=dyn.get("evaluations"),
                distinct_nontrivial=dyn.get("distinct"),
                rule=dyn.get("rule"),
                samples=dyn.get("samples"),
                error=dyn.get("error"),
                wall_s=dyn.get("wall_s"),
            ),
        ),
        assumptions=list(getattr(m, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=1 if viol else 0,
    )
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print("%s: %d units proved, %d undecided (bounded), %d refuted; %d/%d obligations; "
          "replay %s cases; %.1fs" % (
              pid, len(proved), len(undecided), len(refuted), discharged, obligations,
              dyn.get("evaluations") if dyn else 0, time.time() - t0))
    for r in undecided:
        print("  bounded only: %s: %s" % (r["unit"], r["reason"].splitlines()[0]))
    if dyn and dyn.get("error"):
        print("  replay harness: %s" % dyn["error"].strip().splitlines()[-1])
    for k in known_hit:
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        else:
            viol = viol or "input"
    if viol:
        rp = os.path.join(EVID, pid + ".replay.json")
        with open(rp, "w") as f:
            json.dump(
                dict(
                    property=pid,
                    failed_obligations=[
                        dict(unit=r["unit"], obligations=r["failed"]) for r in refuted
                    ],
                    undecided=[dict(unit=r["unit"], reason=r["reason"]) for r in undecided],
                    failing_input=dyn.get("violation") if dyn else None,
                    replay_cmd="VERIF_SEED=%d PYTHONPATH=/repo %s %s/dyn/main.py %s --seed %d --tier %s"
                    % (seed, VENV, HERE, mod, seed, tier),
                ),
                f, indent=1, default=str,
            )
        for r in refuted:
            for f in r["failed"]:
                print("  failed obligation: %s / %s %s" % (r["unit"], f["name"], f.get("why", "")))
        if dyn and dyn.get("violation"):
            print("  failing input: %s" % json.dumps(dyn["violation"], default=str)[:1500])
        line = "VIOLATION property=%s replay=%s" % (pid, rp)
        if viol == "proof":
            line += " no-failing-input-found"
        print(line)
        sys.exit(1)
    if not results or obligations == 0:
        if not (dyn and dyn.get("evaluations")):
            print("no obligations and no replay: check error")
            sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
