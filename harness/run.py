"""Command line: run.py PID [quick|thorough] | run.py --replay FILE | --list

Exit 0: the property held on everything explored.  Exit 1: violated, with a
line ``VIOLATION property=<id> replay=<path>``.  Exit 2: error of the harness.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SOLIDSPY_UNDER_TEST", "/repo")
PY = "/opt/venv/bin/python"
WANT = {"PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1", "MPLBACKEND": "Agg",
        "PYTHONDONTWRITEBYTECODE": "1"}
if any(os.environ.get(k) != v for k, v in WANT.items()) \
        or "VERIF_SCRATCH" not in os.environ:
    # Re-execute with a pinned environment and a private scratch directory
    import shutil
    import subprocess
    import tempfile
    scratch = tempfile.mkdtemp(prefix="solidspy-verif-")
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    env.update(WANT)
    env["VERIF_SCRATCH"] = scratch
    env["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hyp")
    mpl = os.path.join(scratch, "mpl")
    try:
        shutil.copytree("/opt/vp/mplconfig", mpl)
    except Exception:
        os.makedirs(mpl, exist_ok=True)
    env["MPLCONFIGDIR"] = mpl
    try:
        rc = subprocess.call(
            [PY if os.path.exists(PY) else sys.executable,
             "-X", "pycache_prefix=" + os.path.join(scratch, "pyc"),
             os.path.abspath(__file__)] + sys.argv[1:], env=env)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 2)

import glob
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import signal
import time

sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
try:
    import hypothesis  # noqa: F401
except ImportError:
    # appended last: numpy, scipy and matplotlib stay those of /opt/venv
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import hypothesis  # noqa: F401

import solidspy
assert os.path.realpath(solidspy.__file__).startswith(
    os.path.realpath(REPO) + os.sep), solidspy.__file__

from harness import core


def load(pid):
    importlib.import_module("harness.checks." + pid.lower())
    return core.REGISTRY[pid]


# A case takes seconds at most; the code under test is taken to hang if it
# has not returned after this time.
HANG_S = 240.0
CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
           signal.SIGILL)


def _work(args, note=None):
    pid, name, tier, seed, shard, budget, examples = args
    chk = [c for c in core.REGISTRY[pid] if c.name == name][0]
    try:
        return core.run_check(chk, tier, seed, shard, budget, examples,
                              note=note)
    except BaseException as exc:       # report, never hang the pool
        import traceback
        return dict(_empty(args), error=traceback.format_exc()[-4000:])


def _empty(args):
    return {"pid": args[0], "name": args[1], "shard": args[4],
            "violation": None, "error": None, "budget_hit": False,
            "evaluations": 0, "labels": {}, "nontrivial": [],
            "samples": [], "wall": 0.0}


def _child(args, path, conn):
    with open(path, "w") as cur:
        def note(case):
            cur.seek(0)
            cur.write(json.dumps(case))
            cur.truncate()
            cur.flush()
        res = _work(args, note)
    os.unlink(path)
    conn.send(res)
    conn.close()


def run_tasks(tasks, ncpu):
    """Each task in a process of its own, ``ncpu`` at a time.  The case being
    evaluated is on file, so that a crash or an endless loop of the code
    under test is reported with the case that causes it."""
    ctx = mp.get_context("fork")
    results = [None]*len(tasks)
    waiting = list(range(len(tasks)))[::-1]
    active = {}                   # receiving end -> (index, process, path)

    def end(conn, res):
        k, proc, path = active.pop(conn)
        results[k] = res
        conn.close()
        proc.join()

    def last_case(path):
        try:
            with open(path) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    while waiting or active:
        while waiting and len(active) < ncpu:
            k = waiting.pop()
            path = os.path.join(os.environ["VERIF_SCRATCH"], "case-%d" % k)
            recv, send = ctx.Pipe(False)
            proc = ctx.Process(target=_child, args=(tasks[k], path, send))
            proc.start()
            send.close()
            active[recv] = (k, proc, path)
        for conn in mp.connection.wait(list(active), 5.0):
            k, proc, path = active[conn]
            try:
                end(conn, conn.recv())
                continue
            except EOFError:
                proc.join()
            sig = -(proc.exitcode or 0)
            case = last_case(path)
            res = _empty(tasks[k])
            if sig in CRASHES and case is not None:
                res["violation"] = {"case": case, "msg": (
                    "the process crashed (signal %d)" % sig)}
            else:
                res["error"] = "worker ended with code %s at %s" % (
                    proc.exitcode, json.dumps(case)[:2000])
            end(conn, res)
        now = time.time()
        for conn, (k, proc, path) in list(active.items()):
            try:
                idle = now - os.stat(path).st_mtime
            except OSError:
                continue
            if idle > HANG_S:
                proc.kill()
                case = last_case(path)
                res = _empty(tasks[k])
                if case is None:
                    res["error"] = "no case after %d s" % idle
                else:
                    res["violation"] = {"case": case, "msg": (
                        "no result after %d seconds" % HANG_S)}
                end(conn, res)
    return results


def known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def main(argv):
    if argv and argv[0] == "--list":
        for path in sorted(glob.glob(os.path.join(
                VERIF, "harness", "checks", "c*.py"))):
            pid = os.path.basename(path)[:-3].upper()
            for c in load(pid):
                print(pid, c.name, c.quick, c.thorough)
        return 0
    if argv and argv[0] == "--replay":
        with open(argv[1]) as f:
            rec = json.load(f)
        load(rec["property"])
        res = run_tasks([(rec["property"], rec["check"], "replay", 1, 0, 0.0,
                          [rec["case"]])], 1)[0]
        if res["error"]:
            print("HARNESS-ERROR " + res["error"])
            return 2
        msg = res["violation"] and res["violation"]["msg"]
        if msg is None:
            print("replay: the property holds on this case")
            return 0
        print("replay: " + msg)
        print("VIOLATION property=%s replay=%s" % (rec["property"], argv[1]))
        return 1

    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2] if len(argv) > 2 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    checks = [c for c in load(pid) if only is None or c.name == only]
    tasks = []
    shards = 2 if tier == "quick" else 4
    budget = 500.0 if tier == "quick" else 3000.0
    if os.environ.get("VERIF_BUDGET_S"):
        budget = float(os.environ["VERIF_BUDGET_S"])
    for c in checks:
        total = 2*c.quick if tier == "quick" else c.thorough
        for s in range(shards):
            tasks.append((pid, c.name, tier, seed, s, budget,
                          (total + shards - 1)//shards))
    # the heaviest checks first
    ncpu = min(8, os.cpu_count() or 1)
    results = run_tasks(tasks, ncpu)

    errors, viols = [], []
    findings = [k for k in known() if k["property"] == pid]
    ev = {"per_check": {}}
    tot_eval, distinct, samples = 0, 0, []
    for c in checks:
        rs = [r for r in results if r["name"] == c.name]
        nt = set()
        labels = {}
        for r in rs:
            nt.update(r["nontrivial"])
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
            if r["error"]:
                errors.append((c.name, r["error"]))
            if r["violation"]:
                viols.append((c, r["violation"]))
        n = sum(r["evaluations"] for r in rs)
        ev["per_check"][c.name] = {
            "evaluations": n, "distinct_nontrivial": len(nt),
            "rule": c.rule, "labels": dict(sorted(labels.items())),
            "budget_hit": any(r["budget_hit"] for r in rs),
            "cpu_s": round(sum(r["wall"] for r in rs), 2)}
        tot_eval += n
        distinct += len(nt)
        for r in rs[:1]:
            samples += r["samples"][:2]
    rc = 0
    reported = 0
    for c, v in viols:
        hit = [k for k in findings if k["check"] == c.name
               and k["case"] == v["case"]]
        if hit:
            continue
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s.json" % (
            pid, c.name, core._key(v["case"])))
        with open(path, "w") as f:
            json.dump({"property": pid, "check": c.name, "case": v["case"],
                       "message": v["msg"], "seed": seed, "tier": tier}, f,
                      indent=1)
        print("%s/%s: %s" % (pid, c.name, v["msg"]))
        print("  minimal case: " + json.dumps(v["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        reported += 1
        rc = 1
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot_eval, "distinct_nontrivial": distinct,
            "rule": "Hypothesis-generated cases per check below; a case is "
                    "non-trivial as the rule of its check states. "
                    + " | ".join("%s: %s" % (c.name, " ".join(c.rule.split()))
                                 for c in checks),
            "samples": samples[:12] or ["none"],
            "per_check": ev["per_check"]},
        "assumptions": [
            "IEEE double arithmetic; tolerances are stated in the checks",
            "bulk data (jitter, permutations) are a fixed hash of integers "
            "drawn by Hypothesis"],
        "wall_s": round(time.time() - t0, 2), "violations": reported}
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    if errors and rc == 0:
        for name, e in errors:
            print("HARNESS-ERROR %s/%s\n%s" % (pid, name, e))
        rc = 2
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s)"
          ", %.1f s" % (pid, tier, seed, tot_eval, distinct, reported,
                        time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for name, d in ev["per_check"].items():
            print("  ", name, d["evaluations"], d["distinct_nontrivial"],
                  d["cpu_s"], d["labels"])
    return rc


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
