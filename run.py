#!/usr/bin/env python3
"""Driver: python3 run.py PID            search for a violation of one property (quick or thorough by VERIF_TIER)
           python3 run.py --replay FILE  run a saved failing case again, without Hypothesis
           python3 run.py --setup        check that everything the checks need is there
           python3 run.py --all          every check of the manifest, one after another

Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: an error of the check."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
CORES = 8
WORKER_LIMIT = {"quick": 780, "thorough": 6 * 3600}


def env_for(tmp):
    e = dict(os.environ)
    e.update({"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": HERE,
              # never read byte code that belongs to an earlier state of the tree
              "PYTHONPYCACHEPREFIX": os.path.join(tmp, "pyc"), "HOME": tmp, "TMPDIR": tmp,
              "HYPOTHESIS_STORAGE_DIRECTORY": os.path.join(tmp, "hyp")})
    e.setdefault("VERIF_SEED", "1")
    e.setdefault("VERIF_TIER", "quick")
    return e


def known(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)) if k.get("property") == pid and k.get("status") == "known"]


def write_replay(pid, v, cases):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, ("%s-%s-%s.json" % (pid, v["sub"], v["dtype"])).replace(" ", "_"))
    with open(path, "w") as f:
        json.dump({"property": pid, "sub": v["sub"], "dtype": v["dtype"], "message": v["message"],
                   "cases": cases}, f, indent=1)
    return path


def run_replay(path, env, tmp):
    out = os.path.join(tmp, "replay-%d.json" % time.monotonic_ns())
    p = subprocess.run([PY, "-m", "vlib.worker", "replay", path, out], cwd=HERE, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if not os.path.exists(out):
        raise RuntimeError("replay failed to run:\n" + p.stdout.decode(errors="replace")[-3000:])
    return json.load(open(out))


def settle(pid, v, env, tmp):
    """Save the failure as a replay file that fails in a fresh process, if one can be found."""
    path = write_replay(pid, v, [v["case"]])
    try:
        if run_replay(path, env, tmp)["reproduced"]:
            return path, True
        h = v["history"]
        for k in (2, 4, 8, 16, 32, 64, 128, 1024):
            path = write_replay(pid, v, h[-k:])
            if run_replay(path, env, tmp)["reproduced"]:
                return path, True
            if k >= len(h):
                break
    except (RuntimeError, subprocess.TimeoutExpired) as e:
        print("replay: %s" % e)
    return write_replay(pid, v, [v["case"]]), False


def plan(pid):
    """Which (dtype, shard) processes the property wants, read from the module without importing TensorFlow."""
    code = ("import sys,json;sys.path.insert(0,%r)\n"
            "from vlib import boot;boot.hypothesis_path()\n"
            "import importlib;m=importlib.import_module('checks.%s')\n"
            "print('PLAN',json.dumps(sorted({(d,s) for b in m.SUBS for d in b.dtypes for s in range(b.shards)})))"
            % (HERE, pid.lower()))
    return code


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in WORKER_LIMIT:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    env = env_for(tmp)
    try:
        p = subprocess.run([PY, "-c", plan(pid)], cwd=HERE, env=env, capture_output=True, text=True)
        line = [x for x in p.stdout.splitlines() if x.startswith("PLAN ")]
        if not line:
            print(p.stdout, p.stderr)
            return 2
        jobs = json.loads(line[0][5:])
        procs = []
        for dtype, shard in jobs:
            out = os.path.join(tmp, "%s-%d.json" % (dtype, shard))
            log = open(out + ".log", "w")
            procs.append((subprocess.Popen([PY, "-m", "vlib.worker", "search", pid, dtype, str(shard), out], cwd=HERE,
                                           env=env, stdout=log, stderr=subprocess.STDOUT), out, dtype, shard))
        deadline = t0 + WORKER_LIMIT[tier]
        bad = []
        for pr, out, dtype, shard in procs:
            try:
                pr.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.wait()
                bad.append("%s/%d: out of time (inconclusive)" % (dtype, shard))
        merged, violations = {}, []
        for pr, out, dtype, shard in procs:
            if not os.path.exists(out):
                tail = open(out + ".log", errors="replace").read()[-3000:]
                bad.append("%s/%d: no result (exit %s)\n%s" % (dtype, shard, pr.returncode, tail))
                continue
            r = json.load(open(out))
            violations += r["violations"]
            for name, s in r["subs"].items():
                if s["error"]:
                    bad.append("%s/%d %s: harness error\n%s" % (dtype, shard, name, s["error"]))
                m = merged.setdefault(name, {"evaluations": 0, "nt": set(), "labels": {}, "samples": [],
                                             "rule": s["rule"], "wall": 0})
                m["evaluations"] += s["evaluations"]
                m["nt"].update((dtype, h) for h in s["nontrivial"])
                m["wall"] = max(m["wall"], s["wall"])
                for k, c in s["labels"].items():
                    m["labels"][k] = m["labels"].get(k, 0) + c
                for c in s["samples"]:
                    if len(m["samples"]) < 3 and c not in m["samples"]:
                        m["samples"].append(c)
        rc = 0
        known_lines = known(pid)
        for k in known_lines:
            path = os.path.join(tmp, "known.json")
            json.dump({"property": pid, "sub": k["sub"], "dtype": k["dtype"], "cases": [k["case"]]}, open(path, "w"))
            if run_replay(path, env, tmp)["reproduced"]:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        if violations:
            # one report per sub-check, the smallest case first
            seen = set()
            for v in sorted(violations, key=lambda v: len(json.dumps(v["case"]))):
                if v["sub"] in seen:
                    continue
                seen.add(v["sub"])
                path, again = settle(pid, v, env, tmp)
                print("%s %s [%s]: %s%s" % (pid, v["sub"], v["dtype"], v["message"],
                                            "" if again else " (seen in the search, not again in a fresh process)"))
                print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
        elif bad:
            for b in bad:
                print("ERROR " + b)
            rc = 2
        cov = {
            "evaluations": sum(m["evaluations"] for m in merged.values()),
            "distinct_nontrivial": sum(len(m["nt"]) for m in merged.values()),
            "rule": " | ".join("%s: %s" % (n, m["rule"]) for n, m in merged.items()),
            "samples": [{"sub": n, "case": c} for n, m in merged.items() for c in m["samples"]][:12],
            "per_sub": {n: {"evaluations": m["evaluations"], "distinct_nontrivial": len(m["nt"]),
                            "labels": dict(sorted(m["labels"].items())), "slowest_worker_s": m["wall"]}
                        for n, m in merged.items()},
            "processes": len(procs),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                       "assumptions": ["TensorFlow, numpy and scipy compute elementary operations and FFTs to their "
                                       "documented precision", "CPU execution; no GPU and no DMD hardware is present"],
                       "wall_s": round(time.time() - t0, 2), "violations": len(violations)}, f, indent=1)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s, %s"
              % (pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0,
                 {0: "held", 1: "VIOLATED", 2: "ERROR"}[rc]))
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        spec = json.load(open(path))
        r = run_replay(os.path.abspath(path), env_for(tmp), tmp)
        if r["reproduced"]:
            print(r["message"])
            print("VIOLATION property=%s replay=%s" % (spec["property"], path))
            return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    tmp = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        code = ("from vlib import boot;boot.quiet_env();boot.hypothesis_path();import hypothesis;"
                "tf,p=boot.load();print('ok',hypothesis.__version__,tf.__version__)")
        return subprocess.call([PY, "-c", code], cwd=HERE, env=env_for(tmp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(argv):
    if argv[:1] == ["--setup"]:
        return setup()
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    if argv[:1] == ["--all"]:
        rc = 0
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            rc = max(rc, check(c["property"]))
        return rc
    return check(argv[0])


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
