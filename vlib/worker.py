"""One process: runs (a share of) the sub-checks of a property at one precision.

    python -m vlib.worker search PID DTYPE SHARD OUT.json
    python -m vlib.worker replay FILE OUT.json
"""
import importlib
import json
import os
import random
import sys
import time
import traceback

from . import boot

# the two variables only serve experiments with many planted bugs
SHRINK_SECONDS = float(os.environ.get("VERIF_SHRINK", "45"))
SCALE = float(os.environ.get("VERIF_SCALE", "1"))


def derive(*parts):
    import hashlib
    h = hashlib.blake2b("|".join(map(str, parts)).encode(), digest_size=6).digest()
    return int.from_bytes(h, "big")


def run_one(sub, case, env, rec):
    """One case, as in the search and in a replay: the code's own randomness is reseeded."""
    import numpy as np
    s = derive(json.dumps(case, sort_keys=True)) % (2 ** 31)
    env.tf.random.set_seed(s)
    np.random.seed(s % (2 ** 31))
    random.seed(s)
    rec.begin()
    from .core import Violation
    try:
        sub.check(case, env, rec)
    except Exception as e:
        # Every generated case is a valid use: an error coming out of the code under test contradicts the property,
        # wherever the check happened to call it.  Anything else is an error of the harness.
        if isinstance(e, Violation) or type(e).__module__.startswith("hypothesis") or not from_sut(e):
            raise
        raise Violation("%s: %s" % (type(e).__name__, " ".join(str(e).split())[:300])) from e


def from_sut(e):
    src = os.path.join(boot.REPO, "pySLM2") + os.sep
    tb = e.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(src):
            return True
        tb = tb.tb_next
    return src in str(e)


def search(pid, dtype, shard, out):
    boot.quiet_env()
    boot.hypothesis_path()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    from .core import Env, Rec, Violation
    mod = importlib.import_module("checks." + pid.lower())
    tf, p = boot.load(None if getattr(mod, "FRESH", False) else dtype)
    env = Env(tf, p, dtype)
    seed, tier = int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick")
    result = {"subs": {}, "violations": []}
    for sub in mod.SUBS:
        if dtype not in sub.dtypes or shard >= sub.shards:
            continue
        n = max(1, int(-(-SCALE * sub.total(tier) // (len(sub.dtypes) * sub.shards))))
        rec = Rec()
        fails, history = [], []
        t0 = time.time()
        state = {"first": None}

        def body(case):
            # bounded shrinking: once a failure has been shrunk for long enough, stop looking
            if state["first"] is not None and time.time() - state["first"] > SHRINK_SECONDS:
                return
            if len(history) < 3000:
                history.append(case)
            try:
                run_one(sub, case, env, rec)
            except Violation as v:
                fails.append((case, str(v), len(history)))
                if state["first"] is None:
                    state["first"] = time.time()
                raise
            if state["first"] is None:
                rec.end(case)

        test = given(sub.strategy())(body)
        test = settings(max_examples=n, database=None, deadline=None, print_blob=False, derandomize=False,
                        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                        suppress_health_check=[h for h in HealthCheck if h is not HealthCheck.filter_too_much])(test)
        test = hypothesis.seed(derive(seed, pid, sub.name, dtype, shard))(test)
        error = None
        try:
            test()
        except Violation:
            pass
        except hypothesis.errors.Flaky:
            pass
        except BaseException as e:
            if not fails:
                error = traceback.format_exc()
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
        if fails:
            # the smallest failing case seen, ties to the latest
            best = min(range(len(fails)), key=lambda k: (len(json.dumps(fails[k][0])), -k))
            case, msg, _ = fails[best]
            result["violations"].append({"sub": sub.name, "dtype": dtype, "case": case, "message": msg,
                                         "history": history[:fails[0][2]], "first_message": fails[0][1]})
        result["subs"][sub.name] = {
            "evaluations": rec.evaluations, "nontrivial": sorted(rec.nontrivial), "labels": rec.labels,
            "samples": rec.samples, "rule": sub.rule, "wall": round(time.time() - t0, 2), "error": error}
        if error or fails:
            break
    with open(out, "w") as f:
        json.dump(result, f)
    sys.stdout.flush()
    os._exit(0)


def replay(path, out):
    spec = json.load(open(path))
    boot.quiet_env()
    boot.hypothesis_path()
    from .core import Env, Rec, Violation
    mod = importlib.import_module("checks." + spec["property"].lower())
    tf, p = boot.load(None if getattr(mod, "FRESH", False) else spec["dtype"])
    env = Env(tf, p, spec["dtype"])
    sub = next(s for s in mod.SUBS if s.name == spec["sub"])
    res = {"reproduced": False, "message": None, "index": None}
    for k, case in enumerate(spec["cases"]):
        try:
            run_one(sub, case, env, Rec())
        except Violation as v:
            res = {"reproduced": True, "message": str(v), "index": k}
            break
    with open(out, "w") as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    if sys.argv[1] == "search":
        search(sys.argv[2], sys.argv[3], int(sys.argv[4]), sys.argv[5])
    else:
        replay(sys.argv[2], sys.argv[3])
