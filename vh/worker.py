"""One worker process: drives a property with Hypothesis, or replays one saved case."""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import traceback


def is_subject_failure(exc):
    """An exception counts against the code under test if it passed through /repo code,
    or is a runtime error of a computation that /repo code staged."""
    if type(exc).__name__ == "XlaRuntimeError":
        return True
    if isinstance(exc, RuntimeError) and "has been deleted" in str(exc):
        return True  # the code under test took over the memory of one of its arguments
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(os.environ.get("VH_REPO", "/repo") + "/"):
            return True
        tb = tb.tb_next
    return False


def describe(exc):
    lines = traceback.format_exception(type(exc), exc, exc.__traceback__)
    return (type(exc).__name__ + ": " + str(exc))[:1500], "".join(lines)[-3000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--idx", type=int, default=0)
    ap.add_argument("--n", type=int, default=10)
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--shrink", type=float, default=20)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out", required=True)
    ap.add_argument("--corpus", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()

    t0 = time.time()
    from . import env

    hyp = env.import_hypothesis()
    res = dict(
        evaluations=0, nontrivial=[], labels={}, samples=[], inner=0, known={},
        failure=None, error=None, skipped=0, corpus=0, x64=env.X64,
    )
    seen = set()
    state = dict(first_fail=None, fails=[])
    beat = a.out + ".beat"

    def write_beat(case):
        with open(beat + ".tmp", "w") as f:
            json.dump(dict(t=time.time(), case=case), f)
        os.replace(beat + ".tmp", beat)

    def run_one(case, record=True):
        """Returns None or (message, detail)."""
        write_beat(case)
        info = env.Info()
        try:
            prop.check(case, info)
        except env.Violation as e:
            return str(e)[:1500], ""
        except Exception as e:  # noqa
            if is_subject_failure(e):
                m, d = describe(e)
                return "unexpected exception " + m, d
            raise
        finally:
            if record:
                res["evaluations"] += 1
                res["inner"] += info.inner
                for k, v in info.labels.items():
                    res["labels"][k] = res["labels"].get(k, 0) + v
                for k, v in info.known.items():
                    res["known"][k] = res["known"].get(k, 0) + v
                if info.nontrivial:
                    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
                    if h not in seen:
                        seen.add(h)
                        if len(res["samples"]) < 2:
                            res["samples"].append(case)
        return None

    def finish(code):
        res["nontrivial"] = sorted(seen)
        res["wall"] = time.time() - t0
        with open(a.out + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(a.out + ".tmp", a.out)
        sys.stdout.flush()
        os._exit(code)

    try:
        prop = importlib.import_module("vh.props." + a.prop.lower())
    except Exception as e:  # noqa
        # Importing the package or defining the variable and factor types used here failed.
        m, d = describe(e)
        if is_subject_failure(e):
            res["failure"] = dict(case=dict(setup=True), message="unexpected exception " + m, detail=d)
            finish(1)
        res["error"] = d
        finish(2)

    try:
        if a.replay:
            with open(a.replay) as f:
                doc = json.load(f)
            bad = run_one(doc["case"])
            if bad:
                res["failure"] = dict(case=doc["case"], message=bad[0], detail=bad[1])
            finish(1 if bad else 0)

        if a.corpus:
            d = os.path.join(env.HERE, "corpus", a.prop)
            for fn in sorted(os.listdir(d)) if os.path.isdir(d) else []:
                with open(os.path.join(d, fn)) as f:
                    doc = json.load(f)
                if bool(doc.get("x64", True)) != env.X64:
                    continue
                res["corpus"] += 1
                bad = run_one(doc["case"])
                if bad:
                    res["failure"] = dict(case=doc["case"], message=bad[0], detail=bad[1], corpus=fn)
                    finish(1)

        import random

        random.seed(0)
        settings = hyp.settings(
            max_examples=a.n,
            database=None,
            deadline=None,
            suppress_health_check=list(hyp.HealthCheck),
            report_multiple_bugs=False,
            print_blob=False,
            phases=[hyp.Phase.generate, hyp.Phase.shrink],
        )
        stop_at = t0 + a.budget

        class Found(Exception):
            pass

        @hyp.seed(a.seed * 1000 + a.idx)
        @settings
        @hyp.given(prop.strategy(a.tier))
        def test(case):
            now = time.time()
            if state["first_fail"] is None:
                if now > stop_at:
                    res["skipped"] += 1
                    return
            elif now > state["first_fail"] + a.shrink:
                return
            bad = run_one(case, record=state["first_fail"] is None)
            if bad:
                if state["first_fail"] is None:
                    state["first_fail"] = time.time()
                state["fails"].append((case, bad))
                raise Found(bad[0])
            every = getattr(prop, "CLEAR_CACHES_EVERY", 0)
            if every and res["evaluations"] % every == 0:
                import jax

                jax.clear_caches()

        try:
            test()
        except BaseException as e:  # noqa
            if not state["fails"]:
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
                res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
                finish(2)
        if state["fails"]:
            case, bad = min(
                state["fails"], key=lambda t: (len(json.dumps(t[0])), json.dumps(t[0]))
            )
            res["failure"] = dict(
                case=case, message=bad[0], detail=bad[1], first=state["fails"][0][0],
                first_message=state["fails"][0][1][0], shrink_steps=len(state["fails"]),
            )
            finish(1)
        finish(0)
    except Exception as e:  # noqa
        res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
        finish(2)


if __name__ == "__main__":
    main()
