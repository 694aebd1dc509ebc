"""registry of native cross-checks: one case = one run of the real code in CPython (with the real cocotb on the
kernel stand-in where a bus is involved) against an independent oracle.  They replay what the verifier refutes and
are the bounded stand-in for what it cannot reach; they never turn an undischarged obligation into a proof."""
import random
import signal
import time
import traceback

SUITES = {}


class Suite:
    def __init__(self, props, name, fn, quick, thorough, rule):
        self.props, self.name, self.fn, self.quick, self.thorough, self.rule = props, name, fn, quick, thorough, rule


def suite(props, name, quick=200, thorough=5000, rule=""):
    if isinstance(props, str):
        props = (props,)

    def deco(fn):
        s = Suite(props, name, fn, quick, thorough, rule or (fn.__doc__ or "").strip())
        for p in props:
            SUITES.setdefault(p, []).append(s)
        return fn
    return deco


class Skip(Exception):
    """the generated case is outside the property's scope"""


def check(c, *msg):
    if not c:
        raise AssertionError(" ".join(str(m) for m in msg))


class Hang(BaseException):
    pass


CPU_LIMIT = 30.0        # CPU seconds one case may use; ordinary cases need milliseconds


def run_case(s, seed, index):
    rng = random.Random("%s/%s/%d" % (s.name, seed, index))

    def stop(*a):
        raise Hang("a case did not finish within %g s of CPU time" % CPU_LIMIT)

    old = signal.signal(signal.SIGPROF, stop)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        return s.fn(rng)
    except Hang as e:
        raise AssertionError(str(e)) from None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def run_suite(s, seed, n, budget, start=0):
    t0 = time.time()
    res = dict(suite=s.name, evaluations=0, keys=set(), skipped=0, failure=None, samples=[], rule=s.rule)
    for i in range(start, start+n):
        try:
            k = run_case(s, seed, i)
            res["evaluations"] += 1
            if k is not None:
                k = str(k)
                res["keys"].add(k[:300])
                if len(res["samples"]) < 3:
                    res["samples"].append(k[:300])
        except Skip:
            res["skipped"] += 1
        except Exception as e:
            res["evaluations"] += 1
            res["failure"] = dict(suite=s.name, seed=seed, index=i, error="%s: %s" % (type(e).__name__, str(e)[:600]),
                                  trace=traceback.format_exc()[-3000:])
            break
        if time.time()-t0 > budget:
            break
    res["wall"] = round(time.time()-t0, 2)
    return res
