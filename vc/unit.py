"""registry of proof units: a unit is a contract on one or more real functions, written as a function that
builds an arbitrary pre-state, calls the function(s) of /repo through the engine and proves the postcondition"""
import os
import time
import traceback

import engine as E
import loops
from values import CTX, Unsupported

UNITS = {}


class Unit:
    def __init__(self, props, name, fn, quick, thorough, opts):
        self.props = props
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick
        self.opts = opts


def unit(props, name, quick=({},), thorough=None, **opts):
    if isinstance(props, str):
        props = (props,)

    def deco(fn):
        u = Unit(props, name, fn, list(quick), list(thorough) if thorough else None, opts)
        for p in props:
            UNITS.setdefault(p, []).append(u)
        return fn
    return deco


def run_unit(u, cfg, seed=1, budget=60.0, samples=None):
    """-> picklable result"""
    name = u.name+("[" + ",".join("%s=%s" % (k, getattr(v, "__name__", v)) for k, v in sorted(cfg.items())) + "]" if cfg else "")
    o = u.opts
    mod = o.get("moduli", ())
    if callable(mod):
        mod = mod(**cfg)
    run = E.Run(name, lambda ctx: u.fn(ctx, **cfg), dict(allow_exc=o.get("allow_exc")))
    run.gen_opts = o.get("gen", {})
    t0 = time.time()
    run.deadline = t0+budget
    run.debug = bool(os.environ.get("VC_DEBUG"))
    res = dict(unit=name, cfg={k: str(v) for k, v in cfg.items()}, bounded=o.get("bounded"), status=None)
    try:
        loops.infer_and_prove(run, n_samples=samples or o.get("samples", 40), seed=seed, moduli=mod,
                              conc_budget=o.get("conc_budget", budget*0.3))
        if run.conc_bad:
            res["status"] = "conc_bad"
            res["detail"] = run.conc_bad
        elif run.failures and not run.weak:
            res["status"] = "refuted"
            res["detail"] = run.failures[:5]
        elif run.failures:
            res["status"] = "undecided"
            res["detail"] = "not proved: %s; the solver gave no answer for the invariants %s" % (sorted({f["label"] for f in run.failures})[:5], run.weak[:3])
        elif run.unknowns:
            res["status"] = "undecided"
            res["detail"] = "solver gave no answer on: %s" % sorted(set(run.unknowns))[:5]
        elif run.stats["obligations"] == 0 or not (run.covers.get("end") or o.get("forever") and any(k.startswith("body:") for k in run.covers)):
            res["status"] = "undecided"
            res["detail"] = "no obligation was generated or no path reached the end"
        else:
            missing = [c for c in o.get("covers", ()) if not run.covers.get(c)]
            if missing:
                res["status"] = "undecided"
                res["detail"] = "not reached: %s" % missing
            else:
                res["status"] = "proved"
    except Unsupported as e:
        res["status"] = "undecided"
        res["detail"] = "outside the verified subset: %s" % e
        if run.failures:
            res["detail"] += " (refuted before that: %s)" % sorted({f["label"] for f in run.failures})
    except RecursionError as e:
        res["status"] = "undecided"
        res["detail"] = "recursion"
    except Exception as e:
        res["status"] = "undecided"
        res["detail"] = "internal: %s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()
    st = dict(run.stats)
    res["stats"] = st
    res["labels"] = {k: list(v) for k, v in run.results.items()}
    res["covers"] = dict(run.covers)
    res["functions"] = sorted(run.functions)
    res["wall"] = round(time.time()-t0, 2)
    res["invariants"] = {str(i.site[:2]): len(i.cands) for i in run.loops.values() if i.cands is not None}
    return res
