#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> : decides one property on /repo's current tree.  VERIF_TIER, VERIF_SEED from the environment.
check.py --replay <file> : re-runs the failing input of a VIOLATION line on the real code."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vc"))
sys.path.insert(0, os.path.join(HERE, "conc"))
sys.dont_write_bytecode = True
NPROC = int(os.environ.get("VERIF_JOBS", "8"))

import env          # noqa: E402
import unit         # noqa: E402
import suite        # noqa: E402

IMPORT_ERRORS = []


def load():
    for d, pre in (("vc", "u_"), ("conc", "s_")):
        for f in sorted(os.listdir(os.path.join(HERE, d))):
            if f.startswith(pre) and f.endswith(".py"):
                try:
                    importlib.import_module(f[:-3])
                except Exception as e:      # a changed tree may lack what a unit names: undecided
                    IMPORT_ERRORS.append("%s: %s: %s" % (f, type(e).__name__, e))


def _job(conn, kind, args):
    import signal
    import resource
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    out = os.open(os.devnull, os.O_WRONLY)
    os.dup2(out, 1)
    os.dup2(out, 2)
    try:
        if kind == "unit":
            r = unit.run_unit(*args)
        else:
            r = suite.run_suite(*args)
    except BaseException as e:
        import traceback
        r = dict(crash="%s: %s" % (type(e).__name__, e), trace=traceback.format_exc()[-1500:])
    conn.send(r)
    conn.close()


def run_jobs(jobs, end=None):
    """jobs: list of (key, kind, args, limit_s); yields (key, result)"""
    ctx = mp.get_context("fork")
    todo = list(jobs)[::-1]
    live = []
    while todo or live:
        while todo and len(live) < NPROC:
            key, kind, args, limit = todo.pop()
            if end is not None:
                limit = min(limit, end-time.time())
                if limit < 1:
                    yield key, dict(crash="no time left")
                    continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_job, args=(b, kind, args), daemon=True)
            p.start()
            b.close()
            live.append((key, p, a, time.time()+limit))
        done = mp.connection.wait([x[2] for x in live], timeout=0.5)
        nxt = []
        for key, p, a, t in live:
            if a in done:
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(crash="job died")
                p.join()
                yield key, r
            elif time.time() > t:
                p.kill()
                p.join()
                yield key, dict(crash="time limit")
            else:
                nxt.append((key, p, a, t))
        live = nxt


def known_findings(prop):
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    load()
    thorough = tier == "thorough"
    ubudget = 600.0 if thorough else 150.0
    jobs = []
    units = unit.UNITS.get(prop, [])
    for ui, u in enumerate(units):
        for ci, cfg in enumerate(u.thorough if thorough else u.quick):
            b = u.opts.get("budget", ubudget)*(4 if thorough and "budget" in u.opts else 1)
            jobs.append((("unit", u.name, ci), "unit", (u, cfg, seed, b), b+60))
    suites = suite.SUITES.get(prop, [])
    for s in suites:
        n = s.thorough if thorough else s.quick
        parts = min(NPROC, max(1, n//20))
        per = -(-n//parts)
        for k in range(parts):
            b = 900.0 if thorough else 60.0
            jobs.append((("suite", s.name, k), "suite", (s, seed, per, b, k*per), b+90))
    # long ones first
    jobs.sort(key=lambda j: j[1] != "suite")
    results = {}
    # a check answers within 900 s: what is not decided by then is reported as undecided
    end = None if thorough else t0+540
    for key, r in run_jobs(jobs, end):
        results[key] = r
    # a refuted obligation may be owed to an invariant that was not found: once more with other samples
    again = [j for j in jobs if results[j[0]].get("status") == "refuted" or "no answer" in str(results[j[0]].get("detail"))]
    for key, r in run_jobs([(k, kind, (a[0], a[1], seed+7, a[3]), lim) for k, kind, a, lim in again[:2*NPROC]], None if thorough else t0+720):
        if r.get("status") in ("proved", "undecided"):
            results[key] = r
    ures = [(k, r) for k, r in sorted(results.items(), key=str) if k[0] == "unit"]
    sres = [(k, r) for k, r in sorted(results.items(), key=str) if k[0] == "suite"]
    failures = [r["failure"] for k, r in sres if r.get("failure")]
    refuted = [r for k, r in ures if r.get("status") in ("refuted", "conc_bad")]
    searched = 0
    if refuted and not failures:
        # look for an input of the real code that shows what the verifier refuted
        jobs = []
        for s in suites:
            for k in range(max(1, NPROC//max(1, len(suites)))*2):
                jobs.append((("search", s.name, k), "suite", (s, seed+1000+k, 100000, 60.0, 0), 120))
        end = time.time()+120
        for key, r in run_jobs(jobs):
            searched += r.get("evaluations", 0)
            if r.get("failure"):
                failures.append(r["failure"])
                break
    undecided = [dict(unit=r.get("unit", str(k)), reason=r.get("detail") or r.get("crash"), bounded=True)
                 for k, r in ures if r.get("status") == "undecided" or r.get("crash")]
    for r in list(undecided):
        pass
    obligations = sum(r["stats"].get("obligations", 0)+r["stats"].get("inv_obligations", 0) for k, r in ures if r.get("stats"))
    discharged = sum(r["stats"].get("discharged", 0)+r["stats"].get("inv_obligations", 0) for k, r in ures if r.get("stats"))
    keys = set()
    for k, r in sres:
        keys |= {(k[1], x) for x in r.get("keys", ())}
    functions = sorted({f for k, r in ures for f in r.get("functions", ())})
    trusted = TRUSTED.get(prop, []) + TRUSTED["*"]
    proved = [r["unit"] for k, r in ures if r.get("status") == "proved"]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="proof", wall_s=0.0, violations=0,
        coverage=dict(
            obligations=obligations, discharged=discharged,
            checker_cmd="VERIF_TIER=%s VERIF_SEED=%d ./check.py %s" % (tier, seed, prop),
            trusted_base=trusted,
            backends=dict(z3=discharged-sum(r["stats"].get("cvc5", 0) for k, r in ures if r.get("stats")),
                          cvc5=sum(r["stats"].get("cvc5", 0) for k, r in ures if r.get("stats"))),
            solver_time_s=round(sum(r["stats"].get("solver_s", 0) for k, r in ures if r.get("stats")), 2),
            solver_queries=sum(r["stats"].get("queries", 0) for k, r in ures if r.get("stats")),
            symbolic_paths=sum(r["stats"].get("paths", 0) for k, r in ures if r.get("stats")),
            functions_under_contract=functions,
            units_proved=len(proved),
            units=[dict(unit=r.get("unit", str(k)), status=r.get("status", "undecided"), wall_s=r.get("wall"),
                        obligations=r.get("stats", {}).get("obligations"), invariants=r.get("stats", {}).get("inv_obligations"),
                        bounded=r.get("bounded"),
                        detail=None if r.get("status") == "proved" else (r.get("detail") or r.get("crash")))
                   for k, r in ures],
            bounded_parts=sorted({r["bounded"] for k, r in ures if r.get("bounded")}) +
            ["%s: undecided (%s); only the native cross-check stands in" % (u["unit"], str(u["reason"])[:300]) for u in undecided],
            native_cross_check=dict(
                label="bounded, not counted as proved",
                evaluations=sum(r.get("evaluations", 0) for k, r in sres)+searched, distinct_cases=len(keys),
                suites=[dict(suite=s.name, rule=s.rule,
                             evaluations=sum(r.get("evaluations", 0) for k, r in sres if k[1] == s.name),
                             samples=[x for k, r in sres if k[1] == s.name for x in r.get("samples", [])][:3])
                        for s in suites]),
        ),
        assumptions=trusted+["import failed: "+e for e in IMPORT_ERRORS])
    crashed = [r for k, r in sres if r.get("crash")]
    if crashed:
        ev["coverage"]["native_cross_check"]["crashed"] = [r["crash"] for r in crashed]
    known = known_findings(prop)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    code = 0
    if failures:
        f = failures[0]
        p = os.path.join(rdir, "%s.json" % prop)
        json.dump(dict(property=prop, kind="native", **f,
                       refuted=[dict(unit=r["unit"], detail=r["detail"]) for r in refuted],
                       how="./check.py --replay %s" % p), open(p, "w"), indent=1, default=str)
        print("%s: %s case %d: %s" % (prop, f["suite"], f["index"], f["error"]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        code = 1
    elif refuted:
        p = os.path.join(rdir, "%s.json" % prop)
        json.dump(dict(property=prop, kind="obligation", obligations=[dict(unit=r["unit"], status=r["status"], detail=r["detail"])
                                                                       for r in refuted], searched_cases=searched),
                  open(p, "w"), indent=1, default=str)
        d = refuted[0]["detail"]
        lab = d["label"] if isinstance(d, dict) else d[0]["label"]
        print("%s: obligation refuted in %s: %s" % (prop, refuted[0]["unit"], lab))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        code = 1
    ev["violations"] = len(failures) or len(refuted)
    ev["wall_s"] = round(time.time()-t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop+".json"), "w"), indent=1, default=str)
    print("%s: %d/%d units proved, %d obligations of %d discharged, %d native cases, %d undecided, %.1f s" %
          (prop, len(proved), len(ures), discharged, obligations, ev["coverage"]["native_cross_check"]["evaluations"],
           len(undecided), ev["wall_s"]))
    for u in undecided:
        print("   undecided:", u["unit"], "-", str(u["reason"])[:200])
    for c in crashed:
        print("   suite crashed:", c["crash"])
    for e in IMPORT_ERRORS:
        print("   import:", e)
    return code


TRUSTED = {
    "*": ["the verification-condition generator vc/ (semantics of the Python subset it interprets) and the SMT solvers z3, cvc5",
          "Python integers are mathematical integers (exact, no overflow)",
          "logging calls have no effect on behaviour"],
}


def load_trusted():
    p = os.path.join(HERE, "vc", "trusted.json")
    if os.path.exists(p):
        TRUSTED.update(json.load(open(p)))


def replay(path):
    load()
    d = json.load(open(path))
    if d["kind"] != "native":
        print(json.dumps(d, indent=1))
        return 0
    for s in suite.SUITES.get(d["property"], []):
        if s.name == d["suite"]:
            try:
                suite.run_case(s, d["seed"], d["index"])
            except Exception:
                import traceback
                traceback.print_exc()
                return 1
            print("the case passes")
            return 0
    print("no such suite")
    return 2


if __name__ == "__main__":
    load_trusted()
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
