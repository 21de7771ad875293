#!/opt/venv/bin/python
"""check.py PID quick|thorough      decide one property on /repo's current source
   check.py --replay FILE           run a recorded counterexample against the real package
   check.py --list"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True

import symx  # noqa: E402,F401
from symx import harness, loader  # noqa: E402
import props  # noqa: E402,F401

TIERS = {"quick": 240, "thorough": 780}


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("known", [])


def _job(a):
    pid, cfg, tier, t_end, known, seed = a
    p = harness.PROPS[pid]
    left = t_end - time.time()
    if left < 1:
        return dict(config=cfg, complete=False, error="budget: not started", paths=0, not_started=True)
    return harness.Runner(p, cfg, tier, seconds=left, known=known, seed=seed).explore()


def _worker(conn):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    while True:
        a = conn.recv()
        if a is None:
            os._exit(0)
        try:
            r = _job(a)
        except BaseException as e:  # noqa: B902
            r = dict(config=a[1], complete=False, error="worker: %r" % (e,), paths=0)
        conn.send(r)


def run_jobs(jobs, n, t_stop):
    """results of the jobs as they come, on n forked workers; the workers are killed at the end, whatever they do"""
    ctx = mp.get_context("fork")
    live = {}
    todo = list(reversed(jobs))

    def spawn():
        here, there = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(there,), daemon=True)
        p.start()
        there.close()
        live[here] = [p, None, 0]
        return here

    def feed(cn):
        if not todo:
            return
        live[cn][1] = todo.pop()
        live[cn][2] += 1
        cn.send(live[cn][1])

    try:
        for _ in range(n):
            feed(spawn())
        while any(v[1] is not None for v in live.values()):
            left = t_stop - time.time()
            if left <= 0:
                return
            for cn in wait([k for k, v in live.items() if v[1] is not None], timeout=left):
                p, a, k = live[cn]
                try:
                    r = cn.recv()
                except (EOFError, OSError):
                    r = dict(config=a[1], complete=False, error="worker ended", paths=0)
                    k = 10 ** 6
                live[cn][1] = None
                yield r
                if k >= 40:
                    os.kill(p.pid, signal.SIGKILL) if p.is_alive() else None
                    del live[cn]
                    if todo:
                        feed(spawn())
                else:
                    feed(cn)
    finally:
        for p, _, _ in live.values():
            try:
                os.kill(p.pid, signal.SIGKILL)
            except OSError:
                pass


def main(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = TIERS[tier]
    if pid not in harness.PROPS:
        print("no such property %s" % pid)
        return 2
    p = harness.PROPS[pid]
    known = known_findings()
    cfgs = p.configs(tier)
    t_end = t0 + limit
    jobs = [(pid, c, tier, t_end, known, seed) for c in cfgs]
    n = max(1, min(8, os.cpu_count() or 1, len(jobs)))
    res = []
    viol = None
    err = None
    runs = run_jobs(jobs, n, t_end + 60)
    for r in runs:
        res.append(r)
        if r.get("violations"):
            viol = r["violations"][0]
            break
    else:
        if len(res) < len(jobs):
            err = "a configuration did not answer in time"
    runs.close()

    tot = lambda k: sum(r.get(k) or 0 for r in res)
    funcs = sorted(set(f for r in res for f in r.get("funcs", ())))
    hits = sorted(set(h for r in res for h in r.get("known", ())))
    incomplete = [r for r in res if not r["complete"]]
    samples = [dict(config=r["config"], inputs=s) for r in res for s in r.get("samples", ())[:1]][:6]
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("transitions"), traces_validated_against_impl=tot("validated"),
            samples=samples or [dict(config=r["config"]) for r in res[:3]],
            exhaustive=not incomplete and len(res) == len(cfgs),
            configurations=len(cfgs), configurations_decided=len([r for r in res if r["complete"]]),
            infeasible_paths=tot("dead"), assertions_checked=tot("checks"), assertions_closed_by_query=tot("unsat"), assertions_closed_by_z3_rewriting=tot("rewrite"),
            solver_queries=tot("queries"), solver_time_s=round(tot("solver_time"), 2),
            assertions_unknown=tot("n_unknown"), undecided_paths=tot("n_undecided"), undecided_branches=tot("unknown_decides"),
            trace_mismatches=tot("mismatch"), traces_skipped=tot("skipped"),
            functions_encoded=funcs, bounds=p.bounds, outside=p.outside,
            incomplete=[dict(config=r["config"], error=r.get("error"), undecided=[u["error"] for u in r.get("undecided", ())]) for r in incomplete][:10],
        ),
        assumptions=list(getattr(p, "assumptions", ())) + [
            "floating point numbers are encoded as exact reals (NaN and infinities kept); counterexamples are replayed in floating point",
            "numpy, scipy, astropy and photutils are represented by the shims in symx/ (trusted, validated on every run by replaying solver models of explored paths on the real package)",
        ],
        wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for h in hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, h))
    print("%s %s: %d/%d configurations decided, %d paths, %d assertions (%d by query, %d by z3 rewriting), %d queries, %.1f s solver, %d traces validated, %.1f s"
          % (pid, tier, len([r for r in res if r["complete"]]), len(cfgs), tot("paths"), tot("checks"), tot("unsat"), tot("rewrite"), tot("queries"), tot("solver_time"),
             tot("validated"), time.time() - t0))
    if viol:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        rec = dict(property=pid, **viol)
        body = json.dumps(rec, indent=1, default=str, sort_keys=True)
        path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(body.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write(body)
        print("  %s: %s" % (viol["label"], viol["detail"]))
        print("  config %s" % json.dumps(viol["config"], default=str))
        print("  inputs %s" % json.dumps(viol["inputs"], default=str))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for r in incomplete[:6]:
        print("INCOMPLETE %s: %s %s" % (json.dumps(r["config"], default=str), r.get("error") or "", [u["error"] for u in r.get("undecided", ())][:2]))
    for r in res:
        for mi in r.get("mismatch_info", ())[:1]:
            print("ENCODING-MISMATCH %s %s" % (json.dumps(r["config"], default=str), str(mi)[:400]))
    if err:
        print("ERROR " + err)
    vac = [r for r in res if r["complete"] and not r.get("known") and (r["paths"] == 0 or r["checks"] == 0)]
    for r in vac[:3]:
        print("VACUOUS %s" % json.dumps(r["config"], default=str))
    if vac or tot("checks") == 0 or tot("paths") == 0:
        return 2
    if tot("mismatch") > 0.2 * tot("validated"):
        return 2
    if tot("n_unknown"):
        print("UNKNOWN assertions: %s" % [u for r in res for u in r.get("unknown", ())][:5])
    return 0


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    p = harness.PROPS[rec["property"]]
    r = harness.Runner(p, rec["config"])
    out = harness.run_concrete(r, rec["inputs"])
    for label, detail in out["fails"]:
        print("FAILS %s: %s" % (label, detail))
    if out.get("error"):
        print(out["error"])
    bad = bool(out["fails"] or out.get("unusable"))
    print("reproduced" if bad else "not reproduced")
    return 1 if bad else 0


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    if sys.argv[1] == "--list":
        print("\n".join(sorted(harness.PROPS)))
        sys.exit(0)
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.stdout.flush()
    rc = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    sys.stdout.flush()
    os._exit(rc)
