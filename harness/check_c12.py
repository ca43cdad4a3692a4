"""C12: failing candidates are rejected, a failing starting model halts."""
import numpy as np

import check_c19
import core
import reductions as R
import sims


def metrics_records(ctx):
    from pymars.sampling import calculate_error

    rng = ctx.rng("metrics")
    recs = []
    for _ in range(ctx.pick(1500, 20000)):
        n = rng.choice([1, 1, 2, 3, 4, 7] * 4 + [50])
        orig = [rng.randint(1, 2000) for _ in range(n)]
        test = [rng.choice([o, o, max(1, o + rng.choice([-3, -1, 1, 2, 40])),
                            rng.randint(1, 2000), rng.choice([0, 2000, 1])])
                for o in orig]
        scale = 2.0 ** rng.randint(-40, 20)
        o = np.array([x * scale for x in orig])
        t = np.array([x * scale for x in test])
        keep = o.copy(), t.copy()
        e = float(calculate_error(o, t))
        if not (np.array_equal(o, keep[0]) and np.array_equal(t, keep[1])):
            ctx.violation("calculate_error changes its arguments", [orig, test])
        recs.append({"orig": orig, "test": test, "exact100": e == 100.0,
                     "err": int(e * 10000 + 1e-6) if 0 <= e < 2e5 else -7})
    return recs


def psr_scenarios(ctx):
    rng = ctx.rng("psr")
    out = []
    for mode in ("sample", "metric"):
        for fail in ("", "RuntimeError", "CanteraError"):
            for _ in range(ctx.pick(4, 30)):
                pts = [[rng.randint(1, 50), rng.randint(1100, 1300)],
                       [rng.randint(51, 90), rng.randint(1301, 1700)],
                       [rng.randint(91, 110), rng.randint(1701, 2300)]]
                out.append({"mode": mode, "fail": fail, "points": pts})
    return out


def run(ctx):
    R.model(ctx)
    recs = metrics_records(ctx)
    bad = ctx.judge("ErrorMetric", "ErrorMetric.cfg", recs)
    for i, c in bad.items():
        ctx.violation(f"error of metrics, clauses {c}: {recs[i]}", recs[i])
    # single cases: starting model and candidate, each kind of failure
    rng = ctx.rng("cases")
    igns = [check_c19.random_scenario(rng) for _ in range(ctx.pick(250, 2500))]
    flames = []
    for _ in range(ctx.pick(120, 1000)):
        floor = rng.choice([-1000000, 0, 500, 1234])
        n = rng.randint(2, 8)
        flames.append({"mode": rng.choice(["sample", "metric"]), "floor": floor,
                       "width": rng.choice([0, 30]), "fail": rng.random() < 0.5,
                       "speeds": [rng.choice([400, 500, 501, 3000, -20, 0, 1235])
                                  for _ in range(n)],
                       "T": [300 + 200 * k for k in range(n)]})
    psrs = psr_scenarios(ctx)

    def one(i, item, d):
        kind, sc = item
        model = sims.tiny_model(d)
        return {"ign": sims.run_ignition, "flame": sims.run_flame,
                "psr": sims.run_psr}[kind](sc, model, d)

    for kind, scs, module, cl in (
            ("ign", igns, "TraceIgnition", {"outcome", "delay"}),
            ("flame", flames, "TraceFlame", {"outcome", "speed"}),
            ("psr", psrs, "PsrCase", {"outcome", "metrics"})):
        recs = core.completed(ctx, core.shard_map(one, [(kind, s) for s in scs],
                                                  initdir=ctx.scratch))
        bad = ctx.judge(module, module + ".cfg", recs, clauses=cl)
        for i, c in bad.items():
            ctx.violation(f"{kind} case, clauses {c}: {recs[i]['sc']} gave "
                          f"{recs[i]['outcome']}", recs[i])
    # whole reductions with failing candidates, and with a failing starting model
    its = R.items(ctx, ctx.pick(60, 700), fails=True)
    its += R.items(ctx, ctx.pick(30, 300), fails=True, graph="none")
    its += R.items(ctx, ctx.pick(14, 150), fails=True, threads=2)
    its += R.items(ctx, ctx.pick(20, 300), ("direct",), fails=True, limit2=2047)
    its += R.failing_base(ctx, ctx.pick(30, 300))
    its += R.failing_base(ctx, ctx.pick(8, 60), threads=2, ncases=[2, 1, 1])
    R.batches(ctx, its)
