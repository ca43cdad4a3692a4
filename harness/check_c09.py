"""C09: limbo species are those between the two thresholds."""
import core
import graphs
import reductions as R


def run(ctx):
    R.model(ctx)
    rng = ctx.rng("upper")
    its = []
    for g in ("DRG", "DRGEP", "PFA"):
        its += R.items(ctx, ctx.pick(20, 250), ("direct",), graph=g, sa="none", upper=50000)
        its += R.items(ctx, ctx.pick(40, 400), ("direct",), graph=g, sa="none", half=True)
        its += R.items(ctx, ctx.pick(40, 500), ("direct",), graph=g, sa="initial")
        its += R.items(ctx, ctx.pick(8, 100), ("direct",), graph=g, sa="none", upper=0)
    R.batches(ctx, its)
    # the upper threshold moved over one and the same reduction
    base = R.scenarios(ctx, ctx.pick(14, 100), sa="none", key="sweep", half=True)
    sweep = []
    for s in base:
        lv = sorted({int(1e6 * min(x, 2.0)) for x in R.pipe.levels(s)})
        ups = {1, 3000, 77777, 999999} | {(a + b) // 2 + 1 for a, b in zip(lv, lv[1:])}
        for up in sorted(ups | {lv[-1] + 10000}):
            t = dict(s)
            t["upper"] = up
            if not R.pipe.near_grid(t, R.pipe.levels(t)):
                sweep.append((t, {"how": "direct"}))
    R.batches(ctx, sweep)
    # prescribed coefficients, where the upper threshold may equal a coefficient exactly
    scs = []
    for g in ("DRG", "DRGEP", "PFA"):
        scs += [(g, graphs.limbo_scenario(rng, g)) for _ in range(ctx.pick(70, 800))]

    def one(i, item, d):
        return graphs.run_limbo(item[1], item[0], d)

    recs = core.shard_map(one, scs, initdir=ctx.scratch)
    ctx.notes["prescribed_searches"] = {
        "ended": sum(1 for r in recs if r.get("final")),
        "with_limbo_species": sum(1 for r in recs if r.get("limbo")),
        "stopped": sum(1 for r in recs if r.get("stopped"))}
    graphs.judge(ctx, [r for r in recs if not r.get("stopped")], "limbo species")
