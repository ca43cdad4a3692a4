"""C20: flames at or below the minimum speed count as no flame, everywhere."""
import core
import sims
import check_c14


def run(ctx):
    ctx.model_check("MCFlame", "MCFlame.cfg")
    scs = ctx.generate("MCFlame", "GenFlame.cfg", workers=1)
    rng = ctx.rng("flame")
    for _ in range(ctx.pick(150, 1500)):
        floor = rng.choice([-1000000, 0, 500, 1234, 30000, rng.randint(1, 9999)])
        lim = 500 if floor == -1000000 else floor
        ts = check_c14.random_profile(rng, False)
        v = rng.choice([lim, lim + 1, lim - 1, -lim, rng.randint(-9000, 30000)])
        scs.append({"mode": rng.choice(["sample", "metric"]), "floor": floor,
                    "width": rng.choice([0, 1, 30, 250]), "fail": rng.random() < 0.1,
                    "speeds": [v] + [rng.randint(-100, 60000) for _ in ts[1:]], "T": ts})

    def one(i, sc, d):
        return sims.run_flame(sc, sims.tiny_model(d), d)

    recs = core.completed(ctx, core.shard_map(one, scs, initdir=ctx.scratch))
    for r in recs[:3]:
        ctx.sample(r)
    bad = ctx.judge("TraceFlame", "TraceFlame.cfg", recs,
                    clauses={"outcome", "speed", "width"})
    for i, c in bad.items():
        ctx.violation(f"{c}: {recs[i]['sc']} gave {recs[i]['outcome']} "
                      f"speed={recs[i]['speed']} width={recs[i]['width']}", recs[i])
    import realsims
    realsims.check_setup(ctx, "flame")
    # the floor reaches every flame of a reduction
    import reductions as R
    its = []
    for nc in ([0, 0, 1], [1, 0, 2], [1, 1, 1]):
        its += R.items(ctx, ctx.pick(16, 200), ("direct", "main", "cli"), ncases=nc, sa="greedy")
        its += R.items(ctx, ctx.pick(6, 80), ("direct", "main", "cli"), ncases=nc, sa="initial",
                       graph="none")
    its += R.items(ctx, ctx.pick(12, 100), ("main", "cli"), ncases=[0, 0, 2], threads=2)
    R.batches(ctx, its)
