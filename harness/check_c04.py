"""C04: DRG and PFA keep exactly the species reachable from the targets."""
import core
import graphs
import reductions as R

METHODS = ("DRG", "PFA")


def run(ctx):
    ctx.model_check("MCGraph", "MCReach.cfg")
    ctx.model_check("MCGraph", "MCReach2.cfg")
    if not ctx.quick:
        ctx.model_check("MCGraph", "MCReach4.cfg")
    shapes = ctx.generate("GenGraph", "GenReach.cfg", workers=1)
    ctx.notes["graphs_from_tlc"] = len(shapes)
    rng = ctx.rng("graphs")
    rng.shuffle(shapes)
    scs = graphs.tlc_scenarios(shapes[:ctx.pick(2500, len(shapes))], "reach")
    scs += [graphs.scenario(rng, "reach") for _ in range(ctx.pick(800, 12000))]
    full = ctx.pick(6, 3)

    def one(i, sc, d):
        return graphs.run(sc, METHODS[(i // full) % 2], d, i % full == 0)

    graphs.judge(ctx, core.shard_map(one, scs, initdir=ctx.scratch), "graph")
    its = []
    for g in METHODS:
        its += R.items(ctx, ctx.pick(40, 600), graph=g, sa="none")
        its += R.items(ctx, ctx.pick(15, 200), graph=g, sa="none", limit2=2100)
        its += R.items(ctx, ctx.pick(8, 100), graph=g)
    R.batches(ctx, its)
