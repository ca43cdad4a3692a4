"""C05: DRGEP importance is the best path product over all states and targets."""
import core
import graphs
import reductions as R


def run(ctx):
    ctx.model_check("MCGraph", "MCProduct.cfg")
    if not ctx.quick:
        ctx.model_check("MCGraph", "MCProduct2.cfg")
        ctx.model_check("MCGraph", "MCProduct4.cfg")
    shapes = ctx.generate("GenGraph", "GenProduct.cfg", workers=1)
    ctx.notes["graphs_from_tlc"] = len(shapes)
    rng = ctx.rng("graphs")
    rng.shuffle(shapes)
    scs = graphs.tlc_scenarios(shapes[:ctx.pick(2500, len(shapes))], "lin")
    scs += [graphs.scenario(rng, "lin") for _ in range(ctx.pick(600, 8000))]
    scs += [graphs.scenario(rng, "exp") for _ in range(ctx.pick(600, 8000))]
    full = ctx.pick(6, 3)

    def one(i, sc, d):
        return graphs.run(sc, "DRGEP", d, i % full == 0)

    graphs.judge(ctx, core.shard_map(one, scs, initdir=ctx.scratch), "graph")
    its = R.items(ctx, ctx.pick(70, 1000), graph="DRGEP", sa="none")
    its += R.items(ctx, ctx.pick(25, 300), graph="DRGEP", sa="none", limit2=2100)
    its += R.items(ctx, ctx.pick(15, 200), graph="DRGEP")
    R.batches(ctx, its)
