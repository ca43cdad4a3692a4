"""C07: the threshold search is complete, terminates, returns its last good model."""
import reductions as R


def run(ctx):
    R.model(ctx)
    its = []
    for g in ("DRG", "DRGEP", "PFA"):
        its += R.items(ctx, ctx.pick(45, 500), graph=g, sa="none")
        its += R.items(ctx, ctx.pick(8, 100), graph=g, sa="none", limit2=2100)
        its += R.items(ctx, ctx.pick(8, 100), graph=g, sa="none", limit2=1)
        its += R.items(ctx, ctx.pick(5, 50), graph=g, sa="initial")
        # acceptable only at small thresholds
        its += R.items(ctx, ctx.pick(16, 250), graph=g, sa="none", deep=True)
    R.batches(ctx, its)
