"""C03: a reduction returns a model within the limit or fails explicitly."""
import reductions as R
import realruns


def run(ctx):
    R.model(ctx)
    its = R.items(ctx, ctx.pick(130, 1600))
    its += R.items(ctx, ctx.pick(40, 500), graph="none")
    its += R.items(ctx, ctx.pick(30, 400), limit2=1)
    # removals that only have an effect together
    its += R.items(ctx, ctx.pick(20, 200), graph="none", size="joint")
    its += R.items(ctx, ctx.pick(20, 200), sa="initial", size="joint")
    its += R.items(ctx, ctx.pick(20, 200), threads=2)
    R.batches(ctx, its)
    realruns.check_returned(ctx)
