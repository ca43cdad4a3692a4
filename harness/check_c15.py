"""C15: reductions leave the reported model file and no intermediate files."""
import reductions as R


def run(ctx):
    R.model(ctx)
    its = []
    for out in ("", "out/sub", "out/", "ABS"):
        its += R.items(ctx, ctx.pick(35, 400), ("direct", "main", "cli"), out=out)
    its += R.items(ctx, ctx.pick(30, 300), graph="none")
    its += R.items(ctx, ctx.pick(10, 100), threads=2, ncases=[2, 0, 1])
    R.batches(ctx, its)
