"""C02: targets, retained and initial-mixture species are never removed."""
import reductions as R


def run(ctx):
    R.model(ctx)
    its = R.items(ctx, ctx.pick(110, 1500), ("direct", "main", "cli"))
    # limits so loose that everything else goes, over every landscape
    its += R.items(ctx, ctx.pick(60, 800), ("main", "cli", "direct"), limit2=2100)
    its += R.items(ctx, ctx.pick(40, 600), ("direct", "main", "cli"), graph="none")
    its += R.items(ctx, ctx.pick(20, 300), ("cli",), sa="greedy", limit2=2100)
    R.batches(ctx, its)
