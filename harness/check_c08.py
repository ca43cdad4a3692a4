"""C08: sensitivity analysis removes limbo species in the documented order."""
import reductions as R


def run(ctx):
    R.model(ctx)
    its = []
    for a in ("initial", "greedy"):
        its += R.items(ctx, ctx.pick(55, 700), ("direct",), graph="none", sa=a)
        its += R.items(ctx, ctx.pick(15, 150), ("main", "direct"), graph="none", sa=a,
                       limit2=2100)
        its += R.items(ctx, ctx.pick(40, 500), sa=a)
        # removals that only have an effect together
        its += R.items(ctx, ctx.pick(25, 250), ("direct",), graph="none", sa=a, size="joint")
    for s, kw in R.items(ctx, ctx.pick(10, 100), ("direct",), sa="greedy", key="default"):
        s["default_alg"] = True
        its.append((s, kw))
    # a start above the limit, and a starting error other than zero
    rng = ctx.rng("err0")
    for s, kw in R.items(ctx, ctx.pick(30, 300), ("direct",), graph="none", key="err0"):
        s["err0"] = rng.choice([1, 5, 30, 100, s["limit2"] // 2, s["limit2"] // 2 + 1, 900])
        its.append((s, kw))
    R.batches(ctx, its)
