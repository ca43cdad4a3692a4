"""C22: Chemkin models and all settings reach the reduction from the command line."""
import pipe
import reductions as R


def run(ctx):
    R.model(ctx)
    scs = R.scenarios(ctx, ctx.pick(45, 500), key="cli")
    scs += R.scenarios(ctx, ctx.pick(20, 200), graph="none", key="cli")
    scs += R.scenarios(ctx, ctx.pick(20, 200), sa="initial", key="cli")
    for t in (0, 2, 3, 5):
        scs += R.scenarios(ctx, ctx.pick(4, 40), threads=t, ncases=[3, 1, 1], key="cli")
    # the Chemkin models
    cks = R.scenarios(ctx, ctx.pick(32, 300), key="chemkin")
    rng = ctx.rng("chemkin")
    for k, s in enumerate(cks):
        s["ck"] = {"ext": [".inp", ".dat", ".txt", ".ck"][k % 4],
                   "thermo": rng.random() < 0.4}
        s["limbo"], s["err0"] = [], 0
    for s in scs:
        s["limbo"], s["err0"] = [], 0
    both = scs + cks
    recs = R.runs(ctx, [(s, {"how": "cli"}) for s in both], timeout=800)
    R.judge(ctx, recs)
    ref = R.runs(ctx, [(dict(s, upper=pipe.cli_upper(s)), {"how": "direct"}) for s in both],
                 timeout=800)
    groups = [(f"command line against direct call, scenario {k}", [a, b])
              for k, (a, b) in enumerate(zip(recs, ref))
              if "crash" not in a and "crash" not in b]
    R.same(ctx, groups, fields=["evals", "result", "err2", "status", "fileSet", "nrx",
                                "fileNrx"])
