"""C19: ignition delay on both evaluation paths."""
import core
import sims


def random_scenario(rng):
    n = rng.randint(1, 14)
    t = 0
    script = []
    T0 = rng.choice([500, 1000, 1001, 1337])
    T = T0
    conv_at = rng.choice([n, n, rng.randint(1, n), 99])
    fail_at = rng.choice([0, 0, 0, rng.randint(1, n)])
    for j in range(1, n + 1):
        if j > conv_at:
            script.append({"t": t + 1, "T": T, "conv": True, "fail": False})
            t += 1
            continue
        t += rng.randint(1, 5)
        T = T0 + rng.choice([0, 100, 399, 400, 401, 399, 1500, -200, rng.randint(0, 800)])
        script.append({"t": t, "T": T, "conv": j == conv_at, "fail": j == fail_at})
        if j == fail_at:
            script[-1]["conv"] = False
    end = rng.choice([0, 0, t, rng.randint(1, t), script[rng.randint(0, n - 1)]["t"]])
    return {"mode": rng.choice(["sample", "metric"]), "T0": T0, "end": end,
            "max": rng.choice([n, rng.randint(1, n)]), "script": script}


def default_limit(rng):
    """The default of 10,000 steps: converge or ignite just before or after it."""
    out = []
    for mode in ("sample", "metric"):
        for mx in (10000, 0, 12, 9000, 12000, 31000):
            lim = mx or 10000
            for hot, conv in ((lim - 2, lim - 1), (lim + 3, lim + 5), (5, lim + 5),
                              (5, lim - 1)):
                n = lim + 6
                out.append({"mode": mode, "T0": 1000, "end": 0, "max": mx,
                            "spec": [n, hot, conv]})
        # no limit of steps before an end time
        for end in (9000, 12500, 30000):
            for mx in (12, 0, 10000):
                for hot in (5, end - 2, end + 4):
                    out.append({"mode": mode, "T0": 1000, "end": end, "max": mx,
                                "spec": [end + 6, hot, end + 9]})
    return out


def expand(sc):
    if "spec" not in sc:
        return sc
    n, hot, conv = sc["spec"]
    sc = dict(sc)
    sc.pop("spec")
    sc["script"] = [{"t": j, "T": 1900 if j >= hot else 1399, "conv": j >= conv,
                     "fail": False} for j in range(1, n + 1)]
    return sc


def run(ctx):
    ctx.model_check("MCIgnition", "MCIgnition.cfg")
    scs = ctx.generate("MCIgnition", "GenIgnition.cfg", workers=1)
    ctx.notes["scenarios_from_tlc"] = len(scs)
    if ctx.quick:
        ctx.rng("pick").shuffle(scs)
        scs = scs[:900]
    rng = ctx.rng("ignition")
    scs += [random_scenario(rng) for _ in range(ctx.pick(600, 8000))]
    kinds = ["constant volume", "constant pressure"]

    def one(i, sc, d):
        sc = dict(sc, kind=kinds[i % 2])
        return sims.run_ignition(sc, sims.tiny_model(d), d)

    recs = core.completed(ctx, core.shard_map(one, scs, initdir=ctx.scratch))
    judge(ctx, recs)

    # long integrations: only the counts matter, so the record is scaled down
    def long_one(i, sc, d):
        full = expand(sc)
        rec = sims.run_ignition(full, sims.tiny_model(d), d)
        return shrink(sc, rec)

    longs = default_limit(rng)
    recs = core.completed(ctx, core.shard_map(long_one, longs, initdir=ctx.scratch))
    judge(ctx, recs)
    import realsims
    realsims.check_ignition(ctx)


def shrink(sc, rec):
    """Describe a long run by the events of its script relative to the limit of 10."""
    n, hot, conv = sc["spec"]
    lim = sc["end"] or sc["max"] or 10000
    keep = 20

    def m(j):  # step number -> scaled step number (limit becomes 20)
        return j - lim + keep if j > lim - 10 else j

    full = {"mode": sc["mode"], "T0": 1000, "end": keep if sc["end"] else 0, "max": keep,
            "script": [{"t": j, "T": 1900 if j >= m(hot) else 1399, "conv": j >= m(conv),
                        "fail": False} for j in range(1, keep + 7)]}
    out = dict(rec, sc=full, rows=[])
    if rec["delay"] > 0:
        out["delay"] = m(rec["delay"])
    return out


def judge(ctx, recs):
    for r in recs[:3]:
        ctx.sample(r)
    bad = ctx.judge("TraceIgnition", "TraceIgnition.cfg", recs,
                    clauses={"outcome", "delay"})
    for i, c in bad.items():
        ctx.violation(f"{c}: {recs[i]['sc']} gave {recs[i]['outcome']} "
                      f"delay={recs[i]['delay']}", recs[i])
