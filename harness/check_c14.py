"""C14: sampled states are the first states to reach each fraction of the rise."""
import os

import core
import sims

# temperatures above the first one, so that the rise is coprime to 20: no ties with
# inner levels, whose float values may be off by roundoff
MAP = {-1: -67, 0: 0, 1: 133, 2: 267, 3: 401, 4: 533, 5: 667}
MAP_IGN = {-1: -67, 0: 0, 1: 133, 2: 407, 3: 541, 4: 803, 5: 1207}


def tie_free(ts):
    rise = ts[-1] - ts[0]
    return rise >= 0 and all(
        20 * (t - ts[0]) != k * rise or rise == 0 for t in ts for k in range(1, 20))


def random_profile(rng, ign):
    while True:
        n = rng.choice([2, 3, 5, 8, 13, 30, 60])
        T0 = rng.choice([300, 301, 999, 1000, 1450])
        kind = rng.choice(["monotone", "jump", "overshoot", "noisy", "flat"])
        top = rng.randint(401, 2500)
        vals = [rng.randint(0, top) for _ in range(n - 1)]
        if kind == "monotone":
            vals.sort()
        elif kind == "jump":
            c = rng.randint(0, n - 1)
            vals = [rng.randint(0, 9) for _ in range(c)] + sorted(
                rng.randint(top - 9, top) for _ in range(n - 1 - c))
        elif kind == "overshoot":
            vals.sort()
            if vals:
                vals[-1] = rng.randint(1, vals[-1] + 1)
        elif kind == "flat":
            vals = [rng.randint(-5, 5) for _ in range(n - 1)]
            if vals:
                vals[-1] = rng.randint(0, 5)
        if not vals:
            continue
        ts = [T0] + [T0 + v for v in vals]
        if not tie_free(ts):
            continue
        if ign and not any(t >= T0 + 400 for t in ts):
            continue
        return ts


def run(ctx):
    ctx.model_check("MCProfile", "MCProfile.cfg")
    shapes = ctx.generate("MCProfile", "GenProfile.cfg", workers=1)
    ctx.notes["profiles_from_tlc"] = len(shapes)
    jobs = []
    for v in shapes:
        ts = [300 + MAP[x] for x in v]
        jobs.append(("flame", ts))
        ts = [1000 + MAP_IGN[x] for x in v]
        if tie_free(ts) and any(t >= 1400 for t in ts):
            jobs.append(("ign", ts))
    jobs = [j for j in jobs if tie_free(j[1])]
    rng = ctx.rng("profiles")
    for _ in range(ctx.pick(250, 4000)):
        jobs.append(("flame", random_profile(rng, False)))
        jobs.append(("ign", random_profile(rng, True)))

    def one(i, job, d):
        model = sims.tiny_model(d)
        what, ts = job
        if what == "flame":
            return sims.run_flame(
                {"mode": "sample", "floor": -1000000, "width": 0, "fail": False,
                 "speeds": [9000] * len(ts), "T": ts}, model, d)
        end = (i // 2) % 2 == 0
        script = [{"t": 2 * (j + 1), "T": t, "conv": (not end) and j == len(ts) - 2,
                   "fail": False} for j, t in enumerate(ts[1:])]
        return sims.run_ignition(
            {"mode": "sample", "T0": ts[0], "end": 2 * len(script) if end else 0,
             "max": 10000, "script": script}, model, d)

    recs = core.shard_map(one, jobs, initdir=ctx.scratch)
    judge(ctx, [(r, j) for r, j in zip(recs, jobs) if j[0] == "flame"], "TraceFlame",
          {"outcome", "rows"})
    judge(ctx, [(r, j) for r, j in zip(recs, jobs) if j[0] == "ign"], "TraceIgnition",
          {"outcome", "rows"})


def judge(ctx, pairs, module, clauses):
    recs = core.completed(ctx, [r for r, _ in pairs])
    for r in recs[:2]:
        ctx.sample(r)
    bad = ctx.judge(module, module + ".cfg", recs, clauses=clauses)
    for i, c in bad.items():
        ctx.violation(f"{module}: {c}: {recs[i]['sc']} gave {recs[i]['outcome']} "
                      f"{recs[i]['rows'][:20]}", recs[i])
