"""Real simulations with Cantera (no stand-ins): mixtures and constraints."""
import os

import numpy as np
import cantera as ct

import core
import sims

DEMAND = {"H2": 1, "CO": 1, "CH4": 4, "C2H6": 7, "N2": 0, "AR": 0, "H2O": 0, "O2": -2}


def cases(rng, n, model):
    fuels = ["H2"] if model == "h2o2.yaml" else ["H2", "CO", "CH4", "C2H6"]
    inert = ["AR", "N2"]
    out = []
    for _ in range(n):
        c = {"T": rng.choice([950, 1000, 1200, 1377]), "P": rng.choice([25, 100, 250, 1000]),
             "basis": "mole", "phi": [0, 1], "fuel": [], "oxidizer": [], "reactants": []}
        if rng.random() < 0.5:
            c["phi"] = rng.choice([[1, 1], [1, 2], [3, 2], [2, 1], [4, 5]])
            fs = rng.sample(fuels, rng.randint(1, min(2, len(fuels))))
            c["fuel"] = [[f, rng.randint(1, 3), DEMAND[f]] for f in fs]
            c["oxidizer"] = [["O2", rng.randint(1, 2), 0],
                             [rng.choice(inert), rng.randint(2, 7), 0]]
        else:
            c["basis"] = rng.choice(["mole", "mass"])
            names = [rng.choice(fuels), "O2", rng.choice(inert)]
            w = {"H2": 1, "O2": 8} if c["basis"] == "mass" else {"H2": 2, "O2": 1}
            c["reactants"] = [[s, w.get(s, rng.randint(1, 4)) * rng.randint(1, 2), 0]
                              for s in names]
        out.append(c)
    return out


def to_input(kind, c):
    from pymars import sampling

    def d(entries):
        return {s: float(n) for s, n, _ in entries}

    kw = dict(temperature=float(c["T"]), pressure=c["P"] / 100, composition_type=c["basis"])
    if c["phi"][0]:
        kw.update(equivalence_ratio=c["phi"][0] / c["phi"][1], fuel=d(c["fuel"]),
                  oxidizer=d(c["oxidizer"]))
    else:
        kw.update(reactants=d(c["reactants"]))
    if kind == "flame":
        return sampling.InputLaminarFlame(**kw)
    if kind == "psr":
        return sampling.InputPSR(**kw)
    return sampling.InputIgnition(kind=kind, **kw)


def ppm(x):
    return int(min(abs(x) * 1e6, 2e9))


def one(i, job, d):
    from pymars import sampling
    from pymars.simulation import IgnitionSimulation, FlameSimulation, PSRSimulation

    kind, c, model, full = job
    rec = {"kind": kind, "case": c, "names": [], "X": [], "Y": [], "T": 0, "P": 0,
           "dP": 10**6, "dRho": 10**6, "dDelay": 0, "outcome": "ok"}
    cls = {"flame": FlameSimulation, "psr": PSRSimulation}.get(kind, IgnitionSimulation)
    try:
        with core.time_limit(120):
            inp = to_input(kind, c)
            sim = cls(0, inp, model, "", d)
            sim.setup_case()
            gas = sim.gas
            rec["names"] = list(gas.species_names)
            rec["X"] = [round(float(x) * 1e5) for x in gas.X]
            rec["Y"] = [round(float(x) * 1e5) for x in gas.Y]
            rec["T"] = round(float(gas.T) * 1000) / 1000
            rec["T"] = int(rec["T"]) if rec["T"] == int(rec["T"]) else -1
            rec["P"] = round(gas.P / ct.one_atm * 100 * 1000) / 1000
            rec["P"] = int(rec["P"]) if rec["P"] == int(rec["P"]) else -1
            if kind in ("constant pressure", "constant volume"):
                P0, rho0 = gas.P, gas.density
                if full:
                    res = sampling.ignition_sample_worker(
                        (IgnitionSimulation(1, inp, model, "", d), 1))
                    delay, rows = res[1]
                    g = ct.Solution(model)
                    dp, dr = 0.0, 0.0
                    for r in np.asarray(rows):
                        g.TPY = r[0], r[1], r[2:]
                        dp = max(dp, abs(r[1] / P0 - 1))
                        dr = max(dr, abs(g.density / rho0 - 1))
                    rec["dP"], rec["dRho"] = ppm(dp), ppm(dr)
                    other = sampling.ignition_worker(
                        (IgnitionSimulation(2, inp, model, "", d), 2))[2]
                    rec["dDelay"] = ppm(float(other) / float(delay) - 1)
                else:
                    rec["kind"] = "setup only"
    except (Exception, SystemExit, core.ScenarioTimeout) as e:
        rec["outcome"] = sims.status_of(e)
    return rec


def judge(ctx, jobs):
    recs = core.completed(ctx, core.shard_map(one, jobs, initdir=ctx.scratch))
    for r in recs[:2]:
        ctx.sample(r)
    bad = ctx.judge("Mixture", "Mixture.cfg", recs)
    for i, cl in bad.items():
        ctx.violation(f"{cl}: {recs[i]['kind']} {recs[i]['case']} -> {recs[i]}", recs[i])


def check_ignition(ctx):
    rng = ctx.rng("real")
    jobs = []
    for c in cases(rng, ctx.pick(16, 120), "h2o2.yaml"):
        # make the mixture ignite for sure
        for kind in ("constant volume", "constant pressure"):
            jobs.append((kind, c, "h2o2.yaml", igniting(c)))
    for c in cases(rng, ctx.pick(8, 60), "gri30.yaml"):
        jobs.append((rng.choice(["constant volume", "constant pressure"]), c,
                     "gri30.yaml", False))
    judge(ctx, jobs)


def igniting(c):
    if c["phi"][0]:
        return c["T"] >= 1000 and c["P"] <= 250
    return False


def check_setup(ctx, kind):
    rng = ctx.rng("real", kind)
    jobs = [(kind, c, "h2o2.yaml", False) for c in cases(rng, ctx.pick(16, 100), "h2o2.yaml")]
    jobs += [(kind, c, "gri30.yaml", False) for c in cases(rng, ctx.pick(8, 50), "gri30.yaml")]
    judge(ctx, jobs)
