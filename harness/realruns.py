"""Reductions with real simulations; the returned model is evaluated again."""
import os

import numpy as np
import cantera as ct

import core
import sims

MODEL = "h2o2.yaml"


def jobs(rng, n):
    out = []
    for k in range(n):
        graph = ["DRGEP", "DRG", "PFA", ""][k % 4]
        sa = "" if graph and rng.random() < 0.5 else rng.choice(
            ["greedy", "initial"])
        cases = []
        for _ in range(rng.randint(1, 2)):
            cases.append({"kind": rng.choice(["constant volume", "constant pressure"]),
                          "T": rng.choice([1000, 1100, 1250]), "P": rng.choice([0.5, 1, 2]),
                          "phi": rng.choice([0.5, 1.0, 1.6]),
                          "inert": rng.choice(["N2", "AR"])})
        out.append({"graph": graph, "sa": sa, "cases": cases,
                    "psr": graph == "DRGEP" and not sa and rng.random() < 0.4,
                    "limit": rng.choice([0.5, 2.0, 10.0, 30.0, 60.0]),
                    "upper": rng.choice([0, 0.4]) if graph and sa else 0,
                    "safe": rng.choice([[], ["AR"], ["H2O2"]])})
    return out


def delay(model, c):
    """Ignition delay by an integration of our own (time of the first step 400 K up)."""
    g = ct.Solution(model)
    g.set_equivalence_ratio(c["phi"], "H2:1", {"O2": 1.0, c["inert"]: 3.76})
    g.TP = c["T"], c["P"] * ct.one_atm
    cls = (ct.IdealGasConstPressureMoleReactor if c["kind"] == "constant pressure"
           else ct.IdealGasMoleReactor)
    r = cls(g, clone=False)
    net = ct.ReactorNet([r])
    for _ in range(10000):
        net.step()
        if r.T >= c["T"] + 400:
            return net.time
    return 0.0


def inputs(job):
    from pymars import sampling

    mix = [{"equivalence_ratio": c["phi"], "fuel": {"H2": 1.0},
            "oxidizer": {"O2": 1.0, c["inert"]: 3.76}} for c in job["cases"]]
    ign = [sampling.InputIgnition(kind=c["kind"], temperature=float(c["T"]),
                                  pressure=float(c["P"]), **m)
           for c, m in zip(job["cases"], mix)]
    psr = [sampling.InputPSR(temperature=400.0, pressure=1.0, **mix[0])] if job["psr"] else []
    return ign, psr


def metrics(model, job, d):
    from pymars import sampling
    from pymars.simulation import PSRSimulation

    m = [delay(model, c) for c in job["cases"]]
    for p in inputs(job)[1]:
        m += list(np.ravel(sampling.psr_worker((PSRSimulation(0, p, model, "", d), 0))[0]))
    return np.array(m)


def one(i, job, d):
    from pymars.pymars import main

    orig = ct.Solution(MODEL)
    rec = {"job": job, "outcome": "ok", "species": [], "protect": [], "written": [],
           "reactions": [], "writtenreactions": [], "expected": [], "error": 0, "again": 0,
           "limit": round(job["limit"] * 1e4)}
    ign, psr = inputs(job)
    # the command line protects the initial mixtures in this way
    protect = ["H2", "O2"] + sorted(set(job["safe"]) | {c["inert"] for c in job["cases"]})
    try:
        with core.time_limit(100):
            res = main(MODEL, job["limit"], ign, psr_conditions=psr, method=job["graph"] or None,
                       target_species=["H2", "O2"], safe_species=protect[2:],
                       run_sensitivity_analysis=bool(job["sa"]),
                       sensitivity_type=job["sa"] or "greedy",
                       upper_threshold=job["upper"] or None,
                       path=d)
    except (Exception, SystemExit, core.ScenarioTimeout) as e:   # noqa: BLE001
        rec["outcome"] = sims.status_of(e)
        rec["why"] = repr(e)[:300]
        return rec
    m = res.model
    idx = {s: k for k, s in enumerate(orig.species_names)}
    keep = set(m.species_names)
    rec["species"] = [idx[s] for s in m.species_names]
    rec["protect"] = sorted(idx[s] for s in protect)
    f = res.filename if os.path.exists(res.filename) else os.path.join(d, res.filename)
    w = ct.Solution(f)
    rec["written"] = [idx[s] for s in w.species_names]
    rec["reactions"] = [r.equation for r in m.reactions()]
    rec["writtenreactions"] = [r.equation for r in w.reactions()]
    rec["expected"] = expected(orig, keep)
    want, got = metrics(MODEL, job, d), metrics(f, job, d)
    rec["error"] = ppm(res.error)
    rec["again"] = ppm(100 * np.max(np.abs(want - got) / want))
    return rec


def expected(orig, keep):
    out = []
    for r in orig.reactions():
        tb = r.third_body
        need = set(r.reactants) | set(r.products)
        # a third body given by name is a collider that must remain
        if tb is not None and tb.name != "M":
            need |= {tb.name}
        if need <= keep:
            out.append(r.equation)
    return out


def ppm(x):
    return int(min(round(float(x) * 1e4), 2 * 10**9))


def check_returned(ctx):
    recs = core.completed(ctx, core.shard_map(
        one, jobs(ctx.rng("realruns"), ctx.pick(16, 96)), initdir=ctx.scratch, timeout=800))
    # how long real chemistry takes is not the subject
    recs = [r for r in recs if r["outcome"] != "timeout"]
    for r in recs[:2]:
        ctx.sample({k: r[k] for k in ("job", "outcome", "species", "error", "again")})
    bad = ctx.judge("RealRun", "RealRun.cfg", recs,
                    clauses={"outcome", "error", "limit", "written"})
    for i, c in bad.items():
        r = recs[i]
        ctx.violation(f"{c}: {r['job']} gave {r['outcome']} {r.get('why', '')} error "
                      f"{r['error']} ppm, evaluated again {r['again']} ppm", r)
    outs = [r["outcome"] + ("/less" if 0 < len(r["species"]) < 10 else "") for r in recs]
    ctx.notes["real reductions"] = {o: outs.count(o) for o in sorted(set(outs))}
