"""C06: interaction coefficients follow the DRG, DRGEP and PFA definitions."""
import math
import os
from fractions import Fraction

import numpy as np
import cantera as ct

import core
import pipe
import reductions as R

METHODS = ("DRG", "DRGEP", "PFA")


def creators():
    from pymars import drg, drgep, pfa

    return {"DRG": drg.create_drg_matrix, "DRGEP": drgep.create_drgep_matrix,
            "PFA": pfa.create_pfa_matrix}


def quantised(M):
    def q(v):
        return int(v * 1e6 + 1e-7) if math.isfinite(v) and -1 < v < 80 else -7

    return [[q(float(v)) for v in row] for row in M]


def describe(M, rows):
    return {"got": quantised(np.asarray(M)[rows]),
            "zero": [bool((np.asarray(M)[r] == 0).all()) for r in rows],
            "diag": bool((np.diag(M) == 0).all())}


def compute(method, T, P, Y, gas):
    """The matrix and whether the state passed in was left alone."""
    state = (T, P, Y)
    copy = Y.copy()
    M = creators()[method](state, gas)
    return M, bool(np.array_equal(Y, copy))


# ------------------------------------------------------------------ synthetic mechanisms
def gen(rng):
    while True:
        n = rng.randint(3, 8)
        rxns = pipe.gen_mechanism(rng, n, rng.randint(1, n + 5))
        if not pipe.distinct_equations(rxns):
            continue
        ys = []
        for _ in range(rng.choice([1, 2, 4])):
            y = [rng.choice([0, 0, 1, 1, 2, 3, 5, 8]) for _ in range(n - 1)]
            y.append(pipe.S_TOTAL - sum(y))
            if y[-1] < 0:
                continue
            if pipe.net_rates({"rxns": rxns}, y) is not None:
                ys.append(y)
        if ys:
            names = rng.sample(pipe.NAME_POOL, n - 1) + ["PAD"]
            return {"n": n, "names": names, "rxns": rxns, "ys": ys, "phase": "",
                    "T": rng.choice([400.0, 1000.0, 1000.0, 2500.0]),
                    # all rates times a power of two
                    "scale": rng.choice([0, 0, 0, -40, -100, -300, 60])}


def small(i, sc, d):
    f = os.path.join(d, "model.yaml")
    with open(f, "w") as fh:
        fh.write(pipe.model_text(sc))
    gas = ct.Solution(f)
    for k in range(gas.n_reactions):
        gas.set_multiplier(2.0 ** sc["scale"], k)
    spec = [{k: rx[k] for k in ("r", "p", "body", "k", "rev")} for rx in sc["rxns"]]
    out = []
    for y in sc["ys"]:
        for m in METHODS:
            # the same concentrations at every temperature
            M, same = compute(m, sc["T"], ct.one_atm * sc["T"] / 1000.0,
                              np.array(y) / pipe.S_TOTAL, gas)
            rec = {"src": "mech", "method": m, "n": sc["n"], "rxns": spec, "y": y,
                   "same": same}
            rec.update(describe(M, list(range(sc["n"]))))
            out.append(rec)
    return out


# ------------------------------------------------------------------ real mechanisms
def limbs(k):
    out = []
    while k:
        out.append(k % 10000)
        k //= 10000
    return out


def real_record(gas, method, T, P, Y, rows):
    M, same = compute(method, T, P, Y, gas)
    gas.TPY = T, P, Y
    q = [float(x) for x in gas.net_rates_of_progress]
    big = max(abs(x) for x in q)
    small_ = min((abs(x) for x in q if x), default=0)
    if big == 0 or small_ / big < 1e-60:
        return None
    scale = Fraction(10) ** 16 / Fraction(small_)
    qs = []
    for x in q:
        k = int(abs(Fraction(x)) * scale)
        qs.append([(x > 0) - (x < 0), limbs(k)])
    idx = {s: k + 1 for k, s in enumerate(gas.species_names)}
    rx = []
    for r in gas.reactions():
        for side in (r.reactants, r.products):
            if any(c != int(c) for c in side.values()):
                return None
        rx.append({"r": [[idx[s], int(c)] for s, c in r.reactants.items()],
                   "p": [[idx[s], int(c)] for s, c in r.products.items()]})
    rec = {"src": "rates", "method": method, "n": gas.n_species, "rx": rx, "q": qs,
           "rows": [r + 1 for r in rows], "same": same}
    rec.update(describe(M, rows))
    return rec


def real_states(rng, gas, fuels, count):
    out = []
    sp = gas.species_names
    for _ in range(count):
        kind = rng.choice(["fresh", "burning", "random"])
        T = rng.choice([500.0, 900.0, 1200.0, 1600.0, 2200.0])
        P = rng.choice([0.1, 1.0, 20.0]) * ct.one_atm
        gas.TPX = T, P, f"{rng.choice(fuels)}:{rng.choice([0.5, 1, 2])}, O2:1, " \
            f"{'N2:3.76' if 'N2' in sp else 'AR:3.76'}"
        if kind == "burning":
            r = ct.IdealGasReactor(gas)
            net = ct.ReactorNet([r])
            for _ in range(rng.choice([5, 40, 120])):
                net.step()
            gas.TPY = r.T, r.thermo.P, r.thermo.Y
        elif kind == "random":
            gas.X = [rng.choice([0.0, 0.0, rng.random(), 1e-6]) for _ in sp]
            gas.TP = T, P
        out.append((float(gas.T), float(gas.P), gas.Y.copy()))
    return out


def real(i, item, d):
    import random

    mech, fuels, count, nrows, methods, seed = item
    rng = random.Random(seed)
    gas = ct.Solution(mech)
    out = []
    for T, P, Y in real_states(rng, gas, fuels, count):
        for m in methods:
            rows = list(range(gas.n_species))
            if nrows < len(rows):
                rows = sorted(rng.sample(rows, nrows))
            rec = real_record(gas, m, T, P, Y, rows)
            if rec is not None:
                out.append(rec)
    return out


def run(ctx):
    ctx.level = "model_checking"
    rng = ctx.rng("coefficients")
    scs = [gen(rng) for _ in range(ctx.pick(220, 3000))]
    recs = core.shard_map(small, scs, initdir=ctx.scratch)
    judge(ctx, flat(ctx, recs), 900)
    h2 = [("h2o2.yaml", ["H2"], 2, 10, METHODS, rng.random())
          for _ in range(ctx.pick(8, 60))]
    gri = [("gri30.yaml", ["CH4", "H2", "C2H6"], 1, ctx.pick(6, 20), ("DRG", "DRGEP"),
            rng.random()) for _ in range(ctx.pick(8, 50))]
    pfa = [("gri30.yaml", ["CH4", "H2", "C2H6"], 1, ctx.pick(3, 20), ("PFA",), rng.random())
           for _ in range(ctx.pick(2, 24))]
    recs = core.shard_map(real, h2 + gri + pfa, initdir=ctx.scratch)
    judge(ctx, flat(ctx, recs), 300)
    its = []
    for g in METHODS:
        its += R.items(ctx, ctx.pick(6, 100), ("direct",), graph=g, sa="none", limit2=2100)
    R.batches(ctx, its, clauses=["cut"])


def flat(ctx, recs):
    out = []
    for i, r in enumerate(recs):
        if isinstance(r, dict):
            ctx.violation(f"scenario {i} could not be recorded: {r.get('crash')}", r)
        else:
            out += r
    return out


def judge(ctx, recs, size):
    for k in range(0, len(recs), size):
        part = recs[k:k + size]
        bad = ctx.judge("TraceCoeff", "TraceCoeff.cfg", part)
        for i, c in bad.items():
            r = part[i]
            ctx.violation(f"{r['method']} matrix ({r['src']}), clauses {c}: got "
                          f"{r['got'][:3]}", r)
    for r in recs[:: max(1, len(recs) // 2)]:
        ctx.sample({k: r[k] for k in ("src", "method", "n", "got")})
    by = ctx.notes.setdefault("matrices", {})
    for r in recs:
        k = f"{r['src']} {r['method']} n={r['n'] if r['src'] == 'rates' else 'small'}"
        by[k] = by.get(k, 0) + 1
