"""C18: response curves of stirred reactors.

Reactors of two isomers with a prescribed rate have a response curve known in closed form
(residence time as a function of conversion), so TLC can choose its turning points and the
true curve needs no solver.  Real hydrogen reactors are compared with an independent
solver (psroracle.py).
"""
import json
import os
import warnings

import numpy as np
import cantera as ct

import core

TOL = 20000         # residual of the steady state, 1e-9
TAUS = (1.0, 0.5)


def limbs(tau):
    from fractions import Fraction

    n = round(Fraction(float(tau)) * 10**18)
    out = []
    while n > 0:
        out.append(n % 10000)
        n //= 10000
    return out


def nano(x):
    return int(min(abs(float(x)) * 1e9, 2e9)) if np.isfinite(x) else int(2e9)


# ---- reactors with a known curve -------------------------------------------------------
class Toy:
    """Isomers A and B of equal heat capacity; A -> B at the rate k(T), B -> nothing."""

    Tin, dT, P = 400.0, 1600.0, 101325.0

    def __init__(self, shape):
        from scipy.interpolate import PchipInterpolator

        f, low = shape["fold"] / 100, shape["low"] / 10
        hot = [(0.95, 0.0), (0.99, 1.5), (0.999, 3.0)]
        if shape["behind"] == "none":       # no turning point: monotone
            knots = [(0.01, low - 6), (0.2, low - 3), (0.5, low), (0.75, low / 3)] + hot
        elif shape["behind"] == "rise":
            knots = [(0.01, -6), (0.15, 1), (f, low), (f + 0.6 * (0.95 - f), low * 0.8)] + hot
        elif shape["behind"] == "wide":     # slow rise behind the fold
            knots = [(0.01, -6), (0.1, 2), (f - 0.1, low + 0.3), (f, low),
                     (f + 0.6 * (0.95 - f), low * 0.8)] + hot
        else:                               # a second, deeper turning point behind it
            knots = [(0.01, -8), (0.06, 2), (f - 0.42, low - 2), (f - 0.2, low + 2.5),
                     (f, low), (f + 0.6 * (0.95 - f), low * 0.8)] + hot
        c = np.array([k[0] for k in knots])
        lt = np.array([k[1] for k in knots], float)
        self.lo, self.hi = c[0], c[-1]
        self.spline = PchipInterpolator(c, np.log(c / (1 - c)) - lt)
        grid = np.linspace(0.999, 0.0101, 200001)
        lts = np.log(grid / (1 - grid)) - self.lnk_c(grid)
        up = np.nonzero(np.diff(lts) > 0)[0]
        self.fold = None if shape["behind"] == "none" else (grid[up[0]], lts[up[0]])
        # the hottest solution of each seed
        self.hot = [grid[np.nonzero(np.diff(np.sign(lts - np.log(t))) != 0)[0][0]]
                    for t in TAUS]

    def lnk_c(self, c):
        return self.spline(np.clip(c, self.lo, self.hi))

    def rate(self, T):
        return float(np.exp(self.lnk_c((T - self.Tin) / self.dT)))

    def gas(self):
        cp = 3.5 * ct.gas_constant
        species = []
        for name, h0, s0 in (("A", 0.0, 0.0), ("B", -cp * self.dT, 20 * ct.gas_constant)):
            s = ct.Species(name, "N:2")
            s.thermo = ct.ConstantCp(1, 99999, ct.one_atm, (300, h0, s0, cp))
            species.append(s)
        r = ct.Reaction({"A": 1}, {"B": 1}, ct.CustomRate(self.rate))
        g = ct.Solution(thermo="ideal-gas", kinetics="gas", species=species, reactions=[r])
        g.TPX = self.Tin, self.P, "A:1"
        return g

    def conv(self, T):
        return (np.asarray(T) - self.Tin) / self.dT

    def residual(self, tau, T):
        """of the steady state at a temperature: conversion - tau * rate * remainder"""
        c = self.conv(T)
        k = np.exp(self.lnk_c(c))
        return np.abs(c - tau * k * (1 - c)) / (1 + tau * k)

    def residual_state(self, tau, T, Y):
        return max(self.residual(tau, T), abs(Y[1] - self.conv(T)), abs(Y.sum() - 1))


class Faults:
    """Reject calls of the corrector (the given ones, or all from one on) and of the
    solver at the residence times of the start."""

    def __init__(self, sc):
        self.rejects, self.start = set(sc["rejects"]), sc["from"]
        self.seeds, self.seed = set(sc["seeds"]), 0
        self.unseeded = False
        self.lies = sc.get("lies", False)   # claim success without a solution
        self.n = 0
        self.failing = False

    def install(self):
        import pymars.psr_solver as ps
        import scipy.optimize

        self.ps, self.root = ps, scipy.optimize.root
        self.newton = getattr(ps, "_damped_newton", None)

        def root(fun, x0, *a, **kw):
            if len(x0) == 3:                # two species, temperature
                from scipy.optimize import OptimizeResult

                self.seed += 1
                self.unseeded = self.seed in self.seeds and not self.lies
                if self.seed in self.seeds:
                    x = np.array(x0) * 0.97
                    return OptimizeResult(x=x, success=self.lies, status=1, nfev=1,
                                          fun=fun(x) if self.lies else np.ones(3),
                                          message="scripted")
            if len(x0) == 4:                # two species, temperature, time: a step
                self.n += 1
                self.failing = self.n in self.rejects or 0 < self.start <= self.n
                if self.failing and self.lies:
                    from scipy.optimize import OptimizeResult

                    x = np.array(x0)
                    self.failing = False    # the fallback works
                    return OptimizeResult(x=x, success=True, status=1, fun=fun(x),
                                          message="scripted", nfev=1)
                if self.failing:
                    from scipy.optimize import OptimizeResult

                    return OptimizeResult(x=np.array(x0), success=False, status=5,
                                          fun=np.ones(4), message="scripted", nfev=1)
            return self.root(fun, x0, *a, **kw)

        # the solver is found wherever the module gets it from
        def newton(residual, x0, *a, **kw):
            if self.unseeded and len(x0) == 3:
                return np.array(x0) * 0.97, False
            if self.failing and len(x0) == 4:
                return np.array(x0), False
            return self.newton(residual, x0, *a, **kw)

        self.stand_in = core.replaced(self.root, root, [scipy.optimize])
        self.stand_in.__enter__()
        if self.newton:
            ps._damped_newton = newton
        return True

    def remove(self):
        self.stand_in.__exit__(None, None, None)
        if self.newton:
            self.ps._damped_newton = self.newton


def trace(gas, **kw):
    from pymars.psr_solver import trace_extinction_curve

    try:
        with core.time_limit(120):
            return "ok", trace_extinction_curve(gas, **kw)
    except RuntimeError:
        return "RuntimeError", None         # includes Cantera's errors
    except core.ScenarioTimeout:
        return "timeout", None
    except Exception as e:                  # noqa: BLE001
        return type(e).__name__, None


NAMES = ("extinction", "log_mid", "near_0.1s")


def as_run(full, outcome, res, residual, residual_state, progress, lnfold):
    run = {"full": full, "outcome": outcome, "taus": [], "c": [], "res": [], "gap": 0,
           "pts": []}
    if outcome != "ok":
        return run
    b = res["branch"]
    run["taus"] = [limbs(t) for t in b[:, 0]]
    run["c"] = [int(round(progress(T) * 1e9)) for T in b[:, 1]]
    run["res"] = residual(b[:, 0], b[:, 1])
    for n in NAMES:
        tau, T, Y = res["points"][n]
        run["pts"].append({"tau": limbs(tau), "c": int(round(progress(T) * 1e9)),
                           "res": nano(residual_state(tau, T, np.asarray(Y)))})
    run["gap"] = int(abs(np.log(res["points"]["extinction"][0]) - lnfold) * 1e6)
    return run


def surely(sc):
    """Wide turning points and moderate steps: the march must find it.

    With large steps the corrector may leap over a narrow turning point to the cold
    branch and the march then ends without one, which is reported.
    """
    return (sc["shape"]["behind"] in ("rise", "wide") and not sc["from"]
            and (not sc["seeds"] or sc["lies"]) and sc["steps"] != [40, 40])


def run_toy(i, sc, d):
    toy = Toy(sc["shape"])
    ds0, dsm = (x / 100 for x in sc["steps"])
    faulty = bool(sc["rejects"] or sc["from"] or sc["seeds"])
    nofold = toy.fold is None
    cF, lF = toy.fold or (0.0, 0.0)
    rec = {"sc": sc, "expect": "failed" if nofold or sc["from"] == 1 else
           "ok" if surely(sc) else "any", "compare": True,
           "seeds": [limbs(t) for t in TAUS], "hot": [int(h * 1e9) - 10**6 for h in toy.hot],
           "tol": TOL, "fold": int(cF * 1e9), "reach": int((dsm + 0.05) * 1e6),
           "runs": [], "sims": []}
    for full in ((False,) if nofold else (False, True)):
        f = Faults(sc)
        if faulty and not f.install():
            break
        try:
            kw = {"max_steps": 400} if nofold else {}
            if sc["steps"] != [10, 40]:
                kw.update(ds0=ds0, ds_max=dsm)
            if not full and sc.get("default"):
                outcome, res = trace(toy.gas(), **kw)
            else:
                outcome, res = trace(toy.gas(), stop_at_extinction=not full, **kw)
        finally:
            if faulty:
                f.remove()
        if faulty and f.n + f.seed == 0:    # solved some other way: nothing was scripted
            rec["expect"] = "any"
        rec["runs"].append(as_run(
            full, outcome, res, lambda t, T: [nano(x) for x in toy.residual(t, T)],
            toy.residual_state, toy.conv, lF))
    return rec


def run_short(i, sc, d):
    """Too few steps to reach the turning point; and just enough."""
    toy = Toy(sc["shape"])
    cF, lF = toy.fold
    o, full = trace(toy.gas())
    need = len(full["branch"]) - 2 if o == "ok" else 10
    rec = {"sc": sc, "expect": "failed" if sc["short"] else "ok", "compare": True,
           "seeds": [limbs(t) for t in TAUS], "hot": [int(h * 1e9) - 10**6 for h in toy.hot],
           "tol": TOL, "fold": int(cF * 1e9), "reach": 450000, "runs": [], "sims": []}
    for ml in ([need - 2, need // 2, 1, 0] if sc["short"] else [3 * need + 20, 100]):
        outcome, res = trace(toy.gas(), max_steps=max(ml, 0))
        rec["runs"].append(as_run(
            False, outcome, res, lambda t, T: [nano(x) for x in toy.residual(t, T)],
            toy.residual_state, toy.conv, lF))
    return rec


# ---- hydrogen ------------------------------------------------------------------------
#: (inlet temperature, pressure in atm, equivalence ratio, N2 per O2): a fold within
#: reach of the march and of the oracle (at other conditions the corrector may jump to the
#: cold branch before the fold, which is reported as a failure)
CONDITIONS = json.load(open(os.path.join(os.path.dirname(__file__), "psr_conditions.json")))


def inlet(cond):
    T, P, phi, n2 = cond
    gas = ct.Solution("h2o2.yaml")
    gas.TP = T, P * ct.one_atm
    gas.set_equivalence_ratio(phi, "H2:1", {"O2": 1, "N2": n2} if n2 else {"O2": 1})
    gas.TP = T, P * ct.one_atm
    return gas


def run_real(i, cond, d):
    import psroracle

    warnings.filterwarnings("ignore")
    T, P, phi, n2 = cond
    o = psroracle.Reactor(inlet(cond))
    g = inlet(cond)
    g.equilibrate("HP")
    Y, T0 = g.Y.copy(), g.T
    hot, st = [], None
    step = 0.5
    for lt in np.log([1000.0, 100.0, 10.0, 5.0, 2.0, 1.0]):
        first = o.at_tau(np.exp(lt), Y, T0)
        if first is not None:
            break
    Y, T0 = first
    for t in TAUS:                          # down from near equilibrium
        while lt > np.log(t):
            to = max(lt - step, np.log(t))
            nxt = o.at_tau(np.exp(to), Y, T0)
            if nxt is None or nxt[1] < T0 - 200:
                step /= 2
                if step < 1e-3:
                    raise core.MachineryError(f"no oracle for {cond}")
                continue
            lt, (Y, T0) = to, nxt
        hot.append(T0)
        st = (T0, Y, t)
    fold = o.fold(st, dT=5.0)
    tF, TF = fold[0], fold[1]

    def progress(T):
        return T / 4000

    def residual(taus, temps):
        out, last = [], (st[1], st[0])
        for k, (tau, T) in enumerate(zip(taus, temps)):
            cand = []
            a = o.at_tau(tau, *last)
            if a is not None:
                cand.append(abs(a[1] - T) / T)
            b = o.at_T(T, last[0], tau)
            if b is not None:
                cand.append(abs(np.log(b[1] / tau)))
                last = (b[0], T)
            elif a is not None:
                last = a
            out.append(nano(min(cand)) if cand else int(2e9))
        return out

    def residual_state(tau, T, Y):
        return np.abs(o.f(Y, T, tau)).max()

    rec = {"sc": {"cond": cond}, "expect": "ok", "compare": True,
           "seeds": [limbs(t) for t in TAUS],
           "hot": [int((h - 0.5) / 4000 * 1e9) for h in hot], "tol": TOL,
           "fold": int(progress(TF) * 1e9), "reach": 450000, "runs": [], "sims": []}
    points = None
    for full in (False, True):
        kw = {"stop_at_extinction": False, "max_steps": 60} if full else {}
        outcome, res = trace(inlet(cond), **kw)
        points = points or (res and res["points"])
        rec["runs"].append(as_run(full, outcome, res, residual, residual_state, progress,
                                  np.log(tF)))
    if points:
        rec["sims"] = simulate(cond, points, d)
    return rec


def simulate(cond, points, d):
    """The same reactor through PSRSimulation: relative deviations in 1e-9."""
    from pymars import sampling
    from pymars.simulation import PSRSimulation

    T, P, phi, n2 = cond
    case = sampling.InputPSR(temperature=float(T), pressure=float(P), equivalence_ratio=phi,
                             fuel={"H2": 1.0},
                             oxidizer={"O2": 1.0, "N2": n2} if n2 else {"O2": 1.0})
    want = [points[n] for n in NAMES]
    out = []

    def dev(m):
        w = [want[0][0], want[1][1], want[2][1]]
        return [nano(a / b - 1) for a, b in zip(m, w)] if len(m) == 3 else []

    for mode in ("sample", "metric", "again"):
        e = {"mode": mode, "outcome": "ok", "metrics": [], "rows": []}
        try:
            sim = PSRSimulation(0, case, "h2o2.yaml", "", d)
            if mode == "sample":
                m, rows = sampling.psr_sample_worker((sim, 0))[0]
                e["rows"] = [[nano(r[0] / w[1] - 1), nano(r[1] / (P * ct.one_atm) - 1),
                              nano(np.abs(r[2:] - w[2]).max())] for r, w in zip(rows, want)]
            elif mode == "metric":
                m = sampling.psr_worker((sim, 0))[0]
            else:                           # a second trace starts from the inlet again
                sim.setup_case()
                sim.run_case()
                m = sim.calculate()
            e["metrics"] = dev(np.ravel(m))
        except Exception as x:              # noqa: BLE001
            e["outcome"] = type(x).__name__
        out.append(e)
    return out


def run(ctx):
    ctx.model_check("MCContinuation", "MCContinuation.cfg")
    if not ctx.quick:
        ctx.model_check("MCContinuation", "MCContinuationDeep.cfg", timeout=800)
    scs = ctx.generate("MCContinuation", "GenContinuation.cfg", workers=1)
    plain = [s for s in scs if not (s["rejects"] or s["from"] or s["seeds"])]
    faulty = [s for s in scs if s["rejects"] or s["from"] or s["seeds"]]
    ctx.notes["scenarios_from_tlc"] = len(scs)
    rng = ctx.rng("faults")
    rng.shuffle(faulty)
    faulty = ([s for s in faulty if s["from"] or s["seeds"]] +
              [s for s in faulty if s["rejects"]][:ctx.pick(240, 4000)])
    recs = core.completed(ctx, core.shard_map(run_toy, plain + faulty, initdir=ctx.scratch))
    shorts = [{"shape": s["shape"], "short": b, "rejects": [], "from": 0,
               "seeds": []}
              for s in plain if s["shape"]["fold"] and s["steps"] == [10, 40] and surely(s)
              for b in (True, False)]
    recs += core.completed(ctx, core.shard_map(run_short, shorts, initdir=ctx.scratch))
    conds = CONDITIONS[:16] if ctx.quick else CONDITIONS
    recs += core.completed(ctx, core.shard_map(run_real, conds, initdir=ctx.scratch))
    recs = [r for r in recs if r["runs"]]
    for r in recs[:1] + recs[-1:]:
        ctx.sample({"sc": r["sc"], "outcomes": [x["outcome"] for x in r["runs"]],
                    "points": [x["pts"] for x in r["runs"]][:1], "sims": r["sims"]})
    outs = [x["outcome"] for r in recs for x in r["runs"]]
    ctx.notes["outcomes"] = {o: outs.count(o) for o in sorted(set(outs))}
    bad = ctx.judge("TraceContinuation", "TraceContinuation.cfg", recs)
    for i, c in bad.items():
        ctx.violation(f"{c}: {recs[i]['sc']} expecting {recs[i]['expect']}, got "
                      f"{[x['outcome'] for x in recs[i]['runs']]}", recs[i])
