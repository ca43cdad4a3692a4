"""Scripted stand-ins for Cantera's integrator and flame solver.

The gas and reactor objects stay real: a scripted step sets the real gas to the next
scripted state.  Point ``j`` of a profile has mass fraction j/1024 of the second species
and pressure (1 + j/1024) atm, so every sampled row names the point each of its parts
comes from.
"""
import contextlib
import os
import signal

import numpy as np
import cantera as ct

import core
import chem

TICK = 1.0 / 64
NAMES = ["A", "B", "C"]
CURRENT = {}


def tiny_model(path):
    f = os.path.join(path, "tiny.yaml")
    if not os.path.exists(f):
        rx = "- equation: A <=> B\n  rate-constant: {A: 1.0, b: 0.0, Ea: 0.0}\n"
        with open(f, "w") as fh:
            fh.write(chem.isomer_mech(NAMES, reactions=rx))
    return f


class FakeNet:
    """Stands in for ct.ReactorNet; the script is in CURRENT['ign']."""

    rtol = 1e-9
    atol = 1e-15
    initial_time = 0.0

    def __init__(self, reactors=(), *a, **k):
        self.reactors = list(reactors)
        self.n_vars = 4
        self.n = 0
        self.preconditioner = None
        self.verbose = False
        self.sc = CURRENT["ign"]
        self._v = 1.0
        self.steps = 0

    @property
    def time(self):
        n = min(self.n, len(self.sc["script"]))
        if n == 0:
            return 0.0
        over = self.n - n
        return (self.sc["script"][n - 1]["t"] + 2 * over) * TICK

    def reinitialize(self):
        pass

    def initialize(self):
        pass

    def get_state(self):
        return np.full(self.n_vars, self._v)

    def step(self):
        script = self.sc["script"]
        self.steps += 1
        if self.n < len(script):
            s = script[self.n]
            if s["fail"]:
                raise ct.CanteraError("scripted integrator failure")
            if not s["conv"]:
                self._v = 3.0 - self._v
        else:
            s = dict(script[-1])
            if not s["conv"]:
                self._v = 3.0 - self._v
        self.n += 1
        gas = self.reactors[0].phase
        set_point(gas, min(self.n, len(script)), s["T"])
        self.reactors[0].syncState()
        if self.steps > 200000:
            raise core.ScenarioTimeout()
        return self.time


def set_point(gas, j, T):
    Y = np.zeros(gas.n_species)
    Y[1] = j / 1024
    Y[0] = 1 - j / 1024
    gas.TPY = T, ct.one_atm * (1 + j / 1024), Y


def flame_fractions(j):
    """Of grid point j; solvers leave small negative values and sums other than one."""
    return [1 - j / 1024 + (j % 3 - 1) * 2.0 ** -40, j / 1024, -((j * 7 + 1) % 5) * 2.0 ** -45]


def decode_flame(row, P):
    """[temperature, pressure exact, grid point whose mass fractions these are]"""
    j = float(row[3]) * 1024
    exact = (j == round(j) and 0 <= j < 2000
             and [float(v) for v in row[2:]] == flame_fractions(round(j)))
    T = float(row[0])
    return [round(T) if T == round(T) else -7, int(float(row[1]) == P),
            round(j) if exact else -7]


def decode_row(row):
    """[temperature, point of the pressure, point of the composition]"""
    T, P, y = float(row[0]), float(row[1]), [float(v) for v in row[2:]]
    jp = (P / ct.one_atm - 1) * 1024
    jy = y[1] * 1024

    def near(v):
        r = round(v)
        return r if abs(v - r) < 1e-6 and abs(r) < 10**6 else -7

    ok = abs(sum(y) - 1) < 1e-9
    return [near(T), near(jp), near(jy) if ok else -8]


class FakeFlame:
    """Stands in for ct.FreeFlame; CURRENT['flame'] has T, speeds, fail."""

    def __init__(self, gas, grid=None, width=None):
        self.gas = gas
        self.sc = CURRENT["flame"]
        if width is None and grid is not None:
            width = grid[-1] - grid[0]
        CURRENT.setdefault("made", []).append(
            {"width": width, "T": gas.T, "P": gas.P, "Y": gas.Y.copy(),
             "model": gas.transport_model})
        self.P0 = gas.P
        self.solved = False

    def set_refine_criteria(self, *a, **k):
        pass

    def set_max_grid_points(self, *a, **k):
        pass

    def solve(self, *a, **k):
        if self.sc["fail"]:
            raise ct.CanteraError("scripted flame failure")
        self.solved = True

    @property
    def velocity(self):
        if not self.solved:
            return np.zeros(len(self.sc["T"])) + 7.7
        return np.array([v / 10000 for v in self.sc["speeds"]])

    @property
    def T(self):
        return np.array(self.sc["T"], dtype=float)

    @property
    def P(self):
        return self.P0

    @property
    def grid(self):
        return np.linspace(0, 1, len(self.sc["T"]))

    @property
    def Y(self):
        n = len(self.sc["T"])
        return np.array([flame_fractions(j) for j in range(n)]).T


@contextlib.contextmanager
def patched(net=True, flame=True):
    old = ct.ReactorNet, ct.FreeFlame
    if net:
        ct.ReactorNet = FakeNet
    if flame:
        ct.FreeFlame = FakeFlame
    try:
        yield
    finally:
        ct.ReactorNet, ct.FreeFlame = old


def status_of(exc):
    if isinstance(exc, core.ScenarioTimeout):
        return "timeout"
    if isinstance(exc, SystemExit):
        return "SystemExit"
    if isinstance(exc, ct.CanteraError):
        return "CanteraError"
    return type(exc).__name__


def ticks(x):
    v = float(x) / TICK
    r = round(v)
    return r if abs(v - r) < 1e-9 and 0 <= r < 10**8 else -5


def run_ignition(sc, model, d, worker=True):
    """Run one autoignition scenario through the worker functions of pymars.sampling."""
    from pymars import sampling
    from pymars.simulation import IgnitionSimulation

    CURRENT["ign"] = sc
    case = sampling.InputIgnition(
        kind=sc.get("kind", "constant volume"), temperature=float(sc["T0"]),
        pressure=1.0, end_time=sc["end"] * TICK,
        max_steps=sc["max"], reactants={"A": 1.0}, composition_type="mass")
    rec = {"sc": sc, "outcome": "ok", "delay": -9, "rows": [], "left": 0}
    with patched():
        try:
            with core.time_limit(20):
                sim = IgnitionSimulation(3, case, model, "", d)
                if sc["mode"] == "metric":
                    res = sampling.ignition_worker((sim, 3))
                    rec["delay"] = ticks(res[3])
                else:
                    res = sampling.ignition_sample_worker((sim, 3))
                    rec["delay"] = ticks(res[3][0])
                    rec["rows"] = [decode_row(r) for r in np.asarray(res[3][1])]
        except (Exception, SystemExit, core.ScenarioTimeout) as e:
            rec["outcome"] = status_of(e)
    rec["left"] = len([f for f in os.listdir(d) if f != "tiny.yaml"])
    for f in os.listdir(d):
        if f != "tiny.yaml":
            os.remove(os.path.join(d, f))
    return rec


def run_flame(sc, model, d):
    from pymars import sampling
    from pymars.simulation import FlameSimulation

    CURRENT["flame"] = sc
    CURRENT["made"] = []
    kw = {} if sc["width"] == 0 else {"width": sc["width"] / 1000}
    case = sampling.InputLaminarFlame(
        temperature=float(sc["T"][0]), pressure=2.0, reactants={"A": 1.0}, **kw)
    rec = {"sc": sc, "outcome": "ok", "speed": -99999, "rows": [], "width": -1}
    with patched():
        try:
            with core.time_limit(20):
                floor = None if sc["floor"] == -1000000 else sc["floor"] / 10000
                sim = FlameSimulation(4, case, model, "", d, min_flame_speed=floor)
                if sc["mode"] == "metric":
                    res = sampling.flame_worker((sim, 4))
                    sp = res[4]
                else:
                    res = sampling.flame_sample_worker((sim, 4))
                    sp = res[4][0]
                    rows = []
                    for r in np.asarray(res[4][1]):
                        rows.append(decode_flame(r, CURRENT["made"][-1]["P"]))
                    rec["rows"] = rows
                v = float(sp) * 10000
                rec["speed"] = round(v) if abs(v - round(v)) < 1e-6 else -88888
        except (Exception, SystemExit, core.ScenarioTimeout) as e:
            rec["outcome"] = status_of(e)
    if CURRENT["made"]:
        rec["width"] = round(CURRENT["made"][0]["width"] * 1000)
    return rec


def run_psr(sc, model, d):
    """A PSR case with a scripted curve: sc.points = [[tau, T] of extinction, mid, near]
    (tau in units of 1/1024 s), sc.fail = name of an exception or ""."""
    from pymars import psr_solver, sampling
    from pymars.simulation import PSRSimulation

    def trace(gas, **kw):
        if sc["fail"] == "CanteraError":
            raise ct.CanteraError("scripted")
        if sc["fail"]:
            raise RuntimeError("scripted")
        pts = {}
        for k, name in enumerate(("extinction", "log_mid", "near_0.1s")):
            Y = np.zeros(gas.n_species)
            Y[1] = (k + 1) / 1024
            Y[0] = 1 - Y[1]
            pts[name] = (sc["points"][k][0] / 1024, float(sc["points"][k][1]), Y)
        return {"branch": np.array([[1.0, 2000.0]]), "points": pts}

    case = sampling.InputPSR(temperature=900.0, pressure=2.0, reactants={"A": 1.0})
    rec = {"sc": sc, "outcome": "ok", "metrics": [], "rows": []}
    try:
        with core.replaced(psr_solver.trace_extinction_curve, trace), core.time_limit(20):
            sim = PSRSimulation(5, case, model, "", d)
            if sc["mode"] == "metric":
                m = sampling.psr_worker((sim, 5))[5]
            else:
                m, rows = sampling.psr_sample_worker((sim, 5))[5]
                for r in np.asarray(rows):
                    t, _, jy = decode_row(r)
                    rec["rows"].append([t, int(abs(r[1] / ct.one_atm - 2) < 1e-9), jy])
            m = np.asarray(m, dtype=float)
            rec["metrics"] = [int(round(m[0] * 1024)), int(round(m[1])), int(round(m[2]))]
    except (Exception, SystemExit, core.ScenarioTimeout) as e:
        rec["outcome"] = status_of(e)
    return rec
