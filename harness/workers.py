"""Samplings with scripted solvers whose completion order is steered by gates.

The simulation classes are the real ones; the integrator, flame solver and PSR curve are
stand-ins scripted per case (told apart by the initial temperature).  A case logs its
start, waits for the cases that are to end before it (or for others to start), and logs
its end.  Waiting is bounded, so an order the code does not allow only costs time.
"""
import os
import time

import numpy as np
import cantera as ct

import core
import sims

BASE = (1000, 4000, 300)     # initial temperature of case 0 of each kind
NOW = {}


def script(c, fail):
    """Ignition script of case c: its own delay and states"""
    t, out = 0, []
    for j in range(1, 7):
        t += 1 + (c * 7 + j * 3) % 5
        T = BASE[0] + 10 * c + (100 * j if j < 4 else 400 + 13 * j + c)
        out.append({"t": t, "T": T, "conv": j == 6, "fail": fail and j == 3})
    return {"script": [dict(s, t=s["t"] + 31 * c) for s in out]}


def log(what, kind, case):
    fd = os.open(NOW["log"], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
    os.write(fd, f"{what} {kind} {case}\n".encode())
    os.close(fd)


def lines():
    try:
        with open(NOW["log"]) as f:
            return f.read().splitlines()
    except FileNotFoundError:
        return []


def gate(kind, case):
    if not NOW.get("log"):
        return
    log("start", kind, case)
    order = NOW["order"].get(kind, [])
    limit = time.time() + NOW["wait"]
    if case in order:
        before = [f"end {kind} {c}" for c in order[:order.index(case)]]
        while time.time() < limit and not set(before) <= set(lines()):
            time.sleep(0.002)
        time.sleep(0.006)
    elif NOW.get("together"):
        # wait until more cases are simulated at once than there may be workers
        while time.time() < limit:
            ls = [x.split() for x in lines()]
            n = sum((a == "start") - (a == "end") for a, k, _ in ls if int(k) == kind)
            if n >= NOW["together"]:
                break
            time.sleep(0.002)
    log("end", kind, case)


def case_of(kind, T):
    return int(round((T - BASE[kind - 1]) / 10))


class GateNet(sims.FakeNet):
    def __init__(self, reactors=(), *a, **k):
        c = case_of(1, reactors[0].phase.T)
        sims.CURRENT["ign"] = script(c, (1, c) in NOW["fails"])
        super().__init__(reactors, *a, **k)
        self.case = c

    def step(self):
        if self.steps == 0:
            gate(1, self.case)
        elif NOW.get("jitter"):
            time.sleep(0.001)
        return super().step()


class GateFlame(sims.FakeFlame):
    def __init__(self, gas, *a, **k):
        c = case_of(3, gas.T)
        sims.CURRENT["flame"] = {"T": [300 + 10 * c + 100 * j for j in range(6)],
                                 "speeds": [3000 + 17 * c] * 6, "fail": (3, c) in NOW["fails"]}
        super().__init__(gas, *a, **k)
        self.case, self.first = c, True

    def solve(self, *a, **k):
        if self.first:
            gate(3, self.case)
            self.first = False
        return super().solve(*a, **k)


def trace(gas, **kw):
    c = case_of(2, gas.T)
    gate(2, c)
    if (2, c) in NOW["fails"]:
        raise RuntimeError("scripted")
    pts = {}
    for k, name in enumerate(("extinction", "log_mid", "near_0.1s")):
        Y = np.zeros(gas.n_species)
        Y[1] = (k + 1) / 1024
        Y[0] = 1 - Y[1]
        pts[name] = ((5 * c + k + 1) / 1024, 4400.0 + 100 * k + c, Y)
    return {"branch": np.array([[1.0, 4800.0]]), "points": pts}


def inputs(n):
    from pymars import sampling as S

    r = {"A": 1.0}
    return ([S.InputIgnition("constant volume", float(BASE[0] + 10 * c), 1.0, reactants=r)
             for c in range(n[0])],
            [S.InputPSR(float(BASE[1] + 10 * c), 2.0, reactants=r) for c in range(n[1])],
            [S.InputLaminarFlame(float(BASE[2] + 10 * c), 2.0, reactants=r)
             for c in range(n[2])])


def call(mode, model, conds, threads, path):
    from pymars import sampling

    if mode == "sample":
        return sampling.sample(model, *conds, num_threads=threads, path=path)
    return sampling.sample_metrics(model, *conds, num_threads=threads, path=path), []


def alone(mode, model, n, d):
    """What every case gives when it is simulated by itself."""
    met, blocks = {}, []
    conds = inputs(n)
    for kind in range(3):
        for c in range(n[kind]):
            one = [[], [], []]
            one[kind] = [conds[kind][c]]
            w = os.path.join(d, f"one{kind}-{c}")
            os.mkdir(w)
            os.chdir(w)
            m, rows = call(mode, model, one, 1, w)
            for x, v in enumerate(np.atleast_1d(m)):
                met[float(v)] = [kind + 1, c + 1, x + 1]
            if mode == "sample":
                blocks.append(([kind + 1, c + 1], np.asarray(rows)))
    return met, blocks


def decode(rows, blocks):
    out, p = [], 0
    rows = np.asarray(rows)
    while p < len(rows):
        for name, b in blocks:
            if np.array_equal(rows[p:p + len(b)], b):
                out.append(name)
                p += len(b)
                break
        else:
            out.append([-1, -1])
            p += 1
    return out


class Cpus:
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        import multiprocessing
        self.old = os.cpu_count, os.sched_getaffinity, multiprocessing.cpu_count
        os.cpu_count = lambda: self.n
        os.sched_getaffinity = lambda pid: set(range(self.n))
        multiprocessing.cpu_count = lambda: self.n

    def __exit__(self, *a):
        import multiprocessing
        os.cpu_count, os.sched_getaffinity, multiprocessing.cpu_count = self.old


def run(i, sc, d):
    from pymars import psr_solver

    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)  # worker processes that are ended complain
    NOW.clear()
    NOW.update({"fails": set(), "order": {}, "wait": 0.0})
    model = sims.tiny_model(d)
    old = ct.ReactorNet, ct.FreeFlame
    ct.ReactorNet, ct.FreeFlame = GateNet, GateFlame
    stand_in = core.replaced(psr_solver.trace_extinction_curve, trace)
    stand_in.__enter__()
    rec = {x: sc[x] for x in ("threads", "cpus", "n", "mode")}
    rec["fails"] = sc.get("fails", [])
    fails = {(k, c - 1) for k, c in rec["fails"]}
    try:
        with core.time_limit(60):
            met, blocks = alone(sc["mode"], model, sc["n"], d)
        NOW["fails"] = fails
        conds = inputs(sc["n"])
        rec["serial"] = "ok"
        if fails and sc["mode"] == "sample":
            w = os.path.join(d, "serial")
            os.mkdir(w)
            os.chdir(w)
            try:
                with core.time_limit(20):
                    call("sample", model, conds, 1, w)
            except (Exception, SystemExit, core.ScenarioTimeout) as e:
                rec["serial"] = sims.status_of(e)
        w = os.path.join(d, "run")
        os.mkdir(w)
        os.chdir(w)
        NOW.update({"log": os.path.join(d, "log"), "wait": sc["wait"],
                    "together": sc.get("together"), "jitter": sc.get("jitter"),
                    "order": {int(k): [c - 1 for c in v]
                              for k, v in sc.get("order", {}).items()}})
        rec.update({"outcome": "ok", "metrics": [], "data": []})
        try:
            with core.time_limit(40), Cpus(sc["cpus"]):
                m, rows = call(sc["mode"], model, conds, sc["threads"], w)
            rec["metrics"] = [[0, 0, 0] if v == 0 else met.get(float(v), [-1, -1, -1])
                              for v in np.atleast_1d(m)]
            rec["data"] = decode(rows, blocks) if sc["mode"] == "sample" else []
        except (Exception, SystemExit, core.ScenarioTimeout) as e:
            rec["outcome"] = sims.status_of(e)
            rec["what"] = str(e)[:200]
        rec["events"] = [[a, int(k), int(c) + 1] for a, k, c in map(str.split, lines())]
        rec["order"] = sc.get("order", {})
    finally:
        ct.ReactorNet, ct.FreeFlame = old
        stand_in.__exit__(None, None, None)
    return rec
