"""Histories of runs that save and reuse samples in one working directory.

Run as a program below LD_PRELOAD=<crashshim>: ``store.py HISTORIES OUT SCRATCH SEED``.
Simulations are replaced by stand-ins whose metrics and states are unique random
doubles, so that every returned value names the run, case and component it was made for.
Each run is a child process of its own, ended at the k-th change of a file if asked to.
"""
import ctypes
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402

KINDS = ("ignition", "psr", "flame")
ROWS = (20, 3, 20)
COMPS = (1, 3, 1)
SEED = 1
RUN = {"run": 0, "fail": None, "log": None}


def values(run, kind, case, ncols):
    """(metrics, rows) of a case; doubles of all sizes that need all their digits"""
    r = random.Random(f"{SEED}-{run}-{kind}-{case}")

    def v():
        return r.uniform(1, 10) * 10.0 ** r.randint(-12, 6)

    return ([v() for _ in range(COMPS[kind])],
            [[v() for _ in range(ncols)] for _ in range(ROWS[kind])])


def patch():
    import numpy as np
    from pymars import simulation

    def setup(sim):
        pass

    def result(sim, kind):
        RUN["log"].write(f"{kind} {sim.idx}\n")
        RUN["log"].flush()
        if RUN["fail"] == kind:
            raise RuntimeError("scripted failure")
        import cantera as ct
        n = ct.Solution(sim.model, sim.phase_name).n_species
        m, rows = values(RUN["run"], kind, sim.idx, 2 + n)
        m = np.array(m) if kind == 1 else m[0]
        return m, np.array(rows)

    for kind, cls in enumerate((simulation.IgnitionSimulation, simulation.PSRSimulation,
                                simulation.FlameSimulation)):
        cls.setup_case = setup
        cls.run_case = lambda sim, *a, **kw: None
        cls.clean = lambda sim: None
        cls.process_results = lambda sim, *a, kind=kind, **kw: result(sim, kind)
        cls.calculate = lambda sim, *a, kind=kind, **kw: result(sim, kind)[0]


def conditions(conf):
    from pymars.sampling import InputIgnition, InputLaminarFlame, InputPSR

    r = {"S0": 1.0}
    return ([InputIgnition("constant volume", 1000.0 + i, 1.0, reactants=r)
             for i in range(conf[0])],
            [InputPSR(900.0 + i, 1.0, reactants=r) for i in range(conf[1])],
            [InputLaminarFlame(300.0 + i, 1.0, reactants=r) for i in range(conf[2])])


def lookup(steps, upto):
    met, row = {}, {}
    for j in range(1, upto + 1):
        s = steps[j - 1]
        if s["op"] not in ("sample", "metrics"):
            continue
        for kind in range(3):
            for c in range(s["conf"][kind]):
                m, rows = values(j, kind, c, 2 + s["conf"][3])
                for x, v in enumerate(m):
                    met[v] = [kind + 1, j, c + 1, x + 1]
                for x, v in enumerate(rows):
                    row[tuple(v)] = [kind + 1, j, c + 1, x + 1]
    return met, row


def compress(rows):
    out = []
    for r in rows:
        if out and out[-1][:3] == r[:3] and out[-1][4] + 1 == r[3]:
            out[-1][4] = r[3]
        else:
            out.append(r[:3] + [r[3], r[3]])
    return out


def child(steps, j, d, side):
    """Perform step j (1-based) in this process; the result goes to the side directory."""
    import numpy as np
    from pymars import sampling

    s = steps[j - 1]
    RUN.update(run=j, fail=s["fail"] - 1 if s["how"] == "fail" else None,
               log=open(os.path.join(side, f"log{j}"), "a"))
    ign, psr, fla = conditions(s["conf"])
    model = os.path.join(side, f"m{s['conf'][3]}.yaml")
    if s["how"] == "crash":
        shim = ctypes.CDLL(None)
        shim.shim_arm(d.encode(), ctypes.c_long(s["k"]), s["mode"])
    kw = {"num_threads": s.get("threads", 1), "path": d}
    res = {"outcome": "ok", "metrics": [], "data": [], "cols": 0}
    try:
        with core.time_limit(30):
            if s["op"] == "sample":
                m, dat = sampling.sample(model, ign, psr, fla, **kw)
            else:
                m = sampling.sample_metrics(model, ign, psr, fla,
                                            reuse_saved=s["how"] == "reuse", **kw)
                dat = []
    except (Exception, SystemExit, core.ScenarioTimeout) as e:
        res["outcome"] = type(e).__name__
        res["what"] = str(e)[:200]
    else:
        met, row = lookup(steps, j)
        res["metrics"] = [met.get(float(v), [-1, -1, -1, -1])
                          for v in np.atleast_1d(m).ravel()]
        dat = np.asarray(dat)
        if dat.size:
            res["cols"] = dat.shape[1]
            res["data"] = compress([row.get(tuple(map(float, v)), [-1, -1, -1, -1])
                                    for v in dat])
    if s["how"] == "crash":
        shim.shim_disarm()
        res["ops"] = shim.shim_count()
    with open(os.path.join(side, f"res{j}"), "w") as f:
        json.dump(res, f)
    RUN["log"].close()


def tamper(f, file, way):
    """give a file a number of entries that no configuration has"""
    text = open(f).read()
    lines = text.splitlines(True)
    if file == "data":
        lines = (lines[:-1], lines[:1], [], lines + lines[:1], lines + lines[:2],
                 lines[1:], lines + lines[:4])[way]
        # (a single case of a PSR has three rows)
    else:
        lines = (lines * 5, [], lines * 6, lines * 7, lines[:-1], lines + lines[-1:],
                 lines[1:])[way]
    with open(f, "w") as fh:
        fh.write("".join(lines))


def history(i, steps, w):
    from pymars.sampling import data_files
    import chem

    d, side = os.path.join(w, "run"), os.path.join(w, "side")
    os.mkdir(d)
    os.mkdir(side)
    os.chdir(d)
    for n in (4, 5):
        with open(os.path.join(side, f"m{n}.yaml"), "w") as fh:
            fh.write(chem.isomer_mech([f"S{x}" for x in range(n)]))
    out = []
    for j, s in enumerate(steps, 1):
        rec = {x: s[x] for x in ("op", "conf", "how")}
        if s["op"] in ("delete", "tamper"):
            f = data_files[s["how"]]
            rec["file"], kind = s["how"].split("_")
            rec["kind"] = KINDS.index(kind) + 1
            if os.path.exists(f):
                os.remove(f) if s["op"] == "delete" \
                    else tamper(f, rec["file"], s["way"])
            out.append(rec)
            continue
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                child(steps, j, d, side)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(st)
        log = os.path.join(side, f"log{j}")
        sims = [[], [], []]
        for line in open(log) if os.path.exists(log) else ():
            kind, c = map(int, line.split())
            sims[kind].append(c + 1)
        rec["sims"] = [sorted(x) for x in sims]
        rec["fail"] = s.get("fail", 0)
        rec.update({"outcome": "crash" if code == 77 else f"exit {code}", "metrics": [],
                    "data": [], "cols": 0})
        if code == 0:
            rec.update(json.load(open(os.path.join(side, f"res{j}"))))
        for x in ("k", "mode", "threads"):
            if x in s:
                rec[x] = s[x]
        out.append(rec)
    os.chdir(w)
    return {"steps": out}


def main():
    global SEED
    src, dst, scratch, SEED = sys.argv[1:5]
    core.load_pymars()
    patch()
    items = [json.loads(line) for line in open(src)]
    recs = core.shard_map(history, items, initdir=scratch, timeout=780)
    with open(dst, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")


if __name__ == "__main__":
    main()
