"""C21: repeating a reduction in one process gives the same result."""
import json
import os
import shutil
import subprocess
import sys

import core
import pipe
import reductions as R


def permuted(sc, rng):
    t = dict(sc)
    t["targets"] = rng.sample(sc["targets"], len(sc["targets"]))
    t["safe"] = rng.sample(sc["safe"], len(sc["safe"]))
    return t


def sequence(i, item, d):
    """fresh run, then in the same process: another scenario, again, permuted, and again
    with the samples saved by the run before."""
    sc, other, perm = item
    recs = []
    for k, s in enumerate((sc, other, sc, perm, sc)):
        w = os.path.join(d, f"r{k}")
        # the same directory (and file names) for all runs but the second
        w = os.path.join(d, "same") if k != 1 else os.path.join(d, "other")
        os.makedirs(w, exist_ok=True)
        recs.append(pipe.run_scenario(s, w, prepared=k == 4))
    return {"recs": recs}


def hash_seeds(ctx, scs, seeds):
    procs = []
    for seed in seeds:
        src = os.path.join(ctx.scratch, f"in{seed}.json")
        d = os.path.join(ctx.scratch, f"hash{seed}")
        os.makedirs(d)
        json.dump(scs, open(src, "w"))
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        procs.append((seed, d, subprocess.Popen(
            [sys.executable, os.path.join(core.VERIF, "harness", "hashrun.py"), src,
             os.path.join(d, "out.json")], env=env, stdout=subprocess.DEVNULL,
            stderr=subprocess.PIPE, cwd=d)))
    res = []
    for seed, d, p in procs:
        _, err = p.communicate(timeout=800)
        if p.returncode:
            raise core.MachineryError(f"hash seed {seed}: {err.decode()[-800:]}")
        res.append(json.load(open(os.path.join(d, "out.json"))))
        shutil.rmtree(d, ignore_errors=True)
    return res


# ------------------------------------------------- real simulations in one process
def evaluate(gone, name, kind, job):
    """Metrics and samples of h2o2 without some species, written to a file ``name``."""
    from pymars import reduce_model, sampling, soln2yaml

    mix = {"equivalence_ratio": job["phi"], "fuel": {"H2": 1.0},
           "oxidizer": {"O2": 1.0, "N2": 3.76}}
    ign, psr = [], []
    if kind == "ign":
        ign = [sampling.InputIgnition(kind=job["kind"], temperature=job["T"],
                                      pressure=job["P"], **mix)]
    else:
        psr = [sampling.InputPSR(temperature=400.0, pressure=job["P"], **mix)]
    model = reduce_model.trim("h2o2.yaml", gone, name)
    soln2yaml.write(model, name)
    got = sampling.sample_metrics(name, ign, psr_conditions=psr, num_threads=1)
    return [f"{float(x):.6g}" for x in got]


def in_fork(fn, *args):
    """fn(*args) in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "w") as f:
                try:
                    json.dump(fn(*args), f)
                except Exception as e:  # noqa: BLE001
                    f.seek(0)
                    json.dump([repr(e)], f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text or '["died"]')


def rewritten(i, job, d):
    """Models written to the same file, one after the other, each evaluated at once: the
    same as in new processes, with files of their own."""
    fresh = [in_fork(evaluate, gone, f"f{k}.yaml", job["sim"], job)
             for k, gone in enumerate(job["gone"])]
    mine = [evaluate(gone, "same.yaml", job["sim"], job) for gone in job["gone"]]
    again = [evaluate(gone, "same.yaml", job["sim"], job) for gone in job["gone"]]
    return {"runs": [{"metrics": m} for m in (fresh, mine, again)], "fields": ["metrics"]}


def real_repeats(ctx):
    rng = ctx.rng("rewritten")
    jobs = []
    for k in range(ctx.pick(16, 80)):
        gone = [rng.sample(["AR", "HO2", "H2O2", "O", "H2O"], rng.choice([1, 1, 2]))
                for _ in range(3)]
        jobs.append({"sim": "psr" if k % 4 == 3 else "ign", "gone": gone,
                     "kind": rng.choice(["constant volume", "constant pressure"]),
                     "T": rng.choice([1100.0, 1300.0]), "P": rng.choice([1.0, 2.0]),
                     "phi": rng.choice([0.7, 1.0])})
    recs = core.completed(ctx, core.shard_map(rewritten, jobs, initdir=ctx.scratch,
                                              timeout=600))
    bad = ctx.judge("Same", "Same.cfg", recs)
    for i, c in bad.items():
        ctx.violation(f"models written to one file, job {jobs[i]}: {c} differ: "
                      f"{[r['metrics'] for r in recs[i]['runs']]}", recs[i])
    for r in recs[:2]:
        ctx.sample({"rewritten": r["runs"][0]["metrics"]})


def run(ctx):
    real_repeats(ctx)
    R.model(ctx)
    rng = ctx.rng("sequence")
    n = ctx.pick(40, 400)
    scs = R.scenarios(ctx, n) + R.scenarios(ctx, n // 4, graph="none")
    others = R.scenarios(ctx, len(scs), key="other")
    items = [(a, b, permuted(a, rng)) for a, b in zip(scs, others)]
    res = core.completed(ctx, core.shard_map(sequence, items, initdir=ctx.scratch,
                                             timeout=800))
    groups = [(f"scenario {i}", [x["recs"][k] for k in (0, 2, 3, 4)])
              for i, x in enumerate(res)]
    R.same(ctx, groups, what="repeated in one process, ")
    R.judge(ctx, [r for x in res for r in x["recs"]])
    # hash randomization
    some = scs[:ctx.pick(24, 150)] + scs[-ctx.pick(6, 40):]
    runs = hash_seeds(ctx, some, range(1, ctx.pick(7, 9)))
    groups = []
    for k in range(len(some)):
        rs = core.completed(ctx, [r[k] for r in runs])
        groups.append((f"hash seeds, scenario {k}", rs))
    R.same(ctx, groups)
    R.judge(ctx, [g[1][0] for g in groups if g[1]])
