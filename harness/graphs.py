"""The graph searches on prescribed matrices of exact (dyadic) coefficients."""
import contextlib
import os

import numpy as np
import cantera as ct

import chem
import core

NAMES = ["A", "B2", "CX", "D", "E-1", "F", "G", "H9", "IJ", "K", "LO", "MM", "NX", "O", "P",
         "QQ", "R", "SU", "T1", "U", "V", "W", "X(2)", "Y'", "Z", "AA", "AB", "AC", "AD", "AE"]


def random_matrix(rng, n, kind):
    dens = rng.choice([0.1, 0.2, 0.35, 0.6, 1.0]) if n < 10 else rng.choice([0.05, 0.1, 0.2])
    shape = rng.choice(["random", "random", "chain", "cycle", "layers"])
    if kind == "exp":
        pool, none = rng.choice([[0, 1, 2], [0, 1, 2, 3, 5, 9], [1], [4, 5, 6]]), -1
    elif kind == "lin":
        pool, none = rng.choice([[1, 2, 4, 8, 16], [8, 16], [3, 5, 7, 15, 16],
                                 list(range(1, 17))]), 0
    else:
        pool, none = rng.choice([[1, 2, 4, 8, 16], [7, 8, 9], list(range(1, 41))]), 0
    M = [[none] * n for _ in range(n)]
    perm = list(range(n))
    rng.shuffle(perm)
    for i in range(n):
        for j in range(n):
            if i != j and rng.random() < (dens if shape == "random" else dens / 3):
                M[i][j] = rng.choice(pool)
    if shape in ("chain", "cycle"):
        for i in range(n - 1):
            M[perm[i]][perm[i + 1]] = rng.choice(pool)
        if shape == "cycle":
            M[perm[-1]][perm[0]] = rng.choice(pool)
    if shape == "layers":
        for i in range(n - 2):
            M[perm[i]][perm[i + 1]] = rng.choice(pool)
            M[perm[i]][perm[i + 2]] = rng.choice(pool)
    return M


def scenario(rng, kind):
    n = rng.choice([2, 3, 4, 5, 6]) if kind == "lin" else rng.choice([2, 3, 4, 6, 9, 14, 30])
    k = rng.choice([1, 1, 2, 3, 5])
    Ms = [random_matrix(rng, n, kind) for _ in range(k)]
    if rng.random() < 0.15:
        Ms[rng.randrange(k)] = [[-1 if kind == "exp" else 0] * n for _ in range(n)]
    order = list(range(1, n + 1))
    rng.shuffle(order)
    nt = rng.choice([1, 1, 2, min(3, n)])
    entries = sorted({x for M in Ms for row in M for x in row if x > 0})
    if kind == "reach":
        thr = rng.choice(entries + [1, 8, 16]) if entries else 8
        thr += rng.choice([0, 0, 0, 1])
    elif kind == "lin":
        thr = rng.choice([1, 16 ** 5, 16 ** 4, 8 * 16 ** 4, 4 * 16 ** 4, 8 ** 5,
                          rng.randint(1, 16 ** 5)])
    else:
        thr = rng.choice([0, 1, 2, 3, 4, 7, 12, 30])
    return {"kind": kind, "n": n, "Ms": Ms, "targets": order[:nt],
            "safe": order[nt:nt + rng.choice([0, 0, 1])], "thr": thr}


def tlc_scenarios(shapes, kind):
    """Scenarios from the initial states of MCGraph (entries in quarters)."""
    out = []
    for s in shapes:
        Ms = [[[4 * x for x in row] for row in M] for M in s["Ms"]]
        out.append({"kind": kind, "n": len(Ms[0]), "Ms": Ms, "targets": s["targets"],
                    "safe": [], "thr": 4 * s["thr"] if kind == "reach" else
                    [1, 65536, 65536 * 4, 65536 * 8, 65536 * 16][len(out) % 5]})
    return out


def real_matrix(sc, M):
    if sc["kind"] == "exp":
        return np.array([[0.0 if e < 0 else 2.0 ** -e for e in row] for row in M])
    return np.array(M) / 16.0


@contextlib.contextmanager
def no_simulation(modules):
    """The metrics of every candidate are those of the starting model."""
    saved = []
    for m in modules:
        if hasattr(m, "sample_metrics"):
            saved.append((m, m.sample_metrics))
            m.sample_metrics = lambda *a, **k: np.array([1.0])
    try:
        yield
    finally:
        for m, f in saved:
            m.sample_metrics = f


def run(sc, method, d, full):
    from pymars import drg, drgep, pfa, sampling

    n = sc["n"]
    names = NAMES[:n]
    targets = [names[t - 1] for t in sc["targets"]]
    safe = [names[t - 1] for t in sc["safe"]]
    mats = [real_matrix(sc, M) for M in sc["Ms"]]
    copies = [m.copy() for m in mats]
    rec = dict(sc, method=method, ran=full, model=[], kept=[], imp=[])
    mod = {"DRG": drg, "PFA": pfa, "DRGEP": drgep}[method]
    model = os.path.join(d, "model.yaml")
    if full:
        with open(model, "w") as f:
            f.write(chem.isomer_mech([f'"{x}"' for x in names]))
    os.chdir(d)
    cond = []

    def idx(sp):
        return names.index(sp) + 1

    if method == "DRGEP":
        with core.time_limit(60):
            imp = drgep.get_importance_coeffs(names, targets, mats)
        for s in names:
            v = float(imp[s])
            if sc["kind"] == "lin":
                r = round(v * 16 ** 5) if abs(v) < 1000 else -7
                rec["imp"].append(r if r == v * 16 ** 5 else -7)
            else:
                e = -1 if v == 0 else round(-np.log2(v)) if v > 0 else -7
                rec["imp"].append(e if e == -1 or v == 2.0 ** -e else -7)
        thr = sc["thr"] / 16 ** 5 if sc["kind"] == "lin" else 2.0 ** -sc["thr"]
        if full:
            with no_simulation([mod, sampling]):
                r = drgep.reduce_drgep(model, safe, thr, imp, cond, np.array([1.0]), path=d)
    else:
        trim = drg.trim_drg if method == "DRG" else pfa.trim_pfa
        thr = sc["thr"] / 16.0
        with core.time_limit(60):
            for m in mats:
                rec["kept"].append(sorted(idx(s) for s in trim(m, names, targets, thr)))
        if full:
            reduce = drg.reduce_drg if method == "DRG" else pfa.reduce_pfa
            with no_simulation([mod, sampling]):
                r = reduce(model, targets, safe, thr, mats, cond, np.array([1.0]), path=d)
    if full:
        rec["model"] = [idx(s) for s in r.model.species_names]
    rec["same"] = all(np.array_equal(a, b) for a, b in zip(mats, copies))
    return rec


def limbo_scenario(rng, method):
    """A search that ends halfway, with an upper threshold that may equal a coefficient."""
    kind = "lin" if method == "DRGEP" else "reach"
    while True:
        sc = scenario(rng, kind)
        if sc["n"] > 14 or sc["n"] < 4:
            continue
        entries = sorted({x for M in sc["Ms"] for row in M for x in row if x > 0})
        if entries:
            break
    top = 16 ** 5 if kind == "lin" else 1000
    levels = set()
    for M in sc["Ms"]:
        est = [top if s + 1 in sc["targets"] else 0 for s in range(sc["n"])]
        for _ in est:
            for a, row in enumerate(M):
                for b, x in enumerate(row):
                    est[b] = max(est[b], est[a] * x // 16 if kind == "lin" else min(est[a], x))
        levels |= {x for x in est if 0 < x < top}
    sc["thr"] = rng.choice(sorted(levels) or [1]) + rng.choice([0, 0, 0, 0, 1])
    free = sc["n"] - len(sc["targets"]) - len(sc["safe"])
    return dict(sc, kind="limbo", base=kind,
                atleast=sc["n"] - rng.randint(0, max(free * 2 // 3, 0)))


def run_limbo(sc, method, d):
    """A whole search on prescribed matrices; candidates with fewer species than
    ``atleast`` have too large an error."""
    from pymars import drg, drgep, pfa, sampling

    n = sc["n"]
    names = NAMES[:n]
    mod = {"DRG": drg, "PFA": pfa, "DRGEP": drgep}[method]
    search = getattr(mod, "run_" + method.lower())
    create = f"create_{method.lower()}_matrix"
    rec = dict(sc, method=method, final=[], limbo=[], same=True)
    os.chdir(d)
    model = os.path.join(d, "model.yaml")
    with open(model, "w") as f:
        f.write(chem.isomer_mech([f'"{x}"' for x in names]))
    saved = [(m, k, getattr(m, k)) for m in (mod, sampling)
             for k in (create, "sample", "sample_metrics") if hasattr(m, k)]
    data = np.zeros((len(sc["Ms"]), n + 2))
    data[:, 0] = range(len(sc["Ms"]))

    def metrics(f, *a, **k):
        return np.array([1.0 if ct.Solution(f).n_species >= sc["atleast"] else 3.0])

    stubs = {create: lambda state, sol: real_matrix(dict(sc, kind=sc["base"]),
                                                    sc["Ms"][int(state[0])]),
             "sample": lambda *a, **k: (np.array([1.0]), data.copy()),
             "sample_metrics": metrics}
    for m, k, _ in saved:
        setattr(m, k, stubs[k])
    upper = sc["thr"] / (16.0 if sc["base"] == "reach" else 16 ** 5)
    try:
        with core.time_limit(120):
            r = search(model, [1], [], [], 5.0, [names[t - 1] for t in sc["targets"]],
                       [names[t - 1] for t in sc["safe"]], threshold_upper=upper, path=d)
        rec["final"] = [names.index(s) + 1 for s in r.model.species_names]
        rec["limbo"] = [names.index(s) + 1 for s in r.limbo_species]
    except SystemExit:
        rec["stopped"] = True
    finally:
        for m, k, v in saved:
            setattr(m, k, v)
    return rec


def judge(ctx, recs, what):
    recs = core.completed(ctx, recs)
    for i in range(0, len(recs), 3000):
        part = recs[i:i + 3000]
        bad = ctx.judge("TraceGraph", "TraceGraph.cfg", part)
        for k, c in bad.items():
            r = part[k]
            ctx.violation(f"{what} {r['method']} clauses {c}: n={r['n']} Ms={r['Ms'][:2]} "
                          f"targets={r['targets']} safe={r['safe']} thr={r['thr']} gave "
                          + (f"{r['kept'] or r['imp']} model {r['model']}" if "kept" in r else
                             f"{r['limbo']} of {r['final']}"), r)
    for r in recs[:2]:
        ctx.sample({k: r[k] for k in ("method", "kind", "n", "targets", "thr", "kept", "imp",
                                      "model", "limbo", "final") if k in r})
    return recs
