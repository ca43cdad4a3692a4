"""Reductions on synthetic mechanisms with exactly known graphs and error landscapes.

A scenario prescribes a mechanism (isomers, integer rate constants), the sampled states
(integer amounts, so that all net rates of progress are integers), and the metrics every
candidate model gives (a landscape over sets of species).  Stand-ins for the simulation
classes return them and log every simulation; everything else is the real code.
"""
import contextlib
import hashlib
import itertools
import json
import os
import shutil

import numpy as np
import cantera as ct

import chem
import core
import sims

S_TOTAL = 64  # amounts of all species add up to this (species 'PAD' takes the rest)
T0 = 1000.0


# ------------------------------------------------------------------ mechanism
def c_unit():
    return ct.one_atm / (ct.gas_constant * T0) / S_TOTAL


def side(names, coeffs):
    return " + ".join(f"{c} {n}" if c > 1 else n for n, c in zip(names, coeffs) if c)


def reaction_yaml(names, rx):
    order = sum(rx["r"]) + (1 if rx["body"] else 0)
    k = rx["k"] / c_unit() ** order
    m = " + M" if rx["body"] else ""
    arrow = "<=>" if rx["rev"] else "=>"
    y = f"- equation: {side(names, rx['r'])}{m} {arrow} {side(names, rx['p'])}{m}\n"
    if rx["body"]:
        y += "  type: three-body\n"
        eff = ", ".join(f"{n}: {e}.0" for n, e in zip(names, rx["body"]))
        y += f"  efficiencies: {{{eff}}}\n"
    else:
        y += "  type: elementary\n"
    y += f"  rate-constant: {{A: {k!r}, b: 0.0, Ea: 0.0}}\n"
    if rx.get("dup"):
        y += "  duplicate: true\n"
    return y


def model_text(sc):
    names = sc["names"]
    rxs = "".join(reaction_yaml(names, rx) for rx in sc["rxns"])
    if sc["phase"]:
        # a second phase, listed first, with other species
        extra = ("- name: other\n  thermo: ideal-gas\n  elements: [N]\n  species: [ZZ1, ZZ2]\n"
                 "  kinetics: bulk\n  reactions: none\n  transport: mixture-averaged\n"
                 "  state: {T: 1000.0, P: 1 atm}\n")
        txt = chem.isomer_mech(names, phase=sc["phase"], extra_phases=extra, reactions=rxs)
        return txt.replace(f"{sc['phase']}-reactions:\n",
                           chem.species_yaml(["ZZ1", "ZZ2"]) + f"{sc['phase']}-reactions:\n", 1)
    return chem.isomer_mech(names, reactions=rxs)


def chemkin_thermo(names):
    """The same species as in harness/chem.py, in Chemkin format."""
    a = [3.5, 0.0, 0.0, 0.0, 0.0, -1000.0, 5.0]
    c = a + a
    out = "THERMO ALL\n   200.000  1000.000  6000.000\n"
    for s in names:
        line1 = f"{s:<18}{'':6}N   2{'':15}G{200.0:10.3f}{6000.0:10.3f}{1000.0:8.2f}"
        out += f"{line1:<79}1\n"
        for k, part in enumerate((c[:5], c[5:10], c[10:]), 2):
            out += f"{''.join(f'{v:15.8E}' for v in part):<79}{k}\n"
    return out + "END\n"


def chemkin_text(sc, thermo=True):
    """The mechanism of the scenario as a Chemkin input file (mol, cm^3, s, K)."""
    names = sc["names"]
    out = "ELEMENTS\nN\nEND\nSPECIES\n" + " ".join(names) + "\nEND\n"
    if thermo:
        out += chemkin_thermo(names)
    out += "REACTIONS MOLES KELVINS\n"
    for rx in sc["rxns"]:
        order = sum(rx["r"]) + (1 if rx["body"] else 0)
        k = rx["k"] / c_unit() ** order * 1000.0 ** (order - 1)
        m = "+M" if rx["body"] else ""
        eq = (side(names, rx["r"]).replace(" ", "") + m + ("<=>" if rx["rev"] else "=>")
              + side(names, rx["p"]).replace(" ", "") + m)
        out += f"{eq}   {k:.14E} 0.0 0.0\n"
        if rx["body"]:
            out += " ".join(f"{s}/{float(e)}/" for s, e in zip(names, rx["body"])) + "\n"
        if rx.get("dup"):
            out += "DUPLICATE\n"
    return out + "END\n"


# ------------------------------------------------------------------ float oracle, used
# only to reject scenarios that are too close to a decision
def net_rates(sc, y):
    out = []
    for rx in sc["rxns"]:
        f = float(np.prod([float(a) ** e for a, e in zip(y, rx["r"])]))
        b = float(np.prod([float(a) ** e for a, e in zip(y, rx["p"])])) if rx["rev"] else 0.0
        body = sum(e * a for e, a in zip(rx["body"], y)) if rx["body"] else 1
        if rx["rev"] and f == b and f != 0:
            return None
        if rx["body"] and not body and f != b:
            return None  # Cantera gets the total of zero efficiencies up to roundoff only
        out.append(rx["k"] * body * (f - b))
    return out


def matrix(sc, y):
    n = sc["n"]
    q = net_rates(sc, y)
    if q is None:
        return None
    w = np.array([[(rx["p"][a] - rx["r"][a]) * q[i] for i, rx in enumerate(sc["rxns"])]
                  for a in range(n)])
    part = np.array([[bool(rx["p"][b] or rx["r"][b]) for rx in sc["rxns"]]
                     for b in range(n)])
    M = np.zeros((n, n))
    P, C = np.maximum(w, 0), np.maximum(-w, 0)
    den = np.maximum(P.sum(1), C.sum(1))
    absden = np.abs(w).sum(1)
    r1p = np.zeros((n, n))
    r1c = np.zeros((n, n))
    for a in range(n):
        for b in range(n):
            if a == b:
                continue
            if sc["graph"] == "DRG":
                if absden[a]:
                    M[a, b] = np.abs(w[a][part[b]]).sum() / absden[a]
            elif den[a]:
                if sc["graph"] == "DRGEP":
                    M[a, b] = abs(w[a][part[b]].sum()) / den[a]
                else:
                    r1p[a, b] = P[a][part[b]].sum() / den[a]
                    r1c[a, b] = C[a][part[b]].sum() / den[a]
    if sc["graph"] == "PFA":
        M = r1p + r1c + r1p @ r1p + r1c @ r1c
        np.fill_diagonal(M, 0.0)
    return M


def levels(sc):
    n = sc["n"]
    best = np.zeros(n)
    for y in sc["states"]:
        M = matrix(sc, y)
        if M is None:
            return None
        for t in sc["targets"]:
            B = np.zeros(n)
            B[t - 1] = 1.0 if sc["graph"] == "DRGEP" else 1e9
            for _ in range(n):
                for a in range(n):
                    for b in range(n):
                        v = B[a] * M[a, b] if sc["graph"] == "DRGEP" else min(B[a], M[a, b])
                        if v > B[b]:
                            B[b] = v
            best = np.maximum(best, B)
    return best


def near_grid(sc, lv):
    """True if a level is too close to a threshold that may be visited."""
    tied = 0
    for x in lv:
        if x > 1e6 or x == 0:
            continue
        for step in (1e-2, 1e-3, 1e-4, 1e-5, 1e-6):
            k = x / step
            if round(k) <= 10 or step == 1e-2:
                if round(k) and abs(k - round(k)) < 1e-6:
                    if abs(x - 1.0) < 1e-9:
                        tied += 1
                        break
                    return True
        if sc["upper"] and abs(x * 1e6 / sc["upper"] - 1) < 1e-6:
            return True
    return tied > 5


# ------------------------------------------------------------------ landscape
def error_units(sc, keep):
    gone = [s for s in range(1, sc["n"] + 1) if s not in keep]
    out = []
    for m in sc["land"]:
        dev = sum(m["w"][s - 1] for s in gone)
        dev += sum(v for a, b, v in m["pairs"] if a in gone and b in gone)
        fails = any(all(s in gone for s in f) for f in m["fails"])
        out.append(None if fails else dev)
    return out


def metric(sc, m, keep):
    v = error_units(sc, keep)[m]
    if v is None:
        return 0.0
    return sc["bases"][m] * (1024 + v) / 1024


def cases_of(sc):
    """[(kind, index within kind, indices of its metrics)]"""
    out, m = [], 0
    for kind, num in zip(("ign", "psr", "flame"), sc["ncases"]):
        for i in range(num):
            k = 3 if kind == "psr" else 1
            out.append((kind, i, list(range(m, m + k))))
            m += k
    return out


def n_metrics(sc):
    return sc["ncases"][0] + 3 * sc["ncases"][1] + sc["ncases"][2]


# ------------------------------------------------------------------ generation
NAME_POOL = ["A", "B2", "CX", "D", "E-1", "F", "G", "H9", "IJ", "K", "LO", "MM", "NX", "O",
             "P", "QQ", "R", "SU", "T1", "U"]


def gen_mechanism(rng, n, nrx, wide=False):
    """n counts all species; the last one is the inert padding.

    wide: rate constants over six orders of magnitude, for interactions that are weak.
    """
    rxns = []
    act = list(range(n - 1))
    for _ in range(nrx):
        kind = rng.choice(["uni", "uni", "uni", "bi", "cat", "dimer", "body"])
        r, p = [0] * n, [0] * n
        body = []
        if kind == "uni" or len(act) < 4:
            a, b = rng.sample(act, 2)
            r[a], p[b] = 1, 1
        elif kind == "bi":
            a, b, c, e = rng.sample(act, 4)
            r[a] = r[b] = p[c] = p[e] = 1
        elif kind == "cat":
            a, b, c = rng.sample(act, 3)
            r[a] = r[c] = p[b] = p[c] = 1
        elif kind == "dimer":
            a, b, c = rng.sample(act, 3)
            r[a], p[b], p[c] = 2, 1, 1
        else:
            a, b = rng.sample(act, 2)
            r[a], p[b] = 1, 1
            body = [rng.choice([0, 1, 1, 2]) for _ in range(n)]
            body[-1] = rng.choice([0, 1])
            body[act[0]] = max(body[act[0]], 1)
        k = rng.choice([1, 1, 2, 3, 7, 20, 60, 150, 700, 3000])
        if body:
            k = min(k, 150)
        elif wide and kind == "uni":
            k = rng.choice([1, 1, 2, 5, 15, 60, 3000, 40000, 1000000])
        rxns.append({"r": r, "p": p, "body": body, "k": k, "rev": rng.random() < 0.3,
                     "dup": False})
    # equal equations must be marked as duplicates
    seen = {}
    for rx in rxns:
        sig = [tuple(rx["r"]), tuple(rx["p"])]
        for s in (tuple(sig), tuple(sig[::-1])):
            seen.setdefault(s, []).append(rx)
    for group in seen.values():
        if len({id(x) for x in group}) > 1:
            for rx in group:
                rx["dup"] = True
    return rxns


def distinct_equations(rxns):
    sigs = set()
    for rx in rxns:
        for s in {(tuple(rx["r"]), tuple(rx["p"])), (tuple(rx["p"]), tuple(rx["r"]))}:
            if s in sigs:
                return False
            sigs.add(s)
    return True


def gen_condition(rng, n):
    """Attributes of a condition in integers; -1 where it is left to the default."""
    z = [0] * n
    c = {"kind": rng.choice([0, 1]), "p": rng.choice([1000, 1000, 250, 40000]),
         "end": rng.choice([-1, -1, 0, 500000, 7]), "steps": rng.choice([-1, -1, 1, 500]),
         "width": rng.choice([-1, -1, 1000, 25000]), "phi": 0,
         "ctype": rng.choice([-1, -1, 0, 1]), "fuel": z, "ox": z, "react": z}

    def amounts(sp):
        return [rng.choice([1000, 1000, 2000, 376, 13]) if s + 1 in sp else 0
                for s in range(n)]

    if rng.random() < 0.35 and n > 2:
        sp = rng.sample(range(1, n + 1), rng.choice([2, 2, 3]))
        c["phi"] = rng.choice([1000, 500, 1375])
        c["ctype"] = rng.choice([-1, 0])
        c["fuel"], c["ox"] = amounts(sp[:1]), amounts(sp[1:])
    else:
        c["react"] = amounts(rng.sample(range(1, n + 1), rng.choice([1, 1, 2])))
    return c


def case_args(sc, c, kind, i, sep="_"):
    """The condition as arguments (sep "_") or as keys of an input file (sep "-")."""
    c = sc["conds"][c]
    names = sc["names"]

    def mix(amounts):
        return {names[s]: v / 1000 for s, v in enumerate(amounts) if v}

    out = {"temperature": 1000.0 + i, "pressure": c["p"] / 1000}
    if kind == "ign":
        out["kind"] = ["constant volume", "constant pressure"][c["kind"]]
        if c["end"] >= 0:
            out["end_time"] = c["end"] / 1e6
        if c["steps"] >= 0:
            out["max_steps"] = c["steps"]
    if kind == "flame" and c["width"] >= 0:
        out["width"] = c["width"] / 1e5
    if c["phi"]:
        out.update(equivalence_ratio=c["phi"] / 1000, fuel=mix(c["fuel"]),
                   oxidizer=mix(c["ox"]))
    else:
        out["reactants"] = mix(c["react"])
    if c["ctype"] >= 0:
        out["composition_type"] = ["mole", "mass"][c["ctype"]]
    return {k.replace("_", sep): v for k, v in out.items()}


def observed_condition(sim, sc):
    p = sim.properties
    names = sc["names"]

    def num(v, scale):
        r = round(float(v) * scale)
        return r if abs(float(v) * scale - r) < 1e-6 and abs(r) < 2e9 else -9

    def mix(m):
        return [num(dict(m).get(s, 0.0), 1000) for s in names] if m else [0] * len(names)

    extra = [k for m in (p.fuel, p.oxidizer, p.reactants) for k in (m or {})
             if k not in names]
    return {"kind": {"constant volume": 0, "constant pressure": 1}.get(
                getattr(p, "kind", ""), -9),
            "p": num(p.pressure, 1000), "end": num(getattr(p, "end_time", 0), 1e6),
            "steps": num(getattr(p, "max_steps", 0), 1),
            "width": num(getattr(p, "width", 0), 1e5),
            "phi": num(p.equivalence_ratio, 1000),
            "ctype": {"mole": 0, "mass": 1}.get(p.composition_type, -9),
            "fuel": mix(p.fuel), "ox": mix(p.oxidizer), "react": mix(p.reactants),
            "extra": len(extra)}


def deepen(rng, sc, lv, prot):
    """Species above a small level get effects no limit tolerates: only thresholds that
    are a tenth, hundredth, ... of the usual ones lead to acceptable candidates."""
    low = 1e-6 if sc["graph"] == "DRGEP" else 1e-4
    free = [s for s in range(1, sc["n"] + 1) if s not in prot]
    cut = rng.choice([c for c in (1e-2, 1e-3, 1e-3, 1e-4, 1e-4, 1e-5) if c > 0.5 * low])
    inside = sorted({lv[s - 1] for s in free if cut / 10 < lv[s - 1] <= cut})
    if not inside or len(inside) == 1 and rng.random() < 0.8:
        return False
    pivot = rng.choice(inside[1:] or inside)
    light = [s for s in free if lv[s - 1] < pivot]
    if not light:
        return False
    for s in free:
        if lv[s - 1] >= pivot:
            sc["land"][rng.randrange(len(sc["land"]))]["w"][s - 1] = 5000
    for m in sc["land"]:
        m["fails"] = [f for f in m["fails"] if not set(f) & set(light)]
    return True


def searched(sc, lv, prot):
    """The species of the model with which the threshold search ends (None: it fails)."""
    def exceeds(keep):
        e = error_units(sc, keep)
        return 2 * (1024 if None in e else max(map(abs, e))) > sc["limit2"]

    last = None
    for d in range(5 if sc["graph"] == "DRGEP" else 3):
        for j in range(1, 10 ** 6):
            keep = {s for s in range(1, sc["n"] + 1) if lv[s - 1] > j * 10.0 ** (-2 - d)} | prot
            if exceeds(keep):
                break
            last = keep
            if keep == prot:
                break
        if last is not None:
            return last
    return None


def halfway(rng, sc, lv, prot, fixed_upper=False):
    """Make the threshold search end halfway, with species left to the sensitivity
    analysis, some of which it can remove."""
    free = [s for s in range(1, sc["n"] + 1) if s not in prot]
    lvs = sorted({lv[s - 1] for s in free})
    if len(free) < 3 or len(lvs) < 3:
        return False
    pivot = rng.choice(lvs[1:-1] if rng.random() < 0.75 else lvs[:-1])
    light = [0, 0, 1, 1, 2, 3, -1, -2]
    for k, m in enumerate(sc["land"]):
        m["fails"] = [f for f in m["fails"] if not all(lv[s - 1] < pivot for s in f)]
        m["pairs"] = [p for p in m["pairs"]
                      if not (lv[p[0] - 1] < pivot and lv[p[1] - 1] < pivot)]
        for s in free:
            if lv[s - 1] < pivot:
                m["w"][s - 1] = rng.choice(light)
            elif lv[s - 1] > pivot and rng.random() < 0.6:
                m["w"][s - 1] = rng.choice(light)
    stop = [s for s in free if lv[s - 1] == pivot]
    sc["land"][rng.randrange(len(sc["land"]))]["w"][rng.choice(stop) - 1] = 2000
    e = error_units(sc, {s for s in range(1, sc["n"] + 1) if lv[s - 1] >= pivot} | prot)
    if None in e:
        return False
    sc["limit2"] = max(1, 2 * max(map(abs, e)) + rng.choice([0, 1, 2, 3, 5, 8, 30, 200]))
    acc = searched(sc, lv, prot)
    if acc is None or acc == prot or len(acc - prot) < 2:
        return False
    left = sorted({min(lv[s - 1], 2.0) for s in acc - prot})
    if fixed_upper:
        pass
    elif sc["sa"] == "none":
        sc["upper"] = rng.choice([0, 0, int(1e6 * rng.choice(left)) + 7])
    else:
        sc["upper"] = 0
        if rng.random() < 0.8:
            k = rng.randrange(len(left) - (len(left) > 2 and rng.random() < 0.7))
            hi = left[k + 1] if k + 1 < len(left) else 1.5 * left[k] + 0.01
            sc["upper"] = int(1e6 * (left[k] + hi) / 2) + 3
        lim = {s for s in acc - prot if lv[s - 1] * 1e6 < sc["upper"]} or acc - prot
        if len(lim) < 2 and rng.random() < 0.8:
            return False
        if rng.random() < 0.8 and not any(
                None not in (e := error_units(sc, acc - {s}))
                and 2 * max(map(abs, e)) <= sc["limit2"] for s in lim):
            return False
    return not near_grid(sc, lv)


def gen_scenario(rng, **fix):
    """A random scenario; ``fix`` prescribes entries."""
    graph = fix.get("graph") or rng.choice(["DRG", "DRGEP", "PFA"])
    sa = fix["sa"] if "sa" in fix else rng.choice(["none", "initial", "greedy"])
    half = (graph != "none" and not {"limit2", "upper", "size"} & set(fix)
            and rng.random() < (0.85 if sa != "none" else 0.3))
    half = fix.get("half", half)
    for attempt in itertools.count():
        half = half and attempt < 2000
        n = rng.randint(4, 6 if graph == "PFA" else 8)
        if fix.get("n"):
            n = fix["n"]
        deep = graph != "none" and fix.get("deep", rng.random() < 0.1)
        rxns = gen_mechanism(rng, n, rng.randint(n - 2, n + 4), deep)
        if not distinct_equations(rxns):
            continue
        names = rng.sample(NAME_POOL, n - 1)
        names.insert(rng.randrange(n), "PAD") if False else names.append("PAD")
        sc = {"n": n, "names": names, "rxns": rxns, "graph": graph}
        # conditions
        nc = fix.get("ncases") or rng.choice(
            [[1, 0, 0], [2, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1], [1, 1, 1],
             [0, 2, 1], [2, 0, 2]])
        sc["ncases"] = nc
        nst = rng.randint(1, 2 if graph == "PFA" else 3)
        states = []
        for _ in range(nst):
            y = [rng.choice([0, 0, 1, 1, 2, 3, 5, 8]) for _ in range(n - 1)]
            y.append(S_TOTAL - sum(y))
            states.append(y)
        sc["states"] = states
        act = list(range(1, n))
        sc["targets"] = rng.sample(act, rng.choice([1, 1, 1, 2, 3]))
        sc["conds"] = [gen_condition(rng, n) for _ in range(sum(nc))]
        if rng.random() < 0.6:
            sc["conds"] = [sc["conds"][0]] * sum(nc)
        sc["mix"] = []
        for c in sc["conds"]:
            sc["mix"] += [s + 1 for s in range(n) if s + 1 not in sc["mix"]
                          and (c["fuel"][s] or c["ox"][s] or c["react"][s])]
        rest = [s for s in range(1, n + 1) if s not in sc["targets"]]
        sc["retained"] = rng.sample(rest, rng.choice([0, 0, 1]))
        safe = list(sc["retained"])
        for s in sc["mix"]:
            if s not in safe and s not in sc["targets"]:
                safe.append(s)
        sc["safe"] = safe
        sc["upper"] = 0
        sc["sa"] = sa
        if sc["sa"] != "none" and graph != "none" or rng.random() < 0.3:
            sc["upper"] = rng.choice([20000, 100000, 400000, 123457, 900001, 7001])
            pre = levels(sc) if graph != "none" else None
            if pre is not None and rng.random() < 0.7:
                lvs = sorted({min(x, 2.0) for x in pre})
                k = rng.randrange(len(lvs))
                hi = lvs[k + 1] if k + 1 < len(lvs) else 1.5 * lvs[k] + 0.01
                mid = int(1e6 * (lvs[k] + hi) / 2) + 3
                if mid > 0:
                    sc["upper"] = mid
        if "upper" in fix:
            sc["upper"] = fix["upper"]
        sc["err0"] = 0
        sc["limbo"] = []
        if graph == "none":
            sc["upper"] = 0
            sc["sa"] = fix.get("sa") or rng.choice(["initial", "greedy"])
            if rng.random() < 0.4:
                sc["limbo"] = rng.sample(range(1, n + 1), rng.randint(1, n))
        # landscape
        size = fix.get("size") or rng.choice(["small", "small", "mixed", "mixed", "large", "joint"])
        choices = {"small": [0, 0, 1, 2, 5, -3], "mixed": [0, 1, 4, 30, -20, 90, 200],
                   "large": [10, 60, 300, -150, 900, 0], "joint": [0, 0, 0, 0, 0, 3]}[size]
        # joint: (almost) only removals of two species together have an effect
        npairs = rng.choice([2, 3, 5, 8] if size == "joint" else [0, 0, 1, 2])
        land = []
        for _ in range(n_metrics(sc)):
            land.append({
                "w": [rng.choice(choices) for _ in range(n)],
                "pairs": [[*rng.sample(range(1, n + 1), 2), rng.choice([-40, -3, 2, 7, 120])]
                          for _ in range(npairs)],
                "fails": [sorted(rng.sample(range(1, n + 1), rng.choice([1, 1, 2])))
                          for _ in range(rng.choice([1, 1, 2] if fix.get("fails")
                                                 else [0, 0, 0, 0, 1]))]})
        sc["land"] = land
        sc["bases"] = [2.0 ** rng.randint(-12, 12) for _ in land]
        lv = levels(sc) if graph != "none" else np.zeros(n)
        if lv is None or (graph != "none" and near_grid(sc, lv)):
            continue
        if graph == "PFA" and max([x for x in lv if x < 1e6], default=0) > 2.6:
            continue
        if graph != "none" and rng.random() < 0.75 and len(
                {round(x, 7) for x in lv if 1e-5 < x < 1}) < (3 if n > 4 else 2):
            continue
        # a limit that matters: around the error of some candidate
        prot = set(sc["targets"]) | set(safe)
        if deep and not deepen(rng, sc, lv, prot):
            continue
        cands = []
        for x in sorted(set(lv)):
            keep = {s for s in range(1, n + 1) if lv[s - 1] > x} | prot
            e = error_units(sc, keep)
            cands.append(1024 if None in e else max(abs(v) for v in e))
        e = rng.choice(cands + [1024, 50, 200])
        sc["limit2"] = max(1, rng.choice([2 * e, 2 * e + 1, 2 * e - 1, 2 * e + 30, 100, 1000,
                                          2 * e, 2047, 2048, 2100]))
        if deep:  # between the effects of the light species and those of the heavy ones
            x = rng.choice([x for x in lv if x < 1e-2])
            e = error_units(sc, {s for s in range(1, n + 1) if lv[s - 1] > x} | prot)
            e = 100 if None in e else max(map(abs, e))
            sc["limit2"] = max(1, 2 * e + rng.choice([-1, 0, 0, 1, 30]) if e < 2000 else 400)
        if half and not deep and not halfway(rng, sc, lv, prot, "upper" in fix):
            continue
        if "limit2" in fix:
            sc["limit2"] = fix["limit2"]
        sc["phase"] = rng.choice(["", "", "gas", "burnt"])
        sc["out"] = fix.get("out") or rng.choice(["", "", "out/sub", "out/", "ABS"])
        sc["threads"] = fix.get("threads", 1)
        sc["modeldir"] = rng.choice(["", "", "mech", "ABS"])
        # also names that candidate models have
        sc["modelname"] = rng.choice(
            ["model.yaml", "model.yaml", "model.yml", f"reduced_{n}.yaml"]
            + [f"reduced_{rng.randint(1, n)}.yaml"] * 3)
        sc["floor"] = rng.choice([-1000000, 0, 800, 25000]) if nc[2] else -1000000
        sc["alg_none"] = False
        return sc


# ------------------------------------------------------------------ running
class World:
    """What the stand-ins need while a scenario runs."""
    sc = None
    log = None
    base_fail = None
    delays = None


def log_entry(entry):
    fd = os.open(World.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
    try:
        os.write(fd, (json.dumps(entry) + "\n").encode())
    finally:
        os.close(fd)


def case_index(sim):
    return int(round(sim.properties.temperature - 1000))


KIND = {"IgnitionSimulation": "ign", "PSRSimulation": "psr", "FlameSimulation": "flame"}


def kind_of(sim):
    for c in type(sim).__mro__:
        if c.__name__ in KIND:
            return KIND[c.__name__]
    return "?"


def fake_setup(self):
    self.gas = ct.Solution(self.model, self.phase_name)
    self.save_file = None
    if kind_of(self) == "ign":
        self.save_file = os.path.join(self.path, f"{self.idx}.h5")
    self.keep = [World.sc["names"].index(s) + 1 for s in self.gas.species_names]
    self.nrx = self.gas.n_reactions


def pool_size():
    """Number of worker processes (0 when run by the main process itself)."""
    if os.getpid() == World.main:
        return 0
    n = 0
    for pid in os.listdir("/proc"):
        if pid.isdigit():
            try:
                f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
            except (OSError, IndexError):
                continue
            if int(f[1]) == World.main and f[0] != "Z":
                n += 1
    return n


def _entry(self, mode):
    fl = -1
    if kind_of(self) == "flame":
        f = getattr(self, "min_flame_speed", None)
        fl = round(float(f) * 10000) if f is not None else -1
    log_entry({"mode": mode, "kind": kind_of(self), "case": case_index(self),
               "set": self.keep, "nrx": self.nrx, "floor": fl,
               "props": observed_condition(self, World.sc), "par": pool_size()})


def _metric(self):
    k, i = kind_of(self), case_index(self)
    for kind, idx, ms in cases_of(World.sc):
        if kind == k and idx == i:
            v = [metric(World.sc, m, set(self.keep)) for m in ms]
            if k == "psr":
                # a PSR that fails has no curve at all
                return np.array(v if all(v) else [0.0] * 3)
            return v[0]
    raise RuntimeError("unknown case")


def _rows(self):
    """Rows of a case: the states of the scenario, spread over its rows."""
    sc = World.sc
    k, i = kind_of(self), case_index(self)
    all_cases = [(a, b) for a, b, _ in cases_of(sc)]
    c = all_cases.index((k, i))
    n = 3 if k == "psr" else 20
    mine = [s for s in range(len(sc["states"])) if s % len(all_cases) == c]
    rows = []
    fallback = [0] * sc["n"]
    fallback[-1] = S_TOTAL
    for r in range(n):
        y = fallback
        for pos, s in enumerate(mine):
            if r == (7 * pos + sc.get("rowshift", 0)) % n:
                y = sc["states"][s]
        rows.append([T0, ct.one_atm] + [v / S_TOTAL for v in y])
    return np.array(rows)


def fake_run_case(self, *a, **k):
    _entry(self, "sample")
    if World.base_fail == (kind_of(self), case_index(self)):
        raise RuntimeError("scripted failure of the starting model")
    if self.save_file:
        with open(self.save_file, "w") as f:
            f.write("data")
    return _metric(self)


def fake_process_ign(self, skip_data=False):
    m = _metric(self)
    return m if skip_data else (m, _rows(self))


def fake_process(self, skip_data=False):
    m = self.run_case()
    return m if skip_data else (m, _rows(self))


def fake_calculate(self):
    _entry(self, "metric")
    m = _metric(self)
    if (World.base_fail == (kind_of(self), case_index(self)) and World.sc["graph"] == "none"
            and len(self.keep) == World.sc["n"]):
        return np.zeros_like(m) if kind_of(self) == "psr" else 0.0
    return m


@contextlib.contextmanager
def world(sc, log, base_fail=None):
    from pymars import simulation

    World.sc, World.log, World.base_fail, World.main = sc, log, base_fail, os.getpid()
    saved = []

    def put(cls, name, fn):
        saved.append((cls, name, cls.__dict__.get(name)))
        setattr(cls, name, fn)

    for cls in (simulation.IgnitionSimulation, simulation.FlameSimulation,
                simulation.PSRSimulation):
        put(cls, "setup_case", fake_setup)
        put(cls, "run_case", fake_run_case)
        put(cls, "calculate", fake_calculate)
        put(cls, "process_results",
            fake_process_ign if cls is simulation.IgnitionSimulation else fake_process)
    try:
        yield
    finally:
        for cls, name, old in reversed(saved):
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)


def conditions(sc):
    from pymars import sampling

    names = sc["names"]
    a, b, c = sc["ncases"]
    ign = [sampling.InputIgnition(**case_args(sc, i, "ign", i)) for i in range(a)]
    psr = [sampling.InputPSR(**case_args(sc, a + i, "psr", i)) for i in range(b)]
    fla = [sampling.InputLaminarFlame(**case_args(sc, a + b + i, "flame", i))
           for i in range(c)]
    return ign, psr, fla


def read_log(log):
    if not os.path.exists(log):
        return []
    return [json.loads(line) for line in open(log)]


def group(entries):
    """Consecutive entries of one evaluation: same model, no case twice."""
    out = []
    for e in entries:
        key = [e["kind"], e["case"]]
        if out and out[-1]["mode"] == e["mode"] and out[-1]["set"] == e["set"] \
                and key not in out[-1]["cases"]:
            g = out[-1]
        else:
            g = {"mode": e["mode"], "set": e["set"], "nrx": e["nrx"], "cases": [],
                 "floors": []}
            out.append(g)
        g["cases"].append(key)
        if e["kind"] == "flame":
            g["floors"].append(e["floor"])
    return out


def err_half_units(e):
    v = float(e) * 1024 / 100 * 2
    r = round(v) if abs(v) < 1e8 else -7
    return r if abs(v - r) < 1e-6 else -7


def file_hash(f):
    return hashlib.sha1(open(f, "rb").read()).hexdigest()


def idx_list(sc, names):
    return [sc["names"].index(s) + 1 if s in sc["names"] else 99 for s in names]


def read_model(sc, f, phase):
    """Species of the model in a file, or [-1] if it cannot be loaded."""
    try:
        g = ct.Solution(f, phase)
        return idx_list(sc, g.species_names), g.n_reactions
    except Exception:
        return [-1], -1


def run_scenario(sc, d, how="direct", base_fail=None, prepared=False):
    """Run a reduction and record what is observable.

    how: "direct" calls the reduction and the sensitivity analysis one after the other,
    "main" calls pymars.pymars.main, "cli" the command line.
    """
    from pymars import pymars as pm
    from pymars.drg import run_drg
    from pymars.drgep import run_drgep
    from pymars.pfa import run_pfa
    from pymars.sensitivity_analysis import run_sa

    names = sc["names"]
    work = os.path.join(d, "work")
    if not prepared:
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
    out = os.path.join(d, "elsewhere") if sc["out"] == "ABS" else sc["out"]
    os.makedirs(os.path.join(work, out), exist_ok=True)
    modeldir = sc.get("modeldir", "")
    if modeldir == "ABS":
        modeldir = os.path.join(d, "models")
    log = os.path.join(d, "log.ndjson")
    if os.path.exists(log):
        os.remove(log)
    old = os.getcwd()
    os.chdir(work)
    modelname = sc.get("modelname", "model.yaml")
    model = os.path.join(modeldir, modelname)
    os.makedirs(os.path.dirname(model) or ".", exist_ok=True)
    with open(model, "w") as f:
        f.write(model_text(sc))
    ck = sc.get("ck") if how == "cli" else None
    if ck:
        os.remove(model)
        basename = os.path.splitext(modelname)[0]
        model = os.path.join(modeldir, basename + ck["ext"])
        with open(model, "w") as f:
            f.write(chemkin_text(sc, not ck["thermo"]))
        sc = dict(sc, phase=sc["phase"] and "gas",
                  extra_files=[os.path.join(out, basename + ".yaml")])
        if ck["thermo"]:
            with open("therm.dat", "w") as f:
                f.write(chemkin_thermo(sc["names"]))
    decoys = ["notes.txt", "reduced_notes.yaml", os.path.join(out, "keep.dat")]
    for f in decoys:
        with open(f, "w") as fh:
            fh.write("keep me")
    fixed = [model] + decoys + (["therm.dat"] if ck and ck["thermo"] else [])
    before = {f: file_hash(f) for f in fixed}
    ign, psr, fla = conditions(sc)
    limit = sc["limit2"] * 100 / 2048
    targets = [names[s - 1] for s in sc["targets"]]
    safe = [names[s - 1] for s in sc["safe"]]
    floor = None if sc["floor"] == -1000000 else sc["floor"] / 10000
    upper = sc["upper"] / 1e6 if sc["upper"] else None
    common = dict(phase_name=sc["phase"], num_threads=sc["threads"], path=out,
                  min_flame_speed=floor)
    rec = {"sc": spec_scenario(sc), "how": how, "status": "ok", "result": [], "err2": -1,
           "hasLimbo": False, "limbo": [], "midFile": [], "midSet": [], "fileSet": [],
           "fileNrx": -1, "nrx": -1, "inPath": True, "left": [], "fixedOk": True,
           "argsOk": True, "other": 0, "h5": 0, "baseFail": base_fail is not None,
           "saved": False, "re2": -1, "fileName": "", "reused": prepared}
    args_before = json.dumps([targets, safe, [list(x) for x in (ign, psr, fla)]])
    if how != "direct":
        rec["sc"]["limbo"], rec["sc"]["err0"] = [], 0
    if how == "cli":
        rec["sc"]["upper"] = cli_upper(sc)
    result = None
    with world(sc, log, base_fail):
        try:
            with core.time_limit(sc.get("limit_s", 100)):
                if how == "direct":
                    mid = None
                    if sc["graph"] != "none":
                        fn = {"DRG": run_drg, "DRGEP": run_drgep, "PFA": run_pfa}[sc["graph"]]
                        result = mid = fn(model, ign, psr, fla, limit, targets, safe,
                                          threshold_upper=upper, **common)
                        rec["hasLimbo"] = True
                        rec["limbo"] = idx_list(sc, mid.limbo_species)
                        rec["midSet"] = idx_list(sc, mid.model.species_names)
                        rec["midFile"] = read_model(sc, mid.filename, sc["phase"])[0]
                    if sc["sa"] != "none":
                        kw = {} if sc.get("default_alg") else {"algorithm_type": sc["sa"]}
                        if mid is not None:
                            start, err, limbo = mid.filename, mid.error, mid.limbo_species
                            kw["original_model_file"] = model
                        else:
                            start, err = model, sc["err0"] * 100 / 1024
                            limbo = [names[s - 1] for s in sc["limbo"]]
                        limbo_before = list(limbo)
                        result = run_sa(start, err, ign, psr, fla, limit, targets + safe,
                                        species_limbo=limbo, **kw, **common)
                        if list(limbo) != limbo_before:
                            rec["argsOk"] = False
                elif how == "main":
                    result = pm.main(
                        model, limit, ign, psr, fla,
                        method=None if sc["graph"] == "none" else sc["graph"],
                        target_species=targets, safe_species=safe,
                        run_sensitivity_analysis=sc["sa"] != "none", upper_threshold=upper,
                        sensitivity_type=sc["sa"] if sc["sa"] != "none" else "greedy",
                        **common)
                else:
                    result = run_cli(sc, model, limit, upper, floor, out, targets)
        except (Exception, SystemExit, core.ScenarioTimeout) as e:
            rec["status"] = sims.status_of(e)
            rec["message"] = str(e)[:200]
    if args_before != json.dumps([targets, safe, [list(x) for x in (ign, psr, fla)]]):
        rec["argsOk"] = False
    entries = read_log(log)
    groups = group(entries)
    rec["props"] = uniq([[tag([[e["kind"], e["case"]]])[0], e["props"]] for e in entries])
    rec["par"] = sorted({e["par"] for e in entries})
    rec["evals"] = [{"set": g["set"], "nrx": g["nrx"], "cases": tag(g["cases"]),
                     "floors": g["floors"]} for g in groups if g["mode"] == "metric"]
    rec["samples"] = [{"set": g["set"], "cases": tag(g["cases"]), "floors": g["floors"]}
                      for g in groups if g["mode"] == "sample"]
    if result is not None and rec["status"] == "ok":
        rec["result"] = idx_list(sc, result.model.species_names)
        rec["nrx"] = result.model.n_reactions
        rec["err2"] = err_half_units(result.error)
        f = result.filename
        rec["fileName"] = f
        rec["inPath"] = os.path.realpath(os.path.dirname(f) or ".") == os.path.realpath(out or ".")
        rec["fileSet"], rec["fileNrx"] = read_model(sc, f, sc["phase"])
        rec["re2"] = reevaluate(sc, f, ign, psr, fla, floor)
    # files left behind
    known = {os.path.realpath(x) for x in fixed + DATA + ["input-reduction.yaml"]}
    known |= {os.path.realpath(x) for x in sc.get("extra_files", [])}
    if rec["fileName"]:
        known.add(os.path.realpath(rec["fileName"]))
    for root in {os.path.realpath("."), os.path.realpath(out or ".")}:
        for base, _, files in os.walk(root):
            for f in files:
                p = os.path.realpath(os.path.join(base, f))
                if p in known:
                    continue
                known.add(p)
                if f.endswith(".h5"):
                    rec["h5"] += 1
                elif f.startswith("reduced_") and base == os.path.realpath(out or "."):
                    found = read_model(sc, p, sc["phase"])[0]
                    rec["left"].append(len(found) if found != [-1] else -1)
                else:
                    rec["other"] += 1
    mine = DATA
    if base_fail is not None:  # the samples of the failing kind
        k = ["ign", "psr", "flame"].index(base_fail[0])
        mine = DATA[2 * k:2 * k + 2]
    rec["saved"] = any(os.path.exists(f) for f in mine)
    rec["fixedOk"] = all(os.path.exists(f) and file_hash(f) == h for f, h in before.items())
    os.chdir(old)
    return rec


def uniq(items):
    out = []
    for x in items:
        if x not in out:
            out.append(x)
    return out


def tag(cases):
    """cases as numbers: kind * 100 + index"""
    k = {"ign": 100, "psr": 200, "flame": 300}
    return [k.get(a, 900) + b for a, b in cases]


DATA = ["ignition_data.dat", "ignition_output.txt", "psr_data.dat", "psr_output.txt",
        "laminarflame_data.dat", "laminarflame_output.txt"]


def reevaluate(sc, f, ign, psr, fla, floor):
    """Error of the model in file f, computed from the landscape (half units)."""
    try:
        g = ct.Solution(f, sc["phase"])
        keep = {sc["names"].index(s) + 1 for s in g.species_names}
    except Exception:
        return -1
    e = error_units(sc, keep)
    return 2048 if None in e else 2 * max(abs(v) for v in e)


def cli_upper(sc):
    """Upper threshold when it comes from an input file (with a default)."""
    if not sc["upper"] and sc["graph"] != "none" and sc["sa"] != "none":
        return 100000
    return sc["upper"]


def run_cli(sc, model, limit, upper, floor, out, targets):
    """Write an input file and run the command line; returns the model written last."""
    import yaml
    from pymars import pymars as pm
    import sys

    names = sc["names"]
    inp = {"model": model, "error": limit}
    if sc["graph"] != "none":
        inp["method"] = sc["graph"]
    if targets:
        inp["targets"] = targets
    if sc["retained"]:
        inp["retained-species"] = [names[s - 1] for s in sc["retained"]]
    if sc["phase"]:
        inp["phase-name"] = sc["phase"]
    if sc["sa"] != "none":
        inp["sensitivity-analysis"] = True
        if sc["sa"] != "initial" or sum(sc["bases"]) % 2:  # the default is "initial"
            inp["sensitivity-type"] = sc["sa"]
    if upper is not None:
        inp["upper-threshold"] = upper
    if floor is not None:
        inp["min-flame-speed"] = floor
    m = 0
    for key, num in zip(("autoignition-conditions", "psr-conditions",
                         "laminar-flame-conditions"), sc["ncases"]):
        if num:
            inp[key] = []
            for i in range(num):
                inp[key].append(case_args(
                    sc, m, {"a": "ign", "p": "psr", "l": "flame"}[key[0]], i, "-"))
                m += 1
    with open("input-reduction.yaml", "w") as f:
        yaml.safe_dump(inp, f)
    argv = ["-i", "input-reduction.yaml"] if not sc["threads"] % 2 else [
        "--input", "input-reduction.yaml"]
    if sc.get("ck") and sc["ck"]["thermo"]:
        argv += ["--thermo", "therm.dat"]
    if out:
        argv += ["--path", out]
    if sc["threads"] != 1:
        argv += ["--num_threads"] + ([str(sc["threads"])] if sc["threads"] else [])
    got = []
    real = pm.main

    def spy(*a, **k):
        r = real(*a, **k)
        got.append(r)
        return r

    old = sys.argv
    sys.argv = ["pymars"] + argv
    pm.main = spy
    try:
        pm.pymars(argv)
    finally:
        sys.argv = old
        pm.main = real
    return got[-1] if got else None


def spec_scenario(sc):
    keys = ["n", "graph", "sa", "targets", "safe", "limit2", "upper", "err0", "limbo", "land",
            "rxns", "states", "ncases", "floor", "conds", "threads"]
    out = {k: sc[k] for k in keys}
    out["cpus"] = os.cpu_count()
    out["rxns"] = [{k: rx[k] for k in ("r", "p", "body", "k", "rev")} for rx in sc["rxns"]]
    return out
