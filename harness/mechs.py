"""Random reaction mechanisms with every kind of reaction, and their description.

A mechanism is a dictionary in Cantera's YAML layout.  ``describe`` turns a loaded model
into integers: parameters are looked up in a table of numbers that are told apart only if
they differ by more than a tolerance.
"""
import copy
import json

import cantera as ct

NAMES = ["CX", "A1", "B(S)", "C2H4", "D-1", "E", "F2", "G*", "HCO", "IC3", "K'", "L9", "MCH",
         "NX", "O2X", "PP", "Q", "RALD", "SU", "T", "UVW", "XCH2CHCHO", "YO", "Z2"]


def nasa(rng):
    def part():
        return [round(rng.uniform(2.5, 9), 6), rng.uniform(-1, 4) * 1e-3,
                rng.uniform(-1, 1) * 1e-6, rng.uniform(-1, 1) * 1e-10,
                rng.uniform(-1, 1) * 1e-14, rng.uniform(-9000, 30000), rng.uniform(-8, 20)]

    parts = [[float(f"{v:.8e}") for v in part()] for _ in range(2)]
    lo, mid, hi = rng.choice([(200.0, 1000.0, 6000.0), (300.0, 1391.0, 5000.0),
                              (250.0, 800.0, 3500.0), (298.15, 1391.25, 4999.5),
                              (273.125, 1000.05, 3000.0)])
    return {"model": "NASA7", "temperature-ranges": [lo, mid, hi], "data": parts}


def transport(rng, atoms):
    g = "atom" if atoms == 1 else rng.choice(["linear", "nonlinear"])
    t = {"model": "gas", "geometry": g, "well-depth": round(rng.uniform(10, 900), 3),
         "diameter": round(rng.uniform(2, 8), 3)}
    if rng.random() < 0.5:
        t["dipole"] = round(rng.uniform(0.1, 3), 3)
    if rng.random() < 0.5:
        t["polarizability"] = round(rng.uniform(0.1, 9), 3)
    if g != "atom" and rng.random() < 0.7:
        t["rotational-relaxation"] = round(rng.uniform(0.5, 280), 3)
    return t


# names that differ in case only
CASES = ["hco", "HCO", "a1", "A1", "Pp", "PP", "T", "t", "Nx", "NX"]

LONG = ["C5H9OOH-2-4", "IC4H7OOH*(X)", "NEOC5KETOX-1", "ABCDEFGHIJKLMNOP",
        "CYC5H4CHO-1,3(S)", "XYLENOXY'RADICAL", "HOCHCHCHO2-T", "MB3OXO2J(2A)",
        "BENZYLHYDROPEROX", "2METHYLFURAN5-YL", "TETRALIN-1-OO*", "Z(ZZZ)Z-Z-Z"]


def species(rng, n, pool=None):
    out = []
    names = rng.sample(pool or NAMES, n)
    for i, name in enumerate(names):
        w = [1, 1, 2, 3][i % 4] if i < n - 1 else 0
        comp = {"C": w, "H": 2 * w} if w else rng.choice([{"N": 2}, {"Ar": 1}, {"He": 1}])
        out.append({"name": name, "composition": comp, "thermo": nasa(rng),
                    "transport": transport(rng, sum(comp.values()))})
    return out


def weight(sp):
    return sp["composition"].get("C", 0)


def sides(rng, sps, frac=False):
    """Balanced reactants and products as dictionaries."""
    act = [s for s in sps if weight(s)]
    while True:
        r, p = {}, {}
        for side, k in ((r, rng.choice([1, 1, 2])), (p, rng.choice([1, 1, 2, 3]))):
            for _ in range(k):
                s = rng.choice(act)["name"]
                side[s] = side.get(s, 0) + 1
        w = {s["name"]: weight(s) for s in sps}
        wr, wp = (sum(w[s] * c for s, c in x.items()) for x in (r, p))
        if wr != wp or set(r) & set(p):
            continue
        if frac and rng.random() < 0.3:
            r = {s: c * 0.5 for s, c in r.items()}
            p = {s: c * 0.5 for s, c in p.items()}
        return r, p


def side_text(x):
    return " + ".join(s if c == 1 else f"{c:g} {s}" for s, c in x.items())


def arrh(rng, big=False):
    if rng.random() < 0.15:             # unusual magnitudes
        return {"A": float(f"{rng.uniform(1, 9.9):.7g}e{rng.choice([-9, -3, 0, 1, 28, 35])}"),
                "b": rng.choice([-9.876, 6.5432, 0.00123, -0.05]),
                "Ea": rng.choice([-7654.3, 98765.4, 0.5, 12.25, 1234.567])}
    return {"A": float(f"{rng.uniform(1, 9.9):.5g}e{rng.randint(3, 14 if not big else 22)}"),
            "b": rng.choice([0.0, 0.0, round(rng.uniform(-3, 3), 3), 0.5]),
            "Ea": rng.choice([0.0, round(rng.uniform(-2000, 40000), 2)])}


def pressures(rng, n):
    """Different pressures in atm, ascending."""
    if rng.random() < 0.5:
        return sorted(rng.sample([0.01, 0.1, 1.0, 3.5, 10.0, 100.0], n))
    lo = rng.choice([-6, -4, -3, -2])
    return sorted(float(f"{10 ** (lo + k * rng.choice([0.3, 0.8]) + rng.uniform(0, 0.2)):.6g}")
                  for k in range(n))


def efficiencies(rng, sps):
    k = rng.choice([0, 1, 1, 2, 3])
    return {s["name"]: rng.choice([0.0, 0.3, 0.7, 1.0, 2.0, 6.5])
            for s in rng.sample(sps, min(k, len(sps)))}


KINDS = ["elementary", "elementary", "elementary", "three-body", "three-body", "collider",
         "falloff", "falloff", "falloff-collider", "activated", "plog", "cheb", "orders",
         "frac", "dup", "catalyst"]


def reaction(rng, sps, kind, rp=None, form=None, arrow=None):
    """A list of reactions (two for duplicates)."""
    r, p = rp or sides(rng, sps, kind == "frac")
    arrow = arrow or rng.choice(["<=>", "<=>", "=>"])
    if kind == "orders":
        arrow = "=>"
    if kind == "frac" and arrow == "<=>" and rng.random() < 0.5:
        arrow = "=>"
    names = [s["name"] for s in sps]
    out = {"equation": None}
    m = ""
    if kind in ("three-body", "falloff", "activated"):
        m = "M" if kind == "three-body" else "(+M)"
    elif kind in ("collider", "falloff-collider"):
        c = rng.choice(names)
        while c in r or c in p:
            c = rng.choice(names)
        m = c if kind == "collider" else f"(+{c})"
    plus = f" + {m}" if m in names or m == "M" else f" {m}" if m else ""
    if kind == "catalyst":
        c = rng.choice(names)
        while c in r or c in p:
            c = rng.choice(names)
        plus = f" + {c}"
        out["type"] = "elementary"
    out["equation"] = f"{side_text(r)}{plus} {arrow} {side_text(p)}{plus}"
    if kind in ("elementary", "orders", "frac", "dup", "catalyst", "collider"):
        out["rate-constant"] = arrh(rng)
    elif kind == "three-body":
        out["type"] = "three-body"
        out["rate-constant"] = arrh(rng)
    elif kind in ("falloff", "falloff-collider", "activated"):
        out["type"] = "falloff" if kind != "activated" else "chemically-activated"
        out["low-P-rate-constant"] = arrh(rng, True)
        out["high-P-rate-constant"] = arrh(rng)
        form = form or rng.choice(["L", "T3", "T4", "T4", "S3", "S5"])
        if form[0] == "T":
            out["Troe"] = {"A": round(rng.uniform(0.1, 0.95), 4),
                           "T3": rng.choice([round(rng.uniform(20, 500), 2)] * 4 + [1e-30]),
                           "T1": rng.choice([round(rng.uniform(500, 5000), 2)] * 4 + [1e30])}
            if form == "T4":
                out["Troe"]["T2"] = round(rng.uniform(800, 7000), 2)
        if form[0] == "S":
            out["SRI"] = {"A": round(rng.uniform(0.1, 1.5), 4),
                          "B": round(rng.uniform(100, 900), 2),
                          "C": round(rng.uniform(500, 3000), 2)}
            if form == "S5":
                out["SRI"].update(D=round(rng.uniform(0.5, 2), 3),
                                  E=round(rng.uniform(-0.3, 0.3), 3))
    elif kind == "blowers":
        out["type"] = "Blowers-Masel"
        k = arrh(rng)
        out["rate-constant"] = {"A": k["A"], "b": k["b"], "Ea0": abs(k["Ea"]) + 100.0,
                                "w": round(rng.uniform(5e4, 3e5), 1)}
    elif kind == "plog":
        out["type"] = "pressure-dependent-Arrhenius"
        ps = pressures(rng, rng.choice([2, 3, 4]))
        out["rate-constants"] = [dict(P=f"{x} atm", **arrh(rng)) for x in ps]
        if rng.random() < 0.3:
            out["rate-constants"].insert(1, dict(P=f"{ps[0]} atm", **arrh(rng)))
    elif kind == "cheb":
        out["type"] = "Chebyshev"
        nt, np_ = rng.choice([(2, 2), (3, 2), (2, 3), (4, 3), (6, 4), (7, 3)])
        out["temperature-range"] = rng.choice([[290.0, 3000.0], [300.0, 2000.0],
                                               [273.15, 2500.5]])
        out["pressure-range"] = rng.choice([["9.86923e-03 atm", "98.6923 atm"],
                                            ["1.25e-04 atm", "12.5 atm"],
                                            ["1013.0 Pa", "2.5e7 Pa"]])
        out["data"] = [[round(rng.uniform(-1, 1), 4) for _ in range(np_)] for _ in range(nt)]
        out["data"][0][0] = round(rng.uniform(2, 9), 4)
    if kind in ("three-body", "falloff", "activated"):
        e = efficiencies(rng, sps)
        if e:
            out["efficiencies"] = e
        if rng.random() < 0.2 and kind == "three-body":
            out["default-efficiency"] = rng.choice([0.0, 0.0, 0.5])
            if not e:
                out["efficiencies"] = {rng.choice(names): 2.0, names[-1]: 0.5}
    if kind == "orders":
        o = {}
        for s in r:
            if rng.random() < 0.7:
                o[s] = rng.choice([0.5, 1.5, 2.0, 0.0])
        other = [s for s in names if s not in r]
        if not o or rng.random() < 0.4:
            o[rng.choice(other)] = rng.choice([0.5, 1.0, 0.25, -0.5])
            out["nonreactant-orders"] = True
        if rng.random() < 0.15:
            o[rng.choice(list(o))] = -0.5
        if any(v < 0 for v in o.values()):
            out["negative-orders"] = True
        out["orders"] = o
    if kind == "dup":
        out["duplicate"] = True
        twin = copy.deepcopy(out)
        if rng.random() < 0.7:
            twin["rate-constant"] = arrh(rng)
        return [out, twin]
    return [out]


def mechanism(rng, n=None, nrx=None, kinds=KINDS, unique=True, pool=None,
              make=None):
    """``nrx``: number of reactions (None: random), or "each" for one of each kind;
    ``make(rng, species)`` may provide them (as groups) instead."""
    while True:
        n_ = n or rng.choice([4, 5, 7, 9])
        sps = species(rng, min(n_, len(pool or NAMES)), pool)
        rxs = []
        chosen = (sorted(set(kinds)) if nrx == "each" else
                  [rng.choice(kinds)
                   for _ in range(nrx if nrx is not None else rng.randint(1, 12))])
        rxs = make(rng, sps) if make else [reaction(rng, sps, kind) for kind in chosen]
        if rng.random() < 0.5:
            rng.shuffle(rxs)
        rxs = [x for group in rxs for x in group]
        mech = {
            "units": rng.choice([
                {"length": "cm", "quantity": "mol", "activation-energy": "cal/mol"},
                {"length": "cm", "quantity": "molec", "activation-energy": "K"},
                {"length": "m", "quantity": "kmol", "activation-energy": "kJ/mol"}]),
            "phases": [{"name": "gas", "thermo": "ideal-gas", "elements": elements(sps),
                        "species": [s["name"] for s in sps], "kinetics": "gas",
                        "reactions": "all", "transport": "mixture-averaged",
                        "state": {"T": rng.choice([300.0, 650.0, 1234.5]),
                                  "P": rng.choice([101325.0, 2.5e6])}}],
            "species": sps, "reactions": rxs}
        if unique and repeated(rxs):
            continue
        if mech["units"]["activation-energy"] != "cal/mol":
            scale_energies(rxs, {"K": 0.5, "kJ/mol": 0.004}[
                mech["units"]["activation-energy"]])
        try:
            ct.Solution(yaml=text(mech))
        except ct.CanteraError:
            continue
        return mech


def shaped(rng, sps, shape):
    """A group of reactions of the given shape (see spec/Convert.tla)."""
    act = [s for s in sps if weight(s)]
    w = {s["name"]: weight(s) for s in act}
    total = shape["n2"] / 2 if not shape["ford"] else rng.choice([1, 2])
    for _ in range(200):
        r, p = {}, {}
        if total == 0.5:
            a, b = rng.sample(act, 2)
            r, p = {a["name"]: 0.5}, {b["name"]: 0.5}
        else:
            for side, k in ((r, int(total)), (p, rng.choice([1, 2, 2, 3, 4]))):
                for _ in range(k):
                    s = rng.choice(act)["name"]
                    side[s] = side.get(s, 0) + 1
        if sum(w[s] * c for s, c in r.items()) == sum(w[s] * c for s, c in p.items()) \
                and not set(r) & set(p):
            break
    else:
        return None
    arrow = "<=>" if shape["rev"] else "=>"
    try:
        x = reaction(rng, sps, shape["kind"], rp=(r, p), form=shape["form"]
                     if shape["form"] != "S" else rng.choice(["S3", "S5"]), arrow=arrow)[0]
    except IndexError:
        return None
    x.pop("efficiencies", None)
    x.pop("default-efficiency", None)
    names = [s["name"] for s in sps]
    if shape["eff"]:
        x["efficiencies"] = {s: rng.choice([0.0, 0.3, 0.7, 1.0, 2.0, 6.5])
                             for s in rng.sample(names, rng.randint(1, len(names)))}
        if shape["kind"] == "three-body" and rng.random() < 0.4:
            x["default-efficiency"] = rng.choice([0.0, 0.5, 2.0])
        x["efficiencies"][rng.choice(names)] = 2.5
    if shape["rows"]:
        rows = []
        while len(rows) < shape["rows"]:
            rows += reaction(rng, sps, "plog", rp=(r, p))[0]["rate-constants"]
        x["rate-constants"] = sorted(rows[:shape["rows"]],
                                     key=lambda k: float(k["P"].split()[0]))
    if shape["ford"]:
        n = shape["n2"] / 2
        c = rng.sample(list(r), rng.randint(1, len(r)))
        if rng.random() < 0.4:
            # (an order in the explicit collider is beyond Cantera's reader)
            both = x["equation"].replace("+", " ").split()
            c.append(rng.choice([s for s in names if s not in r and both.count(s) < 2
                                 and f"(+{s})" not in x["equation"]]))
            x["nonreactant-orders"] = True
        rest = sum(v for s, v in r.items() if s not in c)
        parts = [rng.choice([0.25, 0.5, 1.0, -0.5, 1.5]) for _ in c[1:]]
        parts.append(n - rest - sum(parts))
        if any(v < 0 for v in parts):
            x["negative-orders"] = True
        x["orders"] = dict(zip(c, parts))
    if not shape["dup"]:
        return [x]
    x["duplicate"] = True
    twin = copy.deepcopy(x)
    scale_rates(rng, twin)
    return [x, twin]


def scale_rates(rng, x):
    if isinstance(x, list):
        for y in x:
            scale_rates(rng, y)
    elif isinstance(x, dict):
        if "Ea" in x:
            x["A"] *= rng.choice([0.25, 3.0])
            x["b"] += 0.5
            x["Ea"] += 1000.0
        for y in x.values():
            scale_rates(rng, y)


def scale_energies(x, f):
    if isinstance(x, list):
        for y in x:
            scale_energies(y, f)
    elif isinstance(x, dict):
        for k in ("Ea", "Ea0", "w"):
            if k in x:
                x[k] = round(x[k] * f, 6)
        for y in x.values():
            scale_energies(y, f)


def elements(sps):
    out = []
    for s in sps:
        for e in s["composition"]:
            if e not in out:
                out.append(e)
    return out


def repeated(rxs):
    """Equal equations other than intended duplicates."""
    sigs = {}
    for x in rxs:
        l, r = x["equation"].replace("<=>", "=>").split("=>")
        key = frozenset((frozenset(l.replace("+", " ").split()),
                         frozenset(r.replace("+", " ").split())))
        key = frozenset(frozenset(z for z in side if z not in ("M", "(M)", "(", ")")
                                  and not z.startswith("(")) for side in key)
        sigs.setdefault(key, []).append(x)
    return any(len(v) > 1 and not (len(v) == 2 and all(y.get("duplicate") for y in v)
                                   and v[0]["equation"] == v[1]["equation"])
               for v in sigs.values())


def text(mech):
    return json.dumps(mech, indent=1)


# ---------------------------------------------------------------- description
class Table:
    """Numbers (or tuples of numbers) up to a relative tolerance, as small integers."""

    def __init__(self, tol):
        self.tol = tol
        self.known = []

    def close(self, a, b):
        if isinstance(a, (list, tuple)):
            return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
                self.close(x, y) for x, y in zip(a, b))
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return a == b
        return a == b or abs(a - b) <= self.tol * max(abs(a), abs(b))

    def __call__(self, v):
        for k, w in enumerate(self.known):
            if self.close(v, w):
                return k + 1
        self.known.append(v)
        return len(self.known)


def arrh_of(rate):
    return (float(rate.pre_exponential_factor), float(rate.temperature_exponent),
            float(rate.activation_energy))


def rate_of(rx):
    """All parameters of a rate as a nested tuple."""
    rate = rx.rate
    if hasattr(rate, "low_rate"):
        co = tuple(float(x) for x in rate.falloff_coeffs)
        if rx.reaction_type.endswith("SRI") and len(co) == 3:
            co += (1.0, 0.0)
        return (rx.reaction_type, arrh_of(rate.low_rate), arrh_of(rate.high_rate), co)
    if hasattr(rate, "rates"):
        return (rx.reaction_type, tuple((float(p), arrh_of(r)) for p, r in rate.rates))
    if hasattr(rate, "data"):
        return (rx.reaction_type, tuple(float(x) for x in rate.temperature_range),
                tuple(float(x) for x in rate.pressure_range),
                tuple(tuple(float(x) for x in row) for row in rate.data))
    extra = tuple(float(getattr(rate, a)) for a in ("bond_energy",) if hasattr(rate, a))
    return (type(rate).__name__, arrh_of(rate), extra)


def transport_of(sp):
    t = sp.transport
    if t is None:
        return None
    return (t.geometry, float(t.diameter), float(t.well_depth), float(t.dipole),
            float(t.polarizability), float(t.rotational_relaxation),
            float(t.acentric_factor), float(t.dispersion_coefficient),
            float(t.quadrupole_polarizability))


def thermo_of(sp):
    t = sp.thermo
    if isinstance(t, ct.NasaPoly2) and list(t.coeffs[1:8]) == list(t.coeffs[8:15]):
        # one polynomial: it does not matter where the ranges meet
        return ("single", float(t.min_temp), float(t.max_temp),
                tuple(float(c) for c in t.coeffs[1:8]))
    return (type(t).__name__, float(t.min_temp), float(t.max_temp),
            tuple(float(c) for c in t.coeffs))


def micro(v):
    return int(round(float(v) * 1000000))


def milli(v):
    return int(round(float(v) * 1000))


def describe(gas, names, table):
    """``names``: the species of the original model; others get number 0."""
    idx = {s: k + 1 for k, s in enumerate(names)}

    def pairs(d):
        return sorted([idx.get(s, 0), micro(v)] for s, v in d.items())

    els = sorted({e for s in gas.species() for e in s.composition})
    rxs = []
    for r in gas.reactions():
        tb = r.third_body
        rxs.append({"r": pairs(r.reactants), "p": pairs(r.products), "ord": pairs(r.orders),
                    "rev": bool(r.reversible), "dup": bool(r.duplicate),
                    "rate": table(rate_of(r)), "tb": tb is not None,
                    "ff": hasattr(r.rate, "low_rate"),
                    "deff": micro(tb.default_efficiency) if tb is not None else 0,
                    "eff": pairs(tb.efficiencies) if tb is not None else []})
    return {"species": [idx.get(s, 0) for s in gas.species_names],
            "comp": [table((s.name, tuple(sorted(s.composition.items()))))
                     for s in gas.species()],
            "thermo": [table(thermo_of(s)) for s in gas.species()],
            "tran": [table(transport_of(s)) for s in gas.species()],
            "els": els, "rx": rxs, "model": str(gas.transport_model),
            "T": milli(gas.T), "P": int(round(gas.P))}
