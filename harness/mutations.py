"""Changes of a mechanism: every one replaces, adds or removes a single thing.

``apply(mech, rng, kind)`` returns a changed copy, or None if there is nothing to change.
Amounts are well above roundoff (at least 0.1 percent of a value).
"""
import copy

import mechs


def bump(rng, v):
    """A clearly different value."""
    f = rng.choice([1.001, 0.999, 1.01, 0.5, 2.0, 1.1, -1.0 if v else 1.0])
    if v == 0:
        return rng.choice([1.0, 0.01, -0.5])
    return v * f if abs(v * f - v) >= 1e-3 * abs(v) else v * 2


def positive(rng, v):
    w = bump(rng, v)
    return abs(w) if abs(w) != v else 2 * v


def unused(mech):
    """Species in no reaction."""
    text = " ".join(r["equation"] for r in mech["reactions"])
    words = set(text.replace("(+", "+ ").replace(")", " ").split()) | set(
        text.replace("(+", "+ ").split())
    eff = {s for r in mech["reactions"] for s in
           list(r.get("efficiencies", {})) + list(r.get("orders", {}))}
    return [s for s in mech["species"] if s["name"] not in words | eff
            and s["name"] not in text]


def used_in(mech, need):
    return [r for r in mech["reactions"] if need(r)]


def drop_species(mech, sp):
    mech["species"].remove(sp)
    mech["phases"][0]["species"].remove(sp["name"])


# ---- species -----------------------------------------------------------------------
def species_add(m, rng):
    sp = copy.deepcopy(rng.choice(m["species"]))
    sp["name"] = rng.choice([n for n in ("AAA", "ZZZ", "MMM")])
    m["species"].append(sp)
    m["phases"][0]["species"].append(sp["name"])
    return True


def species_remove(m, rng):
    c = unused(m)
    if not c or len(m["species"]) < 3:
        return False
    drop_species(m, rng.choice(c))
    return True


def species_rename(m, rng):
    c = unused(m)
    if not c:
        return False
    sp = rng.choice(c)
    m["phases"][0]["species"] = [sp["name"] + "9" if x == sp["name"] else x
                                 for x in m["phases"][0]["species"]]
    sp["name"] += "9"
    return True


def composition(m, rng):
    c = [s for s in unused(m) if sum(s["composition"].values()) > 1]
    if not c:
        return False
    comp = rng.choice(c)["composition"]
    e = rng.choice(list(comp))
    how = rng.choice(["more", "other", "extra"])
    if how == "more":
        comp[e] += 1
    elif how == "other":
        x = "S" if e != "S" else "O"
        comp[x] = comp.pop(e)
    else:
        x = rng.choice([z for z in ("C", "H", "O", "S") if z not in comp])
        comp[x] = 1
    m["phases"][0]["elements"] = mechs.elements(m["species"])
    return True


def nasa_of(m, rng):
    return rng.choice(m["species"])["thermo"]


def thermo_coefficient(k):
    def f(m, rng):
        t = nasa_of(m, rng)
        row = rng.choice(t["data"])
        # the change of cp, h or s must be visible: T^k times the change
        T = 1500.0
        add = rng.choice([-1, 1]) * rng.choice([0.01, 0.05, 0.5])
        if k < 5:
            row[k] += add / T ** k
        elif k == 5:
            row[k] += rng.choice([-1, 1]) * (200 + abs(row[k]) * 0.05)
        else:
            row[k] += rng.choice([-1, 1]) * (0.5 + abs(row[k]) * 0.05)
        return True
    return f


def thermo_mid(m, rng):
    t = nasa_of(m, rng)
    if len(t["temperature-ranges"]) < 3 or t["data"][0] == t["data"][1]:
        return False
    t["temperature-ranges"][1] *= rng.choice([1.3, 0.8])
    return True


def thermo_min(m, rng):
    nasa_of(m, rng)["temperature-ranges"][0] *= rng.choice([0.8, 1.1, 1.005])
    return True


def thermo_max(m, rng):
    nasa_of(m, rng)["temperature-ranges"][-1] *= rng.choice([0.8, 1.1, 0.997])
    return True


def transport_value(key):
    def f(m, rng):
        c = [s for s in m["species"] if "transport" in s]
        if key == "rotational-relaxation":
            c = [s for s in c if s["transport"]["geometry"] != "atom"]
        if not c:
            return False
        t = rng.choice(c)["transport"]
        t[key] = positive(rng, t.get(key, 0.0))
        return True
    return f


def transport_geometry(m, rng):
    c = [s for s in m["species"] if s.get("transport", {}).get("geometry", "atom")
         != "atom"]
    if not c:
        return False
    t = rng.choice(c)["transport"]
    t["geometry"] = "linear" if t["geometry"] == "nonlinear" else "nonlinear"
    return True


# ---- reactions ---------------------------------------------------------------------
def some(m, rng, need):
    c = used_in(m, need)
    return rng.choice(c) if c else None


def lone(r):
    return not r.get("duplicate")


def rx_add(m, rng):
    m["reactions"] += mechs.reaction(rng, m["species"], rng.choice(mechs.KINDS))
    return True


def rx_remove(m, rng):
    r = some(m, rng, lone)
    if not r:
        return False
    m["reactions"].remove(r)
    return True


def rx_species(m, rng):
    """Another product (or reactant) of the same composition."""
    w = {}
    for s in m["species"]:
        w.setdefault(tuple(sorted(s["composition"].items())), []).append(s["name"])
    c = []
    for r in m["reactions"]:
        if not lone(r) or "orders" in r:
            continue
        arrow = "<=>" if "<=>" in r["equation"] else "=>"
        for k in (0, 1):
            words = r["equation"].split(arrow)[k].split()
            for j, x in enumerate(words):
                for group in w.values():
                    if x in group:
                        for y in group:
                            if y not in r["equation"].replace("(+", " ").replace(
                                    ")", " ").split() and y not in r["equation"].split():
                                c.append((r, arrow, k, j, y))
    if not c:
        return False
    r, arrow, k, j, y = rng.choice(c)
    parts = r["equation"].split(arrow)
    words = parts[k].split()
    words[j] = y
    parts[k] = " ".join(words)
    r["equation"] = f" {arrow} ".join(p.strip() for p in parts)
    return True


def rx_scale(m, rng):
    """All coefficients doubled."""
    r = some(m, rng, lambda r: lone(r) and "M" not in r["equation"].split()
             and "(+" not in r["equation"] and "orders" not in r
             and not any(c.isdigit() and x.replace(".", "").isdigit()
                         for x in r["equation"].split() for c in x)
             and r.get("type") != "elementary")
    if not r:
        return False
    arrow = "<=>" if "<=>" in r["equation"] else "=>"
    r["equation"] = f" {arrow} ".join(
        " + ".join("2 " + x.strip() for x in side.split(" + "))
        for side in r["equation"].split(arrow))
    r["type"] = r.get("type", "elementary")
    return True


def rx_reversible(m, rng):
    r = some(m, rng, lambda r: lone(r) and "orders" not in r)
    if not r:
        return False
    if "<=>" in r["equation"]:
        r["equation"] = r["equation"].replace("<=>", "=>")
    else:
        r["equation"] = r["equation"].replace("=>", "<=>")
    return True


def rx_turn(m, rng):
    """Reactants and products exchanged."""
    r = some(m, rng, lambda r: lone(r) and "orders" not in r)
    if not r:
        return False
    arrow = "<=>" if "<=>" in r["equation"] else "=>"
    a, b = r["equation"].split(arrow)
    r["equation"] = f"{b.strip()} {arrow} {a.strip()}"
    return True


def rx_order(m, rng):
    r = some(m, rng, lambda r: "orders" in r)
    if not r:
        r = some(m, rng, lambda r: lone(r) and r.get("type") is None
                 and "<=>" not in r["equation"])
        if not r:
            return False
        r["orders"] = {r["equation"].split()[0]: 1.5}
        if r["equation"].split()[0] not in [s["name"] for s in m["species"]]:
            return False
        return True
    s = rng.choice(list(r["orders"]))
    if rng.random() < 0.3 and len(r["orders"]) > 1:
        del r["orders"][s]
    else:
        r["orders"][s] += rng.choice([0.125, 0.01, 1.0])
    return True


def arrhenius(where, key):
    def f(m, rng):
        r = some(m, rng, lambda r: where in r and r.get("type") != "Blowers-Masel")
        if not r:
            return False
        k = r[where]
        if isinstance(k, list):
            k = rng.choice(k)
        k[key] = positive(rng, k[key]) if key == "A" else bump(rng, k[key])
        return True
    return f


def blowers(key):
    def f(m, rng):
        r = some(m, rng, lambda r: r.get("type") == "Blowers-Masel")
        if not r:
            return False
        r["rate-constant"][key] = positive(rng, r["rate-constant"][key])
        return True
    return f


def plog_pressure(m, rng):
    r = some(m, rng, lambda r: "rate-constants" in r)
    if not r:
        return False
    k = rng.choice(r["rate-constants"])
    f = rng.choice([1.37, 1.05, 1.003, 0.98])
    k["P"] = f"{float(k['P'].split()[0]) * f} atm"
    return True


def plog_row(m, rng):
    r = some(m, rng, lambda r: "rate-constants" in r)
    if not r:
        return False
    rows = r["rate-constants"]
    if len(rows) > 2 and rng.random() < 0.5:
        rows.remove(rng.choice(rows))
    else:
        rows.append(dict(mechs.arrh(rng), P="250.0 atm"))
    return True


def falloff_value(form):
    def f(m, rng):
        r = some(m, rng, lambda r: form in r)
        if not r:
            return False
        # (1e-30 and 1e30 switch a term off: changes of them have no effect)
        k = rng.choice([k for k, v in r[form].items() if not v or 1e-20 < abs(v) < 1e20])
        r[form][k] = positive(rng, r[form][k])
        return True
    return f


def falloff_form(m, rng):
    r = some(m, rng, lambda r: "low-P-rate-constant" in r)
    if not r:
        return False
    had = [x for x in ("Troe", "SRI") if x in r]
    if had:
        x = r.pop(had[0])
        if rng.random() < 0.6:
            if had[0] == "Troe":
                r["SRI"] = {"A": 0.5, "B": 300.0, "C": 1000.0}
            else:
                r["Troe"] = {"A": 0.5, "T3": 100.0, "T1": 1000.0}
    else:
        r["Troe"] = {"A": 0.5, "T3": 100.0, "T1": 1000.0}
    return True


def troe_last(m, rng):
    r = some(m, rng, lambda r: "Troe" in r)
    if not r:
        return False
    if "T2" in r["Troe"]:
        del r["Troe"]["T2"]
    else:
        r["Troe"]["T2"] = 2500.0
    return True


def falloff_activated(m, rng):
    r = some(m, rng, lambda r: "low-P-rate-constant" in r)
    if not r:
        return False
    r["type"] = "falloff" if r["type"] != "falloff" else "chemically-activated"
    return True


def cheb_data(m, rng):
    r = some(m, rng, lambda r: "data" in r)
    if not r:
        return False
    row = rng.choice(r["data"])
    k = rng.randrange(len(row))
    row[k] = bump(rng, row[k]) if abs(row[k]) > 0.05 else row[k] + 0.1
    return True


def cheb_shape(m, rng):
    r = some(m, rng, lambda r: "data" in r)
    if not r:
        return False
    if rng.random() < 0.5:
        r["data"].append([0.25] * len(r["data"][0]))
    else:
        r["data"] = [row + [0.25] for row in r["data"]]
    return True


def cheb_range(which):
    def f(m, rng):
        r = some(m, rng, lambda r: "data" in r)
        if not r:
            return False
        k = rng.randrange(2)
        v = r[which][k]
        f = rng.choice([[0.7, 1.3], [0.95, 1.05], [0.995, 1.005]])[k]
        r[which][k] = (f"{float(v.split()[0]) * f} {v.split()[1]}" if isinstance(v, str)
                       else v * f)
        return True
    return f


def cheb_shift(m, rng):
    """The same width (or ratio) at another place."""
    r = some(m, rng, lambda r: "data" in r)
    if not r:
        return False
    if rng.random() < 0.5:
        r["temperature-range"] = [x + 100.0 for x in r["temperature-range"]]
    else:
        r["pressure-range"] = [f"{float(x.split()[0]) * 1.5} {x.split()[1]}"
                               for x in r["pressure-range"]]
    return True


# ---- exchanges: everything is still there, but elsewhere ------------------------------
def far(a, b):
    return abs(a - b) > 1e-3 * max(abs(a), abs(b))


def far_rates(a, b):
    return any(far(a[k], b[k]) for k in ("A", "b", "Ea"))


def exchange(rng, x, keys, differ):
    """Exchange two entries of a list or dictionary that differ clearly."""
    keys = list(keys)
    c = [(i, j) for n, i in enumerate(keys) for j in keys[:n] if differ(x[i], x[j])]
    if not c:
        return False
    i, j = rng.choice(c)
    x[i], x[j] = x[j], x[i]
    return True


def swap_entry(field, differ=far):
    def f(m, rng):
        c = [r for r in m["reactions"] if len(r.get(field, ())) > 1]
        rng.shuffle(c)
        return any(exchange(rng, r[field], r[field], differ) for r in c)
    return f


def swap_plog(m, rng):
    r = some(m, rng, lambda r: "rate-constants" in r
             and len({k["P"] for k in r["rate-constants"]}) == len(r["rate-constants"]))
    if not r:
        return False
    rates = [{k: v for k, v in x.items() if k != "P"} for x in r["rate-constants"]]
    if not exchange(rng, rates, range(len(rates)), far_rates):
        return False
    for x, k in zip(r["rate-constants"], rates):
        x.update(k)
    return True


def swap_cheb(m, rng):
    r = some(m, rng, lambda r: "data" in r)
    if not r:
        return False
    how = rng.randrange(3)
    d = r["data"]
    if how == 0:
        return exchange(rng, d, range(len(d)), lambda a, b: any(
            abs(x - y) > 0.01 for x, y in zip(a, b)))
    if how == 1:
        return exchange(rng, rng.choice(d), range(len(d[0])), lambda a, b: abs(a - b) > 0.01)
    flat = sorted((x for row in d for x in row), reverse=True)
    n = len(d[0])
    new = [flat[k * n:(k + 1) * n] for k in range(len(d))]
    if not any(abs(x - y) > 0.01 for a, b in zip(d, new) for x, y in zip(a, b)):
        return False
    r["data"] = new
    return True


def swap_rates(m, rng):
    c = [r for r in m["reactions"] if lone(r) and "rate-constant" in r
         and "A" in r["rate-constant"] and "b" in r["rate-constant"]
         and r.get("type") != "Blowers-Masel"]
    c = [(a, b) for n, a in enumerate(c) for b in c[:n]
         if far_rates(a["rate-constant"], b["rate-constant"])]
    if not c:
        return False
    a, b = rng.choice(c)
    a["rate-constant"], b["rate-constant"] = b["rate-constant"], a["rate-constant"]
    return True


def swap_limits(m, rng):
    r = some(m, rng, lambda r: "low-P-rate-constant" in r and far_rates(
        r["low-P-rate-constant"], r["high-P-rate-constant"]))
    if not r:
        return False
    a, b = "low-P-rate-constant", "high-P-rate-constant"
    r[a], r[b] = r[b], r[a]
    return True


def swap_species(field, differ):
    def f(m, rng):
        sps = m["species"]
        c = [(a, b) for n, a in enumerate(sps) for b in sps[:n]
             if field in a and field in b and differ(a[field], b[field])]
        if not c:
            return False
        a, b = rng.choice(c)
        a[field], b[field] = b[field], a[field]
        return True
    return f


def far_thermo(a, b):
    return (a["temperature-ranges"] == b["temperature-ranges"]
            and any(abs(x[5] - y[5]) > 300 and abs(x[6] - y[6]) > 0.5
                    for x, y in zip(a["data"], b["data"])))


def far_transport(a, b):
    return a["geometry"] == b["geometry"] and far(a["diameter"], b["diameter"])


def swap_ranges(m, rng):
    c = [s["thermo"] for s in m["species"] if len(s["thermo"]["data"]) == 2
         and abs(s["thermo"]["data"][0][5] - s["thermo"]["data"][1][5]) > 300]
    if not c:
        return False
    rng.choice(c)["data"].reverse()
    return True


def has_m(r):
    return "M" in r["equation"].split() or "(+M)" in r["equation"]


def eff_value(m, rng):
    r = some(m, rng, lambda r: r.get("efficiencies"))
    if not r:
        return False
    s = rng.choice(list(r["efficiencies"]))
    r["efficiencies"][s] = positive(rng, r["efficiencies"][s])
    return True


def eff_add(m, rng):
    r = some(m, rng, lambda r: has_m(r) and len(r.get("efficiencies", {}))
             < len(m["species"]))
    if not r:
        return False
    e = r.setdefault("efficiencies", {})
    e[rng.choice([s["name"] for s in m["species"] if s["name"] not in e])] = 3.25
    return True


def eff_remove(m, rng):
    r = some(m, rng, lambda r: any(v != r.get("default-efficiency", 1.0)
                                   for v in r.get("efficiencies", {}).values()))
    if not r:
        return False
    d = r.get("default-efficiency", 1.0)
    e = r["efficiencies"]
    del e[rng.choice([s for s in e if e[s] != d])]
    if not e:
        del r["efficiencies"]
    return True


def eff_default(m, rng):
    r = some(m, rng, lambda r: has_m(r) and "(+M)" not in r["equation"]
             and len(r.get("efficiencies", {})) < len(m["species"]))
    if not r:
        return False
    r["default-efficiency"] = 0.25 if r.get("default-efficiency", 1.0) != 0.25 else 0.75
    r.setdefault("efficiencies", {m["species"][0]["name"]: 1.0})
    return True


def third_body(m, rng):
    """A third body added or taken away, or made explicit."""
    names = [s["name"] for s in m["species"]]
    r = some(m, rng, lambda r: lone(r) and "orders" not in r and (
        r.get("type") == "three-body" or ("type" not in r and "data" not in r)))
    if not r:
        return False
    arrow = "<=>" if "<=>" in r["equation"] else "=>"
    a, b = (x.strip() for x in r["equation"].split(arrow))
    if "M" in r["equation"].split():
        new = rng.choice(["", ""] + names)
        if new and new in r["equation"].split():
            return False
        a, b = (x[:-4] + (f" + {new}" if new else "") for x in (a, b))
        for k in ("type", "efficiencies", "default-efficiency"):
            r.pop(k, None)
    else:
        if any(x in names and a.split().count(x) and b.split().count(x) for x in names):
            return False
        a, b = a + " + M", b + " + M"
        r["type"] = "three-body"
    r["equation"] = f"{a} {arrow} {b}"
    return True


def collider(m, rng):
    """Another explicit collider."""
    names = [s["name"] for s in m["species"]]
    c = []
    for r in m["reactions"]:
        if has_m(r) or not lone(r) or "orders" in r:
            continue
        arrow = "<=>" if "<=>" in r["equation"] else "=>"
        a, b = (x.strip() for x in r["equation"].split(arrow))
        x = a.split()[-1]
        if x != b.split()[-1]:
            continue
        for y in names:
            z = f"(+{y})" if x.startswith("(+") else y
            if y not in r["equation"].split() and z != x:
                c.append((r, a[:-len(x)] + z, b[:-len(x)] + z, arrow))
    if not c:
        return False
    r, a, b, arrow = rng.choice(c)
    r["equation"] = f"{a} {arrow} {b}"
    return True


def catalyst_type(m, rng):
    """An elementary reaction with a species on both sides, or a three-body reaction."""
    r = some(m, rng, lambda r: r.get("type") == "elementary" and lone(r)
             and r["equation"].split()[-1] in r["equation"].replace("=>", " ").split()[:-1])
    if not r:
        return False
    del r["type"]
    return True


CHANGES = {
    "species-add": species_add, "species-remove": species_remove,
    "species-rename": species_rename, "composition": composition,
    **{f"thermo-a{k + 1}": thermo_coefficient(k) for k in range(7)},
    "thermo-mid": thermo_mid, "thermo-min": thermo_min, "thermo-max": thermo_max,
    **{f"transport-{k}": transport_value(k) for k in (
        "diameter", "well-depth", "dipole", "polarizability", "rotational-relaxation",
        "acentric-factor", "dispersion-coefficient", "quadrupole-polarizability")},
    "transport-geometry": transport_geometry,
    "reaction-add": rx_add, "reaction-remove": rx_remove, "reaction-species": rx_species,
    "reaction-scale": rx_scale, "reaction-reversible": rx_reversible,
    "reaction-turn": rx_turn, "reaction-order": rx_order,
    **{f"{n}-{k}": arrhenius(w, k) for n, w in (
        ("rate", "rate-constant"), ("low", "low-P-rate-constant"),
        ("high", "high-P-rate-constant"), ("plog", "rate-constants"))
       for k in ("A", "b", "Ea")},
    "plog-pressure": plog_pressure, "plog-row": plog_row,
    "troe-value": falloff_value("Troe"), "sri-value": falloff_value("SRI"),
    "troe-last": troe_last, "falloff-form": falloff_form,
    "falloff-activated": falloff_activated,
    "cheb-data": cheb_data, "cheb-shape": cheb_shape,
    "cheb-temperature": cheb_range("temperature-range"),
    "cheb-pressure": cheb_range("pressure-range"),
    "eff-value": eff_value, "eff-add": eff_add, "eff-remove": eff_remove,
    "eff-default": eff_default, "third-body": third_body, "collider": collider,
    "catalyst-type": catalyst_type, "blowers-energy": blowers("w"),
    "blowers-A": blowers("A"), "cheb-shift": cheb_shift,
    "swap-eff": swap_entry("efficiencies"), "swap-order": swap_entry("orders"),
    "swap-troe": swap_entry("Troe"), "swap-sri": swap_entry("SRI"),
    "swap-plog": swap_plog, "swap-cheb": swap_cheb, "swap-rates": swap_rates,
    "swap-limits": swap_limits, "swap-thermo": swap_species("thermo", far_thermo),
    "swap-transport": swap_species("transport", far_transport), "swap-ranges": swap_ranges,
}


def apply(mech, rng, kind):
    m = copy.deepcopy(mech)
    return m if CHANGES[kind](m, rng) else None
