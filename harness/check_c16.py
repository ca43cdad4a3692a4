"""C16: converting to Chemkin and back preserves the model."""
import contextlib
import io
import math
import os
import random

import cantera as ct

import core
import mechs

LIMIT = 10 ** 9


def refused_thermo(rng, mech):
    for s in mech["species"]:
        if rng.random() < 0.5:
            s["thermo"] = rng.choice([
                {"model": "constant-cp", "T0": 300.0, "h0": 1e7, "s0": 1e5, "cp0": 3e4},
                {"model": "NASA9", "temperature-ranges": [200.0, 1000.0, 6000.0],
                 "data": [[1e3, 1e1, 2.5, 1e-3, 0.0, 0.0, 0.0, 1e3, 3.0]] * 2},
                {"model": "Shomate", "temperature-ranges": [298.0, 1300.0, 6000.0],
                 "data": [[25.0, 6.0, 4.0, -2.0, -0.1, -118.0, 227.0],
                          [35.0, 1.0, 0.1, 0.1, -0.1, -128.0, 231.0]]}])
    return any(s["thermo"]["model"] != "NASA7" for s in mech["species"])


def vary_species(rng, mech):
    """Other thermo layouts, compositions and transport data."""
    how = rng.choice(["", "", "single", "elements", "no transport", "some transport",
                      "many atoms"])
    sps = mech["species"]
    if how == "single":
        for s in sps:
            t = s["thermo"]
            if rng.random() < 0.7:
                t["temperature-ranges"] = t["temperature-ranges"][::2]
                t["data"] = t["data"][:1]
    elif how == "elements":
        for s in sps:
            c = s["composition"]
            w = c.get("C", 0)
            if w:
                c.update({e: w for e in rng.sample(["O", "N", "S", "Ar", "Si", "F"], 3)[:3]})
                if rng.random() < 0.5:
                    c["Cl"] = w
        comp = [s["composition"] for s in sps if s["composition"].get("C")][0]
        for s in sps:  # the same elements for all, so that reactions balance
            w = s["composition"].get("C", 0)
            if w:
                s["composition"] = {e: (2 * w if e == "H" else w) for e in comp}
    elif how == "many atoms":
        for s in sps:
            s["composition"] = {e: n * 57 for e, n in s["composition"].items()}
            if s["transport"]["geometry"] == "atom":
                s["transport"]["geometry"] = "nonlinear"
    elif "transport" in how:
        mech["phases"][0].pop("transport")
        for s in sps:
            if how == "no transport" or rng.random() < 0.4:
                s.pop("transport")
    mech["phases"][0]["elements"] = els = mechs.elements(sps)
    rng.shuffle(els)
    return how


def digits(a, b):
    """Two numbers as integers, on the scale of the first."""
    if a == b:
        return [0, 0]
    if not math.isfinite(b) or a == 0:
        return [0, 2 * LIMIT]
    k = LIMIT / 10 / 10 ** math.floor(math.log10(abs(a)))
    return [round(a * k), max(-2 * LIMIT, min(2 * LIMIT, round(b * k)))]


def rates(rng, a, b):
    out = set()
    for T, P in ((350.0, 3e4), (900.0, 101325.0), (1395.0, 2e6), (2400.0, 1e5),
                 (1100.0, 5e7)):
        x = [rng.random() ** 3 for _ in a.species_names]
        a.TPX = T, P, x
        b.TPX = T, P, dict(zip(a.species_names, a.X))
        for f in ("forward_rates_of_progress", "reverse_rates_of_progress"):
            for u, v in zip(getattr(a, f).tolist(), getattr(b, f).tolist()):
                if math.isfinite(u) and (u == 0 or 1e-200 < abs(u) < 1e200):
                    out.add(tuple(digits(u, v)))
    return sorted(out)


def one(i, item, d):
    from pymars.tools import convert

    text, supported, seed, kind = item
    rng = random.Random(seed)
    os.makedirs("out")
    os.makedirs("back")
    if text.endswith(".yaml"):
        ct.Solution(text).write_yaml("m.yaml")
    else:
        with open("m.yaml", "w") as f:
            f.write(text)
    a = ct.Solution("m.yaml")
    table = mechs.Table(5e-6)
    names = a.species_names
    have = [s.transport is not None for s in a.species()]
    rec = {"kind": kind, "supported": supported, "transport": all(have),
           "outcome": "ok", "els": [a.element_names, []], "rates": [],
           "a": mechs.describe(a, names, table),
           "equations": a.reaction_equations()}
    rec["b"] = rec["a"]
    silence = io.StringIO()
    stage = "writing"
    try:
        with contextlib.redirect_stdout(silence), contextlib.redirect_stderr(silence):
            files = convert("m.yaml", path="out")
            stage = "reading"
            back = convert(files[0], thermo_file=files[1],
                           transport_file=files[2] if len(files) > 2 else None,
                           path="back")
            b = ct.Solution(back)
    except (Exception, SystemExit) as e:
        rec["outcome"] = "refused" if stage == "writing" else "failed"
        rec["message"] = f"{stage}: {type(e).__name__} {e}"[-600:]
        return rec
    rec["b"] = mechs.describe(b, names, table)
    rec["els"][1] = b.element_names
    if a.species_names == b.species_names and a.n_reactions == b.n_reactions:
        rec["rates"] = rates(rng, a, b)
    return rec


def run(ctx):
    ctx.model_check("MCConvert", "MCConvert.cfg" if ctx.quick else "MCConvertAll.cfg")
    shapes = ctx.generate("MCConvert", "GenConvert.cfg", workers=1)
    # Cantera's reader takes less than one reactant for none at all
    shapes = [x for x in shapes if x["n2"] > 1 or x["kind"] in ("three-body", "collider")]
    rng = ctx.rng("convert")
    items = []
    for _ in range(ctx.pick(2, 20)):
        rng.shuffle(shapes)
        for k in range(0, len(shapes), 8):
            part = shapes[k:k + 8]

            def make(rng, sps):
                return [g for g in (mechs.shaped(rng, sps, x) for x in part) if g]

            m = mechs.mechanism(rng, n=12, make=make,
                                pool=mechs.LONG if rng.random() < 0.4 else None)
            items.append((mechs.text(m), True, rng.random(), "shapes"))
    for k in range(ctx.pick(300, 4000)):
        m = mechs.mechanism(rng, pool=mechs.LONG if rng.random() < 0.2 else None)
        if all_zero(m):
            continue
        how = vary_species(rng, m)
        items.append((mechs.text(m), True, rng.random(), "random " + how))
    for k in range(ctx.pick(24, 200)):
        if k % 2:
            m = mechs.mechanism(rng, kinds=mechs.KINDS + ["blowers"] * 9)
            ok = not any(r.get("type") == "Blowers-Masel" for r in m["reactions"])
        else:
            m = mechs.mechanism(rng)
            ok = not refused_thermo(rng, m)
        if not all_zero(m):
            items.append((mechs.text(m), ok, rng.random(), "unsupported"))
    items += [(f, True, rng.random(), "file") for f in ("h2o2.yaml", "gri30.yaml")]
    recs = core.shard_map(one, items, initdir=ctx.scratch)
    recs = core.completed(ctx, recs)
    ctx.notes["conversions"] = len(recs)
    ctx.notes["reactions"] = sum(len(r["a"]["rx"]) for r in recs)
    ctx.notes["refused"] = sum(r["outcome"] == "refused" for r in recs)
    for k in range(0, len(recs), 1000):
        part = recs[k:k + 1000]
        bad = ctx.judge("TraceConvert", "TraceConvert.cfg", part)
        for i, c in bad.items():
            r = part[i]
            ctx.violation(f"{r['kind']}: {c} {r.get('message', '')} {r['equations'][:4]}",
                          r)
    for r in recs[:: max(1, len(recs) // 4)]:
        ctx.sample({"kind": r["kind"], "outcome": r["outcome"],
                    "equations": r["equations"][:4]})


def all_zero(m):
    """Third bodies without any effect: their rates are nothing but roundoff."""
    return any(r.get("efficiencies") and not any(r["efficiencies"].values())
               and (not r.get("default-efficiency", 1)
                    or len(r["efficiencies"]) == len(m["species"]))
               for r in m["reactions"])
