"""C17: model comparison finds every difference and no others."""
import copy
import os
import random

import cantera as ct

import core
import mechs
import mutations

BASES = ["h2o2.yaml", "gri30.yaml"]


def precise(rng, mech):
    """Values with all digits, which do not survive printing exactly."""
    for s in mech["species"]:
        t = s.get("transport", {})
        for k in ("well-depth", "diameter", "dipole", "polarizability"):
            if k in t:
                t[k] *= 1 + rng.random() * 1e-3
    for r in mech["reactions"]:
        for k in ("efficiencies", "orders"):
            for s in r.get(k, {}):
                r[k][s] = r[k][s] * (1 + rng.random() * 1e-3)
        for k in ("rate-constant", "low-P-rate-constant", "high-P-rate-constant"):
            if k in r:
                r[k]["A"] *= 1 + rng.random() * 1e-3


def base(rng, every=False):
    kinds = mechs.KINDS + ["blowers"]
    m = mechs.mechanism(rng, n=11 if every else None,
                        nrx="each" if every else rng.randint(2, 10), kinds=kinds)
    if rng.random() < 0.5:
        precise(rng, m)
    if rng.random() < 0.15:
        for s in m["species"]:
            s.pop("transport")
        m["phases"][0].pop("transport")
    if rng.random() < 0.3:
        for s in m["species"]:
            if rng.random() < 0.5:
                s.get("transport", {})["note"] = rng.choice(["x", "T 7/88"])
                s["thermo"]["note"] = "L 8/88"
    return m


def shuffled_reactions(rng, rxs):
    """Another order; reactions with equal equations stay in theirs."""
    order = list(range(len(rxs)))
    rng.shuffle(order)
    slots = {}
    for place, k in enumerate(order):
        slots.setdefault(rxs[k]["equation"], []).append((place, k))
    out = [None] * len(rxs)
    for group in slots.values():
        for place, k in zip(sorted(p for p, _ in group), sorted(k for _, k in group)):
            out[place] = rxs[k]
    return out


def flip(gas, rng):
    rx = gas.reactions()
    if not rx:
        return gas
    k = rng.randrange(len(rx))
    rx[k].duplicate = not rx[k].duplicate
    return ct.Solution(thermo="ideal-gas", kinetics="gas", species=gas.species(),
                       reactions=rx)


def ambiguous(gas):
    """Different reactions of one equation, none of them declared as duplicates."""
    seen = {}
    for r in gas.reactions():
        seen.setdefault(r.equation, []).append(r.duplicate)
    return any(len(v) > 1 and not all(v) for v in seen.values())


def one(i, item, d):
    from pymars import soln2yaml
    from pymars.tools import compare_models

    mech, prog, seed = item
    rng = random.Random(seed)
    flips = []
    first = mech
    for c in prog["both"]:
        if c == "duplicate":
            flips.append("both")
            continue
        first = mutations.apply(first, rng, c)
        if first is None:
            return {"skip": True}
    second = copy.deepcopy(first)
    for c in prog["one"]:
        if c == "duplicate":
            flips.append("one")
            continue
        second = mutations.apply(second, rng, c)
        if second is None:
            return {"skip": True}
    if prog["species"]:
        rng.shuffle(second["phases"][0]["species"])
        rng.shuffle(second["species"])
    if prog["reactions"]:
        second["reactions"] = shuffled_reactions(rng, second["reactions"])
    try:
        a = ct.Solution(yaml=mechs.text(first))
        b = ct.Solution(yaml=mechs.text(second))
        if "both" in flips:
            s = rng.random()
            a = flip(a, random.Random(s))
            b = flip(b, random.Random(s))
        if "one" in flips:
            b = flip(b, rng)
    except ct.CanteraError:
        return {"skip": True}
    if ambiguous(a) or ambiguous(b):
        return {"skip": True}
    if prog["copy"]:
        soln2yaml.write(b, "copy.yaml", path=d)
        b = ct.Solution(os.path.join(d, "copy.yaml"))
    return compare(a, b, compare_models, {"program": prog, "reactions": a.n_reactions})


def ask(compare_models, a, b):
    try:
        x = compare_models(a, b)
    except Exception as e:
        return "error: " + repr(e)[:200]
    return {"True": "equal", "False": "different"}.get(str(bool(x)), "?")


def compare(a, b, compare_models, rec):
    names = sorted(set(a.species_names) | set(b.species_names))
    table = mechs.Table(1e-6)
    rec.update(a=mechs.describe(a, names, table), b=mechs.describe(b, names, table))
    rec.update(ab=ask(compare_models, a, b), ba=ask(compare_models, b, a),
               aa=ask(compare_models, a, a))
    rec["same"] = (rec["a"] == mechs.describe(a, names, table)
                   and rec["b"] == mechs.describe(b, names, table))
    return rec


def real(i, item, d):
    """Cantera's example models: copies, subsets, permutations and Chemkin copies."""
    from pymars import soln2yaml
    from pymars.reduce_model import trim
    from pymars.tools import compare_models

    f, how, seed = item
    rng = random.Random(seed)
    a = ct.Solution(f)
    if how == "copy":
        soln2yaml.write(a, "copy.yaml", path=d)
        b = ct.Solution(os.path.join(d, "copy.yaml"))
    elif how == "trimmed":
        gone = rng.sample(a.species_names, 1)
        b = trim(f, gone, "b.yaml")
        if rng.random() < 0.5:
            a = trim(f, gone, "a.yaml")
    else:
        sp = a.species()
        rx = a.reactions()
        rng.shuffle(sp)
        if how == "changed":
            k = rng.randrange(len(rx))
            other = a.reaction(rng.choice(
                [j for j in range(len(rx)) if j != k]))
            rx[k] = other if rng.random() < 0.3 else rx[k]
            if rx[k] is not other:
                rx.pop(k)
        keyed = shuffled_reactions(rng, [{"equation": r.equation, "rx": r} for r in rx])
        try:
            b = ct.Solution(thermo="ideal-gas", kinetics="gas", species=sp,
                            reactions=[x["rx"] for x in keyed])
        except ct.CanteraError:
            return {"skip": True}
        b.transport_model = a.transport_model
    return compare(a, b, compare_models, {"program": how, "model": f,
                                          "reactions": a.n_reactions})


def run(ctx):
    ctx.model_check("MCCompare", "MCCompare.cfg")
    ctx.model_check("MCCompare", "MCCompareDup.cfg")
    programs = ctx.generate("MCCompare", "GenCompare.cfg", workers=1)
    rng = ctx.rng("compare")
    items = []
    count = 0
    for k in range(ctx.pick(8, 100)):
        m = base(rng, every=k < 4)
        for p in programs:
            items.append((m, p, rng.random()))
    pairs = ctx.generate("MCCompare", "GenComparePairs.cfg", workers=1)
    rng.shuffle(pairs)
    for p in pairs[:ctx.pick(800, len(pairs))]:
        if count % 20 == 0:
            m = base(rng)
        count += 1
        items.append((m, p, rng.random()))
    recs = core.shard_map(one, items, initdir=ctx.scratch)
    ritems = [(f, how, rng.random()) for f, n in (("h2o2.yaml", ctx.pick(16, 100)),
                                                  ("gri30.yaml", ctx.pick(4, 40)))
              for how in ("copy", "trimmed", "permuted", "changed")
              for _ in range(n if how != "copy" else 1)]
    recs += core.shard_map(real, ritems, initdir=ctx.scratch)
    recs = core.completed(ctx, [r for r in recs if not r.get("skip")])
    ctx.notes["comparisons"] = len(recs)
    done = {c for r in recs if isinstance(r["program"], dict)
            for c in r["program"]["one"]}
    ctx.notes["changes_made"] = sorted(done)
    ctx.notes["changes_never_made"] = sorted(
        (set(mutations.CHANGES) | {"duplicate"}) - done)
    ctx.notes["answers"] = {x: sum(r["ab"] == x for r in recs)
                            for x in ("equal", "different")}
    for k in range(0, len(recs), 3000):
        part = recs[k:k + 3000]
        bad = ctx.judge("TraceCompare", "TraceCompare.cfg", part)
        for i, c in bad.items():
            r = part[i]
            ctx.violation(f"{r['program']}: {c}; answers {r['ab']}, {r['ba']}", r)
    for r in recs[:: max(1, len(recs) // 4)]:
        ctx.sample({"program": r["program"], "answers": [r["ab"], r["ba"]],
                    "reactions": r["reactions"]})
