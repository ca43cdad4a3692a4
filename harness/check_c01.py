"""C01: removing species keeps exactly the unaffected rest of the model."""
import hashlib
import os

import cantera as ct

import chem
import core
import mechs


def spec_mechanism(x):
    """A mechanism with the one reaction TLC came up with (species A, B, C, inert PAD)."""
    names = ["A", "B", "C"]

    def side(pairs):
        return " + ".join(names[s - 1] for s, _ in pairs)

    m = " + M" if x["tb"] else ""
    left, right = side(x["r"]), side(x["p"])
    # balance with the padding species
    k = len(x["r"]) - len(x["p"])
    if k > 0:
        right += " + PAD" * k
    if k < 0:
        left += " + PAD" * -k
    y = f"- equation: {left}{m} => {right}{m}\n"
    y += "  rate-constant: {A: 3.5, b: 0.5, Ea: 100.0}\n"
    if x["tb"]:
        y += "  type: three-body\n"
        y += f"  default-efficiency: {x['deff']}.0\n"
        if x["eff"]:
            y += "  efficiencies: {%s}\n" % ", ".join(
                f"{names[s - 1]}: {v}.0" for s, v in x["eff"])
    if x["ord"]:
        y += "  orders: {%s}\n  nonreactant-orders: true\n" % ", ".join(
            f"{names[s - 1]}: {v}.0" for s, v in x["ord"])
    return chem.isomer_mech(names + ["PAD"], reactions=y)


def digest(f):
    return hashlib.sha1(open(f, "rb").read()).hexdigest()


def one(i, item, d):
    from pymars import soln2yaml
    from pymars.reduce_model import trim

    kind, text, steps, phase = item
    if kind == "file":
        model = text
    else:
        model = os.path.join(d, "model.yaml")
        with open(model, "w") as f:
            f.write(text)
    try:
        before = ct.Solution(model, phase)
    except ct.CanteraError:
        return {"skip": True}
    names = before.species_names
    table = mechs.Table(1e-9)
    rec = {"before": mechs.describe(before, names, table), "same": True,
           "gone": sorted({names.index(s) + 1 for st in steps for s in st if s in names}),
           "loaded": False, "steps": len(steps), "kind": kind}
    h = digest(model) if os.path.exists(model) else None
    current = model
    for k, st in enumerate(steps):
        arg = list(st)
        got = trim(current, arg, f"step{k}.yaml", phase_name=phase)
        rec["same"] = rec["same"] and arg == list(st)
        current = soln2yaml.write(got, f"step{k}.yaml", path=d)
        if k < len(steps) - 1 or True:
            pass
    rec["got"] = mechs.describe(got, names, table)
    empty = {"species": [], "comp": [], "thermo": [], "tran": [], "els": [], "rx": [],
             "model": "", "T": 0, "P": 0}
    rec["file"] = empty
    try:
        rec["file"] = mechs.describe(ct.Solution(current, phase), names, table)
        rec["loaded"] = True
    except ct.CanteraError as e:
        rec["message"] = str(e)[:500]
    rec["fixed"] = h is None or digest(model) == h
    return rec


def removal(rng, names, most=None):
    k = rng.randint(1, max(1, min(len(names) - 1, most or len(names) - 1)))
    gone = rng.sample(names, k)
    if rng.random() < 0.2:
        gone.append(rng.choice(["NOTHERE", "H2O2X", gone[0]]))
    how = rng.choice(["together", "together", "single", "two"])
    if how == "single" and k <= 4:
        return [[s] for s in gone]
    if how == "two" and k > 1:
        j = rng.randint(1, k - 1)
        return [gone[:j], gone[j:]]
    return [gone]


def two_phases(mech):
    m = dict(mech)
    other = dict(mech["phases"][0], name="first", reactions="none",
                 species=mech["phases"][0]["species"][:2])
    m["phases"] = [other, dict(mech["phases"][0], name="burnt")]
    return m


def run(ctx):
    ctx.model_check("MCTrim", "MCTrim.cfg")
    shapes = ctx.generate("MCTrim", "GenTrim.cfg", workers=1)
    ctx.notes["reactions_from_tlc"] = len(shapes)
    rng = ctx.rng("trim")
    rng.shuffle(shapes)
    items = []
    for x in shapes[:ctx.pick(160, len(shapes))]:
        t = spec_mechanism(x)
        for b in range(1, 8):
            gone = [s for k, s in enumerate("ABC") if b >> k & 1]
            rng.shuffle(gone)
            steps = [gone] if rng.random() < 0.6 else [[s] for s in gone]
            items.append(("tlc", t, steps, ""))
    for _ in range(ctx.pick(150, 1500)):
        m = mechs.mechanism(rng, pool=mechs.CASES if rng.random() < 0.2 else None)
        names = [s["name"] for s in m["species"]]
        phase = rng.choice(["", "", "gas", "burnt"])
        t = mechs.text(two_phases(m) if phase == "burnt" else m)
        for _ in range(3):
            items.append(("random", t, removal(rng, names), phase))
    examples = [("h2o2.yaml", ctx.pick(15, 120)), ("gri30.yaml", ctx.pick(10, 150))]
    for f, count in examples:
        names = ct.Solution(f).species_names
        for _ in range(count):
            items.append(("file", f, removal(rng, names, rng.choice([3, None])), ""))
    recs = core.shard_map(one, items, initdir=ctx.scratch)
    recs = [r for r in recs if not r.get("skip")]
    recs = core.completed(ctx, recs)
    ctx.notes["removals"] = len(recs)
    for k in range(0, len(recs), 1500):
        part = recs[k:k + 1500]
        bad = ctx.judge("TraceTrim", "TraceTrim.cfg", part)
        for i, c in bad.items():
            r = part[i]
            ctx.violation(f"{r['kind']} removing {r['gone']} in {r['steps']} steps: {c} "
                          f"{r.get('message', '')}", r)
    for r in recs[:: max(1, len(recs) // 3)]:
        ctx.sample({"before": len(r["before"]["rx"]), "gone": r["gone"],
                    "species": r["got"]["species"], "reactions": len(r["got"]["rx"])})
