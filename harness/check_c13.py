"""C13: validation of input files."""
import copy
import json
import os
import sys

import core
import sims

FIRST = ["S0", "S1", "S2", "S3", "S4", "X"]
SECOND = ["S0", "S1", "S2", "S3", "S4", "Y"]
KEYS = {"T": "temperature", "P": "pressure", "kind": "kind", "width": "width",
        "er": "equivalence-ratio", "fuel": "fuel", "ox": "oxidizer", "re": "reactants",
        "comp": "composition-type", "steps": "max-steps", "end": "end-time"}
LISTS = {"ign": "autoignition-conditions", "psr": "psr-conditions",
         "flame": "laminar-flame-conditions"}


def model_file(d):
    import chem

    f = os.path.join(d, "two.yaml")
    if not os.path.exists(f):
        ph = "".join(f"""- name: {p}
  thermo: ideal-gas
  elements: [N]
  species: [{', '.join(sp)}]
  kinetics: bulk
  reactions: none
  transport: mixture-averaged
""" for p, sp in (("first", FIRST), ("second", SECOND)))
        with open(f, "w") as fh:
            fh.write("phases:\n" + ph + "species:\n"
                     + chem.species_yaml(sorted(set(FIRST + SECOND))))
    return f


class Make:
    """Concrete inputs for tokens, with values that are unique in the input."""

    def __init__(self, rng, inp, model):
        self.rng, self.inp, self.model, self.n = rng, inp, model, 0
        self.here = SECOND if inp["top"]["phase"] == "second" else FIRST
        other = FIRST if self.here is SECOND else SECOND
        self.unknown = [other[-1], "s1", "S1 ", "S9", "S", "", "S01"]

    def value(self, sign="pos", ints=True):
        self.n += 1
        if sign == "zero":
            return self.rng.choice([0, 0.0])
        v = self.rng.choice([self.n + 0.125, float(self.n)] + ([self.n] if ints else []))
        return v if sign == "pos" else -v

    def names(self, token):
        r = self.rng
        a = r.sample(self.here, 3)
        if token in ("one", "empty"):
            return a[:1] if token == "one" else []
        if token in ("two", "zero1", "zero2", "neg1", "neg2"):
            return a[:r.choice([2, 2, 3])] if token == "two" else a[:2]
        bad = r.choice(self.unknown)
        return ([bad] + a[:r.randint(0, 1)]) if token == "unk1" else a[:r.randint(1, 2)] + [bad]

    def amounts(self, token):
        if token == "empty":
            return self.rng.choice([{}, []])
        out = {n: self.value() for n in self.names(token)}
        if token[:3] in ("zer", "neg"):
            n = list(out)[int(token[-1]) - 1]
            out[n] = self.value(token[:-1])
        return out

    def case(self, c, what):
        out = {}
        for f, tok in c.items():
            if tok == "none" or (f in ("kind", "steps", "end") and what != "ign") \
                    or (f == "width" and what != "flame"):
                continue
            if f == "kind":
                v = {"cv": "constant volume", "cp": "constant pressure"}.get(
                    tok, self.rng.choice(["constant", "constant-volume", "Constant Volume",
                                          "", "constant temperature"]))
            elif f == "comp":
                v = tok if tok != "bad" else self.rng.choice(["Mole", "molar", "volume", ""])
            elif f in ("fuel", "ox", "re"):
                v = self.amounts(tok)
            elif f == "steps":
                v = self.n + 100
                self.n += 1
            elif f == "end":
                v = self.value()
            else:
                v = self.value(tok)
            out[KEYS[f]] = v
        items = list(out.items())
        self.rng.shuffle(items)
        return dict(items)

    def build(self):
        t, r, out = self.inp["top"], self.rng, {}
        if t["model"] != "none":
            out["model"] = {"ok": self.model, "blank": "",
                            "nofile": os.path.join(os.path.dirname(self.model), "no.yaml")
                            }[t["model"]]
        if t["phase"] != "none":
            out["phase-name"] = t["phase"] if t["phase"] != "bad" else r.choice(
                ["third", "First", "gas"])
        if t["error"] != "none":
            out["error"] = self.value("zero" if t["error"] == "zero" else "pos")
        if t["method"] != "none":
            out["method"] = {"blank": "", "bad": r.choice(["DRGPFA", "drg", "Drgep", "DRG ",
                                                           "DR", "G"])
                             }.get(t["method"], t["method"])
        if t["sa"] != "none":
            out["sensitivity-analysis"] = t["sa"] == "true"
        for f, key in (("targets", "targets"), ("retained", "retained-species")):
            if t[f] != "none":
                out[key] = self.names(t[f])
        if t["upper"] != "none":
            out["upper-threshold"] = self.value()
        if t["satype"] != "none":
            out["sensitivity-type"] = r.choice(["greedy", "initial"])
        if t["floor"] != "none":
            out["min-flame-speed"] = self.value()
        for what, key in LISTS.items():
            cases = [self.case(c, what) for c in self.inp[what]]
            if cases or r.random() < 0.2:
                out[key] = cases
        items = list(out.items())
        r.shuffle(items)
        return dict(items)


def token(given, key, got):
    """how a value that was passed on compares to the one given (or a default's name)"""
    if key in given:
        v = given[key]
        if type(v) is type(got) and v == got and (
                not isinstance(v, dict) or list(v.items()) == list(got.items())):
            return "given"
        if v in ({}, []) and got in ({}, []):
            return "given"
        return f"changed {got!r}"
    if got is None:
        return "null"
    if isinstance(got, bool):
        return str(got).lower()
    if isinstance(got, (int, float)):
        return f"{got:g}"
    if isinstance(got, str):
        return got or "blank"
    return "empty" if len(got) == 0 else f"changed {got!r}"


ATTRS = {"T": "temperature", "P": "pressure", "kind": "kind", "width": "width",
         "er": "equivalence_ratio", "fuel": "fuel", "ox": "oxidizer", "re": "reactants",
         "comp": "composition_type", "steps": "max_steps", "end": "end_time"}


def case_tokens(given, got, what):
    out = {}
    for f, key in KEYS.items():
        if (f in ("kind", "steps", "end") and what != "ign") or (
                f == "width" and what != "flame"):
            out[f] = "absent" if not hasattr(got, ATTRS[f]) else "present"
        else:
            out[f] = token(given, key, getattr(got, ATTRS[f]))
    return out


class Started(Exception):
    """A simulation was about to start."""


def parse(sc, given):
    """parse_inputs on a dictionary"""
    from pymars.pymars import parse_inputs

    rec = {}
    before = copy.deepcopy(given)
    try:
        with core.time_limit(20):
            r = parse_inputs(given)
        rec["out"] = "accepted"
    except (Exception, SystemExit, core.ScenarioTimeout) as e:
        rec["out"] = "rejected" if not isinstance(e, core.ScenarioTimeout) else "timeout"
        rec["what"] = f"{type(e).__name__}: {e}"[:150]
        r = None
    rec["unmodified"] = repr(before) == repr(given)
    return rec, r


def fill(rec, given, r):
    rec["top"], rec["cases"], rec["safe"] = {}, [], []
    if r is None:
        return
    rec["top"] = {
        "model": token(given, "model", r.model), "error": token(given, "error", r.error),
        "method": token(given, "method", r.method),
        "targets": token(given, "targets", r.target_species),
        "phase": token(given, "phase-name", r.phase_name),
        "sa": token(given, "sensitivity-analysis", r.sensitivity_analysis),
        "upper": token(given, "upper-threshold", r.upper_threshold),
        "satype": token(given, "sensitivity-type", r.sensitivity_type),
        "floor": token(given, "min-flame-speed", r.min_flame_speed)}
    if rec["top"]["method"] == "null":
        rec["top"]["method"] = "blank"
    for what, got in (("ign", r.ignition_conditions), ("psr", r.psr_conditions),
                      ("flame", r.flame_conditions)):
        cs = given.get(LISTS[what], [])
        for k, g in enumerate(got):
            rec["cases"].append(case_tokens(cs[k] if k < len(cs) else {}, g, what))
    rec["safe"] = list(r.safe_species)


def through_file(sc, given, d):
    """The same input through the command line: does any simulation start?"""
    import yaml
    from pymars import pymars as pm
    from pymars import simulation

    rec = {"unmodified": True, "simulated": False}
    with open("in.yaml", "w") as f:
        yaml.safe_dump(given, f, sort_keys=False)
    seen = []
    saved = []

    def started(self, *a, **k):
        seen.append(self)
        raise Started()

    for cls in (simulation.IgnitionSimulation, simulation.PSRSimulation,
                simulation.FlameSimulation):
        for m in ("setup_case", "run_case", "calculate", "process_results"):
            saved.append((cls, m, getattr(cls, m)))
            setattr(cls, m, started)
    old = sys.argv
    sys.argv = ["pymars", "-i", "in.yaml", "--path", d]
    try:
        with core.time_limit(30):
            pm.pymars(sys.argv[1:])
        rec["out"] = "finished without simulating"
    except Started:
        rec["out"] = "accepted"
    except (Exception, SystemExit, core.ScenarioTimeout) as e:
        rec["out"] = "rejected" if not isinstance(e, core.ScenarioTimeout) else "timeout"
        rec["what"] = f"{type(e).__name__}: {e}"[:150]
    finally:
        sys.argv = old
        for cls, m, f in saved:
            setattr(cls, m, f)
    rec["simulated"] = bool(seen)
    return rec


def run_one(i, sc, d):
    import random

    rng = random.Random(sc["seed"])
    given = Make(rng, sc["inp"], model_file(d)).build()
    mixtures = [s for what in LISTS for c in given.get(LISTS[what], [])
                for f in ("fuel", "oxidizer", "reactants") for s in c.get(f, [])]
    keep = copy.deepcopy(given)
    if sc["how"] == "file":
        rec = through_file(sc, given, d)
        rec.update({"top": {}, "cases": [], "safe": []})
    else:
        rec, r = parse(sc, given)
        rec["simulated"] = False
        fill(rec, keep, r)
    rec.update({"how": sc["how"], "inp": sc["inp"], "given": keep, "mixtures": mixtures,
                "asked": keep.get("retained-species", []),
                "targets": keep.get("targets", [])})
    return rec


def random_case(rng, faults):
    D = {"kind": ["cp", "none", "bad"], "T": ["none", "zero", "neg"],
         "P": ["none", "zero", "neg"], "width": ["pos", "zero", "neg"],
         "er": ["none", "pos", "zero", "neg"], "comp": ["none", "mole", "mass", "bad"],
         "steps": ["given"], "end": ["given"]}
    maps = ["none", "empty", "one", "two", "zero1", "zero2", "neg1", "neg2", "unk1", "unk2"]
    c = {"kind": rng.choice(["cv", "cp"]), "T": "pos", "P": "pos",
         "width": rng.choice(["none", "pos"]), "er": "pos",
         "fuel": rng.choice(["one", "two"]), "ox": rng.choice(["one", "two"]), "re": "none",
         "comp": rng.choice(["none", "mole"]), "steps": rng.choice(["none", "given"]),
         "end": rng.choice(["none", "given"])}
    if rng.random() < 0.5:
        c.update({"er": rng.choice(["none", "none", "zero"]),
                  "fuel": rng.choice(["none", "empty"]),
                  "ox": rng.choice(["none", "empty"]), "re": rng.choice(["one", "two"]),
                  "comp": rng.choice(["none", "mole", "mass"])})
    for _ in range(faults):
        f = rng.choice(list(c))
        c[f] = rng.choice(maps if f in ("fuel", "ox", "re") else D[f])
    return c


def random_input(rng):
    top = {"model": "ok", "phase": rng.choice(["none", "first", "second"]), "error": "pos",
           "method": rng.choice(["DRG", "DRGEP", "PFA", "none", "blank"]),
           "sa": rng.choice(["none", "false", "true"]), "targets": rng.choice(["one", "two"]),
           "retained": rng.choice(["none", "empty", "one", "two"]),
           "upper": rng.choice(["none", "given"]), "satype": rng.choice(["none", "given"]),
           "floor": rng.choice(["none", "given"])}
    if top["method"] in ("none", "blank"):
        top["sa"] = "true"
        top["targets"] = rng.choice(["none", "empty", "one"])
    inp = {"top": top}
    for w in LISTS:
        inp[w] = [random_case(rng, 0) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
    lists = [c for w in LISTS for c in inp[w]]
    k = rng.choice([0, 0, 1, 1, 2])
    for _ in range(k if lists else 0):
        c = rng.choice(lists)
        c.update(random_case(rng, rng.randint(1, 2)))
    return inp


def run(ctx):
    ctx.model_check("MCInput", ctx.pick("MCInput.cfg", "MCInputDeep.cfg"))
    rng = ctx.rng("inputs")
    scs = []
    for what, q in (("pairs", 2500), ("mixtures", 2500), ("tops", 800)):
        gen = ctx.generate("MCInput", f"GenInput_{what}.cfg", workers=1)
        ctx.coverage["inputs_from_tlc_" + what] = len(gen)
        gen.sort(key=lambda x: json.dumps(x, sort_keys=True))
        if ctx.quick:
            gen = rng.sample(gen, q)
        for inp in gen:
            # the condition may come after valid ones
            for w in LISTS:
                if inp[w] and rng.random() < 0.4:
                    more = [random_case(rng, 0) for _ in range(rng.randint(1, 2))]
                    inp[w] = more + inp[w] if rng.random() < 0.6 else inp[w] + more
            scs.append(inp)
    scs += [random_input(rng) for _ in range(ctx.pick(2000, 20000))]
    items = [{"inp": s, "how": "dict", "seed": rng.random()} for s in scs]
    items += [{"inp": s, "how": "file", "seed": rng.random()}
              for s in rng.sample(scs, ctx.pick(700, 6000))]
    recs = core.completed(ctx, core.shard_map(run_one, items, initdir=ctx.scratch))
    ctx.coverage["accepted"] = sum(r["out"] == "accepted" for r in recs)
    for r in recs[:2]:
        ctx.sample(r)
    judge(ctx, recs)


def judge(ctx, recs):
    slim = [{k: r[k] for k in ("inp", "out", "simulated", "unmodified", "top", "cases",
                               "asked", "targets", "mixtures", "safe")} for r in recs]
    for part in (False, True):
        idx = [k for k, r in enumerate(recs) if (r["how"] == "file") == part]
        bad = ctx.judge("TraceInput", "TraceInput.cfg", [slim[k] for k in idx],
                        clauses={"decision", "simulated"} if part else None)
        for k, c in bad.items():
            r = recs[idx[k]]
            ctx.violation(f"clauses {c}: {r['out']} {r.get('what', '')}: {r['given']}", r)
