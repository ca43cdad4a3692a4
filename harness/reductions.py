"""Reductions of generated scenarios, judged against TraceReduce.tla."""
import core
import pipe

#: the clauses of TraceReduce that decide a property
CLAUSES = {
    "C02": ["protected"],
    "C03": ["error", "re2", "limit", "evaluated", "explicit"],
    "C04": ["cut", "midcut"],
    "C05": ["cut", "midcut"],
    "C07": ["search", "explicit"],
    "C08": ["sa", "staterr"],
    "C09": ["limbo"],
    "C12": ["error", "zeros", "basefail"],
    "C15": ["file", "left", "h5", "fixed"],
    "C20": ["floors"],
    "C21": ["args"],
    "C22": ["search", "sa", "staterr", "floors", "cases", "samples", "protected",
            "file", "conds", "workers"],
}


def scenarios(ctx, count, **fix):
    rng = ctx.rng("scenarios", *sorted((k, str(v)) for k, v in fix.items()))
    fix.pop("key", None)
    return [pipe.gen_scenario(rng, **fix) for _ in range(count)]


def items(ctx, count, hows=("direct", "main"), **fix):
    scs = scenarios(ctx, count, **fix)
    return [(s, {"how": hows[i % len(hows)]}) for i, s in enumerate(scs)]


def failing_base(ctx, count, **fix):
    out = []
    rng = ctx.rng("basefail")
    scs = scenarios(ctx, count, key="basefail", **fix)
    # sensitivity analysis alone
    scs += scenarios(ctx, count // 3 + 1, key="basefailSA", graph="none", **fix)
    for s in scs:
        kinds = [k for k in range(3) if s["ncases"][k]]
        k = rng.choice(kinds)
        out.append((s, {"base_fail": (("ign", "psr", "flame")[k],
                                      rng.randrange(s["ncases"][k]))}))
    return out


def runs(ctx, items, timeout=600):
    """items: (scenario, keyword arguments of run_scenario)"""
    core.load_pymars()

    def one(i, item, d):
        sc, kw = item
        return pipe.run_scenario(sc, d, **kw)

    return core.shard_map(one, items, timeout=timeout)


def brief(r):
    sc = r["sc"]
    return (f"{sc['graph']}/{sc['sa']} n={sc['n']} targets={sc['targets']} safe={sc['safe']} "
            f"limit2={sc['limit2']} upper={sc['upper']} how={r['how']}: {r['status']} "
            f"result={r['result']} err2={r['err2']} after {len(r['evals'])} evaluations")


def judge(ctx, recs, clauses=None, what=""):
    clauses = clauses or CLAUSES.get(ctx.prop)
    recs = core.completed(ctx, recs)
    bad = ctx.judge("TraceReduce", "TraceReduce.cfg", recs, clauses=clauses)
    for i, c in bad.items():
        ctx.violation(f"{what}clauses {c}: {brief(recs[i])}", recs[i])
    for r in recs[:: max(1, len(recs) // 3)]:
        ctx.sample(brief(r))
    st = ctx.notes.setdefault("outcomes", {})
    for r in recs:
        k = f"{r['sc']['graph']}/{r['sc']['sa']}/{r['status']}"
        st[k] = st.get(k, 0) + 1
    ctx.notes["evaluations"] = ctx.notes.get("evaluations", 0) + sum(
        len(r["evals"]) for r in recs)
    return recs, bad


def model(ctx):
    ctx.model_check("MCReduce", ctx.pick("MCReduceQ.cfg", "MCReduce.cfg"))


def batches(ctx, its, size=400, **kw):
    """Run and judge in batches (thorough runs)."""
    allrecs, allbad = [], {}
    for k in range(0, len(its), size):
        recs, bad = judge(ctx, runs(ctx, its[k:k + size]), **kw)
        for i, c in bad.items():
            allbad[len(allrecs) + i] = c
        allrecs += recs
    return allrecs, allbad


FIELDS = ["evals", "result", "err2", "status", "fileSet", "nrx", "fileNrx", "midSet", "limbo"]


def outcome(r):
    o = {k: r[k] for k in FIELDS}
    o["evals"] = [e["set"] for e in r["evals"]]
    return o


def same(ctx, groups, fields=FIELDS, what=""):
    """groups: [(label, [records])]; all records of a group must agree."""
    recs = [{"runs": [outcome(r) for r in rs], "fields": list(fields)} for _, rs in groups]
    bad = ctx.judge("Same", "Same.cfg", recs)
    for i, c in bad.items():
        ctx.violation(f"{what}{groups[i][0]}: runs differ in {c}: "
                      + " | ".join(brief(r) for r in groups[i][1][:3]), recs[i])
    return bad
