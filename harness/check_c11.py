"""C11: results do not depend on the number of workers or the completion order."""
import core
import workers


def scenarios(ctx):
    rng = ctx.rng("workers")
    out = []
    # every completion order that TLC finds for up to four cases, each kind, both uses
    orders = ctx.generate("MCWorkers", "GenWorkers.cfg", workers=1)
    ctx.coverage["completion_orders_from_tlc"] = len(orders)
    for o in orders:
        for mode in ("sample", "metric"):
            for kind in (1, 2, 3):
                n = [0, 0, 0]
                n[kind - 1] = o["n"]
                out.append({"threads": o["limit"], "cpus": 8, "n": n, "mode": mode,
                            "order": {str(kind): o["order"]}, "wait": 0.4})
    rng.shuffle(out)
    out = out[:ctx.pick(200, len(out))]
    # many cases: orders sampled by TLC, cases handed out in any portions by the code
    many = ctx.generate("MCWorkers", "GenWorkersMany.cfg", workers=1,
                        simulate=ctx.pick(24, 400), depth=60)
    for o in many:
        kind = rng.randint(1, 3)
        n = [rng.randint(0, 2) for _ in range(3)]
        n[kind - 1] = o["n"]
        out.append({"threads": o["limit"], "cpus": 8, "n": n,
                    "mode": rng.choice(["sample", "metric"]), "jitter": True,
                    "order": {str(kind): o["order"]}, "wait": 0.03})
    # numbers of workers, also derived from the number of cores; nothing waits long
    for threads, cpus in ((0, 1), (0, 2), (0, 3), (0, 4), (1, 8), (2, 8), (3, 1), (5, 4),
                          (7, 8), (16, 8)):
        for n in ((3, 2, 2), (1, 0, 1), (0, 1, 0), (11, 0, 2), (0, 12, 0), (2, 0, 13)):
            for mode in ("sample", "metric"):
                lim = threads or max(cpus - 1, 1)
                out.append({"threads": threads, "cpus": cpus, "n": list(n), "mode": mode,
                            "together": lim + 1, "wait": 0.15 if max(n) < 5 else 0.05})
    # failing cases
    for _ in range(ctx.pick(60, 600)):
        n = [rng.choice([0, 1, 2, 3, 5]) for _ in range(3)]
        every = [[k + 1, c + 1] for k in range(3) for c in range(n[k])]
        if not every:
            continue
        out.append({"threads": rng.choice([1, 2, 2, 3, 8]), "cpus": 8, "n": n,
                    "mode": rng.choice(["sample", "metric"]), "wait": 0.02,
                    "together": 9, "fails": rng.sample(every, rng.randint(1, min(3, len(every))))})
    return out


def run(ctx):
    ctx.model_check("MCWorkers", ctx.pick("MCWorkers.cfg", "MCWorkers5.cfg"))
    scs = scenarios(ctx)
    recs = core.completed(ctx, core.shard_map(workers.run, scs, initdir=ctx.scratch))
    same = sum([e[2] for e in r["events"] if e[0] == "end" and e[1] == int(k)] == o
               for r in recs for k, o in r["order"].items())
    ctx.coverage["runs_that_followed_the_requested_order"] = same
    for r in recs[:3]:
        ctx.sample(r)
    bad = ctx.judge("TraceWorkers", "TraceWorkers.cfg", recs)
    for i, c in bad.items():
        r = recs[i]
        ctx.violation(f"clauses {c}: {r['mode']} of {r['n']} cases with {r['threads']} "
                      f"threads on {r['cpus']} cores gave {r['outcome']} "
                      f"{r.get('what', '')}", r)
