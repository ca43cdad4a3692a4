"""C10: saved samples are reused exactly when they match, and survive crashes."""
import json
import os
import subprocess
import sys

import core

HERE = os.path.dirname(os.path.abspath(__file__))
OPS = 34      # more than the changes of files of a run with three kinds


def play(ctx, items):
    """Run histories of the real code below the shim that ends runs in mid-save."""
    so = os.path.join(ctx.scratch, "crashshim.so")
    if not os.path.exists(so):
        r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so,
                            os.path.join(HERE, "crashshim.c"), "-ldl"],
                           capture_output=True, text=True)
        if r.returncode:
            raise core.MachineryError("crashshim: " + r.stderr[-2000:])
    src, dst = (os.path.join(ctx.scratch, f"hist.{x}") for x in ("in", "out"))
    with open(src, "w") as f:
        for it in items:
            f.write(json.dumps(it) + "\n")
    r = subprocess.run([sys.executable, os.path.join(HERE, "store.py"), src, dst,
                        ctx.scratch, str(ctx.seed)], env=dict(os.environ, LD_PRELOAD=so),
                       capture_output=True, text=True)
    if r.returncode:
        raise core.MachineryError("store.py: " + r.stderr[-3000:])
    return core.completed(ctx, [json.loads(line) for line in open(dst)])


def finish_event(rng, e):
    e = dict(e)
    if e["op"] in ("sample", "metrics"):
        if e["how"] == "crash":
            e["k"] = rng.randint(1, OPS if sum(map(bool, e["conf"][:3])) > 1 else 12)
            e["mode"] = rng.randint(0, 1)
        elif e["how"] == "fail":
            e["fail"] = rng.choice([x + 1 for x in range(3) if e["conf"][x]])
        elif rng.random() < 0.03:
            e["threads"] = 2
    elif e["op"] == "tamper":
        e.setdefault("way", rng.randint(0, 3))
    return e


def sample(conf, **kw):
    return dict({"op": "sample", "conf": conf, "how": "plain"}, **kw)


def crashes(ctx):
    """Every point at which the second run can be ended, for core histories."""
    a, b, c = [2, 0, 0, 4], [3, 0, 0, 4], [2, 0, 0, 5]
    p, q = [0, 2, 0, 4], [0, 1, 0, 4]
    f, g = [0, 0, 2, 4], [0, 0, 1, 5]
    m = [1, 1, 1, 4]
    triples = [(None, a, a), (a, b, a), (a, b, b), (b, c, c), (c, a, c), (None, p, p),
               (p, q, p), (q, p, p), (None, f, f), (f, g, f), (g, f, f), (None, m, m),
               (a, m, a), ([2, 2, 2, 5], m, m), ([2, 2, 2, 5], m, [2, 2, 2, 5])]
    out = []
    for x, y, z in triples:
        n = OPS if sum(map(bool, y[:3])) > 1 else 13
        for k in range(1, n + 1):
            for mode in (0, 1):
                cr = sample(y, how="crash", k=k, mode=mode)
                for last in (sample(z), {"op": "metrics", "conf": z, "how": "reuse"}):
                    h = ([sample(x)] if x else []) + [cr, last, sample(z)]
                    if not ctx.quick:
                        # a second run ended as well, right after the first
                        for k2 in (2, 4, 6, 8) if mode else ():
                            out.append(h[:-2] + [sample(y, how="crash", k=k2, mode=1)]
                                       + h[-2:])
                    out.append(h)
    return out


def run(ctx):
    ctx.model_check("MCStore", ctx.pick("MCStoreQ.cfg", "MCStore.cfg"))
    out, rc, _, _ = ctx.tlc("MCStore", "MCStoreNaive.cfg")
    if "is violated" not in out:
        raise core.MachineryError("saving in place should break the invariants:\n"
                                  + out[-2000:])
    rng = ctx.rng("histories")
    gen = ctx.generate("MCStore", "GenStore.cfg", workers=1)
    ctx.coverage["histories_generated_by_tlc"] = len(gen)
    gen.sort(key=json.dumps)
    events = {json.dumps(e, sort_keys=True): e for h in gen for e in h}
    events = [events[x] for x in sorted(events)]
    if ctx.quick:
        gen = rng.sample(gen, 1300)
    items = [[finish_event(rng, e) for e in h] for h in gen]
    for _ in range(ctx.pick(150, 2500)):
        items.append([finish_event(rng, rng.choice(events))
                      for _ in range(rng.randint(4, 9))])
    pairs = ctx.generate("MCStore", "GenStorePairs.cfg", workers=1)
    ctx.coverage["changes_of_one_kind"] = len(pairs)
    if ctx.quick:
        pairs = [h for h in pairs if max(e["conf"][x] for e in h if e["conf"]
                                         for x in range(3)) < 3]
    items += pairs
    cr = crashes(ctx)
    if ctx.quick:
        cr = rng.sample(cr, 420)
    ctx.coverage["crash_points_of_core_histories"] = len(cr)
    recs = play(ctx, items + cr)
    ctx.coverage["runs"] = sum(len(r["steps"]) for r in recs)
    ended = sum(s.get("outcome") == "crash" for r in recs for s in r["steps"])
    ctx.coverage["runs_ended_while_saving"] = ended
    for x in recs[:2] + recs[-2:]:
        ctx.sample(x)
    bad = ctx.judge("TraceStore", "TraceStore.cfg", recs)
    for i, c in bad.items():
        ctx.violation(f"history, clauses {c}: "
                      f"{[(s['op'], s['conf'], s['how'], s.get('outcome')) for s in recs[i]['steps']]}",
                      recs[i])
