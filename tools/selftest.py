"""Is the specification bound to the observations?  selftest.py <property> [corruptions per field]

Runs the quick check and, after every judgement, corrupts one field of accepted records
(another value seen at the same place, plus one, negation, a dropped list element) and has
the corrupted records judged again.  Prints for every field how many of the corruptions were
rejected: a field none of whose corruptions is rejected decides nothing (or is an input that
only describes the scenario).
"""
import copy
import os
import random
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import core  # noqa: E402

prop = sys.argv[1]
per = int(sys.argv[2]) if len(sys.argv) > 2 else 10
rng = random.Random(7)
orig = core.Ctx.judge
total = {}
seen = {}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        if x:
            yield path, x
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
    else:
        yield path, x


def pattern(path, v):
    p = ".".join("*" if isinstance(k, int) else k for k in path)
    return re.sub(r"(\.\*)+", "[]", p) + (" (length)" if isinstance(v, list) else "")


def put(rec, path, v):
    r = copy.deepcopy(rec)
    x = r
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = v
    return r


def corrupt(v, pool):
    if isinstance(v, list):
        return v[:-1]
    if isinstance(v, bool):
        return not v
    other = [x for x in pool if x != v and type(x) is type(v)]
    if isinstance(v, int):
        return rng.choice(other) if other and rng.random() < 0.5 else v + rng.choice([1, -1])
    return rng.choice(other) if other else None


def judge(self, module, cfg, records, **kw):
    bad = orig(self, module, cfg, records, **kw)
    seen[module] = seen.get(module, 0) + 1
    if seen[module] > 2:
        return bad
    good = [r for i, r in enumerate(records) if i not in bad]
    places, pools = {}, {}
    for r in rng.sample(good, min(len(good), 150)):
        for path, v in leaves(r):
            p = pattern(path, v)
            places.setdefault(p, []).append((r, path, v))
            if not isinstance(v, list):
                pools.setdefault(p, set()).add(v)
    for p, where in sorted(places.items()):
        recs = []
        for r, path, v in rng.sample(where, min(len(where), per)):
            w = corrupt(v, sorted(pools.get(p, ()), key=str))
            if w is not None:
                recs.append(put(r, path, w))
        if not recs:
            continue
        kw2 = {k: v for k, v in kw.items() if k != "count"}
        try:
            n = len(orig(self, module, cfg, recs, count=False, **kw2))
        except core.MachineryError:
            n = None
        t = total.setdefault((module, p), [0, 0, 0])
        t[1] += len(recs)
        if n is None:
            t[2] += len(recs)
        else:
            t[0] += n
    return bad


core.Ctx.judge = judge
ctx = core.Ctx(prop, "quick")
os.chdir(ctx.scratch)
core.load_pymars()
__import__("check_" + prop.lower()).run(ctx)
for (m, p), (n, k, e) in sorted(total.items()):
    flag = "" if n or e else "   <- nothing rejected"
    print(f"{prop} {m} {p}: {n}/{k} rejected{f', {e} unreadable' if e else ''}{flag}")
os.chdir("/")
ctx._cleanup()
