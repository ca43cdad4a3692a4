"""Shared machinery: scratch space, TLC runs, verdicts, evidence, parallel scenario runs.

Every check is ``check <property> <quick|thorough>``.  A check

* model-checks the TLA+ module(s) of its property (``Ctx.model_check``),
* lets TLC generate inputs and behaviours (``Ctx.generate``),
* runs the real pyMARS code on them (and on randomly generated scenarios) and records
  what is observable, and
* has TLC judge every record against the specification (``Ctx.judge``).

Exit status: 0 property held, 1 violation (with a VIOLATION line), 2 failure of the
machinery itself.
"""
import atexit
import contextlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVIDENCE = os.path.join(VERIF, "evidence")
# /repo, unless a planted bug is tried out in a scratch copy of it
REPO = os.environ.get("PYMARS_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")


class MachineryError(Exception):
    pass


class ScenarioTimeout(BaseException):
    """Raised in the code under test when a scenario takes too long (non-termination)."""


def time_limit(seconds):
    """Context manager: raise ScenarioTimeout in the main thread after ``seconds``."""

    class _Limit:
        def __enter__(self):
            def handler(signum, frame):
                raise ScenarioTimeout()

            self.old = signal.signal(signal.SIGALRM, handler)
            signal.setitimer(signal.ITIMER_REAL, seconds)

        def __exit__(self, *exc):
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, self.old)
            return False

    return _Limit()


def shard_map(fn, items, nproc=None, initdir=None, timeout=600):
    """Run ``fn(index, item, scratch_dir)`` for all items in forked shards.

    Each shard has its own scratch working directory.  Returns the results in order.
    A shard that dies leaves ``{"crash": ...}`` for its unfinished items.
    """
    items = list(items)
    if not items:
        return []
    nproc = min(nproc or 8, len(items))
    base = tempfile.mkdtemp(prefix="shards-", dir=initdir)
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(nproc):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                os.setpgid(0, 0)
                out = open(os.path.join(base, f"out{k}.ndjson"), "w")
                for i in range(k, len(items), nproc):
                    d = os.path.join(base, f"w{i}")
                    os.mkdir(d)
                    os.chdir(d)
                    try:
                        res = fn(i, items[i], d)
                    except ScenarioTimeout:
                        res = {"crash": "scenario timeout outside the limit"}
                    except Exception:
                        res = {"crash": traceback.format_exc()[-2000:]}
                    out.write(json.dumps([i, res]) + "\n")
                    out.flush()
                    os.chdir(base)
                    shutil.rmtree(d, ignore_errors=True)
                out.close()
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    deadline = time.time() + timeout
    left = set(pids)
    while left:
        for pid in list(left):
            p, _ = os.waitpid(pid, os.WNOHANG)
            if p:
                left.discard(pid)
        if left and time.time() > deadline:
            for pid in left:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                os.waitpid(pid, 0)
            left = set()
        if left:
            time.sleep(0.02)
    results = [{"crash": "not finished (shard died or ran out of time)"}] * len(items)
    for k in range(nproc):
        f = os.path.join(base, f"out{k}.ndjson")
        if os.path.exists(f):
            for line in open(f):
                try:
                    i, r = json.loads(line)
                except ValueError:
                    continue
                results[i] = r
    shutil.rmtree(base, ignore_errors=True)
    return results


def completed(ctx, records):
    """Records of runs that went through.

    The harness catches what the code under test raises; a run that breaks nevertheless
    did something that cannot even be recorded, which is reported as a violation.
    """
    for i, r in enumerate(records):
        if "crash" in r:
            ctx.violation(f"scenario {i} could not be recorded: {r['crash'][-600:]}", r)
    return [r for r in records if "crash" not in r]


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.scratch = tempfile.mkdtemp(prefix=f"pymars-verif-{prop}-")
        self._pid = os.getpid()
        atexit.register(self._cleanup)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.violations = []
        self.known_seen = []
        self.coverage = {}
        self.level = "model_checking"
        self.known = self._load_known()

    def _cleanup(self):
        if os.getpid() == self._pid:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def rng(self, *key):
        return random.Random("-".join(map(str, (self.seed, self.prop) + key)))

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- known findings ---------------------------------------------------------
    def _load_known(self):
        known = {}
        f = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(f):
            for line in open(f):
                m = re.match(r"KNOWN-FINDING: property=(\w+) id=(\S+) (.*)", line)
                if m and m.group(1) == self.prop:
                    known[m.group(2)] = m.group(3).strip()
        return known

    def violation(self, what, data=None, finding=None):
        """Record a violation; ``finding`` identifies the exact failing input."""
        if finding is not None and finding in self.known:
            if finding not in self.known_seen:
                self.known_seen.append(finding)
            return
        self.violations.append((what, data))

    # ---- TLC ----------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=4, timeout=600, simulate=None,
            depth=None, seed=None, heap="6g", expect_error=False, lazy=False):
        """Run TLC on spec/<module>.tla with spec/<cfg>; return (stdout, rc)."""
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS,
               "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noTE",
               "-config", os.path.join(SPEC, cfg)]
        if simulate:
            cmd += ["-simulate", f"num={simulate}"]
            if depth:
                cmd += ["-depth", str(depth)]
            cmd += ["-seed", str(seed if seed is not None else self.seed)]
        cmd += [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module} {cfg}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
        gen = dist = 0
        if m:
            gen, dist = int(m[-1][0]), int(m[-1][1])
        elif simulate:
            m = re.findall(r"(\d+) states checked", out)
            if m:
                gen = dist = int(m[-1])
        return out, r.returncode, dist, gen

    def model_check(self, module, cfg, timeout=600, workers=8, **kw):
        """Exhaustive run that must succeed; a failure is a failure of the specification."""
        t = time.time()
        out, rc, dist, gen = self.tlc(module, cfg, workers=workers, timeout=timeout, **kw)
        if rc != 0:
            raise MachineryError(f"model checking {module} {cfg} failed:\n{out[-4000:]}")
        self.states += dist
        self.transitions += gen
        self.notes.setdefault("model_checking", []).append(
            {"module": module, "cfg": cfg, "distinct_states": dist,
             "transitions": gen, "seconds": round(time.time() - t, 1)})
        return out

    def generate(self, module, cfg, tag="GEN", **kw):
        """Run TLC and collect the JSON values it prints as lines ``TAG|json``."""
        out, rc, dist, gen = self.tlc(module, cfg, **kw)
        if rc != 0:
            raise MachineryError(f"generation with {module} {cfg} failed:\n{out[-4000:]}")
        self.states += dist
        self.transitions += gen
        res = []
        for line in out.splitlines():
            line = line.strip().strip('"')
            if line.startswith(tag + "|"):
                res.append(json.loads(line[len(tag) + 1:].replace('\\"', '"')))
        return res

    def judge(self, module, cfg, records, workers=8, timeout=800, env=None,
              describe=None, clauses=None, count=True):
        """Have TLC judge ``records``; every record must be accepted by some behaviour.

        The module reads the ndjson file named by the environment variable TRACE and
        prints ``VERDICT|<index>|<json list of failing clauses>`` for every record and
        behaviour.  Returns ``{index: [failing clauses]}`` for rejected records.
        ``clauses``: only these clauses count (None: all).
        """
        if not records:
            return {}
        f = os.path.join(self.scratch, f"trace{len(os.listdir(self.scratch))}.ndjson")
        with open(f, "w") as fh:
            for r in records:
                fh.write(json.dumps(r) + "\n")
        e = {"TRACE": f}
        e.update(env or {})
        t = time.time()
        out, rc, dist, gen = self.tlc(module, cfg, env=e, workers=workers, timeout=timeout)
        verdicts = {}
        for m in re.finditer(r'VERDICT\|(\d+)\|(\[.*?\])"?\s*$', out, re.M):
            i = int(m.group(1))
            c = json.loads(m.group(2).replace('\\"', '"'))
            progress = 0
            if c and c[0].startswith("@"):
                progress = int(c[0][1:])
                c = c[1:]
            if clauses is not None:
                c = [x for x in c if x in clauses]
            verdicts.setdefault(i, []).append((progress, c))
        # verdicts of behaviours that explain more of the record take precedence
        verdicts = {i: [c for k, c in vs if k == max(k for k, _ in vs)]
                    for i, vs in verdicts.items()}
        if rc != 0 or len(verdicts) != len(records):
            missing = [i for i in range(1, len(records) + 1) if i not in verdicts]
            raise MachineryError(
                f"{module}: TLC judged {len(verdicts)} of {len(records)} records "
                f"(missing {missing[:5]}), rc={rc}\n{out[:1500]}\n...\n{out[-3000:]}")
        self.states += dist
        self.transitions += gen
        if count:
            self.traces += len(records)
        self.notes.setdefault("judged", []).append(
            {"module": module, "records": len(records), "states": dist,
             "seconds": round(time.time() - t, 1)})
        bad = {}
        for i, vs in verdicts.items():
            if all(vs):
                bad[i - 1] = min(vs, key=len)
        return bad

    # ---- finishing ---------------------------------------------------------------
    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    def finish(self, level=None):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples[:5],
        }
        cov.update(self.coverage)
        cov["details"] = self.notes
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": level or self.level,
            "coverage": cov,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        with open(os.path.join(EVIDENCE, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_seen:
            print(f"KNOWN-FINDING: property={self.prop} {self.known[k]}")
        if self.violations:
            rp = os.path.join(EVIDENCE, f"replay_{self.prop}.json")
            with open(rp, "w") as f:
                json.dump([{"what": w, "data": d} for w, d in self.violations[:20]], f,
                          indent=1, default=str)
            for w, _ in self.violations[:5]:
                print(f"  {w}")
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        print(f"{self.prop} {self.tier}: held; {self.states} states, "
              f"{self.traces} runs of the code judged, {time.time() - self.t0:.1f} s")
        return 0


def load_pymars():
    """Import the code under test from /repo's working tree (its log goes to scratch)."""
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    cwd = os.getcwd()
    d = tempfile.mkdtemp(prefix="pymars-import-")
    os.chdir(d)
    try:
        import pymars  # noqa: F401
        import logging
        root = logging.getLogger()
        for h in list(root.handlers):
            root.removeHandler(h)
        root.addHandler(logging.NullHandler())
        logging.disable(logging.CRITICAL)
        import cantera as ct
        ct.suppress_thermo_warnings()
        import warnings
        warnings.filterwarnings("ignore")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return sys.modules["pymars"]


@contextlib.contextmanager
def replaced(original, new, also=()):
    """Replace a function wherever modules of pymars (and the given ones) refer to it."""
    done = []
    mods = [m for k, m in list(sys.modules.items()) if k.split(".")[0] == "pymars"]
    for m in mods + list(also):
        for name, value in list(vars(m).items()):
            if value is original:
                setattr(m, name, new)
                done.append((m, name))
    try:
        yield len(done)
    finally:
        for m, name in done:
            setattr(m, name, original)
