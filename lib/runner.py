"""Runs the units of one property: deterministic sweeps and Hypothesis searches
over generated cases, sharded over processes; writes evidence and replay files.

A unit is (name, check, cases | strategy).  A case is JSON-able.  check(case, ctx)
raises Violation when the property does not hold for the case; any other
exception that escapes the code under test is a violation too (check bodies
reach the oracle through ref(), whose failures are harness errors).
"""
import collections
import hashlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

from . import env  # noqa: F401
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings

CPU_PER_CASE = 120        # seconds of CPU one case may use before it counts as a hang
SHRINK_WALL = 25
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))


class Violation(Exception):
    pass


class HarnessError(BaseException):
    pass


class _Stop(KeyboardInterrupt):
    pass


class _Hang(KeyboardInterrupt):
    pass


class Discard(BaseException):
    """The case is outside the property's domain."""


def ref(fn, *a, **k):
    """Call the oracle: its failure is the harness's fault."""
    try:
        return fn(*a, **k)
    except Discard:
        raise
    except Exception as e:
        raise HarnessError("oracle failed: %r\n%s" % (e, traceback.format_exc()))


class Ctx(object):
    def __init__(self):
        self.labels = collections.Counter()
        self.cur = None
        self.nontrivial = set()
        self.evaluations = 0
        self.discarded = 0
        self.samples = {}
        self.replaying = False

    def note(self, labels=(), key=None, nontrivial=True):
        """Classify the current case; key identifies it for distinct counting."""
        if self.cur is None:
            return
        labels, unit, case = list(labels), self.cur[0], self.cur[1]
        self.labels.update(set(labels))
        if nontrivial:
            k = key if key is not None else json.dumps(case, sort_keys=True)
            self.nontrivial.add(hashlib.blake2b(("%s|%s" % (unit, k)).encode(), digest_size=8).digest())
        s = self.samples.setdefault(unit, [])
        if nontrivial and len(s) < 2:
            t = json.dumps(case)
            s.append(case if len(t) < 700 else t[:700] + "...")


class Unit(object):
    def __init__(self, name, check, cases=None, strategy=None, quick=0, thorough=0, always=False):
        self.name, self.check = name, check
        self.cases, self.strategy = cases, strategy
        self.quick, self.thorough = quick, thorough


def _on_cpu(signum, frame):
    raise _Hang()


def run_case(unit, case, ctx):
    """-> None or violation text."""
    ctx.cur = (unit.name, case)
    ctx.evaluations += 1
    signal.setitimer(signal.ITIMER_PROF, CPU_PER_CASE)
    try:
        unit.check(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except Discard:
        ctx.discarded += 1
        return None
    except _Hang:
        return "no result within %d s of CPU time" % CPU_PER_CASE
    except (HarnessError, _Stop):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-3:])
        return "unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:300], where)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.cur = None


def _seed_for(prop, unit, shard, base):
    return int.from_bytes(hashlib.blake2b(("%s/%s/%d/%d" % (prop, unit, shard, base)).encode(), digest_size=8).digest(), "big")


class _Found(Exception):
    pass


def _shard(prop, units, shard, nshards, base_seed, tier, t_end, conn):
    ctx = Ctx()
    per_unit = {}
    out = {"violation": None, "error": None, "cut": []}
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        signal.signal(signal.SIGPROF, _on_cpu)
        for ui, unit in enumerate(units):
            before = ctx.evaluations
            if unit.cases is not None:
                for i, case in enumerate(unit.cases(tier)):
                    if (i + ui) % nshards != shard:
                        continue
                    if time.time() > t_end:
                        out["cut"].append(unit.name)
                        break
                    msg = run_case(unit, case, ctx)
                    if msg is not None:
                        out["violation"] = (unit.name, case, msg)
                        break
            else:
                n = unit.quick if tier == "quick" else unit.thorough
                n = n // nshards + (1 if shard < n % nshards else 0)
                if n:
                    v = _hyp(prop, unit, shard, n, base_seed, ctx, t_end, out)
                    if v:
                        out["violation"] = v
            per_unit[unit.name] = ctx.evaluations - before
            if out["violation"]:
                break
    except HarnessError as e:
        out["error"] = str(e)
    except BaseException as e:
        out["error"] = "%r\n%s" % (e, traceback.format_exc())
    out.update(labels=dict(ctx.labels), nontrivial=ctx.nontrivial, evaluations=ctx.evaluations,
               samples=ctx.samples, discarded=ctx.discarded, per_unit=per_unit)
    conn.send(out)
    conn.close()


def _hyp(prop, unit, shard, n, base_seed, ctx, t_end, out):
    best = []
    state = {"t": None, "n": 0}

    @hseed(_seed_for(prop, unit.name, shard, base_seed))
    @settings(max_examples=n, deadline=None, database=None, derandomize=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
              report_multiple_bugs=False)
    @given(unit.strategy)
    def go(case):
        now = time.time()
        if state["t"] is not None and now - state["t"] > SHRINK_WALL:
            raise _Stop()
        if state["t"] is None:
            state["n"] += 1
            if now > t_end:
                out["cut"].append(unit.name)
                raise _Stop()
        msg = run_case(unit, case, ctx)
        if msg is not None:
            if state["t"] is None:
                state["t"] = now
            c = json.loads(json.dumps(case))
            size = len(json.dumps(c))
            if not best or size <= best[0][0]:
                best[:] = [(size, c, msg)]
            if msg.startswith("no result within"):
                raise _Stop()
            raise _Found(msg)

    try:
        go()
    except (_Stop, _Found):
        pass
    except Exception as e:
        if not best:
            raise HarnessError("hypothesis: %r\n%s" % (e, traceback.format_exc()))
    if best:
        return (unit.name, best[0][1], best[0][2])
    return None


def run(prop, mod, tier, base_seed):
    t0 = time.time()
    budget = 420 if tier == "quick" else 6 * 3600
    budget = float(os.environ.get("VERIF_BUDGET", budget))
    t_end = t0 + budget
    units = mod.units(tier)
    only = os.environ.get("VERIF_UNIT")
    if only:
        units = [u for u in units if u.name == only]
    mp = multiprocessing.get_context("fork")
    procs = []
    for s in range(SHARDS):
        a, b = mp.Pipe(duplex=False)
        p = mp.Process(target=_shard, args=(prop, units, s, SHARDS, base_seed, tier, t_end, b))
        p.start()
        b.close()
        procs.append((p, a))
    results, violation, error = [], None, None
    pending = list(procs)
    hard = t_end + CPU_PER_CASE + SHRINK_WALL + 60
    while pending:
        ready = multiprocessing.connection.wait([c for _, c in pending], timeout=5)
        for c in ready:
            p = [x for x in pending if x[1] is c][0]
            pending.remove(p)
            try:
                r = c.recv()
            except EOFError:
                error = error or "a shard died (exit %s)" % p[0].exitcode
                continue
            results.append(r)
            if r["error"]:
                error = error or r["error"]
            if r["violation"] and (violation is None or len(json.dumps(r["violation"][1])) < len(json.dumps(violation[1]))):
                violation = r["violation"]
        if violation and pending:
            break
        if time.time() > hard:
            break
    for p, _ in pending:
        p.terminate()
    for p, _ in procs:
        p.join(10)
        if p.is_alive():
            p.kill()
    labels, per_unit = collections.Counter(), collections.Counter()
    nontrivial, samples, cut = set(), {}, set()
    ev = disc = 0
    for r in results:
        labels.update(r["labels"])
        per_unit.update(r["per_unit"])
        nontrivial |= r["nontrivial"]
        ev += r["evaluations"]
        disc += r["discarded"]
        cut.update(r["cut"])
        for k, v in r["samples"].items():
            samples.setdefault(k, []).extend(v)
    evidence = {
        "property": prop, "tier": tier, "seed": base_seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(nontrivial), "discarded": disc,
            "rule": mod.RULE, "samples": [{"unit": k, "case": c} for k, v in sorted(samples.items()) for c in v[:2]],
            "per_unit": dict(per_unit), "classes": dict(sorted(labels.items())),
            "units_cut_by_time_budget": sorted(cut),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if violation:
        os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
        path = os.path.join(env.VERIF, "replays", "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "unit": violation[0], "case": violation[1], "message": violation[2],
                       "replay": "./check %s --replay %s" % (prop, path)}, f, indent=1)
        print("%s [%s]: %s" % (prop, violation[0], violation[2]))
        print("case: %s" % json.dumps(violation[1])[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if error:
        sys.stderr.write("harness error: %s\n" % error)
        return 2
    for line in known_findings(prop):
        print("KNOWN-FINDING: " + line)
    print("%s: held on %d cases (%d distinct non-trivial) in %.1f s" % (prop, ev, len(nontrivial), time.time() - t0))
    return 0


def known_findings(prop):
    path = os.path.join(env.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % prop):
                out.append(line[len("finding: "):].strip())
    return out


def replay(prop, mod, path):
    d = json.load(open(path))
    signal.signal(signal.SIGPROF, _on_cpu)
    for tier in ("quick", "thorough"):
        for u in mod.units(tier):
            if u.name == d["unit"]:
                msg = run_case(u, d["case"], Ctx())
                if msg is not None:
                    print("%s [%s]: %s" % (prop, u.name, msg))
                    print("VIOLATION property=%s replay=%s" % (prop, path))
                    return 1
                print("%s [%s]: the saved case passes" % (prop, u.name))
                return 0
    sys.stderr.write("no unit %r in %s\n" % (d["unit"], prop))
    return 2
