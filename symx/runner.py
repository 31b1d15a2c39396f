"""Runs the cases of one property over a pool of processes and reports."""
import concurrent.futures as cf
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAIN_PYTHON = "/opt/venv/bin/python"
MAX_EAGER_S = 240


def jdefault(o):
    return int(o) if hasattr(o, "__index__") else str(o)


class Case:
    """one harness with concrete structural parameters"""

    def __init__(self, fn, reach=(), bounds="", eager_params=None, path_timeout=60, module=None, **params):
        self.fn = fn
        self.params = params
        self.reach = list(reach)
        self.bounds = bounds
        self.eager_params = eager_params
        self.path_timeout = path_timeout
        self.module = module

    @property
    def name(self):
        return self.fn + "(" + ", ".join("%s=%s" % kv for kv in self.params.items()) + ")"


_initialised = False


def _init():
    global _initialised
    if _initialised:
        return
    _initialised = True
    from . import env

    env.load(symbolic=True)


def run_slice(module, fn, params, prefixes, slice_s, eager, path_timeout):
    """worker: explore the given prefixes for at most slice_s seconds"""
    try:
        _init()
        from . import env
        from .engine import Engine, Control

        f = getattr(importlib.import_module(module), fn)
        t0 = time.monotonic()
        deadline = t0 + slice_s
        out = dict(stats={}, reached={}, violations=[], samples=[], remaining=[], tainted=False, error=None)
        for n, p in enumerate(prefixes):
            if time.monotonic() > deadline:
                out["remaining"] += prefixes[n:]
                break
            e = Engine(eager=eager, forced=p, deadline=deadline, path_timeout=path_timeout)
            try:
                out["remaining"] += e.explore(lambda E: f(E, **params))
            except Control as c:
                out["error"] = "%s: %s" % (type(c).__name__, c)
            for k, v in e.stats.items():
                if k == "max_depth":
                    out["stats"][k] = max(v, out["stats"].get(k, 0))
                else:
                    out["stats"][k] = out["stats"].get(k, 0) + v
            for k, v in e.reached.items():
                out["reached"][k] = out["reached"].get(k, 0) + v
            out["samples"] += [e.samples[i] for i in sorted({0, len(e.samples) // 2, len(e.samples) - 1}) if e.samples][:3]
            out["violations"] += e.violations
            out["tainted"] |= e.tainted_text
            if out["violations"] or out["error"]:
                if out["violations"] and getattr(e, "last_exception", None) is not None:
                    out["traceback"] = "".join(traceback.format_exception(e.last_exception))[-2500:]
                break
        out["touched"] = env.take_touched()
        out["samples"] = json.loads(json.dumps(out["samples"][:4], default=jdefault))
        out["cpu_s"] = time.monotonic() - t0
        return out
    except BaseException:
        return dict(stats={}, reached={}, violations=[], samples=[], remaining=[], tainted=False,
                    error="worker: " + traceback.format_exc()[-3000:], touched=[], cpu_s=0)


class CaseState:
    def __init__(self, case, eager=False):
        self.case = case
        self.eager = eager
        self.params = dict(case.params)
        if eager and case.eager_params:
            self.params.update(case.eager_params)
        self.jobs = 0
        self.stats = {}
        self.reached = {}
        self.samples = []
        self.violations = []
        self.errors = []
        self.incomplete = 0
        self.tainted = False
        self.pending = [[[]]]  # groups of prefixes still to be explored
        self.cpu_s = 0.0

    def merge(self, r):
        for k, v in r["stats"].items():
            if k == "max_depth":
                self.stats[k] = max(v, self.stats.get(k, 0))
            else:
                self.stats[k] = self.stats.get(k, 0) + v
        for k, v in r["reached"].items():
            self.reached[k] = self.reached.get(k, 0) + v
        if len(self.samples) < 6:
            self.samples += r["samples"]
        self.violations += [(v, r.get("traceback")) for v in r["violations"]]
        if r["error"]:
            self.errors.append(r["error"])
        self.tainted |= r["tainted"]
        self.cpu_s += r["cpu_s"]


class Runner:
    def __init__(self, prop, module, tier, budget, workers=None):
        self.prop = prop
        self.module = module
        self.mod = importlib.import_module(module)
        self.tier = tier
        self.t0 = time.monotonic()
        self.deadline = self.t0 + budget
        self.workers = workers or int(os.environ.get("VERIF_WORKERS", "8"))
        self.touched = set()
        self.notes = []
        self.validated = 0
        self.replayed = 0

    def mod_of(self, case):
        return case.module or self.module

    def explore(self, states, deadline):
        """run all case states to completion or deadline; stops early once a
        case has a violation"""
        ctx = multiprocessing.get_context("fork")
        with cf.ProcessPoolExecutor(self.workers, mp_context=ctx) as pool:
            running = {}
            todo = []
            for s in states:
                todo += [(s, pre) for pre in s.pending]
                s.pending = []
            todo.reverse()
            stop = False
            while todo or running:
                now = time.monotonic()
                while todo and len(running) < self.workers and not stop and now < deadline:
                    s, pre = todo.pop()
                    if s.violations or s.errors:
                        continue
                    slice_s = max(0.5, min(6.0 if self.tier == "quick" else 20.0, deadline - now))
                    f = pool.submit(run_slice, self.mod_of(s.case), s.case.fn, s.params, pre, slice_s,
                                    s.eager, s.case.path_timeout)
                    running[f] = s
                if now >= deadline:
                    for s, pre in todo:
                        s.incomplete += len(pre)
                    todo = []
                if stop:
                    for s, pre in todo:
                        s.pending.append(pre)
                    todo = []
                if not running:
                    break
                done, _ = cf.wait(list(running), timeout=1.0, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    s = running.pop(f)
                    try:
                        r = f.result()
                    except Exception as e:
                        s.errors.append("worker died: %r" % (e,))
                        raise
                    s.merge(r)
                    self.touched.update(r["touched"])
                    rem = r["remaining"]
                    if rem:
                        # spread the remaining subtrees over the pool
                        n = max(1, min(len(rem), 2 * self.workers))
                        for i in range(n):
                            todo.insert(0, (s, rem[i::n]))
                    if s.violations:
                        stop = True

    def replay(self, s, assignment):
        job = dict(property=self.prop, module=self.mod_of(s.case), fn=s.case.fn, params=s.params,
                   assignment=assignment)
        return self.run_concrete([job])[0], job

    def run_concrete(self, jobs, timeout=600):
        with tempfile.TemporaryDirectory(prefix="symx-") as d:
            inp, outp = os.path.join(d, "in.json"), os.path.join(d, "out.json")
            with open(inp, "w") as f:
                json.dump(jobs, f, default=jdefault)
            e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE)
            p = subprocess.run([PLAIN_PYTHON, "-m", "symx.replay", "--batch", inp, outp], cwd=d, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            if not os.path.exists(outp):
                return [dict(status="error", msg=p.stdout.decode(errors="replace")[-3000:], obs=[], labels=[])
                        for _ in jobs]
            with open(outp) as f:
                return json.load(f)


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def main(prop, module, tier, budget):
    r = Runner(prop, module, tier, budget)
    cases = r.mod.cases(tier)
    states = [CaseState(c) for c in cases]
    confirmed = []
    fatal = []
    eager = []
    todo = list(states)
    while todo and not confirmed:
        r.explore(todo, r.deadline)
        for s in todo:
            bad = None
            for (msg, asg), tb in s.violations[:3]:
                res, job = r.replay(s, asg)
                r.replayed += 1
                if res["status"] == "violation":
                    confirmed.append((s, msg, res, job))
                    break
                bad = "counterexample did not reproduce (%s: %s): %s\n%s" % (res["status"], res["msg"], msg,
                                                                                  res.get("traceback") or tb or "")
            else:
                if bad or s.errors:
                    why = bad or s.errors[0]
                    r.notes.append("%s: symbolic execution not conclusive, repeated with inputs fixed "
                                   "before execution: %s" % (s.case.name, why[:1500]))
                    eager.append(s.case)
                    s.incomplete += sum(len(p) for p in s.pending)
                    s.pending = []
                elif s.tainted and s.case not in eager:
                    r.notes.append("%s: text of a symbolic value was used, repeated with inputs fixed "
                                   "before execution" % s.case.name)
                    eager.append(s.case)
            if confirmed:
                break
        todo = [s for s in todo if s.pending]

    # validate the symbolic executor: replay sample paths on the plain code
    if not confirmed:
        jobs, meta = [], []
        for s in states:
            for asg, obs in s.samples[: (2 if tier == "quick" else 4)]:
                jobs.append(dict(property=prop, module=r.mod_of(s.case), fn=s.case.fn, params=s.params, assignment=asg))
                meta.append((s, obs))
        jobs, meta = jobs[:120], meta[:120]
        if jobs:
            for job, (s, obs), res in zip(jobs, meta, r.run_concrete(jobs)):
                if res["status"] == "violation":
                    confirmed.append((s, res["msg"], res, job))
                    break
                if res["status"] != "ok" or res["obs"] != obs:
                    if s.case not in eager:
                        r.notes.append("%s: a sample path behaves differently when replayed (%s %s), repeated "
                                       "with inputs fixed before execution" % (s.case.name, res["status"], res["msg"]))
                        r.notes.append("expected %s got %s" % (str(obs)[:300], str(res["obs"])[:300]))
                        eager.append(s.case)
                else:
                    r.validated += 1

    estates = []
    if eager and not confirmed:
        estates = [CaseState(c, eager=True) for c in eager]
        edeadline = time.monotonic() + MAX_EAGER_S
    todo = list(estates)
    while todo and not confirmed:
        r.explore(todo, edeadline)
        for s in todo:
            bad = None
            for (msg, asg), tb in s.violations[:3]:
                res, job = r.replay(s, asg)
                r.replayed += 1
                if res["status"] == "violation":
                    confirmed.append((s, msg, res, job))
                    break
                bad = "%s (%s: %s)\n%s" % (msg, res["status"], res["msg"], tb or "")
            else:
                if bad:
                    fatal.append("%s: counterexample does not reproduce: %s" % (s.case.name, bad))
                if s.errors:
                    fatal.append("%s: %s" % (s.case.name, s.errors[0]))
                if bad or s.errors:
                    s.incomplete += sum(len(p) for p in s.pending)
                    s.pending = []
            if confirmed:
                break
        todo = [s for s in todo if s.pending]

    wall = time.monotonic() - r.t0
    allstates = states + estates
    want, got = set(), set()
    for c in cases:
        want.update(c.reach)
    for s in allstates:
        got.update(s.reached)
    missing = sorted(want - got)
    if missing and not confirmed and not fatal:
        if eager or any(s.incomplete for s in allstates):
            r.notes.append("not reached within the time budget: " + ", ".join(missing))
        else:
            fatal.append("required situations were never reached (vacuous): " + ", ".join(missing))

    write_evidence(r, cases, allstates, tier, wall, confirmed, fatal, missing)

    for n in r.notes:
        print("note:", n)
    if confirmed:
        s, msg, res, job = confirmed[0]
        job["message"] = res["msg"]
        job["traceback"] = res.get("traceback")
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(job, f, indent=1, default=jdefault)
        print("counterexample in %s: %s" % (s.case.name, res["msg"]))
        print("inputs: %s" % json.dumps(job["assignment"], default=jdefault)[:2000])
        if res.get("traceback"):
            print(res["traceback"])
        print("replay with: cd %s && PYTHONHASHSEED=0 %s -m symx.replay %s" % (HERE, PLAIN_PYTHON, path))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if fatal:
        for m in fatal:
            print("ERROR:", m)
        undecided = {m.split(": ")[0] for m in fatal}
        if any(m.startswith("required situations") for m in fatal) or len(undecided) >= len(cases):
            return 2
        print("INCONCLUSIVE: %d of %d cases are not decided; the others hold" % (len(undecided), len(cases)))
    inc = [s.case.name for s in allstates if s.incomplete]
    tot = {}
    for s in allstates:
        for k, v in s.stats.items():
            tot[k] = tot.get(k, 0) + v
    for k in load_known():
        if k.get("property") == prop and k.get("label") in got:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("OK property=%s tier=%s cases=%d paths=%d queries=%d assertions=%d validated=%d wall=%.1fs%s" % (
        prop, tier, len(cases), tot.get("paths", 0), tot.get("queries", 0), tot.get("checks", 0),
        r.validated, wall, " incomplete=%d" % len(inc) if inc else ""), flush=True)
    return 0


def write_evidence(r, cases, states, tier, wall, confirmed, fatal, missing):
    tot = {}
    for s in states:
        for k, v in s.stats.items():
            tot[k] = max(v, tot.get(k, 0)) if k == "max_depth" else tot.get(k, 0) + v
    reached = {}
    for s in states:
        for k, v in s.reached.items():
            reached[k] = reached.get(k, 0) + v
    samples = []
    for s in states:
        for asg, obs in s.samples[:1]:
            if len(samples) < 12:
                samples.append({"case": s.case.name, "inputs": asg, "observed": obs[:6]})
    mod = r.mod
    ev = dict(
        property=r.prop,
        tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "1")),
        level="model_checking",
        wall_s=round(wall, 2),
        violations=len(confirmed),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        coverage=dict(
            explanation="bounded symbolic execution of the real code: states are symbolic states at which "
            "the execution had to be decided by the solver (or a forced value), transitions the decided "
            "branch outcomes; every path is explored unless listed under incomplete_cases",
            states=tot.get("decisions", 0),
            transitions=tot.get("decisions", 0) + tot.get("forks", 0),
            traces_validated_against_impl=r.validated,
            samples=samples,
            exhaustive=not any(s.incomplete for s in states) and not fatal and not confirmed,
            paths=tot.get("paths", 0),
            paths_outside_assumptions=tot.get("abandoned", 0),
            max_decisions_on_a_path=tot.get("max_depth", 0),
            solver="z3",
            solver_queries=tot.get("queries", 0),
            solver_seconds=round(tot.get("solver_s", 0.0), 2),
            cpu_seconds=round(sum(s.cpu_s for s in states), 1),
            assertions_evaluated=tot.get("checks", 0),
            assertions_by_solver=tot.get("checks_solver", 0),
            assertions_folded=tot.get("checks_folded", 0),
            counterexamples_replayed=r.replayed,
            functions_encoded=sorted(r.touched),
            situations_reached=reached,
            situations_missing=missing,
            bounds=sorted({c.bounds for c in cases if c.bounds}),
            outside_bounds=getattr(mod, "OUTSIDE", ""),
            stubs=list(getattr(mod, "STUBS", [])),
            incomplete_cases=[s.case.name for s in states if s.incomplete],
            cases=[dict(case=s.case.name, fixed_inputs_first=s.eager, paths=s.stats.get("paths", 0),
                        queries=s.stats.get("queries", 0), assertions=s.stats.get("checks", 0),
                        solver_s=round(s.stats.get("solver_s", 0), 2), cpu_s=round(s.cpu_s, 2))
                   for s in states][:200],
            notes=r.notes,
            errors=fatal,
        ),
    )
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % r.prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=jdefault)
    os.replace(tmp, os.path.join(d, "%s.json" % r.prop))
