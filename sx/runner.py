"""Exploration, replay, known findings, evidence."""
from __future__ import annotations
import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
from . import core, loader, world
from .core import Ctx, Abort, Violation, Unsupported, Inconclusive, eval_int, bnot, band, bor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Known:
    def __init__(self, e):
        self.e = e
        self.property = e["property"]
        self.job = e.get("job", "*")
        self.label = e.get("label", "*")
        self.expr = e["where"]
        self.what = e["what"]
        self.code = compile(self.expr, "known", "eval")

    def label_matches(self, label):
        return fnmatch.fnmatch(label, self.label)

    def where(self, inputs, params):
        env = {"i": _In(inputs), "p": params, "all_": band, "any_": bor, "not_": bnot,
               "zone_": world.zone_of_inputs}
        try:
            return eval(self.code, {"__builtins__": {}}, env)
        except KeyError:
            return None


class _In(dict):
    pass


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [Known(e) for e in json.load(open(p))["findings"] if e["property"] == prop]


class Job:
    """fn(w, **params) explored symbolically"""

    def __init__(self, fn, params, name, tiers, opts):
        self.fn, self.params, self.name, self.tiers, self.opts = fn, params, name, tiers, opts


class Prop:
    def __init__(self, pid, functions=(), bounds="", outside="", stubs=()):
        self.id, self.jobs = pid, []
        self.functions, self.bounds, self.outside = list(functions), bounds, outside
        self.stubs = list(stubs)

    def job(self, params=({},), tiers=("quick", "thorough"), thorough=None, **opts):
        """register a harness; `params` for both tiers, `thorough` replaces it
        in the thorough tier"""

        def deco(fn):
            def add(ps, ts):
                for p in ps:
                    nm = fn.__name__ + (
                        "[" + ",".join(f"{k}={_short(v)}" for k, v in p.items()) + "]" if p else ""
                    )
                    self.jobs.append(Job(fn, p, nm, ts, opts))

            if thorough is None:
                add(params, tiers)
            else:
                add(params, ("quick",))
                add(thorough, ("thorough",))
            return fn

        return deco


def _short(v):
    s = str(v)
    return s if len(s) < 40 else s[:37] + "..."


def cross(**kw):
    out = [{}]
    for k, vs in kw.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


# -- one slice of exploration in a worker ------------------------------------

def _conv(v, model):
    """observed symbolic value -> concrete"""
    from .core import SymInt, SymBool
    from .strs import SymStr, OpaqueStr
    from .floats import SymFloat

    if isinstance(v, (SymInt, SymBool)):
        return eval_int(v, model)
    if isinstance(v, OpaqueStr):
        return _ANY
    if isinstance(v, SymStr):
        return "".join(c if isinstance(c, str) else chr(eval_int(c, model)) for c in v.c)
    if isinstance(v, (tuple, list)):
        return tuple(_conv(x, model) for x in v)
    if isinstance(v, SymFloat):
        return _ANY
    return v


class _Any:
    def __eq__(self, o):
        return True


_ANY = _Any()


def _obs_equal(a, b):
    if len(a) != len(b):
        return False
    for (l1, v1), (l2, v2) in zip(a, b):
        if l1 != l2:
            return False
        if isinstance(v2, list):
            v2 = tuple(v2)
        if not (v1 == v2):
            return False
    return True


def explore(job, prefixes, known, seed, slice_s, replay_every, hard_deadline):
    """Explore from the given prefixes for up to slice_s seconds."""
    res = {
        "paths": 0, "aborted": 0, "branches": 0, "queries": 0, "assert_queries": 0,
        "solver_s": 0.0, "checks": 0, "replays": 0, "fallbacks": 0, "unknown": 0,
        "violations": [], "incon": [], "hits": [], "labels": set(), "samples": [],
        "mismatch": [], "left": [], "assume_fail": 0, "entered": set(),
    }
    ctx = Ctx(
        branch_timeout_ms=job.opts.get("branch_ms", 10000),
        assert_timeout_ms=job.opts.get("assert_ms", 60000), seed=seed,
    )
    ctx.deadline = hard_deadline
    ctx.fork_zones = job.opts.get('fork', False)
    core.set_ctx(ctx)
    stack = list(prefixes)
    t_end = time.monotonic() + slice_s
    n = 0
    while stack:
        if n and time.monotonic() > t_end:
            break
        prefix = stack.pop()
        ctx.begin(prefix)
        n += 1
        status = "ok"
        w = None
        try:
            ks = [k for k in known if fnmatch.fnmatch(job.name, k.job)]
            w = world.SymWorld(ctx, ks)
            w.params = job.params
            job.fn(w, **job.params)
        except Abort:
            status = "abort"
        except Violation as v:
            status = "violation"
            _violation(job, ctx, v, res)
        except Unsupported as e:
            status = "incon"
            res["incon"].append((job.name, f"unsupported: {e} {_where(e)}"))
            _witness(job, ctx, res, validate=False)
        except Inconclusive as e:
            status = "incon"
            res["incon"].append((job.name, f"inconclusive: {e}"))
            _witness(job, ctx, res, validate=False)
        except Exception as e:
            # an exception the harness does not expect
            status = "violation"
            try:
                m = ctx.model_or_inconclusive()
                v = Violation(f"unexpected {type(e).__name__}", ctx.model_inputs(m),
                              f"{e} {_where(e)}")
                _violation(job, ctx, v, res)
            except Abort:
                status = "abort"
            except Inconclusive as e2:
                res["incon"].append((job.name, f"inconclusive: {e2}"))
        if ctx.alts:
            stack.extend(ctx.alts)
        if w is not None:
            res["checks"] += w.nchecks
            for k, inp, label in w.hits:
                res["hits"].append((k.what, inp, label, job.name))
        res["labels"] |= ctx.labels
        res["entered"] |= loader.ENTERED
        if status == "abort":
            res["aborted"] += 1
        else:
            res["paths"] += 1
        if status == "ok":
            if replay_every and (res["paths"] % replay_every == 0 or res["paths"] == 1):
                _witness(job, ctx, res)
        if res["violations"] and len(res["violations"]) >= 3:
            break
        if hard_deadline is not None and time.monotonic() > hard_deadline:
            if stack:
                res["incon"].append((job.name, "time budget ran out with paths left"))
                stack = []
            break
    s = ctx.stats
    res.update(branches=s.branches, queries=s.queries, assert_queries=s.assert_queries,
               solver_s=s.solver_s, fallbacks=s.fallbacks, unknown=s.unknown_branches)
    res["left"] = stack
    return res


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/pysrc/" in f.filename or "/props/" in f.filename]
    return " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(fr[-3:]))


def _witness(job, ctx, res, validate=True):
    """Replay one model of this path on the real code."""
    try:
        m = ctx.model
        if m is None:
            m = ctx.model_or_inconclusive()
    except (Abort, Inconclusive):
        if validate:
            res["unknown"] += 1
        return
    inputs = ctx.model_inputs(m)
    st, detail, obs = world.run_real(job.fn, inputs, job.params)
    res["replays"] += 1
    if st == "fail":
        hit = False
        for k in load_known_cached(job):
            if k.label_matches(detail) and k.where(inputs, job.params):
                hit = True
        if not hit:
            res["violations"].append({
                "job": job.name, "label": detail, "inputs": inputs, "confirmed": True,
                "detail": "found when replaying a path witness on the real code",
            })
        return
    if not validate:
        return
    if st == "assume":
        res["mismatch"].append((job.name, inputs, "assumption false in replay"))
        return
    exp = [(l, _conv(v, m)) for l, v in ctx.obs]
    if not _obs_equal(exp, obs):
        res["mismatch"].append((job.name, inputs, f"model {exp} real {obs}"[:2000]))
    if len(res["samples"]) < 2:
        res["samples"].append({"job": job.name, "inputs": inputs, "observed": [
            [l, _js(v)] for l, v in obs][:6]})


_KC = {}


def load_known_cached(job):
    return [k for k in _KC.get("k", ()) if fnmatch.fnmatch(job.name, k.job)]


def _js(v):
    if isinstance(v, (int, str, bool, type(None), float)):
        return v
    if isinstance(v, (tuple, list)):
        return [_js(x) for x in v]
    return str(v)


def _violation(job, ctx, v, res, tries=40):
    """Confirm a counterexample on the real code (several models if needed)."""
    inputs = v.inputs
    st, detail, _ = world.run_real(job.fn, inputs, job.params)
    if st == "fail":
        res["violations"].append({"job": job.name, "label": v.label, "inputs": inputs,
                                  "confirmed": True, "real": detail, "detail": v.detail})
        return
    first = (inputs, st, detail)
    # other models of the same failing path: the solver state still holds the
    # path condition; ask for different inputs
    rnd = random.Random(1)
    s = ctx.solver
    s.set("timeout", 2000)
    seen = [inputs]
    import z3

    neg = getattr(ctx, "last_neg", None)
    for t in range(tries):
        cons = [] if neg is None else [neg]
        names = [n for n, x in ctx.inputs.items() if isinstance(x, core.SymInt)]
        rnd.shuffle(names)
        for n in names[: rnd.randint(1, 3)]:
            lo, hi = ctx.inputs[n].bounds()
            if lo is None or hi is None or lo == hi:
                continue
            cut = rnd.randint(lo, hi)
            e = ctx.inputs[n].expr()
            cons.append(e >= cut if rnd.random() < 0.5 else e <= cut)
        r = ctx._check(*cons)
        if r != z3.sat:
            continue
        inp = ctx.model_inputs(s.model())
        if inp in seen:
            continue
        seen.append(inp)
        st, detail, _ = world.run_real(job.fn, inp, job.params)
        if st == "fail":
            res["violations"].append({"job": job.name, "label": v.label, "inputs": inp,
                                      "confirmed": True, "real": detail, "detail": v.detail})
            return
    res["incon"].append((job.name, f"counterexample for '{v.label}' did not reproduce: "
                         f"{first} {v.detail}"[:1500]))


# -- parallel driver ----------------------------------------------------------

_G = {}


def _work(task):
    ji, prefixes, seed, slice_s, replay_every, deadline = task
    try:
        r = explore(_G["jobs"][ji], prefixes, _G["known"], seed, slice_s, replay_every, deadline)
    except BaseException as e:
        r = {"crash": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", "left": []}
    r["ji"] = ji
    return r


def run_property(pid, tier, seed=1, only=None, workers=None, verbose=False, budget=None):
    t0 = time.monotonic()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(f"props.{pid.lower()}")
    prop = mod.PROP
    jobs = [j for j in prop.jobs if tier in j.tiers and (not only or only in j.name)]
    known = load_known(pid)
    _G["jobs"], _G["known"] = jobs, known
    _KC["k"] = known
    budget = budget or (600 if tier == "quick" else 6 * 3600)
    deadline = time.monotonic() + budget
    workers = workers or min(8, os.cpu_count() or 1)
    world.real_module()
    world.load_sym()  # parse and compile once, before the fork
    tot = {k: 0 for k in ("paths", "aborted", "branches", "queries", "assert_queries",
                          "checks", "replays", "fallbacks", "unknown")}
    tot["solver_s"] = 0.0
    agg = {"violations": [], "incon": [], "hits": [], "samples": [], "mismatch": [], "crash": [], "entered": set()}
    labels = set()
    perjob = {}
    pending = [(i, [[]]) for i in range(len(jobs))]
    slice_s = 2.0 if tier == "quick" else 20.0
    ctxm = mp.get_context("fork")
    pool = ctxm.Pool(workers)
    active = 0
    results = []
    import queue

    q = queue.Queue()

    def submit(ji, prefixes):
        j = jobs[ji]
        rep = j.opts.get("replay_every", 1)
        pool.apply_async(
            _work, ((ji, prefixes, seed, slice_s, rep, deadline),),
            callback=q.put, error_callback=lambda e: q.put({"crash": repr(e), "left": [], "ji": ji}),
        )

    for ji, p in pending:
        submit(ji, p)
        active += 1
    stop = False
    while active:
        try:
            r = q.get(timeout=max(1.0, deadline - time.monotonic() + 60))
        except queue.Empty:
            agg["incon"].append(("driver", "workers did not answer in time"))
            break
        active -= 1
        if "crash" in r:
            agg["crash"].append((jobs[r["ji"]].name, r["crash"]))
            continue
        jn = jobs[r["ji"]].name
        pj = perjob.setdefault(jn, {"paths": 0, "aborted": 0, "checks": 0, "solver_s": 0.0})
        for k in ("paths", "aborted", "checks"):
            pj[k] += r[k]
        pj["solver_s"] += r["solver_s"]
        for k in tot:
            tot[k] += r[k]
        for k in ("violations", "incon", "hits", "samples", "mismatch"):
            agg[k] += r[k]
        labels |= r["labels"]
        agg["entered"] |= r["entered"]
        if verbose and (r["violations"] or r["incon"] or r["mismatch"]):
            print("..", jn, str(r["violations"])[:500], str(r["incon"])[:500], str(r["mismatch"])[:800], file=sys.stderr)
        if len(agg["violations"]) >= 5:
            stop = True
            break
        left = r["left"]
        if left:
            # hand the remaining work back in a few pieces
            k = max(1, min(len(left), workers if active < workers * 2 else 1))
            for c in range(k):
                part = left[c::k]
                if part:
                    submit(r["ji"], part)
                    active += 1
    pool.terminate()
    pool.join()
    if verbose:
        for jn, pj in sorted(perjob.items(), key=lambda x: -x[1]["solver_s"])[:8]:
            print("slow", round(pj["solver_s"], 1), pj["paths"], jn, file=sys.stderr)
    wall = time.monotonic() - t0
    return finish(prop, pid, tier, seed, jobs, tot, agg, labels, perjob, wall, known, only)


def finish(prop, pid, tier, seed, jobs, tot, agg, labels, perjob, wall, known, only):
    viol = [v for v in agg["violations"] if v["confirmed"]]
    dead = [] if viol else [j.name for j in jobs if perjob.get(j.name, {}).get("checks", 0) == 0]
    rc = 0
    out = []
    if viol:
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        v = viol[0]
        path = os.path.join(VERIF, "evidence", "replay", f"{pid}.json")
        job = next(j for j in jobs if j.name == v["job"])
        json.dump({"property": pid, "job": v["job"], "label": v["label"],
                   "inputs": v["inputs"], "params": _jsp(job.params),
                   "real_outcome": v.get("real", v.get("detail")),
                   "how": f"python3-vt /verif/run.py {pid} --replay {path}",
                   "others": viol[1:5]}, open(path, "w"), indent=1, default=str)
        out.append(f"VIOLATION property={pid} replay={path}")
        out.append(f"  {v['job']}: {v['label']}  inputs={v['inputs']}")
        rc = 1
    seen = set()
    for what, inp, label, jn in agg["hits"]:
        if what not in seen:
            seen.add(what)
            out.append(f"KNOWN-FINDING: property={pid} {what} (e.g. {jn} {inp})")
    problems = []
    for jn, msg in agg["crash"]:
        problems.append(f"CRASH {jn}: {msg}")
    for jn, inp, msg in agg["mismatch"]:
        problems.append(f"ENCODING-MISMATCH {jn} {inp}: {msg}")
    for jn, msg in agg["incon"]:
        problems.append(f"INCONCLUSIVE {jn}: {msg}")
    for jn in dead:
        problems.append(f"VACUOUS {jn}: no assertion was reached")
    if rc == 0:
        hard = agg["crash"] or agg["mismatch"] or dead
        done = max(0, tot["paths"] - len(agg["incon"]))
        # paths the engine could not decide are reported and not counted as
        # explored; a run that is mostly undecided has no answer
        if hard or (agg["incon"] and done < 4 * len(agg["incon"])):
            rc = 2
    for p in problems[:12]:
        out.append(p[:1800])
    if len(problems) > 12:
        out.append(f"... {len(problems)} problems in all")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["branches"],
            "traces_validated_against_impl": tot["replays"],
            "samples": agg["samples"][:8],
            "functions_encoded": sorted(agg["entered"]),
            "functions_under_claim": prop.functions,
            "bounds": prop.bounds,
            "outside_bounds": prop.outside,
            "stubs_and_assumptions": prop.stubs,
            "harness_jobs": len(jobs),
            "assertion_labels": sorted(labels),
            "assertions_checked": tot["checks"],
            "queries_discharged": tot["queries"],
            "assertion_queries": tot["assert_queries"],
            "solver_seconds": round(tot["solver_s"], 2),
            "solver": "z3 " + __import__("z3").get_version_string(),
            "infeasible_or_assumed_away_paths": tot["aborted"],
            "undecided_paths": len(agg["incon"]),
            "undecided_detail": [p[:300] for p in problems[:10]],
            "known_finding_hits": len(agg["hits"]),
            "violations": len(viol),
            "jobs": perjob if len(perjob) <= 60 else dict(list(perjob.items())[:60]),
        },
        "wall_s": round(wall, 2),
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    out.append(
        f"{pid} {tier}: jobs={len(jobs)} paths={tot['paths']} aborted={tot['aborted']} "
        f"asserts={tot['checks']} queries={tot['queries']} solver={tot['solver_s']:.1f}s "
        f"replays={tot['replays']} undecided={len(agg['incon'])} wall={wall:.1f}s rc={rc}"
    )
    print("\n".join(out))
    return rc


def _jsp(p):
    return {k: _js(v) for k, v in p.items()}


def replay(pid, path):
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(f"props.{pid.lower()}")
    d = json.load(open(path))
    for j in mod.PROP.jobs:
        if j.name == d["job"]:
            st, detail, obs = world.run_real(j.fn, d["inputs"], j.params)
            print(st, detail)
            for l, v in obs:
                print("  ", l, "=", v)
            return 1 if st == "fail" else 0
    print("no such job")
    return 2
