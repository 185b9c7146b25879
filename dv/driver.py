"""Runs the contracts of one property and reports."""
import argparse
import importlib
import json
import multiprocessing
import os
import random
import sys
import time
import traceback
from fractions import Fraction

from . import core, smt

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def jsonable(v):
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (str, bool, int, float)) or v is None:
        return v
    if hasattr(v, "tolist"):
        return v.tolist()
    return repr(v)


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"]
                if k["property"] == prop and k.get("status") == "open"]


class Result:
    """Picklable outcome of one contract."""

    def __init__(self, name):
        self.name = name
        self.obs = []           # dicts
        self.error = None
        self.violations = []    # dicts
        self.known = []
        self.paths = 0
        self.completed = 0
        self.covers = {}
        self.witnesses = 0
        self.samples = 0
        self.rejected = 0
        self.concrete_checks = 0
        self.example = None
        self.stats = {}
        self.wall = 0.0
        self.notes = []


def match_known(kfs, contract, name, sig):
    for k in kfs:
        if k["contract"] == contract and k["obligation"] == name:
            if k.get("sig") is None or sig is None or sig in k["sig"]:
                return k
    return None


def concrete_once(con, rnd, env):
    """-> ('reject'|'ok'|'fail', cx, failures)"""
    try:
        cx, err = core.run_concrete(con.harness, rnd, env)
    except core.Reject:
        return "reject", None, []
    except core.Unsupported:
        return "unsupported", None, []
    fails = list(cx.failed)
    if err is not None:
        fails.append(("raises " + type(err).__name__,
                      err.tb.strip()[-1500:]))
    return ("fail" if fails else "ok"), cx, fails


def find_replay(con, name, env, choices, seed, seconds=20.0, tries=600):
    """A concrete input on which the real code fails obligation `name`."""
    base = {"choice:" + k: v for k, v in choices}
    t0 = time.time()
    for k in range(tries):
        if time.time() - t0 > seconds:
            break
        e = dict(base)
        if k == 0:
            e.update(env or {})
        elif k % 3 == 1 and env:
            # keep the integers and booleans of the counter-model
            e.update({a: b for a, b in env.items()
                      if isinstance(b, (int, bool))})
        st, cx, fails = concrete_once(con, random.Random((seed, k).__repr__()),
                                      e)
        if st != "fail":
            continue
        for f in fails:
            if same_obligation(f[0], name) or f[0].startswith("raises"):
                return cx, f
    return None


def same_obligation(a, b):
    return a == b or a.startswith(b) or b.startswith(a)


def run_contract(args):
    prop, idx, tier, seed, scale = args
    mod = importlib.import_module("contracts." + prop)
    con = mod.CONTRACTS[idx]
    kfs = known_findings(prop)
    r = Result(con.name)
    t0 = time.time()
    smt.STATS = {"z3": [0, 0.0], "cvc5": [0, 0.0]}
    try:
        _run(prop, con, tier, seed, kfs, r, scale)
    except Exception:
        r.error = "internal: " + traceback.format_exc()
    r.wall = time.time() - t0
    r.stats = smt.STATS
    return r


def _run(prop, con, tier, seed, kfs, r, scale):
    thorough = tier == "thorough"
    ex = core.Explorer(timeout=con.timeout * (3 if thorough else 1),
                       budget=con.budget * scale * (3 if thorough else 1),
                       max_paths=con.max_paths)
    err = None
    if con.bounded is None or con.bounded.startswith("partly"):
        err = ex.run(con.harness)
        r.paths, r.completed, r.covers = ex.paths, ex.completed, ex.covers
        if err is not None:
            r.error = "%s: %s" % (type(err).__name__, err)
            r.notes.append(getattr(err, "tb", "")[-3000:])
    names = {}
    for o in ex.obs:
        d = dict(name=o.name, status=o.status, backend=o.backend,
                 time=o.time, detail=o.detail, sig=o.sig, path=o.path)
        if o.status == "refuted":
            k = match_known(kfs, con.name, o.name, o.sig)
            if k is not None and (k.get("path") is None or all(
                    list(x) in [list(y) for y in o.path] for x in k["path"])):
                d["status"] = "known"
                r.known.append(k)
            else:
                names.setdefault(o.name, []).append(o)
        r.obs.append(d)

    kfnames = [k["obligation"] for k in kfs if k["contract"] == con.name]

    # refuted obligations: replay on the real code
    weak_hit = False
    for name, obs in sorted(names.items())[:8]:
        hit = None
        for o in obs[:3]:
            env = {k: jsonable(v) for k, v in (o.env or {}).items()
                   if v is not None}
            hit = find_replay(con, name, env, o.path, seed)
            if hit:
                break
        if not hit and con.weak:
            for d in r.obs:
                if d["name"] == name and d["status"] == "refuted":
                    d["status"] = "unknown"
            weak_hit = True
            continue
        v = dict(contract=con.name, obligation=name, verdict="refuted",
                 backend=obs[0].backend, detail=obs[0].detail,
                 path=obs[0].path, sig=obs[0].sig)
        if hit:
            cx, f = hit
            v.update(input=jsonable(cx.used), observed=f[1], failed=f[0],
                     replayed=True)
        else:
            v.update(input=jsonable(obs[0].env), replayed=False)
        r.violations.append(v)

    # the same contracts, run on the real code with concrete inputs
    n = int((150 if thorough else 30) * con.samples)
    undecided = weak_hit or err is not None or con.bounded is not None or any(
        o.status == "unknown" for o in ex.obs)
    if undecided:
        n = int((3000 if thorough else 400) * con.samples)
    tlimit = time.time() + (240 if thorough else 60) * scale
    rnd = random.Random("%s/%s/%s" % (seed, prop, con.name))
    bad = {}
    unsupported = 0
    k = tries = 0
    while k < n and tries < 30 * n and time.time() < tlimit:
        tries += 1
        st, cx, fails = concrete_once(con, rnd, None)
        if st == "reject":
            r.rejected += 1
            continue
        if st == "unsupported":
            unsupported += 1
            if unsupported > 5:
                break
            continue
        k += 1
        r.concrete_checks += cx.checked
        if cx.checked:
            r.witnesses += 1
        if r.example is None:
            r.example = jsonable(cx.used)
        for f in fails:
            if any(same_obligation(f[0], kn) for kn in kfnames):
                for kf in kfs:
                    if kf["contract"] == con.name and kf not in r.known and \
                            same_obligation(f[0], kf["obligation"]) and \
                            not any(kf["obligation"] == d["name"]
                                    for d in r.obs):
                        r.known.append(kf)
                continue
            bad.setdefault(f[0], []).append((cx, f))
        if len(bad) > 5 or "raises Hang" in bad:
            break
    r.samples = k
    done = [v["obligation"] for v in r.violations]
    for name, hits in sorted(bad.items()):
        if any(same_obligation(name, d) for d in done):
            continue
        cx, f = hits[0]
        r.violations.append(dict(
            contract=con.name, obligation=name,
            verdict="contract failed on a concrete run",
            backend="CPython", detail=f[1], input=jsonable(cx.used),
            observed=f[1], failed=f[0], replayed=True, path=[], sig=None))


def replay(prop, path):
    with open(path) as f:
        v = json.load(f)
    mod = importlib.import_module("contracts." + prop)
    con = [c for c in mod.CONTRACTS if c.name == v["contract"]][0]
    st, cx, fails = concrete_once(con, random.Random(0), v.get("input") or {})
    print("replay of", v["contract"], "/", v["obligation"], "->", st)
    for f in fails:
        print("  failed:", f[0], ":", f[1])
    return 1 if st == "fail" else 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        return replay(a.property, a.replay)
    t0 = time.time()
    prop = a.property
    try:
        mod = importlib.import_module("contracts." + prop)
    except (ImportError, AttributeError) as e:
        print("NOT VERIFIED: the contracts cannot be stated on this tree:", e)
        return 0
    cons = mod.CONTRACTS
    idx = [i for i, c in enumerate(cons) if not a.only or a.only in c.name]
    tasks = [(prop, i, a.tier, seed, 1.0) for i in idx]
    if len(tasks) == 1:
        results = [run_contract(tasks[0])]
    else:
        with multiprocessing.get_context("fork").Pool(
                min(8, len(tasks)), maxtasksperchild=1) as pool:
            results = pool.map(run_contract, tasks, chunksize=1)
    return report(prop, mod, a, seed, [cons[i] for i in idx], results, t0)


def report(prop, mod, a, seed, cons, results, t0):
    total = discharged = unknown = known = 0
    backends, stimes = {}, {}
    viol, kfs, bounded, undecided, broken = [], [], [], [], []
    notver = []
    per = []
    for con, r in zip(cons, results):
        for o in r.obs:
            total += 1
            if o["status"] == "proved":
                discharged += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            elif o["status"] == "known":
                known += 1
            elif o["status"] == "unknown":
                unknown += 1
                undecided.append("%s / %s" % (con.name, o["name"]))
        for k, (n, t) in r.stats.items():
            x = stimes.setdefault(k, [0, 0.0])
            x[0] += n
            x[1] += t
        viol += r.violations
        for k in r.known:
            if k["id"] not in [x["id"] for x in kfs]:
                kfs.append(k)
        if con.bounded:
            bounded.append("%s: %s (%d concrete runs)" % (
                con.name, con.bounded, r.samples))
        elif r.error and not r.error.startswith("internal"):
            bounded.append(
                "%s: outside the verifier's reach on this tree (%s); %d "
                "concrete runs instead" % (con.name, r.error, r.samples))
        if r.error and r.error.startswith("internal"):
            broken.append("%s: %s" % (con.name, r.error))
        if not r.violations and not r.witnesses and not r.completed:
            notver.append("%s: nothing was checked (%s)" % (
                con.name, r.error))
        elif not r.violations and not r.obs and not r.concrete_checks:
            notver.append("%s: no obligations" % con.name)
        per.append(dict(
            contract=con.name, functions=con.functions,
            obligations=len(r.obs),
            discharged=sum(o["status"] == "proved" for o in r.obs),
            paths=r.paths, completed_paths=r.completed,
            error=r.error, concrete_runs=r.samples,
            reachability_witnesses=r.witnesses,
            wall_s=round(r.wall, 2), bounded=con.bounded))
        if a.verbose:
            print("==", con.name, "paths", r.paths, "/", r.completed,
                  "samples", r.samples, "rejected", r.rejected, "wall",
                  round(r.wall, 1), r.error or "")
            for n in r.notes:
                print(n)
            for o in r.obs:
                if o["status"] != "proved" or o["time"] > 5:
                    print("   ", o["status"], o["name"], o["backend"],
                          round(o["time"], 2), o["path"], o["detail"][:400],
                          "sig=", o["sig"])
    out = os.environ.get("DV_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(out, "replay"), exist_ok=True)
    lines = []
    for i, v in enumerate(viol):
        p = os.path.join(out, "replay", "%s-%d.json" % (prop, i))
        with open(p, "w") as f:
            json.dump(jsonable(v), f, indent=1, ensure_ascii=False)
        lines.append("VIOLATION property=%s replay=%s%s" % (
            prop, p, "" if v["replayed"] else " no-failing-input-found"))
    ev = dict(
        property=prop, tier=a.tier, seed=seed, level="proof",
        coverage=dict(
            obligations=total, discharged=discharged,
            checker_cmd="/opt/venv/bin/python -B run.py %s --tier %s" % (
                prop, a.tier),
            trusted_base=TRUSTED + list(getattr(mod, "TRUSTED", [])),
            known_findings=known, undischarged=undecided,
            functions_under_contract=sorted(
                {f for c in cons for f in c.functions}),
            discharged_by=backends,
            solver_calls={k: n for k, (n, t) in stimes.items()},
            solver_time_s={k: round(t, 2) for k, (n, t) in stimes.items()},
            bounded_stand_ins=bounded, not_verified=notver,
            cpython_cross_checks=sum(r.concrete_checks for r in results),
            cpython_runs=sum(r.samples for r in results),
            samples=[r.example for r in results if r.example][:3],
            contracts=per),
        assumptions=ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(out, prop + ".json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1, ensure_ascii=False)
    print("%s: %d contracts, %d obligations, %d discharged, %d undischarged, "
          "%d known; %d concrete runs; %.1f s" % (
              prop, len(cons), total, discharged, unknown, known,
              sum(r.samples for r in results), time.time() - t0))
    for b in bounded:
        print("BOUNDED (not proved):", b)
    for b in notver:
        print("NOT VERIFIED:", b)
    for u in undecided[:20]:
        print("UNDISCHARGED (checked on concrete runs only):", u)
    for k in kfs:
        print("KNOWN-FINDING: property=%s %s: %s" % (
            prop, k["id"], k["what"]))
    for v in viol:
        print("  ", v["contract"], "/", v["obligation"], ":", v["verdict"],
              "by", v["backend"], ":", str(v["detail"])[:600],
              ("sig=%s" % v["sig"]) if v.get("sig") else "")
    for ln in lines:
        print(ln)
    if viol:
        return 1
    if broken:
        for b in broken:
            print("CHECK ERROR:", b)
        return 2
    return 0


TRUSTED = [
    "dv/expr.py, dv/npshim.py, dv/vec.py: semantics given to Python and numpy "
    "operations on symbolic values (cross-checked against CPython and numpy "
    "on concrete runs of the same contracts in this run)",
    "dv/ring.py: exact normal form deciding polynomial/rational identities",
    "dv/smt.py: translation to SMT; z3 and cvc5",
    "CPython executes the functions of /repo themselves: nothing is "
    "extracted or rewritten; only numpy names bound in disc_solver modules "
    "and len() are rebound to their symbolic versions",
]
ASSUMPTIONS = [
    "machine floats are treated as mathematical reals, numpy integers as "
    "unbounded; float literals stand for the simplest rational rounding to "
    "them, and multiples of pi for exact multiples",
    "identities proved by the ring back end hold wherever no denominator in "
    "the code or contract vanishes",
]
