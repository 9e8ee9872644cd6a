"""Runs the contracts a property depends on and reports.

usage: python3-vt -m dv.check C01 [--jobs N] [--only contract-substring] [-v]
"""
import argparse
import concurrent.futures as cf
import fnmatch
import importlib
import json
import multiprocessing
import os
import pkgutil
import re
import signal
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(6000)


def load_contracts():
    import contracts

    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        importlib.import_module("contracts." + m)


_V = None
_ARGS = None


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def init(args):
    global _V, _ARGS
    _ARGS = args
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from .verify import Verifier

    _V = Verifier(seed=args["seed"], tier=args["tier"])


def task(cid, kinds):
    """verify one contract; returns plain data"""
    from .engine import REG
    from .verify import Report, jsonable
    from .terms import HOOKS

    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    budget = _ARGS["budget"]
    try:
        signal.alarm(int(budget + 60))
        try:
            rep = _V.verify(cid, budget=budget, kinds=kinds)
        finally:
            signal.alarm(0)
    except Timeout:
        HOOKS.ctx = None
        init(_ARGS)
        rep = Report(cid)
        rep.status = "unsupported"
        rep.history = False
        rep.notes.append("time budget exhausted")
        import random

        try:
            signal.alarm(90)
            _V.kinds = kinds
            _V.concrete_search(REG[cid], rep, random.Random(_ARGS["seed"]), 40, True, [])
            if rep.failures:
                rep.status = "violated"
        except Timeout:
            init(_ARGS)
        finally:
            signal.alarm(0)
    except Exception as ex:  # a defect of the machinery, never an alarm
        import traceback

        HOOKS.ctx = None
        init(_ARGS)
        rep = Report(cid)
        rep.status = "unsupported"
        rep.notes.append("internal error: " + traceback.format_exc()[-1500:])
        if _ARGS.get("debug"):
            print(rep.notes[-1])
        import random

        try:
            rep.history = False
            _V.kinds = kinds
            _V.concrete_search(REG[cid], rep, random.Random(_ARGS["seed"]), 40, True, [])
            if rep.failures:
                rep.status = "violated"
        except Exception:
            pass
    obs = []
    for o in rep.obligations:
        d = {k: o[k] for k in ("name", "kind", "status", "how", "secs")}
        if o["status"] != "proved":
            d["goal"], d["path"], d["detail"] = o.get("goal", ""), o.get("path", []), str(o.get("detail", ""))
            d["env"] = jsonable(o["env"]) if o.get("env") else None
            d["sampled"] = supported(o)
        obs.append(d)
    return dict(id=cid, target=REG[cid].target, status=rep.status, obs=obs, fails=[dict(f.json(), kinds=getattr(f, "kinds", [])) for f in rep.failures], notes=rep.notes,
                used=sorted(rep.used), secs=time.time() - t0, solver=rep.solver_secs, paths=rep.paths, infeasible=rep.infeasible,
                concrete=rep.concrete, native=getattr(rep, "native_runs", 0), loops=sorted(set(rep.loops)), witness=rep.witness, history=bool(getattr(rep, "history", False)),
                note=REG[cid].note, trust=REG[cid].trust)


def supported(o):
    """an unproved goal that nevertheless evaluates to true on every sampled state of its path"""
    from .prove import truth

    if o["status"] == "refuted" or "formula" not in o or o["kind"] == "domain-float":
        return 0
    goal, _ = o["formula"]
    if isinstance(goal, bool):
        return 0
    n = 0
    for e in o.get("envs", []):
        t = truth(goal, e)
        if t is False:
            return 0
        if t is True:
            n += 1
    return n


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+obligation=(\S+)\s+(.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def closure_run(prop, cfg, args, verbose=False):
    from .engine import REG

    roots = [i for i in REG if any(fnmatch.fnmatchcase(i, p) for p in cfg["roots"])]
    stop = list(cfg.get("stop", ())) + list(cfg.get("exclude", ()))
    roots = [i for i in roots if not any(fnmatch.fnmatchcase(i, p) for p in cfg.get("exclude", ()))]
    kinds = cfg.get("kinds")
    follow = cfg.get("follow", True)
    done, pend, seen = {}, {}, set()
    hints = cfg.get("slow", ())
    order = sorted(roots, key=lambda i: -REG[i].cost)
    t0 = time.time()
    ctx = multiprocessing.get_context("fork")
    ex = cf.ProcessPoolExecutor(max_workers=args["jobs"], mp_context=ctx, initializer=init, initargs=(args,))
    try:
        for i in order:
            seen.add(i)
            pend[ex.submit(task, i, kinds)] = i
        while pend:
            left = args["total"] - (time.time() - t0)
            if left <= 0:
                break
            fin, _ = cf.wait(list(pend), timeout=left, return_when=cf.FIRST_COMPLETED)
            if not fin:
                break
            for f in fin:
                i = pend.pop(f)
                try:
                    r = f.result()
                except Exception as e:  # worker died
                    r = dict(id=i, target=REG[i].target, status="unsupported", obs=[], fails=[], notes=[f"worker failed: {e!r}"], used=[], secs=0, solver=0, paths=0,
                             infeasible=0, concrete=0, native=0, loops=[], witness=False, history=False, note="", trust=None)
                done[i] = r
                if verbose:
                    print(f"  {i:48s} {r['status']:11s} obs={len(r['obs'])} paths={r['paths']} {r['secs']:.1f}s", *r["notes"][:1], flush=True)
                if follow:
                    for u in r["used"]:
                        if u not in seen and not any(fnmatch.fnmatchcase(u, p) for p in stop):
                            seen.add(u)
                            try:
                                pend[ex.submit(task, u, kinds)] = u
                            except Exception:
                                pass
        for f, i in pend.items():
            done[i] = dict(id=i, target=REG[i].target, status="unsupported", obs=[], fails=[], notes=["total time budget exhausted"], used=[], secs=0, solver=0, paths=0,
                           infeasible=0, concrete=0, native=0, loops=[], witness=False, history=False, note="", trust=None)
    finally:
        procs = list(getattr(ex, "_processes", {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            p.kill()
    return done


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--debug", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    load_contracts()
    from contracts.props import PROPS

    prop = a.property
    cfg = dict(PROPS[prop])
    if a.only:
        cfg["roots"] = [f"*{a.only}*"]
        cfg["follow"] = False
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    args = dict(seed=int(os.environ.get("VERIF_SEED", "1")), tier=tier, jobs=a.jobs, budget=200 if tier == "quick" else 1200, total=700 if tier == "quick" else 6000, debug=a.debug)
    from .cover import Cover

    lean = Cover(prop)
    done = closure_run(prop, cfg, args, a.v)
    return report(prop, cfg, args, done, lean.result(), t0, a.v)


def report(prop, cfg, args, done, cover, t0, verbose):
    wall = time.time() - t0
    rdir = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    known = known_findings(prop)
    nob = sum(len(r["obs"]) for r in done.values())
    disch = sum(1 for r in done.values() for o in r["obs"] if o["status"] == "proved")
    how = {}
    for r in done.values():
        for o in r["obs"]:
            if o["status"] == "proved":
                for h in str(o["how"]).split("+"):
                    how[h] = how.get(h, 0) + 1
    viol, kf, bounded = [], [], []
    for i in sorted(done):
        r = done[i]
        bad = [o for o in r["obs"] if o["status"] != "proved"]
        match = [k for k in known if k[0].startswith(i + "/")]
        if match:
            # every open obligation / failure of this contract must be the listed one
            names = {k[0] for k in match}
            rest = [o for o in bad if canon(o["name"]) not in names]
            hit = [k for k in match if any(canon(o["name"]) == k[0] for o in bad)]
            for k in hit:
                kf.append(k)
            labels = {k[0].rsplit("/", 1)[1].replace("_", " ") for k in match}
            other = [f for f in r["fails"] if not any(f["what"].startswith(f"post: {x}:") for x in labels)]
            if not rest and not other and (bad or r["fails"]):
                continue
            if not rest and other:
                r["fails"] = other
        if r["fails"]:
            viol.append((r, bad, r["fails"][0], ""))
        elif bad:
            hard = [o for o in bad if not o["sampled"]]
            if hard:
                viol.append((r, hard, None, " no-failing-input-found"))
            else:
                bounded.append((i, f"{len(bad)} obligation(s) not discharged, true on every sampled state"))
        elif r["status"] != "proved":
            bounded.append((i, "; ".join(r["notes"])[:300]))
        elif r["history"]:
            bounded.append((i, "state kept between calls: " + "; ".join(r["notes"])[:200]))
        elif not r["obs"]:
            bounded.append((i, "no obligations generated"))
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k[1]}")
    n = 0
    for r, bad, f, tail in viol:
        path = os.path.join(rdir, f"{prop}-{re.sub(r'[^A-Za-z0-9_.]', '_', r['id'])}.json")
        json.dump(dict(property=prop, contract=r["id"], function=r["target"], failing_input=f, failed_obligations=[
            {k: o.get(k) for k in ("name", "status", "how", "goal", "path", "detail", "env")} for o in bad[:20]], notes=r["notes"],
            verifier=f"python3-vt -m dv.check {prop}"), open(path, "w"), indent=1)
        for o in bad[:3]:
            print(f"  failed obligation: {o['name']} [{o['status']}]")
        if f:
            print(f"  failing input ({f['mode']}): {f['what'][:400]}")
        print(f"VIOLATION property={prop} replay={path}{tail}")
        n += 1
    proved = [i for i in done if done[i]["status"] == "proved" and not any(b[0] == i for b in bounded)]
    from contracts.props import ASSUME, TRUSTED

    # the changes of variables are assumed to reach every input only where Lean did not confirm it
    lost = [] if cover is None or len(cover["accepted_by_lean"]) == len(cover["statements"]) else list(cfg.get("assume", []))
    assumptions = list(ASSUME) + lost + sorted({f"{i}: {done[i]['note']}" for i in done if done[i]["note"]})
    cov = dict(
        obligations=nob, discharged=disch, checker_cmd=f"cd /verif && python3-vt -m dv.check {prop}",
        trusted_base=list(TRUSTED),
        functions_under_contract=sorted({done[i]["target"] for i in done if done[i]["target"]}),
        contracts_proved=len(proved), contracts_total=len(done),
        discharged_by=how, solver_seconds=round(sum(r["solver"] for r in done.values()), 2),
        cpu_seconds=round(sum(r["secs"] for r in done.values()), 2),
        paths=sum(r["paths"] for r in done.values()), infeasible_paths=sum(r["infeasible"] for r in done.values()),
        loops_cut=sorted({l for r in done.values() for l in r["loops"]}),
        bounded=[dict(contract=i, why=w) for i, w in bounded],
        cross_check_runs=sum(r["concrete"] for r in done.values()), cross_check_native_runs=sum(r["native"] for r in done.values()),
        preconditions_witnessed=sum(1 for r in done.values() if r["witness"]),
        known_findings=[k[1] for k in kf], change_of_variables=cover,
    )
    ev = dict(property=prop, tier=args["tier"], seed=args["seed"], level="proof", coverage=cov, assumptions=assumptions, wall_s=round(wall, 2), violations=n)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {len(proved)}/{len(done)} contracts proved, {disch}/{nob} obligations discharged, {len(bounded)} bounded, {n} violated, {wall:.1f} s"
          + (f"; {len(cover['accepted_by_lean'])}/{len(cover['statements'])} changes of variables covered (Lean)" if cover else ""))
    if verbose or bounded:
        for i, w in bounded:
            print(f"  bounded: {i}: {w}")
    return 1 if n else 0


def canon(name):
    """obligation name without line numbers"""
    return re.sub(r" @ \S+", "", name).replace(" ", "_")


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    sys.stdout.flush()
    os._exit(rc)
