"""Verification of one contract against the repository's current source."""
import contextlib
import itertools
import json
import math
import random, copy
import signal
import time
import traceback
from fractions import Fraction
import mpmath as mp
from . import terms as tm
from .terms import T, B, HOOKS, PathAbort, Unsupported, lift, ZERO, fresh
from .prove import Prover, Signs, truth, eq, fshow, negate, formula_terms, Z3Enc, fkey
from .engine import (Engine, REG, Obligation, Snapshot, global_roots, class_scalars, reach, is_container, children, vleaves, vmap,
                     PathLimit, LoopCutNeeded, RestartLoops, PreFailed, UNBOUND)
from .loader import Loader
from .tys import Choice
import types
import z3

FORMULA = (B, tuple)


class Failure:
    """a concrete failing input"""

    def __init__(s, contract, mode, inputs, what, expected=None, actual=None, history=None):
        s.contract, s.mode, s.inputs, s.what = contract, mode, inputs, what
        s.expected, s.actual, s.history = expected, actual, history

    def json(s):
        return {"contract": s.contract, "mode": s.mode, "inputs": jsonable(s.inputs), "what": s.what,
                "expected": jsonable(s.expected), "actual": jsonable(s.actual), "history": jsonable(s.history)}


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items() if not str(k).startswith("_")}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, T):
        return mp.nstr(x.num(), 20) if x.isconst else repr(x)[:200]
    if isinstance(x, mp.mpf):
        return mp.nstr(x, 20)
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    return repr(x)[:300]


class Report:
    def __init__(s, cid):
        s.id = cid
        s.obligations = []  # dicts
        s.failures = []  # Failure
        s.status = "proved"
        s.notes = []
        s.used = set()
        s.secs = 0.0
        s.solver_secs = 0.0
        s.paths = 0
        s.infeasible = 0
        s.concrete = 0
        s.bounded = None
        s.witness = False
        s.history = False
        s.loops = []


def flatten_choices(view):
    """all Choice leaves"""
    out = []
    for _, l in vleaves(view):
        if isinstance(l, Choice) and l not in out:
            out.append(l)
    return out


def subst_choices(view, asg):
    def go(v):
        if isinstance(v, dict):
            return {k: go(x) for k, x in v.items()}
        if isinstance(v, list):
            return [go(x) for x in v]
        if isinstance(v, Choice):
            return asg[v.name]
        return v

    return go(view)


def exact(x):
    """concrete number -> exact constant term"""
    if isinstance(x, bool) or isinstance(x, str) or x is None or isinstance(x, T):
        return x
    if isinstance(x, int):
        return tm.const(x)
    if isinstance(x, float):
        return tm.const(Fraction(x))
    if isinstance(x, mp.mpf):
        return tm.const(mpf_fraction(x))
    return x


def mpf_fraction(x):
    s, m, e, _ = x._mpf_
    f = Fraction(int(m)) * (Fraction(2) ** int(e))
    return -f if s else f


class Verifier:
    keep_formulas = False  # development: formulas of proved obligations too

    def __init__(s, src=None, seed=1, tier="quick"):
        s.eng = Engine(src, seed)
        s.seed, s.tier = seed, tier
        s._mp = s._nat = None
        s.src = src

    @property
    def mpL(s):
        if s._mp is None:
            s._mp = Loader("mp", src=s.src).all()
        return s._mp

    @property
    def natL(s):
        if s._nat is None:
            s._nat = Loader("native", src=s.src).all()
        return s._nat

    # ---------------------------------------------------------------- helpers
    def invoke(s, c, ns, objs):
        if c.call is not None:
            return c.call(ns, objs)
        fn = ns.get(c.target)
        if fn is None:
            raise AttributeError(f"{c.target} does not exist")
        return fn(*[objs[n] for n, _ in c.params])

    def sample_views(s, c, case, rng, n):
        """concrete views (floats) satisfying the precondition"""
        out, tries = [], 0
        while len(out) < n and tries < n * 30 + 60:
            tries += 1
            v = {pn: ty.sample(rng) for pn, ty in c.params + c.ghosts}
            g = case.get("gen") or c.gen
            if g is not None:
                g(rng, v)
            s.close(c, v, True)
            for k, x in (case.get("fix") or {}).items():
                setpath(v, k, x)
            if c.tie is not None:
                s.close(c, v, True)
            try:
                ev = {k: vmap(exact, x) for k, x in v.items()}
                ok = all(truth(f, {}) is True for f in s.pres(c, case, ev))
            except (ZeroDivisionError, ValueError, Unsupported):
                ok = False
            if ok:
                out.append(v)
        return out

    def close(s, c, v, concrete):
        """derived leaves: parameters expressed by ghosts, then by their own fields"""
        if c.tie is not None:
            c.tie(v)
            if concrete:
                for k in v:
                    v[k] = vmap(lambda x: (float(x.num()) if isinstance(x, T) else x), v[k])
        for pn, ty in c.params:
            if hasattr(ty, "close"):
                ty.close(v[pn])

    def pres(s, c, case, v):
        out = list(c.pre(v))
        if c.where is not None:
            out = list(c.where(v)) + out
        if case.get("requires"):
            out += list(case["requires"](v))
        return out

    def env_of(s, symview, concview):
        env = {}
        a = list(vleaves(symview))
        b = list(vleaves(concview))
        if len(a) != len(b):
            raise AssertionError("view shapes differ")
        for (p, x), (q, y) in zip(a, b):
            if isinstance(x, T) and x.op == "v":
                env[x.args[0]] = mp.mpf(y)
            elif isinstance(x, (bool, str)) or x is None:
                if x != y:
                    return None
        return env

    # ------------------------------------------------------------- symbolic
    def verify(s, cid, budget=None, kinds=None):
        c = REG[cid]
        rep = Report(cid)
        t0 = time.time()
        rng = random.Random(s.seed * 1000003 + hash_str(cid))
        s.kinds = kinds
        s.deadline = t0 + (budget or 240)
        missing = s.eng.L.get(c.target) is None if c.target else False
        n = c.quick * (4 if s.tier == "thorough" else 1)
        if not missing:
            # a few concrete runs: cross-check of the verifier, and quick failing inputs
            s.concrete_search(c, rep, rng, n, False, [])
            if rep.failures:
                s.deadline = time.time() + min(40.0, (budget or 240) / 4)
        try:
            if missing:
                raise Unsupported(f"{c.target} not found in the source")
            for case in c.cases:
                s.verify_case(c, case, rep, rng)
        except (Unsupported, PathLimit) as e:
            rep.status = "unsupported"
            rep.notes.append(f"outside the verifier's reach: {e}")
        except RecursionError:
            rep.status = "unsupported"
            rep.notes.append("recursion limit")
        rep.sym_secs = time.time() - t0
        if missing and not any(x.startswith("_") for x in c.target.split(":")[1].split(".")):
            rep.failures.append(Failure(cid, "native", {}, f"{c.target} does not exist"))
        open_ = [o for o in rep.obligations if o["status"] != "proved"]
        if rep.status == "proved" and open_:
            rep.status = "open"
        # many more concrete runs when not proved
        heavy = rep.status != "proved" or rep.history
        if heavy and not rep.failures and not missing:
            s.concrete_search(c, rep, rng, max(60, 5 * n), True, open_)
        if rep.status == "open" and not rep.failures and Prover.scale == 1 and time.time() < s.deadline - 30:
            # nothing found against it: the solvers may have run out of time on a busy machine
            Prover.scale = 5
            try:
                again = s.verify(cid, s.deadline - time.time(), kinds)
            finally:
                Prover.scale = 1
            if again.status == "proved" or again.failures:
                rep = again
        rep.secs = time.time() - t0
        if rep.failures:
            rep.status = "violated"
        return rep

    def verify_case(s, c, case, rep, rng):
        eng = s.eng
        rep.history = getattr(rep, "history", False)
        view = {pn: ty.fresh(pn) for pn, ty in c.params + c.ghosts}
        for k, x in (case.get("fix") or {}).items():
            setpath(view, k, x if not isinstance(x, float) else exact(x))
        s.close(c, view, False)
        ch = flatten_choices(view)
        pool_views = s.sample_views(c, case, rng, 24)
        if pool_views:
            rep.witness = True
        else:
            rep.notes.append(f"no sample satisfies the precondition (case {case.get('name', '')})")
        for combo in itertools.product(*[x.options for x in ch]):
            asg = {x.name: o for x, o in zip(ch, combo)}
            v = {k: subst_choices(x, asg) for k, x in view.items()}
            s.close(c, v, False)
            name = case.get("name", "")
            if asg:
                name += ",".join(f"{k}={o}" for k, o in asg.items())
            s.verify_view(c, case, name, v, pool_views, rep)

    def verify_view(s, c, case, name, view, pool_views, rep):
        eng = s.eng
        pool = []
        for pv in pool_views:
            e = s.env_of(view, forced(pv, view))
            if e is not None:
                pool.append(e)
        pre = s.pres(c, case, view)
        if any(f is False for f in pre):
            return
        pre = [f for f in pre if f is not True]
        eng.names = ()
        named = [(lift(t), lift(t)) for t in c.names(view)] if c.names is not None else []
        if c.cuts is not None:
            named += s.cut_points(c, case, name, view, pool, pre, rep)
        eng.pool = pool
        eng.base_pre = pre
        if named:
            eng.name_terms(named)
        eng.inl = frozenset(c.inline)
        eng.overrides = c.override
        eng.assumed = frozenset(c.assume_pre)
        eng.cur_view = view
        eng.on_draw = (lambda kind, t, i: c.on_draw(view, kind, t, i)) if c.on_draw else None
        eng.used = set()

        def run(p):
            return s.run_path(c, case, view, p)

        outs = eng.explore(run, c.maxpaths)
        rep.used |= eng.used
        rep.loops += [u for u in eng.cuts]
        memo = {}
        for p, o in outs:
            if o.get("history"):
                rep.history = True
                rep.notes += [x for x in o["notes"] if x not in rep.notes]
            if time.time() > s.deadline:
                raise PathLimit("time budget for this contract")
            rep.paths += 1
            s.discharge(c, name, p, o, pre, rep, memo)

    def cut_points(s, c, case, name, view, pool, pre, rep):
        """each cut: a fresh variable X for the value of a term, with facts proved (as obligations) for X = term; only the facts are kept"""
        out = []
        tag = f"{name}{'/' if name else ''}"
        defs = s.defs = {}
        for item in c.cuts(view, case):
            if len(item) == 2:  # a derived value: (value term, stand-in)
                val, alias = item
                if val is not alias:
                    m = {t.id: defs[t.id].b for t in tm.variables([alias]) if t.id in defs}
                    r = Prover(pre, pool, timeout=c.timeout, z3ms=c.z3ms, seed=s.seed).prove(B("==", val, tm.substitute(alias, m, {})))
                    if s.kinds is None or "lemma" in s.kinds:
                        rep.obligations.append(dict(name=f"{c.id}/lemma/{tag}alias", kind="lemma", status=r.status, how="cut " + r.how, secs=round(r.secs, 4)))
                    if r.status != "proved":
                        continue
                out.append(item)
                continue
            X, term, steps = item
            for e in pool:
                e[X.args[0]] = tm.evaluate([term], e)[0]
            pool[:] = [e for e in pool if not mp.isnan(e[X.args[0]])]
            defs[X.id] = definition = B("==", X, term)
            kept = []

            def known(h):
                if fkey(h) not in have:
                    raise RuntimeError(f"{c.id}: cut step uses an unproved fact {h}")
                return h

            for i, f in enumerate(steps):
                t0 = time.time()
                kind, goal, *extra = f if isinstance(f, tuple) and f[0] in ("lin", "use", "sq") else ("", f)
                have = {fkey(h) for h in pre + kept + list(defs.values())}
                hyps = pre + kept
                if kind == "lin":
                    t, t2 = goal.a, goal.b
                    for k, h in extra[0]:
                        known(h)
                        t2 = t2 + lift(k) * (h.a - h.b)
                    for x in extra[1] if len(extra) > 1 else [X]:
                        t, t2 = tm.substitute(t, {x.id: defs[x.id].b}, {}), tm.substitute(t2, {x.id: defs[x.id].b}, {})
                    target = B("==", t, t2)
                elif kind == "use":
                    hyps, target = [known(h) for h in extra[0]], goal
                elif kind == "sq":  # equal squares of positive terms
                    known(B("==", goal.a * goal.a, goal.b * goal.b))
                    target = ("and", [B("<", ZERO, goal.a), B("<", ZERO, goal.b)])
                else:
                    hyps, target = hyps + [definition], goal
                pr = Prover(hyps, pool, timeout=c.timeout, z3ms=c.z3ms, seed=s.seed)
                r = pr.prove(target)
                rep.solver_secs += pr.solver_secs
                kept.append(goal)
                if s.kinds is None or "lemma" in s.kinds:
                    ob = dict(name=f"{c.id}/lemma/{tag}{X.args[0]}.{i}", kind="lemma", status=r.status, how="cut " + kind + " " + r.how, secs=round(time.time() - t0, 4))
                    if r.status != "proved":
                        ob.update(goal=fshow(goal)[:1500], path=[], detail=r.detail, formula=(goal, pre + kept[:-1] + [definition]), envs=pool)
                    rep.obligations.append(ob)
            pre += kept
            out.append((term, X))
        return out

    def run_path(s, c, case, view, p):
        eng = s.eng
        eng.stub_on = False
        p.inspec += 1
        objs = {pn: ty.build(eng.L, view[pn]) for pn, ty in c.params}
        if case.get("alias"):
            for a, b in case["alias"]:
                objs[a] = objs[b]
        p.inspec -= 1
        snap = Snapshot(objs)
        groots = s.groots()
        gsnap = Snapshot(groots)
        scal = class_scalars(eng.L)
        eng.active = {c.id}
        eng.call_hook = c.on_call(view, p) if c.on_call else None
        out = {"exc": None, "checks": [], "notes": [], "history": False, "facts": []}
        try:
            eng.stub_on = True
            try:
                res = s.invoke(c, eng.L, objs)
                res = decided(res, objs)
            finally:
                eng.stub_on = False
                eng.call_hook = None
            p.inspec += 1
            p.folding = c.cuts is not None
            v = dict(view)
            v["_draw"] = Replayer(p)
            v["_check"] = True
            try:
                s.checks(c, case, v, objs, res, snap, out, p)
            finally:
                p.inspec -= 1
        except (Unsupported, PathLimit):
            raise
        except Exception as ex:
            out["exc"] = f"{type(ex).__name__}: {ex}"
            out["tb"] = short_tb(ex)
        finally:
            # shared state of the library must be untouched
            s.global_frame(c, gsnap, scal, out)
            eng.active = set()
        return out

    def groots(s):
        return global_roots(s.eng.L)

    def global_frame(s, c, gsnap, scal, out):
        eng = s.eng
        d = gsnap.diff()
        if eng.L.rand.seeded:
            out["checks"].append(("frame", "the random generator is seeded anew", False))
            eng.L.rand.seeded = False
        for (path, k, a, b) in d:
            if is_cache(eng.L, path):
                out["history"] = True
                out["notes"].append(f"module-level cache {path} is written")
            else:
                out["checks"].append(("frame", f"shared object {path}.{k} is changed", False))
        if d:
            gsnap.restore()
        now = class_scalars(eng.L)
        for key in scal.keys() | now.keys():
            a, b = scal.get(key, UNBOUND), now.get(key, UNBOUND)
            if a is b or (isinstance(a, T) and isinstance(b, T) and a.id == b.id):
                continue
            mn, cl, k = key
            owner = eng.L.mods[mn] if cl is None else getattr(eng.L.mods[mn], cl)
            if k.startswith("_") or a is UNBOUND or a is None:
                out["history"] = True
                out["notes"].append(f"class/module attribute {mn}:{cl}.{k} is rebound")
            else:
                out["checks"].append(("frame", f"shared attribute {mn}:{cl}.{k} is rebound", False))
            if a is UNBOUND:
                delattr(owner, k)
            else:
                setattr(owner, k, a)
        for m in eng.L.mods.values():
            for o in list(vars(m).values()):
                for f in [o] + (list(vars(o).values()) if isinstance(o, type) else []):
                    if isinstance(f, types.ModuleType):
                        continue
                    f = getattr(f, "__func__", f)
                    cc = getattr(f, "cache_clear", None)
                    if cc is not None and not isinstance(f, type):
                        if f.cache_info().currsize:
                            out["history"] = True
                            out["notes"].append(f"memoised function {getattr(f, '__name__', f)}")
                            cc()

    def checks(s, c, case, v, objs, res, snap, out, p):
        """fills out['checks'] with (kind, label, goal) for this path"""
        eng = s.eng
        ck = out["checks"]
        rty = c.result
        if callable(rty) and not hasattr(rty, "view"):
            rty = rty(v)
        spec = c.spec(v) if c.spec is not None else None
        rview = None
        if rty is None:
            if res is not None and not c.raises and c.post is None:
                ck.append(("type", "returns nothing", res is None))
        else:
            err = rty.check(eng.L, res)
            if err:
                ck.append(("type", err, False))
            rview = rty.view(res)
            if c.spec is not None:
                compare(rview, spec, "result", ck)
        newviews = {}
        for pn, ty in c.params:
            if pn in c.modifies:
                newviews[pn] = ty.view(objs[pn])
                exp = c.modifies[pn](v)
                if exp is not None:
                    compare(newviews[pn], exp, pn, ck)
        v["_new"] = newviews
        v["_objs"] = objs
        v["_res"] = res
        v["_path"] = p
        if c.facts is not None:
            out["facts"] = list(c.facts(v, rview))
        if c.post is not None:
            try:
                goals = list(c.post(v, rview))
            except (AttributeError, KeyError) as ex:
                goals = []
                ck.append(("type", f"something the postcondition speaks of is left undefined: {ex}", False))
            for i, f in enumerate(goals):
                if isinstance(f, tuple) and len(f) == 2 and isinstance(f[0], str) and f[0] not in ("and", "or"):
                    ck.append(("post", f[0], f[1]))
                else:
                    ck.append(("post", f"#{i}", f))
        # frame
        allowed = set(c.modifies)
        for (path, k, a, b) in snap.diff():
            root = path.split(".")[0]
            if hidden(path, k) or (a is UNBOUND and isinstance(k, str) and k not in declared()):
                out["history"] = True
                out["notes"].append(f"argument {path} keeps hidden state {k}")
                continue
            if root in allowed:
                continue
            ck.append(("frame", f"argument {path}.{k} is changed", False))
        # freshness
        if c.fresh:
            inside = {}
            for pn, _ in c.params:
                if pn not in c.modifies:
                    inside.update(reach(objs[pn], pn))
            before = {id(o): gp for o, gp in ((o, snap.paths[id(o)]) for o in snap.objs)}
            glob = {}
            for gn, go in s.groots().items():
                glob.update(reach(go, gn))
            if res is not None and is_container(res):
                for i, (pth, o) in reach(res, "result").items():
                    if isinstance(o, tuple):
                        continue
                    if i in inside or (i in before):
                        ck.append(("fresh", f"{pth} is shared with {inside.get(i, (before.get(i),))[0]}", False))
                    elif i in glob:
                        ck.append(("fresh", f"{pth} is the shared library object {glob[i][0]}", False))
            for pn in c.modifies:
                if pn in getattr(c, "keeps_ref", ()):
                    continue
                for i, (pth, o) in reach(objs[pn], pn).items():
                    if i in inside and not isinstance(o, tuple) and not c.alias_ok:
                        ck.append(("fresh", f"{pth} is shared with argument {inside[i][0]}", False))
            ck.append(("fresh", "no sharing with the arguments or the library", True))
        ck.append(("frame", "arguments and shared objects unchanged", True))

    def discharge(s, c, name, p, o, pre, rep, memo):
        eng = s.eng
        obs = []
        envs = eng.env_pool(p)
        rules = c.rules or ()
        hyps_all = pre + p.hyps
        state = {"inf": None}

        def infeasible():
            if state["inf"] is None:
                state["inf"] = False if envs else Prover(hyps_all, envs, rules=(), z3ms=c.z3ms).infeasible(3000)
            return state["inf"]

        if not envs and infeasible():
            rep.infeasible += 1
            rep.obligations.append(dict(name=f"{c.id}/path/{name}{path_tag(p)}", kind="infeasible", status="proved", how="z3", secs=0))
            return
        provers = {}

        def prover(n):
            if n not in provers:
                h = pre + p.hyps[:n]
                es = envs
                if n < len(p.hyps) and not es:
                    es = []
                provers[n] = Prover(h, es, rules=rules, timeout=c.timeout, z3ms=c.z3ms, seed=s.seed)
            return provers[n]

        def add(kind, label, goal, n, float_safe=False):
            if s.kinds is not None and kind not in s.kinds:
                return False
            nm = f"{c.id}/{kind}/{name}{'/' if name else ''}{label}"
            if isinstance(goal, bool):
                st, how, secs, env, det = ("proved" if goal else "refuted"), "computed", 0.0, (envs[0] if envs else None), ""
                if not goal and infeasible():
                    st, how = "proved", "infeasible path"
            else:
                key = (fkey(goal), tuple(sorted(map(fkey, pre + p.hyps[:n]), key=repr)), float_safe)
                if key in memo:
                    return
                if float_safe:
                    ok = Signs(pre + p.hyps[:n])
                    sg = ok.sign(goal.b - goal.a)
                    good = sg in ("+", "0+")
                    r = None
                    st, how, secs, env, det = ("proved" if good else "unknown"), "interval (rounding-monotone)", 0.0, None, "not implied by the guard alone"
                else:
                    pr = prover(n)
                    ss = pr.solver_secs
                    r = pr.prove(goal)
                    rep.solver_secs += pr.solver_secs - ss
                    st, how, secs, env, det = r.status, r.how, r.secs, r.env, r.detail
                    if st != "proved" and label.startswith("named") and c.cuts is not None:
                        for u, x in eng.names:
                            if u is goal.b and x is not u and st != "proved":
                                r = pr.prove(B("==", goal.a, x))
                                st, how, secs, env, det = r.status, r.how, r.secs, r.env, r.detail
                    if st != "proved" and label.startswith("named") and c.cuts is not None:
                        ds = [s.defs[t.id] for t in tm.variables([goal.a, goal.b]) if t.id in s.defs]
                        r = Prover(pre + p.hyps[:n] + ds, envs, timeout=c.timeout, z3ms=c.z3ms, seed=s.seed).prove(goal)
                        st, how, secs, env, det = r.status, r.how, r.secs, r.env, r.detail
                    if st != "proved" and infeasible():
                        st, how = "proved", "infeasible path"
                if st == "proved":
                    memo[key] = True
            ob = dict(name=nm, kind=kind, status=st, how=how, secs=round(secs, 4))
            if st != "proved":
                ob["goal"] = fshow(goal)[:1500] if not isinstance(goal, bool) else str(goal)
                ob["path"] = [repr(x)[:160] for x in p.pc][:12]
                ob["detail"] = det
                if env:
                    ob["env"] = env
            if st != "proved" or s.keep_formulas:
                ob["formula"] = (goal, pre + p.hyps[:n])
                ob["envs"] = envs
            rep.obligations.append(ob)
            return st == "proved"

        start = len(rep.obligations)
        if o["exc"] is not None:
            add("no-exception", o["exc"][:160], False, len(p.hyps))
            rep.obligations[-1]["detail"] = o.get("tb", "")
        for (kind, label, goal, n, where) in p.obs:
            if kind == "domain" and label in c.float_safe:
                add("domain-float", f"{label} @ {where}", goal, n, True)
            add(kind, f"{label} @ {where}" if where else label, goal, n)
        for i, f in enumerate(o["facts"]):
            if isinstance(f, tuple) and f[0] == "contra":
                if not envs and s.contradiction(p, pre, c):
                    del rep.obligations[start:]
                    rep.infeasible += 1
                    rep.obligations.append(dict(name=f"{c.id}/path/{name}{path_tag(p)}", kind="infeasible", status="proved", how="ring+interval", secs=0))
                    return
            elif isinstance(f, tuple) and f[0] == "gen":
                if s.gen_fact(c, name, i, f, p, pre, rep, add):
                    p.hyps.append(f[1])
            elif isinstance(f, tuple) and f[0] == "lin":
                if s.lin_fact(c, name, i, f, p, pre, rep, add):
                    p.hyps.append(f[1])
            elif add("lemma", f"#{i}", f, len(p.hyps)):
                p.hyps.append(f)
        for (kind, label, goal) in o["checks"]:
            add(kind, label, goal, len(p.hyps))

    def gen_fact(s, c, name, i, f, p, pre, rep, add):
        """goal follows from the listed (already proved) facts with the given subterms generalised"""
        _, goal, using, terms = f
        have = {fkey(h) for h in pre + p.hyps}
        for j, u in enumerate(using):
            if isinstance(u, bool):
                continue
            if fkey(u) not in have:
                if not add("lemma", f"#{i}.{j}", u, len(p.hyps)):
                    return False
                p.hyps.append(u)
        mapping = {}
        for k, t in enumerate(terms):
            if t.op != "c" and t.id not in mapping:
                mapping[t.id] = fresh(f"g{k}")
        memo = {}

        def sub(g):
            if isinstance(g, bool):
                return g
            if isinstance(g, B):
                return B(g.op, tm.substitute(g.a, mapping, memo), tm.substitute(g.b, mapping, memo))
            return (g[0], [sub(x) for x in g[1]])

        t0 = time.time()
        pr = Prover([sub(u) for u in using], [], timeout=c.timeout, z3ms=max(c.z3ms, 8000), seed=s.seed)
        r = pr.prove(sub(goal))
        rep.solver_secs += pr.solver_secs
        if s.kinds is None or "lemma" in s.kinds:
            ob = dict(name=f"{c.id}/lemma/{name}{'/' if name else ''}#{i}", kind="lemma", status=r.status if r.status == "proved" else "unknown", how="generalised " + r.how, secs=round(time.time() - t0, 4))
            if r.status != "proved":
                ob.update(goal=fshow(sub(goal))[:1500], path=[], detail=r.detail, formula=(goal, pre + p.hyps), envs=s.eng.env_pool(p))
            rep.obligations.append(ob)
        return r.status == "proved"

    def have_facts(s, using, i, p, pre, add):
        have = {fkey(h) for h in pre + p.hyps}
        for j, u in enumerate(using):
            if isinstance(u, bool) or fkey(u) in have:
                continue
            if not add("lemma", f"#{i}.{j}", u, len(p.hyps)):
                return False
            p.hyps.append(u)
        return True

    def lin_fact(s, c, name, i, f, p, pre, rep, add):
        """goal equation is the given combination of already proved equations (subterms generalised)"""
        _, goal, comb, terms = f
        if not s.have_facts([h for _, h in comb], i, p, pre, add):
            return False
        t0 = time.time()
        t = goal.a - goal.b
        for k, h in comb:
            t = t - lift(k) * (h.a - h.b)
        mapping = {}
        for k, x in enumerate(terms):
            if x.op != "c" and x.id not in mapping:
                mapping[x.id] = fresh(f"g{k}")
        orig = {x.id: x for x in terms}
        t = tm.substitute(t, mapping, {})
        pr = Prover([], [], timeout=c.timeout, z3ms=c.z3ms, seed=s.seed)
        from .ring import Budget
        ok, how = False, ""
        for ex in (False, True):
            try:
                n = pr.norm(ex)
                ok = n.zero(n.rf(t)) and s.lin_side(n, {v.id: orig[k] for k, v in mapping.items()}, p, pre, c)
                if ok:
                    break
            except (Budget, Unsupported) as e:
                how = str(e)
        if s.kinds is None or "lemma" in s.kinds:
            ob = dict(name=f"{c.id}/lemma/{name}{'/' if name else ''}#{i}", kind="lemma", status="proved" if ok else "unknown", how="ring combination", secs=round(time.time() - t0, 4))
            if not ok:
                ob.update(goal=fshow(goal)[:1500], path=[], detail=how, formula=(goal, pre + p.hyps), envs=s.eng.env_pool(p))
            rep.obligations.append(ob)
        return ok

    def lin_side(s, n, back, p, pre, c):
        """side conditions (nonzero denominators) of a combination, back in the original terms"""
        side = [b for b in n.side.values() if b is not True]
        if not side:
            return True
        pr = Prover(pre + p.hyps, s.eng.env_pool(p), timeout=c.timeout, z3ms=c.z3ms, seed=s.seed)
        for b in side:
            g = B(b.op, tm.substitute(b.a, back, {}), tm.substitute(b.b, back, {}))
            if pr.prove(g).status != "proved":
                return False
        return True

    def contradiction(s, p, pre, c):
        """a path condition contradicts a proved fact after normalisation"""
        from .ring import Budget
        pr = Prover(pre + p.hyps, s.eng.pool[:3], timeout=c.timeout, z3ms=c.z3ms, seed=s.seed)
        pc = {fkey(h) for h in p.pc}
        try:
            n = pr.norm(False)
            lows = {}
            for h in pre + p.hyps:
                if isinstance(h, B) and h.op in ("<", "<=") and fkey(h) not in pc:
                    d = n.reduce(n.rf(h.b - h.a))
                    lows.setdefault(rfkey(d), []).append(h.op)
            for h in p.pc:
                if h.op in ("<", "<="):
                    d = n.reduce(n.rf(h.a - h.b))
                    for op in lows.get(rfkey(d), ()):
                        if (h.op == "<" or op == "<") and pr.side_ok(n, time.time() + 20):
                            return True
        except (Budget, Unsupported):
            return False
        return False

    # ------------------------------------------------------------- concrete
    def run_concrete(s, c, case, cview, mode, draws, near=None, reuse=None, keep=None):
        """-> [(kind, problem, expected, actual, relative error)]; near: the specification is
        evaluated at these neighbouring inputs instead; reuse: argument objects of an earlier call,
        brought to the state cview in place; keep: results of earlier calls, with their views"""
        L = s.mpL if mode == "mp" else s.natL
        if mode == "mp":
            cv = {k: vmap(lambda x: x if isinstance(x, (bool, str, int)) or x is None else mp.mpf(x), v) for k, v in cview.items()}
        else:
            cv = {k: vmap(lambda x: float(x) if isinstance(x, mp.mpf) else x, v) for k, v in cview.items()}
        try:
            objs = {pn: ty.build(L, cv[pn]) for pn, ty in c.params}
        except (Unsupported, ArithmeticError, ValueError, TypeError, AttributeError) as ex:
            # decided by the contract of the constructor
            raise Unsupported(f"arguments cannot be built: {type(ex).__name__}: {ex}")
        if case.get("alias"):
            for a, b in case["alias"]:
                objs[a] = objs[b]
        if reuse and len(reuse) > 1:
            glob = set()
            for gn, go in global_roots(L).items():
                glob |= set(reach(go, gn))
            for pn, ty in c.params:
                objs[pn] = graft(reuse[pn], objs[pn], glob, reuse["_deep"])
                if not same_view(ty.view(objs[pn]), ty.view(ty.build(L, cv[pn]))):
                    raise Unsupported("cannot be brought to this state in place")
        if reuse is not None:
            reuse.update(objs)
        pos = {"gauss": 0, "unit": 0}

        def draw(kind):
            i = pos[kind]
            pos[kind] += 1
            x = draws[kind][i % len(draws[kind])]
            return mp.mpf(x) if mode == "mp" else x

        L.rand.draw = draw
        snap = Snapshot(objs)
        groots = global_roots(L)
        gsnap = Snapshot(groots)
        before = {pn: ty.view(objs[pn]) for pn, ty in c.params if hasattr(ty, "fields") or True}
        try:
            with cpu_limit(10 if mode == "native" else 20):
                res = s.invoke(c, L, objs)
        except Endless:
            if mode == "native":
                return [("no-exception", "does not return (10 s of processor time)", None, None, mp.inf)]
            raise Unsupported("40-digit run takes too long")
        except (Unsupported, NotImplementedError) as e:
            raise Unsupported(str(e))
        except Exception as ex:
            if mode == "mp" and isinstance(ex, (TypeError, AttributeError)) and "mpf" in str(ex):
                raise Unsupported(f"40-digit numbers lack this: {ex}")
            if isinstance(ex, (ArithmeticError, ValueError)) and outside_assumed(c, ex):
                raise Unsupported("outside the preconditions assumed of " + ", ".join(sorted(c.assume_pre)))
            return [("no-exception", f"raises {type(ex).__name__}: {ex} {short_tb(ex)}", None, None, mp.inf)]
        ev = {k: vmap(exact, v) for k, v in (near or cview).items()}
        ev["_draw"] = ConstDraws(draws)
        ev["_concrete"] = True
        prob = []
        saved = HOOKS.ctx
        HOOKS.ctx = None
        try:
            rty = c.result
            if callable(rty) and not hasattr(rty, "view"):
                rty = rty(ev)
            spec = c.spec(ev) if c.spec is not None else None
            rview = None
            if rty is not None:
                err = rty.check(L, res)
                if err:
                    prob.append(("type", err, None, None, mp.inf))
                try:
                    rview = rty.view(res)
                except (TypeError, AttributeError, IndexError) as ex:
                    return prob + [("type", f"result is not of the promised kind: {ex}", None, None, mp.inf)]
                if c.spec is not None:
                    num_compare(rview, spec, "result", prob, c)
            newv = {}
            for pn, ty in c.params:
                if pn in c.modifies:
                    try:
                        newv[pn] = ty.view(objs[pn])
                    except (TypeError, AttributeError, IndexError) as ex:
                        return prob + [("type", f"{pn} left ill-formed: {ex}", None, None, mp.inf)]
                    exp = c.modifies[pn](ev)
                    if exp is not None:
                        num_compare(newv[pn], exp, pn, prob, c)
            if c.post is not None:
                ev["_new"] = {k: vmap(exact, x) for k, x in newv.items()}
                ev["_objs"] = objs
                ev["_res"] = res
                ev["_path"] = None
                rv = vmap(exact, rview) if rview is not None else None
                big = max([mp.mpf(1)] + [abs(mp.mpf(x)) for _, x in vleaves(cview) if isinstance(x, (int, float, mp.mpf)) and not isinstance(x, bool)])
                floor = mp.mpf(c.scale) if c.scale is not None else mp.mpf(1) if mode == "mp" else big * big
                try:
                    goals = list(c.post(ev, rv))
                except (AttributeError, KeyError) as ex:
                    goals = []
                    prob.append(("type", f"something the postcondition speaks of is left undefined: {ex}", None, None, mp.inf))
                except ZeroDivisionError:
                    goals = []
                    prob.append(("post", "the postcondition divides by something that must not vanish and does", None, None, mp.inf))
                for i, f in enumerate(goals):
                    lab = f"#{i}"
                    if isinstance(f, tuple) and len(f) == 2 and isinstance(f[0], str) and f[0] not in ("and", "or"):
                        lab, f = f
                    m = slack(f, floor)
                    if m is None:
                        continue
                    if m < 0:
                        prob.append(("post", f"{lab}: {fshow(f)[:300]}", None, mp.nstr(m, 8), -m))
        finally:
            HOOKS.ctx = saved
        for (path, k, a, b) in snap.diff():
            if path.split(".")[0] in c.modifies or (a is UNBOUND and isinstance(k, str) and k not in declared()) or hidden(path, k):
                continue
            if not is_container(a) and not is_container(b) and a == b:
                continue
            prob.append(("frame", f"argument {path}.{k} changed from {a!r} to {b!r}"[:300], None, None, mp.inf))
        if L.rand.seeded:
            prob.append(("frame", "the random generator is seeded anew", None, None, mp.inf))
            L.rand.seeded = False
        for (path, k, a, b) in gsnap.diff():
            if is_cache(L, path):
                continue
            prob.append(("frame", f"shared library object {path}.{k} changed"[:300], None, None, mp.inf))
        if prob and any(x[0] == "frame" for x in prob):
            gsnap.restore()
        if c.fresh and res is not None and is_container(res):
            inside = {}
            for pn, _ in c.params:
                if pn not in c.modifies:
                    inside.update(reach(objs[pn], pn))
            before = {id(o): snap.paths[id(o)] for o in snap.objs}
            glob = {}
            for gn, go in global_roots(L).items():
                glob.update(reach(go, gn))
            for i, (pth, o) in reach(res, "result").items():
                if isinstance(o, tuple):
                    continue
                if i in inside or i in before:
                    prob.append(("fresh", f"{pth} is the very object {inside.get(i, (before.get(i),))[0]} (changing one changes the other)", None, None, mp.inf))
                elif i in glob:
                    prob.append(("fresh", f"{pth} is the shared library object {glob[i][0]} (changing one changes the other)", None, None, mp.inf))
        if c.fresh and not c.alias_ok:
            inside = {}
            for pn, _ in c.params:
                if pn not in c.modifies:
                    inside.update(reach(objs[pn], pn))
            for pn in c.modifies:
                if pn in c.keeps_ref:
                    continue
                for i, (pth, o) in reach(objs[pn], pn).items():
                    if i in inside and not isinstance(o, tuple):
                        prob.append(("fresh", f"{pth} is the very object {inside[i][0]}", None, None, mp.inf))
        if keep is not None:
            for (o, ty, v0) in keep:
                try:
                    same = same_view(ty.view(o), v0)
                except (TypeError, AttributeError, IndexError):
                    same = False
                if not same:
                    prob.append(("fresh", "a result returned earlier is changed by this call", None, None, mp.inf))
                    break
            if c.fresh and is_container(res):
                earlier = {}
                for (o, ty, v0) in keep:
                    earlier.update(reach(o, "result"))
                for i, (pth, o) in reach(res, "result").items():
                    if i in earlier and not isinstance(o, tuple):
                        prob.append(("fresh", f"{pth} is part of the result of an earlier call", None, None, mp.inf))
                        break
            if rty is not None and is_container(res):
                keep.append((res, rty, rview))
                del keep[:-12]
        return prob

    def concrete_search(s, c, rep, rng, n, heavy, open_):
        """runs the real code on concrete inputs (40-digit and native doubles)"""
        t0 = time.time()
        limit = t0 + (40 if heavy else 12)
        cases = [k for k in c.cases if not k.get("symbolic_only")]
        rep.native_runs = getattr(rep, "native_runs", 0)
        tolmp = mp.mpf(c.mptol)
        per = max(4, n // max(1, len(cases)))
        # solver-suggested inputs for open obligations first
        todo = []
        for case in cases:
            vs = s.sample_views(c, case, rng, per)
            if heavy:
                vs = s.directed(c, case, open_, rng) + [(v, False) for v in vs]
            else:
                vs = [(v, False) for v in vs]
            todo += [(case, v, far) for v, far in vs]
        seen = 0
        for case, v, far in todo:
            if time.time() > limit:
                break
            draws = {"gauss": [rng.choice([rng.gauss(0, 1), 0.0, 1.0]) for _ in range(4)], "unit": [rng.random() for _ in range(4)]}
            try:
                pm = s.run_concrete(c, case, v, "mp", draws) if c.native != "only" else []
            except Unsupported as e:
                pm = []
                rep.notes.append(f"40-digit run not possible: {e}") if not any("40-digit" in x for x in rep.notes) else None
            except RecursionError:
                pm = []
            seen += 1
            if s.kinds is not None:
                pm = [x for x in pm if x[0] in s.kinds]
            # a solver model may lie where no orbit does (a kilometre from the centre of the Earth): only what shows
            # well above the rounding of published coefficients, and without help of the double arithmetic, counts
            bad = [x for x in pm if x[4] > (max(tolmp, mp.mpf(10) ** -6) if far else tolmp) or x[0] in ("frame", "fresh", "type", "no-exception")]
            if bad and all(x[0] == "post" for x in bad):
                # 40 digits may be too few (a range of 1e-39 km): a violation stays at any precision
                try:
                    with mp.workdps(4 * mp.mp.dps):
                        again = s.run_concrete(c, case, v, "mp", draws)
                    worst = max([mp.mpf(0)] + [x[4] for x in again if x[0] == "post"])
                    if worst * mp.mpf(10) ** 6 < max(x[4] for x in bad) or far and s.rounding_only(c, case, v, draws, bad, rng, "mp"):
                        bad = []
                except Unsupported:
                    pass
            nat = []
            if c.native:
                w = v
                if rng.random() < 0.3:
                    # whole numbers as Python integers
                    v = {k: vmap(lambda x: int(x) if isinstance(x, float) and x == int(x) and abs(x) < 1e9 else x, x) for k, x in v.items()}
                try:
                    nat = s.run_concrete(c, case, v, "native", draws)
                    rep.native_runs += 1
                except Unsupported:
                    nat = []
                if s.kinds is not None:
                    nat = [x for x in nat if x[0] in s.kinds]
                nbad = [x for x in nat if x[0] in ("frame", "fresh", "type", "no-exception") or x[4] > c.tol]
                if far and not bad and c.native != "only":
                    nbad = [x for x in nbad if x[0] in ("frame", "fresh", "type")]
                if nbad and not bad and s.rounding_only(c, case, w, draws, nbad, rng):
                    nbad = []
            else:
                nbad = []
            if bad or nbad:
                what = "; ".join(x[0] + ": " + x[1] for x in (nbad or bad)[:3])
                x = (nbad or bad)[0]
                f = Failure(c.id, "native double run" if nbad else "40-digit run of the same source", {**v, "draws": draws}, what, x[2], x[3])
                f.kinds = sorted({y[0] for y in bad + nbad})
                rep.failures.append(f)
                rep.concrete += seen
                seen = 0
                if len(rep.failures) >= 2:
                    return
                limit = min(limit, time.time() + 5)
        rep.concrete += seen
        if rep.history and not rep.failures:
            s.history_search(c, rep, rng, cases)

    def rounding_only(s, c, case, v, draws, nbad, rng, mode="native"):
        """the double run is right for inputs a few units in the last place away, and the 40-digit
        run of the same source is right at the inputs themselves: rounding, not a violation"""
        if c.native == "only" or any(x[0] != "post" for x in nbad):
            return False
        for k in range(24):
            w = copy.deepcopy(v)
            nudge(w, rng, 2.0 ** -52 * (1 if k % 3 else 6), k % 2 == 1)
            try:
                s.close(c, w, True)
                pb = s.run_concrete(c, case, v, mode, draws, near=w)
            except (Unsupported, ArithmeticError, ValueError, KeyError):
                continue
            if not any(x[0] in ("frame", "fresh", "type", "no-exception") or x[4] > c.tol for x in pb):
                return True
        return False

    def history_search(s, c, rep, rng, cases):
        """state kept between calls (caches): repeated, slightly different and in-place changed inputs"""
        tol = mp.mpf(c.mptol)
        for case in cases:
            base = s.sample_views(c, case, rng, 6)
            seq = []
            for v in base:
                seq.append(v)
                for _ in range(3):
                    seq.append(perturb(v, rng, c, case))
                seq.append(v)
            kept = {"mp": [], "native": []}
            for v in seq:
                if s.history_step(c, case, rep, v, seq, ("mp", "native"), lambda m: {"keep": kept[m]}):
                    return
            # the same objects used again after their public state was changed
            for deep in (True, False):
                for mode in ("mp", "native"):
                    for v in base[:3]:
                        held = {"_deep": deep}
                        todo = [v, perturb(v, rng, c, case), rng.choice(base), perturb(v, rng, c, case)]
                        for w in todo:
                            if s.history_step(c, case, rep, w, todo, (mode,), lambda m: {"reuse": held}):
                                return

        s.repeat_search(c, rep, rng, cases)

    def repeat_search(s, c, rep, rng, cases):
        """counters: the very same call, many times over, always gives the very same answer"""
        if not c.native:
            return
        L = s.natL
        limit = time.process_time() + 6
        glob = set()
        for gn, go in global_roots(L).items():
            glob |= set(reach(go, gn))
        for case in cases:
            for v in s.sample_views(c, case, rng, 1):
                cv = {k: vmap(lambda x: float(x) if isinstance(x, mp.mpf) else x, x) for k, x in v.items()}
                held, first = None, None
                for i in range(6000):
                    if time.process_time() > limit:
                        return
                    objs = {pn: ty.build(L, cv[pn]) for pn, ty in c.params}
                    for a, b in case.get("alias") or ():
                        objs[a] = objs[b]
                    if i % 2 and held is not None:
                        try:
                            objs = {pn: graft(held[pn], objs[pn], glob, False) for pn in objs}
                        except Unsupported:
                            pass
                    held = objs if i % 2 or held is None else held
                    pos = {"gauss": 0, "unit": 0}

                    def draw(kind):
                        pos[kind] += 1
                        return 0.3 * pos[kind]

                    L.rand.draw = draw
                    try:
                        with cpu_limit(10):
                            res = s.invoke(c, L, objs)
                        rty = c.result
                        if callable(rty) and not hasattr(rty, "view"):
                            rty = rty({k: vmap(exact, x) for k, x in v.items()})
                        out = [rty.view(res) if rty is not None else None, {pn: ty.view(objs[pn]) for pn, ty in c.params if pn in c.modifies}]
                    except (Unsupported, NotImplementedError):
                        return
                    except (Exception, Endless) as ex:
                        out = f"{type(ex).__name__}: {ex}"
                    if first is None:
                        first = out
                    elif not same_view(out, first):
                        f = Failure(c.id, "native", v, f"the same call gives another answer the {i + 1}th time", jsonable(first), jsonable(out))
                        f.kinds = ["post"]
                        rep.failures.append(f)
                        return

    def history_step(s, c, case, rep, v, seq, modes, kw):
        draws = {"gauss": [0.3, -0.4], "unit": [0.7]}
        try:
            s.close(c, v, True)
            ev = {k: vmap(exact, x) for k, x in v.items()}
            if not all(truth(f, {}) is True for f in s.pres(c, case, ev)):
                return False
        except (Unsupported, ArithmeticError, ValueError):
            return False
        for mode in modes:
            if mode == "native" and not c.native or mode == "mp" and c.native == "only":
                continue
            try:
                pb = s.run_concrete(c, case, v, mode, draws, **kw(mode))
            except (Unsupported, RecursionError):
                continue
            bad = [x for x in pb if x[4] > (mp.mpf(c.mptol) if mode == "mp" else c.tol) and (s.kinds is None or x[0] in s.kinds)]
            if bad:
                # the same inputs with the library freshly loaded: only what differs is due to the history
                held = s._mp, s._nat
                s._mp = s._nat = None
                try:
                    anew = {x[:2] for x in s.run_concrete(c, case, v, mode, draws)}
                except (Unsupported, RecursionError):
                    anew = set()
                finally:
                    s._mp, s._nat = held
                bad = [x for x in bad if x[:2] not in anew]
            if bad:
                f = Failure(c.id, mode, v, "after earlier calls: " + bad[0][1], bad[0][2], bad[0][3], history=[jsonable(x) for x in seq[: seq.index(v)]][-6:])
                f.kinds = [bad[0][0]]
                rep.failures.append(f)
                return True
        return False

    def directed(s, c, case, open_, rng):
        """[(inputs, far)] suggested by refuting samples and by solver models (far) of the failing paths"""
        out = []
        t0 = time.time()
        base = s.sample_views(c, case, rng, 3)
        if not base:
            return out
        view = {pn: ty.fresh(pn) for pn, ty in c.params + c.ghosts}
        for k, x in (case.get("fix") or {}).items():
            setpath(view, k, x if not isinstance(x, float) else exact(x))
        s.close(c, view, False)
        for o in open_[:10]:
            if o.get("env"):
                b = forced_env(view, base[0], o["env"])
                out.append((b, False))
            if time.time() - t0 > 15 or "formula" not in o:
                continue
            goal, hyps = o["formula"]
            for flip in (True, False):
                hs = list(hyps)
                if flip and not isinstance(goal, bool):
                    hs.append(negate(goal))
                env = solve_env(hs, c.z3ms)
                if env is not None:
                    for b0 in base:
                        out.append((forced_env(view, b0, env), True))
                    break
            for b0 in base[:2]:
                e0 = s.env_of(view, forced(b0, view)) if True else None
                if e0:
                    env = repair_env(hyps, e0)
                    if env is not None:
                        out.append((forced_env(view, b0, env), True))
        # keep the ones meeting the precondition
        good = []
        for v, far in out:
            try:
                s.close(c, v, True)
                if any(isinstance(x, float) and 0 < abs(x) < 1e-12 for _, x in vleaves(v)):
                    continue
                ev = {k: vmap(exact, x) for k, x in v.items()}
                if all(truth(f, {}) is True for f in s.pres(c, case, ev)):
                    good.append((v, far))
            except (ZeroDivisionError, ValueError, Unsupported, TypeError):
                pass
        return good


_declared = None


def declared():
    """attribute names the contracts speak of"""
    global _declared
    if _declared is None:
        _declared = {"x", "y", "z", "vx", "vy", "vz", "value"} | {f"row{i}" for i in range(1, 7)}

        def go(v):
            if isinstance(v, dict):
                _declared.update(k for k in v if isinstance(k, str))
                for x in v.values():
                    go(x)
            elif isinstance(v, (list, tuple)):
                for x in v:
                    go(x)

        for c in REG.values():
            for pn, ty in c.params:
                go(ty.fresh(pn))
    return _declared


def hidden(path, k):
    """private state (a leading underscore) that no contract speaks of"""
    return any(x.startswith("_") and x not in declared() for x in path.split(".")[1:] + ([k] if isinstance(k, str) else []))


def is_cache(L, path):
    """module- or class-level state that is private, or empty when the library is loaded: it may
    change between calls as long as no result depends on the history of the calls"""
    if any(x.startswith("_") for x in path.replace(":", ".").split(".")):
        return True
    return any(path == p or path.startswith(p + ".") for p in L.empty_at_load)


def same_view(a, b):
    if type(a) is not type(b) and (is_container(a) or is_container(b)):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_view(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_view(x, y) for x, y in zip(a, b))
    return a is b or a == b


def graft(old, new, glob, deep):
    """brings the object old to the public state of the object new, in place"""
    if not is_container(old) or type(old) is not type(new) or id(old) in glob or isinstance(old, (tuple, dict)):
        return new
    if isinstance(old, list):
        if len(old) == len(new):
            old[:] = [graft(a, b, glob, deep) if deep else b for a, b in zip(old, new)]
            return old
        return new
    names = [k for k, _ in children(new) if isinstance(k, str) and not k.startswith("_")]
    names += [k for k in dir(type(new)) if isinstance(getattr(type(new), k, None), property) and getattr(type(new), k).fset is not None]
    for k in names:
        b = getattr(new, k)
        a = getattr(old, k, None)
        try:
            setattr(old, k, graft(a, b, glob, deep) if deep else b)
        except AttributeError:
            raise Unsupported("not settable")
    return old


class Endless(BaseException):
    pass


@contextlib.contextmanager
def cpu_limit(secs):
    """ends a run of the real code that loops for ever (processor time, so a busy machine is no matter)"""
    def stop(*a):
        raise Endless()

    try:
        old = signal.signal(signal.SIGVTALRM, stop)
    except ValueError:  # not the main thread
        yield
        return
    signal.setitimer(signal.ITIMER_VIRTUAL, secs)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


class Replayer:
    """hands the spec the random draws the body made, in order per kind"""

    def __init__(s, p):
        s.p, s.pos = p, {"gauss": 0, "unit": 0}

    def __call__(s, kind):
        q = s.p.draws[kind]
        i = s.pos[kind]
        s.pos[kind] += 1
        return q[i] if i < len(q) else s.p.draw(kind)


class ConstDraws:
    def __init__(s, draws):
        s.d, s.pos = draws, {"gauss": 0, "unit": 0}

    def __call__(s, kind):
        i = s.pos[kind]
        s.pos[kind] += 1
        return exact(s.d[kind][i % len(s.d[kind])])


def hash_str(x):
    h = 0
    for ch in x:
        h = (h * 131 + ord(ch)) % 1000003
    return h


def setpath(v, k, x):
    ks = k.split(".")
    o = v
    for a in ks[:-1]:
        o = o[int(a)] if isinstance(o, list) else o[a]
    a = ks[-1]
    o[int(a) if isinstance(o, list) else a] = x


def forced(cv, sv):
    """concrete view with the enumerated leaves of the symbolic view imposed"""
    if isinstance(sv, dict):
        return {k: forced(cv[k], x) for k, x in sv.items()}
    if isinstance(sv, list):
        return [forced(a, b) for a, b in zip(cv, sv)]
    if isinstance(sv, (bool, str)) or sv is None:
        return sv
    return cv


def forced_env(sv, cv, env):
    if isinstance(sv, dict):
        return {k: forced_env(x, cv[k], env) for k, x in sv.items()}
    if isinstance(sv, list):
        return [forced_env(x, y, env) for x, y in zip(sv, cv)]
    if isinstance(sv, T) and sv.op == "v" and sv.args[0] in env:
        x = env[sv.args[0]]
        return int(x) if sv.sort == "int" else float(x)
    return cv


def solve_env(hyps, ms):
    """a z3 model of the hypotheses (transcendentals abstracted), as an environment"""
    try:
        enc = Z3Enc(())
        sol = z3.Solver()
        sol.set("timeout", int(min(ms, 2500)))
        fs = [h for h in hyps if not isinstance(h, bool)]
        for h in fs:
            if len(tm.topo(formula_terms(h))) < 400:
                sol.add(enc.formula(h))
        for a in enc.axioms():
            sol.add(a)
        if sol.check() != z3.sat:
            return None
        m = sol.model()
        env = {}
        for v in tm.variables([t for h in fs for t in formula_terms(h)]):
            zv = enc.term(v)
            x = m.eval(zv, model_completion=True)
            env[v.args[0]] = z3num(x)
        return env
    except (Unsupported, z3.Z3Exception, ValueError, AttributeError):
        return None


def z3num(x):
    if z3.is_int_value(x):
        return mp.mpf(x.as_long())
    if z3.is_rational_value(x):
        return mp.mpf(x.numerator_as_long()) / x.denominator_as_long()
    if z3.is_algebraic_value(x):
        a = x.approx(40)
        return mp.mpf(a.numerator_as_long()) / a.denominator_as_long()
    raise ValueError


def repair_env(hyps, env):
    """satisfy equalities that are linear in one variable, one at a time"""
    env = dict(env)
    ch = False
    for h in hyps:
        if isinstance(h, B) and h.op in ("==", "<", "<="):
            if truth(h, env) is not False:
                continue
            d = h.a - h.b
            for v in sorted(tm.variables([d]), key=lambda t: t.args[0]):
                n = v.args[0]
                if n not in env:
                    continue
                x0 = env[n]
                f0 = tm.evaluate([d], env)[0]
                env[n] = x0 + 1
                f1 = tm.evaluate([d], env)[0]
                env[n] = x0
                if mp.isnan(f0) or mp.isnan(f1) or f1 == f0:
                    continue
                env[n] = x0 - f0 / (f1 - f0) * (1 if h.op == "==" else mp.mpf("1.5"))
                if truth(h, env) is True or (h.op == "==" and abs(tm.evaluate([d], env)[0]) < mp.mpf(10) ** -25):
                    ch = True
                    break
                env[n] = x0
            else:
                return None
    return env if ch else None


def perturb(v, rng, c, case):
    """a neighbouring input: only what the contract leaves free is moved"""
    def go(x, y):
        if isinstance(x, dict):
            return {k: go(x[k], y[k]) for k in x}
        if isinstance(x, (list, tuple)):
            return [go(a, b) for a, b in zip(x, y)]
        if not isinstance(x, float) or not (isinstance(y, T) and y.op == "v") or rng.random() >= 0.4:
            return x
        return x + rng.choice([0.0, 1e-9, 1e-6, 1e-3, 0.5]) * rng.choice([-1, 1])

    free = {pn: ty.fresh(pn) for pn, ty in c.params + c.ghosts}
    w = {k: go(x, free[k]) for k, x in v.items()}
    for k, x in (case.get("fix") or {}).items():
        setpath(w, k, x)
    return w


def rfkey(r):
    return (frozenset(r.num.items()), frozenset((k, e) for k, (_, e) in r.den.items()))


def path_tag(p):
    return "".join("T" if d else "F" for d in p.dec)[:40]


def decided(res, objs):
    """the outcome with every symbolic comparison kept in it decided (one path per truth value)"""
    if isinstance(res, B):
        return bool(res)
    for root in [res, *objs.values()]:
        if is_container(root):
            for _, o in list(reach(root, "").values()):
                d = o if isinstance(o, dict) else getattr(o, "__dict__", {})
                for k, x in list(d.items()):
                    if isinstance(x, B) and not isinstance(x, tm.Given):
                        d[k] = bool(x)
                if isinstance(o, list):
                    o[:] = [bool(x) if isinstance(x, B) else x for x in o]
    return res


def outside_assumed(c, ex):
    """an arithmetic error inside a callee whose precondition this contract assumes"""
    names = {REG[i].target.split(":")[1].split(".")[-1] for k in REG.values() for i in k.assume_pre if i in REG and REG[i].target and REG[i].target != c.target}
    if "div" in c.assume_pre and isinstance(ex, ZeroDivisionError):
        return True
    return any("/openspace/" in fr.filename and fr.name in names for fr in traceback.extract_tb(ex.__traceback__))


def short_tb(ex):
    out = []
    for fr in traceback.extract_tb(ex.__traceback__):
        if "/openspace/" in fr.filename:
            out.append(f"{fr.filename.split('/src/')[-1]}:{fr.lineno} in {fr.name}")
    return " <- ".join(reversed(out[-4:]))


def compare(a, b, path, ck):
    """actual vs expected views -> goals"""
    if isinstance(b, dict):
        for k in b:
            if k.startswith("_"):
                continue
            if not isinstance(a, dict) or k not in a:
                ck.append(("type", f"{path}.{k} is left undefined", False))
                continue
            compare(a[k], b[k], f"{path}.{k}", ck)
        return
    if isinstance(b, (list,)):
        if len(a) != len(b):
            ck.append(("post", f"{path} has the wrong length", False))
            return
        for i, (x, y) in enumerate(zip(a, b)):
            compare(x, y, f"{path}[{i}]", ck)
        return
    if b is ANY:
        return
    if isinstance(b, FORMULA):
        ck.append(("post", path, b if a is True else negate(b)))
        return
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        ck.append(("post", path, a == b and type(a) is type(b)))
        return
    ck.append(("post", path, eq(lift(a), lift(b))))


class _Any:
    pass


ANY = _Any()


def num_compare(a, b, path, prob, c):
    la = list(pairs(a, b, path))
    # scale: largest magnitude among siblings
    groups = {}
    for p, x, y in la:
        g = p.rsplit("[", 1)[0]
        if isinstance(y, (T, int, float, mp.mpf)) and not isinstance(y, bool):
            yv = y.num() if isinstance(y, T) else mp.mpf(y)
            groups.setdefault(g, []).append(abs(yv))
    for p, x, y in la:
        if y is ANY:
            continue
        if isinstance(y, FORMULA):
            m = slack(y if x is True else negate(y))
            if m is not None and m < 0:
                prob.append(("post", f"{p} is {x}", fshow(y)[:200], x, -m))
            continue
        if isinstance(y, (bool, str)) or y is None or isinstance(x, (bool, str)) or x is None:
            if x != y or type(x) is not type(y):
                prob.append(("post", f"{p} is {x!r}, expected {y!r}", y, x, mp.inf))
            continue
        yv = y.num() if isinstance(y, T) else mp.mpf(y)
        xv = x.num() if isinstance(x, T) else mp.mpf(x)
        if mp.isnan(yv):
            continue
        g = p.rsplit("[", 1)[0]
        sc = max(groups[g] + [mp.mpf(10) ** -9])
        if c.scale is not None:
            sc = max(sc, mp.mpf(c.scale))
        if mp.isnan(xv):
            prob.append(("post", f"{p} is not a number", mp.nstr(yv, 15), "nan", mp.inf))
            continue
        e = abs(xv - yv) / sc
        if isinstance(y, T) and y.op == "wrap":  # at the seam rounding may land on either side
            e = min(e, abs(abs(xv - yv) - 2 * mp.pi) / sc)
        if e > mp.mpf(10) ** -25:
            prob.append(("post", f"{p} = {mp.nstr(xv, 15)}, expected {mp.nstr(yv, 15)}", mp.nstr(yv, 18), mp.nstr(xv, 18), e))


def nudge(v, rng, rel, zeros):
    """changes the floats of a view in place by a few units in the last place"""
    it = v.items() if isinstance(v, dict) else enumerate(v)
    for k, x in list(it):
        if isinstance(x, (dict, list)):
            nudge(x, rng, rel, zeros)
        elif isinstance(x, float):
            v[k] = x * (1 + rng.choice((-1, 0, 1)) * rel) if x else rng.choice((-1, 0, 1)) * rel * zeros


def pairs(a, b, path):
    if isinstance(b, dict):
        for k in b:
            if not k.startswith("_"):
                if isinstance(a, dict) and k in a:
                    yield from pairs(a[k], b[k], f"{path}.{k}")
                else:
                    yield f"{path}.{k}", None, "defined"
    elif isinstance(b, list):
        for i in range(max(len(a), len(b))):
            yield from pairs(a[i] if i < len(a) else None, b[i] if i < len(b) else None, f"{path}[{i}]")
    else:
        yield path, a, b


def slack(f, floor=None):
    """signed relative slack of a formula over constants (negative = violated); None = undefined"""
    if isinstance(f, bool):
        return mp.inf if f else -mp.inf
    if isinstance(f, B):
        x, y = f.a.num(), f.b.num()
        if mp.isnan(x) or mp.isnan(y):
            return None
        sc = max(abs(x), abs(y), mp.mpf(10) ** -9 if floor is None else floor)
        if f.op == "==":
            e = abs(x - y) / sc
            return -e if e > mp.mpf(10) ** -25 else mp.inf
        if f.op == "!=":
            return mp.inf if x != y else -mp.inf
        d = (y - x) / sc
        if f.op == "<":
            return d if d > 0 else (d if d < 0 else -mp.mpf(10) ** -30)
        return d if d != 0 else mp.inf
    rs = [slack(x, floor) for x in f[1]]
    if f[0] == "and":
        if any(r is None for r in rs):
            k = [r for r in rs if r is not None and r < 0]
            return min(k) if k else None
        return min(rs) if rs else mp.inf
    if any(r is None for r in rs):
        k = [r for r in rs if r is not None and r >= 0]
        return max(k) if k else None
    return max(rs) if rs else -mp.inf
