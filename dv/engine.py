"""Path exploration, contracts, stubs, loop cutting, obligations."""
import inspect
import time
import traceback
import types
from fractions import Fraction
import mpmath as mp
from . import terms as tm
from .terms import T, B, HOOKS, PathAbort, Unsupported, lift, fresh, var, ZERO, ONE, evaluate, const
from .prove import Prover, truth, eq, le, lt, fshow, land, formula_terms
from .loader import Loader


class _Unbound:
    def __repr__(s):
        return "<unbound>"


UNBOUND = _Unbound()


class LoopCutNeeded(BaseException):
    def __init__(s, uid):
        s.uid = uid


class RestartLoops(BaseException):
    pass


class PathLimit(Exception):
    pass


# --------------------------------------------------------------------- types
class Ty:
    """descriptor of a value: symbolic leaves <-> real object <-> view"""

    cls = None

    def fresh(s, p):
        raise NotImplementedError

    def build(s, ns, v):
        raise NotImplementedError

    def view(s, o):
        raise NotImplementedError

    def sample(s, rng):
        raise NotImplementedError

    def check(s, ns, o):
        """class check of a result; returns error text or None"""
        if s.cls is None:
            return None
        c = ns.get(s.cls)
        if c is not None and not isinstance(o, c):
            return f"expected {s.cls}, got {type(o).__name__}"
        return None

    def put(s, ns, o, v):
        """update object o in place to view v (for stubs of mutating methods)"""
        raise Unsupported(f"in-place update of {type(s).__name__}")


def vmap(f, v):
    if isinstance(v, dict):
        return {k: vmap(f, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [vmap(f, x) for x in v]
    return f(v)


def vleaves(v, path=""):
    if isinstance(v, dict):
        for k, x in v.items():
            yield from vleaves(x, f"{path}.{k}" if path else str(k))
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            yield from vleaves(x, f"{path}[{i}]")
    else:
        yield path, v


def as_t(x):
    r = lift(x)
    if r is None:
        raise TypeError(f"not a number: {x!r}")
    return r


# ----------------------------------------------------------------- contracts
REG = {}  # id -> Contract
BYTARGET = {}


class Contract:
    def __init__(s, id, target, params, result=None, spec=None, requires=None, post=None, modifies=None, opaque=None,
                 cases=None, gen=None, rules=None, facts=None, float_safe=(), fresh=True, call=None, stub=True, tol=1e-7, scale=None,
                 samples=None, timeout=20.0, z3ms=4000, defaults=None, alias_ok=False, on_call=None, raises=False, title="", maxpaths=300, native=True, stub_only_if=None, history=False, native_gen=None, trust=None, globals_ok=(), inline=(), quick=12, derived=None, on_draw=None, keeps_ref=(), note="", cost=1, override=None, mptol=1e-12, ghosts=(), tie=None, where=None, assume_pre=(), names=None, cuts=None):
        s.id, s.target, s.params, s.result = id, target, params, result
        s.spec, s.requires, s.post = spec, requires or (lambda v: []), post
        s.modifies = modifies or {}
        s.opaque, s.cases, s.gen = opaque, cases or [{}], gen
        s.rules, s.facts, s.float_safe, s.fresh = rules, facts, set(float_safe), fresh
        s.call, s.stub, s.tol, s.scale = call, stub, tol, scale
        s.samples, s.timeout, s.z3ms = samples, timeout, z3ms
        s.alias_ok, s.on_call, s.raises, s.title, s.maxpaths = alias_ok, on_call, raises, title, maxpaths
        s.native = native
        s.stub_only_if = stub_only_if
        s.history = history
        s.native_gen = native_gen
        s.trust = trust
        s.inline = set(inline)  # contracts inlined (not stubbed) while verifying this one
        s.quick = quick
        s.derived = derived
        s.cost = cost
        s.override = override or {}
        s.mptol = mptol
        s.ghosts = list(ghosts)  # auxiliary variables: (name, type)
        s.tie = tie  # expresses parameters by the ghosts (a surjective change of variables)
        s.where = where  # constraints on the ghosts
        s.on_draw, s.keeps_ref, s.note = on_draw, keeps_ref, note
        s.assume_pre = set(assume_pre)  # callees whose preconditions are assumed here (recorded as an assumption); "div": no divisor vanishes
        s.names = names  # terms over the inputs that name intermediate values of the code (each use is an obligation)
        s.cuts = cuts  # cut points: fresh variables standing for intermediate values, known only by facts proved about them
        REG[id] = s
        if stub:
            BYTARGET.setdefault(target, s)

    def pre(s, v):
        return [x for x in s.requires(v)]


class Obligation:
    __slots__ = ("contract", "kind", "label", "goal", "hyps", "status", "how", "secs", "env", "detail", "line")

    def __init__(s, contract, kind, label, goal, hyps=()):
        s.contract, s.kind, s.label, s.goal, s.hyps = contract, kind, label, goal, hyps
        s.status, s.how, s.secs, s.env, s.detail, s.line = "open", "", 0.0, None, "", ""

    def name(s):
        return f"{s.contract}/{s.kind}/{s.label}"


# -------------------------------------------------------------- object graphs
def is_lib(o):
    return type(o).__module__.startswith("openspace") if hasattr(type(o), "__module__") else False


def children(o):
    """mutable parts: (key, child) pairs of a container"""
    if isinstance(o, (list, tuple)):
        return list(enumerate(o))
    if isinstance(o, dict):
        return [(k, v) for k, v in o.items()]
    d = getattr(o, "__dict__", None)
    if d is not None and not isinstance(o, (type, types.ModuleType, types.FunctionType)):
        return list(d.items())
    sl = []
    for c in type(o).__mro__:
        ss = c.__dict__.get("__slots__", ())
        for k in (ss,) if isinstance(ss, str) else ss:
            if hasattr(o, k):
                sl.append((k, getattr(o, k)))
    return sl if is_lib(o) else []


def is_container(o):
    if isinstance(o, (T, B, int, float, str, bool, type(None), type, types.ModuleType, types.FunctionType)):
        return False
    return isinstance(o, (list, tuple, dict)) or is_lib(o)


def reach(o, path="", seen=None, out=None):
    """id -> (path, obj) for all reachable containers"""
    out = {} if out is None else out
    if not is_container(o) or id(o) in out:
        return out
    out[id(o)] = (path, o)
    for k, c in children(o):
        reach(c, f"{path}.{k}" if path else str(k), None, out)
    return out


class Snapshot:
    def __init__(s, roots):
        """roots: dict name->object"""
        s.items = []
        seen = {}
        for n, o in roots.items():
            reach(o, n, None, seen)
        s.objs = [o for _, o in seen.values()]
        s.paths = {i: p for i, (p, o) in seen.items()}
        s.state = {id(o): list(children(o)) for o in s.objs}

    def diff(s):
        out = []
        for o in s.objs:
            now = children(o)
            old = dict(s.state[id(o)])
            nd = dict(now)
            for k in old.keys() | nd.keys():
                a, b = old.get(k, UNBOUND), nd.get(k, UNBOUND)
                if a is b:
                    continue
                if isinstance(a, T) and isinstance(b, T) and a.id == b.id:
                    continue
                if not is_container(a) and not is_container(b) and not isinstance(a, T) and not isinstance(b, T) and type(a) is type(b):
                    try:
                        if a == b:
                            continue
                    except Exception:
                        pass
                out.append((s.paths[id(o)], k, a, b))
        return out

    def restore(s):
        for o in s.objs:
            st = s.state[id(o)]
            if isinstance(o, list):
                o[:] = [v for _, v in st]
            elif isinstance(o, dict):
                o.clear()
                o.update(st)
            elif isinstance(o, tuple):
                pass
            else:
                d = getattr(o, "__dict__", None)
                if d is not None:
                    if dict(st) != d or True:
                        for k in list(d):
                            if k not in dict(st):
                                del d[k]
                        d.update(st)
                else:
                    for k, v in st:
                        setattr(o, k, v)


def global_roots(L):
    roots = {}
    for mn, m in L.mods.items():
        for k, v in list(vars(m).items()):
            if k.startswith("__") or k.startswith("_dv_"):
                continue
            if isinstance(v, type) and v.__module__ == mn:
                for ck, cv in list(vars(v).items()):
                    if ck.startswith("__") or isinstance(cv, (types.FunctionType, staticmethod, classmethod, property, type)):
                        continue
                    roots[f"{mn}:{v.__name__}.{ck}"] = cv
            elif isinstance(v, (types.ModuleType, types.FunctionType, type)) or callable(v):
                continue
            else:
                roots[f"{mn}:{k}"] = v
    return roots


def class_scalars(L):
    """rebindable class / module attributes (name -> value) to notice rebinding"""
    out = {}
    for mn, m in L.mods.items():
        for k, v in list(vars(m).items()):
            if k.startswith("__") or k.startswith("_dv_"):
                continue
            if isinstance(v, type) and v.__module__ == mn:
                for ck, cv in list(vars(v).items()):
                    if ck.startswith("__"):
                        continue
                    out[(mn, v.__name__, ck)] = cv
            elif not isinstance(v, types.ModuleType):
                out[(mn, None, k)] = v
    return out


# ------------------------------------------------------------------- path run
class Path:
    """one symbolic execution path"""

    def __init__(s, eng, prefix, cuts):
        s.eng = eng
        s.prefix = prefix
        s.dec = []  # decisions taken (bool)
        s.pc = []
        s.known = {}
        s.obs = []  # (kind, label, goal, nhyps)
        s.hyps = []
        s.cuts = cuts
        s.alts = []
        s.inspec = 0
        s.folding = False
        s.draws = {"gauss": [], "unit": []}
        s.loops = []
        s.forks_in_loop = {}
        s.events = []
        s.calls = []

    # decisions
    def choose(s, tag):
        i = len(s.dec)
        if i < len(s.prefix):
            r = s.prefix[i]
        else:
            r = True
            s.alts.append(list(s.dec) + [False])
        s.dec.append(r)
        if len(s.dec) > 400:
            raise Unsupported("too many decisions on one path")
        return r

    def decide(s, b):
        k = b.key()
        if k in s.known:
            return s.known[k]
        # implied by interval facts?
        d = b.b - b.a
        if d.isconst:
            r = tm.holds_num(b.op, mp.mpf(0), d.num())
            s.known[k] = r
            return r
        if b.op in ("<", "<="):
            iv = s.eng.signs(s).get(d)
            if iv.lo > 0 or (iv.lo == 0 and (iv.ls or b.op == "<=")):
                s.known[k] = True
                return True
            if iv.hi < 0 or (iv.hi == 0 and (iv.hs or b.op == "<")):
                s.known[k] = False
                return False
        else:
            iv = s.eng.signs(s).get(d)
            if iv.sign() in ("+", "-"):
                s.known[k] = b.op == "!="
                return s.known[k]
            if iv.lo == 0 == iv.hi:
                s.known[k] = b.op == "=="
                return s.known[k]
        if s.loops and not s.inspec:
            u = s.loops[-1]
            if u.mode == "unroll":
                u.forks += 1
                if u.forks > 6:
                    raise LoopCutNeeded(u.uid)
        r = s.choose(repr(b)[:80])
        s.learn(b if r else b.neg())
        return r

    def learn(s, b):
        s.pc.append(b)
        s.hyps.append(b)
        s.eng._signs = None
        n = b.neg()
        s.known[b.key()] = True
        s.known[n.key()] = False
        if b.op in ("==", "!="):
            s.known[(b.op, b.b.id, b.a.id)] = True
            s.known[(n.op, b.b.id, b.a.id)] = False
        if b.op == "<":
            s.known[("<=", b.a.id, b.b.id)] = True
            s.known[("<", b.b.id, b.a.id)] = False
            for o, r in (("==", False), ("!=", True)):
                s.known[(o, b.a.id, b.b.id)] = r
                s.known[(o, b.b.id, b.a.id)] = r
        if b.op == "==":
            for x, y in ((b.a, b.b), (b.b, b.a)):
                s.known[("<=", x.id, y.id)] = True
                s.known[("<", x.id, y.id)] = False

    def domain(s, kind, cond):
        if s.inspec:
            return
        if s.known.get(cond.key()):
            return
        if kind not in s.eng.assumed:
            s.obs.append(("domain", kind, cond, len(s.hyps), s.eng.where()))
        s.hyps.append(cond)
        s.known[cond.key()] = True
        s.eng._signs = None

    def oblige(s, kind, label, goal):
        s.obs.append((kind, label, goal, len(s.hyps), ""))

    def assume(s, f):
        s.hyps.append(f)
        s.eng._signs = None
        if isinstance(f, B):
            s.known[f.key()] = True
            s.known[f.neg().key()] = False

    def draw(s, kind):
        t = fresh("draw_" + kind)
        s.draws[kind].append(t)
        if kind == "unit":
            s.assume(B("<=", ZERO, t))
            s.assume(B("<=", t, ONE))
        if s.eng.on_draw is not None:
            for f in s.eng.on_draw(kind, t, len(s.draws[kind]) - 1):
                s.assume(f)
        return t


class Loop:
    def __init__(s, uid, names):
        s.uid, s.names = uid, names
        s.count = 0
        s.forks = 0
        s.mode = "unroll"
        s.bodies = 0


class Engine:
    def __init__(s, src=None, seed=1):
        s.seed = seed
        s.path = None
        s._signs = None
        s.active = set()  # contract ids verified right now (real body runs)
        s.stub_on = False
        s.concrete = False
        s.used = set()
        s.boundary = set()
        s.L = Loader("sym", wrap=s._wrap, enter=s._enter, head=s._head, exit_=s._exit, src=src)
        s.L.inject["_dv_body"] = s._body
        s.missing = []
        s.draw_queue = None
        s.L.rand.draw = s._draw
        s.L.all()
        s.native_L = None
        s.base_pre = []
        s.real = {}

    # ------------------------------------------------------------ stubs
    def _wrap(s, mod):
        for target, c in BYTARGET.items():
            mn, _, q = target.partition(":")
            if mn != mod.__name__:
                continue
            owner = mod
            parts = q.split(".")
            for p in parts[:-1]:
                owner = vars(owner).get(p) if isinstance(owner, (type, types.ModuleType)) else None
                if owner is None:
                    break
            if owner is None or parts[-1] not in vars(owner):
                continue
            raw = vars(owner)[parts[-1]]
            s._install(owner, parts[-1], raw, c)

    def _install(s, owner, name, raw, c):
        eng = s
        kind = "static" if isinstance(raw, staticmethod) else "class" if isinstance(raw, classmethod) else "plain"
        fn = raw.__func__ if kind in ("static", "class") else raw
        if not callable(fn):
            return
        try:
            sig = inspect.signature(fn)
        except (TypeError, ValueError):
            return

        def disp(*a, **k):
            if not eng.stub_on or c.id in eng.active or c.id in eng.inl:
                return fn(*a, **k)
            if c.stub_only_if is not None and not c.stub_only_if(eng):
                return fn(*a, **k)
            return eng.call_stub(c, fn, sig, a, k, kind)

        disp.__name__ = getattr(fn, "__name__", name)
        disp.__qualname__ = getattr(fn, "__qualname__", name)
        disp.__doc__ = fn.__doc__
        disp.__module__ = fn.__module__
        disp.__wrapped__ = fn
        w = staticmethod(disp) if kind == "static" else classmethod(disp) if kind == "class" else disp
        setattr(owner, name, w)

    inl = frozenset()
    on_draw = None
    assumed = frozenset()
    overrides = {}
    cur_view = None

    def call_stub(s, c, fn, sig, a, k, kind):
        try:
            ba = sig.bind(*a, **k)
        except TypeError:
            return fn(*a, **k)  # let the real code raise
        ba.apply_defaults()
        vals = list(ba.arguments.items())
        if kind == "class":
            clsarg = vals[0][1]
            vals = vals[1:]
        if len(vals) < len(c.params):
            return fn(*a, **k)
        # extra parameters must be at their defaults, else inline the real body
        for (n, v) in vals[len(c.params):]:
            p = sig.parameters.get(n)
            if p is None or p.default is inspect._empty or v is not p.default:
                return fn(*a, **k)
        objs = {}
        view = {}
        try:
            for (pn, ty), (n, v) in zip(c.params, vals):
                objs[pn] = v
                view[pn] = ty.view(v)
        except (AttributeError, TypeError, KeyError, IndexError):
            return fn(*a, **k)  # ill-typed argument: the real body decides
        s.used.add(c.id)
        p = s.path
        hooks = s.call_hook
        if hooks is not None:
            hooks(c, view, objs)
        if p is not None:
            p.inspec += 1
        try:
            if p is not None:
                for i, f in enumerate(c.pre(view)):
                    if f is True:
                        continue
                    if c.id in s.assumed:
                        p.assume(f) if not isinstance(f, bool) else None
                        continue
                    p.inspec -= 1
                    p.oblige("pre", f"{c.id}#{i}", f)
                    p.inspec += 1
                    p.assume(f) if not isinstance(f, bool) else None
            else:
                for f in c.pre(view):
                    if f is False or (isinstance(f, tuple) and truth(f, {}) is False):
                        raise PreFailed(c.id)
            s.draw_src = s._draw
            view["_draw"] = s._draw
            view["_class"] = a[0] if kind == "class" else None
            if p is not None and c.id in s.overrides:
                res = s.overrides[c.id](view, s.cur_view, p)
            elif c.opaque is not None and p is not None:
                res, facts = c.opaque(view)
                for f in facts:
                    p.assume(f)
            else:
                res = c.spec(view) if c.spec else None
                if p is not None and c.derived is not None:
                    for f in c.derived(view, res):
                        p.assume(f)
            for pn, upd in c.modifies.items():
                nv = upd(view)
                ty = dict(c.params)[pn]
                s.putting(ty, objs[pn], nv)
            if c.result is None:
                return None
            so, s.stub_on = s.stub_on, False
            try:
                ty = c.result
                if callable(ty) and not isinstance(ty, Ty):
                    ty = ty(view)
                if hasattr(ty, "build_like"):
                    return ty.build_like(s.L, res, objs)
                return ty.build(s.L, res)
            finally:
                s.stub_on = so
        finally:
            if p is not None:
                p.inspec -= 1

    def putting(s, ty, o, v):
        so, s.stub_on = s.stub_on, False
        try:
            ty.put(s.L, o, v)
        finally:
            s.stub_on = so

    call_hook = None

    def _draw(s, kind):
        if s.path is not None:
            return s.path.draw(kind)
        if s.draw_queue is not None:
            q = s.draw_queue[kind]
            i = s.draw_pos[kind]
            s.draw_pos[kind] += 1
            if i < len(q):
                return q[i]
            return const(Fraction(1, 3))
        raise Unsupported("random draw")

    def signs(s, p):
        if s._signs is None:
            from .prove import Signs

            s._signs = Signs(s.base_pre + p.hyps)
        return s._signs

    def where(s):
        f = inspect.currentframe()
        while f is not None:
            fn = f.f_code.co_filename
            if "/openspace/" in fn:
                return f"{fn.split('/src/')[-1]}:{f.f_lineno}"
            f = f.f_back
        return ""

    # ------------------------------------------------------------ loops
    def _enter(s, uid, names):
        l = Loop(uid, names)
        if s.path is not None:
            if uid in s.path.cuts:
                l.mode = "cut"
            s.path.loops.append(l)
        return l

    def _exit(s, l):
        if s.path is not None:
            if l.mode in ("arb", "probe") and l.bodies == 0:
                raise PathAbort()
            if l in s.path.loops:
                while s.path.loops and s.path.loops.pop() is not l:
                    pass
            if l.mode in ("arb", "final"):
                s.path.events.append(("loop-exit", l.uid))

    def _body(s, l):
        if l.mode == "zero" or l.mode == "final":
            raise PathAbort()
        l.bodies += 1
        if l.mode == "arb" and l.count == 1:
            s._not_past(l)

    def _not_past(s, l):
        """a loop guarded by `counter != end`, the counter moving by one: the guard held at every iteration before
        this one too, so an end that lies ahead of the start has not been passed"""
        p = s.path
        new = [b for b in p.hyps[l.at:] if isinstance(b, B)]
        if len(p.hyps) - l.at != 1 or not new or new[0].op != "!=":
            return
        d = lift(new[0].b) - lift(new[0].a)
        if d.sort != "int" or any(v.args[0].startswith("hv_") for v in tm.variables([d])) or all(v.id != l.k.id for v in tm.variables([d])):
            return
        d0, d1 = (tm.substitute(d, {l.k.id: lift(x)}, {}) for x in (0, 1))
        pr = lambda g: Prover(s.base_pre + p.hyps, s.env_pool(p), timeout=3, z3ms=300).prove(g).status == "proved"
        for sg in (1, -1):
            m = -sg * d0
            if pr(eq(d1 - d0, lift(sg))) and pr(eq(d, d0 + sg * l.k)) and pr(B("<=", ZERO, m)):
                p.learn(B("<", l.k, m))
                return

    def _head(s, l, loc):
        vals = {n: loc.get(n, UNBOUND) for n in l.names}
        l.count += 1
        if l.count > 20000:
            raise Unsupported(f"loop {l.uid} exceeds the iteration limit")
        p = s.path
        if p is None or l.mode == "unroll":
            if p is not None and l.count > 300:
                raise LoopCutNeeded(l.uid)
            return [vals[n] for n in l.names]
        if l.count == 1:
            # induction candidates are kept per decision prefix: the same loop may advance differently on different paths
            g = p.cuts[l.uid]
            l.cut = g["by"].setdefault(tuple(p.dec), {"mods": {}})
            l.cut["probe"] = g["probe"]
        cut = l.cut
        roots = {n: v for n, v in loc.items() if not n.startswith("_dv_") or n.startswith("_dv_ix")}
        if l.count == 1:
            if cut["probe"]:
                l.mode = "probe"
                l.entry = (dict(vals), Snapshot(roots))
                return [vals[n] for n in l.names]
            if p.choose("loop-zero"):
                l.mode = "arb"
                l.k = fresh("k", "int")
                p.assume(B("<=", ZERO, l.k))
                l.entryvals = dict(vals)
                s._havoc(l, vals, roots, cut)
                l.entry = (dict(vals), Snapshot({**roots, **vals}))
                l.at = len(p.hyps)
                return [vals[n] for n in l.names]
            l.mode = "zero"
            return [vals[n] for n in l.names]
        if l.mode == "probe":
            s._learn_mods(l, vals, roots, cut)
            raise PathAbort()
        if l.mode == "arb":
            s._check_induction(l, vals, roots, cut)
            l.mode = "final"
            return [vals[n] for n in l.names]
        return [vals[n] for n in l.names]

    @staticmethod
    def _resolve(root, path):
        o = root
        for k in path:
            o = o[k] if isinstance(o, (list, tuple, dict)) else getattr(o, k)
        return o

    def _flat(s, o, path=(), out=None, seen=None):
        """numeric/str leaves of an object tree: path tuple -> value"""
        out = {} if out is None else out
        seen = set() if seen is None else seen
        if is_container(o):
            if id(o) in seen:
                return out
            seen.add(id(o))
            for k, c in children(o):
                s._flat(c, path + (k,), out, seen)
        else:
            out[path] = o
        return out

    def _learn_mods(s, l, vals, roots, cut):
        v0, snap = l.entry
        mods = cut["mods"]
        for n in l.names:
            a, b = v0[n], vals[n]
            if a is b or (isinstance(a, T) and isinstance(b, T) and a.id == b.id):
                continue
            s._mod(cut, (n,), a, b)
        for (path, k, a, b) in snap.diff():
            full = s._path_of(snap, roots, path, k)
            s._mod(cut, full, a, b)

    def _path_of(s, snap, roots, path, k):
        parts = tuple(x if not x.isdigit() else int(x) for x in path.split("."))
        return parts + (k,)

    def _mod(s, cut, loc, a, b):
        """record a modified location; numeric leaves get an induction candidate"""
        if a is UNBOUND or b is UNBOUND or not (is_container(a) or is_container(b)):
            info = cut["mods"].setdefault(loc, {"kind": "leaf", "delta": None, "seen": False, "vals": []})
            if isinstance(a, (bool, str, type(None))) or isinstance(b, (bool, str)):
                info["enum"] = info.get("enum", [])
                for x in (a, b):
                    if isinstance(x, (bool, str)) and x not in info["enum"]:
                        info["enum"].append(x)
                return
            if a is UNBOUND or b is UNBOUND or a is None or b is None:
                info["delta"] = False
                return
            d = lift(b) - lift(a)
            if not info["seen"]:
                info["delta"] = d
                info["seen"] = True
            return
        cut["mods"].setdefault(loc, {"kind": "obj", "leaves": {}})
        info = cut["mods"][loc]
        if info["kind"] != "obj":
            return
        fa, fb = s._flat(a), s._flat(b)
        for pth in fb:
            x, y = fa.get(pth, UNBOUND), fb[pth]
            li = info["leaves"].setdefault(pth, {"delta": None, "seen": False})
            if isinstance(y, (bool, str, type(None))) or isinstance(x, (bool, str, type(None))):
                li["delta"] = "same" if x is y or x == y else "enum"
                continue
            if x is UNBOUND:
                li["delta"] = False
                continue
            d = lift(y) - lift(x)
            if not li["seen"]:
                li["delta"], li["seen"] = d, True

    def _hv(s, l, name, v0, info, key, cut):
        """head value of a numeric leaf at iteration k"""
        d = info.get("delta")
        if d is not None and d is not False and not isinstance(d, str):
            if d.op == "c" and d.args[0] == 0:
                return v0
            info["used"] = True
            return lift(v0) + l.k * d
        return fresh(f"hv_{name}")

    def _havoc(s, l, vals, roots, cut):
        import copy

        l.expect = []
        for loc, info in cut["mods"].items():
            nm = ".".join(map(str, loc))
            if len(loc) == 1:
                n = loc[0]
                cur = vals.get(n, roots.get(n, UNBOUND))
            else:
                root = vals.get(loc[0], roots.get(loc[0]))
                try:
                    owner = s._resolve(root, loc[1:-1])
                    cur = s._resolve(owner, loc[-1:])
                except (AttributeError, KeyError, IndexError):
                    cur, owner = UNBOUND, None
            if info["kind"] == "leaf":
                if info.get("enum"):
                    new = info["enum"][0]
                    for alt in info["enum"][1:]:
                        if not s.path.choose("enum " + nm):
                            new = alt
                elif cur is UNBOUND or cur is None:
                    new = fresh(f"hv_{nm}")
                else:
                    new = s._hv(l, nm, cur, info, None, cut)
            else:
                new = s._clone(cur, info, l, nm, cut)
            if len(loc) == 1:
                vals[loc[0]] = new
            elif owner is not None:
                if isinstance(owner, (list, dict)):
                    owner[loc[-1]] = new
                else:
                    setattr(owner, loc[-1], new)
        # a local that starts as a function of other loop variables (a cached value): try to keep it that function of their head values
        for (n, *rest), info in cut["mods"].items():
            if not rest and s._relational(l, cut, n):
                vals[n] = s._related(l, cut, n, vals)

    @staticmethod
    def _plain(l, cut, but):
        """loop variables that start as plain symbolic variables"""
        return {x: l.entryvals[x] for (x, *r), i in cut["mods"].items() if not r and x != but and i["kind"] == "leaf" and isinstance(l.entryvals.get(x), T) and l.entryvals[x].op == "v"}

    def _relational(s, l, cut, n):
        info, t = cut["mods"][(n,)], l.entryvals.get(n)
        if info["kind"] != "leaf" or info.get("enum") or info.get("delta") is not False or info.get("rel") is False or not isinstance(t, T) or t.op in ("v", "c"):
            return False
        vs = {x.id for x in tm.variables([t])}
        return any(y.id in vs for y in s._plain(l, cut, n).values())

    def _related(s, l, cut, n, vals):
        m = {y.id: lift(vals[x]) for x, y in s._plain(l, cut, n).items() if isinstance(vals[x], (T, int, float))}
        return tm.substitute(l.entryvals[n], m, {})

    def _clone(s, o, info, l, nm, cut):
        memo = {}

        def go(x, path):
            if not is_container(x):
                li = info["leaves"].get(path)
                if li is None or isinstance(x, (bool, str, type(None))):
                    return x
                return s._hv(l, nm + "." + ".".join(map(str, path)), x, li, None, cut)
            if id(x) in memo:
                return memo[id(x)]
            if isinstance(x, list):
                r = []
                memo[id(x)] = r
                r.extend(go(c, path + (i,)) for i, c in enumerate(x))
                return r
            if isinstance(x, tuple):
                return tuple(go(c, path + (i,)) for i, c in enumerate(x))
            if isinstance(x, dict):
                r = {}
                memo[id(x)] = r
                for k, c in x.items():
                    r[k] = go(c, path + (k,))
                return r
            r = object.__new__(type(x))
            memo[id(x)] = r
            for k, c in children(x):
                object.__setattr__(r, k, go(c, path + (k,)))
            return r

        return go(o, ())

    def _same(s, a, b):
        if a is b:
            return True
        if isinstance(a, (T, int)) and isinstance(b, (T, int)) and not isinstance(a, bool) and not isinstance(b, bool):
            a, b = lift(a), lift(b)
            if a is b:
                return True
            pr = Prover(s.base_pre + s.path.hyps, s.env_pool(s.path), timeout=3, z3ms=300)
            return pr.prove(eq(a, b)).status == "proved"
        return a == b if not is_container(a) and not is_container(b) else False

    def _check_induction(s, l, vals, roots, cut):
        """head values after the body must be the head values of iteration k+1; demote
        induction candidates that are not, extend the modified set where needed"""
        changed = False
        k1 = l.k + 1
        ev = l.entryvals

        def check(info, now, before):
            d = info.get("delta")
            if d is None or d is False or isinstance(d, str):
                return False
            if not isinstance(now, (T, int)) or isinstance(now, bool):
                info["delta"] = False
                return True
            # before = v0 + k*d ; now must be before + d
            if not s._same(lift(now), lift(before) + d):
                info["delta"] = False
                return True
            return False

        v0, snap = l.entry
        modified = set()
        for n in l.names:
            a, b = v0[n], vals[n]
            loc = (n,)
            if loc in cut["mods"]:
                info = cut["mods"][loc]
                if info["kind"] == "leaf":
                    if info.get("enum") is not None:
                        if isinstance(b, (bool, str)) and b not in info["enum"]:
                            info["enum"].append(b)
                            changed = True
                    elif a is not UNBOUND and s._relational(l, cut, n):
                        if not isinstance(b, (T, int)) or not s._same(lift(b), s._related(l, cut, n, vals)):
                            info["rel"] = False
                            changed = True
                    elif a is not UNBOUND:
                        changed |= check(info, b, a)
                else:
                    changed |= s._check_obj(info, a, b, check)
            elif not (a is b or (isinstance(a, T) and isinstance(b, T) and a.id == b.id)):
                s._mod(cut, loc, a, b)
                changed = True
        for (path, k, a, b) in snap.diff():
            full = s._path_of(snap, roots, path, k)
            if full in cut["mods"]:
                info = cut["mods"][full]
                if info["kind"] == "leaf":
                    if info.get("enum") is None:
                        changed |= check(info, b, a)
                else:
                    changed |= s._check_obj(info, a, b, check)
            elif any(full[:i] in cut["mods"] for i in range(1, len(full))):
                pass  # inside a havocked object
            else:
                s._mod(cut, full, a, b)
                changed = True
        if changed:
            raise RestartLoops()

    def _check_obj(s, info, a, b, check):
        ch = False
        fa, fb = s._flat(a), s._flat(b)
        for pth, y in fb.items():
            li = info["leaves"].setdefault(pth, {"delta": False, "seen": True})
            if isinstance(li.get("delta"), str):
                if li["delta"] == "same" and not (fa.get(pth) is y or fa.get(pth) == y):
                    raise Unsupported("loop changes a non-numeric field")
                continue
            if pth in fa:
                ch |= check(li, y, fa[pth])
        return ch

    # ------------------------------------------------------- exploration
    pool = ()

    def env_pool(s, p):
        """sample environments extended to fresh variables, satisfying the path so far"""
        import random

        out = []
        hyps = s.base_pre + p.hyps
        fr = sorted({v.args[0] for h in hyps for v in tm.variables(formula_terms(h))} | {d.args[0] for q in p.draws.values() for d in q})
        rng = random.Random(s.seed * 7919 + len(hyps))
        for e in s.pool[:12]:
            env = dict(e)
            for n in fr:
                if n not in env:
                    env[n] = mp.mpf(rng.randint(0, 6)) if n.startswith("k!") else mp.mpf(rng.uniform(0.05, 0.95))
            if all(truth(h, env) is not False for h in hyps):
                out.append(env)
        return out

    def explore(s, run, maxpaths):
        """run(path) -> outcome dict; explores all decision sequences"""
        cuts = {}
        t0 = time.time()
        for attempt in range(40):
            try:
                return s._explore(run, maxpaths, cuts, t0)
            except LoopCutNeeded as e:
                cuts[e.uid] = {"by": {}, "probe": True}
                s._probe(run, cuts, e.uid)
                cuts[e.uid]["probe"] = False
            except RestartLoops:
                continue
        raise Unsupported("loop inference did not stabilise")

    def _probe(s, run, cuts, uid):
        work = [[]]
        n = 0
        while work:
            pre = work.pop()
            n += 1
            if n > 64:
                break
            p = Path(s, pre, cuts)
            s._go(run, p)
            work.extend(p.alts)

    def _go(s, run, p):
        s.path, s._signs = p, None
        HOOKS.ctx = p
        HOOKS.fold = s.folder(p) if s.names else None
        try:
            return run(p)
        except PathAbort:
            return None
        finally:
            HOOKS.ctx = HOOKS.fold = None
            s.path = None
            s.stub_on = False

    names = ()

    def folder(s, p):
        """terms of the executing code that agree with a named term on the samples are replaced by it; the equality is an obligation"""

        def fold(t):
            if (p.inspec and not p.folding) or HOOKS.ctx is not p or t.isconst or t.op == "v":
                return t
            u = s.foldmap.get(t.id)
            if u is None:
                HOOKS.ctx = None
                try:
                    u = s.match(t)
                finally:
                    HOOKS.ctx = p
                s.foldmap[t.id] = u
            r, val = u
            if r is not t:
                f = B("==", t, val)
                if t is not val and not p.known.get(f.key()):
                    p.oblige("pre", "named intermediate value", f)
                    p.known[f.key()] = True
            return r

        return fold

    def name_terms(s, pairs):
        """pairs (value, stand-in)"""
        s.names, s.foldmap, s.nmemo = list(pairs), {}, [dict() for _ in s.pool[:4]]
        for u, r in pairs:
            s.foldmap[u.id] = (r, u)
            s.foldmap.setdefault(r.id, (r, r))

    def match(s, t):
        try:
            val = [evaluate([t], e, m)[0] for e, m in zip(s.pool, s.nmemo)]
            for u, r in s.names:
                w = [evaluate([u], e, m)[0] for e, m in zip(s.pool, s.nmemo)]
                if val and all(abs(x - y) <= (abs(y) * mp.mpf(10) ** -25 or mp.mpf(10) ** -45) for x, y in zip(val, w)):
                    return r, u
        except (ValueError, ZeroDivisionError, TypeError, KeyError):
            pass
        return t, t

    def _explore(s, run, maxpaths, cuts, t0):
        work, outs, n = [[]], [], 0
        while work:
            pre = work.pop()
            n += 1
            if n > maxpaths:
                raise PathLimit(f"more than {maxpaths} paths")
            if time.time() - t0 > 120:
                raise PathLimit("path exploration time")
            p = Path(s, pre, cuts)
            o = s._go(run, p)
            work.extend(p.alts)
            if o is not None:
                outs.append((p, o))
        s.cuts = cuts
        return outs


class PreFailed(Exception):
    pass
