"""Contracts proved over a change of variables (`ghosts`, `tie`, `where`) cover their precondition only if every input that
meets it has such variables.  This module prints that statement, term by term, from the contracts themselves and lets Lean
check it (lean/Orbit.lean holds the lemmas, the scripts below the last steps)."""
import os, re, shutil, subprocess, tempfile, time

from .engine import REG
from .terms import B, T, var

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def name(t):
    return re.sub(r"\W", "_", t)


def show(t, names):
    op, a = t.op, t.args
    if op == "c":
        f = a[0]
        s = str(f.numerator) if f.denominator == 1 else f"{f.numerator} / {f.denominator}"
        return f"({s} : ℝ)"
    if op == "v":
        return names.get(a[0], name(a[0]))
    if op == "pi":
        return "π"
    k = [show(x, names) if isinstance(x, T) else x for x in a]
    if op == "+":
        for i in (0, 1):
            x = a[i]
            if x.op == "*" and x.args[0].op == "c" and x.args[0].args[0] == -1:
                return f"({k[1 - i]} - {show(x.args[1], names)})"
            if x.op == "*" and x.args[1].op == "c" and x.args[1].args[0] == -1:
                return f"({k[1 - i]} - {show(x.args[0], names)})"
        return f"({k[0]} + {k[1]})"
    if op in "*/":
        return f"({k[0]} {op} {k[1]})"
    if op == "pow":
        return f"({k[0]} ^ {int(k[1])})"
    if op in ("sqrt", "sin", "cos"):
        return f"({op} {k[0]})"
    raise ValueError(f"no Lean form for {op}")


def formula(f, names):
    if isinstance(f, bool):
        return str(f)
    if isinstance(f, B):
        return f"{show(f.a, names)} {({'<': '<', '<=': '≤', '==': '=', '!=': '≠'})[f.op]} {show(f.b, names)}"
    raise ValueError(f"no Lean form for {f!r}")


def leaves(v, p=""):
    if isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, f"{p}.{k}" if p else k)
    elif isinstance(v, (list, tuple)):
        for k, x in zip("xyzuvw", v):
            yield from leaves(x, f"{p}.{k}")
    elif isinstance(v, T):
        yield p, v


def case(c, also=None):
    """∃ ghosts, constraints ∧ every input component = its expression"""
    free = {pn: ty.fresh(pn) for pn, ty in c.params + c.ghosts}
    tied = {pn: ty.fresh(pn) for pn, ty in c.params + c.ghosts}
    c.tie(tied)
    names, gs = {}, []
    for g, _ in c.ghosts:
        for p, t in leaves(free[g], g):
            names[t.args[0]] = "g_" + name(p)
    f, t = dict(leaves({p: free[p] for p, _ in c.params})), dict(leaves({p: tied[p] for p, _ in c.params}))
    eqs = [(f[p], t[p]) for p in f if f[p] is not t[p]]
    used = set()

    def walk(x):
        if x.op == "v":
            used.add(x.args[0])
        for y in x.args:
            if isinstance(y, T):
                walk(y)

    where = list(c.where(free)) if c.where else []
    for a, b in eqs:
        walk(b)
    for w in where:
        walk(w.a), walk(w.b)
    if also is not None:
        for a, b in also(c, tied):
            walk(b)
            eqs.append((a, b))
    vs = [n for r, n in names.items() if r in used]
    body = [formula(w, names) for w in where] + [f"{show(a, {})} = {show(b, names)}" for a, b in eqs]
    ins = [name(a.args[0]) for a, _ in eqs]
    return f"(∃ {' '.join(vs)} : ℝ, {' ∧ '.join(body)})", ins


def requires(c, names={}):
    free = {pn: ty.fresh(pn) for pn, ty in c.params + c.ghosts}
    return [formula(x, names) for x in c.requires(free) if not has_uf(x)]


def has_uf(f):
    """convergence of the secant iteration is not a condition on the variables"""

    def w(t):
        return t.op == "uf" or any(isinstance(x, T) and w(x) for x in t.args)

    return isinstance(f, B) and (w(f.a) or w(f.b))


class _Quiet:
    def oblige(s, *a):
        pass


def ratio(c, tied):
    """… and the sector-triangle ratio of the contract"""
    return [(var("nu"), c.override["iod.solve_nu"]({"m": var("m"), "l": var("l")}, tied, _Quiet()))]


def statement(title, ids, proof, extra=(), also=None, more=()):
    cs = [REG[i] for i in ids]
    parts = [case(c, also) for c in cs]
    ins = list(dict.fromkeys(sum((p[1] for p in parts), list(more))))
    hs = requires(cs[0])
    for c in cs[1:]:
        if requires(c) != hs:
            raise ValueError("cases of one statement differ in what they require")
    hyps = "\n    ".join(f"(h{k} : {h})" for k, h in enumerate(list(hs) + list(extra)))
    goal = " ∨\n    ".join(p[0] for p in parts)
    return f"theorem {title} ({' '.join(ins)} : ℝ)\n    {hyps} :\n    {goal} := by\n{proof}\n"


# the conic through the two positions with the semi-parameter of the ratio is an ellipse
ELLIPSE = """∀ Ra Rb D dt e t : ℝ, 0 < Ra → 0 < Rb → 0 < sin D →
      ob1_position_x ^ 2 + ob1_position_y ^ 2 + ob1_position_z ^ 2 = Ra ^ 2 →
      ob2_position_x ^ 2 + ob2_position_y ^ 2 + ob2_position_z ^ 2 = Rb ^ 2 →
      ob1_position_x * ob2_position_x + ob1_position_y * ob2_position_y + ob1_position_z * ob2_position_z = Ra * Rb * cos D →
      ob2_epoch = ob1_epoch + dt * (1 / 86400) → 0 ≤ e →
      Ra * (1 + e * cos t) = (nu * (Ra * Rb * sin D)) ^ 2 / ((1993002209 / 5000 : ℝ) * dt ^ 2) →
      Rb * (1 + e * cos (t + D)) = (nu * (Ra * Rb * sin D)) ^ 2 / ((1993002209 / 5000 : ℝ) * dt ^ 2) → e < 1"""


STATEMENTS = {
    "C11": [("from_ijk", "elem.from_ijk.", "elem.txt", {}), ("roundtrip", "elem.lemma.roundtrip.", "elem.txt", {})],
    "C16": [("to_hcw", "state.gcrf.to_hcw", "pair.txt", {}), ("inertial_roundtrip", "state.lemma.inertial_roundtrip", "pair.txt", {}),
            ("relative_roundtrip", "state.lemma.relative_roundtrip", "relative.txt", dict(more=["state_position_x"]))],
    "C19": [("gauss", "iod.coes_from_positions.", "seen.txt", dict(more=["ob1_epoch"], also=ratio, extra=["0 < nu", ELLIPSE]))],
}
KINDS = [f"{k}.{c}" for k in ("inclined", "equatorial", "retrograde") for c in ("elliptic", "circular")]


def read(f):
    return open(os.path.join(HERE, "lean", f), encoding="utf-8").read()


def text(prop):
    out = [read("Orbit.lean")]
    for title, ids, proof, kw in STATEMENTS[prop]:
        out.append(statement("cover_" + title, [ids + k for k in KINDS] if ids.endswith(".") else [ids], read(proof), **kw))
    return "\n".join(out)


class Cover:
    """Lean running beside the contracts; its answer never raises an alarm, for it does not depend on the repository"""

    def __init__(s, prop, limit=300):
        s.proc, s.why, s.t0, s.limit = None, "", time.time(), limit
        s.names = ["cover_" + x[0] for x in STATEMENTS.get(prop, [])]
        if not s.names:
            return
        exe = shutil.which("lean")
        if exe is None:
            s.why = "lean is not installed"
            return
        try:
            s.dir = tempfile.mkdtemp(prefix="cover-")
            src = os.path.join(s.dir, "Cover.lean")
            with open(src, "w", encoding="utf-8") as f:
                f.write(text(prop) + "\n" + "\n".join(f"#print axioms {n}" for n in s.names) + "\n")
            s.log = open(os.path.join(s.dir, "log"), "w+b")
            s.proc = subprocess.Popen([exe, src], cwd=s.dir, stdout=s.log, stderr=subprocess.STDOUT, start_new_session=True)
        except Exception as ex:
            s.why = repr(ex)[:200]

    def result(s):
        """dict for the evidence file, or None when the property has no such statement"""
        if not s.names:
            return None
        ok = []
        if s.proc is not None:
            try:
                rc = s.proc.wait(timeout=max(1, s.limit - (time.time() - s.t0)))
                s.log.seek(0)
                out = s.log.read().decode("utf-8", "replace")
                if rc == 0:
                    for n in s.names:
                        m = re.search(rf"'{n}' depends on axioms: \[([^\]]*)\]", out)
                        if m and set(re.split(r"[,\s]+", m.group(1).strip())) <= {"propext", "Classical.choice", "Quot.sound"}:
                            ok.append(n)
                s.why = "" if len(ok) == len(s.names) else "lean: " + out[:300]
            except subprocess.TimeoutExpired:
                os.killpg(s.proc.pid, 9)
                s.why = "lean did not finish"
            s.log.close()
            shutil.rmtree(s.dir, ignore_errors=True)
        return dict(statements=s.names, accepted_by_lean=ok, seconds=round(time.time() - s.t0, 1), why=s.why)


if __name__ == "__main__":
    import sys
    from .check import load_contracts

    load_contracts()
    print(text(sys.argv[1]))
