"""development aid: mutation sweep. For every mutant of /repo/src that passes the test suite, runs the contracts of the
mutated function, then (if quiet) every contract; prints the survivors.

usage: mutate.py OUT.jsonl [module-substring] [max-per-function] [jobs]
"""
import ast, copy, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue

SRC = "/repo/src/openspace"
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mutants_of(fn):
    """yield (description, new FunctionDef)"""
    out = []
    nodes = list(ast.walk(fn))
    for idx, n in enumerate(nodes):
        def mk(desc, edit, n=n, idx=idx):
            f = copy.deepcopy(fn)
            m = list(ast.walk(f))[idx]
            if edit(m, f) is not False:
                out.append((f"{getattr(n, 'lineno', 0)}: {desc}", f))

        if isinstance(n, ast.BinOp):
            for a, b in ((ast.Add, ast.Sub), (ast.Sub, ast.Add), (ast.Mult, ast.Div), (ast.Div, ast.Mult)):
                if type(n.op) is a:
                    mk(f"{a.__name__}->{b.__name__} in {ast.unparse(n)[:60]}", lambda m, f, b=b: setattr(m, "op", b()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            mk(f"drop minus {ast.unparse(n)[:50]}", lambda m, f: setattr(m, "op", ast.UAdd()))
        elif isinstance(n, ast.Compare):
            for a, b in ((ast.Lt, ast.LtE), (ast.LtE, ast.Lt), (ast.Gt, ast.GtE), (ast.GtE, ast.Gt), (ast.Eq, ast.NotEq), (ast.Lt, ast.Gt), (ast.Gt, ast.Lt), (ast.LtE, ast.GtE), (ast.GtE, ast.LtE)):
                if type(n.ops[0]) is a:
                    mk(f"{a.__name__}->{b.__name__} in {ast.unparse(n)[:60]}", lambda m, f, b=b: m.ops.__setitem__(0, b()))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            mk(f"const {n.value}->+1", lambda m, f: setattr(m, "value", m.value + 1))
            if isinstance(n.value, float) or abs(n.value) > 9:
                mk(f"const {n.value}->*1.001", lambda m, f: setattr(m, "value", m.value * 1.001))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            mk(f"flip {n.value}", lambda m, f: setattr(m, "value", not m.value))
        elif isinstance(n, ast.BoolOp):
            mk("and/or", lambda m, f: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                mk(f"swap args {ast.unparse(n)[:60]}", lambda m, f: m.args.__setitem__(slice(0, 2), m.args[:2][::-1]))
            if isinstance(n.func, ast.Name) and n.func.id in ("sin", "cos", "asin", "acos"):
                sw = {"sin": "cos", "cos": "sin", "asin": "acos", "acos": "asin"}
                mk(f"{n.func.id} swapped", lambda m, f: setattr(m.func, "id", sw[m.func.id]))
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                def drop(m, f):
                    for p in ast.walk(f):
                        for k, v in ast.iter_fields(p):
                            if v is m:
                                setattr(p, k, m.func.value)
                                return
                            if isinstance(v, list) and any(x is m for x in v):
                                v[[x is m for x in v].index(True)] = m.func.value
                                return
                    return False
                mk(f"drop copy {ast.unparse(n)[:50]}", drop)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("plus", "minus"):
                mk(f"plus/minus {ast.unparse(n)[:50]}", lambda m, f: setattr(m.func, "attr", "minus" if m.func.attr == "plus" else "plus"))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("transpose", "negative", "normalized") and not n.args:
                def drop2(m, f):
                    for p in ast.walk(f):
                        for k, v in ast.iter_fields(p):
                            if v is m:
                                setattr(p, k, m.func.value)
                                return
                            if isinstance(v, list) and any(x is m for x in v):
                                v[[x is m for x in v].index(True)] = m.func.value
                                return
                    return False
                mk(f"drop {n.func.attr} {ast.unparse(n)[:50]}", drop2)
        elif isinstance(n, ast.Attribute) and n.attr in ("x", "y", "z") and isinstance(n.ctx, ast.Load):
            mk(f".{n.attr} rotated in {ast.unparse(n)[:40]}", lambda m, f: setattr(m, "attr", {"x": "y", "y": "z", "z": "x"}[m.attr]))
        for field in ("body", "orelse"):
            body = getattr(n, field, None)
            if isinstance(body, list):
                for k, st in enumerate(body):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.If)) or (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call)):
                        mk(f"delete: {ast.unparse(st)[:60]}", lambda m, f, k=k, field=field: getattr(m, field).__setitem__(k, ast.Pass()))
                    if isinstance(st, ast.If):
                        mk(f"always: {ast.unparse(st)[:60]}", lambda m, f, k=k, field=field: setattr(getattr(m, field)[k], "test", ast.Constant(True)))
    return out


def functions(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, n, tree.body, n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield f"{n.name}.{m.name}", m, n.body, m


def main():
    out, sub, cap, jobs = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else ""), int(sys.argv[3]) if len(sys.argv) > 3 else 12, int(sys.argv[4]) if len(sys.argv) > 4 else 7
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    todo = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not f.endswith(".py") or sub not in p:
                continue
            src = open(p).read()
            tree = ast.parse(src)
            mod = "openspace." + os.path.relpath(p, SRC)[:-3].replace("/", ".")
            mod = mod.removesuffix(".__init__")
            for q, fn, body, _ in functions(tree):
                ms = mutants_of(fn)
                rng.shuffle(ms)
                for desc, new in ms[:cap]:
                    i = [x is fn for x in body].index(True)
                    body[i] = new
                    try:
                        text = ast.unparse(ast.fix_missing_locations(tree))
                    except Exception:
                        text = None
                    body[i] = fn
                    if text:
                        todo.append((os.path.relpath(p, "/repo"), mod + ":" + q, desc, text))
    rng.shuffle(todo)
    print(len(todo), "mutants")
    res = open(out, "a")
    dirs = queue.Queue()
    for k in range(jobs):
        w = f"/tmp/mut/w{k}"
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, symlinks=True)
        dirs.put(w)

    def job(t):
        rel, q, desc, text = t
        w = dirs.get()
        try:
            open(f"{w}/{rel}", "w").write(text)
            env = dict(os.environ, PYTHONPATH=f"{w}/src", PYTHONDONTWRITEBYTECODE="1")
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", f"{w}/tests"], cwd=w, env=env, capture_output=True, timeout=30)
                ok = r.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            if not ok:
                return dict(fn=q, m=desc, r="tests")
            env = dict(os.environ, DV_SRC=f"{w}/src", PYTHONDONTWRITEBYTECODE="1")
            try:
                r = subprocess.run(["python3-vt", f"{VER}/tools/mutcheck.py", q], cwd=VER, env=env, capture_output=True, text=True, timeout=1500)
                last = (r.stdout.strip().splitlines() or [r.stderr[-300:]])[-1]
            except subprocess.TimeoutExpired:
                last = "timeout"
            return dict(fn=q, m=desc, r=last)
        finally:
            shutil.copy(f"/repo/{rel}", f"{w}/{rel}")
            dirs.put(w)

    with ThreadPoolExecutor(jobs) as ex:
        for d in ex.map(job, todo):
            res.write(json.dumps(d) + "\n")
            res.flush()


main()
