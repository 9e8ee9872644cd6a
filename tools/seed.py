"""usage: seed.py ID PROPERTY FILE 'old' 'new' demo.py 'needs' 'breaks'
Makes seeded/ID from a textual replacement in a scratch copy of /repo, after confirming that the
tests pass with it and that the demonstration passes without and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(id, prop, edits, demo, needs, breaks):
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        w = os.path.join(d, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        out = os.path.join(ROOT, "seeded", id)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "demo.py"), "w").write(demo)
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\n# cwd: the repository\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)

        def run_demo():
            return subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=w, capture_output=True, text=True)

        r = run_demo()
        assert r.returncode == 0, ("demo fails on the unchanged tree", r.stdout, r.stderr)
        for f, old, new in edits:
            p = os.path.join(w, "src/openspace", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, "occurrences", s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
        r = run_demo()
        assert r.returncode != 0, "demo passes with the change"
        msg = (r.stdout + r.stderr).strip().splitlines()[-1:]
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests", "-p", "no:cacheprovider"], cwd=w, env={**os.environ, "PYTHONPATH": w + "/src", "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True)
        assert t.returncode == 0, ("tests fail", t.stdout[-1500:])
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(out, "meta.json"), "w"), indent=1)
        print(id, "ok:", msg)
    except AssertionError as e:
        shutil.rmtree(os.path.join(ROOT, "seeded", id), ignore_errors=True)
        print(id, "REJECTED", str(e)[:1500])
    finally:
        shutil.rmtree(d, ignore_errors=True)
