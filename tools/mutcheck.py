"""development aid for mutate.py: contracts of one function, then all the others"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(6000)
from dv.check import load_contracts, supported, known_findings
load_contracts()
from dv.engine import REG
from dv.verify import Verifier
import subprocess, time
q = sys.argv[1]
V = Verifier(seed=1)
alt = q.rsplit(".", 1)[0] if q.endswith(".__init__") else q
first = [i for i, c in REG.items() if c.target in (q, alt)]
KN = [k for p in ("C14",) for k, _ in known_findings(p)]


def run(i, budget):
    try:
        r = V.verify(i, budget=budget)
    except Exception as e:
        bnd.append(i + ' ERROR ' + repr(e)[:100])
        return None
    if any(k.startswith(i + "/") for k in KN):
        return None
    if r.failures:
        return f"caught {i}: {r.failures[0].what[:160]}"
    bad = [o for o in r.obligations if o["status"] != "proved" and not supported(o)]
    if bad:
        return f"proof {i}: {bad[0]['name'][:160]}"
    if r.status != "proved":
        bnd.append(i)
    return None


bnd = []
t0 = time.time()
for i in first:
    x = run(i, 120)
    if x:
        print(x)
        sys.exit()
b1 = list(bnd)
rest = [i for i in REG if not first]
for i in rest:
    if time.time() - t0 > 600:
        break
    x = run(i, 60)
    if x:
        print("elsewhere", x)
        sys.exit()
print("SURVIVED", "own contracts" if first else "no own contract", "bounded:", b1 + bnd)
