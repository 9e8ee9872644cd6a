"""development aid: verify the contracts whose id contains a substring, print open obligations"""
import sys, time
sys.path.insert(0, '/verif')
from dv.check import load_contracts
load_contracts()
from dv.engine import REG
from dv.verify import Verifier
V = Verifier(seed=int(sys.argv[2]) if len(sys.argv) > 2 else 1)
for i in list(REG):
    if sys.argv[1] in i:
        r = V.verify(i)
        print(f"{i:45s} {r.status:9s} obs={len(r.obligations)} paths={r.paths} conc={r.concrete} {r.secs:.2f}s sym={r.sym_secs:.2f}", r.notes[:2], flush=True)
        if r.status != 'proved':
            k = 0
            for o in r.obligations:
                if o['status'] != 'proved' and k < 6:
                    k += 1
                    print('    ', o['name'], o['status'], o['how'], o.get('goal', '')[:300], [x[:70] for x in o.get('path', [])][-4:], str(o.get('detail'))[:300])
            for f in r.failures[:2]:
                print('   FAIL', f.mode, f.what[:400], str(f.inputs)[:300])
