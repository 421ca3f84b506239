import os, sys, time, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from astload import Program
from scen import Run
import argparse
ap = argparse.ArgumentParser(); ap.add_argument('fn'); ap.add_argument('--only', default=''); ap.add_argument('--trace', action='store_true'); ap.add_argument('--ast', default='/tmp/w/ast')
a = ap.parse_args()
mod, f = a.fn.split('.')
t0 = time.time()
P_ = Program(a.ast)
print('load %.1fs' % (time.time() - t0))
R = Run(P_)
R.trace = a.trace
if a.only:
    sc = R.scenario
    R.scenario = lambda n, fn, b=60.0: sc(n, fn, b) if a.only in n else None
getattr(importlib.import_module(mod), f)(R)
for n, p, t, ok in R.scen: print('%-40s paths %3d %6.2fs %s' % (n, p, t, '' if ok else 'UNSUPPORTED'))
for n, w in R.unsupported: print("UNSUPPORTED", n, "|", str(w)[:160])
pr = 0
for o in R.obl.values():
    pr += o.proved
    for x in o.refuted[:2]: print("REFUTED", o.name, "|", x[:int(os.environ.get("DVW","300"))])
    for x in o.open[:2]: print("OPEN", o.name, "|", x[:int(os.environ.get("DVW","300"))])
from prover import STATS
print('obligations proved', pr, 'names', len(R.obl), STATS)
print('functions', len(R.visited))
