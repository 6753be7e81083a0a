"""vac.py fn,.. modules: tries to derive false from the facts of one obligation per line of each function (a contradiction would make proofs vacuous)"""
import sys; sys.path.insert(0, '/verif')
from dv.core import *; from dv.smt import *; import importlib
reg = {}
for mod in sys.argv[2].split(','):
    for c in importlib.import_module('contracts.' + mod).ALL: reg[c.name] = c
prog = Program('/repo/src')
for name in (reg if sys.argv[1] == 'all' else sys.argv[1].split(';')):
    ex = Exec(prog, {k: c for k, c in reg.items() if k != name}, reg[name])
    try: ex.run()
    except Exception as e: print(name, 'skipped', e); continue
    last = {}
    for o in ex.obls:
        if o.facts is not None and o.kind in ("post", "inv-keep", "pre"): last[(o.line, o.kind, str(o.facts[-1])[:40] if o.kind == "post" else '')] = o
    obs = [Obl(o.fn, "vacuity", o.kind + o.name, o.line, o.facts, FALSE) for o in last.values()]
    res = discharge(obs, 4)
    bad = [o.label() for o, r in zip(obs, res) if r[0] == 'unsat']
    print(name, len(obs), 'contradictory:', bad, flush=True)
