"""dbg.py fn modules substring [timeout]: print facts of the failing obligations whose label contains substring"""
import sys; sys.path.insert(0,'/verif')
from dv.core import *; from dv.smt import *; import importlib
reg={}
for mod in sys.argv[2].split(','):
    m=importlib.import_module('contracts.'+mod)
    for c in m.ALL: reg[c.name]=c
prog=Program('/repo/src'); name=sys.argv[1]
ex=Exec(prog,{k:c for k,c in reg.items() if k!=name},reg[name]); ex.run()
ob=[o for o in ex.obls if sys.argv[3] in o.label() and not z3.is_true(o.goal)]
res=discharge(ob,int(sys.argv[4]) if len(sys.argv)>4 else 3)
for num,(o,r) in enumerate(zip(ob,res)):
    print('=====',o.label(),r)
    if r[0]!='unsat':
        if '-v' in sys.argv and r[0]!='unsat':
            for f in flat(o.facts): print('   F',str(f).replace('\n',' ')[:600])
            print('  GOAL',o.goal)
        if '-s' in sys.argv: open('/tmp/o.smt2','w').write(smt2(flat(o.facts),o.goal)); 
