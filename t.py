import sys, time; sys.path.insert(0,'/verif')
from dv.core import *; from dv.smt import *; import dv.lib as lib
import importlib, contracts.basic
reg={}
for mod in sys.argv[2].split(','):
    m=importlib.import_module('contracts.'+mod)
    for c in m.ALL: reg[c.name]=c
prog=Program(__import__('os').environ.get('DV_SRC','/repo/src'))
names=sys.argv[1].split(';') if sys.argv[1]!='all' else list(reg)
for name in names:
    con=reg[name]
    if getattr(con,'trusted',False): continue
    t0=time.time()
    ex=Exec(prog,{k:c for k,c in reg.items() if k!=name},con)
    try: ex.run()
    except ToolLimit as e: print(name,'TOOL LIMIT',e); continue
    t1=time.time()
    tmo=int(sys.argv[3]) if len(sys.argv)>3 else 10
    res=discharge(ex.obls,tmo)
    bad=[(o.label(),r) for o,r in zip(ex.obls,res) if r[0]!='unsat']
    slow=sorted([(r[2],o.label(),r[1]) for o,r in zip(ex.obls,res)],reverse=True)[:int(__import__('os').environ.get('TOP','3'))]
    print(name,'obls',len(ex.obls),'bad',len(bad),'exec %.2f solve %.2f'%(t1-t0,time.time()-t1),'paths',ex.stats,'returns',ex.returns, 'slow',[(round(a,1),b,c) for a,b,c in slow])
    vac=[Obl(name,'vacuity','exit',0,f,FALSE) for f in ex.exit_states]
    vr=discharge(vac,2)
    if any(r[0]=='unsat' for r in vr): print('   VACUOUS exits:',sum(r[0]=='unsat' for r in vr),'of',len(vr))
    for b in bad[:15]: print('   ',b)
t0=time.time()
lo=lib.close_used()
if lo:
    res=discharge(lo,20)
    for o,r in zip(lo,res):
        if r[0]!='unsat': print('LEMMA',o.label(),r)
    print('lemmas',len(lo),'%.1f'%(time.time()-t0))
