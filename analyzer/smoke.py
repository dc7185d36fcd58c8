import sys,time
from engine import *
from models import StdModels
from program import program
crate=sys.argv[1]; pat=sys.argv[2]; 
P=program(crate)
bs=[b for b in P.bodies.values() if pat in b.path]
bs.sort(key=lambda b:(len(b.path)))
for b in bs[:8]: print('cand',b.path, b.root)
b=bs[0]
t=time.time()
st=set(sys.argv[3].split(',')) if len(sys.argv)>3 and sys.argv[3] else ()
from common import fst_opaque
e=Engine(crate,StdModels(stream_types=st),opaque=fst_opaque(b.path)); e.start(b).run()
print('nodes',len(e.nlist),'steps',e.steps,'t',round(time.time()-t,2),'unmodeled',e.unmodeled)
if len(sys.argv)>4: sys.exit()
for ev in e.all_events():
    print('EV',ev.node.id,ev.name,ev.line,ev.fn,[show(a,6) for a in ev.args if a is not None][:4], {k:show(v,4) if v.__class__ in (T,int) else str(v)[:60] for k,v in ev.info.items() if k not in('st','ty')})
for x in e.all_exits():
    print('EXIT',x.node.id,show(x.ret,6)); 
    for r,v in x.st.store.items():
        if r[0]!='L': print('     ',r[0],show(r[1],3) if isinstance(r[1],T) else r[1:],'=',show(v,6))
    for f in x.st.facts: print('        F',show(f,6))
