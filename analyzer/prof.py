import sys,time,collections
from engine import *
from models import StdModels
from program import program
crate,pat=sys.argv[1:3]
P=program(crate)
bs=sorted([b for b in P.bodies.values() if pat in b.path],key=lambda b:len(b.path))
st=set(sys.argv[3].split(',')) if len(sys.argv)>3 and sys.argv[3] else ()
lim=int(sys.argv[4]) if len(sys.argv)>4 else 20000
from common import fst_opaque
e=Engine(crate,StdModels(stream_types=st),opaque=fst_opaque(bs[0].path)); e.start(bs[0])
print(bs[0].path)
op=e.process
t0=time.time()
tm=collections.Counter()
def proc(n):
    t=time.time(); op(n); tm[(n.frame.body.short()[-40:],n.bb)]+=time.time()-t
    if e.steps>lim: raise SystemExit
e.process=proc
try: e.run()
except BaseException as x: print('stop',repr(x)[:200])
print(e.steps,len(e.nlist),time.time()-t0)
c=collections.Counter()
for n in e.nlist: c[(n.frame.body.short()[-40:],n.bb)]+=1
for k,v in c.most_common(12): print(v,k)
c=collections.Counter()
for n in e.nlist: c[(n.frame.body.short()[-40:],n.bb)]+=n.n
print('visits')
for k,v in c.most_common(12): print(v,k)
print('time',tm.most_common(5))
big=max(e.nlist,key=lambda n:n.n)
print('most visited',big.n,big.frame.body.short(),big.bb,big.iters,big.key)
