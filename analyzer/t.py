import sys,time
from report import Report
import importlib
t=time.time()
mod,fn=sys.argv[1].split('.')
rep=Report(fn)
getattr(importlib.import_module(mod),fn)(rep);rep.flush()
c={}
for i in rep.items: c[i['status']]=c.get(i['status'],0)+1
print(c,round(time.time()-t,1))
for i in rep.items:
    if i['status']!='ok' or len(sys.argv)>2: print(i['status'],i['rule'],i['where'],i['detail'][:600])
