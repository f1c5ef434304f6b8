import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import importlib,time
from pyded.driver import Runner
m=importlib.import_module('contracts.'+sys.argv[1])
want=sys.argv[2:]
for n,f in m.TASKS:
    if want and n not in want: continue
    R=Runner(sys.argv[1].upper()); t=time.time(); f(R); print('#',n,round(time.time()-t,1),'s', R.log); print(len(R.clauses),'clauses'); print('\n'.join(l[:900] for l in R.report().splitlines() if not l.startswith('ok')))
    for u in R.undecided: print('UNDECIDED',u)
