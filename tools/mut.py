"""python3-vt tools/mut.py c11 obs2.py 'old' 'new' [task]: run a module's contracts on mutated source"""
import sys, tempfile, shutil, os; sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
import importlib
from pyded import engine
from pyded.driver import Runner
mod, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp()
shutil.copytree(os.environ.get('BASE', '/repo/src/georinex'), d + '/g')
p = d + '/g/' + f
s = open(p).read()
old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
assert s.count(old) >= 1, 'not found'
open(p, 'w').write(s.replace(old, new, 1))
init = engine.Repo.__init__
engine.Repo.__init__ = lambda self, root=d + '/g', pkg='georinex': init(self, root, pkg)
m = importlib.import_module('contracts.' + mod)
for n, fn in m.TASKS:
    if sys.argv[5:] and n not in sys.argv[5:]:
        continue
    R = Runner(mod.upper())
    fn(R)
    bad = [c for c in R.clauses.values() if c.bad]
    print(n, len(R.clauses), 'clauses,', len(bad), 'fail:', [(c.name.split('/', 1)[1], c.bad[0].status) for c in bad][:6])
    if '-v' in os.environ.get('V', ''):
        for c in bad: print(c.bad[0].detail[:600])
shutil.rmtree(d)
