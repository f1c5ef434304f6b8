import sys,time; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from pyded.driver import Runner
from contracts import o2sys, recfile
kw={k:True for k in sys.argv[1].split(',') if k!='-'}
cf=o2sys.Conf(**kw)
R=Runner('X')
t=time.time()
def exc(ctx,g,e):
    ctx.oblige("only-IndexError", e.type=="IndexError" and cf.fast, str(e))
s=o2sys.setup(cf)
def setup_(ctx):

    ctx.loopspecs=[]
    from pyded import lib
    from contracts.common import PATH, opens,path_arg,text_of
    import z3
    ctx.assume(opens(PATH)); fn=path_arg(ctx); ctx.assume(lib.dyn_is_file(ctx,fn))
    return s(ctx,fn,text_of(PATH,z3.BoolVal(False)))
R.verify("obs2:rinexsystem2", setup_, o2sys.ensures(cf,True), exc, contracts=o2sys.contracts(cf))
print(time.time()-t, R.log, R.queries, R.solver_time)
print(R.report()[:6000])
