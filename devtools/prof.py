import sys,cProfile,pstats,os
sys.path.insert(0,'/tmp/w/verif')
from mon import core,env
from mon.props import c22
c22.prepare()
p=cProfile.Profile()
p.enable()
for i in [81]:
    ctx=core.Ctx('C22',sys.argv[1],1,i,'quick')
    getattr(c22,sys.argv[1])(ctx)
p.disable()
pstats.Stats(p).sort_stats('cumtime').print_stats(35)
