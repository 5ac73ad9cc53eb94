import sys,time,importlib
sys.path.insert(0,'/tmp/w/verif')
from mon import core,env
m=importlib.import_module('mon.props.'+sys.argv[1]); m.prepare()
f={s.name:s.fn for s in m.SCENARIOS}[sys.argv[2]]
r=[]
for i in range(int(sys.argv[3])):
    ctx=core.Ctx(sys.argv[1].upper(),sys.argv[2],1,i,'quick')
    t=time.time()
    try: f(ctx)
    except core.Skip: pass
    r.append((time.time()-t,i))
r.sort(reverse=True); print(sum(x for x,_ in r), r[:10])
