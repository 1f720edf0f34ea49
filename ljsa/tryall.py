import sys,time,os
sys.path.insert(0,'/verif/ljsa')
import facts, engine
p=engine.Program(facts.load("/repo"))
from multiprocessing import Pool
def go(k):
    e=engine.Engine(p,engine.Hooks(),100)
    t=time.time()
    try:
        r=e.run(k); return (time.time()-t,p.bodies[k]["path"],"%d exits"%len(r),e.unknown)
    except Exception as ex:
        import traceback
        return (time.time()-t,p.bodies[k]["path"],"!! "+repr(ex)[:100]+traceback.format_exc()[-300:],e.unknown)
ks=[k for k in p.bodies if '{closure' not in k]
with Pool(8) as P:
    rs=P.map(go,ks,chunksize=1)
rs.sort(key=lambda x:-x[0])
u={}
for r in rs:
    for k,v in r[3].items(): u[k]=u.get(k,0)+v
for r in rs:
    if r[0]>1 or r[2].startswith('!!'): print("%.1f %s %s"%r[:3])
print(len(rs),u)
