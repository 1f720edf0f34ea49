import sys,time
sys.path.insert(0,'/verif/ljsa')
import facts, engine
from terms import *
class H(engine.Hooks):
    def __init__(s): s.ev=[]
    def on_event(s,e,st,name,args,fr,line):
        s.ev.append((name,args,fr.body["path"],line)); return None
    def on_panic(s,e,st,kind,fr,line): s.ev.append(("PANIC",kind,fr.body["path"],line))
    def on_write(s,e,st,root,path,val,fr,line): s.ev.append(("WRITE",root,path,val,fr.body["path"],line))
p=engine.Program(facts.load("/repo"))
for pat in sys.argv[1:]:
  for k in p.named(pat):
    if '{closure' in k: continue
    h=H(); e=engine.Engine(p,h,120)
    t=time.time()
    try:
        r=e.run(k)
        print("==",p.bodies[k]["path"],len(r),"exits %.2fs"%(time.time()-t), "unknown",e.unknown)
        if len(sys.argv)==2:
            for v,s in r[:12]:
                print("  ",show(v)[:600])
                for f,tv in s.facts.items(): print("        ",show(f)[:200],tv)
            seen=set()
            for x in h.ev:
                q=str([show(y) if isinstance(y,Term) else ({a:show(b) for a,b in y.items() if isinstance(b,(Term,tuple))} if isinstance(y,dict) else y) for y in x])[:500]
                if q not in seen:
                    seen.add(q); print("    EV",q)
    except Exception as ex:
        import traceback
        print("!!",p.bodies[k]["path"],repr(ex)[:300],"%.2fs"%(time.time()-t))
        if len(sys.argv)==2: traceback.print_exc()
