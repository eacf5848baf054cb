import sys; sys.path.insert(0,'/verif/lib'); import engineg,time,os,collections
out='/tmp/eg'; os.makedirs(out,exist_ok=True); t=time.time()
comp=dict(emitter=sys.argv[1],budget_quick=300,per_goal=60,qtimeout=int(os.environ.get("QT","5000")))
if os.environ.get("SRC"): comp["sources"]=None if os.environ["SRC"]=="all" else os.environ["SRC"].split(",")
gs=engineg.run('X',comp,sys.argv[2] if len(sys.argv)>2 else 'quick',out)
for g in gs:
    if g.get('verdict')!='unsat': print({k:v for k,v in g.items() if k not in('functions','models')})
print(collections.Counter(g['verdict'] for g in gs),time.time()-t)
for g in sorted(gs,key=lambda g:-g.get('wall_s',g.get('time',0)) if isinstance(g.get('wall_s',0),(int,float)) else 0)[:8]: print({k:v for k,v in g.items() if k not in('functions','models','detail')})
