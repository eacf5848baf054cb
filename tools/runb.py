import sys; sys.path.insert(0,'/verif/lib'); import engineb,time,os,json
os.makedirs('/tmp/eb',exist_ok=True); t=time.time()
comp=dict(harness=sys.argv[1],budget_quick=120)
if len(sys.argv)>3: comp['per_goal']=float(sys.argv[3])
gs=engineb.run('X',comp,sys.argv[2] if len(sys.argv)>2 else 'quick','/tmp/eb')
for g in gs: print({k:v for k,v in g.items() if k not in('functions','models')})
print(time.time()-t)
