import sys,re,json
def claim(pid,t,comps,functions,bounds,outside=(),extra_assume=""):
    p='/verif/lib/props.py'; s=open(p).read()
    i=s.index('prop("%s"'%pid); j=s.find('\nprop(',i); j=len(s) if j<0 else j
    seg=s[i:j]
    if "na=TODO" in seg: seg=seg.replace("na=TODO","technique=TECH_%s,note=NOTE_%s"%(t,t)); s=s[:i]+seg+s[j:]; open(p,'w').write(s)
    p='/verif/lib/registry.py'; s=open(p).read().rstrip()
    if '"%s":dict('%pid in s: print("already registered"); return
    s=s[:-1]+'"%s":dict(components=%s,explanation=EX%s,assumptions=AS%s%s,\n  functions=%s,\n  bounds=%s,\n  outside=%s),\n}\n'%(pid,comps,t,t,extra_assume,json.dumps(functions),json.dumps(bounds),json.dumps(list(outside)))
    open(p,'w').write(s)
def fixed(pid,commit,goal,what):
    p='/verif/known_findings.json'; k=open(p).read().rstrip(); k=k[:k.rindex(']}')].rstrip()
    k+=',\n '+json.dumps({"property":pid,"status":"fixed","commit":commit,"goal":goal,"what":"fixed: property=%s %s %s"%(pid,commit,what)})+'\n]}\n'
    open(p,'w').write(k); json.loads(k)
