#!/usr/bin/env python3
"""mut.py FILE.py [ids...] ; FILE.py defines M=[(id, props 'C04,C05', expect 0/1, file, old, new[, nth]), ...]
old/new may be lists (several edits)."""
import sys,os,subprocess,shutil,concurrent.futures as cf
BASE=os.environ.get('MUT_BASE','/repo')
def copy(d):
    os.makedirs(d)
    for f in os.listdir(BASE):
        if f.endswith(('.h','.cpp','.hpp','.cuh','.txt')): shutil.copy(BASE+'/'+f,d)
    for s in ('include','src'):
        if os.path.isdir(BASE+'/'+s): shutil.copytree(BASE+'/'+s,d+'/'+s)
def one(m):
    mid,props,exp=m[:3]; edits=m[3] if isinstance(m[3],list) else [m[3:]]
    d='/tmp/w/mutd/%s'%mid
    shutil.rmtree(d,ignore_errors=True); copy(d)
    for e in edits:
        p=d+'/'+e[0]; s=open(p,newline='').read(); crlf='\r\n' in s
        s=s.replace('\r\n','\n')
        n=s.count(e[1]); k=e[3] if len(e)>3 else 0
        if n==0: return mid,'NOMATCH '+e[1][:60]
        if n>1 and len(e)<=3: return mid,'AMBIG %d '%n+e[1][:60]
        i=-1
        for _ in range(k+1): i=s.index(e[1],i+1)
        s=s[:i]+e[2]+s[i+len(e[1]):]
        open(p,'w',newline='').write(s.replace('\n','\r\n') if crlf else s)
    res=[]
    for pr in props.split(','):
        r=subprocess.run(['python3','/verif/check.py',pr],capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=d,VERIF_OUT=d))
        o=r.stdout.strip().split('\n')
        res.append((pr,r.returncode,[x[:230] for x in o if x.startswith('  ')][:2] if r.returncode else '',r.stderr[-300:] if r.returncode==2 else '', o[-1][:200] if r.returncode==2 else ''))
    shutil.rmtree(d,ignore_errors=True)
    ok=all(x[1]==exp for x in res)
    return mid,('ok  ' if ok else 'FAIL exp %d '%exp)+str([x[:3] if x[1]!=2 else x for x in res])
ns={}; exec(open(sys.argv[1]).read(),ns)
M=[m for m in ns['M'] if len(sys.argv)<3 or m[0] in sys.argv[2:]]
os.makedirs('/tmp/w/mutd',exist_ok=True)
with cf.ThreadPoolExecutor(7) as ex:
    for r in ex.map(one,M): print(*r)
