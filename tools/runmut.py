import sys, os, json, subprocess, random, shutil, threading, time
sys.path.insert(0,"/tmp/mm")
import mutate
N=int(sys.argv[1]); seed=int(sys.argv[2]); cap=int(sys.argv[3]); out=sys.argv[4]; V=os.environ.get("V","/tmp/vcopy")
rng=random.Random(seed); ms=mutate.allm(); by={}
for m in ms: by.setdefault(m[0],[]).append(m)
todo=[]
for p,l in sorted(by.items()):
    rng.shuffle(l); todo+=l[:cap]
done=set()
if os.path.exists(out):
    for l in open(out): r=json.loads(l); done.add((r["file"],r["line"],r["desc"]))
todo=[m for m in todo if (m[0],m[1],m[2]) not in done]
rng.shuffle(todo); print(len(todo),flush=True)
lock=threading.Lock(); it=iter(todo)
def work(k):
    d=f"/tmp/mm/w{k}"; shutil.rmtree(d,ignore_errors=True); subprocess.run(["cp","-a","/repo",d])
    while True:
        with lock:
            m=next(it,None)
        if m is None: break
        p=d+"/src/frds/"+m[0]; orig=open(p,newline="").read()
        open(p,"w",newline="").write(m[3]); res=None; t0=time.time(); chk=None; kinds=""
        for c in mutate.CH[m[0]].split():
            try:
                r=subprocess.run(["./run.sh",c],cwd=V,env=dict(os.environ,FRDS_REPO=d),capture_output=True,text=True,timeout=400)
                rc=r.returncode; kinds=[l for l in r.stdout.splitlines() if l.startswith("# kinds")][-1:] ; tail=(r.stdout+r.stderr)[-300:]
            except subprocess.TimeoutExpired: rc="timeout"; tail=""
            res=rc; chk=c
            if rc!=0: break
        open(p,"w",newline="").write(orig)
        with lock:
            open(out,"a").write(json.dumps(dict(file=m[0],line=m[1],desc=m[2],rc=res,check=chk,kinds=(kinds[0][:300] if kinds else ""),tail=tail if res not in (0,1) else "",sec=round(time.time()-t0)))+"\n")
    shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=work,args=(k,)) for k in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
