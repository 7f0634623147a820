#!/usr/bin/env python3
"""Runs quick checks against planted changes in scratch copies under /tmp/bugs. Not used by any check.
 bugs.py BUGS.py OUT.jsonl WORKERS [ID...]   BUGS.py defines B = [(id, property[s], file, old, new), ...] or (id, props, [(file, old, new), ...])"""
import sys,os,json,subprocess,threading,queue,time,re
src,out,nw=sys.argv[1],sys.argv[2],int(sys.argv[3]); only=sys.argv[4:]
ns={}; exec(open(src).read(),ns)
done={json.loads(l)['id'] for l in open(out)} if os.path.exists(out) else set()
q=queue.Queue()
for b in ns['B']:
    id,props=b[0],b[1]; eds=b[2] if isinstance(b[2],list) else [b[2:5]]
    if (only and id not in only) or (not only and id in done): continue
    for f,o,n in eds:
        t=open('/repo/crates/'+f).read()
        if t.count(o)!=1: print('BAD EDIT',id,f,t.count(o)); break
    else: q.put((id,props.split(),eds))
lock=threading.Lock()
def sh(c,t): 
    p=subprocess.Popen(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True,env=env)
    try: o,_=p.communicate(timeout=t); return p.returncode,o.decode('utf8','replace')
    except subprocess.TimeoutExpired: os.killpg(p.pid,9); p.wait(); return 124,''
env=dict(os.environ,CARGO_NET_OFFLINE='true',VERIF_SEED=os.environ.get('VERIF_SEED','1')); env.pop('RUSTFLAGS',None)
def w(k):
    W=f'/tmp/bugs/w{k}'; os.makedirs(W,exist_ok=True)
    subprocess.run(f"rsync -a --delete --exclude target --exclude .git /repo/ {W}/repo/; mkdir -p {W}/verif; rsync -a --exclude .git --exclude out --exclude seeded --exclude 'target*/' /verif/ {W}/verif/; for d in harness/target harness/target-nogd harness/target-asan harness/target-tsan harness/target-cli miri/target w32/target bare/target; do [ -d {W}/verif/$d ] || cp -a /verif/$d {W}/verif/$d; done; sed -i 's|/repo|{W}/repo|g' {W}/verif/lib.sh {W}/verif/harness/Cargo.toml {W}/verif/miri/Cargo.toml {W}/verif/bare/Cargo.toml",shell=True,check=True)
    while True:
        try: id,props,eds=q.get_nowait()
        except queue.Empty: return
        old={}
        for f,o,n in eds:
            p=f'{W}/repo/crates/{f}'; t=open(p).read(); old.setdefault(p,t); open(p,'w').write(t.replace(o,n))
        res=dict(id=id,props={})
        for pr in props:
            t=time.time(); r,o=sh(f'cd {W}/verif && ./check.sh {pr} quick',900)
            v=re.findall(r'VIOLATION.*',o)
            wh=''
            if v:
                m=re.search(r'replay=(\S+)',v[0])
                try: wh=''.join(open(m[1]+('/what.txt' if os.path.isdir(m[1]) else '')).read())[:300]
                except Exception: pass
            if not v: wh=o[-1500:] if r else ''
            res['props'][pr]=dict(rc=r,t=round(time.time()-t),v=v[:1],what=wh)
            print(id,pr,'rc',r,f'{time.time()-t:.0f}s',(v[:1] or [''])[0][:100],flush=True)
        for p,t in old.items(): open(p,'w').write(t)
        with lock: open(out,'a').write(json.dumps(res)+'\n')
ts=[threading.Thread(target=w,args=(k,)) for k in range(nw)]; [t.start() for t in ts]; [t.join() for t in ts]
