#!/usr/bin/env python3
"""Mutation testing of the monitors, in scratch copies under /tmp/mut. Not used by any check.
 mutate.py gen OUT.jsonl N SEED [path substring...]   picks mutants
 mutate.py deep OUT.jsonl N SEED [path...]           the same with subtler changes: narrowed casts, swapped statements, another variable of the function
 mutate.py run IN.jsonl OUT.jsonl WORKERS [--all]     builds and runs the monitors on each (--all: does not stop at the first monitor that reports)"""
import sys, os, re, json, random, subprocess, time, shutil, threading, queue
REPO='/repo'
MON=[('scen:peep',2500),('num:C02',250),('num:C04',250),('links',300),('scen:C01',300),('scen:C02',250),('scen:C05',250),('scen:C07',250),('scen:C04',250),('scen:C13',250),('scen:C14',250),('scen:weave',60),('describe',300),('archive',120),('verdict',150),('api',60),('hostacc',200),('scen:C03',400),('scen:C10',150),('scen:C11',150),('scen:C12',150),('scen:C15',100),('scen:C19',100),('scen:C23',150),('scen:C24',120),('scen:C06',50),('scen:C08',50),('budget',60),('limits',150),('tail',50),('after',30),('busy',120),('scen:lone@C23',500),('threads',50),('drops',80)]
EXTRA=[]
OPS=[(r'(?<![<>=\-])<(?![<=>])(?= )','<='),(r'(?<= )>(?= )','>='),(r' <= ',' < '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' + '),(r' && ',' || '),(r' \|\| ',' && '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r' << ',' >> '),(r' >> ',' << '),
 (r'\b0\b','1'),(r'\b1\b','0'),(r'\b1\b','2'),(r'\b(\d+)\b',lambda m:str(int(m[1])+1) if len(m[1])<7 else m[1]),(r'wrapping_add','wrapping_sub'),(r'wrapping_sub','wrapping_add'),(r'wrapping_mul','wrapping_add'),(r'checked_add','wrapping_add_OPT'),(r'\.min\(','.max('),(r'\.max\(','.min('),(r'is_some\(\)','is_none()'),(r'is_none\(\)','is_some()'),(r'is_empty\(\)','is_empty() == false'),(r'\bif (?!let)','if !'),
 (r'\bas u32\b','as i32 as u32'),(r'\bu8\b','i8'),(r'\bi8\b','u8'),(r'\bu16\b','i16'),(r'\bi16\b','u16'),(r'\bi32\b','u32'),(r'\bu32\b','i32'),(r'\bi64\b','u64'),(r'\bu64\b','i64'),(r'\bf32\b','f64'),(r'\bf64\b','f32'),(r'32\b','64'),(r'64\b','32'),(r'8S','8U'),(r'8U','8S'),(r'16S','16U'),(r'16U','16S'),(r'32S','32U'),(r'32U','32S'),
 (r'Lt','Le'),(r'Gt','Ge'),(r'Le\b','Lt'),(r'Eq','Ne'),(r'Add','Sub'),(r'Sub','Add'),(r'And','Or'),(r'Shl','ShrU'),(r'\blhs\b','rhs'),(r'\brhs\b','lhs'),(r'\bdst\b','src'),(r'\bsrc\b','dst'),(r'\bleft\b','right'),(r'Tee','Set'),(r'Set','Tee'),(r'\ba, b\b','b, a'),(r'saturating_','wrapping_'),(r'checked_(\w+)\(([^()]*)\)',r'wrapping_\1(\2).into()'),(r'\.rev\(\)',''),(r' \| ',' & '),(r' & ',' | '),(r' % ',' / '),(r'\.take\(\)','.clone()'),(r'unwrap_or\((\w+)\)',r'unwrap_or(\1 + 1)'),(r'\.\.=','..'),(r'(?<=\w)\.\.(?=\w)','..='),(r'Some\((\w+)\)','None'),(r'Low','High'),(r'High','Low'),(r'<true>','<false>'),(r'<false>','<true>'),(r'\bcontinue\b','break'),(r'\bbreak\b','continue'),(r'\?;',';')]
def files(sub):
    out=[]
    for d,_,fs in os.walk(REPO+'/crates'):
        if '/src' not in d or '/tests' in d or 'target' in d: continue
        for f in fs:
            p=os.path.join(d,f)
            if f.endswith('.rs') and f not in('tests.rs','no_std_floats.rs') and (not sub or any(s in p for s in sub)): out.append(p)
    return sorted(out)
def gen(out,n,seed,sub):
    rnd=random.Random(seed); c=[]
    for p in files(sub):
        L=open(p).read().split('\n'); test=False
        for i,l in enumerate(L):
            if '#[cfg(test)]' in l: test=True
            if test and l=='}': test=False
            s=l.strip()
            if test or not s or s.startswith(('//','#[','use ','pub use','///','#!','mod ','pub mod')) : continue
            code=l.split(' //')[0]
            for rx,rep in OPS:
                for m in re.finditer(rx,code):
                    if code[:m.start()].count('"')%2: continue
                    new=code[:m.start()]+(m.expand(rep) if isinstance(rep,str) and '\\' in rep else rep(m) if callable(rep) else rep)+code[m.end():]
                    if new!=code: c.append((p[len(REPO)+1:],i,l,new))
            if s.endswith(';') and not s.startswith(('let ','return','use ','pub ','const ','static ','type ')) and s.count('(')==s.count(')') and s.count('{')==s.count('}'): c.append((p[len(REPO)+1:],i,l,''))
            if s.startswith('return Err(') and s.endswith(';'): c.append((p[len(REPO)+1:],i,l,''))
    rnd.shuffle(c)
    # several per line at most two, spread over the lines
    seen={}; sel=[]
    for x in c:
        k=(x[0],x[1]); 
        if seen.get(k,0)>=2: continue
        seen[k]=seen.get(k,0)+1; sel.append(x)
        if len(sel)>=n: break
    with open(out,'w') as f:
        for k,x in enumerate(sel): f.write(json.dumps(dict(id=f'{seed}-{k}',file=x[0],line=x[1],old=x[2],new=x[3]))+'\n')
    print(len(c),'possible,',len(sel),'chosen')
NARROW=[(r'\bas u32\b','as u16 as u32'),(r'\bas u32\b','as u8 as u32'),(r'\bas usize\b','as u32 as usize'),(r'\bas usize\b','as u16 as usize'),(r'\bas u64\b','as u32 as u64'),(r'\bas u64\b','as i32 as u64'),(r'\bas i64\b','as i32 as i64'),(r'\bas u16\b','as u8 as u16')]
KW=set('let mut if else match for in while loop return self Self fn pub crate const static as ref move use impl trait where true false Some None Ok Err u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 usize isize f32 f64 bool break continue unsafe dyn type enum struct super core alloc vec'.split())
def deep(out,n,seed,sub):
    rnd=random.Random(seed); c=[]
    for p in files(sub):
        L=open(p).read().split('\n'); test=False; names=[]
        rel=p[len(REPO)+1:]
        for i,l in enumerate(L):
            if '#[cfg(test)]' in l: test=True
            if test and l=='}': test=False
            s=l.strip()
            if re.search(r'\bfn \w+',l): names=re.findall(r'(\w+): ',l[l.find('('):])
            if test or not s or s.startswith(('//','#[','use ','pub use','///','#!','mod ','pub mod')): continue
            code=l.split(' //')[0]
            for rx,rep in NARROW:
                for m in re.finditer(rx,code): c.append((rel,i,l,code[:m.start()]+rep+code[m.end():]))
            st=lambda x:x.endswith(';') and x.count('(')==x.count(')') and x.count('{')==x.count('}') and not x.startswith(('return','use ','pub ','const ','static ','type ','//'))
            if i+1<len(L) and st(s) and st(L[i+1].strip()) and not (s.startswith('let ') and L[i+1].strip().startswith('let ')) and not(s.startswith('let ') and re.search(r'\b'+re.match(r'let (?:mut )?\(?(\w+)|()',s)[1]+r'\b' if re.match(r'let (?:mut )?\(?(\w+)',s) else 'XX',L[i+1])):
                c.append((rel,i,l+'\n'+L[i+1],L[i+1]+'\n'+l))
            mm=re.match(r'let (?:mut )?\(?([\w, ]+)\)?',s)
            for m in re.finditer(r'(?<![\w."])([a-z_]\w*)(?![\w(!:]|\s*:)',code):
                if m[1] in KW or m[1] not in names: continue
                for o in rnd.sample(sorted(set(names)),min(2,len(set(names)))):
                    if o!=m[1]: c.append((rel,i,l,code[:m.start()]+o+code[m.end():]))
            if mm: names+=[x for x in re.findall(r'[a-z_]\w*',mm[1]) if x not in KW]
    rnd.shuffle(c); seen={}; sel=[]
    for x in c:
        k=(x[0],x[1])
        if seen.get(k,0)>=2: continue
        seen[k]=seen.get(k,0)+1; sel.append(x)
        if len(sel)>=n: break
    with open(out,'w') as f:
        for k,x in enumerate(sel): f.write(json.dumps(dict(id=f'd{seed}-{k}',file=x[0],line=x[1],old=x[2],new=x[3]))+'\n')
    print(len(c),'possible,',len(sel),'chosen')
def sh(cmd,cwd,t,env=None):
    try:
        p=subprocess.Popen(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,start_new_session=True)
        o,_=p.communicate(timeout=t); return p.returncode,o.decode('utf8','replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait(); return 124,''
def setup(k):
    W=f'/tmp/mut/w{k}'
    os.makedirs(W,exist_ok=True)
    subprocess.run(f"rsync -a --delete --exclude target --exclude .git --exclude examples {REPO}/ {W}/repo/ && mkdir -p {W}/repo/examples && rsync -a --exclude target --exclude .git {REPO}/examples/ {W}/repo/examples/; rsync -a --exclude 'target*/' /verif/harness/ {W}/harness/; [ -d {W}/harness/target ] || cp -a /verif/harness/target {W}/harness/target; sed -i 's|/repo/|{W}/repo/|' {W}/harness/Cargo.toml",shell=True,check=True)
    env=dict(os.environ,CARGO_NET_OFFLINE='true'); env.pop('RUSTFLAGS',None)
    r,o=sh('cargo build --offline -q --bin tw',W+'/harness',900,env); assert r==0,o
    r,o=sh(f'cargo build --offline -q --locked --manifest-path {W}/repo/Cargo.toml -p tinywasm-cli --bin tinywasm --target-dir {W}/cli',W+'/harness',900,env); assert r==0,o
    return W,env
def one(W,env,m,all_):
    p=f'{W}/repo/{m["file"]}'; src=open(p).read(); L=src.split('\n')
    k=m['old'].count('\n')+1; assert '\n'.join(L[m['line']:m['line']+k])==m['old'],(m,L[m['line']])
    L[m['line']:m['line']+k]=[m['new']]; open(p,'w').write('\n'.join(L))
    res=dict(m); t=time.time()
    try:
        cli='crates/cli' in m['file']
        r,o=sh('cargo build --offline -q --bin tw',W+'/harness',300,env) if not cli else sh(f'cargo build --offline -q --locked --manifest-path {W}/repo/Cargo.toml -p tinywasm-cli --bin tinywasm --target-dir {W}/cli',W+'/harness',300,env)
        if r: res['status']='nobuild'; return res
        res['status']='survived'; res['hits']={}
        mons=[('cli',150)] if cli else MON
        for mon,n in mons:
            e=dict(env,TW_CLI=f'{W}/cli/debug/tinywasm')
            r,o=sh(f'echo "900000 {n}" | timeout 40 {W}/harness/target/debug/tw work {mon}',W,45,e)
            v=o.count('\nV ')+o.startswith('V ')
            tag=None
            if v: tag=v
            elif r in(124,137): tag='timeout'
            elif r not in(0,): tag=f'died {r}'
            if tag:
                res['hits'][mon]=tag; 
                if res['status']!='caught': res['status']='caught' if tag!='timeout' else 'hang'
                mm=re.search(r'V (\{.*)',o); 
                if mm and 'what' not in res:
                    try: res['what']=json.loads(mm[1])['what'][:200]
                    except Exception: pass
                if not all_: break
        return res
    finally:
        open(p,'w').write(src); res['t']=round(time.time()-t,1)
def run(inp,out,nw,all_):
    done=set()
    if os.path.exists(out): done={json.loads(l)['id'] for l in open(out)}
    q=queue.Queue()
    for l in open(inp):
        m=json.loads(l)
        if m['id'] not in done: q.put(m)
    lock=threading.Lock(); stop='/tmp/mut/stop'
    if os.path.exists(stop): os.remove(stop)
    def w(k):
        W,env=setup(k)
        while not os.path.exists(stop):
            try: m=q.get_nowait()
            except queue.Empty: return
            try: r=one(W,env,m,all_)
            except Exception as e: r=dict(m,status='error',err=str(e))
            with lock: open(out,'a').write(json.dumps(r)+'\n')
    ts=[threading.Thread(target=w,args=(k,)) for k in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]
if sys.argv[1]=='gen': gen(sys.argv[2],int(sys.argv[3]),int(sys.argv[4]),sys.argv[5:])
elif sys.argv[1]=='deep': deep(sys.argv[2],int(sys.argv[3]),int(sys.argv[4]),sys.argv[5:])
else: run(sys.argv[2],sys.argv[3],int(sys.argv[4]),'--all' in sys.argv)
