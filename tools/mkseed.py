#!/usr/bin/env python3
"""mkseed.py FILE: makes /verif/seeded/<id>/ from a description: lines
id: / property: / file: / needs: / breaks: then blocks <<<old ... === ... >>> (several allowed, each after a 'file:'), then 'demo:' and the rest is demo.rs.
'toml:' lines add to the demo's Cargo.toml dependencies."""
import sys,os,re,json,subprocess,difflib
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src=open(sys.argv[1]).read()
for part in re.split(r'^#### ?', src, flags=re.M):
    if not part.strip(): continue
    head,_,demo=part.partition('\ndemo:\n')
    meta={}
    for k in ('id','property','needs','breaks'):
        m=re.search(rf'^{k}: (.*)$',head,re.M); meta[k]=m.group(1)
    toml='\n'.join(re.findall(r'^toml: (.*)$',head,re.M))
    feats=re.search(r'^features: (.*)$',head,re.M)
    if len(sys.argv)>2 and meta['id'] not in sys.argv[2:]: continue
    d=os.path.join(root,'seeded',meta['id']); os.makedirs(d,exist_ok=True)
    files={}
    cur=None; pos=0
    for m in re.finditer(r'^file: ([^\n]*)$|^<<<\n(.*?)\n===\n(.*?)\n?>>>$',head,re.M|re.S):
        if m.group(1): cur=m.group(1); continue
        t=files.get(cur) or open('/repo/'+cur).read()
        old,new=m.group(2),m.group(3)
        if t.count(old)!=1: sys.exit(f"{meta['id']}: {t.count(old)} occurrences of {old!r} in {cur}")
        files[cur]=t.replace(old,new)
    out=''
    for f,t in files.items():
        a=open('/repo/'+f).read()
        out+=f"diff --git a/{f} b/{f}\n"+''.join(difflib.unified_diff(a.splitlines(True),t.splitlines(True),'a/'+f,'b/'+f))
    open(d+'/patch.diff','w').write(out)
    json.dump({"property":meta['property'],"needs":meta['needs'],"what_it_breaks":meta['breaks']},open(d+'/meta.json','w'),indent=1)
    demo=demo.strip('\n')+'\n'
    if demo.startswith('#!'):
        open(d+'/demo.sh','w').write(demo)
    else:
        open(d+'/demo.rs','w').write(demo)
        name='twdemo-'+meta['id'].lower()
        open(d+'/demo.sh','w').write(f'''#!/bin/bash
# run with cwd /repo: exit 0 if the property holds
HERE="$(cd "$(dirname "$0")" && pwd)"; REPO="$PWD"; T=/tmp/{name}
rm -rf /tmp/{name}; mkdir -p "$T/src"; cp "$HERE/demo.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "{name}"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
tinywasm = {{ path = "$REPO/crates/tinywasm"{feats.group(1) if feats else ''} }}
wat = "1.254"
{toml}
EOF
cd "$T" && CARGO_NET_OFFLINE=true timeout 280 cargo run --offline -q; R=$?
rm -rf /tmp/{name}
exit $R
''')
    os.chmod(d+'/demo.sh',0o755)
    print(meta['id'],len(out))
