# plant.py DEF.py...   make /verif/seeded/<id>/ from definitions, after confirming each:
# applies, builds, passes the stable tests, demo passes without and fails with it.
# A definition sets: id, prop, needs, breaks, edits=[(file, old, new), ...], demo (Rust).
import sys, os, subprocess, json, re, shutil
W='/tmp/plant/repo'; S='/verif/seeded'
KIT=open(os.path.join(os.path.dirname(__file__),'demo_kit.rs')).read()
SH='''#!/bin/bash
# Builds the library from the working tree as it stands and runs demo.rs against it.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
rustc --edition 2021 -Awarnings -g --crate-type rlib --crate-name rcgal src/lib.rs -o "$t/librcgal.rlib" || exit 3
rustc --edition 2021 -Awarnings -g "$here/demo.rs" --extern rcgal="$t/librcgal.rlib" -o "$t/demo" || exit 3
cd "$t" || exit 3
timeout 200 "$t/demo"
'''
def sh(c,cwd=W,**k): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def fresh():
    if not os.path.exists(W):
        os.makedirs('/tmp/plant',exist_ok=True)
        sh('cp -a /repo /tmp/plant/repo',cwd='/')
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def one(path):
    g={}; exec(open(path).read(),g)
    fresh()
    i=g['id']; d=f'{S}/{i}'
    for f,a,b in g['edits']:
        p=f'{W}/src/{f}'; s=open(p).read()
        n=s.count(a)
        if n!=1: return f'{i}: edit of {f} matches {n} times: {a[:60]!r}'
        open(p,'w').write(s.replace(a,b))
    diff=sh('git diff').stdout
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.rs','w').write(g.get('kit',KIT)+'\n'+g['demo'])
    open(d+'/demo.sh','w').write(SH); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':g['prop'],'needs':g['needs'],'what_it_breaks':g['breaks']},open(d+'/meta.json','w'),indent=1)
    base=sh('git diff 71bf01c HEAD -- . | grep "^+" ',cwd='/repo').stdout
    mine=set(l[1:].strip() for l in base.splitlines())
    orig=[l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].strip() not in mine]
    t=sh('CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.98.0 CARGO_TARGET_DIR=/tmp/plant/target cargo test --workspace --no-fail-fast --offline --locked 2>&1')
    ok=set('rcgal:src/lib.rs::'+m for m in re.findall(r'^test (\S+) \.\.\. ok',t.stdout,re.M))
    if stable-ok:
        shutil.rmtree(d); return f'{i}: tests {len(ok)} ok; '+t.stdout[-1500:]
    w=sh('CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.98.0 CARGO_TARGET_DIR=/tmp/plant/target cargo build --lib --target wasm32-unknown-unknown --offline --locked 2>&1')
    if w.returncode: return f'{i}: wasm build: '+w.stdout[-800:]
    bad=sh(d+'/demo.sh')
    fresh()
    good=sh(d+'/demo.sh')
    if good.returncode!=0 or bad.returncode==0 or bad.returncode==3:
        return f'{i}: DEMO clean rc={good.returncode} patched rc={bad.returncode}\n{good.stdout[-900:]}\n---\n{bad.stdout[-900:]}'
    return f'{i}: ok (original lines changed: {len(orig)}; patched demo rc={bad.returncode}: {bad.stdout.strip().splitlines()[-1][:160] if bad.stdout.strip() else ""})'
for p in sys.argv[1:]: print(one(p),flush=True)
