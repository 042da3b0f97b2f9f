#!/bin/bash
# uncovered.sh PROP...   source lines of the library the workloads of these checks never reach
# (a build of its own with the compiler's table of coverage points; for development only)
set -e
t=/tmp/simcov
mkdir -p $t
export VERIF_ROOT=$t SIM_PCS=1
( cd /verif/sim && CARGO_NET_OFFLINE=true RUSTC_WRAPPER=/verif/sim/wrap.sh CARGO_TARGET_DIR=$t/target cargo +nightly build --offline --locked --quiet )
for p in "$@"; do SIM_COVER=$t/$p.cov $t/target/debug/rcgal-sim check $p quick || true; done
python3 - $t "$@" <<'P'
import sys,subprocess,collections
t=sys.argv[1]; hit=None
for p in sys.argv[2:]:
    l=open(f'{t}/{p}.cov').read().split('\n')[:-1]; base=int(l[0])
    v=[tuple(map(int,x.split())) for x in l[1:]]
    h=[a for a,_ in v]
    pcs=[b for _,b in v]
    hit=h if hit is None else [a|b for a,b in zip(hit,h)]
sym=subprocess.run(f"nm {t}/target/debug/rcgal-sim | grep -E 'rcgal_sim.*5cover'",shell=True,capture_output=True,text=True).stdout.split('\n')[0].split()[0]
off=base-int(sym,16)
inp='\n'.join(hex(p-off) for p in pcs)
o=subprocess.run(['llvm-symbolizer','--obj='+t+'/target/debug/rcgal-sim','--functions=none','--inlines'],input=inp,capture_output=True,text=True).stdout
blocks=o.strip().split('\n\n')
assert len(blocks)==len(pcs),(len(blocks),len(pcs))
good=collections.Counter(); allc=collections.Counter()
for b,h in zip(blocks,hit):
    for f in b.split('\n'):
        if '/repo/src/' in f and not f.startswith('/root'):
            k=f.split('/repo/src/')[1].rsplit(':',1)[0]
            allc[k]+=1; good[k]+=h
files=collections.defaultdict(list)
for k in allc:
    if not good[k]:
        a,b=k.rsplit(':',1); files[a].append(int(b))
tot=len(allc); bad=sum(map(len,files.values()))
print(f'{tot-bad} of {tot} source lines that start a block reached')
for a in sorted(files):
    src=open('/repo/src/'+a).read().split('\n')
    print(a)
    for n in sorted(files[a]):
        if n: print('   ',n,src[n-1].strip())
P
