# table.py HUNTLOG   fills the table of planted changes in DESIGN.md from a hunt log
import json,os,re,sys,glob
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
log={}
for l in open(sys.argv[1]):
    m=re.match(r'(\S+) (C\d\d) rc=(\d+) (\d+)s',l)
    if m: log[m[1]]=m
by={};miss=[]
for d in sorted(glob.glob(here+'/seeded/*/meta.json')):
    i=d.split('/')[-2];p=json.load(open(d))['property']
    if i in log and log[i][3]=='1': by.setdefault(p,[]).append(i[4:] if i[:3].lower()==p.lower() else i)
    else: miss.append(i)
t="\n".join(f"- {p} catches {', '.join(v)}" for p,v in sorted(by.items()))
t+="\n- not caught: "+(', '.join(miss) or 'none')+"\n"
f=here+'/DESIGN.md';s=open(f).read()
a=s.index('## Planted changes')
s=s[:a]+f"""## Planted changes

`seeded/` holds {sum(map(len,by.values()))+len(miss)} changes, each confirmed to build, to pass the existing tests and to fail its own
demonstration. Each was run against the quick check of its property (`tools/hunt.sh`, table by
`tools/table.py`); many of them were missed when first planted, and the generators strengthened:

{t}"""
open(f,'w').write(s)
