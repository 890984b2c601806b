#!/usr/bin/env python3
"""Apply each planted bug to /repo, run its property's check (and with ALL=1
every check), undo, and rewrite the table in DESIGN.md. Development tool only;
no registered check uses it."""
import json, os, re, subprocess, sys
V='/verif'; S=V+'/seeded'
res_p=V+'/tools/seedresults.json'
res=json.load(open(res_p)) if os.path.exists(res_p) else {}
ids=sys.argv[1:] or sorted(os.listdir(S))
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
assert not subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout.strip()
for i in ids:
    if i=='table': continue
    m=json.load(open(f'{S}/{i}/meta.json'))
    if subprocess.run(['git','-C','/repo','apply',f'{S}/{i}/patch.diff']).returncode:
        print(i,'DOES NOT APPLY'); res.pop(i,None); continue
    try:
        got=[]
        for p in (props if os.environ.get('ALL') else [m['property']]):
            r=subprocess.run(['bash',V+'/check.sh',p],capture_output=True,text=True,env=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick'),cwd=V)
            if r.returncode==1 and f'VIOLATION property={p} ' in r.stdout: got.append(p)
            elif r.returncode!=0: print(i,p,'exit',r.returncode,r.stdout[-300:],r.stderr[-300:])
    finally:
        subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    if os.environ.get('ALL') or i not in res: res[i]=got
    elif m['property'] not in res[i] and got: res[i]=got
    elif not got: res[i]=[p for p in res[i] if p!=m['property']]
    print(i,m['property'],'caught' if m['property'] in got else 'MISSED',got,flush=True)
res={k:v for k,v in sorted(res.items()) if os.path.isdir(f'{S}/{k}')}
json.dump(res,open(res_p,'w'),indent=1); open(res_p,'a').write('\n')
t=['| planted bug | needs | caught by |','|---|---|---|']
for i in sorted(os.listdir(S)):
    m=json.load(open(f'{S}/{i}/meta.json'))
    t.append(f"| {i} | {m['needs']} | {', '.join(res.get(i,[])) or '-'} |")
d=open(V+'/DESIGN.md').read()
d=re.sub(r'<!-- seedtable -->.*<!-- /seedtable -->',lambda _:'<!-- seedtable -->\n'+'\n'.join(t)+'\n<!-- /seedtable -->',d,flags=re.S)
open(V+'/DESIGN.md','w').write(d)
