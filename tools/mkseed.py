#!/usr/bin/env python3
"""mkseed.py SPEC.py - builds a planted bug under /verif/seeded/<id>/ and
confirms it (a maintenance helper; no check runs it). A spec defines ID, PROP,
NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (a Go test, package store_test
unless PKG says otherwise), DIR (package directory, default '.'), RACE."""
import sys,os,subprocess,json,runpy
R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,text=True,errors="replace",capture_output=True,**k)
def clean(): sh('git -C /repo checkout -- .')
def main(spec):
    s=runpy.run_path(spec); i=s['ID']; d='/verif/seeded/'+i
    assert not sh('git -C /repo status --short').stdout.strip(),'dirty /repo'
    os.makedirs(d,exist_ok=True)
    open(d+'/demo_test.go.txt','w').write(s['DEMO'].lstrip())
    race='-race ' if s.get('RACE') else ''
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd /repo/{s.get('DIR','.')} || exit 3
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/zz_demo_test.go"
echo "{{\\"Replace\\": {{\\"$PWD/zz_demo_test.go\\": \\"$tmp/zz_demo_test.go\\"}}}}" > "$tmp/overlay.json"
timeout 250 go test {race}-vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestZZDemo$' .
''')
    os.chmod(d+'/demo.sh',0o755)
    try:
        for f,old,new in s['EDITS']:
            p=R+'/'+f; t=open(p).read()
            assert t.count(old)==1,(f,t.count(old),old)
            open(p,'w').write(t.replace(old,new))
        g=sh('. /opt/vp/env.sh; gofmt -l '+' '.join('/repo/'+e[0] for e in s['EDITS'])); 
        if g.stdout.strip(): print('gofmt:',g.stdout)
        diff=sh('git -C /repo diff').stdout; assert diff
        open(d+'/patch.diff','w').write(diff)
        json.dump({'property':s['PROP'],'needs':s['NEEDS'],'what_it_breaks':s['BREAKS']},open(d+'/meta.json','w'),indent=1)
        clean()
        r=sh(d+'/demo.sh',cwd=R); print(i,'demo unpatched',r.returncode)
        if r.returncode: print(r.stdout[-3000:],r.stderr[-2000:]); return 1
        r=sh('git -C /repo apply '+d+'/patch.diff'); assert r.returncode==0,r.stderr
        # ORIG: lines of the original repository only
        cur=None
        for l in diff.splitlines():
            if l.startswith('--- a/'): cur=sh('git -C /repo show 18312ab:'+l[6:]).stdout.splitlines()
            elif l.startswith('-') and l[1:].strip() and l[1:] not in cur: print('NOT ORIGINAL:',l)
        r=sh('bash /opt/vp/build.sh'); print('build',r.returncode,r.stderr[-500:])
        r=sh('bash /tmp/t.sh'); print('tests',r.stdout.strip().splitlines()[0])
        r=sh(d+'/demo.sh',cwd=R); print(i,'demo patched',r.returncode,[l for l in r.stdout.splitlines() if 'zz_demo' in l][:3])
        for p in [s['PROP']]+s.get('ALSO',[]):
            r=sh('VERIF_SEED=1 ./check.sh '+p,cwd='/verif'); print(p,'check',r.returncode,[l for l in r.stdout.splitlines() if 'VIOLATION' in l][:3])
    finally:
        clean()
for f in sys.argv[1:]: main(f)
