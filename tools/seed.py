#!/usr/bin/env python3
# seed.py SPECDIR/ID.py ...: builds and confirms planted bugs. Each spec defines:
#   prop, needs, breaks, edits=[(file, old, new)], pkg (dir of the demo test), demo (Go test source), race (bool), timeout
import sys,os,json,subprocess,shutil,runpy
W='/tmp/seedrepo'
out='/verif/seeded'
def sh(c,cwd=W,timeout=600):
    r=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout)
    return r.returncode,r.stdout+r.stderr
if not os.path.isdir(W): subprocess.run(['cp','-a','/repo',W])
for spec in sys.argv[1:]:
    m=runpy.run_path(spec); id=os.path.basename(spec)[:-3]
    sh('git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD; git clean -fdq')
    d=f'{out}/{id}'; os.makedirs(d,exist_ok=True)
    ok=True
    for f,old,new in m['edits']:
        p=f'{W}/{f}'; s=open(p).read()
        if s.count(old)!=1: print(id,'EDIT matches',s.count(old),repr(old[:50])); ok=False; break
        open(p,'w').write(s.replace(old,new))
    if not ok: continue
    for f,_,_ in m['edits']: sh(f'gofmt -l {f}')
    rc,diff=sh('git diff'); open(f'{d}/patch.diff','w').write(diff)
    open(f'{d}/demo_test.go','w').write(m['demo'])
    pkg=m['pkg']; race='-race ' if m.get('race') else ''
    to=m.get('timeout',120)
    open(f'{d}/demo.sh','w').write(f'''#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{{"Replace": {{"%s": "%s"}}}}' "$PWD/{pkg}/zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
go test {race}-vet=off -count=1 -timeout {to}s -overlay "$tmp/overlay.json" -run 'TestDemo' ./{pkg}
''')
    os.chmod(f'{d}/demo.sh',0o755)
    json.dump({"property":m['prop'],"needs":m['needs'],"what_it_breaks":m['breaks']},open(f'{d}/meta.json','w'),indent=1)
    rc,o=sh('go build ./... && go vet ./%s'%pkg)
    if rc: print(id,'BUILD/VET',o[:400])
    rc1,o1=sh(f'bash {d}/demo.sh')
    # existing tests
    rc,o=sh('go test -vet=off -count=1 -p 1 -json ./... > /tmp/seedtests.json',timeout=900)
    base=json.load(open('/opt/vp/BASELINE.json'))
    names=base if isinstance(base,list) else base.get('passed') or base.get('tests') or base.get('stable') or base
    res={}
    for l in open('/tmp/seedtests.json'):
        try: e=json.loads(l)
        except: continue
        if e.get('Test') and e['Action'] in('pass','fail','skip'): res[e['Package']+'::'+e['Test']]=e['Action']
    fails=[k for k,v in res.items() if v=='fail']
    sh('git reset -q --hard')
    rc0,o0=sh(f'bash {d}/demo.sh')
    oc=subprocess.run(['git','-C',W,'apply',f'{d}/patch.diff'])
    o=subprocess.run(['/verif/bin/mediacheck','-prop',m['prop'],'-repo',W],capture_output=True,text=True)
    subprocess.run(['git','-C',W,'checkout','-q','.'])
    ls=[l for l in o.stdout.split('\n') if l and not l.startswith('    ')]
    print(id,'demo clean',rc0,'patched',rc1,'testfails',fails,'CAUGHT' if o.returncode else 'MISSED',ls[0][:150])
    if rc0: print(o0[-800:])
    if rc1==0: print(o1[-300:])
