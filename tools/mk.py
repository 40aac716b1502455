#!/usr/bin/env python3
"""mk.py spec.py [--notest]: spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (go test source, package lens), optional EXTRA files, PKG"""
import sys,os,subprocess,json,shutil,runpy
spec=runpy.run_path(sys.argv[1])
ID=spec['ID']; out=f'/verif/seeded/{ID}'
wt=f'/tmp/wt_{ID}'
subprocess.run(['rm','-rf',wt]); subprocess.run(['cp','-a','/repo',wt],check=True)
for f,old,new in spec['EDITS']:
    p=f'{wt}/{f}'; s=open(p).read()
    assert s.count(old)==1,(f,s.count(old),old)
    open(p,'w').write(s.replace(old,new))
diff=subprocess.run(['git','-C',wt,'diff'],capture_output=True,text=True).stdout
env='. /opt/vp/env.sh; '
def sh(cmd,cwd,t=600):
    return subprocess.run(['bash','-c',env+cmd],cwd=cwd,capture_output=True,text=True,timeout=t)
r=sh('gofmt -l lens cmd; go build ./...',wt)
if r.returncode or r.stdout.strip(): print('BUILD',r.stdout,r.stderr); sys.exit(1)
os.makedirs(out,exist_ok=True)
open(out+'/patch.diff','w').write(diff)
json.dump({"property":spec['PROP'],"needs":spec['NEEDS'],"what_it_breaks":spec['BREAKS']},open(out+'/meta.json','w'),indent=1)
pkg=spec.get('PKG','lens')
if 'DEMO' in spec:
    open(out+'/demo_verif_test.go.txt','w').write(spec['DEMO'])
    flags=spec.get('FLAGS','')
    open(out+'/demo.sh','w').write(f'''#!/bin/bash
# in-package test added through an overlay; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_verif_test.go.txt" "$tmp/demo_verif_test.go"
printf '{{"Replace": {{"%s/{pkg}/zz_demo_verif_test.go": "%s/demo_verif_test.go"}}}}' "$repo" "$tmp" > "$tmp/overlay.json"
TMPDIR="$tmp" timeout 250 go test -vet=off -count=1 {flags} -overlay "$tmp/overlay.json" -run '^TestVerifDemo$' ./{pkg}
''')
else:
    open(out+'/demo.sh','w').write(spec['DEMO_SH'])
for n,c in spec.get('EXTRA',{}).items(): open(f'{out}/{n}','w').write(c)
os.chmod(out+'/demo.sh',0o755)
a=sh(f'bash {out}/demo.sh','/repo'); b=sh(f'bash {out}/demo.sh',wt)
print('demo clean rc',a.returncode,'| bug rc',b.returncode)
if a.returncode: print(a.stdout[-2500:],a.stderr[-1500:])
if not b.returncode or '--v' in sys.argv: print(b.stdout[-1500:],b.stderr[-800:])
if '--notest' not in sys.argv:
    base=json.load(open('/opt/vp/BASELINE.json'))
    t=sh('go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/bugs/t.json; true',wt,900)
    fails=set()
    for l in open('/tmp/bugs/t.json'):
        try:e=json.loads(l)
        except: continue
        if e.get('Action')=='fail' and 'Test' in e: fails.add(e['Test'])
        if e.get('Action')=='fail' and 'Test' not in e: fails.add('PKG '+e['Package'])
    txt=json.dumps(base)
    print('failing tests:',sorted(f for f in fails if f.startswith('PKG') or json.dumps(f)[1:-1] in txt) or 'none')
ids=sys.argv[2].split(',') if len(sys.argv)>2 and sys.argv[2].startswith('C') else [spec['PROP']]
c=subprocess.run(['/tmp/chk.sh',wt]+ids,capture_output=True,text=True); print(c.stdout[-1500:])
subprocess.run(['rm','-rf',wt])
