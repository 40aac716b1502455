#!/usr/bin/env python3
"""try.py ids file: file holds edits separated by lines '=== name', each a list of '@@ path' / '<<<' old '---' new '>>>' blocks.
Applies each named edit to a scratch copy of /repo, builds, runs the checks. names starting with ok- must stay quiet, bug- must alarm."""
import sys,os,subprocess,re
from concurrent.futures import ThreadPoolExecutor
W=os.environ.get('KEEP') and '/tmp/try_wt' or '/tmp/try_wt%d'%os.getpid()
ids=sys.argv[1].split(','); txt=open(sys.argv[2]).read()
only=sys.argv[3:] 
parts=[p.split('\n',1) for p in re.split(r'^=== ',txt,flags=re.M)[1:]]
if os.environ.get('OK'): parts=[p for p in parts if p[0].startswith('ok')]
def one(p):
    name,body=p[0].strip(),p[1]
    if only and name not in only: return ''
    wt=W+'/'+name; os.makedirs(wt+'/r'); ev=wt+'/ev'; os.makedirs(ev); wt+='/r'
    subprocess.run('cp -a /repo/lens /repo/cmd /repo/go.mod /repo/go.sum '+wt,shell=True,check=True)
    for m in re.finditer(r'^@@ (\S+)\n<<<\n(.*?)\n---\n(.*?)\n?>>>$',body,flags=re.M|re.S):
        q=f'{wt}/{m[1]}'; s=open(q).read()
        if s.count(m[2])!=1: return f'{name} EDIT FAILED {m[1]}: {s.count(m[2])} matches of {m[2][:80]!r}'
        open(q,'w').write(s.replace(m[2],m[3]))
    r=subprocess.run(['bash','-c','. /opt/vp/env.sh; go vet ./lens ./cmd/... 2>&1 | grep -v "^#" | head -5; go build ./...'],cwd=wt,capture_output=True,text=True)
    if r.returncode: return name+' BUILD '+r.stdout+r.stderr
    out=subprocess.run(['/tmp/chk.sh',wt]+ids,capture_output=True,text=True,env=dict(os.environ,EV=ev)).stdout
    alarm='VIOLATION' in out
    exp=name.startswith('bug-')
    if not os.environ.get('KEEP'): subprocess.run(['rm','-rf',W+'/'+name])
    t=('ok   ' if alarm==exp else 'WRONG')+' '+name+(' alarm' if alarm else ' quiet')
    if alarm!=exp or '-v' in os.environ.get('TRY',''): t+='\n'+'\n'.join(l for l in out.split('\n') if not l.startswith('OK '))[:1500]
    return t
subprocess.run(['rm','-rf',W])
with ThreadPoolExecutor(4) as ex:
    for t in ex.map(one,parts):
        if t: print(t,flush=True)
if not os.environ.get('KEEP'): subprocess.run(['rm','-rf',W])
