#!/usr/bin/env python3
"""seed.py SPEC.py...: builds /verif/seeded/<id>/ from a spec: applies the edits in a
scratch copy, checks build, demo on clean and changed tree, and the stable tests."""
import sys,os,subprocess,json,shutil,tempfile
spec={}
exec(open(sys.argv[1]).read(),spec)
V='/verif/seeded'
def run(c,cwd,t=900):
    p=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t)
    return p.returncode,p.stdout+p.stderr
DEMO='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$here/demo.go.txt\\"}}" > "$t/o.json"
export GOFLAGS=-mod=mod GOPROXY=off
go test %s-overlay "$t/o.json" -vet=off -count=1 -timeout 250s -run '^TestZZDemo$' ./%s
'''
only=sys.argv[2:]
def one(b):
    id=b['id']
    w=f'/tmp/seed-{id}'
    shutil.rmtree(w,ignore_errors=True)
    run(f'cp -a /repo {w}','/')
    d=f'/tmp/seedout-{id}'
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    try:
        for f,old,new in b['edits']:
            p=f'{w}/{f}';s=open(p).read()
            n=b.get('count',1)
            assert s.count(old)>=1,(id,f,old)
            s=s.replace(old,new) if b.get('all') else s.replace(old,new,1)
            open(p,'w').write(s)
        rc,diff=run('git diff',w); open(f'{d}/patch.diff','w').write(diff)
        open(f'{d}/demo.sh','w').write(DEMO%(b['pkg'],'-race ' if b.get('race') else '',b['pkg'])); os.chmod(f'{d}/demo.sh',0o755)
        open(f'{d}/demo.go.txt','w').write(b['demo'])
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(f'{d}/meta.json','w'),indent=1)
        rc,o=run(f'bash {d}/demo.sh','/repo')
        if rc: return id,'DEMO FAILS ON CLEAN: '+o[-1500:]
        rc,o=run(f'bash {d}/demo.sh',w)
        if rc==0: return id,'DEMO PASSES WITH BUG'
        if 'build failed' in o: return id,'BUILD '+o[-800:]
        tail=o[-300:]
        rc,o=run('GOFLAGS=-mod=mod GOPROXY=off go test -vet=off -count=1 -timeout 10m ./... 2>&1 | grep -v "no test files"',w)
        flaky=[x.split('/')[-1] for x in json.load(open('/opt/vp/BASELINE.json'))['flaky']]
        bad=[l for l in o.split('\n') if l.startswith('--- FAIL') and not any(f in l for f in flaky)]
        if bad or 'build failed' in o or 'panic:' in o: return id,'TESTS FAIL '+o[-1500:]
        shutil.rmtree(f'{V}/{id}',ignore_errors=True); shutil.move(d,f'{V}/{id}')
        return id,'ok: '+tail.replace('\n',' | ')
    finally:
        shutil.rmtree(w,ignore_errors=True); shutil.rmtree(d,ignore_errors=True)
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(3) as ex:
    for id,r in ex.map(one,[b for b in spec['bugs'] if not only or b['id'] in only]): print(id,r,flush=True)
