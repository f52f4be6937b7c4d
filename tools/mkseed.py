#!/usr/bin/env python3
"""mkseed.py DIR: DIR holds edit.json {"property","needs","what_it_breaks","edits":[[file,old,new],...]} and main.go.
Creates seeded/<basename>/ after confirming build, stable tests and demo in a scratch copy."""
import sys,json,subprocess,os,shutil,tempfile
src=os.path.abspath(sys.argv[1]); name=os.path.basename(src)
e=json.load(open(src+'/edit.json'))
t=tempfile.mkdtemp(prefix='seed'); w=t+'/repo'
DEMO='''#!/bin/bash
# runs the demonstration program against the package in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp "$here"/*.go "$d"/ || exit 2
sed -e 's|^module .*|module demo|' "$repo/go.mod" > "$d/go.mod"
printf 'require github.com/xeipuuv/gojsonschema v0.0.0\\nreplace github.com/xeipuuv/gojsonschema => %s\\n' "$repo" >> "$d/go.mod"
cp "$repo/go.sum" "$d/go.sum"
cd "$d" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off timeout 200 go run RACE .
'''
def run(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
try:
    subprocess.check_call(['cp','-a','/repo',w])
    run('git checkout -q -- .',cwd=w)
    for f,o,n in e['edits']:
        s=open(w+'/'+f).read()
        assert s.count(o)==1,(f,o,s.count(o))
        open(w+'/'+f,'w').write(s.replace(o,n))
    run('gofmt -l .',cwd=w)
    diff=subprocess.check_output(['git','diff'],cwd=w,text=True)
    out='/verif/seeded/'+name
    os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','w').write(diff)
    open(out+'/demo.sh','w').write(DEMO.replace('RACE','-race' if e.get('race') else ''))
    os.chmod(out+'/demo.sh',0o755)
    shutil.copy(src+'/main.go',out+'/main.go')
    json.dump({k:e[k] for k in('property','needs','what_it_breaks')},open(out+'/meta.json','w'),indent=1)
    r=run('go build ./... && go test -json -vet=off -count=1 ./... 2>/dev/null',cwd=w)
    passed=set()
    for l in r.stdout.splitlines():
        try: j=json.loads(l)
        except ValueError: continue
        if j.get('Action')=='pass' and 'Test' in j: passed.add(j['Package']+'/'+j['Test'])
    miss=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-passed
    ok_tests=not miss
    if miss: r.stdout=' '.join(sorted(miss))
    d1=run(out+'/demo.sh',cwd=w); d0=run(out+'/demo.sh',cwd='/repo')
    print(name,'tests',ok_tests,'demo-with-patch',d1.returncode,'demo-clean',d0.returncode)
    if not ok_tests: print(r.stdout[-1500:])
    if d1.returncode==0 or d0.returncode!=0: print('PATCHED:',d1.stdout[-800:],'CLEAN:',d0.stdout[-800:])
    if not(ok_tests and d1.returncode!=0 and d0.returncode==0):
        shutil.rmtree(out); print('REJECTED')
finally:
    shutil.rmtree(t)
