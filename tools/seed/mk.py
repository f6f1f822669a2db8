#!/usr/bin/env python3
"""mk.py SPEC.py...: builds /verif/seeded/<id> from a spec, checking everything."""
import sys, os, subprocess, json, shutil, re
W='/tmp/seed/w'
DEMO_SH='''#!/bin/bash
# Builds and runs the demonstration beside this file against the working tree of the repository it is started in.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
export PATH="/usr/local/go/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cp "$R/go.sum" "$W/go.sum"
{
	echo 'module github.com/amarin/gomorphy'
	echo 'go 1.18'
	echo 'require ('
	echo 'github.com/amarin/binutils v0.6.0'
	echo 'github.com/amarin/libxml v0.1.2'
	echo 'github.com/amarin/logging v0.1.0'
	echo ')'
	echo "replace github.com/amarin/libxml => $D/stubs/libxml"
	echo "replace github.com/amarin/logging => $D/stubs/logging"
} >"$W/go.mod"
echo "{\\"Replace\\": {\\"$R/internal/zzdemo/main.go\\": \\"$D/demo.go.txt\\"}}" >"$W/overlay.json"
go build RACE-overlay "$W/overlay.json" -modfile "$W/go.mod" -o "$W/demo" ./internal/zzdemo || exit 2
mkdir "$W/scratch" && cd "$W/scratch" || exit 3
HOME="$W/scratch" timeout 200 "$W/demo"
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
blame={}
def base_lines(f):
    if f not in blame:
        o=sh(f'git -C /repo blame -s {f}').stdout.splitlines()
        blame[f]=[(l.startswith('^2db67da') or l.startswith('2db67da'), re.sub(r'^\S+ +(\S+ +)?\d+\) ?','',l,1)) for l in o]
    return blame[f]
for spec in sys.argv[1:]:
    ns={}
    exec(open(spec).read(),ns)
    i=ns['ID']; out=f'/verif/seeded/{i}'
    shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    shutil.rmtree(W,ignore_errors=True); shutil.copytree('/repo',W,symlinks=True)
    sh(f'git -C {W} checkout -q -- .')
    for f,o,n in ns['EDITS']:
        s=open(f'{W}/{f}').read(); assert s.count(o)==1,(i,f,o,s.count(o)); open(f'{W}/{f}','w').write(s.replace(o,n))
    g=sh(f'gofmt -l {W}/pkg {W}/internal {W}/cmd').stdout; 
    if g: print(i,'GOFMT',g); sh(f'gofmt -w {g.replace(chr(10)," ")}')
    p=sh(f'git -C {W} diff').stdout; open(f'{out}/patch.diff','w').write(p)
    # removed lines must be original
    f=None;minus=0
    for l in p.splitlines():
        if l.startswith('--- a/'): f=l[6:]
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m[1]); continue
        if l.startswith('-') and not l.startswith('---'):
            o,t=base_lines(f)[n-1]; minus+=1
            if not o: print(i,'NOT ORIGINAL',f,n,l)
            n+=1
        elif l.startswith(' '): n+=1
    if not minus: print(i,'no removed line')
    shutil.copytree('/verif/stubs',f'{out}/stubs')
    lx=f'{out}/stubs/libxml/libxml.go'; y=open(lx).read().replace('verif.local/simrt/os','os'); open(lx,'w').write(y)
    for o,n in ns.get('LIBXML',[]):
        y=open(lx).read(); assert o in y; open(lx,'w').write(y.replace(o,n))
    open(f'{out}/demo.sh','w').write(DEMO_SH.replace('RACE','-race ' if ns.get('RACE') else '')); os.chmod(f'{out}/demo.sh',0o755)
    open(f'{out}/demo.go.txt','w').write(ns['DEMO'])
    json.dump({"property":ns['PROP'],"needs":ns['NEEDS'],"what_it_breaks":ns['BREAKS']},open(f'{out}/meta.json','w'),indent=1)
    t=shutil.copytree(out,'/tmp/seed/x',dirs_exist_ok=False) if not os.path.exists('/tmp/seed/x') else None
    a=sh('bash /tmp/seed/x/demo.sh',cwd='/repo')
    b=sh('bash /tmp/seed/x/demo.sh',cwd=W)
    shutil.rmtree('/tmp/seed/x')
    env="sed 's#cd /repo#cd "+W+"#' /opt/vp/env.sh > /tmp/seed/env.sh; . /tmp/seed/env.sh; "
    c=sh("bash -c '"+env.replace("'","'\\''")+"go build $PKGS && go test -json -vet=off -count=1 $PKGS'",cwd=W)
    res={}
    for l in c.stdout.splitlines():
        try: e=json.loads(l)
        except: continue
        if e.get('Test') and e.get('Action') in('pass','fail'): res[(e['Package'],e['Test'])]=e['Action']
    bad=[k for k,v in res.items() if v=='fail']
    d=sh(f'bash /tmp/ut.sh {W} 400'); ut=[l for l in d.stdout.splitlines() if l.startswith('--- FAIL') and 'TestLoader_' not in l or 'build failed' in l]
    print(f"{i}: clean {a.returncode} patched {b.returncode} tests {len(res)} failed {bad} index tests {ut}")
    print('   patched says:',' | '.join(b.stdout.strip().splitlines()[-3:])[:300])
    if a.returncode: print('   CLEAN says:',a.stdout[-800:])
