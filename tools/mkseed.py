import os, json, subprocess, tempfile, shutil, textwrap
S='/verif/seeded'
ORIG=subprocess.run(['git','-C','/repo','log','--reverse','--format=%H'],capture_output=True,text=True).stdout.split()[0]
def blame(f):
    out=subprocess.run(['git','-C','/repo','blame','-s','-l','--root',f],capture_output=True,text=True).stdout.split('\n')
    return [l.lstrip('^').startswith(ORIG[:38]) for l in out]
DEMO='''#!/bin/bash
# Runs the demonstration beside this file in the package it is about. cwd: the repository.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export HOME=/root GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=mod GONOSUMDB='*'
export PATH="$GOROOT/bin:$PATH" TMPDIR="$t"
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
m=/repo; [ -f "$repo/go.mod" ] && m=$repo; [ -f "$m/go.mod" ] || m=/opt/vp/mod
cp "$m/go.mod" "$m/go.sum" "$t/"
%(stub)secho "{\\"Replace\\": {\\"$repo/%(pkg)s/zz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$t/overlay.json"
timeout 250 go test -vet=off -count=1 %(race)s-modfile "$t/go.mod" -overlay "$t/overlay.json" -run '^TestDemo' -timeout 240s ./%(pkg)s
'''
STUB='''mkdir -p "$t/stub"
printf 'module sourcegraph.com/sourcegraph/appdash-data\\n\\ngo 1.21\\n' > "$t/stub/go.mod"
printf 'package data\\n\\nimport (\\n\\t"errors"\\n\\t"net/http"\\n)\\n\\ntype empty struct{}\\n\\nfunc (empty) Open(string) (http.File, error) { return nil, errors.New("none") }\\n\\nvar Data http.FileSystem = empty{}\\n' > "$t/stub/data.go"
printf '\\nrequire sourcegraph.com/sourcegraph/appdash-data v0.0.0\\n\\nreplace sourcegraph.com/sourcegraph/appdash-data => %s\\n' "$t/stub" >> "$t/go.mod"
'''
def seed(id, prop, edits, needs, breaks, pkg, demo, race=False, stub=None, script=None):
    """edits: list of (file, old, new)"""
    d=os.path.join(S,id)
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    w=tempfile.mkdtemp(prefix='mkseed-')
    try:
        subprocess.run(['git','-C','/repo','worktree','add','-q','--detach',w+'/r','HEAD'],check=True)
        for f,old,new in edits:
            p=os.path.join(w,'r',f); s=open(p).read()
            assert s.count(old)==1,(id,f,s.count(old),old)
            a=s[:s.index(old)].count('\n'); b=a+old.count('\n')
            s2=s.replace(old,new); open(p,'w').write(s2)
        diff=subprocess.run(['git','-C',w+'/r','diff'],capture_output=True,text=True).stdout
        open(d+'/patch.diff','w').write(diff)
        # which lines are removed: must be original
        cur=None; ln=0; removed=0; bad=[]
        for l in diff.split('\n'):
            if l.startswith('--- a/'): cur=l[6:]; bl=blame(cur)
            elif l.startswith('@@'): ln=int(l.split()[1].split(',')[0][1:])
            elif l.startswith('-') and not l.startswith('---'):
                removed+=1
                if not bl[ln-1]: bad.append((cur,ln,l))
                ln+=1
            elif l.startswith(' '): ln+=1
        if bad: print(id,'touches lines of fixes:',bad)
        if not removed: print(id,'note: only adds lines')
        fm=subprocess.run(['/opt/veriftools/go1.27.3/bin/gofmt','-l']+[os.path.join(w,'r',f) for f,_,_ in edits if f.endswith('.go')],capture_output=True,text=True).stdout
    finally:
        subprocess.run(['git','-C','/repo','worktree','remove','--force',w+'/r'])
        shutil.rmtree(w,ignore_errors=True)
    if stub is None: stub = pkg.startswith(('traceapp','cmd'))
    open(d+'/demo.sh','w').write(script or DEMO%dict(pkg=pkg or '.',race='-race ' if race else '',stub=STUB if stub else ''))
    os.chmod(d+'/demo.sh',0o755)
    if demo: open(d+'/demo_test.go','w').write(demo.lstrip('\n'))
    json.dump(dict(property=prop,needs=' '.join(needs.split()),what_it_breaks=' '.join(breaks.split())),open(d+'/meta.json','w'),indent=1)
    print('made',id)
