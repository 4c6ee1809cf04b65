"""Authoring tool for planted bugs: seed.py BATCH.py builds each of them in a
scratch copy of /repo, confirms it and writes /verif/seeded/<id>/. Not used by
any check."""
import json, os, shutil, subprocess, sys, tempfile
BASE='998faec'
DEMO='''#!/bin/bash
# Runs main.go (beside this file) against the bibtex module in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s/zzdemo/main.go": "%%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
CGO_ENABLED=%(cgo)s go build %(race)s -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 3
cd "$tmp" && timeout 100 ./demo
'''
def run(cmd,**k): return subprocess.run(cmd,shell=True,capture_output=True,text=True,**k)
def test(wt):
    t=tempfile.mktemp()
    r=run(f'cd {wt} && . /opt/vp/env.sh && go build ./... && go vet ./... >/dev/null; go test -json ./... > {t}')
    passed=set()
    for l in open(t):
        try: d=json.loads(l)
        except Exception: continue
        if d.get('Action')=='pass' and d.get('Test'): passed.add((d['Package'],d['Test']))
    failed=[]
    for l in open(t):
        try: d=json.loads(l)
        except Exception: continue
        if d.get('Action')=='fail': failed.append(d.get('Package','')+'/'+(d.get('Test') or ''))
        if d.get('Action')=='build-fail': failed.append('BUILD')
    os.unlink(t)
    return len(passed),failed,r.stderr
def touch(bug, wt):
    # Pure insertions: rewrite the nearest original line as well.
    f=bug['edits'][0][0]; p=f'{wt}/{f}'
    import re
    m=re.search(r'^@@ -(\d+)',run(f'git -C {wt} diff -U0 -- {f}').stdout,re.M); at=int(m[1])
    orig={int(x.split()[2 if len(x.split())>2 and x.split()[1][0].isalpha() else 1].rstrip(')')):x for x in run(f'git -C {wt} blame -s HEAD -- {f}').stdout.splitlines() if x.startswith('^998faec') or x.startswith(BASE)}
    lines=run(f'git -C {wt} show HEAD:{f}').stdout.split('\n')
    cand=sorted((abs(n-at),n) for n in orig)
    cur=open(p).read()
    for _,n in cand:
        l=lines[n-1]
        if l.strip() and '//' not in l and l.rstrip()[-1] in '{)' and '`' not in l and cur.count('\n'+l+'\n')==1:
            open(p,'w').write(cur.replace('\n'+l+'\n','\n'+l+' // '+bug['touch']+'\n')); return
def plant(bug, wt):
    run(f'git -C {wt} checkout -q -- . && git -C {wt} clean -fdq')
    for f,old,new in bug['edits']:
        p=f'{wt}/{f}'; s=open(p).read()
        if s.count(old)!=1: return f'edit matches {s.count(old)} times: {f}: {old[:60]!r}'
        open(p,'w').write(s.replace(old,new))
    if bug.get('touch'): touch(bug,wt)
    # removed lines must include an original one
    d=run(f'git -C {wt} diff -U0').stdout
    orig=0
    import re
    f=None
    for l in d.splitlines():
        if l.startswith('--- a/'): f=l[6:]
        m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
        if m:
            a=int(m[1]); n=1 if m[2] is None else int(m[2])
            if n:
                b=run(f'git -C {wt} blame -s -L {a},{a+n-1} HEAD -- {f}').stdout
                orig+=sum(1 for x in b.splitlines() if x.startswith('^998faec') or x.startswith(BASE))
    if not orig: return 'no original line is changed'
    g=run(f'cd {wt} && . /opt/vp/env.sh && gofmt -l .').stdout
    if g: run(f'cd {wt} && . /opt/vp/env.sh && gofmt -w {" ".join(g.split())}')
    n,failed,err=test(wt)
    if failed: return f'tests fail: {failed[:6]} {err[-800:]}'
    out=f'/verif/seeded/{bug["id"]}'
    shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    open(out+'/main.go','w').write(bug['demo'])
    run(f'. /opt/vp/env.sh; gofmt -w {out}/main.go')
    open(out+'/demo.sh','w').write(DEMO%({'cgo':1,'race':'-race'} if bug.get('race') else {'cgo':0,'race':''}))
    os.chmod(out+'/demo.sh',0o755)
    json.dump({'property':bug['property'],'needs':bug['needs'],'what_it_breaks':bug['breaks']},open(out+'/meta.json','w'),indent=1)
    open(out+'/patch.diff','w').write(run(f'git -C {wt} diff').stdout)
    r=run(f'bash {out}/demo.sh',cwd=wt)
    run(f'git -C {wt} checkout -q -- .')
    r0=run(f'bash {out}/demo.sh',cwd=wt)
    if r0.returncode!=0: shutil.rmtree(out); return f'demo fails on the clean tree: {r0.stdout[-600:]} {r0.stderr[-600:]}'
    if r.returncode in (0,3): shutil.rmtree(out); return f'demo gives {r.returncode} with the bug: {r.stdout[-600:]} {r.stderr[-600:]}'
    return 'ok '+(r.stdout.strip().splitlines() or [''])[0][:150]
def main(bugs):
    only=sys.argv[1:]
    wt=tempfile.mkdtemp(prefix='seedwt.')
    run(f'rm -r {wt} && git clone -q /repo {wt}')
    for b in bugs:
        if only and b['id'] not in only: continue
        print(b['id'],plant(b,wt),flush=True)
    shutil.rmtree(wt)
