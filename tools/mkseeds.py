#!/usr/bin/env python3
"""Makes the folders of /verif/seeded out of tools/seeds/*.txt, and tries them.

mkseeds.py make [id...]    writes patch.diff, demo.sh, demo.go, meta.json (after confirming everything)
mkseeds.py check [id...]   runs the check of the property against each one (in copies of /repo and /verif)

A seed file has sections: === id property / needs / breaks / edit file / <<<< old ==== new >>>> / demo
"""
import sys,os,re,json,subprocess,shutil,tempfile,glob,time
V='/verif'; S=V+'/seeded'
ENV=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod')
DEMO='''#!/bin/bash
# Run in the repository: builds demo.go against it, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
T=$(mktemp -d /tmp/demo-XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
cp "$here/demo.go" "$T/main.go"
cp "$repo/go.sum" "$T/go.sum"
cat >"$T/go.mod" <<END
module demo

go 1.14

require (
	github.com/rveen/ogdl v0.0.0
	golang.org/x/text v0.3.8
)

replace github.com/rveen/ogdl => $repo
END
cd "$T" || exit 2
go build %s-o demo . || exit 3
%stimeout 100 ./demo
'''
def parse():
    out=[]
    for f in sorted(glob.glob(V+'/tools/seeds/*.txt')):
        for part in re.split(r'^=== ',open(f).read(),flags=re.M)[1:]:
            head,rest=part.split('\n',1)
            h=head.split()
            d={'id':h[0],'prop':h[1],'race':'race' in h[2:],'pre':'','edits':[]}
            m=re.search(r'^needs: (.*)$',rest,re.M); d['needs']=m.group(1)
            m=re.search(r'^breaks: (.*)$',rest,re.M); d['breaks']=m.group(1)
            m=re.search(r'^pre: (.*)$',rest,re.M)
            if m: d['pre']=m.group(1)+'\n'
            cur=None
            for m in re.finditer(r'^edit (\S+)\n<<<<\n(.*?)\n?====\n(.*?)\n?>>>>$',rest,re.M|re.S):
                d['edits'].append(m.groups())
            d['demo']=rest.split('\ndemo\n',1)[1]
            out.append(d)
    return out
def run(cmd,**k):
    return subprocess.run(cmd,shell=True,capture_output=True,text=True,env=ENV,**k)
def wrap(body):
    imps=[]
    lines=body.strip('\n').split('\n')
    while lines and lines[0].startswith('import '):
        imps.append(lines.pop(0)[7:])
    base=['"fmt"','"os"','"github.com/rveen/ogdl"']
    imps=base+[i for i in imps if i not in base]
    return 'package main\n\nimport (\n'+''.join('\t%s\n'%i for i in imps)+')\n\nvar _ = ogdl.New\n\nfunc fail(f string, a ...interface{}) {\n\tfmt.Printf(f+"\\n", a...)\n\tos.Exit(1)\n}\n\n'+'\n'.join(lines)+'\n'
def make(d):
    T=tempfile.mkdtemp(prefix='seed-',dir='/tmp')
    try:
        W=T+'/repo'
        run(f'git -C /repo worktree prune; cp -a /repo {W}')
        run('git checkout -- .',cwd=W)
        for f,old,new in d['edits']:
            p=W+'/'+f; s=open(p).read()
            if s.count(old)!=1: return f'{f}: old text occurs {s.count(old)} times: {old!r}'
            open(p,'w').write(s.replace(old,new))
            r=run(f'gofmt -l {f}',cwd=W)
            
        diff=run('git diff',cwd=W).stdout
        # removed lines must be original
        r=run("git diff -U0",cwd=W).stdout
        orig=0; notorig=[]
        cf=None
        for l in r.split('\n'):
            m=re.match(r'--- a/(.*)',l)
            if m: cf=m.group(1)
            m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
            if m:
                a=int(m.group(1)); n=int(m.group(2) or 1)
                for k in range(a,a+n):
                    b=run(f'git blame -s -L{k},{k} HEAD -- {cf}',cwd=W).stdout
                    if b.startswith('^'): orig+=1
                    else: notorig.append(f'{cf}:{k}')
        if notorig or orig==0: return f'not original lines: {notorig} ({orig} original)'
        D=T+'/x'; os.mkdir(D)
        open(D+'/patch.diff','w').write(diff)
        open(D+'/demo.go','w').write(wrap(d['demo']))
        open(D+'/demo.sh','w').write(DEMO%('-race ' if d['race'] else '', d['pre']))
        os.chmod(D+'/demo.sh',0o755)
        json.dump({'property':d['prop'],'needs':d['needs'],'what_it_breaks':d['breaks']},open(D+'/meta.json','w'),indent=1)
        run(f'gofmt -w {D}/demo.go')
        r=run('go vet ./... ; go build ./...',cwd=W)
        if r.returncode: return 'does not build: '+r.stderr[:800]
        # stable tests
        r=run('go test -json -vet=off -count=1 ./...',cwd=W)
        ok=set()
        for l in r.stdout.split('\n'):
            try: e=json.loads(l)
            except: continue
            if e.get('Test') and e['Action'] in('pass','fail'):
                if e['Action']=='fail': return 'test fails: '+e['Test']
                ok.add(e['Test'])
        if len(ok)<90: return f'{len(ok)} tests only'
        a=run(f'{D}/demo.sh',cwd=W)
        if a.returncode==0: return 'demo passes with the patch'
        if a.returncode==3: return 'demo does not build: '+a.stderr[:800]
        run('git checkout -- .',cwd=W)
        b=run(f'{D}/demo.sh',cwd=W)
        if b.returncode!=0: return 'demo fails without the patch: '+(b.stdout+b.stderr)[:800]
        if run(f'git apply --check {D}/patch.diff',cwd=W).returncode: return 'does not apply'
        shutil.rmtree(S+'/'+d['id'],ignore_errors=True)
        shutil.copytree(D,S+'/'+d['id'])
        return 'ok: '+(a.stdout+a.stderr).strip().split('\n')[0][:150]
    finally:
        shutil.rmtree(T,ignore_errors=True)
def check(i,props=None,seed='1'):
    """On copies of /repo and /verif, so that nothing else is disturbed."""
    m=json.load(open(f'{S}/{i}/meta.json'))
    T=tempfile.mkdtemp(prefix='seed-',dir='/tmp')
    try:
        W,X=T+'/repo',T+'/verif'
        run(f'cp -a /repo {W}; cd {W} && git checkout -- .; mkdir {X} {X}/evidence {X}/replays; cp -a {V}/harness {V}/check.sh {V}/tools {V}/*.json {V}/*.jsonl {X}/; sed -i "s#=> /repo#=> {W}#" {X}/harness/go.mod')
        if run(f'git apply {S}/{i}/patch.diff',cwd=W).returncode: return 'does not apply'
        res=[]
        env=dict(ENV,VERIF_SEED=seed)
        for p in props or [m['property']]:
            t=time.time()
            r=subprocess.run(f'./check.sh {p} -repo {W}',shell=True,capture_output=True,text=True,env=env,cwd=X)
            v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            res.append(f'{p} exit {r.returncode} {time.time()-t:.0f}s '+(v[0].split('/')[-1] if v else 'NOT CAUGHT' if p==m['property'] else '-'))
    finally:
        shutil.rmtree(T,ignore_errors=True)
    return '; '.join(res)
cmd=sys.argv[1]; ids=[a for a in sys.argv[2:] if '=' not in a]; opt=dict(a.split('=') for a in sys.argv[2:] if '=' in a)
if cmd=='make':
    from concurrent.futures import ThreadPoolExecutor
    L=[d for d in parse() if not ids or d['id'] in ids]
    with ThreadPoolExecutor(4) as ex:
        for d,r in zip(L,ex.map(make,L)): print(d['id'],d['prop'],r,flush=True)
elif cmd=='table':
    # table: what the check of its property makes of each planted bug, for DESIGN.md
    F=V+'/tools/seeds/results.json'
    res=json.load(open(F)) if os.path.exists(F) else {}
    res={i:r for i,r in res.items() if os.path.isdir(S+'/'+i)}
    for i in ids or [i for i in sorted(os.listdir(S)) if i not in res]:
        r=check(i,None,'1')
        p=json.load(open(f'{S}/{i}/meta.json'))['property']
        m=re.search(r'P\d+-quick-1-(\d+)\.json',r)
        res[i]=f'{p} (case {m.group(1)})' if m else p if ' exit 1 ' in r else 'not caught'
        print(i,r,flush=True)
        json.dump(res,open(F,'w'),indent=0,sort_keys=True)
else:
    for i in ids or sorted(os.listdir(S)):
        print(i,check(i,opt.get('props','').split(',') if opt.get('props') else None,opt.get('seed','1')),flush=True)
