#!/usr/bin/env python3
"""Tries small changes of /repo against its tests and the checks (on copies).
drive.py OUT.jsonl [file=lexer.go] [func=x] [jobs=8] [div=8] [sample=1.0] [line=a-b]
Each line of OUT: the change, and its fate: nobuild, test, <property>, or SURVIVED."""
import shlex,sys,json,subprocess,os,shutil,random,time,tempfile,threading,queue
opt=dict(a.split('=',1) for a in sys.argv[2:]); OUT=sys.argv[1]
JOBS=int(opt.get('jobs',8)); DIV=int(opt.get('div',8))
ENV=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=readonly',GOMAXPROCS='2')
first={
 'lexer.go':'P28 P01 P02 P05 P20 P14','eval.go':'P09 P32 P13 P14 P15 P10 P16','gettypes.go':'P18 P33 P19','graph.go':'P11 P12 P03 P10',
 'binary.go':'P04 P06 P07','flow.go':'P14','template.go':'P14','html.go':'P30','encoding.go':'P22 P21','function.go':'P15 P14',
 'ogdlrf/server.go':'P26 P27','ogdlrf/client.go':'P26 P27','ogdlrf/function.go':'P26 P27','io/gxml/xml.go':'P23 P31','cmd/xml2ogdl/main.go':'P31',
 'expression.go':'P13 P14','block.go':'P01','event.go':'P29 P01','log.go':'P07 P08','schema.go':'P24','cmd/gpath/main.go':'P31',
 'parser.go':'P01 P20','cmd/json2ogdl/main.go':'P31','cmd/gtemplate/main.go':'P31','sort.go':'P25'}
rel={
 'lexer.go':'P28 P01 P02 P05 P20 P14 P13 P09 P03 P31','block.go':'P01 P02 P03 P28 P05 P20','parser.go':'P01 P20 P02 P05 P29 P14 P31 P17','event.go':'P29 P01 P28 P14 P13 P05',
 'eval.go':'P09 P32 P13 P14 P15 P10 P16 P19 P05 P17 P25','gettypes.go':'P18 P33 P19 P05 P15 P14 P25','graph.go':'P11 P12 P03 P10 P09 P16 P19 P30 P29 P24 P14 P05',
 'binary.go':'P04 P06 P07 P08 P12 P16 P02 P26','flow.go':'P14 P13 P05 P16 P02 P15','template.go':'P14 P13 P05 P16 P17 P15 P31','html.go':'P30 P16 P17 P19',
 'encoding.go':'P22 P21 P05 P16 P19 P31','function.go':'P15 P14 P16 P05 P17 P19','expression.go':'P13 P14 P09 P10 P15 P05 P16','log.go':'P07 P08 P34 P19',
 'schema.go':'P24 P16 P19 P05','sort.go':'P25 P16 P05','vars.go':'P14 P15','doc.go':''}
RACE={'P17','P26','P27'}
def sh(cmd,cwd,env,timeout):
    p=subprocess.Popen('exec taskset -c %s bash -c %s'%(env['CPU'],shlex.quote(cmd)),shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True)
    try:
        o,_=p.communicate(timeout=timeout); return p.returncode,o
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid,9)
        except: pass
        p.communicate()
        return -9,'timeout'
def setup(k):
    B=f'/tmp/mut{k}'; shutil.rmtree(B,ignore_errors=True); os.makedirs(B)
    subprocess.run(f'cp -a /repo {B}/repo; cd {B}/repo && git checkout -q -- .; mkdir -p {B}/verif/evidence {B}/verif/replays {B}/tmp; cp -a /verif/harness /verif/*.json /verif/*.jsonl {B}/verif/; sed -i "s#=> /repo#=> {B}/repo#" {B}/verif/harness/go.mod',shell=True)
    return B
import re,glob
counts={}
for f in glob.glob('/verif/harness/props/*.go'):
    for m in re.finditer(r'ID: *"(P\d+)".*?Quick: *(\d+)',open(f).read(),re.S): counts[m.group(1)]=int(m.group(2))
def fate(c,B,env):
    R=B+'/repo'; p=R+'/'+c['File']; src=open(p,'rb').read()
    new=src[:c['Off']]+c['Repl'].encode()+src[c['End']:]
    if new==src: return 'same'
    try:
        open(p,'wb').write(new)
        r,o=sh('go build ./...',R,env,120)
        if r: return 'nobuild'
        r,o=sh('go test -vet=off -count=1 -timeout 15s ./...',R,env,60)
        if r: return 'test'
        H=B+'/verif/harness'
        r,o=sh(f'go build -o {B}/vh .',H,env,200)
        if r: return 'harness: '+o[-300:]
        order=first.get(c['File'],'').split()
        order+= [x for x in rel.get(c['File'],'').split() if x not in order]
        if c['File'].startswith('cmd/'): order=['P31']
        elif c['File'].startswith('ogdlrf/'): order=['P26','P27','P34']
        elif c['File'].startswith('io/'): order=['P23','P31','P05']
        for x in order:
            n=max(8,counts[x]//DIV)
            vh=f'{B}/vh'
            r,o=sh(f'{vh} run -prop {x} -tier quick -seed 1 -root {B}/verif -repo {R} -n {n}',H,env,300)
            if r==1 and 'VIOLATION' in o: return x
            if r==-9: return x+' timeout'
            if r!=0 and r!=3: return x+' exit %d'%r
        return 'SURVIVED'
    finally:
        open(p,'wb').write(src)
def main():
    fs=opt['file'].split(',') if 'file' in opt else None
    done=set()
    if os.path.exists(OUT):
        for l in open(OUT):
            d=json.loads(l); done.add((d['File'],d['Off'],d['End'],d['Repl']))
    files=subprocess.run("git ls-files '*.go' | grep -v _test.go",shell=True,cwd='/repo',capture_output=True,text=True).stdout.split()
    L=[json.loads(l) for l in subprocess.run(['/tmp/mutate']+files,cwd='/repo',capture_output=True,text=True).stdout.split('\n') if l]
    L=[c for c in L if (not fs or c['File'] in fs) and (c['File'],c['Off'],c['End'],c['Repl']) not in done]
    if 'only' in opt:
        want={(d['File'],d['Off'],d['End'],d['Repl']) for d in map(json.loads,open(opt['only'])) if d['Fate'] in('SURVIVED',)}
        L=[c for c in L if (c['File'],c['Off'],c['End'],c['Repl']) in want]
    random.Random(int(opt.get('rnd',1))).shuffle(L)
    L=L[:int(len(L)*float(opt.get('sample',1)))]
    q=queue.Queue()
    for c in L: q.put(c)
    lock=threading.Lock(); out=open(OUT,'a'); stat={}
    def work(k):
        B=setup(k)
        env=dict(ENV,TMPDIR=B+'/tmp',GOCACHE=f'/tmp/mutcache',CPU=str(k),GOMAXPROCS='2')
        while True:
            try: c=q.get_nowait()
            except queue.Empty: break
            t=time.time()
            try: f=fate(c,B,env)
            except Exception as e: f='error '+str(e)
            subprocess.run(f'rm -rf {B}/tmp/*',shell=True)
            c['Fate']=f; c['Secs']=round(time.time()-t,1)
            with lock:
                out.write(json.dumps(c)+'\n'); out.flush()
                stat[f]=stat.get(f,0)+1
                n=sum(stat.values())
                if n%100==0: print(n,'of',len(L),stat,flush=True)
        shutil.rmtree(B,ignore_errors=True)
    th=[threading.Thread(target=work,args=(k,)) for k in range(JOBS)]
    for t in th: t.start()
    for t in th: t.join()
    print(stat)
main()
