#!/usr/bin/env python3
"""tryplants.py [-a] [-m MULT] [-j N] DIR...: runs the check of its property (-a: all checks) on each planted bug, through overlays.
DIR: folders with patch.diff and meta.json (default: all of /verif/seeded). Leaves /repo alone."""
import json, os, subprocess, sys, threading, queue, tempfile, shutil, glob, getopt
o,dirs=getopt.getopt(sys.argv[1:],'am:j:'); o=dict(o)
ALL='-a' in o; NW=int(o.get('-j','3')); MULT=o.get('-m','1')
dirs=dirs or sorted(glob.glob('/verif/seeded/*/'))
dirs=[d if '/' in d else '/verif/seeded/'+d for d in dirs]
IDS=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',VMON_MULT=MULT,VMON_NOSHRINK='1')
work=tempfile.mkdtemp(prefix='tp-',dir='/tmp'); H='/verif/harness'
q=queue.Queue(); [q.put(d.rstrip('/')) for d in dirs]
lock=threading.Lock()
def run(cmd,t,e,cwd):
    p=subprocess.Popen(cmd,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True,text=True,errors='replace')
    try: o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait(); return 99,''
def worker(i):
    w=f'{work}/{i}'; os.makedirs(w+'/root'); os.makedirs(w+'/tmp')
    for f in ('dict_base.json','known_findings.json','properties.jsonl'): shutil.copy('/verif/'+f,w+'/root')
    for f in ('go.mod','go.sum'): shutil.copy(H+'/'+f,w)
    while True:
        try: d=q.get_nowait()
        except queue.Empty: return
        b=os.path.basename(d); p=json.load(open(d+'/meta.json'))['property']
        s=w+'/src'; shutil.rmtree(s,ignore_errors=True); os.makedirs(s)
        r,out=run(f'git -C /repo archive HEAD | tar x -C {s} && git -C {s} init -q && git -C {s} apply {d}/patch.diff && git -C {s} apply --numstat {d}/patch.diff',60,env,'/')
        if r!=0: print(b,'DOES NOT APPLY',out); continue
        files=[l.split('\t')[2] for l in out.strip().split('\n') if '\t' in l]
        ov=w+'/o.json'; json.dump({'Replace':{'/repo/'+f:s+'/'+f for f in files}},open(ov,'w'))
        e=dict(env,VMON_ROOT=w+'/root',VMON_CLI=w+'/html2markdown',TMPDIR=w+'/tmp')
        r,out=run(f'cd /repo && go build -overlay {ov} -buildvcs=false -ldflags "-X main.version=9.9.9" -o {w}/html2markdown ./cli/html2markdown',200,e,'/repo')
        if r: print(b,'NO BUILD',out[-300:]); continue
        caught=[];odd=[]
        ids=[p]+([i for i in IDS if i!=p] if ALL else [])
        race=None
        for c in ids:
            want=c in ('C04','C05')
            if want!=race:
                run(f'go build {"-race" if want else ""} -overlay {ov} -modfile={w}/go.mod -o {w}/vmon ./vmon',300,e,H); race=want
            r,out=run(f'{w}/vmon check {c}',900,e,H)
            if r==1 and 'VIOLATION property='+c in out: caught.append(c)
            elif r!=0: odd.append(f'{c}:rc{r}')
            if c==p: first=out
        with lock: print(b,p,'CAUGHT' if p in caught else 'MISSED',*caught,*odd,'' if p in caught else first[-200:],flush=True)
ts=[threading.Thread(target=worker,args=(i,)) for i in range(NW)]
[t.start() for t in ts];[t.join() for t in ts]
shutil.rmtree(work)
