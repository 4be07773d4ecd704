#!/usr/bin/env python3
"""detect.py SURVIVORS OUT [MULT]: runs the checks against every surviving mutant (through overlays) until one reports a violation."""
import json, os, subprocess, sys, threading, queue, tempfile, shutil, random
MULT=sys.argv[3] if len(sys.argv)>3 else '0.2'
NW=int(os.environ.get('NW','4'))
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOMAXPROCS=str(8//NW),VMON_MULT=MULT,VMON_NOSHRINK='1')
env.pop('VERIF_SEED',None)
MD='C10 C16 C24 C17 C19 C20 C21 C22 C23 C14 C15 C26 C13 C28 C09 C25 C11 C12 C27 C08 C29 C35 C36'.split()
def order(f):
    if os.environ.get('CHECKS'): return os.environ['CHECKS'].split()
    b=f.replace('/repo/','')
    if b.startswith('cli/'): return 'C30 C31 C32 C33 C34'.split()
    first=[]
    if b.startswith('collapse'): first=['C27','C26','C13']
    elif 'url.go' in b: first=['C18','C17']
    elif b.startswith('converter') : first='C07 C06 C29 C05 C35 C36 C03 C11 C12 C04'.split()
    elif b=='convert.go': first='C03 C07 C08 C04'.split()
    elif 'table' in b: first='C23 C08 C09 C10 C02'.split()
    elif 'strike' in b: first='C24 C08 C10'.split()
    elif 'list' in b: first='C21 C14 C25'.split()
    elif 'codefence' in b or 'render_code' in b or 'collapse_code' in b or 'empty_code' in b: first='C19 C20 C08'.split()
    elif 'options' in b or 'validation' in b or 'commonmark.go' in b: first=['C08']
    elif 'heading' in b: first=['C15','C11']
    elif 'link' in b or 'image' in b or 'quote.go' in b or 'multiline' in b: first=['C17','C08','C16']
    elif 'blockquote' in b or 'prefix' in b: first=['C22']
    elif 'base/' in b: first=['C29','C26','C12']
    elif 'escape/' in b: first=['C10','C24','C23']
    rest=[c for c in MD+['C18','C01','C03','C06','C07','C05','C02'] if c not in first]
    if os.environ.get('FEW'): rest=[c for c in 'C25 C26 C28 C08 C09 C16 C17 C23 C10'.split() if c not in first]
    if os.environ.get('FIRST'): rest=[c for c in 'C10 C16'.split() if c not in first]
    return first+rest
ms=[json.loads(l) for l in open(sys.argv[1])]
ms=[m for m in ms if m.get('st')=='survived']
random.Random(1).shuffle(ms)
key=lambda m:(m['file'],m['Start'],m['End'],m['new'])
done={key(json.loads(l)) for l in open(sys.argv[2])} if os.path.exists(sys.argv[2]) else set()
q=queue.Queue(); [q.put(m) for m in ms if key(m) not in done]
print(q.qsize(),'to do',flush=True)
lock=threading.Lock(); out=open(sys.argv[2],'a')
work=tempfile.mkdtemp(prefix='mut-',dir='/tmp')
REPO=os.environ.get('REPO','/repo')
HARNESS=os.environ.get('HARNESS','/verif/harness')
def run(cmd,t,e,cwd):
    p=subprocess.Popen(cmd,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True,text=True,errors='replace')
    try: o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait(); return 99,''
def worker(i):
    w=f'{work}/{i}'; os.makedirs(w+'/root')
    shutil.copy('/verif/dict_base.json',w+'/root'); shutil.copy('/verif/known_findings.json',w+'/root'); shutil.copy('/verif/properties.jsonl',w+'/root')
    for f in ('go.mod','go.sum'): shutil.copy(HARNESS+'/'+f,w)
    os.makedirs(w+'/tmp')
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        path=m['file'].replace('/repo/',REPO+'/',1); src=open(path,'rb').read()
        f=f'{w}/m.go'; open(f,'wb').write(src[:m['Start']]+m['new'].encode()+src[m['End']:])
        ov=f'{w}/o.json'; json.dump({'Replace':{path:f}},open(ov,'w'))
        e=dict(env,VMON_ROOT=w+'/root',VMON_CLI=w+'/html2markdown',TMPDIR=w+'/tmp')
        cli='/cli/' in m['file']
        r,o=run(f'go build -overlay {ov} -modfile={w}/go.mod -o {w}/vmon ./vmon',200,e,HARNESS)
        if r==0 : r,o=run(f'cd {REPO} && go build -overlay {ov} -buildvcs=false -ldflags "-X main.version=9.9.9" -o {w}/html2markdown ./cli/html2markdown',100,e,REPO)
        m['res']='undetected'; m['by']=''
        if r!=0: m['res']='nobuild'; m['by']=o[-300:]
        else:
            for c in order(m['file']):
                r,o=run(f'{w}/vmon check {c}',300,e,HARNESS)
                if r!=0 and 'no verdict' in o and 'distinct' in o: continue # small multiplier
                if r!=0:
                    m['res']='detected' if r==1 and 'VIOLATION' in o else f'rc{r}'
                    m['by']=c; m['what']=o[-400:] if r!=1 else ''
                    break
        shutil.rmtree(w+'/root/replays',ignore_errors=True)
        with lock: out.write(json.dumps(m)+'\n'); out.flush()
# the checks have to hold without a mutation
w=work+'/base'; os.makedirs(w+'/root'); os.makedirs(w+'/tmp')
for f in ('dict_base.json','known_findings.json','properties.jsonl'): shutil.copy('/verif/'+f,w+'/root')
for f in ('go.mod','go.sum'): shutil.copy(HARNESS+'/'+f,w)
e=dict(env,VMON_ROOT=w+'/root',VMON_CLI=w+'/html2markdown',TMPDIR=w+'/tmp')
r,o=run(f'go build -modfile={w}/go.mod -o {w}/vmon ./vmon && cd {REPO} && go build -buildvcs=false -ldflags "-X main.version=9.9.9" -o {w}/html2markdown ./cli/html2markdown',300,e,HARNESS)
if r: sys.exit(o)
for c in sorted({c for m in ms for c in order(m['file'])}):
    r,o=run(f'{w}/vmon check {c}',600,e,HARNESS)
    if r==1 and 'VIOLATION' in o: sys.exit('the unchanged tree fails '+c+'\n'+o[-600:])
print('the unchanged tree holds',flush=True)
ts=[threading.Thread(target=worker,args=(i,)) for i in range(NW)]
[t.start() for t in ts];[t.join() for t in ts]
shutil.rmtree(work)
