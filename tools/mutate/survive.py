#!/usr/bin/env python3
"""survive.py MUTANTS OUT: runs build and tests on every mutant through an overlay; writes the survivors."""
import json, os, subprocess, sys, threading, queue, tempfile
ms=[json.loads(l) for l in open(sys.argv[1])]
ms=[m for m in ms if '/internal/tester/' not in m['file']]
done=set()
if os.path.exists(sys.argv[2]):
    for l in open(sys.argv[2]):
        d=json.loads(l); done.add((d['file'],d['Start'],d['End'],d['new']))
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOMAXPROCS='2')
q=queue.Queue(); [q.put(m) for m in ms if (m['file'],m['Start'],m['End'],m['new']) not in done]
lock=threading.Lock(); out=open(sys.argv[2],'a')
work=tempfile.mkdtemp(prefix='mut-',dir='/tmp')
def run(cmd,t):
    p=subprocess.Popen(cmd,shell=True,cwd='/repo',env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True)
    try: o,_=p.communicate(timeout=t); return p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait(); return 99
def worker(i):
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        src=open(m['file'],'rb').read()
        f=f'{work}/{i}.go'; open(f,'wb').write(src[:m['Start']]+m['new'].encode()+src[m['End']:])
        ov=f'{work}/{i}.json'; json.dump({'Replace':{m['file']:f}},open(ov,'w'))
        st='survived'
        if run(f'go build -overlay {ov} -p 2 ./...',120)!=0: st='nobuild'
        else:
            r=run(f'ulimit -v 16000000; go test -overlay {ov} -vet=off -p 2 -timeout 12s ./...',60)
            if r!=0: st='killed'
        m['st']=st
        with lock: out.write(json.dumps(m)+'\n'); out.flush()
ts=[threading.Thread(target=worker,args=(i,)) for i in range(8)]
[t.start() for t in ts];[t.join() for t in ts]
import shutil; shutil.rmtree(work)
