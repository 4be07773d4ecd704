"""List planted bugs whose patch changes only lines that commits to /repo added."""
import subprocess,os,re
os.chdir('/verif')
base='80ae8be'
for i in sorted(os.listdir('seeded')):
    f=None; ok=False; adds=0; rem=0
    for l in open(f'seeded/{i}/patch.diff'):
        if l.startswith('--- a/'):
            f=l[6:].strip()
            old=set(x.strip() for x in subprocess.run(['git','-C','/repo','show',f'{base}:{f}'],capture_output=True,text=True).stdout.split('\n'))
        elif l.startswith('-') and not l.startswith('---'):
            rem+=1
            if l[1:].strip() and l[1:].strip() in old: ok=True
        elif l.startswith('+') and not l.startswith('+++'): adds+=1
    if not ok: print(i, 'removed',rem,'added',adds)
