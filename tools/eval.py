#!/usr/bin/env python3
# eval.py [-d] [-c] ids...   -d demos only  -c checks only
import sys,os,subprocess,json,shutil,time
a=[x for x in sys.argv[1:] if not x.startswith('-')]; o=[x for x in sys.argv[1:] if x.startswith('-')]
S=os.environ.get('SEEDD','/verif/seeded')
ids=[i for i in sorted(os.listdir(S)) if not a or any(i.startswith(x) for x in a)]
for i in ids:
    m=json.load(open(f'{S}/{i}/meta.json')); W=f'/tmp/w/e'
    subprocess.run(['rm','-rf','/tmp/w/e']); subprocess.check_call(['git','clone','-q',os.environ.get('SRC','/repo'),W])
    out=[i,m['property']]
    if '-c' not in o:
        t=time.time(); r=subprocess.run(['bash',f'{S}/{i}/demo.sh'],cwd=W,stdout=subprocess.PIPE,stderr=subprocess.STDOUT); out.append('clean=%d(%.0fs)'%(r.returncode,time.time()-t))
        if r.returncode: print(r.stdout.decode()[-800:])
    r=subprocess.run(['git','apply',f'{S}/{i}/patch.diff'],cwd=W); 
    if r.returncode: out.append('NOAPPLY')
    if '-c' not in o:
        t=time.time(); r=subprocess.run(['bash',f'{S}/{i}/demo.sh'],cwd=W,stdout=subprocess.PIPE,stderr=subprocess.STDOUT); out.append('bug=%d(%.0fs) %s'%(r.returncode,time.time()-t,r.stdout.decode().strip()[-150:]))
    if '-d' not in o:
        t=time.time(); r=subprocess.run(['python3',os.environ.get('CHK','/verif/check.py'),m['property'],'--tier','quick'],env=dict(os.environ,VERIF_REPO=W),stdout=subprocess.PIPE,stderr=subprocess.STDOUT); L=r.stdout.decode()
        v=[l for l in L.splitlines() if l.startswith(('violation','CHECK-ERROR'))]; out.append('check=%d(%.0fs) %s'%(r.returncode,time.time()-t,(v[0][:220] if v else '')))
    print(' | '.join(out),flush=True)
