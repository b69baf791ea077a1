import sys,os,subprocess,re,json,collections
VD=sys.argv[1]; sys.path.insert(0,VD); sys.argv=sys.argv[:1]+sys.argv[2:]
import check
from props import PROPS
from concurrent.futures import ThreadPoolExecutor
check.CACHE='/tmp/w/cov/cache'; check.MODES['virt'][1].append('-fsanitize-coverage=trace-pc')
orig=check.compile_obj
check.MODES['virt']=(check.MODES['virt'][0],check.MODES['virt'][1],check.MODES['virt'][2]+['/tmp/w/cov/cov.o'],check.MODES['virt'][3])
N=int(os.environ.get('N','2000'))
units={}
for p in sorted(PROPS):
    if sys.argv[1:] and p not in sys.argv[1:]: continue
    if p=='C31': continue
    for u in PROPS[p]['units']:
        u.setdefault('defs',[]); u.setdefault('mode','virt')
        if u['mode']=='virt': units[u['name']]=u
def one(u):
    b=check.build(u); d='/tmp/w/cov/d/'+u['name']; subprocess.run(['rm','-rf',d]); os.makedirs(d)
    ps=[]
    r=subprocess.run([b,'--seed','77','--count',str(N),'--cpu','0','--max-s','60','--tier','0'],stdout=subprocess.PIPE,stderr=subprocess.PIPE,env=dict(os.environ,COVDIR=d))
    hit=set()
    for f in os.listdir(d):
        import mmap
        data=open(d+'/'+f,'rb').read(); i=data.find(1)
        while i>=0: hit.add(i+0x400000); i=data.find(1,i+1)
    subprocess.run(['rm','-rf',d])
    dis=subprocess.run("objdump -d --no-show-raw-insn %s | grep -A1 'call.*__sanitizer_cov_trace_pc'"%b,shell=True,stdout=subprocess.PIPE).stdout.decode()
    sites=[]; nxt=False
    for l in dis.splitlines():
        m=re.match(r'\s*([0-9a-f]+):',l)
        if '__sanitizer_cov_trace_pc' in l and 'call' in l:
            if nxt and m: sites.append(int(m.group(1),16))
            nxt=True
        elif nxt and m: sites.append(int(m.group(1),16)); nxt=False
    inp='\n'.join('0x%x'%(a) for a in sites)
    o=subprocess.run(['addr2line','-e',b],input=inp.encode(),stdout=subprocess.PIPE).stdout.decode().splitlines()
    res={}
    for a,l in zip(sites,o):
        m=re.match(r'(.*/repo/|.*/e/|.*/r2/)((?:include|src)/.*):(\d+)',os.path.normpath(l.split(' (')[0])) 
        if not m: continue
        k=(m.group(2),int(m.group(3))); res[k]=res.get(k,False) or (a in hit)
    print(u['name'],len(sites),len(hit),len(res),sum(res.values()),r.returncode,flush=True)
    return res
tot={}
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one,units.values()):
        for k,v in r.items(): tot[k]=tot.get(k,False) or v
json.dump([[k[0],k[1],v] for k,v in sorted(tot.items())],open('/tmp/w/cov/cov.json','w'))
print(len(tot),sum(tot.values()))
