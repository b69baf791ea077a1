import sys,os,subprocess,re,json,hashlib,random,shutil,time,threading
VD='/tmp/w/mut/v'; sys.path.insert(0,VD)
K=int(os.environ.get('WK','0')); W='/tmp/w/mut/w%d'%K; os.environ['VERIF_REPO']=W
import check; from props import PROPS
check.CACHE=W+'.cache'; check.BASE.append('-ffile-prefix-map=%s=/R'%W); check._slots=threading.Semaphore(1)
FRAC=float(os.environ.get('FRAC','0.2'))
MAP=[('pthread/mutex.hpp','C01 C03 C10 C34'),('pthread/recursive_mutex','C02 C03 C34'),('pthread/shared_mutex','C04 C05 C03'),('v2/shared_mutex','C06 C03'),('condition_variable','C07 C08 C13 C34'),('lock_algorithms','C09 C10'),('once','C11'),('src/pthread/thread.cpp','C12 C13 C14 C15 C32 C29 C07'),('thread_data','C12 C13 C14 C15 C32'),('detail/thread.hpp','C12 C13 C29 C34'),('thread_heap','C12'),('tss.hpp','C14'),('barrier','C16'),('latch','C17'),('counter','C17'),('future','C18 C19 C20 C21'),('wait_for_','C21'),('sync_bounded','C23'),('sync_priority','C24 C25'),('sync_timed','C25 C28'),('concurrent_queues','C22 C24'),('devector','C22'),('serial_exec','C27 C26'),('schedul','C28'),('executors','C26 C27 C28'),('nullary_function','C26'),('task_region','C33'),('exception_list','C33'),('thread_group','C29 C34'),('scoped_thread','C29'),('thread_guard','C29'),('thread_functors','C29'),('synchronized_value','C30'),('externally','C30'),('strict_lock','C30 C10'),('lockable_','C30'),('testable','C30'),('lock_','C10'),('reverse_lock','C10'),('platform_time','C03 C08 C32'),('pthread_','C01 C07 C34'),('invoke','C12'),('string_to','C12'),('exceptions','C12'),('xtime','C03')]
def props(f):
    for k,p in MAP:
        if k in f: return p.split()
    return []
def muts(f,src):
    L=src.split('\n'); out=[]; com=False
    for n,l in enumerate(L):
        s=l.strip()
        if com: 
            if '*/' in s: com=False
            continue
        if s.startswith('/*') and '*/' not in s: com=True; continue
        if not s or s.startswith(('#','//','BOOST_THREAD_','template','typedef','using','struct','class','public','private','friend','namespace','BOOST_ASSERT','BOOST_VERIFY','static_assert')): continue
        c=re.sub(r'//.*','',l)
        def add(x,op):
            if x!=l: out.append((n,x,op))
        # statement deletion
        m=re.match(r'^(\s*)((?:this->|[A-Za-z_:]+(?:<[^;]*>)?(?:\.|->|::)?)[^;{}]*\([^;{}]*\)\s*|[A-Za-z_][\w\.\->\[\]]*\s*[-+|&]?=\s*[^;{}=][^;{}]*|(?:\+\+|--)[^;]*|[^;(]*(?:\+\+|--))\s*;\s*$',c)
        if m and not re.match(r'\s*(return|throw|else|case|delete\s*$|virtual|explicit|inline|static|extern|typename|const)\b',c): add(m.group(1)+';','del')
        if re.match(r'^\s*(throw\b|boost::throw_exception)',c) : pass
        m=re.match(r'^(\s*)((?:boost::)?(?:unique_lock|lock_guard)\s*<\s*([\w:]+)\s*>\s*(\w+)\()([^;,]+)\);\s*$',c)
        if m and 'const' not in m.group(5): add('%s%s zz_; %szz_);'%(m.group(1),m.group(3),m.group(2)),'fakelock')
        if re.match(r'^\s*break;',c): add(c.replace('break;',';'),'del')
        for a,b,op in ((r'\bif\s*\((.*)\)(\s*\{?\s*(?:[^()]*;)?\s*)$',r'if(!(\1))\2','neg'),):
            add(re.sub(a,b,c,count=1),op)
        m=re.match(r'^(\s*)while\s*\((.*)$',c)
        if m and not m.group(2).rstrip().endswith(';'): add(m.group(1)+'if ('+m.group(2),'while-if')
        for a,b,op in ((r'(?<![<>=!-])<(?![<=a-zA-Z:])(?=\s)',' <=','rel'),(r' <= ',' < ','rel'),(r' >= ',' > ','rel'),(r' > ',' >= ','rel'),(r' == ',' != ','rel'),(r' != ',' == ','rel'),(r'==',' != ','rel'),(r'!=','==','rel'),(r'&&','||','rel'),(r'\|\|','&&','rel'),(r'return true\b','return false','ret'),(r'return false\b','return true','ret'),(r'notify_all','notify_one','notify'),(r'broadcast','signal','notify'),(r'=\s*true;','=false;','const'),(r'=\s*false;','=true;','const'),(r'\+\+','--','incdec'),(r'(?<!-)--','++','incdec'),(r'timeout_reached|queue_op_status::timeout\b','queue_op_status::success','st')):
            if 'template' in c: continue
            mm=re.search(a,c)
            if mm: add(c[:mm.start()]+b+c[mm.end():],op)
    seen=set(); r=[]
    for x in out:
        if (x[0],x[1]) not in seen: seen.add((x[0],x[1])); r.append(x)
    return r
base={}; CUR=['base']
def objs(u):
    L=[]
    extra=[CUR[0]]
    for s in u['src']: L.append((os.path.join(VD,'scen',s),'virt',['-DVT_MODE_VIRT']+u['defs'],check.incs_for(u),extra))
    for s in check.LIBSRC+u.get('libsrc',[]): L.append((os.path.join(W,s),'virt',['-DBOOST_THREAD_BUILD_LIB=1']+u.get('libdefs',[]),[W+'/include',check.SHADOW],extra))
    return L
def h(p):
    # text+data only
    return hashlib.sha1(subprocess.run(['objdump','-d','-r','-s','-j','.text','-j','.rodata',p],stdout=subprocess.PIPE).stdout.split(b'\n',3)[3]).hexdigest() if False else hashlib.sha1(open(p,'rb').read()).hexdigest()
def units(f):
    r=[];seen=set()
    for p in props(f):
        for u in PROPS[p]['units']:
            if u['name'] in seen or u.get('mode','virt')!='virt': continue
            seen.add(u['name']); u.setdefault('defs',[]); u['mode']='virt'; r.append((p,u))
    return r
deps={}
def uses(u,f):
    k=u['name']
    if k not in deps:
        S=''
        for j in objs(u):
            S+=subprocess.run([check.MODES['virt'][0]]+check.BASE+['-I'+i for i in j[3]]+j[2]+['-MM',j[0]],stdout=subprocess.PIPE).stdout.decode()
        deps[k]=S
    return f.split('include/')[-1] in deps[k]
def build(u):
    out=[]; key=u['name']
    for j in objs(u):
        out.append(check.compile_obj(*j))
    return out
def link(u,o):
    rt=[check.compile_obj(os.path.join(VD,'rt',s),'virt',[],[os.path.join(VD,'rt')],[]) for s in check.MODES['virt'][3]]
    b=W+'.bin'; r=subprocess.run(['g++']+check.MODES['virt'][2]+['-o',b]+o+rt+check.LIBS,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    return b if r.returncode==0 else None
def setup():
    subprocess.run(['rm','-rf',W,W+'.cache']); os.makedirs(W); subprocess.check_call(['cp','-a','/tmp/w/r2/include','/tmp/w/r2/src',W]); os.makedirs(W+'.cache/obj')
def clean(keep):
    for x in os.listdir(W+'.cache/obj'):
        p=W+'.cache/obj/'+x
        if p not in keep: os.unlink(p)
def baseline(u):
    if u['name'] not in base: base[u['name']]=[h(o) for o in build(u)]
    return base[u['name']]
def run(p,u,b,frac=None):
    kf=check.known(p); skip=[]
    ls=[l.split() for l in subprocess.run([b,'--list'],stdout=subprocess.PIPE).stdout.decode().splitlines()]
    skip=[x[0] for x in ls if (u.get('scns') and not re.fullmatch(u['scns'],x[0])) or int(x[1])&32]
    n=int(u['quick']*(frac or FRAC))
    while True:
        rc,o,e,to=check.run_proc([b,'--seed','1000','--count',str(n),'--cpu',str(K),'--max-s','60','--tier','0']+(['--skip',','.join(skip)] if skip else []),{},200)
        r=check.parse(o,e,rc,to,u); v=r['viol']
        if not v: return None
        v['nkey']=check.norm_key(v,b)
        if check.match_known(kf,u,v): skip+=[v['scn']]; continue
        return v
def test(f,n,x,frac=None):
    p=W+'/'+f; src=open(p).read(); L=src.split('\n'); L[n]=x; open(p,'w').write('\n'.join(L)); CUR[0]=str(time.time())
    try:
        eff=False; err=None
        for pr,u in units(f):
            if not uses(u,f): continue
            try: o=build(u)
            except check.CheckError as e: return 'nocompile',''
            if [h(a) for a in o]==base.get(u['name']): continue
            eff=True; b=link(u,o)
            if not b: return 'nolink',''
            v=run(pr,u,b,frac)
            if v: return 'killed','%s %s/%s %s'%(pr,u['name'],v['scn'],v['nkey'])
        return ('survived' if eff else 'noeffect'),''
    finally: open(p,'w').write(src); CUR[0]='base'
if __name__=='__main__':
    setup(); outp='/tmp/w/mut/out%d.jsonl'%K
    jobs=json.load(open('/tmp/w/mut/jobs.json')); NW=int(os.environ.get('NW','8'))
    # files grouped per worker to share baselines
    mine=jobs[K]
    rt=[check.compile_obj(os.path.join(VD,'rt',s),'virt',[],[os.path.join(VD,'rt')],[]) for s in check.MODES['virt'][3]]
    done=set()
    if os.path.exists(outp): done={(d['f'],d['n'],d['x']) for d in map(json.loads,open(outp))}
    for f,n,x,op,orig in mine:
        if (f,n,x) in done: continue
        for pr,u in units(f): 
            if uses(u,f): baseline(u)
        t=time.time()
        try: s,d=test(f,n,x)
        except Exception as e: s,d='error',repr(e)[:200]
        clean(rt)
        open(outp,'a').write(json.dumps(dict(f=f,n=n,op=op,orig=orig.strip(),x=x,s=s,d=d,t=round(time.time()-t,1)))+'\n')
