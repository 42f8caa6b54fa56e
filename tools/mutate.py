#!/usr/bin/env python3
"""mutate.py PROP[,PROP] COUNT SEED [workers] : random one-line mutants of the files of a property, quick check on each"""
import sys,os,re,random,json,subprocess,shutil,hashlib
from concurrent.futures import ThreadPoolExecutor
V=os.environ.get('MV',os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); R=os.environ.get('MR','/repo')
T=os.environ.get('MT','/tmp/mut'); os.makedirs(T,exist_ok=True)
props=sys.argv[1].split(','); count=int(sys.argv[2]); seed=sys.argv[3]; W=int(sys.argv[4]) if len(sys.argv)>4 else 6
byid={}
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); byid[d['id']]=d
def files(p):
    d=byid[p]; s=json.dumps(d)
    return sorted(set(re.findall(r'include/daw/[A-Za-z0-9_/]+\.h',s)))
OPS=[(r' == ',' != '),(r' != ',' == '),(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' \+ 1\b',''),(r' - 1\b',''),(r' \+ ',' - '),(r' - ',' + '),
 (r'\+\+',  '--'),(r'--','++'),(r'\band\b','or'),(r'\bor\b','and'),(r' && ',' || '),(r' \|\| ',' && '),(r'\bnot ',''),(r'return true','return false'),(r'return false','return true'),
 (r'std::move\( ([a-z_A-Z0-9\.]+) \)',r'\1'),(r'\b0\b','1'),(r'\b1\b','0'),(r'\b1\b','2'),(r' \+= ',' -= '),(r' -= ',' += '),(r' & ',' | '),(r' \| ',' & '),(r' << ',' >> '),(r' >> ',' << '),
 (r'\* ','/ '),(r' % ',' / '),(r'\.begin\( \)','.end( )'),(r'\bfirst\b','last'),(r'\blast\b','first'),(r'\blhs\b','rhs'),(r'\brhs\b','lhs'),('memory_order_acquire','memory_order_relaxed'),('memory_order_release','memory_order_relaxed'),('memory_order_acq_rel','memory_order_relaxed')]
SKIP=re.compile(r'^\s*(#|//|\*|/\*|template|static_assert|using|typedef|namespace|requires|struct|class|public|private|\[\[|"|DAW_ATTRIB|concept|inline constexpr bool|friend class)|operator\+\+|operator--|operator|noexcept\(|typename|std::enable_if|__cpp|operator<<|^\s*case\b.*:\s*$')
def cands(f):
    out=[]; 
    txt=open(R+'/'+f).read(); lines=txt.split('\n')
    incomment=False
    for i,l in enumerate(lines):
        if '/*' in l and '*/' not in l: incomment=True
        if incomment:
            if '*/' in l: incomment=False
            continue
        if SKIP.search(l) or not l.strip(): continue
        code=l.split('//')[0]
        for a,b in OPS:
            for m in re.finditer(a,code):
                nl=code[:m.start()]+m.expand(b)+code[m.end():]
                if nl!=code: out.append((f,i,l,nl))
        st=code.strip()
        if st.endswith(';') and not re.match(r'(return|auto|constexpr|const|using|break|continue|[A-Za-z_:<>]+ [a-z_A-Z]+( =|;|\{))',st) and code.count('(')==code.count(')') and code.count('{')==code.count('}') and ('(' in st or '=' in st or '++' in st or '--' in st):
            out.append((f,i,l,'\t\t\t;'))
    return out
rnd=random.Random(seed)
jobs=[]
done=set()
log=T+'/log.jsonl'
if os.path.exists(log):
    for l in open(log):
        d=json.loads(l); done.add((d['p'],d['f'],d['i'],d['new']))
for p in props:
    allc=[]
    fs=files(p)
    per={f:cands(f) for f in fs if os.path.exists(R+'/'+f)}
    # sample: choose line first for spread
    pool=[]
    for f,cs in per.items():
        bl={}
        for c in cs: bl.setdefault(c[1],[]).append(c)
        for i,v in bl.items(): pool.append(v)
    rnd.shuffle(pool)
    n=0
    for v in pool:
        if n>=count: break
        c=rnd.choice(v)
        if (p,c[0],c[1],c[3]) in done: continue
        jobs.append((p,)+c); n+=1
    print(p,len(fs),'files',len(pool),'lines',n,'jobs',flush=True)
import threading,queue
q=queue.Queue()
for k in range(W):
    d=T+'/w%d'%k
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    shutil.copytree(V,d+'/verif',ignore=shutil.ignore_patterns('.git','seeded','evidence'))
    os.makedirs(d+'/verif/evidence',exist_ok=True)
    os.makedirs(d+'/repo'); shutil.copytree(R+'/include',d+'/repo/include')
    q.put(d)
lock=threading.Lock()
def run(j):
    p,f,i,old,new=j
    d=q.get()
    try:
        path=d+'/repo/'+f
        src=open(R+'/'+f).read().split('\n'); assert src[i]==old
        src[i]=new
        open(path,'w').write('\n'.join(src))
        env=dict(os.environ,VF_REPO=d+'/repo',VERIF_SEED='1')
        try:
            r=subprocess.run(['timeout','-k','5','400','python3','tools/run_check.py',p,'quick'],cwd=d+'/verif',env=env,capture_output=True,text=True,errors='replace')
            out=r.stdout; rc=r.returncode
        except Exception as e:
            out=str(e); rc=-9
        m=re.search(r'key: (.*)',out); key=m.group(1) if m else ''
        res='SURVIVED' if rc==0 else 'nocompile' if key.startswith('compile:') else 'killed' if rc==1 else 'rc%d'%rc
        shutil.copy(R+'/'+f,path)
        with lock:
            open(log,'a').write(json.dumps(dict(p=p,f=f,i=i,old=old,new=new,res=res,key=key))+'\n')
            if res not in('killed','nocompile'):
                print(res,p,f+':'+str(i+1),'|',old.strip(),'=>',new.strip(),flush=True)
    finally:
        q.put(d)
rnd.shuffle(jobs)
with ThreadPoolExecutor(W) as ex: list(ex.map(run,jobs))
