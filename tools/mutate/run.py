import json,os,sys,subprocess,shutil,threading,queue,time,re,random
sys.path.insert(0,'/tmp/mut'); import gen
W=int(sys.argv[1]); files=sys.argv[2].split(',') if len(sys.argv)>2 else list(gen.FILES)
LOG='/tmp/mut/log.jsonl'
done=set()
if os.path.exists(LOG):
    for l in open(LOG):
        d=json.loads(l); done.add((d['f'],d['i'],d['kind'],d['new']))
def active(f):
    t=subprocess.run(['g++','-std=c++20','-E','-I/repo/include','-DASYNCPP_HAS_TSAN=0','-DASYNCPP_HAS_ASAN=0','-DASYNCPP_HAS_VALGRIND=0','/repo/include/asyncpp/'+f],capture_output=True,text=True).stdout
    act=set(); cur=None; n=0
    for l in t.split('\n'):
        m=re.match(r'# (\d+) "([^"]*)"',l)
        if m: cur=m[2]; n=int(m[1]); continue
        if cur and cur.endswith('asyncpp/'+f) and l.strip(): act.add(n-1)
        n+=1
    return act
q=queue.Queue()
cnt=0
for f in files:
    a=active(f)
    for m in gen.muts(f):
        if m[1] not in a: continue
        if (m[0],m[1],m[2],m[4]) in done: continue
        q.put(m); cnt+=1
print(cnt,'mutants'); sys.stdout.flush()
lock=threading.Lock()
V='/tmp/mut/V'
def work(n):
    d='/tmp/mut/w%d'%n
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        shutil.copytree('/repo/include',d+'/include')
        f,i,kind,old,new=m
        p=d+'/include/asyncpp/'+f
        L=open(p).read().split('\n'); assert L[i]==old
        L[i]=new; open(p,'w').write('\n'.join(L))
        t=time.time(); res='SURVIVED'; by=''
        pre=subprocess.run('echo "#include <asyncpp/%s>" | g++ -std=c++20 -fsyntax-only -w -I%s/include -x c++ -'%(f,d),shell=True,capture_output=True,text=True)
        if pre.returncode: res='NOCOMPILE'
        else:
            for c in gen.FILES[f]:
                x=subprocess.run('nice -n 10 python3 %s/check.py %s --tier quick --budget 150'%(V,c),shell=True,capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=d))
                if x.returncode==1: res='KILLED'; by=c+' '+(re.findall(r'^scenario (.*)$',x.stdout,re.M)+[''])[0][:120]; break
                if x.returncode!=0:
                    res='NOCOMPILE' if 'build of' in x.stdout else 'INFRA'; by=x.stdout[-400:]; break
        r=dict(f=f,i=i,kind=kind,old=old.strip(),new=new,res=res,by=by,t=round(time.time()-t,1))
        with lock: open(LOG,'a').write(json.dumps(r)+'\n')
ts=[threading.Thread(target=work,args=(n,)) for n in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
print('done')
