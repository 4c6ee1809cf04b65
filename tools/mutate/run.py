import json,os,subprocess,sys,hashlib,shutil,threading,queue,time
ENV=dict(os.environ)
out=subprocess.run(['bash','-c','. /opt/vp/env.sh; env'],capture_output=True,text=True).stdout
for l in out.splitlines():
    if '=' in l:
        k,v=l.split('=',1); ENV[k]=v
ENV.update(GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off',GOCACHE='/tmp/mut/cache',GOMAXPROCS='2')
Q={'C04':160000,'C13':450000,'C21':60000,'C22':1000000,'C25':500000,'C14':1200000,'C15':1200000,'C26':60000,'C27':100000,'C01':30000,'C05':120000,'C10':90000,'C12':320000,'C02':800000,'C03':1200000,'C06':300000,'C07':200000,'C08':360000,'C09':600000,'C16':750000,'C17':180000,'C18':480000,'C19':240000,'C23':450000,'C24':1200000,'C20':600,'C11':1500}
ORDER='C02 C04 C12 C05 C27 C03 C16 C17 C14 C15 C24 C18 C26 C07 C06 C08 C09 C10 C01 C13 C19 C21 C22 C23 C25 C20 C11'.split()
FRAC=float(os.environ.get('FRAC','0.03'))
muts=[json.loads(l) for l in open(sys.argv[1])]
outf=sys.argv[2]
done=set()
if os.path.exists(outf):
    for l in open(outf): done.add(json.loads(l)['id'])
R={'asts.go':'C24 C26 C03','render.go':'C16 C18 C19 C27 C15','accent.go':'C16 C15 C05','author.go':'C14 C15 C27','resolver.go':'C16 C23 C15 C27 C13','bibtex.go':'C13 C18 C19 C27','walk.go':'C17 C18 C16','ast.go':'C06 C18 C17 C24 C26 C14','token.go':'C05 C24','interface.go':'C10 C21 C04 C07 C01','parser.go':'C02 C04 C03 C06 C26 C07 C09 C22 C08 C24 C01','scanner.go':'C05 C02 C03 C04 C12 C22 C06 C01 C10'}
def route(f): return R.get(os.path.basename(f),' '.join(ORDER)).split()
def mid(m): return hashlib.sha1(f"{m['File']}:{m['Start']}:{m['End']}:{m['New']}".encode()).hexdigest()[:12]
seen=set(); todo=[]
for m in muts:
    m['id']=mid(m)
    if m['New']==m['Old'] or m['id'] in seen or m['id'] in done: continue
    seen.add(m['id']); todo.append(m)
print(len(todo),'mutants',flush=True)
q=queue.Queue()
for m in todo:q.put(m)
lock=threading.Lock(); of=open(outf,'a'); cnt={}
def sh(cmd,cwd,t,env):
    p=subprocess.Popen(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',start_new_session=True)
    try: o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return -99,''
def worker(k):
    w=f'/tmp/mut/w{k}'; shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
    subprocess.run(['git','clone','-q','/repo',w+'/repo'])
    r=w+'/repo'; hs=w+'/h'; shutil.copytree('/verif/harness',hs)
    ov=open('/verif/tools/overlay.sh').read().replace('/repo',r); open(w+'/overlay.sh','w').write(ov); os.chmod(w+'/overlay.sh',0o755)
    gm=open(hs+'/go.mod').read().replace('/repo',r); open(hs+'/go.mod','w').write(gm)
    env=dict(ENV); env['VERIF_SRC']=r; env['TMPDIR']=w+'/tmp'; os.makedirs(w+'/tmp')
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        f=m['File'].replace('/repo',r); src=open(f,'rb').read()
        new=src[:m['Start']]+m['New'].encode()+src[m['End']:]
        open(f,'wb').write(new)
        res=None; detail=''
        try:
            rc,o=sh(['go','build','./...'],r,120,env)
            if rc: res='nobuild'
            else:
                rc,o=sh(['go','test','-vet=off','-count=1','-timeout','20s','./...'],r,120,env)
                if rc: res='tests'
            if not res:
                shutil.rmtree(w+'/cov',ignore_errors=True); os.makedirs(w+'/cov')
                rc,o=sh([w+'/overlay.sh',w+'/cov'],r,120,env)
                e2=dict(env,CGO_ENABLED='0')
                rc,o=sh(['go','build','-tags','vcover','-overlay',w+'/cov/overlay.json','-o',w+'/harness','.'],hs,200,e2)
                if rc: res='harnessbuild'; detail=o[-300:]
            if not res:
                for p in (os.environ.get('PROPS','').split() or route(m['File'])):
                    b=w+'/harness'
                    if p=='C11':
                        rc,o=sh(['go','build','-race','-o',w+'/hr','.'],hs,300,dict(env,CGO_ENABLED='1')); b=w+'/hr'
                        if rc: detail='racebuild'; continue
                    shutil.rmtree(w+'/run',ignore_errors=True); os.makedirs(w+'/run')
                    n=max(40,int(Q[p]*FRAC))
                    rc,o=sh([b,'-prop',p,'-tier','quick','-seed','1','-cases',str(n),'-workers','1','-evidence',w+'/tmp'],w+'/run',300,env)
                    if rc==1 and 'VIOLATION property='+p in o: res=p; i=o.find('VIOLATION'); detail=o[i:i+300]; break
                    if rc==-99: detail+=p+' timeout;'
                if not res: res='SURVIVED'
        finally:
            open(f,'wb').write(src)
            for x in os.listdir(w+'/tmp'):
                pth=w+'/tmp/'+x
                shutil.rmtree(pth,ignore_errors=True) if os.path.isdir(pth) else os.unlink(pth)
        with lock:
            cnt[res]=cnt.get(res,0)+1
            of.write(json.dumps(dict(m,res=res,detail=detail))+'\n'); of.flush()
            if res=='SURVIVED': print(res,m['File'],m['Line'],m['Op'],repr(m['Old'][:80]),'->',repr(m['New'][:80]),flush=True)
            n=sum(cnt.values())
            if n%100==0: print(n,cnt,flush=True)
N=int(os.environ.get('N','8'))
ts=[threading.Thread(target=worker,args=(k,)) for k in range(N)]
[t.start() for t in ts];[t.join() for t in ts]
print('DONE',cnt)
