#!/usr/bin/env python3
"""run.py MUTANTS.jsonl OUT.jsonl [WORKERS]: which mutants compile and pass the stable tests, and which check catches those first.
Works on scratch copies of /repo and of /verif/mc under /tmp/mut."""
import json,sys,os,subprocess,shutil,threading,queue,re,time
src,out=sys.argv[1:3]; W=int(sys.argv[3]) if len(sys.argv)>3 else 3
CHECKS=os.environ.get('CHECKS','C24 C01 C12 C10 C05 C06 C09 C07 C18 C17 C16 C15 C14 C11 C13 C23 C25 C27 C03 C08 C04 C21 C22 C02 C26 C20 C19').split()
ALL=os.environ.get('ALLCHECKS')
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
names={t.split('::',1)[1] if t.startswith('sumtree') else t for t in base}
done=set()
if os.path.exists(out): done={json.loads(l)['id'] for l in open(out)}
q=queue.Queue()
for l in open(src):
    m=json.loads(l)
    if m['id'] not in done: q.put(m)
lock=threading.Lock(); fo=open(out,'a')
ENV=dict(os.environ,RUSTUP_TOOLCHAIN='stable',CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only',HOME='/root',RUSTC_WRAPPER='',CARGO_TERM_COLOR='never')
def sh(c,cwd,t,env=None):
    try:
        p=subprocess.run(c,shell=True,cwd=cwd,timeout=t,env=env or ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,start_new_session=True)
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e:
        subprocess.run(f"pkill -9 -f '^/tmp/mut/{cwd.split('/')[3]}/'",shell=True)
        return 124,''
def work(k):
    d=f'/tmp/mut/w{k}'
    if not os.path.exists(d+'/repo'):
        os.makedirs(d,exist_ok=True)
        subprocess.run(f'cp -a /repo {d}/repo && mkdir -p {d}/verif && cp -a /verif/mc {d}/verif/mc && cp /verif/known-findings.txt {d}/verif/',shell=True,check=True)
    subprocess.run(f'rsync -a --delete --exclude target /verif/mc/ {d}/verif/mc/ 2>/dev/null || (rm -rf {d}/verif/mc/src; cp -a /verif/mc/src /verif/mc/Cargo.toml {d}/verif/mc/)',shell=True)
    p=d+'/verif/mc/Cargo.toml'; s=open(p).read().replace('"/repo/',f'"{d}/repo/'); open(p,'w').write(s)
    sh('git checkout -q -- . ; cargo build -j2 --workspace --features sumtree-orderbook/skip-integration-tests --offline --locked',d+'/repo',900)
    root=d+'/repo/contracts/sumtree-orderbook/src/'
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        f=root+m['file']; orig=subprocess.check_output(['git','-C',d+'/repo','show','HEAD:contracts/sumtree-orderbook/src/'+m['file']],text=True)
        L=orig.split('\n'); n=m['old'].count('\n')+1
        assert '\n'.join(L[m['line']:m['line']+n])==m['old'],m
        L[m['line']:m['line']+n]=[m['new']]
        open(f,'w').write('\n'.join(L))
        r=dict(m); t0=time.time()
        try:
            c,o=sh('DOCS_RS=1 cargo test -j2 -p sumtree-orderbook --lib --features skip-integration-tests --no-run --offline --locked',d+'/repo',400)
            if c: r['res']='nobuild'
            else:
                c,o=sh('DOCS_RS=1 timeout 100 cargo test -p sumtree-orderbook --lib --features skip-integration-tests --no-fail-fast --offline --locked -- --test-threads 3',d+'/repo',130)
                ok=set(re.findall(r'^test (\S+) \.\.\. ok',o,re.M))
                miss=[t for t in names if not any(x==t or t.endswith(x) for x in ok)]
                if miss: r['res']='killed'; r['by']=miss[:2]
                elif os.environ.get('TESTS_ONLY'): r['res']='survives'
                else:
                    c,o=sh('cargo build --release --offline -j2 --features direct || cargo build --release --offline -j2',d+'/verif/mc',600)
                    if c: r['res']='mcnobuild'
                    else:
                        r['res']='MISSED'; caught=[]
                        e=dict(ENV,MC_THREADS='2',VERIF_DIR=d+'/verif')
                        for k_ in CHECKS:
                            if k_ in('C19','C20','C26') and m['file'] not in('tick_math.rs','constants.rs','order.rs'): continue
                            c,o=sh(f'{d}/verif/mc/target/release/mc check {k_} quick',d+'/verif',900,e)
                            if c==1 and f'VIOLATION property={k_}' in o:
                                caught.append(k_)
                                if not ALL: break
                            elif c: caught.append(f'{k_}?{c}')
                        if any('?' not in x for x in caught): r['res']='caught'
                        r['checks']=caught
        finally: open(f,'w').write(orig)
        r['t']=round(time.time()-t0)
        with lock: fo.write(json.dumps(r)+'\n'); fo.flush()
ts=[threading.Thread(target=work,args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
