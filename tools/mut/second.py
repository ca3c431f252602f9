#!/usr/bin/env python3
"""second.py OUT2.jsonl ID...: which check catches these mutants of /tmp/mutants2.jsonl (they are known to pass the stable tests)."""
import json,sys,os,subprocess,time
out,ids=sys.argv[1],sys.argv[2:]
ms={m['id']:m for m in map(json.loads,open('/tmp/mutants2.jsonl'))}
O={'query.rs':'C15 C14 C13 C12 C21 C24','order.rs':'C24 C05 C01 C10 C09 C06 C04 C08 C11 C07 C12 C03 C02 C14','tick.rs':'C21 C03 C06 C12','sumtree/tree.rs':'C21 C03 C22',
'sumtree/node.rs':'C22 C21 C03','auth.rs':'C17 C18 C16 C24','sudo.rs':'C05 C04 C16 C17 C24 C14 C11','tick_math.rs':'C19 C20 C26 C04','state.rs':'C13 C10 C12 C18 C24','contract.rs':'C27 C17 C16 C10 C11 C24 C14','constants.rs':'C09 C10 C18 C05 C19 C26'}
d='/tmp/mut/ws'
if not os.path.exists(d):
    subprocess.run(f'mkdir -p {d}/verif && cp -a /repo {d}/repo && cp -a /verif/mc {d}/verif/mc && cp /verif/known-findings.txt {d}/verif/',shell=True,check=True)
subprocess.run(f'rm -rf {d}/verif/mc/src; cp -a /verif/mc/src /verif/mc/Cargo.toml {d}/verif/mc/',shell=True)
p=d+'/verif/mc/Cargo.toml'; s=open(p).read().replace('"/repo/',f'"{d}/repo/'); open(p,'w').write(s)
root=d+'/repo/contracts/sumtree-orderbook/src/'
ENV=dict(os.environ,RUSTUP_TOOLCHAIN='stable',CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='1',VERIF_DIR=d+'/verif',RUSTC_WRAPPER='')
done={json.loads(l)['id'] for l in open(out)} if os.path.exists(out) else set()
for i in ids:
    if i in done: continue
    m=ms[i]; f=root+m['file']
    orig=subprocess.check_output(['git','-C',d+'/repo','show','HEAD:contracts/sumtree-orderbook/src/'+m['file']],text=True)
    L=orig.split('\n'); n=m['old'].count('\n')+1
    assert '\n'.join(L[m['line']:m['line']+n])==m['old'],m
    L[m['line']:m['line']+n]=[m['new']]
    open(f,'w').write('\n'.join(L)); t=time.time(); r=dict(m,res='MISSED')
    b=subprocess.run('cargo build --release --offline --features direct || cargo build --release --offline',shell=True,cwd=d+'/verif/mc',env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if b.returncode: r['res']='nobuild'
    else:
        for k in (os.environ.get('CHECKS') or O.get(m['file'],'C24 C10 C01 C13')).split():
            try: p=subprocess.run(f'{d}/verif/mc/target/release/mc check {k} quick',shell=True,cwd=d+'/verif',env=ENV,timeout=900,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            except subprocess.TimeoutExpired: continue
            if p.returncode==1 and f'VIOLATION property={k}' in p.stdout: r['res']='caught'; r['check']=k; break
            if p.returncode: r['odd']=f'{k}={p.returncode}'
    r['t']=round(time.time()-t); open(f,'w').write(orig)
    open(out,'a').write(json.dumps(r)+'\n'); print(i,r['res'],r.get('check'),r['file'],r['line'],r['new'].strip()[:60],flush=True)
