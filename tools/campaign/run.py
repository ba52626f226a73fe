import json,subprocess,os,sys,time
# run.py START COUNT: needs a scratch copy of the repository (tools/mkrs.sh) and of /verif; mutants.json comes from gen.cjs
R='/tmp/rs'; V='/tmp/vc'
start,count=int(sys.argv[1]),int(sys.argv[2])
MAP={'src/component.ts':'C08 C10 C09 C12 C17 C14 C16 C15 C11 C22 C13 C32 C01 C19 C02','src/runtime.ts':'C16 C02 C01 C34 C14 C15 C12 C17 C18 C08 C09 C11 C10 C06 C32','src/commit.ts':'C01 C02 C06 C09 C15 C17 C07 C13 C32 C12','src/addons/signal/derivable.ts':'C23 C20 C21 C22 C32','src/addons/signal/signal.ts':'C20 C21 C22 C32 C23','src/dom/block.ts':'C06 C01 C02 C07 C19','src/dom/part.ts':'C03 C13 C06 C07 C05 C01 C19 C35 C32','src/dom/template.ts':'C04 C05 C35 C19 C30 C01 C29','src/lane.ts':'C16 C18 C34 C25 C08 C14','src/dom/adapter.ts':'C31 C04 C10 C32 C34','src/dom/root.ts':'C01 C06 C32 C17 C15 C14 C11','src/velement.ts':'C30 C05 C01 C04 C02 C19','src/compare.ts':'C33 C10 C20','src/addons/router/adapter.ts':'C28','src/addons/router/hook.ts':'C28 C11','src/addons/router/router.ts':'C27','src/addons/router/matchers.ts':'C27','src/queue.ts':'C16 C34','src/addons/signal/linked-list.ts':'C21 C22 C32','src/addons/hooks.ts':'C24 C25 C26 C32','src/addons/update-logger.ts':'C18','src/addons/update-profiler.ts':'C18','tools/esbuild-plugin-minify-templates/src/transform.ts':'C29','src/addons/signal/hooks.ts':'C10 C20 C22 C32','src/base.ts':'C11 C17 C10 C01','src/error.ts':'C17 C19','src/dom/debug.ts':'C35','src/dom/error.ts':'C35 C17 C04'}
ms=json.load(open('/tmp/mc/mutants.json'))
ms=[m for m in ms if m['f'] in MAP][start:start+count]
log=open('/tmp/mc/log.jsonl','a')
env=dict(os.environ,REPO=R)
def sh(c,t):
    p=subprocess.Popen(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env,start_new_session=True)
    try: o,_=p.communicate(timeout=t); return p.returncode,o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return 124,''
def put(**k): log.write(json.dumps(k)+'\n'); log.flush()
for n,m in enumerate(ms):
    p=f"{R}/{m['f']}"; s=open(p,'rb').read().decode()
    # offsets are UTF-16 code units; files are nearly ASCII
    u=s.encode('utf-16-le'); t=(u[:2*m['a']]+m['rep'].encode('utf-16-le')+u[2*m['b']:]).decode('utf-16-le')
    try:
        open(p,'w').write(t)
        t0=time.time()
        rc,o=sh('bash /tmp/vps/build.sh',120)
        if rc: put(n=start+n,m=m,r='nobuild'); continue
        rc,o=sh('bash /tmp/mc/test.sh /tmp/mc/out.json',100)
        b=json.load(open('/opt/vp/BASELINE.json'))['stable']
        try: ok=set(json.load(open('/tmp/mc/out.json'))['passed'])
        except Exception: ok=set()
        if any(x not in ok for x in b): put(n=start+n,m=m,r='killed by tests',t=time.time()-t0); continue
        res=[]; caught=None
        for c in MAP[m['f']].split():
            rc,o=sh(f'cd {V} && timeout 300 ./check {c}',330)
            if rc==1 and f'VIOLATION property={c}' in o: caught=c; break
            if rc!=0: res.append((c,rc,o[:200]))
        put(n=start+n,m=m,r='caught '+caught if caught else 'SURVIVED',odd=res,t=time.time()-t0)
    finally:
        open(p,'w').write(s)
