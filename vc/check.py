"""check one property: python3-vt vc/check.py <ID>     (environment: VERIF_TIER, VERIF_SEED)

1. every contract the property rests on (closed under 'caller checked against callee contract') is proved against the
   function bodies parsed from /repo's current tree;
2. the driver of the property executes the real code and evaluates the same postconditions (search for a failing input);
3. only if an obligation of 1 is not discharged: longer search for a failing input, then the bounded symbolic check."""
import sys,os,time,json,subprocess,multiprocessing as mp,hashlib,traceback,signal
if os.environ.get('PYTHONHASHSEED')!='0':
    os.environ['PYTHONHASHSEED']='0'; os.execv(sys.executable,[sys.executable]+sys.argv)
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[ROOT+'/vc',ROOT+'/contracts']
REPO=os.environ.get('VERIF_REPO','/repo')
import cparse, solve, contract, engine
from engine import fkey, COEFOF
import registry
CS=contract.CONTRACTS

def resolve(prog,k):
    fs=[f for q in prog.funcs.values() for f in q if fkey(f)==k]
    return fs
def one(prog,key,tl,ai,tier,mode='unbounded',T=None,usec=(),label=''):
    """one work item -> result dictionary"""
    c=CS[key]
    fs=resolve(prog,key)
    base=dict(key=key,tl=tl,ai=ai,mode=mode,name=key,err=None,obs=[],used=[],inl=[],secs=0,assumed=[])
    if len(fs)!=1:
        base['err']=f'unsupported: {len(fs)} definitions of {key} in the source'; base['missing']=True; return base
    al=c.aliases[ai]
    t0=time.time()
    try:
        bad=c.dynbad(prog,CS,fs[0],tl,al) if c.dyn and mode=='unbounded' else None
        solve.reset(); COEFOF.clear()
        if T is None:
            lbl,T=c.templ()[tl]
        else: lbl=label
        name=f'{key} [{lbl}]'+(' alias '+','.join('='.join(q) for q in al) if al else '')
        base['name']=name
        _,E,err=c.verify1(prog,CS,fs[0],T,al,name,None,0,mode=mode,bad=bad,usec=usec)
        base['err']=err
        if E is not None:
            base['obs']=[(o.kind,str(o.label),o.loc,o.res.status,o.res.backend,o.res.why) for o in E.obs]
            base['used']=sorted(E.used); base['inl']=sorted(E.inlined); base['assumed']=sorted(E.assumed)
            if not E.obs: base['err']=base['err'] or 'unsupported: no obligations generated'
    except Exception as e:
        base['err']='unsupported: '+type(e).__name__+': '+str(e)+' @ '+traceback.format_exc().strip().splitlines()[-3].strip()[-90:]
    base['secs']=time.time()-t0
    return base
def okitem(r): return r['err'] is None and r['obs'] and all(o[3]=='proved' for o in r['obs'])

def run_items(items,fn,njobs,limit):
    """run fn(item) in forked processes with a time limit each; yields (item,result)"""
    todo=list(items); live={}
    out=[]
    while todo or live:
        while todo and len(live)<njobs:
            it=todo.pop(0)
            r,w=mp.Pipe(False)
            def tgt(it=it,w=w):
                try: res=fn(it)
                except BaseException as e: res=None
                w.send(res); w.close()
            p=mp.Process(target=tgt); p.start(); w.close()
            live[p]=(it,r,time.time())
        for p in list(live):
            it,r,t=live[p]
            if r.poll(0.02):
                try: res=r.recv()
                except EOFError: res=None
                p.join(); del live[p]; r.close(); yield it,res
            elif time.time()-t>limit:
                p.kill(); p.join(); del live[p]; r.close(); yield it,None
def failres(it,why):
    return dict(key=it[0],tl=it[1],ai=it[2],mode='?',name=it[0],err='unsupported: '+why,obs=[],used=[],inl=[],secs=0,assumed=[])

class Driver:
    def __init__(s,prop,seed,bdir):
        s.src=f'{ROOT}/harness/{prop}.cpp'; s.bin=f'{bdir}/{prop}'; s.name=prop; s.seed=seed; s.err=None; s.n=0; s.txt=''; s.crash=None; s.bdir=bdir
        s.exists=os.path.exists(s.src)
        s.proc=None
    def build(s):
        if not s.exists: return
        o=registry.DRVOPT.get(os.path.basename(s.src)[:-4],'-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all')
        inc=f'-I{REPO}/include -I{REPO}/src -I{ROOT}/harness'
        cmd=f'g++ -std=c++17 -w -fopenmp {o} {inc} {s.src} -o {s.bin}'
        if s.name in registry.OWNOMP: cmd=f'g++ -std=c++17 -w -fopenmp {o} {inc} -c {s.src} -o {s.bin}.o && g++ {o} {s.bin}.o -o {s.bin} -lpthread'
        s.proc=subprocess.Popen(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    def waitbuild(s):
        if s.proc is None: return
        o,_=s.proc.communicate()
        if s.proc.returncode: s.err='driver does not compile: '+o[:1500]
        s.proc=None
    def run(s,seed,secs,limit=300):
        """None: no failing input; otherwise the text of the failure"""
        if not s.exists or s.err: return None
        cur=f'{s.bdir}/cur'
        env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0',OMP_NUM_THREADS='4',TSAN_OPTIONS='halt_on_error=1 exitcode=66')
        try:
            q=subprocess.run(f'ulimit -s unlimited 2>/dev/null; exec {s.bin} {seed} {secs} 1 {cur}',shell=True,capture_output=True,text=True,errors='replace',timeout=limit,env=env,cwd=s.bdir)
        except subprocess.TimeoutExpired:
            s.txt='driver time limit'; return None
        if q.returncode==0:
            for w in q.stdout.split():
                if w.startswith('evaluations='): s.n+=int(w[12:])
            return None
        t=open(cur).read().strip() if os.path.exists(cur) else ''
        out=(q.stdout[-3000:]+q.stderr[:3000])
        if 'unexpected memory mapping' in out: s.txt='thread sanitizer unavailable'; return None
        if q.returncode==-signal.SIGALRM or q.returncode==128+signal.SIGALRM: 
            return f'case {t}: no termination within the time limit (SIGALRM)\n'+out
        return f'case {t} (exit {q.returncode})\n'+out

def main():
    prop=sys.argv[1]
    tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time()
    P=registry.PROPS[prop]
    bdir=f'{ROOT}/build/{prop}'; os.makedirs(bdir,exist_ok=True); os.makedirs(ROOT+'/evidence',exist_ok=True)
    drv=Driver(prop,seed,bdir); drv.build()
    quick=tier=='quick'
    results=[]; fe=None; extranotes=[]
    try: prog=cparse.load(REPO)
    except Exception as e:
        fe='front end: '+type(e).__name__+': '+str(e)[:300]; prog=None
    ncpu=8
    if prog is not None:
        def items(keys):
            out=[]
            for k in keys:
                if k not in CS: raise SystemExit(f'no contract {k}')
                c=CS[k]
                tls=range(c.ntempl()); sel=registry.SEL.get(k)
                if sel==() and k in P['contracts']: sel=None
                for tl in tls:
                    if sel is not None and tl not in sel: continue
                    for ai in range(len(c.aliases)): out.append((k,tl,ai))
            return out
        want=list(P['contracts'])
        for k in P['dyn'](prog) if 'dyn' in P else []:
            if k in want: continue
            if k in CS: want.append(k)
            else: extranotes.append(f'{k}: within the property, but no contract; only executed')
        seen=set(want); todo=items(want)
        todo.sort(key=lambda it:-registry.COST.get(it[0],1))
        lim=registry.LIMIT if quick else 3*registry.LIMIT
        while todo:
            nxt=set()
            for it,r in run_items(todo,lambda it:one(prog,it[0],it[1],it[2],tier),ncpu,lim):
                if r is None: r=failres(it,'time limit of the proof')
                results.append(r)
                nxt|=set(r['used'])
            nk=[k for k in sorted(nxt) if k not in seen]
            seen|=set(nk); todo=items(nk)
        # bounded stand-ins declared for the property
        bres=[]
        bk=[k for k in sorted(seen) if k in registry.BND]
        for it,r in run_items([(k,i,0,T,lbl) for k,i,T,lbl in [(k,i,T,l) for k in bk for i,(l,T) in enumerate(registry.BND[k] if quick else registry.BND[k]+registry.BNDT.get(k,[]))]],
                              lambda it:one(prog,it[0],0,it[2],tier,'bounded',registry.mkT(it[3]),registry.usec(it[0]),it[4]),ncpu,lim):
            if r is None: r=failres(it,'time limit of the bounded check')
            bres.append(r)
    else: bres=[]
    drv.waitbuild()
    # side proofs (Lean, ground checks)
    side=[]
    for nm,fn in P.get('side',[]):
        ts=time.time()
        try: ok,detail=fn(REPO,ROOT,bdir,prog)
        except Exception as e: ok,detail=None,'error: '+repr(e)
        side.append((nm,ok,detail,time.time()-ts))
    bad=[r for r in results if not okitem(r)]
    badb=[r for r in bres if not okitem(r)]
    fail=None
    secs=P.get('secs',8) if quick else P.get('tsecs',90)
    fail=drv.run(seed,secs)
    notes=[]
    if fail is None and (bad or badb or fe or drv.err):
        fail=drv.run(seed+1000003,P.get('longsecs',45) if quick else 180)
    verdict='ok'
    replay=f'{bdir}/violation.txt'
    def say(text,extra=''):
        with open(replay,'w') as f: f.write(text)
        print(f'VIOLATION property={prop} replay={replay}{extra}')
    def obtext(rs):
        L=[]
        for r in rs:
            L.append(f"{r['name']}: {r['err'] or ''}")
            for o in r['obs']:
                if o[3]!='proved': L.append(f'    not discharged: {o[0]} "{o[1]}" at {o[2]} ({o[3]} {o[5]})')
        return '\n'.join(L)
    sidebad=[s for s in side if s[1] is False]
    downgrade=list(extranotes)
    if fail is not None:
        verdict='violation'
        say(f'property {prop}\nfailing input found by executing the real code ({REPO}) against the contract\'s postcondition:\n{fail}\n\n'
            f'replay: {drv.bin} --case <test> <case seed>   (driver {drv.src})\n\nobligations not discharged:\n{obtext(bad+badb) or "(none)"}\n')
    elif sidebad:
        verdict='violation'
        say('\n'.join(f'{s[0]}: {s[2]}' for s in sidebad),'' if any('input' in str(s[2]) for s in sidebad) else ' no-failing-input-found')
    elif bad or badb or fe:
        # undecided obligations: bounded symbolic check of the functions concerned
        good=set(r['key'] for r in results)-set(r['key'] for r in bad)
        hard=[]
        if fe is None:
            jobs=[]
            keys=sorted(set(r['key'] for r in bad))
            for k in keys:
                Ts=registry.fallback(k,tier)
                if Ts is None:
                    rs=[r for r in bad if r['key']==k]
                    if any(real(r) for r in rs): hard+=rs
                    else: downgrade.append(f'{k}: outside the verifier\'s reach in its present form; only executed')
                    continue
                for i,(l,T) in enumerate(Ts):
                    for ai in range(len(CS[k].aliases)): jobs.append((k,i,ai,T,l))
            for it,r in run_items(jobs,lambda it:one(prog,it[0],0,it[2],tier,'bounded',registry.mkT(it[3]),good,it[4]),ncpu,lim):
                if r is None: r=failres(it,'time limit of the bounded check')
                bres.append(r)
                if not okitem(r) and real(r): hard.append(r)
                elif not okitem(r): downgrade.append(f"{r['name']}: {r['err']}; only executed")
            for k in keys: downgrade.append(f'{k}: unbounded proof not found for its present form; bounded check instead')
            for r in badb:
                if real(r): hard.append(r)
                else: downgrade.append(f"{r['name']}: {r['err']}; only executed")
        else: downgrade.append(fe+'; only executed')
        if hard:
            verdict='violation'
            say(f'property {prop}: obligations that hold on the unchanged tree are not discharged; no failing input found by executing the real code\n\n{obtext(hard)}\n',' no-failing-input-found')
    for d in downgrade: print('NOTE',d)
    for l in open(ROOT+'/known_findings.txt') if os.path.exists(ROOT+'/known_findings.txt') else []:
        if l.startswith(f'finding: property={prop} '): print('KNOWN-FINDING: property='+prop+' '+l.split(' ',2)[2].strip())
    obs=[o for r in results for o in r['obs']]; bobs=[o for r in bres for o in r['obs']]
    be={}
    for o in obs:
        if o[3]=='proved': be[o[4]]=be.get(o[4],0)+1
    proved=sorted(set(r['key'] for r in results)-set(r['key'] for r in bad))
    inl=sorted(set(k for r in results for k in r['inl'])-set(r['key'] for r in results))
    level=P.get('level','proof')
    cov=dict(obligations=len(obs),discharged=sum(o[3]=='proved' for o in obs),
        checker_cmd=f'python3-vt vc/check.py {prop}',
        trusted_base=['vc/ (parser, VC generator, congruence certificates; see DESIGN.md section 2)','z3','g++ semantics as modelled in DESIGN.md']+P.get('trusted',[]),
        functions_under_contract=sorted(set(r['key'] for r in results)),functions_proved=proved,
        functions_inlined=inl,backends=be,solver_s=round(sum(r['secs'] for r in results),1),
        bounded=dict(note='bounded stand-ins: loops unrolled at the stated sizes, symbolic data; never counted as proved',
            items=[r['name'] for r in bres],obligations=len(bobs),discharged=sum(o[3]=='proved' for o in bobs)),
        side_checks=[dict(name=s[0],ok=s[1],detail=str(s[2])[:400],s=round(s[3],1)) for s in side],
        executed_cases=drv.n,executed_note='real code executed on generated inputs against the postconditions (failing-input search only)',
        downgraded=downgrade,
        undischarged=[f"{r['name']}: {r['err'] or [o[:3] for o in r['obs'] if o[3]!='proved']}" for r in bad+badb][:30])
    if level!='proof':
        cov.update(explanation=P.get('explanation','bounded symbolic check of the real functions at the stated sizes'),evaluations=drv.n)
    ev=dict(property=prop,tier=tier,seed=seed,level=level,coverage=cov,assumptions=P.get('assume',[])+registry.COMMON+[t for k,t in registry.RELY.items() if prog is not None and k in seen and k not in P['contracts']]+sorted(set(a for r in results+bres for a in r['assumed'])),
        wall_s=round(time.time()-t0,1),violations=1 if verdict=='violation' else 0)
    json.dump(ev,open(f'{ROOT}/evidence/{prop}.json','w'),indent=1)
    print(f"{prop}: {cov['discharged']}/{cov['obligations']} obligations, {cov['bounded']['discharged']}/{cov['bounded']['obligations']} bounded, {drv.n} executions, {ev['wall_s']} s, {verdict}")
    if os.environ.get('VERBOSE'): print(obtext(bad+badb)); print(side); print(drv.err)
    for r in results: 
        if os.environ.get('VERBOSE')=='2': print(f"  {r['secs']:.1f} {r['name']}")
    if os.path.exists(drv.bin) and verdict=='ok': os.remove(drv.bin)
    sys.exit(1 if verdict=='violation' else 0)
def real(r):
    """an undischarged obligation (as opposed to a construct or shape outside the verifier's reach)"""
    return r['err'] is None and any(o[3]!='proved' for o in r['obs'])
if __name__=='__main__': main()
