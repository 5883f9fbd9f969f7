"""Discharging obligations: saturation with definitions, quantified facts and library lemmas, then z3
(and, for congruences, an exact linear-algebra certificate)."""
import z3, time, itertools
from fractions import Fraction
from terms import *
import terms

class QFact:
    """forall P,J. guard => body, triggered on select(decl(P..),J..); body: list of z3 / python bools"""
    __slots__=('decl','P','J','body','guard','extra')
    def __init__(s,decl,P,J,body,guard=True,extra=None):
        s.decl=decl; s.P=list(P); s.J=list(J); s.body=body; s.guard=guard; s.extra=extra
    def inst(s,args,idx):
        sub=[(p,Z(a)) for p,a in zip(s.P,args)]+[(j,Z(a)) for j,a in zip(s.J,idx)]
        out=[]
        for b in s.body:
            f=implies(s.guard,b)
            if isinstance(f,bool):
                if not f: out.append(z3.BoolVal(False))
                continue
            out.append(z3.substitute(f,*sub) if sub else f)
        return out
    def guarded(s,c): return QFact(s.decl,s.P,s.J,s.body,land(c,s.guard),s.extra)

class Cong:
    """x = y (mod m);  with rng=(lo,hi): x = y + e (mod m) for some integer e in [lo,hi]"""
    def __init__(s,x,y,m,guard=True,rng=None,wit=None): s.x=x;s.y=y;s.m=m;s.guard=guard;s.rng=rng;s.wit=wit   # wit: the noise e, used for proving only
    def map(s,f,guard=None): return Cong(f(s.x),f(s.y),f(s.m),f(s.guard) if guard is None else guard,None if s.rng is None else (f(s.rng[0]),f(s.rng[1])),None if s.wit is None else f(s.wit))

class Registry:
    """definitions of fresh symbols: decl -> (params, facts); element facts: decl -> fn(select term)"""
    def __init__(s):
        s.defs={}; s.elem={}; s.rng={}; s.n=0; s.num={}; s.decls={}; s.qdefs={}; s.rn={}
        s.created=[]
        s.lemma_log=set()
        s.pure={}
    def fresh(s,name,sort,facts=None,rng=None):
        s.n+=1
        c=z3.Const(f'{name}!{s.n}',sort)
        eid(c); s.num[c.decl().name()]=s.n; s.decls[c.decl().name()]=c.decl()
        fs=[]
        if rng is not None:
            lo,hi=rng
            if lo is not None: fs.append(c>=lo)
            if hi is not None: fs.append(c<=hi)
            s.rng[c.decl().name()]=rng
        if facts: fs+= [f for f in facts(c) if f is not True]
        s.defs[c.decl().name()]=([],fs)
        s.created.append(c)
        return c
    def fun(s,name,*sorts):
        s.n+=1
        f=z3.Function(f'{name}!{s.n}',*sorts)
        s.num[f.name()]=s.n; s.decls[f.name()]=f
        return f
    def ren2(s,d):
        """a copy of symbol d (second iteration in race checks), with its definition"""
        nm=d.name()
        if nm in s.rn: return s.rn[nm]
        f=z3.Function(nm+"'",*[d.domain(i) for i in range(d.arity())],d.range()) if d.arity() else z3.Const(nm+"'",d.range()).decl()
        s.num[f.name()]=s.num.get(nm,0); s.decls[f.name()]=f; s.rn[nm]=f
        if nm in s.rng and d.arity()==0 and d.range()==IntS:
            lo,hi=s.rng[nm]; c=f(); fs=[]
            if lo is not None: fs.append(c>=lo)
            if hi is not None: fs.append(c<=hi)
            s.defs[f.name()]=([],fs)
        return f
    def adddef(s,c,*fs):
        s.defs[c.decl().name()][1].extend(f for f in fs if f is not True)

REG=Registry()
def reset():
    global REG
    REG.__init__()
    _iv.clear(); _ent.clear()
    REG.pure.update(HOOKS)
    for c in RESETS: c()
class _H(dict):
    def __setitem__(s,k,f):
        g=s.get(k)
        if g is not None and getattr(g,'__code__',None) and g.__code__.co_filename!=f.__code__.co_filename: raise RuntimeError('two definitions of the lemmas of '+k)
        dict.__setitem__(s,k,f)
HOOKS=_H(); RESETS=[]; _ent={}

# ---------------------------------------------------------------- intervals
_iv={}
def iv(e):
    if isinstance(e,bool): return (int(e),int(e))
    if isinstance(e,(int,Fraction)): return (e,e)
    i=eid(e)
    if i in _iv: return _iv[i]
    r=_ivc(e)
    _iv[i]=r
    return r
def setiv(e,lo,hi):
    if isz(e):
        a,b=iv(e)
        if lo is not None: a=lo if a is None else max(a,lo)
        if hi is not None: b=hi if b is None else min(b,hi)
        _iv[eid(e)]=(a,b)
def _ivc(e):
    v=numval(e)
    if v is not None: return (v,v)
    k=k_(e)
    if k==Z3_OP_ADD:
        lo=hi=0
        for c in e.children():
            a,b=iv(c)
            lo=None if lo is None or a is None else lo+a
            hi=None if hi is None or b is None else hi+b
        return (lo,hi)
    if k==Z3_OP_SUB:
        ch=e.children(); lo,hi=iv(ch[0])
        for c in ch[1:]:
            a,b=iv(c)
            lo=None if lo is None or b is None else lo-b
            hi=None if hi is None or a is None else hi-a
        return (lo,hi)
    if k==Z3_OP_UMINUS:
        a,b=iv(e.arg(0)); return (None if b is None else -b, None if a is None else -a)
    if k==Z3_OP_MUL:
        lo,hi=1,1
        for c in e.children():
            a,b=iv(c)
            xs=[]
            def m(x,y):
                if x==0 or y==0: return 0
                if x is None or y is None: return None
                return x*y
            if lo is not None and lo>=0 and a is not None and a>=0:
                lo,hi=lo*a, (0 if (hi==0 or b==0) else (None if hi is None or b is None else hi*b))
            elif None in(lo,hi,a,b): return (None,None)
            else:
                xs=[lo*a,lo*b,hi*a,hi*b]; lo,hi=min(xs),max(xs)
        return (lo,hi)
    if k==Z3_OP_ITE and not z3.is_bool(e):
        a,b=iv(e.arg(1)); c,d=iv(e.arg(2))
        return (None if a is None or c is None else min(a,c), None if b is None or d is None else max(b,d))
    if k==Z3_OP_TO_REAL: return iv(e.arg(0))
    if k==z3.Z3_OP_UNINTERPRETED:
        n=e.decl().name()
        if n=='P2':
            a,b=iv(e.arg(0))
            return (1 if a is None or a<0 else 2**min(a,4096), 2**b if b is not None and b<4096 else None)
        if n=='val': return (0,None)
        return REG.rng.get(n,(None,None))
    if k==Z3_OP_SELECT:
        b=e
        while k_(b)==Z3_OP_SELECT: b=b.arg(0)
        return REG.rng.get(b.decl().name(),(None,None))
    return (None,None)

# ---------------------------------------------------------------- lemma library on val / P2 (proved in lean/)
def L(name): REG.lemma_log.add(name)
def ile(a,b):
    r=le(a,b)
    if isinstance(r,bool): return r
    x=iv(a)[1]; y=iv(b)[0]
    if x is not None and y is not None and x<=y: return True
    x=iv(a)[0]; y=iv(b)[1]
    if x is not None and y is not None and x>y: return False
    d=iv(norm(sub(a,b)))
    if d[1] is not None and d[1]<=0: return True
    if d[0] is not None and d[0]>0: return False
    return r
def ilt(a,b): return ile(add(a,1),b)
def val_lemmas(t):
    a,n=t.arg(0),t.arg(1); out=[]
    L('val_range'); out.append(z3.Implies(n>=0,z3.And(t>=0,Z(t)<Z(B(n)))))
    out.append(z3.Implies(n<=0,t==0))
    p=poly(n); c=p.cval()
    if c>=1 and (p.isconst() or True):
        n1=norm(sub(n,1)); L('val_succ')
        out.append(implies(ile(0,n1),t==add(val(a,n1),mul(B(n1),sel(a,n1)))))
    k=k_(a)
    if k==Z3_OP_STORE:
        a0,j,x=a.arg(0),a.arg(1),a.arg(2); L('val_store')
        out.append(implies(lor(ilt(j,0),ile(n,j)),t==val(a0,n)))
        out.append(implies(land(ile(0,j),ilt(j,n)),t==Z(val(a0,n))+Z(mul(B(j),sub(x,sel(a0,j))))))
    elif k==Z3_OP_ITE:
        out.append(z3.If(a.arg(0),t==Z(val(a.arg(1),n)),t==Z(val(a.arg(2),n))))
    return [o for o in out if o is not True]
VALSPLIT=[False]; MONO=[0]
TAIL=z3.Function('tail',ArrS(IntS),IntS,IntS,IntS)
def split_lemma(t,o):
    if eid(t)==eid(o) or not t.arg(0).eq(o.arg(0)): return []
    n,k=t.arg(1),o.arg(1)
    d=cdiff(n,k)
    if d is not None: return []
    L('val_split'); out=[]
    for a,b in ((t,o),(o,t)):
        g=land(ile(0,b.arg(1)),ile(b.arg(1),a.arg(1)))
        if g is False: continue
        x=TAIL(a.arg(0),b.arg(1),a.arg(1))
        out.append(implies(g,a==b+Z(mul(B(b.arg(1)),x))))
    return out
STEP64=[False]
def p2_lemmas(t,others):
    e=t.arg(0); out=[t>=1, z3.Implies(e>=1,t>=2), z3.Implies(e==0,t==1)]
    p=poly(e); L('P2')
    pos=Poly({m:c for m,c in p.items() if c>0}); ng=Poly({m:-c for m,c in p.items() if c<0})
    if ng:
        out.append(implies(le(0,e),eq(mul(t,P2(unpoly(ng))),P2(unpoly(pos)))))
        lo,hi=iv(e)
    lo,hi=iv(e)
    if hi is not None and lo is not None and hi<=256:
        out.append(z3.Implies(z3.And(e>=lo,e<=hi),z3.And(t>=(2**max(lo,0)),t<=2**hi)))
    for K in (30,31,32,63,64):
        if lo is not None and lo>=K or hi is not None and hi<K: continue
        out.append(z3.And(z3.Implies(e>=K,t>=2**K),z3.Implies(z3.And(e>=0,e<K),t<=2**(K-1))))
    for o in others:
        # monotone
        f=o.arg(0)
        d=cdiff(e,f)
        if d is None and ng or any(c<0 for c in poly(f).values()):
            dp=poly(e)-poly(f)
            if dp and all(c>0 for c in dp.values()): out.append(implies(ile(0,f),eq(t,mul(o,P2(unpoly(dp))))))
            elif dp and all(c<0 for c in dp.values()): out.append(implies(ile(0,e),eq(o,mul(t,P2(unpoly(dp.scale(-1)))))))
        if d is None or d!=0: 
            out.append(z3.And(z3.Implies(z3.And(f>=0,e>=f),t>=o),z3.Implies(z3.And(e>=0,f>=e),o>=t)))
            if d is None and STEP64[0] and all(int(c)%64==0 for c in p.values()) and all(int(c)%64==0 for c in poly(f).values()):
                out.append(z3.And(z3.Implies(z3.And(f>=0,e>=f+64),t>=2**64*o),z3.Implies(z3.And(e>=0,f>=e+64),o>=2**64*t)))
    return [o for o in out if o is not True]

GEN=[1000]
SCOPE={}     # terms of the current saturation, for lemma hooks relating several of them
def saturate(facts,goal_terms,qfacts,max_terms=60000,rounds=12):
    """returns the list of all facts (z3 BoolRefs) to assert"""
    out=[]; seen=set(); done=set(); p2=[]; vals=[]
    byt={}; SCOPE.clear()
    for q in qfacts: byt.setdefault(q.decl,[]).append(q)
    work=[]
    cur=[0]
    def push(f,dg=0):
        if cur[0]+dg>GEN[0]: return
        if isinstance(f,bool):
            if not f: out.append(z3.BoolVal(False))
            return
        i=eid(f)
        if ('f',i) in done: return
        done.add(('f',i)); out.append(f); work.append((f,cur[0]+dg))
    for f in facts: push(f)
    for g in goal_terms:
        if isz(g): work.append((g,0))
    count=0
    while work:
        e,cur[0]=work.pop()
        stack=[e]
        while stack:
            x=stack.pop()
            i=eid(x)
            if i in seen: continue
            seen.add(i)
            if not z3.is_app(x): continue
            count+=1
            if count>max_terms: return out
            stack.extend(x.children())
            d=x.decl(); k=d.kind()
            if k==z3.Z3_OP_UNINTERPRETED:
                n=d.name()
                df=REG.defs.get(n)
                if df is not None:
                    P,fs=df
                    if x.num_args()==len(P):
                        sub=[(p,a) for p,a in zip(P,x.children())]
                        for f in fs: push(z3.substitute(f,*sub) if sub else f)
                if n=='val':
                    for f in val_lemmas(x): push(f)
                    for o in vals:
                        if VALSPLIT[0]:
                            for f in split_lemma(x,o): push(f)
                        if MONO[0] and o.arg(0).eq(x.arg(0)):
                            L('val_mono')
                            for a,b in ((x,o),(o,x)):
                                g=ile(a.arg(1),b.arg(1))
                                if g is False or cdiff(a.arg(1),b.arg(1)) is not None: continue
                                push(implies(g,Z(a)<=Z(b)))
                                if MONO[0]>1: push(z3.Implies(land(g,Z(b)==0) if g is not True else Z(b)==0,Z(a)==0))
                    vals.append(x)
                elif n=='P2':
                    for f in p2_lemmas(x,p2): push(f)
                    p2.append(x)
                h=REG.pure.get(n)
                if h:
                    for f in h(x): push(f)
                for q in byt.get(n,()):
                    if not q.J:
                        key=(id(q),i)
                        if key in done: continue
                        done.add(key)
                        for f in q.inst(x.children(),[]): push(f,1)
            elif k==Z3_OP_SELECT:
                idx=[]; b=x
                while k_(b)==Z3_OP_SELECT:
                    idx.insert(0,b.arg(1)); b=b.arg(0)
                if b.decl().kind()==z3.Z3_OP_UNINTERPRETED:
                    n=b.decl().name()
                    ef=REG.elem.get(n)
                    if ef is not None:
                        for f in ef(x,idx): push(f)
                    for q in byt.get(n,()):
                        m=len(q.J)
                        if m==0 or m!=len(idx): 
                            if m==0 or m>len(idx): continue
                            # prefix select will be visited itself
                            continue
                        key=(id(q),i)
                        if key in done: continue
                        done.add(key)
                        for f in q.inst(b.children(),idx): push(f,1)
                # read over store on non-simplified terms
                a=x.arg(0)
    return out

class Result:
    def __init__(s,status,why='',model=None,t=0,backend='z3',facts=None): s.status=status;s.why=why;s.model=model;s.t=t;s.backend=backend;s.facts=facts
    @property
    def ok(s): return s.status=='proved'

STATS={'z3':0,'z3_t':0.0,'cert':0,'cert_t':0.0,'trivial':0,'cvc5':0,'cvc5_t':0.0}

ZCPU=[0.0]
def pclock():
    # processor time outside z3: budgets of the certificate search do not depend on machine load
    return time.process_time()-ZCPU[0]
def z3check(asserts,timeout=10000,seed=0,tactic=None):
    s=z3.SolverFor(tactic) if tactic else z3.Solver()
    s.set('timeout',3*timeout); s.set('rlimit',timeout*(200 if timeout<=400 else 1000 if timeout<=800 else 3000))
    if seed: 
        s.set('random_seed',seed)
    for a in asserts: s.add(a)
    t=time.time(); c=time.process_time(); r=s.check(); dt=time.time()-t
    STATS['z3_t']+=dt; ZCPU[0]+=time.process_time()-c
    return r,(s.model() if r==z3.sat else None),dt

def split_facts(facts):
    pl=[];qf=[]
    for f in facts:
        if isinstance(f,QFact): qf.append(f)
        elif f is True: pass
        else: pl.append(f)
    return pl,qf

def prove(facts,goal,timeout=10000,interest=()):
    """goal: z3 bool / python bool / Cong"""
    if goal is True: STATS['trivial']+=1; return Result('proved',backend='trivial')
    pl,qf=split_facts(facts)
    if isinstance(goal,Cong) and goal.rng is not None and goal.wit is not None:
        b=land(le(goal.rng[0],goal.wit),le(goal.wit,goal.rng[1]))
        r=prove(facts+([goal.guard] if goal.guard is not True else []),b if isinstance(b,bool) else Z(b),timeout,interest)
        if r.ok: r=prove(facts,Cong(goal.x,add(goal.y,goal.wit),goal.m,goal.guard),timeout,interest)
        if r.ok: return r
    if isinstance(goal,Cong): 
        NEAR[0]=goal.rng; NEARC.clear()
        try: return prove_cong(pl,qf,goal,timeout,interest)
        finally: NEAR[0]=None
    if goal is False: gz=z3.BoolVal(False)
    else: gz=goal
    # peel
    while z3.is_implies(gz): 
        pl=pl+[gz.arg(0)]; gz=gz.arg(1)
    if z3.is_and(gz):
        for g in gz.children():
            r=prove(facts+pl[len(split_facts(facts)[0]):],g,timeout,interest)
            if not r.ok: return r
        return r
    # x = MODN(v,m): residue in range (uniqueness of the residue)
    mn=None
    if z3.is_eq(gz) and gz.arg(0).sort()==IntS:
        for u,w in ((gz.arg(0),gz.arg(1)),(gz.arg(1),gz.arg(0))):
            if k_(w)==z3.Z3_OP_UNINTERPRETED and w.decl().name()=='MODN': mn=(u,w)
    fs=saturate(pl,[gz]+list(interest),qf)
    r,m,dt=z3check(fs+[z3.Not(gz)],timeout if mn is None else 1000)
    STATS['z3']+=1
    if mn is not None and r!=z3.unsat:
        u,w=mn
        if k_(u)==Z3_OP_ITE:
            for c,v in ((u.arg(0),u.arg(1)),(z3.Not(u.arg(0)),u.arg(2))):
                g2=v==w; p2_=pl+[c]
                if z3.is_eq(c):
                    for x_,y_ in ((c.arg(0),c.arg(1)),(c.arg(1),c.arg(0))):
                        if k_(x_)==z3.Z3_OP_UNINTERPRETED and x_.num_args()==0 and x_.sort()==IntS and x_.decl().name().startswith('sk'):
                            sb=lambda e: z3.substitute(e,(x_,y_)); g2=sb(g2); p2_=[sb(f) for f in pl]; break
                rr=prove(p2_+qf,g2,timeout,interest)
                if not rr.ok: return rr
            return Result('proved',backend='cert')
        u,w=mn; all_=facts+pl[len(split_facts(facts)[0]):]
        rr,_,_=z3check(fs+[z3.Not(z3.And(u>=0,u<w.arg(1),w.arg(1)>0))],timeout)
        if rr==z3.unsat and prove_cong(pl,qf,Cong(u,w.arg(0),w.arg(1)),timeout,interest).ok: return Result('proved',backend='cert')
        return Result('sat' if r==z3.sat else 'unknown',why='residue',facts=fs)
    if r==z3.unsat: return Result('proved',t=dt)
    if r==z3.sat:
        return Result('sat',model=m,t=dt,facts=fs)
    # equality: try a certificate
    if z3.is_eq(gz) and gz.arg(0).sort()==IntS or z3.is_eq(gz) and gz.arg(0).sort()==RealS:
        if prove_cong(pl,qf,Cong(gz.arg(0),gz.arg(1),None),timeout,interest).ok:
            return Result('proved',backend='cert')
    for seed in (7,):
        r,m,dt=z3check(fs+[z3.Not(gz)],timeout,seed)
        if r==z3.unsat: return Result('proved',t=dt)
        if r==z3.sat: return Result('sat',model=m,t=dt,facts=fs)
    return Result('unknown',why='z3 unknown/timeout',facts=fs)

def equalities(fs,deep=False):
    out=[]
    for f in fs:
        st=[f]
        while st:
            g=st.pop()
            if deep and z3.is_implies(g) and has_eq(g.arg(1)):
                if entailed(fs,g.arg(0)): st.append(g.arg(1))
                continue
            if z3.is_and(g): st.extend(g.children())
            elif z3.is_eq(g) and (g.arg(0).sort()==IntS or g.arg(0).sort()==RealS):
                p=poly(g.arg(0))-poly(g.arg(1))
                if p: out.append(p)
    return out

def has_eq(g):
    return z3.is_implies(g) and has_eq(g.arg(1)) or z3.is_eq(g) and g.arg(0).sort() in(IntS,RealS) or z3.is_and(g) and any(has_eq(c) for c in g.children())
def entailed(fs,g,lim=800):
    if light(g): fs=[f for f in fs if light(f)]
    key=(tuple(sorted(eid(f) for f in fs)),eid(g))
    if key in _ent: return _ent[key]
    r,_,_=z3check(list(fs)+[z3.Not(g)],lim)
    _ent[key]=r==z3.unsat
    return r==z3.unsat
def mdeg(m,a):
    for x,e in m:
        if x==a: return e
    return 0
def divide_by(p,q):
    """p = sum over monomials divisible by monomial q -> quotient; else None"""
    r=Poly()
    dq=dict(q)
    for m,c in p.items():
        d=dict(m)
        for a,e in dq.items():
            if d.get(a,0)<e: return None
            d[a]-=e
            if d[a]==0: del d[a]
        r[tuple(sorted(d.items()))]=c
    return r
def divisible(m,q):
    d=dict(m)
    return all(d.get(a,0)>=e for a,e in q)

def psubst(p,a,r):
    """substitute atom a := poly r"""
    if not any(x==a for m in p for x,_ in m): return p
    out=Poly(); pw={0:Poly.const(1),1:r}
    for m,c in p.items():
        e=mdeg(m,a)
        if not e:
            v=out.get(m,0)+c
            if v: out[m]=v
            else: out.pop(m,None)
            continue
        rest=tuple(x for x in m if x[0]!=a)
        while e not in pw: pw[max(pw)+1]=pw[max(pw)]*r
        out=out+Poly({rest:c})*pw[e]
    return out
LASTG=[None]; NEAR=[None]; NEARC={}
def cert2(fs,p,Q,deep=False):
    """eliminate atoms by the defining equations, then test the residue"""
    t0=pclock(); LASTG[0]=None
    eqs=[Poly(e) for e in equalities(fs,deep)]
    bin_=[]
    goal=p
    def residue_ok(g):
        if NEAR[0] is not None and len(g)<60: return near_ok(g)
        if Q is None: return not g
        return multQ(g)
    def near_ok(g):
        qm,qc=Q
        rest=Poly({m:c for m,c in g.items() if not(divisible(m,qm) and Fraction(c).denominator==1 and int(c)%qc==0)})
        if not rest: e=0
        elif len(rest)>3: return False
        else: e=unpoly(rest)
        lo,hi=NEAR[0]
        Qe=unpoly(Poly({qm:qc}))
        for e2 in (e,sub(e,Qe),add(e,Qe)):
            gl=land(le(lo,e2),le(e2,hi))
            if gl is True: return True
            if gl is False: continue
            k=eid(Z(gl))
            if k not in NEARC: NEARC[k]=entailed(fs,Z(gl),400)
            if NEARC[k]: return True
        return False
    def multQ(g):
        qm,qc=Q
        for m,c in g.items():
            if Fraction(c).denominator!=1: return False
            c=int(c)
            if divisible(m,qm) and c%qc==0: continue
            # a missing factor P2(x), x<=K, divides 2^K
            d=dict(m)
            for a,e in qm:
                k=e-min(e,d.get(a,0))
                if not k: continue
                u=p2ub(a)
                if u is None: return False
                if c%(2**(u*k)): return False
                c//=2**(u*k)
            if c%qc: return False
        return True
    if residue_ok(goal): return True
    pend=list(eqs)
    qat=set(a for a,_ in (Q[0] if Q else ()))
    while pend:
        if pclock()-t0>10: return None
        # relevance: only equations sharing atoms with the goal
        ga=set(a for m in goal for a,_ in m)
        best=None
        for i,e in enumerate(pend):
            if len(e)>400: continue
            for m,c in e.items():
                if len(m)==1 and m[0][1]==1 and abs(c)==1:
                    a=m[0][0]
                    if a in qat or k_(_keep_get(a)) == z3.Z3_OP_UNINTERPRETED and _keep_get(a).decl().name()=='P2': continue
                    if sum(1 for mm in e if mdeg(mm,a))!=1: continue
                    sc=(a in ga, a)
                    if best is None or sc>best[0]: best=(sc,i,a,c)
        if best is None or (not best[0][0] and False): break
        if not best[0][0]:
            # no goal atom can be eliminated directly: eliminate elsewhere anyway
            pass
        _,i,a,c=best
        e=pend.pop(i)
        r=Poly({m:-x*c for m,x in e.items() if m!=((a,1),)})
        goal=psubst(goal,a,r)
        pend=[q for q in (psubst(q,a,r) for q in pend) if q]
        if len(goal)>3000: return None
        if residue_ok(goal): return True
    # binomial rules  monomial = rest
    rules=[]
    for e in pend:
        if len(e)==1: e=Poly({m:1 for m in e})       # c*m = 0
        elif Q:                                      # the goal is a congruence modulo Q
            e=Poly({m:c for m,c in e.items() if not(divisible(m,Q[0]) and Fraction(c).denominator==1 and int(c)%Q[1]==0)})
            if not e: continue
        ms=sorted(e,key=lambda m:-sum(x for _,x in m))
        if len(e)<=3 and ms[0] and abs(e[ms[0]])==1 and sum(x for _,x in ms[0])>=2 and (len(ms)<2 or sum(x for _,x in ms[1])<sum(x for _,x in ms[0])):
            rules.append((ms[0],Poly({m:-c*e[ms[0]] for m,c in e.items() if m!=ms[0]})))
    for _ in range(60):
        ch=False
        for lm,r in rules:
            for m in list(goal):
                if m in goal and divisible(m,lm) and not (Q and divisible(m,Q[0]) and int(goal[m])%Q[1]==0):
                    c=goal[m]; d=dict(m)
                    for a,x in lm:
                        d[a]-=x
                        if not d[a]: del d[a]
                    g=Poly(goal); del g[m]
                    goal=g+Poly({tuple(sorted(d.items())):c})*r; ch=True
        if residue_ok(goal): return True
        if not ch: break
    LASTG[0]=goal
    return None
def p2ub(a):
    e=_keep_get(a)
    if not(z3.is_app(e) and e.decl().name()=='P2'): return None
    lo,hi=iv(e.arg(0))
    return int(hi) if hi is not None and hi<5000 else None
def _keep_get(a): return terms._keep[a]
def cert(fs,p,Q,extra_mult=()):
    t0=pclock()
    r=cert2(fs,p,Q)
    imp=any(z3.is_implies(f) and has_eq(f.arg(1)) for f in fs)
    if r is None and imp: r=cert2(fs,p,Q,True)
    STATS['cert_t']+=pclock()-t0
    if r is not None or NEAR[0] is not None: return r
    return cert1(fs,p,Q)
def cert1(fs,p,Q,deep=False):
    """find c_j, monomials m_j with p + sum c_j m_j E_j in Q*Z[..] (Q a monomial with coefficient qc, or None for 0).
       returns the witness polynomial (or True) or None"""
    t0=pclock()
    eqs=equalities(fs,deep)
    qm,qc=(None,1) if Q is None else Q
    def strip(x):
        if qm is None: return dict(x)
        out={}
        for m,c in x.items():
            if divisible(m,qm):
                if qc==1 or c%qc==0: continue
            out[m]=c
        return out
    # relevance: keep equalities connected with the goal through monomials
    atoms=set(a for m in p for a,_ in m)
    # multipliers: 1 and P2 atoms / atoms of goal monomials
    mults=[()]
    pat=set()
    for m in p:
        for a,e in m:
            pat.add(a)
    def try_(mults):
        cols=[]
        for E in eqs:
            for mm in mults:
                ex=E if mm==() else Poly({mmul(m,mm):c for m,c in E.items()})
                s=strip(ex)
                cols.append((ex,s))
        # gaussian elimination, goal-directed sparse
        tgt={m:Fraction(c) for m,c in strip(p).items()}
        full=Poly(p)
        piv={}  # monomial -> (stripped row, full row) normalised to 1 at the pivot
        order=sorted(range(len(cols)),key=lambda i:len(cols[i][1]))
        for i in order:
            ex,s=cols[i]
            row={m:Fraction(c) for m,c in s.items()}; fr=Poly({m:Fraction(c) for m,c in ex.items()})
            # reduce by pivots
            ch=True
            while ch:
                ch=False
                for m in list(row):
                    if m in piv and m in row:
                        pr,pf=piv[m]; c=row[m]
                        for mm_,cc in pr.items():
                            v=row.get(mm_,0)-c*cc
                            if v: row[mm_]=v
                            else: row.pop(mm_,None)
                        fr=fr-pf.scale(c); ch=True
                        break
            if not row: continue
            # pivot choice: unit coefficient preferred
            pm_=None
            for m,c in row.items():
                if abs(c)==1 and m!=(): pm_=m; break
            if pm_ is None:
                for m in row:
                    if m!=(): pm_=m; break
            if pm_ is None: continue
            c=row[pm_]
            piv[pm_]=({m:x/c for m,x in row.items()},fr.scale(1/c))
            if pclock()-t0>5: return None
        n=0
        while tgt:
            hit=None
            for m in tgt:
                if m in piv: hit=m; break
            if hit is None: return None
            pr,pf=piv[hit]; c=tgt[hit]
            for mm_,cc in pr.items():
                v=tgt.get(mm_,0)-c*cc
                if v: tgt[mm_]=v
                else: tgt.pop(mm_,None)
            full=full-pf.scale(c)
            n+=1
            if n>20000: return None
        return full
    r=try_([()])
    if r is None:
        ms=[((a,1),) for a in pat]
        r=try_([()]+ms)
    STATS['cert_t']+=pclock()-t0
    if r is None: return None
    if qm is None: return True if not r else None
    w=divide_by(r,qm)
    if w is None: return None
    w=Poly({m:Fraction(c)/qc for m,c in w.items()})
    if any(Fraction(c).denominator!=1 for c in w.values()): return None
    return w

def as_monomial(Q):
    p=poly(Q)
    if len(p)!=1: return None
    (m,c),=p.items()
    return (m,int(c))

def find_ites(ts):
    out=[];seen=set();st=list(ts)
    while st:
        x=st.pop()
        if not isz(x): continue
        i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if k_(x)==Z3_OP_ITE: out.append(x.arg(0))
            st.extend(x.children())
    return out

def ghosts(fs):
    out={};ws={};seen=set();st=[f for f in fs if isz(f)]
    idx={}
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            d=x.decl()
            if d.kind()==z3.Z3_OP_UNINTERPRETED:
                if d.arity()==0 and d.name().startswith('t!') or d.name().startswith('t_t'): out[i]=x
                if d.arity()==0 and d.name()[:2] in ('w!','q!') or d.name().startswith('w_t'): ws[i]=x
                if d.name()=='P2': 
                    e=x.arg(0); p=poly(e)
                    if all(int(c)%64==0 for c in p.values()): idx[eid(e)]=unpoly(Poly({m:int(c)//64 for m,c in p.items()}))
                    else: idx[eid(e)]=e
                if d.name()=='val': idx[eid(x.arg(1))]=x.arg(1)
                elif d.arity()>=2 and d.name() in HOOKS and x.arg(d.arity()-1).sort()==IntS: idx[eid(x.arg(d.arity()-1))]=x.arg(d.arity()-1)
            st.extend(x.children())
    return list(out.values()),list(idx.values()),list(ws.values())
def pins(fs):
    """ghost iteration counters whose value is determined by the facts: [(t,term)]"""
    gs,idx,ws=ghosts(fs)
    out=[]
    if not gs and not ws: return out
    fs=[f for f in fs if light(f)]
    r,m,_=z3check(fs,3000)
    if r!=z3.sat: return out
    for w in ws:
        wv=m.eval(w,model_completion=True)
        if entailed(fs,w==wv): out.append((w,wv))
    un=sorted([w for w in ws if not any(w.eq(a) for a,_ in out)],key=eid)
    used_=set()
    for i,w in enumerate(un if len(un)<=14 else []):
        if eid(w) in used_: continue
        for w2 in un[i+1:i+4]:
            if eid(w2) in used_: continue
            sv=z3.simplify(m.eval(w,model_completion=True)+m.eval(w2,model_completion=True))
            if entailed(fs,w+w2==sv):
                out.append((w,sv-w2)); used_|={eid(w),eid(w2)}; break
    for t in gs:
        ti=eid(t)
        tv=m.eval(t,model_completion=True)
        cand={}
        for a in idx:
            pa=poly(a)
            if mdeg_any(pa,ti)!=1 or pa.get(((ti,1),),0) not in(1,-1): continue
            for b in idx:
                pb=poly(b)
                if mdeg_any(pb,ti): continue
                # a=b  => t = ...
                k=pa[((ti,1),)]
                K=(pb-(pa-Poly({((ti,1),):k}))).scale(k)
                cand[tuple(sorted(K.items()))]=K
        for K in cand.values():
            e=unpoly(K)
            ev=m.eval(Z(e),model_completion=True)
            if not ev.eq(tv): continue
            if any(isz(q) and q.eq(t) for q in [e]): continue
            if entailed(fs,t==e):
                out.append((t,Z(e))); break
    return out
_light={}
def light(f):
    i=eid(f)
    if i in _light: return _light[i]
    r=True; st=[f]; seen=set()
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            d=x.decl()
            if d.kind()==z3.Z3_OP_UNINTERPRETED and d.arity()>0 and '_t!' not in d.name() and '_t_t!' not in d.name(): r=False; break
            st.extend(x.children())
    _light[i]=r
    return r
def mdeg_any(p,a):
    return max([mdeg(m,a) for m in p] or [0])
def resub(e,pins_):
    """substitute and renormalise P2/val applications"""
    e=z3.substitute(e,*pins_)
    memo={}
    def go(x):
        i=x.get_id()
        if i in memo: return memo[i]
        if z3.is_app(x) and x.num_args():
            ch=[go(c) for c in x.children()]
            d=x.decl()
            if d.kind()==z3.Z3_OP_UNINTERPRETED and d.name()=='P2': r=Z(P2(norm(ch[0])))
            elif d.kind()==z3.Z3_OP_UNINTERPRETED and d.name()=='val': r=Z(val(ch[0],ch[1]))
            elif d.kind()==Z3_OP_SELECT: r=Z(sel(ch[0],norm(ch[1])))
            elif d.kind()==z3.Z3_OP_UNINTERPRETED: r=d(*[Z(norm(c)) if c.sort()==IntS else c for c in ch])
            elif all(a.eq(b) for a,b in zip(ch,x.children())): r=x
            else: r=d(*ch)
        else: r=x
        memo[i]=r
        return r
    return go(e)
VALOK=[False]; MAXD=[5]
def prove_cong(pl,qf,g,timeout,interest,depth=0):
    if depth or not VALOK[0]: return prove_cong1(pl,qf,g,timeout,interest,depth)
    VALSPLIT[0]=False
    r=prove_cong1(pl,qf,g,timeout,interest,0)
    if r.ok: return r
    VALSPLIT[0]=True
    try: return prove_cong1(pl,qf,g,timeout,interest,0)
    finally: VALSPLIT[0]=False
def prove_cong1(pl,qf,g,timeout,interest,depth=0):
    NEARC.clear()
    pl=pl+([g.guard] if g.guard is not True else [])
    x,y,Q=g.x,g.y,g.m
    if g.guard is False: return Result('proved',backend='trivial')
    fs=saturate(pl,[t for t in (x,y,Q) if isz(t)]+list(interest),qf)
    ps=pins(fs)
    if ps:
        R=lambda e: resub(e,ps) if isz(e) else e
        pl=[R(f) for f in (fs if any(a.num_args() for a,_ in ps) else pl)]+[z3.substitute(a,*ps)==z3.substitute(b,*ps) for a,b in ps]
        qf=[QFact(q.decl,q.P,q.J,[R(b) for b in q.body],R(q.guard)) for q in qf]
        x,y=R(x),R(y); interest=[R(e) for e in interest]
        fs=saturate(pl,[t for t in (x,y,Q) if isz(t)]+list(interest),qf)
    Qm=as_monomial(Q) if Q is not None else None
    if Qm or Q is None:
        w=cert(fs,poly(x)-poly(y),Qm)
        if w is not None:
            STATS['cert']+=1
            return Result('proved',backend='cert')
    if depth<MAXD[0]:
        cs=find_ites([x,y])
        resid=False
        if not cs and LASTG[0] is not None: 
            cs=find_ites([terms._keep[a] for m in LASTG[0] for a,_ in m]); resid=bool(cs)
        if not cs: cs=find_ites([f for f in pl if z3.is_eq(f) and not z3.is_bool(f.arg(0))])
        if not cs: cs=find_ites([f for f in pl])[:6]
        seen=[]
        for c in cs:
            if find_ites([c]): continue
            def sub(e,v): return z3.simplify(z3.substitute(e,(c,z3.BoolVal(v)))) if isz(e) else e
            ok=True
            for v in (True,False):
                cc=c if v else z3.Not(c)
                r,_,_=z3check([f for f in fs if light(f)]+[cc],1000)
                if r!=z3.unsat: r,_,_=z3check(fs+[cc],300)
                if r==z3.unsat: continue
                s_=lambda e:(z3.substitute(e,(c,z3.BoolVal(v))) if isz(e) else e)
                pl2=[simp_ite(s_(f)) for f in (fs if resid else pl)]+[cc]
                rr=prove_cong(pl2,[] if resid else [QFact(q.decl,q.P,q.J,q.body,q.guard) for q in qf],Cong(simp_ite(s_(x)),simp_ite(s_(y)),Q),timeout,interest,depth+1)
                if not rr.ok: ok=False; break
            if ok: return Result('proved',backend='cert')
            break
    # falsification attempt: z3 with explicit quotient
    k=z3.FreshInt('k')
    return Result('unknown',why='no congruence certificate',facts=fs)

def simp_ite(e):
    if not isz(e): return e
    memo={}
    def go(x):
        i=x.get_id()
        if i in memo: return memo[i]
        if z3.is_app(x) and x.num_args():
            ch=[go(c) for c in x.children()]
            if k_(x)==Z3_OP_ITE and z3.is_true(ch[0]): r=ch[1]
            elif k_(x)==Z3_OP_ITE and z3.is_false(ch[0]): r=ch[2]
            elif all(a.eq(b) for a,b in zip(ch,x.children())): r=x
            elif k_(x)==z3.Z3_OP_AND:
                r=land(*[True if z3.is_true(c) else False if z3.is_false(c) else c for c in ch]); r=Z(r)
            elif k_(x)==z3.Z3_OP_OR:
                r=lor(*[True if z3.is_true(c) else False if z3.is_false(c) else c for c in ch]); r=Z(r)
            elif k_(x)==z3.Z3_OP_IMPLIES:
                r=Z(implies(True if z3.is_true(ch[0]) else False if z3.is_false(ch[0]) else ch[0],ch[1]))
            else: r=x.decl()(*ch)
        else: r=x
        memo[i]=r
        return r
    return go(e)
