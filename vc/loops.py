"""Loops: concrete unrolling, else the invariant rule (havoc / initiation / preservation) with
 - induction variables and loop-condition facts that hold by construction,
 - user invariants from the contract of the function under verification (filtered Houdini style: only
   candidates that are initiated and preserved survive; survivors are recorded as obligations),
 - frame facts for arrays written at one index per iteration, and the value written there
   (everything created by one iteration becomes a function of the iteration number)."""
import re
import z3
from terms import *
import terms, solve
from solve import REG, QFact, Cong, iv, setiv
import engine as EG
from engine import *

class Ctx:
    """what a contract sees of a loop"""
    def __init__(s,E,entry,n,mods,t):
        s.E=E; s.entry=entry; s.n=n; s.mods=mods; s.t=t
        s.scalars=[]; s.arrays=[]; s.env=dict(entry.env); s.iv={}

def evalcond(E,st,n):
    if n.c is None: return True
    return E.rcond(st,n.c)

def body_once(E,st,n):
    """run body and increment; list of (kind,state,value)"""
    outs=[]
    env=st.env
    for k,q,v in E.ex(st,n.body):
        if k in('normal','continue'):
            q.env=dict(env)
            if n.inc is not None:
                E.curst=q; E.ev(q,n.inc)
            outs.append(('normal',q,None))
        else: outs.append((k,q,v))
    return outs

def loop(E,st,n):
    if getattr(n,'pragma',None) and 'omp' in n.pragma and not E.dry and not E.norace:
        E.ompseen.append(E.loc(n))
    if E.mode!='bounded' and not concrete_loop(E,st,n):
        return rule(E,st,n)
    live=[st]; res=[]; it=0
    dyn=dynstart(E,st,n) if E.dynlog is not None else None
    while live:
        nx=[]
        for q in live:
            E.curst=q
            if dyn: dynstep(E,q,n,dyn,it)
            nf=len(q.facts)
            c=evalcond(E,q,n)
            if c is False: res.append(('normal',q,None)); continue
            if c is not True:
                if E.mode=='bounded':
                    a=q.copy(); a.add(c); b=q; b2=q.copy(); b2.add(lnot(c))
                    fa=E.feasible(a); fb=E.feasible(b2) if fa else True
                    if fb: res.append(('normal',b2 if fa else q,None))
                    if not fa: continue
                    q=a if fb else q
                else:
                    # condition undetermined: invariant rule from here (cond is re-evaluated there)
                    res+=rule(E,q,n); continue
            it+=1
            if it>E.maxunroll: raise VError(f'unrolling limit at {E.loc(n)}')
            try: outs=body_once(E,q,n)
            except Infeasible: continue
            for k,q2,v in outs:
                if k=='normal': nx.append(q2)
                elif k=='break': res.append(('normal',q2,None))
                else: res.append((k,q2,v))
        if len(nx)>64 :
            raise VError('too many paths in unrolled loop')
        live=nx
    # merge normal exits into one state when they are many
    nrm=[o for o in res if o[0]=='normal']
    if len(nrm)>1 and E.mode=='bounded':
        oth=[o for o in res if o[0]!='normal']
        s2,_=E.join([(o[1],None) for o in nrm]); s2.env=nrm[0][1].env
        return oth+[('normal',s2,None)]
    return res

def lockey(E,n): return n.loc if hasattr(n,'loc') else id(n)
def dynstart(E,st,n):
    """concrete run: candidate invariants of this loop"""
    ctx=Ctx(E,st.copy(),n,[],None)
    sc=[];ar=[]
    for r,c in st.store.items():
        for p,l in cleaves(c):
            pp=tuple(('f',x) if isinstance(x,str) else ('i',x) for x in p)
            if isinstance(l,Leaf) and l.t[0] in 'ibdZ' and l.v is not None and len(sc)<40: sc.append(((r,pp),l.t))
        def go(c,path):
            if isinstance(c,CA):
                ar.append((r,path))
                for i,v in enumerate(c.e[:64]): go(v,path+(('i',i),))
            elif isinstance(c,SA): ar.append((r,path))
            elif isinstance(c,St):
                for k,v in c.f.items(): go(v,path+(('f',k),))
        go(c,())
    ctx.scalars=sc; ctx.arrays=ar; ctx.ind={}; ctx.frames=[]; ctx.head=st
    out=[]
    for pv in E.invproviders:
        try:
            for nm,g in pv(ctx): out.append((nm,g))
        except (VError,TrialFail,KeyError,AttributeError,TypeError,IndexError): pass
    return out
def dyntrue(f):
    if f is None: return False
    if isinstance(f,list): return all(dyntrue(x) for x in f)
    if isinstance(f,Cong):
        if f.guard is False: return True
        if f.rng is not None: return None
        if all(isinstance(q,int) for q in (f.x,f.y,f.m)): return f.m!=0 and (f.x-f.y)%f.m==0
        return None
    if isinstance(f,bool): return f
    return None
def dynstep(E,q,n,dyn,it):
    k=lockey(E,n)
    for nm,g in dyn:
        if (k,nm) in E.dynlog: continue
        try: v=dyntrue(g(q,it))
        except (VError,TrialFail,KeyError,AttributeError,TypeError,IndexError): v='err'
        E.dynseen.setdefault((k,nm),set()).add(v)
        if v is False: E.dynlog.add((k,nm))
def concrete_loop(E,st,n):
    """does the loop condition stay decided by concrete values until it is false?"""
    E.dry+=1; w0,a0=E.wlog,E.acclog; E.wlog=None; E.acclog=None
    try:
        live=[st.copy()]; it=0
        while live:
            nx=[]
            for q in live:
                E.curst=q; E.noiv+=1
                try: c=evalcond(E,q,n)
                finally: E.noiv-=1
                if c is False: continue
                if c is not True: return False
                it+=1
                if it>E.maxunroll: return False
                try: outs=body_once(E,q,n)
                except Infeasible: continue
                nx+=[q2 for k,q2,v in outs if k=='normal']
            live=nx
        return True
    finally:
        E.dry-=1; E.wlog=w0; E.acclog=a0

# ------------------------------------------------------------------ modified locations
def newsym(E,x,mark):
    """does term x contain a symbol created after mark"""
    if not isz(x): return False
    st=[x]; seen=set()
    while st:
        e=st.pop(); i=e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(e):
            nm=e.decl().name()
            if e.decl().kind()==z3.Z3_OP_UNINTERPRETED and '!' in nm and REG.num.get(nm,0)>mark: return True
            st.extend(e.children())
    return False

def coarsen(E,log,store,mark):
    locs=set(); out=[]
    for root,path in log:
        if root not in store: continue
        c=store[root]; p=[]
        for k,x in path:
            if isinstance(c,Leaf): break
            if k=='i' and isz(x) and newsym(E,x,mark): break
            if isinstance(c,CA) and not isinstance(x,int): break
            p.append((k,norm(x) if k=='i' and isz(x) else x))
            if isinstance(c,St): c=c.f[x]
            elif isinstance(c,CA): c=c.e[x]
            else: c=c.tree
        out.append((root,tuple(p)))
    # remove overlaps
    ch=True
    while ch:
        ch=False
        uniq=[]
        for a in out:
            if not any(sameloc(a,b) for b in uniq): uniq.append(a)
        out=uniq
        for i,a in enumerate(out):
            for j,b in enumerate(out):
                if i==j or a[0]!=b[0]: continue
                r=relate(a[1],b[1])
                if r=='prefix': out=[x for x in out if x is not b]; ch=True; break
                if isinstance(r,int): # may overlap at position r: cut both
                    out=[x for x in out if x is not a and x is not b]+[(a[0],a[1][:r])]; ch=True; break
            if ch: break
    return out
def sameloc(a,b):
    return a[0]==b[0] and len(a[1])==len(b[1]) and all(k==k2 and (x==y if k=='f' or not(isz(x) or isz(y)) else same(x,y)) for (k,x),(k2,y) in zip(a[1],b[1]))
def relate(p,q):
    for i,((k,x),(k2,y)) in enumerate(zip(p,q)):
        if k=='f':
            if x!=y: return 'disjoint'
            continue
        if isinstance(x,int) and isinstance(y,int):
            if x!=y: return 'disjoint'
            continue
        d=cdiff(x,y)
        if d is not None and d!=0: return 'disjoint'
        if d is None: return i
    if len(p)<=len(q): return 'prefix' 
    return None

def run_logged(E,st,n):
    w0=E.wlog; E.wlog=[]
    try: outs=body_once(E,st,n)
    finally:
        log=E.wlog; E.wlog=w0
    if w0 is not None: w0.extend(log)
    return outs,log

def havoc_locs(E,st,mods,name='l'):
    """replace the modified locations by fresh content; returns {loc: content}"""
    for root,path in mods:
        c=E.get(st,st.store[root],path)
        def fresh(c,nd=0):
            if isinstance(c,Leaf) and c.t[0]=='p': return Leaf(c.t,None)
            if isinstance(c,St): return St({k:fresh(v) for k,v in c.f.items()})
            if isinstance(c,CA): return CA([fresh(v) for v in c.e])
            return E.havoc(c,name)
        new=fresh(c)
        st.store[root]=E.put(st,st.store[root],path,0,new)

def find_mods(E,st,n,mark):
    mods=[]; ptrs={}
    for rnd in range(8):
        h=st.copy(); havoc_locs(E,h,mods)
        setptrs(E,h,mods,ptrs,st)
        E.dry+=1
        try:
            E.curst=h
            c=evalcond(E,h,n)
            if c is not True and c is not False: h.add(c)
            outs,log=run_logged(E,h,n)
        finally: E.dry-=1
        new=coarsen(E,[(r,p) for r,p in log]+list(mods),st.store,mark)
        if len(new)==len(mods) and all(any(sameloc(a,b) for b in mods) for a in new): break
        mods=new
    else: raise VError('modified set does not stabilise')
    return mods,outs,h
def setptrs(E,h,mods,ptrs,entry):
    for root,path in mods:
        c=E.get(h,entry.store[root],path)
        if isinstance(c,Leaf) and c.t[0]=='p' and isinstance(c.v,Ptr) and c.v.lv is not None and c.v.idx is not None:
            k=(root,path)
            if ptrs.get(k)=='bad': continue
            idx=REG.fresh('pi',IntS)
            ptrs[k]=idx
            h.store[root]=E.put(h,h.store[root],path,0,Leaf(c.t,Ptr(c.v.lv,idx)))

def scalar_locs(E,st,mods):
    """(loc,type,value) of scalar leaves among modified locations"""
    out=[]
    for root,path in mods:
        c=E.get(st,st.store[root],path)
        if isinstance(c,Leaf): out.append(((root,path),c.t,c.v))
        elif isinstance(c,(St,CA)):
            for p,l in cleaves(c):
                if '*' in p: continue
                out.append(((root,path+tuple(('f',x) if isinstance(x,str) else ('i',x) for x in p)),l.t,l.v))
    return out
def array_locs(E,st,mods):
    out=[]
    def go(c,root,path):
        if isinstance(c,SA): out.append(((root,path),c))
        elif isinstance(c,St):
            for k,v in c.f.items(): go(v,root,path+(('f',k),))
        elif isinstance(c,CA):
            for i,v in enumerate(c.e): go(v,root,path+(('i',i),))
    for root,path in mods: go(E.get(st,st.store[root],path),root,path)
    return out
def rd(E,st,loc): return E.get(st,st.store[loc[0]],loc[1])
def wr(E,st,loc,c): st.store[loc[0]]=E.put(st,st.store[loc[0]],loc[1],0,c)

def linear_in(p,tid):
    """poly p = a + k*t with a free of t, k constant -> (a poly,k) or None"""
    a=Poly(); k=0
    for m,c in p.items():
        d=dict(m)
        if tid in d:
            if m!=((tid,1),): return None
            k=c
        else: a[m]=c
    return a,k

# ------------------------------------------------------------------ the rule
def rule(E,st,n):
    mark=REG.n
    entry=st
    race=getattr(n,'pragma',None) and 'omp' in n.pragma
    mods,outs0,h0=find_mods(E,entry,n,mark)
    # a fixed set of fresh head values
    head=entry.copy(); havoc_locs(E,head,mods)
    t=REG.fresh('t',IntS,rng=(0,None))
    ctx=Ctx(E,entry,n,mods,t)
    # ---- induction variables
    ind={}
    E.dry+=1
    try:
        h=head.copy(); ptr0={}
        setptrs(E,h,mods,ptr0,entry)
        for loc,ty,v in scalar_locs(E,h,mods):
            if ty[0]=='i' and isz(v): pass
        E.curst=h
        hs=h.copy()
        c=evalcond(E,h,n)
        if c is not True and c is not False: h.add(c)
        outs=body_once(E,h,n)
    finally: E.dry-=1
    norm_outs=[q for k,q,v in outs if k=='normal']
    for loc,ty,v in scalar_locs(E,hs,mods):
        e0=rd(E,entry,loc).v
        if ty[0]=='i' and norm_outs and e0 is not None and not (isz(e0) and z3.is_bv(e0)):
            ds=set()
            for q in norm_outs:
                v2=rd(E,q,loc).v
                d=cdiff(v2,v) if v2 is not None and v is not None else None
                if d is None and v2 is not None:   # invariant symbolic step
                    p=poly(v2)-poly(v)
                    u=unpoly(p)
                    if p and not newsym(E,u,mark): d=u
                ds.add(d if not isz(d) else ('s',pkey(d)))
                dd=d
            if len(ds)==1 and None not in ds and not (dd==0 if not isz(dd) else False):
                ind[loc]=('lin',dd)
            elif norm_outs:
                # geometric: v' = 2 v, or v' = v div 2
                g=set()
                for q in norm_outs:
                    v2=rd(E,q,loc).v
                    if peq(v2,mul(2,v)): g.add('dbl')
                    elif isz(v2) and E.divmemo.get(('div',eid(v),2)) is not None and E.divmemo[('div',eid(v),2)].eq(v2): g.add('half')
                    else: g.add(None)
                if len(g)==1 and None not in g:
                    g=g.pop(); r=geo(E,entry,e0,g,t)
                    if r is not None: ind[loc]=('geo',r)
        if ty[0]=='p' and loc in ptr0 and norm_outs:
            ds=set()
            for q in norm_outs:
                p2=rd(E,q,loc).v
                ok=isinstance(p2,Ptr) and p2.lv is not None and p2.lv.root==e0.lv.root and E.samepath(p2.lv.path,e0.lv.path) and p2.idx is not None
                ds.add(cdiff(p2.idx,ptr0[loc]) if ok else None)
            if len(ds)==1 and None not in ds: ind[loc]=('ptr',ds.pop())
    # ---- head values at iteration number tt
    def seti(s_,tt,force=True):
        for loc,(k,x) in ind.items():
            l=rd(E,s_,loc); e0=rd(E,entry,loc).v
            if k=='lin':
                nv=norm(add(e0,mul(x,tt)))
                if isz(nv):
                    setiv(nv,*irange(l.t))
                    if isinstance(x,int):
                        a,b=iv(e0)
                        if x>0: setiv(nv,a,None)
                        else: setiv(nv,None,b)
                wr(E,s_,loc,Leaf(l.t,nv))
            elif k=='geo':
                nv=x(tt); wr(E,s_,loc,Leaf(l.t,nv))
            else:
                p=e0; wr(E,s_,loc,Leaf(l.t,Ptr(p.lv,norm(add(p.idx,mul(x,tt))))))
    seti(head,t)
    for loc,(k,x) in ind.items():
        if k=='lin':
            v=rd(E,head,loc).v; lo,hi=irange(rd(E,head,loc).t)
            if isz(v): head.add(v>=lo,v<=hi)
        if k=='geo': head.add(*[f for f in x.facts(t) if f is not True])
    ctx.ind=ind; ctx.head=head
    ctx.scalars=[(loc,ty) for loc,ty,v in scalar_locs(E,head,mods) if loc not in ind and ty[0] in'ibdZ']
    ctx.arrays=[loc for loc,c in array_locs(E,head,mods)]
    # ---- loop condition facts by construction
    hc=head.copy()
    E.dry+=1
    try: E.curst=hc; c0=evalcond(E,hc,n)
    finally: E.dry-=1
    condfacts=[]
    if isz(c0):
        ats=[]; stk=[c0]
        while stk:
            a=stk.pop()
            if z3.is_and(a): stk.extend(a.children())
            else: ats.append(a)
        allowed=set([t.decl().name()])
        for a in ats:
            if not only_t(E,a,mark,t): continue
            prev=z3.substitute(a,(t,t-1))
            condfacts.append(z3.Implies(t>=1,prev))
            neg=z3.is_not(a); b=a.arg(0) if neg else a
            if neg and z3.is_eq(b):
                p=poly(b.arg(0))-poly(b.arg(1)); li=linear_in(p,eid(t))
                if li and abs(li[1])==1:
                    E_=unpoly(li[0].scale(-li[1]))   # t hits E_ at equality
                    condfacts.append(implies(le(0,E_),le(t,E_)))
        # induction by induction-variable bound when initial condition holds
        for a in ats:
            if not only_t(E,a,mark,t): continue
            i0=z3.substitute(a,(t,z3.IntVal(0)))
            fs=[f for f in entry.facts if not isinstance(f,RFact)]
            if not E.dry and solve.prove(fs,z3.simplify(i0) if False else i0,1500).ok:
                neg=z3.is_not(a); b=a.arg(0) if neg else a
                if z3.is_le(b) or z3.is_lt(b) or z3.is_ge(b) or z3.is_gt(b):
                    l,r=b.arg(0),b.arg(1)
                    if z3.is_ge(b) or z3.is_gt(b): l,r=r,l
                    strict=z3.is_lt(b) or z3.is_gt(b)
                    if neg: l,r=r,l; strict=not strict
                    li=linear_in(poly(l)-poly(r),eid(t))
                    if li and li[1]>0:
                        # l - r + (strict) <= 0 at t-1  =>  at t: l-r+strict <= k
                        condfacts.append(Z(l)-Z(r)+(1 if strict else 0)<=li[1])
    for f in condfacts: 
        if f is not True: head.add(f)
    tighten(E,head,ind,t,condfacts)
    # ---- frame facts for singly indexed arrays
    arrs=[]
    for loc,c in array_locs(E,head,mods):
        idx=write_index(E,n,head,loc,t,mark)
        arrs.append((loc,c,idx))
    frames=[]
    for loc,c,idx in arrs:
        if idx is None: continue
        b,k=idx
        fr=frame_facts(E,entry,head,loc,b,k,t)
        frames.append((loc,b,k))
        head.facts.extend(fr)
    ctx.frames=frames
    # ---- user invariants (Houdini)
    if E.dry:
        # only the effect set matters here
        E.logmods(mods)
        ex=head.copy(); E.curst=ex
        try:
            ce=evalcond(E,ex,n)
            if isz(ce): ex.add(lnot(ce))
        except VError: pass
        return [('normal',ex,None)]
    cands=[]
    key=(n.loc if hasattr(n,'loc') else id(n),tuple(id(f.func) for f in E.frames))
    for pv in E.invproviders:
        for nm,g in pv(ctx): cands.append((nm,g))
    # names independent of the numbering of local objects
    cnt_={}; cs_=[]
    for nm,g in cands:
        b_=re.sub(r'#\d+','',nm); cnt_[b_]=cnt_.get(b_,0)+1
        cs_.append((b_ if cnt_[b_]==1 else f'{b_}~{cnt_[b_]}',g))
    cands=cs_
    if E.dynbad: cands=[c for c in cands if (lockey(E,n),c[0]) not in E.dynbad]
    surv=cands
    if key in E.houdini: 
        names=E.houdini[key]; surv=[c for c in cands if c[0] in names]
    # initiation
    keep=[]
    ent0=entry.copy(); seti(ent0,0) if False else None
    for nm,g in surv:
        try: f=g(entry,0)
        except (VError,TrialFail,KeyError,AttributeError,TypeError): continue
        if f is None: continue
        if prove_fact(E,entry,f,1500): keep.append((nm,g))
        elif E.verbose: print('   init fails',nm,E.loc(n))
    surv=keep
    while True:
        hs=head.copy()
        for nm,g in surv: addfact(hs,g(hs,t))
        if not surv: break
        E.assume+=1; acch=E.acclog; E.acclog=None
        try:
            b=hs.copy(); E.curst=b
            c=evalcond(E,b,n)
            if isz(c): b.add(c)
            outs=body_once(E,b,n) if c is not False else []
        except Infeasible: outs=[]
        finally: E.assume-=1; E.acclog=acch
        bad=set(); refuted=set()
        for k,q,v in outs:
            if k!='normal': continue
            for nm,g in surv:
                if nm in bad: continue
                try: f=g(q,add(t,1))
                except (VError,TrialFail,KeyError,AttributeError,TypeError): bad.add(nm); continue
                if not prove_fact(E,q,f,E.timeout if E.assume==0 else 4000):
                    bad.add(nm)
                    if getattr(E,'laststat','')=='sat': refuted.add(nm)
        if refuted and getattr(E.top,'satfirst',False): bad=refuted     # candidates with a counterexample first
        if E.verbose and bad: print('   not preserved',bad,E.loc(n))
        if not bad: break
        surv=[c for c in surv if c[0] not in bad]
    E.houdini[key]=set(nm for nm,g in surv)
    ctx.surv=surv
    # ---- recorded pass
    hs=head.copy()
    for nm,g in surv:
        addfact(hs,g(hs,t))
        if not E.assume:
            E.obs.append(Ob('loop invariant '+nm+' (initiation)','invariant',E.loc(n),solve.Result('proved')))
            E.obs.append(Ob('loop invariant '+nm+' (preservation)','invariant',E.loc(n),solve.Result('proved')))
    b=hs.copy(); E.curst=b
    m1=REG.n
    c=evalcond(E,b,n)
    if isz(c): b.add(c)
    acc0=E.acclog
    if race and not E.assume: E.acclog=[]
    try: 
        try: outs=body_once(E,b,n) if c is not False else []
        except Infeasible: outs=[]
    finally:
        mylog=E.acclog; E.acclog=acc0
        if acc0 is not None and mylog is not acc0: acc0.extend(mylog)
    res=[]
    if race and not E.assume:
        check_race(E,n,entry,b,mylog,t,mark)
    nouts=[q for k,q,v in outs if k=='normal']
    for k,q,v in outs:
        if k=='break': res.append(('normal',q,None))
        elif k!='normal': res.append((k,q,v))
    # ---- exit
    ex=hs.copy(); E.curst=ex
    ce=evalcond(E,ex,n)
    if isz(ce): ex.add(lnot(ce))
    if surv and isz(ce) and E.top is not None and getattr(E.top,'exitinst',False):
        for E_ in exit_counts(E,ex,ce,t,mark):
            for nm,g in surv: addfact(ex,g(ex,E_))
            q=eq(t,E_)
            if isz(q): ex.add(q)
    # ---- values written per iteration
    if frames and nouts:
        try: genfacts(E,entry,hs,ex,nouts,frames,t,mark)
        except VError as e:
            E.notes.append(('map',E.loc(n),str(e)))
    return res+[('normal',ex,None)]

def addfact(st,f):
    if f is None: return
    if isinstance(f,(list,tuple)) and not (isinstance(f,tuple) and f and f[0]=='ring'):
        for x in f: addfact(st,x)
        return
    if isinstance(f,Cong):
        k=REG.fresh('k',IntS); e=0
        if f.rng is not None:
            e=REG.fresh('err',IntS); st.add(implies(f.guard,land(le(f.rng[0],e),le(e,f.rng[1]))))
        st.add(implies(f.guard,eq(f.x,add(add(f.y,e),mul(f.m,k))))); return
    if isinstance(f,RFact): st.facts.append(f); return
    st.add(f)
def prove_fact(E,st,f,timeout):
    if isinstance(f,(list,tuple)) and not (isinstance(f,tuple) and f and f[0]=='ring'):
        return all(prove_fact(E,st,x,timeout) for x in f)
    r=prove_any(E,st,f,timeout); E.laststat=r.status
    return r.ok
def prove_any(E,st,f,timeout):
    if isinstance(f,QFact):
        sub=[];args=[]
        for p in f.P+f.J:
            args.append(REG.fresh('sk',IntS))
        inst=f.inst(args[:len(f.P)],args[len(f.P):])
        d=z3.And(*inst) if len(inst)!=1 else inst[0]
        return E.prove(st,d,timeout)
    if isinstance(f,RFact): return E.prove(st,('ring',f.x,f.y),timeout)
    return E.prove(st,f,timeout)

def only_t(E,a,mark,t):
    st=[a]; seen=set(); has=False
    while st:
        e=st.pop(); i=e.get_id()
        if i in seen: continue
        seen.add(i)
        if e.eq(t): has=True; continue
        if z3.is_app(e):
            nm=e.decl().name()
            if e.decl().kind()==z3.Z3_OP_UNINTERPRETED and '!' in nm and REG.num.get(nm,0)>mark: return False
            st.extend(e.children())
    return has
def tighten(E,head,ind,t,condfacts):
    """intervals of induction variables from proved bounds of the loop condition (numeric only)"""
    fs=[f for f in condfacts if z3.is_le(f)]
    for f in fs:
        p=poly(f.arg(0))-poly(f.arg(1)); li=linear_in(p,eid(t))
        if not li or li[1]<=0: continue
        r=unpoly(li[0].scale(-1)); hi=iv(r)[1]
        if hi is not None:
            setiv(t,0,int(hi)//int(li[1]))
    for loc,(k,x) in ind.items():
        if k!='lin' or not isinstance(x,int): continue
        v=rd(E,head,loc).v
        if not isz(v): continue
        # numeric bounds of v from t's interval
        terms._keep
        a,b=solve._ivc(v); setiv(v,a,b)
        # symbolic: v <= r  from condfacts
        for f in fs:
            d=poly(f.arg(0))-poly(f.arg(1))
            # d <= 0 ; if d = v + rest => v <= -rest
            for s_ in (1,-1):
                rest=d-poly(v).scale(s_)
                if eid(t) in [a for m in rest for a,_ in m]: continue
                lo,hi=iv(unpoly(rest))
                if s_==1 and lo is not None: setiv(v,None,-lo)
                if s_==-1 and lo is not None: setiv(v,lo,None)
def exit_counts(E,ex,ce,t,mark):
    """the iteration count at loop exit, where the negated condition and the loop facts pin it to a loop-independent term"""
    stk=[ce]; out=[]
    while stk:
        a=stk.pop()
        if z3.is_and(a): stk.extend(a.children()); continue
        if z3.is_not(a): a=a.arg(0)
        if not (z3.is_le(a) or z3.is_lt(a) or z3.is_ge(a) or z3.is_gt(a) or z3.is_eq(a)) or not only_t(E,a,mark,t): continue
        li=linear_in(poly(a.arg(0))-poly(a.arg(1)),eid(t))
        if li is None or abs(li[1])!=1: continue
        e=norm(unpoly(li[0].scale(-li[1]))) if isz(unpoly(li[0])) else unpoly(li[0].scale(-li[1]))
        if not isz(e) or e.eq(t): continue
        fs=[f for f in ex.facts if not isinstance(f,(RFact,QFact))]
        for d in (0,1,-1):
            e2=norm(add(e,d)) if d else e
            if solve.prove(fs,t==e2,1500).ok: out.append(e2); break
    return out

class geo:
    pass
def geo(E,entry,e0,kind,t):
    """closed form of a doubling / halving variable, as callable with .facts"""
    e0n=norm(e0) if isz(e0) else e0
    m=solve.as_monomial(e0n) if isz(e0n) else ((),e0n)
    if m is None: return None
    # e0 = c * product of P2 atoms -> exponent
    mm,c=m
    if c<=0 or c&(c-1): 
        if kind=='half': return None
        K=None
    ex=c.bit_length()-1 if c>0 and c&(c-1)==0 else None
    atoms=0
    for a,e in mm:
        x=terms._keep[a]
        if not(k_(x)==z3.Z3_OP_UNINTERPRETED and x.decl().name()=='P2'): 
            ex=None; break
        ex=add(ex,mul(e,x.arg(0))) if ex is not None else None
    if kind=='dbl':
        def f(tt): return norm(mul(e0n,P2(tt))) if isz(mul(e0n,P2(tt))) else mul(e0n,P2(tt))
        f.facts=lambda tt:[]
        f.expo=ex; f.kind='dbl'
        return f
    if ex is None: return None
    def f(tt):
        x=norm(sub(ex,tt))
        if isinstance(x,int): return 2**x if x>=0 else 0
        v=z3.If(Z(x)>=0,Z(P2(x)),z3.IntVal(0))
        return v
    f.facts=lambda tt:[]
    f.expo=ex; f.kind='half'
    return f

def write_index(E,n,head,loc,t,mark):
    """the index of array location loc written by one iteration, affine b +/- t, or None"""
    h=head.copy()
    E.dry+=1
    try:
        E.curst=h
        c=evalcond(E,h,n)
        if isz(c): h.add(c)
        try: outs,log=run_logged(E,h,n)
        except Infeasible: return None
    finally: E.dry-=1
    root,path=loc; L=len(path)
    idxs=[]
    for r,p in log:
        if r!=root: continue
        rl=relate(p[:L],path) if len(p)>=L else relate(p,path)
        if rl=='disjoint': continue
        if len(p)<=L or rl!='prefix': return None
        k,x=p[L]
        if k!='i': return None
        idxs.append(norm(x) if isz(x) else x)
    if not idxs: return None
    x=idxs[0]
    if any(not peq(x,y) for y in idxs[1:]): return None
    li=linear_in(poly(x),eid(t))
    if li is None or li[1] not in(1,-1): return None
    b=unpoly(li[0])
    if isz(b) and newsym(E,b,mark): return None
    return (b,li[1])

def leafpaths(c):
    """array leaves of an SA content with accessor: list of (path tuple, leaf)"""
    return list(cleaves(c.tree))
def getleaf(c,p):
    for x in p:
        if x=='*': c=c.tree
        elif isinstance(c,St): c=c.f[x]
        else: c=c.e[x]
    return c
def visited(j,b,k,t):
    if k==1: return land(le(b,j),lt(j,add(b,t)))
    return land(lt(sub(b,t),j),le(j,b))
def tau(j,b,k): return sub(j,b) if k==1 else sub(b,j)

def frame_facts(E,entry,head,loc,b,k,t):
    out=[]
    ce=rd(E,entry,loc); ch=rd(E,head,loc)
    for p,l in leafpaths(ch):
        e=getleaf(ce.tree,p)
        j=z3.FreshInt('j'); eid(j)
        H=l.v
        if H is None or e.v is None or k_(H)!=z3.Z3_OP_UNINTERPRETED: continue
        body=eq_arr(sel(H,j),sel(e.v,j))
        out.append(QFact(H.decl().name(),[],[j],[body],lnot(visited(j,b,k,t))))
        x,y,J=deep(sel(H,j),sel(e.v,j))
        if J: out.append(QFact(H.decl().name(),[],[j]+J,[eq(x,y)],lnot(visited(j,b,k,t))))
    return out
def deep(x,y):
    """rows of nested arrays, element by element"""
    J=[]
    while isz(x) and isz(y) and z3.is_array(x):
        i=z3.FreshInt('i'); eid(i); J.append(i); x,y=sel(x,i),sel(y,i)
    return x,y,J
def eq_arr(a,b):
    if isz(a) and isz(b) and a.sort()!=IntS and a.sort()!=RealS and a.sort()!=BoolS: return a==b
    return eq(a,b)

# ------------------------------------------------------------------ generalisation over the iteration number
class Gen:
    """rewrites symbols created after mark into functions of t"""
    def __init__(s,E,t,mark):
        s.E=E; s.t=t; s.mark=mark; s.mc={}; s.mf={}; s.memo={}; s.tv=t; s.todo=[]
    def isnew(s,d):
        nm=d.name()
        return '!' in nm and REG.num.get(nm,0)>s.mark
    def fn(s,d):
        nm=d.name()
        if nm in s.mf: return s.mf[nm]
        doms=[d.domain(i) for i in range(d.arity())]+[IntS]
        f=REG.fun(nm.split('!')[0]+'_t',*doms,d.range())
        s.mf[nm]=f
        s.todo.append((d,f))
        return f
    def term(s,e):
        if not isz(e): return e
        i=e.get_id()
        if i in s.memo: return s.memo[i][1]
        if e.eq(s.t): r=e
        elif z3.is_app(e):
            ch=[s.term(c) for c in e.children()]
            d=e.decl()
            if d.kind()==z3.Z3_OP_UNINTERPRETED and s.isnew(d):
                r=s.fn(d)(*ch,s.t)
            elif not ch: r=e
            elif all(a is c or a.eq(c) for a,c in zip(ch,e.children())): r=e
            else: r=rebuild(e,ch)
        else: r=e
        s.memo[i]=(e,r)
        return r
    def finish(s):
        """transfer definitions"""
        t=s.t
        while s.todo:
            d,f=s.todo.pop(); nm=d.name(); fn=f.name()
            P,fs=REG.defs.get(nm,([],[]))
            REG.defs[fn]=(list(P)+[t],[])
            nf=[s.term(x) for x in fs]
            REG.defs[fn]=(list(P)+[t],nf)
            if nm in REG.elem: REG.elem[fn]=REG.elem[nm]
            if nm in REG.rng: REG.rng[fn]=REG.rng[nm]
            if nm in REG.pure: raise VError('pure')
            for q in REG.qdefs.get(nm,[]):
                REG.qdefs.setdefault(fn,[]).append(s.qf(q))
    def qf(s,q):
        nm=q.decl
        new='!' in nm and REG.num.get(nm,0)>s.mark
        body=[s.term(b) for b in q.body]; g=s.term(q.guard) if isz(q.guard) else q.guard
        if new:
            d=[dd for dd in (REG.decls.get(nm),) if dd is not None]
            if not d: raise VError('decl lost')
            f=s.fn(d[0])
            return QFact(f.name(),q.P+[s.t],q.J,body,g)
        return QFact(q.decl,q.P,q.J,body,g)
def rebuild(e,ch):
    k=k_(e)
    if k==Z3_OP_SELECT: return sel(ch[0],ch[1])
    if k==z3.Z3_OP_UNINTERPRETED and e.decl().name()=='val': return Z(val(ch[0],ch[1]))
    if k==Z3_OP_ITE: return Z(ite(True if z3.is_true(ch[0]) else False if z3.is_false(ch[0]) else ch[0],ch[1],ch[2]))
    return e.decl()(*ch)

def genfacts(E,entry,hs,ex,nouts,frames,t,mark):
    if len(nouts)>1:
        q,_=E.join([(x,None) for x in nouts])
    else: q=nouts[0]
    G=Gen(E,t,mark)
    j=z3.FreshInt('j'); eid(j)
    # facts of one iteration (everything after the entry facts)
    k0=0
    while k0<len(entry.facts) and k0<len(q.facts) and entry.facts[k0] is q.facts[k0]: k0+=1
    bf=q.facts[k0:]
    plain=[G.term(f) for f in bf if not isinstance(f,(QFact,RFact))]
    qfs=[G.qf(f) for f in bf if isinstance(f,QFact)]
    T=ex_t=t
    newq=[]
    for loc,b,k in frames:
        co=rd(E,q,loc); ce=rd(E,ex,loc)
        x=norm(add(b,mul(k,t)))
        for p,l in leafpaths(ce):
            H=l.v
            if H is None or k_(H)!=z3.Z3_OP_UNINTERPRETED: continue
            lo=getleaf(co.tree,p)
            V=sel(lo.v,x)                    # value after iteration t at its own index
            if isz(V): V=G.term(V)
            tj=norm(tau(j,b,k))
            def sub_(e): return z3.substitute(e,(t,Z(tj))) if isz(e) else e
            body=[eq_arr(sel(H,j),sub_(Z(V)))]
            body+=[sub_(f) for f in plain]
            newq.append(QFact(H.decl().name(),[],[j],body,visited(j,b,k,t)))
            dx,dy,J=deep(sel(H,j),sub_(Z(V)))
            if J: newq.append(QFact(H.decl().name(),[],[j]+J,[eq(dx,dy)],visited(j,b,k,t)))
    G.finish()
    # quantified facts of an iteration hold for every iteration number: trigger on their (generalised) symbols
    for f in newq: ex.facts.append(f)
    for f in qfs:
        # instantiation through function symbols: P contains the iteration number
        rngt=land(le(0,f_t(f,t)),lt(f_t(f,t),t)) if any(p.eq(t) for p in f.P) else None
        if rngt is None: continue
        # rename the bound iteration number
        u=z3.FreshInt('u'); eid(u)
        sb=lambda e:(z3.substitute(e,(t,u)) if isz(e) else e)
        ex.facts.append(QFact(f.decl,[u if p.eq(t) else p for p in f.P],f.J,[sb(Z(b)) for b in f.body],land(le(0,u),lt(u,t),sb(f.guard))))
def f_t(f,t): return t

# ------------------------------------------------------------------ races
def check_race(E,n,entry,b,log,t,mark):
    roots=entry.store
    priv=private_roots(entry,n)
    acc=[a for a in log if a[1] in roots and a[1] not in priv]
    W=[a for a in acc if a[0]=='W']
    seen=set()
    G=Gen(E,t,mark)
    u=REG.fresh('u',IntS,rng=(0,None))
    base=[f for f in entry.facts if not isinstance(f,RFact)]
    bad=[]
    for w in W:
        for a in acc:
            key=(w[1],pathkey(w[2]),pathkey(a[2]),a[0]) 
            if a[1]!=w[1] or key in seen: continue
            seen.add(key)
            r=disjoint(E,w,a,t,u,mark,base)
            goal_ok=r
            E.obs.append(Ob(f'no race on {w[1].split("#")[0]}{pathstr(w[2])} / {a[0]} {pathstr(a[2])}','race',w[4] or E.loc(n),solve.Result('proved' if r else 'unknown',why='iterations not shown disjoint')))
    if not W: pass
    if not any(o.kind=='race' and o.loc for o in E.obs):
        E.obs.append(Ob('parallel loop writes nothing shared','race',E.loc(n),solve.Result('proved',backend='trivial')))
def private_roots(entry,n):
    """the iteration variable of an omp for loop is private to each thread"""
    out=set()
    if n.init is not None and n.init.k=='Decl':
        for d in n.init.ds:
            b=entry.env.get(d.name)
            if isinstance(b,LV): out.add(b.root)
    return out
def pathkey(p): return tuple((k,x if not isz(x) else eid(x)) for k,x in p)
def pathstr(p): return ''.join('.'+x if k=='f' else f'[{x}]' for k,x in p)
def disjoint(E,w,a,t,u,mark,base):
    """paths of w at iteration t and a at iteration u never overlap when t != u"""
    def ren(e,facts_only=False):
        # rename every symbol created in the loop for the second iteration
        memo={}
        def go(x):
            i=x.get_id()
            if i in memo: return memo[i]
            if x.eq(t): r=u
            elif z3.is_app(x):
                d=x.decl(); ch=[go(c) for c in x.children()]
                if d.kind()==z3.Z3_OP_UNINTERPRETED and '!' in d.name() and REG.num.get(d.name(),0)>mark:
                    f=REG.ren2(d)
                    r=f(*ch)
                elif ch: r=rebuild(x,ch)
                else: r=x
            else: r=x
            memo[i]=r
            return r
        return go(e)
    for (k,x),(k2,y) in zip(w[2],a[2]):
        if k=='f':
            if x!=y: return True
            continue
        if conc(x) and conc(y):
            if x!=y: return True
            continue
        X=Z(x); Y=ren(Z(y))
        f1=[f for f in w[3] if not isinstance(f,(QFact,RFact))]
        f2=[ren(f) for f in a[3] if not isinstance(f,(QFact,RFact))]
        qs=[f for f in w[3] if isinstance(f,QFact)]
        # definitions of renamed symbols
        r=solve.prove(f1+f2+qs+[z3.Not(t==u)],X!=Y,5000)
        if r.ok: return True
    return False
