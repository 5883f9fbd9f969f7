"""Function contracts: one specification object serves both directions (proved against the body, assumed at calls)."""
import z3, time, itertools
from terms import *
import terms, solve, loops
from solve import REG, QFact, Cong, iv, setiv
import engine as EG
from engine import *

import json,os
CONTRACTS={}
PARAMS=json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'../contracts/params.json')))
def pnames(f):
    """specification names of the parameters (positional, independent of renamings in the source)"""
    ns=PARAMS.get(fkey(f))
    return ns if ns and len(ns)==len(f.params) else [p.name for p in f.params]
def contract(cls):
    c=cls(); 
    for k in ([c.key] if isinstance(c.key,str) else c.key): CONTRACTS[k]=c
    return cls

class X:
    """specification context: contents of the arguments before (old) and after (new) the call"""
    def __init__(s,E,T,st,mode):
        s.E=E; s.T=T; s.st=st; s.mode=mode; s.old={}; s.new={}; s.ty={}; s.ret=None; s.rett=None; s.len={}; s.off={}; s.extra=[]
    def c(s,n,w='old'): return (s.old if w=='old' else s.new)[n]
    def at(s,n,path,w='old'):
        c=s.c(n,w)
        p=tuple(('f',x) if isinstance(x,str) else ('i',x) for x in path)
        return s.E.get(s.st,c,p)
    def n(s,n,w='old'):
        """scalar value"""
        c=s.c(n,w); return c.v
    def V(s,n,w='old',path=()):
        """mathematical value of a Z_Q object"""
        return s.E.zval(s.st,s.at(n,path,w))
    def limb(s,n,i,w='old',path=()):
        c=s.at(n,tuple(path)+('data',i),w); return c.v
    def el(s,n,path,w='old'): return s.at(n,path,w).v
    def arr(s,n,w='old',path=()):
        """SMT array of an array object of scalars / Z values"""
        c=s.at(n,path,w)
        if isinstance(c,SA) and isinstance(c.tree,Leaf): return c.tree.v
        if isinstance(c,CA):
            # concrete array lifted
            a=None
            for i,e in enumerate(c.e):
                if a is None:
                    so=leafsort(e.t); a=z3.K(IntS,z3.IntVal(0) if so==IntS else z3.RealVal(0))
                v=e.v if e.v is not None else s.E.fresh('u',e.t)
                a=z3.Store(a,i,Z(v) if e.t[0]!='d' else Z(toreal(v)))
            return a
        raise VError('arr')
    def size(s,n,path=()):
        c=s.at(n,path)
        return c.n if isinstance(c,SA) else len(c.e)
    def forall(s,n,path,f,lo=0,hi=None,w='new'):
        """forall j in [lo,hi): f(j) (list of facts), indexed by the elements of array n.path"""
        c=s.at(n,path,w)
        if isinstance(c,CA):
            out=[]
            h=len(c.e) if hi is None else hi
            for j in range(len(c.e)):
                g=land(le(lo,j),lt(j,h))
                if g is False: continue
                out+=[guardany(g,x) for x in aslist(f(j))]
            return out
        j=z3.FreshInt('j'); eid(j)
        h=c.n if hi is None else hi
        g=land(le(lo,j),lt(j,h))
        fs=aslist(f(j))
        out=[]
        if s.mode=='prove': return [('forall',j,g,fs)]
        flat=[]
        for x in fs:
            if isinstance(x,Cong):
                # quotient as a function of j
                K=REG.fun('kq',IntS,IntS); e_=0
                if x.rng is not None:
                    Ef=REG.fun('err',IntS,IntS); e_=Ef(j)
                    flat.append(implies(x.guard,land(le(x.rng[0],e_),le(e_,x.rng[1]))))
                flat.append(implies(x.guard,eq(x.x,add(add(x.y,e_),mul(x.m,K(j))))))
            elif isinstance(x,(QFact,RFact)): raise VError('nested quantifier')
            else: flat.append(x)
        for p,l in cleaves(c.tree):
            if isz(l.v) and k_(l.v)==z3.Z3_OP_UNINTERPRETED:
                out.append(QFact(l.v.decl().name(),[],[j],[Z(b) for b in flat],g))
        return out
def aslist(x): return list(x) if isinstance(x,(list,tuple)) and not(isinstance(x,tuple) and x and isinstance(x[0],str)) else [x]
def guardany(g,x):
    if g is True: return x
    if isinstance(x,Cong): return Cong(x.x,x.y,x.m,land(g,x.guard),x.rng)
    if isinstance(x,QFact): return x.guarded(g)
    if isinstance(x,RFact): return RFact(x.x,x.y,land(g,x.guard))
    return Z(implies(g,x))

class Contract:
    key=None; zq='limb'; rq='coef'; applies=None; inline=False
    modifies=(); aliases=((),)
    interest=None; timeout=10000; norace=False; inl=()     # functions to inline although they have contracts
    bounded=None; valsplit=False; valmono=0; step64=False
    def templ(s): return [('',{})]
    def pre(s,x): return []
    def post(s,x): return []
    def invs(s,ctx): return []
    def setup(s,E,st,x): pass
    def hints(s,x): return []
    def assign(s,x,nm):
        """content of a modified object after a call when it is exactly that of another one (elementwise postcondition proved)"""
        return None
    def retfresh(s,x,t):
        return None

    # -------------------------------------------------------------- application at a call
    def at_call(s,E,st,f,T,this,vals,n):
        x=X(E,T,st,'assume')
        locs={}
        if this is not None: locs['this']=this
        for pn,v in zip(pnames(f),vals):
            if pn is None: continue
            locs[pn]=v; 
        x.locs=locs
        def lvof(v):
            if isinstance(v,LV): return v
            if isinstance(v,TV) and isinstance(v.v,Ptr):
                q=v.v
                if q.lv is None: return None
                if q.idx is None: return q.lv
                if q.idx==0 if isinstance(q.idx,int) else False: return q.lv
                # pointer into the middle: only row pointers are supported
                raise VError(f'contract call with offset pointer at {E.loc(n)}')
            return None
        for nm,v in locs.items():
            l=lvof(v)
            if l is None: 
                x.old[nm]=Leaf(v.t,v.v); x.ty[nm]=v.t
                continue
            c=E.rawload(st,l); x.ty[nm]=l.t
            c=s.initleaves(E,st,l,c)
            x.old[nm]=c
            if E.acclog is not None and not E.dry: E.acclog.append(('R' if nm not in s.modifies else 'W',l.root,l.path,list(st.facts),E.loc(n)))
        # aliasing
        al=[]
        names=[nm for nm in locs if lvof(locs[nm]) is not None]
        for i,a in enumerate(names):
            for b in names[i+1:]:
                if a not in s.modifies and b not in s.modifies: continue
                la,lb=lvof(locs[a]),lvof(locs[b])
                if la.root!=lb.root: continue
                r=loops.relate(la.path,lb.path)
                if r=='disjoint': continue
                if isinstance(r,int):
                    d=False
                    for (k,u),(k2,v) in zip(la.path,lb.path):
                        if k=='i' and not same(u,v):
                            if E.dry or E.prove(st,lnot(eq(u,v))).ok: d=True; break
                    if d: continue
                    if len(la.path)==len(lb.path): 
                        # possibly the same element: both cases must be allowed
                        if tuple(sorted((a,b))) in [tuple(sorted(q)) for al_ in s.aliases for q in al_]:
                            al.append(('maybe',a,b)); continue
                    raise VError(f'possible overlap of {a} and {b} at {E.loc(n)}')
                if len(la.path)==len(lb.path): al.append(tuple(sorted((a,b))))
                else: raise VError(f'partial overlap of {a} and {b} at {E.loc(n)}')
        allowed=[sorted(tuple(sorted(q)) for q in a) for a in s.aliases]
        if any(q[0]=='maybe' for q in al): raise VError(f'undetermined aliasing at {E.loc(n)}')
        if sorted(al) not in allowed:
            E.oblige(st,False,'aliasing',n,f'aliasing {al} not allowed by the contract of {s.key}')
        x.mode='prove'
        for lbl,p in labelled(s.pre(x)):
            for q in aslist(p): E.callpre(st,q,n,f'precondition {lbl} of {f.qname}')
        x.mode='assume'
        # havoc modified
        for nm in x.old: x.new[nm]=x.old[nm]
        if E.dry:
            for nm in s.modifies:
                l=lvof(locs[nm])
                E.write(st,l,E.havoc(x.old[nm],nm),n)
        else:
            grp={}
            for nm in s.modifies:
                l=lvof(locs[nm])
                new=s.assign(x,nm)
                if new is None: new=E.havoc(x.old[nm],nm)
                x.new[nm]=new
                for q in al:
                    if nm in q:
                        for o in q: x.new[o]=new
                E.write(st,l,new,n)
        rt=None
        if f.ret is not None and f.ret.name!='void':
            rt=E.rtype(f.ret,T)
        if rt is not None and rt!=VOID:
            v=s.retfresh(x,rt)
            if v is None:
                v=E.fresh('ret',rt) if rt[0]!='s' else E.mk(rt,'ret','fresh')
            x.ret=v; x.rett=rt
        if not E.dry:
            for lbl,p in labelled(s.post(x)):
                for q in aslist(p): loops.addfact(st,q)
            lem=getattr(E.top,'lem',None)     # instances of algebraic lemmas the caller's contract asks for
            if lem:
                for q in lem(s.key,x): loops.addfact(st,q)
        E.curst=st
        return TV(rt,x.ret) if rt is not None else TV(VOID,None)
    def initleaves(s,E,st,l,c): 
        if not any(lf.v is None and lf.t[0] in 'ibdZR' for p,lf in cleaves(c)): return c
        c2=cmap(c,lambda lf: lf.v if lf.v is not None or lf.t[0] not in 'ibdZR' else E.fresh('u',lf.t))
        st.store[l.root]=E.put(st,st.store[l.root],l.path,0,c2)
        return c2

    # -------------------------------------------------------------- concrete runs (only to discard false invariant candidates)
    dynruns=6; dyn=True
    def dynT(s,tl,rng):
        """concrete template arguments"""
        lbl,T=s.templ()[tl]
        out={}; sub={}
        for k,v in T.items():
            if not isz(v): out[k]=v; continue
            for a,e in ((a,e) for m in poly(v) for a,e in m):
                x=terms._keep[a]
                if a in sub: continue
                nm=x.decl().name(); lo,hi=REG.rng.get(nm,(0,3))
                if nm.startswith('m'): z=rng.choice([1,2,3])
                elif nm.startswith('r'): z=rng.choice([lo,hi,rng.randint(lo,hi)]) if hi is not None else rng.randint(lo,lo+5)
                else: z=rng.randint(lo,min(hi if hi is not None else lo+3,lo+3))
                sub[a]=(x,z3.IntVal(z))
            out[k]=numval(z3.simplify(z3.substitute(v,*sub.values())))
        return out
    def dynarg(s,rng,nm,p,l):
        lo,hi=irange(l.t) if l.t[0]=='i' else (0,1)
        if l.t[0]=='b': return rng.random()<.5
        if l.t[0]=='d': return Fraction(rng.randint(-8,8),4)
        return rng.choice([lo,hi,rng.randint(lo,hi),rng.randint(lo,hi),rng.randint(max(lo,-4),min(hi,4))])
    def dynfix(s,x,rng): pass
    def dynbad(s,prog,contracts,f,tl,al):
        import random
        rng=random.Random(7); bad=set(); good=0; seen={}
        for it in range(s.dynruns*3):
            if good>=s.dynruns: break
            solve.reset(); COEFOF.clear()
            try:
                T=s.dynT(tl,rng)
                if any(v is None for v in T.values()): break
                E=Engine(prog,contracts,'bounded','limb' if s.zq=='limb' else s.zq,s.rq,1000)
                E.dynlog=bad; E.dynrng=rng; E.dynseen=seen
                _,E,err=s.verify1(prog,contracts,f,T,al,'dyn',None,0,mode='bounded',dynE=E)
                if err is None or 'false' not in str(err): good+=1
            except (VError,TrialFail,Infeasible,KeyError,AttributeError,TypeError,IndexError,ValueError,AssertionError) as e:
                s.dynerr=repr(e); continue
        bad|=set(k for k,v in seen.items() if v=={'err'})
        return bad
    # -------------------------------------------------------------- verification of the body
    def verify(s,prog,contracts,timeout=None,verbose=0,only=None):
        """yields (label, Engine, error)"""
        for k in ([s.key] if isinstance(s.key,str) else s.key):
            fs=[f for q in prog.funcs.values() for f in q if fkey(f)==k]
            if len(fs)!=1:
                yield (k,None,f'function {k} not found in the source' if not fs else f'{len(fs)} definitions of {k}'); continue
            f=fs[0]
            for tl in range(s.ntempl()):
                for al in s.aliases:
                    bad=s.dynbad(prog,contracts,f,tl,al) if s.dyn else None
                    solve.reset(); COEFOF.clear()
                    lbl0,_=('',None)
                    try:
                        lbl,T=s.templ()[tl]
                    except Exception as e: raise
                    name=f'{k} [{lbl}]'+(' alias '+','.join('='.join(q) for q in al) if al else '')
                    if only and only not in name: continue
                    yield s.verify1(prog,contracts,f,T,al,name,timeout,verbose,bad=bad)
    def ntempl(s):
        solve.reset(); return len(s.templ())
    def verify1(s,prog,contracts,f,T,al,name,timeout,verbose,mode='unbounded',zq=None,rq=None,bad=None,dynE=None,usec=()):
        E=dynE or Engine(prog,contracts,mode,zq or s.zq,rq or s.rq,timeout or s.timeout)
        E.dynbad=bad; E.usec=set(usec)
        E.verbose=verbose; E.top=s; E.norace=s.norace
        E.extra_inline=set(s.inl)
        st=State()
        t0=time.time()
        E.t0=t0
        solve.VALOK[0]=s.valsplit; solve.MONO[0]=s.valmono; solve.STEP64[0]=s.step64; solve.MAXD[0]=5 if mode=='unbounded' else 10
        try:
            st.add(*getattr(s,'tfacts',lambda T:[])(T))
            E.frames.append(Frame(None,T))
            E.curst=st
            x=X(E,T,st,'prove'); locs={}
            this=None
            sd=prog.structs.get(f.struct) if f.struct else None
            if sd is not None and not f.static:
                tt=('s',f.struct,tuple(T[n] for k_,n,d in sd.tparams))
                r=E.newroot(st,E.mk(tt,'this','uninit' if f.ctor else 'fresh'),'this'); this=LV(r,(),tt); locs['this']=this; x.ty['this']=tt
            vals=[]
            aliasof={}
            for q in al:
                for o in q[1:]: aliasof[o]=q[0]
            for p,pn in zip(f.params,pnames(f)):
                t=E.rtype(p.type,T)
                if pn in aliasof and aliasof[pn] in locs:
                    v=locs[aliasof[pn]]
                    if t[0] in('a',): v=TV(('p',t[1]),Ptr(v.v.lv if isinstance(v,TV) else v,0))
                    vals.append(v); locs[pn]=v; x.ty[pn]=t; continue
                s.pn=pn or 'arg'
                v=s.mkarg(E,st,p,t,T)
                vals.append(v); locs[pn]=v; x.ty[pn]=t
            def content(v):
                if isinstance(v,LV): return E.rawload(st,v)
                if isinstance(v.v,Ptr): return E.rawload(st,v.v.lv) if v.v.lv is not None else None
                return Leaf(v.t,v.v)
            for nm,v in locs.items(): x.old[nm]=content(v)
            s.setup(E,st,x)
            if dynE:
                for i,(nm,v) in enumerate(list(locs.items())):
                    c=content(v)
                    c2=cmap(c,lambda lf: lf.v if not isz(lf.v) else s.dynarg(dynE.dynrng,nm,None,lf))
                    if isinstance(v,LV): E.write(st,v,c2,None)
                    elif isinstance(v.v,Ptr): E.write(st,v.v.lv,c2,None)
                    else:
                        j=[k for k,w in enumerate(vals) if w is v]
                        v2=TV(v.t,c2.v); locs[nm]=v2
                        for k in j: vals[k]=v2
                for nm,v in locs.items(): x.old[nm]=content(v)
                s.dynfix(x,dynE.dynrng)
            for nm,v in locs.items(): x.old[nm]=content(v)
            x.mode='assume'
            for lbl,p in labelled(s.pre(x)):
                for q in aslist(p): 
                    if dynE and loops.dyntrue(q) is False: return (name,E,'false precondition')
                    if not dynE: addpre(st,q)
            x.mode='prove'
            E.x=x; E.locs=locs
            if mode=='unbounded' or dynE: E.invproviders=[lambda ctx: s.invs(s.mkctx(ctx,x,locs))]
            if not dynE and not E.feasible(st): return (name,E,'contradictory precondition')
            frames0=list(E.frames)
            E.verifying=True
            others={r:c for r,c in st.store.items()}
            rv=E.run(st,f,T,this,vals,None)
            if dynE: return (name,E,None)
            def content2(v):
                if isinstance(v,LV): return E.rawload(st,v)
                if isinstance(v.v,Ptr): return E.rawload(st,v.v.lv) if v.v.lv is not None else None
                return Leaf(v.t,v.v)
            for nm,v in locs.items(): x.new[nm]=content2(v)
            if rv is not None and rv.t!=VOID:
                x.ret=rv.v if isinstance(rv,TV) else E.load(st,rv).v; x.rett=rv.t
            x.st=st
            E.interest=s.hints(x)
            # frame: parameters that are not declared modified are unchanged
            for nm,v in locs.items():
                if nm in s.modifies or any(nm in q and any(o in s.modifies for o in q) for q in al): continue
                if isinstance(v,TV) and not isinstance(v.v,Ptr): continue
                same_=x.new[nm] is x.old[nm]
                if not same_: same_=sametree(E,st,x.old[nm],x.new[nm])
                E.obs.append(Ob(f'{nm} unchanged','frame','',solve.Result('proved' if same_ else 'unknown',backend='trivial')))
            for lbl,p in labelled(s.post(x)):
                for q in aslist(p): provepost(E,st,lbl,q)
            E.final=st
        except VError as e:
            E.secs=time.time()-t0
            if verbose>1: 
                import traceback; traceback.print_exc()
            return (name,E,'unsupported: '+str(e))
        except Infeasible:
            E.secs=time.time()-t0
            return (name,E,'no feasible path')
        E.secs=time.time()-t0
        return (name,E,None)
    def mkarg(s,E,st,p,t,T):
        if t[0]=='a' :
            n=t[2]
            at=t
            if n is None: at=('a',t[1],s.arraylen(E,p,T))
            r=E.newroot(st,E.mk(at,s.pn,'fresh'),s.pn)
            l=LV(r,(),at)
            if p.type.ref: return l
            return TV(('p',t[1]),Ptr(l,0))
        if t[0]=='p':
            return s.mkptr(E,st,p,t,T)
        if t[0]=='s' or p.type.ref:
            r=E.newroot(st,E.mk(t,s.pn,'fresh'),s.pn); l=LV(r,(),t)
            if not p.type.ref: return TV(t,E.rawload(st,l))
            return l
        return TV(t,E.fresh(s.pn,t))
    def mkptr(s,E,st,p,t,T):
        at=('a',t[1],s.arraylen(E,p,T))
        r=E.newroot(st,E.mk(at,s.pn,'fresh'),s.pn)
        return TV(t,Ptr(LV(r,(),at),0))
    def arraylen(s,E,p,T): raise VError(f'length of {p.name}')
    def mkctx(s,ctx,x,locs):
        ctx.x=x; ctx.locs=locs; ctx.T=x.T
        return ctx
def addpre(st,q):
    if isinstance(q,tuple) and q and q[0]=='forall':
        raise VError('quantified precondition must be QFact')
    loops.addfact(st,q)
def labelled(ps):
    out=[]
    for p in ps:
        if isinstance(p,tuple) and len(p)==2 and isinstance(p[0],str): out.append(p)
        else: out.append(('',p))
    return out
def provepost(E,st,lbl,q):
    if isinstance(q,tuple) and q and q[0]=='forall':
        _,j,g,fs=q
        st2=st.copy(); k=REG.fresh('sk',IntS)
        if g is not True: st2.add(z3.substitute(Z(g),(j,k)))
        for f in fs:
            def sb(e): return z3.substitute(e,(j,k)) if isz(e) else e
            if isinstance(f,Cong): f2=f.map(sb)
            elif isinstance(f,tuple) and f and f[0]=='forall':
                f2=('forall',f[1],sb(Z(f[2])),[subany(y,j,k) for y in f[3]])
            elif isinstance(f,RFact): f2=RFact(sb(f.x),sb(f.y),sb(f.guard))
            else: f2=sb(f)
            provepost(E,st2,lbl,f2)
        return
    if isinstance(q,QFact):
        args=[REG.fresh('sk',IntS) for _ in q.P+q.J]
        for b in q.inst(args[:len(q.P)],args[len(q.P):]): E.oblige(st,b,'post',None,lbl)
        return
    if isinstance(q,RFact): 
        E.oblige(st,('ring',q.x,q.y),'post',None,lbl); return
    if E.oblige(st,q,'post',None,lbl) and (isinstance(q,Cong) or isz(q)): loops.addfact(st,q)   # proved: available to the later clauses
def subany(f,j,k):
    sb=lambda e: z3.substitute(e,(j,k)) if isz(e) else e
    if isinstance(f,Cong): return f.map(sb)
    if isinstance(f,tuple): return ('forall',f[1],sb(Z(f[2])),[subany(y,j,k) for y in f[3]])
    return sb(f)
def sametree(E,st,a,b):
    if isinstance(a,Leaf):
        if not isinstance(b,Leaf): return False
        if a.v is b.v: return True
        if a.v is None: return True
        if b.v is None: return False
        if isinstance(a.v,Ptr) or isinstance(b.v,Ptr): return True
        if same(a.v,b.v): return True
        if isz(a.v) and a.v.sort() in(IntS,RealS,BoolS) : return E.prove(st,eq(a.v,b.v)).ok
        return False
    if isinstance(a,St): return all(sametree(E,st,a.f[k],b.f[k]) for k in a.f)
    if isinstance(a,CA): return isinstance(b,CA) and all(sametree(E,st,x,y) for x,y in zip(a.e,b.e))
    return isinstance(b,SA) and sametree(E,st,a.tree,b.tree)
