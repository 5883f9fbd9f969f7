"""Symbolic executor / VC generator over the AST of cparse, with function contracts.

Memory: every object is a root with a content tree (St struct, CA array of known length, SA array of
symbolic length whose leaves are SMT arrays, Leaf scalar).  References are LV (root,path,type).
"""
import z3, os, itertools
from fractions import Fraction
from terms import *
import solve
from solve import REG, QFact, Cong, iv, setiv, prove
from cparse import TypeRef, Node

class VError(Exception):
    """the construct is outside the subset / cannot be handled"""
class TrialFail(Exception): pass
class Infeasible(Exception): pass

# ---- types
INT=('i',32,True); UINT=('i',32,False); LONG=('i',64,True); ULONG=('i',64,False); U128=('i',128,False); I128=('i',128,True)
CHAR=('i',8,True); UCHAR=('i',8,False); BOOL=('b',); DBL=('d',); VOID=('v',); STR=('str',)
BASIC={'int':INT,'uint32_t':UINT,'int64_t':LONG,'uint64_t':ULONG,'u128':U128,'i128':I128,'char':CHAR,'uint8_t':UCHAR,
       'bool':BOOL,'double':DBL,'void':VOID,'string':STR,'int16_t':('i',16,True),'uint16_t':('i',16,False),'int8_t':CHAR,'float':DBL}
def is_int(t): return t[0]=='i'
def is_num(t): return t[0] in 'ibd'
def irange(t):
    if t[0]=='b': return (0,1)
    b,sg=t[1],t[2]
    return (-(1<<(b-1)),(1<<(b-1))-1) if sg else (0,(1<<b)-1)
def tkey(t):
    if t[0]=='s': return ('s',t[1],tuple(pkey(a) if not isinstance(a,tuple) else tkey(a) for a in t[2]))
    if t[0]=='a': return ('a',tkey(t[1]),pkey(t[2]) if t[2] is not None else None)
    if t[0] in('p','set','uptr'): return (t[0],tkey(t[1]))
    return t
def teq(a,b): return tkey(a)==tkey(b)
def tname(t):
    if t[0]=='s': return t[1]
    if t[0]=='a': return tname(t[1])+'*'
    if t[0]=='p': return tname(t[1])+'*'
    if t[0]=='i': return {8:'char',16:'i16',32:'int',64:'u64' if not t[2] else 'i64',128:'u128'}[t[1]] if t[1]!=32 or t[2] else 'uint'
    return {'b':'bool','d':'double','v':'void','str':'str'}.get(t[0],t[0])

class TV:
    __slots__=('t','v')
    def __init__(s,t,v): s.t=t; s.v=v
    def __repr__(s): return f'TV({s.t},{s.v})'
class LV:
    __slots__=('root','path','t')
    def __init__(s,root,path,t): s.root=root; s.path=path; s.t=t
    def __repr__(s): return f'LV({s.root},{s.path})'
class Ptr:
    """pointer: lv is the array it points into (idx offset) or a single object (idx None); None = null"""
    __slots__=('lv','idx')
    def __init__(s,lv,idx): s.lv=lv; s.idx=idx
class Leaf:
    __slots__=('t','v')
    def __init__(s,t,v): s.t=t; s.v=v
    def __repr__(s): return f'Leaf({s.v})'
class St:
    __slots__=('f',)
    def __init__(s,f): s.f=f
    def __repr__(s): return f'St({s.f})'
class CA:
    __slots__=('e',)
    def __init__(s,e): s.e=e
    def __repr__(s): return f'CA({s.e})'
class SA:
    __slots__=('n','tree')
    def __init__(s,n,tree): s.n=n; s.tree=tree
    def __repr__(s): return f'SA({s.n},{s.tree})'

def cmap(c,f):
    if isinstance(c,Leaf): return Leaf(c.t,f(c))
    if isinstance(c,St): return St({k:cmap(v,f) for k,v in c.f.items()})
    if isinstance(c,CA): return CA([cmap(v,f) for v in c.e])
    return SA(c.n,cmap(c.tree,f))
def cleaves(c,pre=()):
    if isinstance(c,Leaf): yield pre,c
    elif isinstance(c,St):
        for k,v in c.f.items(): yield from cleaves(v,pre+(k,))
    elif isinstance(c,CA):
        for i,v in enumerate(c.e): yield from cleaves(v,pre+(i,))
    else: yield from cleaves(c.tree,pre+('*',))
def cmap2(a,b,f):
    if a is b: return a
    if isinstance(a,Leaf): 
        if not isinstance(b,Leaf): raise VError('merge of different representations')
        return Leaf(a.t,f(a,b))
    if isinstance(a,St): return St({k:cmap2(v,b.f[k],f) for k,v in a.f.items()})
    if isinstance(a,CA):
        if not isinstance(b,CA) or len(a.e)!=len(b.e): raise VError('merge CA')
        return CA([cmap2(x,y,f) for x,y in zip(a.e,b.e)])
    if not isinstance(b,SA): raise VError('merge SA')
    return SA(a.n,cmap2(a.tree,b.tree,f))

def leafsort(t):
    if t[0]=='i' or t[0]=='Z': return IntS
    if t[0]=='b': return BoolS
    if t[0]=='d' or t[0]=='R': return RealS
    return None

class RFact:
    """ring equation x = y (commutative ring identities only; never given to the SMT solver)"""
    __slots__=('x','y','guard')
    def __init__(s,x,y,guard=True): s.x=x;s.y=y;s.guard=guard

class State:
    __slots__=('store','facts','env')
    def __init__(s,store=None,facts=None,env=None):
        s.store=store or {}; s.facts=facts or []; s.env=env or {}
    def copy(s): return State(dict(s.store),list(s.facts),dict(s.env))
    def add(s,*fs):
        for f in fs:
            if f is True: continue
            s.facts.append(Z(f) if isinstance(f,bool) else f)

class Frame:
    def __init__(s,func,T,this=None,contract=None,parent=None):
        s.func=func; s.T=T; s.this=this; s.contract=contract; s.parent=parent; s.loops=0

class Ob:
    def __init__(s,label,kind,loc,res,goal=None,facts=None): 
        s.label=label; s.kind=kind; s.loc=loc; s.res=res; s.goal=goal; s.facts=facts

CALIM=200
class Engine:
    def __init__(s,prog,contracts=None,mode='unbounded',zq='limb',rq='coef',timeout=10000,inline_only=False):
        s.prog=prog; s.contracts=contracts or {}; s.mode=mode; s.zq=zq; s.rq=rq
        s.nroot=0; s.obs=[]; s.frames=[]; s.dry=0; s.trial=0; s.acclog=None; s.wlog=None
        s.timeout=timeout; s.statics={}; s.depth=0; s.used=set(); s.inlined=set(); s.assumed=set()
        s.top=None; s.loopcands=[]; s.retv=None; s.maxunroll=3000; s.randlog=[]; s.rand_fn=None
        s.roots={}; s.interest=[]; s.notes=[]; s.bv=False; s.omp=[]; s.heap={}; s.ring_links=[]
        s.prune=True; s.unsup=[]
        s.noiv=0; s.extra_inline=set(); s.secs=0; s.x=None
        s.assume=0; s.verbose=0; s.invproviders=[]; s.houdini={}; s.norace=False; s.ompseen=[]
        s.dynlog=None; s.dynbad=None; s.dynseen={}; s.usec=set()
        Engine.divmemo={}; Engine.shl={}
    def callpre(s,st,p,n,label):
        if isinstance(p,QFact) or (isinstance(p,tuple) and p and p[0]=='forall'):
            import contract
            if s.dry or s.assume: return
            if isinstance(p,QFact):
                args=[REG.fresh('sk',IntS) for _ in p.P+p.J]
                for b in p.inst(args[:len(p.P)],args[len(p.P):]): s.oblige(st,b,'pre',n,label)
            else:
                _,j,g,fs=p; k=REG.fresh('sk',IntS); st2=st.copy()
                if g is not True: st2.add(z3.substitute(Z(g),(j,k)))
                for f in fs: s.callpre(st2,contract.subany(f,j,k),n,label)
            return
        if isinstance(p,RFact): s.oblige(st,('ring',p.x,p.y),'pre',n,label); return
        s.oblige(st,p,'pre',n,label)
    def logmods(s,mods):
        if s.wlog is not None: s.wlog.extend(mods)

    # ------------------------------------------------------------ basics
    @property
    def fr(s): return s.frames[-1]
    def newroot(s,st,content,name=''):
        s.nroot+=1
        r=f'{name}#{s.nroot}'
        st.store[r]=content
        return r
    def loc(s,n):
        l=getattr(n,'loc',None)
        return f'{os.path.basename(l[0])}:{l[1]}' if l else '?'
    def oblige(s,st,goal,kind,n,label=None):
        if goal is True:
            if not s.dry and not s.trial and not s.assume: s.obs.append(Ob(label or kind,kind,s.loc(n) if n is not None else '',solve.Result('proved',backend='trivial')))
            return True
        if s.dry: return True
        if s.assume:
            if not isinstance(goal,(Cong,tuple)) and goal is not False: st.add(goal)
            return True
        r=s.prove(st,goal)
        if s.trial:
            if not r.ok: raise TrialFail(f'{kind} {label} {s.loc(n) if n is not None else ""} {r.status}')
            return True
        s.obs.append(Ob(label or kind,kind,s.loc(n) if n is not None else '',r,goal,None))
        if not isinstance(goal,Cong) and goal is not False and not r.ok and kind not in('post',): st.add(goal)
        return r.ok
    def prove(s,st,goal,timeout=None):
        if isinstance(goal,tuple) and goal[0]=='ring': return s.prove_ring(st,goal)
        fs=[f for f in st.facts if not isinstance(f,RFact)]
        return prove(fs,goal,timeout or s.timeout,s.interest)
    def feasible(s,st,timeout=700):
        pl,qf=solve.split_facts([f for f in st.facts if not isinstance(f,RFact)])
        fs=solve.saturate(pl,[],qf,max_terms=4000)
        r,_,_=solve.z3check(fs,timeout)
        return r!=z3.unsat
    def fresh(s,name,t,st=None):
        if t[0]=='i': return REG.fresh(name,IntS,rng=irange(t))
        if t[0]=='b': return REG.fresh(name,BoolS)
        if t[0]=='d': return REG.fresh(name,RealS)
        if t[0]=='Z': return s.freshZ(name,t[1])
        if t[0]=='R': return REG.fresh(name,RealS)
        raise VError(f'fresh of type {t}')
    def zlimbs(s,LOGQ): return s.idiv(add(LOGQ,63),64)
    def freshZ(s,name,LOGQ):
        b=B(s.zlimbs(LOGQ))
        return REG.fresh(name,IntS,facts=lambda c:[c>=0,c<Z(b)],rng=(0,iv(b)[1]-1 if iv(b)[1] else None))

    # ------------------------------------------------------------ content creation
    def mk(s,t,name='v',init='uninit'):
        """content for type t; init: 'uninit' | 'fresh'"""
        if t[0]=='s':
            if t[1]=='Z_Q' and s.zq=='V': return Leaf(('Z',t[2][0]),s.freshZ(name,t[2][0]))
            if t[1]=='R_Q' and s.rq=='ring': return Leaf(('R',t[2][0],t[2][1]),REG.fresh(name,RealS))
            sd=s.prog.structs.get(t[1])
            if sd is None: raise VError(f'unknown struct {t[1]}')
            T=s.structT(sd,t[2])
            return St({v.name:s.mk(s.rtype(v.type,T),name+'.'+v.name,init) for v in sd.fields})
        if t[0]=='a':
            n=t[2]
            if isinstance(n,int) and n<=CALIM:
                return CA([s.mk(t[1],f'{name}[{i}]',init) for i in range(n)])
            return s.mksa(t,name)
        if t[0]=='uptr': return s.mk(t[1],name,init)
        if t[0]=='set': return Leaf(('set',),REG.fresh(name,z3.ArraySort(IntS,BoolS)))
        if t[0]=='p':
            return Leaf(t,None)
        if t[0]=='str': return Leaf(t,None)
        if init=='uninit': return Leaf(t,None)
        return Leaf(t,s.fresh(name,t))
    def mksa(s,t,name):
        """SMT-array content of array type t (outer dimension symbolic or large)"""
        dims=[]
        def tree(t,dims):
            if t[0]=='a':
                return SA(t[2],tree(t[1],dims+[t[2]])) if not(isinstance(t[2],int) and t[2]<=CALIM and dims) else CA([tree(t[1],dims) for i in range(t[2])])
            if t[0]=='s':
                if t[1]=='Z_Q' and s.zq=='V': return leaf(('Z',t[2][0]),dims)
                if t[1]=='R_Q' and s.rq=='ring': raise VError('symbolic array of ring elements')
                sd=s.prog.structs[t[1]]; T=s.structT(sd,t[2])
                return St({v.name:tree(s.rtype(v.type,T),dims) for v in sd.fields})
            if t[0] in('uptr','p'): return tree(t[1],dims)
            return leaf(t,dims)
        def leaf(t,dims):
            so=leafsort(t)
            if so is None: raise VError(f'array of {t}')
            for d in dims: so=ArrS(so)
            rng=irange(t) if t[0]=='i' else None
            c=REG.fresh(name,so)
            s.regelem(c,t,len(dims))
            return Leaf(t,c)
        return tree(t,dims)
    def regelem(s,c,t,nd):
        n=c.decl().name()
        if t[0]=='i':
            lo,hi=irange(t); REG.rng[n]=(lo,hi)
            REG.elem[n]=lambda x,idx,nd=nd,lo=lo,hi=hi: [x>=lo,x<=hi] if len(idx)==nd else []
        elif t[0]=='Z':
            b=B(s.zlimbs(t[1])); REG.rng[n]=(0,None)
            REG.elem[n]=lambda x,idx,nd=nd,b=b: [x>=0,x<Z(b)] if len(idx)==nd else []
    def havoc(s,c,name='h'):
        """same shape, fresh leaves"""
        def go(c,nd):
            if isinstance(c,Leaf):
                if nd==0:
                    if c.t[0] in('p','str'): return c
                    if c.t[0]=='set': return Leaf(c.t,REG.fresh(name,z3.ArraySort(IntS,BoolS)))
                    return Leaf(c.t,s.fresh(name,c.t))
                so=leafsort(c.t)
                for _ in range(nd): so=ArrS(so)
                k=REG.fresh(name,so); s.regelem(k,c.t,nd); return Leaf(c.t,k)
            if isinstance(c,St): return St({k:go(v,nd) for k,v in c.f.items()})
            if isinstance(c,CA): return CA([go(v,nd) for v in c.e])
            return SA(c.n,go(c.tree,nd+1))
        return go(c,0)

    # ------------------------------------------------------------ types
    def structT(s,sd,targs):
        T={}
        for (k,n,d),a in zip(sd.tparams,targs): T[n]=a
        return T
    def rtype(s,ty,T=None,st=None):
        """TypeRef -> internal type"""
        if T is None: T=s.fr.T
        nm=ty.name
        if nm in T and not isinstance(T[nm],TV) and isinstance(T[nm],tuple): t=T[nm]
        elif nm in BASIC: t=BASIC[nm]
        elif nm in s.prog.aliases:
            tps,al=s.prog.aliases[nm]
            T2=dict(T)
            if tps and ty.targs:
                for (k,n,d),a in zip(tps,ty.targs): T2[n]=s.targ(a,T)
            t=s.rtype(al,T2)
        elif nm=='set': t=('set',s.targ(ty.targs[0],T))
        elif nm=='unique_ptr': t=('uptr',s.targ(ty.targs[0],T))
        elif nm in('vector','array'):
            if nm=='array': t=('a',s.targ(ty.targs[0],T),s.targ(ty.targs[1],T))
            else: raise VError('std::vector')
        elif nm in s.prog.structs:
            sd=s.prog.structs[nm]
            if ty.targs is None:
                # injected class name
                t=('s',nm,tuple(T[n] for k,n,d in sd.tparams)) if sd.tparams else ('s',nm,())
            else: t=('s',nm,tuple(s.targ(a,T) for a in ty.targs))
        else: raise VError(f'unknown type {nm}')
        for _ in range(ty.ptr): t=('p',t)
        for d in reversed(ty.dims):
            t=('a',t,s.cint(d,T) if d is not None else None)
        return t
    def targ(s,a,T):
        if isinstance(a,Node) and a.k=='TypeArg': return s.rtype(a.type,T)
        if isinstance(a,Node) and a.k=='Id' and a.name in T and isinstance(T[a.name],tuple): return T[a.name]
        return s.cint(a,T)
    def cint(s,e,T):
        """compile-time integer expression as int or normalised term"""
        k=e.k
        if k=='Paren': return s.cint(e.e,T)
        if k=='Num': return e.v
        if k=='Bool': return int(e.v)
        if k=='Id':
            if e.name in T and not isinstance(T[e.name],tuple): return T[e.name]
            st=s.curst
            b=st.env.get(e.name) if st else None
            if b is not None:
                if isinstance(b,TV): return b.v
                x=s.load(st,b,e).v
                return norm(x) if isz(x) else x
            if e.name in s.prog.globals: return s.cint(s.prog.globals[e.name].init,T)
            raise VError(f'constant {e.name}')
        if k=='Binary':
            a,b=s.cint(e.a,T),s.cint(e.b,T); o=e.op
            if o=='+': return norm(add(a,b))
            if o=='-': return norm(sub(a,b))
            if o=='*': return norm(mul(a,b))
            if o=='/': return norm(s.idiv(a,b))
            if o=='%': return norm(s.imod(a,b))
            if o=='<<': return norm(mul(a,P2(b)))
            if o=='>>' and isinstance(b,int): return norm(s.idiv(a,2**b))
        if k=='Cast': return s.cint(e.e,T)
        if k=='Unary' and e.op=='-': return norm(mul(-1,s.cint(e.e,T)))
        if k=='Cond':
            c=s.ev_cond_const(e.c,T)
            return s.cint(e.a if c else e.b,T)
        st=s.curst
        if st is not None:
            v=s.rv(st,e)
            if v.t[0] in 'ib': return norm(v.v) if isz(v.v) else v.v
        raise VError(f'constant expression {e}')
    def ev_cond_const(s,e,T):
        v=s.rv(s.curst,e).v
        if isinstance(v,bool): return v
        raise VError('constant condition')

    # ------------------------------------------------------------ memory
    def get(s,st,c,path,i=0,n=None):
        while True:
            if i==len(path): return c
            k,x=path[i]
            if isinstance(c,St): c=c.f[x]; i+=1; continue
            if isinstance(c,CA):
                if isinstance(x,int):
                    if not 0<=x<len(c.e): raise VError('index out of range')
                    c=c.e[x]; i+=1; continue
                return s.casel(st,[s.get(st,e,path,i+1,n) for e in c.e],x)
            if isinstance(c,SA):
                if i+1<=len(path) and k=='i':
                    c=s.csel(c.tree,x); i+=1; continue
            if isinstance(c,Leaf) and c.t[0]=='Z':
                rest=path[i:]
                if len(rest)==2: return Leaf(ULONG,s.zlimb(c.v,rest[1][1],c.t[1]))
                if len(rest)==1: 
                    return s.z2limb(st,c).f['data']
            if isinstance(c,Leaf) and c.t[0]=='R':
                c=s.r2coef(st,c); continue
            raise VError(f'access path {path[i:]} on {type(c).__name__}')
    def csel(s,c,k):
        if isinstance(c,Leaf): return Leaf(c.t,sel(c.v,k))
        if isinstance(c,St): return St({f:s.csel(v,k) for f,v in c.f.items()})
        if isinstance(c,CA): return CA([s.csel(v,k) for v in c.e])
        return SA(c.n,s.csel(c.tree,k))
    def csto(s,c,k,new):
        if isinstance(c,Leaf):
            v=new.v
            if v is None:
                v=s.fresh('u',c.t)
            if c.t[0]=='d': v=toreal(v)
            return Leaf(c.t,sto(c.v,k,v))
        if isinstance(c,St): return St({f:s.csto(v,k,new.f[f]) for f,v in c.f.items()})
        if isinstance(c,CA): return CA([s.csto(v,k,x) for v,x in zip(c.e,new.e)])
        if isinstance(new,CA):
            # concrete array stored into lifted symbolic one
            inner=s.csel(c.tree,k)
            for i,x in enumerate(new.e): inner=s.csto(inner,i,x)
            return SA(c.n,s.csto(c.tree,k,inner))
        return SA(c.n,s.csto(c.tree,k,new.tree))
    def casel(s,st,cs,x):
        r=cs[-1]
        for j in range(len(cs)-2,-1,-1):
            c=eq(x,j)
            r=s.cite(c,cs[j],r)
        return r
    def cite(s,c,a,b):
        if c is True: return a
        if c is False: return b
        def f(p,q):
            if p.v is None and q.v is None: return None
            if isinstance(p.v,Ptr) or isinstance(q.v,Ptr): return s.ptrite(c,p.v,q.v)
            x=p.v if p.v is not None else s.fresh('u',p.t)
            y=q.v if q.v is not None else s.fresh('u',q.t)
            return ite(c,x,y)
        return cmap2(a,b,f)
    def ptrite(s,c,p,q):
        if p is None or q is None: return p if q is None else q   # uninitialised on one side
        if p.lv is None and q.lv is None: return p
        if p.lv is not None and q.lv is not None and p.lv.root==q.lv.root and len(p.lv.path)==len(q.lv.path):
            path=[]
            for (k,x),(k2,y) in zip(p.lv.path,q.lv.path):
                if k!=k2: break
                if k=='f':
                    if x!=y: break
                    path.append((k,x))
                else: path.append((k,norm(ite(c,x,y)) if not same(x,y) else x))
            else:
                if (p.idx is None)==(q.idx is None):
                    return Ptr(LV(p.lv.root,tuple(path),p.lv.t),None if p.idx is None else ite(c,p.idx,q.idx))
        raise VError('merge of unrelated pointers')
    def put(s,st,c,path,i,new):
        if i==len(path): return new
        k,x=path[i]
        if isinstance(c,St):
            d=dict(c.f); d[x]=s.put(st,c.f[x],path,i+1,new); return St(d)
        if isinstance(c,CA):
            e=list(c.e)
            if isinstance(x,int):
                if not 0<=x<len(e): raise VError('index out of range')
                e[x]=s.put(st,e[x],path,i+1,new); return CA(e)
            for j in range(len(e)):
                e[j]=s.cite(eq(x,j),s.put(st,e[j],path,i+1,new),e[j])
            return CA(e)
        if isinstance(c,SA):
            inner=s.csel(c.tree,x)
            inner=s.put(st,inner,path,i+1,new)
            return SA(c.n,s.csto(c.tree,x,inner))
        if isinstance(c,Leaf) and c.t[0]=='Z':
            rest=path[i:]
            if len(rest)==2:
                j=rest[1][1]
                v=new.v if new.v is not None else s.fresh('u',ULONG)
                if c.v is not None and isinstance(c.v,int) and c.v==0: w=mul(v,B(j))
                else: w=add(c.v,mul(sub(v,s.zlimb(c.v,j,c.t[1])),B(j)))
                if isz(w):
                    b=B(s.zlimbs(c.t[1]))
                    c2=REG.fresh('zl',IntS,facts=lambda q:[q>=0],rng=(0,None))
                    # value after a limb store stays a limb vector value (type invariant)
                    st.add(c2==w, c2<Z(b))
                    if c.v is not None and s.mode!='bounded':
                        st.add(eq(s.zlimb(c2,j,c.t[1]),v),eq(zlo(c2,j),zlo(c.v,j)))
                    solve.L('limb_store')
                    w=c2
                return Leaf(c.t,w)
        if isinstance(c,Leaf) and c.t[0]=='R':
            return s.put(st,s.r2coef(st,c),path,i,new)
        raise VError(f'store path {path[i:]} on {type(c).__name__}')
    def zlimb(s,V,j,LOGQ):
        if isinstance(V,int) and isinstance(j,int): return (V>>(64*j))&(2**64-1)
        if isinstance(V,int) and V==0: return 0
        if isz(V) and V.decl().name()=='val' and isz(V) and k_(V)==z3.Z3_OP_UNINTERPRETED and not isinstance(j,int): return sel(V.arg(0),j)
        f=z3.Function('zlimb',IntS,IntS,IntS)
        e=f(Z(V),Z(j)); REG.rng['zlimb']=(0,2**64-1)
        REG.pure['zlimb']=zlimb_facts
        return e
    def z2limb(s,st,c):
        """abstract big integer -> limb array content"""
        LOGQ=c.t[1]; n=s.zlimbs(LOGQ)
        a=REG.fresh('limbs',ArrS(IntS)); s.regelem(a,ULONG,1)
        st.add(eq(val(a,n),c.v))
        return St({'data':SA(n,Leaf(ULONG,a))})
    def zval(s,st,c,LOGQ=None):
        """mathematical value of a Z_Q content"""
        if isinstance(c,Leaf): return c.v
        d=c.f['data']
        if isinstance(d,CA):
            r=0
            for i,l in enumerate(d.e):
                v=l.v
                if v is None: raise VError('uninitialised limb')
                r=add(r,mul(v,2**(64*i)))
            return r
        return val(d.tree.v,d.n)
    def r2coef(s,st,c):
        LOGQ,N=c.t[1],c.t[2]
        a=REG.fresh('coefs',ArrS(IntS)); s.regelem(a,('Z',LOGQ),1)
        st.add(RFact(RING(a),c.v))
        if c.v is not None: COEFOF[a.decl().name()]=(c.v,LOGQ)
        return St({'coeff':SA(N,Leaf(('Z',LOGQ),a))})
    def rval(s,st,c):
        """ring value of an R_Q content"""
        if isinstance(c,Leaf): return c.v
        d=c.f['coeff']
        if isinstance(d,SA) and isinstance(d.tree,Leaf):
            return s.ringof(st,d.tree.v,d)
        raise VError('ring value of limb-level content')
    def ringof(s,st,a,d):
        # element updates X^k
        if k_(a)==Z3_OP_STORE:
            base=s.ringof(st,a.arg(0),d)
            return base+toreal(sub(a.arg(2),sel(a.arg(0),a.arg(1))))*XP(a.arg(1))
        if k_(a)==z3.Z3_OP_UNINTERPRETED and a.num_args()==0 and a.decl().name() in COEFOF:
            return COEFOF[a.decl().name()][0]
        r=RING(a)
        for h in s.ring_links: h(s,st,a,d,r)
        return r

    def chk(s,st,lv,n):
        """bounds obligations along the path of an lvalue"""
        pass
    def rawload(s,st,lv):
        return s.get(st,st.store[lv.root],lv.path)
    def load(s,st,lv,n=None):
        if lv.root not in st.store: raise VError('dead object')
        if s.acclog is not None and not s.dry: s.acclog.append(('R',lv.root,lv.path,list(st.facts),s.loc(n) if n is not None else ''))
        c=s.get(st,st.store[lv.root],lv.path)
        if lv.t[0] in 'ibdp' or lv.t[0] in('set','str'):
            if not isinstance(c,Leaf):
                if lv.t[0]=='p': return TV(lv.t,Ptr(lv,None))   # boxed pointer element
                raise VError('scalar load of aggregate')
            v=c.v
            if v is None:
                if lv.t[0]=='p': raise VError('uninitialised pointer')
                if lv.t[0]=='str': return TV(lv.t,None)
                v=s.fresh('uninit',lv.t)
                st.store[lv.root]=s.put(st,st.store[lv.root],lv.path,0,Leaf(lv.t,v))
                s.notes.append(('uninit',s.loc(n) if n is not None else '',lv.root))
            return TV(lv.t,v)
        return TV(lv.t,c)
    def write(s,st,lv,content,n=None):
        if s.acclog is not None and not s.dry: s.acclog.append(('W',lv.root,lv.path,list(st.facts),s.loc(n) if n is not None else ''))
        if s.wlog is not None: s.wlog.append((lv.root,lv.path))
        st.store[lv.root]=s.put(st,st.store[lv.root],lv.path,0,content)
    def store(s,st,lv,tv,n=None):
        if lv.t[0]=='s' or lv.t[0]=='a':
            c=tv.v
            s.write(st,lv,c,n); return
        v=s.conv(st,tv,lv.t,n)
        s.write(st,lv,Leaf(lv.t,v),n)
    def elem(s,st,lv,idx,n,check=True):
        t=lv.t
        assert t[0]=='a'
        if check and t[2] is not None:
            s.oblige(st,land(le(0,idx),lt(idx,t[2])),'bounds',n)
        if isinstance(idx,int) and isinstance(t[2],int) and not 0<=idx<t[2]:
            if s.dry or s.trial: raise TrialFail('bounds')
            raise VError(f'index {idx} out of range at {s.loc(n)}')
        if isz(idx) :
            idx=norm(idx) if k_(idx)!=Z3_OP_ITE else idx
        return LV(lv.root,lv.path+(('i',idx),),t[1])

    # ------------------------------------------------------------ arithmetic
    def idiv(s,a,b):
        """mathematical floor division for a>=0,b>0 (terms)"""
        if conc(a) and conc(b):
            if b==0: raise VError('division by zero')
            return a//b
        if isinstance(b,int):
            if b==1: return a
            p=poly(a); hi=Poly();lo=Poly()
            for m,c in p.items():
                q,r=divmod(int(c),b)
                if m==(): lo=lo+Poly({m:c})
                elif r==0: hi=hi+Poly({m:q})
                else: lo=lo+Poly({m:c})
            if hi:
                l=unpoly(lo); a0,a1=iv(l)
                if a0 is not None and a1 is not None and a0//b==a1//b: return add(unpoly(hi),a0//b)
                if conc(l): return add(unpoly(hi),l//b)
                return add(unpoly(hi),s.idiv(l,b)) 
            a0,a1=iv(a)
            if a0 is not None and a1 is not None and a0//b==a1//b: return a0//b
            # shared quotient
            key=('div',eid(a),b)
            if key in s.divmemo: return s.divmemo[key]
            q=REG.fresh('q',IntS,facts=lambda q:[q*b<=a,a<q*b+b],rng=(None if a0 is None else a0//b,None if a1 is None else a1//b))
            s.divmemo[key]=q
            return q
        if conc(a) and a==0: return 0
        d=cdiff(a,b)
        key=('div',eid(Z(norm(a))),eid(Z(norm(b))))
        if key in s.divmemo: return s.divmemo[key]
        # exact polynomial division by a single-monomial divisor
        bm=solve.as_monomial(b)
        if bm and all(int(c)%abs(bm[1])==0 for c in poly(a).values()):
            w=solve.divide_by(poly(a),bm[0])
            if w is not None: return unpoly(Poly({m:int(c)//bm[1] for m,c in w.items()}))
        a0,a1=iv(a)
        q=REG.fresh('q',IntS,facts=lambda q:[z3.Implies(Z(b)>0,z3.And(q*b<=a,Z(a)<q*b+b)),z3.Implies(z3.And(Z(b)>0,Z(a)>=0),q>=0),z3.Implies(z3.And(Z(b)>=1,Z(a)>=0),q<=a)]+[z3.And((q>=c)==(Z(a)>=c*Z(b)),z3.Implies(q==c,q*b==c*Z(b))) if c else z3.Implies(q==0,q*b==0) for c in range(0,7)],rng=(0 if a0 is not None and a0>=0 else None,a1 if a0 is not None and a0>=0 else None))
        s.divmemo[key]=q
        return q
    divmemo={}
    def imod(s,a,b):
        if conc(a) and conc(b):
            if b==0: raise VError('mod by zero')
            return a%b
        r=sub(a,mul(s.idiv(a,b),b))
        if isz(r):
            lo,hi=0,None
            b0,b1=iv(b)
            if b1 is not None: hi=b1-1
            setiv(r,lo,hi)   # b>0 is an obligation of the caller
        return r
    def wrap(s,st,v,t,n,signed_ob=True):
        """mathematical integer v as a value of type t"""
        lo,hi=irange(t)
        if isinstance(v,bool): v=int(v)
        if isinstance(v,int):
            if lo<=v<=hi: return v
            if t[2] and signed_ob:
                s.oblige(st,False,'overflow',n)
                return v
            m=1<<t[1]; v%=m
            return v-m if t[2] and v>hi else v
        if z3.is_bv(v): return v
        a,b=iv(v)
        if a is not None and b is not None and lo<=a and b<=hi: return v
        if t[2] and signed_ob:
            s.oblige(st,land(le(lo,v),le(v,hi)),'overflow',n)
            return v
        key=('wrap',eid(v),t)
        if key in s.divmemo: return s.divmemo[key]
        m=1<<t[1]
        qlo=None if a is None else (a-lo)//m; qhi=None if b is None else (b-lo)//m
        if qlo is not None and qlo==qhi: r=sub(v,m*qlo)
        else:
            q=REG.fresh('w',IntS,facts=lambda q:[v-m*q>=lo,v-m*q<=hi],rng=(qlo,qhi))
            r=sub(v,mul(m,q))
        setiv(r,lo,hi)
        s.divmemo[key]=r
        return r
    def conv(s,st,tv,t,n=None):
        """convert value to scalar type t"""
        f,v=tv.t,tv.v
        if f==t: return v
        if t[0]=='p':
            if isinstance(v,Ptr): return v
            if isinstance(v,int) and v==0: return Ptr(None,None)
            raise VError('pointer conversion')
        if t[0]=='b':
            if f[0]=='b': return v
            if f[0]=='p': return v.lv is not None
            return lnot(eq(v,0))
        if t[0]=='d':
            if f[0]=='b': return toreal(b2i(v)) 
            if f[0]=='i': return toreal(v)
            return v
        if t[0]=='i':
            if f[0]=='b': 
                return b2i(v)
            if f[0]=='d':
                return s.d2i(st,v,t,n)
            if z3.is_bv(v) if isz(v) else False: return s.bvconv(v,f,t)
            if f[0]=='i':
                (fl,fh),(tl,th)=irange(f),irange(t)
                if tl<=fl and fh<=th: return v      # the value lies in the range of its own type
            return s.wrap(st,v,t,n,signed_ob=False)
        if t[0]=='str' or f[0]=='str': return v
        raise VError(f'conversion {f} -> {t}')
    def d2i(s,st,v,t,n):
        if isinstance(v,(int,Fraction)):
            r=int(v)  # trunc
            s.oblige(st,irange(t)[0]<=r<=irange(t)[1],'double-to-int-range',n)
            return r
        lo,hi=irange(t)
        x=v
        if k_(x)==Z3_OP_TO_REAL:
            r=x.arg(0)
        elif x.decl().name()=='roundr' :
            r=roundi(x.arg(0))
        else:
            key=('d2i',eid(x))
            if key in s.divmemo: r=s.divmemo[key]
            else:
                r=REG.fresh('tr',IntS,facts=lambda q:[z3.Implies(x>=0,z3.And(z3.ToReal(q)<=x,x<z3.ToReal(q)+1)),z3.Implies(x<=0,z3.And(z3.ToReal(q)>=x,x>z3.ToReal(q)-1))])
                s.divmemo[key]=r
        s.oblige(st,land(le(lo,r),le(r,hi)),'double-to-int-range',n)
        setiv(r,lo,hi)
        return r
    def promote(s,t):
        if t[0]=='b' or (t[0]=='i' and t[1]<32): return INT
        return t
    def common(s,a,b):
        if a[0]=='d' or b[0]=='d': return DBL
        a,b=s.promote(a),s.promote(b)
        if a==b: return a
        w=max(a[1],b[1])
        if a[2]==b[2]: return ('i',w,a[2])
        u,g=(a,b) if not a[2] else (b,a)
        return u if u[1]>=g[1] else g
    def bvconv(s,v,f,t):
        w=v.size()
        if t[1]==w: return v
        if t[1]<w: return z3.Extract(t[1]-1,0,v)
        return z3.SignExt(t[1]-w,v) if f[2] else z3.ZeroExt(t[1]-w,v)
    def bvop(s,op,a,b,t):
        w=t[1]
        A=a if isz(a) else z3.BitVecVal(a,w)
        Bv=b if isz(b) else z3.BitVecVal(b,w)
        u=not t[2]
        if op=='+': return A+Bv
        if op=='-': return A-Bv
        if op=='*': return A*Bv
        if op=='&': return A&Bv
        if op=='|': return A|Bv
        if op=='^': return A^Bv
        if op=='<<': return A<<Bv
        if op=='>>': return z3.LShR(A,Bv) if u else A>>Bv
        if op=='/' : return z3.UDiv(A,Bv) if u else A/Bv
        if op=='%' : return z3.URem(A,Bv) if u else z3.SRem(A,Bv)
        if op=='<': return z3.ULT(A,Bv) if u else A<Bv
        if op=='<=': return z3.ULE(A,Bv) if u else A<=Bv
        if op=='>': return z3.UGT(A,Bv) if u else A>Bv
        if op=='>=': return z3.UGE(A,Bv) if u else A>=Bv
        if op=='==': return A==Bv
        if op=='!=': return A!=Bv
        raise VError('bv op '+op)
    def nonneg(s,st,v):
        a,b=iv(v)
        if a is not None and a>=0: return True
        if conc(v): return v>=0
        return None
    def binop(s,st,op,x,y,n):
        if op in('==','!=') and (x.t[0]=='p' or y.t[0]=='p'):
            p=x.v if isinstance(x.v,Ptr) else Ptr(None,None); q=y.v if isinstance(y.v,Ptr) else Ptr(None,None)
            r=s.ptreq(p,q)
            return TV(BOOL,r if op=='==' else lnot(r))
        if x.t[0]=='p' and op in '+-' and y.t[0] in 'ib':
            k=s.conv(st,y,LONG,n)
            if op=='-': k=mul(-1,k)
            p=x.v
            if p.idx is None: raise VError('pointer arithmetic on object pointer')
            return TV(x.t,Ptr(p.lv,norm(add(p.idx,k))))
        if y.t[0]=='p' and op=='+': return s.binop(st,op,y,x,n)
        if x.t[0]=='p' and y.t[0]=='p':
            if x.v.lv is not None and y.v.lv is not None and x.v.lv.root==y.v.lv.root and s.samepath(x.v.lv.path,y.v.lv.path):
                a,b=x.v.idx,y.v.idx
                if op=='-': return TV(LONG,sub(a,b))
                return TV(BOOL,{'<':lt(a,b),'<=':le(a,b),'>':lt(b,a),'>=':le(b,a)}[op])
            raise VError('pointer comparison')
        if op in('<<','>>'):
            t=s.promote(x.t); a=s.conv(st,x,t,n); b=s.conv(st,y,s.promote(y.t),n)
            if (isz(a) and z3.is_bv(a)) or (isz(b) and z3.is_bv(b)):
                if isz(b) and z3.is_bv(b) and b.size()!=t[1]:
                    b=z3.ZeroExt(t[1]-b.size(),b) if b.size()<t[1] else z3.Extract(t[1]-1,0,b)
                s.oblige(st,Z(b)<t[1] if not isz(b) or not z3.is_bv(b) else z3.ULT(b,t[1]),'shift-range',n) if isz(b) else s.oblige(st,0<=b<t[1],'shift-range',n)
                return TV(t,s.bvop(op,a,b,t))
            s.oblige(st,land(le(0,b),lt(b,t[1])),'shift-range',n)
            return TV(t,s.shift(st,op,a,b,t,n))
        t=s.common(x.t,y.t)
        a,b=s.conv(st,x,t,n),s.conv(st,y,t,n)
        if t[0]=='d': return s.dbl(st,op,a,b,n)
        if (isz(a) and z3.is_bv(a)) or (isz(b) and z3.is_bv(b)):
            r=s.bvop(op,a,b,t)
            return TV(BOOL if op in('<','<=','>','>=','==','!=') else t,r)
        if op in('<','<=','>','>=','==','!='):
            r={'<':lambda:lt(a,b),'<=':lambda:le(a,b),'>':lambda:lt(b,a),'>=':lambda:le(b,a),'==':lambda:eq(a,b),'!=':lambda:lnot(eq(a,b))}[op]()
            r2=s.ivcmp(op,a,b)
            return TV(BOOL,r if r2 is None else r2)
        if op=='+': return TV(t,s.wrap(st,add(a,b),t,n))
        if op=='-': return TV(t,s.wrap(st,sub(a,b),t,n))
        if op=='*': return TV(t,s.wrap(st,mul(a,b),t,n))
        if op in('/','%'):
            s.oblige(st,lnot(eq(b,0)),'div-by-zero',n)
            if conc(b) and b==0: return TV(t,s.fresh('dz',t))
            if conc(a) and conc(b):
                q=abs(a)//abs(b)*(1 if (a<0)==(b<0) else -1); r=a-q*b
                return TV(t,q if op=='/' else r)
            na,nb=s.nonneg(st,a),s.nonneg(st,b)
            if na and nb: pass
            elif t[2]:
                fs_ok=True
                if not nb:
                    if not (s.prove(st,le(0,b)).ok if not s.dry else True): raise VError('division by possibly negative value')
                if not na:
                    if s.dry: pass
                    elif s.prove(st,le(0,a)).ok: pass
                    else:
                        # truncation toward zero
                        m=mul(-1,a)
                        qp=s.idiv(a,b); qn=s.idiv(m,b)
                        q=ite(le(0,a),qp,mul(-1,qn))
                        r=sub(a,mul(q,b))
                        if op=='%':
                            rp=sub(a,mul(qp,b)); rn=add(a,mul(qn,b))
                            return TV(t,ite(le(0,a),rp,rn))
                        return TV(t,q)
            if op=='/': return TV(t,s.idiv(a,b))
            r=s.imod(a,b)
            return TV(t,r)
        if op in('&','|','^'): return TV(t,s.bits(st,op,a,b,t,n))
        raise VError('operator '+op)
    def ivcmp(s,op,a,b):
        if s.noiv: return None
        (a0,a1),(b0,b1)=iv(a),iv(b)
        L_=a1 is not None and b0 is not None and a1<b0   # a<b surely
        G_=a0 is not None and b1 is not None and a0>b1
        LE=a1 is not None and b0 is not None and a1<=b0
        GE=a0 is not None and b1 is not None and a0>=b1
        if not(L_ or G_) and (isz(a) or isz(b)):
            d=norm(sub(a,b)); d0,d1=iv(d)
            L_=L_ or d1 is not None and d1<0; G_=G_ or d0 is not None and d0>0
            LE=LE or d1 is not None and d1<=0; GE=GE or d0 is not None and d0>=0
        if op=='<': return True if L_ else False if GE else None
        if op=='<=': return True if LE else False if G_ else None
        if op=='>': return True if G_ else False if LE else None
        if op=='>=': return True if GE else False if L_ else None
        if op=='==': return False if L_ or G_ else None
        if op=='!=': return True if L_ or G_ else None
    def samepath(s,p,q):
        return len(p)==len(q) and all(a[0]==b[0] and (a[1]==b[1] if a[0]=='f' else same(norm(a[1]),norm(b[1]))) for a,b in zip(p,q))
    def ptreq(s,p,q):
        if p.lv is None or q.lv is None: return (p.lv is None)==(q.lv is None)
        if p.lv.root!=q.lv.root: return False
        if s.samepath(p.lv.path,q.lv.path):
            if p.idx is None and q.idx is None: return True
            return eq(p.idx or 0,q.idx or 0)
        raise VError('pointer equality')
    def shift(s,st,op,a,b,t,n):
        w=t[1]
        if conc(a) and conc(b):
            if op=='<<':
                return s.wrap(st,a<<b,t,n,signed_ob=t[2])
            return a>>b
        if t[2] and op=='<<':
            return s.wrap(st,mul(a,P2(b)),t,n)
        if op=='>>':
            k=('shl',eid(a) if isz(a) else a)
            info=s.shl.get(k)
            if info and t[1]==w and peq(info[1],b) and not t[2]:
                return s.lowbits(st,info[0],sub(w,b),w)
            if conc(b): return s.idiv(a,2**b)
            h,l=s.hilo(st,a,b,w)
            return h
        # << unsigned
        if conc(b):
            if b==0: return a
            l=s.lowbits(st,a,w-b,w)
            r=mul(l,2**b)
        else:
            l=s.lowbits(st,a,norm(sub(w,b)),w)
            r=mul(l,P2(norm(b)))
        if isz(r):
            setiv(r,0,(1<<w)-1)
            s.shl[('shl',eid(r))]=(a,b)
        return r
    shl={}
    def lowbits(s,st,a,k,w):
        """a mod 2^k for 0<=a<2^w"""
        if conc(k):
            if k>=w: return a
            a0,a1=iv(a)
            if a1 is not None and a1<2**k and a0 is not None and a0>=0: return a
            return s.imod(a,2**k)
        return s.hilo(st,a,k,w)[1]
    def hilo(s,st,a,k,w):
        """(a div 2^k, a mod 2^k), 0<=k<=w symbolic, 0<=a<2^w"""
        k=norm(k)
        if conc(k):
            return (s.idiv(a,2**k),s.imod(a,2**k))
        if conc(a) and a==0: return (0,0)
        key=('hilo',eid(a) if isz(a) else a,eid(k))
        if key in s.divmemo: return s.divmemo[key]
        p=P2(k)
        a1=iv(a)[1]
        h=REG.fresh('hi',IntS,facts=lambda h:[h>=0,h<=Z(a)],rng=(0,a1))
        l=sub(a,mul(h,p))
        REG.adddef(h,z3.Implies(Z(k)>=0,z3.And(Z(l)>=0,Z(l)<Z(p))))
        setiv(l,0,a1)
        lo_=REG.fresh('lo',IntS,rng=(0,a1))
        REG.adddef(lo_,lo_==l, z3.Implies(Z(k)>=0,lo_<Z(p)), Z(h)==h, Z(a)==Z(h)*Z(p)+lo_)
        REG.adddef(h,Z(a)==Z(h)*Z(p)+lo_)
        # h < 2^(w-k)
        p2=P2(norm(sub(w,k)))
        REG.adddef(h,z3.Implies(z3.And(Z(k)>=0,Z(k)<=w),z3.And(Z(h)<Z(p2),Z(p)*Z(p2)==2**w)))
        s.divmemo[key]=(h,lo_)
        return (h,lo_)
    def bits(s,st,op,a,b,t,n):
        if conc(a) and conc(b): return {'&':a&b,'|':a|b,'^':a^b}[op]
        w=t[1]; full=(1<<w)-1
        if conc(a): a,b=b,a
        if conc(b):
            if op=='&':
                if b==0: return 0
                if b==full: return a
                if b&(b+1)==0 and (s.nonneg(st,a) or not t[2]): return s.lowbits(st,a,b.bit_length(),w)
                # contiguous mask
                tz=(b&-b).bit_length()-1
                m=b>>tz
                if m&(m+1)==0 and not t[2]:
                    x=s.shift(st,'>>',a,tz,t,n); x=s.lowbits(st,x,m.bit_length(),w)
                    return mul(x,1<<tz)
                a0,a1=iv(a)
                if a1 is not None and a0 is not None and a0>=0:
                    if a1<=1: return mul(a,b&1)
                # general mask: sum of bits
            if op=='^':
                if b==0: return a
                if b==full and not t[2]: return sub(full,a)
            if op=='|':
                if b==0: return a
                tz=b.bit_length()
                # disjoint when a is a multiple of 2^tz
                g=s.lowzero(a)
                if g>=tz: return add(a,b)
        else:
            if op=='|' or op=='^' :
                # disjoint bit ranges
                for x,y in ((a,b),(b,a)):
                    hi=iv(y)[1]
                    if hi is not None and iv(y)[0]>=0 and s.lowzero(x)>=hi.bit_length(): return add(x,y)
                    # symbolic: x = l*2^k, y < 2^k
                    inf=s.shl.get(('shl',eid(x)))
                    if inf is not None:
                        k=inf[1]
                        if not s.dry and s.prove(st,lt(y,P2(k))).ok: return add(x,y)
                        if s.dry: return add(x,y)
            if op=='&':
                for x,y in ((a,b),(b,a)):
                    mp=s.maskof(y)
                    if mp is not None and not t[2]: return s.lowbits(st,x,mp,w)
            a1=iv(a)[1]; b1=iv(b)[1]
            if a1 is not None and b1 is not None and a1<=1 and b1<=1 and iv(a)[0]>=0 and iv(b)[0]>=0:
                A,Bb=eq(a,1),eq(b,1)
                return b2i({'&':land(A,Bb),'|':lor(A,Bb),'^':lnot(eq(A,Bb))}[op])
        # uninterpreted bitwise result with range (weak but sound)
        f=z3.Function({'&':'bvand','|':'bvor','^':'bvxor'}[op]+str(w),IntS,IntS,IntS)
        lo,hi=irange(t)
        r=f(Z(a),Z(b)); 
        REG.rng[f.name()]=(lo,hi)
        REG.pure[f.name()]=lambda x,lo=lo,hi=hi:[x>=lo,x<=hi]
        return r
    def maskof(s,y):
        """y = 2^k - 1 -> k"""
        p=poly(y)+Poly.const(1)
        m=[(mm,c) for mm,c in p.items()]
        if len(m)==1 and m[0][1]==1 and len(m[0][0])==1 and m[0][0][0][1]==1:
            from terms import _keep
            e=_keep[m[0][0][0][0]]
            if k_(e)==z3.Z3_OP_UNINTERPRETED and e.decl().name()=='P2': return e.arg(0)
        # all-ones >> r
        return None
    def lowzero(s,x):
        """number of known trailing zero bits"""
        if isinstance(x,int): return 10**6 if x==0 else (x&-x).bit_length()-1
        r=10**6
        for m,c in poly(x).items():
            c=int(c); r=min(r,(c&-c).bit_length()-1)
        return r
    def dbl(s,st,op,a,b,n):
        if conc(a) and conc(b):
            a,b=Fraction(a),Fraction(b)
            if op=='+': return TV(DBL,a+b)
            if op=='-': return TV(DBL,a-b)
            if op=='*': return TV(DBL,a*b)
            if op=='/':
                if b==0: raise VError('double division by zero')
                return TV(DBL,a/b)
            return TV(BOOL,{'<':a<b,'<=':a<=b,'>':a>b,'>=':a>=b,'==':a==b,'!=':a!=b}[op])
        A,Bb=Z(toreal(a)),Z(toreal(b))
        if op=='+': return TV(DBL,A+Bb if not (conc(a) and a==0) and not (conc(b) and b==0) else (b if conc(a) and a==0 else a))
        if op=='-': return TV(DBL,A-Bb if not (conc(b) and b==0) else a)
        if op=='*': return TV(DBL,mul(Fraction(a) if conc(a) else A,Fraction(b) if conc(b) else Bb))
        if op=='/':
            if conc(b):
                if b==0: raise VError('double division by zero')
                return TV(DBL,mul(1/Fraction(b),A))
            return TV(DBL,rdiv(A,Bb))
        return TV(BOOL,{'<':A<Bb,'<=':A<=Bb,'>':A>Bb,'>=':A>=Bb,'==':A==Bb,'!=':A!=Bb}[op])

    # ------------------------------------------------------------ expressions
    curst=None
    def lv(s,st,e):
        r=s.ev(st,e)
        if isinstance(r,LV): return r
        # materialise a temporary
        if r.t[0] in('s','a'): c=r.v
        else: c=Leaf(r.t,r.v)
        return LV(s.newroot(st,c,'tmp'),(),r.t)
    def rv(s,st,e):
        s.curst=st
        r=s.ev(st,e)
        if isinstance(r,LV):
            if r.t[0]=='a': return TV(('p',r.t[1]),Ptr(r,0))
            return s.load(st,r,e)
        return r
    def rcond(s,st,e):
        v=s.rv(st,e)
        return s.conv(st,v,BOOL,e)
    def ev(s,st,e):
        s.curst=st
        m=getattr(s,'e_'+e.k,None)
        if m is None: raise VError(f'expression {e.k} at {s.loc(e)}')
        return m(st,e)
    def e_Paren(s,st,e): return s.ev(st,e.e)
    def e_Num(s,st,e): return TV(BASIC[e.ty],e.v)
    def e_Float(s,st,e): return TV(DBL,Fraction(e.v))
    def e_Bool(s,st,e): return TV(BOOL,e.v)
    def e_Str(s,st,e): return TV(STR,e.v)
    def e_Null(s,st,e): return TV(('p',VOID),Ptr(None,None))
    def e_This(s,st,e): return TV(('p',s.fr.this.t),Ptr(s.fr.this,None))
    def e_Comma(s,st,e): s.ev(st,e.a); return s.ev(st,e.b)
    def e_Id(s,st,e):
        n=e.name
        if not e.quals or e.quals[-1][0]=='std':
            b=st.env.get(n)
            if b is not None: return b
            T=s.fr.T
            if n in T and not isinstance(T[n],tuple): return TV(INT,T[n])
            if s.fr.this is not None:
                sd=s.prog.structs[s.fr.this.t[1]]
                for v in sd.fields:
                    if v.name==n: return s.field(st,s.fr.this,n)
                if n in getattr(sd,'static_consts',{}):
                    return s.rv(st,sd.static_consts[n].init)
            if n in s.prog.globals:
                return s.rv(st,s.prog.globals[n].init)
            if n=='RAND_MAX': return TV(INT,2**31-1)
            if n in('cout','endl','cerr'): return TV(STR,None)
            if n=='M_PI': return TV(DBL,PIc)
            if n in('UINT64_MAX','ULLONG_MAX'): return TV(ULONG,2**64-1)
            if n=='INT_MAX': return TV(INT,2**31-1)
        raise VError(f'unknown identifier {n} at {s.loc(e)}')
    def field(s,st,lv,n):
        t=lv.t
        if t[0]!='s': raise VError(f'field {n} of {t}')
        sd=s.prog.structs[t[1]]; T=s.structT(sd,t[2])
        for v in sd.fields:
            if v.name==n:
                return LV(lv.root,lv.path+(('f',n),),s.rtype(v.type,T))
        raise VError(f'no field {n} in {t[1]}')
    def obj(s,st,e,arrow):
        if arrow:
            x=s.ev(st,e)
            if isinstance(x,LV) and x.t[0]=='uptr': return LV(x.root,x.path,x.t[1])
            v=x if isinstance(x,TV) else s.rv(st,e)
            if not isinstance(v.v,Ptr): raise VError('-> on non pointer')
            return s.deref(st,v.v,e)
        return s.lv(st,e)
    def deref(s,st,p,n):
        if p.lv is None: 
            s.oblige(st,False,'null-deref',n); raise VError('null dereference')
        if p.idx is None: 
            if p.lv.t[0]=='p': return LV(p.lv.root,p.lv.path,p.lv.t[1])
            return p.lv
        return s.elem(st,p.lv,p.idx,n)
    def e_Member(s,st,e):
        o=s.obj(st,e.e,e.arrow)
        return s.field(st,o,e.name)
    def e_Index(s,st,e):
        b=s.ev(st,e.e)
        if isinstance(b,LV) and b.t[0]=='a':
            i=s.rv(st,e.i)
            return s.elem(st,b,s.conv(st,i,LONG,e),e)
        if isinstance(b,LV) and b.t[0]=='s':
            return s.callm(st,b,'operator[]',[e.i],e)
        v=b if isinstance(b,TV) else s.load(st,b,e)
        if isinstance(v.v,Ptr):
            i=s.conv(st,s.rv(st,e.i),LONG,e)
            p=v.v
            if p.idx is None: 
                if p.lv is not None and conc(i) and i==0: return s.deref(st,p,e)
                raise VError('index on object pointer')
            return s.elem(st,p.lv,norm(add(p.idx,i)),e)
        if v.t[0]=='s':
            return s.callm(st,s.lv(st,e.e),'operator[]',[e.i],e)
        raise VError(f'index at {s.loc(e)}')
    def e_Unary(s,st,e):
        op=e.op
        if op=='*':
            v=s.rv(st,e.e); return s.deref(st,v.v,e)
        if op=='&':
            l=s.ev(st,e.e)
            if not isinstance(l,LV): raise VError('address of rvalue')
            if l.path and l.path[-1][0]=='i':
                # pointer into the enclosing array
                at=s.typeat(st,l)
                if at is not None: return TV(('p',l.t),Ptr(LV(l.root,l.path[:-1],at),l.path[-1][1]))
            return TV(('p',l.t),Ptr(l,None))
        if op=='!': return TV(BOOL,lnot(s.rcond(st,e.e)))
        v=s.rv(st,e.e)
        if op=='-':
            if v.t[0]=='d': return TV(DBL,-v.v if conc(v.v) else -v.v)
            t=s.promote(v.t); x=s.conv(st,v,t,e)
            if isz(x) and z3.is_bv(x): return TV(t,-x)
            return TV(t,s.wrap(st,mul(-1,x),t,e))
        if op=='+': return TV(s.promote(v.t),s.conv(st,v,s.promote(v.t),e)) if v.t[0]!='d' else v
        if op=='~':
            t=s.promote(v.t); x=s.conv(st,v,t,e)
            if isz(x) and z3.is_bv(x): return TV(t,~x)
            if conc(x): return TV(t,(~x) if t[2] else (~x)&((1<<t[1])-1))
            return TV(t,sub(-1,x) if t[2] else sub((1<<t[1])-1,x))
        raise VError('unary '+op)
    def typeat(s,st,l):
        """array type of the enclosing array of an element lvalue"""
        c=s.getshape(st,l.root,l.path[:-1])
        if isinstance(c,CA): return ('a',l.t,len(c.e))
        if isinstance(c,SA): return ('a',l.t,c.n)
        return None
    def getshape(s,st,root,path):
        c=st.store[root]
        for k,x in path:
            if isinstance(c,St): c=c.f[x]
            elif isinstance(c,CA): c=c.e[x if isinstance(x,int) else 0]
            elif isinstance(c,SA): c=c.tree
            elif isinstance(c,Leaf) and c.t[0]=='Z': return SA(s.zlimbs(c.t[1]),None)
            elif isinstance(c,Leaf) and c.t[0]=='R': return SA(c.t[2],None)
        return c
    def e_PreInc(s,st,e):
        l=s.ev(st,e.e); v=s.load(st,l,e)
        r=s.binop(st,'+' if e.op=='++' else '-',v,TV(INT,1),e)
        s.store(st,l,r,e); return l
    def e_PostInc(s,st,e):
        l=s.ev(st,e.e); v=s.load(st,l,e)
        r=s.binop(st,'+' if e.op=='++' else '-',v,TV(INT,1),e)
        s.store(st,l,r,e); return v
    def e_Binary(s,st,e):
        op=e.op
        if op in('&&','||'):
            a=s.rcond(st,e.a)
            if isinstance(a,bool):
                if op=='&&': return TV(BOOL,s.rcond(st,e.b) if a else False)
                return TV(BOOL,True if a else s.rcond(st,e.b))
            # evaluate b under the assumption a / not a
            st2=st.copy(); st2.add(a if op=='&&' else lnot(a)); n0=len(st2.facts)
            b=s.rcond(st2,e.b)
            if any(st2.store.get(r) is not c for r,c in st.store.items()):
                s.merge_into(st,a if op=='&&' else lnot(a),st2,st.copy())
            else:
                for f in st2.facts[n0:]: st.add(s.guardf(f,a if op=='&&' else lnot(a)))
                for r,c in st2.store.items():
                    if r not in st.store: st.store[r]=c
            s.curst=st
            return TV(BOOL,land(a,b) if op=='&&' else lor(a,b))
        if op=='<<':
            x=s.ev(st,e.a)
            if isinstance(x,TV) and x.t==STR or isinstance(x,LV) and x.t==STR:
                try: s.ev(st,e.b)
                except VError: pass
                return TV(STR,None)
            a=x if isinstance(x,TV) else s.rv(st,e.a)
        else: a=s.rv(st,e.a)
        b=s.rv(st,e.b)
        if a.t[0]=='s' or b.t[0]=='s': return s.opcall(st,op,e)
        if a.t[0]=='str' or b.t[0]=='str': return TV(STR,None)
        return s.binop(st,op,a,b,e)
    def opcall(s,st,op,e):
        la=s.ev(st,e.a)
        if isinstance(la,LV) and la.t[0]=='s':
            q=la.t[1]+'::operator'+op
            if q in s.prog.funcs: return s.callm(st,la,'operator'+op,[e.b],e)
        q='operator'+op
        if q in s.prog.funcs: return s.callf(st,q,None,[e.a,e.b],e)
        raise VError(f'operator {op} on class at {s.loc(e)}')
    def guardf(s,f,c):
        if isinstance(f,QFact): return f.guarded(c)
        if isinstance(f,RFact): return RFact(f.x,f.y,land(c,f.guard))
        return Z(implies(c,f))
    def e_Assign(s,st,e):
        if e.op!='=':
            l=s.ev(st,e.a)
            if isinstance(l,LV) and l.t[0]=='s': return s.callm(st,l,'operator'+e.op,[e.b],e)
            if not isinstance(l,LV): raise VError('assignment to rvalue')
            b=s.rv(st,e.b)
            a=s.load(st,l,e)
            r=s.binop(st,e.op[:-1],a,b,e)
            s.store(st,l,r,e); return l
        l=s.ev(st,e.a)
        if not isinstance(l,LV): raise VError('assignment to rvalue')
        if l.t[0]=='s':
            if (l.t[1]+'::operator=') in s.prog.funcs: 
                s.callm(st,l,'operator=',[e.b],e); return l
            v=s.rv(st,e.b)
            s.store(st,l,v,e); return l
        if l.t[0]=='uptr':
            v=s.rv(st,e.b)
            if isinstance(v.v,Ptr) :
                c=s.rawload(st,v.v.lv); s.write(st,l,c,e); return l
            raise VError('unique_ptr assignment')
        v=s.rv(st,e.b)
        s.store(st,l,v,e)
        return l
    def e_Cond(s,st,e):
        c=s.rcond(st,e.c)
        if isinstance(c,bool): return s.ev(st,e.a if c else e.b)
        sa=st.copy(); sa.add(c); sb=st.copy(); sb.add(lnot(c))
        a=s.rv(sa,e.a); b=s.rv(sb,e.b)
        s.merge_into(st,c,sa,sb)
        s.curst=st
        if a.t[0]=='s': return TV(a.t,s.cite(c,a.v,b.v))
        if isinstance(a.v,Ptr) or isinstance(b.v,Ptr): return TV(a.t,s.ptrite(c,a.v,b.v))
        if a.t==STR: return a
        t=a.t if a.t==b.t else s.common(a.t,b.t)
        return TV(t,ite(c,s.conv(st,a,t,e),s.conv(st,b,t,e)))
    def e_Cast(s,st,e):
        t=s.rtype(e.type)
        if t==VOID: s.ev(st,e.e); return TV(VOID,None)
        v=s.rv(st,e.e)
        if t[0]=='p': return TV(t,v.v)
        if v.t[0]=='s':
            return s.convop(st,s.lv(st,e.e),t,e)
        return TV(t,s.conv(st,v,t,e))
    def convop(s,st,lv,t,e):
        nm='operator '+{'d':'double','b':'bool'}.get(t[0],tname(t))
        return s.callm(st,lv,nm,[],e)
    def e_Construct(s,st,e):
        t=s.rtype(e.type)
        if t[0]=='s':
            r=s.newroot(st,s.mk(t,'c'),'tmp'); l=LV(r,(),t)
            s.construct(st,l,e.args,e); return s.load(st,l,e)
        if not e.args: return TV(t,0 if t[0]!='d' else Fraction(0))
        v=s.rv(st,e.args[0])
        if v.t[0]=='s': return s.convop(st,s.lv(st,e.args[0]),t,e)
        return TV(t,s.conv(st,v,t,e))
    def e_InitList(s,st,e): raise VError('initialiser list in expression')
    def e_SizeofT(s,st,e): return TV(ULONG,s.sizeof(s.rtype(e.type)))
    def e_SizeofE(s,st,e):
        l=s.ev(st,e.e); return TV(ULONG,s.sizeof(l.t))
    def sizeof(s,t):
        if t[0]=='i': return t[1]//8
        if t[0]=='b': return 1
        if t[0] in 'dp': return 8
        if t[0]=='a': return norm(mul(t[2],s.sizeof(t[1])))
        if t[0]=='s' and t[1]=='Z_Q': return norm(mul(8,s.zlimbs(t[2][0])))
        if t[0]=='s':
            sd=s.prog.structs[t[1]]; T=s.structT(sd,t[2]); r=0
            for v in sd.fields: r=add(r,s.sizeof(s.rtype(v.type,T)))
            return norm(r)
        raise VError('sizeof')
    def e_NewArr(s,st,e):
        t=s.rtype(e.type); n=s.rv(st,e.n).v
        n=norm(n) if isz(n) else n
        at=('a',t,n)
        r=s.newroot(st,s.mk(at,'heap'),'heap')
        return TV(('p',t),Ptr(LV(r,(),at),0))
    def e_New(s,st,e):
        t=s.rtype(e.type)
        r=s.newroot(st,s.mk(t,'heap'),'heap'); l=LV(r,(),t)
        if t[0]=='s': s.construct(st,l,e.args,e)
        elif e.args: s.store(st,l,s.rv(st,e.args[0]),e)
        return TV(('p',t),Ptr(l,None))
    def e_Delete(s,st,e): s.ev(st,e.e); return TV(VOID,None)
    def e_Lambda(s,st,e):
        return TV(('lam',),(e,dict(st.env),s.fr))
    def construct(s,st,l,args,n):
        """run a constructor for class object l"""
        t=l.t; nm=t[1]; q=nm+'::'+nm
        sd=s.prog.structs[nm]
        # default member initialisers
        T=s.structT(sd,t[2])
        for v in sd.fields:
            if v.init is not None:
                fl=s.field(st,l,v.name); s.frames.append(Frame(None,T,l))
                try: s.initvar(st,fl,v.init)
                finally: s.frames.pop()
        fs=s.prog.funcs.get(q,[])
        if not args:
            for f in fs:
                if not f.params:
                    return s.invoke(st,f,T,l,[],n)
            return
        if len(args)==1:
            x=s.ev(st,args[0]) if isinstance(args[0],Node) else args[0]
            if x.t[0]=='s' and x.t[1]==nm:
                for f in fs:
                    if len(f.params)==1 and f.params[0].type.ref and f.params[0].type.name==nm:
                        al=x if isinstance(x,LV) else s.lv_of(st,x)
                        return s.invoke(st,f,T,l,[al],n)
                c=s.rawload(st,x) if isinstance(x,LV) else x.v
                if s.acclog is not None and not s.dry and isinstance(x,LV): s.acclog.append(('R',x.root,x.path,list(st.facts),s.loc(n)))
                s.write(st,l,c,n); return
        for f in fs:
            if len(f.params)==len(args) and not (len(args)==1 and f.params[0].type.name==nm):
                vals=[s.argval(st,p,a,T,n) for p,a in zip(f.params,args)]
                return s.invoke(st,f,T,l,vals,n)
        raise VError(f'no constructor {nm}/{len(args)}')
    def lv_of(s,st,tv):
        c=tv.v if tv.t[0] in('s','a') else Leaf(tv.t,tv.v)
        return LV(s.newroot(st,c,'tmp'),(),tv.t)
    def argval(s,st,p,a,T,n):
        """evaluate one argument for parameter p; returns LV (by reference / by-value object) or TV"""
        x=s.ev(st,a) if isinstance(a,Node) else a
        if p.type.ref and not p.type.dims:
            if isinstance(x,LV): return x
            return s.lv_of(st,x)
        if isinstance(x,LV):
            if x.t[0]=='a': return TV(('p',x.t[1]),Ptr(x,0))
            return s.load(st,x,n)
        return x

    # ------------------------------------------------------------ calls
    def e_Call(s,st,e):
        f=e.f
        if f.k=='Paren': f=f.e
        if f.k=='Member':
            o0=s.ev(st,f.e)
            ot=o0.t
            if ot[0]=='str': return TV(STR,None)
            if ot[0]=='set': return s.setop(st,o0,f.name,e)
            o=s.obj(st,f.e,f.arrow)
            if o.t[0]=='set': return s.setop(st,o,f.name,e)
            if o.t[0]=='uptr' and f.name=='get': return TV(('p',o.t[1]),Ptr(LV(o.root,o.path,o.t[1]),None))
            return s.callm(st,o,f.name,e.args,e,f.targs)
        if f.k=='Id':
            n=f.name
            if f.quals and f.quals[-1][0] in s.prog.structs:
                sn,sta=f.quals[-1]
                sd=s.prog.structs[sn]
                T=s.structT(sd,tuple(s.targ(a,s.fr.T) for a in (sta or [])))
                return s.callf(st,sn+'::'+n,f.targs,e.args,e,T)
            b=st.env.get(n)
            if b is not None:
                v=b if isinstance(b,TV) else s.load(st,b,e)
                if v.t==('lam',): return s.calllam(st,v.v,e.args,e)
            if s.fr.this is not None and (s.fr.this.t[1]+'::'+n) in s.prog.funcs and not f.quals:
                return s.callm(st,s.fr.this,n,e.args,e,f.targs)
            if n in s.prog.funcs and not(f.quals and f.quals[-1][0]=='std'):
                try: return s.callf(st,n,f.targs,e.args,e)
                except NoMatch:
                    pass
            return s.builtin(st,n,f,e)
        if f.k=='Lambda': return s.calllam(st,(f,dict(st.env),s.fr),e.args,e)
        raise VError(f'call at {s.loc(e)}')
    def calllam(s,st,lam,args,n):
        node,env,fr=lam
        vals=[s.argval(st,p,a,fr.T,n) for p,a in zip(node.params,args)]
        F=LamFunc(node)
        # by-reference capture semantics for locals of the enclosing frame; by-value captures of modified
        # variables are rejected
        if '=' in node.cap or any(c not in('&','this',',','=') and i and node.cap[i-1]!='&' for i,c in enumerate(node.cap)): 
            pass
        return s.run(st,F,fr.T,fr.this,vals,n,base_env=env)
    def callm(s,st,o,name,args,n,targs=None):
        t=o.t
        if t[0]!='s': raise VError(f'method {name} on {t}')
        q=t[1]+'::'+name
        cands=s.prog.funcs.get(q)
        if not cands: raise VError(f'no method {q}')
        sd=s.prog.structs[t[1]]; T0=s.structT(sd,t[2])
        xs=[s.ev(st,a) if isinstance(a,Node) and a.k!='InitList' else a for a in args]
        best=None
        cs=[f for f in cands if len(f.params)>=len(args) and all(p.default is not None for p in f.params[len(args):])]
        # const overloads of operator[]: prefer the reference-returning one
        cs.sort(key=lambda f:(f.const,))
        errs=[]
        scored=[]
        for f in cs:
            sT={}
            for (k,nm,d),(k2,nm2,d2) in zip(f.tparams[:f.nstruct] if f.nstruct else f.tparams[:len(sd.tparams)],sd.tparams): sT[nm]=T0[nm2]
            for nm in T0: sT.setdefault(nm,T0[nm])
            T=s.match(st,f,xs,targs,sT)
            if T is not None: scored.append((T[1],f,T[0]))
        if not scored: raise VError(f'no matching overload of {q} at {s.loc(n)}')
        scored.sort(key=lambda z:z[0])
        f,T=scored[0][1],scored[0][2]
        vals=[s.argval(st,p,x,T,n) for p,x in zip(f.params,xs)]
        return s.invoke(st,f,T,o,vals,n)
    def callf(s,st,q,targs,args,n,T0=None):
        cands=s.prog.funcs.get(q,[])
        xs=[s.ev(st,a) for a in args]
        scored=[]
        for f in cands:
            if not(len(f.params)>=len(args) and all(p.default is not None for p in f.params[len(args):])): continue
            sT={}
            if T0 is not None:
                sd=s.prog.structs[f.struct]
                names=[x[1] for x in f.tparams[:len(sd.tparams)]] if f.tparams else []
                for nm,nm2 in zip(names or [x[1] for x in sd.tparams],[x[1] for x in sd.tparams]): sT[nm]=T0[nm2]
                for nm in T0: sT.setdefault(nm,T0[nm])
            m=s.match(st,f,xs,targs,sT,skip=len(sT) if T0 is not None else 0)
            if m is not None: scored.append((m[1],f,m[0]))
        if not scored: raise NoMatch(f'no matching function {q} at {s.loc(n)}')
        scored.sort(key=lambda z:z[0])
        f,T=scored[0][1],scored[0][2]
        vals=[s.argval(st,p,x,T,n) for p,x in zip(f.params,xs)]
        for p in f.params[len(args):]:
            s.frames.append(Frame(f,T)); 
            try: vals.append(s.rv(st,p.default))
            finally: s.frames.pop()
        return s.invoke(st,f,T,None,vals,n)
    def match(s,st,f,xs,targs,sT,skip=0):
        """template argument deduction; returns (T,score) or None"""
        T=dict(sT)
        own=[p for p in f.tparams if p[1] not in sT]
        if targs:
            if len(targs)>len(own): return None
            for (k,nm,d),a in zip(own,targs):
                try: v=s.targ(a,s.fr.T)
                except VError: return None
                if (k=='type')!=isinstance(v,tuple): return None
                T[nm]=v
        score=0
        for p,x in zip(f.params,xs):
            at=x.t
            r=s.unify(p.type,at,T,top=True)
            if r is None: return None
            score+=r
        for k,nm,d in own:
            if nm not in T:
                if d is not None: T[nm]=s.cint(d,T)
                else: return None
        # verify the types fully
        for p,x in zip(f.params,xs):
            try: pt=s.rtype(p.type,T)
            except VError: return None
            at=x.t
            if pt[0]=='s':
                if at[0]!='s' or not teq(pt,at): return None
            elif pt[0]=='a' or pt[0]=='p':
                pe=pt[1]
                if at[0] not in('a','p'): 
                    if not (isinstance(x,TV) and isinstance(x.v,Ptr)): return None
                    continue
                if at[0] in('a','p') and at[1]!=VOID and not s.elemcompat(pe,at[1]): return None
            elif is_num(pt):
                if not is_num(at):
                    if at[0]=='s': return None
                    return None
                if pt!=at: score+=1 if (pt[0]==at[0]) else 2
                if p.type.ref and not p.type.const and pt!=at: return None
        return T,score
    def elemcompat(s,a,b):
        if a[0]=='a' and b[0]=='a': return s.elemcompat(a[1],b[1])
        if a[0]=='p' and b[0]=='p': return s.elemcompat(a[1],b[1])
        if a[0]=='s' and b[0]=='s': return a[1]==b[1] and teq(a,b)
        return a[0]==b[0] and a==b or (a[0]=='uptr' and b[0]=='uptr')
    def unify(s,ty,at,T,top=False):
        """bind template names in ty from the argument type at; None on mismatch"""
        nd=len(ty.dims); 
        t=at
        dims=list(ty.dims)
        if dims or ty.ptr:
            k=nd+ty.ptr
            first=True
            for i in range(k):
                if t[0] not in('a','p'): return None
                if i<nd and not first and dims[i] is not None and t[0]=='a': 
                    s.unify_int(dims[i],t[2],T)
                first=False
                t=t[1]
        if ty.name in T or any(True for _ in ()): 
            if isinstance(T.get(ty.name),tuple): return 0
        if ty.name in BASIC: return 0
        if ty.name in s.prog.structs:
            if t[0]!='s' or t[1]!=ty.name: return None
            if ty.targs is not None:
                for a,v in zip(ty.targs,t[2]):
                    if isinstance(a,Node) and a.k=='TypeArg':
                        if s.unify(a.type,v,T) is None: return None
                    elif isinstance(v,tuple):
                        if a.k=='Id' and a.name not in T: T[a.name]=v
                    else:
                        if s.unify_int(a,v,T) is None: return None
            return 0
        if ty.name not in T and ty.name not in s.prog.aliases and ty.name not in('set','unique_ptr','string','auto','ostream'):
            T[ty.name]=t   # type parameter
            return 1
        return 0
    def unify_int(s,e,v,T):
        if isinstance(e,Node):
            while e.k=='Paren': e=e.e
            if e.k=='Id':
                if e.name in T: return 0
                T[e.name]=v; return 0
            # not deducible: checked later
        return 0
    def invoke(s,st,f,T,this,vals,n):
        k=fkey(f)
        c=s.contracts.get(k)
        if c is not None and not getattr(c,'inline',False) and k not in s.extra_inline and (s.mode!='bounded' or k in s.usec) and (s.zq,s.rq) in getattr(c,'views',((s.zq,s.rq),)):
            if c.applies is None or c.applies(s,T):
                s.used.add(k)
                return s.apply(st,c,f,T,this,vals,n)
        return s.run(st,f,T,this,vals,n)
    def run(s,st,f,T,this,vals,n,base_env=None):
        """inline execution of a function body"""
        if s.depth>60: raise VError('call depth')
        s.depth+=1
        if not isinstance(f,LamFunc): s.inlined.add(fkey(f))
        saved=st.env
        fr=Frame(f,T,this)
        s.frames.append(fr)
        try:
            st.env=dict(base_env) if base_env else {}
            s.bind(st,f,T,vals,n)
            outs=s.runbody(st,f,n)
        finally:
            s.frames.pop(); s.depth-=1
        # merge outcomes
        if not outs: raise Infeasible()
        st2,rvv=s.join(outs)
        st.store=st2.store; st.facts=st2.facts; st.env=saved
        s.curst=st
        return rvv if rvv is not None else TV(VOID,None)
    def bind(s,st,f,T,vals,n):
        for p,v in zip(f.params,vals):
            if p.name is None: continue
            if p.type.name=='auto':
                pt=v.t
            else: pt=s.rtype(p.type,T)
            if p.type.ref and not p.type.dims:
                if isinstance(v,TV): v=s.lv_of(st,v)
                if is_num(pt) and v.t!=pt:  # binding a const ref to a converted temporary
                    tv=s.load(st,v,n); v=s.lv_of(st,TV(pt,s.conv(st,tv,pt,n)))
                st.env[p.name]=v; continue
            if pt[0]=='a': pt=('p',pt[1])
            if pt[0]=='s':
                if isinstance(v,LV): v=s.load(st,v,n)
                r=s.newroot(st,v.v,p.name); st.env[p.name]=LV(r,(),pt); continue
            if isinstance(v,LV): v=s.load(st,v,n)
            if v.t==('lam',): st.env[p.name]=v; continue
            x=s.conv(st,v,pt,n)
            r=s.newroot(st,Leaf(pt,x),p.name); st.env[p.name]=LV(r,(),pt)
    def runbody(s,st,f,n):
        """returns list of (state, retval TV/LV or None)"""
        if f.ctor:
            for fld,args in f.inits:
                l=s.field(st,s.fr.this,fld)
                if l.t[0]=='s': s.construct(st,l,args,n)
                else: s.store(st,l,s.rv(st,args[0]),n)
        outs=s.ex(st,f.body)
        res=[]
        for k,st2,v in outs:
            if k in('normal','return'): res.append((st2,v if k=='return' else None))
            else: raise VError('break/continue outside loop')
        return res
    def join(s,outs):
        """merge return states"""
        st,v=outs[-1]
        for st1,v1 in reversed(outs[:-1]):
            # distinguish by path condition: facts of st1 beyond the common prefix
            st,v=s.mergert(st1,v1,st,v)
        return st,v
    def mergert(s,a,va,b,vb):
        k=0
        while k<len(a.facts) and k<len(b.facts) and a.facts[k] is b.facts[k]: k+=1
        pa=a.facts[k:]; 
        # condition: the first differing fact of a must be a path condition and b has its negation
        c=getpc(pa)
        pb=[f for f in b.facts[k:] if not isinstance(f,(QFact,RFact))]
        if not pb or not pb[0].eq(Z(lnot(c))): c=REG.fresh('sel',BoolS)
        out=State(dict(),a.facts[:k],{})
        s.merge_states(out,c,a,b,k)
        if va is None and vb is None: return out,None
        if isinstance(va,LV) or isinstance(vb,LV):
            if isinstance(va,LV) and isinstance(vb,LV) and va.root==vb.root and s.samepath(va.path,vb.path): return out,va
            if isinstance(va,LV): va=s.load(a,va)
            if isinstance(vb,LV): vb=s.load(b,vb)
        if va.t[0]=='s': return out,TV(va.t,s.cite(c,va.v,vb.v))
        if isinstance(va.v,Ptr): return out,TV(va.t,s.ptrite(c,va.v,vb.v))
        if va.t==VOID or va.v is None: return out,va
        return out,TV(va.t,ite(c,va.v,vb.v))
    def merge_states(s,out,c,a,b,k):
        for f in a.facts[k:]: out.facts.append(s.guardf(f,c) if not (isz(f) and isz(c) and f.eq(c)) else Z(True))
        nc=lnot(c)
        for f in b.facts[k:]: out.facts.append(s.guardf(f,nc) if not (isz(f) and isz(nc) and f.eq(nc)) else Z(True))
        out.facts=[f for f in out.facts if not (isz(f) and z3.is_true(f))]
        for r in a.store:
            if r in b.store:
                x,y=a.store[r],b.store[r]
                if x is y: out.store[r]=x
                else: out.store[r]=s.cite2(out,c,x,y)
            else: out.store[r]=a.store[r]
        for r in b.store:
            if r not in a.store: out.store[r]=b.store[r]
    def cite2(s,st,c,x,y):
        try: return s.cite(c,x,y)
        except VError:
            # different representations: bring both to the lower one
            x2,y2=s.align(st,x,y)
            return s.cite(c,x2,y2)
    def align(s,st,x,y):
        if type(x)==type(y):
            if isinstance(x,St):
                ps={k:s.align(st,x.f[k],y.f[k]) for k in x.f}
                return St({k:v[0] for k,v in ps.items()}),St({k:v[1] for k,v in ps.items()})
            if isinstance(x,CA):
                ps=[s.align(st,a,b) for a,b in zip(x.e,y.e)]
                return CA([p[0] for p in ps]),CA([p[1] for p in ps])
            return x,y
        if isinstance(x,Leaf) and x.t[0]=='R': return s.r2coef(st,x),y
        if isinstance(y,Leaf) and y.t[0]=='R': return x,s.r2coef(st,y)
        if isinstance(x,Leaf) and x.t[0]=='Z': return s.align(st,s.z2limb(st,x),y)
        if isinstance(y,Leaf) and y.t[0]=='Z': return s.align(st,x,s.z2limb(st,y))
        raise VError('cannot align representations')
    def merge_into(s,st,c,a,b):
        k=0
        while k<len(a.facts) and k<len(b.facts) and a.facts[k] is b.facts[k]: k+=1
        out=State({},a.facts[:k],st.env)
        s.merge_states(out,c,a,b,k)
        st.store=out.store; st.facts=out.facts

    # ------------------------------------------------------------ contract application
    def apply(s,st,c,f,T,this,vals,n):
        cc=c.at_call(s,st,f,T,this,vals,n)
        return cc

    # ------------------------------------------------------------ statements
    def ex(s,st,n):
        """list of (kind,state,value)"""
        if n is None: return [('normal',st,None)]
        s.curst=st
        m=getattr(s,'s_'+n.k,None)
        if m is None: raise VError(f'statement {n.k} at {s.loc(n)}')
        pr=getattr(n,'pragma',None)
        return m(st,n)
    def s_Block(s,st,n):
        env=st.env; st.env=dict(env)
        outs=s.exlist(st,n.xs)
        for k,q,v in outs: q.env=env if q is st else dict(env)
        return outs
    def exlist(s,st,xs):
        live=[st]; done=[]
        for x in xs:
            nxt=[]
            for q in live:
                try:
                    for k,q2,v in s.ex(q,x):
                        if k=='normal': nxt.append(q2)
                        else: done.append((k,q2,v))
                except Infeasible: pass
            live=nxt
            if len(live)+len(done)>400: raise VError('too many paths')
            if not live: break
        return done+[('normal',q,None) for q in live]
    def s_Expr(s,st,n): s.ev(st,n.e); return [('normal',st,None)]
    def s_Decl(s,st,n):
        for d in n.ds: s.declare(st,d)
        return [('normal',st,None)]
    def declare(s,st,d):
        ty=d.type
        if d.static and not d.constexpr and not(ty.const and False):
            return s.staticvar(st,d)
        if ty.name=='auto' and not ty.dims:
            x=s.ev(st,d.init if d.init is not None else d.ctor[0])
            if ty.ref:
                if not isinstance(x,LV): x=s.lv_of(st,x)
                st.env[d.name]=x; return
            if isinstance(x,LV):
                x=TV(('p',x.t[1]),Ptr(x,0)) if x.t[0]=='a' else s.load(st,x,d)
            if x.t==('lam',): st.env[d.name]=x; return
            c=x.v if x.t[0] in('s','a') else Leaf(x.t,x.v)
            st.env[d.name]=LV(s.newroot(st,c,d.name),(),x.t); return
        if ty.ref:
            x=s.ev(st,d.init if d.init is not None else d.ctor[0])
            if not isinstance(x,LV): x=s.lv_of(st,x)
            if ty.dims==() and is_num(s.rtype(ty)) and x.t!=s.rtype(ty):
                x=s.lv_of(st,TV(s.rtype(ty),s.conv(st,s.load(st,x,d),s.rtype(ty),d)))
            st.env[d.name]=x; return
        t=s.rtype(ty)
        if t[0]=='a' and t[2] is None:
            t=('a',t[1],len(d.init.xs))
        tb=getattr(s.top,'table',None)
        if tb is not None and (ty.const or d.constexpr) and t[0]=='a' and t[1][0]=='i' and isinstance(t[2],int) and d.init is not None and d.init.k=='InitList' and len(d.init.xs)==t[2] and all(x.k=='Num' for x in d.init.xs):
            # constant table: an array about which only checked ground facts are used
            c=s.mksa(t,d.name); tb(s,c.tree.v,[x.v for x in d.init.xs])
            st.env[d.name]=LV(s.newroot(st,c,d.name),(),t); return
        if t[0]=='str':
            st.env[d.name]=LV(s.newroot(st,Leaf(t,None),d.name),(),t); return
        if t[0]=='i' and (ty.const or d.constexpr) and d.init is not None and d.init.k!='InitList' or t[0]=='i' and ty.const and d.ctor:
            ini=d.init if d.init is not None else d.ctor[0]
            v=s.rv(st,ini); x=s.conv(st,v,t,d)
            st.env[d.name]=LV(s.newroot(st,Leaf(t,norm(x) if isz(x) and not z3.is_bv(x) and z3.is_int(x) and k_(x)!=Z3_OP_ITE else x),d.name),(),t); return
        if d.init is not None and d.init.k!='InitList' and t[0] in('s',):
            x=s.ev(st,d.init)
            if isinstance(x,TV) and x.t[0]=='s' and teq(x.t,t):
                st.env[d.name]=LV(s.newroot(st,x.v,d.name),(),t); return
        r=s.newroot(st,s.mk(t,d.name),d.name); l=LV(r,(),t)
        if d.ctor is not None:
            if t[0]=='s': s.construct(st,l,d.ctor,d)
            elif t[0]=='p' or is_num(t): s.store(st,l,s.rv(st,d.ctor[0]),d)
            else: raise VError('ctor init')
        elif d.init is not None: s.initvar(st,l,d.init)
        elif t[0]=='s': s.construct(st,l,[],d)
        elif t[0]=='a': s.ctor_elems(st,l,d)
        if t[0]=='set': s.write(st,l,Leaf(('set',),z3.K(IntS,z3.BoolVal(False))),d)
        st.env[d.name]=l
    def ctor_elems(s,st,l,d):
        t=l.t
        while t[0]=='a': t=t[1]
        if t[0]=='s' and t[1] in('Message','SimplePlaintext'):
            raise VError('array of class with non-trivial constructor')
    def initvar(s,st,l,ini):
        t=l.t
        if ini.k=='InitList':
            if t[0]=='a':
                for i,x in enumerate(ini.xs):
                    s.initvar(st,LV(l.root,l.path+(('i',i),),t[1]),x)
                if isinstance(t[2],int):
                    for i in range(len(ini.xs),t[2]): s.zeroinit(st,LV(l.root,l.path+(('i',i),),t[1]))
                else:
                    # rest is zero
                    c=s.rawload(st,l)
                    if isinstance(c,SA) and isinstance(c.tree,Leaf) and all(x.k in('Num','Float') and x.v==0 for x in ini.xs):
                        so=leafsort(c.tree.t)
                        s.write(st,l,SA(c.n,Leaf(c.tree.t,z3.K(IntS,z3.RealVal(0) if so==RealS else z3.IntVal(0)))),ini)
                    else: raise VError('partial initialiser of symbolic array')
                return
            if t[0]=='s':
                sd=s.prog.structs[t[1]]
                if ini.xs and not any(len(f.params)==len(ini.xs) for f in s.prog.funcs.get(t[1]+'::'+t[1],[])):
                    for v,x in zip(sd.fields,ini.xs): s.initvar(st,s.field(st,l,v.name),x)
                    return
                return s.construct(st,l,ini.xs,ini)
            if len(ini.xs)==0: return s.zeroinit(st,l)
            return s.initvar(st,l,ini.xs[0])
        if t[0]=='s':
            return s.construct(st,l,[ini],ini)
        if t[0]=='uptr':
            v=s.rv(st,ini); c=s.rawload(st,v.v.lv); return s.write(st,l,c,ini)
        s.store(st,l,s.rv(st,ini),ini)
    def zeroinit(s,st,l):
        t=l.t
        if t[0]=='d': s.write(st,l,Leaf(t,Fraction(0)))
        elif t[0]=='b': s.write(st,l,Leaf(t,False))
        elif t[0]=='i': s.write(st,l,Leaf(t,0))
        elif t[0]=='p': s.write(st,l,Leaf(t,Ptr(None,None)))
        elif t[0]=='a' and isinstance(t[2],int):
            for i in range(t[2]): s.zeroinit(st,LV(l.root,l.path+(('i',i),),t[1]))
        else: raise VError('zero init')
    def staticvar(s,st,d):
        fr=s.fr
        key=(fkey(fr.func),tuple((k,pkey(v) if not isinstance(v,tuple) else tkey(v)) for k,v in sorted(fr.T.items())),d.name)
        if key in s.statics and s.statics[key].root in st.store:
            st.env[d.name]=s.statics[key]; return
        t=s.rtype(d.type)
        if key in s.statics: r=s.statics[key].root
        else:
            s.nroot+=1; r=f'static:{d.name}#{s.nroot}'
        st.store[r]=s.mk(t,d.name,'fresh' if t[0]!='p' else 'uninit')
        l=LV(r,(),t)
        s.statics[key]=l
        sv=getattr(s.top,'static',None)
        if sv is not None and sv(s,st,d,l): pass
        elif d.init is not None: s.initvar(st,l,d.init)
        elif t[0]!='s' and t[0]!='a': s.zeroinit(st,l)
        else:
            # zero-initialised storage; treated as arbitrary content (weaker, sound)
            pass
        st.env[d.name]=l
    def s_If(s,st,n):
        c=s.rcond(st,n.c)
        if isinstance(c,bool):
            return s.ex(st,n.a) if c else s.ex(st,n.b)
        a=st.copy(); a.add(c); b=st; b2=st.copy(); b2.add(lnot(c))
        outs=[]
        na=[];nb=[]
        try:
            for o in s.ex(a,n.a): (na if o[0]=='normal' else outs).append(o)
        except Infeasible: pass
        try:
            for o in s.ex(b2,n.b): (nb if o[0]=='normal' else outs).append(o)
        except Infeasible: pass
        if len(na)==1 and len(nb)==1:
            x,y=na[0][1],nb[0][1]
            m=State({},[],st.env)
            k=0
            while k<len(x.facts) and k<len(y.facts) and x.facts[k] is y.facts[k]: k+=1
            m.facts=x.facts[:k]
            try:
                s.merge_states(m,c,x,y,k)
                return outs+[('normal',m,None)]
            except VError as ex_:
                return outs+[('normal',x,None),('normal',y,None)]
        return outs+na+nb
    def s_Return(s,st,n):
        v=None
        if n.e is not None:
            f=s.fr.func
            if n.e.k=='InitList': raise VError('return init list')
            if f is not None and f.ret is not None and f.ret.ref:
                v=s.ev(st,n.e)
            else:
                v=s.rv(st,n.e)
                if f is not None and f.ret is not None and f.ret.name!='auto':
                    t=s.rtype(f.ret)
                    if t==VOID: v=None
                    elif is_num(t): v=TV(t,s.conv(st,v,t,n))
        return [('return',st,v)]
    def s_Break(s,st,n): return [('break',st,None)]
    def s_Continue(s,st,n): return [('continue',st,None)]
    def s_Do(s,st,n):
        outs=s.ex(st,n.body); res=[]
        for k,q,v in outs:
            if k in('normal','continue'):
                res+=s.s_For(q,Node('For',init=None,c=n.c,inc=None,body=n.body,loc=n.loc))
            elif k=='break': res.append(('normal',q,None))
            else: res.append((k,q,v))
        return res
    def s_For(s,st,n):
        env=st.env; st.env=dict(env)
        if n.init is not None: 
            outs=s.ex(st,n.init)
            assert len(outs)==1
        res=s.loop(st,n)
        for k,q,v in res: q.env=dict(env)
        return res
    def s_RangeFor(s,st,n):
        l=s.ev(st,n.e)
        if l.t[0]=='a' and isinstance(l.t[2],int):
            live=[st];res=[]
            for i in range(l.t[2]):
                nx=[]
                for q in live:
                    el=LV(l.root,l.path+(('i',i),),l.t[1])
                    env=q.env; q.env=dict(env)
                    if n.type.ref: q.env[n.name]=el
                    else:
                        tv=s.load(q,el,n); q.env[n.name]=s.lv_of(q,tv)
                    for k,q2,v in s.ex(q,n.body):
                        q2.env=dict(env)
                        if k in('normal','continue'): nx.append(q2)
                        elif k=='break': res.append(('normal',q2,None))
                        else: res.append((k,q2,v))
                live=nx
            return res+[('normal',q,None) for q in live]
        h=getattr(s,'rangefor_set',None)
        if l.t[0]=='set': return s.setloop(st,n,l)
        raise VError('range-for')
    # ------------------------------------------------------------ loops
    def loop(s,st,n):
        import loops
        return loops.loop(s,st,n)
    # ------------------------------------------------------------ sets
    def setop(s,st,o,name,e):
        c=s.load(st,o,e).v
        if name=='clear': s.write(st,o,Leaf(('set',),z3.K(IntS,z3.BoolVal(False))),e); return TV(VOID,None)
        if name=='insert':
            v=s.rv(st,e.args[0]); x=Z(s.conv(st,v,o.t[1],e))
            s.write(st,o,Leaf(('set',),z3.Store(c,x,z3.BoolVal(True))),e); return TV(VOID,None)
        if name in('count','contains'):
            v=s.rv(st,e.args[0]); return TV(BOOL,sel(c,s.conv(st,v,o.t[1],e)))
        raise VError('set.'+name)
    # ------------------------------------------------------------ builtins
    def builtin(s,st,n,f,e):
        A=e.args
        if n=='assert':
            c=s.rcond(st,A[0]); s.oblige(st,c,'assert',e); 
            if c is False: raise Infeasible()
            st.add(c); return TV(VOID,None)
        if n in('printf','puts','fprintf','putchar','srand','fflush'):
            for a in A:
                try: s.ev(st,a)
                except VError: pass
            return TV(INT,0)
        if n=='rand':
            if s.rand_fn: v=s.rand_fn(st)
            else: v=REG.fresh('rand',IntS,rng=(0,2**31-1))
            s.randlog.append(v)
            return TV(INT,v)
        if n in('round','fabs','abs','cos','sin','sqrt','pow','ldexp','floor','ceil','fmod','exp','trunc','min','max','hypot','llabs','labs'):
            vs=[s.rv(st,a) for a in A]
            if any(v.t[0]=='s' for v in vs): raise VError(f'{n} on class')
            return s.mathfn(st,n,vs,e)
        if n=='make_unique':
            t=s.targ(f.targs[0],s.fr.T)
            r=s.newroot(st,s.mk(t,'uptr'),'heap'); l=LV(r,(),t)
            if t[0]=='s': s.construct(st,l,A,e)
            return TV(('p',t),Ptr(l,None))
        if n=='swap':
            a=s.lv(st,A[0]); b=s.lv(st,A[1])
            x=s.load(st,a,e); y=s.load(st,b,e)
            s.store(st,a,y,e); s.store(st,b,x,e); return TV(VOID,None)
        if n=='move' or n=='forward': return s.ev(st,A[0])
        if n=='strlen':
            p=s.rv(st,A[0]); h=getattr(s,'strlen_fn',None)
            if h: return TV(ULONG,h(st,p))
            raise VError('strlen')
        if n in('memset','memcpy','memmove'):
            return s.memfn(st,n,A,e)
        if n in('exit','abort'): raise Infeasible()
        raise NoMatch(f'unknown function {n} at {s.loc(e)}')
    def memfn(s,st,n,A,e):
        d=s.rv(st,A[0]); cnt=s.rv(st,A[2]).v
        p=d.v
        lv=p.lv; 
        if p.idx is None:
            whole=lv.t
            if n=='memset' and peq(cnt,s.sizeof(lv.t)):
                v=s.rv(st,A[1]).v
                if v!=0: raise VError('memset nonzero')
                s.write(st,lv,s.zeroc(st,lv),e); return d
            if n!='memset' and peq(cnt,s.sizeof(lv.t)):
                q=s.rv(st,A[1]).v
                if q.idx is None and teq(q.lv.t,lv.t):
                    s.write(st,lv,s.load(st,q.lv,e).v,e); return d
            raise VError('memset/memcpy form')
        es=s.sizeof(lv.t[1]); k=s.idiv(cnt,es)
        if not peq(mul(k,es),cnt): raise VError('memset size')
        if isz(k): k=norm(k)
        s.oblige(st,land(le(0,p.idx),le(add(p.idx,k),lv.t[2])),'bounds',e)
        # element-wise copy as a for loop
        if n=='memset':
            v=s.rv(st,A[1]).v
            if v!=0 : raise VError('memset nonzero')
            src=lambda i: Node('Num',v=0,ty='int',loc=e.loc)
            if lv.t[1][0]=='s': raise VError('memset of class array')
            body=Node('Expr',e=Node('Assign',op='=',a=Node('Index',e=Node('Id',name='__d',targs=None,quals=[],loc=e.loc),i=Node('Id',name='__i',targs=None,quals=[],loc=e.loc),loc=e.loc),b=Node('Num',v=0,ty='int',loc=e.loc),loc=e.loc),loc=e.loc)
            q=None
        else:
            q=s.rv(st,A[1])
            body=Node('Expr',e=Node('Assign',op='=',a=Node('Index',e=Node('Id',name='__d',targs=None,quals=[],loc=e.loc),i=Node('Id',name='__i',targs=None,quals=[],loc=e.loc),loc=e.loc),b=Node('Index',e=Node('Id',name='__s',targs=None,quals=[],loc=e.loc),i=Node('Id',name='__i',targs=None,quals=[],loc=e.loc),loc=e.loc),loc=e.loc),loc=e.loc)
        env=st.env; st.env=dict(env)
        st.env['__d']=LV(s.newroot(st,Leaf(d.t,p),'__d'),(),d.t)
        if q is not None: st.env['__s']=LV(s.newroot(st,Leaf(q.t,q.v),'__s'),(),q.t)
        st.env['__n']=LV(s.newroot(st,Leaf(LONG,k),'__n'),(),LONG)
        I=lambda nm:Node('Id',name=nm,targs=None,quals=[],loc=e.loc)
        loopn=Node('For',init=Node('Decl',ds=[Node('Var',name='__i',type=TypeRef('int64_t'),init=Node('Num',v=0,ty='int',loc=e.loc),ctor=None,static=False,constexpr=False,loc=e.loc)],loc=e.loc),
                   c=Node('Binary',op='<',a=I('__i'),b=I('__n'),loc=e.loc),inc=Node('PreInc',op='++',e=I('__i'),loc=e.loc),body=body,loc=e.loc)
        outs=s.s_For(st,loopn)
        if len(outs)!=1: raise VError('memcpy paths')
        o=outs[0][1]; st.store=o.store; st.facts=o.facts; st.env=env
        return d
    def zeroc(s,st,lv):
        c=s.rawload(st,lv)
        def z(l):
            if l.t[0]=='b': return False
            if l.t[0]=='d' or l.t[0]=='R': return Fraction(0)
            return 0
        def go(c,nd):
            if isinstance(c,Leaf):
                if nd==0: return Leaf(c.t,z(c))
                v=Z(z(c))
                if leafsort(c.t)==RealS: v=z3.RealVal(0)
                for _ in range(nd): v=z3.K(IntS,v)
                return Leaf(c.t,v)
            if isinstance(c,St): return St({k:go(v,nd) for k,v in c.f.items()})
            if isinstance(c,CA): return CA([go(v,nd) for v in c.e])
            return SA(c.n,go(c.tree,nd+1))
        return go(c,0)
    def mathfn(s,st,n,vs,e):
        if n in('min','max'):
            t=s.common(vs[0].t,vs[1].t); a,b=s.conv(st,vs[0],t,e),s.conv(st,vs[1],t,e)
            c=s.binop(st,'<',TV(t,a),TV(t,b),e).v
            return TV(t,ite(c,a,b) if n=='min' else ite(c,b,a))
        if n in('abs','labs','llabs') and vs[0].t[0]!='d':
            t=s.promote(vs[0].t); a=s.conv(st,vs[0],t,e)
            c=le(0,a)
            return TV(t,a if c is True else s.wrap(st,ite(c,a,mul(-1,a)),t,e))
        a=s.conv(st,vs[0],DBL,e)
        if n in('fabs','abs'):
            if conc(a): return TV(DBL,abs(a))
            return TV(DBL,z3.If(a>=0,a,-a))
        if n=='round':
            if conc(a):
                import math
                r=math.floor(abs(a)+Fraction(1,2)); return TV(DBL,Fraction(r if a>=0 else -r))
            return TV(DBL,roundr(a))
        if n=='floor':
            if conc(a): return TV(DBL,Fraction(a.__floor__()))
            return TV(DBL,z3.ToReal(z3.ToInt(a)))
        if n in('cos','sin'):
            return TV(DBL,trig(n,a))
        if n=='sqrt':
            if conc(a) and a in(0,1): return TV(DBL,a)
            return TV(DBL,SQRT(Z(toreal(a))))
        if n=='pow':
            b=s.conv(st,vs[1],DBL,e)
            if conc(a) and conc(b) and Fraction(b).denominator==1 and abs(b)<2000: return TV(DBL,Fraction(a)**int(b))
            return TV(DBL,POW(Z(toreal(a)),Z(toreal(b))))
        if n=='ldexp':
            b=s.conv(st,vs[1],INT,e)
            if conc(b): return TV(DBL,mul(Fraction(2)**b,a))
            return TV(DBL,mul(P2R(Z(b)),Z(toreal(a))))
        raise VError('math function '+n)
    def prove_ring(s,st,goal): 
        import ring
        return ring.prove_ring(s,st,goal)

class NoMatch(VError): pass
class LamFunc:
    def __init__(s,node):
        s.node=node; s.params=node.params; s.body=node.body; s.ret=node.ret; s.ctor=False; s.name='<lambda>'; s.qname='<lambda>'; s.struct=None; s.inits=[]

def getpc(facts):
    for f in facts:
        if isinstance(f,(QFact,RFact)): continue
        return f
    return z3.BoolVal(True)

def fkey(f):
    """stable key: qualified name / simplified parameter types"""
    if isinstance(f,LamFunc): return '<lambda>'
    def sn(t):
        r={'uint64_t':'u64','uint32_t':'u32'}.get(t.name,t.name)
        return r+'*'*(t.ptr+len(t.dims))
    return f.qname+'('+','.join(sn(p.type) for p in f.params)+')'+('c' if f.const and f.name=='operator[]' else '')

# ------------------------------------------------------------ uninterpreted reals
PIf=z3.Real('PI'); PIc=None
RING=z3.Function('RING',ArrS(IntS),RealS)
XPf=z3.Function('XP',IntS,RealS)
def XP(k):
    if isinstance(k,int) and k==0: return z3.RealVal(1)
    return XPf(Z(norm(k)))
COEFOF={}
SQRT=z3.Function('sqrt',RealS,RealS); POW=z3.Function('pow',RealS,RealS,RealS)
COS=z3.Function('cosPI',RealS,RealS); SIN=z3.Function('sinPI',RealS,RealS)
RND=z3.Function('roundr',RealS,RealS); RNDI=z3.Function('roundi',RealS,IntS)
P2R=z3.Function('P2R',IntS,RealS)
def roundr(x): return RND(Z(toreal(x)))
def roundi(x): return RNDI(Z(toreal(x)))
def rdiv(a,b):
    return a/b
def trig(n,a): return (COS if n=='cos' else SIN)(Z(toreal(a)))
def zlimb_facts(x):
    V,j=x.arg(0),x.arg(1)
    return [x>=0,x<=2**64-1,z3.Implies(z3.And(V>=0,j>=0),x<=V),z3.Implies(z3.And(V>=0,j>=0,V<Z(B(norm(j)))),x==0)]
ZLO=z3.Function('ZLO',IntS,IntS,IntS)      # V mod 2^(64 t)
def zlo(V,t):
    if conc(t) and t<=0: return 0
    if conc(V) and V==0: return 0
    return ZLO(Z(V),Z(norm(t) if isz(t) else t))
def zlo_facts(x):
    V,t=x.arg(0),x.arg(1)
    out=[x>=0,z3.Implies(t<=0,x==0),z3.Implies(z3.And(V>=0,t>=0,V<Z(B(norm(t)))),x==V),z3.Implies(t>=0,x<Z(B(norm(t))))]
    if poly(t).cval()>=1 or numval(t) is not None:
        t1=norm(sub(t,1)); f=z3.Function('zlimb',IntS,IntS,IntS)
        out.append(z3.Implies(t>=1,x==Z(zlo(V,t1))+f(V,Z(t1))*Z(B(t1))))
    return out
solve.HOOKS['ZLO']=zlo_facts
