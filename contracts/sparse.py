"""C13: sparse-diagonal matrices (doubles as real numbers).  Diagonal s holds vec[s][i] at row i, column (i+off[s]) mod N."""
from contract import *
from convc import arr2, sel2, forall2, qf2
from poly import nat
import zq
AI=ArrS(IntS); AB=ArrS(BoolS); A2=ArrS(ArrS(RealS))
VEC,OFF,ZER=('vec',),('off',),('zero',)
# FD(off,d,N,s,S): the first diagonal s' in [s,S) with off[s'] = d (mod N); S if none
FD=z3.Function('FD',AI,IntS,IntS,IntS,IntS,IntS)
def n_(q): return Z(norm(q) if isz(q) else q)
def fd(o,d,N,s,S): return FD(o,n_(d),n_(N),n_(s),n_(S))
def match(o,d,N,s):
    """off = d (mod N), for 0<=off<N, -N<d<N"""
    return lor(eq(sel(o,s),d),eq(sel(o,s),add(d,N)))
def fdhook(t):
    o,d,N,s,S=[t.arg(k) for k in range(5)]
    out=[z3.Implies(s>=S,t==S),z3.Implies(s<=S,z3.And(t>=s,t<=S))]
    c=numval(s)
    if c is not None and c<1: return out
    s0=norm(sub(s,1)) if poly(s).cval()>=1 else norm(s)
    s1=norm(add(s0,1))
    out.append(z3.Implies(Z(lt(s0,S)),FD(o,d,N,Z(s0),S)==z3.If(Z(match(o,d,N,s0)),Z(s0),FD(o,d,N,Z(s1),S))) if poly(s).cval()>=1 or len(solve.SCOPE.setdefault('FDn',[]))<2 else z3.BoolVal(True))
    if not poly(s).cval()>=1: solve.SCOPE['FDn'].append(t)
    return out
solve.HOOKS['FD']=fdhook
class SD(Contract):
    dyn=False; satfirst=True; exitinst=True
    def templ(s): return [('any N, S',{'N':nat('N',1,2**20),'S':nat('S',1,2**20)})]
    def vec(s,x,n='this',w='old'): return arr2(x,n,w,VEC)
    def off(s,x,n='this',w='old'): return x.arr(n,w,OFF)
    def zer(s,x,n='this',w='old'): return x.arr(n,w,ZER)
    def N(s,x): return x.T['N']
    def inrange(s,x,n,N=None):
        o=s.off(x,n); j=z3.FreshInt('j'); eid(j); N=N if N is not None else s.N(x)
        b=[le(0,sel(o,j)),lt(sel(o,j),N)]; g=land(le(0,j),lt(j,x.size(n,OFF)))
        return [('forall',j,g,b)] if x.mode=='prove' else [QFact(o.decl().name(),[],[j],[Z(q) for q in b],g)]
    def sameoff(s,x,a,b):
        o,p=s.off(x,a),s.off(x,b); j=z3.FreshInt('j'); eid(j); f=[eq(sel(o,j),sel(p,j))]; g=land(le(0,j),lt(j,x.size(a,OFF)))
        if x.mode=='prove': return [('forall',j,g,f)]
        return [QFact(q.decl().name(),[],[j],[Z(y) for y in f],g) for q in (o,p)]
    def all1(s,x,n,path,f):
        a=x.arr(n,'new',path); j=z3.FreshInt('j'); eid(j); g=land(le(0,j),lt(j,x.size(n,path))); fs=[Z(q) for q in aslist(f(j))]
        return [('forall',j,g,fs)] if x.mode=='prove' else [QFact(a.decl().name(),[],[j],fs,g)]
    def all2(s,x,n,f):
        return forall2(x,n,lambda i,j:f(i,j),x.size(n,OFF),s.N(x),'new',VEC)
@contract
class SCopy(SD):
    key='SparseDiagonal::operator=(SparseDiagonal)'; modifies=('this',); aliases=((),(('this','other'),))
    def post(s,x):
        a,b=s.vec(x,'other'),s.vec(x,'this','new')
        return [('entries',s.all2(x,'this',lambda k,i: eq(sel2(b,k,i),sel2(a,k,i)))),
                ('offsets',s.all1(x,'this',OFF,lambda k: eq(sel(s.off(x,'this','new'),k),sel(s.off(x,'other'),k)))),
                ('flags',s.all1(x,'this',ZER,lambda k: eq(sel(s.zer(x,'this','new'),k),sel(s.zer(x,'other'),k))))]
class SUn(SD):
    modifies=('this',)
    def keep(s,x):
        return [('offsets unchanged',s.all1(x,'this',OFF,lambda k: eq(sel(s.off(x,'this','new'),k),sel(s.off(x),k)))),
                ('flags unchanged',s.all1(x,'this',ZER,lambda k: eq(sel(s.zer(x,'this','new'),k),sel(s.zer(x),k))))]
    def post(s,x):
        a,b=s.vec(x),s.vec(x,'this','new')
        return [('entries',s.all2(x,'this',lambda k,i: eq(sel2(b,k,i),s.f(x,sel2(a,k,i)))))]+s.keep(x)
@contract
class SNeg(SUn):
    key='SparseDiagonal::negate()'
    def f(s,x,a): return mul(-1,a)
@contract
class SScal(SUn):
    key='SparseDiagonal::operator*=(double)'
    def f(s,x,a): return mul(a,x.n('a'))
@contract
class SZero(SD):
    key='SparseDiagonal::setzero()'; modifies=('this',)
    def post(s,x):
        b=s.vec(x,'this','new')
        return [('entries',s.all2(x,'this',lambda k,i: eq(sel2(b,k,i),0))),('offsets',s.all1(x,'this',OFF,lambda k: eq(sel(s.off(x,'this','new'),k),0))),
                ('flags',s.all1(x,'this',ZER,lambda k: Z(sel(s.zer(x,'this','new'),k))))]
class SBin(SD):
    modifies=('this',); aliases=((),(('this','B'),))
    def pre(s,x): return [('same offsets',s.sameoff(x,'this','B'))]
    def post(s,x):
        a,c,b=s.vec(x),s.vec(x,'B'),s.vec(x,'this','new'); z0,z1,z=s.zer(x),s.zer(x,'B'),s.zer(x,'this','new')
        return [('entries',s.all2(x,'this',lambda k,i: eq(sel2(b,k,i),s.f(sel2(a,k,i),sel2(c,k,i))))),
                ('offsets unchanged',s.all1(x,'this',OFF,lambda k: eq(sel(s.off(x,'this','new'),k),sel(s.off(x),k)))),
                ('flag only if both are zero',s.all1(x,'this',ZER,lambda k: eq(sel(z,k),land(sel(z0,k),sel(z1,k)))))]
@contract
class SAdd(SBin):
    key='SparseDiagonal::operator+=(SparseDiagonal)'
    def f(s,a,b): return add(a,b)
@contract
class SSub(SBin):
    key='SparseDiagonal::operator-=(SparseDiagonal)'
    def f(s,a,b): return sub(a,b)
@contract
class SGet(SD):
    key='SparseDiagonal::get_element(int,int)'
    def ij(s,x): return [('indices',[le(0,x.n('i')),lt(x.n('i'),s.N(x)),le(0,x.n('j')),lt(x.n('j'),s.N(x))])]
    def pre(s,x): return s.ij(x)+[('offsets in range',s.inrange(x,'this'))]
    def F(s,x,t=0): return fd(s.off(x),sub(x.n('j'),x.n('i')),s.N(x),t,x.T['S'])
    def post(s,x):
        k=s.F(x)
        return [('entry of the diagonal with this offset, 0 if there is none',[implies(lt(k,x.T['S']),eq(x.ret,sel2(s.vec(x),k,x.n('i')))),implies(eq(k,x.T['S']),eq(x.ret,0))])]
    def invs(s,ctx):
        yield 'scan',lambda st,t: eq(s.F(ctx.x),s.F(ctx.x,t))
@contract
class SSet(SGet):
    key='SparseDiagonal::set_element(int,int,double)'; modifies=('this',)
    def pre(s,x): return super().pre(x)+[('the diagonal is stored',lt(s.F(x),x.T['S']))]
    def post(s,x):
        K=s.F(x); a,b=s.vec(x),s.vec(x,'this','new')
        return [('entries',s.all2(x,'this',lambda k,i: eq(sel2(b,k,i),z3.If(Z(land(eq(k,K),eq(i,x.n('i')))),Z(toreal(x.n('v'))),sel2(a,k,i))))),
                ('offsets unchanged',s.all1(x,'this',OFF,lambda k: eq(sel(s.off(x,'this','new'),k),sel(s.off(x),k)))),
                ('flags',s.all1(x,'this',ZER,lambda k: eq(sel(s.zer(x,'this','new'),k),land(sel(s.zer(x),k),lnot(eq(k,K))))))]
    def invs(s,ctx):
        yield from super().invs(ctx)
        yield from unchanged(ctx)
@contract
class STr(SD):
    key='SparseDiagonal::transpose()'; modifies=('this',)
    def pre(s,x): return [('offsets in range',s.inrange(x,'this'))]
    def post(s,x):
        a,b=s.vec(x),s.vec(x,'this','new'); o,p=s.off(x),s.off(x,'this','new'); N=s.N(x)
        # row i of the transposed diagonal is the entry of row (i - off) mod N
        return [('entries',s.all2(x,'this',lambda k,i: [implies(le(sel(o,k),i),eq(sel2(b,k,i),sel2(a,k,norm(sub(i,sel(o,k)))))),implies(lt(i,sel(o,k)),eq(sel2(b,k,i),sel2(a,k,norm(sub(add(i,N),sel(o,k))))))])),
                ('offsets',s.all1(x,'this',OFF,lambda k:[implies(eq(sel(o,k),0),eq(sel(p,k),0)),implies(lt(0,sel(o,k)),eq(sel(p,k),sub(N,sel(o,k))))])),
                ('flags unchanged',s.all1(x,'this',ZER,lambda k: eq(sel(s.zer(x,'this','new'),k),sel(s.zer(x),k))))]
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; N=s.N(x); a=s.vec(x); o=s.off(x)
        for loc in ctx.arrays:
            if loc[0]==ctx.locs['this'].root: continue
            c=E.get(ctx.entry,ctx.entry.store[loc[0]],loc[1])
            if not(isinstance(c,SA) and isinstance(c.tree,Leaf) and c.tree.t[0]=='d'): continue
            for nm,k in outer(ctx):
                def g(st,t,loc=loc,k=k):
                    b=E.get(st,st.store[loc[0]],loc[1]).tree.v; j=z3.FreshInt('j'); eid(j); f=sel(o,k)
                    return QFact(b.decl().name() if k_(b)==z3.Z3_OP_UNINTERPRETED else '-',[],[j],[Z(implies(land(le(f,j),lt(sub(j,f),t)),eq(sel(b,j),sel2(a,k,norm(sub(j,f)))))),Z(implies(land(lt(j,f),lt(sub(add(j,N),f),t)),eq(sel(b,j),sel2(a,k,norm(sub(add(j,N),f))))))],land(le(0,j),lt(j,N)))
                yield f'rotated:{loc[0]}:{nm}',g
def outer(ctx):
    return [(r,c.v) for r,c in ctx.entry.store.items() if isinstance(c,Leaf) and c.t[0]=='i' and isz(c.v) and not any(r==m[0] for m in ctx.mods)]
def leafarr(E,st,loc):
    c=E.get(st,st.store[loc[0]],loc[1])
    while isinstance(c,SA): c=c.tree
    return c.v if isinstance(c,Leaf) else None
def unchanged(ctx):
    E=ctx.E
    for loc in ctx.arrays:
        if loc[0]!=ctx.locs['this'].root: continue
        a=leafarr(E,ctx.entry,loc)
        if a is None: continue
        def g(st,t,loc=loc,a=a):
            b=leafarr(E,st,loc); j=z3.FreshInt('j'); eid(j)
            return QFact(b.decl().name() if k_(b)==z3.Z3_OP_UNINTERPRETED else '-',[],[j],[Z(eq(sel(b,j),sel(a,j)))],True)
        yield 'unchanged:'+'.'.join(str(q) for p in loc[1] for q in p),g
# ---- products with a vector: partial sums over the first k diagonals
RA=ArrS(RealS)
MVR=z3.Function('MVR',A2,AI,A2,AI,RA,RA,IntS,IntS,IntS,RealS); MVI=z3.Function('MVI',A2,AI,A2,AI,RA,RA,IntS,IntS,IntS,RealS)
MWR=z3.Function('MWR',A2,A2,RA,RA,IntS,IntS,IntS,RealS); MWI=z3.Function('MWI',A2,A2,RA,RA,IntS,IntS,IntS,RealS)
def wrapi(i,o,n):
    e=norm(add(i,o)); return z3.If(Z(lt(e,n)),Z(e),Z(norm(sub(e,n))))
def term(re,vr,vi,zr,zi,k,i,jr,ji):
    a,b=sel2(vr,k,i),sel2(vi,k,i)
    return sub(mul(a,sel(zr,jr)),mul(b,sel(zi,ji))) if re else add(mul(a,sel(zi,ji)),mul(b,sel(zr,jr)))
def mvhook(re):
    def f(xs,k):
        vr,o1,vi,o2,zr,zi,i,n=xs[:8]
        jr,ji=wrapi(i,sel(o1,k),n),wrapi(i,sel(o2,k),n)
        return [(True,term(re,vr,vi,zr,zi,k,i,jr,ji))]
    return f
def mwhook(re):
    def f(xs,k):
        vr,vi,zr,zi,i,n=xs[:6]; j=wrapi(i,k,n)
        return [(True,term(re,vr,vi,zr,zi,k,i,j,j))]
    return f
import plain
for _n,_re in (('MVR',1),('MVI',0)): solve.HOOKS[_n]=plain.reclem(8,mvhook(_re))
for _n,_re in (('MWR',1),('MWI',0)): solve.HOOKS[_n]=plain.reclem(6,mwhook(_re))
def sc(f,*a):
    if conc(a[-1]) and a[-1]<=0: return 0
    return f(*[n_(q) for q in a])
class MVB(SD):
    def invs(s,ctx):
        E=ctx.E
        for loc,ty in ctx.scalars:
            if ty[0]!='d': continue
            for nm,i in outer(ctx):
                for re in (1,0): yield f'sum{re}:{loc[0]}:{nm}',lambda st,t,loc=loc,i=i,re=re: eq(E.get(st,st.store[loc[0]],loc[1]).v,s.S(ctx.x,re,i,t))
@contract
class MVMsg(MVB):
    key='matrix_vector_product(Message,SparseDiagonal,SparseDiagonal,Message)'; modifies=('Az',)
    def templ(s): return [('any LOGN, S',{'LOGN':REG.fresh('ln',IntS,rng=(1,16)),'S':nat('S',1,2**20)})]
    def H(s,x): return P2(sub(x.T['LOGN'],1))
    def pre(s,x):
        a,b=s.vec(x,'Ar'),s.vec(x,'Ai'); za,zb=s.zer(x,'Ar'),s.zer(x,'Ai')
        k=z3.FreshInt('k'); i=z3.FreshInt('i'); eid(k); eid(i); g=land(le(0,k),lt(k,x.T['S']),le(0,i),lt(i,s.H(x)))
        out=[('offsets in range',s.inrange(x,'Ar',s.H(x))+s.inrange(x,'Ai',s.H(x)))]
        f=[implies(land(sel(za,k),sel(zb,k)),land(eq(sel2(a,k,i),0),eq(sel2(b,k,i),0)))]
        if x.mode=='prove': return out+[('diagonals flagged zero are zero',[('forall',k,land(le(0,k),lt(k,x.T['S'])),[('forall',i,land(le(0,i),lt(i,s.H(x))),f)])])]
        return out+[('diagonals flagged zero are zero',[qf2(a,k,i,f,g)])]
    def S(s,x,re,i,k):
        return sc(MVR if re else MVI,s.vec(x,'Ar'),s.off(x,'Ar'),s.vec(x,'Ai'),s.off(x,'Ai'),x.arr('z','old',('r',)),x.arr('z','old',('i',)),i,s.H(x),k)
    def K(s,x): return x.T['S']
    def post(s,x):
        r,i=x.arr('Az','new',('r',)),x.arr('Az','new',('i',))
        return [('real part: sum over the stored diagonals',x.forall('Az',('r',),lambda j: eq(sel(r,j),s.S(x,1,j,s.K(x))))),
                ('imaginary part: sum over the stored diagonals',x.forall('Az',('i',),lambda j: eq(sel(i,j),s.S(x,0,j,s.K(x)))))]
@contract
class MVDiag(MVMsg):
    key='matrix_vector_product(Message,Message*,Message)'
    def templ(s): return [('any LOGN, K<=N/2',{'LOGN':REG.fresh('ln',IntS,rng=(1,16)),'K':nat('K',1,2**20)})]
    def arraylen(s,E,p,T): return T['K']
    def pre(s,x): return [('at most N/2 diagonals',le(x.T['K'],s.H(x)))]
    def S(s,x,re,i,k): return sc(MWR if re else MWI,arr2(x,'A','old',('r',)) if 0 else s.A(x,'r'),s.A(x,'i'),x.arr('z','old',('r',)),x.arr('z','old',('i',)),i,s.H(x),k)
    def A(s,x,c):
        t=x.old['A'].tree.f[c]
        while isinstance(t,SA): t=t.tree
        return t.v
    def K(s,x): return x.T['K']
@contract
class SClut(SD):
    key='RemoveClutter(SparseDiagonal,SparseDiagonal)'; modifies=('B',)
    def templ(s):
        S2=nat('S',1,2**20); d=REG.fresh('e',IntS,rng=(1,2**20))
        return [('any N, S2<S1',{'N':nat('N',1,2**20),'S1':norm(S2+d),'S2':S2})]
    def pre(s,x):
        z=s.zer(x,'A'); a=s.vec(x,'A'); j=z3.FreshInt('j'); eid(j); g=land(le(x.T['S2'],j),lt(j,x.T['S1']))
        if x.mode=='prove': return [('dropped diagonals are flagged zero',[('forall',j,g,[Z(sel(z,j))])])]
        return [('dropped diagonals are flagged zero',[QFact(z.decl().name(),[],[j],[Z(sel(z,j))],g)])]
    def post(s,x):
        a,b=s.vec(x,'A'),s.vec(x,'B','new')
        return [('entries',forall2(x,'B',lambda k,i: eq(sel2(b,k,i),sel2(a,k,i)),x.T['S2'],s.N(x),'new',VEC)),
                ('offsets',s.all1(x,'B',OFF,lambda k: eq(sel(s.off(x,'B','new'),k),sel(s.off(x,'A'),k)))),
                ('flags',s.all1(x,'B',ZER,lambda k: lnot(sel(s.zer(x,'B','new'),k))))]
