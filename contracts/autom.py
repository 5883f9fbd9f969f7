"""x -> x^g on Z[x]/(x^N+1), N=2^k: rotations and conjugation"""
from contract import *
from poly import PC
from zq import logq, Q
import zq
# POS(g,i,k) = g*i mod 2^(k+1): exponent that x^i is sent to; POW5(r,k) = 5^r mod 2^(k+1)
# INVP(g,k,m) = the i in [0,2^k) with g*i = m mod 2^k (exists for odd g; lean/Lemmas.lean: pos_inj)
POS=z3.Function('POS',IntS,IntS,IntS,IntS); POW5=z3.Function('POW5',IntS,IntS,IntS); INVP=z3.Function('INVP',IntS,IntS,IntS,IntS)
def n_(q): return Z(norm(q) if isz(q) else q)
def pos(g,i,k):
    if conc(g) and conc(i) and conc(k): return g*i%2**(k+1)
    if conc(i) and i==0: return 0
    return POS(n_(g),n_(i),n_(k))
def pow5(r,k):
    if conc(r) and r<=0: return 1
    if conc(r) and conc(k): return pow(5,r,2**(k+1))
    return POW5(n_(r),n_(k))
def fold(p,N): return ite(lt(p,N),p,sub(p,N))
def poshook(t):
    g,i,k=[t.arg(j) for j in range(3)]; N=Z(P2(k)); M=Z(mul(2,P2(k)))
    out=[z3.Implies(i<=0,t==0),t>=0,t<M]
    if poly(i).cval()>=1:
        p=Z(pos(g,sub(i,1),k))
        out.append(z3.Implies(z3.And(i>=1,0<=g,g<M),z3.And(0<=p,p<M,z3.If(p+g<M,t==p+g,t==p+g-M))))
    if i.decl().name()!='INVP': out.append(z3.Implies(z3.And(g%2==1,i>=0,i<N),INVP(g,k,z3.If(t<N,t,t-N))==i))
    if g.decl().name()=='POW5' and poly(g.arg(0)).cval()>=1:
        r1=norm(sub(g.arg(0),1)); p=Z(pos(pow5(r1,k),i,k)); a=Z(pos(5,p,k)); b=Z(pos(5,norm(sub(p,N)),k))
        out.append(z3.Implies(z3.And(i>=0,i<N,g.arg(0)>=1),z3.And(p>=0,p<M,z3.If(p<N,t==a,z3.If(b<N,t==b+N,t==b-N)))))   # lean/Lemmas.lean: pos_comp
    if i.decl().name()=='INVP' and i.arg(0).eq(g) and i.arg(1).eq(k):
        m=i.arg(2); out.append(z3.Implies(z3.And(g%2==1,m>=0,m<N),z3.And(i>=0,i<N,z3.If(t<N,t,t-N)==m)))   # lean/Lemmas.lean: pos_surj
    v=numval(g)
    if v is not None and 1<=v<=8: out.append(z3.Implies(z3.And(0<=i,i<N),z3.Or(*[v*i==t+c*M for c in range(0,int(v))])))
    return out
def pow5hook(t):
    r,k=t.arg(0),t.arg(1); M=Z(mul(2,P2(k)))
    out=[z3.Implies(r<=0,t==1),t>=1,t<M,t%2==1]
    if poly(r).cval()>=1:
        p=Z(pow5(norm(sub(r,1)),k)); out.append(z3.Implies(r>=1,z3.And(p>=1,p<M,z3.Or(*[5*p==t+c*M for c in range(5)]))))
    return out
solve.HOOKS['POS']=poshook; solve.HOOKS['POW5']=pow5hook
def lgn(lo=1,hi=20): return REG.fresh('kn',IntS,rng=(lo,hi))
def oscal(ctx):
    """integer scalars with the value they keep during the loop"""
    E=ctx.E; st=ctx.entry; out=[]
    for r,c in st.store.items():
        if isinstance(c,Leaf) and c.t[0]=='i' and c.v is not None and not any(r==m[0] for m in ctx.mods): out.append((r,c.v))
    return out
def getv(E,st,loc): return E.get(st,st.store[loc[0]],loc[1]).v
def nof(x): return x.T['N'] if 'N' in x.T else P2(x.T['LOGN'])
def kof(x):
    if 'LOGN' in x.T: return x.T['LOGN']
    N=x.T['N']
    if conc(N):
        k=int(N).bit_length()-1
        if N<1 or 1<<k!=N: raise VError('ring size is not a power of two')
        return k
    m=solve.as_monomial(N)
    if m is None or m[1]<=0 or m[1]&(m[1]-1): raise VError('ring size is not a power of two')
    k=m[1].bit_length()-1
    for a,e in m[0]:
        q=terms._keep[a]
        if q.decl().name()!='P2': raise VError('ring size is not a power of two')
        k=add(k,mul(e,q.arg(0)))
    return norm(k) if isz(k) else k
class Auto(PC):
    """dst[g*i mod 2N, folded] = +- src[i]"""
    zq='V'; rq='coef'; dyn=False; src='s'; dst='s_rot'; sp=(); dp=(); neg=staticmethod(lambda x,v: mul(-1,v))
    def templ(s):
        k=lgn(); return [('any N=2^k',{'N':P2(k),'__k':k})]
    def g(s,x): raise NotImplementedError
    def img(s,x,A,D,i,g):
        k=kof(x); N=nof(x); p=pos(g,i,k)
        return [implies(lt(p,N),eq(sel(D,p),sel(A,i)))]+s.negf(x,lnot(lt(p,N)),sel(D,norm(sub(p,N)) if isz(p) else p-N),sel(A,i))
    def negf(s,x,c,d,a): return [implies(c,eq(d,mul(-1,a)))]
    def all_(s,x,A,D,g,hi):
        k=kof(x); gg,i,kk=z3.FreshInt('g'),z3.FreshInt('i'),z3.FreshInt('k'); eid(gg),eid(i),eid(kk)
        return QFact('POS',[gg,i,kk],[],[Z(f) for f in s.img(x,A,D,i,g)],land(eq(gg,g),eq(kk,k),le(0,i),lt(i,hi)))
    def post(s,x):
        A=x.arr(s.src,'old',s.sp); D=x.arr(s.dst,'new',s.dp); g=s.g(x); N=nof(x)
        if x.mode!='prove': return [('image',[s.all_(x,A,D,g,N)])]
        i=z3.FreshInt('i'); eid(i)
        return [('coefficient i goes to x^(g i), negated when it wraps',[('forall',i,land(le(0,i),lt(i,N)),s.img(x,A,D,i,g))])]
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; k=kof(x); N=nof(x)
        gs=[(nm,v) for nm,v in oscal(ctx)]
        for loc,ty in ctx.scalars:
            if ty[0]!='i': continue
            yield f'pow:{loc[0]}',lambda st,t,loc=loc: eq(getv(E,st,loc),pow5(t,k))
            for nm,v in gs:
                yield f'pos:{loc[0]}:{nm}',lambda st,t,loc=loc,v=v: eq(getv(E,st,loc),pos(v,t,k))
        A=x.arr(s.src,'old',s.sp); g=s.g(x)
        if conc(g): yield 'range',lambda st,t: [le(0,pos(g,t,k)),lt(pos(g,t,k),mul(2,N))]
        for loc in ctx.arrays:
            yield f'image:{loc[0]}',lambda st,t,loc=loc: s.all_(x,A,getv2(E,st,loc),s.g(x),t)
def getv2(E,st,loc):
    c=E.get(st,st.store[loc[0]],loc[1])
    return c.tree.v
class ARot(Auto):
    def pre(s,x): return [('rotation amount',land(le(0,x.n('r')),lt(x.n('r'),2**30)))]
    def g(s,x): return pow5(x.n('r'),kof(x))
@contract
class RotKey(ARot):
    key='rot(int*,int*,int)'; modifies=('s_rot',)
    def pre(s,x):
        S=x.arr('s'); return ARot.pre(s,x)+[('no INT_MIN',x.forall('s',(),lambda j:[lt(-2**31,sel(S,j))],w='old'))]
@contract
class RotKey1(Auto):
    key='rot(int*,int*)'; modifies=('s_rot',)
    def g(s,x): return 5
    def pre(s,x):
        S=x.arr('s'); return [('no INT_MIN',x.forall('s',(),lambda j:[lt(-2**31,sel(S,j))],w='old'))]
@contract
class RotOnce(Auto):
    key='rotate_once(SimplePlaintext,SimplePlaintext)'; modifies=('pt_rot',); src='pt'; dst='pt_rot'; sp=('data',); dp=('data',)
    def templ(s):
        k=lgn(1,20); return [('any LOGN',{'LOGN':k,'N':P2(k),'__k':k})]
    def g(s,x): return 5
@contract
class Rotate(ARot):
    key='rotate(SimplePlaintext,SimplePlaintext,int)'; modifies=('pt_rot',); src='pt'; dst='pt_rot'; sp=('data',); dp=('data',)
    def templ(s):
        k=lgn(1,20); return [('any LOGN',{'LOGN':k,'N':P2(k),'__k':k})]
    def invs(s,ctx):
        x=ctx.x; A=x.arr('pt','old',('data',)); N=nof(x)
        for loc in ctx.arrays:
            yield f'rotated:{loc[0]}',lambda st,t,loc=loc: s.all_(x,A,getv2(ctx.E,st,loc),pow5(t,kof(x)),N)
@contract
class RotP(ARot):
    key='rot(R_Q,R_Q,int)'; modifies=('pt_rot',); src='pt'; dst='pt_rot'; sp=('coeff',); dp=('coeff',)
    def templ(s):
        k=lgn(); return [('any LOGQ, N=2^k',{'LOGQ':logq(),'N':P2(k),'__k':k})]
    def pre(s,x):
        A=x.arr('pt','old',('coeff',)); return ARot.pre(s,x)+[('canonical',x.forall('pt',('coeff',),lambda j:[le(0,sel(A,j)),lt(sel(A,j),Q(x))],w='old'))]
    def negf(s,x,c,d,a): return [implies(c,eq(d,ite(eq(a,0),0,sub(Q(x),a))))]
    def post(s,x):
        A=x.arr(s.src,'old',s.sp); D=x.arr(s.dst,'new',s.dp); g=s.g(x); k=kof(x)
        return (ARot.post(s,x) if x.mode=='prove' else [])+[('every coefficient',x.forall(s.dst,s.dp,lambda j:[eq(sel(D,j),rv(A,g,k,j,nof(x),Q(x))),le(0,sel(D,j)),lt(sel(D,j),Q(x))]))]
def rv(A,g,k,j,N,q):
    """coefficient j of A(x^g) modulo q"""
    i=INVP(n_(g),n_(k),n_(j)); p=pos(g,i,k); a=sel(A,i)
    return ite(lt(p,N),a,ite(eq(a,0),0,sub(q,a)))
# ROTF(A,g,k,L): the coefficients of A(x^g) modulo 2^L; CONJF(A,N,L): those of A(1/x)
ROTF=z3.Function('ROTF',ArrS(IntS),IntS,IntS,IntS,ArrS(IntS)); CONJF=z3.Function('CONJF',ArrS(IntS),IntS,IntS,ArrS(IntS))
def rotelem(e,idx):
    f=e.arg(0); A,g,k,L=[f.arg(j) for j in range(4)]; j=idx[0]
    return [z3.Implies(z3.And(j>=0,j<Z(P2(k))),Z(eq(e,rv(A,g,k,j,P2(norm(k)),P2(norm(L))))))]
def conjelem(e,idx):
    f=e.arg(0); A,N,L=[f.arg(j) for j in range(3)]; j=idx[0]; a=sel(A,norm(sub(N,j)))
    return [z3.Implies(z3.And(j>=0,j<N),Z(eq(e,ite(eq(j,0),sel(A,0),ite(eq(a,0),0,sub(P2(norm(L)),a))))))]

class Conj(PC):
    """x -> x^-1: coefficient 0 stays, coefficient j becomes minus coefficient N-j"""
    def templ(s): return [('any N',{'N':zq_nat()})]
    def f(s,x,A,D,j): 
        N=x.T['N']
        return [implies(eq(j,0),eq(sel(D,j),sel(A,0)))]+s.negf(x,lt(0,j),sel(D,j),sel(A,norm(sub(N,j)) if isz(sub(N,j)) else sub(N,j)))
    def negf(s,x,c,d,a): return [implies(c,eq(d,mul(-1,a)))]
    def post(s,x):
        A=x.arr(s.src,'old',s.sp); D=x.arr(s.dst,'new',s.dp)
        return [('image under x -> 1/x',x.forall(s.dst,s.dp,lambda j: s.f(x,A,D,j)))]
def zq_nat(): 
    from poly import nat
    return nat()
@contract
class ConjKey(Conj):
    key='conj(int*,int*)'; modifies=('s_conj',); src='s'; dst='s_conj'; sp=(); dp=()
    def pre(s,x):
        S=x.arr('s'); return [('no INT_MIN',x.forall('s',(),lambda j:[lt(-2**31,sel(S,j))],w='old'))]
@contract
class ConjP(Conj):
    key='conj(R_Q,R_Q)'; modifies=('pt_conj',); src='pt'; dst='pt_conj'; sp=('coeff',); dp=('coeff',)
    def templ(s): return [('any LOGQ, N',{'LOGQ':logq(),'N':zq_nat()})]
    def pre(s,x):
        A=x.arr('pt','old',('coeff',)); return [('canonical',x.forall('pt',('coeff',),lambda j:[le(0,sel(A,j)),lt(sel(A,j),Q(x))],w='old'))]
    def negf(s,x,c,d,a): return [implies(c,eq(d,ite(eq(a,0),0,sub(Q(x),a))))]

# ------------------------------------------------------------------ ciphertexts: permute, then switch the key back
import square, core
class CtAuto(square.SC):
    step64=True; exitinst=True; ct='ct'; out='-'; keyn='-'
    def pre(s,x): return [('canonical',core.canonP(x,'ct',('data',k,'coeff'),'LOGQ')) for k in (0,1)]+[('canonical key',core.canon2(x,s.keyn,k)) for k in (0,1)]+core.sizes(x,2)
    def post(s,x):
        REG.elem['ROTF']=rotelem; REG.elem['CONJF']=conjelem
        return core.ksposts(s,x,s.keyn,'-',s.out,s.img(x,s.C(x,'ct',1)),lambda k,i: sel(s.img(x,s.C(x,'ct',0)),i) if k==0 else 0)
@contract
class RotCt(CtAuto):
    key='rot_ct(R_Q_square,int,R_Q_square,R_Q_square)'; modifies=('ct_rot',); out='ct_rot'; keyn='rkey'
    def templ(s):
        m=REG.fresh('m',IntS,rng=(0,2**20)); r=REG.fresh('r',IntS,rng=(1,64)); k=lgn()
        return [('any LOGQ, N=2^k',{'LOGQ':norm(64*m+r),'N':P2(k),'__k':k})]
    def pre(s,x): return CtAuto.pre(s,x)+[('rotation amount',land(le(0,x.n('off')),lt(x.n('off'),2**30)))]
    def img(s,x,A): return ROTF(A,n_(pow5(x.n('off'),kof(x))),n_(kof(x)),n_(x.T['LOGQ']))
@contract
class ConjCt(CtAuto):
    key='conj(R_Q_square,R_Q_square,R_Q_square)'; modifies=('ct_conj',); out='ct_conj'; keyn='ckey'
    def templ(s): return core.kT()
    def img(s,x,A): return CONJF(A,n_(x.T['N']),n_(x.T['LOGQ']))
