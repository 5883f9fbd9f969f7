"""Polynomials over Z_Q, coefficient by coefficient (big integers by value, through their proved contracts)"""
from contract import *
from zq import logq, canon, Q, labelled
import zq

def nat(name='N',lo=1,hi=2**20): return REG.fresh(name,IntS,rng=(lo,hi))
def TqN(): return [('any LOGQ, N',{'LOGQ':logq(),'N':nat()})]
class PC(Contract):
    """arrays of big integers by value; unbounded in LOGQ and N"""
    zq='V'; rq='coef'; dyn=False
    def templ(s): return TqN()
    def C(s,x,n,w='old',path=()): return x.arr(n,w,tuple(path)+('coeff',))
    def each(s,x,n,f,path=(),hi=None): return x.forall(n,tuple(path)+('coeff',),f,0,hi)
class PElem(PC):
    """coefficient j of the receiver becomes g(old coefficient, argument coefficient) modulo 2^LOGQ, canonical"""
    modifies=('this',); arg='B'
    def post(s,x):
        A=s.C(x,'this'); N=s.C(x,'this','new'); Bv=s.C(x,s.arg) if s.arg in x.old else None
        return [('every coefficient',s.each(x,'this',lambda j: s.f(x,sel(N,j),sel(A,j),sel(Bv,j) if Bv is not None and not isinstance(Bv,int) else None)))]
@contract
class PAdd(PElem):
    key='R_Q::operator+=(R_Q)'; aliases=((),(('this','B'),))
    def f(s,x,n,a,b): return [Cong(n,add(a,b),Q(x)),le(0,n),lt(n,Q(x))]
@contract
class PSub(PElem):
    key='R_Q::operator-=(R_Q)'; aliases=((),(('this','B'),))
    def f(s,x,n,a,b): return [Cong(n,sub(a,b),Q(x)),le(0,n),lt(n,Q(x))]
@contract
class PMulW(PElem):
    key='R_Q::operator*=(u64)'; arg='-'
    def f(s,x,n,a,b): return [Cong(n,mul(x.n('a'),a),Q(x)),le(0,n),lt(n,Q(x))]
@contract
class PCopy(PElem):
    key=('R_Q::operator=(R_Q)',); arg='A'; aliases=((),(('this','A'),))
    def assign(s,x,nm): return x.old['A']
    def f(s,x,n,a,b): return [eq(n,b)]
@contract
class PCopyC(PCopy):
    key='R_Q::R_Q(R_Q)'; aliases=((),)
@contract
class PZero(PElem):
    key='R_Q::setzero()'; arg='-'
    def f(s,x,n,a,b): return [eq(n,0)]

# ------------------------------------------------------------------ ternary key times polynomial
# NCP(s,A,i,N,k) = sum over l<k of s_l A_{i-l} (l<=i) or -s_l A_{N+i-l} (l>i): the partial negacyclic convolution sum
NCP=z3.Function('NCP',ArrS(IntS),ArrS(IntS),IntS,IntS,IntS,IntS)
def ncp(s,A,i,N,k):
    k=norm(k) if isz(k) else k
    if conc(k) and k<=0: return 0
    return NCP(s,A,Z(norm(i) if isz(i) else i),Z(norm(N) if isz(N) else N),Z(k))
def ncplem(t):
    s,A,i,N,k=[t.arg(j) for j in range(5)]
    out=[z3.Implies(k<=0,t==0)]
    if poly(k).cval()>=1 or k.decl().kind()==z3.Z3_OP_ANUM:
        k1=norm(sub(k,1)); p=Z(ncp(s,A,i,N,k1)); sv=sel(s,k1)
        for c,a in ((Z(k1)<=i,sel(A,norm(sub(i,k1)))),(Z(k1)>i,-sel(A,norm(sub(add(N,i),k1))))):
            for v in (-1,0,1): out.append(z3.Implies(z3.And(k>=1,c,sv==v),t==p+v*a))
            out.append(z3.Implies(z3.And(k>=1,c),t==p+sv*a))
    return out
# extensionality: NCP reads its arrays only at [0,N) (lean/Lemmas.lean: ncp_congr); DIFF = an index in range where two arrays differ, if there is one
DIFF=z3.Function('DIFF',ArrS(IntS),ArrS(IntS),IntS,IntS)
NSEEN={}
solve.RESETS.append(NSEEN.clear)
def ncpext(t):
    s,A,i,N,k=[t.arg(j) for j in range(5)]
    if not N.eq(k): return []
    ls=NSEEN.setdefault((eid(i),eid(N)),[]); out=[]
    if not any(t.eq(o) for o in ls): ls.append(t)
    for o in ls:
        if o.eq(t): continue
        g=[]
        for a,b in ((s,o.arg(0)),(A,o.arg(1))):
            if a.eq(b): continue
            if eid(a)>eid(b): a,b=b,a
            w=DIFF(a,b,N); out+=[z3.Implies(N>=1,z3.And(w>=0,w<N))]
            g.append(sel(a,w)==sel(b,w))
        if len(g)==1: out.append(z3.Implies(g[0],t==o))
    return out
solve.HOOKS['NCP']=lambda t: ncplem(t)+ncpext(t)
def ternary(x,n='s',w='old'):
    a=x.arr(n,w)
    return x.forall(n,(),lambda j:[le(-1,sel(a,j)),le(sel(a,j),1)],w=w)
@contract
class PConvS(PC):
    key='conv(int*,R_Q,R_Q)'; modifies=('C',)
    def pre(s,x):
        return [('ternary key',ternary(x))]
    def post(s,x):
        S=x.arr('s'); A=s.C(x,'A'); C=s.C(x,'C','new'); N=x.T['N']
        return [('negacyclic convolution modulo 2^LOGQ',s.each(x,'C',lambda i:[Cong(sel(C,i),ncp(S,A,i,N,N),Q(x)),le(0,sel(C,i)),lt(sel(C,i),Q(x))]))]
    def invs(s,ctx):
        x=ctx.x; E=ctx.E
        S=x.arr('s'); A=s.C(x,'A'); N=x.T['N']
        for loc,ty in ctx.scalars:
            if ty[0]!='Z': continue
            yield 'canon:'+str(loc[0]),lambda st,t,loc=loc:[le(0,E.get(st,st.store[loc[0]],loc[1]).v),lt(E.get(st,st.store[loc[0]],loc[1]).v,Q(x))]
            i=loc[1][-1][1] if loc[1] and loc[1][-1][0]=='i' else None
            if i is None: continue
            yield 'sum:'+str(loc[0]),lambda st,t,loc=loc,i=i: Cong(E.get(st,st.store[loc[0]],loc[1]).v,ncp(S,A,i,N,t),Q(x))
@contract
class PConvI(PC):
    """product of small integer polynomials; |s1_j| <= M1, |s2_j| <= M2, N M1 M2 < 2^31 (no intermediate sum leaves the int range)"""
    key='conv(int*,int*,int*)'; modifies=('s3',); aliases=((),(('s1','s2'),)); exitinst=True
    def templ(s): return [('any N',{'N':nat('N',1,2**24),'__M1':REG.fresh('M1',IntS,rng=(1,2**20)),'__M2':REG.fresh('M2',IntS,rng=(1,2**20))})]
    def tfacts(s,T): return [Z(lt(mul(T['N'],mul(T['__M1'],T['__M2'])),2**31))] if '__M1' in T else []
    def M(s,x):
        if '__M1' in x.T: return x.T['__M1'],x.T['__M2']
        return getattr(x.E.top,'convM',lambda x:(1,1))(x)
    def pre(s,x):
        m=s.M(x); out=[]
        for n,M in zip(('s1','s2'),m):
            a=x.arr(n); out.append(('bounded '+n,x.forall(n,(),lambda j,a=a,M=M:[le(mul(-1,M),sel(a,j)),le(sel(a,j),M)],0,x.T['N'],w='old')))
        return out+[('N M1 M2 < 2^31',lt(mul(x.T['N'],mul(*m)),2**31))]
    def post(s,x):
        S=x.arr('s1'); A=x.arr('s2'); C=x.arr('s3','new'); N=x.T['N']; m=mul(*s.M(x))
        return [('negacyclic convolution',x.forall('s3',(),lambda i:[eq(sel(C,i),ncp(S,A,i,N,N)),le(mul(-1,mul(N,m)),sel(C,i)),le(sel(C,i),mul(N,m))],0,N))]
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; S=x.arr('s1'); A=x.arr('s2'); N=x.T['N']; m=mul(*s.M(x))
        for loc,ty in ctx.scalars:
            if ty[0]!='i': continue
            i=loc[1][-1][1] if loc[1] and loc[1][-1][0]=='i' else None
            if i is None: continue
            for nm,b in (('',0),('from i+1 ',add(i,1))):
                yield f'range {nm}:{loc[0]}',lambda st,t,loc=loc,b=b:[le(mul(-1,mul(add(t,b),m)),zq.EG_get(E,st,loc)),le(zq.EG_get(E,st,loc),mul(add(t,b),m))]
                yield f'sum {nm}:{loc[0]}',lambda st,t,loc=loc,i=i,b=b: eq(zq.EG_get(E,st,loc),ncp(S,A,i,N,add(t,b)))
    def arraylen(s,E,p,T): return T['N']
