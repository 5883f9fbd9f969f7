"""C16: encoding and decoding (doubles as real numbers)"""
from contract import *
from zq import logq, Q, nl, centred, limb_arrays, arrv, nmof, EG_get
from poly import PC
import zq, core
def tr(v): return toreal(v) if not isinstance(v,bool) else v
# HIE(A,n,t) = A[n-1] 2^(64(t-1)) + .. + A[n-t]: value of the t most significant of n limbs
HIE=z3.Function('HIE',ArrS(IntS),IntS,IntS,IntS)
def hiv(a,n,t):
    if conc(t) and t<=0: return 0
    return HIE(a,Z(norm(n) if isz(n) else n),Z(norm(t) if isz(t) else t))
def hivhook(e):
    a,n,t=e.arg(0),e.arg(1),e.arg(2)
    out=[z3.Implies(t<=0,e==0)]
    if numval(t) is not None or poly(t).cval()>=1:
        t1=norm(sub(t,1)); out.append(z3.Implies(t>=1,Z(eq(e,add(mul(2**64,hiv(a,n,t1)),sel(a,norm(sub(n,t))))))))
    return out
solve.HOOKS['HIE']=hivhook
def dscal(ctx): return [(loc,ty) for loc,ty in ctx.scalars if ty[0]=='d']
@contract
class ZDbl(zq.ZBase):
    key='Z_Q::operator double()'; dyn=False
    def pre(s,x): return [('canonical',lt(x.V('this'),Q(x)))]
    def post(s,x): return [('centred value',eq(x.ret,toreal(centred(x.V('this'),Q(x)))))]
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; n=nl(x)
        for nm,loc,L in limb_arrays(ctx):
            a=arrv(E,ctx.entry,loc)
            if a is None: continue
            yield f'high:{nm}',lambda st,t,a=a: eq(add(mul(hiv(a,n,t),B(sub(n,t))),val(a,sub(n,t))),val(a,n))
            for sc,ty in dscal(ctx): yield f'horner:{nm}:{nmof(sc)}',lambda st,t,a=a,sc=sc: eq(EG_get(E,st,sc),toreal(hiv(a,n,t)))
        yield from super().invs(ctx)
@contract
class ZMvd(zq.ZBase):
    key='Z_Q::max_valid_digit()'; dyn=False
    def pre(s,x): return [('not negative (or the most negative value)',le(mul(2,x.V('this')),Q(x)))]
    def post(s,x):
        v=x.V('this'); r=x.ret
        return [('most significant non-zero limb',[le(-1,r),lt(r,nl(x)),lt(v,B(add(r,1))),implies(le(0,r),le(B(r),v))])]
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; n=nl(x)
        for nm,loc,L in limb_arrays(ctx):
            a=arrv(E,ctx.entry,loc)
            if a is None: continue
            yield f'zero above:{nm}',lambda st,t,a=a: implies(lt(mul(2,x.V('this')),Q(x)),eq(val(a,sub(n,t)),val(a,n)))
            yield f'first step:{nm}',lambda st,t,a=a: implies(eq(mul(2,x.V('this')),Q(x)),eq(t,0))
    def setup(s,E,st,x):
        a=zq.limbs(x.at('this',('data',))); n=nl(x); r1=norm(sub(sub(x.T['LOGQ'],1),mul(64,sub(n,1)))); V=x.V('this')
        if E.mode=='bounded': return
        st.add(Z(lor(eq(r1,0),eq(P2(r1),mul(2,P2(norm(sub(r1,1))))))))
        top=sel(a,norm(sub(n,1))); lo=val(a,sub(n,1))
        g=implies(eq(mul(2,V),Q(x)),eq(top,P2(r1)))
        E.oblige(st,land(eq(add(mul(top,B(sub(n,1))),lo),V),le(0,lo),lt(lo,B(sub(n,1))),eq(mul(P2(r1),B(sub(n,1))),P2(sub(x.T['LOGQ'],1)))),'lemma',None,'top limb split')
        E.oblige(st,g,'lemma',None,'top limb of the most negative value'); st.add(g)
# ---- canonical embedding, as a function of the coefficient vector (what it computes: C15)
RA=ArrS(RealS)
FFR=z3.Function('FFR',RA,IntS,IntS,RealS); FFI=z3.Function('FFI',RA,IntS,IntS,RealS); IFF=z3.Function('IFF',RA,RA,IntS,RA)
DIFR=z3.Function('DIFR',RA,RA,IntS,IntS)
_ff=[]; solve.RESETS.append(_ff.clear)
def ext(t):
    """the transform depends on the N entries only"""
    a,rest=t.arg(0),[t.arg(1),t.arg(2)]; N=Z(P2(norm(rest[0]))); out=[]
    for o in list(_ff):
        if o.decl().name()!=t.decl().name() or o.arg(0).eq(a) or not(o.arg(1).eq(rest[0]) and o.arg(2).eq(rest[1])): continue
        u,v=(a,o.arg(0)) if eid(a)<eid(o.arg(0)) else (o.arg(0),a)
        w=DIFR(u,v,rest[0]); out+=[z3.And(w>=0,w<N),z3.Implies(sel(u,w)==sel(v,w),t==o)]
    if not any(o.eq(t) for o in _ff): _ff.append(t)
    return out
solve.HOOKS['FFR']=ext; solve.HOOKS['FFI']=ext
def n_(q): return Z(norm(q) if isz(q) else q)
def lgn(): return REG.fresh('ln',IntS,rng=(1,17))
class ED(Contract):
    zq='V'; rq='coef'; dyn=False
    def H(s,x): return P2(sub(x.T['LOGN'],1))
    def N(s,x): return P2(x.T['LOGN'])
    def arraylen(s,E,p,T): return P2(sub(T['LOGN'],1))
    msg=False
    def co(s,c): return ('z',(c,)) if s.msg else ('z'+c,())
    def ca(s,x,c,w='old'): n,p=s.co(c); return x.arr(n,w,p)
    def slots(s,x,G):
        out=[]; L=n_(x.T['LOGN'])
        for c,F,l in (('r',FFR,'real'),('i',FFI,'imaginary')):
            a=s.ca(x,c,'new'); n,p=s.co(c)
            out.append((l+' parts',x.forall(n,p,lambda j,a=a,F=F: eq(sel(a,j),F(G,L,n_(j))),0,s.H(x))))
        return out
@contract
class Fft(ED):
    key='fft(double*,double*,double*)'; modifies=('zr','zi')
    def templ(s): return [('any LOGN',{'LOGN':lgn()})]
    def post(s,x): return s.slots(x,x.arr('m'))
@contract
class Ifft(ED):
    key='ifft(double*,double*,double*)'; modifies=('m',)
    def templ(s): return [('any LOGN',{'LOGN':lgn()})]
    def post(s,x):
        m=x.arr('m','new'); zr=x.arr('zr'); zi=x.arr('zi'); L=n_(x.T['LOGN'])
        return [('inverse transform',x.forall('m',(),lambda j: eq(sel(m,j),sel(IFF(zr,zi,L),j)),0,s.N(x)))]
# DECA(P,L,D)[i] = centred P_i divided by D;  DECL(P,L,d)[i] = centred P_i times 2^-d
DECA=z3.Function('DECA',ArrS(IntS),IntS,IntS,RA); DECL=z3.Function('DECL',ArrS(IntS),IntS,IntS,RA)
def decelems():
    REG.elem['DECA']=lambda e,idx:[Z(eq(e,decv(sel(e.arg(0).arg(0),idx[0]),e.arg(0).arg(1),e.arg(0).arg(2))))]
def decv(c,L,D): return EG.rdiv(Z(toreal(centred(c,P2(norm(L))))),Z(toreal(D)))
def scalars(ctx,k): return [(loc,ty) for loc,ty in ctx.scalars if ty[0]==k]
@contract
class Dec(ED):
    key='decode(R_Q,u64,double*,double*)'; modifies=('zr','zi'); step64=True; exitinst=True
    def templ(s): return [('any LOGQ, LOGN',{'LOGQ':logq(),'LOGN':lgn()})]
    def setup(s,E,st,x): decelems()
    def pre(s,x): return [('canonical',core.canonP(x,'pt',('coeff',),'LOGQ')),('scale positive',lt(0,x.n('Delta')))]
    def G(s,x): return DECA(x.arr('pt','old',('coeff',)),n_(x.T['LOGQ']),n_(x.n('Delta')))
    def post(s,x):
        if x.mode!='prove': decelems()
        return s.slots(x,s.G(x))
    def invs(s,ctx):
        x=ctx.x; E=ctx.E
        vals=[(r,c.v) for r,c in ctx.entry.store.items() if isinstance(c,Leaf) and c.t[0]=='Z' and c.v is not None]
        for r,c in ctx.entry.store.items():
            if isinstance(c,St) and set(c.f)=={'data'} and isinstance(c.f['data'],Leaf) and c.f['data'].t[0]=='Z': vals.append((r,c.f['data'].v))
        for sc,ty in dscal(ctx):
            yield 'power:'+nmof(sc),lambda st,t,sc=sc: eq(EG_get(E,st,sc),toreal(B(t)))
            for r,v in vals:
                yield f'sum:{r}:{nmof(sc)}',lambda st,t,sc=sc,v=v: eq(EG_get(E,st,sc),EG.rdiv(toreal(EG.zlo(v,t)),toreal(x.n('Delta'))))
P2R=EG.P2R
def p2rhook(t):
    """2^x = 2^(x-y) 2^y for the real powers of two of a query (x>=y)"""
    seen=solve.SCOPE.setdefault('P2R',[]); out=[t>0]
    if conc(numval(t.arg(0))) and numval(t.arg(0))==0: out.append(t==1)
    for o in seen:
        if o.eq(t): continue
        for u,v in ((t,o),(o,t)):
            d=norm(sub(u.arg(0),v.arg(0)))
            out.append(z3.Implies(Z(d)>=0,Z(eq(u,mul(toreal(P2(d)),v)))))
    seen.append(t)
    return out
solve.HOOKS['P2R']=p2rhook
def decelems2():
    REG.elem['DECL']=lambda e,idx:[Z(eq(e,decl_(sel(e.arg(0).arg(0),idx[0]),e.arg(0).arg(1),e.arg(0).arg(2))))]
def decl_(c,L,d): return mul(P2R(Z(norm(mul(-1,d)))),toreal(centred(c,P2(norm(L)))))
@contract
class DecL(Dec):
    key='decode_log(R_Q,int,double*,double*)'
    def setup(s,E,st,x): decelems2()
    def pre(s,x): return [('canonical',core.canonP(x,'pt',('coeff',),'LOGQ')),('scale',[le(-2**20,x.n('LOGDELTA')),le(x.n('LOGDELTA'),2**20)])]
    def G(s,x):
        decelems2(); return DECL(x.arr('pt','old',('coeff',)),n_(x.T['LOGQ']),n_(x.n('LOGDELTA')))
    def invs(s,ctx):
        x=ctx.x; E=ctx.E
        vals=[]
        for r,c in ctx.entry.store.items():
            if isinstance(c,Leaf) and c.t[0]=='Z' and c.v is not None: vals.append((r,c.v))
        for sc,ty in dscal(ctx):
            for r,v in vals:
                yield f'digits:{r}:{nmof(sc)}',lambda st,t,sc=sc,v=v: eq(mul(toreal(B(t)),EG_get(E,st,sc)),mul(2**64,toreal(EG.zlo(v,t))))
# nearest integer, halves away from zero, as an integer: the specification of std::round
RNDI=EG.RNDI
def rndhook(t):
    a=t.arg(0); half=z3.RealVal('1/2')
    return [z3.ToReal(t)-a<=half,a-z3.ToReal(t)<=half,z3.Implies(a>=0,z3.And(t>=0,z3.ToReal(t)<=a+half)),z3.Implies(a-z3.ToReal(t)==half,a<0),z3.Implies(z3.ToReal(t)-a==half,a>0)]
solve.HOOKS['roundi']=rndhook
def fabsr(a): return z3.If(a>=0,a,-a)
@contract
class Enc(ED):
    """coefficient i: the integer nearest to Delta |m_i| (halves away from zero) with the sign of m_i, modulo 2^LOGQ; m the inverse transform"""
    key='encode(double*,double*,u64,R_Q)'; modifies=('pt',); step64=True; exitinst=True
    def templ(s): return [('any LOGQ, LOGN',{'LOGQ':logq(),'LOGN':lgn()})]
    def m(s,x,i): return sel(IFF(s.ca(x,'r'),s.ca(x,'i'),n_(x.T['LOGN'])),i)
    def w(s,x,i): m=s.m(x,i); return RNDI(Z(mul(fabsr(m),toreal(x.n('Delta')))))
    def pre(s,x):
        j=z3.FreshInt('j'); eid(j)
        b=[lt(s.w(x,j),P2(64)),lt(s.w(x,j),Q(x))]; g=land(le(0,j),lt(j,s.N(x)))
        if x.mode=='prove': return [('rounded coefficients fit',[('forall',j,g,b)])]
        return [('rounded coefficients fit',[QFact('IFF',[],[j],[Z(q) for q in b],g)])]
    def post(s,x):
        P=x.arr('pt','new',('coeff',))
        return [('nearest integer to Delta m_i modulo 2^LOGQ',x.forall('pt',('coeff',),lambda i:[eq(sel(P,i),ite(land(s.m(x,i)<0,lt(0,s.w(x,i))),sub(Q(x),s.w(x,i)),s.w(x,i))),le(0,sel(P,i)),lt(sel(P,i),Q(x))]))]

@contract
class DecM(Dec): key='decode(R_Q,u64,Message)'; modifies=('z',); msg=True
@contract
class DecLM(DecL): key='decode_log(R_Q,int,Message)'; modifies=('z',); msg=True
@contract
class EncM(Enc): key='encode(Message,u64,R_Q)'; msg=True
# plain-number plaintexts (data: doubles)
class SPE(ED):
    msg=True; modifies=('pt',); exitinst=True
    def templ(s): return [('any LOGN',{'LOGN':lgn()})]
    def f(s,v): return v
    def post(s,x):
        d=x.arr('pt','new',('data',)); z=IFF(s.ca(x,'r'),s.ca(x,'i'),n_(x.T['LOGN']))
        return [('coefficients',x.forall('pt',('data',),lambda i: eq(sel(d,i),s.f(mul(sel(z,i),toreal(x.n('Delta')))))))]
@contract
class EncRaw(SPE): key='encode_raw(Message,u64,SimplePlaintext)'
@contract
class EncSP(SPE):
    key='encode(Message,u64,SimplePlaintext)'
    def f(s,v): return EG.roundr(v)
DECS=z3.Function('DECS',RA,IntS,RA)
def decelems3(): REG.elem['DECS']=lambda e,idx:[Z(eq(e,EG.rdiv(sel(e.arg(0).arg(0),idx[0]),Z(toreal(e.arg(0).arg(1))))))]
@contract
class DecSP(ED):
    key='decode(SimplePlaintext,u64,Message)'; modifies=('z',); msg=True; exitinst=True
    def templ(s): return [('any LOGN',{'LOGN':lgn()})]
    def setup(s,E,st,x): decelems3()
    def pre(s,x): return [('scale positive',lt(0,x.n('Delta')))]
    def post(s,x): decelems3(); return s.slots(x,DECS(x.arr('pt','old',('data',)),n_(x.n('Delta'))))
