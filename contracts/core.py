"""HEAAN core: keygen, enc, dec, swkgen, ks, Mul at coefficient level"""
from contract import *
from zq import canon, Q, logq
from poly import PC, nat, TqN, ncp, ternary
import zq, poly, square

class CC(PC): pass
@contract
class Dec(CC):
    key='HEAAN::dec(R_Q_square,int*,R_Q)'; modifies=('pt',)
    def pre(s,x): return [('ternary key',ternary(x))]
    def post(s,x):
        S=x.arr('s'); c0=x.arr('ct','old',('data',0,'coeff')); c1=x.arr('ct','old',('data',1,'coeff')); P=x.arr('pt','new',('coeff',)); N=x.T['N']
        return [('ct0 + s*ct1',x.forall('pt',('coeff',),lambda i:[Cong(sel(P,i),add(sel(c0,i),ncp(S,c1,i,N,N)),Q(x)),le(0,sel(P,i)),lt(sel(P,i),Q(x))]))]
@contract
class Enc(CC):
    key='HEAAN::enc(R_Q,int*,R_Q_square)'; modifies=('ct',)
    def pre(s,x): return [('ternary key',ternary(x))]
    def post(s,x):
        S=x.arr('s'); c0=x.arr('ct','new',('data',0,'coeff')); c1=x.arr('ct','new',('data',1,'coeff')); P=x.arr('pt','old',('coeff',)); N=x.T['N']
        return [('canonical 0',x.forall('ct',('data',0,'coeff'),lambda i:[le(0,sel(c0,i)),lt(sel(c0,i),Q(x))])),
           ('canonical 1',x.forall('ct',('data',1,'coeff'),lambda i:[le(0,sel(c1,i)),lt(sel(c1,i),Q(x))])),
           ('decrypts to the plaintext up to 8',x.forall('ct',('data',0,'coeff'),lambda i:Cong(add(sel(c0,i),ncp(S,c1,i,N,N)),sel(P,i),Q(x),rng=(-8,8))))]

# ------------------------------------------------------------------ product of polynomials, switching keys
def canonP(x,n,path,lq,w='old'):
    A=x.arr(n,w,path)
    return x.forall(n,path,lambda j:[le(0,sel(A,j)),lt(sel(A,j),P2(x.T[lq]))],w=w)
# MODP(x,L) = x mod 2^L
MODP=z3.Function('MODP',IntS,IntS,IntS); MODQ=z3.Function('MODQ',IntS,IntS,IntS)
def modp(v,L):
    if conc(v) and conc(L): return v%2**L
    return MODP(Z(norm(v) if isz(v) else v),Z(norm(L) if isz(L) else L))
solve.HOOKS['MODP']=lambda t:[t>=0,t<Z(P2(t.arg(1))),Z(eq(t.arg(0),add(t,mul(P2(norm(t.arg(1))),MODQ(t.arg(0),t.arg(1))))))]
# POW2N(N): N = 2^k, k <= 17 (the sizes the prime table of conv(R_Q,R_Q,R_Q) is made for); LQMAX: the largest LOGQ it is made for
POW2N=z3.Function('POW2N',IntS,BoolS); LQMAX=3051
def sizes(x,f=1): return [('N a power of two up to 2^17, modulus of at most 3051 bits',[POW2N(Z(norm(x.T['N']) if isz(x.T['N']) else x.T['N'])),le(mul(f,x.T['LOGQ']),LQMAX)])]
@contract
class ConvP(CC):
    """negacyclic product; the body is proved in convc.py"""
    key='conv(R_Q,R_Q,R_Q)'; modifies=('C',); aliases=((),(('A','C'),),(('B','C'),))
    exitinst=True
    def templ(s): return [(n,{'LOGQ':logq(),'N':nat(),'__late':n=='later call'}) for n in ('first call','later call')]
    def pre(s,x): return [('canonical A',canonP(x,'A',('coeff',),'LOGQ')),('canonical B',canonP(x,'B',('coeff',),'LOGQ'))]+sizes(x)
    def post(s,x):
        A=x.arr('A','old',('coeff',)); Bv=x.arr('B','old',('coeff',)); C=x.arr('C','new',('coeff',)); N=x.T['N']
        L=x.T['LOGQ']
        return (s.late(x) if x.mode=='prove' else [])+[('negacyclic convolution modulo 2^LOGQ',x.forall('C',('coeff',),lambda i:[Cong(sel(C,i),ncp(A,Bv,i,N,N),Q(x)),le(0,sel(C,i)),lt(sel(C,i),Q(x))]+([eq(sel(C,i),modp(ncp(A,Bv,i,N,N),L))] if x.mode!='prove' else [])))]
@contract
class SMulP(square.SC):
    key='R_Q_square::operator*=(R_Q)'; modifies=('this',)
    def pre(s,x): return [('canonical',canonP(x,'this',('data',0,'coeff'),'LOGQ')),('canonical',canonP(x,'this',('data',1,'coeff'),'LOGQ')),('canonical B',canonP(x,'B',('coeff',),'LOGQ'))]+sizes(x)
    def post(s,x):
        out=[]; Bv=x.arr('B','old',('coeff',)); N=x.T['N']
        for k in (0,1):
            A=s.C(x,'this',k); C=s.C(x,'this',k,'new')
            out.append((f'component {k}: product',s.each(x,'this',k,lambda i,A=A,C=C:[Cong(sel(C,i),ncp(A,Bv,i,N,N),Q(x)),le(0,sel(C,i)),lt(sel(C,i),Q(x))])))
        return out
@contract
class SwkGen(square.SC):
    key='HEAAN::swkgen(int*,int*,R_Q_square)'; exitinst=True; modifies=('swk',)
    def pre(s,x):
        S=x.arr('s_fr')
        return [('ternary target key',ternary(x,'s_to')),('no INT_MIN',x.forall('s_fr',(),lambda j:[lt(-2**31,sel(S,j))],w='old'))]
    def post(s,x):
        F=x.arr('s_fr'); S=x.arr('s_to'); N=x.T['N']; L=x.T['LOGQ']; QQ=P2(mul(2,L))
        c0=s.C(x,'swk',0,'new'); c1=s.C(x,'swk',1,'new')
        return [('canonical 0',s.each(x,'swk',0,lambda i:[le(0,sel(c0,i)),lt(sel(c0,i),QQ)])),('canonical 1',s.each(x,'swk',1,lambda i:[le(0,sel(c1,i)),lt(sel(c1,i),QQ)])),
            ('decrypts to 2^LOGQ times the source key up to 8',s.each(x,'swk',0,lambda i:Cong(add(sel(c0,i),ncp(S,c1,i,N,N)),mul(P2(L),sel(F,i)),QQ,rng=(-8,8))))]
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; L=x.T['LOGQ']; QQ=P2(mul(2,L))
        zs=[loc for loc,ty in ctx.scalars if ty[0]=='Z']
        for zl in zs:
            yield 'canon:'+str(zl[0]),lambda st,t,zl=zl:[le(0,E.get(st,st.store[zl[0]],zl[1]).v),lt(E.get(st,st.store[zl[0]],zl[1]).v,QQ)]
            z0=E.get(ctx.entry,ctx.entry.store[zl[0]],zl[1]).v
            if z0 is not None: yield 'acc:'+str(zl[0]),lambda st,t,zl=zl,z0=z0: Cong(E.get(st,st.store[zl[0]],zl[1]).v,add(z0,mul(P2(L),t)),QQ)
def kT():
    m=REG.fresh('m',IntS,rng=(0,2**20)); r=REG.fresh('r',IntS,rng=(1,64))
    return [('any LOGQ, N',{'LOGQ':norm(64*m+r),'N':nat()})]
@contract
class Ks(square.SC):
    key='HEAAN::ks(R_Q_square,R_Q_square)'; step64=True; exitinst=True; modifies=('ct',)
    def templ(s): return kT()
    def pre(s,x): return [('canonical',canonP(x,'ct',('data',0,'coeff'),'LOGQ')),('canonical',canonP(x,'ct',('data',1,'coeff'),'LOGQ')),('canonical key',canon2(x,'swk',0)),('canonical key',canon2(x,'swk',1))]+sizes(x,2)
    def post(s,x): return ksposts(s,x,'swk','ct','ct',s.C(x,'ct',1),lambda k,i: sel(s.C(x,'ct',0),i) if k==0 else 0)
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; c1=s.C(x,'ct',1)
        for loc,ty in ctx.scalars:
            if ty[0]!='Z': continue
            i=loc[1][-1][1] if loc[1] and loc[1][-1][0]=='i' else None
            if i is None: continue
            yield 'lift:'+str(loc[0]),lambda st,t,loc=loc,i=i: eq(EG.zlo(E.get(st,st.store[loc[0]],loc[1]).v,t),EG.zlo(sel(c1,i),t))
def canon2(x,n,k):
    A=x.arr(n,'old',('data',k,'coeff')); L=x.T['LOGQ']
    return x.forall(n,('data',k,'coeff'),lambda j:[le(0,sel(A,j)),lt(sel(A,j),P2(mul(2,L)))],w='old')
def ksposts(s,x,key,ct,to,c1,base):
    """2^LOGQ * new_k = 2^LOGQ * base_k + (key_k * c1) + e mod 2^(2 LOGQ), |e| <= 2^(LOGQ-1): c1 times the key, divided by 2^LOGQ, rounded to nearest"""
    N=x.T['N']; L=x.T['LOGQ']; q=P2(L); h=P2(sub(L,1)); out=[]
    for k in (0,1):
        K=x.arr(key,'old',('data',k,'coeff')); D=s.C(x,to,k,'new')
        out.append((f'component {k}: rounded contribution of the key',s.each(x,to,k,lambda i,K=K,D=D,k=k:[Cong(mul(q,sel(D,i)),add(mul(q,base(k,i)),ncp(K,c1,i,N,N)),P2(mul(2,L)),rng=(mul(-1,h),h)),le(0,sel(D,i)),lt(sel(D,i),q)])))
    return out

# D2F(A,B,N,L): polynomial whose coefficients are those of A*B reduced to the centred residue modulo 2^L, written modulo 2^(2L)
D2F=z3.Function('D2F',ArrS(IntS),ArrS(IntS),IntS,IntS,ArrS(IntS))
def lift(c,L): q=P2(L); return ite(le(q,mul(2,c)),add(sub(c,q),P2(mul(2,L))),c)
def d2elem(e,idx):
    f=e.arg(0); A,Bv,N,L=[f.arg(j) for j in range(4)]; j=idx[0]
    return [Z(eq(e,lift(modp(ncp(A,Bv,j,N,N),L),norm(L))))]
@contract
class MulC(square.SC):
    key='Mul(R_Q_square,R_Q_square,R_Q_square,R_Q_square)'; modifies=('ct3',); aliases=((),(('ct1','ct2'),))
    def templ(s): return kT()
    def pre(s,x):
        return [('canonical',canonP(x,n,('data',k,'coeff'),'LOGQ')) for n in ('ct1','ct2') for k in (0,1)]+[('canonical key',canon2(x,'evk',k)) for k in (0,1)]+sizes(x,2)
    def post(s,x):
        REG.elem['D2F']=d2elem
        N=x.T['N']; L=x.T['LOGQ']; q=P2(L)
        a0,a1=s.C(x,'ct1',0),s.C(x,'ct1',1); b0,b1=s.C(x,'ct2',0),s.C(x,'ct2',1)
        D=D2F(a1,b1,Z(norm(N) if isz(N) else N),Z(L))
        return ksposts(s,x,'evk','-','ct3',D,lambda k,i: ncp(a0,b0,i,N,N) if k==0 else add(ncp(a0,b1,i,N,N),ncp(a1,b0,i,N,N)))
