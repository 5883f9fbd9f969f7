"""Ciphertexts (pairs of polynomials), coefficient by coefficient: R_Q_square operations, RS, resize, mod_raise"""
from contract import *
from zq import canon, Q, logq, shiftT, resT, centred
from poly import PC, nat, TqN
import zq

class SC(PC):
    D=(0,1)
    def C(s,x,n,i,w='old'): return x.arr(n,w,('data',i,'coeff'))
    def each(s,x,n,i,f,w='new'): return x.forall(n,('data',i,'coeff'),f,w=w)
class SElem(SC):
    modifies=('this',); arg='B'
    def post(s,x):
        out=[]
        for i in (0,1):
            A=s.C(x,'this',i) if s.arg!='A' else None; N=s.C(x,'this',i,'new'); Bv=s.C(x,s.arg,i) if s.arg in x.old else None
            out.append((f'component {i}',s.each(x,'this',i,lambda j,A=A,N=N,Bv=Bv: s.f(x,sel(N,j),sel(A,j) if A is not None else None,sel(Bv,j) if Bv is not None else None))))
        return out
@contract
class SAdd(SElem):
    key='R_Q_square::operator+=(R_Q_square)'; aliases=((),(('this','B'),))
    def f(s,x,n,a,b): return [Cong(n,add(a,b),Q(x)),le(0,n),lt(n,Q(x))]
@contract
class SSub(SElem):
    key='R_Q_square::operator-=(R_Q_square)'; aliases=((),(('this','B'),))
    def f(s,x,n,a,b): return [Cong(n,sub(a,b),Q(x)),le(0,n),lt(n,Q(x))]
@contract
class SMulW(SElem):
    key='R_Q_square::operator*=(u64)'; arg='-'
    def f(s,x,n,a,b): return [Cong(n,mul(x.n('a'),a),Q(x)),le(0,n),lt(n,Q(x))]
@contract
class SCopy(SElem):
    key='R_Q_square::operator=(R_Q_square)'; arg='A'; aliases=((),(('this','A'),))
    def assign(s,x,nm): return x.old['A']
    def f(s,x,n,a,b): return [eq(n,b)]
@contract
class SCopyC(SCopy):
    key='R_Q_square::R_Q_square(R_Q_square)'; aliases=((),)
@contract
class SZero(SElem):
    key='R_Q_square::setzero()'; arg='-'
    def f(s,x,n,a,b): return [eq(n,0)]

class Map2(SC):
    """coefficientwise maps between polynomials of different modulus"""
    fr='ct_fr'; to='ct_to'; two=True
    def P(s): return [('data',0,'coeff'),('data',1,'coeff')] if s.two else [('coeff',)]
    def templ(s): return [(l,dict(T,N=nat())) for l,T in s.T0()]
    def pre(s,x):
        out=[]
        for p in s.P():
            A=x.arr(s.fr,'old',p)
            out.append(('canonical',x.forall(s.fr,p,lambda j,A=A:[le(0,sel(A,j)),lt(sel(A,j),P2(s.frq(x)))],w='old')))
        return out
    def post(s,x):
        out=[]
        for k,p in enumerate(s.P()):
            A=x.arr(s.fr,'old',p); N=x.arr(s.to,'new',p)
            out.append((f'component {k}',x.forall(s.to,p,lambda j,A=A,N=N: s.f(x,sel(A,j),sel(N,j)))))
        return out
@contract
class RSc(Map2):
    key='RS(R_Q_square,R_Q_square)'; modifies=('ct_to',)
    def T0(s): return [(l,{'LOGQfr':T['LOGQfr'],'LOGQto':T['LOGQto'],'__f':T['__f']}) for l,T in shiftT(True)]
    def tfacts(s,T): return T['__f']
    def frq(s,x): return x.T['LOGQfr']
    def f(s,x,a,v): return [p for _,q in zq.shrpost(x,a,v) for p in aslist(q)]
class ResizeP(Map2):
    def T0(s): return resT()
    def frq(s,x): return x.T['LOGQfrom' if 'LOGQfrom' in x.T else 'LOGQfr']
    def f(s,x,a,v):
        Qt=P2(x.T['LOGQto'])
        Lf,Lt=s.frq(x),x.T['LOGQto']
        return [Cong(v,centred(a,P2(Lf)),Qt)]+canon(v,Qt)+[p for _,p in zq.resgrow(x,a,v,Lf,Lt)]
@contract
class ResP(ResizeP):
    key='resize(R_Q,R_Q)'; modifies=('Ato',); fr='Afrom'; to='Ato'; two=False
@contract
class ResS(ResizeP):
    key='resize(R_Q_square,R_Q_square)'; modifies=('Ato',); fr='Afrom'; to='Ato'
@contract
class ModRaise(ResizeP):
    key='mod_raise(R_Q_square,R_Q_square)'; modifies=('ctto',); fr='ctfr'; to='ctto'
    def T0(s): return [(l,{'LOGQfr':T['LOGQfrom'],'LOGQto':T['LOGQto']}) for l,T in resT()]
