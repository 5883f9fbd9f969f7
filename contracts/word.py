"""C03, C21: word arithmetic and index helpers"""
from contract import *
from zq import *

POW=z3.Function('POW',IntS,IntS,IntS)
_pows={}
def powlem(t):
    """POW(a,0)=1, POW(a,1)=a, POW(a,2n)=POW(a,n)^2, POW(a,2n+1)=a POW(a,n)^2   (n>=0)"""
    a,n=t.arg(0),t.arg(1); out=[]
    out.append(z3.Implies(n==0,t==1)); out.append(z3.Implies(n==1,t==a))
    for o in list(_pows.values()):
        if o.eq(t) or not o.arg(0).eq(a): continue
        for u,v in ((t,o),(o,t)):
            e,f=u.arg(1),v.arg(1)
            out.append(z3.Implies(z3.And(f>=0,e==2*f),u==v*v))
            out.append(z3.Implies(z3.And(f>=0,e==2*f+1),u==a*v*v))
    _pows[eid(t)]=t
    return out
solve.HOOKS['POW']=powlem; solve.RESETS.append(_pows.clear)
def n_(q): return Z(norm(q) if isz(q) else q)
# MODN(x,m) = x mod m  (m>0); the residue is unique (lean/Lemmas.lean: modn_unique)
MODN=z3.Function('MODN',IntS,IntS,IntS); DIVN=z3.Function('DIVN',IntS,IntS,IntS)
def modn(v,m):
    return v%m if conc(v) and conc(m) else MODN(n_(v),n_(m))
solve.HOOKS['MODN']=lambda t:[z3.Implies(t.arg(1)>0,z3.And(t>=0,t<t.arg(1),Z(eq(t.arg(0),add(t,mul(t.arg(1),DIVN(t.arg(0),t.arg(1))))))))]
class WC(Contract):
    dyn=False
    def q(s,x): return x.n('q')
@contract
class WMod(WC):
    key='mod(u64,u64,u64)'
    def pre(s,x): return [('modulus positive',lt(0,x.n('q')))]
    def post(s,x): return [('residue of al+2^64 ah',Cong(x.ret,add(x.n('al'),mul(2**64,x.n('ah'))),x.n('q'))),('below q',[le(0,x.ret),lt(x.ret,x.n('q'))])]
@contract
class WMul_(WC):
    key='mul_(u64,u64,u64,u64)'; modifies=('lo','hi')
    def post(s,x): return [('128-bit product',eq(add(x.n('lo','new'),mul(2**64,x.n('hi','new'))),mul(x.n('a'),x.n('b'))))]
class WBin(WC):
    def pre(s,x): return [('modulus positive',lt(0,x.n('q')))]
    def post(s,x):
        y=s.f(x.n('a'),x.n('b')); q=x.n('q')
        return [('result',Cong(x.ret,y,q)),('below q',[le(0,x.ret),lt(x.ret,q)])]+([('named',eq(x.ret,modn(y,q)))] if x.mode=='assume' and getattr(x.E.top,'named',False) else [])
@contract
class WAdd(WBin):
    key='add_mod(u64,u64,u64)'; f=staticmethod(add)
@contract
class WSub(WBin):
    key='sub_mod(u64,u64,u64)'; f=staticmethod(sub)
@contract
class WMulm(WBin):
    key='mul_mod(u64,u64,u64)'; f=staticmethod(mul)
@contract
class WPow(WC):
    key='pow_mod(u64,u64,u64)'
    def pre(s,x): return [('modulus at least 2',le(2,x.n('q')))]
    def post(s,x): return [('power',Cong(x.ret,s.P(x.n('a'),x.n('n')),x.n('q'))),('below q',[le(0,x.ret),lt(x.ret,x.n('q'))])]
    @staticmethod
    def P(a,n): return POW(Z(a),Z(norm(n)))
@contract
class WInv(WC):
    key='inv_mod(u64,u64)'
    def pre(s,x): return [('modulus at least 2',le(2,x.n('q')))]
    def post(s,x): return [('a^(q-2)',Cong(x.ret,POW(Z(x.n('a')),Z(norm(sub(x.n('q'),2)))),x.n('q'))),('below q',[le(0,x.ret),lt(x.ret,x.n('q'))])]
@contract
class ULog(WC):
    key='log(int)'
    def pre(s,x): return [('1<=N<=2^30',[le(1,x.n('N')),le(x.n('N'),2**30)])]
    def post(s,x): return [('2^(ret-1) < N <= 2^ret',[le(0,x.ret),le(x.ret,30),le(x.n('N'),P2(x.ret)),implies(lt(1,x.n('N')),lt(P2(sub(x.ret,1)),x.n('N')))])]
    def invs(s,ctx):
        for cl,ty in ctx.scalars:
            if ty[0]!='i': continue
            def g(st,t,cl=cl): return eq(EG_get(ctx.E,st,cl),P2(t))
            yield 'pow:'+nmof(cl),g
            def g2(st,t,cl=cl): return eq(EG_get(ctx.E,st,cl),t)
            yield 'cnt:'+nmof(cl),g2
class BitC(WC):
    """bit-vector obligations; the number of digits ranges over all of 1..32"""
    dig=True
    def templ(s): return [(f'digits={d}',{'__d':d}) for d in (range(1,33) if s.dig else (32,))]
    def mkarg(s,E,st,p,t,T):
        if s.pn=='digits': return TV(t,T['__d'])
        return TV(t,z3.BitVec('x',32))
    def post(s,x):
        d=x.T['__d'] if s.dig else 32; v=x.ret; a=x.n('x')
        if not z3.is_bv(v): raise VError('bit-vector result expected')
        out=[]
        for i in range(v.size()):
            b=z3.Extract(i,i,v)
            out.append(b==(z3.Extract(d-1-i,d-1-i,a) if i<d else z3.BitVecVal(0,1)))
        return [('bit i of the result is bit d-1-i of x',z3.And(*out))]
    views=()
@contract
class URev32(BitC):
    key='bitReverse32(u32)'; dig=False; inline=True
@contract
class URev(BitC):
    key='bitReverse(u32,int)'; inline=True
