"""Plain-number reference implementations (real arithmetic)"""
from contract import *
from poly import nat
import zq
def logn(lo=1,hi=16): return REG.fresh('ln',IntS,rng=(lo,hi))
class PL(Contract):
    zq='V'; rq='coef'; dyn=False
    def templ(s): return [('any LOGN',{'LOGN':logn()})]
    def half(s,x,d=0): return P2(sub(add(x.T['LOGN'],d),1))
    def N(s,x): return P2(x.T['LOGN'])
class MsgOp(PL):
    modifies=('z3',); aliases=((),(('z1','z3'),),(('z2','z3'),),(('z1','z2'),),(('z1','z2','z3'),))
    aliases=((),)
    def post(s,x):
        a,b=x.arr('z1','old',('r',)),x.arr('z1','old',('i',)); c,d=x.arr('z2','old',('r',)),x.arr('z2','old',('i',)); r,i=x.arr('z3','new',('r',)),x.arr('z3','new',('i',))
        return [('real parts',x.forall('z3',('r',),lambda j: eq(sel(r,j),s.f(sel(a,j),sel(b,j),sel(c,j),sel(d,j))[0]))),
                ('imaginary parts',x.forall('z3',('i',),lambda j: eq(sel(i,j),s.f(sel(a,j),sel(b,j),sel(c,j),sel(d,j))[1])))]
@contract
class MAdd(MsgOp):
    key='add(Message,Message,Message)'
    def f(s,a,b,c,d): return add(a,c),add(b,d)
@contract
class MSub(MsgOp):
    key='sub(Message,Message,Message)'
    def f(s,a,b,c,d): return sub(a,c),sub(b,d)
@contract
class MMul(MsgOp):
    key='mul(Message,Message,Message)'
    def f(s,a,b,c,d): return sub(mul(a,c),mul(b,d)),add(mul(a,d),mul(b,c))
class SPOp(PL):
    modifies=('pt3',)
    def post(s,x):
        a,b,c=x.arr('pt1','old',('data',)),x.arr('pt2','old',('data',)),x.arr('pt3','new',('data',))
        return [('every coefficient',x.forall('pt3',('data',),lambda j: eq(sel(c,j),s.f(sel(a,j),sel(b,j)))))]
@contract
class SPAdd(SPOp):
    key='add(SimplePlaintext,SimplePlaintext,SimplePlaintext)'
    def f(s,a,b): return add(a,b)
@contract
class SPSub(SPOp):
    key='sub(SimplePlaintext,SimplePlaintext,SimplePlaintext)'
    def f(s,a,b): return sub(a,b)
@contract
class Aggr(PL):
    key='aggregate(Message,Message,Message)'; modifies=('z3',)
    def post(s,x):
        out=[]; H=s.half(x); N=s.N(x)
        for c in 'ri':
            a,b,d=x.arr('z1','old',(c,)),x.arr('z2','old',(c,)),x.arr('z3','new',(c,))
            out.append((f'first half {c}',x.forall('z3',(c,),lambda j,a=a,d=d: eq(sel(d,j),sel(a,j)),0,H)))
            out.append((f'second half {c}',x.forall('z3',(c,),lambda j,b=b,d=d: eq(sel(d,j),sel(b,sub(j,H))),H,N)))
        return out
@contract
class MCtor(PL):
    key='Message::Message()'; modifies=('this',)
    def post(s,x):
        out=[]
        for c in 'ri':
            d=x.arr('this','new',(c,)); out.append((f'zero {c}',x.forall('this',(c,),lambda j,d=d: eq(sel(d,j),0))))
        return out
@contract
class MCopy(PL):
    key='Message::Message(Message)'; modifies=('this',)
    def post(s,x):
        out=[]
        for c in 'ri':
            a=x.arr('other','old',(c,)); d=x.arr('this','new',(c,)); out.append((f'copied {c}',x.forall('this',(c,),lambda j,a=a,d=d: eq(sel(d,j),sel(a,j)))))
        return out
# sums: NS2(r,i,k) = sum over j<k of r_j^2+i_j^2 ; NS1(a,k) = sum of a_j^2 ; NCR = partial negacyclic sum of reals
RA=ArrS(RealS)
NS2=z3.Function('NS2',RA,RA,IntS,RealS); NS1=z3.Function('NS1',RA,IntS,RealS); NCR=z3.Function('NCR',RA,RA,IntS,IntS,IntS,RealS)
def reclem(ki,term):
    def h(t):
        xs=[t.arg(j) for j in range(t.num_args())]; k=xs[ki]
        out=[z3.Implies(k<=0,t==0)]
        if numval(k) is not None or poly(k).cval()>=1:
            k1=norm(sub(k,1)); ys=list(xs); ys[ki]=Z(k1)
            p=t.decl()(*ys) if not(conc(k1) and k1<=0) else z3.RealVal(0)
            for c,v in term(xs,k1): out.append(z3.Implies(z3.And(k>=1,Z(c)),t==p+Z(v)))
        return out
    return h
solve.HOOKS['NS2']=reclem(2,lambda a,k:[(True,add(mul(sel(a[0],k),sel(a[0],k)),mul(sel(a[1],k),sel(a[1],k))))])
solve.HOOKS['NS1']=reclem(1,lambda a,k:[(True,mul(sel(a[0],k),sel(a[0],k)))])
solve.HOOKS['NCR']=reclem(4,lambda a,k:[(le(k,a[2]),mul(sel(a[0],k),sel(a[1],norm(sub(a[2],k))))),(lt(a[2],k),mul(-1,mul(sel(a[0],k),sel(a[1],norm(sub(add(a[3],a[2]),k))))))])
def nonneg(h): return lambda t: h(t)+[t>=0]
for _n in ('NS2','NS1'): solve.HOOKS[_n]=nonneg(solve.HOOKS[_n])
solve.HOOKS['sqrt']=lambda t:[t>=0,z3.Implies(t.arg(0)>=0,t*t==t.arg(0))]
def sc(f,k,*a):
    if conc(k) and k<=0: return 0
    return f(*[Z(norm(q) if isz(q) else q) for q in a])
def ns2(a,b,k): return sc(NS2,k,a,b,k)
def ns1(a,k): return sc(NS1,k,a,k)
def ncr(a,b,i,N,k): return sc(NCR,k,a,b,i,N,k)
def dscal(s,ctx): return [(loc,ty) for loc,ty in ctx.scalars if ty[0]=='d']
def getv(E,st,loc): return E.get(st,st.store[loc[0]],loc[1]).v
@contract
class MSq(PL):
    key='square_sum(Message)'
    def post(s,x): return [('sum of squares',eq(x.ret,ns2(x.arr('z','old',('r',)),x.arr('z','old',('i',)),s.half(x))))]
    def invs(s,ctx):
        x=ctx.x
        for loc,ty in dscal(s,ctx): yield 'sum:'+str(loc[0]),lambda st,t,loc=loc: eq(getv(ctx.E,st,loc),ns2(x.arr('z','old',('r',)),x.arr('z','old',('i',)),t))
@contract
class SSq(PL):
    key='square_sum(SimplePlaintext)'
    def post(s,x): return [('sum of squares',eq(x.ret,ns1(x.arr('pt','old',('data',)),s.N(x))))]
    def invs(s,ctx):
        x=ctx.x
        for loc,ty in dscal(s,ctx): yield 'sum:'+str(loc[0]),lambda st,t,loc=loc: eq(getv(ctx.E,st,loc),ns1(x.arr('pt','old',('data',)),t))
@contract
class MNorm(PL):
    key='norm(Message)'
    def post(s,x): return [('Euclidean norm',eq(mul(x.ret,x.ret),ns2(x.arr('z','old',('r',)),x.arr('z','old',('i',)),s.half(x)))),('not negative',le(0,x.ret))]
@contract
class SNorm(PL):
    key='norm(SimplePlaintext)'
    def post(s,x): return [('Euclidean norm',eq(mul(x.ret,x.ret),ns1(x.arr('pt','old',('data',)),s.N(x)))),('not negative',le(0,x.ret))]
@contract
class SConv(PL):
    key='conv(SimplePlaintext,SimplePlaintext,SimplePlaintext)'; modifies=('pt3',)
    def post(s,x):
        a,b,c=x.arr('pt1','old',('data',)),x.arr('pt2','old',('data',)),x.arr('pt3','new',('data',)); N=s.N(x)
        return [('negacyclic convolution',x.forall('pt3',('data',),lambda i: eq(sel(c,i),ncr(a,b,i,N,N))))]
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; N=s.N(x); a,b=x.arr('pt1','old',('data',)),x.arr('pt2','old',('data',))
        ivs=[v for v in outer(ctx)]
        for loc,ty in dscal(s,ctx):
            for nm,i in ivs:
                yield f'sum0:{loc[0]}:{nm}',lambda st,t,loc=loc,i=i: eq(getv(E,st,loc),ncr(a,b,i,N,t))
                yield f'sum1:{loc[0]}:{nm}',lambda st,t,loc=loc,i=i: eq(getv(E,st,loc),ncr(a,b,i,N,add(add(i,1),t)))
def outer(ctx):
    """integer scalars not modified by the loop (e.g. the index of the enclosing loop)"""
    E=ctx.E; st=ctx.entry; out=[]
    for r,c in st.store.items():
        if isinstance(c,Leaf) and c.t[0]=='i' and c.v is not None and not any(r==m[0] for m in ctx.mods): out.append((r,c.v))
    return out

SUP=z3.Function('SUP',RA,RA,IntS,RealS)   # largest absolute value of the first k slots (0 for k=0)
def suphook(t):
    a,b,k=t.arg(0),t.arg(1),t.arg(2); out=[z3.Implies(k<=0,t==0),t>=0]
    if numval(k) is not None or poly(k).cval()>=1:
        k1=norm(sub(k,1)); p=Z(sc(SUP,k1,a,b,k1)); v=EG.SQRT(Z(toreal(add(mul(sel(a,k1),sel(a,k1)),mul(sel(b,k1),sel(b,k1))))))
        p=z3.ToReal(p) if p.sort()==IntS else p
        out.append(z3.Implies(k>=1,t==z3.If(v>p,v,p)))
    return out
solve.HOOKS['SUP']=suphook
@contract
class MSup(PL):
    key='sup_norm(Message)'
    def sp(s,x,k): return sc(SUP,k,x.arr('z','old',('r',)),x.arr('z','old',('i',)),k)
    def post(s,x): return [('largest absolute value',eq(x.ret,s.sp(x,s.half(x))))]
    def invs(s,ctx):
        for loc,ty in dscal(s,ctx): yield 'max:'+str(loc[0]),lambda st,t,loc=loc: eq(getv(ctx.E,st,loc),s.sp(ctx.x,t))
