"""C18: decimal text"""
from contract import *
from zq import Q, nl, EG_get, nmof, limb_arrays, arrv
import zq
AI=ArrS(IntS)
# PW10(e)=10^e ; HIB(A,n,b,t) = value of the t most significant of n base-b digits ; LOB(A,b,t) = value of the t least significant ; DECV(s,t) = number denoted by the first t characters
PW10=z3.Function('PW10',IntS,IntS); HIB=z3.Function('HIB',AI,IntS,IntS,IntS,IntS); LOB=z3.Function('LOB',AI,IntS,IntS,IntS); DECV=z3.Function('DECV',AI,IntS,IntS)
MAXD=392   # 10^391 <= 2^1300 - 1 < 10^392
assert 10**391<=2**1300<10**392
def pw(b,e):
    """b^e for b = 10 or 2^32"""
    if b==10:
        e=norm(e) if isz(e) else e
        if conc(e): return 10**e if e>=0 else PW10(z3.IntVal(e))
        c=poly(e).cval()
        return mul(10**int(c),PW10(Z(norm(sub(e,int(c)))))) if c>0 else PW10(Z(e))
    e=norm(e) if isz(e) else e
    if conc(e): return 2**(32*e)
    c=poly(e).cval()
    return mul(2**(32*int(c)),P2(mul(32,norm(sub(e,int(c)))))) if c>0 else P2(mul(32,e))
def pwhook(t):
    e=t.arg(0); out=[z3.Implies(e==0,t==1),z3.Implies(e>=0,t>=1),z3.Implies(e>=MAXD,t>=10**MAXD)]
    if poly(e).cval()<0: out.append(z3.Implies(e>=0,Z(eq(pw(10,add(e,1)),mul(10,t)))))
    seen=solve.SCOPE.setdefault('PW10',[])
    for o in seen:
        if not o.eq(t): out+=[z3.Implies(z3.And(t.arg(0)>=0,o.arg(0)>=0,t.arg(0)<=o.arg(0)),t<=o),z3.Implies(z3.And(t.arg(0)>=0,o.arg(0)>=0,o.arg(0)<=t.arg(0)),o<=t),
            z3.Implies(z3.And(t.arg(0)>=0,t.arg(0)<o.arg(0)),10*t<=o),z3.Implies(z3.And(o.arg(0)>=0,o.arg(0)<t.arg(0)),10*o<=t)]
    seen.append(t)
    return out
solve.HOOKS['PW10']=pwhook
def drop(a,keep):
    """stores outside the digits concerned do not matter"""
    while isz(a) and k_(a)==z3.Z3_OP_STORE and keep(norm(a.arg(1))): a=a.arg(0)
    return a
def pos_(e):
    lo,hi=iv(e)
    return lo is not None and lo>0
def hib(a,n,b,t):
    t=norm(t) if isz(t) else t
    if conc(t) and t<=0: return 0
    n=norm(n) if isz(n) else n
    a=drop(a,lambda j: pos_(norm(sub(sub(n,t),j))) )
    return HIB(a,Z(n),z3.IntVal(b),Z(t))
def lob(a,b,t):
    t=norm(t) if isz(t) else t
    if conc(t) and t<=0: return 0
    a=drop(a,lambda j: pos_(norm(add(sub(j,t),1))))
    return LOB(a,z3.IntVal(b),Z(t))
def hibhook(e):
    a,n,b,t=[e.arg(i) for i in range(4)]; b=b.as_long(); out=[z3.Implies(t<=0,e==0)]
    if numval(t) is not None or poly(t).cval()>=1:
        t1=norm(sub(t,1)); out.append(z3.Implies(t>=1,Z(eq(e,add(mul(b,hib(a,n,b,t1)),sel(a,norm(sub(n,t))))))))
    out.append(z3.Implies(z3.And(n==t,n>=0),Z(eq(e,lob(a,b,n)))))     # lean/Lemmas.lean: horner
    return out
solve.HOOKS['HIB']=hibhook
def lobhook(e):
    a,b,t=[e.arg(i) for i in range(3)]; b=b.as_long(); out=[z3.Implies(t<=0,e==0)]
    if numval(t) is not None or poly(t).cval()>=1:
        t1=norm(sub(t,1)); out.append(z3.Implies(t>=1,Z(eq(e,add(lob(a,b,t1),mul(sel(a,t1),pw(b,t1)))))))
    return out
solve.HOOKS['LOB']=lobhook
def decv(a,t):
    t=norm(t) if isz(t) else t
    if conc(t) and t<=0: return 0
    a=drop(a,lambda j: pos_(norm(add(sub(j,t),1))))
    return DECV(a,Z(t))
def decvhook(e):
    a,t=e.arg(0),e.arg(1); out=[z3.Implies(t<=0,e==0)]
    if numval(t) is not None or poly(t).cval()>=1:
        t1=norm(sub(t,1)); out.append(z3.Implies(t>=1,Z(eq(e,add(mul(10,decv(a,t1)),sub(sel(a,t1),48))))))
    return out
solve.HOOKS['DECV']=decvhook
def arrs(ctx,modified=True):
    E=ctx.E; out=[]
    for loc in ctx.arrays:
        c=E.get(ctx.entry,ctx.entry.store[loc[0]],loc[1])
        if isinstance(c,SA) and isinstance(c.tree,Leaf) and c.tree.t[0]=='i': out.append((loc,c))
    return out
def av(E,st,loc): return E.get(st,st.store[loc[0]],loc[1]).tree.v
class StrC(Contract):
    dyn=False; satfirst=True; exitinst=True
    def templ(s):
        m=REG.fresh('m',IntS,rng=(0,20)); r=REG.fresh('r',IntS,rng=(1,64))
        return [('LOGQ=64m+r<=1300',{'LOGQ':norm(64*m+r),'__m':m,'__r':r,'__len':REG.fresh('len',IntS,rng=(1,2**30))})]
    def arraylen(s,E,p,T): return T['__len']
    def cinvs(s,ctx,frm,to,V,N,n2=None):
        """conversion of an N-digit number in base frm into digits in base to, least significant first"""
        x=ctx.x; E=ctx.E
        ints=[(loc,ty) for loc,ty in ctx.scalars if ty[0]=='i' and ty[1]==64]; bools=[(loc,ty) for loc,ty in ctx.scalars if ty[0]=='b']
        ar=arrs(ctx); src=[(l,c) for l,c in ar if c.tree.t[1]==(64 if frm==2**32 else 32)]; dst=[(l,c) for l,c in ar if c.tree.t[1]==(32 if frm==2**32 else 64)]
        def digits(loc,n,base):
            def g(st,t):
                a=av(E,st,loc); j=z3.FreshInt('j'); eid(j)
                return qfa(a,j,[le(0,sel(a,j)),lt(sel(a,j),base)],land(le(0,j),lt(j,n(t))))
            return g
        if not bools: return
        for loc,c in src:
            a0=c.tree.v; nm=nmof(loc)
            yield f'digits:{nm}',digits(loc,lambda t:N,frm)
            if not dst:           # one division by the new base
                for sc,ty in ints:
                    yield f'remainder:{nmof(sc)}',lambda st,t,sc=sc:[le(0,EG_get(E,st,sc)),lt(EG_get(E,st,sc),to)]
                    yield f'division:{nm}:{nmof(sc)}',lambda st,t,loc=loc,sc=sc,a0=a0: eq(add(mul(to,hib(av(E,st,loc),N,frm,t)),EG_get(E,st,sc)),hib(a0,N,frm,t))
                for bc,ty in bools:
                    yield f'zero:{nm}:{nmof(bc)}',lambda st,t,loc=loc,bc=bc:[implies(EG_get(E,st,bc),eq(hib(av(E,st,loc),N,frm,t),0)),implies(lnot(EG_get(E,st,bc)),le(1,hib(av(E,st,loc),N,frm,t)))]
            for loc2,c2 in dst:   # all digits so far
                yield f'value:{nm}:{nmof(loc2)}',lambda st,t,loc=loc,loc2=loc2: eq(V,add(lob(av(E,st,loc2),to,t),mul(pw(to,t),hib(av(E,st,loc),N,frm,N))))
                yield f'digits written:{nmof(loc2)}',digits(loc2,lambda t:t,to)
                yield f'not negative:{nmof(loc2)}',lambda st,t,loc2=loc2: le(0,lob(av(E,st,loc2),to,t))
                for bc,ty in bools:
                    yield f'power:{nmof(bc)}',lambda st,t,bc=bc: implies(land(lnot(EG_get(E,st,bc)),le(1,t)),land(le(pw(to,t),V),lt(t,n2) if n2 is not None else True))
                    yield f'done:{nm}:{nmof(bc)}',lambda st,t,loc=loc,bc=bc:[implies(land(le(1,t),EG_get(E,st,bc)),eq(hib(av(E,st,loc),N,frm,N),0)),implies(lnot(EG_get(E,st,bc)),lor(eq(t,0),le(1,hib(av(E,st,loc),N,frm,N))))]
                    yield f'lead:{nm}:{nmof(loc2)}:{nmof(bc)}',lambda st,t,loc2=loc2,bc=bc: implies(land(le(2,t),EG_get(E,st,bc)),lt(0,sel(av(E,st,loc2),norm(sub(t,1)))))
        for bc,ty in bools: yield f'first:{nmof(bc)}',lambda st,t,bc=bc: implies(eq(t,0),lnot(EG_get(E,st,bc)))
def qfa(a,j,body,g):
    return QFact(a.decl().name() if isz(a) and k_(a)==z3.Z3_OP_UNINTERPRETED else '-',[],[j],[Z(b) for b in body],g)
@contract
class ToStr(StrC):
    key='Z_Q::to_str(char*)'; modifies=('str',)
    def pre(s,x):
        L=x.size('str')
        return [('at most 1300 bits',le(x.T['LOGQ'],1300)),('canonical',lt(x.V('this'),Q(x))),('room for the digits and the terminator',[le(2,L),lt(x.V('this'),pw(10,sub(L,1)))])]
    def post(s,x):
        a=x.arr('str','new'); c=s.count(x)
        j=z3.FreshInt('j'); eid(j)
        return [('length',[le(1,c),lt(c,x.size('str'))]),('terminator',eq(sel(a,c),0)),('decimal digits of the value',eq(decv(a,c),x.V('this'))),
                ('digits',[('forall',j,land(le(0,j),lt(j,c)),[le(48,sel(a,j)),le(sel(a,j),57)])]),
                ('no leading zero',lor(eq(c,1),lt(48,sel(a,0))))]
    def setup(s,E,st,x):
        if E.mode=='bounded': return
        m,r=x.T['__m'],x.T['__r']
        for k in range(21): st.add(z3.Implies(m==k,Z(eq(P2(mul(64,m)),2**(64*k)))))      # values of 2^e
        E.oblige(st,le(P2(r),2**64),'lemma',None,'2^r'); st.add(Z(le(P2(r),2**64)))
        st.add(z3.Implies(r<=20,Z(le(P2(r),2**20))))
        h=land(le(x.T['LOGQ'],1300),lt(x.V('this'),Q(x))); g=implies(h,lt(x.V('this'),10**MAXD))
        for k in range(21):
            E.oblige(st,implies(land(eq(m,k),h),lt(x.V('this'),10**MAXD)),'lemma',None,f'at most {MAXD} digits ({k+1} limbs)')
        st.add(Z(g))
    def count(s,x):
        a=x.arr('str','new')
        if x.mode!='prove': raise VError('to_str at a call')
        # position of the terminator: the last store
        if k_(a)!=z3.Z3_OP_STORE: raise VError('no terminator written')
        return norm(a.arg(1))
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; N=mul(2,nl(x)); V=x.V('this')
        D=x.arr('this','old',('data',))
        bools=[1 for loc,ty in ctx.scalars if ty[0]=='b']
        for loc,c in arrs(ctx):
            if bools: break
            # base 2^64 -> 2^32
            if c.tree.t[1]==64:
                yield 'halves:'+nmof(loc),lambda st,t,loc=loc: eq(lob(av(E,st,loc),2**32,mul(2,t)),val(D,t))
                def rg(st,t,loc=loc):
                    a=av(E,st,loc); j=z3.FreshInt('j'); eid(j)
                    return qfa(a,j,[le(0,sel(a,j)),lt(sel(a,j),2**32)],land(le(0,j),lt(j,mul(2,t))))
                yield 'halves range:'+nmof(loc),rg
            if c.tree.t[1]==8:
                for nm,c0 in other(ctx,loc):
                    for iname,i in [(r,v) for r,v in outer(ctx) if k_(v)==z3.Z3_OP_UNINTERPRETED][-1:]:
                        yield f'text:{nmof(loc)}:{nm}:{iname}',lambda st,t,loc=loc,c0=c0,i=i: eq(decv(av(E,st,loc),t),hib(c0,i,10,t))
                        def dg(st,t,loc=loc):
                            a=av(E,st,loc); j=z3.FreshInt('j'); eid(j)
                            return qfa(a,j,[le(48,sel(a,j)),le(sel(a,j),57)],land(le(0,j),lt(j,t)))
                        yield 'text digits:'+nmof(loc),dg
        yield from s.cinvs(ctx,2**32,10,V,N)
@contract
class FrStr(StrC):
    key='Z_Q::fr_str(char*)'; modifies=('this',)
    def templ(s):
        m=REG.fresh('m',IntS,rng=(0,20)); r=REG.fresh('r',IntS,rng=(1,64)); n=REG.fresh('n',IntS,rng=(0,520))
        return [('LOGQ=64m+r<=1300',{'LOGQ':norm(64*m+r),'__n':n,'__len':norm(n+1)})]
    def pre(s,x):
        a=x.arr('str'); n=x.T['__n']; j=z3.FreshInt('j'); eid(j)
        return [('decimal digits',[qfa(a,j,[le(48,sel(a,j)),le(sel(a,j),57)],land(le(0,j),lt(j,n)))]),('terminator',eq(sel(a,n),0)),('fits',lt(decv(a,n),Q(x)))]
    def post(s,x): return [('the number denoted by the text',eq(x.V('this','new'),decv(x.arr('str'),x.T['__n'])))]
    def setup(s,E,st,x):
        n=x.T['__n']
        # strlen: the position of the first zero; by the precondition that is __n (characters before it are 48..57)
        E.strlen_fn=lambda st_,p: n
        if E.mode=='bounded': return
        k=mul(64,nl(x)); st.add(P2f(Z(k))==Z(B(nl(x))),Z(le(Q(x),P2f(Z(k)))))        # 2^(64(m+1)) and 2^LOGQ <= 2^(64(m+1))
        s.room=P2f(Z(k))
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; N=x.T['__n']; S=x.arr('str'); V=decv(S,N); n2=mul(2,nl(x))
        bools=[1 for loc,ty in ctx.scalars if ty[0]=='b']
        if not bools:
            for loc,c in arrs(ctx):
                a0=c.tree.v
                if loc[0]==ctx.locs['this'].root:        # base 2^32 -> 2^64
                    for r,b in others(ctx,64,loc): yield f'joined:{r}',lambda st,t,loc=loc,b=b: eq(val(av(E,st,loc),t),lob(b,2**32,mul(2,t)))
                elif c.tree.t[1]==32:                    # digits, last first
                    yield 'copied',lambda st,t,loc=loc: eq(lob(av(E,st,loc),10,t),tailv(S,N,t))
                    def rg(st,t,loc=loc):
                        a=av(E,st,loc); j=z3.FreshInt('j'); eid(j)
                        return qfa(a,j,[eq(sel(a,j),sub(sel(S,norm(sub(sub(N,1),j))),48))],land(le(0,j),lt(j,t)))
                    yield 'digits copied',rg
                else:                                    # zero fill
                    for r,i in [(r,v) for r,v in outer(ctx) if k_(v)==z3.Z3_OP_UNINTERPRETED][-1:]:
                        yield f'zero fill:{r}',lambda st,t,loc=loc,i=i: eq(lob(av(E,st,loc),2**32,add(i,t)),V)
        yield from s.cinvs(ctx,10,2**32,V,N,n2)
# TAILV(s,n,t): number denoted by the last t of n characters
TAILV=z3.Function('TAILV',AI,IntS,IntS,IntS)
def tailv(a,n,t):
    t=norm(t) if isz(t) else t
    if conc(t) and t<=0: return 0
    return TAILV(a,Z(norm(n) if isz(n) else n),Z(t))
def tailhook(e):
    a,n,t=[e.arg(i) for i in range(3)]; out=[z3.Implies(t<=0,e==0)]
    if numval(t) is not None or poly(t).cval()>=1:
        t1=norm(sub(t,1)); out.append(z3.Implies(t>=1,Z(eq(e,add(tailv(a,n,t1),mul(sub(sel(a,norm(sub(n,t))),48),pw(10,t1)))))))
    out.append(z3.Implies(z3.And(n==t,n>=0),Z(eq(e,decv(a,n)))))     # lean/Lemmas.lean: horner
    return out
solve.HOOKS['TAILV']=tailhook
def others(ctx,bits,loc):
    return [(r,c.tree.v) for r,c in ctx.entry.store.items() if isinstance(c,SA) and isinstance(c.tree,Leaf) and c.tree.t[0]=='i' and c.tree.t[1]==bits and r!=loc[0]]
def other(ctx,loc):
    return [(r,c.tree.v) for r,c in ctx.entry.store.items() if isinstance(c,SA) and isinstance(c.tree,Leaf) and c.tree.t[0]=='i' and c.tree.t[1]==32 and r!=loc[0]]
def outer(ctx):
    return [(r,c.v) for r,c in ctx.entry.store.items() if isinstance(c,Leaf) and c.t[0]=='i' and isz(c.v) and not any(r==m[0] for m in ctx.mods)]
