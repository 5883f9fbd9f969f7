"""C01, C02: big integers"""
from contract import *

def logq(name='m'):
    """LOGQ = 64 m + r, 1<=r<=64, m>=0"""
    m=REG.fresh(name,IntS,rng=(0,2**24)); r=REG.fresh('r',IntS,rng=(1,64))
    return norm(64*m+r)
def Tq(): return [('LOGQ=64m+r',{'LOGQ':logq()})]
def nl(x,L=None): return x.E.zlimbs(L if L is not None else x.T['LOGQ'])
def Q(x,n='LOGQ'): return P2(x.T[n])
def canon(v,Qv): return [le(0,v),lt(v,Qv)]

class ZC(Contract):
    def templ(s): return Tq()
    def cands(s,ctx):
        """value invariants of limb loops, over every loop-carried boolean/integer as the carry"""
        x=ctx.x; E=ctx.E; L=nl(x)
        th=ctx.locs['this'] if 'this' in ctx.locs else None
        return []
def data(E,st,lv):
    c=E.rawload(st,lv)
    return c.f['data'].tree.v
def rdv(E,st,loc): return EG_get(E,st,loc)
def EG_get(E,st,loc): return E.get(st,st.store[loc[0]],loc[1]).v
def asint(v): 
    if isinstance(v,bool) or (isz(v) and z3.is_bool(v)): return b2i(v)
    return v

def limb_arrays(ctx):
    """all limb arrays reachable at the loop: (name, loc) for Z_Q objects in the environment or parameters"""
    E=ctx.E; out=[]
    seen=set()
    def addlv(nm,lv):
        if lv.t[0]=='s' and lv.t[1]=='Z_Q':
            loc=(lv.root,lv.path+(('f','data'),))
            if lv.root in ctx.entry.store and loc not in seen: seen.add(loc); out.append((nm,loc,lv.t[2][0]))
        if lv.t[0]=='a' and lv.t[1]==ULONG and lv.root in ctx.entry.store:
            loc=(lv.root,lv.path)
            if loc not in seen: seen.add(loc); out.append((nm,loc,lv.t[2]))
    for nm,v in list(ctx.locs.items())+list(ctx.env.items())+[('this',f.this) for f in E.frames if f.this is not None]:
        if isinstance(v,LV): addlv(nm,v)
        elif isinstance(v,TV) and isinstance(v.v,Ptr) and v.v.lv is not None: addlv(nm,v.v.lv)
    return out

def arrv(E,st,loc):
    c=E.get(st,st.store[loc[0]],loc[1])
    return limbs(c)
def nrm(e): return norm(e) if isz(e) else e
def limbs(c):
    if isinstance(c,SA) and isinstance(c.tree,Leaf): return c.tree.v
    if isinstance(c,CA) and all(isinstance(l,Leaf) and (l.v is None or isinstance(l.v,int)) for l in c.e): return tuple(l.v for l in c.e)
    return None
def nmof(loc): return loc[0].split('#')[0]+('.'+'.'.join(str(x) for _,x in loc[1]) if loc[1] else '')

def carry_invs(ctx,srcs,n,olds):
    """candidates val(D,n) + c*B(t+k) == val(D_entry,n) + S(t+k) + c_entry*B(k)"""
    E=ctx.E; ent=ctx.entry
    las=[(nm,loc) for nm,loc,_ in limb_arrays(ctx)]
    moda=set(ctx.arrays)
    for nm,loc in las:
        if not any(loc==a for a in ctx.arrays): continue
        D0=arrv(E,ent,loc)
        if D0 is None: continue
        for cl,ty in ctx.scalars:
            if ty[0] not in 'bi': continue
            c0=EG_get(E,ent,cl)
            if c0 is None: continue
            for k in (0,1):
                def g(st,t,loc=loc,cl=cl,k=k,D0=D0,c0=c0,S=None):
                    D=arrv(E,st,loc); c=asint(EG_get(E,st,cl))
                    return eq(add(val(D,n),mul(c,B(add(t,k)))),add(val(D0,n),mul(asint(c0),B(k))))
                yield (f'incr:{nm}:{nmof(cl)}:{k}',g)
                for snm,sv in srcs:
                    if k: continue
                    def g2(st,t,loc=loc,cl=cl,D0=D0,sv=sv):
                        D=arrv(E,st,loc); c=asint(EG_get(E,st,cl))
                        return eq(add(val(D,n),mul(c,B(t))),add(val(D0,n),val(sv,t)))
                    yield (f'add:{nm}+={snm}:{nmof(cl)}',g2)
            if ty[0]=='i':
                def g3(st,t,cl=cl):
                    c=EG_get(E,st,cl); return land(le(0,c),le(c,1))
                yield (f'bit:{nmof(cl)}',g3)
        # complement
        def g4(st,t,loc=loc,D0=D0):
            D=arrv(E,st,loc)
            return eq(add(val(D,t),val(D0,t)),sub(B(t),1))
        yield (f'compl:{nm}',g4)
        def g4n(st,t,loc=loc,D0=D0):
            D=arrv(E,st,loc)
            return eq(val(D,t),0)
        yield (f'zero:{nm}',g4n)
        for snm,sv in srcs:
            def g5(st,t,loc=loc,sv=sv):
                return eq(val(arrv(E,st,loc),t),val(sv,t))
            yield (f'copy:{nm}:{snm}',g5)

class ZBase(ZC):
    srcnames=('A','B')
    def invs(s,ctx):
        x=ctx.x; E=ctx.E
        srcs=[]
        for nm,c in x.old.items():
            if nm in x.ty and isinstance(c,St) and 'data' in c.f and limbs(c.f['data']) is not None: srcs.append((nm,limbs(c.f['data'])))
        for nm,loc,_ in limb_arrays(ctx):
            a=arrv(E,ctx.entry,loc)
            if a is not None and (isinstance(a,tuple) or not any(a.eq(b) for _,b in srcs)): srcs.append((nm+'@entry',a))
        yield from carry_invs(ctx,srcs,nl(x),None)

@contract
class ZCopy(ZBase):
    key=('Z_Q::operator=(Z_Q)',)
    modifies=('this',); aliases=((),(('this','B'),))
    def post(s,x): return [('copies the value',eq(x.V('this','new'),x.V('B')))]
@contract
class ZCopyC(ZCopy):
    key=('Z_Q::Z_Q(Z_Q)',); aliases=((),)
@contract
class ZSetzero(ZBase):
    key='Z_Q::setzero()'; modifies=('this',)
    def post(s,x):
        out=[('value is zero',eq(x.V('this','new'),0))]
        try: D=limbs(x.at('this',('data',),'new'))
        except Exception: return out      # callers that see big integers by value
        return out+[('every limb is zero',x.forall('this',('data',),lambda j: eq(sel(D,j),0)))]
@contract
class ZClutter(ZBase):
    key='Z_Q::remove_clutter()'; modifies=('this',)
    def post(s,x):
        v=x.V('this','new')
        return [('congruent',Cong(v,x.V('this'),Q(x))),('canonical',canon(v,Q(x)))]
def ex(x,v,y):
    """consequence of the congruence and of canonicity, spelled out for callers that ask for it"""
    if x.mode=='prove' or not getattr(x.E.top,'exactops',False): return []
    return [('no wrap-around',implies(land(le(0,y),lt(y,Q(x))),eq(v,y)))]
@contract
class ZAdd(ZBase):
    key='Z_Q::operator+=(Z_Q)'; modifies=('this',); aliases=((),(('this','A'),))
    def post(s,x):
        v=x.V('this','new')
        return [('sum modulo 2^LOGQ',Cong(v,add(x.V('this'),x.V('A')),Q(x))),('canonical',canon(v,Q(x)))]+ex(x,v,add(x.V('this'),x.V('A')))
@contract
class ZNeg(ZBase):
    key='Z_Q::negate()'; modifies=('this',)
    def post(s,x):
        v=x.V('this','new')
        o=x.V('this')
        return [('negative modulo 2^LOGQ',Cong(v,mul(-1,o),Q(x))),('canonical',canon(v,Q(x))),
                ('exact for a canonical operand',implies(lt(o,Q(x)),eq(v,ite(eq(o,0),0,sub(Q(x),o)))))]
@contract
class ZSub(ZBase):
    key='Z_Q::operator-=(Z_Q)'; modifies=('this',); aliases=((),(('this','A'),))
    def post(s,x):
        v=x.V('this','new')
        return [('difference modulo 2^LOGQ',Cong(v,sub(x.V('this'),x.V('A')),Q(x))),('canonical',canon(v,Q(x)))]+ex(x,v,sub(x.V('this'),x.V('A')))

def mulinvs(ctx,n):
    """candidates D + Hi == a*D0 prefix (mod B(n)) for pairs of arrays and an integer multiplier"""
    E=ctx.E; ent=ctx.entry
    las=[(nm,loc) for nm,loc,_ in limb_arrays(ctx) if any(loc==a for a in ctx.arrays)]
    ms=[]
    for nm,lv in list(ctx.env.items()):
        try: c=E.rawload(ent,lv) if isinstance(lv,LV) else Leaf(lv.t,lv.v)
        except Exception: continue
        if isinstance(c,Leaf) and c.t[0]=='i' and c.t==ULONG and c.v is not None and not any(nm==k for k in ()): ms.append((nm,c.v))
    for nm,c in ctx.x.old.items():
        if isinstance(c,Leaf) and c.t==ULONG and not any(same(c.v,v) for _,v in ms): ms.append((nm,c.v))
    for dn,dl in las:
        D0=arrv(E,ent,dl)
        for hn,hl in las:
            if hl==dl: continue
            for an,a in ms:
                def g(st,t,dl=dl,hl=hl,a=a,D0=D0):
                    D=arrv(E,st,dl); H=arrv(E,st,hl)
                    return Cong(add(val(D,n),val(H,add(t,1))),add(mul(a,val(D0,t)),sub(val(D0,n),val(D0,t))),B(n))
                yield (f'mul:{dn}+{hn}={an}*{dn}0',g)

@contract
class WMul(Contract):
    key='mul(u64,u64,u64,u64)'; modifies=('lo','hi')
    def post(s,x): return [('128-bit product',eq(add(x.n('lo','new'),mul(2**64,x.n('hi','new'))),mul(x.n('a'),x.n('b'))))]
@contract
class ZMulW(ZBase):
    key='Z_Q::operator*=(u64)'; modifies=('this',)
    def post(s,x):
        v=x.V('this','new')
        return [('product by a word modulo 2^LOGQ',Cong(v,mul(x.n('a'),x.V('this')),Q(x))),('canonical',canon(v,Q(x)))]+ex(x,v,mul(x.n('a'),x.V('this')))
    def invs(s,ctx):
        yield from mulinvs(ctx,nl(ctx.x))
        yield from super().invs(ctx)

def shiftinvs(ctx,n):
    E=ctx.E; ent=ctx.entry
    las=limb_arrays(ctx)
    ints=[]
    for nm,lv in list(ctx.env.items()):
        try: c=E.rawload(ent,lv) if isinstance(lv,LV) else Leaf(lv.t,lv.v)
        except Exception: continue
        if isinstance(c,Leaf) and c.t[0]=='i' and c.v is not None and not any(c is x for x in ()) : ints.append((nm,c.v))
    for dn,dl in [(a,l) for a,l,_ in las if any(l==q for q in ctx.arrays)]:
        for sn,sl in [(a,l) for a,l,_ in las]:
            S0=arrv(E,ent,sl)
            if S0 is None: continue
            for an,i in ints:
                if conc(i) and not(0<=i<=64): continue
                def dn_(st,t,dl=dl,i=i,S0=S0):
                    D=arrv(E,st,dl)
                    return eq(sub(val(D,n),val(D,sub(n,t))),mul(B(i),sub(val(S0,sub(n,i)),val(S0,sub(sub(n,t),i)))))
                def up_(st,t,dl=dl,i=i,S0=S0):
                    D=arrv(E,st,dl)
                    return eq(val(D,t),mul(B(i),val(S0,sub(t,i))))
                yield (f'shdn:{dn}<-{sn}:{an}',dn_)
                if sl!=dl: yield (f'shup:{dn}<-{sn}:{an}',up_)
@contract
class ZMul(ZBase):
    key='Z_Q::operator*=(Z_Q)'; modifies=('this',); aliases=((),(('this','B'),)); valsplit=True
    def post(s,x):
        v=x.V('this','new')
        return [('product modulo 2^LOGQ',Cong(v,mul(x.V('this'),x.V('B')),Q(x))),('canonical',canon(v,Q(x)))]
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; n=nl(x)
        Tv=x.V('this'); Ba=limbs(x.at('B',('data',)))
        mod=[(nm,loc) for nm,loc,_ in limb_arrays(ctx) if any(loc==a for a in ctx.arrays)]
        for dn,dl in mod:
            def g(st,t,dl=dl):
                v=val(arrv(E,st,dl),n)
                return [Cong(v,mul(Tv,val(Ba,t)),Q(x))]
            def g2(st,t,dl=dl):
                v=val(arrv(E,st,dl),n)
                return [lt(v,Q(x))]
            yield (f'prod:{dn}',g); yield (f'canon:{dn}',g2)
        yield from shiftinvs(ctx,n)

@contract
class ZHalf(ZBase):
    key='Z_Q::is_bigger_than_halfQ()'
    def pre(s,x): return [('canonical',lt(x.V('this'),Q(x)))]
    def post(s,x):
        b=x.ret if isz(x.ret) and z3.is_bool(x.ret) or isinstance(x.ret,bool) else (Z(x.ret)!=0)
        return [('true exactly for the upper half',eq(b,le(Q(x),mul(2,x.V('this')))))]
@contract
class ZLen(ZBase):
    key='Z_Q::get_length()'; inline=True
    def post(s,x): return [('number of limbs',eq(x.ret,nl(x)))]

# ------------------------------------------------------------------ shifts
def shiftT(frbig):
    """LOGQsmall=64m+r, LOGQbig=LOGQsmall+64q+s; cases on s and r+s"""
    out=[]
    for nm in ('s=0,q>=1','s=q=0','0<s<64,r+s<=64','0<s<64,r+s>64'):
        m=REG.fresh('m',IntS,rng=(0,2**20)); r=REG.fresh('r',IntS,rng=(1,64))
        if nm=='s=q=0': q=0; s=0
        elif nm[0:3]=='s=0': q=norm(REG.fresh('q',IntS,rng=(0,2**20))+1); setiv(q,1,2**20+1); s=0
        else: q=REG.fresh('q',IntS,rng=(0,2**20)); s=REG.fresh('s',IntS,rng=(1,63))
        f=[]
        if isz(s):
            lo,hi=(2,64) if '<=' in nm else (65,127)
            rs=norm(r+s); setiv(rs,lo,hi); setiv(norm(r+s+63),lo+63,hi+63); setiv(norm(r+s-1),lo-1,hi-1)
            f=[rs>=lo,rs<=hi]
            if hi==64: f.append(Z(P2(rs))<=2**64)      # lemma P2: r+s<=64
            else: f.append(Z(P2(rs))>2**64)
        small=norm(64*m+r); big=norm(add(add(64*m,mul(64,q)),add(r,s)))
        out.append((nm,{'LOGQfr':big if frbig else small,'LOGQto':small if frbig else big,'__f':f,'__d':norm(add(mul(64,q),s))}))
    return out
class Shift(ZBase):
    modifies=('B',); fr=None; valmono=1
    def templ(s): return shiftT(s.fr)
    def tfacts(s,T): return T['__f']
    def dynT(s,tl,rng):
        for _ in range(200):
            m=rng.choice([0,1,2]); r=rng.choice([1,64,rng.randint(1,64)])
            if tl==0: d=64*rng.choice([1,2])
            elif tl==1: d=0
            else: d=64*rng.choice([0,1,2])+rng.randint(1,63)
            sm=64*m+r
            if tl>=2 and ((r+d%64<=64)!=(tl==2)): continue
            return {'LOGQfr':sm+d if s.fr else sm,'LOGQto':sm if s.fr else sm+d,'__f':[],'__d':d}
    def dynfix(s,x,rng): pass
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; ent=ctx.entry
        las=[(nm,loc,T) for nm,loc,T in limb_arrays(ctx)]
        mod=[(nm,loc,T) for nm,loc,T in las if any(loc==a for a in ctx.arrays)]
        d=x.T['__d']; q=E.idiv(d,64); s_=E.imod(d,64)
        for dn,dl,Ld in mod:
            n=E.zlimbs(Ld)
            D0=arrv(E,ent,dl)
            for sn,sl,_ in las:
                S=arrv(E,ent,sl)
                if S is None or sl==dl: continue
                # D[i]=S[i+q]
                def g(st,t,dl=dl,S=S): return eq(mul(B(q),val(arrv(E,st,dl),t)),sub(val(S,add(q,t)),val(S,q)))
                if s.fr: yield f'cpdn:{dn}<-{sn}',g
                def gf(st,t,dl=dl,S=S): return eq(val(arrv(E,st,dl),t),val(S,t))
                yield f'cp:{dn}<-{sn}',gf
                # D[i+q]=S[i]
                def g2(st,t,dl=dl,S=S):
                    D=arrv(E,st,dl); return eq(sub(val(D,add(q,t)),val(D,q)),mul(B(q),val(S,t)))
                if not s.fr: yield f'cpup:{dn}<-{sn}',g2
                if False: pass
            def gz(st,t,dl=dl): return eq(val(arrv(E,st,dl),t),0)
            yield f'zero:{dn}',gz
            def gk(st,t,dl=dl,D0=D0,n=n): 
                D=arrv(E,st,dl)
                return eq(sub(val(D,add(q,t)),val(D,t)),0) if False else eq(sub(val(D,n),val(D,t)),sub(val(D0,n),val(D0,t)))
            yield f'tailkeep:{dn}',gk
            for _,_,L2 in las if not s.fr else ():
                n2=add(q,E.zlimbs(L2))
                if same(norm(n2) if isz(n2) else n2,n): continue
                def gk2(st,t,dl=dl,D0=D0,n2=n2):
                    D=arrv(E,st,dl)
                    return eq(sub(val(D,n2),val(D,t)),sub(val(D0,n2),val(D0,t)))
                yield f'tailkeep2:{dn}:{L2 is Ld}',gk2
            def gh(st,t,dl=dl,D0=D0): return eq(val(arrv(E,st,dl),q),val(D0,q))
            if not s.fr: yield f'headkeep:{dn}',gh
            for cl,ty in ctx.scalars:
                if ty!=ULONG: continue
                e0=EG_get(E,ent,cl)
                if e0 is None: continue
                for n_,tag in ((n,'n'),):
                    def gr(st,t,dl=dl,cl=cl,e0=e0,D0=D0,n=n_):
                        D=arrv(E,st,dl); e=EG_get(E,st,cl)
                        return eq(add(mul(2**64,mul(P2(s_),sub(val(D,n),val(D,sub(n,t))))),mul(P2(s_),mul(e,B(sub(n,t))))),
                                  add(mul(2**64,sub(val(D0,n),val(D0,sub(n,t)))),mul(P2(s_),mul(e0,B(n)))))
                    if s.fr: yield f'rsh:{dn}:{nmof(cl)}',gr
                    for sn,sl,_ in las:
                        S=arrv(E,ent,sl)
                        if S is None or sl==dl or not s.fr or same(s_,0): continue
                        def gs(st,t,dl=dl,cl=cl,e0=e0,S=S,n=n_):
                            D=arrv(E,st,dl); e=EG_get(E,st,cl)
                            return eq(mul(B(q),add(mul(2**64,mul(P2(s_),sub(val(D,n),val(D,sub(n,t))))),mul(P2(s_),mul(e,B(sub(n,t)))))),
                                  add(mul(2**64,sub(val(S,add(q,n)),val(S,add(q,sub(n,t))))),mul(B(q),mul(P2(s_),mul(e0,B(n))))))
                        yield f'rshS:{dn}<-{sn}:{nmof(cl)}',gs
                        def gb(st,t,cl=cl,S=S,n=n_):
                            return Cong(mul(P2(s_),EG_get(E,st,cl)),mul(2**64,sel(S,nrm(add(q,sub(n,t))))),mul(2**64,P2(s_)),guard=le(1,t))
                        yield f'bit:{dn}<-{sn}:{nmof(cl)}',gb
                def gm(st,t,cl=cl):
                    return Cong(EG_get(E,st,cl),0,P2(sub(64,s_)))
                yield f'hi:{nmof(cl)}',gm
                def gm2(st,t,cl=cl): return le(EG_get(E,st,cl),sub(2**64,P2(sub(64,s_))))
                yield f'hile:{nmof(cl)}',gm2
                def gl(st,t,cl=cl): return lt(EG_get(E,st,cl),P2(s_))
                yield f'lo:{nmof(cl)}',gl
                def gL(st,t,dl=dl,cl=cl,D0=D0,e0=e0):
                    D=arrv(E,st,dl); e=EG_get(E,st,cl)
                    return eq(add(sub(val(D,add(q,t)),val(D,q)),mul(e,B(add(q,t)))),add(mul(P2(s_),sub(val(D0,add(q,t)),val(D0,q))),mul(e0,B(q))))
                if not s.fr: yield f'lsh:{dn}:{nmof(cl)}',gL
        yield from carry_invs(ctx,[],nl(x,x.T['LOGQto']),None)
def shrpost(x,a,v):
    Qt=P2(x.T['LOGQto']); d=sub(x.T['LOGQfr'],x.T['LOGQto'])
    if isz(d): d=norm(d)
    if same(d,0): return [('equal sizes: copy',eq(v,a))]
    h=P2(sub(d,1)); D=P2(d)
    w=ite(le(P2(x.T['LOGQfr']),add(a,h)),1,0)       # the rounding carries out of the top
    u=add(v,mul(w,Qt))
    return [('canonical',canon(v,Qt)),
            ('rounded quotient modulo 2^LOGQto',[le(mul(D,u),add(a,h)),lt(add(a,h),mul(D,add(u,1)))]),
            ('2^d times the result is the operand up to rounding',Cong(mul(D,v),a,P2(x.T['LOGQfr']),rng=(sub(1,h),h),wit=sub(mul(D,u),a)))]
@contract
class ShR(Shift):
    key='shift_right(Z_Q,Z_Q)'; fr=True
    def pre(s,x): return [('canonical',lt(x.V('A'),P2(x.T['LOGQfr'])))]
    def post(s,x): return shrpost(x,x.V('A'),x.V('B','new'))
@contract
class ShL(Shift):
    key='shift_left(Z_Q,Z_Q)'; fr=False
    def pre(s,x): return [('canonical',lt(x.V('A'),P2(x.T['LOGQfr'])))]
    def post(s,x): return [('multiplied by 2^d',eq(x.V('B','new'),mul(P2(sub(x.T['LOGQto'],x.T['LOGQfr'])),x.V('A'))))]

# ------------------------------------------------------------------ signed resize
def resT():
    out=[]
    for nm in ('more limbs','same limbs','fewer limbs'):
        m=REG.fresh('m',IntS,rng=(0,2**20)); r=REG.fresh('r',IntS,rng=(1,64)); r2=REG.fresh('r',IntS,rng=(1,64))
        d=0 if nm=='same limbs' else REG.fresh('d',IntS,rng=(1,2**20))
        a,b=64*m+r,norm(add(64*m,add(mul(64,d),r2)))
        if nm=='fewer limbs': a,b=norm(add(64*m,add(mul(64,d),r))),norm(64*m+r2)
        out.append((nm,{'LOGQfrom':norm(a) if isz(a) else a,'LOGQto':norm(b) if isz(b) else b}))
    return out
def copyinvs(ctx,n):
    """D[0..t) copied from a source array, the rest unchanged"""
    E=ctx.E; ent=ctx.entry
    las=[(nm,loc,T) for nm,loc,T in limb_arrays(ctx)]
    for dn,dl,_ in [q for q in las if any(q[1]==a for a in ctx.arrays)]:
        D0=arrv(E,ent,dl)
        if D0 is not None:
            def gk(st,t,dl=dl,D0=D0):
                D=arrv(E,st,dl); return eq(sub(val(D,n),val(D,t)),sub(val(D0,n),val(D0,t)))
            yield f'tailkeep:{dn}',gk
        for sn,sl,_ in las:
            S=arrv(E,ent,sl)
            if S is None or sl==dl: continue
            yield f'cp:{dn}<-{sn}',lambda st,t,dl=dl,S=S: eq(val(arrv(E,st,dl),t),val(S,t))
            yield f'tot:{dn}<-{sn}',lambda st,t,dl=dl,S=S: eq(val(arrv(E,st,dl),n),val(S,t))
        yield f'zero:{dn}',lambda st,t,dl=dl: eq(val(arrv(E,st,dl),t),0)
def resgrow(x,a,v,Lf,Lt):
    Qf,Qt=P2(Lf),P2(Lt)
    g=le(Lf,Lt)
    if g is False: return []
    return [('growing keeps or lifts the value',implies(g,eq(v,ite(le(Qf,mul(2,a)),add(sub(a,Qf),Qt),a))))]
def centred(v,Qv): return sub(v,ite(le(Qv,mul(2,v)),Qv,0))
@contract
class ZResize(ZBase):
    key='resize(Z_Q,Z_Q)'; modifies=('Ato',); valsplit=True
    def templ(s): return resT()
    def pre(s,x): return [('canonical',lt(x.V('Afrom'),P2(x.T['LOGQfrom'])))]
    def post(s,x):
        v=x.V('Ato','new'); Qt=P2(x.T['LOGQto'])
        return [('centred value modulo 2^LOGQto',Cong(v,centred(x.V('Afrom'),P2(x.T['LOGQfrom'])),Qt)),('canonical',canon(v,Qt))]+resgrow(x,x.V('Afrom'),v,x.T['LOGQfrom'],x.T['LOGQto'])
    def invs(s,ctx):
        E=ctx.E; nf=nl(ctx.x,ctx.x.T['LOGQfrom']); nt=nl(ctx.x,ctx.x.T['LOGQto'])
        for sn,sl,L in limb_arrays(ctx):
            S=arrv(E,ctx.entry,sl)
            if S is not None and same(E.zlimbs(L),nf) and not same(nf,nt): yield f'low:{sn}',lambda st,t,S=S: Cong(val(S,nf),val(S,nt),B(nt))
        yield from copyinvs(ctx,nt)
