"""C04, C06, C19: residue number system, products through it"""
from contract import *
from zq import *
from word import MODN, DIVN, modn, n_
from poly import PC, nat
import zq, core
# HIV(a,lo,n) = sum_{l=lo}^{n-1} a[l] 2^(64(l-lo)): the number formed by the limbs from lo on; HIV(a,0,n)=VAL(a,n) (lean/Lemmas.lean: hiv_zero)
HIV=z3.Function('HIV',ArrS(IntS),IntS,IntS,IntS)
def hiv(a,lo,n):
    if isinstance(a,tuple): return sum(x<<(64*i) for i,x in enumerate(a[lo:n]))
    return HIV(a,n_(lo),n_(n))
def hivhook(t):
    a,lo,n=[t.arg(i) for i in range(3)]; out=[z3.Implies(lo>=n,t==0)]
    p=poly(lo)
    if p.isconst() and p.cval()==0: out.append(Z(eq(t,val(a,n))))
    for o in list(_hiv.values()):
        if o.eq(t) or not(o.arg(0).eq(a) and o.arg(2).eq(n)): continue
        for u,v in ((t,o),(o,t)):
            d=cdiff(u.arg(1),v.arg(1))
            if d==-1: out.append(z3.Implies(u.arg(1)<n,u==sel(a,u.arg(1))+2**64*v))
            elif d is None: out.append(z3.Implies(z3.And(u.arg(1)<n,v.arg(1)==u.arg(1)+1),u==sel(a,u.arg(1))+2**64*v))
    out.append(z3.Implies(z3.And(lo>=0,lo<=n),Z(eq(val(a,n),add(val(a,lo),mul(B(lo),t))))))   # lean/Lemmas.lean: hiv_split
    out.append(t>=0)
    _hiv[eid(t)]=t
    return out
_hiv={}
solve.HOOKS['HIV']=hivhook; solve.RESETS.append(_hiv.clear)
def resid(x,r,v,m):
    """postcondition r = v mod m; callers also get it by name (uniqueness)"""
    return [Cong(r,v,m),le(0,r),lt(r,m)]+([eq(r,modn(v,m))] if x.mode=='assume' else [])
def qpos(x,n,path,lo=1):
    q=x.arr(n,'old',path); return x.forall(n,path,lambda j:[le(lo,sel(q,j))],w='old')
class CrtC(Contract):
    exitinst=True
    def templ(s): return [('any L, LOGQ',{'L':nat('L',1,2**10),'LOGQ':logq()})]
    def qpos(s,x,lo=1): 
        q=x.arr('this','old',('q',)); return x.forall('this',('q',),lambda j:[le(lo,sel(q,j))],w='old')
@contract
class Icrt(CrtC):
    key='CRT::icrt(Z_Q,u64*)'; modifies=('a_rns',)
    def pre(s,x): return [('canonical',[le(0,x.V('A')),lt(x.V('A'),Q(x))]),('moduli positive',s.qpos(x))]
    def post(s,x):
        q=x.arr('this','old',('q',)); r=x.arr('a_rns','new'); A=centred(x.V('A'),Q(x))
        return [('residue of the signed value',x.forall('a_rns',(),lambda j:resid(x,sel(r,j),A,sel(q,j))))]
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; n=nl(x); q=x.arr('this','old',('q',))
        las=[(nm,arrv(E,ctx.entry,loc)) for nm,loc,_ in limb_arrays(ctx)]
        las=[(nm,a) for nm,a in las if a is not None and not isinstance(a,tuple) and a.sort()==ArrS(IntS)]
        iv_=[(nm,v) for nm,v in outer(ctx)]
        for cl,ty in ctx.scalars:
            if ty[0]!='i': continue
            for nm,a in las:
                for im,i in iv_:
                    yield f'horner:{nmof(cl)}:{nm}:{im}',lambda st,t,cl=cl,a=a,i=i:[Cong(EG_get(E,st,cl),hiv(a,sub(n,t),n),sel(q,i)),le(0,EG_get(E,st,cl)),lt(EG_get(E,st,cl),sel(q,i))]
def outer(ctx):
    E=ctx.E; st=ctx.entry; out=[]
    for r,c in st.store.items():
        if isinstance(c,Leaf) and c.t[0]=='i' and c.v is not None and not any(r==m[0] for m in ctx.mods): out.append((r,c.v))
    return out

@contract
class CmpGe(ZBase):
    key='cmpge(Z_Q,Z_Q)'; exitinst=True
    def post(s,x): return [('true exactly for A >= B',eq(asbool(x.ret),le(x.V('B'),x.V('A'))))]
    def invs(s,ctx):
        x=ctx.x; n=nl(x); a=limbs(x.old['A'].f['data']); b=limbs(x.old['B'].f['data'])
        yield 'equal so far',lambda st,t: eq(hiv(a,sub(n,t),n),hiv(b,sub(n,t),n))
def asbool(v): return v if isinstance(v,bool) or isz(v) and z3.is_bool(v) else (Z(v)!=0)
# CRS(a,v,O,k) = sum_{i<k} a_i v_i O_i
CRS=z3.Function('CRS',ArrS(IntS),ArrS(IntS),ArrS(IntS),IntS,IntS)
def crs(a,v,O,k):
    k=n_(k)
    return CRS(a,v,O,k)
def crshook(t):
    a,v,O,k=[t.arg(i) for i in range(4)]; out=[z3.Implies(k<=0,t==0)]
    p=poly(k); k1=norm(sub(k,1))
    if p.isconst() and p.cval()<=0 : return out
    if p.cval()>=1: out.append(z3.Implies(k>=1,t==CRS(a,v,O,Z(k1))+sel(a,k1)*sel(v,k1)*sel(O,k1)))
    return out
solve.HOOKS['CRS']=crshook
# CEN(S,m) = the number congruent to S modulo m with -m < 2 CEN < m, m odd (lean/Lemmas.lean: cen_unique)
CEN=z3.Function('CEN',IntS,IntS,IntS)
def rnspre(s,x,th='this',path=()):
    q=x.arr(th,'old',path+('q',)); O=x.arr(th,'old',path+('Q_over_q',)); v=x.arr(th,'old',path+('inv_mod_Q_over_q',)); QQ=x.V(th,'old',path+('Q',)); L=x.T['L']
    f=lambda j:[le(2,sel(q,j)),le(1,sel(O,j)),eq(mul(sel(q,j),sel(O,j)),QQ)]
    return [('each cofactor times its modulus is Q',x.forall(th,path+('q',),f,w='old')),('cofactors',x.forall(th,path+('Q_over_q',),f,w='old')),
            ('inverses',x.forall(th,path+('inv_mod_Q_over_q',),lambda j:[Cong(mul(sel(v,j),sel(O,j)),1,sel(q,j))],w='old')),
            ('Q is the product',eq(QQ,PQ(q,n_(L)))),('Q below 2^(64 L)',[lt(0,QQ),lt(QQ,B(L))]),('Q odd: the number of least absolute value is unique',Cong(QQ,1,2))]
@contract
class Crt(Contract):
    key='CRT::crt(u64*,Z_Q)'; zq='V'; rq='coef'; exactops=True; modifies=('A',); dyn=False; exitinst=True; satfirst=True
    def templ(s): return [('any L<=1024, any LOGQ',{'L':nat('L',1,2**10),'LOGQ':logq()})]
    def S(s,x): return crs(x.arr('a_rns'),x.arr('this','old',('inv_mod_Q_over_q',)),x.arr('this','old',('Q_over_q',)),x.T['L'])
    def pre(s,x): return rnspre(s,x)
    def post(s,x):
        QQ=x.V('this','old',('Q',)); A=x.V('A','new')
        if x.mode=='prove': s.steps(x,QQ)
        ghost=[]
        if x.mode=='assume' and hasattr(x.E.top,'crtX'):
            # any X with these residues and 2|X|<Q is the result (lean/Lemmas.lean: crt_unique); w = a modulus whose residue differs, if there is one
            X=x.E.top.crtX(x); w=REG.fresh('w',IntS); L=x.T['L']; q=x.arr('this','old',('q',)); a=x.arr('a_rns')
            x.st.add(land(le(0,w),lt(w,L)))
            ghost=[('unique',implies(land(eq(sel(a,w),modn(X,sel(q,w))),land(lt(mul(-1,QQ),mul(2,X)),lt(mul(2,X),QQ))),eq(CEN(s.S(x),Z(QQ)),X)))]
        return ghost+[('residues combined, least absolute value',Cong(A,CEN(s.S(x),Z(QQ)),Q(x))),('canonical',canon(A,Q(x)))]
    def steps(s,x,QQ):
        """instances of: v = S - k m, 0 <= v < m  =>  CEN(S,m) = v if 2v<m, v-m if 2v>m"""
        E=x.E; S=s.S(x)
        for r,c in list(x.st.store.items()):
            if isinstance(c,Leaf) and c.t[0]=='Z' and isz(c.v):
                q=E.prove(x.st,Cong(c.v,S,QQ),6000)
                if q.ok:
                    C=CEN(S,Z(QQ)); two=mul(2,c.v)
                    if E.prove(x.st,lnot(eq(two,QQ)),3000).ok: x.st.add(implies(land(le(0,c.v),lt(c.v,QQ)),eq(C,ite(lt(two,QQ),c.v,sub(c.v,QQ)))))
    def lem(s,key,x):
        """0 <= c < q and q O = Q  =>  c O <= Q-O"""
        X=x.E.x
        if key=='mul_mod(u64,u64,u64)' and isz(x.n('q')) and k_(x.n('q'))==z3.Z3_OP_SELECT: s.j=x.n('q').arg(1)
        if key in('Z_Q::operator+=(Z_Q)','Z_Q::operator*=(u64)') and not x.E.dry:
            e=eq(x.V('this','new'),add(x.V('this'),x.V('A')) if key[13]=='+' else mul(x.V('this'),x.n('a')))
            if key[13]=='+': return [e] if x.E.prove(x.st,e,3000).ok else []
        if key!='Z_Q::operator*=(u64)' or s.j is None or x.E.dry: return []
        v=x.V('this'); QQ=X.V('this','old',('Q',)); a=x.n('a'); qj=sel(X.arr('this','old',('q',)),s.j)
        O=sel(X.arr('this','old',('Q_over_q',)),s.j); y=mul(sel(X.arr('a_rns'),s.j),sel(X.arr('this','old',('inv_mod_Q_over_q',)),s.j))
        pr=lambda f: x.E.prove(x.st,f,3000).ok
        out=[implies(land(le(0,a),lt(a,qj),le(0,O),eq(mul(qj,O),QQ)),le(mul(a,O),sub(QQ,O)))]
        for f in out: x.st.add(Z(f))
        # c = y + m q and q O = Q  =>  c O = y O + m Q
        if pr(eq(v,O)) and pr(Cong(a,y,qj)) and pr(eq(mul(qj,O),QQ)): out+=[eq(v,O),Cong(mul(a,v),mul(y,v),QQ),Cong(mul(a,v),mul(y,O),QQ)]
        if pr(eq(v,O)):
            x.st.add(Z(eq(v,O)))
            if pr(e): out.append(e)
        return out
    j=None
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; QQ=x.V('this','old',('Q',)); L=x.T['L']
        a=x.arr('a_rns'); v=x.arr('this','old',('inv_mod_Q_over_q',)); O=x.arr('this','old',('Q_over_q',))
        yield 'multiples of Q',lambda st,t: le(mul(t,QQ),mul(2**10,QQ))
        for loc,ty in ctx.scalars:
            if ty[0]!='Z': continue
            yield 'combination:'+nmof(loc),lambda st,t,loc=loc:[Cong(EG_get(E,st,loc),crs(a,v,O,t),QQ)]
            yield 'range:'+nmof(loc),lambda st,t,loc=loc:[le(0,EG_get(E,st,loc)),le(EG_get(E,st,loc),mul(t,QQ))]
            v0=EG_get(E,ctx.entry,loc)
            if v0 is None: continue
            yield 'modulo Q:'+nmof(loc),lambda st,t,loc=loc,v0=v0:[eq(EG_get(E,st,loc),sub(v0,mul(t,QQ))),le(0,EG_get(E,st,loc))]
# PQ(q,k) = prod_{i<k} q_i,  PX(q,i,k) = prod_{j<k, j!=i} q_j   (entries in [1,2^64): lean/Lemmas.lean: pq_bound, px_bound, px_pq)
PQ=z3.Function('PQ',ArrS(IntS),IntS,IntS); PX=z3.Function('PX',ArrS(IntS),IntS,IntS,IntS)
def pqhook(t):
    q,k=t.arg(0),t.arg(1); k1=norm(sub(k,1)); out=[z3.Implies(k<=0,t==1),t>=1,z3.Implies(k>=0,t<=Z(B(k))),z3.Implies(k>=1,t<Z(B(k)))]
    if poly(k).cval()>=1: out.append(z3.Implies(k>=1,Z(eq(t,mul(PQ(q,Z(k1)),sel(q,k1))))))
    return out
def pxhook(t):
    q,i,k=t.arg(0),t.arg(1),t.arg(2); k1=norm(sub(k,1)); out=[z3.Implies(k<=0,t==1),t>=1,z3.Implies(k>=0,t<=Z(B(k)))]
    if poly(k).cval()>=1:
        p=PX(q,i,Z(k1)); d=cdiff(i,k1)
        if d!=0: out.append(z3.Implies(z3.And(k>=1,i!=k1),Z(eq(t,mul(p,sel(q,k1))))))
        if d in(0,None): out.append(z3.Implies(z3.And(k>=1,i==k1),t==p))
    return out
solve.HOOKS['PQ']=pqhook; solve.HOOKS['PX']=pxhook
# UNIT(a,q): q is prime and does not divide a. Then b = a mod q implies a b^(q-2) = 1 mod q (lean/Lemmas.lean: fermat_inv)
UNIT=z3.Function('UNIT',IntS,IntS,BoolS)
from word import POW
def rnsconst(x,th,w,f):
    L=x.T['L']
    return [(n,x.forall(th,(p,),f,w=w)) for n,p in (('inverses modulo q',('inv_mod_Q_over_q')),)]
def px(q,i,k): return PX(q,n_(i),n_(k))
@contract
class CrtCtor(Contract):
    key='CRT::CRT(u64*)'; zq='V'; rq='coef'; exactops=True; modifies=('this',); dyn=False; exitinst=True; satfirst=True
    def templ(s): return [('any L<=1024, any LOGQ',{'L':nat('L',1,2**10),'LOGQ':logq()})]
    def pre(s,x):
        q=x.arr('q'); L=x.T['L']
        return [('distinct primes',x.forall('q',(),lambda j:[le(2,sel(q,j)),UNIT(px(q,j,L),sel(q,j))],0,L,w='old'))]
    def post(s,x):
        q=x.arr('q'); L=x.T['L']; Q2=x.arr('this','new',('q',)); O=x.arr('this','new',('Q_over_q',)); v=x.arr('this','new',('inv_mod_Q_over_q',))
        return [('Q is the product of the moduli',eq(x.V('this','new',('Q',)),PQ(q,n_(L)))),
                ('moduli kept',x.forall('this',('q',),lambda j:[eq(sel(Q2,j),sel(q,j))])),
                ('cofactors',x.forall('this',('Q_over_q',),lambda j:[eq(sel(O,j),px(q,j,L))])),
                ('inverses',x.forall('this',('inv_mod_Q_over_q',),lambda j:[Cong(mul(sel(v,j),px(q,j,L)),1,sel(q,j)),le(0,sel(v,j)),lt(sel(v,j),sel(q,j))]))]
    def lem(s,key,x):
        if x.E.dry: return []
        X=x.E.x; q=X.arr('q'); L=X.T['L']; pr=lambda f: x.E.prove(x.st,f,3000).ok
        if key=='Z_Q::operator*=(u64)':
            e=eq(x.V('this','new'),mul(x.V('this'),x.n('a'))); return [e] if pr(e) else []
        if key=='inv_mod(u64,u64)' and isz(x.n('q')) and k_(x.n('q'))==z3.Z3_OP_SELECT:
            j=x.n('q').arg(1); b=px(q,j,L)
            if pr(Cong(x.n('a'),b,sel(q,j))) and pr(UNIT(b,sel(q,j))): return [Cong(mul(x.ret,b),1,sel(q,j))]
        return []
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; q=x.arr('q')
        for loc,ty in ctx.scalars:
            i=[k for _,k in loc[1] if not isinstance(k,str)]
            ii=[v for nm,v in outer(ctx)]
            if ty[0]=='Z':
                yield 'product:'+nmof(loc),lambda st,t,loc=loc:[eq(EG_get(E,st,loc),PQ(q,n_(t)))]
                for w in i: yield 'product without:'+nmof(loc),lambda st,t,loc=loc,w=w:[eq(EG_get(E,st,loc),px(q,w,t))]
            if ty[0]=='i':
                for w in ii: yield f'residue:{nmof(loc)}:{w}',lambda st,t,loc=loc,w=w:[Cong(EG_get(E,st,loc),px(q,w,t),sel(q,w)),le(0,EG_get(E,st,loc)),lt(EG_get(E,st,loc),2**64)]
    def arraylen(s,E,p,T): return T['L']
