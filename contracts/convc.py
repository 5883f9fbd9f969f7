"""C06, C19: polynomial products through the residue number system"""
from contract import *
from zq import canon, Q, logq, centred
from poly import PC, nat, ncp, ternary, NCP
from crtc import *
import zq, core, poly as polym
def arr2(x,n,w='old',path=()):
    c=x.at(n,path,w)
    while isinstance(c,SA): c=c.tree
    return c.v
def sel2(a,i,j): return sel(sel(a,i),j)
def forall2(x,n,f,d1,d2,w='new',path=()):
    a=arr2(x,n,w,path)
    i=z3.FreshInt('i'); j=z3.FreshInt('j'); eid(i); eid(j)
    g1=land(le(0,i),lt(i,d1)); g2=land(le(0,j),lt(j,d2)); fs=aslist(f(i,j))
    if x.mode=='prove': return [('forall',i,g1,[('forall',j,g2,fs)])]
    return [QFact(a.decl().name(),[],[i,j],[Z(b) for b in fs],land(g1,g2))]
class VC(PC):
    satfirst=True; exitinst=True
    def templ(s): return [('any L<=1024, LOGQ, N',{'L':nat('L',1,2**10),'LOGQ':logq(),'N':nat()})]
    def arraylen(s,E,p,T): return T['L']
@contract
class VIcrt(VC):
    key='CONV::icrt_polynomial(R_Q,u64**)'; modifies=('A_rns',)
    def pre(s,x): return [('canonical',core.canonP(x,'A',('coeff',),'LOGQ')),('moduli positive',qpos(x,'this',('crt','q')))]
    def post(s,x):
        R=arr2(x,'A_rns','new'); A=x.arr('A','old',('coeff',)); q=x.arr('this','old',('crt','q'))
        return [('residues of the signed coefficients',forall2(x,'A_rns',lambda l,i: [eq(sel2(R,l,i),modn(centred(sel(A,i),Q(x)),sel(q,l)))],x.T['L'],x.T['N']))]
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; A=x.arr('A','old',('coeff',)); q=x.arr('this','old',('crt','q')); L=x.T['L']
        for loc in ctx.arrays:
            c=E.get(ctx.entry,ctx.entry.store[loc[0]],loc[1])
            if not(isinstance(c,SA) and isinstance(c.tree,SA)): continue
            def cols(st,t,loc=loc):
                a=E.get(st,st.store[loc[0]],loc[1]).tree.tree.v
                if k_(a)!=z3.Z3_OP_UNINTERPRETED: d=a
                l=z3.FreshInt('l'); i=z3.FreshInt('i'); eid(l); eid(i)
                return qf2(a,l,i,[eq(sel2(a,l,i),modn(centred(sel(A,i),Q(x)),sel(q,l)))],land(land(le(0,l),lt(l,L)),land(le(0,i),lt(i,t))))
            yield 'columns:'+nmof(loc),cols
def qf2(a,l,i,body,g):
    if isz(a) and k_(a)==z3.Z3_OP_UNINTERPRETED: return QFact(a.decl().name(),[],[l,i],[Z(b) for b in body],g)
    return QFact('-',[],[l,i],[Z(b) for b in body],g)

class GX(VC):
    """ghost polynomial X whose residues are given"""
    def X(s,x): return x.T['__X'] if '__X' in x.T else x.E.top.polyX(x)
def bound(x,Xa,N,QQ):
    i=z3.FreshInt('i'); eid(i); b=[lt(mul(-1,QQ),mul(2,sel(Xa,i))),lt(mul(2,sel(Xa,i)),QQ)]; g=land(le(0,i),lt(i,N))
    if x.mode=='prove': return [('forall',i,g,b)]
    return [QFact(Xa.decl().name(),[],[i],[Z(f) for f in b],g)]
@contract
class VCrt(GX):
    key='CONV::crt_polynomial(u64**,R_Q)'; modifies=('A',)
    def templ(s): return [(l,dict(T,__X=REG.fresh('X',ArrS(IntS)))) for l,T in super().templ()]
    def pre(s,x):
        R=arr2(x,'A_rns'); Xa=s.X(x); q=x.arr('this','old',('crt','q')); QQ=x.V('this','old',('crt','Q'))
        return [(a+' (crt)',b) for a,b in rnspre(s,x,path=('crt',))]+[('residues of X',forall2(x,'A_rns',lambda l,i:[eq(sel2(R,l,i),modn(sel(Xa,i),sel(q,l)))],x.T['L'],x.T['N'],w='old')),('2|X| < Q',bound(x,Xa,x.T['N'],QQ))]
    def crtX(s,x): return sel(x.E.x.T['__X'],x.locs['A'].path[-1][1])
    def post(s,x):
        A=x.arr('A','new',('coeff',)); Xa=s.X(x)
        return [('coefficients of X modulo 2^LOGQ',x.forall('A',('coeff',),lambda i:[Cong(sel(A,i),sel(Xa,i),Q(x)),le(0,sel(A,i)),lt(sel(A,i),Q(x))]))]

# ---- number theoretic transform, as a function of the input row and the tables (what it computes: C05)
NT=z3.Function('NT',ArrS(IntS),ArrS(IntS),IntS,IntS,IntS,IntS); INT_=z3.Function('INTT',ArrS(IntS),ArrS(IntS),IntS,IntS,IntS,IntS,IntS)
# TAB(psi,ipsi,iN,q,N): psi[k] = g^rev(k), ipsi[k] = g^-rev(k), iN = 1/N modulo the prime q, g^N = -1
TAB=z3.Function('TAB',ArrS(IntS),ArrS(IntS),IntS,IntS,IntS,BoolS)
_nt=[]; solve.RESETS.append(_nt.clear)
def nthook(t):
    a,rest=t.arg(0),[t.arg(i) for i in range(1,5)]; N=rest[2]; out=[z3.Implies(rest[1]>0,z3.And(t>=0,t<rest[1]))]
    for o in list(_nt):
        if o.arg(0).eq(a) or not all(o.arg(i+1).eq(r) for i,r in enumerate(rest)): continue
        u,v=(a,o.arg(0)) if eid(a)<eid(o.arg(0)) else (o.arg(0),a)
        w=polym.DIFF(u,v,N); out+=[z3.Implies(N>=1,z3.And(w>=0,w<N)),z3.Implies(sel(u,w)==sel(v,w),t==o)]
    if not any(o.eq(t) for o in _nt): _nt.append(t)
    return out
solve.HOOKS['NT']=nthook
solve.HOOKS['INTT']=lambda t:[z3.Implies(t.arg(3)>0,z3.And(t>=0,t<t.arg(3)))]
def nt(a,psi,q,N,j): return NT(a,psi,n_(q),n_(N),n_(j))
class NttC(Contract):
    dyn=False; modifies=('a',)
    def templ(s): return [('any N',{'N':nat()})]
    def tab(s,x,th='this'):
        return TAB(x.arr(th,'old',('psi_rev',)),x.arr(th,'old',('inv_psi_rev',)),Z(x.el(th,('inv_N',))),Z(x.el(th,('q',))),n_(x.T['N']))
    def pre(s,x):
        a=x.arr('a'); q=x.el('this',('q',))
        return [('modulus at least 2',le(2,q)),('canonical',x.forall('a',(),lambda j:[lt(sel(a,j),q)],0,x.T['N'],w='old'))]
# STG(a,psi,N,m,k): entry k after the forward stages with 1,2,4,..,m/2 blocks; SIG: entry k after the inverse stages with distances 1,2,..,t/2.
# definition (2 m d = N; e = m+i with 2di <= k < 2di+d for the lower half of a block):
#   STG(1,k)=a_k;  STG(2m,k)=STG(m,k)+psi_e STG(m,k+d), STG(2m,k+d)=STG(m,k)-psi_e STG(m,k+d)
#   SIG(1,k)=a_k;  SIG(2d,k)=SIG(d,k)+SIG(d,k+d),       SIG(2d,k+d)=(SIG(d,k)-SIG(d,k+d)) ipsi_e
STG=z3.Function('STG',ArrS(IntS),ArrS(IntS),IntS,IntS,IntS,IntS); SIG=z3.Function('SIG',ArrS(IntS),ArrS(IntS),IntS,IntS,IntS,IntS)
PSIDX=[]; solve.RESETS.append(PSIDX.clear)
def stghook(t):
    nm=t.decl().name(); out=[z3.Implies(t.arg(3)==1,t==sel(t.arg(0),t.arg(4)))]
    seen=solve.SCOPE.setdefault(nm,[]); seen.append(t)
    return out+stgrel(nm,t,solve.SCOPE.setdefault(('idx',eid(t.arg(1))),[]))
def stgrel(nm,t,idx):
    """instances of the definition among the terms of this query, with t among them"""
    out=[]; a,psi,N=t.arg(0),t.arg(1),t.arg(2)
    grp=[o for o in solve.SCOPE.get(nm,[]) if o.arg(0).eq(a) and o.arg(1).eq(psi)]
    dbl=lambda M,m: Z(norm(M)).eq(Z(norm(mul(2,m))))
    def gd(m,lo_,d,e):
        b=sub(mul(mul(2,d),e),N)
        return land(lt(0,d),eq(mul(mul(2,m),d),N) if nm=='STG' else eq(d,m),le(b,lo_),lt(lo_,add(b,d)))
    for o in grp:
        for me in grp:
            if me.eq(o) or not me.arg(4).eq(o.arg(4)) or not dbl(o.arg(3),me.arg(3)): continue
            m=me.arg(3); k0=o.arg(4)
            for ot in grp:
                if ot.eq(me) or not ot.arg(3).eq(m): continue
                if t is not None and not(o.eq(t) or me.eq(t) or ot.eq(t)): continue
                k1=ot.arg(4)
                for e in list(idx)+([f for f in PSIDX[-4:] if not any(f.eq(g) for g in idx)] if nm=='SIG' else []):
                    pe=sel(psi,e)
                    d=norm(sub(k1,k0)); g=gd(m,k0,d,e)
                    if g is not False: out.append(Z(implies(g,eq(o,add(me,mul(pe,ot)) if nm=='STG' else add(me,ot)))))
                    d=norm(sub(k0,k1)); g=gd(m,k1,d,e)
                    if g is not False and any(e.eq(f) for f in idx): out.append(Z(implies(g,eq(o,sub(ot,mul(pe,me)) if nm=='STG' else mul(sub(ot,me),pe)))))
    return out
solve.HOOKS['STG']=stghook; solve.HOOKS['SIG']=stghook
class NttB(NttC):
    memo={}; solve.RESETS.append(memo.clear)
    named=True; satfirst=True; exitinst=True; norace=True
    def templ(s): 
        l=REG.fresh('l',IntS,rng=(0,17)); return [('any N=2^l, l<=17',{'N':norm(P2(l)),'__l':l})]
    def pre(s,x): return super().pre(x)+([('power of two',core.POW2N(n_(x.T['N'])))] if '__l' not in x.T else [])
    def S(s,x,M,k): return s.F(x.arr('a'),x.arr('this','old',(s.tbl,)),n_(x.T['N']),n_(M),n_(k))
    def setup(s,E,st,x):
        psi=x.arr('this','old',(s.tbl,)); nm=psi.decl().name()
        old=REG.elem.get(nm)
        def el(e,idx,fn=s.F.name()):
            L_=solve.SCOPE.setdefault(('idx',eid(psi)),[]); out=[]
            if not any(i.eq(idx[0]) for i in L_):
                L_.append(idx[0])
                if not any(i.eq(idx[0]) for i in PSIDX): PSIDX.append(idx[0])
                done=[]
                for o in solve.SCOPE.get(fn,[]):
                    if o.arg(1).eq(psi): out+=stgrel(fn,o,[idx[0]])
            return out+(old(e,idx) if old else [])
        REG.elem[nm]=el
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; N=x.T['N']; l=x.T['__l']; q=x.el('this',('q',))
        for loc,ty in ctx.scalars:
            if ty[0]!='i': continue
            v=lambda st,loc=loc: EG_get(E,st,loc)
            yield f'doubled:{nmof(loc)}',lambda st,t,v=v:[eq(v(st),P2(t)),le(t,l)]
            yield f'halved:{nmof(loc)}',lambda st,t,v=v:[implies(lt(t,l),eq(v(st),P2(norm(sub(sub(l,1),t))))),le(t,l)]
            yield f'halved from N:{nmof(loc)}',lambda st,t,v=v:[eq(v(st),P2(norm(sub(l,t)))),le(t,l)]
        ints=outer(ctx)
        for loc in ctx.arrays:
            c=E.get(ctx.entry,ctx.entry.store[loc[0]],loc[1])
            if not(isinstance(c,SA) and isinstance(c.tree,Leaf) and c.tree.t[0]=='i'): continue
            def arr(st,loc=loc): return E.get(st,st.store[loc[0]],loc[1]).tree.v
            def stage(st,M): # every entry as after the stages up to M
                k=z3.FreshInt('k'); eid(k); a=arr(st)
                return qf1(a,k,[eq(sel(a,k),modn(s.S(x,M,k),q))],land(le(0,k),lt(k,N)))
            pairs=s.pairs(E,ctx.entry,ints,N)
            yield 'stage',lambda st,t: stage(st,P2(t))
            for f in s.even(ints): yield 'even',lambda st,t,f=f: f
            for M in ints:
                for d in ints:
                    if s.memo.get(('full',id(E),eid(M[1]) if isz(M[1]) else 0,eid(d[1]) if isz(d[1]) else 0)): yield f'count:{M[0]}:{d[0]}',lambda st,t,M=M,d=d: eq(mul(mul(2,M[1]),d[1]),N)
            for sc,ty in ctx.scalars:
                if ty[0]=='i': yield f'stage:{nmof(sc)}',lambda st,t,sc=sc: stage(st,EG_get(E,st,sc))
            def part(st,M,done):
                k=z3.FreshInt('k'); eid(k); a=arr(st); g=land(le(0,k),lt(k,N)); D=done(k)
                return [qf1(a,k,[eq(sel(a,k),modn(s.S(x,mul(2,M),k),q))],land(g,D)),qf1(a,k,[eq(sel(a,k),modn(s.S(x,M,k),q))],land(g,lnot(D)))]
            for (Mn,M),(dn,d) in pairs:
                yield f'blocks:{Mn}:{dn}',lambda st,t,M=M,d=d: part(st,M,lambda k: lt(k,mul(mul(2,d),t)))
                for bn,b in ints:
                    if b is M: continue
                    yield f'butterflies:{Mn}:{dn}:{bn}',lambda st,t,M=M,d=d,b=b: part(st,M,lambda k: lor(lt(k,add(b,t)),land(le(add(b,d),k),lt(k,add(add(b,d),t)))))
            yield 'scaled',lambda st,t: s.scaled(ctx,arr,st,t)
    def even(s,ints):
        out=[]
        for _,v in ints:
            for w in ([v]+[v.arg(i) for i in range(v.num_args())] if isz(v) else []):
                if k_(w)==z3.Z3_OP_UNINTERPRETED and w.decl().name()=='P2': out.append(Z(implies(lt(1,w),eq(w,mul(2,P2(norm(sub(w.arg(0),1))))))))
        return out
    def full(s,E,st,M,d,N):
        if not(isz(M) and isz(d)): return False
        k=('full',id(E),eid(M),eid(d))
        if k not in s.memo: s.memo[k]=E.prove(st,eq(mul(mul(2,M),d),N),800).ok
        return s.memo[k]
    def scaled(s,ctx,arr,st,t): return None
@contract
class NttF(NttB):
    key='NTT::ntt(u64*)'; F=STG; tbl='psi_rev'
    def pairs(s,E,st,ints,N):
        return [(M,d) for M in ints for d in ints if M is not d and s.full(E,st,M[1],d[1],N)]
    def post(s,x):
        a=x.arr('a'); r=x.arr('a','new'); q=x.el('this',('q',)); psi=x.arr('this','old',('psi_rev',)); N=x.T['N']
        return [('transform of the input',x.forall('a',(),lambda j:[eq(sel(r,j),nt(a,psi,q,N,j) if x.mode!='prove' else modn(s.S(x,N,j),q)),le(0,sel(r,j)),lt(sel(r,j),q)],0,N))]
@contract
class NttI(NttB):
    key='NTT::intt(u64*)'; F=SIG; tbl='inv_psi_rev'
    def pairs(s,E,st,ints,N):
        st=st.copy(); st.add(*s.even(ints))
        return [(d,d) for d in ints if any(s.full(E,st,M[1],d[1],N) for M in ints if M is not d)]
    def scaled(s,ctx,arr,st,t):
        x=ctx.x; N=x.T['N']; q=x.el('this',('q',)); iN=x.el('this',('inv_N',)); k=z3.FreshInt('k'); eid(k); a=arr(st); g=land(le(0,k),lt(k,N))
        return [qf1(a,k,[eq(sel(a,k),modn(mul(s.S(x,N,k),iN),q))],land(g,lt(k,t))),qf1(a,k,[eq(sel(a,k),modn(s.S(x,N,k),q))],land(g,le(t,k)))]
    def post(s,x):
        a=x.arr('a'); r=x.arr('a','new'); q=x.el('this',('q',)); psi=x.arr('this','old',('inv_psi_rev',)); N=x.T['N']; iN=x.el('this',('inv_N',))
        f=lambda j: INT_(a,psi,Z(iN),n_(q),n_(N),n_(j)) if x.mode!='prove' else modn(mul(s.S(x,N,j),iN),q)
        return [('inverse transform of the input',x.forall('a',(),lambda j:[eq(sel(r,j),f(j)),le(0,sel(r,j)),lt(sel(r,j),q)],0,N))]
# CENA(A,L)[j] = centred A_j;  XF(A,B,N,L)[i] = coefficient i of the negacyclic product of CENA(A) and CENA(B);  RESA(X,q)[j] = X_j mod q
CENA=z3.Function('CENA',ArrS(IntS),IntS,ArrS(IntS)); XF=z3.Function('XF',ArrS(IntS),ArrS(IntS),IntS,IntS,ArrS(IntS)); RESA=z3.Function('RESA',ArrS(IntS),IntS,ArrS(IntS))
def elems():
    REG.elem['CENA']=lambda e,idx:[Z(eq(e,centred(sel(e.arg(0).arg(0),idx[0]),P2(norm(e.arg(0).arg(1))))))]
    REG.elem['RESA']=lambda e,idx:[Z(eq(e,modn(sel(e.arg(0).arg(0),idx[0]),e.arg(0).arg(1))))]
    def xf(e,idx):
        A,Bv,N,L=[e.arg(0).arg(i) for i in range(4)]; i=idx[0]; b=mul(N,P2(sub(mul(2,norm(L)),1)))
        c=ncp(CENA(A,L),CENA(Bv,L),i,N,N); p=ncp(A,Bv,i,N,N)
        # |coefficient| <= N 2^(L-1) 2^(L-1) (ncp_bound); modulo 2^L the product of the centred operands is that of the operands (ncp_mod)
        K=z3.Function('KXF',ArrS(IntS),ArrS(IntS),IntS,IntS,IntS,IntS)
        return [e==c,Z(le(mul(-1,b),mul(2,e))),Z(le(mul(2,e),b)),Z(eq(c,add(p,mul(P2(norm(L)),K(A,Bv,i,N,L)))))]
    REG.elem['XF']=xf
@contract
class VConv(VC):
    named=True
    key='CONV::conv(R_Q,R_Q,R_Q)'; modifies=('C',); aliases=((),(('A','C'),),(('B','C'),))
    def setup(s,E,st,x): elems()
    def XA(s,x): return XF(x.arr('A','old',('coeff',)),x.arr('B','old',('coeff',)),n_(x.T['N']),n_(x.T['LOGQ']))
    def polyX(s,x): return s.XA(x.E.x)
    def pre(s,x):
        QQ=x.V('this','old',('crt','Q')); L=x.T['L']; q=x.arr('this','old',('crt','q'))
        return [('canonical',core.canonP(x,'A',('coeff',),'LOGQ')),('canonical',core.canonP(x,'B',('coeff',),'LOGQ'))]+[(a+' (crt)',b) for a,b in rnspre(s,x,path=('crt',))]+[
            ('Q exceeds twice the largest coefficient',lt(mul(x.T['N'],P2(sub(mul(2,x.T['LOGQ']),1))),QQ)),('N a power of two',core.POW2N(n_(x.T['N'])))]+s.ntts(x)
    def ntts(s,x):
        q=x.arr('this','old',('crt','q')); t=x.at('this',('ntt',)).tree
        f={k:t.f[k] for k in t.f}
        nq=f['q'].v; ps=f['psi_rev']; ip=f['inv_psi_rev']; iN=f['inv_N'].v
        while isinstance(ps,SA): ps=ps.tree
        while isinstance(ip,SA): ip=ip.tree
        N=x.T['N']; L=x.T['L']; j=z3.FreshInt('j'); eid(j); g=land(le(0,j),lt(j,L))
        b=[eq(sel(nq,j),sel(q,j)),TAB(sel(ps.v,j),sel(ip.v,j),sel(iN,j),sel(nq,j),n_(N))]
        if x.mode=='prove': return [('transform tables',[('forall',j,g,b)])]
        return [('transform tables',[QFact(a.decl().name(),[],[j],[Z(c) for c in b],g) for a in (nq,)])]
    def lem(s,key,x):
        if key!='NTT::intt(u64*)': return []
        X=x.E.x; A=X.arr('A','old',('coeff',)); Bv=X.arr('B','old',('coeff',)); N=n_(x.T['N']); L=n_(X.T['LOGQ'])
        q=Z(x.el('this',('q',))); psi=x.arr('this','old',('psi_rev',)); c=x.arr('a'); r=x.arr('a','new')
        RA,RB=RESA(CENA(A,L),q),RESA(CENA(Bv,L),q); w=REG.fresh('w',IntS)
        # convolution theorem (ntt_conv) with ncp_mod: c_w = NT(RA)_w NT(RB)_w mod q at every w  =>  INTT(c)_i = X_i mod q
        hyp=land(NttC().tab(x),eq(sel(c,w),modn(mul(nt(RA,psi,q,N,w),nt(RB,psi,q,N,w)),q)))
        j=z3.FreshInt('j'); eid(j)
        return [Z(land(le(0,w),lt(w,N))),QFact(r.decl().name(),[],[j],[Z(implies(hyp,eq(sel(r,j),modn(sel(s.XA(X),j),q))))],land(le(0,j),lt(j,N)))]
    def post(s,x):
        A=x.arr('A','old',('coeff',)); Bv=x.arr('B','old',('coeff',)); C=x.arr('C','new',('coeff',)); N=x.T['N']; L=x.T['LOGQ']
        if x.mode!='prove': elems()
        return [('negacyclic product modulo 2^LOGQ',x.forall('C',('coeff',),lambda i:[Cong(sel(C,i),add(ncp(A,Bv,i,N,N),mul(0,sel(s.XA(x),i))),Q(x)),le(0,sel(C,i)),lt(sel(C,i),Q(x))]))]

# ---- the cached product object of conv(R_Q,R_Q,R_Q)
# NTTOK(q,N): q prime, N a power of two, 2N divides q-1
NTTOK=z3.Function('NTTOK',IntS,IntS,BoolS)
def pqext(t):
    """the product depends on the entries below k only"""
    out=[]; a,k=t.arg(0),t.arg(1)
    for o in list(_pq):
        if o.arg(0).eq(a) or not o.arg(1).eq(k): continue
        u,v=(a,o.arg(0)) if eid(a)<eid(o.arg(0)) else (o.arg(0),a)
        w=polym.DIFF(u,v,k); out+=[z3.Implies(k>=1,z3.And(w>=0,w<k)),z3.Implies(sel(u,w)==sel(v,w),t==o)]
    if not any(o.eq(t) for o in _pq): _pq.append(t)
    return out
_pq=[]; solve.RESETS.append(_pq.clear)
dict.__setitem__(solve.HOOKS,'PQ',lambda t: pqhook(t)+pqext(t))
@contract
class NttCtor(Contract):
    key='NTT::NTT(u64)'; dyn=False; modifies=('this',)
    def templ(s): return [('any N',{'N':nat()})]
    def pre(s,x): return [('prime modulus with 2N-th roots of unity',NTTOK(n_(x.n('q')),n_(x.T['N'])))]
    def post(s,x):
        return [('tables',[TAB(x.arr('this','new',('psi_rev',)),x.arr('this','new',('inv_psi_rev',)),Z(x.el('this',('inv_N',),'new')),Z(x.el('this',('q',),'new')),n_(x.T['N'])),eq(x.el('this',('q',),'new'),x.n('q'))])]
def tabs(x,w):
    t=x.at('this',('ntt',),w).tree; f={k:t.f[k] for k in t.f}
    ps=f['psi_rev']; ip=f['inv_psi_rev']
    while isinstance(ps,SA): ps=ps.tree
    while isinstance(ip,SA): ip=ip.tree
    return f['q'].v,ps.v,ip.v,f['inv_N'].v
@contract
class VCtor(VC):
    key='CONV::CONV(u64*)'; modifies=('this',)
    def pre(s,x):
        q=x.arr('q'); L=x.T['L']
        return [('distinct primes',x.forall('q',(),lambda j:[le(2,sel(q,j)),UNIT(px(q,j,L),sel(q,j))],0,L,w='old')),('transform sizes',x.forall('q',(),lambda j:[NTTOK(sel(q,j),n_(x.T['N']))],0,L,w='old'))]
    def post(s,x):
        q=x.arr('q'); L=x.T['L']; Q2=x.arr('this','new',('crt','q')); O=x.arr('this','new',('crt','Q_over_q')); v=x.arr('this','new',('crt','inv_mod_Q_over_q'))
        nq,ps,ip,iN=tabs(x,'new'); j=z3.FreshInt('j'); eid(j); g=land(le(0,j),lt(j,L))
        b=[eq(sel(nq,j),sel(q,j)),TAB(sel(ps,j),sel(ip,j),sel(iN,j),sel(nq,j),n_(x.T['N']))]
        f=[('forall',j,g,b)] if x.mode=='prove' else [QFact(nq.decl().name(),[],[j],[Z(c) for c in b],g)]
        return [('Q is the product of the moduli',eq(x.V('this','new',('crt','Q')),PQ(q,n_(L)))),
                ('moduli kept',x.forall('this',('crt','q'),lambda j:[eq(sel(Q2,j),sel(q,j))])),
                ('cofactors',x.forall('this',('crt','Q_over_q'),lambda j:[eq(sel(O,j),px(q,j,L))])),
                ('inverses',x.forall('this',('crt','inv_mod_Q_over_q'),lambda j:[Cong(mul(sel(v,j),px(q,j,L)),1,sel(q,j)),le(0,sel(v,j)),lt(sel(v,j),sel(q,j))])),
                ('transform tables',f)]
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; q=x.arr('q')
        root=[r for r in ctx.entry.store if r.startswith('this')]
        for loc in ctx.arrays:
            if loc[1] and loc[1][-1]==('f','q') and ('f','ntt') in loc[1]:
                def tb(st,t,loc=loc):
                    y=X(E,x.T,st,'assume'); y.new={'this':st.store[loc[0]]}
                    nq,ps,ip,iN=tabs(y,'new'); j=z3.FreshInt('j'); eid(j)
                    return qf1(nq,j,[eq(sel(nq,j),sel(q,j)),TAB(sel(ps,j),sel(ip,j),sel(iN,j),sel(nq,j),n_(x.T['N']))],land(le(0,j),lt(j,t)))
                yield 'tables',tb
def qf1(a,j,body,g):
    return QFact(a.decl().name() if isz(a) and k_(a)==z3.Z3_OP_UNINTERPRETED else '-',[],[j],[Z(b) for b in body],g)
# ---- constant tables: ground facts, each checked by computation on the values in the source
def isprime(n):
    if n<2: return False
    for p in (2,3,5,7,11,13,17,19,23,29,31,37):
        if n%p==0: return n==p
    d=n-1; s=0
    while d%2==0: d//=2; s+=1
    for a in (2,3,5,7,11,13,17,19,23,29,31,37):     # deterministic below 3.3e24
        x=pow(a,d,n)
        if x in(1,n-1): continue
        for _ in range(s-1):
            x=x*x%n
            if x==n-1: break
        else: return False
    return True
TABLES={}; solve.RESETS.append(TABLES.clear)
def tfact(a):
    v=TABLES.get(a.decl().name()) if k_(a)==z3.Z3_OP_UNINTERPRETED else None
    return v
def table(s,E,a,v):
    pr=all(isprime(p) for p in v) and len(set(v))==len(v)
    ntt=pr and all(p%2**18==1 for p in v)
    bits=None; P=1
    big=True
    for k,p in enumerate(v):
        P*=p
        if not P>2**(60*(k+1)-1): big=False
    TABLES[a.decl().name()]=dict(n=len(v),primes=pr,ntt=ntt,big=big,odd=all(p%2 for p in v),lo=min(v))
    REG.elem[a.decl().name()]=lambda x,idx,lo=min(v),hi=max(v),n=len(v):[z3.Implies(z3.And(idx[0]>=0,idx[0]<n),z3.And(x>=lo,x<=hi))]
    s.tbl=a
core.ConvP.table=table
def unithook(t):
    b,q=t.arg(0),t.arg(1)
    if not(k_(q)==z3.Z3_OP_SELECT and z3.is_app(b) and b.decl().name()=='PX'): return []
    d=tfact(q.arg(0)); j=q.arg(1)
    if d is None or not d['primes'] or not b.arg(0).eq(q.arg(0)) or not b.arg(1).eq(j): return []
    return [z3.Implies(z3.And(j>=0,j<b.arg(2),b.arg(2)<=d['n']),t)]
def nttokhook(t):
    q,N=t.arg(0),t.arg(1)
    if k_(q)!=z3.Z3_OP_SELECT: return []
    d=tfact(q.arg(0))
    if d is None or not d['ntt']: return []
    return [z3.Implies(z3.And(core.POW2N(N),q.arg(1)>=0,q.arg(1)<d['n']),t)]
solve.HOOKS['UNIT']=unithook; solve.HOOKS['NTTOK']=nttokhook
HALF=z3.Function('PQHALF',ArrS(IntS),IntS,IntS)
def pqtab(t):
    d=tfact(t.arg(0)); k=t.arg(1)
    if d is None: return []
    g=z3.And(k>=0,k<=d['n']); out=[]
    if d['big']: out.append(z3.Implies(z3.And(g,k>=1),Z(lt(P2(norm(sub(mul(60,k),1))),t))))
    if d['odd']: out.append(z3.Implies(g,Z(eq(t,add(mul(2,HALF(t.arg(0),k)),1)))))
    return out
dict.__setitem__(solve.HOOKS,'PQ',lambda t: pqhook(t)+pqext(t)+pqtab(t))
solve.HOOKS['POW2N']=lambda t:[z3.Implies(t,z3.And(t.arg(0)>=1,t.arg(0)<=2**17))]
def static(s,E,st,d,l):
    """state of the function's static variables: as initialised (first call), or as every call leaves it (later calls; proved by late())"""
    if not E.x.T.get('__late'): return False
    t=l.t
    if t[0]=='b': E.write(st,l,Leaf(t,True)); return True
    tv=None
    for nm,v in st.env.items():
        if isinstance(v,LV) and v.t[0]=='a' and isinstance(E.rawload(st,v),SA) and E.rawload(st,v).tree.v is s.tbl: tv=v
    if tv is None: raise VError('static object without a table')
    q=TV(('p',tv.t[1]),Ptr(tv,0))
    if t[0]=='p' and t[1][0]=='s':
        o=LV(E.newroot(st,E.mk(t[1],'heap'),'heap'),(),t[1]); E.construct(st,o,[q],d)
        E.write(st,l,Leaf(t,Ptr(o,None))); return True
    if t[0]=='s': E.construct(st,l,[q],d); return True
    raise VError('static variable of unsupported type')
core.ConvP.static=static
def late(s,x):
    if x.T.get('__late'): return []
    E=x.E; st=x.st; out=[]
    for key,lv in E.statics.items():
        c=st.store.get(lv.root)
        if c is None: continue
        if isinstance(c,Leaf) and c.t[0]=='b': out.append(('the flag is set for later calls',c.v if isinstance(c.v,bool) else c.v))
        else:
            o=lv
            if isinstance(c,Leaf) and c.t[0]=='p':
                if not(isinstance(c.v,Ptr) and c.v.lv is not None): raise VError('static pointer not determined')
                o=c.v.lv
            if o.t[0]!='s' or o.t[1]!='CONV': raise VError('static variable of unsupported type')
            T=dict(zip([n for k,n,d in E.prog.structs['CONV'].tparams],o.t[2]))
            y=X(E,T,st,'prove'); c=E.rawload(st,o); y.old={'this':c,'q':SA(None,Leaf(('i',False,64),s.tbl))}; y.new=y.old
            out+=[('kept for later calls: '+a,b) for a,b in VCtor().post(y)]
    return out
core.ConvP.late=late

def cplem(s,key,x):
    if key!='CONV::CONV(u64*)': return []
    a=x.arr('q'); L=x.T['L']; N=n_(x.T['N']); j=z3.FreshInt('j'); eid(j); e=sub(mul(2,x.T['LOGQ']),1)
    # px_pq;  N <= 2^17  =>  N 2^e <= 2^(e+17)
    return [QFact(a.decl().name(),[],[j],[Z(eq(mul(px(a,j,L),sel(a,j)),PQ(a,n_(L)))),px(a,j,L)>=1],land(le(0,j),lt(j,L))),
            implies(le(N,2**17),le(mul(N,P2(norm(e))),P2(norm(add(e,17))))),implies(le(add(e,17),sub(mul(60,L),1)),le(P2(norm(add(e,17))),P2(norm(sub(mul(60,L),1))))),lt(P2(norm(sub(mul(60,L),1))),PQ(a,n_(L))) if (tfact(a) or {}).get('big') and x.E.prove(x.st,land(le(1,L),le(L,tfact(a)['n']))).ok else True]
core.ConvP.lem=cplem
