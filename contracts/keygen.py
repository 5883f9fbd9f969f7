"""key generation: exactly h nonzero coefficients, each 1 or -1 (partial correctness: the sampling loop ends with probability one)"""
from contract import *
from poly import PC, nat
# CNT(a,n) = number of j in [0,n) with a[j]!=0;  NZW(a,n) = such a j, if there is one
CNT=z3.Function('CNT',ArrS(IntS),IntS,IntS); NZW=z3.Function('NZW',ArrS(IntS),IntS,IntS)
def n_(q): return Z(norm(q) if isz(q) else q)
def cnthook(t):
    a,n=t.arg(0),t.arg(1); w=NZW(a,n)
    out=[t>=0,z3.Implies(n>=0,t<=n),z3.Implies(t!=0,z3.And(w>=0,w<n,sel(a,w)!=0))]
    b=a
    if z3.is_store(b):
        j,v=b.arg(1),b.arg(2); old=CNT(b.arg(0),n); one=z3.IntVal(1); zero=z3.IntVal(0)
        out.append(z3.Implies(z3.And(j>=0,j<n),t==old+z3.If(v!=0,one,zero)-z3.If(sel(b.arg(0),j)!=0,one,zero)))   # lean/Lemmas.lean: cnt_update
        out.append(z3.Implies(z3.Not(z3.And(j>=0,j<n)),t==old))
    return out
solve.HOOKS['CNT']=cnthook
@contract
class KeyGen(PC):
    key='HEAAN::keygen(int,int*)'; modifies=('s',)
    def templ(s): return [('any N',{'N':nat(),'LOGQ':64})]
    def pre(s,x): return [('weight',land(le(0,x.n('h')),le(x.n('h'),x.T['N'])))]
    def post(s,x):
        S=x.arr('s','new')
        return [('exactly h nonzero coefficients',eq(CNT(S,n_(x.T['N'])),x.n('h'))),('each 0, 1 or -1',x.forall('s',(),lambda j:[le(-1,sel(S,j)),le(sel(S,j),1)]))]
    def invs(s,ctx):
        x=ctx.x; E=ctx.E; N=x.T['N']
        for loc in ctx.arrays:
            A=lambda st,loc=loc: E.get(st,st.store[loc[0]],loc[1]).tree.v
            yield f'count:{loc[0]}',lambda st,t,A=A: eq(CNT(A(st),n_(N)),t)
            yield f'ternary:{loc[0]}',lambda st,t,A=A: allj(A(st),N,lambda v:[le(-1,v),le(v,1)])
        for loc,ty in ctx.scalars:
            if ty[0]=='i': yield f'index:{loc[0]}',lambda st,t,loc=loc: [le(0,E.get(st,st.store[loc[0]],loc[1]).v),lt(E.get(st,st.store[loc[0]],loc[1]).v,N)]
def allj(A,N,f):
    j=z3.FreshInt('j'); eid(j)
    nm=A.decl().name() if z3.is_const(A) else 'none'
    return QFact(nm,[],[j],[Z(q) for q in f(sel(A,j))],land(le(0,j),lt(j,N)))
