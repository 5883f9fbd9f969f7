"""Symbolic term helpers: python ints / Fractions / bools stay concrete, everything else is a z3 term."""
import z3
from fractions import Fraction
from z3 import ArithRef, BoolRef, is_app_of, Z3_OP_ADD, Z3_OP_MUL, Z3_OP_SUB, Z3_OP_UMINUS, Z3_OP_ITE, Z3_OP_SELECT, Z3_OP_STORE, Z3_OP_TO_REAL

IntS=z3.IntSort(); RealS=z3.RealSort(); BoolS=z3.BoolSort()
def ArrS(s): return z3.ArraySort(IntS,s)

_keep={}
def eid(e):
    i=e.get_id()
    if i not in _keep: _keep[i]=e
    return i

def isz(x): return isinstance(x,z3.ExprRef)
def conc(x): return isinstance(x,(int,bool,Fraction))
def Z(x):
    """to z3"""
    if isinstance(x,bool): return z3.BoolVal(x)
    if isinstance(x,int): return z3.IntVal(x)
    if isinstance(x,Fraction): return z3.RealVal(str(x))
    return x

def numval(e):
    """python value of a z3 numeral, else None"""
    if isinstance(e,(int,Fraction)): return e
    if z3.is_int_value(e): return e.as_long()
    if z3.is_rational_value(e): return Fraction(e.numerator_as_long(),e.denominator_as_long())
    return None

def k_(e): return e.decl().kind()

# ---------------------------------------------------------------- booleans
def lnot(a):
    if isinstance(a,bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def land(*xs):
    out=[]
    for x in xs:
        if isinstance(x,bool):
            if not x: return False
            continue
        out.append(x)
    if not out: return True
    return out[0] if len(out)==1 else z3.And(*out)
def lor(*xs):
    out=[]
    for x in xs:
        if isinstance(x,bool):
            if x: return True
            continue
        out.append(x)
    if not out: return False
    return out[0] if len(out)==1 else z3.Or(*out)
def implies(a,b):
    if isinstance(a,bool): return b if a else True
    if isinstance(b,bool): return True if b else lnot(a)
    return z3.Implies(a,b)
def same(a,b):
    if conc(a) and conc(b): return type(a)==type(b) and a==b or (not isinstance(a,bool) and not isinstance(b,bool) and a==b)
    if conc(a) or conc(b): return False
    if not isz(a) or not isz(b): return a is b or a==b
    return a.eq(b)
def ite(c,a,b):
    if isinstance(c,bool): return a if c else b
    if same(a,b): return a
    if isinstance(a,bool) or isinstance(b,bool) or (isz(a) and z3.is_bool(a)):
        if a is True: return lor(c,b)
        if a is False: return land(lnot(c),b)
        if b is True: return lor(lnot(c),a)
        if b is False: return land(c,a)
    a,b=Z(a),Z(b)
    if a.sort()!=b.sort():
        if a.sort()==RealS: b=z3.ToReal(b)
        elif b.sort()==RealS: a=z3.ToReal(a)
        elif z3.is_bv(a) and z3.is_int_value(b): b=z3.BitVecVal(b.as_long(),a.size())
        elif z3.is_bv(b) and z3.is_int_value(a): a=z3.BitVecVal(a.as_long(),b.size())
    return z3.If(c,a,b)
def b2i(b):
    if isinstance(b,bool): return int(b)
    return z3.If(b,z3.IntVal(1),z3.IntVal(0))
def toreal(x):
    if isinstance(x,bool): return Fraction(int(x))
    if isinstance(x,(int,Fraction)): return Fraction(x)
    if x.sort()==IntS: return z3.ToReal(x)
    return x

# ---------------------------------------------------------------- polynomials over atoms
class Poly(dict):
    """monomial (tuple of (atomid,exp) sorted) -> Fraction/int coefficient"""
    @staticmethod
    def const(c): return Poly({():c}) if c else Poly()
    @staticmethod
    def atom(e): return Poly({((eid(e),1),):1})
    def __add__(s,o):
        r=Poly(s)
        for m,c in o.items():
            v=r.get(m,0)+c
            if v: r[m]=v
            else: r.pop(m,None)
        return r
    def scale(s,k): return Poly({m:c*k for m,c in s.items()}) if k else Poly()
    def __sub__(s,o): return s+o.scale(-1)
    def __mul__(s,o):
        r=Poly()
        for m,c in s.items():
            for n,d in o.items():
                q=mmul(m,n); v=r.get(q,0)+c*d
                if v: r[q]=v
                else: r.pop(q,None)
        return r
    def isconst(s): return not s or (len(s)==1 and () in s)
    def cval(s): return s.get((),0)
def mmul(m,n):
    if not m: return n
    if not n: return m
    d=dict(m)
    for a,e in n: d[a]=d.get(a,0)+e
    return tuple(sorted(d.items()))

_pm={}
def poly(e):
    if isinstance(e,bool): e=int(e)
    if isinstance(e,(int,Fraction)): return Poly.const(e)
    i=eid(e)
    if i in _pm: return _pm[i]
    v=numval(e)
    if v is not None: r=Poly.const(v)
    else:
        k=k_(e)
        if k==Z3_OP_ADD:
            r=Poly()
            for c in e.children(): r=r+poly(c)
        elif k==Z3_OP_SUB:
            ch=e.children(); r=poly(ch[0])
            for c in ch[1:]: r=r-poly(c)
        elif k==Z3_OP_UMINUS: r=poly(e.arg(0)).scale(-1)
        elif k==Z3_OP_MUL:
            r=Poly.const(1)
            for c in e.children(): r=r*poly(c)
        elif k==Z3_OP_TO_REAL: r=poly(e.arg(0))
        else: r=atomp(e,k)
    _pm[i]=r
    return r
def atomp(e,k):
    """atom with normalised integer arguments"""
    if k!=Z3_OP_SELECT and k!=z3.Z3_OP_UNINTERPRETED or not e.num_args(): return Poly.atom(e)
    ch=e.children(); new=[]; diff=False
    for c in ch:
        if c.sort()==IntS and k_(c) in (Z3_OP_ADD,Z3_OP_SUB,Z3_OP_MUL,z3.Z3_OP_UMINUS):
            d=Z(norm(c)); diff=diff or not d.eq(c); new.append(d)
        else: new.append(c)
    if not diff: return Poly.atom(e)
    if k==z3.Z3_OP_UNINTERPRETED and e.decl().name()=='P2': return poly(P2(new[0]))
    if k==Z3_OP_SELECT: 
        r=sel(new[0],new[1])
        return poly(r) if not r.eq(e) and k_(r)!=k else Poly.atom(Z(r))
    return Poly.atom(e.decl()(*new))
def pkey(e):
    return tuple(sorted(poly(e).items()))
def peq(a,b):
    if isinstance(a,int) and isinstance(b,int): return a==b
    return poly(a)==poly(b)
def unpoly(p,real=False):
    """polynomial back to a z3/python term"""
    out=[]
    for m,c in sorted(p.items()):
        fs=[]
        for a,e in m:
            fs+= [_keep[a]]*e
        if not fs:
            out.append(c); continue
        if real: fs=[toreal(f) for f in fs]
        t=fs[0]
        for f in fs[1:]: t=t*f
        if c!=1: t=Z(c)*t if not real else Z(Fraction(c))*t
        out.append(t)
    if not out: return Fraction(0) if real else 0
    cs=[x for x in out if not isz(x)]; zs=[x for x in out if isz(x)]
    if not zs: return cs[0]
    r=zs[0]
    for z in zs[1:]: r=r+z
    if cs: r=r+Z(cs[0] if not real else Fraction(cs[0]))
    return r
def norm(e):
    """canonical form of an integer term (for sizes and indices)"""
    if isinstance(e,int): return e
    return unpoly(poly(e))

def add(a,b):
    if conc(a) and conc(b): return a+b
    if conc(a) and a==0: return b
    if conc(b) and b==0: return a
    return Z(a)+Z(b)
def sub(a,b):
    if conc(a) and conc(b): return a-b
    if conc(b) and b==0: return a
    if isz(a) and isz(b) and a.eq(b): return 0
    return Z(a)-Z(b)
def mul(a,b):
    if conc(a) and conc(b): return a*b
    if conc(a):
        if a==0: return 0 if not (isz(b) and b.sort()==RealS) else Fraction(0)
        if a==1: return b
    if conc(b):
        if b==0: return 0 if not (isz(a) and a.sort()==RealS) else Fraction(0)
        if b==1: return a
    return Z(a)*Z(b)
def neg(a):
    return -a
def lt(a,b): 
    if conc(a) and conc(b): return a<b
    d=cdiff(a,b)
    if d is not None: return d<0
    return Z(a)<Z(b)
def le(a,b):
    if conc(a) and conc(b): return a<=b
    d=cdiff(a,b)
    if d is not None: return d<=0
    return Z(a)<=Z(b)
def eq(a,b):
    if conc(a) and conc(b): return a==b
    if isz(a) and z3.is_bool(a) or isinstance(a,bool) or isinstance(b,bool) and isz(b):
        if a is True: return b
        if b is True: return a
        if a is False: return lnot(b)
        if b is False: return lnot(a)
        return Z(a)==Z(b)
    if isz(a) and isz(b) and a.eq(b): return True
    d=cdiff(a,b)
    if d is not None: return d==0
    return Z(a)==Z(b)
def cdiff(a,b):
    """a-b if it is a known constant (cheap check), else None"""
    if isz(a) and not z3.is_arith(a) or isz(b) and not z3.is_arith(b): return None
    p=poly(a)-poly(b)
    return p.cval() if p.isconst() else None

# ---------------------------------------------------------------- arrays
def sel(a,k):
    """select with read-over-write simplification"""
    if isinstance(a,tuple): return a[k] if isinstance(k,int) and 0<=k<len(a) and isinstance(a[k],int) else 0
    if k_(a)==Z3_OP_ITE: return ite(a.arg(0),sel(a.arg(1),k),sel(a.arg(2),k))
    if k_(a)==Z3_OP_STORE:
        c=eq(a.arg(1),k)
        if c is True: return a.arg(2)
        if c is False: return sel(a.arg(0),k)
        return ite(c,a.arg(2),sel(a.arg(0),k))
    return z3.Select(a,Z(k))
def sto(a,k,v):
    if k_(a)==Z3_OP_STORE and eq(a.arg(1),k) is True: a=a.arg(0)
    return z3.Store(a,Z(k),Z(v))

# ---------------------------------------------------------------- powers of two and limb values
P2f=z3.Function('P2',IntS,IntS)
VALf=z3.Function('val',ArrS(IntS),IntS,IntS)
def P2(e):
    """2^e"""
    if isinstance(e,int): return 2**e if e>=0 else P2f(z3.IntVal(e))
    p=poly(e)
    if p.isconst(): return P2(int(p.cval()))
    if any(c<0 for c in p.values()) or any(len(m)>1 or (m and m[0][1]>1) for m in p): return P2f(Z(norm(e)))
    r=1
    for m,c in sorted(p.items()):
        if m==(): r=mul(r,2**int(c)); continue
        x=_keep[m[0][0]]
        if c%64==0: base,k=P2f(Z(norm(64*x))),int(c)//64
        else: base,k=P2f(x),int(c)
        if k>12: return P2f(Z(norm(e)))
        for _ in range(k): r=mul(r,base)
    return r
def B(t): return P2(mul(64,t))
def val(a,t):
    if a is None: raise TypeError('no array')
    if isinstance(a,tuple):
        return sum(x<<(64*i) for i,x in enumerate(a[:max(t,0)]))
    if isinstance(t,int) and t<=0: return 0
    return VALf(a,Z(norm(t)))
