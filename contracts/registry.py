"""which contracts, bounded stand-ins, drivers and assumptions belong to which property"""
import contract, zq, word, poly, square, core, plain, autom, keygen, crtc, convc, endec, decstr, sparse
LIMIT=300
def omp_functions(prog):
    """keys of the functions that contain an omp directive"""
    from engine import fkey, Node
    def has(n):
        if isinstance(n,(list,tuple)): return any(has(x) for x in n)
        if not isinstance(n,Node): return False
        return 'omp' in (getattr(n,'pragma',None) or '') or any(has(v) for k,v in n.__dict__.items() if k not in('loc','pragma'))
    return sorted(set(fkey(f) for q in prog.funcs.values() for f in q if f.body is not None and has(f.body)))
COMMON=['floating point, where it occurs, is treated as real arithmetic','memory: separate objects do not overlap; stack and heap suffice','omp pragmas: sequential semantics (schedule independence is C19)']
DRVOPT={'C19':'-O1 -g -fsanitize=thread','C17':'-O1 -g'}; OWNOMP=('C19',); 
# SEL[key]: template cases whose unbounded proof is part of every check (default: all); BND[key]: bounded stand-ins for the rest
SEL={'shift_right(Z_Q,Z_Q)':(0,1),'NTT::ntt(u64*)':(),'NTT::intt(u64*)':(),'NTT::NTT(u64)':(),'fft(double*,double*,double*)':(),'ifft(double*,double*,double*)':()}
# contracts relied on by callers without an unbounded proof of the body
NTTR='the contract of the number theoretic transform is proved by the check of C05 and used here; the convolution theorem for the transform pair (ntt_conv) is mathematics about the specification functions, trusted'
FFTR='fft and ifft: the result is a function of the argument vectors (named FFR, FFI, IFF); what it is: C15'
RELY={'fft(double*,double*,double*)':FFTR,'ifft(double*,double*,double*)':FFTR,'NTT::ntt(u64*)':NTTR,'NTT::intt(u64*)':NTTR,'NTT::NTT(u64)':NTTR}
sh=lambda a,b:('%d->%d'%(a,b),{'LOGQfr':a,'LOGQto':b,'__f':[],'__d':abs(a-b)})
BND={'shift_right(Z_Q,Z_Q)':[sh(a,b) for a,b in ((65,1),(192,65),(100,36),(70,64),(130,60),(190,64),(129,128),(257,192),(300,120),(64,63),(191,128),(330,75))]}
BNDT={'shift_right(Z_Q,Z_Q)':[sh(a,b) for a in (64,65,127,128,129,192,255,256,320) for b in (1,30,63,64,65,127,128,129,190) if a>b and (a-b)%64]}
sl=lambda a,b:('%d->%d'%(a,b),{'LOGQfr':a,'LOGQto':b,'__f':[],'__d':abs(a-b)})
sz=lambda a,b:('%d->%d'%(a,b),{'LOGQfrom':a,'LOGQto':b})
COST={'Z_Q::operator*=(Z_Q)':9,'pow_mod(u64,u64,u64)':8,'Z_Q::operator*=(u64)':7}
ZB=[('LOGQ=%d'%l,{'LOGQ':l}) for l in (1,63,64,65,130)]
P22=[('LOGQ=64,N=2',{'LOGQ':64,'N':2})]
FALL={'shift_right(Z_Q,Z_Q)':[sh(a,b) for a,b in ((65,1),(192,65),(100,36),(130,60),(129,128),(128,64),(257,192))],
 'shift_left(Z_Q,Z_Q)':[sl(a,b) for a,b in ((1,65),(64,128),(65,192),(100,136),(60,130),(128,129))],
 'resize(Z_Q,Z_Q)':[sz(a,b) for a,b in ((10,70),(70,10),(64,65),(129,64),(64,300),(300,63),(128,192))]}
def mkT(T): return dict(T)
def usec(k): return ()
def fallback(k,tier):
    """sizes for the bounded check of a function whose unbounded proof was not found; None: no bounded form"""
    if k in FALL: return FALL[k]
    if k.startswith('Z_Q::'): return ZB
    if k.startswith(('R_Q::','R_Q_square::','HEAAN::')) or k=='conv(int*,R_Q,R_Q)': return P22
    return None
PROPS={
 'C01':dict(contracts=['Z_Q::operator=(Z_Q)','Z_Q::Z_Q(Z_Q)','Z_Q::setzero()','Z_Q::remove_clutter()','Z_Q::operator+=(Z_Q)','Z_Q::operator-=(Z_Q)','Z_Q::negate()','mul(u64,u64,u64,u64)','Z_Q::operator*=(u64)','Z_Q::operator*=(Z_Q)','Z_Q::is_bigger_than_halfQ()','Z_Q::get_length()']),
 'C02':dict(contracts=['resize(Z_Q,Z_Q)','shift_right(Z_Q,Z_Q)','shift_left(Z_Q,Z_Q)']),
 'C03':dict(contracts=['mod(u64,u64,u64)','mul_(u64,u64,u64,u64)','add_mod(u64,u64,u64)','sub_mod(u64,u64,u64)','mul_mod(u64,u64,u64)','pow_mod(u64,u64,u64)','inv_mod(u64,u64)','mul(u64,u64,u64,u64)']),
 'C21':dict(contracts=['log(int)','bitReverse32(u32)','bitReverse(u32,int)']),
 'C07':dict(contracts=['HEAAN::enc(R_Q,int*,R_Q_square)','HEAAN::dec(R_Q_square,int*,R_Q)','conv(int*,R_Q,R_Q)']),
 'C10':dict(contracts=['RS(R_Q_square,R_Q_square)','resize(R_Q,R_Q)','resize(R_Q_square,R_Q_square)','mod_raise(R_Q_square,R_Q_square)']),
 'C08':dict(contracts=['HEAAN::swkgen(int*,int*,R_Q_square)','HEAAN::ks(R_Q_square,R_Q_square)','Mul(R_Q_square,R_Q_square,R_Q_square,R_Q_square)','R_Q_square::operator*=(R_Q)']),
 'C09':dict(contracts=['rot(int*,int*,int)','rot(int*,int*)','rot(R_Q,R_Q,int)','conj(int*,int*)','conj(R_Q,R_Q)','rot_ct(R_Q_square,int,R_Q_square,R_Q_square)','conj(R_Q_square,R_Q_square,R_Q_square)']),
 'C11':dict(contracts=['HEAAN::keygen(int,int*)']),
 'C04':dict(contracts=['CRT::CRT(u64*)','CRT::icrt(Z_Q,u64*)','CRT::crt(u64*,Z_Q)','cmpge(Z_Q,Z_Q)']),
 'C06':dict(contracts=['conv(R_Q,R_Q,R_Q)','conv(int*,R_Q,R_Q)','conv(int*,int*,int*)','CONV::CONV(u64*)']),
 'C05':dict(contracts=['NTT::ntt(u64*)','NTT::intt(u64*)'],trusted=['stage recursion = evaluation at the roots (mathematics about the specification functions STG, SIG)']),
 'C16':dict(contracts=['encode(double*,double*,u64,R_Q)','encode(Message,u64,R_Q)','decode(R_Q,u64,double*,double*)','decode(R_Q,u64,Message)','decode_log(R_Q,int,double*,double*)','decode_log(R_Q,int,Message)','encode_raw(Message,u64,SimplePlaintext)','encode(Message,u64,SimplePlaintext)','decode(SimplePlaintext,u64,Message)','Z_Q::operator double()','Z_Q::max_valid_digit()'],
   assume=['std::round, std::abs, ldexp: their mathematical functions on real numbers','the rounded coefficients fit 64 bits and LOGQ bits (precondition of encode)']),
 'C18':dict(contracts=['Z_Q::to_str(char*)','Z_Q::fr_str(char*)'],trusted=['Horner evaluation of the digits (from the top) equals the place-value sum (from the bottom)'],
   assume=['the buffer of to_str has room for the digits and the terminator; the text given to fr_str has at most 519 decimal digits and denotes a number below 2^LOGQ','strlen: the position of the first zero character']),
 'C13':dict(contracts=[k for k in contract.CONTRACTS if type(contract.CONTRACTS[k]).__module__=='sparse'],
   assume=['two diagonals of an operand with the same offset: get_element and set_element use the first one (their contract says so)']),
 'C19':dict(contracts=['conv(int*,R_Q,R_Q)','CONV::icrt_polynomial(R_Q,u64**)','CONV::crt_polynomial(u64**,R_Q)','CONV::conv(R_Q,R_Q,R_Q)','R_Q_square::operator*=(R_Q)'],dyn=omp_functions,
   assume=['the parallel regions are the omp parallel for loops of the source (arith/conv.h, arith/conv/conv.h); a parallel directive of another kind or in another function is reported as outside reach and only executed','each obligation of kind race: two different iterations do not touch the same location with a write among them']),
 'C22':dict(contracts=[k for k in contract.CONTRACTS if type(contract.CONTRACTS[k]).__module__=='plain']+['rotate_once(SimplePlaintext,SimplePlaintext)','rotate(SimplePlaintext,SimplePlaintext,int)']),
}
NA={'C30':'accuracy of floating-point and noise growth through the whole pipeline is a numerical bound over probability distributions; no contract on the functions expresses it',
    'C31':'statistical and computational security of the random generator and of the encryption scheme is not a functional postcondition'}
