"""Front end: lexer, preprocessor and parser for the C++ subset EvalRound is written in.

Everything is parsed from the files under /repo/include on every run.  What is dropped: comments,
#include <...> of the standard library (its functions are modelled in engine.py, see BUILTINS),
`inline`/`static`(non-local)/`explicit`/`noexcept` keywords, `#pragma once`; `#pragma omp` is kept.
"""
import os, re
from fractions import Fraction

class ParseError(Exception): pass

class Node:
    __slots__=('k','__dict__')
    def __init__(s,k,**kw):
        s.k=k
        s.__dict__.update(kw)
    def __repr__(s):
        return s.k+'('+', '.join(f'{a}={b!r}' for a,b in s.__dict__.items() if a not in('loc','pragma'))+')'

class TypeRef:
    """name + template args + pointer depth/ref/const; dims are array dims (expr nodes or None)"""
    def __init__(s,name,targs=None,const=False,ptr=0,ref=False,dims=(),rref=False):
        s.name=name; s.targs=targs; s.const=const; s.ptr=ptr; s.ref=ref; s.dims=tuple(dims)
    def with_(s,**kw):
        t=TypeRef(s.name,s.targs,s.const,s.ptr,s.ref,s.dims)
        for a,b in kw.items(): setattr(t,a,b)
        return t
    def __repr__(s):
        r=('const ' if s.const else '')+s.name
        if s.targs is not None: r+='<'+','.join(map(repr,s.targs))+'>'
        return r+'*'*s.ptr+('&' if s.ref else '')+''.join('[%r]'%d for d in s.dims)

TOK=re.compile(r'''
  (?P<ws>[ \t\r\f\v]+|\\\n)
 |(?P<nl>\n)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*.*?\*/)
 |(?P<num>0[xX][0-9a-fA-F']+[uUlL]*|0[bB][01']+[uUlL]*|(?:\d[\d']*\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)[uUlLfF]*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<str>"(?:[^"\\\n]|\\.)*")
 |(?P<chr>'(?:[^'\\\n]|\\.)*')
 |(?P<op><<=|>>=|\.\.\.|->\*|<=>|::|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|\#\#|[-+*/%&|^~!<>=?:;,.(){}\[\]\#])
''',re.X|re.S)

class Tok:
    __slots__=('t','v','f','l')
    def __init__(s,t,v,f,l): s.t=t;s.v=v;s.f=f;s.l=l
    def __repr__(s): return f'{s.v}@{os.path.basename(s.f)}:{s.l}'

class Preproc:
    def __init__(s,incdir,defines=()):
        s.incdir=incdir; s.macros={d:[] for d in defines}; s.fmacros={}; s.seen=set(); s.files=[]
    def file(s,path):
        path=os.path.realpath(path)
        if path in s.seen: return []
        s.seen.add(path); s.files.append(path)
        txt=open(path,encoding='utf-8',errors='replace').read().replace('\r\n','\n')
        if txt.startswith('\ufeff'): txt=txt[1:]
        return s.text(txt,path)
    def rawlines(s,txt,path):
        """yields lists of tokens per logical line"""
        pos=0; line=1; cur=[]; out=[]
        n=len(txt)
        while pos<n:
            m=TOK.match(txt,pos)
            if not m:
                raise ParseError(f'{path}:{line}: bad character {txt[pos]!r}')
            g=m.lastgroup; v=m.group()
            if g=='nl':
                out.append(cur); cur=[]; line+=1
            elif g in('ws','lc'): line+=v.count('\n')
            elif g=='bc': line+=v.count('\n')
            else: cur.append(Tok(g,v,path,line))
            pos=m.end()
        out.append(cur)
        return out
    def expand(s,toks,hide=frozenset()):
        out=[];i=0
        while i<len(toks):
            t=toks[i]
            if t.t=='id' and t.v in s.macros and t.v not in hide:
                out+=s.expand([Tok(x.t,x.v,t.f,t.l) for x in s.macros[t.v]],hide|{t.v}); i+=1; continue
            if t.t=='id' and t.v in s.fmacros and t.v not in hide and i+1<len(toks) and toks[i+1].v=='(':
                params,body=s.fmacros[t.v]
                d=0;j=i+1;args=[[]]
                while j<len(toks):
                    x=toks[j]
                    if x.v=='(':
                        d+=1
                        if d>1: args[-1].append(x)
                    elif x.v==')':
                        d-=1
                        if d==0: break
                        args[-1].append(x)
                    elif x.v==',' and d==1: args.append([])
                    else: args[-1].append(x)
                    j+=1
                if j<len(toks):
                    env=dict(zip(params,args)); res=[]
                    for x in body:
                        if x.t=='id' and x.v in env: res+=s.expand(env[x.v],hide)
                        else: res.append(Tok(x.t,x.v,t.f,t.l))
                    out+=s.expand(res,hide|{t.v}); i=j+1; continue
            out.append(t); i+=1
        return out
    def cond(s,toks):
        e=[]
        i=0
        while i<len(toks):
            t=toks[i]
            if t.v=='defined':
                if toks[i+1].v=='(': nm=toks[i+2].v; i+=4
                else: nm=toks[i+1].v; i+=2
                e.append('1' if nm in s.macros or nm in s.fmacros else '0'); continue
            if t.t=='id':
                m=s.macros.get(t.v)
                e.append(m[0].v.rstrip('uUlL') if m else '0')
            elif t.v=='&&': e.append(' and ')
            elif t.v=='||': e.append(' or ')
            elif t.v=='!': e.append(' not ')
            else: e.append(t.v.rstrip('uUlL') if t.t=='num' else t.v)
            i+=1
        try: return bool(eval(' '.join(e)))
        except Exception: raise ParseError('cannot evaluate #if '+' '.join(e))
    def text(s,txt,path):
        out=[]; stack=[]  # (active, taken)
        lines=s.rawlines(txt,path)
        buf=[]
        for toks in lines:
            if toks and toks[0].v=='#':
                out+=s.expand(buf); buf=[]
                d=toks[1].v if len(toks)>1 else ''
                act=all(a for a,_ in stack)
                if d in('ifdef','ifndef'):
                    nm=toks[2].v; c=(nm in s.macros or nm in s.fmacros)==(d=='ifdef'); stack.append([c,c])
                elif d=='if':
                    c=s.cond(toks[2:]) if act else False; stack.append([c,c])
                elif d=='elif':
                    c=(not stack[-1][1]) and s.cond(toks[2:]); stack[-1]=[c,stack[-1][1] or c]
                elif d=='else': stack[-1]=[not stack[-1][1],True]
                elif d=='endif': stack.pop()
                elif not act: pass
                elif d=='include':
                    if toks[2].t=='str':
                        inc=toks[2].v[1:-1]
                        for base in (os.path.dirname(path),s.incdir):
                            q=os.path.join(base,inc)
                            if os.path.exists(q): out+=s.file(q); break
                        else: raise ParseError(f'{path}: include {inc} not found')
                elif d=='define':
                    nm=toks[2]
                    # function-like if '(' directly follows (no whitespace info; accept if params are ids)
                    if len(toks)>3 and toks[3].v=='(' and s._fm(toks): pass
                    else: s.macros[nm.v]=toks[3:]
                elif d=='undef': s.macros.pop(toks[2].v,None); s.fmacros.pop(toks[2].v,None)
                elif d=='pragma':
                    if len(toks)>2 and toks[2].v=='omp':
                        out.append(Tok('pragma',' '.join(t.v for t in toks[2:]),path,toks[0].l))
                elif d in('error','warning','line',''): pass
                else: raise ParseError(f'{path}:{toks[0].l}: #{d}')
                continue
            if all(a for a,_ in stack): buf+=toks
        out+=s.expand(buf)
        return out
    def _fm(s,toks):
        j=4; ps=[]
        while j<len(toks) and toks[j].v!=')':
            if toks[j].t=='id': ps.append(toks[j].v)
            elif toks[j].v!=',': return False
            j+=1
        if j>=len(toks): return False
        if j+1>=len(toks): return False
        s.fmacros[toks[2].v]=(ps,toks[j+1:]); return True

INTTYPES={'int','uint64_t','uint32_t','int64_t','int32_t','size_t','bool','double','float','char','void','u128','uint8_t','int8_t','uint16_t','int16_t','__int128','__uint128_t','auto','ssize_t','ptrdiff_t','uintptr_t'}
BASEKW={'unsigned','signed','long','short','int','char','double','float','bool','void','auto','__int128'}
BINPREC={'||':1,'&&':2,'|':3,'^':4,'&':5,'==':6,'!=':6,'<':7,'>':7,'<=':7,'>=':7,'<<':8,'>>':8,'+':9,'-':9,'*':10,'/':10,'%':10}
ASSIGN={'=','+=','-=','*=','/=','%=','<<=','>>=','&=','|=','^='}
OPNAMES=('+=','-=','*=','/=','%=','=','==','!=','<','>','<=','>=','+','-','*','/','%','!','~','<<','>>','<<=','>>=','&','|','^','&=','|=','^=','++','--')

class Func:
    def __init__(s,**kw): s.__dict__.update(kw)
    def __repr__(s): return f'<func {s.qname}/{len(s.params)}>'

class Struct:
    def __init__(s,name,tparams,loc):
        s.name=name; s.tparams=tparams; s.fields=[]; s.methods=[]; s.loc=loc; s.static_consts={}

class Program:
    def __init__(s):
        s.structs={}; s.funcs={}; s.globals={}; s.aliases={}; s.files=[]
    def add(s,f): s.funcs.setdefault(f.qname,[]).append(f)

class Parser:
    def __init__(s,toks,prog):
        s.t=toks; s.p=0; s.prog=prog
        s.types=set(INTTYPES)|{'Timer','string'}
        s.templates={'unique_ptr','make_unique','set','vector','array','static_cast','numeric_limits','uniform_real_distribution','pair','function'}
        s.typeparams=[]   # stack of sets
        # pre-pass: collect template names and struct names
        for i,x in enumerate(toks):
            if x.v in('struct','class','union') and toks[i+1].t=='id': s.types.add(toks[i+1].v)
            if x.v=='using' and toks[i+1].t=='id' and toks[i+2].v=='=': s.types.add(toks[i+1].v)
            if x.v=='template' and toks[i+1].v=='<':
                d=0;j=i+1
                while True:
                    if toks[j].v=='<': d+=1
                    elif toks[j].v=='>': d-=1
                    elif toks[j].v=='>>': d-=2
                    j+=1
                    if d<=0: break
                # find declared name: first identifier followed by '(' or struct X
                while toks[j].v in('inline','static','constexpr','explicit'): j+=1
                if toks[j].v in('struct','class'):
                    s.templates.add(toks[j+1].v); s.types.add(toks[j+1].v)
                elif toks[j].v=='using': s.templates.add(toks[j+1].v); s.types.add(toks[j+1].v)
                else:
                    k=j; prev=None; dd=0
                    while k<len(toks) and toks[k].v not in(';','{'):
                        if toks[k].v=='<': dd+=1
                        elif toks[k].v=='>': dd-=1
                        elif toks[k].v=='>>': dd-=2
                        elif toks[k].v=='(' and dd<=0:
                            if prev is not None and prev.t=='id': s.templates.add(prev.v)
                            break
                        prev=toks[k]; k+=1
    # -- token helpers
    def pk(s,o=0): return s.t[s.p+o] if s.p+o<len(s.t) else Tok('eof','','',0)
    def v(s,o=0): return s.pk(o).v
    def nx(s): t=s.pk(); s.p+=1; return t
    def acc(s,v):
        if s.v()==v: s.p+=1; return True
        return False
    def exp(s,v):
        t=s.nx()
        if t.v!=v: s.err(f'expected {v!r}, got {t.v!r}',t)
        return t
    def err(s,m,t=None):
        t=t or s.pk(); raise ParseError(f'{t.f}:{t.l}: {m}')
    def loc(s): t=s.pk(); return (t.f,t.l)
    def split_gt(s):
        """consume one '>' possibly out of '>>'"""
        t=s.pk()
        if t.v=='>': s.p+=1; return
        if t.v in('>>','>=','>>='):
            s.t=s.t[:s.p]+[Tok('op',t.v[1:],t.f,t.l)]+s.t[s.p+1:]; return
        s.err('expected >')
    # -- types
    def is_type_name(s,n): return n in s.types or any(n in q for q in s.typeparams)
    def at_type(s):
        t=s.pk()
        if t.t!='id': return False
        if t.v in('const','constexpr','static','unsigned','signed','long','short','typename','struct','volatile','register','thread_local','mutable'): return True
        o=0
        while s.pk(o).t=='id' and s.v(o+1)=='::':
            o+=2
        if s.pk(o).t!='id': return False
        nm=s.v(o)
        if o and s.v(0)=='std': return nm in('unique_ptr','set','vector','array','string','uint64_t','uint32_t','size_t','int64_t','int32_t','function','pair')
        return s.is_type_name(nm)
    def targs(s):
        s.exp('<'); out=[]
        if s.v()=='>': s.p+=1; return out
        while True:
            out.append(s.targ())
            if s.acc(','): continue
            s.split_gt(); return out
    def targ(s):
        if s.at_type():
            save=s.p; st=s.t
            try:
                ty=s.type_()
                if s.v() in(',','>','>>','*','&','['):
                    ty=s.ptrs(ty)
                    while s.v()=='[':
                        s.p+=1; d=None if s.v()==']' else s.expr(); s.exp(']'); ty=ty.with_(dims=ty.dims+(d,))
                    return Node('TypeArg',type=ty)
            except ParseError: pass
            s.p=save; s.t=st
        return s.expr_bin(0,nogt=True)
    def type_(s):
        const=False; name=None; targs=None; kws=[]
        while True:
            t=s.pk()
            if t.v in('const',): const=True; s.p+=1; continue
            if t.v in('volatile','typename','struct','inline','static','constexpr','register','mutable','explicit'): s.p+=1; continue
            if name is None and t.v in BASEKW: kws.append(t.v); s.p+=1; continue
            if name is None and not kws and t.t=='id':
                while s.v(1)=='::' : s.p+=2
                t=s.nx()
                name=t.v
                if s.v()=='<' and (name in s.templates or name in s.types):
                    targs=s.targs()
                    if s.v()=='::':   # nested type: unsupported besides ::type
                        s.err('nested type name')
                continue
            break
        if kws:
            u='unsigned' in kws
            if '__int128' in kws: name='u128' if u else 'i128'
            elif 'double' in kws: name='double'
            elif 'float' in kws: name='float'
            elif 'char' in kws: name='uint8_t' if u else 'char'
            elif 'bool' in kws: name='bool'
            elif 'void' in kws: name='void'
            elif 'auto' in kws: name='auto'
            elif 'long' in kws: name='uint64_t' if u else 'int64_t'
            elif 'short' in kws: name='uint16_t' if u else 'int16_t'
            else: name='uint32_t' if u else 'int'
        if name is None: s.err('type expected')
        name={'size_t':'uint64_t','ssize_t':'int64_t','int32_t':'int','__uint128_t':'u128','ptrdiff_t':'int64_t'}.get(name,name)
        return TypeRef(name,targs,const)
    def ptrs(s,ty):
        while True:
            if s.acc('*'):
                ty=ty.with_(ptr=ty.ptr+1)
                while s.v() in('const','__restrict__','__restrict','restrict'): s.p+=1
            elif s.acc('&') or s.acc('&&'): ty=ty.with_(ref=True)
            else: return ty
    # -- expressions
    def expr(s): 
        e=s.assign()
        while s.v()==',':
            loc=s.loc(); s.p+=1
            e=Node('Comma',a=e,b=s.assign(),loc=loc)
        return e
    def assign(s):
        loc=s.loc()
        e=s.ternary()
        if s.v() in ASSIGN:
            op=s.nx().v
            return Node('Assign',op=op,a=e,b=s.init_or_assign(),loc=loc)
        return e
    def init_or_assign(s):
        if s.v()=='{': return s.initlist()
        return s.assign()
    def initlist(s):
        loc=s.loc(); s.exp('{'); xs=[]
        while s.v()!='}':
            xs.append(s.init_or_assign())
            if not s.acc(','): break
        s.exp('}'); return Node('InitList',xs=xs,loc=loc)
    def ternary(s):
        c=s.expr_bin(0)
        if s.v()=='?':
            loc=s.loc(); s.p+=1
            a=s.expr(); s.exp(':'); b=s.assign()
            return Node('Cond',c=c,a=a,b=b,loc=loc)
        return c
    def expr_bin(s,prec,nogt=False):
        e=s.unary()
        while True:
            op=s.v(); 
            if s.pk().t!='op' or op not in BINPREC: return e
            if nogt and op in('>','>>','>='): return e
            q=BINPREC[op]
            if q<=prec: return e
            loc=s.loc(); s.p+=1
            r=s.expr_bin(q,nogt)
            e=Node('Binary',op=op,a=e,b=r,loc=loc)
    def unary(s):
        t=s.pk(); loc=s.loc()
        if t.t=='op':
            if t.v in('-','+','!','~','*','&'):
                s.p+=1; return Node('Unary',op=t.v,e=s.unary(),loc=loc)
            if t.v in('++','--'):
                s.p+=1; return Node('PreInc',op=t.v,e=s.unary(),loc=loc)
            if t.v=='(':
                # cast?
                save=s.p; st=s.t; s.p+=1
                if s.at_type():
                    try:
                        ty=s.ptrs(s.type_())
                        if s.v()==')':
                            s.p+=1
                            nt=s.pk()
                            if nt.t in('id','num','chr','str') or nt.v in('(','-','!','~','*','&','+'):
                                return Node('Cast',type=ty,e=s.unary(),loc=loc)
                    except ParseError: pass
                s.p=save; s.t=st
        if t.v=='new':
            s.p+=1; ty=s.type_(); ty=s.ptrs(ty)
            if s.acc('['):
                n=s.expr(); s.exp(']')
                if s.acc('('): s.exp(')')
                return Node('NewArr',type=ty,n=n,loc=loc)
            args=[]
            if s.v()=='(': args=s.args()
            elif s.v()=='{': args=s.initlist().xs
            return Node('New',type=ty,args=args,loc=loc)
        if t.v=='delete':
            s.p+=1
            if s.acc('['): s.exp(']')
            return Node('Delete',e=s.unary(),loc=loc)
        if t.v=='sizeof':
            s.p+=1
            if s.v()=='(':
                s.p+=1
                if s.at_type(): ty=s.ptrs(s.type_()); s.exp(')'); return Node('SizeofT',type=ty,loc=loc)
                e=s.expr(); s.exp(')'); return Node('SizeofE',e=e,loc=loc)
            return Node('SizeofE',e=s.unary(),loc=loc)
        return s.postfix()
    def args(s):
        s.exp('('); xs=[]
        if s.acc(')'): return xs
        while True:
            xs.append(s.init_or_assign())
            if s.acc(','): continue
            s.exp(')'); return xs
    def postfix(s):
        e=s.primary()
        while True:
            loc=s.loc(); v=s.v()
            if v=='(':
                e=Node('Call',f=e,args=s.args(),loc=loc)
            elif v=='[':
                s.p+=1; i=s.expr(); s.exp(']'); e=Node('Index',e=e,i=i,loc=loc)
            elif v in('.','->'):
                s.p+=1
                if s.v()=='template': s.p+=1
                if s.v()=='operator':
                    s.p+=1; nm='operator'+s.opname()
                else: nm=s.nx().v
                ta=None
                if s.v()=='<' and nm in s.templates and s.looks_targs(): ta=s.targs()
                e=Node('Member',e=e,name=nm,arrow=v=='->',targs=ta,loc=loc)
            elif v in('++','--') and s.pk().t=='op':
                s.p+=1; e=Node('PostInc',op=v,e=e,loc=loc)
            else: return e
    def opname(s):
        if s.v()=='(' : s.p+=1; s.exp(')'); return '()'
        if s.v()=='[' : s.p+=1; s.exp(']'); return '[]'
        if s.pk().t=='op' and s.v() in OPNAMES: return s.nx().v
        ty=s.ptrs(s.type_()); return ' '+ty.name
    def looks_targs(s):
        """at '<': scan to the matching '>' and see whether ( or :: or { or an identifier follows"""
        d=0;i=s.p
        while i<len(s.t):
            v=s.t[i].v
            if v=='<': d+=1
            elif v=='>': d-=1
            elif v=='>>': d-=2
            elif v in(';','{','}','&&','||'): return False
            elif v=='(' :
                # skip parens
                dd=0
                while i<len(s.t):
                    if s.t[i].v=='(': dd+=1
                    elif s.t[i].v==')':
                        dd-=1
                        if dd==0: break
                    i+=1
            if d<=0: return True
            i+=1
        return False
    def primary(s):
        t=s.pk(); loc=s.loc()
        if t.t=='num':
            s.p+=1; return s.num(t)
        if t.t=='str':
            s.p+=1; v=t.v[1:-1]
            while s.pk().t=='str': v+=s.nx().v[1:-1]
            return Node('Str',v=v,loc=loc)
        if t.t=='chr':
            s.p+=1; c=t.v[1:-1]
            c={'\\n':'\n','\\0':'\0','\\t':'\t','\\\\':'\\',"\\'":"'"}.get(c,c)
            return Node('Num',v=ord(c),ty='char',loc=loc)
        if t.v=='(':
            s.p+=1; e=s.expr(); s.exp(')'); return Node('Paren',e=e,loc=loc)
        if t.v=='[': return s.lambda_()
        if t.v=='{': return s.initlist()
        if t.v in('true','false'): s.p+=1; return Node('Bool',v=t.v=='true',loc=loc)
        if t.v=='nullptr' or t.v=='NULL': s.p+=1; return Node('Null',loc=loc)
        if t.v=='this': s.p+=1; return Node('This',loc=loc)
        if t.v in('static_cast','reinterpret_cast','const_cast'):
            s.p+=1; s.exp('<'); ty=s.ptrs(s.type_()); s.split_gt(); s.exp('('); e=s.expr(); s.exp(')')
            return Node('Cast',type=ty,e=e,loc=loc)
        if t.t=='id' or t.v=='::':
            if t.v=='::': s.p+=1
            quals=[]
            # functional cast / construct of builtin type names
            if s.pk().v in BASEKW and s.pk().v!='auto':
                ty=s.type_()
                if s.v()=='(' : a=s.args()
                else: a=s.initlist().xs
                return Node('Construct',type=ty,args=a,loc=loc)
            while True:
                n=s.nx()
                if n.t!='id': s.err('identifier expected',n)
                ta=None
                if n.v=='operator': 
                    return Node('Id',name='operator'+s.opname(),targs=None,quals=quals,loc=loc)
                if s.v()=='<' and (n.v in s.templates) and s.looks_targs():
                    ta=s.targs()
                if s.v()=='::':
                    s.p+=1; quals.append((n.v,ta)); continue
                break
            if s.is_type_name(n.v) and s.v() in('(','{') and not (n.v in s.prog.funcs):
                ty=TypeRef({'size_t':'uint64_t'}.get(n.v,n.v),ta)
                a=s.args() if s.v()=='(' else s.initlist().xs
                return Node('Construct',type=ty,args=a,loc=loc)
            return Node('Id',name=n.v,targs=ta,quals=quals,loc=loc)
        s.err(f'unexpected {t.v!r}')
    def lambda_(s):
        loc=s.loc(); s.exp('['); cap=[]
        while s.v()!=']': cap.append(s.nx().v)
        s.exp(']'); params=[]
        if s.v()=='(': params=s.params()
        if s.acc('mutable'): pass
        if s.acc('noexcept'): pass
        rt=None
        if s.acc('->'): rt=s.ptrs(s.type_())
        body=s.block()
        return Node('Lambda',cap=cap,params=params,body=body,ret=rt,loc=loc)
    def num(s,t):
        loc=(t.f,t.l); v=t.v.replace("'",'')
        if re.match(r'^0[xX]',v):
            m=re.match(r'^(0[xX][0-9a-fA-F]+)([uUlL]*)$',v); x=int(m.group(1),16); suf=m.group(2).lower(); dec=False
        elif re.match(r'^0[bB]',v):
            m=re.match(r'^(0[bB][01]+)([uUlL]*)$',v); x=int(m.group(1),2); suf=m.group(2).lower(); dec=False
        elif re.search(r'[.eE]',v):
            return Node('Float',v=Fraction(v.rstrip('fFlL')),loc=loc)
        else:
            m=re.match(r'^(\d+)([uUlLfF]*)$',v); suf=m.group(2).lower()
            if 'f' in suf: return Node('Float',v=Fraction(m.group(1)),loc=loc)
            x=int(m.group(1)); dec=True
            if m.group(1)!='0' and m.group(1).startswith('0'): x=int(m.group(1),8); dec=False
        u='u' in suf; l='l' in suf
        if u: ty='uint64_t' if l or x>=2**32 else 'uint32_t'
        else:
            if not l and x<2**31: ty='int'
            elif not dec and not l and x<2**32: ty='uint32_t'
            elif x<2**63: ty='int64_t'
            else: ty='uint64_t'
        return Node('Num',v=x,ty=ty,loc=loc)
    # -- statements
    def block(s):
        loc=s.loc(); s.exp('{'); xs=[]
        while s.v()!='}': 
            st=s.stmt()
            if st is not None: xs.append(st)
        s.exp('}'); return Node('Block',xs=xs,loc=loc)
    def stmt(s):
        t=s.pk(); loc=s.loc()
        if t.t=='pragma':
            s.p+=1; st=s.stmt()
            if st is None: s.err('pragma without statement',t)
            st.pragma=t.v; return st
        if t.v=='{': return s.block()
        if t.v==';': s.p+=1; return None
        if t.v=='if':
            s.p+=1
            if s.acc('constexpr'): pass
            s.exp('('); ini=None
            if s.at_type() and s.decl_ahead():
                ini=s.declstmt()   # consumes ';'
                c=s.expr()
            else: c=s.expr()
            s.exp(')'); a=s.stmt() or Node('Block',xs=[],loc=loc); b=None
            if s.acc('else'): b=s.stmt() or Node('Block',xs=[],loc=loc)
            n=Node('If',c=c,a=a,b=b,loc=loc)
            return Node('Block',xs=[ini,n],loc=loc) if ini else n
        if t.v=='for':
            s.p+=1; s.exp('(')
            # range for?
            save=s.p; st0=s.t
            if s.at_type():
                try:
                    ty=s.ptrs(s.type_()); nm=s.nx()
                    if s.v()==':' and nm.t=='id':
                        s.p+=1; e=s.expr(); s.exp(')'); b=s.stmt() or Node('Block',xs=[],loc=loc)
                        return Node('RangeFor',type=ty,name=nm.v,e=e,body=b,loc=loc)
                except ParseError: pass
                s.p=save; s.t=st0
            ini=None
            if not s.acc(';'):
                if s.at_type() and s.decl_ahead(): ini=s.declstmt()
                else: ini=Node('Expr',e=s.expr(),loc=loc); s.exp(';')
            c=None if s.v()==';' else s.expr()
            s.exp(';')
            inc=None if s.v()==')' else s.expr()
            s.exp(')'); b=s.stmt() or Node('Block',xs=[],loc=loc)
            return Node('For',init=ini,c=c,inc=inc,body=b,loc=loc)
        if t.v=='while':
            s.p+=1; s.exp('('); c=s.expr(); s.exp(')'); b=s.stmt() or Node('Block',xs=[],loc=loc)
            return Node('For',init=None,c=c,inc=None,body=b,loc=loc)
        if t.v=='do':
            s.p+=1; b=s.stmt(); s.exp('while'); s.exp('('); c=s.expr(); s.exp(')'); s.exp(';')
            return Node('Do',c=c,body=b,loc=loc)
        if t.v=='return':
            s.p+=1; e=None if s.v()==';' else s.init_or_assign_expr()
            s.exp(';'); return Node('Return',e=e,loc=loc)
        if t.v=='break': s.p+=1; s.exp(';'); return Node('Break',loc=loc)
        if t.v=='continue': s.p+=1; s.exp(';'); return Node('Continue',loc=loc)
        if t.v=='using' or t.v=='typedef':
            return s.using()
        if t.v=='static_assert':
            s.p+=1; s.args(); s.exp(';'); return None
        if s.at_type() and s.decl_ahead(): return s.declstmt()
        e=s.expr(); s.exp(';')
        return Node('Expr',e=e,loc=loc)
    def init_or_assign_expr(s):
        if s.v()=='{': return s.initlist()
        return s.expr()
    def using(s):
        if s.acc('typedef'):
            ty=s.ptrs(s.type_()); nm=s.nx().v; dims=[]
            s.exp(';'); s.types.add(nm); s.prog.aliases[nm]=(None,ty); return None
        s.p+=1
        if s.v()=='namespace':
            while not s.acc(';'): s.p+=1
            return None
        nm=s.nx().v
        if s.v()=='=':
            s.p+=1; ty=s.ptrs(s.type_())
            while s.v()=='[':
                s.p+=1; d=s.expr(); s.exp(']'); ty=ty.with_(dims=ty.dims+(d,))
            s.exp(';'); s.types.add(nm); s.prog.aliases[nm]=(s.cur_tparams(),ty)
        else:
            while not s.acc(';'): s.p+=1
        return None
    def cur_tparams(s): return getattr(s,'_tp',None)
    def decl_ahead(s):
        """at a type: is this a declaration (type followed by declarator)?"""
        save=s.p; st=s.t
        try:
            while s.v() in('static','constexpr','inline','thread_local'): s.p+=1
            ty=s.type_(); ty=s.ptrs(ty)
            ok=s.pk().t=='id' and s.v(1) in('=',';',',','(','[','{',':') or (s.v()=='[' and ty.name=='auto')
            return ok
        except ParseError: return False
        finally: s.p=save; s.t=st
    def declstmt(s):
        loc=s.loc(); static=False; cexpr=False
        while s.v() in('static','constexpr','inline','thread_local'):
            if s.v()=='static': static=True
            if s.v()=='constexpr': cexpr=True
            s.p+=1
        # 'const static' order
        base=s.type_()
        ds=[]
        while True:
            ty=s.ptrs(base); nm=s.nx()
            if nm.t!='id': s.err('declarator expected',nm)
            dims=[]
            while s.v()=='[':
                s.p+=1; dims.append(None if s.v()==']' else s.expr()); s.exp(']')
            ty=ty.with_(dims=tuple(dims))
            init=None; ctor=None
            if s.acc('='): init=s.init_or_assign()
            elif s.v()=='(': ctor=s.args()
            elif s.v()=='{': init=s.initlist()
            ds.append(Node('Var',name=nm.v,type=ty,init=init,ctor=ctor,static=static,constexpr=cexpr,loc=loc))
            if s.acc(','): continue
            s.exp(';'); break
        return Node('Decl',ds=ds,loc=loc)
    # -- top level
    def params(s):
        s.exp('('); ps=[]
        if s.acc(')'): return ps
        if s.v()=='void' and s.v(1)==')': s.p+=2; return ps
        while True:
            ty=s.ptrs(s.type_()); nm=None; dims=[]; dflt=None
            if s.v()=='(' and s.v(1) in('&','*'):   # (&name)[N]
                s.p+=2; nm=s.nx().v; s.exp(')'); ty=ty.with_(ref=False)
            elif s.pk().t=='id': nm=s.nx().v
            while s.v()=='[':
                s.p+=1; dims.append(None if s.v()==']' else s.expr()); s.exp(']')
            ty=ty.with_(dims=tuple(dims))
            if s.acc('='): dflt=s.assign()
            ps.append(Node('Param',name=nm,type=ty,default=dflt))
            if s.acc(','): continue
            s.exp(')'); return ps
    def tparams(s):
        s.exp('template'); s.exp('<'); out=[]
        if s.v()=='>': s.p+=1; return out
        while True:
            if s.v() in('class','typename'):
                s.p+=1; va=s.acc('...')
                nm=s.nx().v if s.pk().t=='id' else '_'; out.append(('type',nm,None))
                if s.acc('='): s.targ()
            else:
                ty=s.type_(); ty=s.ptrs(ty); nm=s.nx().v if s.pk().t=='id' else '_'; d=None
                if s.acc('='): d=s.expr_bin(0,nogt=True)
                out.append((ty.name,nm,d))
            if s.acc(','): continue
            s.split_gt(); return out
    def unit(s):
        while s.pk().t!='eof': s.top()
    def top(s):
        t=s.pk()
        if t.v==';': s.p+=1; return
        if t.t=='pragma': s.p+=1; return
        if t.v=='namespace' or (t.v=='inline' and s.v(1)=='namespace'):
            if t.v=='inline': s.p+=1
            s.p+=1
            while s.pk().t=='id' or s.v()=='::': s.p+=1
            s.exp('{')
            while s.v()!='}': s.top()
            s.exp('}'); return
        if t.v=='extern' and s.pk(1).t=='str':
            s.p+=2
            if s.v()=='{':
                s.p+=1
                while s.v()!='}': s.top()
                s.exp('}')
            else: s.top()
            return
        if t.v in('using','typedef'): s._tp=[]; s.using(); return
        if t.v=='static_assert': s.p+=1; s.args(); s.exp(';'); return
        tps=[]
        while s.v()=='template': tps=tps+s.tparams()
        s.typeparams.append({n for k,n,_ in tps if k=='type'})
        s._tp=tps
        try: s.decl(tps)
        finally: s.typeparams.pop()
    def decl(s,tps):
        loc=s.loc()
        if s.v()=='using': s.using(); return
        if s.v() in('struct','class') and (s.v(2) in('{',':',';')):
            kw=s.nx().v; nm=s.nx().v
            if s.acc(';'): return
            if s.v()==':': s.err('inheritance')
            st=Struct(nm,tps,loc); s.prog.structs[nm]=st; s.types.add(nm)
            s.struct_body(st); s.exp(';'); return
        if s.v()=='enum': s.err('enum')
        s.func_or_var(tps,None)
    def struct_body(s,st):
        s.exp('{')
        while s.v()!='}':
            if s.v() in('public','private','protected') and s.v(1)==':': s.p+=2; continue
            if s.v()==';': s.p+=1; continue
            if s.v()=='using': s.using(); continue
            if s.v()=='static_assert': s.p+=1; s.args(); s.exp(';'); continue
            tps=[]
            while s.v()=='template': tps=tps+s.tparams()
            s.typeparams.append({n for k,n,_ in tps if k=='type'})
            try: s.func_or_var(tps,st)
            finally: s.typeparams.pop()
        s.exp('}')
    def func_or_var(s,tps,st):
        loc=s.loc(); static=False
        while s.v() in('static','inline','constexpr','explicit','extern','virtual','friend','[') and s.v()!='[':
            if s.v()=='static': static=True
            s.p+=1
        while s.v()=='[' and s.v(1)=='[':
            while s.v()!=']': s.p+=1
            s.p+=2
        # constructor inside struct:  Name(   or Name<..>(
        if st is not None:
            if s.v()=='~': 
                s.p+=2; s.params(); s.skip_body(); return
            if s.v()==st.name:
                save=s.p
                s.p+=1
                if s.v()=='<': s.targs()
                if s.v()=='(': return s.func_rest(tps,st,st.name,None,loc,static,ctor=True)
                s.p=save
            if s.v()=='operator':
                s.p+=1; nm='operator'+s.opname()
                return s.func_rest(tps,st,nm,None,loc,static)
        else:
            # out of class ctor: Name<...>::Name(
            if s.pk().t=='id' and s.v() in s.prog.structs:
                save=s.p; st0=s.t
                n=s.nx().v
                if s.v()=='<': ta=s.targs()
                if s.v()=='::':
                    s.p+=1
                    if s.v()==n and s.v(1)=='(':
                        s.p+=1; return s.func_rest(tps,s.prog.structs[n],n,None,loc,static,ctor=True,outer=True)
                    if s.v()=='operator':
                        s.p+=1; nm='operator'+s.opname()
                        return s.func_rest(tps,s.prog.structs[n],nm,None,loc,static,outer=True)
                s.p=save; s.t=st0
        rt=s.ptrs(s.type_())
        # name (maybe qualified)
        owner=None
        nm=s.nx()
        if nm.v=='operator': name='operator'+s.opname()
        else:
            name=nm.v
            while True:
                save=s.p; st0=s.t
                if s.v()=='<':
                    try: s.targs()
                    except ParseError: s.p=save; s.t=st0
                if s.v()=='::':
                    s.p+=1; owner=name
                    n2=s.nx(); name='operator'+s.opname() if n2.v=='operator' else n2.v
                    continue
                break
        if s.v()=='(' and not (st is None and owner is None and not s.func_params_ahead()):
            so=st if st is not None else (s.prog.structs.get(owner) if owner else None)
            if owner and so is None: s.err(f'unknown owner {owner}')
            return s.func_rest(tps,so,name,rt,loc,static,outer=owner is not None)
        # variable(s)
        while True:
            dims=[]
            while s.v()=='[':
                s.p+=1; dims.append(None if s.v()==']' else s.expr()); s.exp(']')
            init=None; ctor=None
            if s.acc('='): init=s.init_or_assign()
            elif s.v()=='{': init=s.initlist()
            elif s.v()=='(': ctor=s.args()
            ty=rt.with_(dims=tuple(dims))
            v=Node('Var',name=name,type=ty,init=init,ctor=ctor,static=False,constexpr=True,loc=loc)
            if st is not None:
                if static: st.static_consts[name]=v
                else: st.fields.append(v)
            elif owner is None: s.prog.globals[name]=v
            if s.acc(','):
                rt=rt.with_(ptr=0,ref=False); rt=s.ptrs(rt); name=s.nx().v; continue
            s.exp(';'); return
    def func_params_ahead(s):
        # '(' ')' or '(' type
        if s.v(1)==')': return True
        save=s.p; s.p+=1
        r=s.at_type(); s.p=save; return r
    def skip_body(s):
        if s.acc(';'): return
        if s.acc('='): s.p+=1; s.exp(';'); return
        s.block()
    def func_rest(s,tps,st,name,rt,loc,static,ctor=False,outer=False):
        ps=s.params(); const=False; inits=[]
        while s.v() in('const','noexcept','override'):
            const=const or s.v()=='const'; s.p+=1
        if s.acc('->'): rt=s.ptrs(s.type_())
        if s.v()==':' and ctor:
            s.p+=1
            while True:
                f=s.nx().v
                a=s.args() if s.v()=='(' else s.initlist().xs
                inits.append((f,a))
                if not s.acc(','): break
        body=None
        if s.v()=='=':
            s.p+=1; kind=s.nx().v; s.exp(';')
            if kind=='default': body=Node('Block',xs=[],loc=loc); 
            return
        if s.v()=='{':
            start=s.p; body=s.block(); toks=s.t[start:s.p]
        else: s.exp(';'); toks=[]
        qn=(st.name+'::' if st else '')+name
        own_tps=list(st.tparams) if (st and not outer) else []
        if st and outer and len(tps)<len(st.tparams): own_tps=[]
        f=Func(name=name,qname=qn,struct=st.name if st else None,tparams=own_tps+tps,nstruct=len(st.tparams) if st else 0,
               params=ps,ret=rt,body=body,const=const,ctor=ctor,inits=inits,static=static,loc=loc,
               text=' '.join(t.v for t in toks))
        if body is None:
            s.prog.__dict__.setdefault('decls',{}).setdefault(qn,[]).append(f)
            if st is not None and static: s.prog.__dict__.setdefault('static_methods',set()).add(qn)
            return
        if qn in s.prog.__dict__.get('static_methods',()): f.static=True
        s.prog.add(f)
        if st is not None: st.methods.append(f)

def parse(root,heads):
    prog=Program(); pp=Preproc(os.path.join(root,'include'))
    toks=[]
    for h in heads: toks+=pp.file(os.path.join(root,'include',h))
    P=Parser(toks,prog); P.unit()
    prog.files=pp.files
    # static methods declared in-class, defined out of class
    return prog

HEADS=['HEAAN/bootstrap.h','impl/message.h','impl/plaintext.h','impl/simple_plaintext.h']
def load(root='/repo'): return parse(root,HEADS)

if __name__=='__main__':
    import sys
    pr=load(sys.argv[1] if len(sys.argv)>1 else '/repo')
    for k,v in pr.funcs.items():
        for f in v: print(k,[ (p.type,p.name) for p in f.params],f.loc)
