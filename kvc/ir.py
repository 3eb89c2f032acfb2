"""Parser for the textual LLVM-18 IR (opaque pointers) that clang emits from the real sources.

Only the constructs that occur in the extracted functions are supported; anything else raises
Unsupported, which surfaces as an undischarged obligation (never as a silent success).
"""
import re

class Unsupported(Exception):
    pass

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cmt>;[^\n]*)
 | (?P<loc>%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+)
 | (?P<glob>@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)
 | (?P<meta>!"(?:[^"\\]|\\.)*"|![-a-zA-Z$._0-9]*)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<word>\$?[a-zA-Z_.][-a-zA-Z0-9_.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[-+=,(){}\[\]<>*|:])
''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token at: ' + s[i:i+60])
        k = m.lastgroup
        if k not in ('ws', 'cmt'):
            out.append((k, m.group()))
        i = m.end()
    return out

# ---------------------------------------------------------------- types
class Ty: pass
class IntTy(Ty):
    def __init__(s, w): s.w = w
    def __repr__(s): return 'i%d' % s.w
    def size(s): 
        b = (s.w + 7)//8
        r = 1
        while r < b: r *= 2
        return r
    def align(s): return min(s.size(), 16)
class PtrTy(Ty):
    def __repr__(s): return 'ptr'
    def size(s): return 8
    def align(s): return 8
class FpTy(Ty):
    def __init__(s, n): s.n = n
    def __repr__(s): return s.n
    def size(s): return {'half':2,'float':4,'double':8,'x86_fp80':16,'fp128':16}[s.n]
    def align(s): return s.size()
class VoidTy(Ty):
    def __repr__(s): return 'void'
    def size(s): return 0
class ArrTy(Ty):
    def __init__(s, n, e): s.n=n; s.e=e
    def __repr__(s): return '[%d x %r]'%(s.n,s.e)
    def size(s): return s.n*s.e.size()
    def align(s): return s.e.align()
class VecTy(ArrTy):
    def __repr__(s): return '<%d x %r>'%(s.n,s.e)
    def align(s): return s.size()
class StructTy(Ty):
    def __init__(s, fs, packed=False, name=None): s.fs=fs; s.packed=packed; s.name=name
    def __repr__(s): return s.name or '{%s}'%','.join(map(repr,s.fs))
    def layout(s):
        o=0; offs=[]; al=1
        for f in s.fs:
            a = 1 if s.packed else f.align()
            al=max(al,a)
            o=(o+a-1)//a*a
            offs.append(o); o+=f.size()
        o=(o+al-1)//al*al
        return offs,o,al
    def size(s): return s.layout()[1]
    def align(s): return s.layout()[2]
class NamedTy(Ty):
    def __init__(s, mod, name): s.mod=mod; s.name=name
    def res(s):
        t=s.mod.types.get(s.name)
        if t is None: raise Unsupported('opaque type '+s.name)
        return t
    def size(s): return s.res().size()
    def align(s): return s.res().align()
    def __repr__(s): return s.name
class OpaqueTy(Ty):
    def size(s): raise Unsupported('opaque')
class MetaTy(Ty): pass

def R(t):
    return t.res() if isinstance(t, NamedTy) else t

# ---------------------------------------------------------------- values
class V: __slots__=()
class Loc(V):
    __slots__=('n',)
    def __init__(s,n): s.n=n
    def __repr__(s): return s.n
class Glob(V):
    __slots__=('n',)
    def __init__(s,n): s.n=n
    def __repr__(s): return s.n
class CInt(V):
    __slots__=('v',)
    def __init__(s,v): s.v=v
    def __repr__(s): return str(s.v)
class CNull(V):
    __slots__=()
    def __repr__(s): return 'null'
class CUndef(V): __slots__=()
class CZero(V): __slots__=()
class CFp(V):
    __slots__=('v',)
    def __init__(s,v): s.v=v
class CAgg(V):
    __slots__=('els',)
    def __init__(s,els): s.els=els
class CStr(V):
    __slots__=('s',)
    def __init__(s,x): s.s=x
class CExpr(V):
    __slots__=('op','args','ty')
    def __init__(s,op,args,ty): s.op=op; s.args=args; s.ty=ty
class MetaV(V): __slots__=()

class Instr:
    __slots__=('op','res','ty','args','x','dbg','text')
    def __init__(s,op,res=None,ty=None,args=(),**x):
        s.op=op; s.res=res; s.ty=ty; s.args=args; s.x=x; s.dbg=None; s.text=''
    def __repr__(s): return s.text

class Func:
    def __init__(s,name): s.name=name; s.params=[]; s.ret=None; s.blocks={}; s.order=[]; s.defined=False

PARAM_ATTRS={'noundef','nonnull','nocapture','readonly','writeonly','readnone','signext','zeroext','inreg','noalias','returned','immarg','swiftself','nofree','nest','writable','allocptr','dead_on_unwind','inalloca'}
PAREN_ATTRS={'dereferenceable','dereferenceable_or_null','byval','sret','align','elementtype','memory','captures','range','byref','preallocated','initializes','nofpclass'}

class P:
    def __init__(s, toks, mod): s.t=toks; s.i=0; s.mod=mod
    def pk(s,k=0): return s.t[s.i+k] if s.i+k<len(s.t) else ('eof','')
    def nx(s): r=s.pk(); s.i+=1; return r
    def at(s,v): return s.pk()[1]==v
    def acc(s,v):
        if s.at(v): s.i+=1; return True
        return False
    def ex(s,v):
        if not s.acc(v): raise Unsupported('expected %s got %r in %r'%(v,s.pk(),' '.join(x[1] for x in s.t)[:300]))
    def ty(s):
        k,v=s.nx()
        if k=='word':
            if re.fullmatch(r'i\d+',v): t=IntTy(int(v[1:]))
            elif v=='ptr':
                t=PtrTy()
                if s.at('addrspace'): s.nx(); s.skipparen()
            elif v in('float','double','half','x86_fp80','fp128'): t=FpTy(v)
            elif v=='void': t=VoidTy()
            elif v=='metadata': t=MetaTy()
            elif v in('label','token'): t=OpaqueTy()
            elif v=='opaque': t=OpaqueTy()
            else: raise Unsupported('type '+v)
        elif k=='loc': t=NamedTy(s.mod,v)
        elif v=='[':
            n=int(s.nx()[1]); s.ex('x'); e=s.ty(); s.ex(']'); t=ArrTy(n,e)
        elif v=='<':
            if s.at('{'):
                s.nx(); fs=s.tylist('}'); s.ex('>'); t=StructTy(fs,True)
            else:
                n=int(s.nx()[1]); s.ex('x'); e=s.ty(); s.ex('>'); t=VecTy(n,e)
        elif v=='{':
            t=StructTy(s.tylist('}'))
        else: raise Unsupported('type tok %r'%((k,v),))
        # function type suffix
        if s.at('(') :
            s.skipparen(); t=OpaqueTy()
        return t
    def tylist(s,end):
        fs=[]
        while not s.acc(end):
            fs.append(s.ty()); s.acc(',')
        return fs
    def skipparen(s):
        s.ex('('); d=1
        while d:
            v=s.nx()
            if v[1]=='(': d+=1
            elif v[1]==')': d-=1
            elif v[0]=='eof': raise Unsupported('paren')
    def attrs(s):
        while True:
            k,v=s.pk()
            if k=='word' and v in PARAM_ATTRS: s.nx()
            elif k=='word' and v in PAREN_ATTRS:
                s.nx()
                if s.at('('): s.skipparen()
                elif v=='align': s.nx()
            elif k=='attr': s.nx()
            elif k=='str': 
                s.nx()
                if s.acc('='): s.nx()
            else: return
    def val(s,ty=None):
        k,v=s.nx()
        if k=='loc': return Loc(v)
        if k=='glob': return Glob(v)
        if k=='num':
            if isinstance(R(ty) if ty else None,FpTy): return CFp(v)
            return CInt(int(v))
        if k=='word':
            if v=='true': return CInt(1)
            if v=='false': return CInt(0)
            if v=='null': return CNull()
            if v in('undef','poison'): return CUndef()
            if v=='zeroinitializer': return CZero()
            if v in('getelementptr',):
                inb=s.acc('inbounds'); 
                s.ex('('); st=s.ty(); s.ex(',')
                args=s.tvlist(')')
                return CExpr('gep',args,st)
            if v in('ptrtoint','inttoptr','bitcast','trunc','zext','sext','addrspacecast'):
                s.ex('('); t=s.ty(); a=s.val(t); s.ex('to'); t2=s.ty(); s.ex(')')
                return CExpr(v,[(t,a)],t2)
            if v in('add','sub','mul','and','or','xor','shl','lshr','icmp','select'):
                while s.pk()[0]=='word' and s.pk()[1] in('nsw','nuw','eq','ne','ult','ugt'): s.nx()
                s.ex('('); args=s.tvlist(')')
                return CExpr(v,args,args[0][0])
            if v in('blockaddress','dso_local_equivalent','no_cfi'): raise Unsupported(v)
        if v=='{' or v=='[' or v=='<':
            if v=='<' and s.acc('{'): end='}'
            else: end={'{':'}','[':']','<':'>'}[v]
            els=[]
            while not s.acc(end):
                t=s.ty(); els.append((t,s.val(t))); s.acc(',')
            if v=='<' and end=='}': s.ex('>')
            return CAgg(els)
        if k=='str': return CStr(v)
        if k=='meta':
            # metadata operand: skip
            if s.at('('): s.skipparen()
            return MetaV()
        raise Unsupported('value %r'%((k,v),))
    def tv(s):
        t=s.ty(); s.attrs()
        if isinstance(t,MetaTy):
            k,v=s.pk()
            if k=='meta': s.nx(); 
            else: s.tv()
            if s.at('('): s.skipparen()
            return (t,MetaV())
        return (t,s.val(t))
    def tvlist(s,end):
        r=[]
        while not s.acc(end):
            s.acc('inrange')
            r.append(s.tv()); s.acc(',')
        return r

FLAGS={'nsw','nuw','exact','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','disjoint','nneg','inbounds','samesign','inrange'}
BIN={'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CAST={'zext','sext','trunc','bitcast','ptrtoint','inttoptr','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc','addrspacecast'}

class Module:
    def __init__(m): m.types={}; m.funcs={}; m.globals={}; m.loc={}; m.scope={}; m.files={}; m.inl={}

def cstr(v):
    """bytes of an IR string constant c\"...\""""
    v=v[1:] if v.startswith('c') else v
    v=v.strip('"'); o=[]; i=0
    while i<len(v):
        if v[i]=='\\': o.append(int(v[i+1:i+3],16)); i+=3
        else: o.append(ord(v[i])); i+=1
    return o

def parse_params(p):
    ps=[]; va=False
    p.ex('(')
    while not p.acc(')'):
        if p.acc('...'): va=True; continue
        t=p.ty(); p.attrs()
        n=None
        if p.pk()[0]=='loc': n=p.nx()[1]
        ps.append((t,n)); p.acc(',')
    return ps

HDR_SKIP={'define','declare','dso_local','internal','linkonce_odr','weak_odr','weak','private','external','available_externally','hidden','local_unnamed_addr','unnamed_addr','noundef','nonnull','noalias','signext','zeroext','fastcc','linkonce','dso_preemptable','protected','inreg','readonly'}

def parse_module(text):
    m=Module()
    lines=text.split('\n')
    i=0; n=len(lines)
    while i<n:
        l=lines[i]
        if l.startswith('%') and ' = type ' in l:
            name,rest=l.split(' = type ',1)
            p=P(tokenize(rest),m)
            t=p.ty()
            if isinstance(t,StructTy): t.name=name
            m.types[name]=t
        elif l.startswith('@'):
            name=l.split(' = ',1)[0]
            m.globals[name]=l
        elif l.startswith('define ') or l.startswith('declare '):
            defined=l.startswith('define ')
            hdr=l
            try: f=parse_header(hdr,m)
            except Unsupported as ex:
                nm_=re.search(r'@("(?:[^"]*)"|[-a-zA-Z$._0-9]+)\(',hdr)
                f=Func(nm_[0][:-1]); f.ret=None; f.params=[]; f.bad=str(ex)
            f.defined=defined
            m.funcs[f.name]=f
            if defined:
                j=i+1; body=[]
                while lines[j]!='}':
                    body.append(lines[j]); j+=1
                f._body=body
                i=j
        elif l.startswith('!'):
            mm=re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)(?:, column: (\d+))?, scope: !(\d+)(?:, inlinedAt: !(\d+))?',l)
            if mm: m.loc[int(mm[1])]=(int(mm[2]),int(mm[4]),int(mm[5]) if mm[5] else None)
            else:
                mm=re.match(r'!(\d+) = (?:distinct )?!(DISubprogram|DILexicalBlock|DILexicalBlockFile)\((.*)\)',l)
                if mm:
                    nm=re.search(r'name: "([^"]*)"',mm[3]); fl=re.search(r'file: !(\d+)',mm[3]); sc=re.search(r'scope: !(\d+)',mm[3])
                    m.scope[int(mm[1])]=(nm[1] if nm else None,int(fl[1]) if fl else None,int(sc[1]) if sc else None)
                else:
                    mm=re.match(r'!(\d+) = (?:distinct )?!DIFile\(filename: "([^"]*)"',l)
                    if mm: m.files[int(mm[1])]=mm[2]
        i+=1
    return m

def parse_header(hdr,m):
    p=P(tokenize(hdr.rstrip('{ ')),m)
    while True:
        k,v=p.pk()
        if k=='word' and v in HDR_SKIP: p.nx(); continue
        if k=='word' and v in PAREN_ATTRS:
            p.nx()
            if p.at('('): p.skipparen()
            else: p.nx()
            continue
        break
    rt=p.ty(); p.attrs()
    nm=p.nx()
    if nm[0]!='glob': raise Unsupported('header '+hdr)
    f=Func(nm[1]); f.ret=rt
    f.params=parse_params(p)
    return f

def parse_body(f,m):
    if f.blocks: return
    cur=None; body=f._body; i=0
    # implicit entry label
    while i<len(body):
        l=body[i].strip(); i+=1
        if not l or l.startswith(';'): continue
        mm=re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):',l)
        if mm and not l.startswith('switch'):
            cur='%'+mm[1]; f.blocks[cur]=[]; f.order.append(cur); continue
        if cur is None:
            cur='%'+str(sum(1 for _ in f.params)); 
            f.blocks[cur]=[]; f.order.append(cur)
        while l.startswith(('switch','%')) and '[' in l and 'switch ' in l[:60] and ']' not in l.split('[',1)[1]:
            l+=' '+body[i].strip(); i+=1
        if re.match(r'^(%\S+ = )?(invoke|landingpad)',l):
            while i<len(body) and body[i].startswith('          '): l+=' '+body[i].strip(); i+=1
        if re.match(r'^(%\S+ = )?(landingpad|resume|cleanupret|catch)',l):
            ins=Instr('unreachable'); ins.text=l
        else:
            try: ins=parse_instr(l,m)
            except Unsupported as ex:
                if re.match(r'^(br|switch|ret|%\S+ = (invoke|phi)|invoke|indirectbr)\b',l): raise
                mm=re.match(r'^(%\S+) = ',l)
                ins=Instr('bad',mm[1] if mm else None); ins.text='unparsed: %s (%s)'%(l[:200],ex)
        f.blocks[cur].append(ins)

def parse_instr(l,m):
    toks=tokenize(l)
    p=P(toks,m)
    res=None
    if p.pk()[0]=='loc' and p.pk(1)[1]=='=':
        res=p.nx()[1]; p.nx()
    k,op=p.nx()
    if op in('tail','musttail','notail'): op=p.nx()[1]
    def flags():
        fl=set()
        while p.pk()[0]=='word' and p.pk()[1] in FLAGS: fl.add(p.nx()[1])
        return fl
    I=None
    if op in BIN:
        fl=flags(); t=p.ty(); a=p.val(t); p.ex(','); b=p.val(t)
        I=Instr(op,res,t,[a,b],flags=fl)
    elif op in CAST:
        fl=flags(); t=p.ty(); a=p.val(t); p.ex('to'); t2=p.ty()
        I=Instr(op,res,t2,[a],src=t,flags=fl)
    elif op in('icmp','fcmp'):
        flags(); pred=p.nx()[1]; t=p.ty(); a=p.val(t); p.ex(','); b=p.val(t)
        I=Instr(op,res,t,[a,b],pred=pred)
    elif op=='fneg':
        flags(); t=p.ty(); a=p.val(t); I=Instr(op,res,t,[a])
    elif op=='select':
        flags(); ct,c=p.tv(); p.ex(','); t,a=p.tv(); p.ex(','); _,b=p.tv()
        I=Instr(op,res,t,[c,a,b])
    elif op=='freeze':
        t,a=p.tv(); I=Instr(op,res,t,[a])
    elif op=='phi':
        flags(); t=p.ty(); inc=[]
        while p.at('['):
            p.nx(); v=p.val(t); p.ex(','); b=p.nx()[1]; p.ex(']'); inc.append((v,b)); p.acc(',')
        I=Instr(op,res,t,[],inc=inc)
    elif op=='br':
        if p.at('label'): p.nx(); I=Instr('jmp',None,None,[],to=p.nx()[1])
        else:
            t,c=p.tv(); p.ex(','); p.ex('label'); a=p.nx()[1]; p.ex(','); p.ex('label'); b=p.nx()[1]
            I=Instr('br',None,None,[c],a=a,b=b)
    elif op=='switch':
        t,c=p.tv(); p.ex(','); p.ex('label'); d=p.nx()[1]; p.ex('['); cs=[]
        while not p.acc(']'):
            _,v=p.tv(); p.ex(','); p.ex('label'); cs.append((v.v,p.nx()[1]))
        I=Instr('switch',None,t,[c],dflt=d,cases=cs)
    elif op=='ret':
        if p.at('void'): I=Instr('ret',None,None,[])
        else:
            t,v=p.tv(); I=Instr('ret',None,t,[v])
    elif op=='unreachable': I=Instr(op)
    elif op=='alloca':
        p.acc('inalloca'); t=p.ty(); I=Instr(op,res,t,[])
        if p.acc(','):
            if p.at('align'): pass
            else:
                nt,nv=p.tv(); I.args=[nv]
    elif op=='load':
        at=p.acc('atomic'); p.acc('volatile'); t=p.ty(); p.ex(','); _,a=p.tv()
        I=Instr(op,res,t,[a],atomic=at)
    elif op=='store':
        at=p.acc('atomic'); p.acc('volatile'); t,v=p.tv(); p.ex(','); _,a=p.tv()
        I=Instr(op,None,t,[v,a],atomic=at)
    elif op=='getelementptr':
        flags(); st=p.ty(); p.ex(','); args=[]
        args.append(p.tv())
        while p.acc(','):
            if p.pk()[0]=='meta': break
            args.append(p.tv())
        I=Instr('gep',res,st,args)
    elif op=='extractvalue':
        t,a=p.tv(); idx=[]
        while p.acc(','):
            if p.pk()[0]=='meta': break
            idx.append(int(p.nx()[1]))
        I=Instr(op,res,t,[a],idx=idx)
    elif op=='insertvalue':
        t,a=p.tv(); p.ex(','); t2,v=p.tv(); idx=[]
        while p.acc(','):
            if p.pk()[0]=='meta': break
            idx.append(int(p.nx()[1]))
        I=Instr(op,res,t,[a,v],idx=idx,vt=t2)
    elif op in('extractelement','insertelement','shufflevector'):
        I=Instr('unsupported',res,None,[])
    elif op=='cmpxchg':
        p.acc('weak'); p.acc('volatile'); _,a=p.tv(); p.ex(','); t,c=p.tv(); p.ex(','); _,n=p.tv()
        I=Instr(op,res,t,[a,c,n])
    elif op=='atomicrmw':
        p.acc('volatile'); o=p.nx()[1]; _,a=p.tv(); p.ex(','); t,v=p.tv()
        I=Instr(op,res,t,[a,v],rop=o)
    elif op=='fence': I=Instr(op)
    elif op in('call','invoke'):
        flags()
        while p.pk()[0]=='word' and p.pk()[1] in HDR_SKIP|{'range'}:
            if p.nx()[1]=='range': p.skipparen()
        p.attrs()
        rt=p.ty(); p.attrs()
        if rt.__class__ is OpaqueTy:
            # vararg function type already swallowed
            pass
        k2,callee=p.nx()
        if k2=='word' and callee=='asm':
            I=Instr('asm',res,rt,[])
        elif k2 in('glob','loc'):
            p.ex('('); args=p.tvlist(')')
            I=Instr('call',res,rt,args,callee=callee,indirect=(k2=='loc'))
            p.attrs()
            if op=='invoke':
                p.ex('to'); p.ex('label'); I.x['normal']=p.nx()[1]; p.ex('unwind'); p.ex('label'); I.x['unwind']=p.nx()[1]
        else: raise Unsupported('call '+l)
    elif op in('landingpad','resume'): I=Instr('unreachable')
    else: raise Unsupported('instr '+l)
    I.text=l
    md=re.search(r'!dbg !(\d+)',l)
    if md: I.dbg=int(md[1])
    return I

def srcloc(m,dbg):
    """human readable source position of an instruction, innermost frame first"""
    out=[]; g=0
    while dbg is not None and dbg in m.loc and g<6:
        line,sc,inl=m.loc[dbg]; g+=1
        s=sc; nm=None; fl=None
        k=0
        while s is not None and s in m.scope and k<20:
            a,b,c=m.scope[s]; k+=1
            fl=fl or b
            if a: nm=a; break
            s=c
        out.append('%s:%d(%s)'%((m.files.get(fl,'?').replace('/repo/','')),line,nm))
        dbg=inl
    return out
