"""Verification-condition generator: path-wise symbolic execution of one extracted function, loops cut
at their headers with inductive invariants (candidate invariants pruned by Houdini), callee contracts at
contracted calls, safety obligations at every memory access / checked arithmetic operation."""
import z3, sys, re
from ir import *
from dom import *

# ---------------------------------------------------------------- memory objects
class Field:
    """one scalar field of a region element"""
    def __init__(s,off,size,signed=False,ptr=None,name=None,is_bool=False,fp=False):
        s.off=off; s.size=size; s.signed=signed; s.ptr=ptr; s.name=name or 'f%d'%off; s.is_bool=is_bool; s.fp=fp
class Region:
    # a hash that does not depend on addresses keeps runs reproducible
    def __hash__(s): return hash(s.name)
    def __eq__(s,o): return s is o
    """a memory object.  stride None: single object with constant offsets (struct).
    stride S: array of S-byte elements.  length: number of elements (term) for bounds obligations."""
    def __init__(s,name,stride=None,fields=(),length=None,shared=False,subs=(),size=None,writable=True,minlen=0,align=1):
        s.name=name; s.stride=stride; s.fields={f.off:f for f in fields}; s.length=length; s.shared=shared
        s.subs=list(subs) # (base,stride,count,Region)
        s.size=size; s.parent=None; s.writable=writable; s.align=align
        for b,st,n,r in s.subs: r.parent=(s,b)
        s.auto=not fields # fields inferred on first access (locals)
    def __repr__(s): return s.name
class Ptr:
    __slots__=('reg','idx','off')
    def __init__(s,reg,idx=0,off=0): s.reg=reg; s.idx=idx; s.off=off
    def __repr__(s): return 'Ptr(%s,%s,%s)'%(s.reg,s.idx,s.off)
NULL=Ptr(None)
class PtrInt:
    """ptrtoint of a Ptr, and byte differences thereof"""
    __slots__=('p',)
    def __init__(s,p): s.p=p
class FnPtr:
    def __init__(s,n): s.n=n
class Agg:
    def __init__(s,els): s.els=list(els)
class Opq:
    """a floating point or otherwise uninterpreted value"""
    def __init__(s,e): s.e=e
FPS=z3.DeclareSort('FP')

class State:
    __slots__=('mem','path','ghost','env','frames','havocked')
    def __init__(s): s.mem={}; s.path=[]; s.ghost={}; s.env={}; s.frames=[]
    def copy(s):
        t=State(); t.mem=dict(s.mem); t.path=list(s.path); t.ghost=dict(s.ghost); t.env=dict(s.env); t.frames=[f.copy() for f in s.frames]
        return t
    def add(s,*cs):
        for c in cs:
            if c is True: continue
            if c is False: c=z3.BoolVal(False)
            s.path.append(c)

class LoopFrame:
    __slots__=('header','writes')
    def __init__(s,h): s.header=h; s.writes=None
    def copy(s): return LoopFrame(s.header)

class Obl:
    __slots__=('name','facts','goal','cand','loc','key','func')
    def __init__(s,name,facts,goal,cand=None,loc='',func=''):
        s.name=name; s.facts=facts; s.goal=goal; s.cand=cand; s.loc=loc; s.func=func

class PathDead(Exception): pass

MAXPATHS=4000

class View:
    """what an invariant template / contract can observe"""
    def __init__(s,E,st,phis=None,entry=None,st0=None,vals=None):
        s.E=E; s.st=st; s.phis=phis or {}; s.entry=entry or {}; s.st0=st0; s.vals=vals
    # arrays / scalars
    def arr(s,reg,off=0,st=None):
        return s.E.getarr(st or s.st,reg,off)
    def arr0(s,reg,off=0):
        return s.E.getarr(s.st0,reg,off)
    def cell(s,reg,off):
        return s.E.getcell(s.st,reg,off)
    def cell0(s,reg,off):
        return s.E.getcell(s.st0,reg,off)

class Exec:
    def __init__(E,mod,fn,dom,contracts=None,unroll=0,cands=None,maxpaths=MAXPATHS,label=None,prune_ms=150,loop_mode=None):
        E.mod=mod; E.fn=fn; E.d=dom; E.contracts=contracts or {}
        E.unroll=unroll; E.cand_templates=cands or []; E.obls=[]; E.maxpaths=maxpaths
        E.label=label or fn.name.strip('@"')
        E.removed=set()      # removed (header,cand) pairs
        E.modset={}          # header -> set of memory keys
        E.grew=False
        E.alloc_hooks={}; E.prune_ms=prune_ms
        E.atomic_hook=None   # fn(E,st,kind,ptr,...) for shared regions
        E.store_hook=None
        E.load_hook=None
        E.on_ret=None; E.loop_mode=loop_mode
        E.assume_nuw=False
        E.nreturns=0; E.ret_paths=[]
        E.candfact={}; E.candkeep=[]; E.used_intrinsics=set(); E.assumed=set(); E.allocas={}; E.alias={}; E.cellfacts={}; E.setup_state=None; E.setup_obls=[]
        if getattr(fn,'bad',None): raise Unsupported('signature of %s: %s'%(fn.name,fn.bad))
        parse_body(fn,mod)
        E.analyse()
    # ------------------------------------------------------------ CFG
    def succs(E,b):
        t=E.fn.blocks[b][-1]
        if t.op=='jmp': return [t.x['to']]
        if t.op=='br': return [t.x['a'],t.x['b']]
        if t.op=='switch': return [t.x['dflt']]+[l for _,l in t.x['cases']]
        if t.op=='call' and 'normal' in t.x: return [t.x['normal']]
        return []
    def analyse(E):
        f=E.fn; entry=f.order[0]
        seen={}; back=[]; preds={}
        stack=[(entry,iter(E.succs(entry)))]; seen[entry]=1
        order=[]
        while stack:
            b,it=stack[-1]
            for s in it:
                preds.setdefault(s,set()).add(b)
                if s not in seen:
                    seen[s]=1; stack.append((s,iter(E.succs(s)))); break
                elif seen[s]==1: back.append((b,s))
            else:
                seen[b]=2; order.append(b); stack.pop()
        E.loops={}
        for b,h in back:
            body=E.loops.setdefault(h,{h}); wl=[b]
            while wl:
                x=wl.pop()
                if x in body: continue
                body.add(x); wl+=list(preds.get(x,()))
        E.preds=preds
        # reducibility: every loop body must be entered only through the header
        for h,body in E.loops.items():
            for x in body:
                if x!=h and x!=entry:
                    if any(p not in body for p in preds.get(x,())): raise Unsupported('irreducible loop in '+f.name)
        # stable loop naming: order of headers in the block list
        E.loopname={h:'loop%d'%i for i,h in enumerate([b for b in f.order if b in E.loops])}
    # ------------------------------------------------------------ obligations
    def oblige(E,st,name,goal,ins=None,cand=None):
        if goal is True: 
            # trivially true: still counted as an obligation (decided by the generator's constant folding)
            E.ntrivial=getattr(E,'ntrivial',0)+1
            return
        loc=' <- '.join(srcloc(E.mod,ins.dbg)) if ins is not None and ins.dbg is not None else ''
        o=Obl(name,list(st.path),B(goal),cand,loc,E.label)
        E.obls.append(o)
    def lemma(E,st,name,goal):
        """a proved fact: becomes an obligation, then is available on the path"""
        E.oblige(st,'lemma: '+name,goal); st.add(goal)
    def safety(E,st,name,goal,ins):
        E.oblige(st,'safety: '+name,goal,ins)
        st.add(goal if goal is not False else False)
    # ------------------------------------------------------------ memory
    def key(E,reg,off): return (reg,off)
    def fps(E,w):
        """sort of floating-point values: IEEE in bit-vector mode, uninterpreted otherwise"""
        if E.d.name!='bv': return FPS
        w=w if isinstance(w,int) else 8*w.size()
        return {64:z3.Float64(),32:z3.Float32()}[w]
    def fpconst(E,t,v):
        if E.d.name!='bv': return Opq(z3.Const('fpc_'+v,FPS))
        so=E.fps(t)
        if v.startswith('0x'):
            x=z3.fpBVToFP(z3.BitVecVal(int(v,16),64),z3.Float64())
            return Opq(z3.simplify(x if so==z3.Float64() else z3.fpFPToFP(z3.RNE(),x,so)))
        return Opq(z3.FPVal(float(v),so))
    def fpop(E,op,t,a,b):
        if E.d.name!='bv': return Opq(z3.Function(op,FPS,FPS,FPS)(a.e,b.e))
        f={'fadd':z3.fpAdd,'fsub':z3.fpSub,'fmul':z3.fpMul,'fdiv':z3.fpDiv}.get(op)
        if not f: raise Unsupported(op)
        return Opq(f(z3.RNE(),a.e,b.e))
    def fpcmp(E,pred,a,b):
        if E.d.name!='bv': return z3.Function('fcmp_'+pred,FPS,FPS,z3.BoolSort())(a,b)
        nan=z3.Or(z3.fpIsNaN(a),z3.fpIsNaN(b))
        if pred in('ord','uno'): return nan if pred=='uno' else z3.Not(nan)
        c={'eq':z3.fpEQ,'lt':z3.fpLT,'le':z3.fpLEQ,'gt':z3.fpGT,'ge':z3.fpGEQ,'ne':lambda x,y:z3.Not(z3.fpEQ(x,y))}[pred[1:]](a,b)
        return z3.And(z3.Not(nan),c) if pred[0]=='o' else z3.Or(nan,c)
    def fieldsort(E,f):
        if f.fp: return E.fps(8*f.size)
        if f.ptr is not None: return E.d.index_sort()
        if f.is_bool: return z3.BoolSort()
        return E.d.elem_sort(f.size*8)
    def getarr(E,st,reg,off):
        k=(reg,off)
        if k not in st.mem:
            f=reg.fields[off]
            if k not in E.initial_mem:
                E.initial_mem[k]=z3.Const(fresh_name('%s.%s'%(reg.name,f.name)),z3.ArraySort(E.d.index_sort(),E.fieldsort(f)))
            st.mem[k]=E.initial_mem[k]
        return st.mem[k]
    def getcell(E,st,reg,off):
        k=(reg,off)
        if k not in st.mem:
            f=reg.fields[off]
            if k not in E.initial_mem:
                facts=[]
                E.initial_mem[k]=E.freshcell(reg,f,facts); E.cellfacts[k]=facts
            st.mem[k]=E.initial_mem[k]; st.path+=E.cellfacts[k]
        return st.mem[k]
    def freshcell(E,reg,f,facts):
        nm='%s.%s'%(reg.name,f.name)
        if f.fp: return Opq(z3.Const(fresh_name(nm),E.fps(8*f.size)))
        if f.ptr is not None:
            if isinstance(f.ptr,Ptr): return f.ptr
            i=z3.Const(fresh_name(nm+'.idx'),E.d.index_sort())
            if f.ptr.stride is None: return Ptr(f.ptr,0,0)
            return Ptr(f.ptr,i,0)
        if f.is_bool: return z3.Bool(fresh_name(nm))
        return E.d.fresh(f.size*8,nm,f.signed,facts)
    def resolve(E,p):
        """redirect constant offsets that fall in a declared inner array"""
        while p.reg is not None and p.reg.stride is None and p.reg.subs and isc(p.off):
            for b,stn,n,r in p.reg.subs:
                if b<=p.off<b+stn*n:
                    d=p.off-b
                    p=Ptr(r,d//stn,d%stn) if r.stride else Ptr(r,0,d)
                    break
            else: break
        return p
    def gep(E,p,const,vars):
        """p + const bytes + sum(scale*var)"""
        d=E.d
        if p.reg is None:
            if const==0 and not vars: return p
            raise Unsupported('gep on null')
        reg=p.reg
        if reg.stride is None:
            live=[(v,s) for v,s in vars if not(isc(v) and v==0)]
            off=p.off+const+sum(v*s for v,s in live if isc(v))
            live=[(v,s) for v,s in live if not isc(v)]
            if not live:
                return E.resolve(Ptr(reg,p.idx,off))
            q=E.resolve(Ptr(reg,p.idx,off))
            if q.reg is reg:
                raise Unsupported('variable index into struct region %s off %s'%(reg.name,off))
            return E.gep(q,0,live)
        S=reg.stride
        off=p.off+const; idx=p.idx
        for v,s in vars:
            if isc(v): off+=v*s
            elif s%S==0: idx=d.iadd(idx,d.imulc(v,s//S))
            elif S%s==0 and d.name=='int' and not isc(v):
                # finer scale than the element: needs divisibility
                raise Unsupported('index scale %d in region %s stride %d'%(s,reg.name,S))
            else: raise Unsupported('index scale %d in region %s stride %d'%(s,reg.name,S))
        q,r=divmod(off,S)
        if q: idx=d.iadd(idx,q)
        return Ptr(reg,idx,r)
    def bounds(E,st,p,size,ins,write):
        reg=p.reg
        if reg is None:
            E.safety(st,'null pointer dereference',False,ins); raise PathDead()
        if write and not reg.writable:
            E.safety(st,'frame: %s is not modified'%reg.name,False,ins)
        if reg.length is not None:
            d=E.d
            L=reg.length(st) if callable(reg.length) else reg.length
            i=p.idx
            if reg.stride==1 and size>1:
                if d.name=='bv':
                    e=d.I(d.iadd(i,size))
                    g=z3.And(z3.ULE(d.I(i),d.I(L)),z3.ULE(e,d.I(L)),z3.ULE(d.I(i),e))
                else: g=And(i>=0,i+size<=L)
            else:
                if d.name=='bv': g=z3.ULT(d.I(i),d.I(L))
                else: g=And(0<=i,i<L)
            E.safety(st,'access to %s in bounds'%reg.name,g,ins)
        elif reg.stride is None and reg.size is not None:
            if not (0<=p.off and p.off+size<=reg.size):
                E.safety(st,'access to %s in bounds'%reg.name,False,ins); raise PathDead()
    def load(E,st,p,ty,ins=None,check=True):
        d=E.d; ty=R(ty)
        p=E.resolve(p)
        if isinstance(ty,(StructTy,ArrTy)):
            if isinstance(ty,StructTy): offs=ty.layout()[0]; fs=ty.fs
            else: offs=[i*ty.e.size() for i in range(ty.n)]; fs=[ty.e]*ty.n
            return Agg([E.load(st,E.gep(p,o,[]),t,ins,check) for o,t in zip(offs,fs)])
        size=ty.size()
        if check: E.bounds(st,p,size,ins,False)
        reg=p.reg
        if E.load_hook:
            r=E.load_hook(E,st,p,ty,ins)
            if r is not None: return r
        if reg.stride==1: return E.loadbytes(st,p,ty)
        f=reg.fields.get(p.off)
        if f is None and reg.auto:
            f=E.autofield(reg,p.off,ty)
        if f is None: raise Unsupported('load %r at %s+%d: no such field'%(ty,reg.name,p.off))
        if f.size!=size:
            if isinstance(ty,IntTy) and size>f.size: # compose
                v=E.load(st,p,IntTy(f.size*8),ins,False); o=f.size; acc=d.cast('zext',f.size*8,ty.w,v)
                while o<size:
                    g=reg.fields.get(p.off+o)
                    if g is None:
                        if not reg.auto: raise Unsupported('composed load at %s+%d'%(reg.name,p.off))
                        g=E.autofield(reg,p.off+o,IntTy(8*(size-o)))
                    w=E.load(st,Ptr(reg,p.idx,p.off+o),IntTy(g.size*8),ins,False)
                    if not isinstance(w,Num): raise Unsupported('composed load of non-integers')
                    w=d.cast('zext',g.size*8,ty.w,w) if g.size*8<ty.w else w
                    sh=d.binop('shl',ty.w,w,d.const(ty.w,8*o),set(),lambda *a:None)
                    acc=d.binop('or',ty.w,acc,sh,{'disjoint'},lambda *a:None)
                    o+=g.size
                return acc
            if isinstance(ty,IntTy) and size<f.size:
                v=E.load(st,p,IntTy(f.size*8),ins,False)
                return d.cast('trunc',f.size*8,ty.w,v)
            raise Unsupported('load size %d of field size %d in %s'%(size,f.size,reg.name))
        if reg.stride is None:
            v=E.getcell(st,reg,p.off)
            return E.coerce(v,ty)
        a=E.getarr(st,reg,p.off)
        e=z3.Select(a,d.I(p.idx))
        if f.ptr is not None: 
            return Ptr(f.ptr,e,0)
        if f.fp: return Opq(e)
        if f.is_bool: return e if ty.w==1 else d.cast('zext',1,ty.w,e)
        e=z3.simplify(e) if z3.is_store(a) else e
        v=d.from_elem(e,f.size*8,f.signed,st.path)
        if isinstance(ty,IntTy) and ty.w<f.size*8: v=d.cast('trunc',f.size*8,ty.w,v)
        return v
    def coerce(E,v,ty):
        d=E.d
        if isinstance(ty,IntTy):
            if z3.is_bool(v) or isinstance(v,bool):
                return v if ty.w==1 else d.cast('zext',1,ty.w,v)
            if ty.w==1 and isinstance(v,Num): return d.cast('trunc',8,1,v)
            if isinstance(v,Ptr): return PtrInt(v)
            if d.name=='bv' and isinstance(v,Num) and v.e.size()>ty.w: return d.cast('trunc',v.e.size(),ty.w,v)
        if isinstance(ty,PtrTy) and isinstance(v,PtrInt): return v.p
        return v
    def autofield(E,reg,off,ty):
        f=Field(off,ty.size(),signed=False)
        if isinstance(ty,FpTy): f.fp=True
        if isinstance(ty,PtrTy): f.ptr=NULL
        reg.fields[off]=f
        return f
    def loadbytes(E,st,p,ty):
        d=E.d
        if not isinstance(ty,IntTy): raise Unsupported('non-integer load from byte region')
        a=E.getarr(st,p.reg,0); n=ty.size()
        bs=[]
        for k in range(n):
            bs.append(z3.simplify(z3.Select(a,d.I(d.iadd(p.idx,k)))))
        if d.name=='bv':
            e=bs[0] if n==1 else z3.simplify(z3.Concat(*reversed(bs)))
            v=Num(e,0,0)
            return d.cast('trunc',8,1,v) if ty.w==1 else v
        acc=0
        for k,b in enumerate(bs):
            if not z3.is_int_value(b): st.path.append(z3.And(b>=0,b<=255))
            acc=acc+b*(1<<(8*k))
        if ty.w==1: return bs[0]%2==1
        return Num(acc,0,(1<<(8*n))-1)
    def store(E,st,p,v,ty,ins=None,check=True):
        d=E.d; ty=R(ty); p=E.resolve(p)
        if isinstance(ty,(StructTy,ArrTy)):
            if isinstance(ty,StructTy): offs=ty.layout()[0]; fs=ty.fs
            else: offs=[i*ty.e.size() for i in range(ty.n)]; fs=[ty.e]*ty.n
            for i,(o,t) in enumerate(zip(offs,fs)):
                E.store(st,E.gep(p,o,[]),v.els[i],t,ins,check)
            return
        size=ty.size()
        if check: E.bounds(st,p,size,ins,True)
        reg=p.reg
        if E.store_hook and E.store_hook(E,st,p,v,ty,ins): return
        if reg.stride==1:
            a=E.getarr(st,reg,0)
            if not isinstance(v,(Num,bool)) and not z3.is_bool(v): raise Unsupported('byte store of non-integer')
            for k in range(size):
                if d.name=='bv':
                    if ty.w==1: e=d.cast('zext',1,8,v).e
                    else:
                        x=v.e
                        if ty.w%8: x=z3.ZeroExt(size*8-ty.w,x)
                        e=z3.simplify(z3.Extract(8*k+7,8*k,x))
                else:
                    if ty.w==1: e=d.cast('zext',1,8,v).e
                    else:
                        u=d.U(v,ty.w); e=(u>>(8*k))&255 if isc(u) else (u/(1<<(8*k)))%256 if size>1 else u
                    e=d.I(e)
                a=z3.Store(a,d.I(d.iadd(p.idx,k)),e)
            E.write(st,(reg,0),E.named(st,a,reg,reg.fields[0])); return
        f=reg.fields.get(p.off)
        if f is None and reg.auto: f=E.autofield(reg,p.off,ty)
        if f is None: raise Unsupported('store %r at %s+%d: no such field'%(ty,reg.name,p.off))
        if f.size!=size:
            if isinstance(ty,IntTy) and size>f.size and isinstance(v,Num):
                o=0
                while o<size:
                    g=reg.fields.get(p.off+o)
                    if g is None:
                        if not reg.auto: raise Unsupported('split store')
                        g=E.autofield(reg,p.off+o,IntTy(8*(size-o)))
                    w=d.binop('lshr',ty.w,v,d.const(ty.w,8*o),set(),lambda *a:None) if o else v
                    if g.size*8<ty.w: w=d.cast('trunc',ty.w,g.size*8,w)
                    E.store(st,Ptr(reg,p.idx,p.off+o),w,IntTy(g.size*8),ins,False)
                    o+=g.size
                return
            if reg.auto and reg.stride is None:
                # a local reused with another type: drop overlapping cells
                for o in list(reg.fields):
                    g=reg.fields[o]
                    if o<p.off+size and p.off<o+g.size: del reg.fields[o]; st.mem.pop((reg,o),None)
                f=E.autofield(reg,p.off,ty)
            else: raise Unsupported('store size %d into field size %d of %s'%(size,f.size,reg.name))
        if reg.stride is None:
            if isinstance(v,Num) and f.ptr is None:
                if f.is_bool: v=d.cast('trunc',8,1,v) if ty.w>1 else tobool(v)
                elif d.name=='int': v=d.Sn(v,ty.w) if f.signed else d.Un(v,ty.w)
            E.write(st,(reg,p.off),v); return
        a=E.getarr(st,reg,p.off)
        if f.ptr is not None:
            if not isinstance(v,Ptr) or v.reg is not f.ptr: raise Unsupported('pointer store to unexpected object')
            e=d.I(v.idx)
        elif f.fp: e=v.e
        elif f.is_bool: e=B(tobool(v) if ty.w==1 else d.cast('trunc',8,1,v))
        else:
            if isinstance(v,bool) or z3.is_bool(v): v=d.cast('zext',1,8,v)
            if not isinstance(v,Num): raise Unsupported('store of %r'%v)
            e=d.to_elem(v,f.size*8,f.signed)
        E.write(st,(reg,p.off),E.named(st,z3.Store(a,d.I(p.idx),e),reg,f))
    def named(E,st,a,reg,f):
        """name a new array version (keeps quantifier patterns free of compound terms)"""
        if E.d.name!='int': return a
        c=z3.Const(fresh_name('%s.%s'%(reg.name,f.name)),a.sort())
        st.path.append(c==a)
        return c
    def write(E,st,k,v):
        st.mem[k]=v
        for fr in st.frames:
            ms=E.modset.setdefault(fr.header,set())
            if k not in ms:
                ms.add(k); E.grew=True
    # ------------------------------------------------------------ values
    def ev(E,st,v,ty):
        d=E.d; t=R(ty)
        if isinstance(v,Loc): 
            try: return st.env[v.n]
            except KeyError: raise Unsupported('undefined value '+v.n)
        if isinstance(v,CInt):
            if isinstance(t,IntTy) and t.w==1: return bool(v.v&1)
            return d.const(t.w,v.v)
        if isinstance(v,CNull): return NULL
        if isinstance(v,CUndef): return E.undef(t)
        if isinstance(v,CZero): return E.zero(t)
        if isinstance(v,Glob): return E.glob(v.n,st)
        if isinstance(v,CAgg): return Agg([E.ev(st,x,tt) for tt,x in v.els])
        if isinstance(v,CFp): return E.fpconst(t,v.v)
        if isinstance(v,CExpr):
            if v.op=='gep': return E.dogep(st,v.ty,v.args)
            if v.op in('ptrtoint','bitcast'):
                x=E.ev(st,v.args[0][1],v.args[0][0])
                return PtrInt(x) if v.op=='ptrtoint' else x
        if isinstance(v,MetaV): return None
        raise Unsupported('constant %r'%(v,))
    def undef(E,t):
        if isinstance(t,IntTy): return E.d.fresh(t.w,'undef') if t.w!=1 else z3.Bool(fresh_name('undef'))
        if isinstance(t,PtrTy): return NULL
        if isinstance(t,StructTy): return Agg([E.undef(R(x)) for x in t.fs])
        if isinstance(t,ArrTy): return Agg([E.undef(R(t.e)) for _ in range(t.n)])
        if isinstance(t,FpTy): return Opq(z3.Const(fresh_name('undef'),E.fps(t)))
        raise Unsupported('undef %r'%t)
    def zero(E,t):
        if isinstance(t,IntTy): return E.d.const(t.w,0) if t.w>1 else False
        if isinstance(t,PtrTy): return NULL
        if isinstance(t,StructTy): return Agg([E.zero(R(x)) for x in t.fs])
        if isinstance(t,ArrTy): return Agg([E.zero(R(t.e)) for _ in range(t.n)])
        if isinstance(t,FpTy): return E.fpconst(t,'0.000000e+00')
        raise Unsupported('zero %r'%t)
    def glob(E,n,st):
        if n in E.mod.funcs: return FnPtr(n)
        if n in E.globregs: return Ptr(E.globregs[n])
        r=Region('global '+n,None); E.globregs[n]=r
        l=E.mod.globals.get(n,'')
        m=re.match(r'^(\S+) = (.*?)\bconstant (.*)$',l)
        if m and 'external' not in m.group(2):
            try:
                p=P(tokenize(m.group(3)),E.mod); t=p.ty(); v=p.val(t)
            except Unsupported: return Ptr(r)
            r.writable=False; r.size=t.size(); r.auto=True
            E.addsubs(r,t,0); E.initconst(st,r,t,v,0)
        return Ptr(r)
    def initconst(E,st,r,t,v,base):
        """contents of a constant global: known in every state"""
        d=E.d; t=R(t)
        def put(k,x):
            E.initial_mem[k]=x; E.cellfacts[k]=[]
        def scal(w,c):
            return (c if w>1 else bool(c&1)) if d.name=='int' else (z3.BitVecVal(c,w) if w>1 else z3.BoolVal(bool(c&1)))
        if isinstance(t,ArrTy) and not isinstance(t,VecTy):
            els=v.els if isinstance(v,CAgg) else None
            e=R(t.e)
            if isinstance(v,CStr):
                b=cstr(v.s); els=[(e,CInt(x)) for x in b]
            if isinstance(v,CZero): els=[(e,CZero())]*min(t.n,4096)
            if els is None: return
            sub=next((q for q in r.subs if q[0]==base),None)
            if sub is None:
                for i,(et,ev) in enumerate(els): E.initconst(st,r,et,ev,base+i*e.size())
                return
            if not isinstance(e,IntTy): return
            reg=sub[3]; reg.writable=False; f=reg.fields[0]
            vals=[0 if isinstance(x,(CZero,CUndef)) else x.v for _,x in els]
            f.signed=False
            vals=[x%(1<<e.w) for x in vals]
            arr=z3.K(d.index_sort(),z3.IntVal(vals[0]) if d.name=='int' else z3.BitVecVal(vals[0],e.w))
            for i,x in enumerate(vals):
                if i and x==vals[0]: continue
                arr=z3.Store(arr,i if d.name=='int' else z3.BitVecVal(i,d.index_sort().size()),z3.IntVal(x) if d.name=='int' else z3.BitVecVal(x,e.w))
            E.initial_mem[(reg,0)]=arr
            return
        if isinstance(t,StructTy):
            offs=t.layout()[0]
            for i,(o,ft) in enumerate(zip(offs,t.fs)):
                ev=CZero() if isinstance(v,CZero) else (v.els[i][1] if isinstance(v,CAgg) else None)
                if ev is not None: E.initconst(st,r,ft,ev,base+o)
            return
        if isinstance(t,IntTy) and isinstance(v,(CInt,CZero)):
            c=0 if isinstance(v,CZero) else v.v
            f=E.autofield(r,base,t)
            c%=1<<t.w
            put((r,base),Num(scal(t.w,c),c,c) if t.w>1 else scal(1,c))
    def dogep(E,st,sty,args):
        d=E.d
        base=E.ev(st,args[0][1],args[0][0])
        const=0; vars=[]
        t=R(sty); first=True
        for (it,iv) in args[1:]:
            x=E.ev(st,iv,it)
            if isinstance(x,Num): 
                x=E.tight(st,x,R(it).w)
                i=d.idx(x,R(it).w)
            elif isinstance(x,PtrInt): raise Unsupported('gep by pointer int')
            else: raise Unsupported('gep index')
            if first:
                sz=t.size(); first=False
                if isc(i): const+=i*sz
                else:
                    if x.fac and isc(x.fac[0]) and not isc(x.fac[1]) and d.name=='int' and x.lo>=-(1<<63) and x.hi<(1<<63):
                        vars.append((x.fac[1],sz*x.fac[0]))
                    else: vars.append((i,sz))
                continue
            if isinstance(t,StructTy):
                const+=t.layout()[0][i]; t=R(t.fs[i])
            elif isinstance(t,ArrTy):
                sz=t.e.size(); t=R(t.e)
                if isc(i): const+=i*sz
                else: vars.append((i,sz))
            else: raise Unsupported('gep into %r'%t)
        if isinstance(base,FnPtr): raise Unsupported('gep on function')
        if not isinstance(base,Ptr): raise Unsupported('gep on %r'%(base,))
        return E.gep(base,const,vars)
    def tight(E,st,x,w):
        """drop the wrap-around cases of an index when the (quantifier-free) path condition excludes them"""
        if E.d.name!='int' or isc(x.e) or (x.lo>=-(1<<(w-1)) and x.hi<(1<<(w-1))): return x
        H=1<<(w-1)
        s=z3.Solver(); s.set('timeout',100)
        for f in st.path:
            if not hasq(f): s.add(f)
        s.add(z3.Or(x.e<0,x.e>=H))
        if s.check()==z3.unsat: return Num(x.e,max(x.lo,0),min(x.hi,H-1),x.fac,x.tz)
        return x
    # pointer comparison: byte position inside the object
    def ptrdiff(E,a,b):
        """byte difference a-b as Num (same object)"""
        d=E.d
        ra,rb=a.reg,b.reg
        if ra is rb:
            S=ra.stride
            if S is None: return d.const(64,a.off-b.off)
            di=d.isub(a.idx,b.idx); c=a.off-b.off
            if isc(di): return d.const(64,di*S+c)
            if d.name=='int':
                n=Num(di*S if S>1 else di,-(1<<62),1<<62,fac=(S,di))
                if c: n=Num(n.e+c,n.lo,n.hi)
                return n
            return Num(z3.simplify(d.I(di)*S+c),0,0)
        # sub-array versus parent
        la,lb=E.abspos(a),E.abspos(b)
        if la and lb and la[0] is lb[0]:
            x=E.d.isub(la[1],lb[1])
            return E.d.idxnum(x)
        return None
    def abspos(E,p):
        r=p.reg; 
        pos=p.off if r.stride is None else (E.d.iadd(E.d.imulc(p.idx,r.stride),p.off))
        while r.parent:
            r,b=r.parent[0],r.parent[1]; pos=E.d.iadd(pos,b)
        return (r,pos)
    def ptrcmp(E,st,pred,a,b,ins):
        d=E.d
        if a.reg is None or b.reg is None:
            if a.reg is None and b.reg is None: eq=True
            else: eq=False
            if pred=='eq': return eq
            if pred=='ne': return not eq
            if a.reg is None and pred in('ult',): return b.reg is not None
            raise Unsupported('null compare '+pred)
        df=E.ptrdiff(a,b)
        if df is None:
            if pred=='eq': return False
            if pred=='ne': return True
            raise Unsupported('ordering of pointers to different objects')
        if a.reg is b.reg and a.reg.stride and a.off==b.off:
            x=Num(d.isub(a.idx,b.idx),-(1<<62),1<<62) if d.name=='int' else Num(d.I(d.isub(a.idx,b.idx)),0,0)
            if isc(x.e): x=d.const(64,x.e)
        else: x=df
        p={'ult':'slt','ule':'sle','ugt':'sgt','uge':'sge'}.get(pred,pred)
        if d.name=='int':
            e=x.e
            if isc(e):
                return {'eq':e==0,'ne':e!=0,'slt':e<0,'sle':e<=0,'sgt':e>0,'sge':e>=0}[p]
            if a.reg is b.reg and a.reg.stride and a.off==b.off:
                A,Bb=a.idx,b.idx
                return {'eq':Eq(A,Bb),'ne':Not(Eq(A,Bb)),'slt':A<Bb,'sle':A<=Bb,'sgt':A>Bb,'sge':A>=Bb}[p]
            return {'eq':e==0,'ne':e!=0,'slt':e<0,'sle':e<=0,'sgt':e>0,'sge':e>=0}[p]
        return d.icmp(p,64,x,d.const(64,0))
    # ------------------------------------------------------------ running
    def run(E,setup):
        """setup(E,st,args)-> list of argument values; adds preconditions to st.path"""
        while True:
            E.obls=[]; E.grew=False; E.npaths=0; E.nreturns=0; E.ret_paths=[]; E.ntrivial=0
            E.used_intrinsics=set()
            if E.setup_state is None:
                E.initial_mem={}; E.globregs={}
                st=State(); args=setup(E,st); E.setup_state=(st,args); E.setup_obls=E.obls
            E.obls=list(E.setup_obls)
            st,args=E.setup_state; st=st.copy()
            for (t,n),a in zip(E.fn.params,args): st.env[n]=a
            if len(args)!=len(E.fn.params): raise Unsupported('argument count of '+E.fn.name)
            E.args=args; E.st_entry=st.copy()
            E.stack=[(st,E.fn.order[0],None)]
            while E.stack:
                s,b,prev=E.stack.pop()
                E.npaths+=1
                if E.npaths>E.maxpaths: raise Unsupported('path limit exceeded in '+E.fn.name)
                try: E.path(s,b,prev)
                except PathDead: pass
            if not E.grew: break
        return E.obls
    def feasible(E,st,extra):
        if E.prune_ms==0: return True
        s=z3.Solver(); s.set('timeout',E.prune_ms)
        for f in st.path:
            if not hasq(f): s.add(f)
        s.add(extra)
        return s.check()!=z3.unsat
    def path(E,st,b,prev):
        while True:
            blk=E.fn.blocks[b]
            # leaving loops
            while st.frames and b not in E.loops[st.frames[-1].header]:
                st.frames.pop()
            nphi=0
            if b in E.loops:
                r=E.atheader(st,b,prev)
                if r is None: return
                while nphi<len(blk) and blk[nphi].op=='phi': nphi+=1
            else:
                upd={}
                rp=E.realprev(prev)
                while nphi<len(blk) and blk[nphi].op=='phi':
                    ins=blk[nphi]
                    for v,p in ins.x['inc']:
                        if p==rp: upd[ins.res]=E.ev(st,v,ins.ty); break
                    else: raise Unsupported('phi')
                    nphi+=1
                st.env.update(upd)
            i=nphi; n=len(blk)
            while i<n:
                ins=blk[i]; i+=1
                op=ins.op
                if op=='jmp': nxt=ins.x['to']; break
                if op=='br':
                    c=E.ev(st,ins.args[0],IntTy(1)); c=tobool(c)
                    if not isinstance(c,bool):
                        cs=z3.simplify(c)
                        if z3.is_true(cs): c=True
                        elif z3.is_false(cs): c=False
                    if ins.x['a']==ins.x['b']: nxt=ins.x['a']; break
                    if c is True: nxt=ins.x['a']; break
                    if c is False: nxt=ins.x['b']; break
                    fa=E.feasible(st,c); fb=E.feasible(st,z3.Not(c))
                    if fa and fb:
                        s2=st.copy(); s2.add(z3.Not(c)); E.stack.append((s2,ins.x['b'],b))
                        st.add(c); nxt=ins.x['a']
                    elif fa: st.add(c); nxt=ins.x['a']
                    elif fb: st.add(z3.Not(c)); nxt=ins.x['b']
                    else: return
                    break
                if op=='switch':
                    v=E.ev(st,ins.args[0],ins.ty); w=R(ins.ty).w
                    conds=[]; nots=[]
                    for cv,l in ins.x['cases']:
                        c=E.d.icmp('eq',w,v,E.ev(st,CInt(cv),ins.ty))
                        conds.append((c,l)); nots.append(Not(c))
                    conds.append((And(*nots),ins.x['dflt']))
                    opts=[(c,l) for c,l in conds if c is not False and (c is True or E.feasible(st,c))]
                    if not opts: return
                    for c,l in opts[1:]:
                        s2=st.copy(); s2.add(c); E.stack.append((s2,l,b))
                    st.add(opts[0][0]); nxt=opts[0][1]; break
                if op=='ret':
                    rv=E.ev(st,ins.args[0],ins.ty) if ins.args else None
                    E.nreturns+=1
                    E.ret_paths.append(list(st.path))
                    if E.on_ret: E.on_ret(E,st,rv)
                    return
                if op=='unreachable':
                    E.oblige(st,'safety: unreachable code not reached',False,ins); return
                r=E.step(st,ins)
                if r is not None:
                    # several successor states (contracted call / pointer select): list of states
                    rest=r[1:]
                    for s2 in rest: E.stack.append((s2,(b,i),prev)) if False else E.pushmid(s2,b,i,prev)
                    st=r[0]
                if op=='call' and 'normal' in ins.x: nxt=ins.x['normal']; break
            prev,b=b,nxt
    def pushmid(E,st,b,i,prev):
        # continue in the middle of a block: split the block lazily
        nb='%s@%d'%(b,i)
        if nb not in E.fn.blocks: E.fn.blocks[nb]=E.fn.blocks[b][i:]
        if nb not in E.alias:
            for h,body in E.loops.items():
                if b in body: body.add(nb)
            # phis downstream refer to the original predecessor
            E.alias[nb]=b
        E.stack.append((st,nb,prev))
    def realprev(E,prev):
        while prev in E.alias: prev=E.alias[prev]
        return prev
    # ------------------------------------------------------------ loops
    def phis(E,b):
        out=[]
        for ins in E.fn.blocks[b]:
            if ins.op!='phi': break
            out.append(ins)
        return out
    def atheader(E,st,h,prev):
        prev=E.realprev(prev)
        ph=E.phis(h)
        vals={}
        for ins in ph:
            for v,p in ins.x['inc']:
                if p==prev: vals[ins.res]=E.ev(st,v,ins.ty); break
            else: raise Unsupported('phi at header %s from %s'%(h,prev))
        frame=next((f for f in st.frames if f.header==h),None)
        inloop=prev in E.loops[h] and frame is not None
        mode='inv'
        if E.loop_mode: mode=E.loop_mode(E,h) or 'inv'
        if isinstance(mode,int):  # unroll
            if frame is None:
                fr=LoopFrame(h); st.frames.append(fr); st.ghost[('unroll',h)]=0
            else:
                c=st.ghost[('unroll',h)]+1; st.ghost[('unroll',h)]=c
                if c>mode:
                    E.oblige(st,'unwinding: %s runs at most %d iterations'%(E.loopname[h],mode),False); return None
            st.env.update(vals); return st
        if inloop:
            # back edge: invariants must be preserved
            info=st.ghost[('loop',h)]
            view=View(E,st,vals,info['entry'],info['st0'],vals); view.pre=info['pre']; view.header=h
            for nm,fn in info['cands']:
                if (h,nm) in E.removed: continue
                E.oblige(st,'%s invariant preserved: %s'%(E.loopname[h],nm),fn(view),cand=(h,nm))
            return None
        # first arrival
        st0=st.copy()
        for hook in getattr(E,'header_hooks',()): hook(E,st,h,vals)
        view0=View(E,st,vals,vals,st0,vals); view0.pre=E.st_entry; view0.header=h; view0.instrs={i.res:i for i in ph}
        cands=[]
        for tmpl in E.cand_templates:
            for nm,fn in tmpl(E,view0):
                cands.append((nm,fn))
        RB=1<<48
        if E.d.name=='int':
            # built-in candidates: 64-bit loop variables stay in the range of object sizes
            for ins in ph:
                v=vals[ins.res]
                if isinstance(v,Num) and isinstance(R(ins.ty),IntTy) and R(ins.ty).w==64:
                    cands.append(('range of '+ins.res,lambda view,r=ins.res: And(0<=z(E.d.U(view.phis[r],64)),z(E.d.U(view.phis[r],64))<RB)))
                if getattr(E,'phi31',False) and isinstance(v,Num) and isinstance(R(ins.ty),IntTy) and R(ins.ty).w==32 and ins.res not in getattr(E,'signed_phis',()):
                    cands.append(('range of '+ins.res,lambda view,r=ins.res: And(0<=z(E.d.U(view.phis[r],32)),z(E.d.U(view.phis[r],32))<(1<<31))))
        for nm,fn in cands:
            if (h,nm) in E.removed: continue
            E.oblige(st,'%s invariant on entry: %s'%(E.loopname[h],nm),fn(view0),cand=(h,nm))
        # havoc
        facts=[]; nv={}
        for ins in ph:
            v=vals[ins.res]
            nv[ins.res]=E.havocval(v,R(ins.ty),ins.res,facts)
            if any(nm=='range of '+ins.res for nm,_ in cands) and (h,'range of '+ins.res) not in E.removed:
                x=nv[ins.res]; rb=RB if R(ins.ty).w==64 else 1<<31; nv[ins.res]=Num(x.e,0,rb-1); facts.append(z3.And(x.e>=0,x.e<rb))
        st.env.update(nv)
        for k in sorted(E.modset.get(h,()),key=lambda k:(k[0].name,k[1])):
            reg,off=k
            if reg.stride is None:
                old=st.mem.get(k)
                st.mem[k]=E.havoccell(reg,off,old,facts)
            else:
                f=reg.fields[off]
                st.mem[k]=z3.Const(fresh_name('%s.%s'%(reg.name,f.name)),z3.ArraySort(E.d.index_sort(),E.fieldsort(f)))
        for gk in list(st.ghost):
            g=st.ghost[gk]
            if getattr(E,'ghost_havoc',None) and not isinstance(gk,tuple): st.ghost[gk]=E.ghost_havoc(E,st,gk,g,h)
        st.path+=facts
        # outer loops see everything this loop writes (recorded through write())
        for fr in st.frames:
            ms=E.modset.setdefault(fr.header,set())
            new=E.modset.get(h,set())-ms
            if new: ms|=new; E.grew=True
        st.frames.append(LoopFrame(h))
        st.ghost[('loop',h)]={'entry':vals,'st0':st0,'cands':cands,'pre':E.st_entry}
        view=View(E,st,nv,vals,st0,nv); view.pre=E.st_entry; view.header=h
        for nm,fn in cands:
            if (h,nm) in E.removed: continue
            ff=fn(view); st.add(ff)
            if z3.is_expr(ff): E.candfact[ff.get_id()]=(h,nm); E.candkeep.append(ff)
        for f in (E.loop_defs(E,view) if getattr(E,'loop_defs',None) else ()): st.add(f)   # definitions of specification functions
        return st
    def havocval(E,v,t,nm,facts):
        d=E.d
        if isinstance(v,Ptr):
            if v.reg is None: raise Unsupported('pointer phi with null entry value')
            if v.reg.stride is None: return v
            return Ptr(v.reg,z3.Const(fresh_name(nm.strip('%')),d.index_sort()),v.off)
        if isinstance(t,IntTy):
            if t.w==1: return z3.Bool(fresh_name(nm.strip('%')))
            signed=d.name=='int' and isinstance(v,Num) and v.lo<0
            return d.fresh(t.w,nm.strip('%'),signed or ('s%d'%t.w) in E.__dict__.get('signed_phis',()),facts)
        if isinstance(t,FpTy): return Opq(z3.Const(fresh_name('fp'),E.fps(t)))
        if isinstance(v,PtrInt): raise Unsupported('ptrint phi')
        raise Unsupported('phi of type %r'%t)
    def havoccell(E,reg,off,old,facts):
        f=reg.fields.get(off)
        if isinstance(old,Ptr) :
            if old.reg is None: raise Unsupported('havoc of null pointer cell %s+%d'%(reg.name,off))
            if old.reg.stride is None: return old
            return Ptr(old.reg,z3.Const(fresh_name(reg.name+'.p'),E.d.index_sort()),old.off)
        if isinstance(old,Opq): return Opq(z3.Const(fresh_name('fp'),old.e.sort()))
        if isinstance(old,PtrInt): raise Unsupported('havoc ptrint')
        if f is not None and f.ptr is not None and f.ptr is not NULL: return E.freshcell(reg,f,facts)
        if old is not None and (isinstance(old,bool) or z3.is_bool(old)): return z3.Bool(fresh_name(reg.name))
        if f is None: raise Unsupported('havoc unknown cell')
        return E.freshcell(reg,f,facts)
    # ------------------------------------------------------------ instructions
    def step(E,st,ins):
        d=E.d; op=ins.op; d.curpath=st.path
        ob=lambda nm,g: E.safety(st,nm,g,ins)
        if op in BIN:
            t=R(ins.ty)
            if isinstance(t,FpTy):
                a=E.ev(st,ins.args[0],t); b=E.ev(st,ins.args[1],t)
                st.env[ins.res]=E.fpop(op,t,a,b); return
            if not isinstance(t,IntTy): raise Unsupported('binop on %r'%t)
            a=E.ev(st,ins.args[0],t); b=E.ev(st,ins.args[1],t)
            if isinstance(a,PtrInt) or isinstance(b,PtrInt):
                if op=='sub' and isinstance(a,PtrInt) and isinstance(b,PtrInt):
                    if a.p.reg is None and b.p.reg is None: r=d.const(64,0)
                    elif a.p.reg is None or b.p.reg is None: raise Unsupported('null pointer difference')
                    else: r=E.ptrdiff(a.p,b.p)
                    if r is None: raise Unsupported('difference of pointers to different objects')
                    st.env[ins.res]=r; return
                if op=='and' and isinstance(a,PtrInt) and isinstance(b,Num):
                    # alignment test
                    m=b.e if isc(b.e) else (b.e.as_long() if z3.is_bv_value(b.e) else None)
                    if m is not None and (m&(m+1))==0 and a.p.reg is not None and a.p.reg.align>=m+1 and a.p.reg.stride and (a.p.reg.stride%(m+1)==0):
                        st.env[ins.res]=d.const(64,a.p.off&m); return
                raise Unsupported('arithmetic on pointer bits')
            st.env[ins.res]=d.binop(op,t.w,a,b,ins.x['flags'],ob); return
        if op=='icmp':
            t=R(ins.ty); a=E.ev(st,ins.args[0],t); b=E.ev(st,ins.args[1],t)
            if isinstance(a,FnPtr) or isinstance(b,FnPtr):
                eq=isinstance(a,FnPtr) and isinstance(b,FnPtr) and a.n==b.n
                st.env[ins.res]=eq if ins.x['pred']=='eq' else not eq; return
            if isinstance(a,PtrInt): a=a.p
            if isinstance(b,PtrInt): b=b.p
            if isinstance(a,Ptr) or isinstance(b,Ptr):
                if isinstance(a,Num) or isinstance(b,Num): raise Unsupported('pointer/int compare')
                st.env[ins.res]=E.ptrcmp(st,ins.x['pred'],a,b,ins); return
            st.env[ins.res]=d.icmp(ins.x['pred'],t.w,a,b); return
        if op=='fcmp':
            t=R(ins.ty); a=E.ev(st,ins.args[0],t); b=E.ev(st,ins.args[1],t)
            st.env[ins.res]=E.fpcmp(ins.x['pred'],a.e,b.e); return
        if op=='fneg':
            a=E.ev(st,ins.args[0],ins.ty); st.env[ins.res]=Opq(z3.fpNeg(a.e) if d.name=='bv' else z3.Function('fneg',FPS,FPS)(a.e)); return
        if op in CAST:
            s=R(ins.x['src']); t=R(ins.ty); a=E.ev(st,ins.args[0],s)
            if op in('zext','sext','trunc'):
                if isinstance(a,PtrInt): raise Unsupported('cast of pointer bits')
                if op=='zext' and 'nneg' in ins.x['flags'] : pass
                st.env[ins.res]=d.cast(op,s.w,t.w,a); return
            if op=='ptrtoint': st.env[ins.res]=PtrInt(a); return
            if op=='inttoptr':
                if isinstance(a,PtrInt): st.env[ins.res]=a.p; return
                raise Unsupported('inttoptr')
            if op in('bitcast','addrspacecast'): st.env[ins.res]=a; return
            if op in('sitofp','uitofp'):
                if d.name=='bv': st.env[ins.res]=Opq((z3.fpSignedToFP if op[0]=='s' else z3.fpUnsignedToFP)(z3.RNE(),d.U(a,s.w),E.fps(t))); return
                v=d.S(a,s.w) if op[0]=='s' else d.U(a,s.w)
                v=d.I(v) if d.name=='int' else v
                st.env[ins.res]=Opq(z3.Function('%s_%s'%(op,t.n),v.sort(),FPS)(v)); return
            if op in('fptosi','fptoui'):
                st.env[ins.res]=E.fptoint(st,op,a,t,ins); return
            if op in('fpext','fptrunc'):
                st.env[ins.res]=Opq(z3.fpFPToFP(z3.RNE(),a.e,E.fps(t)) if d.name=='bv' else z3.Function(op+t.n,FPS,FPS)(a.e)); return
        if op=='select':
            t=R(ins.ty); c=tobool(E.ev(st,ins.args[0],IntTy(1))); a=E.ev(st,ins.args[1],t); b=E.ev(st,ins.args[2],t)
            if not isinstance(c,bool):
                cs=z3.simplify(c)
                c=True if z3.is_true(cs) else False if z3.is_false(cs) else c
            if isinstance(c,bool): st.env[ins.res]=a if c else b; return
            if isinstance(a,Num) and isinstance(b,Num): st.env[ins.res]=d.ite(c,a,b,t.w); return
            if isinstance(t,IntTy) and t.w==1: st.env[ins.res]=Ite(c,tobool(a),tobool(b)); return
            if isinstance(a,Ptr) and isinstance(b,Ptr) and a.reg is b.reg and a.reg is not None and a.off==b.off:
                st.env[ins.res]=Ptr(a.reg,Ite(c,d.I(a.idx),d.I(b.idx)) if not(isc(a.idx) and isc(b.idx) and a.idx==b.idx) else a.idx,a.off); return
            if isinstance(a,Opq) and isinstance(b,Opq): st.env[ins.res]=Opq(z3.If(c,a.e,b.e)); return
            s2=st.copy(); s2.add(z3.Not(c)); s2.env[ins.res]=b
            st.add(c); st.env[ins.res]=a
            return [st,s2]
        if op=='freeze': st.env[ins.res]=E.ev(st,ins.args[0],ins.ty); return
        if op=='alloca':
            t=R(ins.ty); 
            if ins.args and not(isinstance(ins.args[0],CInt) and ins.args[0].v==1): raise Unsupported('dynamic alloca')
            key=('alloca',ins.res)
            if key not in E.allocas:
                E.allocas[key]=E.mkalloca(ins.res,t)
            r=E.allocas[key]
            st.env[ins.res]=Ptr(r); 
            hk=getattr(E,'alloca_hook',None)
            if hk: hk(E,st,ins,t,r)
            return
        if op=='load':
            p=E.ev(st,ins.args[0],PtrTy())
            p=E.asptr(p)
            if E.atomic_hook and p.reg is not None and p.reg.shared:
                r=E.atomic_hook(E,st,'load',p,R(ins.ty),ins,())
                if r is not None: st.env[ins.res]=r; return
            st.env[ins.res]=E.load(st,p,ins.ty,ins); return
        if op=='store':
            v=E.ev(st,ins.args[0],ins.ty); p=E.asptr(E.ev(st,ins.args[1],PtrTy()))
            if E.atomic_hook and p.reg is not None and p.reg.shared:
                r=E.atomic_hook(E,st,'store',p,R(ins.ty),ins,(v,))
                if r: return
            E.store(st,p,v,ins.ty,ins); return
        if op=='gep': st.env[ins.res]=E.dogep(st,ins.ty,ins.args); return
        if op=='extractvalue':
            a=E.ev(st,ins.args[0],ins.ty)
            for i in ins.x['idx']: a=a.els[i]
            st.env[ins.res]=a; return
        if op=='insertvalue':
            a=E.ev(st,ins.args[0],ins.ty); v=E.ev(st,ins.args[1],ins.x['vt'])
            def ins_(a,idx):
                r=Agg(a.els)
                if len(idx)==1: r.els[idx[0]]=v
                else: r.els[idx[0]]=ins_(a.els[idx[0]],idx[1:])
                return r
            st.env[ins.res]=ins_(a,ins.x['idx']); return
        if op=='cmpxchg':
            p=E.asptr(E.ev(st,ins.args[0],PtrTy())); t=R(ins.ty); c=E.ev(st,ins.args[1],t); n=E.ev(st,ins.args[2],t)
            if E.atomic_hook and p.reg is not None and p.reg.shared:
                r=E.atomic_hook(E,st,'cmpxchg',p,t,ins,(c,n))
                if r is not None: st.env[ins.res]=r; return
            old=E.load(st,p,t,ins); 
            okc=d.icmp('eq',t.w,old,c)
            E.store(st,p,d.ite(okc,n,old,t.w),t,ins)
            st.env[ins.res]=Agg([old,okc]); return
        if op=='atomicrmw':
            p=E.asptr(E.ev(st,ins.args[0],PtrTy())); t=R(ins.ty); v=E.ev(st,ins.args[1],t)
            if E.atomic_hook and p.reg is not None and p.reg.shared:
                r=E.atomic_hook(E,st,'rmw_'+ins.x['rop'],p,t,ins,(v,))
                if r is not None: st.env[ins.res]=r; return
            old=E.load(st,p,t,ins)
            E.store(st,p,E.rmwval(ins.x['rop'],t,old,v),t,ins)
            st.env[ins.res]=old; return
        if op=='fence': return
        if op=='call': return E.call(st,ins)
        raise Unsupported('instruction '+ins.text)
    def fptoint(E,st,op,a,t,ins=None):
        if E.d.name=='bv':
            so=a.e.sort(); sg=op=='fptosi'; w=t.w
            lo=-(2.0**(w-1)) if sg else 0.0; hi=2.0**(w-1) if sg else 2.0**w
            tr=z3.fpRoundToIntegral(z3.RTZ(),a.e)
            E.safety(st,'floating-point value representable in the integer type',z3.And(z3.Not(z3.fpIsNaN(a.e)),z3.fpGEQ(tr,z3.FPVal(lo,so)),z3.fpLT(tr,z3.FPVal(hi,so))),ins)
            return Num((z3.fpToSBV if sg else z3.fpToUBV)(z3.RTZ(),a.e,z3.BitVecSort(w)),0,0)
        e=z3.Function('%s_%d'%(op,t.w),FPS,E.d.elem_sort(t.w))(a.e)
        return E.d.from_elem(e,t.w,op=='fptosi',st.path)
    def rmwval(E,rop,t,old,v):
        d=E.d; nob=lambda *a:None
        if rop in('add','sub','and','or','xor'): return d.binop(rop,t.w,old,v,set(),nob)
        if rop=='xchg': return v
        if rop in('max','min','umax','umin'):
            pr={'max':'sgt','min':'slt','umax':'ugt','umin':'ult'}[rop]
            return d.ite(d.icmp(pr,t.w,old,v),old,v,t.w)
        raise Unsupported('atomicrmw '+rop)
    def mkalloca(E,name,t):
        if getattr(E,'bytelocals',None) and re.match(E.bytelocals,name): return Region('local '+name,1,[Field(0,1)],length=E.d.I(t.size()) if False else (z3.BitVecVal(t.size(),64) if E.d.name=='bv' else z3.IntVal(t.size())))
        r=Region('local '+name,None,size=t.size())
        E.addsubs(r,t,0)
        return r
    def addsubs(E,r,t,base):
        t=R(t)
        if isinstance(t,ArrTy) and not isinstance(t,VecTy):
            e=R(t.e)
            if t.n>1 and not isinstance(e,ArrTy):
                fields=E.flat(e)
                if fields is not None:
                    sub=Region('%s.arr%d'%(r.name,base),e.size(),fields,length=t.n)
                    r.subs.append((base,e.size(),t.n,sub)); sub.parent=(r,base); return
            for i in range(t.n): E.addsubs(r,e,base+i*e.size())
        elif isinstance(t,StructTy):
            for o,f in zip(t.layout()[0],t.fs): E.addsubs(r,f,base+o)
    def flat(E,t):
        t=R(t)
        if isinstance(t,IntTy): return [Field(0,t.size())]
        if isinstance(t,StructTy):
            out=[]
            for o,f in zip(t.layout()[0],t.fs):
                s=E.flat(f)
                if s is None: return None
                out+=[Field(o+x.off,x.size) for x in s]
            return out
        return None
    def asptr(E,p):
        if isinstance(p,PtrInt): p=p.p
        if not isinstance(p,Ptr): raise Unsupported('dereference of non-pointer %r'%(p,))
        return p
    # ------------------------------------------------------------ calls
    def call(E,st,ins):
        d=E.d; n=ins.x['callee'].strip('@"') if not ins.x['indirect'] else None
        if ins.x['indirect']:
            f=E.ev(st,Loc(ins.x['callee']),PtrTy())
            if isinstance(f,FnPtr): n=f.n.strip('@"')
            else: raise Unsupported('indirect call')
        if n.startswith('llvm.'):
            return E.intrinsic(st,ins,n)
        h=E.contracts.get(n)
        if h is None:
            for k,v in E.contracts.items():
                if hasattr(k,'search') and k.search(n): h=v; break
        if h is None and (n in('__cxa_allocate_exception','__cxa_throw','__clang_call_terminate','_ZSt9terminatev','abort','__cxa_pure_virtual') or n.startswith('_ZSt') and '__throw_' in n):
            # the contracts below are stated for normal returns: reaching a throw is an obligation of its own
            E.oblige(st,'safety: no exception is thrown',False,ins); raise PathDead()
        if h is None: raise Unsupported('call to function without contract: '+n)
        args=[E.ev(st,v,t) for t,v in ins.args]
        r=h(E,st,args,ins)
        # r: value, or list of (state,value)
        if isinstance(r,list):
            out=[]
            for s,v in r:
                if ins.res: s.env[ins.res]=v
                out.append(s)
            if not out: raise PathDead()
            return out
        if ins.res: st.env[ins.res]=r
        return None
    def intrinsic(E,st,ins,n):
        d=E.d
        base=n.split('.')[1]
        E.used_intrinsics.add('.'.join(n.split('.')[:2]))
        if base in('lifetime','dbg','experimental','prefetch','invariant','donothing','assume','var','stacksave','stackrestore'): 
            if base=='assume': return
            return
        args=[E.ev(st,v,t) for t,v in ins.args]
        t=R(ins.ty)
        def setr(v): st.env[ins.res]=v
        nob=lambda *a:None
        if base=='expect': return setr(args[0])
        if base in('umax','umin','smax','smin'):
            pr={'umax':'uge','umin':'ule','smax':'sge','smin':'sle'}[base]
            return setr(d.ite(d.icmp(pr,t.w,args[0],args[1]),args[0],args[1],t.w))
        if base=='abs':
            a=args[0]; z0=d.const(t.w,0)
            neg=d.binop('sub',t.w,z0,a,set(),nob)
            if tobool(args[1]) is True:
                E.safety(st,'no overflow in abs',Not(d.icmp('eq',t.w,a,d.const(t.w,-(1<<(t.w-1))))),ins)
            if d.name=='int': a=d.Sn(a,t.w); neg=Num(-a.e,-a.hi,-a.lo)
            return setr(d.ite(d.icmp('slt',t.w,a,z0),neg,a,t.w))
        if base in('uadd','usub','sadd','ssub','umul','smul') and 'with' in n:
            w=R(R(t).fs[0]).w; a,b=args; op=base[1:]
            if d.name=='int':
                if base[0]=='u': x,y=d.U(a,w),d.U(b,w); lo,hi=0,(1<<w)-1
                else: x,y=d.S(a,w),d.S(b,w); lo,hi=-(1<<(w-1)),(1<<(w-1))-1
                e={'add':lambda:x+y,'sub':lambda:x-y,'mul':lambda:x*y}[op]()
                return setr(Agg([d.binop(op,w,a,b,set(),nob),Or(e<lo,e>hi)]))
            raise Unsupported(n)
        if base=='ctlz':
            return setr(E.ctlz(st,args[0],t.w,tobool(args[1]),ins))
        if base=='cttz':
            return setr(E.cttz(st,args[0],t.w,tobool(args[1]),ins))
        if base=='ctpop' and d.name=='bv':
            x=args[0].e; w=t.w
            r=z3.BitVecVal(0,w)
            for i in range(w): r=r+z3.ZeroExt(w-1,z3.Extract(i,i,x))
            return setr(Num(r,0,0))
        if base=='bswap' and d.name=='bv':
            x=args[0].e; w=t.w
            return setr(Num(z3.simplify(z3.Concat(*[z3.Extract(8*i+7,8*i,x) for i in range(w//8)])),0,0))
        if base in('fshl','fshr') and d.name=='bv':
            a,b,c=[q.e for q in args]; w=t.w; c=z3.URem(c,z3.BitVecVal(w,w))
            full=z3.Concat(a,b); cc=z3.ZeroExt(w,c)
            r=z3.Extract(2*w-1,w,full<<cc) if base=='fshl' else z3.Extract(w-1,0,z3.LShR(full,cc))
            return setr(Num(z3.simplify(r),0,0))
        if base=='usub' and 'sat' in n:
            return setr(d.ite(d.icmp('uge',t.w,args[0],args[1]),d.binop('sub',t.w,args[0],args[1],set(),nob),d.const(t.w,0),t.w))
        if base in('memcpy','memmove','memset'):
            return E.memop(st,ins,base,args)
        if base in('trap','ubsantrap'):
            E.oblige(st,'safety: trap not reached',False,ins); raise PathDead()
        if base in('floor','ceil','sqrt','fabs','round','rint','fmuladd','minnum','maxnum','log2','pow'):
            fs=[a.e for a in args]
            if E.d.name=='bv':
                if base in('floor','ceil','rint'): return setr(Opq(z3.fpRoundToIntegral({'floor':z3.RTN(),'ceil':z3.RTP(),'rint':z3.RNE()}[base],fs[0])))
                if base=='sqrt': return setr(Opq(z3.fpSqrt(z3.RNE(),fs[0])))
                if base=='fabs': return setr(Opq(z3.fpAbs(fs[0])))
                if base=='fmuladd': return setr(Opq(z3.fpAdd(z3.RNE(),z3.fpMul(z3.RNE(),fs[0],fs[1]),fs[2])))
                so=fs[0].sort(); return setr(Opq(z3.Function('llvm.'+base,*([so]*(len(fs)+1)))(*fs)))
            return setr(Opq(z3.Function('llvm.'+base,*([FPS]*(len(fs)+1)))(*fs)))
        if n.startswith('llvm.is.constant'): return setr(False)
        if base in('is','objectsize','launder','strip'):
            if base in('launder','strip'): return setr(args[0])
        raise Unsupported('intrinsic '+n)
    def ctlz(E,st,x,w,zp,ins):
        d=E.d
        if zp is True or zp is not False:
            E.safety(st,'argument of clz is not zero',Not(d.icmp('eq',w,x,d.const(w,0))),ins)
        if d.name=='bv':
            r=z3.BitVecVal(w,w)
            for i in range(w): r=z3.If(z3.Extract(i,i,x.e)==1,z3.BitVecVal(w-1-i,w),r)
            return Num(r,0,0)
        u=d.U(x,w)
        if isc(u): return d.const(w,w-u.bit_length())
        r=z3.IntVal(0)
        for k in range(w-1,-1,-1): pass
        r=z3.IntVal(0)
        for i in range(w-1,-1,-1): # u<2^i
            r=z3.If(u<(1<<i),z3.IntVal(0),r) if False else r
        r=z3.IntVal(w)
        for i in range(w): r=z3.If(u>=(1<<i),z3.IntVal(w-1-i),r)
        return Num(r,0,w)
    def cttz(E,st,x,w,zp,ins):
        d=E.d
        if zp is not False:
            E.safety(st,'argument of ctz is not zero',Not(d.icmp('eq',w,x,d.const(w,0))),ins)
        if d.name=='bv':
            r=z3.BitVecVal(w,w)
            for i in range(w-1,-1,-1): r=z3.If(z3.Extract(i,i,x.e)==1,z3.BitVecVal(i,w),r)
            return Num(r,0,0)
        raise Unsupported('cttz in int mode')
    def memop(E,st,ins,base,args):
        d=E.d
        n=args[2]
        nb=n.e if isc(n.e) else (n.e.as_long() if z3.is_bv_value(n.e) else None)
        dst=E.resolve(E.asptr(args[0])) if not(isinstance(args[0],Ptr) and args[0].reg is None) else args[0]
        if nb==0: return
        if base in('memcpy','memmove'):
            src=E.resolve(E.asptr(args[1]))
            if nb is not None and nb<=256:
                # field by field; snapshot the source first
                items=E.fieldlist(src,nb,dst)
                vals=[]
                for o,ty in items: vals.append((o,ty,E.load(st,E.gep(src,o,[]),ty,ins)))
                for o,ty,v in vals: E.store(st,E.gep(dst,o,[]),v,ty,ins)
                return
            if dst.reg.stride and src.reg.stride==dst.reg.stride and dst.off==0 and src.off==0:
                return E.bulk(st,ins,dst,src,n,base)
            raise Unsupported('memcpy of %s bytes'%(nb,))
        # memset
        val=args[1]
        if nb is not None and dst.reg.stride is None and nb<=512:
            byte=val.e if isc(val.e) else (val.e.as_long() if z3.is_bv_value(val.e) else None)
            if byte is None: raise Unsupported('memset value')
            if dst.reg.auto:
                have=sorted(o for o in dst.reg.fields if dst.off<=o<dst.off+nb)
                # create 8-byte cells where nothing is known yet
                o=dst.off; end=dst.off+nb; inner=dst.reg.subs
                while o<end:
                    sub=next((s for s in inner if s[0]<=o<s[0]+s[1]*s[2]),None)
                    if sub: 
                        b0,stn,cnt,r=sub
                        for fo,f in r.fields.items():
                            E.write(st,(r,fo),z3.K(d.index_sort(),z(E.bytesval(byte,f.size,r.fields[fo].signed)) if d.name=='int' else z3.BitVecVal(E.bytesval(byte,f.size,False),f.size*8)))
                        o=b0+stn*cnt; continue
                    f=dst.reg.fields.get(o)
                    if f is None:
                        nxt=min([q for q in dst.reg.fields if q>o]+[end]); sz=8
                        while o%sz or o+sz>nxt: sz//=2
                        f=E.autofield(dst.reg,o,IntTy(8*sz))
                    if f.ptr is not None:
                        E.write(st,(dst.reg,o),NULL)
                    else: E.store(st,Ptr(dst.reg,0,o),d.const(f.size*8,E.bytesval(byte,f.size,False)) if not f.is_bool else bool(byte&1),IntTy(f.size*8) if not f.is_bool else IntTy(1),ins,False)
                    o+=f.size
                return
            for o,f in dst.reg.fields.items():
                if dst.off<=o<dst.off+nb:
                    if f.ptr is not None: E.write(st,(dst.reg,o),NULL)
                    else: E.store(st,Ptr(dst.reg,0,o),d.const(f.size*8,E.bytesval(byte,f.size,False)),IntTy(f.size*8),ins)
            return
        if dst.reg.stride and dst.off==0:
            byte=val.e if isc(val.e) else (val.e.as_long() if z3.is_bv_value(val.e) else None)
            if byte is None: raise Unsupported('memset value')
            return E.bulkset(st,ins,dst,byte,n)
        raise Unsupported('memset')
    def bytesval(E,byte,size,signed):
        v=int.from_bytes(bytes([byte])*size,'little')
        if signed and v>=1<<(8*size-1): v-=1<<(8*size)
        return v
    def count(E,st,n,S,ins):
        d=E.d
        if isc(n.e):
            if n.e%S: raise Unsupported('partial element memop')
            return n.e//S
        if n.fac and n.fac[0]==S and d.name=='int': return n.fac[1]
        if S==1: return d.U(n,64)
        if d.name=='int':
            u=d.U(n,64)
            E.safety(st,'bulk operation covers whole elements',u%S==0,ins)
            return u/S
        raise Unsupported('memop size')
    def bulkbounds(E,st,p,cnt,ins,write):
        d=E.d; reg=p.reg
        if write and not reg.writable: E.safety(st,'frame: %s is not modified'%reg.name,False,ins)
        if reg.length is not None:
            L=reg.length(st) if callable(reg.length) else reg.length
            if d.name=='int':
                g=Or(Eq(cnt,0),And(0<=p.idx,p.idx+cnt<=L))
            else:
                e=d.I(d.iadd(p.idx,cnt)); g=z3.And(z3.ULE(d.I(p.idx),e),z3.ULE(e,d.I(L)))
            E.safety(st,'bulk access to %s in bounds'%reg.name,g,ins)
    def bulkset(E,st,ins,dst,byte,n):
        d=E.d; reg=dst.reg; cnt=E.count(st,n,reg.stride,ins)
        E.bulkbounds(st,dst,cnt,ins,True)
        for o,f in reg.fields.items():
            a=E.getarr(st,reg,o)
            na=z3.Const(fresh_name('%s.%s'%(reg.name,f.name)),a.sort())
            i=z3.Const(fresh_name('i'),d.index_sort())
            lo=d.I(dst.idx); hi=d.I(d.iadd(dst.idx,cnt))
            v=E.bytesval(byte,f.size,f.signed)
            v=z3.BoolVal(bool(v)) if f.is_bool else (z3.IntVal(v) if d.name=='int' else z3.BitVecVal(v,f.size*8))
            inr=z3.And(lo<=i,i<hi) if d.name=='int' else z3.And(z3.ULE(lo,i),z3.ULT(i,hi))
            st.path.append(z3.ForAll([i],z3.Select(na,i)==z3.If(inr,v,z3.Select(a,i)),patterns=[z3.Select(na,i)]))
            E.write(st,(reg,o),na)
    def bulk(E,st,ins,dst,src,n,base):
        d=E.d; reg=dst.reg; cnt=E.count(st,n,reg.stride,ins)
        E.bulkbounds(st,dst,cnt,ins,True); E.bulkbounds(st,src,cnt,ins,False)
        if base=='memcpy' and src.reg is dst.reg:
            E.safety(st,'memcpy ranges do not overlap',Or(dst.idx+cnt<=src.idx,src.idx+cnt<=dst.idx),ins)
        new=[]
        for o,f in reg.fields.items():
            a=E.getarr(st,reg,o); b=E.getarr(st,src.reg,o)
            na=z3.Const(fresh_name('%s.%s'%(reg.name,f.name)),a.sort())
            i=z3.Const(fresh_name('i'),d.index_sort())
            lo=d.I(dst.idx); hi=d.I(d.iadd(dst.idx,cnt)); dl=d.I(d.isub(src.idx,dst.idx))
            inr=z3.And(lo<=i,i<hi) if d.name=='int' else z3.And(z3.ULE(lo,i),z3.ULT(i,hi))
            st.path.append(z3.ForAll([i],z3.Select(na,i)==z3.If(inr,z3.Select(b,i+dl),z3.Select(a,i)),patterns=[z3.Select(na,i)]))
            new.append(((reg,o),na))
        for k,v in new: E.write(st,k,v)
    def fieldlist(E,src,n,dst):
        """the scalar pieces covered by a constant-size copy"""
        out=[]; o=0
        while o<n:
            sz=None
            for p in (E.gep(src,o,[]),E.gep(dst,o,[])):
                f=p.reg.fields.get(p.off) if p.reg.stride!=1 else None
                if f is not None and f.size<=n-o:
                    sz=f.size; ty=PtrTy() if f.ptr is not None else (FpTy('double') if f.fp and sz==8 else FpTy('float') if f.fp else IntTy(8*sz)); break
            if sz is None:
                if src.reg.stride==1 or dst.reg.stride==1: sz=1
                else:
                    # padding?  skip to the next known field
                    ks=[x for x in list(E.gep(src,o,[]).reg.fields) if x>E.gep(src,o,[]).off]
                    nx=min(ks)-E.gep(src,o,[]).off if ks and not src.reg.auto else None
                    if nx: o+=nx; continue
                    if not src.reg.auto: o+=1; continue
                    sz=8
                    while sz>n-o or (src.off+o)%sz: sz//=2
                ty=IntTy(8*sz)
            out.append((o,ty)); o+=sz
        return out

_hq={}
def hasq(f):
    i=f.get_id()
    r=_hq.get(i)
    if r is None or not r[1].eq(f):
        r=(_hasq(f,set()),f); _hq[i]=r
    return r[0]
def _hasq(f,seen):
    st=[f]
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        st+=x.children()
    return False
