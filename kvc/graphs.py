"""Contracts shared by the graph properties: the data structure invariants of StaticArray, CSRGraph and
PartitionedGraph.  Member offsets come from the layout probes (wrap/lay.h) of the extracted module."""
from driver import *
I=z3.Int; ForAll=z3.ForAll; A=z3.And; Imp=z3.Implies
M31=(1<<31)-1
def lay(E,n):
    l=E.mod.globals.get('@lay_'+n)
    m=re.search(r'constant i64 (\d+)',l or '') or (re.search(r'constant i64 (zeroinitializer)',l or ''))
    if not m: raise Unsupported('layout probe '+n+' missing')
    return int(m[1]) if m[1].isdigit() else 0
def arr(name,size,length,signed=False,shared=False,writable=True):
    return Region(name,size,[Field(0,size,signed=signed,name='v')],length=length,shared=shared,writable=writable)
def a0(E,st,r): return E.getarr(st,r,0)
def sa(E,st,obj,off,reg,length):
    """a StaticArray member at byte offset off of obj, viewing reg with `length` elements"""
    d=lay(E,'sa_data'); s=lay(E,'sa_size')
    f=Field(off+d,8,ptr=reg or NULL,name='data'); obj.fields[off+d]=f; obj.fields[off+s]=Field(off+s,8,name='size')
    E.initial_mem[(obj,off+d)]=Ptr(reg,0,0) if reg else NULL; E.cellfacts[(obj,off+d)]=[]
    E.initial_mem[(obj,off+s)]=Num(length,0,1<<40) if not isinstance(length,int) else Num(length,length,length); E.cellfacts[(obj,off+s)]=[]
def cell(E,obj,off,size,val,signed=False,lo=None,hi=None):
    obj.fields[off]=Field(off,size,signed=signed)
    E.initial_mem[(obj,off)]=val if isinstance(val,(Ptr,Num)) or z3.is_bool(val) else Num(val,lo,hi); E.cellfacts[(obj,off)]=[]
    if isinstance(val,Ptr): obj.fields[off].ptr=val
class Csr:
    """a valid CSR graph object: offsets monotone from 0 to m, targets below n, positive node and edge weights"""
    def __init__(g,E,st,name='g',pre='csr',writable=False,weighted=True):
        g.E=E; n,m=I(name+'.n'),I(name+'.m'); g.n,g.m=n,m
        st.add(A(0<=n,n<(1<<31),0<=m,m<(1<<31)))
        g.nodes=arr(name+'.nodes',4,n+1,writable=writable); g.edges=arr(name+'.edges',4,m,writable=writable)
        g.nw=arr(name+'.node_weights',4,n,signed=True,writable=writable); g.ew=arr(name+'.edge_weights',4,m,signed=True,writable=writable)
        o=Region(name,None,size=lay(E,pre)); g.obj=o; o.auto=True; o.writable=writable
        sa(E,st,o,lay(E,pre+'_nodes'),g.nodes,n+1); sa(E,st,o,lay(E,pre+'_edges'),g.edges,m)
        sa(E,st,o,lay(E,pre+'_nw'),g.nw,n); sa(E,st,o,lay(E,pre+'_ew'),g.ew,m)
        g.tnw,g.tew=I(name+'.total_node_weight'),I(name+'.total_edge_weight'); st.add(A(0<=g.tnw,g.tnw<=M31,0<=g.tew,g.tew<=M31))
        cell(E,o,lay(E,pre+'_tnw'),4,Num(g.tnw,0,M31),True); cell(E,o,lay(E,pre+'_tew'),4,Num(g.tew,0,M31),True)
        g.X,g.T,g.NW,g.EW=(E.getarr(st,r,0) for r in(g.nodes,g.edges,g.nw,g.ew))
        u,v,e=I('u'),I('v'),I('e')
        st.add(g.X[0]==0); st.add(g.X[n]==m)
        st.add(ForAll([u],Imp(A(0<=u,u<n),A(0<=g.X[u],g.X[u]<=g.X[u+1],g.X[u+1]<=m)),patterns=[g.X[u]]))
        st.add(ForAll([e],Imp(A(0<=e,e<m),A(0<=g.T[e],g.T[e]<n)),patterns=[g.T[e]]))
        st.add(ForAll([u],Imp(A(0<=u,u<n),A(1<=g.NW[u],g.NW[u]<=M31)),patterns=[g.NW[u]]))
        st.add(ForAll([e],Imp(A(0<=e,e<m),A(1<=g.EW[e],g.EW[e]<=M31)),patterns=[g.EW[e]]))
    def ptr(g): return Ptr(g.obj)
    def wt(g,u): return z3.If(g.n!=g.tnw,g.NW[u],z3.IntVal(1))     # node weight; a total equal to n means unit weights
    def ewt(g,e): return z3.If(g.m!=g.tew,g.EW[e],z3.IntVal(1))
class PGraph:
    """a partitioned graph over g: k blocks, a block id (or the invalid id) per node, a weight per block"""
    def __init__(p,E,st,g,name='p',shared=False,assigned=True,pre='pg'):
        p.E=E; p.g=g; p.k=I(name+'.k'); st.add(A(0<p.k,p.k<(1<<31)))
        p.part=arr(name+'.partition',4,g.n,shared=shared); p.bw=arr(name+'.block_weights',4,p.k,signed=True,shared=shared)
        o=Region(name,None,size=lay(E,pre)); p.obj=o; o.auto=True
        cell(E,o,lay(E,pre+'_graph'),8,g.ptr()); cell(E,o,lay(E,pre+'_k'),4,Num(p.k,1,M31))
        sa(E,st,o,lay(E,pre+'_part'),p.part,g.n); sa(E,st,o,lay(E,pre+'_bw'),p.bw,p.k)
        p.P,p.W=E.getarr(st,p.part,0),E.getarr(st,p.bw,0)
        u,b=I('u'),I('b')
        inv=(1<<32)-1
        st.add(ForAll([u],Imp(A(0<=u,u<g.n),A(0<=p.P[u],z3.Or(p.P[u]<p.k,p.P[u]==inv) if not assigned else p.P[u]<p.k)),patterns=[p.P[u]]))
    def ptr(p): return Ptr(p.obj)
def u32(n,hi=(1<<32)-1): return Num(I(n),0,hi)
def s32(n): return Num(I(n),-(1<<31),M31)
XTBB=['-fno-access-control','-I'+os.path.join(VERIF,'stub','xtbb')]
def kvc_chunk(E,st,args,ins):
    """environment: any non-empty prefix of the remaining range"""
    a,b=args; r=I(fresh_name('chunk')); st.add(A(r>z(E.d.U(a,64)),r<=z(E.d.U(b,64)))); st.ghost[('chunk',)]=r; E.assumed.add('tbb::parallel_for runs its body on disjoint chunks covering the range')
    return Num(r,0,b.hi if isinstance(b.hi,int) else (1<<64)-1)
def kvc_slot(E,st,args,ins):
    r=I(fresh_name('slot')); st.add(A(0<=r,r<=1)); E.assumed.add('thread-local storage: any slot may be handed out (two slots)')
    return Num(r,0,1)
TBB={'kvc_chunk':kvc_chunk,'kvc_slot':kvc_slot}
# StaticArray construction and resizing by contract (memory management is outside of the verifier's reach)
SA_NOINL=['_ZN8kaminpar11StaticArrayI[a-z]EC2IJ','_ZN8kaminpar11StaticArrayI[a-z]ED2Ev','_ZN8kaminpar11StaticArrayI[a-z]E6resizeIJ']
TYSZ={'j':(4,False),'i':(4,True),'m':(8,False),'l':(8,True),'h':(1,False),'b':(1,False),'t':(2,False)}
def sa_alloc(E,st,args,ins):
    n=str(ins.x['callee'])
    m=re.search(r'StaticArrayI([a-z])E(C2|6resize)IJ(.*?)E+E(m|v)(\w)?',n)
    if not m: raise Unsupported('StaticArray constructor '+n[:120])
    t=m[1]; sz,sg=TYSZ[t]; p=args[0]; size=args[1]; tail=n[m.end(4):] if m[4]=='m' else ''
    init=None
    if m[5] and m[5]==t and len(args)>=3 and isinstance(args[2],Num): init=args[2]
    noinit='noinit' in m[3]
    key=('sa',E.fn.name,ins.text,tuple(f.header for f in st.frames))
    if st.frames and any(True for f in st.frames): raise Unsupported('allocation inside a loop')
    r=E.allocas.get(key)
    if r is None:
        r=E.allocas[key]=arr('array@%d'%len(E.allocas),sz,None,signed=sg)
    L=E.d.U(size,64); r.length=L
    f=r.fields[0]
    if not noinit: st.mem[(r,0)]=z3.K(z3.IntSort(),z(E.d.S(init,8*sz) if sg else E.d.U(init,8*sz)) if init is not None else z3.IntVal(0))
    for fr in st.frames: E.modset.setdefault(fr.header,set()).add((r,0))
    E.assumed.add('StaticArray allocation returns fresh memory of the requested size with the requested initial value')
    d,s=lay(E,'sa_data'),lay(E,'sa_size')
    E.store(st,Ptr(p.reg,p.idx,p.off+s),size,IntTy(64),ins); E.store(st,Ptr(p.reg,p.idx,p.off+d),Ptr(r,0,0),PtrTy(),ins)
    E.sarrays=getattr(E,'sarrays',{}); E.sarrays[key]=r
    return None
def nop(E,st,args,ins): return None
SA={re.compile(SA_NOINL[0]):sa_alloc,re.compile(SA_NOINL[1]):nop,re.compile(SA_NOINL[2]):sa_alloc}
def slot2(E,st,args,ins):
    """thread-local storage: either slot (path split)"""
    E.assumed.add('thread-local storage: any slot may be handed out (two slots)')
    return [(st,Num(0,0,0)),(st.copy(),Num(1,1,1))]
def unroll_ptr(n=4):
    """loops over a fixed number of objects (pointer induction over a local array of objects) are unrolled"""
    def lm(E,h):
        for ins in E.fn.blocks[h]:
            if ins.op!='phi': break
            if isinstance(R(ins.ty),PtrTy): return n
        return None
    return lm
def FA(vs,body,pats=()):
    """universal quantifier with the usable ones of the given patterns"""
    ps=[]
    for p in pats:
        try: z3.ForAll(vs,body,patterns=[p]); ps.append(p)
        except z3.Z3Exception: pass
    return z3.ForAll(vs,body,patterns=ps) if ps else z3.ForAll(vs,body)

def chunkcands(E,v0):
    """loop variables inside of the body of a parallel loop do not leave the chunk"""
    if ('chunk',) not in v0.st.ghost: return []
    c=v0.st.ghost[('chunk',)]
    return [('%s stays in the chunk'%r,lambda v,r=r,w=R(i.ty).w: z(E.d.U(v.phis[r],w))<=c) for r,i in v0.instrs.items() if isinstance(v0.entry[r],Num)]

def vtable(E,name,cls):
    """the virtual function table of a class as it stands in the extracted module"""
    l=E.mod.globals.get('@_ZTV'+cls) or ''
    m=re.search(r'\[\d+ x ptr\] \[(.*?)\]',l)
    if not m: raise Unsupported('virtual table of '+cls+' is not part of the module')
    es=[x.strip()[4:] for x in m[1].split(',')][2:]; r=Region(name,None,size=8*len(es)); r.auto=True; r.writable=False
    for i,x in enumerate(es):
        f=FnPtr(x) if x.startswith('@') else NULL
        r.fields[8*i]=Field(8*i,8,ptr=NULL); E.initial_mem[(r,8*i)]=f; E.cellfacts[(r,8*i)]=[]
    return r
def graph_obj(E,st,g,name='G'):
    """a Graph wrapping the CSR graph object g: calls go through the virtual table of CSRGraph"""
    cell(E,g.obj,0,8,Ptr(vtable(E,'vtable of CSRGraph','N8kaminpar3shm8CSRGraphE')))
    o=Region(name,None,size=lay(E,'graph')); o.auto=True; cell(E,o,lay(E,'graph_under'),8,g.ptr()); return o
def dyncast(E,st,args,ins):
    """__dynamic_cast on an object that is a CSRGraph"""
    return args[0] if 'CSRGraph' in ins.text.split('ptr @')[-1] else NULL
def virt(field,w=32):
    def h(E,st,args,ins):
        g=E.g
        if not (isinstance(args[0],Ptr) and args[0].reg is g.obj): raise Unsupported('virtual call on another object')
        return Num(getattr(g,field),0,M31)
    return h
VIRT={'_ZNK8kaminpar3shm8CSRGraph1nEv':virt('n'),'_ZNK8kaminpar3shm8CSRGraph1mEv':virt('m'),'__dynamic_cast':dyncast}
# repository sources a native run over graph objects needs
COMMON_SRCS=['kaminpar-common/'+x for x in ('random.cc','logger.cc','timer.cc','heap_profiler.cc','strutils.cc','console_io.cc')]
GRAPH_SRCS=['kaminpar-shm/datastructures/'+x for x in ('csr_graph.cc','compressed_graph.cc','graph.cc')]+COMMON_SRCS
