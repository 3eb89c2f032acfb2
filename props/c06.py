from graphs import *
ID='C06'
LIM=(1<<30)-1
def conc(limited=None,setok=False):
    """rely/guarantee: between any two accesses other threads may change every block weight arbitrarily (within the
    weight range); this thread may change block weights only by atomic read-modify-write, whose sum is ghost state"""
    def hook(E):
        E.ghost_havoc=lambda E,st,k,g,h: z3.Const(fresh_name('net'),g.sort())
        def ah(E,st,kind,p,t,ins,args):
            pg=E.pg; rmw=kind.startswith('rmw') or kind=='cmpxchg'
            E.oblige(st,'guarantee: shared data is accessed atomically',B(rmw or ' atomic ' in ins.text),ins)
            if p.reg is not pg.bw: return None
            E.bounds(st,p,4,ins,kind!='load')
            w=z3.Const(fresh_name('W.any'),z3.ArraySort(z3.IntSort(),z3.IntSort())); i=z(p.idx); old=z3.Select(w,i)
            st.add(A(0<=old,old<=LIM)); st.mem[(pg.bw,0)]=w; net=st.ghost['net']
            if kind=='load': return Num(old,0,LIM)
            if kind=='store':
                E.oblige(st,'guarantee: block weights change only by read-modify-write',B(setok),ins)
                E.setw=(p.idx,E.d.S(args[0],32)); return True
            if kind in('rmw_add','rmw_sub'):
                v=E.d.S(args[0],32); v=v if kind=='rmw_add' else -v
                st.ghost['net']=z3.Store(net,i,z3.Select(net,i)+v); E.write(st,(pg.bw,0),z3.Store(w,i,old+v)); return Num(old,0,LIM)
            if kind=='cmpxchg':
                c,n=E.d.S(args[0],32),E.d.S(args[1],32); ok=z(old)==z(c)
                if limited is not None: E.oblige(st,'guarantee: a move never lifts the target above its limit',Imp(ok,z(n)<=E.max),ins)
                st.ghost['net']=z3.If(ok,z3.Store(net,i,z3.Select(net,i)+z(n)-old),net); E.write(st,(pg.bw,0),z3.If(ok,z3.Store(w,i,z(n)),w)); return Agg([Num(old,0,LIM),ok])
            raise Unsupported('atomic '+kind)
        E.atomic_hook=ah
        E.cellfacts=E.cellfacts
    return hook
ZERO=z3.K(z3.IntSort(),z3.IntVal(0))
def base(E,st,shared=True,assigned=True):
    g=E.g=Csr(E,st); pg=E.pg=PGraph(E,st,g,shared=shared,assigned=assigned); u=I('u')
    st.add(ForAll([u],Imp(A(0<=u,u<g.n),g.NW[u]<=LIM),patterns=[g.NW[u]])); st.ghost['net']=ZERO
    return g,pg
def cands(E,v0):
    if 'net' not in v0.st.ghost: return []
    b=I('b'); o=[('no weight shifted yet',lambda v: v.st.ghost['net']==ZERO)]
    for r,ins in v0.instrs.items():
        if isinstance(v0.entry[r],Num) and R(ins.ty).w==32: o.append(('%s is a possible block weight'%r,lambda v,r=r: A(0<=z(E.d.S(v.phis[r],32)),z(E.d.S(v.phis[r],32))<=LIM)))
    return o
def specs(tier):
    out=[]
    def ids(E,st,*names):
        o=[]
        for n in names:
            x=I(n); hi={'u':E.g.n,'from':E.pg.k,'to':E.pg.k,'b':E.pg.k}[n]; st.add(A(0<=x,x<hi)); o.append(Num(x,0,M31))
        return o
    def setup(E,st):
        g,pg=base(E,st); a=ids(E,st,'u','from','to'); mx=I('max'); E.max=mx; st.add(A(-(1<<31)<=mx,mx<=M31)); st.add(I('from')!=I('to')); st.add(pg.P[I('u')]==I('from'))
        return [pg.ptr()]+a+[Num(mx,-(1<<31),M31)]
    def moved(f,t,w): return z3.Store(z3.Store(ZERO,t,w),f,-w)
    def post(E,st,r):
        g,pg=E.g,E.pg; u,f,t=I('u'),I('from'),I('to'); w=g.wt(u); net=st.ghost['net']; P=a0(E,st,pg.part); r=tobool(r); r=B(r)
        return [('success moves the node',Imp(r,P==z3.Store(pg.P,u,t))),('failure leaves the assignment alone',Imp(z3.Not(r),P==pg.P)),
                ('success shifts exactly the node weight',Imp(r,net==moved(f,t,w))),('failure shifts nothing',Imp(z3.Not(r),net==ZERO))]
    out.append(Spec('pg_move',setup,post,hook=conc(True),cands=[cands],of='PartitionedGraph::move',signed_phis=('s32',)))
    def setup(E,st):
        g,pg=base(E,st); a=ids(E,st,'from','to'); mx,d=I('max'),I('delta'); E.max=mx; st.add(A(-(1<<31)<=mx,mx<=M31,0<=d,d<=LIM)); st.add(I('from')!=I('to'))
        return [pg.ptr()]+a+[Num(d,0,LIM),Num(mx,-(1<<31),M31)]
    def post(E,st,r):
        f,t=I('from'),I('to'); w=I('delta'); net=st.ghost['net']; r=B(tobool(r))
        return [('success shifts exactly delta',Imp(r,net==moved(f,t,w))),('failure shifts nothing',Imp(z3.Not(r),net==ZERO)),('nodes stay assigned',a0(E,st,E.pg.part)==E.pg.P)]
    out.append(Spec('pg_shift',setup,post,hook=conc(True),cands=[cands],of='PartitionedGraph::move_block_weight',signed_phis=('s32',)))
    inv=(1<<32)-1
    def setup(E,st):
        g,pg=base(E,st,assigned=False); return [pg.ptr()]+ids(E,st,'u','to')
    def post(E,st,r):
        g,pg=E.g,E.pg; u,t=I('u'),I('to'); f=pg.P[u]; w=g.wt(u); net=st.ghost['net']; b=I('b')
        want=lambda b: z3.If(b==t,w,z3.IntVal(0))-z3.If(A(f!=inv,b==f),w,z3.IntVal(0))
        return [('the node is assigned to the block, no other node changes',a0(E,st,pg.part)==z3.Store(pg.P,u,t)),('weights follow: off the old block (if any), onto the new one',ForAll([b],net[b]==want(b)))]
    out.append(Spec('pg_set',setup,post,hook=conc(),of='PartitionedGraph::set_block<true>'))
    out.append(Spec('pg_set_only',setup,lambda E,st,r:[('the node is assigned',a0(E,st,E.pg.part)==z3.Store(E.pg.P,I('u'),I('to'))),('no weight changes',st.ghost['net']==ZERO)],hook=conc(),of='PartitionedGraph::set_block<false>'))
    for op,s in (('inc',1),('dec',-1)):
        def setup(E,st):
            base(E,st); d=I('delta'); st.add(A(-LIM<=d,d<=LIM)); return [E.pg.ptr()]+ids(E,st,'b')+[Num(d,-LIM,LIM)]
        out.append(Spec('pg_'+op,setup,lambda E,st,r,s=s:[('exactly this block changes by exactly the amount',st.ghost['net']==z3.Store(ZERO,I('b'),s*I('delta'))),('nodes stay assigned',a0(E,st,E.pg.part)==E.pg.P)],hook=conc(),of='PartitionedGraph::%screase_block_weight'%('in' if s>0 else 'de')))
    def setup(E,st):
        base(E,st); d=I('delta'); st.add(A(-LIM<=d,d<=LIM)); return [E.pg.ptr()]+ids(E,st,'b')+[Num(d,-LIM,LIM)]
    out.append(Spec('pg_setw',setup,lambda E,st,r:[('this block gets the weight',A(z(E.setw[0])==I('b'),z(E.setw[1])==I('delta'))),('no other change',st.ghost['net']==ZERO)],hook=conc(setok=True),of='PartitionedGraph::set_block_weight'))
    def setup(E,st):
        base(E,st,shared=False); return [E.pg.ptr()]+ids(E,st,'b')
    out.append(Spec('pg_weight',setup,lambda E,st,r:[('the stored weight',E.d.S(r,32)==E.pg.W[I('b')])],of='PartitionedGraph::block_weight'))
    def setup(E,st):
        base(E,st,shared=False); return [E.pg.ptr()]+ids(E,st,'u')
    out.append(Spec('pg_block',setup,lambda E,st,r:[('the stored block',E.d.U(r,32)==E.pg.P[I('u')])],of='PartitionedGraph::block'))
    # initial block weights: S(b,u) = weight of the nodes before u in block b
    S=z3.Function('S',z3.IntSort(),z3.IntSort(),z3.IntSort())
    def setupi(par):
        def setup(E,st):
            g,pg=base(E,st,shared=False,assigned=False); b,u=I('b'),I('u')
            st.add(ForAll([b],S(b,0)==0,patterns=[S(b,0)])); st.add(ForAll([b,u],Imp(A(0<=b,b<pg.k,0<=u,u<=g.n),A(-M31<=S(b,u),0<=pg.W[b]+S(b,u),pg.W[b]+S(b,u)<=LIM)),patterns=[S(b,u)]))
            if par: st.add(pg.k>=65536)
            return [pg.ptr()]
        return setup
    def sdef(E,u):
        g,pg=E.g,E.pg; b=I('b')
        return ForAll([b],S(b,u+1)==S(b,u)+z3.If(pg.P[u]==b,g.wt(u),z3.IntVal(0)),patterns=[S(b,u+1)])
    def ic(E,v0):
        o=[]; b=I('b'); g,pg=E.g,E.pg
        for r,ins in v0.instrs.items():
            if not isinstance(v0.entry[r],Num): continue
            u=lambda v,r=r: z(E.d.U(v.phis[r],R(E_ty(v0,r)).w))
            o.append(('%s at most n'%r,lambda v,u=u: u(v)<=g.n))
            o.append(('weights of the nodes before %s are counted'%r,lambda v,u=u: ForAll([b],Imp(A(0<=b,b<pg.k),v.arr(pg.bw)[b]==pg.W[b]+S(b,u(v))),patterns=[v.arr(pg.bw)[b]])))
        return o
    def E_ty(v0,r): return v0.instrs[r].ty
    def ih(E): E.loop_defs=lambda E_,v: [f for r,p in v.phis.items() if isinstance(p,Num) for f in (sdef(E,z(p.e)),)]
    def posti(E,st,r):
        b=I('b'); g,pg=E.g,E.pg
        return [('every block weighs what it weighed plus its nodes',ForAll([b],Imp(A(0<=b,b<pg.k),a0(E,st,pg.bw)[b]==pg.W[b]+S(b,g.n)))),('assignment unchanged',a0(E,st,pg.part)==pg.P)]
    out.append(Spec('pg_init_seq',setupi(False),posti,cands=[ic],hook=ih,of='PartitionedGraph::init_block_weights_seq'))
    out.append(Spec('pg_init_par',setupi(True),posti,cands=[ic],hook=ih,of='PartitionedGraph::init_block_weights_par (many blocks)'))
    def setup(E,st):
        a=setupi(False)(E,st); st.add(E.pg.k<65536); return a
    def ic2(E,v0):
        o=[]; b=I('b'); g,pg=E.g,E.pg; sl=list(getattr(E,'sarrays',{}).values())
        if len(sl)!=2: return []
        s0,s1=sl; sm=lambda v,b: v.arr(s0)[b]+v.arr(s1)[b]
        o.append(('the slots are non-negative',lambda v: FA([b],Imp(A(0<=b,b<pg.k),A(0<=v.arr(s0)[b],0<=v.arr(s1)[b])),[v.arr(s0)[b],v.arr(s1)[b]])))
        for r,ins in v0.instrs.items():
            if not isinstance(v0.entry[r],Num): continue
            u=lambda v,r=r: z(E.d.U(v.phis[r],R(E_ty(v0,r)).w))
            o.append(('%s at most n'%r,lambda v,u=u: u(v)<=g.n)); o.append(('%s at most k'%r,lambda v,u=u: u(v)<=pg.k))
            o.append(('the slots count the nodes before %s'%r,lambda v,u=u: FA([b],Imp(A(0<=b,b<pg.k),sm(v,b)==S(b,u(v))),[v.arr(s0)[b],v.arr(s1)[b],S(b,u(v))])))
            o.append(('weights before block %s are final'%r,lambda v,u=u: FA([b],Imp(A(0<=b,b<u(v)),v.arr(pg.bw)[b]==S(b,g.n)),[v.arr(pg.bw)[b]])))
        for nm,cur in (('chunk end',lambda v:None),): pass
        o.append(('all nodes are counted',lambda v: FA([b],Imp(A(0<=b,b<pg.k),sm(v,b)==S(b,g.n)),[v.arr(s0)[b],v.arr(s1)[b]])))
        return o
    def post2(E,st,r):
        b=I('b'); g,pg=E.g,E.pg
        return [('every block weighs the sum of its nodes',FA([b],Imp(A(0<=b,b<pg.k),a0(E,st,pg.bw)[b]==S(b,g.n)))),('assignment unchanged',a0(E,st,pg.part)==pg.P)]
    def setup2(E,st):
        a=setup(E,st); b,u=I('b'),I('u'); pg=E.pg
        st.add(FA([b,u],Imp(A(0<=b,b<pg.k,0<=u,u<=E.g.n),A(0<=S(b,u),S(b,u)<=LIM)),[S(b,u)])); return a
    def ih2(E): ih(E)
    out.append(Spec('pg_init_par',setup2,post2,cands=[ic2,chunkcands],hook=ih2,contracts={**SA,'kvc_chunk':kvc_chunk,'kvc_slot':slot2},loop_mode=unroll_ptr(3),title='pg_init_par (thread-local)',of='PartitionedGraph::init_block_weights_par'))
    return out
UNITS=[{'src':'wrap/c06.cc','specs':specs,'defs':XTBB,'noinline':SA_NOINL}]
NATIVE=[{'src':'native/c06.cc','srcs':GRAPH_SRCS,'san':True,'bound':'160 (thorough: 600) random graphs up to 3000 nodes, k up to 65541, partially and fully unassigned partitions, all constructors, random histories of moves, shifts and assignments; 40 (200) contended runs of 8 threads with tight limits','covers':'real PartitionedGraph and PartitionedCSRGraph'}]
ASSUMPTIONS=['block weights, node weights, shifted weights and limits are at most 2^30-1 (no signed overflow of weight + delta)','the partition belongs to one mover per node: concurrent set_block/move of the same node is outside the contract','node weights are positive']
TRUSTED=['tbb::parallel_for runs every chunk of the range exactly once (extraction-only stand-in stub/xtbb); enumerable_thread_specific: each chunk is charged to one of two slots chosen by the environment','StaticArray construction/destruction/resize: fresh zeroed or uninitialised memory of the requested size','relaxed atomic read-modify-write operations are atomic per location']
