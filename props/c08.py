from graphs import *
ID='C08'
MP=z3.MultiPattern
def cutdef(E,st,g,P):
    """C(e) = total weight of the cut edges among the first e (directed) edges, by its defining recurrence"""
    C=z3.Function('C',z3.IntSort(),z3.IntSort()); u,e=I('u'),I('e')
    st.add(C(0)==0)
    st.add(ForAll([u,e],Imp(A(0<=u,u<g.n,g.X[u]<=e,e<g.X[u+1]),C(e+1)==C(e)+z3.If(P[u]!=P[g.T[e]],g.ewt(e),z3.IntVal(0))),patterns=[MP(g.X[u],g.T[e])]))
    return C
def slots(v):
    """thread-local accumulators: local arrays of two 64-bit cells"""
    return [r for (r,o) in v.st.mem if r.name.startswith('local') and r.stride==8 and r.length==2]
def specs(tier):
    out=[]
    def setup(E,st):
        g=E.g=Csr(E,st); pg=E.pg=PGraph(E,st,g); E.C=cutdef(E,st,g,pg.P); e=I('e')
        st.add(ForAll([e],Imp(A(0<=e,e<=g.m),A(0<=E.C(e),E.C(e)<=M31)),patterns=[E.C(e)]))
        return [pg.ptr(),g.ptr()]
    def cands(E,v0):
        g,C=E.g,E.C; o=[]; acc=[]
        for r,ins in v0.instrs.items():
            if isinstance(v0.entry[r],Num) and R(ins.ty).w==64: acc.append(lambda v,r=r: z(E.d.S(v.phis[r],64)))
        sl=slots(v0)
        for r in sl: acc.append(lambda v,r=r: v.arr(r)[0]+v.arr(r)[1])
        for r,ins in v0.instrs.items():
            if not isinstance(v0.entry[r],Num) or R(ins.ty).w!=32: continue
            u=lambda v,r=r: z(E.d.U(v.phis[r],32))
            o.append(('%s at most n'%r,lambda v,u=u: u(v)<=g.n)); o.append(('%s at most m'%r,lambda v,u=u: u(v)<=g.m))
            for a in acc:
                o.append(('cut of the edges before node %s'%r,lambda v,u=u,a=a: a(v)==C(g.X[u(v)])))
                o.append(('cut of the edges before edge %s'%r,lambda v,u=u,a=a: a(v)==C(u(v))))
        for r in sl:
            for k in(0,1): o.append(('slot %d is a partial cut'%k,lambda v,r=r,k=k: A(0<=v.arr(r)[k],v.arr(r)[k]<=M31)))
        return o
    def edgec(E,v0):
        """the edge variable of an inner loop stays in the range of the node whose offset it started from"""
        o=[]; g=E.g
        for r,ins in v0.instrs.items():
            en=v0.entry[r]
            if not isinstance(en,Num) or R(ins.ty).w!=32: continue
            e0=z(E.d.U(en,32))
            if z3.is_select(e0) and e0.arg(0).eq(g.X):
                u=e0.arg(1); o.append(('%s is an edge of its node or one past it'%r,lambda v,r=r,u=u: A(g.X[u]<=z(E.d.U(v.phis[r],32)),z(E.d.U(v.phis[r],32))<=g.X[u+1])))
        return o
    post=lambda E,st,r: [('twice the result is the weight of all cut directed edges',z(E.d.S(r,32))==E.C(E.g.m)/2)]
    out.append(Spec('m_cut_seq',setup,post,cands=[cands,edgec],of='metrics::edge_cut_seq'))
    out.append(Spec('m_cut_par',setup,post,cands=[cands,edgec,chunkcands],contracts={'kvc_chunk':kvc_chunk,'kvc_slot':slot2},loop_mode=unroll_ptr(3),of='metrics::edge_cut'))
    # overload and balance against the limits of a context
    def ctx(E,st):
        g=E.g=Csr(E,st); pg=E.pg=PGraph(E,st,g); o=Region('ctx',None,size=lay(E,'ctx')); o.auto=True
        mx=arr('ctx.max_block_weights',4,pg.k,signed=True); E.mx=mx; off=lay(E,'ctx_max'); E.MX=E.getarr(st,mx,0); b=I('b')
        cell(E,o,off,8,Ptr(mx,0,0)); cell(E,o,lay(E,'ctx_k'),4,Num(pg.k,1,M31))
        st.add(ForAll([b],Imp(A(0<=b,b<pg.k),A(0<=E.MX[b],E.MX[b]<=M31)),patterns=[E.MX[b]])); st.add(ForAll([b],Imp(A(0<=b,b<pg.k),A(0<=pg.W[b],pg.W[b]<=M31)),patterns=[pg.W[b]]))
        return [pg.ptr(),Ptr(o)]
    O=z3.Function('O',z3.IntSort(),z3.IntSort())
    def setupo(E,st):
        a=ctx(E,st); b=I('b'); pg=E.pg
        st.add(O(0)==0); st.add(ForAll([b],Imp(A(0<=b,b<pg.k),O(b+1)==O(b)+z3.If(pg.W[b]>E.MX[b],pg.W[b]-E.MX[b],z3.IntVal(0))),patterns=[pg.W[b]]))
        st.add(ForAll([b],Imp(A(0<=b,b<=pg.k),A(0<=O(b),O(b)<=M31)),patterns=[O(b)])); return a
    def oc(E,v0):
        o=[]; ph=[r for r,i in v0.instrs.items() if isinstance(v0.entry[r],Num) and R(i.ty).w==32]
        for r in ph:
            u=lambda v,r=r: z(E.d.U(v.phis[r],32)); o.append(('%s at most k'%r,lambda v,u=u: u(v)<=E.pg.k))
            for q in ph:
                if q!=r: o.append(('%s is the overload of the blocks before %s'%(q,r),lambda v,u=u,q=q: z(E.d.S(v.phis[q],32))==O(u(v))))
        return o
    out.append(Spec('m_overload',setupo,lambda E,st,r:[('the sum of the excess weights',z(E.d.S(r,32))==O(E.pg.k))],cands=[oc],of='metrics::total_overload',signed_phis=('s32',)))
    def bc(E,v0):
        o=[]; b=I('b')
        for r,i in v0.instrs.items():
            if isinstance(v0.entry[r],Num) and R(i.ty).w==32:
                u=lambda v,r=r: z(E.d.U(v.phis[r],32)); o.append(('%s at most k'%r,lambda v,u=u: u(v)<=E.pg.k))
                o.append(('blocks before %s are within their limits'%r,lambda v,u=u: FA([b],Imp(A(0<=b,b<u(v)),E.pg.W[b]<=E.MX[b]),[E.pg.W[b]])))
        return o
    def posb(E,st,r):
        b=I('b'); return [('true exactly when every block is within its limit',B(tobool(r))==ForAll([b],Imp(A(0<=b,b<E.pg.k),E.pg.W[b]<=E.MX[b])))]
    out.append(Spec('m_balanced',ctx,posb,cands=[bc],of='metrics::is_balanced'))
    out.append(Spec('m_feasible',ctx,posb,cands=[bc],of='metrics::is_feasible'))
    return out
UNITS=[{'src':'wrap/c08.cc','specs':specs,'defs':XTBB,'noinline':SA_NOINL}]
NATIVE=[{'src':'native/c08.cc','srcs':GRAPH_SRCS+['kaminpar-shm/kaminpar.cc'],'bound':'500 (thorough: 3000) random graphs up to 4000 nodes, k up to 200, both graph interfaces, limits at and around the block weights; edge weights whose directed sum is close to 2^31','covers':'metrics.h, PartitionContext::setup'}]
ASSUMPTIONS=['the total weight of cut directed edges fits in 31 bits','block weights and limits are non-negative','the excess weights sum to less than 2^31']
TRUSTED=['tbb::parallel_for runs every chunk of the range exactly once (extraction-only stand-in stub/xtbb); enumerable_thread_specific: each chunk is charged to one of two slots chosen by the environment']
