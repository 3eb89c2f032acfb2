from graphs import *
ID='C09'
MP=z3.MultiPattern
def count(E,st): return st.ghost['cnt']
def visitor(kind):
    """environment of the traversals: the j-th call must deliver the j-th neighbour of u (and its weight)"""
    def c(E,st,args,ins):
        g=E.g; j=st.ghost['cnt']; e=E.from_+j
        st2=[E.d.U(args[0],32)]
        if kind=='e':
            E.oblige(st,'visit: the edge id of the next neighbour',z(E.d.U(args[0],32))==e,ins); a=args[1:]
        else: a=args
        E.oblige(st,'visit: no neighbour beyond the last',j<E.want,ins)
        E.oblige(st,'visit: the next neighbour in order',z(E.d.U(a[0],32))==g.T[e],ins)
        if E.weights: E.oblige(st,'visit: its edge weight',z(E.d.S(a[1],32))==g.ewt(e),ins)
        if kind=='stop': E.oblige(st,'visit: not after the visitor asked to stop',z3.Not(B(st.ghost['stopped'])),ins)
        st.ghost['cnt']=j+1
        if kind=='stop':
            b=z3.Bool(fresh_name('stop')); st.ghost['stopped']=b; return b
        return None
    return c
def gh(E):
    E.ghost_havoc=lambda E,st,k,g,h: z3.Int(fresh_name('cnt')) if k=='cnt' else z3.Bool(fresh_name('stopped')) if k=='stopped' else g
def specs(tier):
    out=[]
    def base(E,st,*ids,**kw):
        g=E.g=Csr(E,st,**kw); o=[]
        for n in ids:
            x=I(n); st.add(A(0<=x,x<(g.m if n=='e' else g.n))); o.append(Num(x,0,M31))
        return g,[g.ptr()]+o
    def acc(fn,of,ids,val,sg=False):
        def setup(E,st): return base(E,st,*ids)[1]
        out.append(Spec(fn,setup,lambda E,st,r:[('the stored value',z((E.d.S if sg else E.d.U)(r,32))==val(E.g))],of='CSRGraph::'+of))
    u,e=I('u'),I('e')
    acc('g_n','n',(),lambda g:g.n); acc('g_m','m',(),lambda g:g.m)
    acc('g_degree','degree',('u',),lambda g:g.X[u+1]-g.X[u]); acc('g_first_edge','first_edge',('u',),lambda g:g.X[u]); acc('g_first_invalid_edge','first_invalid_edge',('u',),lambda g:g.X[u+1])
    acc('g_edge_target','edge_target',('e',),lambda g:g.T[e]); acc('g_node_weight','node_weight',('u',),lambda g:g.wt(u),True); acc('g_edge_weight','edge_weight',('e',),lambda g:g.ewt(e),True)
    def visits(fn,of,kind,weights=True,limit=False,par=False):
        def setup(E,st):
            g,a=base(E,st,'u'); E.from_=g.X[u]; deg=g.X[u+1]-g.X[u]; E.weights=weights; E.want=deg
            if limit:
                mx=I('mx'); st.add(A(0<=mx,mx<=(1<<32)-1)); a.append(Num(mx,0,(1<<32)-1)); E.want=z3.If(mx<deg,mx,deg)
            if par:
                gr=I('grain'); st.add(A(0<=gr,gr<=(1<<32)-1)); a.append(Num(gr,0,(1<<32)-1))
            st.ghost['cnt']=z3.IntVal(0); st.ghost['stopped']=z3.BoolVal(False); return a
        def cands(E,v0):
            o=[('not asked to stop',lambda v: z3.Not(B(v.st.ghost['stopped'])))]
            o.append(('no more visits than neighbours',lambda v: A(0<=v.st.ghost['cnt'],v.st.ghost['cnt']<=E.want)))
            for r,i in v0.instrs.items():
                if isinstance(v0.entry[r],Num): o.append(('%s is the next edge'%r,lambda v,r=r,w=R(i.ty).w: z(E.d.U(v.phis[r],w))==E.from_+v.st.ghost['cnt']))
                if isinstance(v0.entry[r],Num): o.append(('%s is the number of visits'%r,lambda v,r=r,w=R(i.ty).w: z(E.d.U(v.phis[r],w))==v.st.ghost['cnt']))
            return o
        def post(E,st,r):
            c=st.ghost['cnt']; s=B(st.ghost['stopped'])
            return [('every neighbour visited',z3.Or(s,c==E.want) if kind=='stop' else c==E.want)]
        nm={'e':'kvc_visit_e','stop':'kvc_visit_stop'}.get(kind,'kvc_visit')
        out.append(Spec(fn,setup,post,cands=[cands]+([chunkcands] if par else []),hook=gh,contracts={nm:visitor(kind),**(TBB if par else {})},of='CSRGraph::'+of))
    visits('g_adjacent','adjacent_nodes','v'); visits('g_adjacent_nw','adjacent_nodes (targets only)','v',False); visits('g_adjacent_stop','adjacent_nodes (stoppable)','stop')
    visits('g_adjacent_max','adjacent_nodes (limited)','v',limit=True); visits('g_neighbors','neighbors','e'); visits('g_pfor_adjacent','pfor_adjacent_nodes','v',limit=True,par=True)
    # totals
    S=z3.Function('S',z3.IntSort(),z3.IntSort()); i=I('i')
    def sdef(E,st,g):
        st.add(S(0)==0); st.add(ForAll([i],Imp(A(0<=i,i<g.n),S(i+1)==S(i)+g.NW[i]),patterns=[g.NW[i]])); st.add(ForAll([i],Imp(A(0<=i,i<=g.n),A(0<=S(i),S(i)<=M31)),patterns=[S(i)]))
    def setup0(E,st):
        g,a=base(E,st); sdef(E,st,g); cell(E,g.obj,lay(E,'csr_mnw'),4,Num(I('mnw0'),0,M31),True); st.add(A(0<=I('mnw0'),I('mnw0')<=M31)); return a
    def cands(E,v0):
        g=E.g; o=[]; N=g.NW
        def ix(v,r):
            p=v.phis[r]; return z(p.idx) if isinstance(p,Ptr) else z(E.d.U(p,R(v0.instrs[r].ty).w))
        for r,ins in v0.instrs.items():
            o.append(('%s within the nodes'%r,lambda v,r=r: A(0<=ix(v,r),ix(v,r)<=g.n)))
            if isinstance(v0.entry[r],Ptr): o.append(('%s before the end'%r,lambda v,r=r: ix(v,r)<g.n))
            for q,qi in v0.instrs.items():
                if q==r: continue
                if isinstance(v0.entry[q],Num): o.append(('%s is the weight of the nodes before %s'%(q,r),lambda v,r=r,q=q,w=R(qi.ty).w: z(E.d.S(v.phis[q],w))==S(ix(v,r))))
                else:
                    o.append(('%s is not beaten before %s'%(q,r),lambda v,r=r,q=q: FA([i],Imp(A(0<=i,i<ix(v,r)),N[i]<=N[ix(v,q)]),[N[i]])))
                    o.append(('%s is not beaten up to %s'%(q,r),lambda v,r=r,q=q: FA([i],Imp(A(0<=i,i<=ix(v,r)),N[i]<=N[ix(v,q)]),[N[i]])))
        return o
    def post(E,st,r):
        g=E.g; t=E.getcell(st,g.obj,lay(E,'csr_tnw')); m=E.getcell(st,g.obj,lay(E,'csr_mnw')); t=z(E.d.S(t,32)); m=z(E.d.S(m,32))
        return [('the total is the sum of the node weights',t==S(g.n)),('no node is heavier than the maximum',ForAll([i],Imp(A(0<=i,i<g.n),g.NW[i]<=m),patterns=[g.NW[i]])),('the maximum is attained',Imp(g.n>0,z3.Exists([i],A(0<=i,i<g.n,g.NW[i]==m))))]
    def setup1(E,st):
        a=setup0(E,st); st.add(E.g.n>=1); E.g.obj.writable=True; return a
    out.append(Spec('_ZN8kaminpar3shm8CSRGraph24update_total_node_weightEv',setup1,post,cands=[cands],title='g_update',of='CSRGraph::update_total_node_weight'))
    # removing and re-integrating isolated nodes
    NB=34
    def bsetup(E,st,extra):
        g=E.g=Csr(E,st); o=g.obj; o.writable=True; bk=E.bk=arr('buckets',4,I('nb')); E.B0=E.getarr(st,bk,0); off=lay(E,'csr_buckets')
        st.add(A(1<=I('nb'),I('nb')<=NB))
        cell(E,o,off,8,Ptr(bk,0,0)); cell(E,o,off+8,8,Ptr(bk,I('nb'),0)); cell(E,o,lay(E,'csr_nbuckets'),8,Num(I('used'),0,NB)); st.add(A(0<=I('used'),I('used')<=NB))
        un=lay(E,'sa_unrestricted')
        N=E.N=I('n.unrestricted'); st.add(A(N>=g.n,N<(1<<31)))
        cell(E,o,lay(E,'csr_nodes')+un,8,Num(N+1,1,1<<31)); cell(E,o,lay(E,'csr_nw')+un,8,Num(N,0,1<<31))
        b=I('b'); st.add(ForAll([b],Imp(A(0<=b,b<I('nb')),A(0<=E.B0[b],E.B0[b]<=N)),patterns=[E.B0[b]]))
        return [g.ptr()]
    def total(E,st,args,ins):
        """contract of update_total_node_weight (proved above): totals of the nodes visible at the call"""
        g=E.g; n=E.load(st,Ptr(g.obj,0,lay(E,'csr_nodes')+lay(E,'sa_size')),IntTy(64),ins); st.ghost['n_at_total']=z(E.d.U(n,64))
        t=I(fresh_name('tnw')); st.add(A(0<=t,t<=M31)); E.store(st,Ptr(g.obj,0,lay(E,'csr_tnw')),Num(t,0,M31),IntTy(32),ins); return None
    def size(E,st,nm): return z(E.d.U(E.getcell(st,E.g.obj,lay(E,nm)+lay(E,'sa_size')),64))
    def shift(sign,amount):
        def c(E,v0):
            o=[]; b=I('b'); k=amount(E)
            for r,ins in v0.instrs.items():
                if not isinstance(v0.entry[r],Num): continue
                x=lambda v,r=r,w=R(ins.ty).w: z(E.d.U(v.phis[r],w))
                o.append(('%s below the number of buckets'%r,lambda v,x=x: x(v)<I('nb')))
                o.append(('buckets up to %s are shifted'%r,lambda v,x=x: FA([b],Imp(A(1<=b,b<=x(v)),v.arr(E.bk)[b]==(E.B0[b]+sign*k)%(1<<32)),[v.arr(E.bk)[b]])))
                o.append(('buckets after %s are untouched'%r,lambda v,x=x: FA([b],Imp(A(b>x(v),b<I('nb')),v.arr(E.bk)[b]==E.B0[b]),[v.arr(E.bk)[b]])))
            o.append(('the first bucket starts where it did',lambda v: v.arr(E.bk)[0]==E.B0[0]))
            return o
        return c
    def setup(E,st):
        a=bsetup(E,st,None); k=I('isolated'); st.add(A(0<=k,k<=E.g.n,k<=M31)); b=I('b')
        st.add(ForAll([b],Imp(A(1<=b,b<I('nb')),E.B0[b]>=k),patterns=[E.B0[b]])); return a+[Num(k,0,M31)]
    def post(E,st,r):
        b=I('b'); k=I('isolated'); g=E.g; Bf=E.getarr(st,E.bk,0); nb=z(E.d.U(E.getcell(st,g.obj,lay(E,'csr_nbuckets')),64))
        o=[('the last nodes disappear',A(size(E,st,'csr_nodes')==g.n-k+1,Imp(k>0,size(E,st,'csr_nw')==g.n-k))),
                ('every later bucket starts (and ends) earlier by the number of removed nodes',ForAll([b],Imp(A(1<=b,b<I('nb')),Bf[b]==E.B0[b]-k))),
                ('no bucket is left when all nodes were isolated',nb==z3.If(A(k>0,I('used')==1),z3.IntVal(0),I('used')))]
        t=st.ghost.get('n_at_total'); o.append(('totals are recomputed for the remaining nodes',Imp(k>0,t==g.n-k+1) if t is not None else k==0)); return o
    out.append(Spec('g_remove_isolated',setup,post,cands=[shift(-1,lambda E:I('isolated'))],contracts={re.compile('update_total_node_weight'):total},of='CSRGraph::remove_isolated_nodes'))
    def setup(E,st):
        a=bsetup(E,st,None); b=I('b'); st.add(ForAll([b],Imp(A(1<=b,b<I('nb')),E.B0[b]+E.N-E.g.n<=M31),patterns=[E.B0[b]])); return a
    def post(E,st,r):
        b=I('b'); g=E.g; k=E.N-g.n; Bf=E.getarr(st,E.bk,0); nb=z(E.d.U(E.getcell(st,g.obj,lay(E,'csr_nbuckets')),64))
        o=[('all nodes are back',A(size(E,st,'csr_nodes')==E.N+1,size(E,st,'csr_nw')==E.N)),('the number of re-integrated nodes is returned',z(E.d.U(r,32))==k),
                ('buckets are shifted back',ForAll([b],Imp(A(1<=b,b<I('nb')),Bf[b]==E.B0[b]+k))),('one bucket when all nodes are isolated',nb==z3.If(I('used')==0,z3.IntVal(1),I('used')))]
        t=st.ghost.get('n_at_total'); o.append(('totals are recomputed for all nodes',t==E.N+1 if t is not None else B(False))); return o
    out.append(Spec('g_integrate_isolated',setup,post,cands=[shift(1,lambda E:E.N-E.g.n)],contracts={re.compile('update_total_node_weight'):total},of='CSRGraph::integrate_isolated_nodes'))
    return out
UNITS=[{'src':'wrap/c09.cc','specs':specs,'defs':XTBB,'noinline':SA_NOINL+['update_total_node_weight']}]
NATIVE=[{'src':'native/c09.cc','srcs':GRAPH_SRCS,'san':True,'bound':'250 (thorough: 1500) random graphs up to 4000 nodes (eight families, unit/implicit/explicit weights, empty graphs, graphs without edges), 1 to 8 threads','covers':'CSRGraph constructors, degree buckets of sorted graphs, removal and re-integration of isolated nodes, validate_graph, sort_neighbors, stoppable and parallel traversals'}]
ASSUMPTIONS=['node and edge weights are positive (a total equal to the count means unit weights)','totals fit in 31 bits','isolated nodes are the last nodes of the graph and the first bucket when they are removed']
TRUSTED=['tbb::parallel_for runs every chunk of the range exactly once (extraction-only stand-in stub/xtbb)','the traversal lambdas of callers are represented by an environment function receiving every call']
