from graphs import *
ID='C11'
UNITS=[]
PS='_ZN8kaminpar8parallel10prefix_sumINS_11StaticArrayIjE19StaticArrayIteratorILb0EEES5_EEvT_S6_T0_'
def saobj(E,st,name,reg,length):
    o=Region(name,None,size=40); o.auto=True; sa(E,st,o,0,reg,length)
    for off in (lay(E,'sa_owned'),lay(E,'sa_over')): cell(E,o,off,8,NULL)
    return o
def prefix_sum(E,st,args,ins):
    """contract of parallel::prefix_sum (proved by C07): in place inclusive sums of the 32-bit entries; S is the sum given by the specification"""
    a,e,o=args
    if not (a.reg is e.reg is o.reg and a.off==e.off==o.off==0): raise Unsupported('prefix sum over other ranges')
    i=I(fresh_name('i')); S=E.S; r=a.reg; old=E.getarr(st,r,0); lo,hi,ou=(pidx(E,x) for x in(a,e,o))
    E.oblige(st,'call: prefix sum starts at the first entry',A(lo==0,ou==0),ins)
    E.oblige(st,'call: prefix sum stays inside of the array',A(hi>=0,hi<=z(r.length) if not isinstance(r.length,int) else hi<=r.length),ins)
    E.oblige(st,'call: entries summed are the specified ones',FA([i],Imp(A(0<=i,i<hi),old[i]==S(i+1)-S(i)),[old[i]]),ins)
    new=z3.Const(fresh_name('sums'),z3.ArraySort(z3.IntSort(),z3.IntSort())); st.mem[(r,0)]=new
    st.add(FA([i],Imp(A(0<=i,i<hi),new[i]==S(i+1)),[new[i]]),FA([i],Imp(i>=hi,new[i]==old[i]),[new[i]])); st.ghost[('sums',)]=1
    for fr in st.frames: E.modset.setdefault(fr.header,set()).add((r,0))
    E.assumed.add('parallel::prefix_sum by its contract (decided by C07)')
    return None
def pidx(E,p): 
    x=p.idx
    return x if z3.is_expr(x) else z3.IntVal(x) if isinstance(x,int) else z(E.d.U(x,64))
def specs(tier):
    out=[]
    def base(E,st):
        g=E.g=Csr(E,st); E.G=graph_obj(E,st,g); st.add(g.n>=1)
        return g
    def dat(E,st,o): return E.initial_mem
    # --- leaders: prefix sums of the used labels
    def setup_l(E,st):
        g=base(E,st); n=g.n; cl=E.cl=arr('clustering',4,n,writable=False); L=I('lm.size'); st.add(A(0<=L,L<(1<<31))); lm=E.lm=arr('leader_mapping',4,L)
        C=E.C=E.getarr(st,cl,0); i,j=I('i'),I('j'); F=E.F=z3.Function('First',z3.IntSort(),z3.IntSort()); S=E.S=z3.Function('S',z3.IntSort(),z3.IntSort())
        st.add(FA([j],Imp(A(0<=j,j<n),A(0<=C[j],C[j]<n,F(C[j])<=j)),[C[j]]))
        st.add(FA([i],Imp(A(0<=i,i<n),A(F(i)>=0,F(i)<=n,Imp(F(i)<n,C[F(i)]==i))),[F(i)]))
        st.add(S(0)==0,FA([i],Imp(A(0<=i,i<n),A(S(i+1)==S(i)+z3.If(F(i)<n,z3.IntVal(1),z3.IntVal(0)))),[F(i)]),FA([i],Imp(A(0<=i,i<=n),A(0<=S(i),S(i)<=i)),[S(i)]))
        E.olm=saobj(E,st,'lm',lm,L)
        return [Ptr(E.G),Ptr(saobj(E,st,'cl',cl,n)),Ptr(E.olm)]
    def lreg(E,st):
        p=st.mem.get((E.olm,lay(E,'sa_data')))
        return p.reg if isinstance(p,Ptr) else E.lm
    def cands_l(E,v0):
        o=[]; g,F=E.g,E.F; i=I('i')
        for r,ins in v0.instrs.items():
            if not isinstance(v0.entry[r],Num): continue
            u=lambda v,r=r,w=R(ins.ty).w: z(E.d.U(v.phis[r],w)); cur=lambda v: v.arr(lreg(E,v.st))
            o.append(('%s at most n'%r,lambda v,u=u: u(v)<=g.n))
            o.append(('entries below %s are zero'%r,lambda v,u=u: FA([i],Imp(A(0<=i,i<u(v)),A(cur(v)[i]==0,F(i)>=0)),[cur(v)[i]])))
            o.append(('used labels of the nodes below %s are marked'%r,lambda v,u=u: FA([i],Imp(A(0<=i,i<g.n),cur(v)[i]==z3.If(F(i)<u(v),z3.IntVal(1),z3.IntVal(0))),[cur(v)[i]])))
        return o
    def post_l(E,st,r):
        i=I('i'); a=E.getarr(st,lreg(E,st),0); return [('entry i is the number of used labels up to i',FA([i],Imp(A(0<=i,i<E.g.n),a[i]==E.S(i+1)),[a[i]]))]
    CT=dict(VIRT); CT.update(SA); CT[PS]=prefix_sum
    out.append(Spec('c_leaders',setup_l,post_l,cands=[cands_l],contracts=CT,of='contraction::fill_leader_mapping'))
    # --- the mapping: coarse ids of the labels
    def setup_m(E,st):
        g=base(E,st); n=g.n; cl=E.cl=arr('clustering',4,n); lm=E.lm=arr('leader_mapping',4,n,writable=False); C=E.C=E.getarr(st,cl,0); M=E.M=E.getarr(st,lm,0); i=I('i')
        st.add(FA([i],Imp(A(0<=i,i<n),A(0<=C[i],C[i]<n,1<=M[C[i]],M[C[i]]<=n)),[C[i]]))
        E.ocl=saobj(E,st,'cl',cl,n)
        return [Ptr(E.G),Ptr(E.ocl),Ptr(saobj(E,st,'lm',lm,n))]
    def cands_m(E,v0):
        o=[]; g=E.g; i=I('i')
        for r,ins in v0.instrs.items():
            if not isinstance(v0.entry[r],Num): continue
            u=lambda v,r=r,w=R(ins.ty).w: z(E.d.U(v.phis[r],w))
            o.append(('%s at most n'%r,lambda v,u=u: u(v)<=g.n))
            o.append(('nodes below %s are mapped, the others are not'%r,lambda v,u=u: FA([i],Imp(A(0<=i,i<g.n),v.arr(E.cl)[i]==z3.If(i<u(v),E.M[E.C[i]]-1,E.C[i])),[v.arr(E.cl)[i]])))
        return o
    def post_m(E,st,r):
        i=I('i'); a=E.getarr(st,E.cl,0)
        return [('the result is the array that was passed in',isinstance(r,Ptr) and r.reg is E.cl),('every node maps to the rank of its label',FA([i],Imp(A(0<=i,i<E.g.n),a[i]==E.M[E.C[i]]-1),[a[i]]))]
    out.append(Spec('c_map',setup_m,post_m,cands=[cands_m],contracts=CT,of='contraction::compute_mapping'))
    # --- buckets: the nodes of a cluster are stored consecutively, every node once
    def setup_b(E,st):
        E.phi31=True; st.add(I("g.n")<M31-1)
        g=base(E,st); n=g.n; cn=E.cn=I('c_n'); st.add(A(1<=cn,cn<=n)); mp=arr('mapping',4,n,writable=False); P=E.P=E.getarr(st,mp,0)
        L1,L2=I('buckets.size'),I('index.size'); st.add(A(0<=L1,L1<(1<<31),0<=L2,L2<(1<<31)))
        E.b,E.bi=arr('buckets',4,L1),arr('index',4,L2); i,j,c=I('i'),I('j'),I('c')
        N=E.N=z3.Function('Count',z3.IntSort(),z3.IntSort(),z3.IntSort()); S=E.S=z3.Function('S',z3.IntSort(),z3.IntSort())
        st.add(FA([j],Imp(A(0<=j,j<n),A(0<=P[j],P[j]<cn)),[P[j]]))
        # counting: N(c,u) nodes below u lie in cluster c; S(c) nodes lie in the clusters below c
        PL=E.PL=z3.Function('Place',z3.IntSort(),z3.IntSort())
        st.add(FA([c],N(c,0)==0,[N(c,0)]),FA([c,j],Imp(A(0<=j,j<n),N(c,j+1)==N(c,j)+z3.If(P[j]==c,z3.IntVal(1),z3.IntVal(0))),[z3.MultiPattern(N(c,j),P[j])]))
        st.add(S(0)==0,S(cn)==n,S(cn+1)==n,N(cn,n)==0,FA([c],Imp(A(0<=c,c<=cn),S(c+1)==S(c)+N(c,n)),[N(c,n)]))
        st.add(FA([c],Imp(A(0<=c,c<=cn),A(0<=S(c),S(c)<=n,0<=S(c+1),S(c+1)<=n)),[N(c,n)]))
        st.add(FA([j],Imp(A(0<=j,j<n),A(N(P[j],j)>=0,N(P[j],j+1)<=N(P[j],n),S(P[j]+1)==S(P[j])+N(P[j],n),0<=S(P[j]),S(P[j]+1)<=n,PL(j)==S(P[j]+1)-N(P[j],j)-1,N(P[j],j+1)==N(P[j],j)+1)),[P[j]]))
        a,b=I('lem.a'),I('lem.b'); lst=st.copy(); lst.add(A(0<=a,a<b,b<n),N(P[a],b)>=N(P[a],a+1),z3.Or(P[a]>=P[b],S(P[a]+1)<=S(P[b])),z3.Or(P[b]>=P[a],S(P[b]+1)<=S(P[a])))
        E.oblige(lst,'lemma: two nodes have different places',PL(a)!=PL(b),None)
        st.add(FA([i,j],Imp(A(0<=i,i<j,j<n),PL(i)!=PL(j)),[z3.MultiPattern(PL(i),PL(j))]),FA([j],Imp(A(0<=j,j<n),A(P[j]>=0,0<=PL(j),PL(j)<n)),[PL(j)]))
        E.ob,E.obi=saobj(E,st,'b',E.b,L1),saobj(E,st,'bi',E.bi,L2)
        return [Num(cn,1,M31),Ptr(E.G),Ptr(saobj(E,st,'map',mp,n)),Ptr(E.obi),Ptr(E.ob)]
    def reg(E,st,o,d):
        p=st.mem.get((o,lay(E,'sa_data')))
        return p.reg if isinstance(p,Ptr) else d
    def cands_b(E,v0):
        o=[]; g,N,S,P,cn=E.g,E.N,E.S,E.P,E.cn; i,c=I('i'),I('c')
        bi=lambda v: v.arr(reg(E,v.st,E.obi,E.bi)); b=lambda v: v.arr(reg(E,v.st,E.ob,E.b))
        for r,ins in v0.instrs.items():
            if not isinstance(v0.entry[r],Num): continue
            u=lambda v,r=r,w=R(ins.ty).w: z(E.d.U(v.phis[r],w))
            o.append(('%s at most n'%r,lambda v,u=u: u(v)<=g.n)); o.append(('%s at most c_n + 1'%r,lambda v,u=u: u(v)<=cn+1))
            if ('sums',) in v0.st.ghost: o.append(('bucket ends moved down by the nodes below %s, which are in their buckets'%r,lambda v,u=u: A(FA([c],Imp(A(0<=c,c<=cn),bi(v)[c]==S(c+1)-N(c,u(v))),[bi(v)[c]]),FA([i],Imp(A(0<=i,i<u(v)),b(v)[E.PL(i)]==i),[E.PL(i)]))))
            else:
              o.append(('counters below %s are zero'%r,lambda v,u=u: FA([c],Imp(A(0<=c,c<u(v)),bi(v)[c]==0),[bi(v)[c]])))
              o.append(('counters count the nodes below %s'%r,lambda v,u=u: FA([c],Imp(A(0<=c,c<=cn),bi(v)[c]==N(c,u(v))),[bi(v)[c]])))
        return o
    def post_b(E,st,r):
        N,S,P,cn,n=E.N,E.S,E.P,E.cn,E.g.n; i,c=I('i'),I('c'); b=E.getarr(st,reg(E,st,E.ob,E.b),0); bi=E.getarr(st,reg(E,st,E.obi,E.bi),0)
        return [('index c is the number of nodes in clusters below c',FA([c],Imp(A(0<=c,c<=cn),bi[c]==S(c)),[bi[c]])),
                ('every node is stored in the range of its cluster',FA([i],Imp(A(0<=i,i<n),A(b[E.PL(i)]==i,S(P[i])<=E.PL(i),E.PL(i)<S(P[i]+1))),[E.PL(i)])),('every place is taken once',FA([i,c],Imp(A(0<=i,i<c,c<n),E.PL(i)!=E.PL(c)),[z3.MultiPattern(E.PL(i),E.PL(c))]))]
    out.append(Spec('c_buckets',setup_b,post_b,cands=[cands_b],contracts=CT,of='contraction::fill_cluster_buckets'))
    # --- projections of node data between the levels
    def setup_p(up):
        def setup(E,st):
            n,cn=E.n,E.cn=I('n'),I('c_n'); st.add(A(0<=n,n<(1<<31),0<=cn,cn<(1<<31))); mp=arr('mapping',4,n,writable=False); P=E.P=E.getarr(st,mp,0); i=I('i')
            st.add(FA([i],Imp(A(0<=i,i<n),A(0<=P[i],P[i]<cn)),[P[i]]))
            E.fine,E.coarse=arr('fine',4,n,writable=up),arr('coarse',4,cn,writable=not up); E.F0,E.C0=E.getarr(st,E.fine,0),E.getarr(st,E.coarse,0)
            o=Region('coarse graph',None,size=lay(E,'coarse')); o.auto=True; sa(E,st,o,lay(E,'coarse_map'),mp,n)
            def span(nm,r,L):
                s=Region(nm,None,size=16); s.auto=True; cell(E,s,0,8,Ptr(r,0,0)); cell(E,s,8,8,Num(L,0,M31)); return Ptr(s)
            f,c=span('fine span',E.fine,n),span('coarse span',E.coarse,cn)
            return [Ptr(o)]+([c,f] if up else [f,c])
        return setup
    def cands_p(up):
        def cands(E,v0):
            o=[]; i=I('i')
            for r,ins in v0.instrs.items():
                if not isinstance(v0.entry[r],Num): continue
                u=lambda v,r=r,w=R(ins.ty).w: z(E.d.U(v.phis[r],w))
                o.append(('%s at most n'%r,lambda v,u=u: u(v)<=E.n))
                if up: o.append(('fine nodes below %s have the value of their coarse node'%r,lambda v,u=u: FA([i],Imp(A(0<=i,i<u(v)),v.arr(E.fine)[i]==E.C0[E.P[i]]),[v.arr(E.fine)[i]])))
                else: o.append(('coarse nodes of the fine nodes below %s have the value of one of them'%r,lambda v,u=u: A(FA([i],Imp(A(0<=i,i<u(v),E.same),v.arr(E.coarse)[E.P[i]]==E.F0[i]),[E.P[i]]))))
            return o
        return cands
    def setup_down(E,st):
        a=setup_p(False)(E,st); i,j=I('i'),I('j'); E.same=z3.BoolVal(True)
        st.add(FA([i,j],Imp(A(0<=i,i<E.n,0<=j,j<E.n,E.P[i]==E.P[j]),E.F0[i]==E.F0[j]),[z3.MultiPattern(E.P[i],E.P[j])])); return a
    i=I('i')
    out.append(Spec('c_up',setup_p(True),lambda E,st,r:[('every fine node receives the value of its coarse node',FA([i],Imp(A(0<=i,i<E.n),E.getarr(st,E.fine,0)[i]==E.C0[E.P[i]]),[E.P[i]]))],cands=[cands_p(True)],of='CoarseGraphImpl::project_up'))
    out.append(Spec('c_down',setup_down,lambda E,st,r:[('every coarse node receives the common value of its fine nodes',FA([i],Imp(A(0<=i,i<E.n),E.getarr(st,E.coarse,0)[E.P[i]]==E.F0[i]),[E.P[i]]))],cands=[cands_p(False)],of='CoarseGraphImpl::project_down'))
    return out
UNITS=[{'src':'wrap/c11.cc','specs':specs,'defs':['-I'+os.path.join(VERIF,'stub','notimer')]+XTBB,'noinline':SA_NOINL+['^_ZN8kaminpar8parallel10prefix_sum']}]
CON=['kaminpar-shm/coarsening/contraction/'+x for x in ('cluster_contraction.cc','cluster_contraction_preprocessing.cc','buffered_cluster_contraction.cc','legacy_buffered_cluster_contraction.cc','naive_unbuffered_cluster_contraction.cc','unbuffered_cluster_contraction.cc')]
NATIVE=[{'src':'native/c11.cc','srcs':GRAPH_SRCS+['kaminpar-shm/graphutils/compressed_graph_builder.cc']+CON,'san':True,'sanopts':['-fno-sanitize=alignment,bool,vptr'],
 'bound':'150 (thorough: 2500) random graphs up to 33000 nodes (eight families, hubs), plain and compressed, six kinds of clusterings, all six contraction variants, fresh and reused buffers, two levels, 1 to 8 threads','covers':'contract_clustering (all algorithms), CoarseGraph::project_up/down'}]
ASSUMPTIONS=['labels and coarse ids are in range (NodeID 32 bits, fewer than 2^31 - 2 nodes)','counting facts that follow by induction from their recurrences: sums of 0/1 entries are at most their number, the sizes of all clusters add up to n','edge aggregation of the six contraction variants is covered by the bounded run only']
TRUSTED=['timers and heap profiling are dropped by the extraction (stub/notimer)','tbb::parallel_for runs its body once per index (stub/xtbb); atomic operations of the body are executed in index order','__dynamic_cast finds a CSRGraph; virtual calls go through the virtual table of the extracted module','StaticArray::resize(n, noinit) yields n elements of fresh memory']
