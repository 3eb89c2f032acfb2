from graphs import *
ID='C19'
Z=z3.IntSort(); MP=z3.MultiPattern
def scan(E,st,a,ins):
    """contract of parallel::prefix_sum in place (C07)"""
    b,e,o=a
    E.oblige(st,'prefix_sum: over the whole new offset array, in place',A(B(b.reg is E.x2 and e.reg is E.x2 and o.reg is E.x2),z(b.idx)==0,z(o.idx)==0,z(e.idx)==E.n+1),ins)
    old=E.getarr(st,E.x2,0); i=I('i'); D=E.S; new=z3.Array(fresh_name('sums'),Z,Z)
    E.oblige(st,'prefix_sum: the summands are the degrees of the renamed nodes',FA([i],Imp(A(0<=i,i<E.n),old[i]==D(i+1)-D(i)),[old[i]]),ins)
    st.add(ForAll([i],Imp(A(0<=i,i<E.n),new[i]==D(i+1)),patterns=[new[i]])); st.add(A(0<=new[E.n],new[E.n]<=(1<<32)-1)); st.mem[(E.x2,0)]=new; st.ghost['scanned']=True
    for fr in st.frames: E.modset.setdefault(fr.header,set()).add((E.x2,0))
    E.assumed.add('parallel::prefix_sum (proved in C07)'); return None
def specs(tier):
    out=[]; i,j,p=I('i'),I('j'),I('p')
    # ---- build_permuted_graph
    def setup(E,st):
        g=E.g=Csr(E,st); n,m=E.n,E.m=g.n,g.m; S=E.S=z3.Function('S',Z,Z); X=g.X
        o=E.np=Region('permutations',None,size=lay(E,'np')); o.auto=True; A2,B2=arr('old_to_new',4,n,writable=False),arr('new_to_old',4,n,writable=False); sa(E,st,o,lay(E,'np_o2n'),A2,n); sa(E,st,o,lay(E,'np_n2o'),B2,n); O,N=E.O,E.N=E.getarr(st,A2,0),E.getarr(st,B2,0)
        for M in(O,N): st.add(ForAll([i],Imp(A(0<=i,i<n),A(0<=M[i],M[i]<n)),patterns=[M[i]]))
        st.add(S(0)==0,S(n)==m); st.add(ForAll([i],Imp(A(0<=i,i<n),S(i+1)==S(i)+X[N[i]+1]-X[N[i]]),patterns=[N[i]])); st.add(ForAll([i,j],Imp(A(0<=i,i<=j,j<=n),A(0<=S(i),S(i)<=S(j),S(j)<=m)),patterns=[MP(S(i),S(j))]))
        E.hn,E.he=z3.Bool('node weighted'),z3.Bool('edge weighted'); a=[]
        def view(nm,reg,L):
            v=Region('view '+nm,None,size=lay(E,'sa')); v.auto=True; sa(E,st,v,0,reg,L); a.append(Ptr(v))
        ln,le=z3.If(E.hn,n,z3.IntVal(0)),z3.If(E.he,m,z3.IntVal(0)); E.ln,E.le=ln,le
        view('nodes',g.nodes,n+1); view('edges',g.edges,m)
        nw=arr('old node weights',4,ln,signed=True,writable=False); ew=arr('old edge weights',4,le,signed=True,writable=False); E.NW,E.EW=E.getarr(st,nw,0),E.getarr(st,ew,0); view('node weights',nw,ln); view('edge weights',ew,le); a.append(Ptr(o))
        E.x2,E.t2,E.nw2,E.ew2=arr('new nodes',4,n+1),arr('new edges',4,m),arr('new node weights',4,ln,signed=True),arr('new edge weights',4,le,signed=True)
        for nm,r,L in(('x2',E.x2,n+1),('t2',E.t2,m),('nw2',E.nw2,ln),('ew2',E.ew2,le)): view(nm,r,L)
        return a
    def done(E,v,lo,hi,upto):
        """the neighbourhoods of the new nodes lo..hi are in place, the positions p of node i from upto(i) on"""
        t,w,S,N,X=v.arr(E.t2),v.arr(E.ew2),E.S,E.N,E.g.X
        src=X[N[i]]+S(i+1)-1-p
        return [('edges',FA([i,p],Imp(A(lo<=i,i<hi,upto(i)<=p,p<S(i+1)),t[p]==E.O[E.g.T[src]]),[MP(t[p],N[i])])),('edge weights',FA([i,p],Imp(A(E.he,lo<=i,i<hi,upto(i)<=p,p<S(i+1)),w[p]==E.EW[src]),[MP(w[p],N[i])]))]
    def cands(E,v0):
        o=[]; S,N,X,n=E.S,E.N,E.g.X,E.n
        for r,ins in v0.instrs.items():
            if not isinstance(v0.entry[r],Num): continue
            e0=z3.simplify(z(E.d.U(v0.entry[r],32))); x=lambda v,r=r,w=R(ins.ty).w: z(E.d.U(v.phis[r],w))
            if z3.is_select(e0) and e0.arg(0).eq(X):
                old=e0.arg(1)
                u=old.arg(1) if z3.is_select(old) else None
                if u is None: continue
                o.append(('%s within the old neighbourhood'%r,lambda v,x=x,old=old: A(X[old]<=x(v),x(v)<=X[old+1])))
                o.append(('next position of the node',lambda v,x=x,old=old,u=u: v.arr(E.x2)[u]==S(u+1)-(x(v)-X[old])))
                o.append(('offsets before',lambda v,u=u: FA([i],Imp(A(0<=i,i<u),v.arr(E.x2)[i]==S(i)),[v.arr(E.x2)[i]])))
                o.append(('last offset',lambda v: v.arr(E.x2)[n]==S(n)))
                o.append(('offsets after',lambda v,u=u: FA([i],Imp(A(u<i,i<n),v.arr(E.x2)[i]==S(i+1)),[v.arr(E.x2)[i]])))
                for q in(0,1):
                    o.append(('%s of the nodes before'%('edges','weights')[q],lambda v,u=u,q=q: done(E,v,0,u,S)[q][1]))
                    o.append(('%s of the node so far'%('edges','weights')[q],lambda v,u=u,q=q: done(E,v,u,u+1,lambda _: v.arr(E.x2)[u])[q][1]))
            else:
                o.append(('%s within the nodes'%r,lambda v,x=x: x(v)<=n))
                if not v0.st.ghost.get('scanned'):
                  o.append(('degrees before %s'%r,lambda v,x=x: FA([i],Imp(A(0<=i,i<x(v)),v.arr(E.x2)[i]==S(i+1)-S(i)),[v.arr(E.x2)[i]])))
                  o.append(('node weights before %s'%r,lambda v,x=x: FA([i],Imp(A(E.hn,0<=i,i<x(v)),v.arr(E.nw2)[i]==E.NW[N[i]]),[v.arr(E.nw2)[i]]))); continue
                o.append(('offsets before %s'%r,lambda v,x=x: FA([i],Imp(A(0<=i,i<x(v)),v.arr(E.x2)[i]==S(i)),[v.arr(E.x2)[i]])))
                o.append(('last offset',lambda v: v.arr(E.x2)[n]==S(n)))
                o.append(('offsets from %s on'%r,lambda v,x=x: FA([i],Imp(A(x(v)<=i,i<n),v.arr(E.x2)[i]==S(i+1)),[v.arr(E.x2)[i]])))
                for q in(0,1): o.append(('%s before %s'%(('edges','weights')[q],r),lambda v,x=x,q=q: done(E,v,0,x(v),S)[q][1]))
        return o
    def post(E,st,r):
        x,w=E.getarr(st,E.x2,0),E.getarr(st,E.nw2,0)
        class V: arr=staticmethod(lambda reg: E.getarr(st,reg,0))
        d=done(E,V,0,E.n,E.S)
        return [('every node starts where its predecessors end',FA([i],Imp(A(0<=i,i<=E.n),x[i]==E.S(i)),[x[i]])),('node weights move with their nodes',FA([i],Imp(A(E.hn,0<=i,i<E.n),w[i]==E.NW[E.N[i]]),[w[i]])),
                ('every neighbour is kept under its new name',d[0][1]),('edge weights move with their edges',d[1][1])]
    out.append(Spec('pm_build',setup,post,cands=[cands],contracts={re.compile('8parallel10prefix_sum'):scan},of='graph::build_permuted_graph',htimeout=10,par=4))
    # ---- assign_isolated_nodes
    def asetup(E,st):
        N=E.N=I('n'); k=E.k=I('k'); iso=E.iso=I('isolated'); st.add(A(0<=N,N<=M31,1<=k,k<=M31,0<=iso,iso<=N)); g=E.graph=Region('graph',None,size=16); g.auto=True
        E.L0=N-iso; E.part=arr('partition',4,E.L0); E.bw=arr('block weights',4,k,signed=True); P,W=E.P,E.W=E.getarr(st,E.part,0),E.getarr(st,E.bw,0)
        o=E.pg=Region('p_graph',None,size=lay(E,'pg')); o.auto=True; o.writable=True; cell(E,o,lay(E,'pg_graph'),8,Ptr(g)); cell(E,o,lay(E,'pg_k'),4,Num(k,1,M31)); sa(E,st,o,lay(E,'pg_part'),E.part,E.L0); sa(E,st,o,lay(E,'pg_bw'),E.bw,k)
        c=Region('ctx',None,size=lay(E,'pc')); c.auto=True; mx=arr('limits',4,k,signed=True,writable=False); E.MX=E.getarr(st,mx,0); cell(E,c,lay(E,'pc_max'),8,Ptr(mx,0,0)); E.wt=z3.Array('wt',Z,Z)
        st.add(ForAll([i],Imp(A(0<=i,i<E.L0),A(0<=P[i],P[i]<k)),patterns=[P[i]])); st.add(ForAll([i],Imp(A(0<=i,i<k),A(0<=W[i],W[i]<=M31)),patterns=[W[i]])); st.add(ForAll([i],Imp(A(0<=i,i<k),A(0<=E.MX[i],E.MX[i]<=M31)),patterns=[E.MX[i]]))
        # total node weight: the weights of a block and of the isolated nodes fit together
        T=E.T=z3.Function('T',Z,Z); st.add(T(E.L0)==0); st.add(ForAll([i],Imp(A(E.L0<=i,i<N),A(T(i+1)==T(i)+E.wt[i],1<=E.wt[i],E.wt[i]<=M31)),patterns=[E.wt[i]])); st.add(ForAll([i],Imp(A(E.L0<=i,i<=N),A(0<=T(i),T(i)<=T(N))),patterns=[T(i)])); st.add(ForAll([i],Imp(A(0<=i,i<k),W[i]+T(N)<=M31),patterns=[W[i]]))
        E.res=Region('result',None,size=lay(E,'pg')); E.res.auto=True; E.res.writable=True; return [Ptr(E.res),Ptr(o),Num(iso,0,M31),Ptr(c)]
    def isg(E,a): 
        if not(isinstance(a,Ptr) and a.reg is E.graph): raise Unsupported('call on another object')
    def gn(E,st,a,ins): isg(E,a[0]); return Num(E.N,0,M31)
    def gw(E,st,a,ins): isg(E,a[0]); u=z(E.d.U(a[1],32)); E.oblige(st,'node_weight: an existing node',A(0<=u,u<E.N),ins); st.add(A(0<=E.wt[u],E.wt[u]<=M31)); return Num(E.wt[u],0,M31)
    def gd(E,st,a,ins): isg(E,a[0]); u=z(E.d.U(a[1],32)); E.oblige(st,'degree: an existing node',A(0<=u,u<E.N),ins); x=z3.Array('deg',Z,Z)[u]; st.add(A(0<=x,x<=M31)); return Num(x,0,M31)
    def mv(E,st,a,ins):
        """move construction of a partitioned graph"""
        for f in E.pg.fields.values(): 
            v=E.load(st,Ptr(a[1].reg,a[1].idx,a[1].off+f.off),PtrTy() if f.ptr is not None else IntTy(8*f.size),ins); E.store(st,Ptr(a[0].reg,a[0].idx,a[0].off+f.off),v,PtrTy() if f.ptr is not None else IntTy(8*f.size),ins)
        return None
    def acands(E,v0):
        o=[]; ars=[r for kk,r in E.allocas.items() if isinstance(kk,tuple) and kk[0]=='sa']; P=E.P
        if not ars: return o
        q=ars[0]; W=lambda v: v.arr(E.bw)
        ph=[(r,(lambda v,r=r,w=R(ins.ty).w: z(E.d.U(v.phis[r],w)))) for r,ins in v0.instrs.items() if isinstance(v0.entry[r],Num)]
        for r,x in ph:
            e0=z3.simplify(z(E.d.U(v0.entry[r],32)))
            role='u' if 'isolated' in str(e0) else 'i' if len(ph)==1 and z3.is_int_value(e0) else 'b'
            if role=='b': o.append(('%s is a block'%r,lambda v,x=x: x(v)<E.k)); o.append(('blocks after %s are untouched'%r,lambda v,x=x: FA([i],Imp(A(x(v)<i,i<E.k),W(v)[i]==E.W[i]),[W(v)[i]]))); continue
            o.append(('%s within the nodes'%r,lambda v,x=x: x(v)<=E.N)); o.append(('%s within the kept nodes'%r if role=='i' else '%s is an isolated node'%r,lambda v,x=x,role=role: x(v)<=E.L0 if role=='i' else A(E.L0<=x(v),x(v)<=E.N)))
            if role=='i': o.append(('blocks kept before %s'%r,lambda v,x=x: FA([i],Imp(A(0<=i,i<x(v)),v.arr(q)[i]==P[i]),[v.arr(q)[i]])))
            if role=='i': continue
            o.append(('isolated nodes before %s have a block'%r,lambda v,x=x: FA([i],Imp(A(E.L0<=i,i<x(v)),A(0<=v.arr(q)[i],v.arr(q)[i]<E.k)),[v.arr(q)[i]])))
            if not getattr(E,'unit',False): o.append(('every weight is at most the weight added before %s more'%r,lambda v,x=x: FA([i],Imp(A(0<=i,i<E.k),A(E.W[i]<=W(v)[i],W(v)[i]<=E.W[i]+E.T(x(v)))),[W(v)[i]])))
        o.append(('kept nodes',lambda v: FA([i],Imp(A(0<=i,i<E.L0),v.arr(q)[i]==P[i]),[v.arr(q)[i]])))
        if not getattr(E,'unit',False): o.append(('no block but the last grows beyond its limit',lambda v: FA([i],Imp(A(0<=i,i<E.k-1,W(v)[i]!=E.W[i]),W(v)[i]<=E.MX[i]),[W(v)[i]])))
        return o
    def ctor(E,st,a,ins):
        """the result is built from the complete partition"""
        E.oblige(st,'the result belongs to the same graph and number of blocks',A(B(isinstance(a[1],Ptr) and a[1].reg is E.graph),z(E.d.U(a[2],32))==E.k),ins)
        d=E.load(st,Ptr(a[3].reg,a[3].idx,a[3].off+lay(E,'sa_data')),PtrTy(),ins); s=z(E.d.U(E.load(st,Ptr(a[3].reg,a[3].idx,a[3].off+lay(E,'sa_size')),IntTy(64),ins),64)); Q=E.getarr(st,d.reg,0)
        E.oblige(st,'one entry per node',s==E.N,ins); E.oblige(st,'nodes that were not isolated keep their block',FA([i],Imp(A(0<=i,i<E.L0),Q[i]==E.P[i]),[Q[i]]),ins)
        E.oblige(st,'every isolated node gets a block',FA([i],Imp(A(E.L0<=i,i<E.N),A(0<=Q[i],Q[i]<E.k)),[Q[i]]),ins); st.ghost['built']=z3.BoolVal(True); return None
    def apost(E,st,r):
        W=E.getarr(st,E.bw,0)
        return [('a partitioned graph is returned',B(st.ghost.get('built',False))),('no block but the last grows beyond its limit',FA([i],Imp(A(0<=i,i<E.k-1),z3.Or(W[i]==E.W[i],W[i]<=E.MX[i])),[W[i]]))]
    AC={**SA,'_ZNK8kaminpar3shm5Graph1nEv':gn,'_ZNK8kaminpar3shm5Graph11node_weightEj':gw,'_ZNK8kaminpar3shm5Graph6degreeEj':gd,re.compile('23GenericPartitionedGraphI.*C2EOS'):mv,re.compile('23GenericPartitionedGraphI.*C2ERKS'):ctor,re.compile('23GenericPartitionedGraphI.*D[0-2]E'):nop}
    # unit weights and room for everything: no block at all exceeds its limit
    def usetup(E,st):
        E.unit=True; a=asetup(E,st); st.add(ForAll([i],Imp(A(0<=i,i<E.k),E.MX[i]<M31),patterns=[E.MX[i]])); Rm=E.R=z3.Function('room',Z,Z); st.add(Rm(0)==0); st.add(ForAll([i],Imp(A(0<=i,i<E.k),A(E.W[i]<=E.MX[i],Rm(i+1)==Rm(i)+E.MX[i]-E.W[i])),patterns=[E.W[i]])); st.add(E.iso<=Rm(E.k)); st.add(ForAll([i],Imp(A(0<=i,i<E.N),E.wt[i]==1),patterns=[E.wt[i]])); return a
    def ucands(E,v0):
        o=[]; W=lambda v: v.arr(E.bw); used=lambda v,b: E.R(b)+W(v)[b]-E.W[b]
        ph=[(r,(lambda v,r=r,w=R(ins.ty).w: z(E.d.U(v.phis[r],w))),z(E.d.U(v0.entry[r],R(ins.ty).w))) for r,ins in v0.instrs.items() if isinstance(v0.entry[r],Num)]
        for r,x,e in ph:
            if 'isolated' in str(z3.simplify(e)) or len(ph)==1 and z3.is_int_value(z3.simplify(e)): continue
            o.append(('blocks before %s are full'%r,lambda v,x=x: FA([i],Imp(A(0<=i,i<x(v)),W(v)[i]==E.MX[i]),[W(v)[i]])))
            o.append(('%s: room used'%r,lambda v,x=x,e=e: used(v,x(v))==used(v,e)))
            for r2,x2,_ in ph:
                if r2!=r: o.append(('room used before node %s up to block %s'%(r2,r),lambda v,x=x,x2=x2: x2(v)-E.L0==used(v,x(v))))
        o.append(('no block exceeds its limit',lambda v: FA([i],Imp(A(0<=i,i<E.k),W(v)[i]<=E.MX[i]),[W(v)[i]])))
        return o
    def upost(E,st,r): W=E.getarr(st,E.bw,0); return apost(E,st,r)+[('no block exceeds its limit',FA([i],Imp(A(0<=i,i<E.k),W[i]<=E.MX[i]),[W[i]]))]
    out.append(Spec('pm_assign',usetup,upost,cands=[acands,ucands],contracts=AC,title='pm_assign (unit weights)',of='graph::assign_isolated_nodes'))
    out.append(Spec('pm_assign',asetup,apost,cands=[acands],contracts=AC,of='graph::assign_isolated_nodes'))
    # ---- count_isolated_nodes
    def csetup(E,st):
        g=E.g=Csr(E,st); CNT=E.CNT=z3.Function('isolated before',Z,Z); X=g.X
        st.add(CNT(0)==0); st.add(ForAll([i],Imp(A(0<=i,i<g.n),CNT(i+1)==CNT(i)+z3.If(X[i]==X[i+1],z3.IntVal(1),z3.IntVal(0))),patterns=[X[i]])); st.add(ForAll([i],Imp(A(0<=i,i<=g.n),A(0<=CNT(i),CNT(i)<=i)),patterns=[CNT(i)]))
        o=Region('G',None,size=lay(E,'graph')); o.auto=True; cell(E,o,lay(E,'graph_under'),8,g.ptr()); return [Ptr(o)]
    def cdeg(E,st,a,ins):
        g=E.g; u=z(E.d.U(a[1],32)); E.oblige(st,'degree: an existing node',A(0<=u,u<g.n),ins); return Num(g.X[u+1]-g.X[u],0,M31)
    def ccands(E,v0):
        o=[]; sl=[r for (r,_) in v0.st.mem if r.name.startswith('local') and r.stride==4 and r.length==2]
        for r,ins in v0.instrs.items():
            if not isinstance(v0.entry[r],Num): continue
            u=lambda v,r=r,w=R(ins.ty).w: z(E.d.U(v.phis[r],w))
            o.append(('%s at most n'%r,lambda v,u=u: u(v)<=E.g.n))
            for q in sl: o.append(('isolated nodes before %s are counted'%r,lambda v,u=u,q=q: v.arr(q)[0]+v.arr(q)[1]==E.CNT(u(v))))
        for q in sl:
            for k in(0,1): o.append(('slot %d is a partial count'%k,lambda v,q=q,k=k: A(0<=v.arr(q)[k],v.arr(q)[k]<=E.g.n)))
        return o
    out.append(Spec('pm_count',csetup,lambda E,st,r:[('the result is the number of nodes without neighbours',z(E.d.U(r,32))==E.CNT(E.g.n))],cands=[ccands,chunkcands],contracts={'kvc_chunk':kvc_chunk,'kvc_slot':slot2,'__dynamic_cast':dyncast,'_ZNK8kaminpar3shm5Graph6degreeEj':cdeg},loop_mode=unroll_ptr(3),of='graph::count_isolated_nodes'))
    return out
UNITS=[{'src':'wrap/c19.cc','specs':specs,'defs':XTBB+['-I'+os.path.join(VERIF,'stub','notimer')],'noinline':[r'8parallel10prefix_sum','23GenericPartitionedGraphI.*(C2E|D[0-2]E)','^_ZNK?8kaminpar3shm5Graph(1[nm]Ev|11node_weightEj|6degreeEj)','9CSRGraphC']+SA_NOINL}]
NATIVE=[{'src':'native/c19.cc','srcs':GRAPH_SRCS+['kaminpar-shm/graphutils/compressed_graph_builder.cc','kaminpar-shm/graphutils/permutator.cc','kaminpar-shm/kaminpar.cc'],'san':True,'sanopts':['-fno-sanitize=vptr,alignment'],'timeout':400,'bound':'260 (thorough: 1600) random graphs up to some thousand nodes with and without weights, isolated nodes, 1 to 8 threads','covers':'node permutations are bijections sorted by degree bucket, the renamed graph is isomorphic under them (edges and weights), isolated nodes are counted, cut off, put back within the limits, edges reordered by compression stay the same edges per node'}]

ASSUMPTIONS=['the two permutations handed to build_permuted_graph are inverse to each other (that the library computes such permutations is checked with a bound)','the degrees of the renamed nodes sum up to the number of edges, as those of the old ones do (a permuted sum)','node weights are positive and their total fits 32 bits','isolated nodes are the last nodes of the graph when they are assigned','the lemma of the unit-weight case: room(b) is the sum of the remaining room of the blocks before b']
TRUSTED=['tbb::parallel_for runs every index or chunk exactly once; iterations of the index form are verified in order, their independence is not (extraction-only stand-in stub/xtbb)','parallel::prefix_sum enters by contract (C07)','StaticArray allocation, Graph and PartitionedGraph constructors enter by contract','timers are no-ops','no exception is thrown']
