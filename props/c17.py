from graphs import *
ID='C17'
Z=z3.IntSort()
UMAX=(1<<32)-1
NOINL=['^_ZNK?8kaminpar6Logger','^_ZNK?8kaminpar5Timer','^_ZNK?8kaminpar5timer','^_ZN8kaminpar3cio','basic_string','^_ZNSaIc','^_ZNK?8kaminpar3shm5Graph','^_ZNK?8kaminpar3shm23GenericPartitionedGraph','^_ZNK?8kaminpar3shm13GraphDelegate','GraphCompressionContext','^_ZN8kaminpar3shm7metrics','^_ZN8kaminpar3shm5graph','shm7factory','^_ZN8kaminpar3shm5print','print_statistics','make_unique','9CSRGraphD[0-2]','14KvcPartitioner','_ZNSt6vectorIi.*aSERKS']+SA_NOINL[:2]
g_=lambda st,k: st.ghost[k]
def key(p): return (p.reg.name,str(z3.simplify(z(p.idx))),p.off)
# -------- the graph behind _graph_ptr: N nodes, `removed` of them currently cut off
def isgraph(E,st,p,ins):
    if not (isinstance(p,Ptr) and p.reg is not None and (p.reg.name,) in st.ghost.get('graphs',())): raise Unsupported('call on an object that is not the graph: '+ins.text[:80])
def num(x,hi=M31,lo=0): return Num(x,lo,hi)
def n_(E,st,a,ins): isgraph(E,st,a[0],ins); return num(E.N-g_(st,'removed'))
def tnw(E,st,a,ins): isgraph(E,st,a[0],ins); return num(E.TW(g_(st,'removed')))
def const(name,hi=M31):
    def c(E,st,a,ins): isgraph(E,st,a[0],ins); x=I(name); st.add(A(0<=x,x<=hi)); return num(x)
    return c
def sorted_(E,st,a,ins): isgraph(E,st,a[0],ins); return g_(st,'sorted')
def permuted(E,st,a,ins): isgraph(E,st,a[0],ins); return g_(st,'permuted')
def mapnode(E,st,a,ins):
    isgraph(E,st,a[0],ins); u=z(E.d.U(a[1],32)); E.oblige(st,'map_original_node: the graph is permuted',B(g_(st,'permuted')),ins); E.oblige(st,'map_original_node: an existing node',A(0<=u,u<E.N),ins)
    return num(g_(st,'perm')[u])
def count(E,st,a,ins):
    isgraph(E,st,a[0],ins); E.oblige(st,'count_isolated_nodes: the whole graph',g_(st,'removed')==0,ins); E.oblige(st,'count_isolated_nodes: isolated nodes are last',B(g_(st,'sorted')),ins); return num(E.ISO)
def remove(E,st,a,ins):
    isgraph(E,st,a[0],ins); k=z(E.d.U(a[1],32)); E.oblige(st,'remove_isolated_nodes: isolated nodes of the whole graph only',A(g_(st,'removed')==0,0<=k,k<=E.ISO),ins)
    E.oblige(st,'remove_isolated_nodes: isolated nodes are last',B(g_(st,'sorted')),ins); st.ghost['removed']=k; return None
def integrate(E,st,a,ins):
    isgraph(E,st,a[0],ins); k=g_(st,'removed'); st.ghost['removed']=z3.IntVal(0); return num(k)
def rearrange(E,st,a,ins):
    """the result is the same graph with its nodes renamed by some permutation, isolated nodes last"""
    E.oblige(st,'rearrange_by_degree_buckets: the whole graph',g_(st,'removed')==0,ins)
    pi=z3.Array(fresh_name('perm'),Z,Z); u=I('u'); st.add(ForAll([u],Imp(A(0<=u,u<E.N),A(0<=pi[u],pi[u]<E.N)),patterns=[pi[u]]))
    st.ghost.update(sorted=z3.BoolVal(True),permuted=z3.BoolVal(True),perm=pi); st.ghost['graphs']=st.ghost['graphs']+((a[0].reg.name,),); return None
def mkgraph(E,st,a,ins):
    isgraph(E,st,a[1],ins); r=E.fresh.setdefault('graph2',E.mkgraph('new graph')); st.ghost['graphs']=((r.name,),); E.store(st,a[0],Ptr(r),PtrTy(),ins); return None
def self(E,st,a,ins): return a[0]
# -------- partitions
def put(st,p,v): d=dict(st.ghost['pg']); d[key(p)]=v; st.ghost['pg']=d
def get(st,p,ins):
    v=st.ghost['pg'].get(key(p))
    if v is None: raise Unsupported('call on an object that holds no partition: '+ins.text[:80])
    return v
def fresh_partition(E,st,n):
    P=z3.Array(fresh_name('P'),Z,Z); u=I('u'); st.add(ForAll([u],Imp(A(0<=u,u<n),A(0<=P[u],P[u]<E.k)),patterns=[P[u]])); return P
def ctxval(E,st,f,w=32): return z(E.d.U(E.getcell(st,E.kp,lay(E,'kp_ctx')+lay(E,f)),w))
def create(E,st,a,ins):
    isgraph(E,st,a[1],ins); pc=lay(E,'cx_part'); v=lambda f: z(E.d.U(E.getcell(st,E.kp,lay(E,'kp_ctx')+pc+lay(E,f)),32))
    E.oblige(st,'create_partitioner: the context of this object',B(isinstance(a[2],Ptr) and a[2].reg is E.kp and a[2].off==lay(E,'kp_ctx')),ins)
    E.oblige(st,'create_partitioner: at least two blocks',v('pc_k')>=2,ins)
    E.oblige(st,'create_partitioner: the number of blocks asked for',v('pc_k')==E.k,ins)
    E.oblige(st,'create_partitioner: the context counts the nodes that are left',v('pc_n')==E.N-g_(st,'removed'),ins)
    E.oblige(st,'create_partitioner: the context knows the weight that is left',v('pc_tnw')==E.TW(g_(st,'removed')),ins)
    E.oblige(st,'create_partitioner: the thread count asked for',ctxval(E,st,'cx_threads')==I('threads'),ins)
    E.store(st,a[0],Ptr(E.partitioner),PtrTy(),ins); return None
def partition(E,st,a,ins):
    put(st,a[0],(E.N-g_(st,'removed'),fresh_partition(E,st,E.N-g_(st,'removed')))); E.assumed.add('Partitioner::partition returns a partition of all nodes of its graph into blocks below k (bounded check)'); return None
def move(E,st,a,ins): put(st,a[0],get(st,a[1],ins)); return a[0]
def pgn(E,st,a,ins): get(st,a[0],ins); return num(E.N-g_(st,'removed'))
def block(E,st,a,ins):
    n,P=get(st,a[0],ins); u=z(E.d.U(a[1],32)); E.oblige(st,'block: a node of the partitioned graph',A(0<=u,u<n),ins); return num(P[u])
def assign(E,st,a,ins):
    n,P=get(st,a[1],ins); k=z(E.d.U(a[2],32)); E.oblige(st,'assign_isolated_nodes: the nodes missing from the partition are the isolated ones',A(g_(st,'removed')==0,n+k==E.N),ins)
    E.oblige(st,'assign_isolated_nodes: under the constraints of this call',B(isinstance(a[3],Ptr) and a[3].reg is E.kp and a[3].off==lay(E,'kp_ctx')+lay(E,'cx_part')),ins)
    Q=fresh_partition(E,st,E.N); u=I('u'); st.add(ForAll([u],Imp(A(0<=u,u<n),Q[u]==P[u]),patterns=[Q[u]])); put(st,a[0],(E.N,Q)); st.ghost['assigned']=z3.BoolVal(True); return None
CUT=z3.Function('CUT',z3.ArraySort(Z,Z),Z)
def cut(E,st,a,ins):
    n,P=get(st,a[0],ins); E.oblige(st,'edge_cut: of a complete partition',n==E.N-g_(st,'removed'),ins); st.ghost['final']=(n,P); c=CUT(P); st.add(A(0<=c,c<=M31)); return Num(c,0,M31)
def some(E,st,a,ins): return Ptr(E.misc)
GC={'_ZNK8kaminpar3shm5Graph1nEv':n_,'_ZNK8kaminpar3shm5Graph1mEv':const('G.m'),'_ZNK8kaminpar3shm5Graph17total_node_weightEv':tnw,'_ZNK8kaminpar3shm5Graph17total_edge_weightEv':const('G.tew'),'_ZNK8kaminpar3shm5Graph15max_node_weightEv':const('G.mnw'),
 '_ZNK8kaminpar3shm5Graph6sortedEv':sorted_,'_ZNK8kaminpar3shm5Graph8permutedEv':permuted,'_ZNK8kaminpar3shm5Graph17map_original_nodeEj':mapnode,'_ZN8kaminpar3shm5Graph9csr_graphEv':self,'_ZNK8kaminpar3shm5Graph9csr_graphEv':self,
 re.compile('count_isolated_nodes'):count,re.compile('_ZN8kaminpar3shm5Graph21remove_isolated_nodesEj'):remove,re.compile('_ZN8kaminpar3shm5Graph24integrate_isolated_nodesEv'):integrate,re.compile('rearrange_by_degree_buckets'):rearrange,re.compile('reorder_edges_by'):nop,
 re.compile('make_uniqueIN8kaminpar3shm5Graph'):mkgraph,re.compile('create_partitioner'):create,re.compile('14KvcPartitioner9partition'):partition,re.compile('14KvcPartitionerD|11PartitionerD'):nop,
 re.compile('23GenericPartitionedGraphI.*(C2EOS|aSEOS)'):move,re.compile('23GenericPartitionedGraphI.*D[0-2]Ev'):nop,re.compile('13GraphDelegateI.*1nEv'):pgn,re.compile('23GenericPartitionedGraphI.*5blockE'):block,re.compile('assign_isolated_nodes'):assign,re.compile('metrics8edge_cut'):cut,
 re.compile('5GraphD[0-2]Ev'):nop,re.compile('23GraphCompressionContext5setup'):nop,re.compile('^_ZN8kaminpar3shm5print|print_statistics|8kaminpar3cio'):nop,re.compile('5Timer6globalEv'):some,re.compile('^_ZNK?8kaminpar(6Logger|5Timer|5timer)|basic_string|^_ZNSaIc'):some}
def objects(E,st,removed=None,k=None):
    E.fresh={}; N=E.N=I('N'); st.add(A(1<=N,N<(1<<31)-1)); E.ISO=I('isolated'); st.add(A(0<=E.ISO,E.ISO<=N)); E.TW=z3.Function('TW',Z,Z); r=I('r')
    st.add(ForAll([r],A(0<=E.TW(r),E.TW(r)<=M31),patterns=[E.TW(r)]))
    vt=vtable(E,'vtable of Graph','N8kaminpar3shm5GraphE')
    def mk(name): o=Region(name,None,size=lay(E,'graph')); o.auto=True; cell(E,o,0,8,Ptr(vt)); return o
    E.mkgraph=mk; g=E.graph=mk('the graph'); E.misc=Region('misc',None,size=4096); E.misc.auto=True
    st.ghost.update(graphs=((g.name,),),removed=z3.IntVal(0),sorted=z3.Bool('G.sorted'),permuted=z3.Bool('G.permuted'),perm=z3.Array('G.perm',Z,Z),pg={},assigned=z3.BoolVal(False),final=None)
    pi=st.ghost['perm']; u=I('u'); st.add(ForAll([u],Imp(A(0<=u,u<N),A(0<=pi[u],pi[u]<N)),patterns=[pi[u]])); return g
def partitioner(E):
    E.partitioner=Region('partitioner',None,size=lay(E,'partitioner')); E.partitioner.auto=True; E.partitioner.writable=True; cell(E,E.partitioner,0,8,Ptr(vtable(E,'vtable of the partitioner','14KvcPartitioner')))
def specs(tier):
    out=[]; i=I('i')
    # ---- PartitionContext
    S=z3.Function('S',Z,Z)
    def pc(E,st,length=None):
        o=E.pc=Region('context',None,size=lay(E,'pc')); o.auto=True; o.writable=True; return o
    def vec(E,o,off,reg,n):
        for d,x in((0,z3.IntVal(0)),(8,n),(16,n)): cell(E,o,off+d,8,Ptr(reg,x,0) if reg else NULL)
    def wsum(E,st,W,k):
        st.add(S(0)==0); st.add(ForAll([i],Imp(A(0<=i,i<k),S(i+1)==S(i)+W[i]),patterns=[W[i]])); st.add(ForAll([i],Imp(A(0<=i,i<=k),A(0<=S(i),S(i)<=M31)),patterns=[S(i)]))
        st.add(ForAll([i],Imp(A(0<=i,i<k),A(0<=W[i],W[i]<=M31)),patterns=[W[i]]))
    def ssetup(E,st):
        g=objects(E,st); o=pc(E,st); k=E.k=I('k'); st.add(A(1<=k,k<(1<<31))); w=E.w=arr('weights',4,k,signed=True); E.W=E.getarr(st,w,0); wsum(E,st,E.W,k)
        v=Region('vector',None,size=24); v.auto=True; v.writable=True; vec(E,v,0,w,k)
        old=arr('old',4,None,signed=True)
        for f in('pc_max','pc_umax'): vec(E,o,lay(E,f),None,None)
        return [Ptr(o),Ptr(g),Ptr(v)]
    def vcopy(E,st,a,ins):
        """copy assignment of a vector: the destination holds the elements of the source in memory of its own"""
        b=E.load(st,a[1],PtrTy(),ins); e=E.load(st,Ptr(a[1].reg,a[1].idx,a[1].off+8),PtrTy(),ins)
        if b.reg is None or e.reg is not b.reg: raise Unsupported('copy of an empty vector')
        r=arr(fresh_name('copy'),4,z(e.idx)-z(b.idx),signed=True); r.writable=True; st.mem[(r,0)]=E.getarr(st,b.reg,0); E.assumed.add('std::vector copy assignment copies all elements')
        for d,x in((0,z3.IntVal(0)),(8,z(e.idx)-z(b.idx)),(16,z(e.idx)-z(b.idx))): E.store(st,Ptr(a[0].reg,a[0].idx,a[0].off+d),Ptr(r,x,0),PtrTy(),ins)
        E.oblige(st,'vector copy: from its first element',z(b.idx)==0,ins); return a[0]
    def scands(E,v0):
        o=[]; w=E.w
        pt=[r for r in v0.instrs if isinstance(v0.entry[r],Ptr)]; nm=[r for r in v0.instrs if isinstance(v0.entry[r],Num)]
        for r in pt:
            ix=lambda v,r=r: z(v.phis[r].idx)
            o.append(('%s within the weights'%r,lambda v,ix=ix: A(E.lo<=ix(v),ix(v)<=E.hi)))
            for q in nm: o.append(('%s is the sum of the weights before %s'%(q,r),lambda v,ix=ix,q=q,w=R(v0.instrs[q].ty).w: z(E.d.S(v.phis[q],w))==S(ix(v))-S(E.lo)))
        return o
    def ssetup1(E,st): a=ssetup(E,st); E.lo,E.hi=z3.IntVal(0),E.k; return a
    def spost(E,st,r):
        o=E.pc; v=lambda f,w=32,sg=False: z((E.d.S if sg else E.d.U)(E.getcell(st,o,lay(E,f)),w)); out=[]
        out+=[('nodes, edges and weights of the graph',A(v('pc_on')==E.N,v('pc_n')==E.N,v('pc_m')==I('G.m'),v('pc_otnw',32,True)==E.TW(0),v('pc_tnw',32,True)==E.TW(0),v('pc_tew',32,True)==I('G.tew'),v('pc_mnw',32,True)==I('G.mnw'))),
             ('as many blocks as weights',v('pc_k')==E.k),('the total is the sum of the limits',v('pc_total',32,True)==S(E.k)),('the limits are not uniform',v('pc_uni',8)%2==0)]
        for f in('pc_max','pc_umax'):
            b=E.getcell(st,o,lay(E,f)); e=E.getcell(st,o,lay(E,f)+8)
            ok=isinstance(b,Ptr) and b.reg is not None and isinstance(e,Ptr) and e.reg is b.reg
            out.append(('%s: one limit per block'%f,A(z(b.idx)==0,z(e.idx)==E.k) if ok else B(False)))
            if ok: M=E.getarr(st,b.reg,0); out.append(('%s: the limits that were passed'%f,ForAll([i],Imp(A(0<=i,i<E.k),M[i]==E.W[i]),patterns=[M[i]])))
        return out
    VC={re.compile('_ZNSt6vectorIi.*aSERKS'):vcopy,**GC}
    out.append(Spec('pc_setup',ssetup1,spost,cands=[scands],contracts=VC,of='PartitionContext::setup (block weights)',signed_phis=()))
    def lsetup(E,st):
        o=pc(E,st); k=E.k=I('k'); st.add(A(1<=k,k<(1<<31))); w=E.w=arr('limits',4,k,signed=True); E.W=E.getarr(st,w,0); wsum(E,st,E.W,k); vec(E,o,lay(E,'pc_max'),w,k); return o,k
    def lset(E,st): o,k=lsetup(E,st); b=I('b'); st.add(A(0<=b,b<k)); return [Ptr(o),Num(b,0,M31)]
    out.append(Spec('pc_limit',lset,lambda E,st,r:[('the limit of the block',z(E.d.S(r,32))==E.W[I('b')])],of='PartitionContext::max_block_weight'))
    def tset(E,st):
        o,k=lsetup(E,st); b,e=E.lo,E.hi=I('b'),I('e'); st.add(A(0<=b,b<e,e<=k)); E.uni=z3.Bool('uniform'); cell(E,o,lay(E,'pc_uni'),1,Num(z3.If(E.uni,z3.IntVal(1),z3.IntVal(0)),0,1))
        st.add(Imp(E.uni,A(S(e)-S(b)==E.W[b]*(e-b)))); st.add(A(0<=E.W[b]*(e-b),E.W[b]*(e-b)<=S(k)) if False else B(True)); return [Ptr(o),Num(b,0,M31),Num(e,0,M31)]
    out.append(Spec('pc_sum',tset,lambda E,st,r:[('the sum of the limits of the blocks',z(E.d.S(r,32))==S(E.hi)-S(E.lo))],cands=[scands],of='PartitionContext::total_max_block_weights'))
    # ---- KaMinPar::compute_partition
    def ksetup(E,st):
        g=objects(E,st); partitioner(E); k=E.k=I('k'); st.add(A(1<=k,k<=M31)); o=E.kp=Region('kaminpar',None,size=lay(E,'kp')); o.auto=True; o.writable=True; c=lay(E,'kp_ctx')
        b=lambda n: Num(z3.If(z3.Bool(n),z3.IntVal(1),z3.IntVal(0)),0,1)
        u8=lambda n: (st.add(A(0<=I(n),I(n)<=255)),Num(I(n),0,255))[1]
        cell(E,o,lay(E,'kp_threads'),4,Num(I('threads'),1,M31)); st.add(A(1<=I('threads'),I('threads')<=M31)); cell(E,o,lay(E,'kp_level'),1,u8('level')); cell(E,o,lay(E,'kp_graph'),8,Ptr(g)); cell(E,o,lay(E,'kp_depth'),4,Num(I('depth'),0,M31)); st.add(A(0<=I('depth'),I('depth')<=M31))
        cell(E,o,lay(E,'kp_rearranged'),1,b('rearranged')); cell(E,o,c+lay(E,'cx_threads'),4,Num(I('t0'),0,M31)); st.add(A(0<=I('t0'),I('t0')<=M31)); cell(E,o,c+lay(E,'cx_node'),1,u8('node_ordering')); cell(E,o,c+lay(E,'cx_edge'),1,u8('edge_ordering')); cell(E,o,c+lay(E,'cx_comp'),1,b('compression'))
        p=c+lay(E,'cx_part'); cell(E,o,p+lay(E,'pc_k'),4,Num(k,1,M31)); cell(E,o,p+lay(E,'pc_n'),4,Num(E.N,0,M31)); cell(E,o,p+lay(E,'pc_tnw'),4,Num(E.TW(0),0,M31),True); st.add(A(0<=E.TW(0),E.TW(0)<=M31))
        out=E.out=arr('partition',4,E.N); st.ghost['out0']=None
        return [Ptr(o),Ptr(out,0,0),Num(E.N,0,M31)]
    def want(E,st,u):
        if not st.ghost['pg']: return z3.IntVal(0)
        return None
    def kcands(E,v0):
        o=[]
        for r,ins in v0.instrs.items():
            e=v0.entry[r]
            if isinstance(e,Ptr) and e.reg is E.out: ix=lambda v,r=r: z(v.phis[r].idx)
            elif isinstance(e,Num): ix=lambda v,r=r,w=R(ins.ty).w: z(E.d.U(v.phis[r],w))
            else: continue
            o.append(('%s within the nodes'%r,lambda v,ix=ix: A(0<=ix(v),ix(v)<=E.N)))
            if not v0.st.ghost['pg']: o.append(('zeros before %s'%r,lambda v,ix=ix: FA([i],Imp(A(0<=i,i<ix(v)),v.arr(E.out)[i]==0),[v.arr(E.out)[i]])))
            for kk,(n,P) in v0.st.ghost['pg'].items():
                pi=v0.st.ghost['perm']
                o.append(('blocks of the renamed nodes before %s (%s)'%(r,kk[0]),lambda v,ix=ix,P=P: FA([i],Imp(A(0<=i,i<ix(v)),v.arr(E.out)[i]==P[pi[i]]),[v.arr(E.out)[i]])))
                o.append(('blocks of the nodes before %s (%s)'%(r,kk[0]),lambda v,ix=ix,P=P: FA([i],Imp(A(0<=i,i<ix(v)),v.arr(E.out)[i]==P[i]),[v.arr(E.out)[i]])))
        return o
    def kpost(E,st,r):
        O=E.getarr(st,E.out,0); o=[('every node gets one of the k blocks',ForAll([i],Imp(A(0<=i,i<E.N),A(0<=O[i],O[i]<E.k)),patterns=[O[i]])),('no node stays cut off',g_(st,'removed')==0)]
        f=st.ghost['final']
        if f is None: o+=[('nothing is cut with one block',A(E.k==1,z(E.d.S(r,32))==0))]
        else:
            n,P=f; pi=st.ghost['perm']; pm=B(st.ghost['permuted'])
            o+=[('the returned value is the cut of the returned partition',z(E.d.S(r,32))==CUT(P)),('the returned partition covers all nodes',n==E.N),
                ('every node gets its block (of the node it was renamed to)',ForAll([i],Imp(A(0<=i,i<E.N),O[i]==z3.If(pm,P[pi[i]],P[i])),patterns=[O[i]]))]
        return o
    out.append(Spec('kp_partition',ksetup,kpost,cands=[kcands,chunkcands],contracts={**GC,**TBB},of='KaMinPar::compute_partition'))
    # ---- KaMinPar::copy_graph
    IN=[('xadj',False),('adjncy',False),('vwgt',True),('adjwgt',True)]
    def csetup(E,st):
        g=objects(E,st); o=E.kp=Region('kaminpar',None,size=lay(E,'kp')); o.auto=True; o.writable=True; cell(E,o,lay(E,'kp_graph'),8,Ptr(g)); cell(E,o,lay(E,'kp_rearranged'),1,Num(I('re'),0,1)); st.add(A(0<=I('re'),I('re')<=1))
        n,m=E.n,E.m=I('n'),I('m'); st.add(A(0<=n,n<M31,0<=m,m<M31)); E.nv,E.ne=z3.Bool('no vertex weights'),z3.Bool('no edge weights'); a=[Ptr(o)]; E.L={'xadj':n+1,'adjncy':m,'vwgt':z3.If(E.nv,z3.IntVal(0),n),'adjwgt':z3.If(E.ne,z3.IntVal(0),m)}; E.inp={}
        for nm,sg in IN:
            r=arr(nm,4,E.L[nm],signed=sg,writable=False); E.inp[nm]=E.getarr(st,r,0); a+=[Ptr(r,0,0),Num(E.L[nm],0,M31)]
        X=E.inp['xadj']; st.add(X[n]==m); E.vtc=vtable(E,'vtable of CSRGraph','N8kaminpar3shm8CSRGraphE') if False else None; return a
    def carrs(E): return [r for k,r in E.allocas.items() if isinstance(k,tuple) and k[0]=='sa']
    def ccands(E,v0):
        o=[]; ars=carrs(E)
        for r,ins in v0.instrs.items():
            if not isinstance(v0.entry[r],Num): continue
            ix=lambda v,r=r,w=R(ins.ty).w: z(E.d.U(v.phis[r],w))
            for x,(nm,sg) in zip(ars,IN):
                mx=E.L[nm]; M=E.inp[nm]
                o.append(('%s: copied before %s'%(nm,r),lambda v,x=x,ix=ix,M=M,mx=mx: FA([i],Imp(A(0<=i,i<ix(v),i<mx),v.arr(x)[i]==M[i]),[v.arr(x)[i]])))
                o.append(('%s: copied before %s and the last'%(nm,r),lambda v,x=x,ix=ix,M=M,mx=mx: FA([i],Imp(A(0<=i,i<mx,z3.Or(i<ix(v),i==mx-1)),v.arr(x)[i]==M[i]),[v.arr(x)[i]])))
        return o
    def mkcsr(E,st,a,ins):
        """construction of the graph from four arrays: they must hold the input"""
        d,s=lay(E,'sa_data'),lay(E,'sa_size')
        for p,(nm,sg) in zip(a[1:5],IN):
            D=E.load(st,Ptr(p.reg,p.idx,p.off+d),PtrTy(),ins); sz=z(E.d.U(E.load(st,Ptr(p.reg,p.idx,p.off+s),IntTy(64),ins),64)); M=E.getarr(st,D.reg,0); L=E.L[nm]
            E.oblige(st,'%s: as many elements as passed'%nm,sz==L,ins); E.oblige(st,'%s: the elements that were passed'%nm,ForAll([i],Imp(A(0<=i,i<L),M[i]==E.inp[nm][i]),patterns=[M[i]]),ins)
        b=E.load(st,a[5],IntTy(8),ins); E.oblige(st,'the new graph is not said to be sorted',z(E.d.U(b,8))==0,ins)
        r=E.fresh.setdefault('csr',Region('csr graph',None,size=64)); r.auto=True; E.store(st,a[0],Ptr(r),PtrTy(),ins); st.ghost['csr']=r; return None
    def wrapg(E,st,a,ins):
        p=E.load(st,a[1],PtrTy(),ins); E.oblige(st,'the graph object wraps the new graph',B(isinstance(p,Ptr) and p.reg is st.ghost.get('csr')),ins); E.store(st,a[1],NULL,PtrTy(),ins); st.ghost['wrapped']=a[0].reg.name; return None
    def wrapm(E,st,a,ins): E.oblige(st,'the graph object is passed on',B(a[1].reg.name==st.ghost.get('wrapped')),ins); st.ghost['wrapped']=a[0].reg.name; return None
    def keep(E,st,a,ins):
        E.oblige(st,'the new graph object is kept',B(a[1].reg.name==st.ghost.get('wrapped')),ins); r=E.fresh.setdefault('graph2',E.mkgraph('new graph')); E.store(st,a[0],Ptr(r),PtrTy(),ins); st.ghost['kept']=r; return None
    def cpost(E,st,r):
        p=E.getcell(st,E.kp,lay(E,'kp_graph')); f=z(E.d.U(E.getcell(st,E.kp,lay(E,'kp_rearranged')),8))
        return [('the new graph replaces the old one',B(isinstance(p,Ptr) and p.reg is st.ghost.get('kept'))),('the new graph is not rearranged yet',f%2==0)]
    CC={**SA,**TBB,re.compile('make_uniqueIN8kaminpar3shm8CSRGraph'):mkcsr,re.compile('3shm5GraphC[12]ESt10unique_ptr'):wrapg,re.compile('3shm5GraphC[12]EOS'):wrapm,re.compile('make_uniqueIN8kaminpar3shm5Graph'):keep,**{k:v for k,v in GC.items() if not(isinstance(k,re.Pattern) and 'make_unique' in k.pattern)}}
    out.append(Spec('kp_copy',csetup,cpost,cands=[ccands,chunkcands],contracts=CC,of='KaMinPar::copy_graph'))
    return out
UNITS=[{'src':'wrap/c17.cc','specs':specs,'defs':XTBB,'noinline':NOINL}]
NATIVE=[{'src':'native/c17.cc','lib':['kaminpar-shm','kaminpar-common'],'skip':[],'timeout':600,'bound':'160 (thorough: 2500) random graphs up to 9000 nodes (eight families, edgeless and tiny graphs, unit and other node and edge weights), 15 presets, 1 to 70 blocks, 1 to 8 threads, default and random eps, heterogeneous block weights and fractions, copied, borrowed and compressed graphs, repeated calls','covers':'the whole partitioning pipeline: ids in range, nothing written out of bounds, reported cut, unchanged input, block limits for unit node weights'}]
ASSUMPTIONS=['the partition array has one entry per node and the graph at least one node','every partitioner returns a partition of all nodes of its graph into blocks below k (bounded check only)','isolated nodes are the last ones of a graph that reports to be sorted, and not yet cut off at the time of the call','with uniform limits the sum of a range of limits is the limit times its length']
TRUSTED=['Graph and PartitionedGraph members, metrics::edge_cut, count_isolated_nodes, rearrange_by_degree_buckets and assign_isolated_nodes enter by contract (C06, C08, C09, C19)','logging, timing and console output are no-ops','tbb::parallel_for runs every chunk of the range exactly once (extraction-only stand-in stub/xtbb)','std::vector copy assignment copies all elements','no exception is thrown']
