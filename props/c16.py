from graphs import *
ID='C16'
Z=z3.IntSort(); MP=z3.MultiPattern
def specs(tier):
    out=[]; i,j,e,f=I('i'),I('j'),I('e'),I('f')
    # ---- extract_subgraph: one block at a time
    def setup(E,st):
        g=E.g=Csr(E,st); p=E.p=PGraph(E,st,g); b=E.b=I('block'); st.add(A(0<=b,b<p.k)); L=E.L=I('block size'); st.add(A(0<=L,L<=g.n)); X,T,P=g.X,g.T,p.P
        bn,mp=arr('block nodes',4,L,writable=False),arr('mapping',4,g.n,writable=False); BN,MPG=E.BN,E.MPG=E.getarr(st,bn,0),E.getarr(st,mp,0); a=[]
        st.add(ForAll([i],Imp(A(0<=i,i<L),A(0<=BN[i],BN[i]<g.n)),patterns=[BN[i]])); st.add(ForAll([i],Imp(A(0<=i,i<g.n),A(0<=MPG[i],MPG[i]<=M31)),patterns=[MPG[i]]))
        # inner edges before edge e of the graph; inner edges of the listed nodes before the i-th
        C,S=E.C,E.S=z3.Function('inner edges before',Z,Z),z3.Function('offset',Z,Z)
        st.add(C(0)==0,S(0)==0); st.add(ForAll([e],Imp(A(0<=e,e<g.m),C(e+1)==C(e)+z3.If(P[T[e]]==b,z3.IntVal(1),z3.IntVal(0))),patterns=[T[e]])); st.add(ForAll([e,f],Imp(A(0<=e,e<=f,f<=g.m),A(0<=C(e),C(e)<=C(f),C(f)-C(e)<=f-e)),patterns=[MP(C(e),C(f))]))
        st.add(ForAll([i],Imp(A(0<=i,i<L),S(i+1)==S(i)+C(X[BN[i]+1])-C(X[BN[i]])),patterns=[BN[i]])); LN,LE=I('memory.nodes'),I('memory.edges'); st.add(A(L<LN,LN<=M31,S(L)<=LE,LE<=M31))
        st.add(ForAll([i,j],Imp(A(0<=i,i<=j,j<=L),A(0<=S(i),S(i)<=S(j),S(j)<=S(L))),patterns=[MP(S(i),S(j))]))
        E.hn,E.he=g.n!=g.tnw,g.m!=g.tew; LW,LQ=I('memory.node_weights'),I('memory.edge_weights'); st.add(A(0<=LW,LW<=M31,0<=LQ,LQ<=M31,Imp(E.hn,LW>=L),Imp(E.he,LQ>=S(L))))
        def view(nm,reg,l):
            v=Region('view '+nm,None,size=lay(E,'sa')); v.auto=True; sa(E,st,v,0,reg,l); return Ptr(v)
        m=E.m=Region('memory',None,size=lay(E,'sm')); m.auto=True; E.x2,E.t2,E.w2,E.q2=arr('memory nodes',4,LN),arr('memory edges',4,LE),arr('memory node weights',4,LW,signed=True),arr('memory edge weights',4,LQ,signed=True)
        for nm,r,l in(('nodes',E.x2,LN),('edges',E.t2,LE),('nw',E.w2,LW),('ew',E.q2,LQ)): sa(E,st,m,lay(E,'sm_'+nm),r,l)
        r=E.res=Region('result',None,size=lay(E,'graph')); r.auto=True; r.writable=True
        return [Ptr(r),p.ptr(),g.ptr(),Num(b,0,M31),view('block nodes',bn,L),view('mapping',mp,g.n),Ptr(m)]
    pos=lambda E,i_,e_: E.S(i_)+E.C(e_)-E.C(E.g.X[E.BN[i_]])
    def rows(E,v,lo,hi,upto):
        """the inner edges of the listed nodes lo..hi are in place (of the last one those before upto)"""
        X,BN,P,T=E.g.X,E.BN,E.p.P,E.g.T; t,q=v.arr(E.t2),v.arr(E.q2); c=lambda: A(lo<=i,i<hi,X[BN[i]]<=e,e<upto(i),P[T[e]]==E.b)
        return [('edges',FA([i,e],Imp(c(),t[pos(E,i,e)]==E.MPG[T[e]]),[MP(BN[i],T[e])])),('edge weights',FA([i,e],Imp(A(E.he,c()),q[pos(E,i,e)]==E.g.EW[e]),[MP(BN[i],T[e])]))]
    def heads(E,v,hi):
        return [('offsets',FA([i],Imp(A(0<=i,i<hi),v.arr(E.x2)[i]==E.S(i)),[v.arr(E.x2)[i]])),('node weights',FA([i],Imp(A(E.hn,0<=i,i<hi),v.arr(E.w2)[i]==E.g.NW[E.BN[i]]),[v.arr(E.w2)[i]]))]
    def cands(E,v0):
        o=[]; X,BN=E.g.X,E.BN; num=[(r,ins) for r,ins in v0.instrs.items() if isinstance(v0.entry[r],Num)]; ptr=[r for r in v0.instrs if isinstance(v0.entry[r],Ptr) and v0.entry[r].reg is not None]
        x=lambda r,ins: (lambda v,r=r,w=R(ins.ty).w: z(E.d.U(v.phis[r],w)))
        edge=None
        for r,ins in num:
            e0=z3.simplify(z(E.d.U(v0.entry[r],32)))
            if z3.is_select(e0) and e0.arg(0).eq(X): edge=(r,x(r,ins),e0.arg(1))
        if edge:
            r0,ex,u=edge; idx=u.arg(1) if z3.is_select(u) else None
            if idx is None: return o
            o.append(('edge of the node',lambda v: A(X[u]<=ex(v),ex(v)<=X[u+1])))
            for r,ins in num:
                if r==r0: continue
                o.append(('%s: position of the edge'%r,lambda v,y=x(r,ins): y(v)==pos(E,idx,ex(v))))
            for k in(0,1):
                o.append(('%s of the nodes before'%('edges','weights')[k],lambda v,k=k: rows(E,v,0,idx,lambda i_: X[BN[i_]+1])[k][1]))
                o.append(('%s of the node so far'%('edges','weights')[k],lambda v,k=k: rows(E,v,idx,idx+1,lambda i_: ex(v))[k][1]))
            return o
        for p_ in ptr:
            ix=lambda v,p_=p_: v.phis[p_].idx if not isinstance(v.phis[p_].idx,int) else z3.IntVal(v.phis[p_].idx)
            o.append(('next of the listed nodes',lambda v,ix=ix: A(0<=ix(v),ix(v)<=E.L)))
            for r,ins in num:
                o.append(('%s: number of the node'%r,lambda v,y=x(r,ins),ix=ix: y(v)==ix(v))); o.append(('%s: edges before the node'%r,lambda v,y=x(r,ins),ix=ix: y(v)==E.S(ix(v))))
            for k in(0,1):
                o.append(('%s of the nodes before'%('edges','weights')[k],lambda v,k=k,ix=ix: rows(E,v,0,ix(v),lambda i_: X[BN[i_]+1])[k][1]))
                o.append((heads(E,v0,E.L)[k][0]+' before',lambda v,k=k,ix=ix: heads(E,v,ix(v))[k][1]))
        return o
    def field(E,st,p,o,ty,ins): return E.load(st,Ptr(p.reg,p.idx,p.off+lay(E,o)),ty,ins)
    def build(E,st,a,ins):
        """std::make_unique<CSRGraph>: the subgraph is built from these arrays"""
        av=a[-4:]; L=E.L; C,S=E.C,E.S
        class V: arr=staticmethod(lambda reg: E.getarr(st,reg,0))
        for nm,q,reg,want,cond in(('nodes',av[0],E.x2,L+1,None),('edges',av[1],E.t2,S(L),None),('node weights',av[2],E.w2,L,E.hn),('edge weights',av[3],E.q2,S(L),E.he)):
            s=z(E.d.U(field(E,st,q,'sa_size',IntTy(64),ins),64)); d=field(E,st,q,'sa_data',PtrTy(),ins)
            ok=B(isinstance(d,Ptr) and d.reg is reg and d.idx is not None and str(d.idx)=='0')
            E.oblige(st,'subgraph: %s: as many as the block has, in place'%nm,A(s==want,ok) if cond is None else A(Imp(cond,A(s==want,ok)),Imp(z3.Not(cond),s==0)),ins)
        for nm,gl in heads(E,V,L)+rows(E,V,0,L,lambda i_: E.g.X[E.BN[i_]+1]): E.oblige(st,'subgraph: %s are those of the block'%nm,gl,ins)
        E.oblige(st,'subgraph: last offset',V.arr(E.x2)[L]==S(L),ins); st.ghost['built']=z3.BoolVal(True)
        o=Region('subgraph',None,size=lay(E,'csr')); o.auto=True; E.store(st,a[0],Ptr(o),PtrTy(),ins); return None
    def gctor(E,st,a,ins): E.store(st,Ptr(a[1].reg,a[1].idx,a[1].off),NULL,PtrTy(),ins); return None
    def at(E,st,a,ins):
        x=z(E.d.U(a[1],64)); d=field(E,st,a[0],'sa_data',PtrTy(),ins); n_=z(E.d.U(field(E,st,a[0],'sa_size',IntTy(64),ins),64)); E.oblige(st,'operator[]: within the array',A(0<=x,x<n_),ins); return Ptr(d.reg,x,0)
    GC={re.compile('^_ZSt11make_unique.*8CSRGraph'):build,re.compile('^_ZN8kaminpar3shm5GraphC[12]E'):gctor,'_ZNK8kaminpar11StaticArrayIjEixEm':at}
    out.append(Spec('sx_one',setup,lambda E,st,r:[('a subgraph is returned',B(st.ghost.get('built',False)))],cands=[cands],contracts={**SA,**GC},of='graph::extract_subgraph'))
    # ---- copy_subgraph_partitions: block b of the old partition becomes the blocks K(b) .. K(b+1)
    def psetup(E,st):
        g=E.g=Csr(E,st); k=E.k=I('k'); st.add(A(1<=k,k<=(1<<30))); kp,kin=E.kp,E.kin=I('new k'),I('final k'); st.add(A(1<=kp,kp<=M31,1<=kin,kin<=M31))
        G=E.G=Region('graph',None,size=lay(E,'graph')); G.auto=True; cell(E,G,lay(E,'graph_under'),8,g.ptr())
        E.part=arr('partition',4,g.n); E.bw=arr('block weights',4,k,signed=True); P=E.P=E.getarr(st,E.part,0)
        o=E.pg=Region('p_graph',None,size=lay(E,'pg')); o.auto=True; o.writable=True; cell(E,o,lay(E,'pg_graph'),8,Ptr(G)); cell(E,o,lay(E,'pg_k'),4,Num(k,1,1<<30)); sa(E,st,o,lay(E,'pg_part'),E.part,g.n); sa(E,st,o,lay(E,'pg_bw'),E.bw,k)
        st.add(ForAll([i],Imp(A(0<=i,i<g.n),A(0<=P[i],P[i]<k)),patterns=[P[i]]))
        FK,K,SP,SL=E.FK,E.K,E.SP,E.SL=z3.Function('final k of block',Z,Z),z3.Function('first new block',Z,Z),z3.Function('block in the subgraph',Z,Z,Z),z3.Function('size of the subgraph',Z,Z)
        each=lambda b: z3.If(kp==kin,FK(b),kp/k)
        st.add(K(0)==0); st.add(ForAll([i],Imp(A(0<=i,i<k),A(K(i+1)==K(i)+each(i),1<=each(i))),patterns=[K(i)])); st.add(ForAll([i,j],Imp(A(0<=i,i<=j,j<=k),A(0<=K(i),K(i)<=K(j))),patterns=[MP(K(i),K(j))])); st.add(K(k)==kp)
        st.add(ForAll([i,j],Imp(A(0<=i,i<k,0<=j,j<SL(i)),A(0<=SP(i,j),SP(i,j)<each(i))),patterns=[SP(i,j)]))
        mp=arr('mapping',4,g.n,writable=False); MPG=E.MPG=E.getarr(st,mp,0); st.add(ForAll([i],Imp(A(0<=i,i<g.n),A(0<=MPG[i],MPG[i]<SL(P[i]))),patterns=[MPG[i]])); st.add(ForAll([i],Imp(A(0<=i,i<k),SL(i)<=M31),patterns=[SL(i)]))
        v=Region('mapping view',None,size=lay(E,'sa')); v.auto=True; sa(E,st,v,0,mp,g.n)
        E.subs=Region('sub-partitions',lay(E,'sa'),[Field(0,8,name='x')],length=k); s_=Region('vector of sub-partitions',None,size=lay(E,'svec')); s_.auto=True; cell(E,s_,0,8,Ptr(E.subs,0,0))
        r=E.res=Region('result',None,size=lay(E,'pg')); r.auto=True; r.writable=True
        return [Ptr(r),Ptr(o),Ptr(s_),Num(kp,1,M31),Num(kin,1,M31),Ptr(v)]
    def pmv(E,st,a,ins):
        """move construction of a partitioned graph"""
        for f in E.pg.fields.values():
            ty=PtrTy() if f.ptr is not None else IntTy(8*f.size); E.store(st,Ptr(a[0].reg,a[0].idx,a[0].off+f.off),E.load(st,Ptr(a[1].reg,a[1].idx,a[1].off+f.off),ty,ins),ty,ins)
        return None
    def pat(E,st,a,ins):
        """StaticArray::operator[]"""
        x=z(E.d.U(a[1],64))
        if a[0].reg is E.subs:
            b=z(a[0].idx); E.oblige(st,'sub-partition of an existing block',A(0<=b,b<E.k),ins); E.oblige(st,'node of the subgraph',A(0<=x,x<E.SL(b)),ins)
            c=Region(fresh_name('sub-block'),None,size=4); c.auto=True; E.store(st,Ptr(c),Num(E.SP(b,x),0,M31),IntTy(32),ins); return Ptr(c)
        d=field(E,st,a[0],'sa_data',PtrTy(),ins); n_=z(E.d.U(field(E,st,a[0],'sa_size',IntTy(64),ins),64)); E.oblige(st,'operator[]: within the array',A(0<=x,x<n_),ins); return Ptr(d.reg,x,0)
    def pnew(E,st,a,ins):
        key=('new',ins.text); r=E.allocas.get(key) or E.allocas.setdefault(key,arr('offsets',4,None)); r.length=E.k+1; E.off=r
        E.oblige(st,'one offset per block and one more',z(E.d.U(a[0],64))==4*(E.k+1),ins); E.getarr(st,r,0); return Ptr(r,0,0)
    def pfin(E,st,a,ins):
        b,k_,ki=[z(E.d.U(x,32)) for x in a]; E.oblige(st,'compute_final_k: a block of the current partition, all blocks in the end',A(0<=b,b<E.k,k_==E.k,ki==E.kin),ins); return Num(E.FK(b),0,M31)
    def pscan(E,st,a,ins):
        """contract of parallel::prefix_sum in place (C07)"""
        b,e,o=a; r=E.off; E.oblige(st,'prefix_sum: over all offsets, in place',A(B(b.reg is r and e.reg is r and o.reg is r),z(b.idx)==0,z(o.idx)==0,z(e.idx)==E.k+1),ins)
        old=E.getarr(st,r,0); K=E.K; new=z3.Array(fresh_name('sums'),Z,Z)
        E.oblige(st,'prefix_sum: the first offset is zero',old[0]==0,ins); E.oblige(st,'prefix_sum: the summands are the numbers of new blocks',FA([i],Imp(A(1<=i,i<=E.k),old[i]==K(i)-K(i-1)),[old[i]]),ins)
        st.add(ForAll([i],Imp(A(0<=i,i<=E.k),A(new[i]==K(i),0<=new[i],new[i]<=M31)),patterns=[new[i]])); st.mem[(r,0)]=new; st.ghost['scanned']=True
        for fr in st.frames: E.modset.setdefault(fr.header,set()).add((r,0))
        E.assumed.add('parallel::prefix_sum (proved in C07)'); return None
    def pcands(E,v0):
        o=[]; r=getattr(E,'off',None); K,P,k,kp=E.K,E.P,E.k,E.kp
        if r is None: return o
        for q,ins in v0.instrs.items():
            e0=v0.entry[q]
            if isinstance(e0,Ptr) and e0.reg is r:
                ix=lambda v,q=q: v.phis[q].idx if not isinstance(v.phis[q].idx,int) else z3.IntVal(v.phis[q].idx)
                o.append(('offsets filled',lambda v,ix=ix: A(0<=ix(v),ix(v)<=k+1))); o.append(('equal shares so far',lambda v,ix=ix: FA([i],Imp(A(0<=i,i<ix(v)),v.arr(r)[i]==kp/k),[v.arr(r)[i]])))
            if not isinstance(e0,Num): continue
            x=lambda v,q=q,w=R(ins.ty).w: z(E.d.U(v.phis[q],w))
            if v0.st.ghost.get('scanned'):
                o.append(('%s at most n'%q,lambda v,x=x: A(0<=x(v),x(v)<=E.g.n))); o.append(('nodes before %s are moved to their new blocks'%q,lambda v,x=x: FA([i],Imp(A(0<=i,i<x(v)),v.arr(E.part)[i]==K(P[i])+E.SP(P[i],E.MPG[i])),[v.arr(E.part)[i]])))
                o.append(('nodes from %s on are untouched'%q,lambda v,x=x: FA([i],Imp(A(x(v)<=i,i<E.g.n),v.arr(E.part)[i]==P[i]),[v.arr(E.part)[i]])))
            else:
                o.append(('%s is a block'%q,lambda v,x=x: A(0<=x(v),x(v)<=k))); o.append(('final numbers of blocks so far',lambda v,x=x: FA([i],Imp(A(1<=i,i<=x(v)),v.arr(r)[i]==E.FK(i-1)),[v.arr(r)[i]])))
        return o
    def pctor(E,st,a,ins):
        """the result is built from the copied partition"""
        E.oblige(st,'the result belongs to the same graph and has the new number of blocks',A(B(isinstance(a[1],Ptr) and a[1].reg is E.G),z(E.d.U(a[2],32))==E.kp),ins)
        d=field(E,st,a[3],'sa_data',PtrTy(),ins); E.oblige(st,'the partition: one entry per node',A(B(d.reg is E.part),z(E.d.U(field(E,st,a[3],'sa_size',IntTy(64),ins),64))==E.g.n),ins); Q,P,K=E.getarr(st,E.part,0),E.P,E.K
        E.oblige(st,'every node gets the block its subgraph put it into, counted from the first new block of its old block',FA([i],Imp(A(0<=i,i<E.g.n),Q[i]==K(P[i])+E.SP(P[i],E.MPG[i])),[Q[i]]),ins)
        E.oblige(st,'every node stays within the new blocks of its old block',FA([i],Imp(A(0<=i,i<E.g.n),A(K(P[i])<=Q[i],Q[i]<K(P[i]+1),Q[i]<E.kp)),[Q[i]]),ins); st.ghost['built']=z3.BoolVal(True); return None
    PC={**SA,'__dynamic_cast':dyncast,re.compile('23GenericPartitionedGraphI.*C2EOS'):pmv,re.compile('23GenericPartitionedGraphI.*C2ERKS'):pctor,re.compile('23GenericPartitionedGraphI.*D[0-2]E'):nop,'_ZNK8kaminpar11StaticArrayIjEixEm':pat,'_Znwm':pnew,'_ZdlPv':nop,re.compile('compute_final_k'):pfin,re.compile('8parallel10prefix_sum'):pscan}
    out.append(Spec('sx_copy',psetup,lambda E,st,r:[('a partitioned graph is returned',B(st.ghost.get('built',False)))],cands=[pcands],contracts=PC,of='graph::copy_subgraph_partitions'))
    return out
UNITS=[{'src':'wrap/c16.cc','specs':specs,'defs':XTBB+['-I'+os.path.join(VERIF,'stub','notimer')],'noinline':[r'^_ZNK8kaminpar11StaticArrayIjEixEm',r'8parallel10prefix_sum','23GenericPartitionedGraphI.*(C2E|D[0-2]E)','9CSRGraphC','St11make_uniqueI','5GraphC[12]E','5GraphD[12]E','compute_final_k','ensure_size','St6vectorI.*6resize']+SA_NOINL}]
NATIVE=[{'src':'native/c16.cc','lib':['kaminpar-shm','kaminpar-common'],'skip':[],'defs':['-fsanitize=address'],'timeout':600,'bound':'','covers':''}]
ASSUMPTIONS=[]
TRUSTED=[]
