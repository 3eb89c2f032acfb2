from graphs import *
ID='C12'
LIM=(1<<30)-1
MP=z3.MultiPattern
class Obj: pass
def specs(tier):
    out=[]
    # ---------------------------------------------------------------- dense table: entry of node u and block b at u*k+b
    def ids(E,st,*names):
        o=[]
        for n in names:
            x=I(n); hi=E.g.n if n=='u' else E.pg.k; st.add(A(0<=x,x<hi)); o.append(Num(x,0,M31))
        return o
    def partial(E,st,name,u,b):
        """S(e): weight of the edges before e of node u that lead into block b"""
        g,P=E.g,E.pg.P; S=z3.Function(name,z3.IntSort(),z3.IntSort()); e=I('e'); st.add(S(g.X[u])==0)
        st.add(ForAll([e],Imp(A(g.X[u]<=e,e<g.X[u+1]),S(e+1)==S(e)+z3.If(P[g.T[e]]==b,g.ewt(e),z3.IntVal(0))),patterns=[g.T[e]]))
        st.add(ForAll([e],Imp(A(g.X[u]<=e,e<=g.X[u+1]),A(0<=S(e),S(e)<=LIM)),patterns=[S(e)])); return S
    def base(E,st,shared=False,kind='dg',thr=False):
        """kind: dense table, or the mixed cache with its tabular part only (thr: any node threshold and offset, otherwise all nodes are in the table)"""
        g=E.g=Csr(E,st); pg=E.pg=PGraph(E,st,g); m=E.m=Obj(); k=pg.k; R_=m.R=z3.Function('ROW',z3.IntSort(),z3.IntSort()); sg=kind=='sg'
        E.d.mulfn=lambda a,b: R_(a) if b.eq(k) else R_(b) if a.eq(k) else a*b
        nt,so=(I('threshold'),I('offset')) if thr else (z3.IntVal(0),z3.IntVal(0)); st.add(A(0<=nt,nt<=g.n,0<=so,so<=(1<<40))); m.row=(lambda u: so+R_(u-nt)) if thr else R_; size=m.size=so+R_(g.n-nt) if thr else R_(g.n)
        m.gc=arr('gain_cache',4,size,signed=not sg,shared=shared is True); m.wd=arr('weighted_degrees',4,g.n,signed=not sg,shared=shared=='wd')
        o=m.o=Region('cache',None,size=lay(E,kind)); o.auto=True; L=lambda f: lay(E,kind+'_'+f); cell(E,o,L('graph'),8,g.ptr()); cell(E,o,L('pg'),8,pg.ptr()); cell(E,o,L('n'),4,Num(g.n,0,M31)); cell(E,o,L('k'),4,Num(k,1,M31))
        if sg: cell(E,o,L('nt'),4,Num(nt,0,M31) if thr else Num(0,0,0)); cell(E,o,L('so'),8,Num(so,0,1<<40) if thr else Num(0,0,0))
        sa(E,st,o,L('gc'),m.gc,size); sa(E,st,o,L('wd'),m.wd,g.n); m.G,m.D=E.getarr(st,m.gc,0),E.getarr(st,m.wd,0)
        E.initial_mem[(o,L('gc')+lay(E,'sa_size'))]=Num(size,0,1<<41)
        rows(E,st); return Ptr(o)
    def rows(E,st):
        """products with k are abstracted by ROW; every assumed fact about ROW is an instance of a proved lemma about the product"""
        k=E.pg.k; a,c=I(fresh_name('a')),I(fresh_name('c')); s=st.copy(); s.add(A(0<=a,a<c)); E.oblige(s,'lemma: rows are disjoint',A(0<=a*k,a*k+k<=c*k),None)
        R_=E.m.R; u,v=I('u'),I('v'); st.add(R_(0)==0); st.add(R_(E.g.n)<(1<<40)); st.add(ForAll([u],Imp(A(0<=u,u<=E.g.n),R_(u)<=R_(E.g.n)),patterns=[R_(u)])); st.add(ForAll([u],Imp(0<=u,R_(u)>=0),patterns=[R_(u)])); st.add(ForAll([u,v],Imp(A(0<=u,u<v),R_(u)+k<=R_(v)),patterns=[MP(R_(u),R_(v))]))
    CONN=lambda E,u,b: E.m.G[E.m.row(u)+b]
    def q(*names,kind='dg'):
        def setup(E,st):
            c=base(E,st,kind=kind,thr=kind=='sg'); a=ids(E,st,*names); u=I('u')
            if kind=='sg': st.add(u>=I('threshold'))
            for n in names[1:]: st.add(A(0<=CONN(E,u,I(n)),CONN(E,u,I(n))<=M31))
            return [c]+a
        return setup
    Dn='DenseGainCache::'
    out.append(Spec('dg_conn',q('u','b'),lambda E,st,r:[('the cached connection',z(E.d.S(r,32))==CONN(E,I('u'),I('b')))],of=Dn+'conn'))
    out.append(Spec('dg_gain',q('u','from','to'),lambda E,st,r:[('connection to the target minus connection to the source',z(E.d.S(r,32))==CONN(E,I('u'),I('to'))-CONN(E,I('u'),I('from')))],of=Dn+'gain'))
    out.append(Spec('dg_border',q('u','b'),lambda E,st,r:[('true exactly when some weight leaves the block',B(tobool(r))==(E.m.D[I('u')]!=CONN(E,I('u'),I('b'))))],of=Dn+'is_border_node'))
    # recomputation from scratch: every node writes its own row only; the row of an arbitrary node is followed
    def rsetup(E,st,kind='dg'):
        c=base(E,st,kind=kind); g,k,m=E.g,E.pg.k,E.m; u,b=m.u,m.b=I('w'),I('b'); st.add(A(0<=u,u<g.n,0<=b,b<k)); R_=m.R; m.S=partial(E,st,'S',u,b); i,e=I('i'),I('e')
        D=m.Dg=z3.Function('D',z3.IntSort(),z3.IntSort(),z3.IntSort()); v=I('v')
        st.add(ForAll([v],Imp(A(0<=v,v<g.n),D(v,g.X[v])==0),patterns=[g.X[v]])); st.add(ForAll([v,e],Imp(A(0<=v,v<g.n,g.X[v]<=e,e<g.X[v+1]),D(v,e+1)==D(v,e)+g.ewt(e)),patterns=[MP(g.X[v],g.T[e])])); st.add(ForAll([v,e],Imp(A(0<=v,v<g.n,g.X[v]<=e,e<=g.X[v+1]),A(0<=D(v,e),D(v,e)<=LIM)),patterns=[D(v,e)]))
        st.add(ForAll([i],Imp(A(0<=i,i<R_(g.n)),m.G[i]==0),patterns=[m.G[i]])); return [c]
    def rcands(E,v0):
        g,k,m=E.g,E.pg.k,E.m; o=[]; i=I('i'); b=I('b1'); G=lambda v: v.arr(m.gc); D=lambda v: v.arr(m.wd); R_=m.R; cell0=R_(m.u)+m.b
        for r,ins in v0.instrs.items():
            en=v0.entry[r]
            if not isinstance(en,Num): continue
            w=R(ins.ty).w; x=lambda v,r=r,w=w: z(E.d.U(v.phis[r],w)); e0=z(E.d.U(en,w))
            if w==32 and not z3.is_select(e0):
                o.append(('%s at most n'%r,lambda v,x=x: x(v)<=g.n)); o.append(('rows from %s on are empty'%r,lambda v,x=x: FA([i],Imp(A(R_(x(v))<=i,i<R_(g.n)),G(v)[i]==0),[G(v)[i]])))
                o.append(('the row is complete once %s has passed it'%r,lambda v,x=x: Imp(m.u<x(v),A(G(v)[cell0]==m.S(g.X[m.u+1]),D(v)[m.u]==m.Dg(m.u,g.X[m.u+1])))))
            if z3.is_select(e0) and e0.arg(0).eq(g.X):
                u=e0.arg(1); o.append(('%s is an edge of its node or one past it'%r,lambda v,x=x,u=u: A(g.X[u]<=x(v),x(v)<=g.X[u+1])))
                o.append(('the degree up to %s'%r,lambda v,x=x,u=u: D(v)[u]==m.Dg(u,x(v)))); o.append(('entries of the row stay below the degree up to %s'%r,lambda v,x=x,u=u: FA([b],Imp(A(R_(u)<=b,b<R_(u)+k),A(0<=G(v)[b],G(v)[b]<=m.Dg(u,x(v)))),[G(v)[b]])))
                o.append(('later rows are empty in %s'%r,lambda v,x=x,u=u: FA([i],Imp(A(R_(u)+k<=i,i<R_(g.n)),G(v)[i]==0),[G(v)[i]])))
                o.append(('the followed row up to %s'%r,lambda v,x=x,u=u: A(Imp(m.u==u,A(G(v)[cell0]==m.S(x(v)))),Imp(m.u<u,A(G(v)[cell0]==m.S(g.X[m.u+1]),D(v)[m.u]==m.Dg(m.u,g.X[m.u+1]))))))
        return o
    def rpost(E,st,r):
        m,g=E.m,E.g; G,D=a0(E,st,m.gc),a0(E,st,m.wd); return [('the entry is the weight of the edges into the block',G[m.R(m.u)+m.b]==m.S(g.X[m.u+1])),('the weighted degree is the weight of all edges',D[m.u]==m.Dg(m.u,g.X[m.u+1]))]
    out.append(Spec('dg_recompute',rsetup,rpost,cands=[rcands,chunkcands],contracts=TBB,of=Dn+'recompute_all'))
    def zsetup(E,st): return [base(E,st)]
    def zcands(E,v0):
        i=I('i'); o=[]
        for r,ins in v0.instrs.items():
            if isinstance(v0.entry[r],Num): x=lambda v,r=r,w=R(ins.ty).w: z(E.d.U(v.phis[r],w)); o.append(('%s at most n*k'%r,lambda v,x=x: x(v)<=E.m.R(E.g.n))); o.append(('entries before %s are zero'%r,lambda v,x=x: FA([i],Imp(A(0<=i,i<x(v)),v.arr(E.m.gc)[i]==0),[v.arr(E.m.gc)[i]])))
        return o
    def zpost(E,st,r): i=I('i'); G=a0(E,st,E.m.gc); return [('every entry is zero',FA([i],Imp(A(0<=i,i<E.m.R(E.g.n)),G[i]==0),[G[i]]))]
    out.append(Spec('dg_reset',zsetup,zpost,cands=[zcands,chunkcands],contracts=TBB,of=Dn+'reset'))
    # ---------------------------------------------------------------- dense table: a move shifts the weight of every edge between two entries of the neighbour's row
    def conc(E):
        """other threads may change entries arbitrarily between two accesses; this thread changes entries only by atomic read-modify-write, whose sum per entry is ghost state"""
        E.ghost_havoc=lambda E,st,k,g,h: z3.Const(fresh_name('net'),g.sort())
        def ah(E,st,kind,p,t,ins,args):
            m=E.m; E.oblige(st,'guarantee: the table is accessed atomically',B(kind.startswith('rmw') or ' atomic ' in ins.text),ins)
            if p.reg is not m.gc: return None
            E.bounds(st,p,4,ins,kind!='load'); w=z3.Const(fresh_name('G.any'),z3.ArraySort(z3.IntSort(),z3.IntSort())); i=z(p.idx); old=z3.Select(w,i); st.add(A(-LIM<=old,old<=LIM)); st.mem[(m.gc,0)]=w; net=st.ghost['net']
            if kind=='load': return Num(old,-LIM,LIM)
            if kind in('rmw_add','rmw_sub'):
                x=E.d.S(args[0],32); x=x if kind=='rmw_add' else -x; st.ghost['net']=z3.Store(net,i,z3.Select(net,i)+x); E.write(st,(m.gc,0),z3.Store(w,i,old+x)); return Num(old,-LIM,LIM)
            E.oblige(st,'guarantee: entries change only by read-modify-write',B(False),ins); return True
        E.atomic_hook=ah
    def toward(E,st,u,x):
        """W(e): weight of the edges before e of node u that lead to node x"""
        g=E.g; S=z3.Function('W',z3.IntSort(),z3.IntSort()); e=I('e'); st.add(S(g.X[u])==0)
        st.add(ForAll([e],Imp(A(g.X[u]<=e,e<g.X[u+1]),S(e+1)==S(e)+z3.If(g.T[e]==x,g.ewt(e),z3.IntVal(0))),patterns=[g.T[e]])); return S
    def msetup(E,st,kind='dg'):
        c=base(E,st,shared=True,kind=kind); a=ids(E,st,'u','from','to'); x,b=I('x'),I('b'); st.add(A(0<=x,x<E.g.n,0<=b,b<E.pg.k,I('from')!=I('to'))); E.m.W=toward(E,st,I('u'),x); st.ghost['net']=z3.K(z3.IntSort(),z3.IntVal(0)); return [c]+a
    def mnet(E,net,e): W=E.m.W(e); b=I('b'); return net[E.m.R(I('x'))+b]==z3.If(b==I('to'),W,z3.If(b==I('from'),-W,z3.IntVal(0)))
    def mcands(E,v0):
        o=[]; g=E.g
        if 'net' not in v0.st.ghost: return []
        for r,ins in v0.instrs.items():
            if isinstance(v0.entry[r],Num):
                w=R(ins.ty).w; x=lambda v,r=r,w=w: z(E.d.U(v.phis[r],w)); o.append(('%s is an edge of the node or one past it'%r,lambda v,x=x: A(g.X[I('u')]<=x(v),x(v)<=g.X[I('u')+1]))); o.append(('weight shifted so far in the followed entry (%s)'%r,lambda v,x=x: mnet(E,v.st.ghost['net'],x(v))))
        return o
    out.append(Spec('dg_move',msetup,lambda E,st,r:[('every entry changes by the weight of the edges between the moved node and its row, from the old to the new block',mnet(E,st.ghost['net'],E.g.X[I('u')+1]))],hook=conc,cands=[mcands],contracts=TBB,of=Dn+'move'))
    # ---------------------------------------------------------------- mixed cache: the tabular part ("sparse part"); graphs without degree buckets use nothing else
    Sn='SparseGainCache::'
    out.append(Spec('sg_conn',q('u','b',kind='sg'),lambda E,st,r:[('the cached connection',z(E.d.S(r,32))==CONN(E,I('u'),I('b')))],of=Sn+'conn'))
    out.append(Spec('sg_gain',q('u','from','to',kind='sg'),lambda E,st,r:[('connection to the target minus connection to the source',z(E.d.S(r,32))==CONN(E,I('u'),I('to'))-CONN(E,I('u'),I('from')))],of=Sn+'gain'))
    out.append(Spec('sg_index',q('u','b',kind='sg'),lambda E,st,r:[('row of the node, entry of the block',z(E.d.U(r,64))==E.m.row(I('u'))+I('b')),('inside the table',z(E.d.U(r,64))<E.m.size)],of=Sn+'index_sparse'))
    def wsetup(E,st,shared=False): c=base(E,st,shared,kind='sg',thr=True); return [c]+ids(E,st,'u')
    LOCK=1<<31; low=lambda x: z3.If(x>=LOCK,x-LOCK,x)
    out.append(Spec('sg_wdeg',wsetup,lambda E,st,r:[('the weighted degree without the lock bit',z(E.d.S(r,32))==low(E.m.D[I('u')]))],of=Sn+'weighted_degree'))
    def lsetup(own):
        def setup(E,st):
            c=wsetup(E,st,False if own else 'wd'); st.ghost['acq']=z3.IntVal(0); m=E.m; E.ghost_havoc=lambda E,st,k,g,h: z3.Int(fresh_name('acq'))
            def ah(E,st,kind,p,t,ins,args):
                if p.reg is not m.wd: return None
                E.oblige(st,'guarantee: only the word of this node',z(p.idx)==I('u'),ins)
                if own:   # the caller holds the lock: no other thread changes the word
                    if kind=='store': E.unlocked=True
                    return None
                E.oblige(st,'guarantee: the lock word is accessed atomically',B(kind.startswith('rmw') or ' atomic ' in ins.text or kind=='cmpxchg'),ins); E.bounds(st,p,4,ins,kind!='load')
                w=z3.Int(fresh_name('state')); st.add(A(0<=w,w<(1<<32)))
                if kind=='load': return Num(w,0,(1<<32)-1)
                if kind=='cmpxchg':
                    c,n=E.d.U(args[0],32),E.d.U(args[1],32); ok=w==z(c); E.oblige(st,'guarantee: the lock is taken only when free, and nothing else is changed',Imp(ok,A(z(c)<LOCK,z(n)==z(c)+LOCK)),ins)
                    st.ghost['acq']=z3.If(ok,st.ghost['acq']+1,st.ghost['acq']); return Agg([Num(w,0,(1<<32)-1),ok])
                E.oblige(st,'guarantee: the lock word changes only by compare and exchange',B(False),ins); return True
            E.atomic_hook=ah
            if own: st.add(m.D[I('u')]>=LOCK)
            return c
        return setup
    def lcands(E,v0): return [('lock not taken yet',lambda v: v.st.ghost['acq']==0)] if 'acq' in v0.st.ghost else []
    out.append(Spec('sg_lock',lsetup(False),lambda E,st,r:[('the lock is taken exactly once',st.ghost['acq']==1)],cands=[lcands],of=Sn+'lock'))
    out.append(Spec('sg_unlock',lsetup(True),lambda E,st,r:[('the lock bit is cleared and nothing else changes',a0(E,st,E.m.wd)==z3.Store(E.m.D,I('u'),E.m.D[I('u')]-LOCK))],of=Sn+'unlock'))
    out.append(Spec('sg_move',lambda E,st: msetup(E,st,'sg'),lambda E,st,r:[('every entry changes by the weight of the edges between the moved node and its row, from the old to the new block',mnet(E,st.ghost['net'],E.g.X[I('u')+1]))],hook=conc,cands=[mcands],contracts=TBB,of=Sn+'move'))
    out.append(Spec('sg_recompute',lambda E,st: rsetup(E,st,'sg'),rpost,cands=[rcands,chunkcands],contracts=TBB,of=Sn+'recompute'))
    # ---------------------------------------------------------------- on the fly: the same quantities computed from the adjacency
    def fbase(E,st):
        g=E.g=Csr(E,st); pg=E.pg=PGraph(E,st,g); o=Region('cache',None,size=lay(E,'fg')); o.auto=True; cell(E,o,lay(E,'fg_graph'),8,g.ptr()); cell(E,o,lay(E,'fg_pg'),8,pg.ptr()); cell(E,o,lay(E,'fg_k'),4,Num(pg.k,0,M31)); E.m=Obj(); return Ptr(o)
    def fq(*names):
        def setup(E,st):
            c=fbase(E,st); a=ids(E,st,*names); E.m.S={n:partial(E,st,'S_'+n,I('u'),I(n)) for n in names[1:]}
            if len(names)==3: st.add(I('from')!=I('to'))
            e=I('e'); g=E.g
            E.m.any=z3.Function('leaves',z3.IntSort(),z3.BoolSort()); return [c]+a
        return setup
    def fcands(E,v0):
        o=[]; g=E.g; idx=[]; sums=[]
        for r,ins in v0.instrs.items():
            en=v0.entry[r]
            if isinstance(en,Num):
                w=R(ins.ty).w; x=lambda v,r=r,w=w: z(E.d.U(v.phis[r],w)); s_=lambda v,r=r,w=w: z(E.d.S(v.phis[r],w)); e0=z3.simplify(z(E.d.U(en,w)))
                if z3.is_select(e0): idx.append((r,x)); o.append(('%s is an edge of the node or one past it'%r,lambda v,x=x: A(g.X[I('u')]<=x(v),x(v)<=g.X[I('u')+1])))
                elif z3.is_int_value(e0): sums.append((r,s_))
        for q_,s_ in sums: o.append(('%s is zero'%q_,lambda v,s_=s_: s_(v)==0))
        for r,x in idx:
            for q_,s_ in sums:
                for n,S in E.m.S.items(): o.append(('%s is the weight into %s up to %s'%(q_,n,r),lambda v,x=x,s_=s_,S=S: s_(v)==S(x(v))))
            e=I('e'); o.append(('no edge before %s leaves the block'%r,lambda v,x=x: FA([e],Imp(A(g.X[I('u')]<=e,e<x(v)),E.pg.P[g.T[e]]==I('b')),[g.T[e]])))
        return o
    END=lambda E: E.g.X[I('u')+1]
    out.append(Spec('fg_conn',fq('u','b'),lambda E,st,r:[('the weight of the edges into the block',z(E.d.S(r,32))==E.m.S['b'](END(E)))],cands=[fcands],of='OnTheFlyGainCache::conn'))
    out.append(Spec('fg_gain',fq('u','from','to'),lambda E,st,r:[('weight of the edges into the target minus weight of the edges into the source',z(E.d.S(r,32))==E.m.S['to'](END(E))-E.m.S['from'](END(E)))],cands=[fcands],of='OnTheFlyGainCache::gain'))
    def fbpost(E,st,r): e=I('e'); g=E.g; return [('true exactly when some neighbour is in another block',B(tobool(r))==z3.Exists([e],A(g.X[I('u')]<=e,e<END(E),E.pg.P[g.T[e]]!=I('b')),patterns=[g.T[e]]))]
    out.append(Spec('fg_border',fq('u','b'),fbpost,cands=[fcands],of='OnTheFlyGainCache::is_border_node'))
    return out
# ---------------------------------------------------------------- delta partition and delta gain cache of a thread-local search
DMAP=['^_ZNK8kaminpar14DynamicMapBaseI.*16get_if_contained','^_ZN8kaminpar14DynamicMapBaseI.*EixE[jm]$']
BIG=1<<28
def dm_find(E,st,args,ins):
    """contract of DynamicFlatMap::get_if_contained (map semantics, see C13): the entry of a stored key, null otherwise"""
    mp,val=E.m.maps[(args[0].reg,args[0].off)]; key=z(E.d.U(args[1],E.m.keyw)); s=st.copy(); v=E.getarr(st,val,0)
    st.add(st.ghost['present'][key]); s.add(A(z3.Not(s.ghost['present'][key]),v[key]==0)); E.assumed.add('DynamicFlatMap behaves like a map (contract; its code is exercised under C13)')
    return [(st,Ptr(val,key,0)),(s,NULL)]
def dm_at(E,st,args,ins):
    """contract of DynamicFlatMap::operator[]: the entry of the key, created with value 0 if it is not stored"""
    mp,val=E.m.maps[(args[0].reg,args[0].off)]; key=z(E.d.U(args[1],E.m.keyw)); v=E.getarr(st,val,0)
    st.add(Imp(z3.Not(st.ghost['present'][key]),v[key]==0)); st.ghost['present']=z3.Store(st.ghost['present'],key,z3.BoolVal(True)); E.assumed.add('DynamicFlatMap behaves like a map (contract; its code is exercised under C13)')
    return Ptr(val,key,0)
DM={re.compile(r'^_ZNK8kaminpar14DynamicMapBaseI.*16get_if_contained'):dm_find,re.compile(r'^_ZN8kaminpar14DynamicMapBaseI.*EixE[jm]$'):dm_at}
def nweight(E,st,args,ins):
    u=z(E.d.U(args[1],32)); E.oblige(st,'precondition of CSRGraph::node_weight',A(0<=u,u<E.g.n),ins); return Num(E.g.wt(u),0,M31)   # proved under C09
DM.update(VIRT); DM.update(TBB); DM['_ZNK8kaminpar3shm8CSRGraph11node_weightEj']=nweight
def dspecs(tier):
    out=[]
    def havoc(E): E.ghost_havoc=lambda E,st,k,g,h: z3.Const(fresh_name(k),g.sort())
    def ids(E,st,*names):
        o=[]
        for n in names: x=I(n); st.add(A(0<=x,x<(E.g.n if n=='u' else E.pg.k))); o.append(Num(x,0,M31))
        return o
    def dpbase(E,st):
        g=E.g=Csr(E,st); E.G=graph_obj(E,st,g); pg=E.pg=PGraph(E,st,g); m=E.m=Obj(); m.maps={}; m.keyw=32; o=m.dp=Region('delta partition',None,size=lay(E,'dp')); o.auto=True; cell(E,pg.obj,lay(E,'pg_graph'),8,Ptr(E.G))
        cell(E,o,lay(E,'dp_graph'),8,Ptr(E.G)); cell(E,o,lay(E,'dp_pg'),8,pg.ptr()); m.bw=arr('block_weights_delta',4,pg.k,signed=True); cell(E,o,lay(E,'dp_bw'),8,Ptr(m.bw)); m.val=arr('partition_delta',4,z3.IntVal(1<<33)); m.maps[(o,lay(E,'dp_map'))]=(o,m.val)
        st.ghost['present']=m.P0=z3.Const('present',z3.ArraySort(z3.IntSort(),z3.BoolSort())); m.V,m.B=E.getarr(st,m.val,0),E.getarr(st,m.bw,0); havoc(E); b=I('b'); v=I('v')
        st.add(ForAll([v],Imp(m.P0[v],A(0<=m.V[v],m.V[v]<pg.k)),patterns=[m.V[v]])); st.add(ForAll([b],A(-LIM//2<=m.B[b],m.B[b]<=LIM//2),patterns=[m.B[b]])); st.add(ForAll([b],A(-LIM//2<=pg.W[b],pg.W[b]<=LIM//2),patterns=[pg.W[b]])); u=I('u')
        st.add(ForAll([u],Imp(A(0<=u,u<g.n),g.NW[u]<=LIM//2),patterns=[g.NW[u]])); return Ptr(o)
    blk=lambda E,u: z3.If(E.m.P0[u],E.m.V[u],E.pg.P[u])
    def q(*names):
        def setup(E,st): c=dpbase(E,st); return [c]+ids(E,st,*names)
        return setup
    out.append(Spec('dp_block',q('u'),lambda E,st,r:[('the changed block if the search moved the node, otherwise its block in the shared partition',z(E.d.U(r,32))==blk(E,I('u')))],contracts=DM,of='DeltaPartitionedGraph::block'))
    out.append(Spec('dp_bweight',q('b'),lambda E,st,r:[('shared block weight plus the change made by the search',z(E.d.S(r,32))==E.pg.W[I('b')]+E.m.B[I('b')])],contracts=DM,of='DeltaPartitionedGraph::block_weight'))
    def setpost(E,st,r):
        m,g=E.m,E.g; u,b=I('u'),I('b'); w=g.wt(u); B1=z3.Store(m.B,blk(E,u),m.B[blk(E,u)]-w); P1,V1=st.ghost['present'],a0(E,st,m.val); x=I('x')
        return [('the weight of the node is moved from its old to its new block',a0(E,st,m.bw)==z3.Store(B1,b,B1[b]+w)),('the node is in the new block',A(P1[u],V1[u]==b)),('every other node keeps its block',ForAll([x],Imp(x!=u,A(P1[x]==m.P0[x],V1[x]==m.V[x])))),('the shared partition is untouched',A(a0(E,st,E.pg.part)==E.pg.P,a0(E,st,E.pg.bw)==E.pg.W))]
    out.append(Spec('dp_set',q('u','b'),setpost,contracts=DM,of='DeltaPartitionedGraph::set_block'))
    # the delta gain cache over the dense cache: entry u*k+b of the map is added to the shared entry
    def ddbase(E,st):
        dpbase(E,st); g,pg,m=E.g,E.pg,E.m; k=pg.k; R_=m.R=z3.Function('ROW',z3.IntSort(),z3.IntSort()); E.d.mulfn=lambda a,b: R_(a) if b.eq(k) else R_(b) if a.eq(k) else a*b
        m.gc=arr('gain_cache',4,R_(g.n),signed=True); m.G=E.getarr(st,m.gc,0); gc=Region('gain cache',None,size=lay(E,'dg')); gc.auto=True
        cell(E,gc,lay(E,'dg_graph'),8,g.ptr()); cell(E,gc,lay(E,'dg_pg'),8,pg.ptr()); cell(E,gc,lay(E,'dg_n'),4,Num(g.n,0,M31)); cell(E,gc,lay(E,'dg_k'),4,Num(k,1,M31)); sa(E,st,gc,lay(E,'dg_gc'),m.gc,R_(g.n)); E.initial_mem[(gc,lay(E,'dg_gc')+lay(E,'sa_size'))]=Num(R_(g.n),0,1<<40)
        o=Region('delta gain cache',None,size=lay(E,'dd')); o.auto=True; cell(E,o,lay(E,'dd_k')-16,8,Ptr(gc)); cell(E,o,lay(E,'dd_k')-8,8,Ptr(m.dp)); cell(E,o,lay(E,'dd_k'),4,Num(k,1,M31))
        m.dval=arr('gain_cache_delta',4,z3.IntVal(1<<62),signed=True); m.maps[(o,lay(E,'dd_map'))]=(o,m.dval); m.keyw=64; m.DV=E.getarr(st,m.dval,0); u,v=I('u'),I('v')
        a,c=I(fresh_name('a')),I(fresh_name('c')); s=st.copy(); s.add(A(0<=a,a<c)); E.oblige(s,'lemma: rows are disjoint',A(0<=a*k,a*k+k<=c*k),None)
        st.add(R_(0)==0); st.add(R_(g.n)<(1<<40)); st.add(ForAll([u],Imp(A(0<=u,u<=g.n),A(0<=R_(u),R_(u)<=R_(g.n))),patterns=[R_(u)])); st.add(ForAll([u,v],Imp(A(0<=u,u<v),R_(u)+k<=R_(v)),patterns=[MP(R_(u),R_(v))]))
        i=I('i'); st.add(ForAll([i],A(0<=m.G[i],m.G[i]<=BIG),patterns=[m.G[i]])); st.add(ForAll([i],A(-BIG<=m.DV[i],m.DV[i]<=BIG),patterns=[m.DV[i]])); return Ptr(o)
    def dq(*names):
        def setup(E,st): c=ddbase(E,st); return [c]+ids(E,st,*names)
        return setup
    def C(E,u,b): i=E.m.R(u)+b; return E.m.G[i]+E.m.DV[i]
    out.append(Spec('dd_conn',dq('u','b'),lambda E,st,r:[('shared connection plus the change made by the search',z(E.d.S(r,32))==C(E,I('u'),I('b')))],contracts=DM,of='GenericDeltaGainCache::conn'))
    out.append(Spec('dd_gain',dq('u','from','to'),lambda E,st,r:[('connection to the target minus connection to the source, both including the changes made by the search',z(E.d.S(r,32))==C(E,I('u'),I('to'))-C(E,I('u'),I('from')))],contracts=DM,of='GenericDeltaGainCache::gain'))
    def msetup(E,st):
        c=ddbase(E,st); a=ids(E,st,'u','from','to'); g=E.g; x,b=I('x'),I('b'); st.add(A(0<=x,x<g.n,0<=b,b<E.pg.k,I('from')!=I('to'))); u=I('u'); e=I('e'); W=E.m.W=z3.Function('W',z3.IntSort(),z3.IntSort()); D=E.m.D=z3.Function('D',z3.IntSort(),z3.IntSort())
        st.add(A(W(g.X[u])==0,D(g.X[u])==0)); st.add(ForAll([e],Imp(A(g.X[u]<=e,e<g.X[u+1]),A(W(e+1)==W(e)+z3.If(g.T[e]==x,g.ewt(e),z3.IntVal(0)),D(e+1)==D(e)+g.ewt(e))),patterns=[g.T[e]])); st.add(ForAll([e],Imp(A(g.X[u]<=e,e<=g.X[u+1]),A(0<=D(e),D(e)<=LIM)),patterns=[D(e)])); return [c]+a
    def now(E,V,e): W=E.m.W(e); b=I('b'); i=E.m.R(I('x'))+b; return V[i]==E.m.DV[i]+z3.If(b==I('to'),W,z3.If(b==I('from'),-W,z3.IntVal(0)))
    def mcands(E,v0):
        o=[]; g=E.g; i=I('i')
        for r,ins in v0.instrs.items():
            en=v0.entry[r]
            if not isinstance(en,Num): continue
            w=R(ins.ty).w; e0=z(E.d.U(en,w))
            if not z3.is_select(e0): continue
            x=lambda v,r=r,w=w: z(E.d.U(v.phis[r],w)); V=lambda v: v.arr(E.m.dval)
            o.append(('%s is an edge of the node or one past it'%r,lambda v,x=x: A(g.X[I('u')]<=x(v),x(v)<=g.X[I('u')+1]))); o.append(('weight shifted so far in the followed entry (%s)'%r,lambda v,x=x: now(E,V(v),x(v))))
            o.append(('every entry changed by at most the weight of the edges up to %s'%r,lambda v,x=x: FA([i],A(-BIG-E.m.D(x(v))<=V(v)[i],V(v)[i]<=BIG+E.m.D(x(v))),[V(v)[i]])))
        return o
    def mpost(E,st,r):
        m=E.m; return [('every entry changes by the weight of the edges between the moved node and its row, from the old to the new block',now(E,a0(E,st,m.dval),E.g.X[I('u')+1])),('the shared cache is untouched',a0(E,st,m.gc)==m.G)]
    out.append(Spec('dd_move',msetup,mpost,cands=[mcands],contracts=DM,of='GenericDeltaGainCache::move',maxpaths=20000))
    return out
UNITS=[{'src':'wrap/c12.cc','specs':specs,'defs':['-I'+os.path.join(VERIF,'stub','notimer')]+XTBB,'noinline':SA_NOINL},
 {'src':'wrap/c12d.cc','specs':dspecs,'defs':['-I'+os.path.join(VERIF,'stub','notimer')]+XTBB,'noinline':SA_NOINL+DMAP}]
_GC=['sparse (mixed) cache','hashing cache','compact hashing cache','dense and on-the-fly caches']
NATIVE=[{'src':'native/c12.cc','defs':['-DPART=%d'%i],'srcs':GRAPH_SRCS+(['kaminpar-shm/graphutils/compressed_graph_builder.cc','kaminpar-shm/kaminpar.cc']),'san':True,'sanopts':['-fno-sanitize=vptr,alignment'],
 'bound':'random graphs up to a few thousand nodes (eight families), plain, sorted by degree and compressed, k up to 70 (on the fly: 300), histories of up to 60 moves, concurrent moves with 1 to 8 threads, delta caches over several searches','covers':_GC[i]+': initialization, conn, gain, gains, is_border_node, move, delta caches, against the definition'} for i in range(4)]
ASSUMPTIONS=['edge weights are positive, the weight at a node and every sum of table and delta entries stays below 2^31','products with k are abstracted by a function ROW; the facts assumed about it (rows of different nodes are disjoint) are proved as lemmas about the product','the proofs cover the dense cache, the tabular part of the mixed cache, the on-the-fly cache and the delta cache over the dense cache, each on CSR graphs; hash-based caches, the gains() iteration and compressed graphs are covered by the bounded run only','concurrent moves: entries change only by atomic read-modify-write, whose sum per entry is proved; the value after all moves follows by summing over the moves']
TRUSTED=['tbb::parallel_for runs every chunk of the range exactly once (extraction-only stand-in stub/xtbb)','DynamicFlatMap::get_if_contained and operator[] by a map contract (assumed; exercised under C13)','CSRGraph::node_weight by its contract proved under C09','timers removed (stub/notimer)']
