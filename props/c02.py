from driver import *
ID='C02'
INV=(1<<64)-1
KMAX=(1<<31)-1; KMIN=-(1<<31)
class Model:
    """layout and abstraction of one heap type.  addr: handles array in the object; ghost: handle array is ghost state."""
    def __init__(m,pre,kind,maxheap):
        m.pre=pre; m.kind=kind; m.max=maxheap; m.INV=(1<<32)-1 if kind=='forest' else INV
    def worse(m,a,b):
        """key a has to be below key b in the tree ordering: strictly less urgent"""
        return b>a if m.max else a>b
    @property
    def sentinel(m): return KMAX if m.max else KMIN
    def install(m,E,st):
        N=z3.Int('N'); n=z3.Int('n'); cap=z3.Int('cap'); E.N=N; E.n0=n; E.m=m
        st.add(z3.And(N>=0,N<(1<<40),n>=0,n<=N))
        idw=8 if m.kind in('max','shared') else 4; E.idw=idw
        st.add(z3.Implies(idw==4,N<(1<<32))) if False else None
        if idw==4: st.add(N<=(1<<32))
        kofs=8 if idw==8 else 4
        hp=Region('heap',16 if idw==8 else 8,[Field(0,idw,name='id'),Field(kofs,4,signed=True,name='key')],length=cap)
        E.kofs=kofs
        ghost=m.kind=='dyn'
        ps=Region('id_pos',8,[Field(0,8,name='pos')],length=N)
        E.hp=hp; E.ps=ps
        E.getarr(st,hp,0); E.getarr(st,hp,kofs); E.getarr(st,ps,0)
        if m.kind=='max':
            st.add(cap==N)
            h=Region('this',None,[Field(0,8,ptr=hp),Field(8,8,ptr=hp),Field(16,8,ptr=hp),Field(24,8,ptr=ps),Field(32,8,ptr=ps),Field(40,8,ptr=ps),Field(48,8)],size=57)
            st.mem[(h,0)]=Ptr(hp,0,0); st.mem[(h,8)]=Ptr(hp,N,0); st.mem[(h,16)]=Ptr(hp,N,0)
            st.mem[(h,24)]=Ptr(ps,0,0); st.mem[(h,32)]=Ptr(ps,N,0); st.mem[(h,40)]=Ptr(ps,N,0)
            st.mem[(h,48)]=Num(n,0,1<<40); m.vec=None; args=[Ptr(h)]
            m.size=lambda st_: st_.mem[(h,48)].e
        elif m.kind in('shared','dyn'):
            st.add(z3.And(cap>=n,cap<(1<<41)))
            b=8 if m.kind=='shared' else 0
            fs=[Field(b,8,ptr=hp),Field(b+8,8,ptr=hp),Field(b+16,8,ptr=hp)]
            if m.kind=='shared': fs+=[Field(0,8),Field(32,8,ptr=ps)]
            h=Region('this',None,fs,size=41 if m.kind=='shared' else 25)
            st.mem[(h,b)]=Ptr(hp,0,0); st.mem[(h,b+8)]=Ptr(hp,n,0); st.mem[(h,b+16)]=Ptr(hp,cap,0)
            if m.kind=='shared':
                st.mem[(h,0)]=Num(N,0,1<<40); st.mem[(h,32)]=Ptr(ps,0,0)
            hp.length=lambda st_: st_.mem[(h,b+16)].idx
            m.vec=(h,b)
            m.size=lambda st_: st_.mem[(h,b+8)].idx
            args=[Ptr(h)]
        else: # forest: heap number t of T
            T=z3.Int('T'); t=z3.Int('t'); E.t=t
            st.add(z3.And(0<=t,t<T,T<(1<<40),cap>=n,cap<(1<<41)))
            hs=Region('heaps',24,[Field(0,8,ptr=hp,name='begin'),Field(8,8,ptr=hp,name='end'),Field(16,8,ptr=hp,name='cap')],length=T)
            B=E.getarr(st,hs,0); F=E.getarr(st,hs,8); C=E.getarr(st,hs,16)
            st.add(z3.And(B[t]==0,F[t]==n,C[t]==cap))
            E.hs=hs
            h=Region('this',None,[Field(0,8,ptr=ps),Field(8,8,ptr=ps),Field(16,8,ptr=ps),Field(24,8,ptr=hs),Field(32,8,ptr=hs),Field(40,8,ptr=hs)],size=49)
            st.mem[(h,0)]=Ptr(ps,0,0); st.mem[(h,8)]=Ptr(ps,N,0); st.mem[(h,16)]=Ptr(ps,N,0)
            st.mem[(h,24)]=Ptr(hs,0,0); st.mem[(h,32)]=Ptr(hs,T,0); st.mem[(h,40)]=Ptr(hs,T,0)
            hp.length=lambda st_: z3.Select(st_.mem[(hs,16)],t)
            m.vec=(hs,0)
            m.size=lambda st_: z3.Select(st_.mem[(hs,8)],t)
            args=[Ptr(h),Num(t,0,1<<40)]
        E.h=h
        # well-formedness of the values stored
        i=z3.Int('i'); hid,key,pos=m.arrs(E,st)
        st.add(z3.ForAll([i],z3.And(0<=hid[i],hid[i]<(1<<(8*idw))),patterns=[hid[i]]))
        st.add(z3.ForAll([i],z3.And(KMIN<=key[i],key[i]<=KMAX),patterns=[key[i]]))
        st.add(z3.ForAll([i],z3.And(0<=pos[i],pos[i]<=INV),patterns=[pos[i]]))
        E.s0=(hid,key,pos,n)
        for nm,f in m.inv(E,E.s0): st.add(f)
        # all stored keys are strictly more urgent than the reserved key value
        st.add(z3.ForAll([i],z3.Implies(z3.And(0<=i,i<n),m.worse(m.sentinel,key[i]) if False else m.worse(key[i],z3.IntVal(m.sentinel))),patterns=[key[i]]))
        if ghost:
            def hook(E,st,p,v,ty,ins):
                if p.reg is hp and p.off==0 and E.ghost_on:
                    E.ghost_on=False
                    E.store(st,p,v,ty,ins,False)
                    a=st.mem[(ps,0)]
                    E.write(st,(ps,0),E.named(st,z3.Store(a,z(E.d.U(v,8*idw)),z(p.idx)),ps,ps.fields[0]))
                    E.ghost_on=True
                    return True
            E.ghost_on=True; E.store_hook=hook
        return args
    def arrs(m,E,st): return (st.mem[(E.hp,0)],st.mem[(E.hp,E.kofs)],st.mem[(E.ps,0)])
    def snap(m,E,st): return m.arrs(E,st)+(m.size(st),)
    # --- the predicates.  s=(hid,key,pos,n)
    def member(m,s,x): return z3.And(s[2][x]<s[3],s[0][s[2][x]]==x)
    def invA(m,E,s):
        hid,key,pos,n=s; i=z3.Int('i')
        return z3.ForAll([i],z3.Implies(z3.And(0<=i,i<n),z3.And(0<=hid[i],hid[i]<E.N,pos[hid[i]]==i)),patterns=[hid[i]])
    def invB(m,E,s):
        INV=m.INV
        hid,key,pos,n=s; x=z3.Int('x')
        if m.kind in('max','shared'):
            return z3.ForAll([x],z3.Implies(z3.And(0<=x,x<E.N),z3.Or(pos[x]==m.INV,z3.And(0<=pos[x],pos[x]<n,hid[pos[x]]==x))),patterns=[pos[x]])
        return z3.ForAll([x],z3.Implies(z3.And(0<=x,x<E.N),0<=pos[x]),patterns=[pos[x]])
    def invC(m,E,s,exc=None,excp=None):
        hid,key,pos,n=s; p=z3.Int('p'); c=z3.Int('c')
        g=[0<=p,c<n,4*p+1<=c,c<=4*p+4]
        if exc is not None: g.append(c!=exc)
        if excp is not None: g.append(p!=excp)
        return z3.ForAll([p,c],z3.Implies(z3.And(*g),z3.Not(m.worse(key[p],key[c]))),patterns=[z3.MultiPattern(key[p],key[c])])
    def inv(m,E,s):
        return [('every entry is found through its handle',m.invA(E,s)),('every handle names its entry',m.invB(E,s)),('no entry is less urgent than its parent allows (heap order)',m.invC(E,s))]
    # abstract content: id -> key
    def same(m,E,s0,s1,but=None):
        """s1 has the same content and the same foreign handles as s0, except for id but"""
        x=z3.Int('x'); c=z3.And(0<=x,x<E.N)
        if but is not None: c=z3.And(c,x!=but)
        return z3.ForAll([x],z3.Implies(c,z3.And(m.member(s1,x)==m.member(s0,x),
            z3.Implies(m.member(s0,x),s1[1][s1[2][x]]==s0[1][s0[2][x]]),
            z3.Implies(z3.Not(m.member(s0,x)),s1[2][x]==s0[2][x]))),patterns=[s1[2][x]])
def cands(E,v0):
    """loop-invariant templates: for every 64-bit loop variable P, the role 'current tree position'"""
    m=E.m; out=[]
    if not hasattr(E,'n0'): return out
    ints=[r for r,ins in v0.instrs.items() if isinstance(v0.entry[r],Num) and R(ins.ty).w==64]
    ptrs=[r for r,ins in v0.instrs.items() if isinstance(v0.entry[r],Ptr) and v0.entry[r].reg is E.hp]
    s=lambda v: m.snap(E,v.st)
    se=lambda v: m.snap(E,v.st0)
    out.append(('entries are found through their handles',lambda v: m.invA(E,s(v))))
    def memb(v):
        i=z3.Int('i'); a=s(v); b=se(v)
        return z3.ForAll([i],z3.Implies(z3.And(0<=i,i<a[3]),m.member(b,a[0][i])),patterns=[a[0][i]])
    out.append(('no foreign entry appears',memb))
    out.append(('the content is unchanged since the loop was entered',lambda v: m.same(E,se(v),s(v))))
    for q,lo,hi,nm in ((0,0,(1<<(8*E.idw))-1,'ids'),(1,KMIN,KMAX,'keys'),(2,0,INV,'handles')):
        def rng(v,q=q,lo=lo,hi=hi):
            i=z3.Int('i'); a=s(v)[q]
            return z3.ForAll([i],z3.And(lo<=a[i],a[i]<=hi),patterns=[a[i]])
        out.append(('stored %s are machine values'%nm,rng))
    out.append(('size unchanged',lambda v:s(v)[3]==se(v)[3]))
    if m.kind=='forest':
        out.append(('vector of this heap starts at 0',lambda v: z3.And(v.st.mem[(E.hs,0)][E.t]==0,v.st.mem[(E.hs,16)][E.t]>=s(v)[3])))
    if m.vec and m.kind!='forest':
        out.append(('capacity covers the size',lambda v: v.st.mem[(m.vec[0],m.vec[1]+16)].idx>=s(v)[3]))
    out.append(('heap order holds everywhere',lambda v:m.invC(E,s(v))))
    for r in ints:
        P=lambda v,r=r: E.d.U(v.phis[r],64)
        def gp(v,P=P):
            c=z3.Int('c'); g=z3.Int('g'); hid,key,pos,n=s(v); p=z(P(v))
            return z3.ForAll([g,c],z3.Implies(z3.And(g>=0,4*g+1<=p,p<=4*g+4,c<n,4*p+1<=c,c<=4*p+4),z3.Not(m.worse(key[g],key[c]))),patterns=[z3.MultiPattern(key[g],key[c])])
        out+=[(r+' is a position',lambda v,P=P:z3.And(0<=z(P(v)),z(P(v))<s(v)[3])),
              (r+' is a position or 0',lambda v,P=P:z3.And(0<=z(P(v)),z3.Or(z(P(v))==0,z(P(v))<s(v)[3]))),
              ('heap order except above '+r,lambda v,P=P:m.invC(E,s(v),exc=z(P(v)))),
              ('heap order except below '+r,lambda v,P=P:m.invC(E,s(v),excp=z(P(v)))),
              ('grandparent order at '+r,gp),
              ('the moved entry is at '+r,lambda v,P=P,r=r:z3.And(s(v)[0][z(P(v))]==se(v)[0][z(E.d.U(v.entry[r],64))],s(v)[1][z(P(v))]==se(v)[1][z(E.d.U(v.entry[r],64))]))]
        def others(v,P=P):
            i=z3.Int('i'); hid,key,pos,n=s(v)
            return z3.ForAll([i],z3.Implies(z3.And(0<=i,i<n,i!=P(v)),m.worse(key[i],z3.IntVal(m.sentinel))),patterns=[key[i]])
        out.append(('every key but the one at %s is below the reserved one'%r,others))
        if E.op=='clear': out+=clearcands(E,m,r,P,s)
    for r in ptrs:
        P=lambda v,r=r: v.phis[r].idx
        out+=clearcands(E,m,r,P,s)
        out.append((r+' within the entries',lambda v,P=P: z3.And(0<=z(P(v)),z(P(v))<=s(v)[3])))
    return out
def clearcands(E,m,r,P,s):
    out=[]
    def cl(v):
        x=z3.Int('x'); a=s(v); b=E.s0; i=z(P(v))
        return z3.ForAll([x],z3.Implies(z3.And(0<=x,x<E.N),a[2][x]==z3.If(z3.And(m.member(b,x),b[2][x]<i),m.INV,b[2][x])),patterns=[a[2][x]])
    out.append(('handles of the entries before %s are cleared, all others unchanged'%r,cl))
    return out
def nested(E,h): return 6 if any(h in b and k!=h for k,b in E.loops.items()) else None
def realloc(E,st,args,ins):
    """assumed contract of std::vector growth: the entries are kept, the new one is appended, capacity suffices"""
    E.assumed.add('std::vector growth (libstdc++): keeps the elements, appends the new one, the capacity becomes sufficient')
    m=E.m; n=ins.x['callee']
    b=m.vec[1]
    if m.kind=='forest':
        hs=E.hs; t=args[0].idx
        F=st.mem[(hs,8)]; C=st.mem[(hs,16)]
        E.oblige(st,'safety: growth of the addressed heap',z(t)==E.t,ins); st.add(z(t)==E.t)
        e=z3.Select(F,t); nc=z3.Int(fresh_name('cap')); st.add(z3.And(nc>e,nc<(1<<41)))
        E.write(st,(hs,8),E.named(st,z3.Store(F,t,e+1),hs,hs.fields[8])); E.write(st,(hs,16),E.named(st,z3.Store(C,t,nc),hs,hs.fields[16]))
    else:
        h=m.vec[0]; e=st.mem[(h,b+8)].idx; nc=z3.Int(fresh_name('cap')); st.add(z3.And(nc>z(e),nc<(1<<41)))
        E.write(st,(h,b+8),Ptr(E.hp,e+1,0)); E.write(st,(h,b+16),Ptr(E.hp,nc,0))
    if len(args)>=4:   # emplace(id, key)
        vi=E.load(st,args[-2],IntTy(8*E.idw),ins); vk=E.load(st,args[-1],IntTy(32),ins)
    else:
        vi=E.load(st,args[-1],IntTy(8*E.idw),ins); vk=E.load(st,E.gep(args[-1],E.kofs,[]),IntTy(32),ins)
    E.store(st,Ptr(E.hp,e,0),vi,IntTy(8*E.idw),ins,False); E.store(st,Ptr(E.hp,e,E.kofs),vk,IntTy(32),ins,False)
    return None
NOINL=('_M_realloc_(insert|append)',)
def specs(tier):
    out=[]
    for pre,kind,mx in (('max','max',1),('min','max',0),('smax','shared',1),('smin','shared',0),('fmax','forest',1),('fmin','forest',0),('dmax','dyn',1),('dmin','dyn',0)):
        cls={'max':'BinaryHeap','shared':'SharedBinaryHeap','forest':'DynamicBinaryForest','dyn':'DynamicBinaryHeap'}[kind]+('<max>' if mx else '<min>')
        ops=['empty','size','contains','key','peekid','peekkey','push','pop','remove','change','pushchange','decrease','increase','clear']
        if kind=='forest': ops.remove('pushchange')
        if kind=='dyn': ops=['empty','size','peekid','peekkey','push','pop','clear']
        for op in ops:
            m=Model(pre,kind,mx)
            def setup(E,st,m=m,op=op):
                E.op=op; a=m.install(E,st); hid,key,pos,n=E.s0; N=E.N
                if op=='contains' and m.kind=='forest': a=a[:1]
                x=z3.Int('id'); k=z3.Int('newkey'); E.x=x; E.k=k
                member=m.member(E.s0,x)
                if op in('contains','key','push','remove','change','pushchange','decrease','increase'):
                    st.add(z3.And(0<=x,x<N)); a=a+[Num(x,0,1<<40) if E.idw==8 else Num(x,0,(1<<32)-1)]
                if op in('push','change','pushchange','decrease','increase'):
                    st.add(z3.And(KMIN<=k,k<=KMAX)); a=a+[Num(k,KMIN,KMAX)]
                    st.add(m.worse(k,z3.IntVal(m.sentinel)))
                if op=='push':
                    st.add(z3.And(pos[x]==m.INV if m.kind!='dyn' else z3.Not(member)))
                    st.add(z3.Not(member))
                    st.add(n<N)
                if op=='pushchange': st.add(z3.Implies(z3.Not(member),n<N))
                if op in('key','remove','change','decrease','increase'): st.add(member); st.add(m.worse(key[pos[x]],z3.IntVal(m.sentinel)))
                if op=='decrease': st.add(m.worse(key[pos[x]],k))
                if op=='increase': st.add(m.worse(k,key[pos[x]]))
                if op in('peekid','peekkey','pop'): st.add(n>0)
                if op in('peekid','peekkey','pop'):
                    # lemma: the root is the most urgent entry; induction over the positions
                    i=z3.Int('i'); step=z3.Int('istep')
                    t=st.copy(); t.add(z3.And(0<step,step<n)); t.add(z3.Not(m.worse(key[0],key[(step-1)/4])))
                    E.oblige(t,'lemma: root order, induction step',z3.Not(m.worse(key[0],key[step])))
                    E.rootlemma=z3.ForAll([i],z3.Implies(z3.And(0<=i,i<n),z3.Not(m.worse(key[0],key[i]))),patterns=[key[i]])
                    st.add(E.rootlemma)
                if m.vec and op in('push','pushchange'): st.add(n<(1<<40))
                return a
            def post(E,st,r,m=m,op=op):
                s0=E.s0; s1=m.snap(E,st); x=E.x; k=E.k; o=[]
                hid,key,pos,n=s0; y=z3.Int('y')
                if op=='empty': o.append(('empty iff no entries',Eq(r,n==0)))
                if op=='size': o.append(('number of entries',E.d.U(r,64)==n))
                if op=='contains':
                    o.append(('contained iff a handle exists',Eq(r,m.member(s0,x)) if m.kind!='forest' else Eq(r,pos[x]!=m.INV)))
                if op=='key': o.append(('key of the entry',E.d.S(r,32)==key[pos[x]]))
                if op=='peekid':
                    e=E.d.U(r,8*E.idw)
                    o.append(('the returned id is an entry',z3.And(0<=e,e<E.N,m.member(s0,e))))
                    o.append(('no entry is more urgent than the returned one',z3.ForAll([y],z3.Implies(z3.And(0<=y,y<E.N,m.member(s0,y)),z3.Not(m.worse(key[pos[e]],key[pos[y]]))),patterns=[pos[y]])))
                if op=='peekkey':
                    e=E.d.S(r,32)
                    o.append(('the returned key is the key of the entry on top',e==key[pos[hid[0]]]))
                    o.append(('no entry is more urgent than the returned key',z3.ForAll([y],z3.Implies(z3.And(0<=y,y<E.N,m.member(s0,y)),z3.Not(m.worse(e,key[pos[y]]))),patterns=[pos[y]])))
                if op in('push','pop','remove','change','pushchange','decrease','increase'):
                    for nm,f in m.inv(E,s1): o.append(('invariant: '+nm,f))
                    if op=='pop': x=hid[0]
                    o.append(('all other entries keep id and key',m.same(E,s0,s1,x)))
                    if op in('pop','remove'):
                        o.append(('size shrinks by one',s1[3]==n-1))
                        o.append(('the entry is gone',z3.Not(m.member(s1,x))))
                        if m.kind!='dyn': o.append(('its handle is cleared',s1[2][x]==m.INV))
                    else:
                        o.append(('the entry is contained with the new key',z3.And(m.member(s1,x),s1[1][s1[2][x]]==k)))
                        if op=='push': o.append(('size grows by one',s1[3]==n+1))
                        elif op=='pushchange': o.append(('size',s1[3]==z3.If(m.member(s0,x),n,n+1)))
                        else: o.append(('size unchanged',s1[3]==n))
                if op=='clear':
                    o.append(('empty afterwards',s1[3]==0))
                    if m.kind!='dyn':
                        o.append(('all handles of the entries are cleared, foreign ones unchanged',z3.ForAll([y],z3.Implies(z3.And(0<=y,y<E.N),s1[2][y]==z3.If(m.member(s0,y),m.INV,pos[y])))))
                if op in('empty','size','contains','key','peekid','peekkey'):
                    for q in (0,1,2): o.append(('queries change nothing',B(s1[q].eq(s0[q]))))
                return o
            out.append(Spec('%s_%s'%(pre,op),setup,post,cands=[cands],loop_mode=nested,of='%s::%s'%(cls,{'peekid':'peek_id','peekkey':'peek_key','change':'change_priority','pushchange':'push_or_change_priority','decrease':'decrease_priority','increase':'increase_priority'}.get(op,op)),contracts={re.compile('_M_realloc_'):realloc},timeout=30,htimeout=5,par=1))
    return out
UNITS=[{'src':'wrap/c02.cc','specs':specs,'noinline':NOINL}]
NATIVE=[{'src':'native/c02.cc','bound':'random operation sequences (push/pop/remove/change/decrease/increase/clear) of up to 400 operations on up to 60 ids against a reference map; keys from narrow and wide ranges','covers':'no function is covered only by this run (except resize/init and the min-max forest, which combine contracted functions)'}]
ASSUMPTIONS=['keys are strictly below the reserved extreme value of the key type (precondition of remove, as asserted in the code)','DynamicBinaryHeap: ids are pairwise distinct without loss of generality (its code never inspects ids)','key type int32 (also exercised with double in the bounded run), id types size_t / uint32']
