from graphs import *
ID='C13'
MP=z3.MultiPattern
FIND='_ZNK8kaminpar18FixedSizeSparseMapIjiLm128EE4findEj'; HASH='_ZN8kaminpar18FixedSizeSparseMapIjiLm128EE8murmur64Em'
def i32(x): return z3.If(x>=(1<<31),x-(1<<32),x)
def specs(tier):
    out=[]
    # ---------------------------------------------------------------- SparseMap
    def elems(name,cap):
        return Region(name,8,[Field(0,4,name='key'),Field(4,4,signed=True,name='value')],length=cap)
    class SMap: pass
    def sinv(cap,n,SP,K,pats=True):
        d=I('d'); return A(0<=n,n<=cap,FA([d],Imp(A(0<=d,d<n),A(0<=K[d],K[d]<cap,SP[K[d]]==d)),[K[d]]))
    def setup_s(extra=None,keyin=True,notfull=False):
        def setup(E,st):
            m=E.m=SMap(); cap=m.cap=I('capacity'); n=m.n=I('size'); st.add(A(1<=cap,cap<(1<<31)))
            m.sparse,m.dense=arr('sparse',8,cap),elems('dense',cap); o=m.o=Region('map',None,size=lay(E,'sm')); o.auto=True
            cell(E,o,lay(E,'sm_cap'),8,Num(cap,1,M31)); cell(E,o,lay(E,'sm_size'),8,Num(n,0,M31)); cell(E,o,lay(E,'sm_sparse'),8,Ptr(m.sparse,0,0)); cell(E,o,lay(E,'sm_dense'),8,Ptr(m.dense,0,0))
            m.SP,m.K,m.V=E.getarr(st,m.sparse,0),E.getarr(st,m.dense,0),E.getarr(st,m.dense,4); st.add(sinv(cap,n,m.SP,m.K))
            m.key=I('key'); st.add(A(0<=m.key,m.key<cap)); m.has=A(0<=m.SP[m.key],m.SP[m.key]<n,m.K[m.SP[m.key]]==m.key)
            st.add(Imp(z3.Not(m.has),n<cap))    # counting: an absent key leaves room for one more
            a=[Ptr(o)]
            if keyin: a.append(Num(m.key,0,(1<<32)-1))
            if extra: m.val=I('val'); st.add(A(-(1<<31)<=m.val,m.val<(1<<31))); a.append(Num(m.val,-(1<<31),M31))
            return a
        return setup
    mem=lambda k,n,SP,K: A(0<=SP[k],SP[k]<n,K[SP[k]]==k)
    def after(E,st):
        m=E.m; return z(E.d.U(st.mem.get((m.o,lay(E,'sm_size'))) if (m.o,lay(E,'sm_size')) in st.mem else E.initial_mem[(m.o,lay(E,'sm_size'))],64)),E.getarr(st,m.sparse,0),E.getarr(st,m.dense,0),E.getarr(st,m.dense,4)
    def others(m,n,SP,K,V):
        k=I('k'); return [('other keys are kept, none appears',FA([k],Imp(A(0<=k,k<m.cap,k!=m.key),mem(k,n,SP,K)==mem(k,m.n,m.SP,m.K)),[SP[k]])),
                          ('other values are kept',FA([k],Imp(A(0<=k,k<m.cap,k!=m.key,mem(k,m.n,m.SP,m.K)),V[SP[k]]==m.V[m.SP[k]]),[SP[k]]))]
    def post_add(E,st,r):
        m=E.m; n,SP,K,V=after(E,st)
        return [('map invariant',sinv(m.cap,n,SP,K)),('the key is present',mem(m.key,n,SP,K)),('an existing value is kept, a new one stored',V[SP[m.key]]==z3.If(m.has,m.V[m.SP[m.key]],m.val)),('size',n==m.n+z3.If(m.has,0,1))]+others(m,n,SP,K,V)
    def post_index(E,st,r):
        m=E.m; n,SP,K,V=after(E,st)
        return [('map invariant',sinv(m.cap,n,SP,K)),('the reference is the value of the key',A(B(r.reg is m.dense and r.off==4),idx(r)<n,idx(r)>=0,K[idx(r)]==m.key)),('an existing value is kept, a new one is zero',V[idx(r)]==z3.If(m.has,m.V[m.SP[m.key]],0)),('size',n==m.n+z3.If(m.has,0,1))]+others(m,n,SP,K,V)
    def idx(p): return p.idx if z3.is_expr(p.idx) else z3.IntVal(p.idx)
    def post_rem(E,st,r):
        m=E.m; n,SP,K,V=after(E,st)
        return [('map invariant',sinv(m.cap,n,SP,K)),('the key is gone',z3.Not(mem(m.key,n,SP,K))),('size',n==m.n-z3.If(m.has,1,0))]+others(m,n,SP,K,V)
    S='SparseMap::'
    out.append(Spec('s_contains',setup_s(),lambda E,st,r:[('true exactly when the key is present',B(tobool(r))==E.m.has)],of=S+'contains'))
    out.append(Spec('s_add',setup_s(True),post_add,of=S+'add'))
    out.append(Spec('s_index',setup_s(),post_index,of=S+'operator[]'))
    out.append(Spec('s_remove',setup_s(),post_rem,of=S+'remove'))
    def setup_get(E,st):
        a=setup_s()(E,st); st.add(E.m.has); return a
    out.append(Spec('s_get',setup_get,lambda E,st,r:[('the value of the key',A(B(r.reg is E.m.dense and r.off==4),idx(r)==E.m.SP[E.m.key]))],of=S+'get'))
    out.append(Spec('s_clear',setup_s(keyin=False),lambda E,st,r:[('no entry is left',after(E,st)[0]==0)],of=S+'clear'))
    out.append(Spec('s_size',setup_s(keyin=False),lambda E,st,r:[('number of entries',z(E.d.U(r,64))==E.m.n)],of=S+'size'))
    # ---------------------------------------------------------------- FixedSizeSparseMap: linear probing
    CAP=128
    H=z3.Function('H',z3.IntSort(),z3.IntSort()); hh=lambda k: H(k)%CAP; dist=lambda a,b:(b-a)%CAP
    def hashc(E,st,args,ins):
        E.assumed.add('murmur64 is a function of its argument'); k=z(E.d.U(args[0],64)); h=H(k); st.add(A(0<=h,h<(1<<64))); return Num(h,0,(1<<64)-1)
    def finv(n,ts,EL,TS,K,P):
        d,e,q=I('d'),I('e'),I('q')
        return [A(0<=n,n<=CAP),
          FA([q],Imp(A(0<=q,q<CAP,TS[q]==ts),A(0<=EL[q],EL[q]<n,P(EL[q])==q)),[TS[q]]),
          FA([d],Imp(A(0<=d,d<n),A(0<=P(d),P(d)<CAP,TS[P(d)]==ts,EL[P(d)]==d)),[P(d)]),
          FA([d,q],Imp(A(0<=d,d<n,0<=q,q<CAP,dist(hh(K[d]),q)<dist(hh(K[d]),P(d))),TS[q]==ts),[MP(P(d),TS[q])]),
          FA([d,e],Imp(A(0<=d,d<n,0<=e,e<n,K[d]==K[e]),A(d==e,P(d)==P(e))),[MP(P(d),P(e))])]
    def setup_f(full=False):
        def setup(E,st):
            m=E.m=SMap(); n=m.n=I('size'); ts=m.ts=I('timestamp'); init=m.init=I('initial'); st.add(A(1<=ts,ts<(1<<63),n<CAP,-(1<<31)<=init,init<=M31))
            m.dense=elems('dense',CAP); so,to=lay(E,'se_elem'),lay(E,'se_ts'); m.so,m.to=so,to
            m.sparse=Region('sparse',lay(E,'se'),[Field(so,8,ptr=m.dense,name='element'),Field(to,8,name='timestamp')],length=CAP)
            o=m.o=Region('map',None,size=lay(E,'fm')); o.auto=True
            cell(E,o,lay(E,'fm_cap'),8,Num(z3.IntVal(CAP),CAP,CAP)); cell(E,o,lay(E,'fm_size'),8,Num(n,0,CAP)); cell(E,o,lay(E,'fm_ts'),8,Num(ts,1,(1<<63)-1)); cell(E,o,lay(E,'fm_init'),4,Num(init,-(1<<31),M31),True)
            cell(E,o,lay(E,'fm_sparse'),8,Ptr(m.sparse,0,0)); cell(E,o,lay(E,'fm_dense'),8,Ptr(m.dense,0,0))
            m.EL,m.TS,m.K,m.V=E.getarr(st,m.sparse,so),E.getarr(st,m.sparse,to),E.getarr(st,m.dense,0),E.getarr(st,m.dense,4)
            P=m.P=z3.Function('P',z3.IntSort(),z3.IntSort()); q=I('q')
            for f in finv(n,ts,m.EL,m.TS,m.K,P): st.add(f)
            st.add(FA([q],H(q)>=0,[H(q)]))
            m.key=I('key'); st.add(A(0<=m.key,m.key<(1<<32)))
            return [Ptr(o),Num(m.key,0,(1<<32)-1)]
        return setup
    def absent(m):
        d=I('d'); return FA([d],Imp(A(0<=d,d<m.n),m.K[d]!=m.key),[m.P(d)])
    def found(m,r):
        d,q=I('d'),I('q')
        return [A(0<=r,r<CAP),Imp(m.TS[r]==m.ts,m.K[m.EL[r]]==m.key),Imp(m.TS[r]!=m.ts,A(absent(m),FA([q],Imp(A(0<=q,q<CAP,dist(hh(m.key),q)<dist(hh(m.key),r)),m.TS[q]==m.ts),[m.TS[q]])))]
    def candf(E,v0):
        m=E.m; o=[]; q=I('q')
        for r,ins in v0.instrs.items():
            if not isinstance(v0.entry[r],Num): continue
            u=lambda v,r=r,w=R(ins.ty).w: z(E.d.U(v.phis[r],w))
            o.append(('%s is a slot'%r,lambda v,u=u: A(0<=u(v),u(v)<CAP)))
            o.append(('the slots before %s hold other keys'%r,lambda v,u=u: FA([q],Imp(A(0<=q,q<CAP,dist(hh(m.key),q)<dist(hh(m.key),u(v))),A(m.TS[q]==m.ts,m.K[m.EL[q]]!=m.key)),[m.TS[q]])))
        return o
    def post_find(E,st,r):
        m=E.m; i=idx(r); f=found(m,i); return [('a slot is returned',A(B(r.reg is m.sparse and r.off==0),f[0])),('an occupied slot holds the key',f[1]),('a free slot means that the key is absent, and it is the first free slot after its hash',f[2])]
    F='FixedSizeSparseMap::'
    out.append(Spec(FIND,setup_f(),post_find,cands=[candf],contracts={HASH:hashc},title='f_find',of=F+'find'))
    def findc(E,st,args,ins):
        m=E.m; r=I(fresh_name('slot')); st.ghost[('slot',)]=r
        E.oblige(st,'call: find is called for the key on this map',A(B(args[0].reg is m.o),z(E.d.U(args[1],32))==m.key),ins)
        if (m.sparse,m.so) in st.mem or (m.dense,0) in st.mem:
            for nm,f in zip('nope',[]): pass
            if not (E.getarr(st,m.sparse,m.to).eq(m.TS) and E.getarr(st,m.dense,0).eq(m.K)): raise Unsupported('find after a modification')
        for f in found(m,r): st.add(f)
        # what the invariant says about this slot
        st.add(Imp(m.TS[r]==m.ts,A(0<=m.EL[r],m.EL[r]<m.n,m.P(m.EL[r])==r)))
        return Ptr(m.sparse,r,0)
    CF={FIND:findc}
    def setup_pres(E,st):
        a=setup_f()(E,st); m=E.m; m.e=I('present'); st.add(A(0<=m.e,m.e<m.n,m.K[m.e]==m.key,m.P(m.e)>=0)); return a
    def post_cont(E,st,r):
        m=E.m; d=I('d'); return [('false means absent',Imp(z3.Not(B(tobool(r))),absent(m))),('true means present',Imp(B(tobool(r)),z3.Exists([d],A(0<=d,d<m.n,m.K[d]==m.key))))]
    out.append(Spec('f_contains',setup_f(),post_cont,contracts=CF,of=F+'contains'))
    out.append(Spec('f_get',setup_pres,lambda E,st,r:[('the value stored for the key',A(B(r.reg is E.m.dense and r.off==4),idx(r)==E.m.e))],contracts=CF,of=F+'get'))
    def post_fi(E,st,r):
        m=E.m; s=st.ghost[('slot',)]; nn=st.mem.get((m.o,lay(E,'fm_size'))) or E.initial_mem[(m.o,lay(E,'fm_size'))]; n=z(E.d.U(nn,64))
        EL,TS,K,V=E.getarr(st,m.sparse,m.so),E.getarr(st,m.sparse,m.to),E.getarr(st,m.dense,0),E.getarr(st,m.dense,4); e=idx(r); d=I('d')
        new=m.TS[s]!=m.ts; P2=lambda x: z3.If(x<m.n,m.P(x),s)
        P3=z3.Function(fresh_name('P'),z3.IntSort(),z3.IntSort()); st.add(FA([d],P3(d)==z3.If(d<m.n,m.P(d),s),[P3(d)])); st.add(P3(m.n)==s); st.add(FA([d],P3(d)==z3.If(d<m.n,m.P(d),s),[m.P(d)]))
        o=[('the reference belongs to the key',A(B(r.reg is m.dense and r.off==4),0<=e,e<n,K[e]==m.key)),
           ('an existing entry is kept, otherwise one is added with the initial value',z3.If(new,A(absent(m),n==m.n+1,V[e]==m.init),A(n==m.n,V[e]==m.V[e],e==m.EL[s]))),
           ('other entries are kept',FA([d],Imp(A(0<=d,d<m.n),A(K[d]==m.K[d],V[d]==m.V[d])),[m.P(d)]))]
        names=['size','occupied slots point to entries','every entry has a slot','probe sequences have no holes','keys are distinct']
        return o+[('map invariant: '+a,f) for a,f in zip(names,finv(n,m.ts,EL,TS,K,P3))]
    out.append(Spec('f_index',setup_f(),post_fi,contracts=CF,of=F+'operator[]'))
    def setup_fc(E,st):
        a=setup_f()(E,st); q=I('q'); st.add(FA([q],Imp(A(0<=q,q<CAP),A(0<=E.m.TS[q],E.m.TS[q]<=E.m.ts)),[E.m.TS[q]])); return a[:1]
    def post_fc(E,st,r):
        m=E.m; q=I('q'); n=z(E.d.U(st.mem[(m.o,lay(E,'fm_size'))],64)); ts=z(E.d.U(st.mem[(m.o,lay(E,'fm_ts'))],64)); return [('empty',n==0),('no slot is occupied',FA([q],Imp(A(0<=q,q<CAP),E.getarr(st,m.sparse,m.to)[q]!=ts),[m.TS[q]])),('timestamps stay bounded',FA([q],Imp(A(0<=q,q<CAP),E.getarr(st,m.sparse,m.to)[q]<=ts),[m.TS[q]]))]
    out.append(Spec('f_clear',setup_fc,post_fc,of=F+'clear'))
    return out
UNITS=[{'src':'wrap/c13.cc','specs':specs,'defs':['-fno-access-control'],'noinline':['FixedSizeSparseMapI.*8murmur64','FixedSizeSparseMapI.*4findE']}]
NATIVE=[{'src':'native/c13.cc','srcs':COMMON_SRCS,'san':True,'sanopts':['-fno-sanitize=vptr'],'bound':'12 (thorough: 120) random histories of every map against std::map, with colliding keys, full tables, reuse after clear and resize; every reachable state of compact hash maps with 2 to 8 cells and up to 8 (thorough: 16) keys','covers':'DynamicFlatMap, DynamicRememberingFlatMap, RatingMap, FastResetArray, ConcurrentFastResetArray and CompactHashMap are covered by this run only'}]
ASSUMPTIONS=['a sparse map is resized only while it is empty, and a key is smaller than its capacity','a linear probing map holds fewer entries than it has slots (callers pass an upper bound to the rating map)','values stored in a FastResetArray stay non-zero until it is cleared; values in a CompactHashMap are positive and fit its value bits','fewer than 2^63 (DynamicRememberingFlatMap with 32-bit timestamps: 2^32) calls of clear','capacity below 2^31 in the SparseMap proofs']
TRUSTED=['murmur64 is a pure function (its value is left open)','std::swap of two map elements is inlined and analysed']
