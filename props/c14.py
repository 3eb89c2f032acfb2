from graphs import *
ID='C14'
class Obj: pass
def specs(tier):
    out=[]; K=lambda x: z3.BitVecVal(x,64)
    # ---------------------------------------------------------------- markers, bit vectors of 64 bits
    def marker(pre,N):
        mask=K((1<<N)-1)
        def marked(d,ident,j,q): return A((d[j]&~mask)==ident,((z3.LShR(d[j],q)&1)==1))
        def setup(kind):
            def setup(E,st):
                m=E.m=Obj(); n=m.n=z3.BitVec('n',64); ident=m.id=z3.BitVec('timestamp',64); st.add(A(z3.ULE(n,K(1<<40)),ident&mask==0,z3.ULE(ident,K((1<<64)-16*(1<<N)))))
                m.data=Region('data',8,[Field(0,8)],length=n); o=m.o=Region('marker',None,size=lay(E,pre)); o.auto=True
                if pre=='ms': sa(E,st,o,lay(E,'ms_data'),m.data,None) if False else None
                od=lay(E,pre+'_data')
                if pre=='ms':
                    cell(E,o,od+lay(E,'sa_size'),8,Num(n,0,0)); cell(E,o,od+lay(E,'sa_usize'),8,Num(n,0,0)); cell(E,o,od+lay(E,'sa_data'),8,Ptr(m.data,K(0),0))
                else:
                    cell(E,o,od,8,Ptr(m.data,K(0),0)); cell(E,o,od+8,8,Ptr(m.data,n,0)); cell(E,o,od+16,8,Ptr(m.data,n,0))
                cell(E,o,lay(E,pre+'_id'),8,Num(ident,0,0))
                for q in range(N): cell(E,o,lay(E,pre+'_first')+8*q,8,Num(z3.BitVec('first%d'%q,64),0,0))
                m.D=E.getarr(st,m.data,0); m.j=z3.BitVec('j',64); m.q=z3.BitVec('q',64); st.add(A(z3.ULT(m.j,n),z3.ULT(m.q,K(N))))
                # timestamps in the table are from the past, for the element and for an arbitrary other element
                a=[Ptr(o)]; past=lambda i: st.add(z3.ULE(m.D[i]&~mask,ident)); past(m.j)
                if kind in('set','get'):
                    m.e=z3.BitVec('e',64); m.k=z3.BitVec('k',64); st.add(A(z3.ULT(m.e,n),z3.ULT(m.k,K(N)))); past(m.e); a+=[Num(m.e,0,0),Num(m.k,0,0)]
                return a
            return setup
        def cur(E,st):
            m=E.m; c=(m.o,lay(E,pre+'_id')); return E.getarr(st,m.data,0),(st.mem[c] if c in st.mem else E.initial_mem[c]).e
        def post_set(E,st,r):
            m=E.m; D,i=cur(E,st)
            return [('the element is marked',marked(D,i,m.e,m.k)),('other marks and elements are unchanged',marked(D,i,m.j,m.q)==z3.Or(marked(m.D,m.id,m.j,m.q),A(m.j==m.e,m.q==m.k))),('timestamps are from the past',z3.ULE(D[m.j]&~mask,i)),('timestamp has no mark bits',i&mask==0),('the timestamp is unchanged',i==m.id)]
        def post_get(E,st,r): m=E.m; return [('true exactly when marked since the last reset',tobool(r)==marked(m.D,m.id,m.e,m.k))]
        def post_reset(E,st,r):
            m=E.m; D,i=cur(E,st); return [('nothing is marked',z3.Not(marked(D,i,m.j,m.q))),('timestamps are from the past',z3.ULE(D[m.j]&~mask,i)),('timestamp has no mark bits',i&mask==0),('the first unmarked element is the first element',A(*[st.mem[(m.o,lay(E,pre+'_first')+8*q)].e==0 for q in range(N)]))]
        M='Marker<%d>::'%N if pre!='ms' else 'Marker<1, size_t, StaticArray>::'
        out.append(Spec(pre+'_set',setup('set'),post_set,dom='bv',of=M+'set')); out.append(Spec(pre+'_get',setup('get'),post_get,dom='bv',of=M+'get'))
        out.append(Spec(pre+'_reset',setup('reset'),post_reset,dom='bv',loop_mode=lambda E,h:6,of=M+'reset'))
    marker('m1',1); marker('m3',3); marker('ms',1)
    # ---------------------------------------------------------------- queue
    def qsetup(pre=None,arg=False):
        def setup(E,st):
            m=E.m=Obj(); n,h,t=m.n,m.h,m.t=I('n'),I('head'),I('tail'); st.add(A(0<=h,h<=t,t<=n,n<(1<<40)))
            m.data=arr('data',4,n); o=m.o=Region('queue',None,size=lay(E,'q')); o.auto=True; od=lay(E,'q_data')
            cell(E,o,od,8,Ptr(m.data,0,0)); cell(E,o,od+8,8,Ptr(m.data,n,0)); cell(E,o,od+16,8,Ptr(m.data,n,0)); cell(E,o,lay(E,'q_head'),8,Num(h,0,1<<40)); cell(E,o,lay(E,'q_tail'),8,Num(t,0,1<<40))
            m.D=E.getarr(st,m.data,0); a=[Ptr(o)]
            if pre is not None: st.add(pre(m))
            if arg: m.x=I('x'); st.add(A(0<=m.x,m.x<(1<<32))); a.append(Num(m.x,0,(1<<32)-1))
            return a
        return setup
    def qstate(E,st):
        m=E.m; g=lambda f: (lambda c: z(E.d.U(st.mem[c] if c in st.mem else E.initial_mem[c],64)))((m.o,lay(E,f))); return g('q_head'),g('q_tail'),E.getarr(st,m.data,0)
    # the contents as a sequence: entry i of the queue is data[head+i]
    def same(E,D,h0,h1,lo,n): i=I('i'); return FA([i],Imp(A(lo<=i,i<n),D[h1+i]==E.m.D[h0+i]),[D[h1+i]])
    def keep(E,st,a,b): # the entries at positions [a,b) of the table are untouched
        i=I('i'); D=qstate(E,st)[2]; return FA([i],Imp(A(a<=i,i<b),D[i]==E.m.D[i]),[D[i]])
    Qn='Queue::'
    out.append(Spec('q_empty',qsetup(),lambda E,st,r:[('true exactly when it has no entry',B(tobool(r))==(E.m.h==E.m.t))],of=Qn+'empty'))
    out.append(Spec('q_size',qsetup(),lambda E,st,r:[('number of entries',z(E.d.U(r,64))==E.m.t-E.m.h)],of=Qn+'size'))
    out.append(Spec('q_headv',qsetup(lambda m:m.h<m.t),lambda E,st,r:[('the oldest entry',z(E.d.U(r,32))==E.m.D[E.m.h])],of=Qn+'head'))
    out.append(Spec('q_tailv',qsetup(lambda m:m.h<m.t),lambda E,st,r:[('the newest entry',z(E.d.U(r,32))==E.m.D[E.m.t-1])],of=Qn+'tail'))
    def qat(E,st):
        a=qsetup()(E,st); m=E.m; m.i=I('pos'); st.add(A(0<=m.i,m.i<m.t-m.h)); return a+[Num(m.i,0,1<<40)]
    out.append(Spec('q_at',qat,lambda E,st,r:[('the entry at this position',z(E.d.U(r,32))==E.m.D[E.m.h+E.m.i])],of=Qn+'operator[]'))
    def pq(fn,pre,arg,post,of): out.append(Spec(fn,qsetup(pre,arg),post,of=Qn+of))
    pq('q_pushtail',lambda m:m.t<m.n,True,lambda E,st,r:[('one more entry at the tail',A(qstate(E,st)[0]==E.m.h,qstate(E,st)[1]==E.m.t+1)),('the entry is stored',qstate(E,st)[2][E.m.t]==E.m.x),('other entries are kept',keep(E,st,E.m.h,E.m.t))],'push_tail')
    pq('q_pushhead',lambda m:0<m.h,True,lambda E,st,r:[('one more entry at the head',A(qstate(E,st)[0]==E.m.h-1,qstate(E,st)[1]==E.m.t)),('the entry is stored',qstate(E,st)[2][E.m.h-1]==E.m.x),('other entries are kept',keep(E,st,E.m.h,E.m.t))],'push_head')
    pq('q_poptail',lambda m:m.h<m.t,False,lambda E,st,r:[('one entry less at the tail',A(qstate(E,st)[0]==E.m.h,qstate(E,st)[1]==E.m.t-1)),('entries are kept',keep(E,st,E.m.h,E.m.t-1))],'pop_tail')
    pq('q_pophead',lambda m:m.h<m.t,False,lambda E,st,r:[('one entry less at the head',A(qstate(E,st)[0]==E.m.h+1,qstate(E,st)[1]==E.m.t)),('entries are kept',keep(E,st,E.m.h+1,E.m.t))],'pop_head')
    pq('q_clear',None,False,lambda E,st,r:[('empty',A(qstate(E,st)[0]==0,qstate(E,st)[1]==0))],'clear')
    # ---------------------------------------------------------------- StaticArray
    EQ=z3.Function('MEMEQ',z3.IntSort(),z3.BoolSort())
    def two(E,st):
        m=E.m=Obj(); a=[]; m.n=[]; m.r=[]
        for q in (0,1):
            n=I('n%d'%q); st.add(A(0<=n,n<(1<<40))); r=arr('data%d'%q,4,n); o=Region('array%d'%q,None,size=lay(E,'sa')); o.auto=True; sa(E,st,o,0,r,n); a.append(Ptr(o)); m.n.append(n); m.r.append(r)
        return a
    def memcmpc(E,st,args,ins):
        m=E.m; p,q,n=args; nb=z(E.d.U(n,64)); E.assumed.add('memcmp returns 0 exactly when the bytes agree')
        idx=lambda p: z(p.idx) if z3.is_expr(p.idx) else z3.IntVal(p.idx)
        for x,w in ((p,0),(q,1)):
            if not isinstance(x,Ptr) or x.reg not in m.r: raise Unsupported('memcmp of something else')
            E.oblige(st,'call: memcmp stays inside of the array',A(0<=nb,idx(x)*4+nb<=4*m.n[m.r.index(x.reg)]),ins)
        r=I(fresh_name('memcmp')); i=I('i'); a,b=E.getarr(st,p.reg,0),E.getarr(st,q.reg,0); E.m.called=True
        c=nb/4; E.m.cmp=(c,r); st.add(A(-(1<<31)<=r,r<(1<<31)))
        # whole elements only: with nb = 4c the bytes agree exactly when the first c elements agree; with another count nothing is promised beyond the first c
        st.add(Imp(r==0,FA([i],Imp(A(0<=i,i<c),a[i]==b[i]),[a[i]]))); w=I(fresh_name('w')); st.add(Imp(A(r!=0,nb%4==0),A(0<=w,w<c,a[w]!=b[w]))); return Num(r,-(1<<31),M31)
    def post_eq(E,st,r):
        m=E.m; i=I('i'); a,b=E.getarr(st,m.r[0],0),E.getarr(st,m.r[1],0); return [('true exactly when size and all elements agree',B(tobool(r))==A(m.n[0]==m.n[1],FA([i],Imp(A(0<=i,i<m.n[0]),a[i]==b[i]),[a[i]])))]
    out.append(Spec('sa_eq',two,post_eq,contracts={'memcmp':memcmpc,'bcmp':memcmpc},of='StaticArray::operator=='))
    def one(more):
        def setup(E,st):
            m=E.m=Obj(); n=m.n=I('n'); st.add(A(0<=n,n<(1<<40))); r=arr('data',4,n); o=m.o=Region('array',None,size=lay(E,'sa')); o.auto=True; sa(E,st,o,0,r,n); m.u=I('unrestricted'); cell(E,o,lay(E,'sa_usize'),8,Num(m.u,0,(1<<40)))
            st.add(A(0<=m.u,m.u<(1<<40))); m.k=I('k'); st.add(A(0<=m.k,m.k<=n)); return [Ptr(o)]+([Num(m.k,0,1<<40)] if more else [])
        return setup
    gs=lambda E,st,f: (lambda c: z(E.d.U(st.mem[c] if c in st.mem else E.initial_mem[c],64)))((E.m.o,lay(E,f)))
    out.append(Spec('sa_restrict',one(True),lambda E,st,r:[('the size is restricted and the former size remembered',A(gs(E,st,'sa_size')==E.m.k,gs(E,st,'sa_usize')==E.m.n))],of='StaticArray::restrict'))
    out.append(Spec('sa_unrestrict',one(False),lambda E,st,r:[('the former size is back',gs(E,st,'sa_size')==E.m.u)],of='StaticArray::unrestrict'))
    # ---------------------------------------------------------------- CompactStaticArray, every byte width
    for pre,W in (('ca',4),('cb',8)):
        for bw in range(1,W+1):
            def setup(kind,pre=pre,W=W,bw=bw):
                def f(E,st):
                    E.bytelocals='%?val'
                    m=E.m=Obj(); m.bw,m.W=bw,W; n=m.n=z3.BitVec('n',64); st.add(z3.ULE(n,K(1<<40))); m.data=Region('values',1,[Field(0,1)],length=n*bw+(W-bw)); o=Region('compact',None,size=lay(E,pre)); o.auto=True
                    cell(E,o,lay(E,pre+'_bw'),8,Num(K(bw),0,0)); cell(E,o,lay(E,pre+'_n'),8,Num(n,0,0)); cell(E,o,lay(E,pre+'_vals'),8,Ptr(m.data,K(0),0))
                    m.D=E.getarr(st,m.data,0); m.i=z3.BitVec('i',64); m.j=z3.BitVec('j',64); m.v=z3.BitVec('v',8*W); st.add(A(z3.ULT(m.i,n),z3.ULT(m.j,n)))
                    if bw<W: st.add(z3.ULT(m.v,z3.BitVecVal(1<<(8*bw),8*W)))
                    if kind=='write': # lemma: cells of different entries do not overlap
                        for a,b in ((m.i,m.j),(m.j,m.i)):
                            g=Imp(z3.ULT(a,b),A(z3.ULE(a*bw+bw,b*bw),z3.ULE(b*bw+bw,n*bw))); E.oblige(st.copy(),'lemma: the cells of different entries are disjoint',g,None); st.add(g)
                    return [Ptr(o)]+([Num(m.i,0,0)] if kind!='ptr' else [])+([Num(m.v,0,0)] if kind=='write' else [])
                return f
            def val(D,i,bw=bw,W=W):
                x=z3.Concat(*[D[i*bw+b] for b in reversed(range(bw))]) if bw>1 else D[i*bw]; return z3.ZeroExt(8*(W-bw),x) if bw<W else x
            def pw(E,st,r,val=val):
                m=E.m; D=E.getarr(st,m.data,0); return [('the value is stored',val(D,m.i)==m.v),('other entries are unchanged',Imp(m.j!=m.i,val(D,m.j)==val(m.D,m.j)))]
            T='CompactStaticArray<%s>, %d bytes::'%('u32' if W==4 else 'u64',bw)
            out.append(Spec(pre+'_write',setup('write'),pw,dom='bv',loop_mode=lambda E,h:10,title='%s_write_%d'%(pre,bw),of=T+'write'))
            out.append(Spec(pre+'_read',setup('read'),lambda E,st,r,val=val:[('the stored value is returned',r.e==val(E.m.D,E.m.i))],dom='bv',title='%s_read_%d'%(pre,bw),of=T+'operator[]'))
            if pre=='ca':
                out.append(Spec('ca_iter',setup('read'),lambda E,st,r,val=val:[('the iterator yields the stored value',r.e==val(E.m.D,E.m.i))],dom='bv',title='ca_iter_%d'%bw,of=T+'iterator'))
                out.append(Spec('ca_end',setup('ptr'),lambda E,st,r:[('begin() and end() are size() entries apart',B(tobool(r)))],dom='bv',title='ca_end_%d'%bw,of=T+'end'))
                for op in ('inc','dec'): out.append(Spec('ca_post'+op,setup('ptr'),lambda E,st,r:[('the iterator moves by one entry and its former position is returned',B(tobool(r)))],dom='bv',title='ca_post%s_%d'%(op,bw),of=T+'iterator::operator'+('++' if op=='inc' else '--')))
    return out
UNITS=[{'src':'wrap/c14.cc','specs':specs,'defs':['-fno-access-control']}]
NATIVE=[{'src':'native/c14.cc','srcs':COMMON_SRCS,'san':True,'sanopts':['-fno-sanitize=vptr,shift'],'bound':'250 (thorough: 4000) rounds of random histories, 1 to 8 threads, every container against its definition','covers':'RankCombinedBitVector, MaxSizeVector, the concurrent circular vectors, the navigable lists, the tracking of the first unmarked element and the parallel operations of StaticArray are covered by this run only'}]
ASSUMPTIONS=['at most 2^40 elements','fewer than 2^64/2^(N+4) resets of a marker','rank queries only below the length','a concurrent circular vector is used by as many threads as it was constructed for, each entry by the thread that drew it','a value fits the byte width of its compact array']
TRUSTED=['memcmp returns 0 exactly when the bytes agree','std::vector operations are inlined and analysed']
