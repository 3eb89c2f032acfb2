from graphs import *
ID='C07'
MIN=-(1<<31)
def specs(tier):
    out=[]; TB={'kvc_chunk':kvc_chunk,'kvc_slot':kvc_slot}
    S=z3.Function('S',z3.IntSort(),z3.IntSort())
    def inp(E,st,kind,size=4,signed=True,name='a'):
        n=I('n'); st.add(A(0<=n,n<(1<<31))); r=arr(name,size,n,signed=signed); E.n=n; E.r=r; E.a=E.getarr(st,r,0); E.base=0
        if kind=='container':
            o=Region('container',None,size=lay(E,'sa')); o.auto=True; sa(E,st,o,0,r,n); return [Ptr(o)]
        return [Ptr(r,0,0),Ptr(r,n,0)]
    def sums(E,st,hi=M31,f=lambda x:x,nonneg=False):
        i,j=I('i'),I('j'); st.add(S(0)==0)
        st.add(ForAll([i],Imp(A(0<=i,i<E.n),S(i+1)==S(i)+f(E.a[i])),patterns=[E.a[i]]))
        st.add(ForAll([i,j],Imp(A(0<=i,i<=j,j<=E.n),A((0 if nonneg else -hi)<=S(j)-S(i),S(j)-S(i)<=hi)),patterns=[z3.MultiPattern(S(i),S(j))]))
    def num(E,v,r,w,sg): return z(E.d.S(v.phis[r],w)) if sg else z(E.d.U(v.phis[r],w))
    def cands(w,sg):
        def c(E,v0):
            o=[]; ph=[(r,R(i.ty).w) for r,i in v0.instrs.items() if isinstance(v0.entry[r],Num)]
            for r,rw in ph:
                if rw!=64: continue
                u=lambda v,r=r: num(E,v,r,64,False); e0=num_entry(E,v0,r)
                o.append(('%s at most n'%r,lambda v,u=u: u(v)<=E.n)); o.append(('%s does not go back'%r,lambda v,u=u,e0=e0: u(v)>=e0))
                for q,qw in ph:
                    if q==r or qw!=w: continue
                    a=lambda v,q=q: num(E,v,q,w,sg)
                    o.append(('%s sums up everything before %s'%(q,r),lambda v,u=u,a=a: a(v)==S(u(v))))
                    o.append(('%s sums up the chunk before %s'%(q,r),lambda v,u=u,a=a,e0=e0: a(v)==S(u(v))-S(e0)))
            return o
        return c
    def num_entry(E,v0,r): return z(E.d.U(v0.entry[r],64))
    for fn,kind,of in (('acc_container','container','parallel::accumulate(container)'),('acc_iter','iter','parallel::accumulate(iterators)')):
        def setup(E,st,kind=kind):
            p=inp(E,st,kind); x=I('init'); st.add(A(MIN<=x,x<=M31)); sums(E,st); st.add(A(MIN<=x+S(E.n),x+S(E.n)<=M31)); return p+[Num(x,MIN,M31)]
        out.append(Spec(fn,setup,lambda E,st,r:[('initial value plus all elements',z(E.d.S(r,32))==I('init')+S(E.n))],cands=[cands(32,True),chunkcands],contracts=TB,of=of,signed_phis=('s32',)))
    def setup(E,st):
        p=inp(E,st,'iter'); x=I('init'); st.add(A(-(1<<60)<=x,x<=(1<<60))); sums(E,st,1<<61,lambda x:2*x); return p+[Num(x,-(1<<60),1<<60)]
    def c64(E,v0):
        o=[]; ph=[r for r,i in v0.instrs.items() if isinstance(v0.entry[r],Num) and R(i.ty).w==64]
        for r in ph:
            u=lambda v,r=r: num(E,v,r,64,False); e0=num_entry(E,v0,r)
            o.append(('%s at most n'%r,lambda v,u=u: u(v)<=E.n)); o.append(('%s does not go back'%r,lambda v,u=u,e0=e0: u(v)>=e0))
            for q in ph:
                if q==r: continue
                a=lambda v,q=q: num(E,v,q,64,True)
                o.append(('%s sums up everything before %s'%(q,r),lambda v,u=u,a=a: a(v)==S(u(v)))); o.append(('%s sums up the chunk before %s'%(q,r),lambda v,u=u,a=a,e0=e0: a(v)==S(u(v))-S(e0)))
        return o
    out.append(Spec('acc_op',setup,lambda E,st,r:[('initial value plus the operation applied to all elements',z(E.d.S(r,64))==I('init')+S(E.n))],cands=[c64,chunkcands],contracts=TB,of='parallel::accumulate(iterators, op)',signed_phis=('s64',)))
    # maxima
    def mcands(val,w=32,sg=True,mn=MIN):
        def c(E,v0):
            o=[]; j=I('j'); ph=[(r,R(i.ty).w) for r,i in v0.instrs.items() if isinstance(v0.entry[r],Num)]
            for r,rw in ph:
                if rw!=64: continue
                u=lambda v,r=r: num(E,v,r,64,False); e0=num_entry(E,v0,r)
                o.append(('%s at most n'%r,lambda v,u=u: u(v)<=E.cnt)); o.append(('%s does not go back'%r,lambda v,u=u,e0=e0: u(v)>=e0))
                for q,qw in ph:
                    if q==r or qw!=w: continue
                    a=lambda v,q=q: num(E,v,q,w,sg)
                    for lo,t in ((0,'everything'),(e0,'the chunk')):
                        o.append(('%s bounds %s before %s'%(q,t,r),lambda v,u=u,a=a,lo=lo: FA([j],Imp(A(lo<=j,j<u(v)),val(E,j)<=a(v)),[E.a[j]])))
                        o.append(('%s is attained in %s before %s'%(q,t,r),lambda v,u=u,a=a,lo=lo: z3.Or(a(v)==mn,z3.Exists([j],A(lo<=j,j<u(v),val(E,j)==a(v))))))
            return o
        return c
    def mpost(val,w=32,sg=True,mn=MIN):
        def p(E,st,r):
            j=I('j'); x=z(E.d.S(r,w)) if sg else z(E.d.U(r,w))
            return [('bounds every value',FA([j],Imp(A(0<=j,j<E.cnt),val(E,j)<=x),[E.a[j]])),('is one of the values (or the least value)',z3.Or(x==mn,z3.Exists([j],A(0<=j,j<E.cnt,val(E,j)==x))))]
        return p
    el=lambda E,j: E.a[j]
    for fn,kind,of in (('max_container','container','parallel::max_element(container)'),('max_iter','iter','parallel::max_element(iterators)')):
        def setup(E,st,kind=kind):
            p=inp(E,st,kind); E.cnt=E.n; return p
        out.append(Spec(fn,setup,mpost(el),cands=[mcands(el),chunkcands],contracts=TB,of=of,signed_phis=('s32',)))
    def setup(E,st):
        p=inp(E,st,'iter',signed=False); E.cnt=z3.If(E.n>0,E.n-1,z3.IntVal(0)); i=I('i')
        st.add(ForAll([i],Imp(A(0<=i,i+1<E.n),E.a[i]<=E.a[i+1]),patterns=[E.a[i]])); return p
    df=lambda E,j: E.a[j+1]-E.a[j]
    out.append(Spec('maxdiff_iter',setup,mpost(df,sg=False,mn=0),cands=[mcands(df,sg=False,mn=0),chunkcands],contracts=TB,of='parallel::max_difference'))
    # prefix sums
    for fn,inplace in (('scan_inplace',True),('scan_out',False)):
        def setup(E,st,inplace=inplace):
            p=inp(E,st,'iter',signed=False); sums(E,st,(1<<32)-1,nonneg=True); E.o=E.r
            if inplace: return p+[p[0]]
            E.o=arr('out',4,E.n); E.o.writable=True; return p+[Ptr(E.o,0,0)]
        def cs(E,v0):
            o=[]; j=I('j')
            for r,i in v0.instrs.items():
                if isinstance(v0.entry[r],Num) and R(i.ty).w==64:
                    u=lambda v,r=r: num(E,v,r,64,False)
                    o.append(('sums are in place before %s'%r,lambda v,u=u: FA([j],Imp(A(0<=j,j<u(v)),v.arr(E.o)[j]==S(j+1)),[v.arr(E.o)[j]])))
                    o.append(('the rest is untouched from %s on'%r,lambda v,u=u: FA([j],Imp(A(u(v)<=j,j<E.n),v.arr(E.r)[j]==E.a[j]),[v.arr(E.r)[j]])))
            return o
        def post(E,st,r):
            j=I('j'); o=[('element i of the output is the sum of the inputs 0..i',FA([j],Imp(A(0<=j,j<E.n),a0(E,st,E.o)[j]==S(j+1)),[a0(E,st,E.o)[j]]))]
            if E.o is not E.r: o.append(('the input is unchanged',a0(E,st,E.r)==E.a))
            return o
        def setup2(E,st,f=setup,inplace=inplace):
            p=f(E,st); return p[:2] if inplace else p
        out.append(Spec(fn,setup2,post,cands=[cands(32,False),cs,chunkcands],contracts=TB,of='parallel::prefix_sum'+(' (in place)' if inplace else '')))
    # atomics, sequential meaning of every operator (each is a single atomic instruction)
    def at(fn,new,ret,args=1,of=None):
        def setup(E,st):
            o=Region('atomic',None,size=4); o.auto=True; E.o=o; x=I('v'); st.add(A(-(1<<30)<=x,x<(1<<30))); cell(E,o,0,4,Num(x,-(1<<30),1<<30),True)
            y=I('x'); st.add(A(-(1<<30)<=y,y<(1<<30))); a=[Ptr(o)]
            if args==2: a.append(Num(y,-(1<<30),1<<30))
            if args==3:
                b=Region('other',None,size=4); b.auto=True; E.b=b; cell(E,b,0,4,Num(y,-(1<<30),1<<30),True); a.append(Ptr(b))
            return a
        def post(E,st,r):
            v,x=I('v'),I('x'); cur=E.load(st,Ptr(E.o,0,0),IntTy(32),None); o=[('the value becomes what the operator says',z(E.d.S(cur,32))==new(v,x))]
            if ret: o.append(('the result is what the operator says',z(E.d.S(r,32))==ret(v,x)))
            return o
        out.append(Spec('at_'+fn,setup,post,of='Atomic::'+(of or fn)))
    at('preinc',lambda v,x:v+1,lambda v,x:v+1,of='operator++()'); at('postinc',lambda v,x:v+1,lambda v,x:v,of='operator++(int)'); at('predec',lambda v,x:v-1,lambda v,x:v-1,of='operator--()'); at('postdec',lambda v,x:v-1,lambda v,x:v,of='operator--(int)')
    at('add',lambda v,x:v+x,lambda v,x:v+x,2,'operator+='); at('sub',lambda v,x:v-x,lambda v,x:v-x,2,'operator-='); at('fadd',lambda v,x:v+x,lambda v,x:v,2,'fetch_add'); at('fsub',lambda v,x:v-x,lambda v,x:v,2,'fetch_sub')
    at('exchange',lambda v,x:x,lambda v,x:v,2,'exchange'); at('load',lambda v,x:v,lambda v,x:v,1,'load'); at('read',lambda v,x:v,lambda v,x:v,1,'operator T'); at('store',lambda v,x:x,None,2,'store'); at('assign',lambda v,x:x,None,2,'operator=(T)'); at('copy',lambda v,x:x,None,3,'operator=(Atomic)')
    # compare and exchange
    def setup(E,st):
        o,b=Region('atomic',None,size=4),Region('expected',None,size=4); o.auto=b.auto=True; E.o,E.b=o,b
        for n in('v','e','x'): st.add(A(MIN<=I(n),I(n)<=M31))
        cell(E,o,0,4,Num(I('v'),MIN,M31),True); cell(E,b,0,4,Num(I('e'),MIN,M31),True); return [Ptr(o),Ptr(b),Num(I('x'),MIN,M31)]
    def post(E,st,r):
        v,e,x=I('v'),I('e'),I('x'); r=B(tobool(r)); cur=z(E.d.S(E.load(st,Ptr(E.o,0,0),IntTy(32),None),32)); ex=z(E.d.S(E.load(st,Ptr(E.b,0,0),IntTy(32),None),32))
        return [('succeeds exactly when the value is the expected one',r==(v==e)),('the value is replaced on success only',cur==z3.If(v==e,x,v)),('the expected value becomes the value seen',ex==v)]
    out.append(Spec('at_cas',setup,post,of='Atomic::compare_exchange_strong'))
    # aligned prefix sum of one chunk: every element but the first starts at an aligned position behind the previous one
    F=z3.Function('F',z3.IntSort(),z3.IntSort()); AL=lambda x: x+(8-x%8)%8
    def setup(E,st):
        n=I('n'); st.add(A(0<=n,n<(1<<31))); E.n=n; E.r=arr('out',8,n); E.r.writable=True; v=arr('val',8,n); E.a=E.getarr(st,v,0); E.o0=E.getarr(st,E.r,0); i=I('i')
        st.add(F(0)==0); st.add(F(1)==E.a[0])
        st.add(ForAll([i],Imp(A(0<i,i<n),F(i+1)==AL(F(i))+E.a[i]),patterns=[E.a[i]])); st.add(ForAll([i],Imp(A(0<=i,i<=n),A(0<=F(i),F(i)<=(1<<60))),patterns=[F(i)])); return [Ptr(E.r,0,0),Ptr(E.r,n,0),Ptr(v,0,0)]
    def ac(E,v0):
        o=[]; j=I('j')
        for r,i in v0.instrs.items():
            if isinstance(v0.entry[r],Num) and R(i.ty).w==64:
                u=lambda v,r=r: num(E,v,r,64,False); o.append(('%s below the size'%r,lambda v,u=u: u(v)<=E.n-1))
                o.append(('positions before %s are final'%r,lambda v,u=u: FA([j],Imp(A(0<j,j<u(v)),v.arr(E.r)[j]==AL(F(j))),[v.arr(E.r)[j]])))
                o.append(('position %s is the end of the previous element'%r,lambda v,u=u: Imp(u(v)>0,v.arr(E.r)[u(v)]==F(u(v))))); o.append(('the first position is not written before %s'%r,lambda v,u=u: v.arr(E.r)[0]==E.o0[0]))
        return o
    def post(E,st,r):
        j=I('j'); x=a0(E,st,E.r); return [('every element starts at the next aligned position behind the previous one',FA([j],Imp(A(0<j,j<E.n),x[j]==AL(F(j))),[x[j]])),('the result is the start of the last element',z(E.d.U(r,64))==z3.If(E.n>1,AL(F(E.n-1)),z3.IntVal(0))),('the first position is not written',x[0]==E.o0[0])]
    out.append(Spec('aligned_seq',setup,post,cands=[ac],of='parallel::aligned_prefix_sum_seq (alignment 8)'))
    return out
UNITS=[{'src':'wrap/c07.cc','specs':specs,'defs':XTBB}]
NATIVE=[{'src':'native/c07.cc','srcs':['kaminpar-common/heap_profiler.cc'],'opt':'-O2','bound':'700 (thorough: 4000) inputs of up to 400000 elements, 1 to 8 threads, 32/64-bit signed and unsigned values of all magnitudes; 20 contended runs of 8 threads on the atomics','covers':'the real algorithms on TBB, aligned_prefix_sum in parallel'}]
ASSUMPTIONS=['all sums of ranges of the input are representable in the value type (no overflow)','max_difference: non-decreasing input','alignment 8 in the proof of aligned_prefix_sum_seq; other alignments bounded']
TRUSTED=['oneTBB parallel_reduce and parallel_scan call bodies as documented: disjoint chunks in order, splits, joins of neighbours (extraction-only stand-in stub/xtbb)']
