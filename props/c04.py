from driver import *
ID='C04'
def frm(n,s,r): return r*(n/s)+z3.If(r<n%s,r,n%s)
def specs(tier):
    out=[]
    for w in (32,64):
        M=(1<<w)-1
        def mk(fn,third,pre,goals,of,w=w,M=M):
            def setup(E,st):
                n,s,x=z3.Ints('n size '+third); E.a=(n,s,x)
                st.add(z3.And(n>=0,n<=M,s>=1,s<=M,x>=0,x<=M))
                # definition of quotient and remainder
                E.d.curpath=st.path; q,m=E.d.divmod(n,s); E.q,E.m=q,m
                for c in pre(n,s,x): st.add(c)
                if fn[:4]!='rank':
                    E.lemma(st,'monotone product',z3.And(x*q+q<=s*q,x*q>=0)); E.lemma(st,'distributivity',(x+1)*q==x*q+q)
                return [Num(n,0,M),Num(s,1,M),Num(x,0,M)]
            def post(E,st,r): return goals(E,E.d.U(r,w if fn[:4]!='rank' else 64),*E.a)
            out.append(Spec(fn,setup,post,of='math::'+of,timeout=60))
        F=lambda E,r: r*E.q+z3.If(r<E.m,r,E.m)
        mk('from_%d'%w,'rank',lambda n,s,r:[r<s],lambda E,x,n,s,r:[('start = rank*floor(n/size)+min(rank, n mod size)',x==F(E,r)),('start of the first range is 0',z3.Implies(r==0,x==0)),('inside [0,n]',z3.And(0<=x,x<=n))],'compute_local_range')
        mk('to_%d'%w,'rank',lambda n,s,r:[r<s],lambda E,x,n,s,r:[('end = start of the next range',x==F(E,r+1)),('end of the last range is n',z3.Implies(r==s-1,x==n)),('length floor(n/size) or one more, larger ranges first',x-F(E,r)==E.q+z3.If(r<E.m,1,0))],'compute_local_range')
        mk('rank_%d'%w,'element',lambda n,s,e:[e<n],lambda E,x,n,s,e:[('a valid rank',z3.And(0<=x,x<s)),('the element is not before its range',F(E,x)<=e),('the element is before the next range',e<F(E,x+1))],'compute_local_range_rank')
    def setup(E,st):
        v,N=z3.Ints('value N'); E.v,E.N=v,N
        d=Region('dist',8,[Field(0,8)],length=N,writable=False); E.dd=d; a=E.getarr(st,d,0); E.a0=a
        h=Region('container',None,[Field(0,8,ptr=d),Field(8,8,ptr=d)],size=16,writable=False); st.mem[(h,0)]=Ptr(d,0,0); st.mem[(h,8)]=Ptr(d,N,0)
        i,j=z3.Ints('i j'); st.add(z3.And(N>=2,N<(1<<40),v>=0,v<(1<<63)))
        st.add(z3.ForAll([i],z3.And(a[i]>=0,a[i]<(1<<64))))
        st.add(z3.ForAll([i,j],z3.Implies(z3.And(0<=i,i<=j,j<N),a[i]<=a[j]),patterns=[z3.MultiPattern(a[i],a[j])])); st.add(a[0]==0); st.add(v<a[N-1])
        return [Num(v,0,(1<<63)-1),Ptr(h)]
    def post(E,st,r):
        x=E.d.U(r,64); return [('a valid index',z3.And(0<=x,x<E.N-1)),('the value is not before the range',E.a0[x]<=E.v),('the value is before the next range',E.v<E.a0[x+1])]
    def cands(E,v0):
        o=[]
        ps=[k for k in v0.instrs if isinstance(v0.entry[k],Ptr) and v0.entry[k].reg is E.dd]
        ns=[k for k in v0.instrs if isinstance(v0.entry[k],Num)]
        for k in ps:
            I=lambda v,k=k: z(v.phis[k].idx)
            o.append(('%s within'%k,lambda v,I=I: z3.And(1<=I(v),I(v)<=E.N)))
            o.append(('entry before %s is not above the value'%k,lambda v,I=I: E.a0[I(v)-1]<=E.v))
            for q in ns:
                n=lambda v,q=q: E.d.S(v.phis[q],64)
                o.append(('%s+%s within'%(k,q),lambda v,I=I,n=n: z3.And(n(v)>=0,I(v)+n(v)<=E.N)))
                o.append(('entry at %s+%s is above'%(k,q),lambda v,I=I,n=n: z3.Implies(I(v)+n(v)<E.N,E.a0[I(v)+n(v)]>E.v)))
        return o
    out.append(Spec('find_dist',setup,post,cands=[cands],of='math::find_in_distribution',timeout=60,signed_phis=('s64',)))
    return out
UNITS=[{'src':'wrap/c04.cc','specs':specs}]
NATIVE=[{'src':'native/c04.cc','bound':'all (n,size) with n<=120,size<=40 exhaustively, random 64-bit n and size, parallel loops over up to 20000 elements with 1..8 threads','covers':'parallel::deterministic_for and parallel::chunked_for (run on the real TBB)'}]
ASSUMPTIONS=['a distribution is a nondecreasing array starting at 0','the number of workers is at least 1']
