import re
from driver import *
ID='C05'
V=lambda n: z3.BitVec(n,32)
C=lambda v: z3.BitVecVal(v,32)
def rev32(b): return z3.Concat([z3.Extract(i,i,b) for i in range(32)])
def F(L,b,k):
    """spec: number of final blocks below block b of level L (2^L blocks) of a tree with k leaves, L>=1"""
    base=z3.LShR(k,L); plus=k&((C(1)<<L)-1)
    return z3.If(L==0,k,base+z3.If(z3.ULT(z3.LShR(rev32(b),32-L),plus),C(1),C(0)))
S=z3.Function('S',z3.BitVecSort(32),z3.BitVecSort(32),z3.BitVecSort(32))
def Sdef(L,b,k):
    """definition of the first final block below (L,b): S(0,0)=0, left child starts with its parent, right child after the left one"""
    return z3.And(S(C(0),C(0))==0,z3.Implies(z3.And(L!=0),S(L,b)==S(L-1,z3.LShR(b,1))+z3.If(z3.Extract(0,0,b)==1,F(L,b&~C(1),k),C(0))))
def specs(tier):
    out=[]
    def pre(E,st,root=True):
        b,k,L=V('block'),V('k'),V('level'); ck=C(1)<<L; E.a=(b,k,L,ck)
        st.add(z3.ULE(L,C(30))); st.add(z3.ULT(b,ck)); st.add(z3.ULE(k,C(1<<31))); st.add(z3.ULT(ck,k))
        c=V('current_k'); st.add(c==ck); E.c=c
        return b,k,L,ck,c
    def setup(E,st):
        b,k,L,ck,c=pre(E,st); return [Num(b,0,0),Num(c,0,0),Num(k,0,0)]
    def post(E,st,r):
        b,k,L,ck=E.a; x=r.e
        n=lambda e: e
        o=[('number of final blocks of the binary tree',x==F(L,b,k)),('at least one final block',x!=0),('floor(k/2^level) or one more',z3.Or(x==z3.LShR(k,L),x==z3.LShR(k,L)+1))]
        # the level below splits every block into the two halves (lemma, all levels)
        o.append(('lemma: left child gets the larger half',z3.Implies(z3.ULE(L,C(29)),F(L+1,2*b,k)==x-z3.LShR(x,1))))
        o.append(('lemma: right child gets the smaller half',z3.Implies(z3.ULE(L,C(29)),F(L+1,2*b+1,k)==z3.LShR(x,1))))
        return o
    out.append(Spec('final_k',setup,post,dom='bv',of='partitioning::compute_final_k',timeout=120))
    def setup(E,st):
        b,k=V('block'),V('k'); st.add(z3.ULT(b,k)); E.k=k; return [Num(b,0,0),Num(k,0,0),Num(k,0,0)]
    out.append(Spec('final_k',setup,lambda E,st,r:[('a final block stands for itself',r.e==1)],dom='bv',of='partitioning::compute_final_k',title='final_k (fully split)'))
    # lemma: consecutive blocks tile [0,k)  -- induction over the level, all induction steps as obligations
    def postT(E,st,r):
        b,k,L,ck=E.a; o=[]
        A=z3.And
        f=lambda l,p: F(l,p,k)
        hyp=A(z3.ULE(L,C(29)),z3.ULT(2*b+1,C(1)<<(L+1)),z3.ULT(C(1)<<(L+1),k))
        d=A(Sdef(L+1,2*b,k),Sdef(L+1,2*b+1,k),Sdef(L+1,2*b+2,k))
        halves=A(f(L+1,2*b)==f(L,b)-z3.LShR(f(L,b),1),f(L+1,2*b+1)==z3.LShR(f(L,b),1))
        o.append(('lemma: halves',z3.Implies(hyp,halves)))
        o.append(('lemma: siblings are adjacent',z3.Implies(A(hyp,d),S(L+1,2*b)+f(L+1,2*b)==S(L+1,2*b+1))))
        o.append(('lemma: cousins are adjacent (induction step)',z3.Implies(A(hyp,d,halves,z3.ULT(b+1,ck),S(L,b)+f(L,b)==S(L,b+1)),S(L+1,2*b+1)+f(L+1,2*b+1)==S(L+1,2*b+2))))
        o.append(('lemma: the last block ends at k (induction step)',z3.Implies(A(hyp,d,halves,b+1==ck,S(L,b)+f(L,b)==k),S(L+1,2*b+1)+f(L+1,2*b+1)==k)))
        o.append(('lemma: base case',z3.Implies(A(L==0,S(C(0),C(0))==0),A(S(L,b)==0,S(L,b)+f(L,b)==k))))
        return o
    out.append(Spec('final_k',lambda E,st:[Num(x,0,0) for x in (lambda t:(t[0],t[4],t[1]))(pre(E,st))],postT,dom='bv',of='block numbering lemmas',title='tiling lemmas',timeout=120))
    def split(E,st,args,ins):
        v=args[0].e; E.assumed.add('split_integral by its contract (proved in this run)')
        return Num(z3.Concat(z3.LShR(v,1),v-z3.LShR(v,1)),0,0)
    def setup1(E,st):
        st.add(S(C(0),C(0))==0)
        b,k,L,ck,c=pre(E,st); return [Num(b,0,0),Num(c,0,0),Num(k,0,0)]
    def cands(E,v0):
        b,k,L,ck=E.a; o=[]
        nm=[r for r,ins in v0.instrs.items() if isinstance(v0.entry[r],Num) and R(ins.ty).w==32]
        for w in nm:
            wv=lambda v,w=w: v.phis[w].e
            o.append(('%s is a power of two, at most twice the number of blocks'%w,lambda v,wv=wv: z3.And(wv(v)!=0,wv(v)&(wv(v)-1)==0,z3.ULE(wv(v),2*ck))))
            for x in nm:
                if x==w: continue
                xv=lambda v,x=x: v.phis[x].e
                o.append(('%s is the bit of the next level of %s'%(x,w),lambda v,wv=wv,xv=xv: xv(v)==z3.LShR(z3.LShR(ck,1),lg(wv(v)))))
                # i = lg(width) levels done; cap at L
                def lev(v,wv=wv): return z3.If(z3.UGT(wv(v),ck),L,lg(wv(v)))
                o.append(('%s is the number of final blocks below the block of level lg(%s)'%(x,w),lambda v,wv=wv,xv=xv: z3.Implies(z3.ULE(wv(v),ck),xv(v)==F(lg(wv(v)),z3.LShR(b,L-lg(wv(v))),k))))
                o.append(('%s is the first final block below the block of level lg(%s)'%(x,w),lambda v,xv=xv,lev=lev: xv(v)==S(lev(v),z3.LShR(b,L-lev(v)))))
        return o
    def hook(E):
        def defs(E_,v):
            # the definition of S at the level the iteration is about to reach
            b,k,L,ck=E.a; o=[S(C(0),C(0))==0]
            for r,p in v.phis.items():
                if isinstance(p,Num) and p.e.size()==32:
                    i=lg(p.e); o.append(z3.Implies(z3.ULT(i,L),Sdef(i+1,z3.LShR(b,L-i-1),k)))
                    q=z3.LShR(b,L-i); f=F(i,q,k)
                    o.append(z3.Implies(z3.ULT(i,L),z3.And(F(i+1,2*q,k)==f-z3.LShR(f,1),F(i+1,2*q+1,k)==z3.LShR(f,1))))  # 'tiling lemmas' (halves)
            return o
        E.loop_defs=defs
    def post1(E,st,r):
        b,k,L,ck=E.a
        return [('first final block below the block',z3.Implies(S(C(0),C(0))==0,r.e==S(L,b)))]
    def finv(E,st):
        b,k,L,ck,c=pre(E,st); return [Num(b,0,0),Num(c,0,0),Num(k,0,0)]
    SUB=z3.Function('sub',*[z3.BitVecSort(32)]*4); FIN=z3.Function('fin',*[z3.BitVecSort(32)]*4)
    def ctr(fn):
        def h(E,st,args,ins):
            E.assumed.add('callee by its contract (proved in this run)'); return Num(fn(*[a.e for a in args]),0,0)
        return h
    def postv(E,st,r):
        b,k,L,ck=E.a
        return [('one past the last final block',r.e==SUB(b,E.c,k)+FIN(b,E.c,k))]
    out.append(Spec('first_invalid',finv,postv,dom='bv',of='partitioning::compute_first_invalid_sub_block',contracts={re.compile('compute_first_sub_block'):ctr(SUB),re.compile('compute_final_k'):ctr(FIN)}))
    out.append(Spec('first_sub',setup1,post1,dom='bv',of='partitioning::compute_first_sub_block',timeout=120,htimeout=30,cands=[cands],contracts={re.compile('split_integral'):split},hook=hook))
    def setupn(E,st):
        n,Cl,k=V('n'),V('contraction_limit'),V('k'); E.a=(n,Cl,k)
        st.add(Cl!=0); st.add(z3.ULE(Cl,C(1<<30))); st.add(z3.ULE(C(2),k)); st.add(z3.ULE(k,C(1<<31))); st.add(z3.ULE(z3.UDiv(n,Cl),C(1<<30)))
        return [Num(n,0,0),Ptr(Region('ctx',None)),Num(Cl,0,0),Num(k,0,0)]
    def postn(E,st,r):
        n,Cl,k=E.a; x=r.e; q=z3.UDiv(n,Cl); lo=z3.If(z3.ULT(q,C(2)),C(2),q)
        return [('between 2 and k',z3.And(z3.UGE(x,C(2)),z3.ULE(x,k))),('k or a power of two',z3.Or(x==k,x&(x-1)==0)),('enough blocks for the contraction limit',z3.Or(x==k,z3.UGE(x,lo))),('no more than twice the blocks needed',z3.ULE(z3.LShR(x-1,1),lo-1) if 0 else z3.Implies(x!=C(2),z3.ULT(z3.LShR(x,1),lo))) ]
    out.append(Spec('k_for_n',setupn,postn,dom='bv',of='partitioning::compute_k_for_n',timeout=200))
    def setupk(E,st):
        c,k=V('cur'),V('k'); E.a=(c,k); st.add(z3.ULE(c,k)); st.add(z3.ULE(k,C((1<<31)-1))); return [Num(c,0,0),Ptr(Region('ctx',None)),Num(k,0,0)]
    out.append(Spec('next_k',setupk,lambda E,st,r:[('twice the blocks, at most k',r.e==z3.If(z3.ULT(E.a[1]-E.a[0],E.a[0]),E.a[1],2*E.a[0]))],dom='bv',of='partitioning::compute_next_k'))
    def setupv(E,st): E.v=V('v'); return [Num(E.v,0,0)]
    out.append(Spec('split_lo',setupv,lambda E,st,r:[('the larger half',r.e==E.v-z3.LShR(E.v,1))],dom='bv',of='math::split_integral',timeout=200))
    out.append(Spec('split_hi',setupv,lambda E,st,r:[('the smaller half',r.e==z3.LShR(E.v,1))],dom='bv',of='math::split_integral',timeout=200))
    return out
def lg(w):
    r=C(0)
    for i in range(1,32): r=z3.If(w==C(1<<i),C(i),r)
    return r
UNITS=[{'src':'wrap/c05.cc','specs':lambda t:[x for x in specs(t) if not x.fn.startswith('split') and x.fn!='first_invalid'],'noinline':['split_integral']},
       {'src':'wrap/c05.cc','specs':lambda t:[x for x in specs(t) if x.fn=='first_invalid'],'noinline':['compute_first_sub_block','compute_final_k']},
       {'src':'wrap/c05.cc','specs':lambda t:[x for x in specs(t) if x.fn.startswith('split')]}]
NATIVE=[{'src':'native/c05.cc','bound':'every k up to 1200 (thorough: 5000) and 300 random k up to 2^20, every level of the tree, every block: sizes, offsets, children, tiling; k_for_n, next_k, supergraph and copies helpers on grids of n and k','covers':'the real partition_utils.cc'}]
