from driver import *
ID='C03'
def V(n,w): return z3.BitVec(n,w)
def C(v,w): return z3.BitVecVal(v,w)
def fl2(x,w):
    """spec: floor of the base-2 logarithm (x>0), in w bits"""
    r=C(0,w)
    for k in range(1,w): r=z3.If(z3.UGE(x,C(1<<k,w)),C(k,w),r)
    return r
def cl2(x,w):
    r=C(0,w)
    for k in range(w): r=z3.If(z3.UGT(x,C(1<<k,w)),C(k+1,w),r)
    return r
def ext(e,w,to): return z3.ZeroExt(to-w,e) if to>w else e
def specs(tier):
    out=[]
    def S(fn,args,pre,goals,of,dom='bv',timeout=40):
        def setup(E,st):
            E.a=args(); 
            for c in pre(*E.a): st.add(c)
            if dom=='bv': return [Num(x,0,0) for x in E.a]
            return [Num(x,0,(1<<E.w_)-1) for x in E.a]
        def post(E,st,r): return goals(r.e if isinstance(r,Num) else r,*E.a)
        out.append(Spec(fn,setup,post,dom=dom,of='math::'+of if '::' not in of else of,timeout=timeout))
    for w in (32,64):
        x=lambda w=w:(V('x',w),); xy=lambda w=w:(V('x',w),V('y',w)); n_=lambda:(V('n',32),)
        no=lambda *a:[]; pos=lambda x,w=w:[x!=0]
        S('is_msb_set_%d'%w,x,no,lambda r,x,w=w:[('exactly the values with the top bit',r==(z3.UGE(x,C(1<<(w-1),w))))],'is_msb_set')
        S('abs_diff_%d'%w,xy,no,lambda r,x,y,w=w:[('absolute difference',r==ext(z3.If(z3.UGE(x,y),x-y,y-x),w,64))],'abs_diff')
        def pw(r,x,w=w): return [('true exactly on the powers of two',r==z3.Or([x==C(1<<k,w) for k in range(w)]))]
        S('is_power_of_2_%d'%w,x,no,pw,'is_power_of_2')
        S('floor_log2_%d'%w,x,pos,lambda r,x,w=w:[('floor of the logarithm',r==fl2(x,w)),('2^r <= x',z3.ULE(C(1,w)<<r,x)),('x < 2^(r+1)',z3.LShR(x,r)==1)],'floor_log2')
        S('ceil_log2_%d'%w,x,pos,lambda r,x,w=w:[('ceiling of the logarithm',r==cl2(x,w))],'ceil_log2')
        S('floor2_%d'%w,x,pos,lambda r,x,w=w:[('largest power of two not above x',z3.And(z3.ULE(r,x),z3.UGT(r,z3.LShR(x,1)),r&(r-1)==0))],'floor2')
        S('ceil2_%d'%w,x,lambda x,w=w:[x!=0,z3.ULE(x,C(1<<(w-1),w))],lambda r,x,w=w:[('smallest power of two not below x',z3.And(z3.UGE(r,x),z3.ULE(r-1,(x-1)*2),r&(r-1)==0,r!=0))],'ceil2')
        def bw(r,x,w=w):
            e=C(1,w)
            for k in range(1,w//8): e=z3.If(z3.UGE(x,C(1<<(8*k),w)),C(k+1,w),e)
            return [('number of bytes needed to store x',r==e)]
        S('byte_width_%d'%w,x,no,bw,'byte_width')
        S('create_mask_%d'%w,n_,lambda n,w=w:[n>=0,n<w],lambda r,n,w=w:[('mask of the n lowest bits',z3.And([z3.Extract(k,k,r)==z3.If(n>k,C(1,1),C(0,1)) for k in range(w)]))],'create_mask')
        S('lowest_%d'%w,n_,lambda n,w=w:[n>=0,n<=w],lambda r,n,w=w:[('lowest degree of the bucket',r==z3.If(n==0,C(0,w),C(1,w)<<(ext(n,32,w)-1)))],'kaminpar::lowest_degree_in_bucket')
        S('bucket_%d'%w,x,no,lambda r,x,w=w:[('bucket 0 holds exactly degree 0',(r==0)==(x==0)),('bucket in range',z3.And(r>=0,r<=w)),('degrees of bucket b lie in [2^(b-1), 2^b)',z3.Implies(x!=0,z3.LShR(x,ext(r,32,w)-1)==1))],'kaminpar::degree_bucket')
        # arithmetic with division: mathematical integers
        def SI(fn,names,pre,goals,of,w=w):
            def setup(E,st,pre=pre):
                E.a=[z3.Int(n) for n in names]
                for a in E.a: st.add(z3.And(a>=0,a<(1<<w)))
                for c in pre(*E.a): st.add(c)
                return [Num(a,0,(1<<w)-1) for a in E.a]
            def post(E,st,r): return goals(E.d.U(r,w),*E.a)
            out.append(Spec(fn,setup,post,of='math::'+of,timeout=40))
        SI('div_ceil_%d'%w,['x','y'],lambda x,y:[y>0],lambda r,x,y:[('r*y >= x',r*y>=x),('(r-1)*y < x',z3.Or(z3.And(x==0,r==0),(r-1)*y<x))],'div_ceil')
        SI('mod_ceil_%d'%w,['x','y'],lambda x,y:[y>0],lambda r,x,y:[('between 1 and y',z3.And(r>=1,r<=y)),('congruent to x',r%y==x%y)],'mod_ceil')
        SI('decode_row_%d'%w,['p','c'],lambda p,c:[c>0],lambda r,p,c:[('row*columns <= position < (row+1)*columns',z3.And(r*c<=p,p<(r+1)*c))],'decode_grid_position')
        SI('decode_col_%d'%w,['p','c'],lambda p,c:[c>0],lambda r,p,c:[('column in range',z3.And(r>=0,r<c)),('position = row*columns+column',r==p%c)],'decode_grid_position')
        SI('encode_%d'%w,['r','q','c'],lambda r,q,c,w=w:[q<c,r*c+q<(1<<w)],lambda x,r,q,c:[('row-major position',x==r*c+q)],'encode_grid_position')
        S('abs_%d'%w,x,lambda x,w=w:[x!=C(1<<(w-1),w)],lambda r,x,w=w:[('absolute value',z3.If(x<0,r==z3.SignExt(64-w,-x) if w<64 else r==-x,r==z3.SignExt(64-w,x) if w<64 else r==x))],'abs')
    v32=lambda:(V('v',32),)
    S('split_lo',v32,lambda v:[],lambda r,v:[('the larger half',r==v-z3.LShR(v,1))],'split_integral',timeout=200)
    S('split_hi',v32,lambda v:[],lambda r,v:[('the smaller half',r==z3.LShR(v,1))],'split_integral',timeout=200)
    return out
UNITS=[{'src':'wrap/c03.cc','specs':specs}]
NATIVE=[{'src':'native/c03.cc','bound':'all 32-bit values of the form 2^k+d and ~k, |d|<=3, k<1000, plus random values of every magnitude, in 32 and 64 bits; integer splitting for all values up to 20000','covers':'is_square, percentile and the find_min/max/mean helpers are covered by this bounded run only'}]
ASSUMPTIONS=['logarithms are taken of positive arguments; ceil2 of arguments whose result is representable; abs of arguments whose absolute value is representable']
TRUSTED=[]
LEVEL='proof'
