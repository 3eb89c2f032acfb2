"""Value domains: how an iN register is encoded in SMT.

IntDom : an iN value is a mathematical integer congruent to the register modulo 2^N together with a
         known interval.  Additions etc. are exact over Z; whenever an operation observes the unsigned
         or signed reading of the register, the reading is normalised (ite / mod) unless the interval
         already proves it canonical.  No machine arithmetic is idealised away.
BVDom  : an iN value is an SMT bit vector of N bits.
"""
import z3

class Num:
    __slots__=('e','lo','hi','fac','tz')
    def __init__(s,e,lo,hi,fac=None,tz=0):
        s.e=e; s.lo=lo; s.hi=hi; s.fac=fac; s.tz=tz
    def __repr__(s): return 'Num(%s,[%s,%s])'%(s.e,s.lo,s.hi)
    def const(s): return isinstance(s.e,int)

def isc(e): return isinstance(e,int) and not isinstance(e,bool)
def B(c):
    """python bool or z3 Bool -> z3 Bool"""
    return z3.BoolVal(c) if isinstance(c,bool) else c
def And(*a):
    r=[]
    for x in a:
        if isinstance(x,(list,tuple)): x=And(*x)
        if x is False: return False
        if x is True: continue
        r.append(x)
    if not r: return True
    if len(r)==1: return r[0]
    return z3.And(*r)
def Or(*a):
    r=[]
    for x in a:
        if isinstance(x,(list,tuple)): x=Or(*x)
        if x is True: return True
        if x is False: continue
        r.append(x)
    if not r: return False
    if len(r)==1: return r[0]
    return z3.Or(*r)
def Not(a):
    if isinstance(a,bool): return not a
    return z3.Not(a)
def Implies(a,b):
    return Or(Not(a),b)
def Ite(c,a,b):
    if c is True: return a
    if c is False: return b
    if isinstance(a,bool) or isinstance(b,bool) or z3.is_bool(a):
        return z3.If(c,B(a),B(b))
    if isc(a) and isc(b):
        if a==b: return a
        return z3.If(c,z3.IntVal(a),z3.IntVal(b))
    return z3.If(c,a,b)
def Eq(a,b):
    if isinstance(a,bool) and isinstance(b,bool): return a==b
    if isinstance(a,bool): return b if a else Not(b)
    if isinstance(b,bool): return a if b else Not(a)
    if isc(a) and isc(b): return a==b
    if not isc(a) and not isc(b) and a.eq(b): return True
    return a==b

_n=[0]
def fresh_name(p):
    _n[0]+=1
    return '%s!%d'%(p,_n[0])

class IntDom:
    name='int'
    mulfn=None   # abstraction of products of two variables (a contract may supply one, with proved facts)
    curpath=None
    def divmod(s,a,b):
        """quotient and remainder of non-negative a by positive b, by their defining equation"""
        if not hasattr(s,'divs'): s.divs={}
        k=(a.get_id(),b.get_id())
        if k not in s.divs:
            q=z3.Int(fresh_name('quot')); m=z3.Int(fresh_name('rem')); s.divs[k]=(q,m,a,b)
        q,m,_,_=s.divs[k]
        f=z3.And(a==q*b+m,0<=m,m<b,0<=q)
        s.curpath.append(f)
        return q,m
    idxsort=None
    def const(s,w,v): return Num(int(v),int(v),int(v),tz=64 if v==0 else ((v&-v).bit_length()-1))
    def wrapI(s,e,lo,hi): return Num(e,lo,hi)
    def fresh(s,w,name,signed=False,facts=None):
        if w==1: return z3.Bool(fresh_name(name))
        e=z3.Int(fresh_name(name))
        lo,hi=s.rng(w,signed)
        if facts is not None: facts.append(z3.And(e>=lo,e<=hi))
        return Num(e,lo,hi)
    @staticmethod
    def rng(w,signed):
        return (-(1<<(w-1)),(1<<(w-1))-1) if signed else (0,(1<<w)-1)
    def U(s,x,w):
        M=1<<w
        if isc(x.e): return x.e%M
        if x.lo>=0 and x.hi<M: return x.e
        if x.lo>=-M and x.hi<M: return z3.If(x.e<0,x.e+M,x.e)
        if x.lo>=0 and x.hi<2*M: return z3.If(x.e>=M,x.e-M,x.e)
        if x.lo>=-M and x.hi<2*M: return z3.If(x.e<0,x.e+M,z3.If(x.e>=M,x.e-M,x.e))
        return x.e%M
    def S(s,x,w):
        M=1<<w; H=M>>1
        if isc(x.e):
            v=x.e%M
            return v-M if v>=H else v
        if x.lo>=-H and x.hi<H: return x.e
        if x.lo>=0 and x.hi<M: return z3.If(x.e>=H,x.e-M,x.e)
        if x.lo>=-M and x.hi<M: # one wrap on either side
            return z3.If(x.e>=H,x.e-M,z3.If(x.e<-H,x.e+M,x.e))
        u=s.U(x,w)
        return z3.If(u>=H,u-M,u)
    def Un(s,x,w):
        e=s.U(x,w)
        if isc(e): return s.const(w,e)
        if e is x.e: return x
        return Num(e,0,(1<<w)-1)
    def Sn(s,x,w):
        e=s.S(x,w)
        if isc(e): return Num(e,e,e)
        if e is x.e: return x
        return Num(e,-(1<<(w-1)),(1<<(w-1))-1)
    def norm(s,x,w):
        M=1<<w
        if isc(x.e): return x
        if x.lo<-4*M or x.hi>4*M: return Num(s.U(x,w),0,M-1)
        return x
    def binop(s,op,w,a,b,fl,ob):
        if w==1:
            return s.boolop(op,a,b)
        M=1<<w
        if op in('add','sub','mul'):
            if 'nsw' in fl:
                a=s.Sn(a,w); b=s.Sn(b,w)
            elif 'nuw' in fl:
                a=s.Un(a,w); b=s.Un(b,w)
            fac=None
            if op=='add':
                lo,hi=a.lo+b.lo,a.hi+b.hi
                e=a.e+b.e if not(isc(b.e) and b.e==0) else a.e
                if isc(a.e) and a.e==0: e=b.e
                tz=min(a.tz,b.tz)
                # a large unsigned constant is a subtraction: keep intervals tight
                if not 'nuw' in fl and isc(b.e) and b.e>=M>>1: e=a.e+(b.e-M); lo,hi=a.lo+b.e-M,a.hi+b.e-M
            elif op=='sub':
                lo,hi=a.lo-b.hi,a.hi-b.lo; e=a.e-b.e if not(isc(b.e) and b.e==0) else a.e
                tz=min(a.tz,b.tz)
            else:
                if isc(b.e) and b.e>=M>>1 and 'nuw' not in fl: b=s.const(w,b.e-M)
                c=[a.lo*b.lo,a.lo*b.hi,a.hi*b.lo,a.hi*b.hi]; lo,hi=min(c),max(c)
                e=(a.e*b.e if s.mulfn is None or isc(a.e) or isc(b.e) else s.mulfn(a.e,b.e)) if not(isc(b.e) and b.e==1) else a.e
                tz=min(64,a.tz+b.tz)
                if isc(b.e): fac=(b.e,a.e)
                elif isc(a.e): fac=(a.e,b.e)
            if isc(e):
                r=Num(e,e,e,tz=tz)
            else: r=Num(e,lo,hi,fac,tz)
            H=M>>1
            if 'nsw' in fl and (r.lo<-H or r.hi>=H):
                ob('no signed overflow in '+op, And(B(e>=-H) if not isc(e) else e>=-H, B(e<H) if not isc(e) else e<H))
                r.lo=max(r.lo,-H); r.hi=min(r.hi,H-1)
            if 'nuw' in fl and 'nsw' not in fl and (r.lo<0 or r.hi>=M):
                ob('no unsigned overflow in '+op, And(e>=0,e<M))
                r.lo=max(r.lo,0); r.hi=min(r.hi,M-1)
            return s.norm(r,w)
        if op in('udiv','urem'):
            ae,be=s.U(a,w),s.U(b,w)
            ua,ub=s.Un(a,w),s.Un(b,w)
            if not isc(be): ob('division by zero',be!=0)
            elif be==0: ob('division by zero',False); be=1
            if not isc(be) and not isc(ae) and s.curpath is not None:
                q,m=s.divmod(ae,be)
                return Num(q,ua.lo//max(1,ub.hi),ua.hi//max(1,ub.lo)) if op=='udiv' else Num(m,0,min(ua.hi,max(0,ub.hi-1)))
            if op=='udiv':
                if isc(ae) and isc(be): return s.const(w,ae//be)
                if isc(be) and be==1: return ua
                return Num(z3.simplify(z3.IntVal(ae)/be) if isc(ae) else ae/be, ua.lo//max(1,ub.hi),ua.hi//max(1,ub.lo))
            if isc(ae) and isc(be): return s.const(w,ae%be)
            return Num((z3.IntVal(ae) if isc(ae) else ae)%be,0,min(ua.hi,max(0,ub.hi-1)))
        if op in('sdiv','srem'):
            sa,sb=s.Sn(a,w),s.Sn(b,w)
            if op=='sdiv' and isc(sb.e) and a.fac and a.fac[0]==sb.e and a.lo>=-(M>>1) and a.hi<M>>1:
                t=a.fac[1]
                if isc(t): return s.const(w,t)
                return Num(t,-(abs(a.lo)//abs(sb.e)) if a.lo<0 else 0,a.hi//abs(sb.e) if sb.e>0 else abs(a.lo))
            if not isc(sb.e): ob('division by zero',sb.e!=0)
            elif sb.e==0: ob('division by zero',False); return s.fresh(w,'div0',True)
            if isc(sa.e) and isc(sb.e):
                q=abs(sa.e)//abs(sb.e); q=q if (sa.e<0)==(sb.e<0) else -q
                return s.const(w,q if op=='sdiv' else sa.e-q*sb.e)
            x=z3.IntVal(sa.e) if isc(sa.e) else sa.e; y=z3.IntVal(sb.e) if isc(sb.e) else sb.e
            H=M>>1
            if sa.lo==-H and sb.lo<=-1<=sb.hi: ob('signed division overflow',Or(x!=-H,y!=-1))
            if 'exact' in fl and isc(sb.e) and sb.e>0:
                q=x/y
            elif sa.lo>=0 and sb.lo>=0: q=x/y
            else:
                ax=z3.If(x<0,-x,x); ay=z3.If(y<0,-y,y)
                q=z3.If((x<0)==(y<0),ax/ay,-(ax/ay))
            mx=max(abs(sa.lo),abs(sa.hi))
            if op=='sdiv': return Num(q,-mx if (sa.lo<0 or sb.lo<0) else 0,mx)
            return Num(x-q*y,-mx if sa.lo<0 else 0,mx)
        if op=='shl':
            k=s.U(b,w)
            if isc(k):
                if k>=w: ob('shift amount in range',False); return s.fresh(w,'shl')
                return s.binop('mul',w,a,s.const(w,1<<k),fl,ob)
            ob('shift amount in range',k<w)
            p=s.pow2(k,w)
            return s.norm(Num(s.U(a,w)*p,0,(M-1)*(M-1)),w)
        if op=='lshr':
            k=s.U(b,w); u=s.Un(a,w)
            if isc(k):
                if k>=w: ob('shift amount in range',False); return s.fresh(w,'shr')
                if isc(u.e): return s.const(w,u.e>>k)
                if u.fac and u.fac[0]==(1<<k): return Num(u.fac[1],u.lo>>k,u.hi>>k)
                return Num(u.e/(1<<k),u.lo>>k,u.hi>>k)
            ob('shift amount in range',k<w)
            return Num((z3.IntVal(u.e) if isc(u.e) else u.e)/s.pow2(k,w),0,u.hi)
        if op=='ashr':
            k=s.U(b,w); u=s.Sn(a,w)
            if isc(k):
                if k>=w: ob('shift amount in range',False); return s.fresh(w,'shr')
                if isc(u.e): return s.const(w,u.e>>k)
                if u.fac and u.fac[0]==(1<<k) : return Num(u.fac[1],u.lo>>k,u.hi>>k)
                return Num(u.e/(1<<k),u.lo>>k,u.hi>>k)
            raise_uns('ashr by variable in int mode')
        if op in('and','or','xor'):
            if not isc(a.e) and isinstance(a.lo,int) and a.lo==a.hi: a=Num(a.lo,a.lo,a.hi)
            if not isc(b.e) and isinstance(b.lo,int) and b.lo==b.hi: b=Num(b.lo,b.lo,b.hi)
            if isc(a.e) and isc(b.e):
                x,y=a.e%M,b.e%M
                return s.const(w,{'and':x&y,'or':x|y,'xor':x^y}[op])
            if isc(a.e): a,b=b,a
            if isc(b.e):
                m=b.e%M
                if op=='and':
                    if m==M-1: return a
                    if m==0: return s.const(w,0)
                    if (m&(m+1))==0:
                        u=s.Un(a,w)
                        if u.hi<=m: return u
                        return Num(u.e%(m+1),0,m)
                    inv=M-1-m
                    if (inv&(inv+1))==0:
                        u=s.Un(a,w)
                        return Num(u.e-u.e%(inv+1),0,u.hi)
                    if (m&(m-1))==0: # single bit
                        u=s.Un(a,w); k=m.bit_length()-1
                        return Num((u.e/m)%2*m,0,m)
                if op=='or' and m==0: return a
                if op=='xor':
                    if m==M-1: return Num(-1-a.e,-1-a.hi,-1-a.lo)
                    if m==0: return a
            if op=='or':
                ua,ub=s.Un(a,w),s.Un(b,w)
                if 'disjoint' in fl: return s.norm(Num(ua.e+ub.e,ua.lo+ub.lo,ua.hi+ub.hi),w)
                if ua.hi<(1<<ub.tz): return Num(ua.e+ub.e,ua.lo+ub.lo,ua.hi+ub.hi)
                if ub.hi<(1<<ua.tz): return Num(ua.e+ub.e,ua.lo+ub.lo,ua.hi+ub.hi)
            x=z3.Int2BV(z(s.U(a,w)),w); y=z3.Int2BV(z(s.U(b,w)),w)
            r={'and':x&y,'or':x|y,'xor':x^y}[op]
            return Num(z3.BV2Int(r),0,M-1)
        raise_uns('binop '+op)
    def pow2(s,k,w):
        r=z3.IntVal(1<<(w-1))
        for i in range(w-2,-1,-1): r=z3.If(k==i,z3.IntVal(1<<i),r)
        return r
    def boolop(s,op,a,b):
        a=tobool(a); b=tobool(b)
        if op=='and' or op=='mul': return And(a,b)
        if op=='or': return Or(a,b)
        if op in('xor','add','sub'):
            if isinstance(b,bool): return Not(a) if b else a
            if isinstance(a,bool): return Not(b) if a else b
            return z3.Xor(a,b)
        raise_uns('bool '+op)
    def icmp(s,pred,w,a,b):
        if w==1:
            a=tobool(a); b=tobool(b)
            if pred=='eq': return Eq(a,b)
            if pred=='ne': return Not(Eq(a,b))
            if pred=='ult': return And(Not(a),b)
            if pred=='ugt': return And(a,Not(b))
            if pred=='ule': return Or(Not(a),b)
            if pred=='uge': return Or(a,Not(b))
            raise_uns('icmp i1 '+pred)
        M=1<<w
        if pred in('eq','ne'):
            lo,hi=min(a.lo,b.lo),max(a.hi,b.hi)
            if hi-lo<M: x,y=a.e,b.e
            else:
                H=M>>1
                inS=lambda v: v.lo>=-H and v.hi<H
                if inS(a) or inS(b) and not (a.lo>=0 or b.lo>=0): x,y=s.S(a,w),s.S(b,w)
                else: x,y=s.U(a,w),s.U(b,w)
            r=Eq(x,y)
            if r not in(True,False) and (a.hi<b.lo or b.hi<a.lo) and hi-lo<M: r=False
            return r if pred=='eq' else Not(r)
        if pred[0]=='u': x,y=s.U(a,w),s.U(b,w); A,Bn=s.Un(a,w),s.Un(b,w)
        else: x,y=s.S(a,w),s.S(b,w); A,Bn=s.Sn(a,w),s.Sn(b,w)
        o=pred[1:]
        if o=='lt':
            if A.hi<Bn.lo: return True
            if A.lo>=Bn.hi: return False
            return x<y
        if o=='le':
            if A.hi<=Bn.lo: return True
            if A.lo>Bn.hi: return False
            return x<=y
        if o=='gt':
            if A.lo>Bn.hi: return True
            if A.hi<=Bn.lo: return False
            return x>y
        if o=='ge':
            if A.lo>=Bn.hi: return True
            if A.hi<Bn.lo: return False
            return x>=y
    def cast(s,op,w1,w2,a,nneg=False):
        if op=='zext':
            if w1==1:
                if isinstance(a,bool): return s.const(w2,int(a))
                return Num(z3.If(a,z3.IntVal(1),z3.IntVal(0)),0,1)
            return s.Un(a,w1)
        if op=='sext':
            if w1==1:
                if isinstance(a,bool): return s.const(w2,-int(a))
                return Num(z3.If(a,z3.IntVal(-1),z3.IntVal(0)),-1,0)
            return s.Sn(a,w1)
        if op=='trunc':
            if w2==1:
                u=s.U(a,w1)
                return u%2==1
            return s.norm(Num(a.e,a.lo,a.hi,a.fac,min(a.tz,w2)),w2)
    def ite(s,c,a,b,w):
        if w==1: return Ite(c,tobool(a),tobool(b))
        if c is True: return a
        if c is False: return b
        return Num(Ite(c,a.e,b.e),min(a.lo,b.lo),max(a.hi,b.hi),tz=min(a.tz,b.tz))
    # pointer index helpers: indices are mathematical integers
    def idx(s,x,w): 
        return s.S(x,w)
    def iadd(s,a,b): 
        if isc(a) and a==0: return b
        if isc(b) and b==0: return a
        return a+b
    def isub(s,a,b):
        if isc(b) and b==0: return a
        if not isc(a) and not isc(b) and a.eq(b): return 0
        r=a-b
        if not isc(r):
            r=z3.simplify(r)
            if z3.is_int_value(r): r=r.as_long()
        return r
    def imulc(s,a,c): return a*c if c!=1 else a
    def ile(s,a,b): return a<=b
    def ilt(s,a,b): return a<b
    def imod0(s,a,c): # divisible by c and quotient
        return (a%c==0), (a//c if isc(a) else a/c)
    def index_sort(s): return z3.IntSort()
    def elem_sort(s,w): return z3.IntSort()
    def I(s,x): return z3.IntVal(x) if isc(x) else x
    def to_elem(s,v,w,signed): 
        e=s.S(v,w) if signed else s.U(v,w)
        return z3.IntVal(e) if isc(e) else e
    def from_elem(s,e,w,signed,facts):
        lo,hi=s.rng(w,signed)
        if z3.is_int_value(e): return s.const(w,e.as_long())
        if facts is not None: facts.append(z3.And(e>=lo,e<=hi))
        return Num(e,lo,hi)
    def idxnum(s,e,w=64):
        if isc(e): return s.const(w,e)
        return Num(e,-(1<<62),1<<62)

class BVDom:
    name='bv'
    def const(s,w,v): return Num(z3.BitVecVal(int(v),w),0,0)
    def fresh(s,w,name,signed=False,facts=None):
        if w==1: return z3.Bool(fresh_name(name))
        return Num(z3.BitVec(fresh_name(name),w),0,0)
    def U(s,x,w): return x.e
    def S(s,x,w): return x.e
    def binop(s,op,w,a,b,fl,ob):
        if w==1: return IntDom.boolop(s,op,a,b)
        x,y=a.e,b.e
        if op=='add':
            if 'nsw' in fl: ob('no signed overflow in add',z3.And(z3.BVAddNoOverflow(x,y,True),z3.BVAddNoUnderflow(x,y)))
            return Num(z3.simplify(x+y),0,0)
        if op=='sub':
            if 'nsw' in fl: ob('no signed overflow in sub',z3.And(z3.BVSubNoOverflow(x,y),z3.BVSubNoUnderflow(x,y,True)))
            return Num(z3.simplify(x-y),0,0)
        if op=='mul':
            if 'nsw' in fl: ob('no signed overflow in mul',z3.And(z3.BVMulNoOverflow(x,y,True),z3.BVMulNoUnderflow(x,y)))
            return Num(z3.simplify(x*y),0,0)
        if op in('udiv','urem','sdiv','srem'):
            ob('division by zero',y!=0)
            if op[0]=='s': ob('signed division overflow',z3.Or(x!=(1<<(w-1)),y!=-1))
            r={'udiv':z3.UDiv,'urem':z3.URem,'sdiv':lambda p,q:p/q,'srem':z3.SRem}[op](x,y)
            return Num(z3.simplify(r),0,0)
        if op in('shl','lshr','ashr'):
            ob('shift amount in range',z3.ULT(y,w))
            # C++20: left shift of signed values is modular; nsw on shl is not emitted by clang -std=c++20
            if 'nsw' in fl: ob('no signed overflow in shl',((x<<y)>>y)==x)
            if 'nuw' in fl: ob('no unsigned overflow in shl',z3.LShR(x<<y,y)==x)
            r={'shl':lambda p,q:p<<q,'lshr':z3.LShR,'ashr':lambda p,q:p>>q}[op](x,y)
            return Num(z3.simplify(r),0,0)
        if op in('and','or','xor'):
            r={'and':x&y,'or':x|y,'xor':x^y}[op]
            return Num(z3.simplify(r),0,0)
        raise_uns('binop '+op)
    def icmp(s,pred,w,a,b):
        if w==1: return IntDom.icmp(s,pred,w,a,b)
        x,y=a.e,b.e
        r={'eq':lambda:x==y,'ne':lambda:x!=y,'ult':lambda:z3.ULT(x,y),'ule':lambda:z3.ULE(x,y),'ugt':lambda:z3.UGT(x,y),'uge':lambda:z3.UGE(x,y),
           'slt':lambda:x<y,'sle':lambda:x<=y,'sgt':lambda:x>y,'sge':lambda:x>=y}[pred]()
        r=z3.simplify(r)
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        return r
    def cast(s,op,w1,w2,a,nneg=False):
        if op=='zext':
            if w1==1:
                if isinstance(a,bool): return s.const(w2,int(a))
                return Num(z3.If(a,z3.BitVecVal(1,w2),z3.BitVecVal(0,w2)),0,0)
            return Num(z3.simplify(z3.ZeroExt(w2-w1,a.e)),0,0)
        if op=='sext':
            if w1==1:
                if isinstance(a,bool): return s.const(w2,-int(a))
                return Num(z3.If(a,z3.BitVecVal(-1,w2),z3.BitVecVal(0,w2)),0,0)
            return Num(z3.simplify(z3.SignExt(w2-w1,a.e)),0,0)
        if op=='trunc':
            if w2==1:
                r=z3.simplify(z3.Extract(0,0,a.e)==1)
                return True if z3.is_true(r) else False if z3.is_false(r) else r
            return Num(z3.simplify(z3.Extract(w2-1,0,a.e)),0,0)
    def ite(s,c,a,b,w):
        if w==1: return Ite(c,tobool(a),tobool(b))
        if c is True: return a
        if c is False: return b
        return Num(z3.If(c,a.e,b.e),0,0)
    def idx(s,x,w):
        e=x.e
        if w<64: e=z3.SignExt(64-w,e)
        e=z3.simplify(e)
        if z3.is_bv_value(e): return e.as_signed_long()
        return e
    def iadd(s,a,b):
        if isc(a) and isc(b): return a+b
        r=z3.simplify(s.I(a)+s.I(b))
        if z3.is_bv_value(r): return r.as_signed_long()
        return r
    def isub(s,a,b):
        if isc(a) and isc(b): return a-b
        r=z3.simplify(s.I(a)-s.I(b))
        if z3.is_bv_value(r): return r.as_signed_long()
        return r
    def imulc(s,a,c): return a*c
    def ile(s,a,b): return a<=b
    def ilt(s,a,b): return a<b
    def index_sort(s): return z3.BitVecSort(64)
    def elem_sort(s,w): return z3.BitVecSort(w)
    def I(s,x): return z3.BitVecVal(x,64) if isc(x) else x
    def to_elem(s,v,w,signed): return v.e
    def from_elem(s,e,w,signed,facts): return Num(e,0,0)
    def idxnum(s,e,w=64): return Num(s.I(e),0,0)

def z(e): return z3.IntVal(e) if isc(e) else e
def tobool(x):
    if isinstance(x,Num):
        if isc(x.e): return bool(x.e%2)
        return x.e%2==1
    return x
def raise_uns(m):
    from ir import Unsupported
    raise Unsupported(m)
