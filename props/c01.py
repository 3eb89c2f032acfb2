from driver import *
ID='C01'
SRC='wrap/c01.cc'
def vlen(v,w,base=0):
    """spec: number of bytes of the LEB128 code of v"""
    n=(w+6)//7
    r=z3.BitVecVal(1,64)
    for k in range(1,n): r=z3.If(z3.UGE(v,z3.BitVecVal(1<<(7*k),w)),z3.BitVecVal(k+1,64),r)
    return r
def vbyte(v,w,k):
    """spec: k-th byte of the LEB128 code of v (k < vlen)"""
    sh=z3.LShR(v,7*k) if 7*k<w else z3.BitVecVal(0,w)
    low=z3.Extract(6,0,sh)
    more=z3.BoolVal(False) if 7*(k+1)>=w else z3.LShR(v,7*(k+1))!=0
    return z3.If(more,z3.Concat(z3.BitVecVal(1,1),low),z3.Concat(z3.BitVecVal(0,1),low))
def mlen(v,w):
    h=z3.LShR(v,6)
    return z3.If(h==0,z3.BitVecVal(1,64),1+vlen(h,w))
def mbyte(v,m,w,k):
    h=z3.LShR(v,6)
    if k==0:
        return z3.Concat(z3.If(h!=0,z3.BitVecVal(1,1),z3.BitVecVal(0,1)),z3.If(m,z3.BitVecVal(1,1),z3.BitVecVal(0,1)),z3.Extract(5,0,v))
    return vbyte(h,w,k-1)
def zz(v,w): return z3.If(v<0,~(v<<1),v<<1) if False else (v<<1)^(v>>(w-1))
class Code:
    """one wire format: len(v), byte(v,k)"""
    def __init__(s,kind,w):
        s.kind=kind; s.w=w
        if kind=='u': s.len=lambda v,m:vlen(v,w); s.byte=lambda v,m,k:vbyte(v,w,k); s.max=(w+6)//7
        if kind=='s': s.len=lambda v,m:vlen(zz(v,w),w); s.byte=lambda v,m,k:vbyte(zz(v,w),w,k); s.max=(w+6)//7
        if kind=='m': s.len=lambda v,m:mlen(v,w); s.byte=lambda v,m,k:mbyte(v,m,w,k); s.max=1+(w-6+6)//7
def specs(tier):
    out=[]
    def unroll(E,h): return 12
    for w in (32,64):
        for kind,pre in (('u',''),('s','s'),('m','m')):
            c=Code(kind,w)
            # ---- length
            def setup(E,st,c=c,w=w):
                v=z3.BitVec('v',w); E.v=v; return [Num(v,0,0)]
            def post(E,st,r,c=c): return [('the announced length is the length of the code word',r.e==c.len(E.v,z3.BoolVal(False)))]
            out.append(Spec('k_%slen_%d'%(pre,w),setup,post,dom='bv',loop_mode=unroll,of={'u':'varint_length','s':'signed_varint_length','m':'marked_varint_length'}[kind]))
            # ---- encode (both calling styles)
            for style in ('','p'):
                def setup(E,st,c=c,w=w,style=style,kind=kind):
                    v=z3.BitVec('v',w); E.v=v; E.m=z3.Bool('marked'); 
                    n=z3.BitVec('buflen',64); i0=z3.BitVec('start',64); E.i0=i0
                    buf=Region('buf',1,[Field(0,1)],length=n); E.buf=buf; E.a0=E.getarr(st,buf,0)
                    L=c.len(v,E.m); E.L=L
                    st.add(z3.ULE(n,z3.BitVecVal(1<<48,64))); st.add(z3.ULE(i0,n)); st.add(z3.ULE(i0+L,n))
                    args=[Num(v,0,0)]
                    if kind=='m': args.append(E.m)
                    if style=='':
                        args.append(Ptr(buf,i0,0))
                    else:
                        cur=Region('cursor',None,[Field(0,8,ptr=buf)],size=8); st.mem[(cur,0)]=Ptr(buf,i0,0); E.cur=cur
                        args.append(Ptr(cur))
                    return args
                def post(E,st,r,c=c,style=style):
                    o=[]
                    a=st.mem[(E.buf,0)]
                    for k in range(c.max):
                        o.append(('byte %d of the code word'%k,z3.Implies(z3.ULT(z3.BitVecVal(k,64),E.L),z3.Select(a,E.i0+k)==c.byte(E.v,E.m,k))))
                    j=z3.BitVec('j',64)
                    o.append(('bytes outside the code word are untouched',z3.Implies(z3.Or(z3.ULT(j,E.i0),z3.UGE(j,E.i0+E.L)),z3.Select(a,j)==z3.Select(E.a0,j))))
                    if style=='': o.append(('returned length',r.e==E.L))
                    else:
                        p=st.mem[(E.cur,0)]
                        o.append(('cursor advanced by the code length',E.d.I(E.d.iadd(p.idx,p.off))==E.i0+E.L if p.reg is E.buf else z3.BoolVal(False)))
                    return o
                out.append(Spec('k_%senc%s_%d'%(pre,style,w),setup,post,dom='bv',loop_mode=unroll,of=(pre and {'s':'signed_','m':'marked_'}[pre])+'varint_encode('+('ptr' if style=='' else 'ptr*')+')'))
            # ---- decode
            for style in ('','p')+(('l',) if kind=='u' else ()):
                def setup(E,st,c=c,w=w,style=style,kind=kind):
                    v=z3.BitVec('v',w); E.v=v; E.m=z3.Bool('marked')
                    n=z3.BitVec('buflen',64); i0=z3.BitVec('start',64); E.i0=i0
                    buf=Region('buf',1,[Field(0,1)],length=n,writable=False); E.buf=buf; a=E.getarr(st,buf,0); E.a0=a
                    L=c.len(v,E.m); E.L=L
                    st.add(z3.ULE(n,z3.BitVecVal(1<<48,64))); st.add(z3.ULE(i0,n)); st.add(z3.ULE(i0+L,n))
                    for k in range(c.max): st.add(z3.Implies(z3.ULT(z3.BitVecVal(k,64),L),z3.Select(a,i0+k)==c.byte(v,E.m,k)))
                    args=[]
                    if style=='': args.append(Ptr(buf,i0,0))
                    else:
                        cur=Region('cursor',None,[Field(0,8,ptr=buf)],size=8); st.mem[(cur,0)]=Ptr(buf,i0,0); E.cur=cur
                        args.append(Ptr(cur))
                    if kind=='m':
                        E.rv=Region('ret.v',None,[Field(0,w//8)],size=w//8); E.rm=Region('ret.m',None,[Field(0,1)],size=1)
                        args+=[Ptr(E.rv),Ptr(E.rm)]
                    return args
                def post(E,st,r,c=c,style=style,kind=kind):
                    o=[]
                    if kind=='m':
                        o.append(('decoded value',E.getcell(st,E.rv,0).e==E.v))
                        m=E.getcell(st,E.rm,0)
                        o.append(('decoded marker',(m.e==z3.If(E.m,z3.BitVecVal(1,8),z3.BitVecVal(0,8))) if isinstance(m,Num) else Eq(m,E.m)))
                    else: o.append(('decoded value',r.e==E.v))
                    if style!='':
                        p=st.mem[(E.cur,0)]
                        o.append(('cursor advanced by the code length',E.d.I(E.d.iadd(p.idx,p.off))==E.i0+E.L if p.reg is E.buf else z3.BoolVal(False)))
                    return o
                out.append(Spec('k_%sdec%s_%d'%(pre,style,w),setup,post,dom='bv',loop_mode=unroll,of=(pre and {'s':'signed_','m':'marked_'}[pre])+'varint_decode'+('_loop' if style=='l' else '')+'('+('ptr' if style=='' else 'ptr*')+')'))
        # zigzag
        def setup(E,st,w=w):
            v=z3.BitVec('v',w); E.v=v; return [Num(v,0,0)]
        out.append(Spec('k_zenc_%d'%w,setup,lambda E,st,r,w=w:[('zigzag code',r.e==zz(E.v,w)),('code of a small magnitude is small',z3.Implies(E.v>=0,r.e==2*E.v)),('negative values map to odd codes',z3.Implies(E.v<0,r.e==-2*E.v-1))],dom='bv',of='zigzag_encode'))
        out.append(Spec('k_zdec_%d'%w,lambda E,st,w=w:(setattr(E,'v',z3.BitVec('v',w)),[Num(zz(E.v,w),0,0)])[1],lambda E,st,r,w=w:[('inverse of the zigzag code',r.e==E.v)],dom='bv',of='zigzag_decode'))
        mx=max(Code('u',w).max,Code('m',w).max)
        out.append(Spec('k_maxlen_%d'%w,lambda E,st:[],lambda E,st,r,mx=mx:[('upper bound on every code length',z3.UGE(r.e,mx) if not isc(r.e) else r.e>=mx)],dom='bv',of='varint_max_length'))
    return out
ROOTS=None
NATIVE=[{'src':'native/c01.cc','model':True,'bound':'all values within 3 of a power of two, 0..699 and their complements, counterexample values, 60k random values per width; 3 guard patterns','covers':'replay of counterexamples; no function is covered only by this run'}]
ASSUMPTIONS=['the buffer handed to an encoder/decoder holds at least the bytes of the code word (precondition)','the BMI2 decoders (KAMINPAR_COMPRESSION_FAST_DECODING, off by default) are outside the default configuration']
