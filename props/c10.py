from graphs import *
ID='C10'
U32=(1<<32)-1
Z=z3.IntSort(); F=lambda n: z3.Function(n,Z,Z)
TOK,POS=F('TOK'),F('POS')
VD='_ZN8kaminpar13varint_decodeIjEET_PPKh'; SD64='_ZN8kaminpar20signed_varint_decodeIlEET_PPKh'; SD32='_ZN8kaminpar20signed_varint_decodeIiEET_PPKh'
VE='_ZN8kaminpar13varint_encodeIjEEvT_PPh'; SE64='_ZN8kaminpar20signed_varint_encodeIlEEvT_PPh'; SE32='_ZN8kaminpar20signed_varint_encodeIiEEvT_PPh'
def decode(kind,w,signed):
    """contract of the varint decoders (C01): the stream position is the start of token t; its value is returned and the position moves to the start of token t+1"""
    def c(E,st,args,ins):
        p=E.load(st,args[0],PtrTy(),ins); t=st.ghost['tok']
        E.oblige(st,'decode: at the start of the next token',z(p.idx)==POS(t),ins); E.oblige(st,'decode: not beyond the last token',t<E.ntok,ins)
        E.oblige(st,'decode: with the codec the token was written with',E.kind(st,t)==kind,ins)
        lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if signed else (0,(1<<w)-1)
        E.store(st,args[0],Ptr(p.reg,POS(t+1),0),PtrTy(),ins); st.ghost['tok']=t+1
        v=I(fresh_name('token')); st.add(v==TOK(t)); st.add(A(lo<=v,v<=hi)); v=Num(v,lo,hi)
        if not E.intervals or kind==1: return v
        if kind==2 and E.weights: v0=st.ghost['iv']-1; st.add(E.wtok(v0,t-P(v0)-2))
        if kind==2: return v
        # the length of interval iv was read: on to the next one
        iv=st.ghost['iv']; s2=st.copy(); c=A(iv<E.I,t==E.P(iv)+1); s2.add(c); s2.ghost['iv']=iv+1; st.add(z3.Not(c)); return [(st,v),(s2,v)]
    return c
DEC={VD:decode(0,32,False),SD64:decode(1,64,True),SD32:decode(2,32,True)}
def encode(kind,w,signed):
    def c(E,st,args,ins):
        v=z((E.d.S if signed else E.d.U)(args[0],w)); p=E.load(st,args[1],PtrTy(),ins); t=st.ghost['tok']
        E.oblige(st,'encode: at the end of the tokens written so far',z(p.idx)==POS(t),ins); E.oblige(st,'encode: no token beyond the last',t<E.ntok,ins)
        E.oblige(st,'encode: with the codec of the next token',E.kind(st,t)==kind,ins); E.oblige(st,'encode: the value of the next token',v==TOK(t),ins)
        E.store(st,args[1],Ptr(p.reg,POS(t+1),0),PtrTy(),ins); st.ghost['tok']=t+1; return None
    return c
ENC={VE:encode(0,32,False),SE64:encode(1,64,True),SE32:encode(2,32,True)}
NB,W,LEFT,LEN,CB,RE,P=map(F,('NB','W','LEFT','LEN','CB','RE','P'))
def visit(stop):
    def c(E,st,args,ins):
        n=st.ghost['cnt']; v=z(E.d.U(args[0],32)); w=z(E.d.S(args[1],32))
        E.oblige(st,'visit: no neighbour beyond the last',n<E.deg,ins); E.oblige(st,'visit: the next neighbour in order',v==E.expect(st,n),ins)
        if E.weights: E.oblige(st,'visit: its edge weight',w==W(n),ins)
        if stop: E.oblige(st,'visit: not after the visitor asked to stop',z3.Not(B(st.ghost['stopped'])),ins)
        st.ghost['cnt']=n+1
        if stop: b=z3.Bool(fresh_name('stop')); st.ghost['stopped']=b; return b
        return None
    return c
def gh(E):
    def hv(E,st,k,g,h):
        # ghosts only change in the contracts of the codecs and of the visitor
        names=' '.join(str(x.x.get('callee','')) for b in E.loops[h] for x in E.fn.blocks[b] if x.op=='call')
        if k=='tok' and 'varint' not in names or k=='iv' and VD not in names or k in('cnt','stopped') and 'kvc_visit' not in names: return g
        return z3.Bool(fresh_name('stopped')) if k=='stopped' else z3.Int(fresh_name(k)) if k in('cnt','tok','iv') else g
    E.ghost_havoc=hv
def specs(tier):
    out=[]; i,j=I('i'),I('j')
    def dec(fn,weights,stop=False,intervals=False):
        def setup(E,st):
            E.weights=weights; E.intervals=intervals; node,deg=I('node'),I('degree'); E.deg=deg; st.add(A(0<=node,node<=U32,1<=deg,deg<=U32))
            obj=Region('graph',None,size=136); obj.auto=True; s=arr('stream',1,None); st.ghost.update(tok=z3.IntVal(0),cnt=z3.IntVal(0),stopped=z3.BoolVal(False),iv=z3.IntVal(0))
            per=2 if weights else 1
            st.add(POS(0)==0)
            if intervals:
                E.I=I('intervals'); E.P=P; ci=CB(E.I); base=P(E.I); st.add(A(1<=E.I,E.I<=U32))
                st.add(TOK(0)==E.I-1,P(0)==1,CB(0)==0,RE(0)==0,ci<=deg)
                st.add(ForAll([i],Imp(A(0<=i,i<E.I),A(TOK(P(i))==LEFT(i)-RE(i),TOK(P(i)+1)==LEN(i)-3,LEN(i)>=3,LEFT(i)>=RE(i),LEFT(i)+LEN(i)<=U32-2,P(i+1)==P(i)+2+(LEN(i) if weights else 0),CB(i+1)==CB(i)+LEN(i),RE(i+1)==LEFT(i)+LEN(i)+1,CB(i)>=0,CB(i+1)<=ci)),patterns=[LEFT(i)]))
                st.add(ForAll([i],Imp(A(0<=i,i<=E.I),A(1<=P(i),P(i)<=base)),patterns=[P(i)]))
                st.add(ForAll([i],Imp(A(0<=i,i<E.I),P(i+1)<=base),patterns=[LEFT(i)]))
                # the weight of the j-th neighbour of interval v; instantiated where the decoder reads a token
                E.wtok=lambda v,j: Imp(A(0<=v,v<E.I,0<=j,j<LEN(v)),TOK(P(v)+2+j)==W(CB(v)+j)-z3.If(CB(v)+j==0,z3.IntVal(0),W(CB(v)+j-1)))
            else: ci=z3.IntVal(0); base=z3.IntVal(0)
            E.ntok=base+per*(deg-ci)
            def kind(st,t):
                if intervals:
                    v=st.ghost['iv']
                    k=z3.If(t==base,z3.IntVal(1),z3.If(t>base,(z3.If((t-base)%2==1,z3.IntVal(2),z3.IntVal(0)) if weights else z3.IntVal(0)),
                        z3.If(z3.Or(t==0,t==P(v),t==P(v)+1),z3.IntVal(0),z3.IntVal(2 if weights else 9))))
                    return k
                return z3.If(t==0,z3.IntVal(1),z3.If(t%2==1,z3.IntVal(2),z3.IntVal(0)) if weights else z3.IntVal(0))
            E.kind=kind
            def expect(st,n):
                if not intervals: return NB(n)
                v=st.ghost['iv']-1; return z3.If(n<ci,z3.If(A(CB(v)<=n,n<CB(v)+LEN(v)),LEFT(v)+n-CB(v),z3.IntVal(-1)),NB(n))
            E.expect=expect
            # the gap encoded part: neighbours ci..deg, strictly increasing
            tk=lambda n: base+per*(n-ci)
            st.add(ForAll([i],Imp(A(ci<=i,i<deg),A(0<=NB(i),NB(i)<=U32,TOK(tk(i))==z3.If(i==ci,NB(i)-node,NB(i)-NB(i-1)-1),Imp(i>ci,NB(i)>NB(i-1)))),patterns=[NB(i)]))
            if weights:
                st.add(ForAll([i],Imp(A(0<=i,i<deg),A(-M31-1<=W(i),W(i)<=M31)),patterns=[W(i)]))
                st.add(ForAll([i],Imp(A(ci<=i,i<deg),TOK(tk(i)+1)==W(i)-z3.If(i==0,z3.IntVal(0),W(i-1))),patterns=[W(i)]))
            # trigger terms for the positions in use
            E.ci,E.base,E.per=ci,base,per
            return [Ptr(obj),Ptr(s,0,0),Num(node,0,U32),Num(deg,0,U32)]+([])
        def cands(E,v0):
            o=[('not asked to stop',lambda v: z3.Not(B(v.st.ghost['stopped']))),('no more visits than neighbours',lambda v: A(0<=v.st.ghost['cnt'],v.st.ghost['cnt']<=E.deg))]
            g=lambda v,k: v.st.ghost[k]
            if intervals:
                T=(lambda v: P(g(v,'iv')-1)+2+g(v,'cnt')-CB(g(v,'iv')-1)) if weights else (lambda v: P(g(v,'iv')))
                o.append(('in front of an interval',lambda v: A(g(v,'tok')==P(g(v,'iv')),g(v,'cnt')==CB(g(v,'iv')),LEFT(g(v,'iv'))>=0,0<=g(v,'iv'),g(v,'iv')<E.I)))
                o.append(('inside of an interval',lambda v: A(g(v,'tok')==T(v),LEFT(g(v,'iv')-1)>=0,1<=g(v,'iv'),g(v,'iv')<=E.I,g(v,'cnt')>=3+CB(g(v,'iv')-1),g(v,'cnt')<=CB(g(v,'iv')-1)+LEN(g(v,'iv')-1))))
                o.append(('behind the intervals',lambda v: A(g(v,'iv')==E.I,g(v,'cnt')>E.ci)))
            o.append(('in the gap encoded part',lambda v: A(g(v,'tok')==E.base+E.per*(g(v,'cnt')-E.ci),g(v,'cnt')>E.ci)))
            for r,ins in v0.instrs.items():
                if not isinstance(v0.entry[r],Num): continue
                w=R(ins.ty).w; x=lambda v,r=r,w=w: z(E.d.U(v.phis[r],w)); y=lambda v,r=r,w=w: z(E.d.S(v.phis[r],w))
                o.append(('%s is the last neighbour'%r,lambda v,x=x: x(v)==NB(g(v,'cnt')-1)))
                o.append(('%s is the number of neighbours left'%r,lambda v,x=x: x(v)==E.deg-g(v,'cnt')))
                if weights: o.append(('%s is the last weight'%r,lambda v,y=y: y(v)==z3.If(g(v,'cnt')==0,z3.IntVal(0),W(g(v,'cnt')-1))))
                if intervals:
                    o.append(('%s is the number of intervals left'%r,lambda v,x=x: x(v)==E.I-g(v,'iv')))
                    o.append(('%s is the smallest possible left end'%r,lambda v,x=x: x(v)==RE(g(v,'iv'))))
                    o.append(('%s is the offset inside of the interval'%r,lambda v,x=x: x(v)==g(v,'cnt')-CB(g(v,'iv')-1)))
            for rg in [k for k in E.allocas.values()]:
                o.append(('the position is the next token',lambda v,rg=rg: z(v.cell(rg,0).idx)==POS(g(v,'tok'))))
            return o
        def post(E,st,r):
            s=B(st.ghost['stopped']) if stop else B(False); c=st.ghost['cnt']
            o=[('every neighbour visited (unless asked to stop)',z3.Or(s,c==E.deg)),('the whole encoding is consumed',z3.Or(s,st.ghost['tok']==E.ntok))]
            if stop: o.append(('the result tells whether the visitor stopped',B(r)==s))
            return o
        out.append(Spec(fn,setup,post,cands=[cands],hook=gh,contracts={**DEC,'kvc_visit':visit(False),'kvc_visit_stop':visit(True)},of='CompressedNeighborhoods::decode_edges'+(' (weighted)' if weights else '')+(' (stoppable)' if stop else '')+(' (intervals)' if intervals else '')))
    dec('d_plain',False); dec('d_plain_w',True); dec('d_stop_w',True,True); dec('d_iv',False,intervals=True); dec('d_iv_w',True,intervals=True)
    RK,LV,LW,SW=map(F,('RK','LV','LW','SW')); INV=U32
    def enc(fn,weights):
        def setup(E,st):
            node,deg,L=I('node'),I('degree'),I('length'); E.intervals=False; E.deg=deg; E.L=L; st.add(A(0<=node,node<=U32,0<=deg,deg<=L,L<=M31))
            b=Region('builder',None,size=lay(E,'ceb')); b.auto=True; b.writable=True; s=arr('stream',1,None)
            cell(E,b,lay(E,'ceb_cur'),8,Ptr(s,POS(0),0)); E.b=b
            hw=z3.Bool('has_weights'); t0=I('tew0'); E.hw=hw if weights else B(False); E.t0=t0
            b.fields[lay(E,'ceb_w')]=Field(lay(E,'ceb_w'),1); E.initial_mem[(b,lay(E,'ceb_w'))]=Num(z3.If(hw,z3.IntVal(1),z3.IntVal(0)),0,1); E.cellfacts[(b,lay(E,'ceb_w'))]=[]
            cell(E,b,lay(E,'ceb_tew'),4,Num(t0,0,M31),True); st.add(A(0<=t0,t0<=M31))
            pw=Region('prev_weight',None,size=4); pw.auto=True; pw.writable=True; cell(E,pw,0,4,Num(I('pw0'),-M31-1,M31),True); E.pw=pw; st.add(A(0<=I('pw0'),I('pw0')<=M31))
            if weights: c=Region('neighbourhood',8,[Field(0,4,name='first'),Field(4,4,signed=True,name='second')],length=L,writable=False)
            else: c=arr('neighbourhood',4,L,writable=False)
            sp=Region('span',None,size=16); sp.auto=True; cell(E,sp,0,8,Ptr(c,0,0)); cell(E,sp,8,8,Num(L,0,M31))
            C=E.C=E.getarr(st,c,0); v=lambda n: C[n]!=INV
            st.ghost.update(tok=z3.IntVal(0)); per=z3.If(E.hw,z3.IntVal(2),z3.IntVal(1)) if weights else z3.IntVal(1)
            st.add(RK(0)==0,RK(L)==deg); E.ntok=per*deg; E.per=per
            st.add(ForAll([i],Imp(A(0<=i,i<L),A(RK(i+1)==RK(i)+z3.If(v(i),z3.IntVal(1),z3.IntVal(0)),LV(i+1)==z3.If(v(i),C[i],LV(i)),RK(i+1)<=deg,0<=RK(i),0<=C[i],C[i]<=INV,
                Imp(v(i),TOK(per*RK(i))==z3.If(RK(i)==0,C[i]-node,C[i]-LV(i)-1)),Imp(A(v(i),RK(i)>0),C[i]>LV(i)))),patterns=[C[i]]))
            if weights:
                Ws=E.Ws=E.getarr(st,c,4); st.add(LW(0)==I('pw0'),SW(0)==0)
                st.add(ForAll([i],Imp(A(0<=i,i<L),A(LW(i+1)==z3.If(v(i),Ws[i],LW(i)),SW(i+1)==SW(i)+z3.If(v(i),Ws[i],z3.IntVal(0)),0<=Ws[i],Ws[i]<=M31,0<=SW(i),t0+SW(i+1)<=M31,
                    Imp(A(v(i),hw),TOK(2*RK(i)+1)==Ws[i]-LW(i)),0<=LW(i),LW(i)<=M31)),patterns=[C[i]]))
            E.kind=lambda st,t: z3.If(t==0,z3.IntVal(1),z3.If(A(E.hw,t%2==1),z3.IntVal(2),z3.IntVal(0)))
            return [Ptr(b),Num(node,0,U32),Num(deg,0,U32),Ptr(pw),Ptr(sp)]
        def cands(E,v0):
            o=[]; g=lambda v,k: v.st.ghost[k]
            o.append(('nothing written',lambda v: g(v,'tok')==0))
            o.append(('the end of the tokens',lambda v: z(v.cell(E.b,lay(E,'ceb_cur')).idx)==POS(g(v,'tok'))))
            for r,ins in v0.instrs.items():
                if not isinstance(v0.entry[r],Num): continue
                x=lambda v,r=r,w=R(ins.ty).w: z(E.d.U(v.phis[r],w))
                o.append(('%s within the neighbourhood'%r,lambda v,x=x: x(v)<=E.L))
                o.append(('nothing valid before %s'%r,lambda v,x=x: RK(x(v))==0)); o.append(('something valid before %s'%r,lambda v,x=x: RK(x(v))>0))
                o.append(('the valid entries before %s are written'%r,lambda v,x=x: g(v,'tok')==E.per*RK(x(v))))
                for q in v0.instrs:
                    if q!=r and isinstance(v0.entry[q],Num): o.append(('%s is the last valid before %s'%(q,r),lambda v,x=x,q=q: z(E.d.U(v.phis[q],32))==LV(x(v))))
                if weights:
                    o.append(('the last weight before %s'%r,lambda v,x=x: z(E.d.S(v.cell(E.pw,0),32))==z3.If(E.hw,LW(x(v)),I('pw0'))))
                    o.append(('the weight of the entries before %s'%r,lambda v,x=x: z(E.d.S(v.cell(E.b,lay(E,'ceb_tew')),32))==E.t0+z3.If(E.hw,SW(x(v)),z3.IntVal(0))))
            return o
        def post(E,st,r):
            o=[('exactly the tokens of the neighbourhood are written',st.ghost['tok']==E.ntok)]
            p=E.getcell(st,E.b,lay(E,'ceb_cur')); o.append(('the write position is their end',z(p.idx)==POS(E.ntok)))
            if weights: o.append(('the total edge weight grows by the weights written',Imp(E.deg>0,z(E.d.S(E.getcell(st,E.b,lay(E,'ceb_tew')),32))==E.t0+z3.If(E.hw,SW(E.L),z3.IntVal(0)))))
            return o
        out.append(Spec(fn,setup,post,cands=[cands],hook=gh,contracts=ENC,of='CompressedEdgesBuilder::encode_gaps'+(' (weighted)' if weights else '')))
    enc('e_gaps',False); enc('e_gaps_w',True)
    return out
UNITS=[{'src':'wrap/c10.cc','specs':specs,'noinline':['varint'],'defs':XTBB}]
SRCS=GRAPH_SRCS+['kaminpar-shm/graphutils/compressed_graph_builder.cc','kaminpar-shm/graphutils/parallel_compressed_graph_builder.cc']
N={'src':'native/c10.cc','srcs':SRCS,'san':True,'sanopts':['-fno-sanitize=alignment,bool'],
 'bound':'200 (thorough: 1500) random graphs up to 14000 nodes, including runs of consecutive targets and nodes of degree above 10000; unit and random weights; 1 to 8 threads; isolated nodes removed and put back','covers':'CompressedGraph, both builders, interval and high-degree encoding'}
NATIVE=[N,dict(N,defs=['-UKAMINPAR_COMPRESSION_INTERVAL_ENCODING','-DKAMINPAR_COMPRESSION_STREAMVBYTE_ENCODING'],covers='the same with the StreamVByte encoding'),
         dict(N,defs=['-UKAMINPAR_COMPRESSION_INTERVAL_ENCODING','-UKAMINPAR_COMPRESSION_HIGH_DEGREE_ENCODING'],covers='the same with gap encoding only')]
ASSUMPTIONS=['neighbourhoods are sorted and free of parallel edges when they are compressed','node and edge weights are positive','the encoder and the decoder are proved against the same description of the token stream; the split into intervals, parts and header bytes is covered by the bounded run']
TRUSTED=['varint codecs (contract proved in C01)']
