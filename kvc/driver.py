"""Check driver: extract -> generate obligations -> discharge -> (bounded native contract run) -> report."""
import os, sys, time, json, subprocess, re, hashlib, tempfile, shutil, traceback, pickle, signal, select
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE); REPO=os.environ.get('KVC_REPO','/repo')
sys.path.insert(0,HERE)
import z3
from ir import *
from dom import *
import sym
from sym import *

CXX='/usr/bin/clang++' if os.path.exists('/usr/bin/clang++') else 'clang++'
DEFS=['-DKAMINPAR_ENABLE_TIMERS','-DKAMINPAR_ENABLE_TIMER_BARRIERS','-DKAMINPAR_ENABLE_THP','-DKAMINPAR_COMPRESSION_HIGH_DEGREE_ENCODING','-DKAMINPAR_COMPRESSION_INTERVAL_ENCODING','-DKAMINPAR_SPARSEHASH_FOUND','-DKAMINPAR_USES_GROWT']

def sh(cmd,timeout=300,**kw):
    return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=timeout,**kw)

class ExtractError(Exception): pass

def balanced(l,i):
    d=0
    while i<len(l):
        if l[i]=='"':
            i=l.index('"',i+1)
        elif l[i]=='(': d+=1
        elif l[i]==')':
            d-=1
            if d==0: return i
        i+=1
    raise ExtractError('paren')

PASSES='always-inline,function(sroa,early-cse<memssa>,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp>,instsimplify),globaldce'
def extract(src,work,roots,noinline=(),incs=(),defs=(),passes=PASSES,std='c++20'):
    """compile a wrapper that includes the real headers / sources; inline everything into the contracted
    functions except the functions that carry a contract of their own (noinline)."""
    ll=os.path.join(work,os.path.basename(src)+'.ll')
    cmd=[CXX,'-std='+std,'-O1','-Xclang','-disable-llvm-passes','-S','-emit-llvm','-g1','-fno-strict-aliasing','-fno-discard-value-names','-fno-threadsafe-statics','-w','-ferror-limit=5','-msse4.1','-mcx16','-DKVC_EXTRACT']
    cmd+=DEFS+list(defs)+['-I'+os.path.join(VERIF,'stub')]+['-I'+os.path.join(VERIF,i) for i in incs]+['-I'+REPO,'-I'+REPO+'/external/growt','-I'+os.path.join(VERIF,'wrap'),src,'-o',ll]
    r=sh(cmd)
    if r.returncode: raise ExtractError('the extraction unit does not compile against the current sources:\n'+r.stderr.decode()[:3000])
    txt=open(ll).read().split('\n')
    nre=[re.compile(x) for x in noinline]
    out=[]
    for l in txt:
        if l.startswith('define '):
            m=re.search(r'@("(?:[^"]*)"|[-a-zA-Z$._0-9]+)\(',l)
            name=m[1].strip('"')
            e=balanced(l,m.end()-1)
            if name in roots or any(x.search(name) for x in nre): ins=' noinline'
            else: ins=' alwaysinline'
            rest=l[e+1:]
            mm=re.match(r' (local_)?unnamed_addr',rest)
            k=mm.end() if mm else 0
            l=l[:e+1]+rest[:k]+ins+rest[k:]
        elif l.startswith('attributes #'):
            l=re.sub(r'\b(noinline|optnone|alwaysinline|mustprogress)\b','',l)
        elif ' #' in l and 'noinline' in l and not l.startswith(';'): l=l.replace(' noinline ',' ')
        out.append(l)
    ll2=ll[:-3]+'.in.ll'; open(ll2,'w').write('\n'.join(out))
    ll3=ll[:-3]+'.opt.ll'
    r=sh(['opt-18' if shutil.which('opt-18') else 'opt','-S','--two-entry-phi-node-folding-threshold=0','--phi-node-folding-threshold=0','--speculate-one-expensive-inst=false','-passes='+passes,ll2,'-o',ll3])
    if r.returncode: raise ExtractError('opt: '+r.stderr.decode()[:2000])
    return ll3

# ---------------------------------------------------------------- solving
_sy={}
def symbols(f):
    r=_sy.get(f.get_id())
    if r is None or not r[1].eq(f): r=(_symbols(f),f); _sy[f.get_id()]=r
    return r[0]
def warm(obls):
    """fill the caches before the solver processes are started"""
    for o in obls:
        for f in o.facts:
            if hasq(f): symbols(f)
def _symbols(t):
    out=set(); todo=[t]; seen=set()
    while todo:
        x=todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x):
            d=x.decl()
            if d.kind()==z3.Z3_OP_UNINTERPRETED and (d.arity()>0 or z3.is_array(x)): out.add(d.get_id())
            todo+=x.children()
    return out
def relevant(facts,goal):
    g=symbols(goal); few=[]; dropped=0
    for f in facts:
        if hasq(f) and not(symbols(f)<=g): dropped+=1
        else: few.append(f)
    return few if dropped else None
def solve_one(o,tmo,cvc5=True,want_model=False,stages=None,shuffle=None):
    """returns (status, backend, model-text); status in proved/failed"""
    facts=o.facts; goal=o.goal
    if shuffle is not None:
        import random
        facts=list(facts); random.Random(shuffle).shuffle(facts)
    q=any(hasq(f) for f in facts) or hasq(goal)
    conf=[]
    if stages: conf=stages
    elif q:
        base={'smt.mbqi':False}; b2={'smt.mbqi':False,'auto_config':False}
        conf=[(base,tmo*0.35),(b2,tmo*0.25),(dict(base,**{'smt.random_seed':7,'smt.arith.nl':False}),tmo*0.2),(dict(b2,**{'smt.case_split':3,'smt.random_seed':3}),tmo*0.2)]
    else: conf=[({},tmo)]
    res=None; st=None
    if q and not stages: conf=[(base,min(1.0,tmo*0.1)),None]+conf
    for c in conf:
        if c is None:
            # with the quantified facts about the symbols of the goal alone (a subset of the facts: sound), before all of them
            few=relevant(facts,goal)
            if few is None: continue
            s=z3.Solver(); s.set('smt.mbqi',False); s.set('timeout',int(min(tmo*0.3,4)*1000))
            for f in few: s.add(f)
            s.add(z3.Not(goal))
            if s.check()==z3.unsat: return ('proved','z3',None)
            continue
        opts,t=c
        s=z3.Solver()
        for k,v in opts.items():
            s.set(k,v)
        s.set('timeout',int(t*1000))
        for f in facts: s.add(f)
        s.add(z3.Not(goal))
        r=s.check()
        if r==z3.unsat: return ('proved','z3',None)
        if r==z3.sat and not q:
            return ('failed','z3',modeltext(s.model()))
        st='%s (%s)'%(r,s.reason_unknown() if r==z3.unknown else '')
        if r==z3.sat or r==z3.unknown:
            try: res=modeltext(s.model())
            except Exception: pass
    if cvc5:
        s=z3.Solver()
        for f in facts: s.add(f)
        s.add(z3.Not(goal))
        fd,p=tempfile.mkstemp(suffix='.smt2'); os.close(fd)
        try:
            t=s.to_smt2().replace('(check-sat)','')
            open(p,'w').write('(set-logic ALL)\n'+re.sub(r'\(set-info[^)]*\)','',t)+'\n(check-sat)\n')
            r=sh(['cvc5','--tlimit=%d'%int(tmo*1000),p],timeout=tmo+20)
            if r.stdout.strip()==b'unsat': return ('proved','cvc5',None)
            st=(st or '')+'; cvc5: '+r.stdout.decode().strip()[:80]
        except Exception as e: pass
        finally: os.unlink(p)
    if os.environ.get('KVC_DUMP'):
        s=z3.Solver()
        for f in facts: s.add(f)
        s.add(z3.Not(goal))
        open(os.path.join(os.environ['KVC_DUMP'],re.sub(r'[^A-Za-z0-9]+','_',o.func+'_'+o.name)[:120]+'_%d.smt2'%os.getpid()),'w').write(s.to_smt2())
    return ('failed','', (st or '')+'\n'+(res or ''))

def modeltext(m):
    out=[]
    for d in sorted(m.decls(),key=lambda d:d.name()):
        if d.arity()==0:
            v=m[d]
            s=str(v)
            if len(s)<200: out.append('%s = %s'%(d.name(),s))
    return '\n'.join(out[:120])

def pmap(fn,items,par):
    """fork-based map (z3 terms need not be serialised)"""
    if par<=1 or len(items)<=1: return [fn(x) for x in items]
    res=[None]*len(items); todo=list(range(len(items))); running={}
    while todo or running:
        while todo and len(running)<par:
            # one process per item: what the solver does must not depend on what it did before
            ch=todo[:1]; del todo[:1]
            r,w=os.pipe(); pid=os.fork()
            if pid==0:
                os.close(r)
                try: out=[(i,fn(items[i])) for i in ch]
                except BaseException as e: out=[(i,('failed','','internal: %r'%e)) for i in ch]
                with os.fdopen(w,'wb') as f: pickle.dump(out,f)
                os._exit(0)
            os.close(w); running[r]=(pid,ch,b'')
        rs,_,_=select.select(list(running),[],[],60)
        for r in rs:
            pid,ch,buf=running[r]
            d=os.read(r,1<<20)
            if d: running[r]=(pid,ch,buf+d); continue
            os.close(r); os.waitpid(pid,0); del running[r]
            try:
                for i,v in pickle.loads(buf): res[i]=v
            except Exception:
                for i in ch: res[i]=('failed','','solver process ended abnormally')
    return res

# ---------------------------------------------------------------- specifications
class Spec:
    """contract of one extracted function.
    setup(E,st)->args installs the precondition; post(E,st,ret)->[(name,formula)] the postcondition."""
    def __init__(s,fn,setup,post,dom='int',cands=(),loop_mode=None,contracts=None,title=None,timeout=20,htimeout=4,hook=None,maxpaths=4000,prune_ms=150,par=2,of='',signed_phis=(),noncover=False,instances=None):
        s.fn=fn; s.setup=setup; s.post=post; s.dom=dom; s.cands=list(cands); s.loop_mode=loop_mode; s.contracts=contracts or {}
        s.title=title or fn; s.timeout=timeout; s.htimeout=htimeout; s.hook=hook; s.maxpaths=maxpaths; s.prune_ms=prune_ms; s.par=par; s.of=of; s.signed_phis=signed_phis
        s.noncover=noncover

def run_spec(mod,spec,tier='quick',verbose=False):
    r=run_spec1(mod,spec,tier,verbose)
    if r['failed'] and r['removed'] and not any('extraction:' in (f['verifier'] or '') or 'generator:' in (f['verifier'] or '') for f in r['failed']):
        # candidates may have been dropped for lack of solver time: once more with more of it
        import copy
        s2=copy.copy(spec); s2.htimeout=spec.htimeout*3; s2.timeout=spec.timeout*1.5
        r2=run_spec1(mod,s2,tier,verbose,True); r2['wall_s']+=r['wall_s']; r2['solver_s']+=r['solver_s']; r2['retried']=True
        if len(r2['failed'])<=len(r['failed']): return r2
    return r
def run_spec1(mod,spec,tier='quick',verbose=False,gentle=False):
    """returns dict with the outcome of one function"""
    t0=time.time()
    R_={'function':spec.title,'real':spec.of,'obligations':0,'discharged':0,'failed':[],'backends':{},'removed':[],'solver_s':0.0,'rounds':0,'paths':0,'assumed':[],'loops':0}
    scale=1.0 if tier=='quick' else 3.0
    try:
        f=mod.funcs.get('@'+spec.fn)
        if f is None or not f.defined: raise Unsupported('function %s not found in the extracted module'%spec.fn)
        d=IntDom() if spec.dom=='int' else BVDom()
        E=Exec(mod,f,d,contracts=spec.contracts,cands=spec.cands,loop_mode=spec.loop_mode,label=spec.title,maxpaths=spec.maxpaths,prune_ms=spec.prune_ms)
        E.signed_phis=spec.signed_phis
        R_['loops']=len(E.loops)
        if spec.hook: spec.hook(E)
        def on_ret(E,st,rv):
            for nm,g in spec.post(E,st,rv):
                E.oblige(st,'postcondition: '+nm,g)
        E.on_ret=on_ret
        done={}
        def solve(o,tmo,cv):
            return solve_one(o,tmo,cv)
        while True:
            R_['rounds']+=1
            obls=E.run(spec.setup)
            cands=[o for o in obls if o.cand]
            if not cands: break
            ts=time.time()
            # only re-solve what may have changed: hash of facts and goal
            keys=[hash_obl(o) for o in cands]
            need=[(o,k) for o,k in zip(cands,keys) if k not in done]
            warm(o for o,_ in need)
            res=pmap(lambda ok: solve_one(ok[0],spec.htimeout*scale,False),need,spec.par)
            if gentle:
                more=[i for i,r in enumerate(res) if r[0]!='proved' and str(r[2]).startswith('unknown')]
                for sd in (11,23) if len(more)<=12 else ():
                    t=spec.htimeout*scale; base={'smt.mbqi':False,'smt.random_seed':sd}
                    r2=pmap(lambda i: solve_one(need[i][0],t,False,stages=[(base,t/2),(dict(base,auto_config=False),t/2)],shuffle=sd),more,max(spec.par,4))
                    for i,r in zip(more,r2):
                        if r[0]=='proved': res[i]=r
                    more=[i for i in more if res[i][0]!='proved']
            bad=[(o,r) for (o,k),r in zip(need,res) if r[0]!='proved']
            for (o,k),r in zip(need,res):
                if r[0]=='proved': done[k]=r
            if gentle and bad:
                # drop what is certainly wrong first: candidates the solver merely gave up on may be provable without the wrong ones around
                bad=[x for x in bad if not str(x[1][2]).startswith('unknown')] or [x for x in bad if 'on entry' in x[0].name] or bad
            for o,r in bad:
                if o.cand not in E.removed:
                    E.removed.add(o.cand)
                    R_['removed'].append((E.loopname[o.cand[0]],o.cand[1],o.name))
            R_['solver_s']+=time.time()-ts
            if verbose: print('  [%s] round %d: %d candidate obligations, %d solved, %d removed so far'%(spec.title,R_['rounds'],len(cands),len(need),len(E.removed)),file=sys.stderr)
            if all(k in done for k in keys): break
            if R_['rounds']>60: raise Unsupported('invariant inference does not converge')
        rest=[o for o in obls if not o.cand]
        ts=time.time()
        warm(rest)
        res=pmap(lambda o: solve_one(o,spec.timeout*scale,True),rest,spec.par)
        # the solver's search depends on the order of the facts and on its seeds: what it gave up on gets more attempts before it counts as undischarged
        again=[i for i,r in enumerate(res) if r[0]!='proved' and str(r[2]).startswith('unknown')]
        if again and len(again)<=16:
            for sd in (11,23):
                base={'smt.mbqi':False,'smt.random_seed':sd}
                st=[(base,spec.timeout*scale),(dict(base,auto_config=False),spec.timeout*scale)]
                r2=pmap(lambda i: solve_one(rest[i],spec.timeout*scale,False,stages=st,shuffle=sd),again,max(spec.par,4))
                for i,r in zip(again,r2):
                    if r[0]=='proved': res[i]=r
                again=[i for i in again if res[i][0]!='proved']
                if not again: break
        R_['solver_s']+=time.time()-ts
        R_['paths']=E.npaths
        R_['trivial']=E.ntrivial
        for o,r in zip(rest,res):
            R_['obligations']+=1
            if r[0]=='proved':
                R_['discharged']+=1; R_['backends'][r[1]]=R_['backends'].get(r[1],0)+1
            else: R_['failed'].append({'obligation':'%s: %s'%(spec.title,o.name),'at':o.loc,'verifier':r[2]})
        for o in obls:
            if o.cand:
                R_['obligations']+=1; R_['discharged']+=1; R_['backends']['z3']=R_['backends'].get('z3',0)+1
        # vacuity: some return must be reachable under the precondition (False must not be provable there)
        cover=False
        for p in E.ret_paths[:12]:
            s=z3.Solver(); s.set('timeout',3000)
            for x in p: s.add(x)
            if s.check()!=z3.unsat: cover=True; break
        R_['cover']=cover
        if not cover and not spec.noncover:
            R_['failed'].append({'obligation':spec.title+': vacuity guard: no return reachable under the precondition','at':'','verifier':'unsat'}); R_['obligations']+=1
        if R_['obligations']==0:
            R_['failed'].append({'obligation':spec.title+': vacuity guard: no obligations generated','at':'','verifier':''}); R_['obligations']+=1
        R_['assumed']=sorted(E.assumed); R_['intrinsics']=sorted(E.used_intrinsics)
    except Unsupported as e:
        R_['obligations']+=1
        R_['failed'].append({'obligation':spec.title+': body within reach of the verifier','at':'','verifier':'extraction: %s'%e})
        if verbose: traceback.print_exc()
    except Exception as e:
        R_['obligations']+=1
        R_['failed'].append({'obligation':spec.title+': body within reach of the verifier','at':'','verifier':'generator: '+traceback.format_exc()[-1500:]})
        if verbose: traceback.print_exc()
    R_['wall_s']=round(time.time()-t0,2)
    return R_

def hash_obl(o):
    h=0
    for f in o.facts: h=hash((h,f.hash(),f.get_id()))
    return (o.name,norm_key(o))
def norm_key(o):
    # alpha-rename generated constants so that identical obligations of different rounds coincide
    s=z3.Solver()
    t=[f.sexpr() for f in o.facts]+[o.goal.sexpr()]
    txt='\n'.join(t); m={}
    def sub(x):
        k=x.group(0)
        return m.setdefault(k,'v%d'%len(m))
    txt=re.sub(r"[^\s()|]+![0-9]+",sub,txt)
    return hashlib.sha1(txt.encode()).hexdigest()
