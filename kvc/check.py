"""usage: check.py <property> [-v] [--only substr] [--no-native]"""
import os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from driver import *
import importlib.util

def load_prop(pid):
    p=os.path.join(VERIF,'props',pid.lower()+'.py')
    sp=importlib.util.spec_from_file_location('prop_'+pid,p); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m

def run_group(unit,specs,work,tier,verbose,par):
    """extract one unit and run its specs in forked workers"""
    roots=[s.fn for s in specs]
    t0=time.time()
    ll=extract(os.path.join(VERIF,unit['src']),work,set(roots),noinline=unit.get('noinline',()),incs=unit.get('incs',()),defs=unit.get('defs',()),passes=unit.get('passes',PASSES))
    mod=parse_module(open(ll).read())
    if verbose: print('extracted %s in %.1fs'%(unit['src'],time.time()-t0),file=sys.stderr)
    return mod

BUDGET=int(os.environ.get('KVC_BUDGET','720'))
def main():
    if os.environ.get('PYTHONHASHSEED')!='0': os.execve(sys.executable,[sys.executable]+sys.argv,dict(os.environ,PYTHONHASHSEED='0'))
    a=sys.argv[1:]; pid=a[0]; verbose='-v' in a; native='--no-native' not in a
    only=a[a.index('--only')+1] if '--only' in a else None
    tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1'))
    t0=time.time()
    P=load_prop(pid)
    work=tempfile.mkdtemp(prefix='kvc_%s_'%pid)
    try: rc=check(P,pid,tier,seed,work,verbose,native,only,t0)
    finally: shutil.rmtree(work,ignore_errors=True)
    sys.exit(rc)

def check(P,pid,tier,seed,work,verbose,native,only,t0):
    results=[]; nat=None
    # native contract run (bounded) is started first, in the background
    natproc=None
    if native and getattr(P,'NATIVE',None) and not only: natproc=start_native(P,work,seed,tier)
    units=P.UNITS if hasattr(P,'UNITS') else [{'src':P.SRC,'specs':P.specs}]
    jobs=[]
    par=int(os.environ.get('KVC_PAR','8'))
    for u in units:
        specs=u['specs'](tier)
        if only: specs=[s for s in specs if only in s.title or only in s.fn]
        if not specs: continue
        try:
            mod=run_group(u,specs,work,tier,verbose,par)
            for s in specs: jobs.append((mod,s))
        except (ExtractError,Unsupported,subprocess.TimeoutExpired,IndexError,ValueError,KeyError) as e:
            for s in specs:
                results.append({'function':s.title,'real':s.of,'obligations':1,'discharged':0,'failed':[{'obligation':s.title+': body within reach of the verifier','at':'','verifier':str(e)[:3000]}],'backends':{},'solver_s':0,'removed':[],'assumed':[],'wall_s':0,'loops':0})
    def one(j):
        return run_spec(j[0],j[1],tier,verbose)
    def onesafe(j):
        try: return one(j)
        except BaseException as e:
            return {'function':j[1].title,'real':j[1].of,'obligations':1,'discharged':0,'failed':[{'obligation':j[1].title+': body within reach of the verifier','at':'','verifier':repr(e)}],'backends':{},'solver_s':0,'removed':[],'assumed':[],'wall_s':0,'loops':0}
    heavy=sorted(jobs,key=lambda j:-getattr(j[1],'par',1))
    first=[None]
    def refuted():
        if not refuted0(): return False
        first[0]=first[0] or time.time()
        return time.time()-first[0]>float(os.environ.get('KVC_GRACE','40'))
    def refuted0():
        # a bounded run that already found a failing input decides the outcome: no need to wait for the solvers
        for n,p,log,t in natproc or []:
            rc=p.poll()
            if rc is None or rc in(0,99): continue
            txt=open(log,errors='replace').read() if os.path.exists(log) else ''
            fs=re.findall(r'^FAIL (.*)$',txt,re.M) or ['abnormal end']
            kf=known(pid)
            if any(not any(('key='+k[0]) in f for k in kf) for f in fs): return True
        return False
    res=pmap_each(onesafe,heavy,par,refuted,t0+(BUDGET if tier=='quick' else 40*BUDGET))
    results+=[r for r in res if r is not None]
    if natproc:
        nat=finish_native(P,natproc,work,seed,tier)
        failed=[f for r in results for f in r['failed']]
        if failed and all(d['status']=='ok' for d in nat) and any(n.get('model') for n in P.NATIVE):
            # replay: feed the integers of the verifier's counterexamples to the real code
            mp=os.path.join(work,'model.txt'); open(mp,'w').write('\n'.join((f['verifier'] or '') for f in failed))
            for k,n in enumerate(P.NATIVE):
                if not n.get('model'): continue
                exe=os.path.join(work,'native%d'%k); log=exe+'.log'
                rc=subprocess.run(['bash','-c','exec timeout -k 5 %d %s %d %s >> %s 2>&1'%(n.get('timeout',400),exe,seed+1000,tier,log)],env=dict(os.environ,KVC_MODEL=mp,ASAN_OPTIONS='detect_leaks=0')).returncode
                class _P: 
                    def wait(self): return rc
                nat[k]=finish_native(P,[(n,_P(),log,time.time())],work,seed,tier)[0]
    return report(P,pid,tier,seed,results,nat,t0,verbose,only)

def pmap_each(fn,items,par,stop=None,deadline=None):
    res=[None]*len(items); todo=list(range(len(items))); running={}
    def bad(i,why):
        s=items[i][1]
        return {'function':s.title,'real':s.of,'obligations':1,'discharged':0,'failed':[{'obligation':s.title+': '+why,'at':'','verifier':''}],'backends':{},'removed':[],'solver_s':0.0,'wall_s':0.0,'loops':0,'rounds':0,'paths':0,'assumed':[]}
    while todo or running:
        while todo and len(running)<par:
            i=todo.pop(0)
            r,w=os.pipe(); pid=os.fork()
            if pid==0:
                os.setpgid(0,0)
                os.close(r)
                out=fn(items[i])
                with os.fdopen(w,'wb') as f: pickle.dump(out,f)
                os._exit(0)
            try: os.setpgid(pid,pid)
            except OSError: pass
            os.close(w); running[r]=(pid,i,b'')
        rs,_,_=select.select(list(running),[],[],2)
        halt=stop and stop(); late=deadline and time.time()>deadline
        if halt or late:
            for r,(pid,i,buf) in running.items():
                try: os.killpg(pid,9)
                except OSError: pass
                os.close(r); os.waitpid(pid,0)
                if not halt: res[i]=bad(i,'obligations discharged within the time budget of the check')
            if not halt:
                for i in todo: res[i]=bad(i,'obligations discharged within the time budget of the check')
            return res
        for r in rs:
            pid,i,buf=running[r]; d=os.read(r,1<<20)
            if d: running[r]=(pid,i,buf+d); continue
            os.close(r); os.waitpid(pid,0); del running[r]
            try: res[i]=pickle.loads(buf)
            except Exception: res[i]=bad(i,'body within reach of the verifier (worker ended abnormally)')
    return res

# ---------------------------------------------------------------- native bounded runs
def start_native(P,work,seed,tier):
    """compile the native contract harness against the real headers and run it; returns Popen"""
    N=P.NATIVE; procs=[]
    for k,n in enumerate(N if isinstance(N,list) else [N]):
        exe=os.path.join(work,'native%d'%k); log=exe+'.log'
        cxx=[n.get('cxx','g++'),'-std=c++20',n.get('opt','-O1'),'-g1','-w','-fmax-errors=5' if n.get('cxx','g++')=='g++' else '-ferror-limit=5','-msse4.1','-mcx16']+DEFS+n.get('defs',[])
        if n.get('san') and not n.get('nosan'): cxx+=['-fsanitize=address,undefined','-fno-sanitize-recover=undefined']+n.get('sanopts',[])
        cxx+=['-I'+os.path.join(VERIF,'native'),'-I'+os.path.join(VERIF,'stub')]+['-I'+os.path.join(VERIF,i) for i in n.get('incs',())]+['-I'+REPO,'-I'+REPO+'/external/growt']
        import shlex
        q=lambda c: ' '.join(shlex.quote(x) for x in c)
        srcs=[os.path.join(REPO,x) for x in n.get('srcs',())]
        for lib in n.get('lib',()):   # all sources of a library
            for d,_,fs in sorted(os.walk(os.path.join(REPO,lib))): srcs+=[os.path.join(d,f) for f in sorted(fs) if f.endswith('.cc') and 'libc_memory_override' not in f]
        srcs=[x for x in dict.fromkeys(srcs) if os.path.relpath(x,REPO) not in n.get('skip',())]
        libs=n.get('libs',['-ltbb','-ltbbmalloc','-lpthread'])
        if not srcs: build='%s > %s 2>&1 || exit 99'%(q(cxx+[os.path.join(VERIF,n['src']),'-o',exe]+libs),log)
        else:
            srcs=[os.path.join(VERIF,n['src'])]+srcs; os.makedirs(exe+'.d',exist_ok=True)
            srcs.sort(key=lambda f:-os.path.getsize(f) if os.path.exists(f) else 0)
            open(exe+'.list','w').write(''.join('%s %s/%d.o\n'%(f,exe+'.d',i) for i,f in enumerate(srcs)))
            open(exe+'.mk','w').write('#!/bin/bash\nexec %s -ffunction-sections -fdata-sections -c "$1" -o "$2"\n'%q(cxx)); os.chmod(exe+'.mk',0o755)
            build='xargs -a %s -P 8 -L 1 %s > %s 2>&1 || exit 99; %s >> %s 2>&1 || exit 99; rm -rf %s'%(exe+'.list',exe+'.mk',log,q([c for c in cxx if not c.startswith('-I')])+' '+exe+'.d/*.o -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -o '+exe+' '+q(libs),log,exe+'.d')
        script='%s; exec timeout -k 5 %d %s %d %s >> %s 2>&1'%(build,n.get('timeout',400),exe,seed,tier,log)
        env=dict(os.environ); env['ASAN_OPTIONS']='detect_leaks=0:abort_on_error=0'; env['UBSAN_OPTIONS']='print_stacktrace=0'; env['KVC_WORK']=work
        procs.append((n,subprocess.Popen(['bash','-c',script],env=env),log,time.time()))
    return procs

def finish_native(P,procs,work,seed,tier):
    out=[]
    for n,p,log,t in procs:
        rc=p.wait(); txt=open(log,errors='replace').read() if os.path.exists(log) else ''
        d={'src':n['src'],'rc':rc,'log':txt[-6000:],'wall_s':round(time.time()-t,1),'bound':n.get('bound',''),'covers':n.get('covers','')}
        m=re.findall(r'^CASES (\d+)',txt,re.M); d['cases']=sum(map(int,m))
        d['fails']=re.findall(r'^FAIL (.*)$',txt,re.M)
        if rc==0: d['status']='ok'
        elif rc==99 and not d['cases']: d['status']='nocompile'
        elif rc==124 or rc==137: d['status']='timeout'; d['fails']=d['fails'] or ['the run did not terminate; last case: '+last_case(txt)]
        else:
            d['status']='fail'
            if not d['fails']: d['fails']=['the run ended abnormally (exit %d); last case: %s'%(rc,last_case(txt))]
        out.append(d)
    return out
def last_case(txt):
    m=re.findall(r'^CASE (.*)$',txt,re.M)
    return m[-1] if m else '(none)'

def known(pid):
    p=os.path.join(VERIF,'KNOWN_FINDINGS.txt'); out=[]
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'known: property=(\S+) key=(\S+) (.*)',l)
            if m and m[1]==pid: out.append((m[2],m[3].strip()))
    return out

def report(P,pid,tier,seed,results,nat,t0,verbose,only):
    failed=[f for r in results for f in r['failed']]
    nob=sum(r['obligations'] for r in results); ndis=sum(r['discharged'] for r in results)
    if nob==0: failed.append({'obligation':'vacuity guard: the run generated no obligations','at':'','verifier':''})
    be={}
    for r in results:
        for k,v in r['backends'].items(): be[k]=be.get(k,0)+v
    rep=os.path.join(VERIF,'replays'); os.makedirs(rep,exist_ok=True); rpath=os.path.join(rep,pid+'.txt')
    kf=known(pid); kf_lines=[]
    natfails=[]
    for d in nat or []:
        if d['status'] in('fail','timeout'):
            for f in d['fails']:
                k=next((k for k in kf if ('key='+k[0]) in f),None)
                if k: 
                    if k not in kf_lines: kf_lines.append(k)
                else: natfails.append((d,f))
        elif d['status']=='nocompile':
            failed.append({'obligation':'contract harness %s compiles against the current sources'%d['src'],'at':'','verifier':d['log'][:3000]})
    # undischarged obligations attributable to a listed finding are marked by key in the obligation name
    rem=[]
    for f in failed:
        k=next((k for k in kf if ('key='+k[0]) in f['obligation']),None)
        if k:
            if k not in kf_lines: kf_lines.append(k)
        else: rem.append(f)
    failed=rem
    if verbose or only:
        for r in results:
            print('%-46s %4d/%-4d loops=%d rounds=%s solver=%.1fs wall=%.1fs %s'%(r['function'],r['discharged'],r['obligations'],r.get('loops',0),r.get('rounds'),r['solver_s'],r['wall_s'],'' if not r['failed'] else 'FAILED'),file=sys.stderr)
            for f in r['failed'][:8]: print('     -',f['obligation'],'@',f['at'],'\n       ',(f['verifier'] or '')[:700].replace('\n','\n        '),file=sys.stderr)
            if r['failed'] and verbose:
                for x in r['removed']: print('     dropped candidate:',x,file=sys.stderr)
        for d in nat or []: print('native %s: %s cases=%s %.1fs'%(d['src'],d['status'],d['cases'],d['wall_s']),d['fails'][:5], d['log'][-1500:] if d['status']!='ok' else '',file=sys.stderr)
    viol=bool(failed or natfails)
    ev={'property':pid,'tier':tier,'seed':seed,'level':getattr(P,'LEVEL','proof'),
        'coverage':{'obligations':nob,'discharged':ndis,'checker_cmd':'python3-vt kvc/check.py %s'%pid,
            'trusted_base':['kvc VC generator (/verif/kvc)','clang 18 front end and the listed opt passes','z3 %s'%z3.get_version_string(),'cvc5 (fallback)']+getattr(P,'TRUSTED',[]),
            'functions_under_contract':[{'contract':r['function'],'real_function':r['real'],'obligations':r['obligations'],'discharged':r['discharged'],'loops':r['loops'],'loop_invariants_dropped_by_houdini':len(r['removed']),'paths':r.get('paths'),'solver_s':round(r['solver_s'],2)} for r in results],
            'discharged_by_backend':be,'obligations_decided_by_constant_folding':sum(r.get('trivial',0) for r in results),'solver_s':round(sum(r['solver_s'] for r in results),2),
            'vacuity':{'reachable_returns':sum(1 for r in results if r.get('cover')),'functions':len(results)},
            'undischarged':[f['obligation'] for f in failed][:50],
            'bounded_contract_runs':[{'harness':d['src'],'status':d['status'],'cases':d['cases'],'bound':d['bound'],'stands_in_for':d['covers'],'wall_s':d['wall_s'],'label':'bounded, not counted as proved'} for d in nat or []]},
        'assumptions':getattr(P,'ASSUMPTIONS',[])+sorted({a for r in results for a in r.get('assumed',[])}),
        'wall_s':round(time.time()-t0,2),'violations':len(failed)+len(natfails)}
    if not only:
        os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
        json.dump(ev,open(os.path.join(VERIF,'evidence',pid+'.json'),'w'),indent=1)
    for k,d in kf_lines: print('KNOWN-FINDING: property=%s %s'%(pid,d))
    print('%s: %d/%d obligations discharged in %d functions (%s); %s; %.1fs'%(pid,ndis,nob,len(results),be,'; '.join('bounded run %s: %s, %d cases'%(os.path.basename(d['src']),d['status'],d['cases']) for d in nat or []) or 'no bounded run',time.time()-t0))
    if not viol: 
        if os.path.exists(rpath): os.unlink(rpath)
        return 0
    with open(rpath,'w') as f:
        f.write('property %s\ncommand: VERIF_SEED=%d VERIF_TIER=%s python3-vt kvc/check.py %s   (in /verif)\n\n'%(pid,seed,tier,pid))
        if natfails:
            f.write('FAILING INPUT(S) on the real code (harness compiled from the current sources):\n')
            for d,x in natfails[:20]: f.write('  [%s] %s\n'%(d['src'],x))
            f.write('\nharness log (tail):\n'+natfails[0][0]['log'][-3000:]+'\n\n')
        if failed:
            f.write('UNDISCHARGED OBLIGATIONS (%d):\n'%len(failed))
            for x in failed[:60]: f.write('* %s\n  at: %s\n  verifier output:\n    %s\n'%(x['obligation'],x['at'],(x['verifier'] or '').replace('\n','\n    ')[:3000]))
    for x in failed[:5]: print('undischarged: '+x['obligation'])
    for d,x in natfails[:5]: print('failing input: '+x)
    print('VIOLATION property=%s replay=%s%s'%(pid,rpath,'' if natfails else ' no-failing-input-found'))
    return 1
if __name__=='__main__': main()
