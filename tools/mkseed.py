#!/usr/bin/env python3
"""mkseed.py SPEC.py : builds and validates one planted bug under /verif/seeded/<id>/.
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (C++ text), optional LIBS, SRCS (repo sources), PRE (extra shell)."""
import sys,os,subprocess,shutil,json
ns={}; exec(open(sys.argv[1]).read(),ns)
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W='/tmp/w/seedtree'; subprocess.run(['rm','-rf',W]); os.makedirs('/tmp/w',exist_ok=True); subprocess.check_call(['cp','-a','/repo',W])
def sh(c,cwd=W,t=600):
    r=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t); return r.returncode,(r.stdout+r.stderr)
for f,o,n in ns['EDITS']:
    p=W+'/'+f; s=open(p).read(); c=s.count(o)
    if c!=1: print('edit matches %d times in %s: %r'%(c,f,o)); sys.exit(1)
    open(p,'w').write(s.replace(o,n))
D=V+'/seeded/'+ns['ID']; shutil.rmtree(D,ignore_errors=True); os.makedirs(D+'/kassert')
diff=subprocess.check_output(['git','diff'],cwd=W,text=True); open(D+'/patch.diff','w').write(diff)
shutil.copy(V+'/stub/kassert/kassert.hpp',D+'/kassert/kassert.hpp')
open(D+'/demo.cc','w').write(ns['DEMO'])
full=ns.get('FULL')
srcs=' '.join(ns.get('SRCS',[])); inc=' '.join(ns.get('INCS',['-Iexternal/growt']))
sh_='#!/bin/bash\n# exits 0 when the property holds on this input, non-zero otherwise\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d /tmp/demo.XXXXXX)\ntrap \'rm -rf "$T"\' EXIT\n'
if full: 
    sh_+='ls '+full+' | grep -v libc_memory_override | xargs -P 8 -I{} bash -c \'o=$(echo {} | tr / _); g++ -std=c++20 -O1 -w -msse4.1 -mcx16 -I"$0" -I. -Iexternal/growt %s -c {} -o "$1"/$o.o\' "$D" "$T" || exit 3\n'%' '.join(ns.get('DEFS',[]))
    srcs+=' "$T"/*.o'
sh_+='g++ -std=c++20 -O1 -w -msse4.1 -mcx16 %s -I"$D" -I. %s "$D"/demo.cc %s -o "$T"/demo %s -ltbb -ltbbmalloc -lpthread || exit 3\n'%(' '.join(ns.get('DEFS',[])),inc,srcs,ns.get('LIBS',''))
sh_+='timeout 200 "$T"/demo\n'
open(D+'/demo.sh','w').write(sh_); os.chmod(D+'/demo.sh',0o755)
json.dump({'property':ns['PROPERTY'],'needs':ns['NEEDS'],'what_it_breaks':ns['BREAKS']},open(D+'/meta.json','w'),indent=1)
ok=True
rc,o=sh('bash %s/demo.sh'%D,'/repo'); print('demo on unchanged tree:',rc,o[-300:]); ok&=rc==0
rc,o=sh('bash %s/demo.sh'%D,W); print('demo on changed tree:',rc,o[-300:]); ok&=rc not in(0,3)
# build + tests of the changed tree: the build scripts work on /repo, so apply there and undo
rc,o=sh('git apply %s/patch.diff'%D,'/repo'); ok&=rc==0
try:
    rc,o=sh('bash /opt/vp/build.sh','/repo',1200); print('build',rc,o[-200:] if rc else ''); ok&=rc==0
    rc,o=sh('bash /opt/vp/test.sh /tmp/w/out.json','/repo',1200); print('tests',rc)
    j=json.load(open('/tmp/w/out.json')); fa=j.get('failed',[]); print('failed tests:',fa); ok&=not fa
finally:
    sh('git checkout -- .','/repo')
sh('bash /opt/vp/build.sh','/repo',1200)
subprocess.run(['rm','-rf',W])
print('VALID' if ok else 'INVALID',ns['ID'])
if not ok: os.rename(D,'/tmp/w/bad_'+ns['ID']) if not os.path.exists('/tmp/w/bad_'+ns['ID']) else shutil.rmtree(D)
