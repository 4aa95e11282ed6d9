"""mk.py list.py [ids]: builds /verif/seeded/<id> from (old,new) edits; verifies the demo on clean and patched trees
(demo only); --tests also runs the repository tests in /repo with the patch applied."""
import sys,subprocess,shutil,os,runpy,json,tempfile
args=[a for a in sys.argv[1:] if not a.startswith('--')]
L=runpy.run_path(args[0])['L']
R='/tmp/seed/repo'
DEMO='''#!/bin/bash
# exit 0 when the guarantee holds
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -pthread $(for i in include subprojects/*/include; do echo -I$i; done) "$d/demo.cpp" \\
    subprojects/ufjfmltk-core/src/{Utils,Datasets,Random}.cpp subprojects/ufjfmltk-classifier/src/int_dll.cpp -o "$t/demo"
cd "$t"
timeout 100 ./demo
'''
PRE='''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <set>
#include <map>
#include <fstream>
#include <iostream>
#include <ufjfmltk/Core.hpp>
%s
#define REQUIRE(c) do { if (!(c)) { fprintf(stderr, "failed: %%s\\n", #c); return 1; } } while (0)
static mltk::Data<double> make(std::vector<std::vector<double>> rows, std::vector<double> ys) {
    mltk::Data<double> d;
    for (size_t i = 0; i < rows.size(); i++) {
        mltk::Point<double> p(rows[i].size());
        for (size_t k = 0; k < rows[i].size(); k++) p[k] = rows[i][k];
        p.Y() = ys[i];
        d.insertPoint(p);
    }
    d.computeClassesDistribution();
    return d;
}
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
assert not sh('git -C /repo status --porcelain').stdout.strip()
base='7ebc59f'
for s in L:
    i=s['id']
    if args[1:] and i not in args[1:]: continue
    shutil.rmtree(R,ignore_errors=True)
    sh('git -C /repo worktree prune; git -C /repo archive HEAD | (mkdir -p %s && tar x -C %s)'%(R,R))
    ok=True
    for f,old,new in s['edits']:
        src=open(R+'/'+f,newline='').read()
        if '\r\n' in src: old,new=old.replace('\n','\r\n'),new.replace('\n','\r\n')
        if src.count(old)<1: print(i,'OLD NOT FOUND',old[:60]); ok=False; break
        if src.count(old)>1 and not s.get('first'): print(i,'OLD AMBIGUOUS',src.count(old)); ok=False; break
        open(R+'/'+f,'w',newline='').write(src.replace(old,new,1))
    if not ok: continue
    d='/verif/seeded/'+i
    os.makedirs(d,exist_ok=True)
    p=subprocess.run('diff -ru --no-dereference /repo/subprojects subprojects | sed "s#^--- /repo/#--- a/#; s#^+++ subprojects#+++ b/subprojects#; /^diff -ru/d; /^Only in/d"',shell=True,cwd=R,capture_output=True).stdout
    open(d+'/patch.diff','wb').write(p)
    # removed lines must come from the original
    import re
    for f,_,_ in s['edits']:
        df=sh('git -C /repo diff %s HEAD -- %s'%(base,f)).stdout.split('\n')
        org={x[1:].rstrip('\r') for x in df}; mine={x[1:].rstrip('\r') for x in df if x.startswith('+')}
        for x in p.decode().split('\n'):
            if x.startswith('-') and not x.startswith('---'):
                t=x[1:].rstrip('\r')
                if t in mine: print(i,'NOT ORIGINAL:',t.strip()[:80])
    open(d+'/demo.sh','w').write(s.get('demo_sh',DEMO)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(PRE%s.get('inc','')+s['demo'])
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    c=sh('git -C /repo apply --check %s/patch.diff'%d)
    a=sh('bash %s/demo.sh'%d,cwd='/repo'); b=sh('bash %s/demo.sh'%d,cwd=R)
    print(i,s['prop'],'apply',c.returncode,'clean',a.returncode,'patched',b.returncode,(a.stderr[-300:] if a.returncode else ''),b.stderr[-120:].strip().replace('\n',' | '),flush=True)
    if '--tests' in sys.argv and a.returncode==0 and b.returncode:
        sh('git -C /repo apply %s/patch.diff'%d)
        sh('bash /opt/vp/test.sh /tmp/seed/out.json'); sh('git -C /repo checkout -- .')
        try:
            o=json.load(open('/tmp/seed/out.json')); st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            print('   tests: missing',sorted(st-set(o['passed'])),flush=True)
        except Exception as e: print('   tests',e)
    if '--check' in sys.argv:
        r=sh('timeout 900 python3 /verif/bin/check.py %s quick'%s['prop'],env=dict(os.environ,VT_REPO=R))
        v=[l for l in r.stdout.split('\n') if 'VIOLATION' in l]
        print('   check rc',r.returncode,len(v),v[0].split('#')[-1][:120] if v else r.stderr[-200:],flush=True)
