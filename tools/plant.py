#!/usr/bin/env python3
"""plant.py mk FILE.py  -> creates seeded dirs from specs; plant.py test ID... [--checks C01,C02 | --own | --nochecks]"""
import sys,os,subprocess,json,shutil,re,importlib.util
SEED='/verif/seeded'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
DEMO_SH='''#!/bin/bash
# Builds demo.cpp against ./include (cwd: the repository) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
g++ -std=c++1z -w -g -O1 %s -I include "$here/demo.cpp" -o "$dir/demo" || { rm -rf "$dir"; exit 2; }
timeout 100 "$dir/demo"
rc=$?
rm -rf "$dir"
exit $rc
'''
PRE='''#include <bits/stdc++.h>
#undef __has_include  // as the project's own build does: its own Optional
#include <lru/lru.hpp>
%s
static int failures = 0;
#define CHECK(condition)                                              \\
  do {                                                                \\
    if (!(condition)) {                                               \\
      std::printf("line %%d: not true: %%s\\n", __LINE__, #condition);   \\
      ++failures;                                                     \\
    }                                                                 \\
  } while (false)

'''
CLOCK='''
// A clock under the control of this program.
static long long virtual_ns = 1000000000000;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(duration(virtual_ns));
}
}}}
static void advance_ms(long long ms) { virtual_ns += ms * 1000000; }
'''
def scratch(name):
    d='/tmp/plant/'+name
    shutil.rmtree(d,ignore_errors=True); os.makedirs('/tmp/plant',exist_ok=True)
    subprocess.check_call(['cp','-a','/repo',d]); shutil.rmtree(d+'/_build',ignore_errors=True); return d
def mk(spec):
    m={}
    exec(open(spec).read(),m)
    for p in m['PLANTS']:
        d=f"{SEED}/{p['id']}"; 
        w=scratch('mk')
        for f,old,new in p['edits']:
            fn=w+'/include/lru/'+f; t=open(fn).read()
            if t.count(old)!=1: print('!!',p['id'],f,'count',t.count(old),repr(old[:60])); break
            open(fn,'w').write(t.replace(old,new))
        else:
            os.makedirs(d,exist_ok=True)
            diff=sh(f'git -C {w} diff').stdout
            open(d+'/patch.diff','w').write(diff)
            san='-fsanitize=address,undefined -fno-sanitize-recover=all' if p.get('san') else ''
            open(d+'/demo.sh','w').write(DEMO_SH%san); os.chmod(d+'/demo.sh',0o755)
            open(d+'/demo.cpp','w').write(PRE%(CLOCK if p.get('clock') else '')+p['demo'].strip('\n')+'\n')
            json.dump({'property':p['property'],'needs':p['needs'],'what_it_breaks':p['breaks']},open(d+'/meta.json','w'),indent=1)
            print('made',p['id'])
        shutil.rmtree(w)
def blame_ok(pid):
    d=f'{SEED}/{pid}'; cur=None; bad=[]; n=0; adds=0
    for l in open(d+'/patch.diff'):
        if l.startswith('--- a/'): cur=l[6:].strip(); bl=sh(f'git -C /repo blame -s {"d189115"}..HEAD -- {cur}').stdout.split('\n')
        elif l.startswith('@@'): ln=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('+++') or l.startswith('diff') or l.startswith('index'): pass
        elif l.startswith('-'):
            n+=1
            if not bl[ln-1].startswith('^'): bad.append(bl[ln-1])
            ln+=1
        elif l.startswith('+'): adds+=1
        else: ln+=1
    return n,adds,bad
def test(ids,checks):
    for pid in ids:
        d=f'{SEED}/{pid}'; meta=json.load(open(d+'/meta.json'))
        n,adds,bad=blame_ok(pid)
        w=scratch(pid)
        r=sh(f'git -C {w} apply {d}/patch.diff'); 
        if r.returncode: print(pid,'PATCH FAILS',r.stderr); continue
        res=[f'-{n}+{adds}'+(f' FIXLINES {bad}' if bad else '')]
        # demo
        a=sh(f'bash {d}/demo.sh',cwd='/repo'); b=sh(f'bash {d}/demo.sh',cwd=w)
        res.append(f'demo {a.returncode}/{b.returncode}')
        if a.returncode: print(a.stdout[-800:],a.stderr[-1500:])
        # build + tests
        for s in ('build','test'):
            t=open(f'/opt/vp/{s}.sh').read().replace('/repo',w).replace('/opt/vp/build.sh',f'{w}.build.sh')
            open(f'{w}.{s}.sh','w').write(t)
        t=sh(f'bash {w}.test.sh {w}.json')
        try:
            j=json.load(open(w+'.json'))
            base=json.load(open('/opt/vp/BASELINE.json'))
            st=base.get('stable') or base.get('passed') or base.get('tests') or base
            names=set(x if isinstance(x,str) else x.get('id') for x in st)
            passed=set(j['passed']); lost=names-passed
            res.append(f'tests {len(names&passed)}/{len(names)}'+(f' LOST {sorted(lost)[:4]}' if lost else ''))
        except Exception as e: res.append('tests? '+repr(e)+t.stdout[-500:]+t.stderr[-500:])
        cs=[meta['property']] if checks=='own' else checks
        for c in cs:
            r=sh(f'python3 check.py {c}',cwd='/verif',env=dict(os.environ,VERIF_REPO=w,VERIF_TIER='quick',VERIF_SEED='1'))
            v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            res.append(f'{c}:{r.returncode}{"V" if v else ""}' )
            if r.returncode not in(0,1): res.append(r.stdout[-300:]+r.stderr[-300:])
        print(pid,'|',' | '.join(res),flush=True)
        shutil.rmtree(w); 
        for s in ('.build.sh','.test.sh','.json'):
            try: os.remove(w+s)
            except OSError: pass
if __name__=='__main__':
    if sys.argv[1]=='mk': mk(sys.argv[2])
    else:
        a=sys.argv[2:]; checks='own'
        if '--nochecks' in a: a.remove('--nochecks'); checks=[]
        for x in list(a):
            if x.startswith('--checks='): checks=x[9:].split(','); a.remove(x)
        test(a,checks)
