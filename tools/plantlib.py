import os, subprocess, shutil, json, sys
S='/verif/seeded'
FI='''#include <cstdlib>
#include <new>
#include <cstdio>
#include <string>
#include <vector>
// the n-th allocation from arm() on fails (1 = the next one); 0 = none
static long fi_at = 0, fi_n = 0; static bool fi_fired = false; static long fi_live = 0;
static void arm(long n) { fi_at = n; fi_n = 0; fi_fired = false; }
void* operator new(std::size_t n) { if (fi_at && ++fi_n == fi_at) { fi_fired = true; throw std::bad_alloc(); } void* p = std::malloc(n); if (!p) throw std::bad_alloc(); ++fi_live; return p; }
void operator delete(void* p) noexcept { if (p) { --fi_live; std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { --fi_live; std::free(p); } }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
'''
DEMO='''#!/bin/bash
# exit 0: the library behaves; 1: it does not
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O1 -w %(flags)s -I include/public -I "$D" "$D"/demo*.cpp %(src)s -o "$W/demo" -lpthread || exit 3
%(pre)s "$W/demo"
rc=$?; [ $rc = 0 ] && exit 0; echo "demo failed with $rc"; exit 1
'''
def bug(id, prop, needs, breaks, edits, demo, flags='', pre='timeout 120', src='src/*.cpp src/BigIntegerCalculator/*.cpp', files=None, demosh=None):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    w='/tmp/bugs/w'; shutil.rmtree(w,ignore_errors=True)
    subprocess.run(['git','clone','-q','/repo',w],check=True)
    for f,a,b in edits:
        p=w+'/'+f; t=open(p).read()
        if t.count(a)!=1: print(id,f,'pattern count',t.count(a), repr(a[:60])); return
        open(p,'w').write(t.replace(a,b))
    d=subprocess.run(['git','diff'],cwd=w,stdout=subprocess.PIPE,check=True).stdout
    o=S+'/'+id; shutil.rmtree(o,ignore_errors=True); os.makedirs(o)
    open(o+'/patch.diff','wb').write(d)
    if demo is not None:
        open(o+'/demo.cpp','w').write(demo)
        if '"fi.h"' in demo: open(o+'/fi.h','w').write(FI)
    for n,t in (files or {}).items(): open(o+'/'+n,'w').write(t)
    open(o+'/demo.sh','w').write(demosh or DEMO%dict(flags=flags,pre=pre,src=src)); os.chmod(o+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(o+'/meta.json','w'),indent=1)
    shutil.rmtree(w,ignore_errors=True)
    print(id,'written')
