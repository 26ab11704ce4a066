#!/usr/bin/env python3
"""Confirms a planted bug: seedtool.py DIR...  (patch applies, builds, stable tests pass, demo 0/nonzero).
Works in scratch copies /tmp/w/seed.<pid>; never touches /repo."""
import json, os, re, subprocess, sys, shutil
DEMO='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -w -O1 %s-Iinclude "$d/demo.cpp" -o "$t/demo" || exit 3
timeout 60 "$t/demo"
'''
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
def main(dirs, tests=True):
    w='/tmp/w/seedrepo'
    if not os.path.isdir(w):
        os.makedirs(w); sh(f'git -C /repo archive HEAD | tar x -C {w}'); sh('git init -q; git add -A; git -c user.name=x -c user.email=x@x commit -qm b',cwd=w)
        # build dirs need own cmake cache
        r=sh(f'sed "s#/repo#{w}#g" /opt/vp/build.sh > /tmp/w/build.sh; bash /tmp/w/build.sh test'); print('base build',r.returncode, r.stdout[-300:] if r.returncode else '')
    ok=True
    for d in dirs:
        d=os.path.abspath(d); name=os.path.basename(d)
        sh('git checkout -q -- .',cwd=w)
        if sh(f'bash {d}/demo.sh',cwd=w).returncode!=0: print(name,'DEMO FAILS ON BASE'); print(sh(f'bash {d}/demo.sh',cwd=w).stdout[-1500:]); ok=False; continue
        r=sh(f'git apply {d}/patch.diff',cwd=w)
        if r.returncode: print(name,'PATCH',r.stdout); ok=False; continue
        r=sh(f'bash {d}/demo.sh',cwd=w)
        if r.returncode in (0,3): print(name,'DEMO rc',r.returncode,r.stdout[-1500:]); ok=False; sh('git checkout -q -- .',cwd=w); continue
        if tests:
            b=sh('bash /tmp/w/build.sh test')
            if b.returncode: print(name,'BUILD FAILS',b.stdout[-1500:]); ok=False; sh('git checkout -q -- .',cwd=w); continue
            sh(f'rm -f /tmp/w/ct.xml; ctest --test-dir {w}/_build/test -j8 --timeout 20 --output-junit /tmp/w/ct.xml')
            res=sh('python3 /opt/vp/results.py /tmp/w/o.json junit:/tmp/w/ct.xml')
            o=json.load(open('/tmp/w/o.json')); base=json.load(open('/opt/vp/BASELINE.json'))
            st=base.get('passed') or base.get('stable') or base.get('tests') or []
            miss=[x for x in st if x not in o['passed']]
            if miss: print(name,'TESTS FAIL',miss[:5],len(miss)); ok=False; sh('git checkout -q -- .',cwd=w); continue
        print(name,'OK',flush=True)
        sh('git checkout -q -- .',cwd=w)
    return ok
if __name__=='__main__':
    a=sys.argv[1:]; t='--notest' not in a; a=[x for x in a if x!='--notest']
    sys.exit(0 if main(a,t) else 1)
