#!/usr/bin/env python3
"""seedgen.py BATCH.py [ID...]: builds /verif/seeded/<id>, confirms it, runs the check of its property"""
import sys, os, subprocess, json, runpy, shutil, re
from concurrent.futures import ThreadPoolExecutor
import queue
batch = runpy.run_path(sys.argv[1])
seeds = batch['SEEDS']
only = [a for a in sys.argv[2:] if not a.startswith('-')]
nocheck = '--nocheck' in sys.argv
NW = 4
PRE = '''import os, sys
SRC = os.path.join(os.getcwd(), "src")
sys.path.insert(0, SRC)
sys.dont_write_bytecode = True
import infi
infi.__path__ = [os.path.join(SRC, "infi")] + [p for p in infi.__path__ if os.path.realpath(p) != os.path.realpath(os.path.join(SRC, "infi"))]
import infi.asi
assert os.path.realpath(infi.asi.__file__).startswith(os.path.realpath(SRC)), infi.asi.__file__
'''
SH = '''#!/bin/bash
# run with cwd = the repository; 0: the property holds, non-zero: it is broken
export PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
TESTRUN = '''import sys, os
sys.dont_write_bytecode = True
exec(%r)
import pytest
sys.exit(pytest.main(["-q","-p","no:cacheprovider","--timeout=300","--continue-on-collection-errors","tests"]))
''' % PRE
orig = {}
def orig_lines(f):
    if f not in orig:
        orig[f] = set(subprocess.run(['git','-C','/repo','show','585417f:'+f],capture_output=True,text=True).stdout.splitlines())
    return orig[f]
wq = queue.Queue()
for i in range(NW):
    d = '/tmp/seedw%d' % i
    if not os.path.exists(d):
        subprocess.run(['cp','-a','/repo',d],check=True)
    wq.put(d)
def sh(cmd, cwd, timeout=1000, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1'); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e, errors='replace')
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 'TIMEOUT', ''
def one(s):
    d = wq.get(); out = []
    try:
        sh(['git','checkout','-q','--','.'], d); sh(['git','fetch','-q','/repo','HEAD'], d); sh(['git','reset','-q','--hard','FETCH_HEAD'], d)
        sd = '/verif/seeded/' + s['id']
        shutil.rmtree(sd, ignore_errors=True); os.makedirs(sd)
        open(sd+'/demo.sh','w').write(SH); os.chmod(sd+'/demo.sh',0o755)
        open(sd+'/demo.py','w').write(PRE + s['demo'].strip('\n') + '\n')
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']}, open(sd+'/meta.json','w'), indent=1)
        rc0, o0 = sh(['bash', sd+'/demo.sh'], d)
        for f, old, new in s['edits']:
            p = d+'/src/infi/asi/'+f; t = open(p).read()
            if t.count(old) != 1: return s['id'] + ' EDIT COUNT %d: %r' % (t.count(old), old[:60])
            open(p,'w').write(t.replace(old,new))
        diff = subprocess.run(['git','diff'],cwd=d,capture_output=True,text=True).stdout
        open(sd+'/patch.diff','w').write(diff)
        cur=None; changed=0; foreign=[]
        for l in diff.splitlines():
            if l.startswith('--- a/'): cur=l[6:]
            elif l.startswith('-') and not l.startswith('---') and l[1:].strip():
                if l[1:] in orig_lines(cur): changed+=1
                else: foreign.append(l[1:])
        rc1, o1 = sh(['bash', sd+'/demo.sh'], d)
        rt, ot = sh(['/opt/venv/bin/python','-W','ignore','-c',TESTRUN], d)
        tail=[l for l in ot.splitlines() if ' passed' in l][-1:] or [ot[-200:]]
        rcc=''; oc=''
        if not nocheck:
            rcc, oc = sh(['/verif/check', s['prop']], '/verif', 1000, {'VERIF_REPO':d,"VERIF_JOBS":"4"})
        viol=[l for l in oc.splitlines() if l.startswith('VIOLATION')]
        flag = 'OK ' if rc0==0 and rc1 not in (0,'TIMEOUT') and ('59 passed' in tail[0]) and changed and rcc==1 and viol else '!!! '
        r = '%s%s prop=%s demo0=%s demo1=%s tests=%s orig=%d foreign=%d check=%s viol=%d' % (flag, s['id'], s['prop'], rc0, rc1, tail[0].strip()[:22], changed, len(foreign), rcc, len(viol))
        if rc0!=0: r += '\n   demo0: ' + o0[-400:]
        if rc1!=0: r += '\n   demo1: ' + (o1.strip().splitlines() or [''])[-1][:200]
        if not nocheck and rcc!=1: r += '\n   check: ' + oc[-400:]
        return r
    finally:
        sh(['git','checkout','-q','--','.'], d); wq.put(d)
todo=[s for s in seeds if not only or s['id'] in only]
with ThreadPoolExecutor(NW) as ex:
    for r in ex.map(one, todo): print(r, flush=True)
