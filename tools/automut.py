#!/usr/bin/env python3
"""Mechanical mutants: automut.py filter IN OUT keeps those that compile and pass the stable tests;
automut.py check IN OUT [args of chk] runs the checker on each and records what it says."""
import sys, os, json, subprocess, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable_pass', []) or [])
def copy(k):
    d = '/tmp/mut/a%s' % k
    shutil.rmtree(d, ignore_errors=True); os.makedirs('/tmp/mut', exist_ok=True)
    shutil.copytree('/repo', d, symlinks=True)
    return d
def apply(d, m):
    s = open('/repo/' + m['File'], 'rb').read()
    s = s[:m['Start']] + m['New'].encode() + s[m['End']:]
    open(d + '/' + m['File'], 'wb').write(s)
def restore(d, m): shutil.copy('/repo/' + m['File'], d + '/' + m['File'])
def filt(ms, out, n):
    dirs = [copy(i) for i in range(n)]
    import queue; q = queue.Queue()
    for d in dirs: q.put(d)
    def one(m):
        d = q.get()
        try:
            apply(d, m)
            try:
                p = subprocess.run('unshare -Urn python3 /verif/tools/lo.py go test -count=1 . 2>&1', shell=True, cwd=d, capture_output=True, text=True, timeout=60)
            except subprocess.TimeoutExpired: return 'timeout'
            bad = [l.split()[2] for l in p.stdout.splitlines() if l.startswith('--- FAIL')]
            if '[build failed]' in p.stdout or 'setup failed' in p.stdout: return 'build'
            if 'panic:' in p.stdout or 'fatal error' in p.stdout: return 'panic'
            if bad == ['TestFormats'] : return 'ok'
            return 'killed'
        finally:
            restore(d, m); q.put(d)
    cnt = {}
    with ThreadPoolExecutor(n) as ex, open(out, 'w') as o:
        for m, r in zip(ms, ex.map(one, ms)):
            cnt[r] = cnt.get(r, 0) + 1
            if r == 'ok': o.write(json.dumps(m) + '\n'); o.flush()
    print(cnt)
    for d in dirs: shutil.rmtree(d)
def check(ms, out, args, n):
    dirs = [copy('c%d' % i) for i in range(n)]
    import queue; q = queue.Queue()
    for d in dirs: q.put(d)
    def one(m):
        d = q.get()
        try:
            apply(d, m)
            v = d + '.v'; os.makedirs(v, exist_ok=True); shutil.copy('/verif/known-findings.txt', v)
            e = dict(os.environ, VERIF_REPO=d, VERIF_DIR=v, CHK_FIRST='1', CHK_JOBS=os.environ.get('CHK_JOBS', '3'))
            try: p = subprocess.run(['/tmp/chk.m'] + args, env=e, cwd='/verif', capture_output=True, text=True, timeout=1200)
            except subprocess.TimeoutExpired: return 'timeout'
            vs = [l for l in p.stdout.splitlines() if l.startswith('VIOL') and 'float64' not in l]
            if vs: return 'caught ' + vs[0][:200]
            return 'quiet ' + ' '.join(p.stdout.splitlines()[-1:])[:200] + (' UNDEC' if 'UNDEC' in p.stdout else '')
        finally:
            restore(d, m); q.put(d)
    with ThreadPoolExecutor(n) as ex, open(out, 'w') as o:
        for m, r in zip(ms, ex.map(one, ms)):
            o.write(json.dumps(dict(m, result=r)) + '\n'); o.flush()
    for d in dirs: shutil.rmtree(d)
if __name__ == '__main__':
    ms = [json.loads(l) for l in open(sys.argv[2])]
    n = int(os.environ.get('N', '4'))
    if sys.argv[1] == 'filter': filt(ms, sys.argv[3], n)
    else: check(ms, sys.argv[3], sys.argv[4:], n)
