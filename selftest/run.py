#!/usr/bin/env python3
"""Mutation self-test of the analyser: applies each edit of mutants.py to a
scratch copy of /repo and runs all checks on it.  'break' edits must be
reported by their property, 'keep' edits (behaviour preserved) by none.
usage: run.py [-k substring] [-p PROP] [-v]      (tool: $VERIF_TOOL or /tmp/verif)"""
import os, subprocess, sys, shutil, tempfile, argparse, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import mutants
ap = argparse.ArgumentParser(); ap.add_argument('-k'); ap.add_argument('-p'); ap.add_argument('-v', action='store_true'); ap.add_argument('-b', action='store_true', help='go build each mutant'); ap.add_argument('-a', action='store_true', help='all checks, not only the intended one, for breaking edits')
ap.add_argument("-s", type=int, default=0, help="start with edit n"); a = ap.parse_args()
TOOL = os.environ.get('VERIF_TOOL', '/tmp/verif')
base = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
N = int(os.environ.get('VERIF_JOBS', '7'))
dirs = []
for i in range(N):
    d = f'{base}/{i}'; os.makedirs(d + '/vd/evidence')
    shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('.git', 'test_data'), symlinks=True)
    for f in ('known_findings.jsonl',):
        if os.path.exists(f'{here}/../{f}'): shutil.copy(f'{here}/../{f}', d + '/vd/')
    dirs.append(d)
import queue
pool = queue.Queue(); [pool.put(d) for d in dirs]
def one(m):
    d = pool.get()
    try:
        saved = {}
        for f, old, new in m['edits']:
            p = f'{d}/r/{f}'
            if not os.path.exists(p): return m, None, 'no file ' + f
            s = open(p).read()
            if p not in saved: saved[p] = s
            if s.count(old) < 1: return m, None, f'edit does not apply: {f}: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new, m.get('count', 1)))
        try:
            if a.b:
                b = subprocess.run('. /tmp/genv.sh; cd %s/r && go build ./...' % d, shell=True, capture_output=True, text=True)
                if b.returncode: return m, None, 'BUILD ' + b.stderr
            env = dict(os.environ, VERIF_REPO=d + '/r', VERIF_DIR=d + '/vd')
            which = m['prop'] if (m['kind'] == 'break' and not a.a and not m.get('any')) else 'all'
            o = subprocess.run(f'. /tmp/genv.sh; {TOOL} check {which}', shell=True, capture_output=True, text=True, env=env, timeout=800)
            return m, o.returncode, o.stdout + o.stderr
        finally:
            for p, s in saved.items(): open(p, 'w').write(s)
    finally:
        pool.put(d)
ms = [m for m in mutants.ALL if m and (not a.k or a.k in m['name']) and (not a.p or m["prop"] in a.p.split(","))]
ms = ms[a.s:]
bad = 0
with cf.ThreadPoolExecutor(N) as ex:
    for m, rc, out in ex.map(one, ms):
        if rc is None: bad += 1; print('ERROR ', m['kind'], m['prop'], m['name'], out); continue
        hit = [l.split('property=')[1].split()[0] for l in out.splitlines() if l.startswith('VIOLATION')]
        if m['kind'] == 'break': ok = rc == 1 and m['prop'] in hit
        else: ok = rc == 0
        if not ok:
            bad += 1; print('MISSED' if m['kind'] == 'break' else 'ALARM ', m['prop'], m['name'], hit, rc)
            if m['kind'] == 'keep' or rc not in (0, 1) or a.v: print('\n'.join(l for l in out.splitlines() if l.startswith('  ') or 'VIOL' in l or rc not in (0,1))[:3000])
        elif a.v:
            print('ok    ', m['kind'], m['prop'], m['name'], hit)
            if m['kind'] == 'break': print('\n'.join(l for l in out.splitlines() if l.startswith('  '))[:800])
shutil.rmtree(base)
print(len(ms), 'edits,', bad, 'bad')
sys.exit(1 if bad else 0)
