#!/usr/bin/env python3
"""mut.py FILE.py [id...]: quick mutation runs (no build/test of the tree) of checks against a scratch copy of the sources.
FILE.py defines MUTS = [(id, property, file, old, new), ...]."""
import sys, os, subprocess, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = '/tmp/mutcopy'
shutil.rmtree(C, ignore_errors=True); os.makedirs(C)
for d in ('lib', 'app'): shutil.copytree('/repo/' + d, C + '/' + d, ignore=shutil.ignore_patterns('*.o', '*.lo', '.libs'))
muts = runpy.run_path(sys.argv[1])['MUTS']
for m in muts:
    if sys.argv[2:] and m[0] not in sys.argv[2:]: continue
    i, prop, f, old, new = m
    p = C + '/' + f; t = open(p).read()
    if t.count(old) < 1: print(i, 'NO MATCH'); continue
    if t.count(old) > 1: print(i, 'matches', t.count(old), '(first replaced)')
    open(p, 'w').write(t.replace(old, new, 1))
    for pr in prop.split(','):
        r = subprocess.run(['python3', V + '/check.py', pr], env=dict(os.environ, VERIF_REPO=C), capture_output=True, text=True)
        l = [x for x in r.stdout.splitlines() if x.startswith('sub-check') or 'error' in x.lower()]
        print(i, pr, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR'), '|', (l[0][:150] if l else r.stdout[-150:].strip())); sys.stdout.flush()
    open(p, 'w').write(t)
shutil.rmtree(C)
