#!/usr/bin/env python3
"""plant.py BATCH.py [id...]: create and confirm planted bugs in a scratch copy.

BATCH.py defines PLANTS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo (C++ text) or demo_sh, [check])].
Everything runs in a private mount namespace where a copy of /repo is bound over /repo.
"""
import sys, os, subprocess, json, shutil, runpy
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = '/tmp/plantcopy'
DEMO = r'''#!/bin/bash
# run in the repository root after a build; exit 0: behaves as specified
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -I lib -I _build/obj $(python3-config --includes 2>/dev/null) "$d/demo.cc" -o "$t/demo" -fopenmp -L_build/obj/lib/.libs -lhnco -Wl,-rpath,"$PWD/_build/obj/lib/.libs" -lboost_serialization || exit 99
cd "$t" && timeout 200 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    batch = sys.argv[1]; ids = sys.argv[2:]
    if os.environ.get('PLANT_NS') != '1':
        if not os.path.isdir(COPY): subprocess.check_call(['cp', '-a', '/repo', COPY])
        else: subprocess.check_call('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % COPY, shell=True)
        env = dict(os.environ, PLANT_NS='1')
        os.execvpe('unshare', ['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && exec python3 %s %s' % (COPY, os.path.abspath(__file__), ' '.join(sys.argv[1:]))], env)
    plants = runpy.run_path(batch)['PLANTS']
    if ids: plants = [p for p in plants if p['id'] in ids]
    nocheck = os.environ.get('NOCHECK') == '1'
    # clean state: demos must pass
    print(sh('bash /opt/vp/build.sh').returncode, 'clean build')
    for p in plants:
        d = os.path.join(VERIF, 'seeded', p['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/demo.sh', 'w').write(p.get('demo_sh') or DEMO); os.chmod(d + '/demo.sh', 0o755)
        if 'demo' in p: open(d + '/demo.cc', 'w').write(p['demo'])
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        p['clean'] = r.returncode
        if r.returncode: print(p['id'], 'DEMO FAILS CLEAN', r.returncode, r.stdout[-1500:], r.stderr[-1500:])
    for p in plants:
        d = os.path.join(VERIF, 'seeded', p['id'])
        bad = False
        for f, old, new in p['edits']:
            t = open('/repo/' + f).read()
            if t.count(old) != 1: print(p['id'], 'edit matches', t.count(old), 'times in', f, repr(old[:60])); bad = True; break
            open('/repo/' + f, 'w').write(t.replace(old, new))
        if bad: sh('cd /repo && git checkout -- .'); continue
        open(d + '/patch.diff', 'w').write(sh('cd /repo && git diff').stdout)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode:
            print(p['id'], 'BUILD FAILED', (b.stdout + b.stderr)[-2500:]); sh('cd /repo && git checkout -- .'); continue
        t = sh('bash /opt/vp/test.sh /tmp/plant-out.json'); o = json.load(open('/tmp/plant-out.json'))
        nf = o['failed'] if isinstance(o['failed'], int) else len(o['failed'])
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        c = None; tail = ''
        if not nocheck:
            rr = sh('python3 %s/check.py %s' % (VERIF, p.get('check', p['property'])))
            c = rr.returncode; tail = '\n'.join(l[:300] for l in rr.stdout.splitlines()[-4:])
        ok = nf == 0 and r.returncode not in (0, 99) and p['clean'] == 0
        print('%-10s %s tests_failed=%s demo=%s(clean %s) check=%s %s' % (p['id'], 'OK ' if ok else 'BAD', nf, r.returncode, p['clean'], c, {1: 'CAUGHT', 0: 'MISSED', None: ''}.get(c, 'ERROR')))
        print('   demo:', (r.stdout + r.stderr)[-200:].strip().replace('\n', ' | '))
        if c is not None: print('   ', tail.replace('\n', '\n    '))
        if nf: print('   failed tests:', str(o)[:800])
        sys.stdout.flush()
        sh('cd /repo && git checkout -- .')
main()
