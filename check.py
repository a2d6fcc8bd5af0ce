#!/usr/bin/env python3
"""check.py ID: decides one property of /repo by generated-input search.

Compiles the harness harness/<id>.cc with the sources of /repo it needs (found
by following includes; all library sources if that does not link), runs it, and
writes evidence/<ID>.json.  Exit 0: no violation; 1: VIOLATION; 2: the check
itself could not run (e.g. the tree does not compile).
"""
import sys, os, re, json, hashlib, subprocess, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
OUT = os.path.join(VERIF, '.out')
HARNESS = os.path.join(VERIF, 'harness')
JOBS = min(8, os.cpu_count() or 8)
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import spec as SPEC

def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)

_read_cache = {}
def read(p):
    if p not in _read_cache:
        with open(p, 'rb') as f: _read_cache[p] = f.read()
    return _read_cache[p]

INC = re.compile(rb'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)
_inc_cache = {}
def direct_includes(p, incdirs):
    if p in _inc_cache: return _inc_cache[p]
    res = []
    for m in INC.findall(read(p)):
        n = m.decode()
        for d in [os.path.dirname(p)] + incdirs:
            q = os.path.normpath(os.path.join(d, n))
            if os.path.isfile(q): res.append(q); break
    _inc_cache[p] = res
    return res

def closure(p, incdirs):
    seen = {p}; todo = [p]
    while todo:
        for q in direct_includes(todo.pop(), incdirs):
            if q not in seen: seen.add(q); todo.append(q)
    return seen

def library_sources():
    """All translation units the repository's own build lists for the library."""
    txt = read(os.path.join(REPO, 'lib', 'Makefile.am')).decode()
    return [os.path.join(REPO, 'lib', s) for s in re.findall(r'[\w./+-]+\.(?:cc|cpp|c)\b', txt)
            if os.path.isfile(os.path.join(REPO, 'lib', s))]

def py_flags():
    import sysconfig
    inc = ['-I' + sysconfig.get_paths()['include']]
    try:
        cfg = subprocess.run(['python3-config', '--includes'], capture_output=True, text=True).stdout.split()
        inc = sorted(set(cfg)) or inc
    except OSError: pass
    try:
        ld = subprocess.run(['python3-config', '--embed', '--ldflags'], capture_output=True, text=True).stdout.split()
    except OSError: ld = []
    return inc, ld

class Builder:
    def __init__(self, s):
        self.s = s
        self.incdirs = [HARNESS, os.path.join(REPO, 'lib')]
        inc, self.pyld = py_flags()
        base = ['-std=gnu++17', '-w', '-g0', '-fopenmp', '-pthread', '-D_GLIBCXX_ASSERTIONS']
        if s.get('asan', True): base += ['-fsanitize=address']
        base += s.get('cxxflags', [])
        self.base = base + ['-I' + d for d in self.incdirs] + inc
        self.opt = s.get('opt', '-O1')
        self.compiled = 0
        os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    def flags(self, src):
        o = self.opt
        rel = src[len(REPO):] if src.startswith(REPO) else src
        for k in SPEC.O0:
            if k in rel: o = '-O0'
        if os.path.basename(src) == 'pbt_main.cc': o = '-O1'
        return [o] + self.base
    def compile(self, src):
        f = self.flags(src)
        h = hashlib.sha256(('\0'.join(f) + src).encode())
        for q in sorted(closure(src, self.incdirs)):
            h.update(q.encode()); h.update(hashlib.sha256(read(q)).digest())
        obj = os.path.join(BUILD, 'obj', os.path.basename(src) + '.' + h.hexdigest()[:24] + '.o')
        if not os.path.exists(obj):
            tmp = obj + '.%d.tmp.o' % os.getpid()
            r = subprocess.run(['g++'] + f + ['-c', src, '-o', tmp], capture_output=True, text=True)
            if r.returncode: return (src, None, r.stderr[-3000:])
            os.replace(tmp, obj); self.compiled += 1
        return (src, obj, '')
    def compile_all(self, srcs):
        order = sorted(srcs, key=lambda s: -SPEC.weight(s, os.path.getsize(s)))
        with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(self.compile, order))
        bad = [r for r in res if r[1] is None]
        if bad:
            for b in bad[:3]: print('compile error in %s:\n%s' % (b[0], b[2]))
            die('the tree does not compile with the harness')
        return {r[0]: r[1] for r in res}
    def needed(self, roots):
        lib = library_sources(); bystem = {}
        for s in lib: bystem.setdefault(os.path.splitext(s)[0], s)
        for a, b in SPEC.PARTNER.items():
            a, b = os.path.join(REPO, 'lib', a), os.path.join(REPO, 'lib', b)
            if b in lib: bystem.setdefault(a, b)
        have, todo = [], list(roots)
        seen = set(todo)
        while todo:
            p = todo.pop(); have.append(p)
            for q in closure(p, self.incdirs):
                s = bystem.get(os.path.splitext(q)[0])
                if s and s not in seen and not any(x in s for x in self.s.get('exclude', [])): seen.add(s); todo.append(s)
        return have, lib
    def link(self, objs, out):
        ld = ['-lboost_serialization', '-lgmpxx', '-lgmp', '-ldl']
        if any('python-function' in o for o in objs): ld += self.pyld
        ld += self.s.get('ldflags', [])
        f = ['-fopenmp', '-pthread', '-rdynamic'] + (['-fsanitize=address'] if self.s.get('asan', True) else [])
        return subprocess.run(['g++'] + f + ['-o', out] + objs + ld, capture_output=True, text=True)
    def program(self, roots, name):
        srcs, lib = self.needed(roots)
        objs = self.compile_all(srcs)
        out = os.path.join(BUILD, name)
        r = self.link(list(objs.values()), out)
        if r.returncode:
            srcs = list(dict.fromkeys(srcs + lib))
            objs = self.compile_all(srcs)
            r2 = self.link(list(objs.values()), out)
            if r2.returncode: print(r2.stderr[-3000:]); die('link failed')
        return out

def load_known(pid):
    """known-findings.txt lines: 'known: property=<id> sub=<sub> tag=<tag> <text>' or 'fixed: ...'."""
    res = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known:\s+property=(\S+)\s+sub=(\S+)\s+tag=(\S+)\s+(.*)', l)
            if m and m.group(1) == pid: res[m.group(2) + '|' + m.group(3)] = m.group(4).strip()
    return res

def main():
    args = [a for a in sys.argv[1:]]
    tier = os.environ.get('VERIF_TIER', 'quick'); replay = None; only = None; scale = None
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    pid = None; build_only = False
    while args:
        a = args.pop(0)
        if a == '--tier': tier = args.pop(0)
        elif a == '--seed': seed = int(args.pop(0))
        elif a == '--replay': replay = args.pop(0)
        elif a == '--only': only = args.pop(0)
        elif a == '--scale': scale = args.pop(0)
        elif a == '--build': build_only = True
        else: pid = a
    t0 = time.time()
    s = SPEC.CHECKS[pid]
    os.makedirs(OUT, exist_ok=True); os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    b = Builder(s)
    if 'prepare' in s: s['prepare'](b)
    exe = b.program([os.path.join(HARNESS, s['harness']), os.path.join(HARNESS, 'pbt_main.cc')] + [os.path.join(REPO, x) for x in s.get('extra', [])], pid.lower())
    tbuild = time.time() - t0
    if build_only: print('built %s in %.1f s (%d compiled)' % (exe, tbuild, b.compiled)); return 0
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=2600:detect_stack_use_after_return=0:handle_abort=0'
        env['OMP_NUM_THREADS'] = str(s.get('omp', 1)); env['VERIF_REPO'] = REPO; env['VERIF_BUILD'] = BUILD
        env['OMP_WAIT_POLICY'] = 'passive'
        env['LC_ALL'] = 'C'
        known = load_known(pid)
        with open(os.path.join(scratch, 'known'), 'w') as f: f.write('\n'.join(known) + '\n')
        resf = os.path.join(scratch, 'result.json')
        cmd = [exe, '--seed', str(seed), '--workers', str(s.get('workers', JOBS)), '--scratch', scratch, '--known', os.path.join(scratch, 'known'),
               '--hang', str(s.get('hang', 40)), '--out', resf]
        cmd += ['--cap', str(s.get('cap_thorough', 700 - min(200, tbuild)) if tier == 'thorough' else s.get('cap', 150))]
        if tier == 'thorough': cmd += ['--thorough']
        if s.get('racy'): cmd += ['--racy']
        if only: cmd += ['--only', only]
        scale = scale or str(s.get('scale', 1) if tier == 'quick' else s.get('scale_thorough', s.get('scale', 1)))
        cmd += ['--scale', scale]
        if replay:
            return subprocess.run([exe, '--replay', replay, '--scratch', scratch, '--hang', '60'], env=env).returncode
        r = subprocess.run(cmd, env=env)
        if r.returncode not in (0, 1) or not os.path.exists(resf): die('harness ended with %s' % r.returncode)
        res = json.load(open(resf))
        viol = []
        for i, f in enumerate(res['failures']):
            path = os.path.join(OUT, '%s-%s-%s.replay' % (pid, f['sub'], hashlib.sha1(' '.join(f['tape']).encode()).hexdigest()[:10]))
            with open(path, 'w') as o:
                o.write(f['sub'] + (' thorough' if tier == 'thorough' else '') + '\n' + ' '.join(f['tape']) + '\n')
            with open(path + '.txt', 'w') as o:
                o.write('property %s, sub-check %s, tag %s\n%s\n\ncase: %s\n' % (pid, f['sub'], f['tag'], f['msg'], f['note']))
            viol.append({'sub': f['sub'], 'tag': f['tag'], 'message': f['msg'][:2000], 'case': f['note'][:2000], 'replay': path})
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
              'coverage': {'evaluations': res['evaluations'], 'distinct_nontrivial': res['distinct_nontrivial'], 'rule': s['rule'],
                           'samples': res['samples'][:40] or [v['case'] for v in viol], 'discarded': res['discarded'], 'planned': res['planned'],
                           'per_subcheck': res['per_subcheck'], 'labels': res['labels'], 'shrink_attempts': res['shrink_attempts'],
                           'unreproduced': res['unreproduced'], 'known_findings_hit': res['known']},
              'wall_s': round(time.time() - t0, 2), 'build_s': round(tbuild, 2),
              'assumptions': s.get('assumptions', []), 'violations': viol}
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as o: json.dump(ev, o, indent=1)
        for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
        print('%s tier=%s seed=%d cases=%d nontrivial=%d build=%.1fs run=%.1fs%s' % (pid, tier, seed, res['evaluations'], res['distinct_nontrivial'], tbuild, res['wall'],
              '' if not res['unreproduced'] else ' unreproduced=%d' % res['unreproduced']))
        for v in viol:
            print('sub-check %s, %s: %s\n  case: %s' % (v['sub'], v['tag'], v['message'][:800], v['case'][:800]))
            print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
        return 1 if viol else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
