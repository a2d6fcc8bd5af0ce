#!/usr/bin/env python3
"""automut.py SEED COUNT [file-substring...]: random small mutations of library lines, run against the checks that cover the file.

Prints one line per mutant; MISSED ones are for a human to look at (equivalent, outside every property, or a gap)."""
import sys, os, re, random, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = '/tmp/automut%s' % sys.argv[1]
MAP = [
 ('functions/collection/parsed-multi', 'P12'), ('functions/collection/tsp', 'P01,P10'), ('functions/collection/sudoku', 'P01,P10'), ('functions/collection/factor', 'P01,P10'),
 ('multiobjective/functions/collection', 'P12'), ('multiobjective/functions', 'P12'), ('multiobjective/algorithms/population', 'P22,P06'), ('multiobjective/algorithms', 'P22,P06'), ('multiobjective/app', 'P23'),
 ('functions/collection/walsh', 'P01,P02,P21,P09,P03'), ('functions/collection/ising', 'P01,P02,P21,P09,P03'), ('functions/collection/max-sat', 'P01,P10'), ('functions/collection/qubo', 'P01,P10,P02'), ('functions/collection', 'P01,P03,P02,P09'),
 ('functions/controllers', 'P04,P02,P06'), ('functions/modifiers', 'P05,P02,P03'), ('functions/function.', 'P01,P21,P03,P17'), ('functions/walsh-term', 'P21'), ('functions/', 'P12'),
 ('maps/', 'P08,P09'), ('bit-matrix', 'P07'), ('bit-vector', 'P24'), ('permutation.', 'P24'), ('iterator.', 'P14'), ('neighborhoods/neighborhood-iterator', 'P14'), ('neighborhoods/', 'P13'), ('representations/', 'P11'),
 ('algorithms/local-search', 'P17,P16,P15'), ('algorithms/probability-vector', 'P20,P16,P15,P06'), ('algorithms/walsh-moment', 'P20,P16,P15,P06'), ('algorithms/mimic', 'P20,P16,P15'), ('algorithms/population', 'P18,P06,P15'), ('selection', 'P18'), ('crossover', 'P18'), ('algorithms/evolutionary', 'P25,P17,P16,P15,P18,P06'), ('algorithms/', 'P15,P16'),
 ('logging', 'P16'), ('random.', 'P19,P13'), ('util.hh', 'P24'), ('serialization', 'P09,P10'), ('lib/hnco/app/parser', 'P12'), ('lib/hnco/app/make', 'P12'), ('lib/hnco/app/', 'P23'), ('app/', 'P23'),
]
def props(f):
    for k, p in MAP:
        if k in f: return p.split(',')
OPS = [(r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r' / ', [' * ']),
 (r' && ', [' || ']), (r' \|\| ', [' && ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']), (r' \*= ', [' /= ']), (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\b2\b', ['1', '3']), (r'\b1\.0\b', ['2.0']),
 (r'\bi\b', ['(i + 1)', 'j']), (r'\bj\b', ['i']), (r'std::min', ['std::max']), (r'std::max', ['std::min']), (r'\.first\b', ['.second']), (r'\.second\b', ['.first']), (r'!(?=\w)', ['']), (r'std::greater<', ['std::greater_equal<']), (r'std::greater_equal<', ['std::greater<']), (r'if \((?=[^;]*\)\s*\{?\s*$)', ['if (!(', 'if (true || ']), (r'\bint\b(?= \w+ = )', ['short']), (r'\bdouble\b', ['float']), (r'\bsize_t\b', ['unsigned char']), (r' % ', [' / ']), (r'\.begin\(\)', ['.begin() + 1']), (r'bv_flip\(', ['(void)(']), (r'break;', [';', 'return;']), (r'continue;', [';'])]
def mutants(path):
    L = open(path).read().split('\n'); res = []; com = False
    for n, l in enumerate(L):
        s = l.strip()
        if '/*' in s: com = True
        if com:
            if '*/' in s: com = False
            continue
        if not s or s.startswith(('//', '#', 'assert', 'throw', 'using', 'namespace', 'template', 'std::cerr', '*', 'class', '/')) or '<<' in s and 'stream' in s: continue
        code = l.split('//')[0]
        for a, bs in OPS:
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2: continue
                for b in bs:
                    new = code[:m.start()] + b + code[m.end():]
                    if b == 'if (!(': new = re.sub(r'\)(\s*\{?\s*)$', r'))\1', new)
                    res.append((n, l, new))
        if s.endswith(';') and not re.match(r'(return|break|continue|[\w:<>,\s\*&]+\s+\w+(\s*=.*|\(.*\)( const)?( override)?)?;$|virtual|static|using|typedef)', s) and s != '};' : res.append((n, l, l.replace(s, ';')))
    return L, res
def rare(path):
    """Mutations which need a large size or a history: a loop one short when its bound is large, a test or a statement that fails once in many times."""
    L = open(path).read().split('\n'); res = []; com = False; rnd = random.Random(path)
    for n, l in enumerate(L):
        s = l.strip()
        if '/*' in s: com = True
        if com:
            if '*/' in s: com = False
            continue
        if not s or s.startswith(('//', '#', 'assert', 'throw', 'using', 'namespace', 'template', 'std::cerr', '*', 'class', '/')) or '"' in s: continue
        k = rnd.choice([7, 23, 61, 150]); once = '([]{ static unsigned c_ = 0; return ++c_ %% %d == %d; }())' % (k, k // 2); big = rnd.choice([13, 40, 100])
        m = re.match(r'(\s*for \(.*; \w+ < )([^;]+)(; .*)$', l)
        if m: res.append((n, l, '%s(%s) - ((%s) > %d)%s' % (m[1], m[2], m[2], big, m[3])))
        m = re.match(r'(\s*(?:\} else )?if \()(.*)(\)(?: \{)?)$', l)
        if m: res += [(n, l, m[1] + '(' + m[2] + ') && !' + once + m[3]), (n, l, m[1] + '(' + m[2] + ') || ' + once + m[3])]
        if s.endswith(';') and re.search(r'[=(]|\+\+', s) and not re.match(r'(return|break|continue|[\w:<>,\s\*&]+\s+\w+(\s*=.*|\(.*\)( const)?( override)?)?;$|virtual|static|using|typedef|for|while|do|case|\}|: |_\w+\(.*\)[,{]?$)', s) and s.count('(') == s.count(')') and n and L[n - 1].strip()[-1:] in ';{})': res.append((n, l, l.replace(s, '{ if (!%s) { %s } }' % (once, s))))
    return L, res
if os.environ.get('RARE'): mutants = rare
def main():
    seed, count, subs = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    shutil.rmtree(C, ignore_errors=True); os.makedirs(C)
    for d in ('lib', 'app'): shutil.copytree('/repo/' + d, C + '/' + d, ignore=shutil.ignore_patterns('*.o', '*.lo', '.libs'))
    files = [f for f in subprocess.check_output(['git', '-C', '/repo', 'ls-files', 'lib/hnco', 'app'], text=True).split() if re.search(r'\.(cc|hh)$', f) and props(f) and not f.endswith('all.hh') and 'human' not in f and 'python' not in f]
    if subs: files = [f for f in files if any(s in f for s in subs)]
    rnd = random.Random(seed); pool = []
    for f in files:
        L, ms = mutants(C + '/' + f)
        rnd.shuffle(ms); pool.append((f, ms))
    done = 0
    while done < count:
        w = [min(len(ms), 60) * (0.5 if f.endswith('.hh') else 1) * (0.3 if 'options' in f else 1) for f, ms in pool]
        f, ms = rnd.choices(pool, w)[0]
        if not ms: continue
        n, old, new = ms.pop(); p = C + '/' + f; t = open(p).read(); L = t.split('\n'); L[n] = new; open(p, 'w').write('\n'.join(L)); done += 1
        r0 = subprocess.run(['g++', '-std=c++17', '-fsyntax-only', '-w', '-fopenmp', '-I', C + '/lib', '-I', V + '/harness', p if f.endswith('.cc') else '-include', '/dev/null' if f.endswith('.cc') else p] + ([] if f.endswith('.cc') else ['-xc++', '/dev/null']), capture_output=True, text=True)
        res = 'MISSED'; tail = ''
        if r0.returncode and 'Python.h' not in r0.stderr: res = 'nocompile'
        else:
            for pr in props(f):
                r = subprocess.run(['python3', V + '/check.py', pr], env=dict(os.environ, VERIF_REPO=C), capture_output=True, text=True)
                if r.returncode == 1: res = 'caught ' + pr; break
                if r.returncode: res = 'ERROR ' + pr; tail = r.stdout[-200:]; break
        if res != 'nocompile': print('%s %s:%d\n    - %s\n    + %s %s' % (res, f, n + 1, old.strip(), new.strip(), tail), flush=True)
        open(p, 'w').write(t)
    shutil.rmtree(C)
main()
