#!/usr/bin/env python3
"""Random small changes to /repo's sources: which survive the repository's unit
tests, and which of those does no check notice?  Only a development aid.
  mutate.py SECONDS WORKERS SEED OUT"""
import os, random, re, shutil, subprocess, sys, threading, time, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = (['src/' + f for f in sorted(os.listdir('/repo/src')) if f.startswith('mjs_') and f.endswith('.c')] +
         ['src/frozen/frozen.c', 'src/common/mbuf.c', 'src/common/cs_varint.c', 'src/common/mg_str.c', 'src/common/str_util.c', 'src/ffi/ffi.c'])
ORDER = ['C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C02', 'C17', 'C20', 'C22', 'C18', 'C21', 'C15', 'C03', 'C01']
N = {'C01': 600, 'C03': 600, 'C15': 1200}
FIRST = {'frozen': ['C09', 'C21'], 'mbuf': ['C18', 'C13'], 'varint': ['C18', 'C08'], 'mg_str': ['C18'], 'str_util': ['C18'], 'ffi': ['C11', 'C12'], 'json': ['C09'],
         'string': ['C08', 'C06'], 'array': ['C07'], 'gc': ['C02', 'C03'], 'dataview': ['C17', 'C22'], 'struct': ['C17'], 'conversion': ['C04', 'C08'], 'util': ['C20', 'C15'], 'bcode': ['C15', 'C16'], 'tok': ['C04', 'C01'], 'object': ['C06', 'C17']}
OPS = [(r'(?<![<>=!\-])<(?![<=])', ['<=', '>']), (r'(?<![<>=!\-])>(?![>=])', ['>=', '<']), (r'<=(?!=)', ['<']), (r'>=(?!=)', ['>']), (r'==', ['!=']), (r'!=', ['==']),
       (r'&&', ['||']), (r'\|\|', ['&&']), (r'\+ 1\b', ['', '+ 2', '- 1']), (r'- 1\b', ['', '- 2', '+ 1']), (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\b([2-9]|[1-9]\d+)\b', ['%d+', '%d-']),
       (r'\+\+', ['--']), (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'(?<![+\-=<>!*/|&^])\+(?![+=])', ['-']), (r' - ', [' + ']), (r'!(?=[a-zA-Z(])', ['']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bbreak;', [';']),
       (r'\bcontinue;', [';']), (r'goto clean;', [';'])]


def mutate(rng, text):
    lines = text.split('\n')
    for _ in range(200):
        i = rng.randrange(len(lines))
        l = lines[i]
        s = l.strip()
        if not s or s.startswith(('#', '/*', '*', '//', 'LOG', 'assert', 'case', 'static', 'const', 'struct', 'MJS_PRIVATE', 'extern')) or 'LOG(' in s or s in '{}': continue
        if not l.startswith(' ') or 'VERIF' in s or 'verif' in s: continue
        if rng.random() < .22 and s.endswith(';') and not s.startswith(('return', 'break', 'int ', 'size_t ', 'mjs_val_t ', 'char ', 'double ', 'unsigned ', 'goto', '}')) and re.match(r'[\w>.\-\[\]*()]+\s*(=|\+=|-=|\(|\+\+|--)', s):
            new = l[:len(l) - len(l.lstrip())] + ';'
        else:
            pat, reps = rng.choice(OPS)
            ms = [m for m in re.finditer(pat, l)]
            ms = [m for m in ms if l[:m.start()].count('"') % 2 == 0 and '/*' not in l[:m.start()]]
            if not ms: continue
            m = rng.choice(ms)
            rep = rng.choice(reps)
            if rep.startswith('%d'): rep = str(int(m.group()) + (1 if rep[2] == '+' else -1))
            new = l[:m.start()] + rep + l[m.end():]
        if new == l: continue
        return '\n'.join(lines[:i] + [new] + lines[i + 1:]), i + 1, l, new
    return None


def sh(c, timeout=120, **k):
    try:
        return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **k)
    except subprocess.TimeoutExpired:
        class R: returncode = 124; stdout = 'timeout'
        return R


def worker(k, end, rng, out, lock, jobs):
    W = '/tmp/mut/%d' % k
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh('git clone -q /repo %s/repo && cp -a %s %s/verif && cp -a /repo/_build/work %s/work && rm -rf %s/verif/build %s/work/build/*' % (W, V, W, W, W, W))
    while time.time() < end:
        f = rng.choice(FILES + ['src/mjs_exec.c', 'src/mjs_parser.c', 'src/mjs_core.c', 'src/mjs_gc.c', 'src/mjs_ffi.c', 'src/mjs_string.c', 'src/mjs_object.c', 'src/mjs_bcode.c'])
        orig = open('/repo/' + f).read()
        m = mutate(rng, orig)
        if m is None: continue
        text, line, old, new = m
        for d in ('repo', 'work'): open('%s/%s/%s' % (W, d, f), 'w').write(text)
        status, by = None, ''
        try:
            r = sh('make -C %s/work -o build -o Makefile RD=/opt/vp/dockerless.sh DOCKER_CLANG="env PATH=/usr/bin:/bin" mjs.h && '
                   'make -C %s/work -o build -o Makefile RD=/opt/vp/dockerless.sh DOCKER_CLANG="env PATH=/usr/bin:/bin" mjs.c build/mjs '
                   'build/unit_test_clang_O0_offset_def_nonaggressive_gc_ build/unit_test_gcc_O1_offset_0_aggressive_gc_ build/unit_test_clang_32bit_O1_offset_4_nonaggressive_gc_' % (W, W))
            if r.returncode: status = 'nobuild'
            else:
                r = sh('cd %s/work && for b in build/unit_test_*; do TEST_SEED=1 timeout 60 ./$b >o 2>&1 || exit 1; grep -q ^PASS o || exit 1; done; '
                       'for j in tests/test_*.js; do [ "$(timeout 20 ./build/mjs -f $j 2>&1)" = true ] || exit 1; done' % W)
                if r.returncode: status = 'tests'
            if status is None:
                first = [c for p, cs in FIRST.items() if p in os.path.basename(f) for c in cs]
                for c in first + [x for x in ORDER if x not in first]:
                    r = sh('cd %s/verif && VERIF_REPO=%s/repo python3 checks/run.py %s --n %d --jobs %d --seed %d' % (W, W, c, N.get(c, 2500), jobs, rng.randrange(1000)), timeout=600)
                    if r.returncode == 1 and 'VIOLATION' in r.stdout:
                        status, by = 'caught', c
                        break
                    if r.returncode != 0:
                        status, by = 'noanswer', c + ' ' + r.stdout[-300:]
                        break
                else: status = 'MISSED'
        finally:
            for d in ('repo', 'work'): open('%s/%s/%s' % (W, d, f), 'w').write(orig)
            sh('rm -rf %s/work/build/* %s/work/mjs.c %s/work/mjs.h' % (W, W, W))
        with lock:
            with open(out, 'a') as o: o.write(json.dumps({'file': f, 'line': line, 'old': old.strip(), 'new': new.strip(), 'status': status, 'by': by}) + '\n')
    shutil.rmtree(W, ignore_errors=True)


secs, n, seed, out = float(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
lock = threading.Lock()
ts = [threading.Thread(target=worker, args=(k, time.time() + secs, random.Random('%d:%d' % (seed, k)), out, lock, max(1, 8 // n))) for k in range(n)]
for t in ts: t.start()
for t in ts: t.join()
