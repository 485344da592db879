"""Runs cases through a driver program; parses the event log."""
import os, subprocess, tempfile, shutil, re, signal
from concurrent.futures import ThreadPoolExecutor

ENV = dict(os.environ)
ENV.update({
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=98:detect_leaks=0:'
                    'allocator_may_return_null=1:handle_abort=1:'
                    'detect_stack_use_after_return=0:'
                    'max_allocation_size_mb=2048:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'LC_ALL': 'C', 'TZ': 'UTC',
})


def hx(b):
    if isinstance(b, str):
        b = b.encode('latin-1')
    return b.hex() if b else '-'


def unhx(s):
    return b'' if s == '-' else bytes.fromhex(s)


class Case:
    """lines: list of driver commands. meta: anything the oracle needs."""
    __slots__ = ('id', 'lines', 'meta', 'events', 'crash', 'leak', 'stats',
                 'stderr', 'ran')

    def __init__(self, lines, meta=None):
        self.lines = lines
        self.meta = meta
        self.id = None
        self.events = []
        self.crash = None
        self.leak = 0
        self.stats = (0, 0, 0)
        self.stderr = ''
        self.ran = False


def classify(rc, err):
    """(kind, key, text) of an abnormal driver exit."""
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    kind = None
    if m:
        kind = 'asan:' + m.group(1)
    else:
        m = re.search(r'runtime error: ([^\n]*)', err)
        if m:
            kind = 'ubsan:' + re.sub(r'0x[0-9a-f]+|-?\d[\d.e+]*', 'N', m.group(1))[:90]
        elif 'VERIF-MONITOR: use of a freed cell' in err:
            kind = 'monitor:freed-cell'
        elif 'VERIF-MONITOR: hang' in err or rc == 97:
            kind = 'hang'
        elif 'Assertion' in err:
            m = re.search(r"Assertion `([^']*)'", err)
            kind = 'assert:' + (m.group(1)[:60] if m else '')
        elif 'ThreadSanitizer' in err:
            kind = 'tsan'
        elif rc == -signal.SIGABRT:
            kind = 'abort'
        else:
            kind = 'exit:%s' % rc
    if kind == 'asan:ABRT' or kind == 'asan:unknown-crash':
        m = re.search(r"Assertion `([^']*)'", err)
        if m:
            kind = 'assert:' + m.group(1)[:60]
        elif 'VERIF-MONITOR: use of a freed cell' in err:
            kind = 'monitor:freed-cell'
        else:
            kind = 'abort'
    fn = []
    for m in re.finditer(r'#\d+ 0x[0-9a-f]+ in (\S+) .*?/src/([\w/.-]+)', err):
        if m.group(1) not in fn:
            fn.append(m.group(1))
        if len(fn) >= 4:
            break
    return kind, fn


def _run_chunk(exe, cases, workdir, hang_s, env=None):
    d = tempfile.mkdtemp(dir=workdir)
    inp, log = os.path.join(d, 'in.txt'), os.path.join(d, 'log.txt')
    with open(inp, 'w') as f:
        for i, c in enumerate(cases):
            f.write('BEGIN %d\n' % i)
            for l in c.lines:
                f.write(l + '\n')
            f.write('END\n')
    start = 0
    while start < len(cases):
        open(log, 'w').close()
        try:
            p = subprocess.run([exe, inp, log, str(start), str(hang_s)], cwd=d,
                               stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, env=env or ENV,
                               timeout=hang_s * 3 + 600)
            rc, err = p.returncode, p.stderr.decode('latin-1')
        except subprocess.TimeoutExpired as e:
            rc, err = 97, 'VERIF-MONITOR: hang (outer)'
        cur = None
        last_done = start - 1
        with open(log, encoding='latin-1') as f:
            for line in f:
                t = line.rstrip('\n').split(' ')
                if t[0] == 'BEGIN':
                    cur = cases[int(t[1])]
                    cur.ran = True
                    cur.events = []
                    ci = int(t[1])
                elif cur is None:
                    continue
                elif t[0] == 'END':
                    cur.stats = tuple(int(x) for x in t[1:4])
                    last_done = ci
                    cur = None
                elif t[0] == 'LEAK':
                    cur.leak = int(t[1])
                else:
                    cur.events.append(t)
        if rc == 0:
            if last_done != len(cases) - 1:
                raise RuntimeError('driver stopped early: %d of %d' %
                                   (last_done, len(cases)))
            break
        bad = last_done + 1
        if bad >= len(cases):
            raise RuntimeError('driver failed after the last case: %s\n%s' %
                               (rc, err[-2000:]))
        c = cases[bad]
        if not c.ran and rc == 2:
            raise RuntimeError('driver could not start: ' + err[-500:])
        c.ran = True
        c.crash = classify(rc, err)
        c.stderr = err[-6000:]
        start = bad + 1
    shutil.rmtree(d, ignore_errors=True)


def run(exe, cases, jobs=8, hang_s=20, chunk=None, env=None):
    """Runs all cases; each gets .events/.crash/.leak/.stats."""
    cases = list(cases)
    for i, c in enumerate(cases):
        c.id = i
    if not cases:
        return cases
    work = tempfile.mkdtemp(prefix='verif.')
    try:
        n = chunk or max(1, min(400, (len(cases) + jobs - 1) // jobs))
        chunks = [cases[i:i + n] for i in range(0, len(cases), n)]
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(lambda ch: _run_chunk(exe, ch, work, hang_s, env), chunks))
        # a hang must reproduce alone before it counts
        hung = [c for c in cases if c.crash and c.crash[0] == 'hang']
        for c in hung[:8]:
            c2 = Case(c.lines)
            _run_chunk(exe, [c2], work, hang_s * 3, env)
            c.events, c.crash, c.leak = c2.events, c2.crash, c2.leak
            c.stats, c.stderr = c2.stats, c2.stderr
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return cases
