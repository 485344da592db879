"""The command-line tool, and debug output."""
import os, random, re, shutil, subprocess, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
from runner import Check
import build, gen, printer, model
from model import Interp, JSError, Unspecified, U
from kit import ERRNAME
from c05 import Flow, nlit
from c14 import check as c14
from gen import lit, ident, call

# as in the Makefile, without and with debugging
DEFS = ('-DMJS_MAIN', '-DMJS_EXPOSE_PRIVATE', '-DCS_ENABLE_STDIO', '-DCS_MMAP', '-DMJS_MODULE_LINES')


def subst(x):
    """print() in place of the driver's emit()."""
    if isinstance(x, model.Fn):
        x.body = subst(x.body)
        return x
    if isinstance(x, tuple):
        if x == ('id', b'emit'): return ('id', b'print')
        return tuple(subst(y) for y in x)
    if isinstance(x, list): return [subst(y) for y in x]
    return x


class Cli(Interp):
    def __init__(self):
        Interp.__init__(self)
        for n in (b'emit', b'capply', b'ctry', b'cthis', b'cnargs', b'carg', b'cerr', b'noret', b'where', b'ptr', b'cdel', b'sdesc', b'fstr'): self.g.props.pop(n)

    def show(self, v):
        if isinstance(v, model.Fn) or not (model.isnum(v) or isinstance(v, (bool, model.Obj)) or model.isstr(v) or v is U or v is model.N):
            raise Unspecified('address')
        return Interp.show(self, v)


class C(Check):
    id = 'C23'
    quick, thorough = 0, 0
    rule = ('The command-line tool, built as the Makefile does (with and without debugging support, AddressSanitizer and LeakSanitizer on), is run with random '
            'sequences of -e texts, -f and plain files (valid, failing, malformed, missing, loading each other), -j with fresh, current and stale .jsc files, '
            'debug levels 0 to 5 in any place, help and unknown flags. Standard output and the exit status must equal the reference, whatever the debug level; nothing may '
            'leak or be accessed out of bounds, debug output included. Non-trivial: the run executed at least one text.')

    def prepare(self, tier):
        self.exes = {'cli': build.build('cli', [], base=DEFS + ('-DMJS_ENABLE_DEBUG',), wrap=False),
                     'cli_plain': build.build('cli_plain', [], base=DEFS, wrap=False),
                     'cli_gcc': build.build('cli_gcc', [], cc='gcc', opt='-O0', san='none', base=DEFS + ('-DMJS_ENABLE_DEBUG',), wrap=False)}

    def prog(self, r, names, k):
        z = r.random()
        if z < .35: p = subst(Flow(r).block(3, r.randrange(1, 4)))
        elif z < .7: p = subst(gen.Gen(r, r.choice([0, 0, .03])).script(r.randrange(1, 8)))
        elif z < .8: p = [('expr', [call(ident(b'print'), *[gen.num(r) for _ in range(r.randrange(3))])])]
        else: p = []
        if names and r.random() < .4:
            p.insert(r.randrange(len(p) + 1), ('expr', [call(ident(b'load'), ('str', r.choice(names)))]))
        if r.random() < .3:
            p.insert(r.randrange(len(p) + 1), ('expr', [('asg', r.choice(['=', '+=']), ('dot', ident(b'global'), b'acc'), nlit(r.randrange(9)))]))
        if r.random() < .8:
            p.append(('expr', [r.choice([gen.num(r), ('str', gen.rbytes(r)), lit('true'), lit('null'), lit('undefined'), ('obj', []), ('arr', [nlit(1)]),
                                         ('dot', ident(b'global'), b'acc')])]))
        return p

    def case(self, r, d):
        """(arguments, model output, exit status, texts run)"""
        m = Cli()
        m.budget = 2500
        nf = r.randrange(0, 4)
        names = [b'%s%d.js' % (r.choice([b'f', b'module_', b'x.y']), k) for k in range(nf)]
        if r.random() < .2 and nf: names[0] = b'plain.txt'
        for k in reversed(range(nf)):
            z = r.random()
            n = names[k]
            if z < .06: continue
            if z < .12:
                src = r.choice([b'let', b'1 +', b'(', b'let x = ;', b'}', b'print(1); %'])
                m.files[n] = 'syntax'
            else:
                p = self.prog(r, names[k + 1:], k)
                src = printer.source(p, r, 0)
                m.files[n] = p
            with open(os.path.join(d.encode(), n), 'wb') as f: f.write(src)
            if n.endswith(b'.js') and r.random() < .15:
                with open(os.path.join(d.encode(), n[:-3] + b'.jsc'), 'wb') as f: f.write(bytes(r.randrange(256) for _ in range(r.choice([0, 3, 60]))))
        args, steps = [], []
        lv = 0
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            z = r.random()
            if z < .15:
                lv = r.choice([0, 1, 2, 3, 4, 4, 5])
                args += [b'-l', b'%d' % lv]
            elif z < .3: args.append(b'-j')
            elif z < .65:
                if r.random() < .12:
                    args += [b'-e', r.choice([b'let', b'(', b'1 +', b'1 = 2 3 )'])]
                    steps.append('syntax')
                else:
                    p = self.prog(r, names, 0)
                    src = printer.source(p, r, 0)
                    if b'\0' in src: raise Unspecified('NUL')
                    args += [b'-e', src]
                    steps.append(p)
            elif z < .95 and names:
                n = r.choice(names)
                args += [b'-f', n]
                steps.append(n)
            elif z > .975: args.append(r.choice([b'-x', b'--', b'-', b'-ee', b'--version', b'-e', b'-f', b'-l']) if r.random() < .5 else r.choice([b'-h', b'--help'])); break
        else:
            if names:
                for _ in range(r.choice([0, 0, 1, 1, 2])):
                    n = r.choice(names)
                    args.append(n)
        # the reference
        out = b''
        res, i, ran = U, 0, 0
        err = None
        def run(what):
            nonlocal res, err, ran, out
            ran += 1
            if what == 'syntax': e = (1, None, U)
            elif isinstance(what, bytes):
                prog = m.files.get(what)
                e = self.file(m, what)
            else: e = m.run(what)
            for o in m.out:
                if o[0] == 'O': out += o[1]
                else: raise Unspecified('event')
            m.out.clear()
            err = e if e[0] else None
            res = e[2]
        it = iter(steps)
        while i < len(args) and args[i][:1] == b'-' and err is None:
            a = args[i]
            if a == b'-l' and i + 1 < len(args): i += 1
            elif a == b'-j': pass
            elif a in (b'-e', b'-f') and i + 1 < len(args):
                i += 1
                run(next(it))
            elif a in (b'-h', b'--help'): return args, [('re', rb'mJS .*Usage:.*-e string.*-j .*-f js_file.*-l level.*')], 0, ran, out, lv
            else: return args, [('lit', b'')], 1, ran, out, lv
            i += 1
        while i < len(args) and err is None:
            run(args[i])
            i += 1
        if err is None: exp = [('lit', m.show(res) + b'\n')]
        else:
            msg = err[1] or (None if err[0] == 1 else ERRNAME[err[0]])
            if isinstance(msg, str): msg = msg.encode()
            exp = [('err', msg)]
        return args, exp, 0, ran, out, lv

    def file(self, m, name):
        """exec_file by the host."""
        if m.files.get(name) == 'syntax' or m.files.get(name) is None:
            try: m.exec_file(name)
            except JSError as e: return (e.code, e.msg, U)
        m.loaded.setdefault(name, [m.files[name], None])
        part = m.loaded[name]
        e = m.run(m.files[name])
        part[1] = e[0] == 0
        return e

    def one(self, seed, k):
        r = random.Random('C23:%d:%d' % (seed, k))
        d = tempfile.mkdtemp(prefix='verif.')
        try:
            for _ in range(20):
                try:
                    args, exp, st, ran, out, lv = self.case(r, d)
                    break
                except (Unspecified, RecursionError):
                    shutil.rmtree(d, ignore_errors=True)
                    os.makedirs(d)
            else: return None
            exe = r.choice(['cli', 'cli', 'cli', 'cli_plain', 'cli_gcc'])
            n = 2 if b'-j' in args and r.random() < .6 else 1
            msg, bytes_err = None, 0
            for rep in range(n):
                for limit in (60, 240):
                    try:
                        p = subprocess.run([self.exes[exe].encode()] + args, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=limit,
                                           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:exitcode=66' % (st == 0 and not any(x[0] == 're' for x in exp))))
                        break
                    except subprocess.TimeoutExpired: p = None
                if p is None: msg = 'no end after %d s' % limit
                else: msg = self.judge(p, exp, st, out, lv)
                bytes_err += len(p.stderr) if p else 0
                if msg: break
            data = {'lines': [a.decode('latin-1') for a in args], 'exe': exe, 'source': ['%s: %s' % (f, open(os.path.join(d, f), 'rb').read()[:600].decode('latin-1')) for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f))],
                    'stderr': p.stderr[-3000:].decode('latin-1') if p else '', 'stdout': p.stdout[-2000:].decode('latin-1') if p else ''}
            return msg, data, ran, hashlib.md5(repr(args).encode()).digest(), bytes_err, len(out) + 1, lv, n
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def judge(self, p, exp, st, out, lv):
        if p.returncode != st: return 'exit status %d, expected %d' % (p.returncode, st)
        k, v = exp[0]
        got = p.stdout
        if not got.startswith(out): return 'stdout %r, expected to begin with %r' % (got[-400:], out[-400:])
        got = got[len(out):]
        if k == 'lit' and got != v: return 'stdout ends with %r, expected %r' % (got[:400], v)
        if k == 're' and not re.fullmatch(v, got, re.S): return 'help text %r' % got
        if k == 'err':
            m = re.fullmatch(rb'((?:  at [^\n]*\n)*)MJS error: (.*)\n', got, re.S)
            if not m: return 'stdout ends with %r, expected a trace and a message' % got[:400]
            # which token a syntax error is reported at is left open
            v = model.SYNTAX_MSG if v is None else v
            if not re.fullmatch(re.escape(v).replace(re.escape(model.SYNTAX_MSG), rb'parse error at line \d+: \[.*\]'), m.group(2), re.S):
                return 'message %r, expected %r' % (m.group(2), v)
        return None

    def extra(self, tier, seed, report):
        n = 6000 if tier == 'quick' else 80000
        tot = {'runs': 0, 'texts_executed': 0, 'debug_output_bytes': 0, 'reruns_with_jsc': 0, 'runs_by_debug_level': {}}
        seen = set()
        with ThreadPoolExecutor(8) as ex:
            bad = 0
            for x in ex.map(lambda k: self.one(seed, k), range(n)):
                if x is None: continue
                msg, data, ran, h, be, _, lv, reps = x
                tot['runs'] += 1
                tot['texts_executed'] += ran
                tot['debug_output_bytes'] += be
                tot['reruns_with_jsc'] += reps - 1
                tot['runs_by_debug_level'][str(lv)] = tot['runs_by_debug_level'].get(str(lv), 0) + 1
                if ran: seen.add(h)
                if msg and bad < 20:
                    bad += 1
                    report(msg, data)
                if tot['runs'] < 3: tot.setdefault('samples', []).append(data)
        tot['evaluations'] = tot['runs']
        tot['distinct_nontrivial'] = len(seen)
        return tot


check = C()
