"""Engine instances do not influence each other."""
import os, random, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from runner import Check
from kit import Builder, ANY, ERRNAME
import build, gen, printer
from gen import ident, call, emit
from model import CFn, Unspecified, ser
from c05 import Flow, nlit
from c06 import check as c06
from c07 import check as c07
from c08 import check as c08
from c09 import check as c09
from c10 import check as c10
from c11 import check as c11
from c12 import check as c12
from c13 import check as c13
from c14 import check as c14
from c17 import check as c17
import drv
from drv import hx

PARTS = [c06, c07, c08, c09, c10, c11, c12, c13, c14, c17]


class C(Check):
    id = 'C19'
    quick, thorough = 8000, 200000
    hang_s = 60
    rule = ('Histories of the other checks (scripts, properties, arrays, strings, JSON, failures, foreign functions, callbacks, host values, '
            'loaded files, raw memory), each for its own engine, are interleaved command by command over two to '
            'five engines of one process, engines being created and destroyed in between and scripts of one engine run in the '
            'middle of a script of another; every engine must behave as in isolation. Besides, eight threads run '
            'engines of their own concurrently under ThreadSanitizer (with forced collections and yields in between); no data race, and results must equal the '
            'reference. Non-trivial: at least two engines had events.')

    def nontrivial(self, c): return c.meta.get('insts', 0) > 1

    # ------------------------------------------------------------ one thread
    def script_part(self, r, i, tier):
        b = Builder(r)
        b.m.budget = 3000
        g = gen.Gen(r, r.choice([0, .03]))
        for _ in range(r.choice([2, 3, 4])):
            b.run(g.script(r.randrange(2, 8)) if r.random() < .7 else Flow(r).block(3, 2), 0)
        b.snap('end')
        return b.case()

    def part(self, r, i, tier, used):
        """A history for one engine."""
        z = r.random()
        ck = self.script_part if z < .25 else r.choice(PARTS)
        if ck is c14 and 'c14' in used: ck = c12       # files are shared
        if ck is c14: used.add('c14')
        c = ck(r, i, tier) if not isinstance(ck, Check) else ck.gen(r, r.randrange(1 << 20), tier)
        st = c.lines.steps()
        # process-wide commands of the driver would affect the others
        if any(l.split()[0] in ('steps', 'hostile', 'mem', 'fault', 'inst', 'destroy', 'sdef') for l, _ in st): raise Unspecified('global command')
        return [x for x in st if x[0].split()[0] != 'x'], c

    def gen(self, r, i, tier):
        if i % 4 == 3: return self.nested(r, i, tier)
        n = r.choice([2, 2, 3, 3, 4, 5])
        used, todo, free = set(), {}, []
        lines, exp, labels, src = [], [], set(), []
        if r.random() < .5: lines.append('gc %d %d %d' % (r.choice([1, 2, 3]), r.choice([1, 3, 7]), r.randrange(1 << 30)))
        for k in range(n):
            todo[k], c = self.part(r, i, tier, used)
            labels |= set(c.meta['labels'])
        births, seen, cur = n, set(), 0
        sticky = r.choice([0, .3, .8])
        while todo:
            k = cur if cur in todo and r.random() < sticky else r.choice(list(todo))
            if k != cur: lines.append('inst %d' % k)
            cur = k
            l, ev = todo[k].pop(0)
            lines.append(l)
            exp += ev
            if ev: seen.add((k, births))
            if not todo[k]:
                del todo[k]
                if r.random() < .5 and len(todo) > 0 and k:
                    lines.append('destroy %d' % k)
                    cur = 0
                    if r.random() < .5 and births < 8:
                        births += 1
                        todo[k], c = self.part(r, i, tier, used)
                        labels |= set(c.meta['labels'])
                        cur = None
        if len(exp) > 4500: raise Unspecified('too many events')
        return drv.Case(lines, {'exp': exp, 'labels': {x for x in labels if isinstance(x, str)} | {'engines %d' % births},
                                'src': src, 'insts': len({k for k, _ in seen})})

    def nested(self, r, i, tier):
        """Scripts which run scripts of other engines."""
        n = r.choice([2, 2, 3])
        master = Builder(r)
        bs = [master] + [Builder(r) for _ in range(n - 1)]
        gs = [gen.Gen(r, r.choice([0, .03])) for _ in range(n)]
        names = []
        count = [0]
        for k in range(n): bs[k].m.budget = 3000
        if r.random() < .6: master.cmd('gc %d %d %d' % (r.choice([1, 2, 3]), r.choice([1, 3, 7]), r.randrange(1 << 30)))
        progs = {}
        ran = []

        def mk(k):
            def nest(this, a):
                j, q = int(a[0]), int(a[1])
                bj = bs[j]
                if j <= k or progs[q][0] != j: raise Unspecified('nest')
                saved = (bj.m.scopes, bj.m.this, bj.m.loops, bj.m.in_func, bj.m.depth, bj.m.iters)
                res = bj.m.run(progs[q][1])
                bs[k].m.out += bj.m.out
                bj.m.out.clear()
                err, msg, v = res
                bs[k].m.out.append(['R', 'nest', str(err), hx(msg or ERRNAME[err] if err else b'NO_ERROR'), 'u' if err else ser(v), ANY])
                ran.append(j)
                return float(q)
            return nest
        for k in range(n):
            bs[k].m.g.set(b'nest', CFn('nest', mk(k)))
            master.cmd('inst %d' % k)
            master.cmd('nestfn')

        def add_nests(p, k):
            """Nested runs at random places of the program."""
            cand = [q for q in progs if progs[q][0] > k]
            for _ in range(r.choice([1, 2, 3])):
                if not cand: return p
                q = r.choice(cand)
                e = call(ident(b'nest'), nlit(progs[q][0]), nlit(q))
                z = r.random()
                st = ('expr', [emit(e)]) if z < .4 else ('expr', [call(ident(b'emit'), ('arr', [('obj', [(b'a', nlit(1))]), e, ('bin', '+', ('str', b'garbage '), ('str', b'string'))]))])
                if z > .8: st = ('for', ('let', [(b'nn', nlit(0))]), ('bin', '<', ident(b'nn'), nlit(2)), ('post', '++', ident(b'nn')), ('block', [st]))
                p.insert(r.randrange(len(p) + 1), st)
            return p
        q = 0
        for k in range(n - 1, 0, -1):
            for _ in range(r.choice([1, 2, 3])):
                p = add_nests(gs[k].script(r.randrange(1, 6)), k)
                progs[q] = (k, p)
                src = printer.source(p, r, 0)
                master.src.append(src)
                master.cmd('nestsrc %d %s' % (q, hx(src)))
                q += 1
        cur = n - 1
        for _ in range(r.randrange(2, 6)):
            k = r.choice([0, 0, 0] + list(range(n)))
            p = gs[k].script(r.randrange(1, 6))
            if k < n - 1: add_nests(p, k)
            if k != cur: master.cmd('inst %d' % k)
            cur = k
            src = printer.source(p, r, 0)
            master.src.append(src)
            master.lines.append('exec ' + hx(src))
            b = bs[k]
            res = b.m.run(p)
            m, master.m = master.m, b.m
            o = master.outs()
            master.m = m
            master.result(res)
            if o: master.exp.append(['O', hx(o)])
            master.labels |= set(b.m.cov)
        if not ran: raise Unspecified('nothing nested')
        for k in range(n):
            if bs[k].m.scopes != [bs[k].m.g] and False: raise Unspecified('scopes')
            master.cmd('inst %d' % k)
            master.snap('end%d' % k)
        c = master.case()
        c.meta['insts'] = 1 + len(set(ran))
        c.meta['labels'].add('nested')
        return c

    # ------------------------------------------------------------ threads
    def extra(self, tier, seed, report):
        n = 160 if tier == 'quick' else 4000
        exes = {'tsan': build.build('thr_tsan', ['threads.c'], san='tsan', opt='-O0'),
                'asan': build.build('thr_asan', ['threads.c'], san='asan')}
        work = tempfile.mkdtemp(prefix='verif.')
        tot = {'thread_runs': 0, 'thread_events': 0, 'thread_histories': 0, 'distinct_schedules': 0, 'switches': 0}
        scheds = set()

        def one(k):
            r = random.Random('C19t:%d:%d' % (seed, k))
            hist, exps = [], []
            for t in range(8):
                lines, exp = [], []
                for _ in range(r.choice([3, 5, 8])):
                    b = Builder(r)
                    b.m.budget = 3000
                    g = gen.Gen(r, r.choice([0, .03]), threads=True) if False else gen.Gen(r, r.choice([0, .03]))
                    ok = []
                    for _ in range(r.choice([1, 2, 3])):
                        for _ in range(10):
                            try:
                                bb = Builder(r)
                                p = g.script(r.randrange(2, 9))
                                s = printer.source(p, r, 0)
                                ok.append((p, s))
                                break
                            except Unspecified: pass
                    try:
                        for p, s in ok: b.run(p, 0, src=s)
                    except (Unspecified, RecursionError): continue
                    lines.append('new')
                    if r.random() < .7:
                        q, w = r.randrange(1000), r.randrange(1, 50)
                        body, vals = [
                            ("let add = ffi('int t_add(int, int)'); emit(add(%d, %d)); emit(add(-1, %d));" % (q, w, q), [q + w, q - 1]),
                            ("let half = ffi('double t_half(double)'); emit(half(%d)); let len = ffi('int t_len(char *)'); emit(len('%s'));" % (q, 'x' * w), [q / 2, w]),
                            ("let each = ffi('int t_each(int, int (*)(int, userdata), userdata)'); let ob = {k: %d}; let s = 'cb';"
                             "let f = function(i, u) { s = s + JSON.stringify([i, {u: u}]); return u.k * i; }; emit(each(%d, f, ob)); emit(s.length); emit(each(2, f, ob)); emit(ffi_cb_free(f, ob));" % (q, w),
                             [q * (w * (w - 1) // 2), 2 + sum(len('[%d,{"u":{"k":%d}}]' % (z, q)) for z in range(w)), q, 1]),
                            ("load('lib.js'); emit(libf(%d)); emit(libv); libv = %d; load('lib.js'); emit(libv);" % (q, w), [q * 3, 7, w]),
                            ("let o = JSON.parse('{\"a\": [%d, %d], \"b\": {\"c\": \"%s\"}}'); emit(o.a[0] + o.a[1]); emit(o.b.c.length); emit(JSON.parse(JSON.stringify(o)).a[1]);" % (q, w, 'y' * w), [q + w, w, w]),
                            ("let n = 0; for (let i = 0; i < %d; i++) { let t = {a: [i, i + 1], s: 'str' + chr(65 + i %% 20)}; n += t.a[1] + t.s.length; } emit(n);" % w, [sum(z + 5 for z in range(w))]),
                        ][r.randrange(6)]
                        lines.append('exec ' + hx(('(function() { ' + body + ' return true; })()').encode()))
                        exp += [['E', ser(float(v))] for v in vals] + [['R', 'exec', '0', hx(b'NO_ERROR'), 't', ANY]]
                    for l, ev in b.lines.steps():
                        lines.append(l)
                        exp += [e for e in ev if e[0] != 'O']
                hist.append(lines)
                exps.append(exp)
            return k, hist, exps, r.randrange(1 << 30)
        sys_jobs = []
        try:
            with ThreadPoolExecutor(4) as ex:
                for k in range(n):
                    try: sys_jobs.append(ex.submit(self.thread_run, exes, work, *one(k)))
                    except RecursionError: continue
                for f in sys_jobs:
                    msg, data, st = f.result()
                    tot['thread_runs'] += 1
                    tot['thread_events'] += st[0]
                    tot['thread_histories'] += st[1]
                    tot['switches'] += st[3]
                    scheds.add(st[2])
                    if msg: report(msg, data)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        tot['distinct_schedules'] = len(scheds)
        tot['evaluations'] = tot['thread_runs']
        tot['distinct_nontrivial'] = len(scheds)
        return tot

    def thread_run(self, exes, work, k, hist, exps, seed):
        import kit
        d = os.path.join(work, str(k))
        os.makedirs(d)
        for t, lines in enumerate(hist):
            with open(os.path.join(d, '%d.in' % t), 'w') as f: f.write('\n'.join(lines) + '\n')
        with open(os.path.join(d, 'lib.js'), 'w') as f: f.write("let libv = 7;\nfunction libf(x) { return x * 3; }\n")
        kind = 'asan' if k % 4 == 3 else 'tsan'
        env = dict(os.environ, TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_signal_unsafe=0', ASAN_OPTIONS='detect_leaks=1:exitcode=66')
        try:
            p = subprocess.run([exes[kind], d, str(len(hist)), str(seed)], capture_output=True, text=True, errors='replace', timeout=300, env=env, cwd=d)
        except subprocess.TimeoutExpired:
            return 'threads: no end after 300 s', {'lines': sum(hist, [])[:50]}, (0, 0, k, 0)
        ev, nh, sched, sw = 0, 0, '', 0
        data = {'source': [drv.unhx(l.split()[1]).decode('latin-1') for h in hist for l in h if l.startswith('exec')][:12], 'stderr': p.stderr[:4000], 'exe': kind}
        if p.returncode != 0:
            return 'threads: %s reported a failure (exit status %d)' % (kind, p.returncode), data, (0, 0, k, 0)
        for t, exp in enumerate(exps):
            with open(os.path.join(d, '%d.out' % t)) as f: got = [l.split() for l in f.read().splitlines()]
            ev += len(got)
            nh += 1
            m = kit.compare(got, exp)
            if m: return 'thread %d: %s' % (t, m), data, (ev, nh, k, 0)
        for l in p.stderr.splitlines():
            if l.startswith('SCHED'): _, sched, sw = l.split()
        shutil.rmtree(d, ignore_errors=True)
        return None, None, (ev, nh, sched, int(sw))


check = C()
