"""load(), files run by the host, and the bytecode cache."""
import os
from runner import Check
from kit import Builder, ANY, ERRNAME
import gen, printer
from gen import lit, ident, call, emit
from model import Fn, Unspecified, JSError, U
from c05 import nlit
import c10
from drv import hx


class C(Check):
    id = 'C14'
    quick, thorough = 32000, 320000
    rule = ('Random sets of up to six files (valid scripts, scripts failing half-way, syntax errors, missing files) whose '
            'statements define and change globals, log their receiver and variables and load further files; histories of load() from scripts, '
            'functions, loops and callbacks (with and without a scope object), mjs_exec_file() from the host, functions of '
            'loaded files called later, files rewritten, removed and repaired in between; a third of the '
            'histories with .jsc generation (fresh, up to date, stale and unwritable .jsc files, failing writes). All events must equal the reference. '
            'Non-trivial: at least one file was executed and two events compared.')

    def nontrivial(self, c): return len(c.events) >= 2 and 'load' in c.meta['labels']

    def body(self, r, b, names, k, tag):
        """Statements of file number k."""
        p = [('expr', [emit(('str', b'%s%d' % (tag, k)), ('this',))])]
        g = gen.Gen(r, .02)
        for _ in range(r.randrange(1, 6)):
            z = r.random()
            if z < .15: p.append(('let', [(b'v%d' % k, nlit(r.randrange(100)))]))
            elif z < .3: p.append(('expr', [('asg', '=', ('dot', ident(b'global'), b'g%d' % r.randrange(3)), ('str', tag))]))
            elif z < .4: p.append(('expr', [emit(ident(b'gv'), ident(b'own'))]))
            elif z < .5: p.append(('expr', [('asg', r.choice(['=', '+=']), ident(b'gv'), nlit(k + 1))]))
            elif z < .62:
                body = [('expr', [emit(('str', b'fn' + tag), ident(b'a'), ('this',))])]
                if r.random() < .25: body.append(('expr', [ident(b'undef_in_fn')]))
                body.append(('ret', ('bin', '*', ident(b'a'), nlit(k + 2))))
                p.append(('expr', [('asg', '=', ('dot', ident(b'global'), b'f%d' % r.randrange(4)),
                                    ('fn', None, [b'a'], body, Fn([b'a'], body)))]))
            elif z < .8 and k + 1 < len(names):
                p.append(self.load(r, names[k + 1:], 2))
            elif z < .82: p.append(('expr', [ident(b'undef%d' % k)]))
            elif z < .86: p.append(('expr', [c10.check.wrap(r, c10.check.err(r, False), r.randrange(1, 5))]))
            elif z < .88: p.append(('expr', [call(ident(b'die'), ('str', b'dead ' + tag))]))
            elif z < .90: p.append(r.choice([('ret', nlit(3)), ('break',), ('cont',)]))
            elif z < .95: p.append(('if', ('log', '&&', ident(b'flag'), lit('true')), ('block', [('expr', [call(ident(b'cerr'), nlit(3))])]), None))
            else: p += g.script(r.randrange(1, 5))
        if r.random() < .6: p.append(('expr', [r.choice([nlit(k * 10), ('str', tag + b' done'), ('obj', [(b'file', nlit(k))])])]))
        return p

    def load(self, r, names, d):
        n = r.choice(names)
        a = [('str', n)]
        z = r.random()
        if z < .25: a.append(r.choice([ident(b'own'), ('obj', [(b'gv', nlit(500)), (b'own', nlit(7))]), ('obj', [])]))
        elif z < .3: a.append(r.choice([lit('null'), nlit(4), lit('undefined')]))
        e = call(ident(b'load'), *a)
        z = r.random()
        if z < .2: e = emit(e)
        elif z < .3: e = ('arr', [nlit(1), e])
        elif z < .4 and d: e = call(ident(b'ctry'), ident(b'load'), lit('null'), *a)
        elif z < .5: e = call(('dot', ident(b'mod'), b'load'), *a)
        elif z < .6:
            body = [('let', [(b'gv', nlit(9))]), ('ret', e)]
            f = ('fn', None, [], body, Fn([], body))
            e = call(f) if r.random() < .5 else emit(call(ident(b'ctry'), f, ('obj', [])))
        if r.random() < .12:
            return ('for', ('let', [(b'li', nlit(0))]), ('bin', '<', ident(b'li'), nlit(2)), ('post', '++', ident(b'li')),
                    ('block', [('expr', [e])]))
        return ('expr', [e])

    def execfile(self, b, nm):
        m = b.m
        b.cmd('execfile ' + hx(nm))
        try: res = (0, b'', m.exec_file(nm))
        except JSError as x: res = (x.code, x.msg, U)
        m.reset()
        o = b.outs()
        b.exp.append(['R', 'exec', str(res[0]), ANY if res[1] == b'<syntax error>' else hx(res[1] or ERRNAME[res[0]] if res[0] else b'NO_ERROR'),
                      'u' if res[0] else __import__('model').ser(res[2]), ANY])
        if o: b.exp.append(['O', hx(o)])
        b.labels.add('execfile')
        b.labels.add('load')

    def twins(self, r, b, names, k):
        """A file run, replaced by one which differs in a few bytes only, and run again."""
        if r.random() < .4:
            p = self.body(r, b, names, k, b'T')
        else:
            p = [('expr', [emit(nlit(q))]) for q in range(r.choice([1, 2, 10, 40, 120]))]
        at = r.choice([0, len(p), r.randrange(0, len(p) + 1)])
        st = r.getstate()
        for q in range(r.randrange(2, 4)):
            r.setstate(st)
            self.put(r, b, names[k], p[:at] + [('expr', [emit(('str', b'twin%d' % q))])] + p[at:])
            self.execfile(b, names[k])
        b.labels.add('twins')

    def put(self, r, b, name, prog):
        if prog is None:
            b.cmd('unlink ' + hx(name))
            b.m.files.pop(name, None)
        elif prog == 'syntax':
            src = printer.source([('expr', [emit(nlit(1))])], r, 0) + b'\n' + r.choice([b')', b'let', b'1 +', b'(', b'let x = ;'])
            b.cmd('file %s %s' % (hx(name), hx(src)))
            b.m.files[name] = 'syntax'
            b.src.append(name + b': ' + src)
        else:
            src = printer.source(prog, r, 0)
            b.cmd('file %s %s' % (hx(name), hx(src)))
            b.m.files[name] = prog
            b.src.append(name + b': ' + src)

    def gen(self, r, i, tier):
        b = Builder(r)
        m = b.m
        m.budget = 8000
        uid = b'%08x' % r.randrange(1 << 32)
        n = r.randrange(1, 6)
        names = []
        for k in range(n):
            names.append(uid + r.choice([b'%d.js', b'%d.js', b'm%d.js', b'%d.txt', b'%d', b'_long_file_name_' + b'x' * 150 + b'%d.js',
                                         b'%d.jsx', b'.%d.js', b'a b%d.js', b'\xc3\xa9%d.js']) % k)
        if r.random() < .35:     # names which are prefixes or suffixes of each other
            names = [uid + x for x in r.sample([b'a.js', b'a.jsx', b'a', b'a.j', b'a.js2', b'A.js', b'a.j.js', b'b', b'a.jsjs'], n)]
        jsc = r.random() < .35
        if jsc: b.cmd('jsc 1')
        if r.random() < .2: b.cmd('gc 3 %d %d' % (r.choice([1, 3, 9]), r.randrange(1 << 30)))
        b.run([('let', [(b'gv', nlit(1)), (b'own', ('obj', [(b'gv', ('str', b'own gv')), (b'name', ('str', b'own'))])),
                        (b'flag', lit('false')), (b'mod', ('obj', [(b'load', ident(b'load'))]))])])
        for k in reversed(range(n)):
            z = r.random()
            self.put(r, b, names[k], None if z < .06 else 'syntax' if z < .14 else self.body(r, b, names, k, b'A'))
        if jsc:
            for nm in names:            # what may already be in place of the cache
                if nm.endswith(b'.js') and r.random() < .3:
                    z = r.random()
                    j = hx(nm[:-3] + b'.jsc')
                    if z < .5: b.cmd('file %s %s' % (j, bytes(r.randrange(256) for _ in range(r.choice([0, 1, 50]))).hex() or '-'))
                    else: b.cmd('mkdir %s' % j)
        if jsc and r.random() < .25:
            b.cmd('fault %d' % r.choice([1, 2]))
            b.labels.add('write fault')
        gens = 0
        for step in range(r.randrange(2, 8)):
            if r.random() < (.12 if jsc else .02): self.twins(r, b, names, r.randrange(n))
            z = r.random()
            if z < .5:
                prog = []
                for _ in range(r.randrange(1, 4)):
                    y = r.random()
                    if y < .6: prog.append(self.load(r, names, 2))
                    elif y < .75:
                        f = b'f%d' % r.randrange(4)
                        prog.append(('expr', [emit(ident(b'gv'), ('dot', ident(b'global'), f))]))
                        prog.append(('if', ('dot', ident(b'global'), f), ('block', [('expr', [emit(call(ident(f), nlit(3)))])]), None))
                    elif y < .85: prog.append(('expr', [emit(*[('dot', ident(b'global'), b'g%d' % q) for q in range(3)], ident(b'own'))]))
                    elif y < .92: prog.append(('expr', [('asg', '=', ident(b'flag'), lit(r.choice(['true', 'false'])))]))
                    else: prog.append(('expr', [emit(*[('dot', ident(b'global'), b'v%d' % q) for q in range(n)])]))
                b.run(prog, 0)
                b.labels.add('load')
            elif z < .7:                # run by the host
                nm = r.choice(names)
                self.execfile(b, nm)
            elif z < .8:                # a function of a file, called by the host
                f = b'f%d' % r.randrange(4)
                fv = m.g.props.get(f)
                if fv is not None and isinstance(fv[1], Fn):
                    b.cmd('val r1 g').cmd('get r2 r1 ' + hx(f)).cmd('val r3 d4008000000000000').cmd('val r5 s' + hx(b'host'))
                    b.cmd('apply r4 r2 r5 r3')
                    try: res = (0, b'', m.call(fv[1], b'host', [3.0]))
                    except JSError as x: res = (x.code, x.msg, None)
                    m.reset()
                    b.outs()
                    b.result(res, 'apply')
                    b.labels.add('apply')
            else:
                k = r.randrange(n)
                gens += 1
                y = r.random()
                self.put(r, b, names[k], None if y < .1 else 'syntax' if y < .2 else self.body(r, b, names, k, b'BCDEFGHIJ'[gens % 9:][:1]))
                b.labels.add('rewrite')
            b.snap('s%d' % step)
        if jsc:
            b.labels.add('jsc')
            for nm in names:
                if r.random() < .5: b.cmd('rmrf %s' % hx(nm[:-3] + b'.jsc'))
        b.run([('expr', [emit(ident(b'gv'), ident(b'own'), ('this',))])])
        b.cmd('destroy 0')
        b.cmd('maps', ['V', '0'])
        c = b.case()
        # syntax error texts are not modelled: any text which names the file is fine
        for e in c.meta['exp']:
            if e[0] in ('R', 'T'):
                q = 3 if e[0] == 'R' else 2
                if isinstance(e[q], str) and hx(b'<syntax error>') in e[q]:
                    e[q] = ('pre', bytes.fromhex(e[q]).replace(b'<syntax error>', b''))
        return c


check = C()
