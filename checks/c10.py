"""Errors are contained: reported once, nothing leaks, the engine stays usable."""
from runner import Check
from kit import Builder, ANY
import gen, printer
from gen import lit, ident, call, emit, smallint
from model import Fn, Unspecified
from c05 import Flow, nlit
from drv import hx

BADTAIL = [b')', b'}', b'let', b'let 1', b'if', b'1 +', b'[1,', b'{a:', b'function', b'@', b'`', 
           b'for', b'while (', b'x.', b'x[', b'f(', b'? :', b'=== 1', b'let x = ;', b'({a 1})',
           b'switch (1) {}', b'try {} catch (e) {}', b'new X()', b'delete a.b', b'var x', b'throw 1', b'do {} while (1)']


class C(Check):
    id = 'C10'
    quick, thorough = 40000, 400000
    rule = ('Histories of scripts and host calls on one engine in which errors (undefined names, type errors, die(), '
            'host errors, misplaced break/return, syntax errors, failing callbacks inside apply/ctry inside loops '
            'and argument lists) are frequent and strike at every nesting depth. Each outcome (code, message, '
            'effects before the error, no effects for a syntax error) must equal the reference, all engine '
            'stacks must be empty after each entry, and later scripts must behave as if nothing had happened. '
            'Non-trivial: at least one error was reported.')

    def nontrivial(self, c): return any(e[0] in 'RT' and e[2 if e[0] == 'R' else 1] != '0' for e in c.events)

    fname = None

    def err(self, r, files=True):
        if files and self.fname and r.random() < .3:
            return r.choice([call(ident(b'load'), ('str', self.fname)),
                             call(ident(b'ctry'), ident(b'load'), lit('null'), ('str', self.fname))])
        z = r.random()
        if z < .2: return ident(b'nosuch%d' % r.randrange(3))
        if z < .4: return call(ident(b'die'), ('str', r.choice([b'boom', b'', b'msg with %s %d', b'x' * 200])))
        if z < .55: return ('bin', '+', nlit(1), ('str', b'a'))
        if z < .7: return call(ident(b'cerr'), nlit(r.randrange(1, 9)))
        if z < .8: return call(nlit(5))
        if z < .9: return ('dot', lit('undefined'), b'x')
        return call(('dot', ('str', b'abc'), b'at'), lit('null'))

    def wrap(self, r, e, d):
        """Puts an expression into an evaluation context d levels deep."""
        if d == 0: return e
        e = self.wrap(r, e, d - 1)
        z = r.random()
        if z < .1: return ('bin', '+', emit(nlit(d)), e)
        if z < .2: return ('arr', [emit(nlit(d)), e, nlit(3)])
        if z < .3: return ('obj', [(b'a', nlit(1)), (b'b', e)])
        if z < .4: return emit(nlit(d), e)
        if z < .5: return call(('dot', ('arr', [nlit(1)]), b'push'), e)
        if z < .55: return ('cond', e, nlit(1), nlit(2))
        if z < .6: return ('log', '||', lit('false'), e)
        this = r.choice([lit('null'), ('obj', []), nlit(4)])
        if z < .82:
            pre = [('expr', [emit(nlit(100 + d), ('this',))])]
            y = r.random()
            if y < .3: body = pre + [('ret', e)]
            elif y < .5: body = pre + [('forin', True, b'q%d' % d, ('obj', [(b'a', nlit(1)), (b'b', nlit(2))]), ('block', [
                ('expr', [emit(ident(b'q%d' % d))]), ('expr', [e])]))]
            elif y < .7: body = pre + [('for', ('let', [(b'i%d' % d, nlit(0))]), ('bin', '<', ident(b'i%d' % d), nlit(2)),
                                        ('post', '++', ident(b'i%d' % d)), ('block', [('let', [(b'z', e)])]))]
            else: body = pre + [('block', [('let', [(b'w', nlit(1))]), ('if', e, ('block', []), None)])]
            f = ('fn', None, [b'p'], body, Fn([b'p'], body))
            w = r.random()
            if w < .3: return call(f, nlit(d))
            if w < .5: return call(ident(b'capply'), f, this, nlit(d))
            if w < .7: return call(('dot', f, b'apply'), this, ('arr', [nlit(d)]))
            if w < .85: return call(('dot', ('obj', [(b'm', f)]), b'm'), nlit(d))
            return ('arr', [call(ident(b'ctry'), f, this, nlit(d)), nlit(1)])
        if z < .9: return ('un', '-', e)
        return ('asg', '=', ident(b'tgt'), e)

    def gen(self, r, i, tier):
        b = Builder(r)
        b.m.budget = 8000
        if r.random() < .4:      # a file which fails somewhere inside
            self.fname = b'%08x.js' % r.randrange(1 << 32)
            prog = [('expr', [emit(('str', b'in file'), ('this',))]), ('expr', [self.wrap(r, self.err(r, False), r.randrange(0, 5))]),
                    ('expr', [emit(('str', b'end of file'))])]
            src = printer.source(prog, r, 0)
            b.cmd('file %s %s' % (hx(self.fname), hx(src)))
            b.m.files[self.fname] = prog
            b.src.append(self.fname + b': ' + src)
        else: self.fname = None
        b.run([('let', [(b'tgt', nlit(0)), (b'cnt', nlit(0)), (b'keep', ('obj', [(b'k', ('arr', []))]))])])
        if r.random() < .15: b.cmd('gc 3 7 %d' % r.randrange(1 << 30))
        g = gen.Gen(r, .08)
        for j in range(r.randrange(2, 6)):
            z = r.random()
            if z < .5:
                prog = [('expr', [('post', '++', ident(b'cnt'))])]
                for _ in range(r.randrange(1, 3)):
                    e = self.wrap(r, self.err(r) if r.random() < .8 else nlit(1), r.randrange(0, 6))
                    prog.append(r.choice([('expr', [e]), ('let', [(b'res%d' % r.randrange(9), e)]),
                                          ('if', e, ('block', [('expr', [emit(nlit(7))])]), None),
                                          ('while', e, ('block', [('break',)]))]))
                prog.append(('expr', [emit(ident(b'cnt'), ident(b'tgt'))]))
                b.run(prog, 0)
            elif z < .7:
                b.run(g.script(r.randrange(1, 6)), 0)
            elif z < .85:                     # syntax errors: no effects at all
                src = printer.source([('expr', [emit(nlit(1))]), ('expr', [('asg', '=', ident(b'tgt'), nlit(99))])], r, 0)
                b.raw(src + b'\n' + r.choice(BADTAIL), ['R', 'exec', '1', ANY, 'u', ANY])
            else:                             # host calls
                e = self.wrap(r, self.err(r), r.randrange(0, 4))
                body = [('expr', [emit(('this',), ident(b'a'))]), ('ret', e)]
                fn = Fn([b'a'], body)
                b.lines.append('execr r1 ' + printer.source([('expr', [('fn', None, [b'a'], body, fn)])], r, 0).hex())
                b.result((0, b'', fn))
                b.cmd('val r2 d4014000000000000').cmd('val r3 s' + b'host this'.hex())
                b.lines.append('apply r4 r1 r3 r2')
                m = b.m
                from model import JSError
                try: res = (0, b'', m.call(fn, b'host this', [5.0]))
                except JSError as x: res = (x.code, x.msg, None)
                m.reset()
                b.outs()
                b.result(res, 'apply')
            b.snap('s%d' % j)
            b.cmd('this', ['D', 'u'])
        b.run([('expr', [emit(ident(b'cnt'), ident(b'tgt'), ident(b'keep'), ('this',))])])
        b.snap('end')
        return b.case()


check = C()
