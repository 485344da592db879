"""Control flow, scoping, functions, this."""
from runner import Check
from kit import Builder
import gen
from gen import lit, ident, call, emit, smallint
from model import Fn
from padding import pad, padx


def nlit(n): return ('num', str(n), float(n))


class Flow:
    """Nested loops, branches and calls; every point is numbered and emitted."""

    def __init__(self, r):
        self.r, self.n, self.pt = r, 0, 0
        self.ctr = []               # loop counters in scope
        self.fns = []               # (name, nparams)
        self.loop = self.fn = 0

    def point(self):
        self.pt += 1
        a = [nlit(self.pt)]
        if self.ctr and self.r.random() < .5: a.append(ident(self.r.choice(self.ctr)))
        return ('expr', [emit(*a)])

    def cond(self):
        r = self.r
        if self.ctr and r.random() < .85:
            c = ident(r.choice(self.ctr))
            z = r.random()
            if z < .5: return ('bin', r.choice(['===', '!==']), c, nlit(r.randrange(0, 4)))
            if z < .8: return ('bin', r.choice(['<', '>', '<=', '>=']), c, nlit(r.randrange(0, 4)))
            return ('bin', '===', ('bin', '%', c, nlit(2)), nlit(r.randrange(0, 2)))
        return r.choice([lit('true'), lit('false'), nlit(0), nlit(1), ('str', b''), ('str', b'x'), lit('null'), ('obj', []),
                         lit('undefined'), ident(b'NaN')])

    def block(self, d, n=None):
        ctr, fns = list(self.ctr), list(self.fns)
        out = []
        for _ in range(n if n is not None else self.r.randrange(0, 5)): out += self.stmt(d)
        self.ctr, self.fns = ctr, fns
        return out

    def stmt(self, d):
        r = self.r
        z = r.random()
        if d <= 0 or z < .2: return [self.point()]
        if z < .35:
            b = self.block(d - 1)
            e = None
            y = r.random()
            if y < .3: e = ('block', self.block(d - 1))
            elif y < .45: e = ('if', self.cond(), ('block', self.block(d - 1)), ('block', self.block(d - 1)) if r.random() < .5 else None)
            elif y < .5: e = self.point()
            if e is None and r.random() < .3: return [('if', self.cond(), self.simple(), None)]
            return [('if', self.cond(), ('block', b), e)]
        if z < .62: return self.loops(d)
        if z < .68 and self.loop: return [('if', self.cond(), (r.choice(['break', 'cont']),), None)]
        if z < .71 and self.loop: return [(r.choice(['break', 'cont']),)]
        if z < .77 and self.fn: return [('if', self.cond(), ('ret', self.val() if r.random() < .8 else None), None)]
        if z < .84: return self.fdecl(d)
        if z < .94 and self.fns: return [('expr', [emit(self.fcall())])]
        if z < .97: return [('block', self.block(d - 1))]
        self.n += 1
        v = b'v%d' % r.randrange(1, 4)
        return [('let', [(v, self.val())]), ('expr', [emit(ident(v))])]

    def simple(self):
        r = self.r
        if self.loop and r.random() < .4: return (r.choice(['break', 'cont']),)
        if self.fn and r.random() < .4: return ('ret', self.val())
        return self.point()

    def val(self):
        r = self.r
        z = r.random()
        if self.ctr and z < .4: return ('bin', '+', ident(r.choice(self.ctr)), nlit(r.randrange(10)))
        if self.fns and z < .6: return self.fcall()
        if z < .7: return ('str', gen.rbytes(r, 8))
        if z < .8: return ('arr', [nlit(r.randrange(9))])
        return nlit(r.randrange(100))

    def loops(self, d):
        r = self.r
        self.n += 1
        i = b'i%d' % self.n
        k = nlit(r.randrange(0, 4))
        z = r.random()
        self.loop += 1
        if z < .5:
            self.ctr.append(i)
            body = ('block', self.block(d - 1)) if r.random() < .85 else self.point()
            self.ctr.pop()
            step = r.choice([('post', '++', ident(i)), ('pre', '++', ident(i)), ('asg', '+=', ident(i), nlit(1))])
            res = [('for', ('let', [(i, nlit(r.randrange(0, 2)))]), ('bin', '<', ident(i), k), step, body)]
            if r.random() < .2:
                res = [('let', [(i, nlit(0))]), ('for', ('asg', '=', ident(i), nlit(1)),
                                                 ('bin', r.choice(['<', '<=']), ident(i), k), step, body),
                       ('expr', [emit(ident(i))])]
        elif z < .75:
            self.ctr.append(i)
            body = self.block(d - 1)
            body.insert(r.randrange(0, 1) if True else 0, ('expr', [('post', '++', ident(i))]))
            res = [('let', [(i, nlit(0))]), ('while', ('bin', '<', ident(i), k), ('block', body)), ('expr', [emit(ident(i))])]
        else:
            self.ctr.append(b'x_' + i)
            body = self.block(d - 1)
            self.ctr.pop()
            body.insert(0, ('let', [(b'x_' + i, nlit(r.randrange(3)))]))
            body.insert(0, ('expr', [emit(ident(i))]))
            ob = ('obj', [(b'k%d' % q, nlit(q)) for q in range(r.randrange(0, 4))]) if r.random() < .6 else \
                ('arr', [nlit(q) for q in range(r.randrange(0, 4))])
            res = [('forin', True, i, ob, ('block', body))]
            if r.random() < .25:
                res = [('let', [(i, ('str', b'before'))]), ('forin', False, i, ob, ('block', body)), ('expr', [emit(ident(i))])]
        self.loop -= 1
        return res

    def fdecl(self, d):
        r = self.r
        self.n += 1
        name = b'f%d' % self.n
        np = r.randrange(0, 4)
        ps = [b'p%d_%d' % (self.n, q) if r.random() < .7 else b'p%d' % q for q in range(np)]
        sv = self.loop, self.fn, self.ctr, self.fns
        self.loop, self.fn = 0, 1
        self.ctr = list(self.ctr)
        body = [('expr', [emit(*([nlit(1000 + self.n)] + [ident(p) for p in ps]))])]
        if r.random() < .4: body.append(('expr', [emit(('this',))]))
        if r.random() < .2 and ps: body.append(('expr', [('asg', '=', ident(r.choice(ps)), nlit(77))]))
        if r.random() < .25 and ps:      # bounded recursion
            p = ps[0]
            body.append(('if', ('bin', '>', ident(p), nlit(0)), ('block', [
                ('expr', [emit(call(ident(name), ('bin', '-', ident(p), nlit(1))))])]), None))
        body += self.block(d - 1)
        if r.random() < .7: body.append(('ret', self.val() if r.random() < .85 else None))
        self.loop, self.fn, self.ctr, self.fns = sv
        self.fns.append((name, np))
        if r.random() < .5: return [('expr', [('fn', name, ps, body, Fn(ps, body, name))])]
        return [('let', [(name, ('fn', None, ps, body, Fn(ps, body)))])]

    def fcall(self):
        r = self.r
        f, n = r.choice(self.fns)
        a = [nlit(r.randrange(0, 4)) for _ in range(max(0, n + r.choice([0, 0, 0, -1, 1, 2])))]
        z = r.random()
        this = r.choice([('obj', [(b't', nlit(r.randrange(9)))]), nlit(5), lit('null'), lit('undefined'), ('str', b'thisstr')])
        if z < .4: return call(ident(f), *a)
        if z < .5: return call(gen.route(r, f), *a)
        if z < .6: return call(('dot', ident(f), b'apply'), this, ('arr', a))
        if z < .7: return call(ident(b'capply'), ident(f), this, *a)
        if z < .8: return call(ident(b'ctry'), ident(f), this, *a)
        if z < .9: return call(('dot', ('obj', [(b'm', ident(f)), (b'z', nlit(1))]), b'm'), *a)
        return call(('idx', ('arr', [ident(f)]), nlit(0)), *a)


class C(Check):
    id = 'C05'
    quick, thorough = 50000, 600000
    rule = ('Random programs of nested if/while/for/for..in, break, continue, early return out of nested loops, '
            'shadowing, named and anonymous functions, bounded recursion, missing and extra arguments, method '
            'calls, apply and host re-entry; every program point emits. Trace, values, completion value and '
            'errors must equal the reference interpreter, and all engine stacks must be empty afterwards. '
            'Non-trivial: at least two events were compared.')

    def gen(self, r, i, tier):
        b = Builder(r)
        b.m.budget = 6000
        if i % 2:
            g = gen.Gen(r, r.choice([0, 0, 0.03]))
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                b.run(g.script(r.randrange(2, 9)), r.random() < .3)
                b.snap('z')
        else:
            f = Flow(r)
            for _ in range(r.choice([1, 1, 2])):
                p = f.block(4, r.randrange(1, 5))
                if i % 12 == 0:         # long bodies and expressions
                    z = r.random()
                    if z < .7: p = padx(p, r, tier, [r.choice([300, 1000, 3000, 40000])], r.choice([.2, .5]))
                    if z > .3: pad(('block', p), r, tier, [r.choice([500, 3000, 20000])])
                    b.labels.add('padded')
                b.run(p, r.random() < .3)
                b.snap('z')
        return b.case()


check = C()
