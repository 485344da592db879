"""Objects: property maps, enumeration order, prototypes, removal while enumerating."""
from runner import Check
from kit import Builder
import gen
from gen import lit, ident, call, emit, smallint
from model import Fn, Unspecified

KEYS = [b'a', b'b', b'c', b'length', b'abcd', b'abcde', b'abcdef', b'abcdeg', b'abcdef\0', b'a\0', b'a\0b', b'',
        b'__p', b'k' * 126, b'k' * 127, b'k' * 128, b'k' * 129, b'\xff', b'x y', b'1', b'10', b'apply', b'toString',
        b'long_property_1', b'long_property_2', b'true', b'null', b'undefined', b'12', b'1.500000']


def wordy(k):
    return k and all(c in b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$' for c in k) and \
        not 48 <= k[0] <= 57 and k not in (b'true', b'null', b'undefined')


class C(Check):
    id = 'C06'
    quick, thorough = 50000, 500000
    rule = ('Random histories of property writes, reads, compound updates, deletions (host mjs_del), '
            'Object.create chains (also cyclic), literals with repeated keys and for..in loops which add, change '
            'and remove properties while running, over a few objects and a hostile key set (empty, embedded NUL, '
            '126..129 bytes, prefixes of each other). Every read and every enumeration must equal the reference '
            'map. Non-trivial: at least two events were compared.')

    def gen(self, r, i, tier):
        b = Builder(r)
        g = gen.Gen(r)
        objs = [b'o%d' % k for k in range(3)]
        keys = r.sample(KEYS, r.randrange(3, 9))
        if r.random() < .3: keys += [bytes(r.randrange(256) for _ in range(r.randrange(0, 12))) for _ in range(2)]
        keys = [k for k in keys if not (k[:1] in b' \t\n\r\v\f+-' and k[:1]) and not (len(k) > 1 and k[0] == 48)]
        if not keys: keys = [b'a']
        dyn = r.random() < .3

        def o(): return ident(r.choice(objs))

        def k():
            z = r.random()
            kk = r.choice(keys)
            if z < .12: return r.choice([lit('true'), lit('null'), lit('undefined'), smallint(r, 13),
                                         ('num', '1.5', 1.5)])
            if z < .3 and len(kk) > 1:
                c = r.randrange(1, len(kk))
                return ('bin', '+', ('str', kk[:c]), ('str', kk[c:]))
            if z < .4: return call(ident(b'fstr'), ('str', kk))
            return ('str', kk)

        def mem(ob=None):
            ob = ob or o()
            kk = r.choice(keys)
            if wordy(kk) and r.random() < .5: return ('dot', ob, kk)
            return ('idx', ob, k())

        def v():
            z = r.random()
            if z < .5: return gen.num(r)
            if z < .7: return ('str', gen.rbytes(r, 9))
            if z < .8: return o()
            if z < .9: return ('obj', [(r.choice(keys), smallint(r)) for _ in range(r.randrange(3))])
            return lit(r.choice(['true', 'null', 'undefined']))

        def op(d=1):
            z = r.random()
            if z < .3: return [('expr', [('asg', '=', mem(), v())])]
            if z < .42: return [('expr', [emit(mem())])]
            if z < .5: return [('expr', [emit(call(ident(b'cdel'), o(), ('str', r.choice(keys))))])]
            if z < .56: return [('expr', [emit(o())])]
            if z < .62:
                m = mem()
                return [('expr', [emit(call(ident(b'ctry'), self.fn(r.choice([
                    ('asg', r.choice(['+=', '-=']), m, v()), ('post', r.choice(['++', '--']), m)])), lit('null')))])]
            if z < .68:
                return [('expr', [('asg', '=', o(), ('obj', [(r.choice(keys), v()) for _ in range(r.randrange(6))]))])]
            if z < .75: return [('expr', [('asg', '=', o(), call(('dot', ident(b'Object'), b'create'), o()))])]
            if z < .80: return [('expr', [emit(('bin', '===', o(), o()))])]
            if z < .84: return [('expr', [emit(call(ident(b'ctry'), self.fn(
                ('dot', r.choice([o(), lit('null'), smallint(r), ('str', b'abc'), lit('undefined')]),
                 r.choice([x for x in keys if wordy(x)] or [b'a']))), lit('null')))])]
            if d and z < .97:
                it = b'it%d' % d
                ob = o()
                body = [('expr', [emit(ident(it))])]
                for _ in range(r.randrange(0, 3)):
                    y = r.random()
                    if y < .35: body.append(('expr', [emit(call(ident(b'cdel'), ob, ident(it)))]))
                    elif y < .55: body.append(('expr', [emit(call(ident(b'cdel'), ob, ('str', r.choice(keys))))]))
                    elif y < .65: body.append(('expr', [('asg', '=', ('idx', ob, ident(it)), v())]))
                    elif y < .75: body.append(('if', ('bin', '===', ident(it), ('str', r.choice(keys))),
                                               (r.choice(['break', 'cont']),), None))
                    elif y < .85: body.append(('expr', [emit(('idx', ob, ident(it)))]))
                    else: body += op(d - 1)
                if r.random() < .3: return [('expr', [('asg', '=', ident(b'ext'), ('str', b''))]),
                                            ('forin', False, b'ext', ob, ('block', [
                                                ('expr', [emit(ident(b'ext'))])])), ('expr', [emit(ident(b'ext'))])]
                return [('forin', True, it, ob, ('block', body))]
            return [('expr', [emit(('un', 'typeof', mem()))])]
        b.run([('let', [(n, ('obj', [])) for n in objs] + [(b'ext', ('str', b''))])])
        prog = []
        for _ in range(r.randrange(4, 25)): prog += op()
        prog.append(('expr', [emit(*[ident(n) for n in objs])]))
        b.run(prog, r.random() < .2)
        b.snap('end')
        return b.case()

    def fn(self, e):
        body = [('ret', e)]
        return ('fn', None, [], body, Fn([], body))


check = C()
