"""Strings: literals, representations, length, indexing, search, slices, comparison."""
from runner import Check
from kit import Builder
import gen
from gen import lit, ident, call, emit, smallint
from model import Fn, Interp, Unspecified

LENS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 126, 127, 128, 129, 200, 255, 256, 300]


def rstr(r):
    z = r.random()
    if z < .2: return r.choice(gen.NASTY)
    n = r.choice(LENS[:9]) if z < .85 else r.choice(LENS)
    if z > .985: n = r.choice([16382, 16383, 16384, 16385])
    y = r.random()
    if y < .35: return bytes(r.choice(b'ab') for _ in range(n))
    if y < .75: return bytes(r.choice(gen.CH) for _ in range(n))
    return bytes(r.randrange(256) for _ in range(n))


def near(r, t):
    """A string that differs from t in one place, if at all."""
    z = r.random()
    if not t or z < .1: return r.choice([t, t + b'\0', t + b'a', b'\0' + t])
    k = r.choice([0, len(t) - 1, r.randrange(len(t)), r.randrange(len(t))])
    if z < .6: return t[:k] + bytes([r.choice([t[k] ^ 1, t[k] ^ 128, t[k] ^ 32, (t[k] + 1) % 256, 0, r.randrange(256)])]) + t[k + 1:]
    if z < .7: return t[:k] + t[k + 1:]
    if z < .8: return t[:k] + bytes([r.randrange(256)]) + t[k:]
    if z < .9 and len(t) > 1:
        j = r.randrange(len(t))
        l = list(t)
        l[j], l[k] = l[k], l[j]
        return bytes(l)
    return t


def nulled(r, t):
    """t with zero bytes here and there."""
    if not t or r.random() < .6: return t
    l = list(t)
    for _ in range(r.choice([1, 1, 2])): l[r.randrange(len(l))] = 0
    return bytes(l)


def sgn(n): return ('num', str(n), float(n)) if n >= 0 else ('un', '-', ('num', str(-n), float(-n)))


class C(Check):
    id = 'C08'
    quick, thorough = 40000, 500000
    rule = ('Scripts over strings of boundary lengths (around the inline/heap limits and the 127/128 and '
            '16383/16384 length-prefix limits) with arbitrary bytes including NUL, made as literals with all '
            'escapes, by concatenation, slicing, chr(), mkstr() (copied and not), typeof, for..in keys and host '
            'strings; length, index, at/charCodeAt, indexOf with and without start, slice, ===, use as a key; '
            'arguments from far negative to far positive and of wrong types. All values must equal the '
            'reference bytes. Non-trivial: at least two events were compared.')

    def gen(self, r, i, tier):
        b = Builder(r)
        self.nv = 0
        names = []
        buf = bytes(r.randrange(256) if r.random() < .3 else r.choice(b'abc') for _ in range(40))
        b.cmd('buf 0 ' + buf.hex())
        b.m.bufs[0] = bytearray(buf)

        def idx():
            return sgn(r.choice([0, 1, 2, 3, 4, 5, 6, -1, -2, -3, -6, 100, -100, 127, 128, 1000000,
                                 2147483647, -2147483647, r.randrange(-9, 9)]))

        def s(d=2):
            z = r.random()
            if names and z < .4: return ident(r.choice(names))
            if d <= 0 or z < .6: return ('str', rstr(r))
            if z < .75: return ('bin', '+', s(d - 1), s(d - 1))
            if z < .85: return call(('dot', s(d - 1), b'slice'), *([idx()] + ([idx()] if r.random() < .6 else [])))
            if z < .88: return call(ident(b'chr'), smallint(r, 256))
            if z < .93: return call(ident(b'fstr'), s(d - 1))
            if z < .97:
                o = r.randrange(0, 40)
                n = r.randrange(0, 41 - o)
                a = [call(ident(b'ptr'), smallint(r, 1))]
                y = r.random()
                if y < .3: a += [sgn(n)]
                elif y < .6: a += [sgn(o), sgn(n)]
                else: a += [sgn(o), sgn(n), lit(r.choice(['true', 'false']))]
                return call(ident(b'mkstr'), *a)
            return ('un', 'typeof', r.choice([smallint(r), lit('null'), s(0), ('arr', []), ('obj', []), lit('undefined')]))

        def tr(e):
            body = [('ret', e)]
            return call(ident(b'ctry'), ('fn', None, [], body, Fn([], body)), lit('null'))

        def q():
            z = r.random()
            if z < .15: return ('dot', s(), b'length')
            if z < .27: return ('idx', s(), r.choice([idx(), sgn(r.randrange(0, 8))])) if r.random() < .8 else \
                ('idx', s(), ('str', r.choice([b'0', b'1', b'5', b'length'])))
            if z < .37: return call(('dot', s(), r.choice([b'at', b'charCodeAt'])), idx())
            if z < .55: return call(('dot', s(), b'indexOf'), s(), *([idx()] if r.random() < .4 else []))
            if z < .70: return call(('dot', s(), b'slice'), *([idx()] + ([idx()] if r.random() < .6 else [])))
            if z < .82: return ('bin', r.choice(['===', '!==']), s(), s())
            if z < .86:                      # (nearly) equal contents, different origin
                t = nulled(r, rstr(r))
                u = t if r.random() < .35 else near(r, t)
                def made(t):
                    c = r.randrange(0, len(t) + 1)
                    return r.choice([('str', t), call(ident(b'fstr'), ('str', t)), ('bin', '+', ('str', t[:c]), ('str', t[c:])),
                                     call(('dot', ('str', b'#' * (c % 9) + t), b'slice'), sgn(c % 9))])
                y = r.random()
                if y < .55: return ('bin', r.choice(['===', '!==']), made(t), made(u))
                if y < .65: return call(('dot', made(t), b'indexOf'), made(u))
                if y < .72:
                    c = r.randrange(0, len(t) + 1)
                    return call(('dot', ('bin', '+', made(near(r, t)), made(t)), b'indexOf'), made(u[c:]), *([idx()] if r.random() < .3 else []))
                if y < .78: return ('log', '&&', made(t), made(u))
                return ('idx', ('obj', [(t, smallint(r)), (u, smallint(r)), (near(r, t), smallint(r))]), made(r.choice([t, u])))
            if z < .88: return call(ident(b'chr'), r.choice([idx(), lit('null'), s(0), sgn(255), sgn(256), sgn(-1)]))
            if z < .91: return tr(call(('dot', s(), r.choice([b'at', b'indexOf', b'slice'])), *r.choice([
                [], [lit('null')], [lit('undefined')], [s(0), s(0)], [smallint(r), s(0)]])))
            if z < .93: return tr(call(('dot', r.choice([smallint(r), ('arr', []), ('obj', []), lit('null')]),
                                        r.choice([b'at', b'indexOf', b'slice', b'charCodeAt'])), smallint(r)))
            if z < .95: return tr(('dot', s(0), r.choice([b'foo', b'x', b'slices'])))
            if z < .97: return ('log', r.choice(['&&', '||']), s(0), s(0))
            return ('idx', ('obj', [(rk(), smallint(r)), (rk(), smallint(r))]), ('str', rk()))

        def rk():
            k = r.choice([b'abc', b'abcdef', b'a\0', b'a', b'a\0b', b'', rstr(r)])
            return k

        probe_pre = []
        prog = []
        for _ in range(r.randrange(3, 14)):
            if r.random() < .3:
                self.nv += 1
                n = b's%d' % self.nv
                st = ('let', [(n, s())])
                try: self.try_(prog + [st], buf)
                except (Unspecified, RecursionError): continue
                names.append(n)
                prog.append(st)
            elif names and r.random() < .1:
                st = ('expr', [emit(('asg', '+=', ident(r.choice(names)), s()))])
                try: self.try_(prog + [st], buf)
                except (Unspecified, RecursionError): continue
                prog.append(st)
            else:
                st = ('expr', [emit(q())])
                try: self.try_(prog + [st], buf)
                except (Unspecified, RecursionError): continue
                prog.append(st)
        if names: prog.append(('expr', [emit(*[ident(n) for n in names])]))
        b.run(prog, r.random() < .2)
        b.snap('end')
        return b.case()

    def try_(self, prog, buf):
        m = Interp()
        m.bufs[0] = bytearray(buf)
        m.run(prog)


check = C()
