"""Printing values: print(), to a stream, into buffers of every size."""
import struct, math
from runner import Check
from kit import Builder, ANY
from gen import lit, ident, call, emit
from model import Fn, U, N, ser
import model, printer
from drv import hx
from c04 import edge
from c13 import litof


def double(r):
    z = r.random()
    if z < .25: return float(r.choice([0, 1, -1, 9, 10, 99, 100, 255, -256, 2 ** 31, -2 ** 31, 2 ** 53, -2 ** 53, 2 ** 62]))
    if z < .4: return float(r.randrange(-10 ** 6, 10 ** 6)) / r.choice([1, 2, 4, 10, 1000, 7])
    if z < .55: return math.ldexp(r.choice([1, -1, 1.5, -1.25, 1 - 2 ** -53]), r.randrange(-1074, 1024))
    if z < .65: return r.choice([math.inf, -math.inf, -0.0, 9223372036854775808.0, -9223372036854775808.0,
                                 9223372036854774784.0, -9223372036854774784.0, 9223372036854777856.0, 1e300, 5e-324, 0.9999995, 0.9999994, -0.0000004])
    if z < .8: return float(r.getrandbits(r.randrange(1, 66))) * r.choice([1, -1])
    v = struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0]
    return v if v == v else 0.5


def rstr(r):
    n = r.choice([0, 1, 2, 4, 5, 6, 7, 12, 40, 130]) if r.random() < .95 else r.choice([500, 3000])
    a = r.choice([range(256), range(32, 127), b'\0\n\t\x1f \x7e\x7f\x80\xff\\x"', b'ab%s%d%n%'])
    return bytes(r.choice(a) for _ in range(n))


def value(r):
    z = r.random()
    if z < .5: return double(r)
    if z < .85: return rstr(r) if r.random() < .9 else model.FStr(rstr(r))
    return r.choice([True, False, U, N])


def slit(r, v):
    """Source for a value."""
    if isinstance(v, bytes): return ('str', bytes(v))
    if isinstance(v, bool): return lit('true' if v else 'false')
    if v is U: return lit('undefined')
    if v is N: return lit('null')
    if math.isinf(v): e = ('num', '1e999', math.inf)
    else: e = ('num', repr(abs(v)), abs(v))
    return ('un', '-', e) if math.copysign(1, v) < 0 else e


class C(Check):
    id = 'C20'
    quick, thorough = 50000, 500000
    configs = ['drv', 'drv', 'drv', 'drv_gcc', 'drv_32']
    rule = ('Numbers of all magnitudes (every exponent, edges of the integer range, random bit patterns), strings of all bytes and lengths, booleans, null, '
            'undefined, nested and cyclic objects and arrays, functions and pointers are printed by scripts (0 to 12 arguments, in loops and callbacks), by the host to a '
            'stream, and into exactly allocated buffers of every size from 0 to beyond the full text; the text must equal a reference, truncated to the buffer and '
            'terminated. Afterwards the values and the engine must be unchanged. Non-trivial: at least two events were compared.')

    def gen(self, r, i, tier):
        b = Builder(r)
        m = b.m
        if r.random() < .2: b.cmd('gc 3 %d %d' % (r.choice([1, 2, 5]), r.randrange(1 << 30)))
        k = (i // 5) % 4
        if k == 0: self.script(r, b)
        elif k == 3 and r.random() < .5: self.address(r, b, self.configs[i % 5] == 'drv_32')
        else: self.host(r, b)
        b.snap('end')
        return b.case()

    def script(self, r, b):
        b.labels.add('script')
        obj = [('obj', []), ('arr', []), ('obj', [(b'k', ('num', '1', 1.0))]), ('arr', [('str', b'x')]), ident(b'cyc')]
        def arg():
            z = r.random()
            if z < .7: return slit(r, value(r))
            if z < .8: return r.choice(obj)
            if z < .9: return ident(b'v')
            return ('bin', '+', slit(r, rstr(r)), slit(r, rstr(r)))
        def pr(): return ('expr', [call(ident(b'print'), *[arg() for _ in range(r.choice([0, 1, 1, 2, 3, 5, 12]))])])
        p = [('let', [(b'v', slit(r, value(r))), (b'cyc', ('obj', []))]),
             ('expr', [('asg', '=', ('dot', ident(b'cyc'), b'me'), ident(b'cyc'))])]
        for _ in range(r.randrange(1, 5)):
            z = r.random()
            if z < .7: p.append(pr())
            elif z < .85:
                body = [pr(), ('ret', slit(r, value(r)))]
                p.append(('expr', [call(ident(b'print'), call(('fn', None, [], body, Fn([], body))))]))
            else: p.append(('expr', [emit(ident(b'v'))]))
        p.append(('expr', [emit(ident(b'v'), ident(b'cyc'))]))
        b.run(p)

    def host(self, r, b):
        b.labels.add('host')
        for q in range(r.randrange(1, 4)):
            b.cmd('own r%d' % q)
            z = r.random()
            if z < .85:
                v = value(r)
                b.cmd('val r%d %s' % (q, litof(r, v)))
            else:
                v = None
                a = r.random() < .5
                b.cmd('val r%d %s' % (q, 'a' if a else 'o'))
                if a: b.cmd('apush r%d r%d' % (q, q), ['V', '0'])
                else: b.cmd('set r%d %s r%d' % (q, hx(b'self'), q), ['V', '0'])
                t = b'<array>' if a else b'<object>'
            if v is not None: t = b.m.show(v)
            for n in sorted({0, 1, 2, len(t) - 1 if t else 0, len(t), len(t) + 1, len(t) + 2, r.randrange(len(t) + 3)}):
                b.cmd('sprintf r%d %d' % (q, n), ['P', hx(t[:n - 1]) if n else '-', '1' if n else '0'])
            b.cmd('fprintf r%d' % q, *([['O', hx(t)]] if t else []))
            if v is not None: b.cmd('dump r%d' % q, ['D', ser(v)])

    def address(self, r, b, m32):
        b.labels.add('addresses and NaN')
        z = r.randrange(4)
        if z == 0:
            b.raw(b'print(NaN, 0/0, -NaN);', ['R', 'exec', '0', hx(b'NO_ERROR'), 'u', ANY], ['O', ('re', '(-?nan ){3}\n')])
            b.cmd('val r1 dNaN')
            n = r.choice([1, 2, 3, 4, 5, 50])
            t = [x[:n - 1] for x in ('nan', '-nan')]
            b.cmd('sprintf r1 %d' % n, ['P', ('re', '|'.join(t)), '1'])
        elif z == 1:
            b.raw(b'let f = function(a) { return a; }; print(f, f); print(print, JSON.stringify);',
                  ['R', 'exec', '0', hx(b'NO_ERROR'), 'u', ANY],
                  ['O', ('re', r'(<function@\d+> )\1\n<foreign_ptr@[0-9a-f]+> <foreign_ptr@[0-9a-f]+> \n')])
        else:
            b.cmd('buf 0 ' + '00' * 8)
            off = r.randrange(8)
            b.cmd('val r1 p%s' % r.choice(['A+0', 'A+%d' % off, '0']))
            b.cmd('fprintf r1', ['O', ('re', r'<foreign_ptr@[0-9a-f]+>')])
            n = r.choice([1, 2, 5, 13, 14, 15, 60])
            p = '<foreign_ptr@'
            b.cmd('sprintf r1 %d' % n, ['P', ('re', p[:n - 1] if n <= 14 else p + '[0-9a-f]{1,%d}%s' % (n - 14, '>?')), '1'])


check = C()
