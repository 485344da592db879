"""Arrays: indexes, length, push, splice, enumeration."""
from runner import Check
from kit import Builder
import gen
from gen import lit, ident, call, emit, smallint
from model import Fn, U
from c13 import big_indexes, cap, litof


class C(Check):
    id = 'C07'
    quick, thorough = 50000, 500000
    rule = ('Random histories on a few arrays: literals, index reads and writes (also far past the end and '
            'through string keys), push, splice with every argument shape and with start/deleteCount from far '
            'negative to far positive, length, deletion, for..in, named properties; elements are unique so a '
            'misplaced one is visible. Every value must equal the reference list. Non-trivial: at least two '
            'events were compared.')

    def gen(self, r, i, tier):
        b = Builder(r)
        arrs = [b'a%d' % k for k in range(2)]
        uid = [0]

        def a(): return ident(r.choice(arrs))

        def v():
            uid[0] += 1
            z = r.random()
            if z < .6: return ('num', str(uid[0]), float(uid[0]))
            if z < .8: return ('str', b'element_%d' % uid[0])
            if z < .85: return ('arr', [('num', str(uid[0]), float(uid[0]))])
            if z < .9: return a()
            return lit(r.choice(['undefined', 'null', 'true']))

        def ix():
            z = r.random()
            if z < .7: n = r.randrange(0, 9)
            elif z < .9: n = r.randrange(0, 30)
            else: n = r.choice([126, 127, 128, 129, 255])
            return n

        def key(n):
            return ('str', b'%d' % n) if r.random() < .15 else ('num', str(n), float(n))

        def sgn(n): return ('num', str(n), float(n)) if n >= 0 else ('un', '-', ('num', str(-n), float(-n)))

        def tr(e):
            body = [('ret', e)]
            return call(ident(b'ctry'), ('fn', None, [], body, Fn([], body)), lit('null'))

        def op():
            z = r.random()
            if z < .16: return ('expr', [('asg', '=', ('idx', a(), key(ix())), v())])
            if z < .26: return ('expr', [emit(('idx', a(), key(ix())))])
            if z < .36: return ('expr', [emit(call(('dot', a(), b'push'), *[v() for _ in range(r.choice([0, 1, 1, 2, 5]))]))])
            if z < .66:
                args = [sgn(r.choice([0, 0, 1, 2, 3, 5, -1, -2, -3, -5, 100, -100, r.randrange(-9, 9)]))]
                if r.random() < .8:
                    args.append(sgn(r.choice([0, 0, 1, 1, 2, 3, 10, -1, 100])))
                    args += [v() for _ in range(r.choice([0, 0, 1, 1, 2, 3, 7]))]
                e = call(('dot', a(), b'splice'), *args)
                return ('expr', [emit(e)])
            if z < .72: return ('expr', [emit(('dot', a(), b'length'))])
            if z < .77: return ('expr', [emit(call(ident(b'cdel'), a(), ('str', b'%d' % ix())))])
            if z < .81: return ('forin', True, b'it', a(), ('block', [('expr', [emit(ident(b'it'))])]))
            if z < .85: return ('expr', [('asg', '=', a(), ('arr', [v() for _ in range(r.randrange(0, 9))]))])
            if z < .88: return ('expr', [('asg', '=', ('idx', a(), ('str', r.choice([b'foo', b'name_longer', b' 5', b'07', b'+12', b'-3', b'00', b'5 ',
                                   b'1e1', b'0x9', b'-0', b'1.5', b'9\x00', b'\t2', b'', b'-18446744073709551600', b'4294967295',
                                   b'18446744073709551620']))), v())])
            if z < .90: return ('expr', [emit(tr(call(('dot', a(), b'splice'), *r.choice([
                [], [('str', b'x')], [smallint(r), ('str', b'1')], [lit('undefined')], [smallint(r), lit('null')]]))))])
            if z < .92: return ('expr', [emit(tr(call(('dot', r.choice([('obj', []), ('str', b'abc'), smallint(r)]),
                                                       r.choice([b'push', b'splice'])), v())))])
            if z < .94: return ('expr', [emit(('idx', ('idx', a(), key(ix())), smallint(r)))]) if False else \
                ('expr', [emit(call(('dot', ident(b'JSON'), b'stringify'), a()))])
            return ('expr', [emit(a())])
        b.run([('let', [(n, ('arr', [v() for _ in range(r.randrange(0, 7))])) for n in arrs])])
        if r.random() < .12:
            # sparse arrays with huge indexes, from scripts and from the host
            R = {k: U for k in range(3, 8)}
            for k in range(3, 8): b.cmd('own r%d' % k)
            for k in range(3, 7):
                R[k] = r.choice([float(k), b'element_%d' % k, True])
                b.cmd('val r%d %s' % (k, litof(r, R[k])))
            big = ident(b'big')
            ks = [r.choice([0, 3, 255, 65536, 2**31 - 2, 2**31 - 1, 2**31, 2**32 - 3, 2**32 - 2, 2**32 - 1, 2**32, 2**40, 2**53])
                  for _ in range(3)]
            for _ in range(r.randrange(1, 4)):
                if r.random() < .5: big_indexes(b, r, R, list(range(3, 8)))
                else:
                    prog = [('let', [(b'big', ('arr', [v() for _ in range(r.randrange(3))]))])]
                    for _ in range(r.randrange(2, 9)):
                        z, k = r.random(), key(cap(r.choice(ks)))
                        if z < .4: prog.append(('expr', [('asg', '=', ('idx', big, k), v())]))
                        elif z < .6: prog.append(('expr', [emit(('idx', big, k))]))
                        elif z < .75: prog.append(('expr', [emit(('dot', big, b'length'))]))
                        elif z < .85: prog.append(('expr', [emit(call(('dot', big, b'push'), v()))]))
                        elif z < .92: prog.append(('forin', True, b'it', big, ('block', [('expr', [emit(ident(b'it'))])])))
                        else: prog.append(('expr', [emit(big)]))
                    b.run([('block', prog)], r.random() < .2)
            for k in range(3, 8): b.cmd('disown r%d' % k, ['V', '1'])
            b.snap('end')
            return b.case()
        for _ in range(r.choice([1, 1, 2])):
            prog = []
            for _ in range(r.randrange(3, 20)): prog.append(op())
            prog.append(('expr', [emit(*[ident(n) for n in arrs])]))
            b.run(prog, r.random() < .2)
        b.snap('end')
        return b.case()


check = C()
