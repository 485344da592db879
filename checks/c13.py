"""The embedding API: values, properties, arrays, calls, ownership."""
from runner import Check
from kit import Builder, ANY
import gen, printer, model
from gen import lit, ident, call, emit
from model import Fn, CFn, Ptr, Obj, Interp, JSError, Unspecified, U, N, ser, isstr, isnum, isfor, typeof, to_key, ikey, FStr
from drv import hx

KEYS = [b'a', b'b', b'ab', b'abcd', b'abcde', b'abcdef', b'abcdeg', b'length', b'', b'a\0b', b'k' * 127, b'k' * 128,
        b'0', b'1', b'7', b'__p', b'long_name_one', b'long_name_two', b'abcdef\0']
NR = 10


def litof(r, v):
    if isnum(v): return model.sernum(v)
    if isstr(v): return 's' + ('F' if isinstance(v, FStr) else '') + hx(bytes(v))
    if v is True: return 't'
    if v is False: return 'f'
    if v is N: return 'n'
    if v is U: return 'u'
    if isinstance(v, Ptr): return 'p0' if v.buf is None else 'p%s%+d' % (chr(65 + v.buf), v.off)
    if isinstance(v, CFn): return 'c' + v.name
    return 'a' if v.arr else 'o'



NARROW = [False]        # indexes of the host's arrays have 32 bits (set by C16)


def cap(k): return k % (2**32 - 16) if NARROW[0] else k


def big_indexes(b, r, R, regs):
    """Host calls on an array of its own, with indexes beyond 31 and 32 bits."""
    d = r.choice(regs)
    o, R[d] = Obj(True), U
    b.cmd('val r%d %s' % (d, litof(r, o)))
    vs = [k for k in regs if k != d]
    ks = [r.choice([0, 5, 127, 128, 255, 256, 32767, 65535, 65536, 2**31 - 2, 2**31 - 1, 2**31, 2**31 + 1,
                    2**32 - 3, 2**32 - 2, 2**32 - 1, 2**32, 2**32 + 5, 2**53, 10**19 + 1, 10**19 + 2, 2**64 - 1])
          for _ in range(r.randrange(1, 5))]
    for _ in range(r.randrange(2, 9)):
        z, k, v = r.random(), r.choice(ks), r.choice(vs)
        if r.random() < .2: k = (k + r.choice([1, 2**32, -2**32, 2**31])) % 2**64
        k = cap(k)
        if z < .45:
            b.cmd('aset r%d %d r%d' % (d, k, v), ['V', '0'])
            o.set(ikey(k), R[v])
        elif z < .55:
            b.cmd('apush r%d r%d' % (d, v), ['V', '0'])
            o.set(ikey(o.length()), R[v])
        elif z < .65:
            b.cmd('adel r%d %d' % (d, k))
            o.props.pop(ikey(k), None)
        elif z < .8: b.cmd('alen r%d' % d, ['V', str(o.length())])
        elif z < .85: b.cmd('next r%d' % d, ['K'] + ['s' + model.shex(x) for x in o.keys()] + ['end'])
        else:
            e = r.choice(vs)
            b.cmd('aget r%d r%d %d' % (e, d, k))
            R[e] = b.m.aget(o, k)
            if R[e] is not b.m.g and 'p?' not in ser(R[e]): b.cmd('dump r%d' % e, ['D', ser(R[e])])
    b.cmd('val r%d %s' % (d, litof(r, U)))


class C(Check):
    id = 'C13'
    quick, thorough = 50000, 500000
    rule = ('Random sequences of embedding calls (make/test/convert values, get/set/delete/enumerate properties by '
            'name and by value, array get/set/push/delete/length, apply and call of script and C functions with '
            'this and 0..8 arguments, own/disown, strings by length and NUL-terminated, host-owned strings, string '
            'comparison, printing into buffers of every size, scripts which see the same objects, collections in '
            'between) on registers the host owns. Every return value and every value read back must equal the '
            'reference heap; after a collection the engine holds exactly what is reachable. Non-trivial: at least '
            'five events were compared.')

    def nontrivial(self, c): return len(c.events) >= 5

    def gen(self, r, i, tier):
        b = Builder(r)
        m = b.m
        m.budget = 10000
        buf = bytes(r.randrange(256) for _ in range(8))
        b.cmd('buf 0 ' + buf.hex())
        m.bufs[0] = bytearray(buf)
        for k in range(NR): b.cmd('own r%d' % k)
        R = [U] * NR
        own = [1] * NR
        if r.random() < .3: b.cmd('gc 3 %d %d' % (r.choice([1, 2, 5]), r.randrange(1 << 30)))
        keys = r.sample(KEYS, 6)
        fns = []
        for k in range(2):
            ps = [b'p%d' % q for q in range(r.randrange(0, 4))]
            body = [('expr', [emit(('this',), *[ident(p) for p in ps])])]
            z = r.random()
            if z < .3: body.append(('ret', ('obj', [(b'made', ident(ps[0]) if ps else lit('null'))])))
            elif z < .5: body.append(('ret', ('bin', '+', ident(ps[0]) if ps else ('str', b'abc'), ('str', b'defg'))))
            elif z < .7: body.append(('ret', ('this',)))
            elif z < .8: body.append(('expr', [('asg', '=', ('dot', ('this',), b'touched'), ('num', '1', 1.0))]))
            elif z < .9: body.append(('ret', ident(b'undefd')))
            f = Fn(ps, body)
            fns.append(f)
            b.lines.append('execr r%d %s' % (k, printer.source([('expr', [('fn', None, ps, body, f)])], r, 0).hex()))
            R[k] = f
            b.result((0, b'', f))
        R[2] = m.g
        b.cmd('val r2 g')
        n_ops = r.randrange(8, 40)
        apis = m.g.props
        labels = b.labels

        def reg(pred=None):
            c = [k for k in range(NR) if pred is None or pred(R[k])]
            return r.choice(c) if c else r.randrange(NR)

        def dst(): return r.randrange(3, NR)
        for _ in range(n_ops):
            op = r.choice(['val', 'val', 'val', 'mov', 'get', 'get', 'getz', 'getv', 'getp', 'set', 'set', 'set', 'setz', 'setv',
                           'setv', 'del', 'delz', 'next', 'aget', 'aset', 'aset', 'adel', 'apush', 'apush', 'alen', 'dump',
                           'dump', 'apply', 'apply', 'call', 'applynull', 'typeof', 'conv', 'cstr', 'strcmp', 'sprintf',
                           'gc', 'own', 'disown', 'script', 'abig'])
            isobj = lambda v: isinstance(v, Obj)
            usable = lambda v: isinstance(v, Obj) and v is not m.g
            labels.add(op)
            if op == 'val':
                d = dst()
                z = r.random()
                if z < .25: v = gen.num(r)[2] * r.choice([1, 1, -1])
                elif z < .3: v = r.choice([float('nan'), 0.0, -0.0, float('inf'), -float('inf'), 2.0 ** 31, -2.0 ** 31, 2.0 ** 32])
                elif z < .5: v = r.choice([bytes, FStr])(r.choice(keys) if r.random() < .4 else gen.rbytes(r) * (r.choice([20, 127, 128, 5000, 70000]) if r.random() < .05 else 1))
                elif z < .7: v = Obj()
                elif z < .85: v = Obj(True)
                elif z < .9: v = r.choice([True, False, N, U])
                elif z < .95: v = Ptr(0, r.randrange(8)) if r.random() < .7 else Ptr(None)
                else: v = r.choice([m.g.props[b'emit'][1], m.g.props[b'cthis'][1], m.g.props[b'cnargs'][1]])
                l = litof(r, v)
                if type(v) is bytes and b'\0' not in v and r.random() < .3: l = 'sZ' + hx(v)
                b.cmd('val r%d %s' % (d, l))
                R[d] = v
            elif op == 'mov':
                d, s = dst(), reg()
                b.cmd('mov r%d r%d' % (d, s))
                R[d] = R[s]
            elif op in ('get', 'getz'):
                d, s, k = dst(), reg(isobj if r.random() < .9 else None), r.choice(keys)
                b.cmd('%s r%d r%d %s' % (op, d, s, hx(k)))
                kk = k.split(b'\0')[0] if op == 'getz' else k
                p = R[s].props.get(kk) if isobj(R[s]) else None
                R[d] = p[1] if p else U
            elif op in ('getv', 'getp'):
                d, s, k = dst(), reg(isobj if r.random() < .9 else None), reg(lambda v: not isinstance(v, (Obj, Fn)))
                if isinstance(R[k], (Obj, Fn)): continue
                kk = to_key(R[k])
                b.cmd('%s r%d r%d r%d' % (op, d, s, k))
                if op == 'getp': R[d] = m.get_proto(R[s], kk)
                else:
                    p = R[s].props.get(kk) if isobj(R[s]) else None
                    R[d] = p[1] if p else U
            elif op in ('set', 'setz'):
                o, k, v = reg(usable if r.random() < .9 else None), r.choice(keys), reg()
                kk = k.split(b'\0')[0] if op == 'setz' else k
                if R[o] is m.g and kk in m.builtin_keys: continue
                b.cmd('%s r%d %s r%d' % (op, o, hx(k), v), ['V', '0' if isobj(R[o]) else '2'])
                if isobj(R[o]): R[o].set(kk, R[v])
            elif op == 'setv':
                o, k, v = reg(usable if r.random() < .9 else None), reg(lambda v: not isinstance(v, (Obj, Fn))), reg()
                if R[o] is m.g: continue
                if isinstance(R[k], Obj):
                    b.cmd('setv r%d r%d r%d' % (o, k, v), ['V', '3'])
                    continue
                if isinstance(R[k], Fn): continue
                b.cmd('setv r%d r%d r%d' % (o, k, v), ['V', '0' if isobj(R[o]) else '2'])
                if isobj(R[o]): R[o].set(to_key(R[k]), R[v])
            elif op in ('del', 'delz'):
                o, k = reg(usable if r.random() < .9 else None), r.choice(keys)
                kk = k.split(b'\0')[0] if op == 'delz' else k
                if R[o] is m.g: continue
                b.cmd('%s r%d %s' % (op, o, hx(k)), ['V', str(m.delete(R[o], kk) if isobj(R[o]) else -1)])
            elif op == 'next':
                o = reg(usable)
                if not usable(R[o]): continue
                b.cmd('next r%d' % o, ['K'] + ['s' + model.shex(k) for k in R[o].keys()] + ['end'])
            elif op == 'aget':
                d, s, k = dst(), reg(isobj if r.random() < .9 else None), r.choice([0, 1, 2, 7, 8, 300, 4294967294])
                b.cmd('aget r%d r%d %d' % (d, s, k))
                R[d] = m.aget(R[s], k) if isobj(R[s]) else U
            elif op == 'aset':
                s, k, v = reg(usable if r.random() < .9 else None), r.choice([0, 1, 2, 7, 8, 20]), reg()
                if R[s] is m.g: continue
                b.cmd('aset r%d %d r%d' % (s, k, v), ['V', '0' if isobj(R[s]) else '3'])
                if isobj(R[s]): R[s].set(ikey(k), R[v])
            elif op == 'adel':
                s, k = reg(usable), r.choice([0, 1, 2, 7])
                if not usable(R[s]): continue
                b.cmd('adel r%d %d' % (s, k))
                m.delete(R[s], ikey(k))
            elif op == 'apush':
                s, v = reg(usable if r.random() < .9 else None), reg()
                if R[s] is m.g: continue
                b.cmd('apush r%d r%d' % (s, v), ['V', '0' if isobj(R[s]) else '3'])
                if isobj(R[s]): R[s].set(ikey(R[s].length()), R[v])
            elif op == 'alen':
                s = reg(usable if r.random() < .9 else None)
                if R[s] is m.g: continue
                b.cmd('alen r%d' % s, ['V', str(R[s].length() if isobj(R[s]) else 0)])
            elif op == 'abig':
                big_indexes(b, r, R, list(range(3, NR)))
            elif op == 'dump':
                s = reg(lambda v: v is not m.g)
                if R[s] is m.g: continue
                if 'p?' in ser(R[s]): continue
                b.cmd('dump r%d' % s, ['D', ser(R[s])])
            elif op in ('apply', 'call', 'applynull'):
                f = reg(lambda v: isinstance(v, (Fn, CFn))) if r.random() < .9 else reg()
                if type(R[f]) is Ptr: continue
                t = reg(lambda v: v is not m.g)
                n = r.randrange(0, 9) if op != 'call' else r.randrange(0, 5)
                a = [reg(lambda v: v is not m.g) for _ in range(n)]
                if any(R[x] is m.g for x in a + [t]): continue
                if any('p?' in ser(R[x]) for x in a + [t]): continue
                d = dst()
                b.lines.append('%s %s' % (op, ' '.join('r%d' % x for x in ([] if op == 'applynull' else [d]) + [f, t] + a)))
                if not isinstance(R[f], (Fn, CFn)): res = (3, b'calling non-callable', U)
                else:
                    try: res = (0, b'', m.call(R[f], R[t], [R[x] for x in a]))
                    except JSError as x: res = (x.code, x.msg, U)
                m.reset()
                b.outs()
                if op == 'applynull': b.result((res[0], res[1], U), 'apply')
                else:
                    b.result(res, 'apply')
                    R[d] = res[2]
                b.cmd('this', ['D', 'u'])
            elif op == 'typeof':
                s = reg()
                v = R[s]
                t = typeof(v)
                b.cmd('typeof r%d' % s, ['V', t] + ['%s=%d' % (n, c) for n, c in [
                    ('num', t == 'number'), ('bool', t == 'boolean'), ('str', t == 'string'), ('null', t == 'null'),
                    ('undef', t == 'undefined'), ('obj', t in ('object', 'array')), ('arr', t == 'array'),
                    ('fn', t == 'function'), ('foreign', t == 'foreign_ptr')]])
            elif op == 'conv':
                s = reg()
                v = R[s]
                if isnum(v) and v == v:
                    small = abs(v) < 2 ** 31
                    e = ['int=%d' % int(v) if small else ANY, 'int32=%d' % int(v) if small else ANY, 'bool=0',
                         'dbl=' + model.sernum(v)[1:], 'ptrnull=1']
                else:
                    e = ['int=0', 'int32=0', 'bool=%d' % (v is True), 'dbl=' + '0' * 16,
                         'ptrnull=%d' % (not (isinstance(v, CFn) or isinstance(v, Ptr) and v.buf is not None))]
                b.cmd('conv r%d' % s, ['V'] + e)
            elif op == 'cstr':
                s = reg(isstr)
                v = R[s]
                if isinstance(v, FStr) and len(v) == 0: continue
                e = 'NULL' if not isstr(v) or b'\0' in v else model.shex(v)
                b.cmd('cstr r%d' % s, ['V', e])
            elif op == 'strcmp':
                s = reg(isstr)
                v = R[s]
                if not isstr(v): continue
                k = r.choice([v, v, v[:-1], v + b'x', r.choice(keys), v[:-1] + b'\xff', bytes(len(v))])
                e = (len(v) > len(k)) - (len(v) < len(k)) or (v > k) - (v < k)
                b.cmd('strcmp r%d %s' % (s, hx(bytes(k))), ['V', str(e)])
            elif op == 'sprintf':
                s = reg()
                v = R[s]
                if isinstance(v, (Fn, CFn, Ptr)): continue
                if isnum(v) and v != v: continue
                t = m.show(v)
                n = r.choice([1, 2, 3, len(t), len(t) + 1, len(t) + 2, 300])
                if n == 0: n = 1
                b.cmd('sprintf r%d %d' % (s, n), ['P', hx(t[:n - 1]), '1'])
            elif op == 'gc':
                b.cmd(r.choice(['fullgc', 'halfgc']))
            elif op == 'own':
                k = r.randrange(NR)
                b.cmd('own r%d' % k)
                own[k] += 1
            elif op == 'disown':
                k = r.randrange(NR)
                if own[k] == 1: continue
                b.cmd('disown r%d' % k, ['V', '1'])
                own[k] -= 1
            else:
                o = reg(usable)
                if not usable(R[o]): continue
                b.cmd('set r2 %s r%d' % (hx(b'shared'), o), ['V', '0'])
                m.g.set(b'shared', R[o])
                k = r.choice([x for x in keys if x[:1].isalpha()] or [b'zz'])
                st = r.choice([[('expr', [('asg', '=', ('idx', ident(b'shared'), ('str', k)), ('arr', [('str', b'from script')]))])],
                               [('expr', [emit(ident(b'shared'))])],
                               [('forin', True, b'q', ident(b'shared'), ('block', [('expr', [emit(ident(b'q'))])]))],
                               [('expr', [emit(('un', 'typeof', ('idx', ident(b'shared'), ('str', k))))])]])
                if 'p?' in ser(R[o]): continue
                b.run(st, 0)
                m.out.clear()
        b.run([('expr', [('un', 'typeof', ('dot', ident(b'JSON'), b'parse'))])])
        b.cmd('fullgc')
        b.snap('heap', heap=True, owned=sum(own), roots=R)
        for k in range(NR):
            for _ in range(own[k]): b.cmd('disown r%d' % k, ['V', '1'])
            if r.random() < .3: b.cmd('disown r%d' % k, ['V', '0'])
        b.cmd('fullgc')
        b.snap('end', heap=True, owned=0)
        return b.case()


check = C()
