"""JSON.parse / JSON.stringify."""
from runner import Check
from kit import Builder, ANY
import gen, model
from gen import lit, ident, call, emit, smallint
from model import Fn, Obj, Interp, Unspecified, U, N

UTF = ['é', 'ß', '€', '漢', '😀', '\x7f', 'Ω']


def text(r):
    """A string value and its JSON spelling."""
    out, js = bytearray(), bytearray(b'"')
    n = r.choice([0, 1, 3, 5, 8, 20, 30, 31, 32, 33, 60, 130]) if r.random() < .3 else r.randrange(0, 8)
    for _ in range(n):
        z = r.random()
        if z < .6:
            c = r.choice(b'abcXYZ 019_.[]{},:/')
            out.append(c)
            js.append(c)
        elif z < .8:
            c, e = r.choice([(34, b'\\"'), (92, b'\\\\'), (47, b'\\/'), (8, b'\\b'), (12, b'\\f'), (10, b'\\n'),
                             (13, b'\\r'), (9, b'\\t')])
            out.append(c)
            js += e
        elif z < .9:
            c = r.randrange(256)
            out.append(c)
            js += (b'\\u00%02x' if r.random() < .5 else b'\\u00%02X') % c
        else:
            u = r.choice(UTF).encode()
            out += u
            js += u
    return bytes(out), bytes(js + b'"')


def num(r):
    z = r.random()
    if z < .5: t = str(r.randrange(-1000, 1000))
    elif z < .6: t = str(r.choice([0, -1, 2147483647, -2147483648, 4294967296, 9007199254740991, 1 << 62]))
    elif z < .8: t = '%d.%d' % (r.randrange(-99, 99), r.randrange(0, 999))
    elif z < .95: t = '%d%s%s%d' % (r.randrange(-9, 9), r.choice(['', '.5', '.25']), r.choice(['e', 'E', 'e+', 'e-', 'E-']),
                                    r.randrange(0, 20))
    else: t = r.choice(['0', '-0', '0.0', '1e300', '1e-300', '0.1', '123456789012345678'])
    return t.encode()


def ws(r):
    return b'' if r.random() < .7 else bytes(r.choice(b' \t\r\n') for _ in range(r.randrange(1, 4)))


def doc(r, d):
    z = r.random()
    if d <= 0 or z < .3:
        y = r.random()
        if y < .4: return num(r)
        if y < .8: return text(r)[1]
        return r.choice([b'true', b'false', b'null'])
    n = r.choice([0, 1, 2, 3, 5]) if r.random() < .95 else r.randrange(8, 25)
    if z < .65:
        items = [ws(r) + doc(r, d - 1) + ws(r) for _ in range(n)]
        return b'[' + (b','.join(items) if items else ws(r)) + b']'
    items = []
    ks = [text(r)[1] for _ in range(3)] + [b'"a"', b'"b"', b'""', b'"."', b'"a.b"', b'"[0]"', b'"x[1].y"', b'"1"']
    for _ in range(n):
        items.append(ws(r) + r.choice(ks) + ws(r) + b':' + ws(r) + doc(r, d - 1) + ws(r))
    return b'{' + (b','.join(items) if items else ws(r)) + b'}'


def J(n, *a): return call(('dot', ident(b'JSON'), n), *a)


class C(Check):
    id = 'C09'
    quick, thorough = 40000, 500000
    rule = ('Random JSON documents (nesting, duplicate/empty/dotted/bracketed keys, all escapes, UTF-8, numbers '
            'in every spelling, random whitespace) parsed and emitted; random engine values (with functions, '
            'foreign pointers, sparse arrays, cycles, binary strings) stringified; parse(stringify(v)) compared '
            'with v where representable; proper prefixes of documents must be rejected; mutated documents must '
            'either parse or be rejected and leave the engine balanced. Non-trivial: at least two events compared.')

    def gen(self, r, i, tier):
        b = Builder(r)
        mode = i % 5
        prog = []
        wild = False

        def tr(e):
            body = [('ret', e)]
            return call(ident(b'ctry'), ('fn', None, [], body, Fn([], body)), lit('null'))
        if mode in (0, 1):
            for _ in range(4):
                t = doc(r, r.randrange(0, 5))
                t = ws(r) + t + ws(r)
                try: model.parse_json(t)
                except (Unspecified, ValueError): continue
                prog.append(('let', [(b'v', J(b'parse', ('str', t)))]) if not prog else
                            ('expr', [('asg', '=', ident(b'v'), J(b'parse', ('str', t)))]))
                prog.append(('expr', [emit(ident(b'v'))]))
                if r.random() < .5:
                    e = emit(J(b'stringify', ident(b'v')))
                    prog.append(('expr', [e]))
        elif mode == 2:
            g = gen.Gen(r)
            for _ in range(3): prog.append(g.let(2))
            for _ in range(4):
                k = r.random()
                if k < .6: e = g.e(r.choice('ooaax'), 4)
                elif k < .8: e = ('arr', [lit('undefined'), lit('null'), g.e('x', 2), ident(b'print'),
                                          ('fn', None, [], [], Fn([], [])), ('obj', [(b'f', ident(b'chr')), (b'u', lit('undefined')),
                                                                                     (b'\x01\x1f"\\\x0b/', ('str', bytes(range(0, 40))))])])
                else: e = ident(r.choice(g.env['o'] + g.env['a'] + g.env['s'] + [b'JSON']))
                prog.append(('expr', [emit(J(b'stringify', e))]))
            if g.env['o']:
                v = ident(g.env['o'][0])
                prog += [('expr', [('asg', '=', ('dot', v, b'me'), v)]), ('expr', [emit(J(b'stringify', v))]),
                         ('expr', [emit(J(b'stringify', ('arr', [v, ('obj', [(b'x', v)])])))])]
            if r.random() < .15:     # a long chain, open or closed into a ring
                n = r.choice([2, 3, 5, 9, 15, 16, 17, 18, 31, 33, 40, 64, 65, 90])
                arr = r.random() < .3
                def cell(e): return ('arr', [e]) if arr else ('obj', [(b'c', e)])
                h = ident(b'head')
                prog += [('let', [(b'tail', cell(lit('null'))), (b'head', ident(b'tail'))]),
                         ('for', ('let', [(b'ci', ('num', '1', 1.0))]), ('bin', '<', ident(b'ci'), ('num', str(n), float(n))),
                          ('post', '++', ident(b'ci')),
                          ('block', [('let', [(b'nh', cell(h))]), ('expr', [('asg', '=', h, ident(b'nh'))])]))]
                if r.random() < .3: prog.append(('expr', [emit(J(b'stringify', h))]))
                to = h if r.random() < .6 else ident(b'tail')
                prog += [('expr', [('asg', '=', ('idx', ident(b'tail'), ('num', '0', 0.0)) if arr else ('dot', ident(b'tail'), b'c'), to)]),
                         ('expr', [emit(J(b'stringify', h))]), ('expr', [emit(J(b'stringify', ident(b'tail')))])]
            if g.env['a']:
                v = ident(g.env['a'][0])
                prog += [('expr', [('asg', '=', ('idx', v, smallint(r, 20)), r.choice([v, smallint(r)]))]),
                         ('expr', [emit(J(b'stringify', v))])]
            prog.append(('expr', [emit(tr(J(b'stringify')))]))
        elif mode == 3:                      # round trip of representable values, and wrong arguments
            def rep(d):
                z = r.random()
                if d <= 0 or z < .4:
                    y = r.random()
                    if y < .4: return gen.lit(r.choice(['true', 'false', 'null']))
                    if y < .7:
                        n = r.randrange(-(1 << 40), 1 << 40) if r.random() < .3 else r.randrange(-300, 300)
                        return ('num', str(n), float(n)) if n >= 0 else ('un', '-', ('num', str(-n), float(-n)))
                    return ('str', text(r)[0])
                if z < .7: return ('arr', [rep(d - 1) for _ in range(r.randrange(0, 5))])
                return ('obj', [(r.choice([b'a', b'b', b'key.x', b'[0]', b'', b'"', b'\\', b'a\nb', b'k' * 40]), rep(d - 1))
                                for _ in range(r.randrange(0, 5))])
            for _ in range(3):
                e = rep(4)
                s = ('expr', [emit(J(b'parse', J(b'stringify', e)))])
                try: Interp().run([s])
                except (Unspecified, RecursionError): continue
                prog += [('expr', [emit(e)]), s, ('expr', [emit(J(b'stringify', J(b'parse', J(b'stringify', e))))])]
            prog.append(('expr', [emit(tr(J(b'parse', *r.choice([[], [smallint(r)], [lit('null')], [('obj', [])]]))))]))
        else:
            t = doc(r, 4)
            if t[:1] not in b'[{"' or len(t) < 2: t = b'[' + t + b']'
            try: model.parse_json(t)
            except (Unspecified, ValueError): t = b'{"a": [1, 2, {"bcd": "efg\\n"}], "x": null}'
            for _ in range(4):
                if r.random() < .5:
                    cut = t[:r.randrange(0, len(t))]
                    b.run([('expr', [emit(smallint(r))])])
                    b.raw(b'emit(1); JSON.parse(' + b.r_str(cut) + b')' if False else
                          self.src(cut, r), ['E', ANY], ['R', 'exec', '3', b'invalid JSON string'.hex(), 'u', ANY])
                else:
                    m = bytearray(t)
                    for _ in range(r.randrange(1, 4)):
                        p = r.randrange(0, len(m))
                        z = r.random()
                        if z < .4: m[p] = r.choice(b'[]{}",:\\u0e-.ntfx \x00\xff\xc3\xf0')
                        elif z < .7: m.insert(p, r.choice(b'[]{}",:\\u0e-.'))
                        elif len(m) > 2: del m[p]
                    b.raw(self.src(bytes(m), r), ['E', ANY], ['R', 'exec', ('in', ('0', '3')), ANY, ANY, ANY])
                b.snap('m')
            b.m.run([('let', [(b'after', ('num', '5', 5.0))])])
            b.m.out.clear()
            b.raw(b'let after = 5; emit(JSON.parse("[1,{}]"), after)',
                  ['E', '[2|d3ff0000000000000,{}||2]', 'd4014000000000000'],
                  ['R', 'exec', '0', b'NO_ERROR'.hex(), ANY, ANY])
        if prog: b.run(prog, 0)
        b.snap('end')
        return b.case()

    def src(self, t, r):
        import printer
        return printer.source([('expr', [emit(smallint(r))]), ('expr', [J(b'parse', ('str', t))])], r, 0)


check = C()
