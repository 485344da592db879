"""Expressions: values, operators, precedence, evaluation order."""
from runner import Check
from kit import Builder
import gen, model, math
from model import Fn, Interp, Unspecified
from gen import lit, ident, call, emit, num

ARITH = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '>>>']
CMP = ['<', '>', '<=', '>=', '===', '!==']
EDGE = ['0', '1', '2', '3', '31', '32', '62', '127', '128', '255', '256', '2147483646', '2147483647', '2147483648',
        '2147483649', '4294967294', '4294967295', '4294967296', '4294967297', '9007199254740991',
        '9007199254740993', '4611686018427387903', '0.5', '0.1', '1.5', '2.5', '0.3', '1e-7', '1e16', '1e300',
        '1e-300', '1.7976931348623157e308', '5e-324', '123456789.987654321', '0x7fffffff', '0x80000000',
        '0xffffffff', '1e0', '1E3', '1.0', '00.5', '9223372036854775807', '9223372036854775808', '1e21']


def edge(r):
    t = r.choice(EDGE)
    v = float(int(t, 16)) if t.startswith('0x') else float(t)
    e = ('num', t, v)
    return ('un', '-', e) if r.random() < .35 else e


def val(r):
    z = r.random()
    if z < .6: return edge(r)
    if z < .7: return ('str', r.choice([b'', b'a', b'b', b'ab', b'abcd', b'abcde', b'abcdef', b'abcdeg', b'1', b'\0',
                                        b'abcdef\0', b'0']))
    if z < .8: return lit(r.choice(['true', 'false', 'null', 'undefined']))
    if z < .85: return ident(b'NaN')
    if z < .89: return ('arr', [])
    if z < .93: return ('obj', [])
    if z < .95: return ident(r.choice([b'oo', b'aa']))
    if z < .97: return ident(r.choice([b'print', b'JSON', b'chr']))
    return ('fn', None, [], [], Fn([], []))


def fn(e):
    body = [('ret', e)]
    return ('fn', None, [], body, Fn([], body))


PRE = [('let', [(b'oo', ('obj', [(b'k', ('num', '1', 1.0))])), (b'aa', ('arr', [('num', '1', 1.0)])),
                (b'x', ('num', '5', 5.0)), (b'y', ('num', '7', 7.0)), (b's', ('str', b'str'))])]


def ok(prog):
    m = Interp()
    try:
        m.run(PRE)
        m.run(prog)
        return True
    except (Unspecified, RecursionError):
        return False


class C(Check):
    id = 'C04'
    quick, thorough = 50000, 600000
    rule = ('Scripts of random expressions over edge numbers and all value kinds (every operator against every '
            'kind of operand, compound assignment, ++/--, conditional and logical operators with side effects, '
            'unparenthesised operator chains); every operand evaluation is visible through emit(). Each emitted '
            'value, the completion value and the error must equal the reference evaluation. Non-trivial: at '
            'least two events were compared.')

    def gen(self, r, i, tier):
        b = Builder(r)
        mode = i % 4
        prog = []
        if mode == 0:                    # operator x operand kinds
            for _ in range(12):
                z = r.random()
                if z < .6: e = ('bin', r.choice(ARITH + CMP), val(r), val(r))
                elif z < .75: e = ('un', r.choice(['-', '+', '!', '~', 'typeof']), val(r))
                elif z < .85: e = ('log', r.choice(['&&', '||']), val(r), val(r))
                elif z < .9: e = ('cond', val(r), val(r), val(r))
                elif z < .95: e = ('bin', r.choice(['==', '!=']), val(r), val(r))
                else: e = call(ident(b'isNaN'), val(r))
                s = ('expr', [emit(call(ident(b'ctry'), fn(e), lit('null')))])
                if ok([s]): prog.append(s)
        elif mode == 1:                  # assignments
            tg = [ident(b'x'), ident(b'y'), ident(b's'), ('dot', ident(b'oo'), b'k'), ('dot', ident(b'oo'), b'z'),
                  ('idx', ident(b'oo'), ('str', b'k')), ('idx', ident(b'aa'), ('num', '0', 0.0)),
                  ('idx', ident(b'aa'), ('str', b'0')), ('idx', ident(b'aa'), ('num', '2', 2.0)), ident(b'nosuch'),
                  ('dot', ident(b'x'), b'q'), ('dot', lit('null'), b'q'), ('dot', ('str', b'abc'), b'q')]
            for _ in range(10):
                t = r.choice(tg)
                z = r.random()
                if z < .3: e = ('asg', '=', t, val(r))
                elif z < .75: e = ('asg', r.choice(ARITH) + '=', t, r.choice([val(r), gen.smallint(r, 32)]))
                elif z < .87: e = ('post', r.choice(['++', '--']), t)
                elif t[0] == 'id': e = ('pre', r.choice(['++', '--']), t)
                else: e = ('asg', '=', t, ('asg', '=', r.choice(tg), val(r)))
                s = [('expr', [emit(call(ident(b'ctry'), fn(e), lit('null')))]),
                     ('expr', [emit(ident(b'x'), ident(b'y'), ident(b's'), ident(b'oo'), ident(b'aa'))])]
                if ok(prog + s): prog += s
        elif mode == 2:                  # operator chains: precedence and associativity
            for _ in range(6):
                def chain(d):
                    if d == 0 or r.random() < .15:
                        return emit(edge(r)) if r.random() < .4 else r.choice([gen.smallint(r, 40), edge(r),
                                                                             ident(b'x'), ident(b'y')])
                    z = r.random()
                    if z < .65: return ('bin', r.choice(ARITH + CMP), chain(d - 1), chain(d - 1))
                    if z < .8: return ('log', r.choice(['&&', '||']), chain(d - 1), chain(d - 1))
                    if z < .88: return ('un', r.choice(['-', '!', '~', '+', 'typeof']), chain(d - 1))
                    if z < .94: return ('cond', chain(d - 1), chain(d - 1), chain(d - 1))
                    return ('asg', r.choice(['=', '+=', '-=', '*=', '|=', '&=', '^=']), ident(r.choice([b'x', b'y'])),
                            chain(d - 1))
                e = chain(r.randrange(2, 5))
                s = ('expr', [emit(call(ident(b'ctry'), fn(e), lit('null')))])
                if ok(prog + [s]): prog.append(s)
        else:                            # typed expressions with side effects everywhere
            g = gen.Gen(r, r.choice([0, .02]))
            g.pemit = .25
            g.env['n'] += [b'x', b'y']
            g.env['s'].append(b's')
            g.env['o'].append(b'oo')
            g.env['a'].append(b'aa')
            for _ in range(5):
                s = ('expr', [g.e(r.choice('nnnbsx'), 4)])
                if ok(prog + [s]): prog.append(s)
        b.run(PRE)
        b.run(prog, r.random() < .3)
        b.snap('end')
        return b.case()


check = C()
