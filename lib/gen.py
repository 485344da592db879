"""Random mJS programs (model ASTs)."""
import random
from model import Fn

NUMS = ['0', '1', '2', '3', '5', '7', '10', '42', '63', '64', '100', '127', '128', '129', '255',
        '256', '1000', '16383', '16384', '32767', '65535', '65536', '2097151', '2097152',
        '2147483647', '2147483648', '4294967295', '4294967296', '9007199254740991',
        '0.5', '1.5', '0.1', '0.25', '3.14159', '2.71828', '100.001', '1e3', '1e10', '1.5e-3',
        '123456.789', '0x0', '0x1f', '0xff', '0x7fffffff', '0xdeadbeef', '1e15', '0.000001', '1e21',
        '18446744073709551616', '1e300']
PROPS = [b'a', b'b', b'c', b'x', b'y', b'key', b'val', b'name5', b'length', b'foo', b'longer_name',
         b'longer_nam2', b'k1', b'k2', b'abcde', b'abcdef', b'__p', b'a_very_long_property_name_indeed_123',
         b'apply', b'push', b'at', b'_', b'$', b'Z9']
NASTY = [b'', b' ', b'a b', b'\0', b'a\0b', b'"', b"'", b'\\', b'\n', b'\xff', b'\x80\x81',
         b'0', b'1', b'2', b'10', b'function', b'let', b'\x01', b'a"b\\c', b'/', b'//', b'/*',
         b'abcd\0', b'\0abcd', b'abcde', b'abcdef', b'__p', b'abcdef\0', b'abcdef\0g', b'\x7f']
CH = b'abcdefghijklmnopqrstuvwxyz ABC0123_"\'\\\n\t/'


def num(r, kinds=NUMS):
    z = r.random()
    if z < 0.45: t = str(r.randrange(0, 12))
    elif z < 0.8: t = r.choice(kinds)
    elif z < 0.9: t = str(r.randrange(0, 1 << r.randrange(1, 33)))
    elif z < 0.96: t = '%d.%d' % (r.randrange(0, 1000), r.randrange(0, 1000))
    else: t = hex(r.randrange(0, 1 << r.randrange(1, 32)))
    v = float(int(t, 16)) if t.startswith('0x') else float(t)
    return ('num', t, v)


def smallint(r, hi=12):
    i = r.randrange(0, hi)
    return ('num', str(i), float(i))


def rbytes(r, maxlen=14):
    z = r.random()
    if z < 0.25: return r.choice(NASTY)
    n = r.randrange(0, maxlen) if z < 0.9 else r.choice([4, 5, 6, 7, 20, 50, 127, 128, 130])
    if r.random() < 0.8: return bytes(r.choice(CH) for _ in range(n))
    return bytes(r.randrange(256) for _ in range(n))


def lit(n): return ('lit', n)
def ident(n): return ('id', n)
def call(f, *a): return ('call', f, list(a))
def emit(*a): return call(ident(b'emit'), *a)
def nlit(n): return ('num', str(n), float(n))

def route(r, f, d=2):
    """An expression with the value of f (a variable's name), which can be called: what it was read from must not get to be
    `this`, unless it's a property of an object right there."""
    def fn(ps, body): return ('fn', None, ps, body, Fn(ps, body))
    z = r.random()
    if d <= 0 or z < .1: return ident(f)
    if z < .3: return ('dot', ('obj', [(b'm', ident(f)), (b't', nlit(r.randrange(9)))]), b'm')
    if z < .35: return ('idx', ('arr', [nlit(0), ident(f)]), nlit(1))
    if z < .55:
        a, b = route(r, f, d - 1), route(r, f, d - 1) if r.random() < .7 else nlit(3)
        return ('cond', lit('true'), a, b) if r.random() < .5 or b[0] == 'num' else ('cond', lit('false'), b, a)
    if z < .7: return ('log', '||', lit(r.choice(['false', 'null', 'undefined'])), route(r, f, d - 1))
    if z < .8: return ('log', '&&', nlit(r.randrange(1, 9)), route(r, f, d - 1))
    if z < .85: return ('log', '||', route(r, f, d - 1), nlit(1))
    if z < .9: return call(fn([b'x'], [('ret', ('dot', ident(b'x'), b'm'))]), ('obj', [(b'm', route(r, f, d - 1))]))
    if z < .95:
        return call(fn([], [('let', [(b'q', ('obj', [(b'g', ident(f))]))]), ('ret', ('dot', ident(b'q'), b'g'))]))
    return call(('dot', ('obj', [(b'h', fn([], [('ret', route(r, f, d - 1))]))]), b'h'))


class Gen:
    def __init__(self, r, perr=0.0, maxhex=True):
        self.r = r
        self.perr = perr
        self.nvar = 0
        self.env = {k: [] for k in 'nbsoafx'}
        self.local = []          # stack of lists of (kind, name) to forget
        self.infn = 0
        self.inloop = 0
        self.fparams = {}        # function variable -> param kinds, return kind
        self.noassign = set()    # loop counters
        self.objkeys = [b'a', b'b', b'c', b'x', b'k1', b'longer_name', b'abcde', b'abcdef']
        self.pemit = 0.06

    # -------- variables
    def fresh(self, kind):
        self.nvar += 1
        base = {'n': 'n', 'b': 'b', 's': 's', 'o': 'o', 'a': 'a', 'f': 'f', 'x': 'v'}[kind]
        suf = self.r.choice(['', '', '_', 'longvarname', '$'])
        return ('%s%d%s' % (base, self.nvar, suf)).encode()

    def declare(self, kind, name):
        self.env[kind].append(name)
        if self.local: self.local[-1].append((kind, name))

    def push(self): self.local.append([])

    def pop(self):
        for k, n in self.local.pop():
            if n in self.env[k]: self.env[k].remove(n)

    def var(self, kind):
        if self.perr and self.r.random() < self.perr * .3: return b'undef%d' % self.r.randrange(3)
        l = self.env[kind]
        return self.r.choice(l[-6:] if self.r.random() < .7 else l) if l else None

    # -------- expressions
    def e(self, k, d=3):
        r = self.r
        if self.perr and r.random() < self.perr:
            k = r.choice('nbsoafx')
        if k == 'x': k = r.choice('nnnbssoaauf')
        if k == 'u': return lit(r.choice(['undefined', 'null']))
        if k == 'f' and d <= 0 and not self.env['f']: k = 'n'
        x = getattr(self, 'g_' + k)(d)
        if r.random() < self.pemit and d > 0: return emit(x)
        return x

    def leafvar(self, k):
        v = self.var(k)
        return ident(v) if v else None

    def g_n(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.2:
            if r.random() < 0.5:
                v = self.leafvar('n')
                if v: return v
            return num(r)
        z = r.random()
        if z < 0.30:
            return ('bin', r.choice(['+', '-', '*', '/', '+', '-', '*']), self.e('n', d - 1), self.e('n', d - 1))
        if z < 0.36:
            return ('bin', '%', self.e('n', d - 1), r.choice([smallint(r), ('un', '-', smallint(r)), self.g_i(d - 1)]))
        if z < 0.46:
            return self.g_i(d)
        if z < 0.52: return ('un', r.choice(['-', '+', '-']), self.e('n', d - 1))
        if z < 0.62:
            v = self.avar('n')
            if v:
                y = r.random()
                if y < 0.3: return ('asg', '=', ident(v), self.e('n', d - 1))
                if y < 0.6: return ('asg', r.choice(['+=', '-=', '*=', '/=']), ident(v), self.e('n', d - 1))
                if y < 0.8: return ('post', r.choice(['++', '--']), ident(v))
                return ('pre', r.choice(['++', '--']), ident(v))
        if z < 0.70:
            o = self.leafvar('o')
            if o:
                t = self.member(o, d)
                y = r.random()
                if y < .5: return t
                if y < .7: return ('asg', '=', t, self.e('n', d - 1))
                if y < .8 and self.perr: return ('post', r.choice(['++', '--']), t)
                if self.perr: return ('asg', r.choice(['+=', '-=']), t, self.e('n', d - 1))
                return ('asg', '=', t, self.e('n', d - 1))
        if z < 0.78:
            y = r.random()
            if y < .3: return ('dot', self.e('s', d - 1), b'length')
            if y < .5: return ('dot', self.e('a', d - 1), b'length')
            if y < .7: return call(('dot', self.e('s', d - 1), b'indexOf'), self.e('s', d - 1))
            if y < .85: return call(('dot', self.e('s', d - 1), r.choice([b'at', b'charCodeAt'])), smallint(r))
            v = self.avar('a')
            if v: return call(('dot', ident(v), b'push'), *[self.e('x', d - 1) for _ in range(r.randrange(3))])
        if z < 0.84: return ('cond', self.e('b', d - 1), self.e('n', d - 1), self.e('n', d - 1))
        if z < 0.92:
            c = self.fcall('n', d)
            if c: return c
        if z < 0.96: return ('log', r.choice(['&&', '||']), self.e('n', d - 1), self.e('n', d - 1))
        return num(r)

    def avar(self, k):
        l = [v for v in self.env[k] if v not in self.noassign]
        return self.r.choice(l) if l else None

    def g_i(self, d):
        """Integer operators on operands which are certainly small integers."""
        r = self.r
        def op(d):
            z = r.random()
            if d <= 0 or z < .5: return ('num',) + (lambda i: (str(i), float(i)))(r.randrange(0, 1 << r.randrange(1, 31)))
            if z < .6: return ('un', '-', op(d - 1))
            if z < .7: return ('un', '~', op(d - 1))
            if z < .8: return ('bin', r.choice(['<<', '>>', '>>>']), op(0), smallint(r, 20))
            return ('bin', r.choice(['&', '|', '^']), op(d - 1), op(d - 1))
        z = r.random()
        if z < .3: return ('bin', r.choice(['<<', '>>', '>>>']), op(d - 1), smallint(r, 31))
        if z < .85: return ('bin', r.choice(['&', '|', '^']), op(d - 1), op(d - 1))
        v = self.avar('n')
        if v:
            return ('asg', r.choice(['&=', '|=', '^=', '%=', '<<=', '>>=', '>>>=']), ident(v), smallint(r, 12))
        return ('un', '~', op(d - 1))

    def g_b(self, d):
        r = self.r
        if d <= 0 or r.random() < .15:
            v = self.leafvar('b')
            if v and r.random() < .5: return v
            return lit(r.choice(['true', 'false']))
        z = r.random()
        if z < .35: return ('bin', r.choice(['<', '>', '<=', '>=']), self.e('n', d - 1), self.e('n', d - 1))
        if z < .6:
            k = r.choice('nnnsbxoa')
            return ('bin', r.choice(['===', '!==']), self.e(k, d - 1), self.e(k if r.random() < .9 else 'x', d - 1))
        if z < .7: return ('un', '!', self.e(r.choice('bbnsx'), d - 1))
        if z < .85: return ('log', r.choice(['&&', '||']), self.e('b', d - 1), self.e('b', d - 1))
        if z < .9: return call(ident(b'isNaN'), self.e(r.choice('nnx'), d - 1))
        v = self.avar('b')
        if v: return ('asg', '=', ident(v), self.e('b', d - 1))
        return lit('true')

    def g_s(self, d):
        r = self.r
        if d <= 0 or r.random() < .2:
            v = self.leafvar('s')
            if v and r.random() < .5: return v
            return ('str', rbytes(r))
        z = r.random()
        if z < .4: return ('bin', '+', self.e('s', d - 1), self.e('s', d - 1))
        if z < .55:
            a = [r.choice([smallint(r), ('un', '-', smallint(r))]) for _ in range(r.choice([1, 2, 2]))]
            return call(('dot', self.e('s', d - 1), b'slice'), *a)
        if z < .63: return ('un', 'typeof', self.e('x', d - 1))
        if z < .68: return call(ident(b'chr'), smallint(r, 256))
        if z < .75: return call(('dot', ident(b'JSON'), b'stringify'), self.e(r.choice('nsoaxb'), d - 1))
        if z < .80: return ('cond', self.e('b', d - 1), self.e('s', d - 1), self.e('s', d - 1))
        if z < .85:
            v = self.avar('s')
            if v: return ('asg', r.choice(['=', '+=']), ident(v), self.e('s', d - 1))
        if z < .9:
            c = self.fcall('s', d)
            if c: return c
        if z < .93 and r.random() < .5: return call(ident(b'fstr'), self.e('s', d - 1))
        return ('bin', '+', ('str', rbytes(r)), self.e('s', d - 1))

    def key(self): return self.r.choice(self.objkeys if self.r.random() < .8 else PROPS)

    def member(self, o, d):
        r = self.r
        k = self.key()
        if r.random() < .6: return ('dot', o, k)
        z = r.random()
        if z < .6: return ('idx', o, ('str', k))
        if z < .8: return ('idx', o, num(r))
        return ('idx', o, self.e('s', d - 1) if d > 1 else ('str', k))

    def g_o(self, d):
        r = self.r
        v = self.leafvar('o')
        if v and (d <= 0 or r.random() < .45): return v
        if d <= 0: return ('obj', [])
        z = r.random()
        if z < .75:
            ks = []
            for _ in range(r.randrange(0, 5)):
                ks.append((self.key() if r.random() < .9 else rbytes(r, 8), self.e('x', d - 1)))
            return ('obj', ks)
        if z < .85 and v: return call(('dot', ident(b'Object'), b'create'), self.e('o', d - 1))
        v = self.avar('o')
        if v: return ('asg', '=', ident(v), self.e('o', d - 1))
        return ('obj', [])

    def g_a(self, d):
        r = self.r
        v = self.leafvar('a')
        if v and (d <= 0 or r.random() < .45): return v
        if d <= 0: return ('arr', [])
        z = r.random()
        if z < .8: return ('arr', [self.e('x', d - 1) for _ in range(r.randrange(0, 6))])
        if v:
            a = [r.choice([smallint(r, 6), ('un', '-', smallint(r, 6))])]
            if r.random() < .7:
                a.append(smallint(r, 4))
                a += [self.e('x', d - 1) for _ in range(r.randrange(3))]
            return call(('dot', v, b'splice'), *a)
        return ('arr', [])

    def g_f(self, d):
        r = self.r
        v = self.leafvar('f')
        if v and (d <= 0 or r.random() < .6): return v
        return self.function(None, [], self.r.choice('nsx'), d - 1)

    def function(self, name, params, ret, d):
        """A function literal; params: list of (kind, name)."""
        sv = self.inloop, self.noassign
        self.inloop = 0
        self.infn += 1
        self.push()
        for k, n in params: self.declare(k, n)
        body = self.block(max(0, min(d, 2)), self.r.randrange(0, 4))
        if self.r.random() < .85: body.append(('ret', self.e(ret, 2)))
        self.pop()
        self.infn -= 1
        self.inloop, self.noassign = sv
        ps = [n for _, n in params]
        return ('fn', name, ps, body, Fn(ps, body, name))

    def fcall(self, ret, d):
        r = self.r
        l = [f for f in self.env['f'] if self.fparams.get(f, (None, None))[1] == ret]
        if not l: return None
        f = r.choice(l)
        ks = self.fparams[f][0]
        args = [self.e(k, d - 1) for k in ks]
        z = r.random()
        if z < .07 and args: args.pop()
        elif z < .12: args.append(self.e('x', d - 1))
        z = r.random()
        if z < .7: return call(ident(f), *args)
        if z < .8: return call(('dot', ident(f), b'apply'), self.e('x', 1), ('arr', args))
        if z < .9: return call(ident(b'capply'), ident(f), self.e('x', 1), *args)
        return call(ident(b'ctry'), ident(f), self.e('x', 1), *args)

    # -------- statements
    def block(self, d, n):
        self.push()
        out = []
        for _ in range(n): out.extend(self.stmt(d))
        self.pop()
        return out

    def bodyof(self, d, n=None):
        n = self.r.randrange(0, 4) if n is None else n
        return ('block', self.block(d, n))

    def stmt(self, d):
        """A list of statements (usually one)."""
        r = self.r
        z = r.random()
        if z < .22: return [self.let(d)]
        if z < .40: return [('expr', [emit(self.e(r.choice('nnsbxoa'), 3))])]
        if z < .52: return [('expr', [self.e(r.choice('nnnsboax'), 3)] +
                             ([self.e('x', 2)] if r.random() < .1 else []))]
        if d <= 0: return [('expr', [emit(self.e('x', 2))])]
        if z < .62: return [self.ifs(d)]
        if z < .70: return self.loop(d)
        if z < .75: return [self.forin(d)]
        if z < .79: return [self.bodyof(d - 1)]
        if z < .85: return [self.fdecl(d)]
        if z < .90: return [self.setprop(d)]
        if z < .93: return [self.method(d)]
        if z < .95 and self.infn: return [('if', self.e('b', 2), ('ret', self.e('x', 2)), None)]
        if z < .97 and self.inloop:
            return [('if', self.e('b', 2), (r.choice(['break', 'cont']),), None)]
        if self.perr and r.random() < .2: return [(r.choice(['break', 'cont']),)]
        if self.perr and r.random() < .2: return [('ret', self.e('x', 1))]
        return [('expr', [emit(self.e('x', 3))])]

    def let(self, d):
        r = self.r
        out = []
        for _ in range(1 if r.random() < .85 else 2):
            k = r.choice('nnnssbooaax')
            if r.random() < .1 and self.local and self.env[k]:
                name = r.choice(self.env[k])       # shadow or redeclare
                if name in self.noassign: name = self.fresh(k)
            else:
                name = self.fresh(k)
            e = self.e(k, 3) if r.random() < .95 else None
            if e is None: k = 'x'
            out.append((name, e))
            self.declare(k, name)
        return ('let', out)

    def ifs(self, d):
        r = self.r
        c = self.e('b' if r.random() < .8 else 'x', 2)
        if r.random() < .3:
            return ('if', c, ('expr', [self.e('x', 2)]), None)
        els = None
        z = r.random()
        if z < .4: els = self.bodyof(d - 1)
        elif z < .5: els = self.ifs(d - 1)
        elif z < .55: els = ('expr', [self.e('x', 2)])
        return ('if', c, self.bodyof(d - 1), els)

    def loop(self, d):
        r = self.r
        i = self.fresh('n')
        n = ('num', *(lambda x: (str(x), float(x)))(r.randrange(0, 5)))
        self.noassign = self.noassign | {i}
        kind = r.random()
        self.inloop += 1
        self.push()
        self.declare('n', i)
        if kind < .6:
            body = self.bodyof(d - 1) if r.random() < .85 else ('expr', [emit(ident(i), self.e('x', 1))])
            init = ('let', [(i, smallint(r, 2))])
            st = r.choice([('post', '++', ident(i)), ('pre', '++', ident(i)),
                           ('asg', '+=', ident(i), ('num', '1', 1.0)),
                           ('asg', '=', ident(i), ('bin', '+', ident(i), ('num', '1', 1.0)))])
            res = [('for', init, ('bin', '<', ident(i), n), st, body)]
        else:
            body = self.bodyof(d - 1)
            body = ('block', [('expr', [('post', '++', ident(i))])] + body[1])
            c = ('bin', '<', ident(i), n)
            if r.random() < .3: c = ('log', '&&', c, self.e('b', 1))
            res = [('let', [(i, ('num', '0', 0.0))]), ('while', c, body)]
        self.pop()
        self.inloop -= 1
        if kind >= .6: self.declare('n', i)
        return res

    def forin(self, d):
        r = self.r
        o = self.e(r.choice('ooa'), 2)
        self.inloop += 1
        self.push()
        decl = True
        i = self.fresh('s')
        v = self.avar('s')
        if v and r.random() < .25:
            i, decl = v, False
        else:
            self.declare('s', i)
        b = self.bodyof(d - 1)
        if r.random() < .6: b[1].insert(0, ('expr', [emit(ident(i))]))
        ov = o if o[0] == 'id' else None
        if ov and r.random() < .4:
            z = r.random()
            if z < .35: b[1].append(('expr', [('asg', '=', ('idx', ov, ident(i)), self.e('x', 1))]))
            elif z < .8:
                b[1].append(('expr', [call(ident(b'cdel'), ov, ident(i) if r.random() < .6 else ('str', self.key()))]))
            else:
                b[1].append(('expr', [('asg', '=', ('dot', ov, self.key()), self.e('x', 1))]))
        self.pop()
        self.inloop -= 1
        return ('forin', decl, i, o, b)

    def fdecl(self, d):
        r = self.r
        name = self.fresh('f')
        ks = [r.choice('nnsbxoa') for _ in range(r.randrange(0, 4))]
        ps = [(k, ('p%d' % j).encode() if r.random() < .7 else self.fresh(k)) for j, k in enumerate(ks)]
        ret = r.choice('nnsx')
        f = self.function(name, ps, ret, d - 1)
        self.declare('f', name)
        self.fparams[name] = (ks, ret)
        if r.random() < .5: return ('expr', [f])
        # anonymous, bound by let
        anon = ('fn', None, f[2], f[3], Fn(f[2], f[3]))
        return ('let', [(name, anon)])

    def setprop(self, d):
        r = self.r
        k = r.choice('oooa')
        v = self.var(k)
        if v is None: return ('expr', [emit(self.e('x', 2))])
        if k == 'a':
            t = ('idx', ident(v), r.choice([smallint(r, 8), self.e('n', 1) if self.perr else smallint(r, 4)]))
        else:
            t = self.member(ident(v), d)
        return ('expr', [('asg', '=', t, self.e('x', 2))])

    def method(self, d):
        """obj.m = function() { ... this ... }; emit(obj.m(..))"""
        r = self.r
        v = self.var('o')
        if v is None: return ('expr', [emit(self.e('x', 2))])
        m = r.choice([b'm1', b'm2', b'method'])
        f = self.function(None, [('n', b'p0')], 'x', d - 1)
        t = r.choice([('this',), ('dot', ('this',), self.key()), ('un', 'typeof', ('this',)),
                      call(ident(b'cthis')), call(('dot', ('this',), m))]) if r.random() < .95 else ('this',)
        if t[0] == 'call' and t[1][0] == 'dot': t = ('un', 'typeof', ('this',))
        f[3].insert(0, ('expr', [emit(t)]))
        return ('block', [('expr', [('asg', '=', ('dot', ident(v), m), f)]),
                          ('expr', [emit(call(('dot', ident(v), m), self.e('n', 1)))])] +
                ([('let', [(b'rt', ('dot', ident(v), m))]), ('expr', [emit(call(route(r, b'rt'), self.e('n', 1)))])]
                 if r.random() < .5 else []))

    def script(self, n):
        out = []
        for _ in range(n): out.extend(self.stmt(2))
        return out
