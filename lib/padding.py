"""Padding of programs, so that jumps cross the sizes of their encodings."""
from gen import lit
from model import Fn


def nlit(n): return ('num', str(n), float(n))


def size(r, tier):
    z = r.random()
    if z < .35: return r.randrange(90, 140)
    if z < .5: return r.randrange(230, 270)
    if z < .8: return r.randrange(16300, 16400)
    if z < .97 or tier != 'thorough': return r.choice([1000, 5000, 17000, 33000])
    return 2097152 - r.randrange(0, 300)


def filler(r, n):
    """A statement of about n bytes of bytecode and few steps."""
    if n < 400 and r.random() < .4: return ('expr', [nlit(r.randrange(200))])
    return ('expr', [('str', b'f' * n)])


def pad(x, r, tier, st):
    """Inserts fillers into statement lists, in place."""
    if isinstance(x, tuple):
        if x[0] == 'block': fill(x[1], r, tier, st)
        if x[0] == 'fn': fill(x[3], r, tier, st)
        for y in x[1:]: pad(y, r, tier, st)
    elif isinstance(x, list):
        for y in list(x): pad(y, r, tier, st)


def fill(l, r, tier, st):
    while st[0] > 0 and r.random() < .45:
        n = size(r, tier)
        st[0] -= n
        l.insert(r.randrange(len(l) + 1), filler(r, n))


def long_(r, e, n):
    """An expression equal to e, with about n more bytes of bytecode."""
    big = ('dot', ('str', b'g' * n), b'length')
    z = r.random()
    if z < .5: return ('log', '&&', big, e)
    if z < .75: return ('cond', ('bin', '===', big, nlit(0)), lit('null'), e)
    return ('cond', ('log', '||', lit('false'), big), e, lit('null'))


def padx(x, r, tier, st, p=.4):
    """Lengthens conditions, steps, initial values and operands; statement lists are changed in place."""
    def lg(e):
        if st[0] <= 0 or r.random() > p: return e
        n = size(r, tier)
        st[0] -= n
        return long_(r, e, n)
    if isinstance(x, list):
        x[:] = [padx(y, r, tier, st, p) for y in x]
        return x
    if not isinstance(x, tuple): return x
    x = tuple(padx(y, r, tier, st, p) for y in x)
    if x[0] == 'for':
        init = x[1]
        if isinstance(init, tuple) and init[0] == 'let': init = ('let', [(k, lg(e) if e is not None else e) for k, e in init[1]])
        elif init is not None: init = lg(init)
        return ('for', init, x[2] and lg(x[2]), x[3] and lg(x[3])) + x[4:]
    if x[0] in ('while', 'if'): return (x[0], lg(x[1])) + x[2:]
    if x[0] == 'forin': return x[:3] + (lg(x[3]),) + x[4:]
    if x[0] == 'ret' and x[1] is not None: return ('ret', lg(x[1]))
    return x
