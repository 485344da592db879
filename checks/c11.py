"""Foreign functions: signatures, argument and result conversion."""
import struct
from runner import Check
from kit import Builder, ANY
import gen
from gen import lit, ident, call, emit
from model import Fn, Unspecified, JSError, U
from ffimodel import FFI, Sig, func_text, cb_text, sp, TYPES, pick
from drv import hx

NUMS = [0, 1, -1, 2, 7, 100, -128, 255, 256, 65535, 65536, 2147483647, -2147483648, -2147483647, 123456789]
DBL = [0.0, 1.5, -2.25, 1e100, -1e-100, 3.141592653589793, 65536.0, 2147483648.0, 4294967295.0, -0.5, 1e308, 5e-324]
FLT = [0.0, 1.5, -2.25, 1e10, 3.140625, 0.1, -65536.5, 16777216.0]
STRS = [b'', b'a', b'abcd', b'abcde', b'abcdef', b'abcdefg', b'hello world', b'x' * 127, b'y' * 128, b'z' * 300, b'\xc3\xa9t\xc3\xa9']


def num(d):
    if d < 0 or (d == 0 and struct.pack('d', d)[7] & 0x80): return ('un', '-', num(-d))
    return ('num', repr(int(d)) if d == int(d) and d < 1e15 else repr(d), float(d))


def rstr(r):
    z = r.random()
    if z < .6: return r.choice(STRS)
    s = bytes(r.choice(b'abcxyz01 _%s\x80\xff') for _ in range(r.choice([1, 4, 5, 6, 7, 20, 60])))
    return s


def strexpr(r, s):
    """An expression whose value is s, possibly made at run time."""
    z = r.random()
    if z < .5 or not s: return ('str', s)
    k = r.randrange(len(s) + 1)
    return ('bin', '+', ('str', s[:k]), ('str', s[k:]))


def argval(r, k):
    """An expression acceptable for a parameter."""
    if k == 'i':
        z = r.random()
        if z < .7: return num(r.choice(NUMS))
        if z < .8: return lit(r.choice(['true', 'false']))
        if z < .9: return num(r.choice([1.5, -1.5, 99.999, -0.25, 4294967295.0, 2147483648.0]))
        return num(r.randrange(-1 << 31, 1 << 31))
    if k == 'b': return r.choice([lit('true'), lit('false'), num(0), num(1), num(-1), num(256), num(65536)])
    if k == 'd': return num(r.choice(DBL)) if r.random() < .8 else num(r.uniform(-1e6, 1e6))
    if k == 'f': return num(r.choice(FLT)) if r.random() < .9 else num(r.uniform(-1e6, 1e6))
    if k == 's': return lit('null') if r.random() < .1 else strexpr(r, rstr(r))
    if k == 'm':
        s = rstr(r)
        if r.random() < .2: s = s[:3] + b'\0' + s[3:]
        return strexpr(r, s)
    if k == 'q': return lit('null') if r.random() < .1 else strexpr(r, rstr(r))
    if k == 'p':
        z = r.random()
        if z < .2: return lit('null')
        if z < .3: return call(ident(b'ptr'), num(-1))
        if z < .7: return call(ident(b'ptr'), num(0), num(r.randrange(8)))
        return ('bin', '+', call(ident(b'ptr'), num(1), num(r.randrange(4))), num(r.randrange(4)))
    raise AssertionError(k)


def badval(r, k):
    c = [lit('undefined'), ('obj', []), ('arr', []), ident(b'gf')]
    if k in 'ib': c += [lit('null'), ('str', b'5'), ('str', b'')]
    if k in 'smq': c += [num(5), lit('true')]
    if k == 'm': c += [lit('null')]
    if k == 'p': c += [num(5), lit('false')]
    if k == 'c': c = [lit('undefined'), lit('null'), ('obj', []), num(3), ('str', b'emit'), ('arr', [])]
    return r.choice(c)


def bits(d): return struct.pack('>d', d).hex()


def retval(r, ret, args):
    if ret == 'v': return '-'
    if ret == 'i': return str(r.choice(NUMS) if r.random() < .8 else r.randrange(-1 << 31, 1 << 31))
    if ret == 'b': return r.choice('01')
    if ret == 'd': return bits(r.choice(DBL))
    if ret == 'f': return bits(r.choice(FLT))
    if ret == 'p': return r.choice(['p0', 'pA+0', 'pA+3', 'pB+1', 'pB+7'])
    ks = [i for i, a in enumerate(args) if a == 's']
    if ks and r.random() < .6: return 'A%d+%d' % (r.choice(ks), r.choice([0, 0, 1, 2, 5, 6, 100]))
    z = r.random()
    if z < .15: return 'n'
    return 's' + hx(r.choice(STRS)) if r.random() < .9 else 's-'


def params(r, letters='ibdfspmq'):
    """Parameter types, mostly of supported combinations."""
    z = r.random()
    if z < .45: return [r.choice([x for x in letters if x not in 'df']) for _ in range(r.randrange(0, 7))]
    fp = r.choice('df')
    if z < .9:
        n = r.randrange(1, 4)
        l = [r.choice([x for x in letters if x not in 'df'] + [fp] * 5) for _ in range(n)]
        if fp not in l: l[r.randrange(n)] = fp
        return l
    return [r.choice(letters) for _ in range(r.randrange(1, 7))]


def bad_sig(r, name):
    """(text, looked up name or None, code, message) of a signature with one defect."""
    z = r.randrange(12)
    T = b'bad ffi signature: "'
    good = [r.choice(['int', 'char *', 'bool', 'void *']) for _ in range(r.randrange(0, 3))]
    bt = r.choice(['integer', 'unsigned int', 'int *', 'char  *', 'char', 'long', 'struct foo *', 'Int', 'const char *', 'int x', 'double*',
                   'userdata *', 'mg_str', 'void **', 'doubl', 'floats', 'boo', 'voi', 'struct mg_str  *', 'in t'])
    def ins(x):
        l = list(good)
        l.insert(r.randrange(len(l) + 1), x)
        return l
    if z == 0:
        t = r.choice(['', 'x', 'int', 'int foo', 'int foo)', 'f'])
        return t, None, 3, 'bad ffi signature: "%s": 1' % t
    if z == 1:
        t = 'int %s(%s' % (name, ', '.join(good))
        return t, None, 3, 'bad ffi signature: "%s": 2' % t
    if z == 2:
        t = func_text(r, bt, name, good)
        return t, None, 3, 'bad ffi signature: "%s": failed to parse val type "%s"' % (t, bt)
    if z in (3, 4):
        t = func_text(r, 'int', name, ins(bt))
        return t, name, 3, 'bad ffi signature: "%s": failed to parse val type "%s"' % (t, bt)
    if z == 5:
        rt = r.choice(['userdata', 'struct mg_str *', 'struct mg_str*'])
        t = func_text(r, rt, name, good)
        return t, name, 3, 'bad ffi signature: "%s": invalid return value type' % t
    if z == 6:
        nm = r.choice(['no_such_function', name + '_', name + 'x' * r.choice([1, 2, 60, 99, 140])]) + '0no'
        t = func_text(r, 'int', nm, good)
        return t, nm, 3, 'bad ffi signature: "%s": dlsym(\'%s\') failed' % (t, nm)
    if z == 7:
        l = [r.choice(['int', 'double', 'char *']) for _ in range(r.choice([7, 7, 8, 12]))]
        t = func_text(r, 'int', name, l)
        return t, name, 3, 'bad ffi signature: "%s": too many callback args' % t
    if z == 8:
        t = func_text(r, 'int', name, ins('userdata'))
        return t, name, 3, 'bad ffi signature: "%s": callback and userdata should be either both present or both absent' % t
    if z == 9:
        t = func_text(r, 'int', name, ins('void (*)(userdata)'))
        return t, name, 3, 'bad ffi signature: "%s": callback and userdata should be either both present or both absent' % t
    if z == 10:
        l = ins('userdata')
        l.insert(r.randrange(len(l) + 1), 'userdata')
        i, j = [k for k, x in enumerate(l) if x == 'userdata']
        t = func_text(r, 'int', name, l)
        return t, name, 3, 'bad ffi signature: "%s": more than one userdata arg: #%d and #%d' % (t, i, j)
    t = 'int (*%s)(%s)' % (name, ', '.join(good))
    return t, None, 3, 'bad ffi signature: "%s": 4' % t


class C(Check):
    id = 'C11'
    quick, thorough = 40000, 400000
    rule = ('Random foreign function signatures over every supported parameter and result type (all positions of doubles '
            'and floats, 0..6 parameters, varying spelling and spacing) and unsupported or malformed ones, bound '
            'to recording C functions of the exact register shape; called with values of every type (short, long, run-time '
            'made and empty strings, extreme numbers, pointers, null), too few and too many arguments, through variables, object '
            'members, apply() and C code, with collections and moving strings in between. The C function must be '
            'looked up by name and called exactly with the converted arguments, the result must be converted back, and anything '
            'else must fail with a type error without calling it. Non-trivial: at least one foreign call was made.')
    def nontrivial(self, c): return any(l.startswith('ffi:') for l in c.meta['labels'])

    def setup(self, r, b):
        ffi = FFI(b)
        for k in (0, 1):
            buf = bytes(r.randrange(256) for _ in range(8))
            b.cmd('buf %d %s' % (k, buf.hex()))
            b.m.bufs[k] = bytearray(buf)
        b.m.budget = 8000
        if r.random() < .4: b.cmd('gc 3 %d %d' % (r.choice([1, 2, 5]), r.randrange(1 << 30)))
        return ffi

    def gen(self, r, i, tier):
        b = Builder(r)
        ffi = self.setup(r, b)
        m = b.m
        sigs, names = [], r.sample(['F1', 'get_temp', '_f', 'F_22x', 'a', 'Do', 'mg_send', 'very_long_function_name_0123456789_abcdef'], 5)
        if r.random() < .15:     # long names which differ at their ends
            p = 'n' * r.choice([40, 62, 63, 64, 94, 97, 98, 99, 100, 120, 127, 128, 199])
            for q, x in enumerate(r.sample(['', '1', '2', '12', '_a', 'bcd', 'e' * 20], 5)):
                if q < 2 or r.random() < .5: names[q] = p + x
        for k in range(r.randrange(1, 5)):
            args = params(r)
            ret = r.choice('vibdfsp')
            s = Sig(names[k], ret, args)
            s.retval = retval(r, ret, args)
            b.cmd(s.define(s.supported()))
            sigs.append(s)
            for _ in range(2): ffi.known[s.text(r).encode()] = (s, s.name, None)
        good = list(ffi.known)
        s = Sig(names[4], 'i', ['i'])
        s.retval = '1'
        b.cmd(s.define())
        bad = []
        for _ in range(2):
            t, nm, code, msg = bad_sig(r, s.name)
            if '"in t"' in msg: pass
            ffi.known[t.encode()] = (None, nm, (code, msg.encode()))
            bad.append(t.encode())
        body = [('ret', ident(b'x'))]
        b.run([('let', [(b'gf', ('fn', None, [b'x'], body, Fn([b'x'], body))), (b'o', ('obj', []))])], 0)
        nf = 0
        have = []
        for step in range(r.randrange(2, 6)):
            prog = []
            for _ in range(r.randrange(1, 4)):
                z = r.random()
                if z < .35 or not have:
                    t = r.choice(good)
                    v = b'f%d' % nf
                    nf += 1
                    prog.append(('let', [(v, call(ident(b'ffi'), ('str', t)))]))
                    have.append((v, ffi.known[t][0]))
                    if r.random() < .3: prog.append(('expr', [emit(ident(v), ('un', '!', ident(v)))]))
                elif z < .42:
                    t = r.choice(bad)
                    e = call(ident(b'ffi'), ('str', t))
                    prog.append(('expr', [emit(call(ident(b'ctry'), ident(b'ffi'), lit('null'), ('str', t))) if r.random() < .7 else e]))
                    b.labels.add('bad signature')
                else:
                    prog.append(self.callstmt(r, *r.choice(have)))
            b.run(prog, 0)
            have = [(v, s) for v, s in have if v in m.g.props and isinstance(m.g.props[v][1], object) and m.g.props[v][1] is not U]
            if r.random() < .15:
                b.run([('expr', [('dot', ident(b'global'), b'o')])], 0)
                b.cmd('fullgc')
                b.snap('s%d' % step, heap=True, roots=ffi.roots())
        if r.random() < .5:
            for v, s in have[:2]: b.run([('expr', [('asg', '=', ident(v), lit('null'))])], 0)
        b.run([('expr', [('dot', ident(b'global'), b'o')])], 0)
        b.cmd('fullgc')
        b.snap('end', heap=True, roots=ffi.roots())
        if ffi.calls == 0 and r.random() < .7: raise Unspecified('no call')
        return b.case()

    def callexpr(self, r, f, sig):
        args = [argval(r, k) for k in sig.args]
        z = r.random()
        if z < .06 and args: args.pop(r.randrange(len(args)))
        elif z < .12: args.insert(r.randrange(len(args) + 1), num(1))
        elif z < .2 and args:
            k = r.randrange(len(args))
            if sig.args[k] not in 'df': args[k] = badval(r, sig.args[k])
        z = r.random()
        if z < .7: return call(f, *args)
        if z < .8: return call(ident(b'ctry'), f, lit('null'), *args)
        if z < .9: return call(('dot', f, b'apply'), lit('null'), ('arr', args))
        return call(ident(b'capply'), f, lit('undefined'), *args)

    def callstmt(self, r, v, sig):
        f = ident(v)
        e = self.callexpr(r, f, sig)
        z = r.random()
        if z < .15: e = ('arr', [self.callexpr(r, f, sig), e])
        elif z < .25:
            b = [('let', [(b'q', ('str', b'local string'))]), ('ret', e)]
            e = call(('fn', None, [], b, Fn([], b)))
        elif z < .35:
            return ('for', ('let', [(b'li', num(0))]), ('bin', '<', ident(b'li'), num(3)), ('post', '++', ident(b'li')),
                    ('block', [('expr', [emit(ident(b'li'), e)])]))
        elif z < .4: e = call(('idx', ('arr', [f]), num(0)), *[argval(r, k) for k in sig.args])
        return ('expr', [emit(e)])


check = C()
