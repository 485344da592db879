"""Reference for foreign functions: signatures, calls, callbacks."""
import struct
from model import (FFn, CFn, Fn, Ptr, FStr, Obj, JSError, Unspecified, U, N, TYPE, isnum, isstr, isfor, typeof,
                   to_int, sernum, shex)
from drv import hx

TYPES = {  # letter of the C function -> spellings in a signature
    'i': ['int'], 'b': ['bool'], 'd': ['double'], 'f': ['float'], 's': ['char *', 'char*'],
    'p': ['void *', 'void*'], 'm': ['struct mg_str *', 'struct mg_str*'], 'u': ['userdata'], 'v': ['void'],
    'q': ['void *', 'void*']}


def f32(d): return struct.unpack('f', struct.pack('f', d))[0]


def sp(r, some=' '):
    return ''.join(r.choice(some) for _ in range(r.choice([0, 0, 0, 1, 1, 2])))


class Sig:
    """A C function as a signature describes it, and its implementation in the driver."""

    def __init__(self, name, ret, args, cb=None, retval=None, acts=()):
        self.name, self.ret, self.args, self.cb, self.retval, self.acts = name, ret, args, cb, retval, list(acts)

    def define(self, callable_=True):
        args = ''.join(self.args) if callable_ else ''
        l = 'ffidef %s %s %s %s' % (self.name, self.ret, args or '-', self.retval or '-')
        if self.cb and callable_: l += ' %s:%s %s' % (self.cb[0], self.cb[1], ' '.join(self.acts))
        return l

    def supported(self):
        d, f = self.args.count('d'), self.args.count('f')
        if len(self.args) > 6 or (d and f): return False
        if (self.ret == 'd' and f) or (self.ret == 'f' and d): return False
        return not ((d or f) and len(self.args) > 3)

    def text(self, r):
        """One spelling of the signature."""
        return func_text(r, self.ret, self.name, [cb_text(r, self.cb) if a == 'c' else TYPES[a] for a in self.args])


WS = ' \t\n'


def pick(r, t): return t if isinstance(t, str) else r.choice(t)


def arglist(r, args):
    if not args: return r.choice(['', '', 'void', ' void '])
    return ','.join(sp(r, WS) + pick(r, a) + sp(r, WS) for a in args)


def func_text(r, ret, name, args):
    rt = pick(r, TYPES.get(ret, ret))
    if rt.endswith('*'): gap = '' if rt.endswith(' *') and r.random() < .5 else sp(r, WS)
    else: gap = ' ' + sp(r, WS)
    return sp(r, WS) + rt + gap + name + sp(r, WS) + '(' + arglist(r, args) + ')' + sp(r, WS)


def cb_text(r, cb, args=None):
    ret, letters = cb
    nm = r.choice(['', '', '', 'cb', 'foo_1'])
    return (pick(r, TYPES.get(ret, ret)) + r.choice([' ', '', '  ']) + '(' + sp(r) + '*' + sp(r) + nm + sp(r) + ')' + sp(r) +
            '(' + arglist(r, [TYPES[a] for a in letters] if args is None else args) + ')')


def trim_left(s): return s.lstrip(' ')


class FFI:
    def __init__(self, b):
        self.b, self.m = b, b.m
        b.m.ffi = self
        self.known = {}          # text -> (Sig or None, looked up name or None, error or None)
        self.regs = []           # callback registrations: [func, userdata, types]
        self.stash = {}
        self.calls = self.cbs = 0

    def lookup(self, a):
        t = a[0] if a else U
        if not isstr(t): raise Unspecified('ffi of a non-string')
        ent = self.known.get(bytes(t))
        if ent is None: raise Unspecified('unknown signature')
        sig, name, err = ent
        if name is not None: self.m.out.append(['L', hx(name.encode())])
        if err is not None: raise JSError(*err)
        f = FFn('ffi', None)
        f.sig = sig
        f.f = lambda this, args: self.call(sig, args)
        return f

    def same(self, a, b, loose=False):
        if isnum(a) and isnum(b): return a == b
        if isstr(a) and isstr(b):
            if len(a) > 5 or len(b) > 5:
                if a != b: return False
                if loose: return False     # a new registration, or the old one: no difference
                raise Unspecified('equal long strings as userdata')
            return a == b
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.buf == b.buf and a.off == b.off
        return a is b

    def cb_free(self, a):
        f, u = (list(a) + [U, U])[:2]
        if not isinstance(f, Fn): raise JSError(TYPE, "missing argument 'func'")
        n = len(self.regs)
        self.regs[:] = [x for x in self.regs if not (x[0] is f and self.same(x[1], u))]
        return 1.0 if len(self.regs) < n else 0.0

    def call(self, sig, args):
        def bad(s): raise JSError(TYPE, 'failed to call FFIed function: ' + s)
        self.m.tick()
        if len(args) != len(sig.args):
            bad('got %d actuals, but function takes %d args' % (len(args), len(sig.args)))
        out, func, ud = [], None, None
        for i, (k, v) in enumerate(zip(sig.args, args)):
            t = typeof(v)
            if k == 'u':
                ud = v
                out.append('u')
            elif k in 'ib':
                if not isnum(v) and not isinstance(v, bool):
                    bad('actual arg #%d is not %s (the type idx is: %s)' % (i, {'i': 'an int', 'b': 'a bool'}[k], t))
                n = int(v) if isinstance(v, bool) else to_int(v)
                out.append(str(n if k == 'i' else int(n != 0)))
            elif k in 'df':
                d = v if isnum(v) else float('nan')
                out.append(sernum(d if k == 'd' else f32(d)))
            elif k == 's' and v is N: out.append('n')
            elif k in 'sm':
                if not isstr(v): bad('actual arg #%d is not a string (the type idx is: %s)' % (i, t))
                out.append('s' + shex(v if k == 'm' else v.split(b'\0')[0]))
            elif k in 'pq':
                if isstr(v):
                    if k == 'p': raise Unspecified('string pointer')
                    out.append('s' + shex(v.split(b'\0')[0]))
                elif v is N: out.append('p0' if k == 'p' else 'n')
                elif type(v) is Ptr:
                    if k == 'q' and v.buf is not None: raise Unspecified('pointer as a string')
                    out.append(('p0' if k == 'p' else 'n') if v.buf is None else 'p%s%+d' % (chr(65 + v.buf), v.off))
                elif isinstance(v, CFn) and not isinstance(v, FFn): raise Unspecified('pointer to a function')
                else: bad('actual arg #%d is not a ptr' % i)
            else:
                if not isinstance(v, (Fn, CFn)):
                    if isfor(v): raise Unspecified('pointer as a callback')
                    bad('actual arg #%d is not a function, but %s' % (i, t))
                func = v
                out.append('c')
        if func is not None:
            reg = next((x for x in self.regs if x[0] is func and self.same(x[1], ud, True) and x[2] == sig.cb), None)
            if reg is None:
                reg = [func, ud, sig.cb]
                self.regs.append(reg)
        if not sig.supported(): bad('unsupported combination of types')
        self.calls += 1
        self.m.cov['ffi:%s(%s)' % (sig.ret, ''.join(sig.args))] = 1
        self.m.out.append(['C', sig.name] + out)
        err = None
        for act in sig.acts:
            if act[0] == 'N': err = self.fire(sig, reg, act[2:])
            else: self.stash[int(act[2:])] = (reg, sig)
        if err is not None: raise err
        rv = sig.retval
        if sig.ret == 'v': return U
        if sig.ret == 'i': return float(int(rv))
        if sig.ret == 'b': return rv == '1'
        if sig.ret in 'df':
            d = struct.unpack('>d', bytes.fromhex(rv))[0]
            return d if sig.ret == 'd' else f32(d)
        if sig.ret == 'p':
            return Ptr(None) if rv == 'p0' else Ptr(ord(rv[1]) - 65, int(rv[2:]))
        if rv[0] == 'A':          # its own string argument, from an offset
            k, off = rv[1:].split('+')
            v = args[int(k)]
            if v is N: return N
            s = v.split(b'\0')[0]
            return bytes(s[min(int(off), len(s)):])
        return N if rv == 'n' else bytes.fromhex(rv[1:] if rv != 's-' else '').split(b'\0')[0]

    def fire(self, sig, reg, vals):
        """The C function (or the host) calls the callback; returns the error it left, or None."""
        if not any(x is reg for x in self.regs): raise Unspecified('freed callback')
        func, ud, (ret, letters) = reg
        vals = vals.split(',') if vals else []
        args, k = [], 0
        for a in letters:
            if a == 'u':
                args.append(ud)
                continue
            t = vals[k]
            k += 1
            if a == 'i': args.append(float(int(t)))
            elif a == 'b': args.append(t != '0')
            elif a == 'p': args.append(Ptr(None) if t == 'p0' else Ptr(ord(t[1]) - 65, int(t[2:])))
            elif a == 'd': args.append(struct.unpack('>d', bytes.fromhex(t[1:]))[0])
            else: args.append(b'' if t in ('n', 's-') else bytes.fromhex(t[1:]))
            if a == 's': args[-1] = args[-1].split(b'\0')[0]
        self.cbs += 1
        self.m.cov['cb:%s(%s)' % (ret, letters)] = 1
        err, r = None, '-'
        m = self.m
        sv = (len(m.scopes), m.this, m.loops, m.in_func, m.depth, len(m.iters))
        try:
            v = m.host_apply(func, U, args)
            if ret == 'i':
                if not isnum(v): raise Unspecified('callback result')
                r = str(to_int(v))
            elif ret == 'b':
                if not isinstance(v, bool): raise Unspecified('callback result')
                r = str(int(v))
        except JSError as x:
            del m.scopes[sv[0]:]
            m.this, m.loops, m.in_func, m.depth = sv[1:5]
            del m.iters[sv[5]:]
            err = x
            r = '0' if ret in 'ib' else '-'
            self.m.cov['callback error'] = 1
        self.m.out.append(['CB', sig.name, r])
        return err

    def host_fire(self, k, vals):
        reg, sig = self.stash[k]
        self.b.lines.append('cbfire %d %s' % (k, vals))
        self.fire(sig, reg, vals)
        o = self.b.outs()
        assert not o

    def roots(self):
        return [x for g in self.regs for x in g[:2]]
