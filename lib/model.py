"""Reference model of the mJS language: AST, printer, tree-walking interpreter.

The model is written from the documented language (README) and the observable
behaviour of the engine; it shares no code with it. Numbers are Python floats,
strings are bytes, booleans are bools, U/N are undefined and null.
"""
import math, struct


class _S:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n


U, N = _S('undefined'), _S('null')
SYNTAX, REFERENCE, TYPE, OOM, INTERNAL, NOTIMPL, FILE, BADARGS = range(1, 9)


SYNTAX_MSG = b'<syntax error>'


class JSError(Exception):
    def __init__(self, code, msg):
        self.code, self.msg = code, msg.encode('latin-1') if isinstance(msg, str) else msg


class Unspecified(Exception):
    """The program left the modelled part of the language: discard it."""


class Obj:
    __slots__ = ('props', 'arr', 'seq')

    def __init__(self, arr=False):
        self.props = {}          # key -> [seq, value]
        self.arr = arr
        self.seq = 0

    def own(self, k): return self.props.get(k)

    def set(self, k, v):
        p = self.props.get(k)
        if p is None:
            self.seq += 1
            self.props[k] = [self.seq, v]
        else:
            p[1] = v

    def keys(self):              # enumeration order: the newest first
        return sorted(self.props, key=lambda k: -self.props[k][0])

    def length(self):
        n = 0
        for k in self.props:
            if not k.isdigit() or (len(k) > 1 and k[0] == 48): continue
            i = int(k)
            if i >= n and i < 0xffffffff: n = i + 1
        return n


def idx_of(k):
    if not k or len(k) > 15 or not all(48 <= c <= 57 for c in k):
        if k and (k[:1] in b' \t\n\r\v\f+-') and k.strip(b' \t\n\r\v\f+-')[:1].isdigit():
            raise Unspecified('odd index key')
        return None
    if len(k) > 1 and k[0] == 48: raise Unspecified('non-canonical index')
    return int(k)


def ikey(i): return b'%d' % i


class Fn:
    __slots__ = ('params', 'body', 'name')

    def __init__(self, params, body, name=None):
        self.params, self.body, self.name = params, body, name


class CFn:
    __slots__ = ('name', 'f')

    def __init__(self, name, f): self.name, self.f = name, f


class FFn(CFn):
    """A foreign function looked up by ffi()."""
    __slots__ = ('sig',)


class Ptr:
    """Pointer into host buffer number buf (None: NULL)."""
    __slots__ = ('buf', 'off')

    def __init__(self, buf, off=0): self.buf, self.off = buf, off


class Iter:
    __slots__ = ('obj', 'pos')

    def __init__(self, obj): self.obj, self.pos = obj, None


def isnum(v): return type(v) is float
class FStr(bytes):
    """A string whose bytes belong to the host."""


def isstr(v): return isinstance(v, bytes)
def isfor(v): return type(v) in (CFn, Ptr)


def num_to_str(d):
    if d != d: raise Unspecified('printing NaN')
    if abs(d) < 9223372036854775808.0 and d == math.floor(d):
        return b'%d' % int(d)
    if math.isinf(d): return b'inf' if d > 0 else b'-inf'
    if abs(d) >= 9223372036854775808.0: return b'%.17g' % d
    return b'%f' % d


def to_key(v):
    if isstr(v): return v
    if isnum(v): return num_to_str(v)
    if v is True: return b'true'
    if v is False: return b'false'
    if v is U: return b'undefined'
    if v is N: return b'null'
    if isinstance(v, Obj):
        raise JSError(TYPE, 'conversion from object to string is not supported')
    if isfor(v): return b'TODO_foreign'
    raise JSError(TYPE, 'unknown type to convert to string')


def typeof(v):
    if isnum(v): return 'number'
    if isinstance(v, bool): return 'boolean'
    if isstr(v): return 'string'
    if isinstance(v, Obj): return 'array' if v.arr else 'object'
    if isfor(v): return 'foreign_ptr'
    if isinstance(v, (Fn, FFn)): return 'function'
    return 'null' if v is N else 'undefined'


def truthy(v):
    if isinstance(v, bool): return v
    if isnum(v): return v == v and v != 0.0
    if isstr(v): return len(v) > 0
    return not (v is U or v is N)


def trunc64(d):
    if d != d or abs(d) >= 2.0 ** 62: raise Unspecified('cast')
    return int(d)


def to_int(v):
    d = trunc64(v) & 0xffffffff
    return d - (1 << 32) if d & 0x80000000 else d


def wrap64(i):
    i &= (1 << 64) - 1
    return i - (1 << 64) if i >> 63 else i


NAN = float('nan')


def fround64(i): return float(i)


def arith(a, b, op):
    if a != a or b != b: return NAN
    if op == '+': return a + b
    if op == '-': return a - b
    if op == '*': return a * b
    if op == '/': return a / b if b != 0 else NAN
    if op == '%':
        b = trunc64(b)
        if b == 0: return NAN
        neg = a < 0
        r = float(abs(trunc64(a)) % abs(b))
        return -r if neg else r
    if op in ('&', '|', '^'):
        x, y = trunc64(a), trunc64(b)
        return float(x & y if op == '&' else x | y if op == '|' else x ^ y)
    n = trunc64(b)
    if op == '>>>':
        if not 0 <= n <= 31: raise Unspecified('shift')
        return float((trunc64(a) & 0xffffffff) >> n)
    if not 0 <= n <= 62: raise Unspecified('shift')
    x = trunc64(a)
    if op == '>>': return float(x >> n)
    return float(wrap64(x << n))


def safe_arith(a, b, op):
    try:
        return arith(a, b, op)
    except OverflowError:
        raise Unspecified('overflow')


def normidx(i, n):
    if i < 0: i = max(0, n + i)
    return min(i, n)


# ---------------------------------------------------------------- AST
# expressions are tuples whose first item is one of:
#  num(text, value) str(bytes) id(name) arr([e]) obj([(key, e)])
#  fn(name, params, body) un(op, e) bin(op, a, b) log(op, a, b)
#  cond(c, a, b) asg(op, target, e) pre(op, name) post(op, target)
#  dot(o, name) idx(o, e) call(f, args) this lit(true|false|null|undefined)
# statements: expr([e]) let([(name, e)]) if(c, then, els) while(c, body)
#  for(init, cond, step, body) forin(decl, name, e, body) ret(e) break cont
#  block([s]) empty
# if/loop bodies are ('block', [..]) or a single statement.

class _Break(Exception): pass
class _Cont(Exception): pass


class _Ret(Exception):
    def __init__(self, v): self.v = v


class Interp:
    def __init__(self, budget=4000, maxdepth=60):
        self.g = Obj()
        self.scopes = [self.g]
        self.this = U
        self.budget = budget
        self.depth = 0
        self.maxdepth = maxdepth
        self.out = []            # expected events
        self.iters = []
        self.fdepth = []         # loop nesting of each active function
        self.loops = 0
        self.in_func = 0
        self.bufs = {}           # number -> bytearray
        self.nstr = 0
        self.cov = {}
        self.ffi = None
        self.protected = []      # values a host function is holding
        self.files = {}          # name -> program, or 'syntax'
        self.loaded = {}         # name -> [program, executed without error]
        self._builtins()

    def reset(self):
        """A new script run: only the heap survives."""
        self.scopes = [self.g]
        self.this = U
        self.loops = self.in_func = self.depth = 0
        self.iters = []

    # ---------------- environment
    def _builtins(self):
        g = self.g
        def c(n, f): g.set(n.encode(), CFn(n, f))
        g.set(b'global', g)
        for n in ('load', 'print', 'ffi', 'ffi_cb_free', 'mkstr', 'getMJS'):
            c(n, getattr(self, 'b_' + n, self.b_unspec))
        c('die', self.b_die)
        c('gc', lambda this, a: a[0] if a else U)
        c('chr', self.b_chr)
        c('s2o', self.b_unspec)
        j = Obj()
        self.c_stringify = CFn('stringify', self.b_stringify)
        j.set(b'stringify', self.c_stringify)
        j.set(b'parse', CFn('parse', self.b_parse))
        g.set(b'JSON', j)
        o = Obj()
        o.set(b'create', CFn('create', self.b_create))
        g.set(b'Object', o)
        g.set(b'NaN', NAN)
        c('isNaN', lambda this, a: bool(a and isnum(a[0]) and a[0] != a[0]))
        # host functions of the driver
        c('emit', self.b_emit)
        c('capply', self.b_capply)
        c('ctry', self.b_ctry)
        c('cthis', lambda this, a: this)
        c('cnargs', lambda this, a: float(len(a)))
        c('carg', self.b_carg)
        c('cerr', self.b_cerr)
        c('noret', self.b_unspec)
        c('where', self.b_unspec)
        c('ptr', self.b_ptr)
        c('cdel', self.b_cdel)
        c('sdesc', self.b_unspec)
        c('fstr', lambda this, a: FStr(a[0]) if a and isstr(a[0]) else U)
        self.m_apply = CFn('apply', self.b_apply)
        self.m_splice = CFn('splice', self.b_splice)
        self.m_push = CFn('push', self.b_push)
        self.m_at = CFn('at', self.b_at)
        self.m_indexOf = CFn('indexOf', self.b_indexOf)
        self.m_slice = CFn('slice', self.b_slice)
        self.builtin_keys = set(g.props)

    def b_ffi(self, this, a):
        if self.ffi is None: raise Unspecified('ffi')
        return self.ffi.lookup(a)

    def b_ffi_cb_free(self, this, a):
        if self.ffi is None: raise Unspecified('ffi')
        return self.ffi.cb_free(a)

    def b_unspec(self, this, a): raise Unspecified('builtin')

    def check_arg(self, v, present, name, want):
        if not present:
            raise JSError(TYPE, 'missing argument %s' % name)
        t = typeof(v)
        if t != want:
            raise JSError(TYPE, '%s should be a %s, %s given' % (name, want, t))

    def b_print(self, this, a):
        line = b''
        for v in a:
            if isinstance(v, (Fn, CFn, Ptr)): raise Unspecified('print address')
            line += self.show(v) + b' '
        self.out.append(('O', line + b'\n'))
        return U

    def show(self, v):
        if isnum(v): return num_to_str(v)
        if isinstance(v, bool): return b'true' if v else b'false'
        if isstr(v):
            return b''.join(bytes([c]) if 32 <= c < 127 else b'\\x%02x' % c for c in v)
        if isinstance(v, Obj): return b'<array>' if v.arr else b'<object>'
        return b'null' if v is N else b'undefined'

    def b_load(self, this, a):
        v = a[0] if a else U
        if not isstr(v): return U
        if b'\0' in v: raise JSError(TYPE, 'invalid file name')
        g = a[1] if len(a) > 1 else U
        custom = isinstance(g, Obj)
        n = len(self.scopes)
        sv = (self.this, self.loops, self.in_func, self.depth, len(self.iters))
        if custom: self.scopes.append(g)
        try:
            part = self.loaded.get(v)
            if part is None: return self.exec_file(v)
            if part[1] and not custom: return U
            return self.exec_part(part)
        except JSError as e:
            raise JSError(e.code, b'failed to exec file "' + v + b'": ' + e.msg)
        finally:
            del self.scopes[n:]
            self.this, self.loops, self.in_func, self.depth = sv[:4]
            del self.iters[sv[4]:]

    def exec_file(self, name):
        """Reads and runs a file; remembers it under its name."""
        prog = self.files.get(name)
        if prog is None:
            raise JSError(FILE, b'failed to read file "' + name + b'"')
        if prog == 'syntax': raise JSError(SYNTAX, SYNTAX_MSG)
        part = [prog, None]
        self.loaded.setdefault(name, part)
        return self.exec_part(part)

    def exec_part(self, part):
        if self.depth > self.maxdepth: raise Unspecified('depth')
        self.depth += 1
        sv = self.loops, self.in_func
        self.loops = self.in_func = 0
        try:
            v = self.stmts(part[0])
            part[1] = True       # the last evaluation counts
            return v
        except JSError:
            part[1] = False
            raise
        finally:
            self.loops, self.in_func = sv
            self.depth -= 1

    def b_die(self, this, a):
        self.check_arg(a[0] if a else U, len(a) > 0, 'msg', 'string')
        m = a[0].split(b'\0')[0]
        raise JSError(TYPE, m)

    def b_chr(self, this, a):
        v = a[0] if a else U
        if not isnum(v): return N
        n = to_int(v)
        return bytes([n]) if 0 <= n <= 255 else N

    def b_mkstr(self, this, a):
        if len(a) not in (2, 3, 4):
            raise JSError(TYPE, 'mkstr takes 2, 3 or 4 arguments: (ptr, len), (ptr, '
                          'offset, len) or (ptr, offset, len, copy)')
        p = a[0]
        off, ln = (U, a[1]) if len(a) == 2 else (a[1], a[2])
        if not isfor(p): raise JSError(TYPE, 'ptr should be a foreign pointer')
        if off is not U and not isnum(off): raise JSError(TYPE, 'offset should be a number')
        if not isnum(ln): raise JSError(TYPE, 'len should be a number')
        if type(p) is not Ptr or p.buf is None: raise Unspecified('mkstr')
        o = p.off + (to_int(off) if off is not U else 0)
        n = to_int(ln)
        b = self.bufs[p.buf]
        if o < 0 or n < 0 or o + n > len(b): raise Unspecified('oob')
        if not (len(a) == 4 and truthy(a[3])):
            return FStr(b[o:o + n])
        return bytes(b[o:o + n])

    def b_create(self, this, a):
        self.check_arg(a[0] if a else U, len(a) > 0, 'proto', 'object')
        o = Obj()
        o.set(b'__p', a[0])
        return o

    def b_emit(self, this, a):
        self.out.append(('E',) + tuple(ser(v) for v in a))
        return a[0] if a else U

    def b_capply(self, this, a):
        f = a[0] if a else U
        t = a[1] if len(a) > 1 else U
        return self.host_apply(f, t, a[2:18])

    def host_apply(self, f, this, args):
        if not isinstance(f, (Fn, FFn)) and not isfor(f):
            raise JSError(TYPE, 'calling non-callable')
        return self.call(f, this, list(args))

    def b_ctry(self, this, a):
        f = a[0] if a else U
        t = a[1] if len(a) > 1 else U
        sv = (len(self.scopes), self.this, self.loops, self.in_func, self.depth, len(self.iters))
        try:
            return self.host_apply(f, t, a[2:18])
        except JSError as e:
            del self.scopes[sv[0]:]
            self.this, self.loops, self.in_func, self.depth = sv[1:5]
            del self.iters[sv[5]:]
            self.out.append(('T', e.code, e.msg))
            return -float(e.code)

    def b_carg(self, this, a):
        if not a or not isnum(a[0]): raise Unspecified('carg')
        i = to_int(a[0])
        if i < 0: raise Unspecified('carg')
        return a[i] if i < len(a) else U

    def b_cerr(self, this, a):
        if not a or not isnum(a[0]): raise Unspecified('cerr')
        i = to_int(a[0])
        if not 1 <= i <= 8: raise Unspecified('cerr')
        raise JSError(i, 'cerr')

    def b_ptr(self, this, a):
        i = to_int(a[0]) if a and isnum(a[0]) else -1
        return Ptr(i, 0) if i in self.bufs else Ptr(None)

    def b_cdel(self, this, a):
        o = a[0] if a else U
        k = a[1] if len(a) > 1 else U
        if not isstr(k): return -2.0
        if not isinstance(o, Obj): return -1.0
        return float(self.delete(o, k))

    def delete(self, o, k):
        p = o.props.get(k)
        if p is None: return -1
        head = max(q[0] for q in o.props.values()) == p[0]
        for it in self.iters:
            if it.obj is o and it.pos == p[0] and head: it.pos = None
        del o.props[k]
        return 0

    def b_apply(self, this, a):
        v = a[1] if len(a) > 1 else U
        args = []
        if isinstance(v, Obj) and v.arr:
            n = v.length()
            if n > 200: raise Unspecified('apply')
            args = [self.aget(v, i) for i in range(n)]
        return self.host_apply(this, a[0] if a else U, args)

    def aget(self, o, i):
        p = o.props.get(ikey(i))
        return p[1] if p else U

    def b_push(self, this, a):
        self.check_arg(this, True, 'this', 'array')
        for v in a: this.set(ikey(this.length()), v)
        return float(this.length())

    def b_splice(self, this, a):
        self.check_arg(this, True, 'this', 'array')
        n = this.length()
        self.check_arg(a[0] if a else U, len(a) > 0, 'start', 'number')
        if n > 5000: raise Unspecified('long')
        st = normidx(to_int(a[0]), n)
        items = []
        if len(a) >= 2:
            self.check_arg(a[1], True, 'deleteCount', 'number')
            cnt = to_int(a[1])
            items = a[2:]
        else:
            cnt = n - st
        cnt = max(0, min(cnt, n - st))
        ret = Obj(True)
        for i in range(cnt):
            ret.set(ikey(ret.length()), self.aget(this, st + i))
        d = len(items) - cnt
        def move(f, t):
            this.set(ikey(t), self.aget(this, f))
            self.delete(this, ikey(f))
        if d < 0:
            for i in range(st, n):
                if i >= st - d: move(i, i + d)
                else: self.delete(this, ikey(i))
        elif d > 0:
            for i in range(n - 1, st - 1, -1): move(i, i + d)
        for i, v in enumerate(items): this.set(ikey(st + i), v)
        return ret

    def b_at(self, this, a):
        self.check_arg(this, True, 'this', 'string')
        self.check_arg(a[0] if a else U, len(a) > 0, 'index', 'number')
        i = normidx(to_int(a[0]), len(this))
        return float(this[i]) if i < len(this) else U

    def b_indexOf(self, this, a):
        self.check_arg(this, True, 'this', 'string')
        self.check_arg(a[0] if a else U, len(a) > 0, 'searchValue', 'string')
        i = 0
        if len(a) > 1:
            self.check_arg(a[1], True, 'fromIndex', 'number')
            i = max(0, min(to_int(a[1]), len(this)))
        return float(this.find(a[0], i))

    def b_slice(self, this, a):
        self.check_arg(this, True, 'this', 'string')
        self.check_arg(a[0] if a else U, len(a) > 0, 'beginSlice', 'number')
        b = normidx(to_int(a[0]), len(this))
        e = len(this)
        if len(a) >= 2:
            self.check_arg(a[1], True, 'endSlice', 'number')
            e = normidx(to_int(a[1]), len(this))
        return this[b:max(b, e)]

    def b_stringify(self, this, a):
        if not a: raise JSError(TYPE, 'missing a value to stringify')
        return stringify(a[0])

    def b_parse(self, this, a):
        if not a or not isstr(a[0]): raise JSError(TYPE, 'string argument required')
        return parse_json(a[0])

    # ---------------- properties
    def getprop(self, o, kv):
        try:
            k = to_key(kv)
        except JSError as e:
            if isinstance(o, Obj): raise
            raise JSError(TYPE, b'type error: ' + e.msg)
        if isstr(o):
            if k == b'length': return float(len(o))
            if k in (b'at', b'charCodeAt'): return self.m_at
            if k == b'indexOf': return self.m_indexOf
            if k == b'slice': return self.m_slice
            if k[:1] == b'-' and k[1:].isdigit() and k != b'-0': return U
            i = idx_of(k)
            if i is not None: return o[i:i + 1] if i < len(o) else U
            raise JSError(TYPE, 'type error')
        if k == b'apply': return self.m_apply
        if isinstance(o, Obj):
            if o.arr:
                if k == b'splice': return self.m_splice
                if k == b'push': return self.m_push
                if k == b'length': return float(o.length())
            return self.get_proto(o, k)
        if isfor(o):
            if not k or not all(48 <= c <= 57 for c in k):
                if k[:1] in (b'-', b'+', b' '): raise Unspecified('ptr index')
                raise JSError(TYPE, 'index must be a number')
            if type(o) is not Ptr or o.buf is None: raise Unspecified('deref')
            i = o.off + int(k)
            if not 0 <= i < len(self.bufs[o.buf]): raise Unspecified('oob')
            return float(self.bufs[o.buf][i])
        raise JSError(TYPE, 'type error')

    def get_proto(self, o, k):
        seen = []
        while isinstance(o, Obj):
            if any(o is s for s in seen): return U
            seen.append(o)
            p = o.props.get(k)
            if p: return p[1]
            p = o.props.get(b'__p')
            if not p: return U
            o = p[1]
        return U

    def assign_to(self, o, kv, v):
        if isinstance(o, Obj):
            o.set(to_key(kv), v)
            return v
        if isfor(o):
            if not isnum(kv): raise JSError(TYPE, 'index must be a number')
            if not isnum(v): raise JSError(TYPE, 'only number 0 .. 255 can be assigned')
            iv, ik = to_int(v), to_int(kv)
            if not 0 <= iv <= 255: raise JSError(TYPE, 'only number 0 .. 255 can be assigned')
            if type(o) is not Ptr or o.buf is None: raise Unspecified('deref')
            i = o.off + ik
            if not 0 <= i < len(self.bufs[o.buf]): raise Unspecified('oob')
            self.bufs[o.buf][i] = iv
            return v
        raise JSError(TYPE, 'unsupported object type')

    # ---------------- expressions
    def tick(self, n=1):
        self.budget -= n
        if self.budget < 0: raise Unspecified('budget')

    def find(self, name):
        for s in reversed(self.scopes):
            if name in s.props: return s
        raise JSError(REFERENCE, b'[' + name + b'] is not defined')

    def ev(self, e):
        self.tick()
        return getattr(self, 'e_' + e[0])(e)

    def e_num(self, e): return e[2]
    def e_str(self, e): return e[1]
    def e_lit(self, e): return {'true': True, 'false': False, 'null': N, 'undefined': U}[e[1]]
    def e_this(self, e): return self.this

    def e_id(self, e):
        s = self.find(e[1])
        return self.scope_get(s, e[1])

    def scope_get(self, s, k):
        # reading a variable of the global scope: same rules as a property get
        if k == b'apply': raise Unspecified('apply as a variable')
        return s.props[k][1]

    def e_arr(self, e):
        o = Obj(True)
        for i, x in enumerate(e[1]):
            o.set(ikey(o.length()), self.ev(x))
        return o

    def e_obj(self, e):
        o = Obj()
        for k, x in e[1]: o.set(k, self.ev(x))
        return o

    def e_fn(self, e):
        f = e[4] if len(e) > 4 else None
        if f is None:
            raise AssertionError('function without identity')
        if e[1] is not None:
            s = self.scopes[-1]
            if e[1] not in s.props: s.set(e[1], U)
            s.set(e[1], f)
        return f

    def e_un(self, e):
        v = self.ev(e[2])
        op = e[1]
        self.cov[op] = self.cov.get(op, 0) + 1
        if op == '!': return not truthy(v)
        if op == 'typeof': return typeof(v).encode()
        if op == '+': return v
        if op == '-': return -v if isnum(v) and v == v else NAN
        if op == '~':
            if not isnum(v): raise Unspecified('~')
            return float(~trunc64(v))
        raise AssertionError(op)

    def do_op(self, a, b, op):
        self.cov[op] = self.cov.get(op, 0) + 1
        if isnum(a) and isnum(b): return safe_arith(a, b, op)
        if (isnum(a) or isfor(a)) and (isnum(b) or isfor(b)):
            if isfor(a) and isfor(b):
                if op != '-': raise JSError(TYPE, 'invalid operands')
                if type(a) is Ptr and type(b) is Ptr and a.buf == b.buf:
                    return float(a.off - b.off)
                raise Unspecified('ptr diff')
            if op not in '+-': raise Unspecified('ptr arith')
            p, n, left = (a, b, True) if isfor(a) else (b, a, False)
            if type(p) is not Ptr or p.buf is None: raise Unspecified('ptr arith')
            if n != n or abs(n) > 1000: raise Unspecified('ptr arith')
            if n != math.floor(n): raise Unspecified('ptr arith')
            if not left and op == '-': raise Unspecified('ptr arith')
            return Ptr(p.buf, p.off + int(n if op == '+' else -n))
        if isstr(a) and isstr(b) and op == '+':
            if len(a) + len(b) > 100000: raise Unspecified('long')
            self.tick(1 + (len(a) + len(b)) // 1000)
            return a + b
        raise JSError(TYPE, 'implicit type conversion is prohibited')

    def strict_eq(self, a, b):
        if isnum(a) and isnum(b): return a == b
        if isstr(a) and isstr(b): return a == b
        if type(a) is Ptr and type(b) is Ptr: return a.buf == b.buf and a.off == b.off
        if type(a) is Ptr and b is N or type(b) is Ptr and a is N:
            p = a if type(a) is Ptr else b
            return p.buf is None
        if isinstance(a, bool) and isinstance(b, bool): return a == b
        if type(a) is CFn and type(b) is CFn: return a is b
        return a is b

    def e_bin(self, e):
        a = self.ev(e[2])
        b = self.ev(e[3])
        op = e[1]
        if op in ('===', '!=='):
            self.cov[op] = self.cov.get(op, 0) + 1
            r = self.strict_eq(a, b)
            return r if op == '===' else not r
        if op == '==': raise JSError(NOTIMPL, 'Use ===, not ==')
        if op == '!=': raise JSError(NOTIMPL, 'Use !==, not !=')
        if op in ('<', '>', '<=', '>='):
            self.cov[op] = self.cov.get(op, 0) + 1
            x = a if isnum(a) else NAN
            y = b if isnum(b) else NAN
            return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        return self.do_op(a, b, op)

    def e_log(self, e):
        a = self.ev(e[2])
        self.cov[e[1]] = self.cov.get(e[1], 0) + 1
        if e[1] == '&&': return self.ev(e[3]) if truthy(a) else a
        return a if truthy(a) else self.ev(e[3])

    def e_cond(self, e):
        return self.ev(e[2]) if truthy(self.ev(e[1])) else self.ev(e[3])

    def target(self, t):
        if t[0] == 'id': return self.find(t[1]), t[1]
        if t[0] == 'dot': return self.ev(t[1]), t[2]
        o = self.ev(t[1])
        return o, self.ev(t[2])

    def e_asg(self, e):
        o, k = self.target(e[2])
        v = self.ev(e[3])
        op = e[1]
        self.cov[op] = self.cov.get(op, 0) + 1
        if op == '=': return self.assign_to(o, k, v)
        if isinstance(o, Obj) and isstr(k):
            return self.update(o, k, v, op[:-1])[1]
        raise JSError(TYPE, 'invalid operand')

    def update(self, o, k, v, op):
        p = o.props.get(k)
        old = p[1] if p else U
        try:
            new = self.do_op(old, v, op)
        except JSError:
            # the engine stores `undefined` before it reports the error
            o.set(k, U)
            raise
        o.set(k, new)
        return old, new

    def e_pre(self, e):
        o, k = self.target(e[2])
        self.cov[e[1] + 'x'] = self.cov.get(e[1] + 'x', 0) + 1
        return self.update(o, k, 1.0, e[1][0])[1]

    def e_post(self, e):
        o, k = self.target(e[2])
        self.cov['x' + e[1]] = self.cov.get('x' + e[1], 0) + 1
        if isinstance(o, Obj) and isstr(k):
            return self.update(o, k, 1.0, e[1][0])[0]
        raise JSError(TYPE, 'invalid operand for ' + e[1])

    def e_dot(self, e):
        return self.getprop(self.ev(e[1]), e[2])

    def e_idx(self, e):
        o = self.ev(e[1])
        k = self.ev(e[2])
        return self.getprop(o, k)

    def e_call(self, e):
        f = e[1]
        this = U
        if f[0] in ('dot', 'idx'):
            self.tick()
            this = self.ev(f[1])
            fv = self.getprop(this, f[2] if f[0] == 'dot' else self.ev(f[2]))
        else:
            fv = self.ev(f)
        args = [self.ev(a) for a in e[2]]
        if isstr(fv): raise Unspecified('calling a string')
        if type(fv) is Ptr: raise Unspecified('calling a pointer')
        if not isinstance(fv, (Fn, CFn)):
            raise JSError(TYPE, 'calling non-callable')
        return self.call(fv, this, args)

    def call(self, f, this, args):
        self.tick()
        if type(f) is Ptr: raise Unspecified('calling a pointer')
        if self.depth > self.maxdepth: raise Unspecified('depth')
        sv = self.this
        self.this = this
        self.depth += 1
        if isinstance(f, CFn):
            self.cov['C:' + f.name] = self.cov.get('C:' + f.name, 0) + 1
            r = f.f(this, args)
            self.this = sv
            self.depth -= 1
            return r
        n, lp, inf = len(self.scopes), self.loops, self.in_func
        self.loops = 0
        self.in_func = 1
        s = Obj()
        self.scopes.append(s)
        for i, p in enumerate(f.params):
            s.set(p, args[i] if i < len(args) else U)
        ni = len(self.iters)
        r = U
        try:
            self.stmts(f.body)
        except _Ret as x:
            r = x.v
        del self.scopes[n:]
        del self.iters[ni:]
        self.loops, self.in_func = lp, inf
        self.this = sv
        self.depth -= 1
        return r

    # ---------------- statements
    def stmts(self, l):
        v = U
        for s in l: v = self.st(s)
        return v

    def st(self, s):
        self.tick()
        return getattr(self, 's_' + s[0])(s)

    def body(self, b, scope):
        if b[0] == 'block':
            if not scope: return self.stmts(b[1])
            return self.s_block(b)
        return self.st(b)

    def s_expr(self, s):
        v = U
        for e in s[1]: v = self.ev(e)
        return v

    def s_let(self, s):
        v = U
        for name, e in s[1]:
            sc = self.scopes[-1]
            if name not in sc.props: sc.set(name, U)
            if e is not None:
                o = self.find(name)
                v = self.ev(e)
                o.set(name, v)
            else:
                v = U
        return v

    def s_empty(self, s): return U

    def s_block(self, s):
        self.scopes.append(Obj())
        v = self.stmts(s[1])
        self.scopes.pop()
        return v

    def s_if(self, s):
        if truthy(self.ev(s[1])): return self.body(s[2], True)
        if s[3] is not None: return self.body(s[3], True)
        return U

    def loop_iter(self, body, n):
        """One iteration; False to stop."""
        try:
            self.body(body, False)
        except _Break:
            del self.scopes[n:]
            return False
        except _Cont:
            del self.scopes[n:]
        return True

    def s_while(self, s):
        self.scopes.append(Obj())
        n = len(self.scopes)
        self.loops += 1
        while truthy(self.ev(s[1])):
            if not self.loop_iter(s[2], n): break
        self.loops -= 1
        del self.scopes[n - 1:]
        return U

    def s_for(self, s):
        self.scopes.append(Obj())
        n = len(self.scopes)
        self.loops += 1
        if s[1][0] == 'let': self.s_let(s[1])
        else: self.ev(s[1])
        while truthy(self.ev(s[2])):
            if not self.loop_iter(s[4], n): break
            self.ev(s[3])
        self.loops -= 1
        del self.scopes[n - 1:]
        return U

    def s_forin(self, s):
        self.scopes.append(Obj())
        n = len(self.scopes)
        name = s[2]
        if s[1]:
            self.scopes[-1].set(name, U)
        o = self.ev(s[3])
        self.loops += 1
        if not isinstance(o, Obj):
            raise JSError(TYPE, "can't iterate over non-object value")
        it = Iter(o)
        self.iters.append(it)
        while True:
            self.tick()
            best = None
            for k, p in o.props.items():
                if (it.pos is None or p[0] < it.pos) and (best is None or p[0] > o.props[best][0]):
                    best = k
            if best is None: break
            it.pos = o.props[best][0]
            self.find(name).set(name, best)
            if not self.loop_iter(s[4], n): break
        self.iters.remove(it)
        self.loops -= 1
        del self.scopes[n - 1:]
        return name

    def s_ret(self, s):
        v = self.ev(s[1]) if s[1] is not None else U
        if not self.in_func: raise JSError(INTERNAL, 'cannot return')
        raise _Ret(v)

    def s_break(self, s):
        if not self.loops: raise JSError(SYNTAX, "misplaced 'break'")
        raise _Break()

    def s_cont(self, s):
        if not self.loops: raise JSError(SYNTAX, "misplaced 'continue'")
        raise _Cont()

    # ---------------- a whole script
    def run(self, prog):
        """(err, msg, value) of one script; the heap persists."""
        try:
            v = self.stmts(prog)
            r = (0, b'', v)
        except JSError as e:
            r = (e.code, e.msg, U)
        self.reset()
        return r


# ---------------------------------------------------------------- JSON
def stringify(v):
    r = _js(v, [])
    return b'' if r is None else r


_ESC = {8: b'\\b', 9: b'\\t', 10: b'\\n', 12: b'\\f', 13: b'\\r', 34: b'\\"', 92: b'\\\\'}


def quote(s):
    return b'"' + b''.join(_ESC.get(c) or (b'\\u%04x' % c if c < 32 else bytes([c]))
                           for c in s) + b'"'


def _js(v, path):
    if isnum(v):
        return num_to_str(v) if math.isfinite(v) else b'null'
    if v is N: return b'null'
    if isinstance(v, bool): return b'true' if v else b'false'
    if isstr(v): return quote(v)
    if isinstance(v, Obj):
        if any(v is p for p in path): return b'[Circular]'
        if len(path) > 60: raise Unspecified('deep')
        path = path + [v]
        if v.arr:
            n = v.length()
            if n > 5000: raise Unspecified('long')
            out = []
            for i in range(n):
                p = v.props.get(ikey(i))
                r = _js(p[1], path) if p else None
                out.append(b'null' if r is None else r)
            return b'[' + b','.join(out) + b']'
        out = []
        for k in v.keys():
            r = _js(v.props[k][1], path)
            if r is not None: out.append(quote(k) + b':' + r)
        return b'{' + b','.join(out) + b'}'
    return None


def parse_json(s):
    """Strict JSON; anything else is not modelled here."""
    p = _JP(s)
    v = p.value(0)
    p.ws()
    if p.i != len(s): raise Unspecified('json')
    return v


class _JP:
    def __init__(self, s): self.s, self.i = s, 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in b' \t\r\n': self.i += 1

    def peek(self): return self.s[self.i:self.i + 1]

    def lit(self, w):
        if self.s[self.i:self.i + len(w)] != w: raise Unspecified('json')
        self.i += len(w)

    def value(self, d):
        if d > 900: raise Unspecified('json depth')
        self.ws()
        c = self.peek()
        if c == b'{':
            o = Obj()
            self.i += 1
            self.ws()
            if self.peek() == b'}':
                self.i += 1
                return o
            while True:
                self.ws()
                k = self.string()
                self.ws()
                self.lit(b':')
                # the property exists (undefined) only once its value is known
                v = self.value(d + 1)
                o.set(k, v)
                self.ws()
                if self.peek() == b',':
                    self.i += 1
                    continue
                self.lit(b'}')
                return o
        if c == b'[':
            o = Obj(True)
            self.i += 1
            self.ws()
            n = 0
            if self.peek() == b']':
                self.i += 1
                return o
            while True:
                o.set(ikey(n), self.value(d + 1))
                n += 1
                self.ws()
                if self.peek() == b',':
                    self.i += 1
                    continue
                self.lit(b']')
                return o
        if c == b'"': return self.string()
        if c == b't': self.lit(b'true'); return True
        if c == b'f': self.lit(b'false'); return False
        if c == b'n': self.lit(b'null'); return N
        j = self.i
        while self.peek() and self.peek() in b'+-0123456789.eE': self.i += 1
        t = self.s[j:self.i]
        import re
        if not re.fullmatch(rb'-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?', t):
            raise Unspecified('json number')
        return float(t)

    def string(self):
        if self.peek() != b'"': raise Unspecified('json')
        self.i += 1
        out, raw = bytearray(), bytearray()
        while True:
            c = self.peek()
            if not c: raise Unspecified('json')
            self.i += 1
            if c == b'"':
                try: raw.decode('utf-8')
                except UnicodeDecodeError: raise Unspecified('json utf-8')
                return bytes(out)
            if c == b'\\':
                raw += b'.'
                e = self.peek()
                self.i += 1
                if e == b'u':
                    h = self.s[self.i:self.i + 4]
                    self.i += 4
                    if len(h) < 4: raise Unspecified('json')
                    cp = int(h, 16)
                    if cp > 255: raise Unspecified('json unicode')
                    out.append(cp)
                else:
                    m = {b'b': 8, b't': 9, b'n': 10, b'f': 12, b'r': 13, b'"': 34, b'\\': 92, b'/': 47}.get(e)
                    if m is None: raise Unspecified('json escape')
                    out.append(m)
            else:
                if c[0] < 32: raise Unspecified('json control')
                out += c
                raw += c


# ---------------------------------------------------------------- events
def sernum(d):
    if d != d: return 'dNaN'
    return 'd' + struct.pack('>d', d).hex()


def shex(b): return b.hex() if b else '-'


def ser(v, path=()):
    """Same canonical form as the driver prints."""
    if isnum(v): return sernum(v)
    if isstr(v): return 's' + shex(v)
    if isinstance(v, bool): return 't' if v else 'f'
    if v is N: return 'n'
    if v is U: return 'u'
    if isinstance(v, Fn): return 'F'
    if isinstance(v, FFn): return 'S'
    if isinstance(v, CFn): return 'p?'
    if isinstance(v, Ptr):
        return 'p0' if v.buf is None else 'p%s%+d' % (chr(65 + v.buf), v.off)
    for d, q in enumerate(path):
        if q is v: return '@%d' % d
    if len(path) > 150: raise Unspecified('deep')
    path = (v,) + path
    if v.arr:
        n = v.length()
        if n > 300: raise Unspecified('long')
        items = []
        for i in range(n):
            p = v.props.get(ikey(i))
            items.append(ser(p[1] if p else U, path))
        extra = ''.join('%s:%s,' % (shex(k), ser(v.props[k][1], path)) for k in v.keys()
                        if not (k and all(48 <= c <= 57 for c in k)))
        return '[%d|%s|%s|%d]' % (n, ','.join(items), extra, len(v.props))
    return '{' + ''.join('%s:%s,' % (shex(k), ser(v.props[k][1], path)) for k in v.keys()) + '}'


def reach(roots):
    """objects, properties, (min, max) bytes of engine-owned strings."""
    seen, todo, props, smax, cont = {}, list(roots), 0, 0, set()
    for v in roots:
        if type(v) is bytes and len(v) >= 6:
            smax += strcost(v)
            cont.add(v)
    while todo:
        v = todo.pop()
        if not isinstance(v, Obj) or id(v) in seen: continue
        seen[id(v)] = v
        for k, p in v.props.items():
            props += 1
            for s in (k, p[1]):
                if isstr(s) and len(s) >= 6:
                    if type(s) is bytes: cont.add(s)
                    # a foreign string's text may have been copied (as a key)
                    smax += strcost(s)
            todo.append(p[1])
    return len(seen), props, sum(strcost(s) for s in cont), smax


def reach_sigs(roots):
    """Number of foreign functions reachable."""
    seen, todo, sigs = set(), list(roots), set()
    while todo:
        v = todo.pop()
        if isinstance(v, FFn): sigs.add(id(v))
        if not isinstance(v, Obj) or id(v) in seen: continue
        seen.add(id(v))
        todo += [p[1] for p in v.props.values()]
    return len(sigs)


def strcost(s):
    n, ll = len(s), 1
    while n >= 128:
        n >>= 7
        ll += 1
    return len(s) + ll + 1
