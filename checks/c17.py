"""Raw memory views and struct conversion."""
import copy, re, struct
from runner import Check
from kit import Builder, ANY, REST
from drv import hx
import model, gen
from gen import lit, ident, call, emit
from c05 import nlit
from model import Obj, Ptr, ser, U, FStr, Unspecified

T = {'struct': 1, 'structp': 2, 'int': 3, 'bool': 4, 'double': 5, 'float': 6, 'charp': 7, 'voidp': 8, 'mgp': 9, 'mg': 10,
     'data': 11, 'i8': 12, 'i16': 13, 'u8': 14, 'u16': 15, 'custom': 16}
SZ = {'int': (4, 4), 'bool': (1, 1), 'double': (8, 8), 'float': (4, 4), 'charp': (8, 8), 'voidp': (8, 8), 'mgp': (8, 8), 'mg': (16, 8),
      'i8': (1, 1), 'i16': (2, 2), 'u8': (1, 1), 'u16': (2, 2), 'custom': (2, 2), 'structp': (8, 8)}
NAMES = [b'a', b'b', b'cc', b'field', b'longer_field_name', b'x1', b'y2', b'abcde', b'abcdef', b'length', b'n', b'_z']
PRE = (b"let getu=ffi('double mjs_mem_get_uint(void *, int, int)'),geti=ffi('double mjs_mem_get_int(void *, int, int)'),"
       b"setu=ffi('void mjs_mem_set_uint(void *, int, int, int)'),seti=ffi('void mjs_mem_set_int(void *, int, int, int)'),"
       b"getd=ffi('double mjs_mem_get_dbl(void *)'),setd=ffi('void mjs_mem_set_dbl(void *, double)'),"
       b"pk=ffi('void *mjs_mem_get_ptr(void *, int)'),setp=ffi('void mjs_mem_set_ptr(void *, void *)');")


class S2O:
    """A random struct layout, its contents and the object it denotes."""

    def __init__(self, r):
        self.r = r
        self.bufs = []           # bytearrays
        self.ptrs = []           # commands
        self.descs = []          # lists of (name, off, type, arg)

    def newbuf(self, b):
        self.bufs.append(bytearray(b))
        return len(self.bufs) - 1

    def rbuf(self, s): return self.newbuf(s)

    def layout(self, depth):
        """(descriptor number, size, list of (off, type, arg))"""
        r = self.r
        k = len(self.descs)
        self.descs.append([])
        fs, off = [], 0
        for nm in r.sample(NAMES, r.randrange(0, 8)):
            t = r.choice(list(SZ) + ['data', 'data', 'struct', 'struct'])
            if (depth <= 0 or len(self.descs) >= 7) and t in ('struct', 'structp'): t = 'int'
            arg = None
            if t == 'data':
                arg = r.choice([0, 1, 3, 4, 5, 6, 7, 20, 130, 130, 255, 256, 257, 300, 600])
                sz, al = arg, 1
            elif t == 'struct':
                arg = self.layout(depth - 1)
                sz, al = arg[1], 8
            else:
                sz, al = SZ[t]
                if t == 'structp': arg = self.layout(depth - 1)
            off = (off + al - 1) // al * al + (al * r.choice([0, 0, 0, 1, 3]))
            fs.append((nm, off, t, arg))
            off += sz
        self.descs[k] = [(nm, o, t, arg[0] if t in ('struct', 'structp') else arg if t == 'data' else None) for nm, o, t, arg in fs]
        return k, (off + 7) // 8 * 8, fs

    def str(self):
        r = self.r
        return bytes(r.choice(b'abcxyz\x80\xff\x01 "') for _ in range(r.choice([0, 1, 4, 5, 6, 7, 30, 127, 128, 200, 255, 256, 400])))

    def write(self, lay, buf, base):
        """Fills in random contents; returns the model object."""
        r = self.r
        o = Obj()
        vals = []
        b = self.bufs[buf]
        for nm, off, t, arg in lay[2]:
            at = base + off
            if t in ('int', 'i8', 'i16', 'u8', 'u16'):
                f = {'int': 'i', 'i8': 'b', 'i16': 'h', 'u8': 'B', 'u16': 'H'}[t]
                n = struct.calcsize(f)
                raw = bytes(r.choice([0, 255, 128, 127, r.randrange(256)]) for _ in range(n))
                b[at:at + n] = raw
                v = float(struct.unpack('<' + f, raw)[0])
            elif t == 'bool':
                x = r.randrange(2)
                b[at] = x
                v = bool(x)
            elif t == 'double':
                v = r.choice([0.0, -1.5, 1e300, 5e-324, -0.0, float(r.randrange(1 << 40)), r.random()])
                b[at:at + 8] = struct.pack('<d', v)
            elif t == 'float':
                raw = struct.pack('<f', r.choice([0.0, -1.5, 3.25, 1e30, 0.1, float(r.randrange(1 << 20))]))
                b[at:at + 4] = raw
                v = float(struct.unpack('<f', raw)[0])
            elif t == 'charp':
                if r.random() < .15:
                    v = model.N
                    self.ptrs.append((buf, at, -1, 0))
                else:
                    s = self.str()
                    j = self.rbuf(s + b'\0' + r.choice([b'', b'tail']))
                    self.ptrs.append((buf, at, j, 0))
                    v = s
            elif t == 'voidp':
                if r.random() < .3:
                    v = Ptr(None)
                    self.ptrs.append((buf, at, -1, 0))
                else:
                    j = self.rbuf(bytes(8))
                    k = r.randrange(8)
                    self.ptrs.append((buf, at, j, k))
                    v = Ptr(j, k)
            elif t in ('mg', 'mgp'):
                if t == 'mgp' and r.random() < .25:
                    v = model.N
                    self.ptrs.append((buf, at, -1, 0))
                else:
                    s = self.str()
                    if r.random() < .5: s = s[:1] + b'\0' + s
                    j = self.rbuf(b'pq' + s + b'zz') if s or r.random() < .5 else -1
                    tgt, ta = buf, at
                    if t == 'mgp':
                        tgt, ta = self.newbuf(bytes(16)), 0
                        self.ptrs.append((buf, at, tgt, 0))
                    self.ptrs.append((tgt, ta, j, 2, len(s)))
                    v = s
            elif t == 'data':
                s = bytes(r.randrange(256) for _ in range(arg))
                b[at:at + arg] = s
                v = s
            elif t == 'custom':
                x = r.randrange(1 << 16)
                b[at:at + 2] = struct.pack('<H', x)
                v = Obj(True)
                v.set(b'0', float(x))
            elif t == 'struct':
                v = self.write(arg, buf, at)
            elif t == 'structp':
                if r.random() < .3 or len(self.bufs) > 10:
                    v = model.N
                    self.ptrs.append((buf, at, -1, 0))
                else:
                    j = self.newbuf(bytes(max(1, arg[1])))
                    self.ptrs.append((buf, at, j, 0))
                    v = self.write(arg, j, 0)
            vals.append((nm, v))
        for nm, v in reversed(vals): o.set(nm, v)
        return o


class C(Check):
    id = 'C17'
    quick, thorough = 50000, 500000
    rule = ('Integers of 1 to 4 bytes of both signs and byte orders, doubles, pointers, single bytes by index and strings from '
            'memory are read and written at random offsets of exact-size buffers, which are dumped and compared byte by byte with a reference '
            'after every write; random (nested, padded) struct layouts with all field types are converted and compared with the '
            'object they denote, with forced collections. Non-trivial: at least two events were compared.')

    def gen(self, r, i, tier):
        return self.s2o(r) if i % 3 == 0 else self.exprs(r) if i % 6 == 1 else self.mem(r)

    def exprs(self, r):
        """Expressions on pointers: indexing, arithmetic, comparison, errors."""
        b = Builder(r)
        sz = [r.choice([1, 2, 5, 16]) for _ in range(2)]
        for k, n in enumerate(sz):
            mem = bytes(r.randrange(256) for _ in range(n))
            b.cmd('buf %d %s' % (k, hx(mem)))
            b.m.bufs[k] = bytearray(mem)
        ids = [b'p', b'q', b's', b'z']
        P = lambda: r.choice([ident(r.choice(ids)), ident(r.choice(ids[:3])), call(ident(b'ptr'), nlit(r.randrange(2))), ('dot', ident(b'o'), b'p')])
        def arith(d=2):
            if d <= 0 or r.random() < .4: return P()
            if r.random() < .2: return ('bin', '+', nlit(r.randrange(6)), arith(d - 1))
            return ('bin', r.choice('+-'), arith(d - 1), nlit(r.choice([0, 1, 2, 3, 7, 1.5])))
        other = lambda: r.choice([lit('null'), lit('undefined'), lit('true'), lit('false'), nlit(0), nlit(1), ('str', b'a'), ('str', b'1'), ('obj', []), ident(b'o'), P()])
        def val():
            z = r.random()
            if z < .45: return nlit(r.randrange(256))
            if z < .6: return nlit(r.choice([0, 255, 256, 1000, 65536, 2.5, 255.75, 4294967296.0]))
            if z < .7: return ('un', '-', nlit(r.choice([1, 255, 256])))
            if z < .85: return ('idx', P(), nlit(r.randrange(3)))
            return other()
        def ex():
            z = r.random()
            if z < .25: return ('bin', r.choice(['===', '!==']), arith(), arith() if r.random() < .6 else other())
            if z < .3: return ('bin', r.choice(['===', '!==']), other(), arith())
            if z < .45: return ('idx', arith(), nlit(r.randrange(5)) if r.random() < .8 else other())
            if z < .7: return ('asg', '=', ('idx', arith(), nlit(r.randrange(5)) if r.random() < .9 else other()), val())
            if z < .76: return ('bin', '-', arith(), arith())
            if z < .8: return ('asg', r.choice(['+=', '-=']), ident(r.choice(ids)), nlit(r.randrange(3)))
            if z < .83: return ('asg', '+=', ('idx', P(), nlit(0)), nlit(1))
            if z < .86: return (r.choice(['pre', 'post']), r.choice(['++', '--']), ident(r.choice(ids)))
            if z < .88: return ('bin', r.choice(['*', '/', '&', '%', '+']), arith(), r.choice([nlit(1), P()]))
            if z < .9: return ('bin', r.choice(['<', '>=']), arith(), arith())
            if z < .92: return ('un', r.choice(['!', 'typeof', '-']), arith())
            if z < .94: return ('dot', P(), r.choice([b'length', b'x', b'apply_']))
            if z < .96: return ('asg', '=', ident(r.choice(ids)), arith())
            return call(ident(b'mkstr'), *[r.choice([P(), other()])] + [r.choice([nlit(r.randrange(4)), nlit(r.randrange(4)), other()]) for _ in range(r.randrange(5))])
        b.run([('let', [(b'p', call(ident(b'ptr'), nlit(0))), (b'q', call(ident(b'ptr'), nlit(1))), (b's', call(ident(b'ptr'), nlit(0))),
                        (b'z', call(ident(b'ptr'), nlit(9))), (b'o', ('obj', [(b'p', call(ident(b'ptr'), nlit(0)))]))])])
        if r.random() < .3: b.cmd('gc 3 3 %d' % r.randrange(1 << 30))
        n = 0
        for _ in range(60):
            if n >= 12: break
            e = ex()
            snap = copy.deepcopy(b.m)
            marks = len(b.exp), len(b.lines), len(b.lines.marks), len(b.src)
            try:
                b.run([('expr', [emit(e)])])
                for x in b.exp[marks[0]:]:
                    for k, o in re.findall(r'p([AB])([+-]\d+)', ' '.join(str(f) for f in x)):
                        # the driver tells buffers apart by distance
                        if not 0 <= int(o) < sz[ord(k) - 65]: raise Unspecified('outside')
            except Unspecified:
                b.m = snap
                del b.exp[marks[0]:], b.lines[marks[1]:], b.lines.marks[marks[2]:], b.src[marks[3]:]
                continue
            n += 1
            b.labels.add('pointer ' + e[0])
            for k in range(2): b.cmd('bufdump %d' % k, ['B', hx(bytes(b.m.bufs[k]))])
        b.cmd('gc 0 1 1')
        b.snap('z')
        return b.case()

    def s2o(self, r):
        for _ in range(50):
            s = S2O(r)
            lay = s.layout(2)
            root = s.newbuf(bytes(max(1, lay[1])))
            o = s.write(lay, root, 0)
            if len(s.bufs) <= 15: break
        else: return None
        b = Builder(r)
        for k, x in enumerate(s.bufs):
            b.cmd('buf %d %s' % (k, hx(bytes(x))))
        for p in s.ptrs: b.cmd('bufptr ' + ' '.join(str(x) for x in p))
        for k, d in enumerate(s.descs):
            for nm, off, t, arg in d:
                b.cmd('sdef %d %s %d %d %s' % (k, hx(nm), off, T[t], '-' if arg is None else str(arg)))
        if r.random() < .5: b.cmd('gc %d %d %d' % (r.choice([1, 3]), r.choice([1, 2, 5]), r.randrange(1 << 30)))
        z = r.random()
        if z < .08:
            src = r.choice([b's2o(null, sdesc(0))', b's2o(ptr(%d), null)' % root, b's2o()', b's2o(ptr(%d))' % root, b's2o(null, null)'])
            b.raw(b'emit(%s);' % src, ['E', 'u'], ['R', 'exec', '0', ANY, ANY, ANY])
        else:
            n = r.choice([1, 1, 2, 3])
            ev = [['E', ser(o)] for _ in range(n)]
            src = b''.join(b'let o%d=s2o(ptr(%d), sdesc(0));' % (q, root) for q in range(n)) + \
                b''.join(b'emit(o%d);' % q for q in range(n))
            keys = o.keys()
            for _ in range(3):
                if keys:
                    k = r.choice(keys)
                    src += b'emit(o0.%s);' % k
                    ev.append(['E', ser(o.props[k][1])])
            src += b'for(let k in o0){emit(k);}'
            ev += [['E', 's' + (k.hex() or '-')] for k in keys]
            if r.random() < .25:     # the object is a copy: what happens to the memory later does not matter
                for k, x in enumerate(s.bufs):
                    if len(x): src += b'for(let i=0;i<%d;i+=%d)ptr(%d)[i]=%d;' % (len(x), max(1, len(x) // 12), k, r.choice([0, 65, 255, 128]))
                src += b''.join(b'emit(o%d);' % q for q in range(n))
                ev += [['E', ser(o)] for _ in range(n)]
                b.labels.add('memory overwritten')
            b.raw(src, *ev, ['R', 'exec', '0', ANY, ANY, ANY])
            for t in {t for d in s.descs for _, _, t, _ in d}: b.labels.add('field ' + t)
        b.cmd('gc 0 1 1')
        b.cmd('snap z', ['S', 'z', '0', '0', '0', '1', '0', '0', REST])
        return b.case()

    def mem(self, r):
        b = Builder(r)
        n = r.choice([1, 2, 3, 4, 5, 8, 16, 40])
        mem = bytearray(r.randrange(256) for _ in range(n))
        b.cmd('buf 0 ' + hx(bytes(mem)))
        b.raw(PRE, *[['L', REST]] * 8, ['R', 'exec', '0', ANY, ANY, ANY])
        if r.random() < .2: b.cmd('gc 3 3 %d' % r.randrange(1 << 30))
        nptr = set()
        for _ in range(r.randrange(2, 14)):
            z = r.random()
            off = r.randrange(n)
            how = r.choice([b'ptr(0)+%d' % off, b'pk(ptr(0),%d)' % off, b'%d+ptr(0)' % off, b'pk(ptr(0)+%d,-1)' % (off + 1),
                            b'(ptr(0)+%d)-3' % (off + 3)])
            big = r.randrange(2)
            if z < .55 or n < 8:
                size = min(r.randrange(1, 5), n - off)
                B = 'big' if big else 'little'
                if z < .12 or (z >= .55 and z < .7):
                    v = int.from_bytes(mem[off:off + size], B)
                    b.raw(b'emit(getu(%s,%d,%d));' % (how, size, big), ['E', model.sernum(float(v))], ['R', 'exec', '0', REST])
                    b.labels.add('get unsigned %d %s' % (size, B))
                elif z < .24 or z >= .7:
                    v = int.from_bytes(mem[off:off + size], B, signed=True)
                    b.raw(b'emit(geti(%s,%d,%d));' % (how, size, big), ['E', model.sernum(float(v))], ['R', 'exec', '0', REST])
                    b.labels.add('get signed %d %s' % (size, B))
                else:
                    sg = r.random() < .5
                    v = r.choice([0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 8388608, 2147483647, r.randrange(1 << 31), r.randrange(1 << 8 * size)] +
                                 ([-1, -128, -129, -32768, -2147483648, -r.randrange(1 << 31)] if sg else [4294967295, 2147483648, 0xdeadbeef]))
                    mem[off:off + size] = (v & ((1 << 8 * size) - 1)).to_bytes(size, B)
                    b.raw(b'%s(%s,%d,%d,%d);' % (b'seti' if sg else b'setu', how, v, size, big), ['R', 'exec', '0', REST])
                    b.cmd('bufdump 0', ['B', hx(bytes(mem))])
                    b.labels.add('set %d %s' % (size, B))
            elif z < .75:
                off = r.randrange(n - 7)
                p = b'ptr(0)+%d' % off
                if r.random() < .5:
                    v = r.choice([0.0, 1.5, -2.25, 1e300, 1e-300, float(r.randrange(1 << 50)), -r.random()])
                    mem[off:off + 8] = struct.pack('<d', v)
                    b.raw(b'setd(%s,%r);' % (p, v) if False else b'setd(%s,%s);' % (p, repr(v).encode()), ['R', 'exec', '0', REST])
                    b.cmd('bufdump 0', ['B', hx(bytes(mem))])
                    b.labels.add('set double')
                v = struct.unpack('<d', mem[off:off + 8])[0]
                if v == v:
                    b.raw(b'emit(getd(%s));' % p, ['E', model.sernum(v)], ['R', 'exec', '0', REST])
                    b.labels.add('get double')
            elif z < .87:
                if r.random() < .5:
                    v = r.randrange(256)
                    k = r.randrange(off + 1)
                    mem[off] = v
                    b.raw(b'let q=ptr(0)+%d; emit(q[%d]=%d);' % (k, off - k, v), ['E', model.sernum(float(v))], ['R', 'exec', '0', REST])
                    b.cmd('bufdump 0', ['B', hx(bytes(mem))])
                    b.labels.add('index write')
                else:
                    b.raw(b'emit(ptr(0)[%d]);' % off, ['E', model.sernum(float(mem[off]))], ['R', 'exec', '0', REST])
                    b.labels.add('index read')
            else:
                ln = r.randrange(n - off + 1)
                cp = r.choice([b'', b',true', b',false'])
                s = bytes(mem[off:off + ln])
                b.raw(b'emit(mkstr(ptr(0),%d,%d%s));' % (off, ln, cp), ['E', 's' + (s.hex() or '-')], ['R', 'exec', '0', REST])
                b.labels.add('mkstr')
        b.cmd('bufdump 0', ['B', hx(bytes(mem))])
        if r.random() < .3:
            b.cmd('buf 1 ' + '5a' * 24).cmd('sdef 0 %s 8 8 -' % hx(b'p')).cmd('sdef 1 %s 0 11 8' % hx(b'x')).cmd('sdef 1 %s 16 11 8' % hx(b'y'))
            k = r.randrange(n)
            b.raw(b'setp(ptr(1)+8,ptr(0)+%d); emit(s2o(ptr(1),sdesc(0)).p); let o=s2o(ptr(1),sdesc(1)); emit(o.x+o.y);' % k,
                  ['E', 'pA+%d' % k], ['E', 's' + '5a' * 16], ['R', 'exec', '0', REST])
            b.labels.add('set pointer')
        b.cmd('gc 0 1 1')
        b.cmd('snap z', ['S', 'z', '0', '0', '0', '1', '0', '0', REST])
        return b.case()


check = C()
