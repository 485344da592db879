"""The bundled script libraries: DataView, File, Math."""
import ctypes, math, os, struct
from runner import Check
from kit import Builder, ANY
import build, printer
from model import ser, U, Unspecified
from drv import hx

libm = ctypes.CDLL('libm.so.6')
FUN = {'ceil': ('ceil', 1), 'floor': ('floor', 1), 'round': ('round', 1), 'max': ('fmax', 2), 'min': ('fmin', 2),
       'abs': ('fabs', 1), 'sqrt': ('sqrt', 1), 'exp': ('exp', 1), 'log': ('log', 1), 'pow': ('pow', 2), 'sin': ('sin', 1), 'cos': ('cos', 1)}
for c, n in FUN.values():
    f = getattr(libm, c)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * n
BOUNDS = b'Offset is outside of the bounds of the DataView'
KINDS = {'Int8': ('b', 1), 'Uint8': ('B', 1), 'Int16': ('h', 2), 'Uint16': ('H', 2), 'Int32': ('i', 4), 'Uint32': ('I', 4)}


class C(Check):
    id = 'C22'
    quick, thorough = 24000, 240000
    rule = ('Histories of DataView reads and writes (all types, byte orders, offsets inside, across and outside the view) over a '
            'byte array, of File writes, appends, reads, renames and removals in a scratch directory, and of Math calls, with the shipped libraries loaded into '
            'the engine and collections in between. Every result, error, buffer and file must equal a byte-array, '
            'dictionary and libm reference. Non-trivial: at least four operations compared.')

    def nontrivial(self, c): return len(c.events) >= 4

    def js(self, s):
        t = printer.source([('expr', [('str', s)])], self.r, 0).strip().rstrip(b';').strip()
        return t

    def num(self, v):
        if v != v: return b'NaN'
        if v == math.inf: return b'(1e308*10)'
        if v == -math.inf: return b'(-1e308*10)'
        t = repr(float(v)).encode()
        if t.endswith(b'.0'): t = t[:-2]
        return b'(' + t + b')' if t[:1] == b'-' else t

    def load(self, b, *names):
        for n in names:
            b.raw(b'load(' + self.js(os.path.join(build.REPO, 'lib', n).encode()) + b') === 123456',
                  ['R', 'exec', '0', hx(b'NO_ERROR'), ANY, ANY])

    def ok(self, b, src, val):
        b.raw(b'emit(' + src + b'); 1;', ['E', ser(val)], ['R', 'exec', '0', hx(b'NO_ERROR'), ser(1.0), ANY])

    def gen(self, r, i, tier):
        self.r = r
        b = Builder(r)
        b.cmd('ffiquiet')
        if r.random() < .4: b.cmd('gc %d %d %d' % (r.choice([1, 2, 3]), r.choice([1, 3, 7]), r.randrange(1 << 30)))
        k = i % 3
        if k == 0: self.dataview(r, b)
        elif k == 1: self.files(r, b, i)
        else: self.maths(r, b)
        b.cmd('fullgc')
        b.snap('end')
        return b.case()

    # ---------------------------------------------------------------- DataView
    def dataview(self, r, b):
        self.load(b, 'api_dataview.js')
        n = r.choice([1, 2, 3, 4, 8, 16, 40])
        buf = bytearray(r.choice([0, 255, 128, 127, r.randrange(256)]) for _ in range(n))
        b.cmd('buf 0 ' + hx(bytes(buf)))
        views = []
        for k in range(r.choice([1, 2, 3])):
            off = r.choice([0, 0, None, r.randrange(n)])
            z = r.random()
            o = off or 0
            ln = n - o if z < .5 else None if z < .6 else r.randrange(n - o + 1)
            a = [b'ptr(0)']
            if off is not None or ln is not None: a.append(b'undefined' if off is None else b'%d' % off)
            if ln is not None: a.append(b'%d' % ln)
            b.raw(b'let v%d = DataView.create(' % k + b', '.join(a) + b'); 1;', ['R', 'exec', '0', hx(b'NO_ERROR'), ser(1.0), ANY])
            views.append((o, ln))
        for _ in range(r.randrange(4, 25)):
            k = r.randrange(len(views))
            off, ln = views[k]
            kind = r.choice(list(KINDS))
            f, size = KINDS[kind]
            le = r.choice([None, True, False])
            lim = n - off if ln is None else ln
            if ln is None or r.random() < .7:
                if lim < size:
                    if ln is None: continue
                    idx = r.randrange(lim + 1)
                else: idx = r.choice([0, lim - size, r.randrange(lim - size + 1)])
            else: idx = r.choice([lim, lim - size + 1, lim - 1, lim + 1, lim + 1000, -1, -size, -off - 1, 2147483647, -2147483648, 1e18, -1e18, 1e300, math.inf, -math.inf, math.nan, -0.5, 0.5 - size])
            good = 0 <= idx and idx + size <= lim
            la = [] if le is None else [b'true' if le else b'false']
            at = int(off + idx) if good else 0
            if r.random() < .5:
                e = b'v%d.get%s(%s)' % (k, kind.encode(), b', '.join([self.num(idx)] + la))
                if good:
                    v = struct.unpack(('<' if le or size == 1 else '>') + f, bytes(buf[at:at + size]))[0]
                    self.ok(b, e, float(v))
                b.labels.add('get' + kind)
            else:
                u = r.choice([0, 1, 255, 128, 127, 32767, 32768, 65535, 2147483647, 2147483648, 4294967295, r.randrange(1 << 32)]) & ((1 << 8 * size) - 1)
                raw = u.to_bytes(size, 'little')
                v = struct.unpack('<' + f, raw)[0]
                e = b'v%d.set%s(%s)' % (k, kind.encode(), b', '.join([self.num(idx), self.num(v)] + la))
                if good:
                    buf[at:at + size] = raw if le or size == 1 else raw[::-1]
                    self.ok(b, e, U)
                b.labels.add('set' + kind)
            if not good:
                b.raw(b'emit(' + e + b'); 1;', ['R', 'exec', '3', hx(BOUNDS), 'u', ANY])
                b.labels.add('out of bounds')
            if r.random() < .3: b.cmd('bufdump 0', ['B', hx(bytes(buf))])
        b.cmd('bufdump 0', ['B', hx(bytes(buf))])

    # ---------------------------------------------------------------- File
    def content(self, r):
        n = r.choice([0, 1, 4, 5, 6, 9, 10, 11, 20, 21, 49, 50, 100, 333])
        return bytes(r.choice([r.randrange(256), 0, 10, 13, 97, 98]) for _ in range(n))

    def files(self, r, b, i):
        self.load(b, 'api_file.js')
        names = [b'f%d_%d.txt' % (i, k) for k in range(3)]
        fs = {}
        for k in names: b.cmd('unlink ' + hx(k))
        for _ in range(r.randrange(3, 14)):
            z = r.random()
            p = r.choice(names)
            if z < .45:
                s = self.content(r)
                mode = r.choice([None, 'w', 'a', 'a', 'wb', 'undefined', 'r' if p in fs else 'w'])
                a = [self.js(s), self.js(p)] + ([] if mode is None else [b'undefined' if mode == 'undefined' else b'"' + mode.encode() + b'"'])
                if mode == 'r':
                    self.ok(b, b'File.write(%s)' % b', '.join(a), 0.0)
                    b.labels.add('write refused')
                else:
                    fs[p] = (fs.get(p, b'') if mode == 'a' else b'') + s
                    self.ok(b, b'File.write(%s)' % b', '.join(a), float(len(s)))
                    b.labels.add('write ' + str(mode))
            elif z < .5:
                self.ok(b, b'File.write(%s, %s)' % (self.js(self.content(r)), self.js(b'no_such_dir/x')), 0.0)
                b.labels.add('write nowhere')
            elif z < .75:
                if p not in fs: continue
                self.ok(b, b'File.read(%s)' % self.js(p), fs[p])
                b.labels.add('read')
            elif z < .85:
                if p in fs:
                    del fs[p]
                    self.ok(b, b'File.remove(%s)' % self.js(p), 0.0)
                else: self.ok(b, b'File.remove(%s) !== 0' % self.js(p), True)
                b.labels.add('remove')
            else:
                q = r.choice(names)
                if p in fs:
                    if p != q: fs[q] = fs.pop(p)
                    self.ok(b, b'File.rename(%s, %s)' % (self.js(p), self.js(q)), 0.0)
                else: self.ok(b, b'File.rename(%s, %s) !== 0' % (self.js(p), self.js(q)), True)
                b.labels.add('rename')
        for p in fs: self.ok(b, b'File.read(%s)' % self.js(p), fs[p])
        for p in fs: b.cmd('unlink ' + hx(p))

    # ---------------------------------------------------------------- Math
    def maths(self, r, b):
        self.load(b, 'api_math.js')
        vals = [0.0, -0.0, 0.5, -0.5, 1.5, 2.5, -1.5, 1e300, -1e300, 1e-300, 3.0, -3.0, 0.49999999999999994, 4503599627370497.5, math.inf, -math.inf, math.nan, math.pi]
        for _ in range(r.randrange(4, 20)):
            f = r.choice(list(FUN))
            c, n = FUN[f]
            a = [r.choice(vals) if r.random() < .5 else r.choice([r.uniform(-10, 10), r.uniform(-1e6, 1e6), float(r.randrange(-100, 100))]) for _ in range(n)]
            if any(x == 0 and math.copysign(1, x) < 0 for x in a) and f in ('max', 'min'): continue
            v = getattr(libm, c)(*a)
            e = b'Math.%s(%s)' % (f.encode(), b', '.join(self.num(x) for x in a))
            if r.random() < .2:
                self.ok(b, b'Math.random() >= 0', True)
                self.ok(b, b'Math.random() <= 1', True)
            self.ok(b, e, v)
            b.labels.add(f)


check = C()
