"""The C JSON library: walking, scanning, iterating, printing, editing."""
import json, base64, math, random
from runner import Check
from kit import Builder, ANY, REST
from drv import hx
from c20 import double

STR, NUM, TRUE, FALSE, NULL, OBJ, OBJE, ARR, ARRE = range(1, 10)
KEYS = ['a', 'b', 'ab', 'abc', 'a1', 'b_c', 'key', 'k', 'x', 'longer_key_name', 'z9', 'B']


class Node:
    """kind, text, offset/length (without quotes), path, key, children."""
    def __init__(self, kind): self.kind, self.kids, self.key = kind, [], None


def esc(r, s):
    """A JSON string body for the characters in s, some escaped at random."""
    o = ''
    for ch in s:
        c = ord(ch)
        z = r.random()
        if ch in '"\\' or c < 32:
            q = {'"': '\\"', '\\': '\\\\', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}.get(ch)
            o += q if q and z < .8 else '\\u%04x' % c if z < .9 else '\\u%04X' % c
        elif c < 128 and z < .05: o += '\\u%04x' % c
        elif ch == '/' and z < .5: o += '\\/'
        else: o += ch
    return o.encode()


def rtext(r, ascii_=False):
    a = r.choice(['abc', 'ab"\\/\n\t', ' ,:[]{}', 'a.[]%', '\x01\x1f\x7f~'] + ([] if ascii_ else ['a\xe9\u20ac\U0001f600']))
    return ''.join(r.choice(a) for _ in range(r.choice([0, 1, 2, 5, 5, 12, 30])))


class Doc:
    def __init__(self, r, anykey=False, depth=None, root=None, arrays=True):
        self.r, self.t, self.ev, self.nodes = r, bytearray(), [], []
        self.anykey, self.arrays = anykey, arrays
        self.spacy = r.choice([0, 0, .3, .8])
        self.ws()
        self.root = self.value(r.randrange(1, 5) if depth is None else depth, '', None, root)
        self.end = len(self.t)
        self.ws()
        self.text = bytes(self.t)

    def ws(self):
        while self.r.random() < self.spacy: self.t += self.r.choice([b' ', b'\n', b'\t', b'\r', b'  '])

    def value(self, d, path, name, want=None):
        r = self.r
        k = want or r.choice(['s', 's', 'n', 'n', 'l', 'l'] + (['o', 'o', 'o'] + (['a', 'a'] if self.arrays else [])) * (d > 0))
        n = Node(k)
        n.path, n.key = path, name
        pb = path.encode('latin-1') if isinstance(path, str) else path
        nm = 'null' if name is None else hx(name)
        n.start = len(self.t)
        self.nodes.append(n)
        if k == 's':
            n.value = rtext(r)
            e = esc(r, n.value)
            n.off, n.len, n.type = n.start + 1, len(e), STR
            self.t += b'"' + e + b'"'
        elif k == 'n':
            z = r.random()
            if z < .5: x = str(r.choice([0, 1, 7, 10, 255, 65536, 2147483647, -1, -2147483648, 4294967295, 123456789012, -5]))
            elif z < .8: x = '%s%d.%d' % (r.choice(['', '-']), r.randrange(1000), r.randrange(1000))
            else: x = '%d%s%s%d' % (r.randrange(100), r.choice(['', '.5']), r.choice(['e', 'E', 'e+', 'e-']), r.randrange(20))
            n.value = x
            n.off, n.len, n.type = n.start, len(x), NUM
            self.t += x.encode()
        elif k == 'l':
            x, n.type = r.choice([('true', TRUE), ('false', FALSE), ('null', NULL)])
            n.off, n.len, n.value = n.start, len(x), x
            self.t += x.encode()
        else:
            ob = k == 'o'
            self.ev.append(['W', nm, hx(pb), str(OBJ if ob else ARR), 'null'])
            self.t += b'{' if ob else b'['
            self.ws()
            used, m = set(), r.choice([0, 1, 2, 2, 3, 4])
            for i in range(m):
                if ob:
                    for _ in range(20):
                        q = esc(r, rtext(r)) if self.anykey and r.random() < .4 else r.choice(KEYS).encode()
                        if q not in used: break
                    if q in used: break
                    used.add(q)
                    if r.random() < .15 and q.decode('latin-1') in KEYS: self.t += q
                    else: self.t += b'"' + q + b'"'
                    self.ws()
                    self.t += b':'
                    self.ws()
                    kid = self.value(d - 1, pb + b'.' + q, q)
                else:
                    kid = self.value(d - 1, pb + b'[%d]' % i, b'%d' % i)
                n.kids.append(kid)
                self.ws()
                if i < m - 1 or False:
                    self.t += b','
                    self.ws()
            # a key ran out: no dangling comma
            while bytes(self.t).rstrip().endswith(b',') and len(n.kids) < m:
                self.t = bytearray(bytes(self.t).rstrip()[:-1])
            self.t += b'}' if ob else b']'
            n.off, n.len, n.type = n.start, len(self.t) - n.start, OBJE if ob else ARRE
            nm = 'null'
        n.stop = len(self.t)
        n.pb = pb
        if len(pb) > 250: raise Retry()
        self.ev.append(['W', nm, hx(pb), str(n.type), '%d+%d' % (n.off, n.len)])
        return n


class Retry(Exception): pass


def tok(n): return [str(n.type), '%d+%d' % (n.off, n.len)]


def quote(s):
    """%Q of valid UTF-8."""
    o = ''
    for ch in s:
        c = ord(ch)
        q = {'"': '\\"', '\\': '\\\\', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}.get(ch)
        o += q or ('\\u%04x' % c if c < 32 or c == 127 else ch)
    return b'"' + o.encode() + b'"'


class C(Check):
    id = 'C21'
    quick, thorough = 40000, 400000
    configs = ['drv_json']
    rule = ('Random documents (nested objects and arrays, quoted and bare keys, escapes, UTF-8, all number forms, random white space) in exactly allocated, unterminated buffers are '
            'walked, checked, truncated at every point, corrupted, scanned with random formats and targets, iterated by path, indexed, prettified and edited; random '
            'formats and arguments are printed into buffers of every size, allocated strings and files. Callback sequences, paths, token positions, scanned values, '
            'error codes, printed text and edited documents must equal those of an independent implementation. Non-trivial: at least one event with content was compared.')
    assumptions = ['x86-64 calling convention for variadic test calls']

    def nontrivial(self, c): return len(c.events) >= 1

    def gen(self, r, i, tier):
        b = Builder(r)
        for _ in range(50):
            st = r.getstate()
            try:
                b = Builder(r)
                [self.walk, self.walk, self.broken, self.scan, self.scan, self.iterate, self.printing, self.printing, self.edit, self.edit, self.pretty][i % 11](r, b)
                return b.case()
            except Retry: continue

    def walk(self, r, b):
        b.labels.add('walk')
        d = Doc(r, anykey=True)
        t = d.text
        # text after the value is not looked at
        if r.random() < .3 and d.root.kind != 'n': t = t[:d.end] + r.choice([b'', b'x', b'{', b' 5', b'"'])
        b.cmd('j walk ' + hx(t), *d.ev, ['J', 'walk', str(d.end)])
        b.cmd('j check ' + hx(t), ['J', 'check', str(d.end)])
        s = esc(r, rtext(r) + rtext(r))
        v = json.loads(b'"' + s + b'"').encode()
        for n in {0, len(v), len(v) + 3, -1}:
            b.cmd('j unesc %s %d' % (hx(s), n), ['J', 'unesc', str(len(v))] + ([hx(v)] if n < 0 or n >= len(v) else []))
        n = r.randrange(len(v) + 1)
        b.cmd('j unesc %s %d' % (hx(s), n), ['J', 'unesc', str(len(v)), hx(v)] if n == len(v) else ['J', 'unesc', str(len(v))])
        for bad, e in ((b'\\', -2), (b'ab\\u00', -2), (b'\\u123', -2), (b'\\q', -1), (b'\\u1234', -1)):
            b.cmd('j unesc %s 20' % hx(bad), ['J', 'unesc', str(e), REST])

    def broken(self, r, b):
        b.labels.add('broken')
        d = Doc(r, anykey=True, root=r.choice('oas'))
        t = d.text[:d.end]
        for n in {0, 1, len(t) - 1, len(t) // 2} | {r.randrange(d.root.start, len(t)) for _ in range(15)}:
            if n >= len(t): continue
            b.cmd('j check ' + hx(t[:n]), ['J', 'check', '-2'])
        # a byte no token starts with, outside of strings and inside the brackets
        ins = [False] * len(t)
        st = 0
        k = 0
        while k < len(t):
            if st: ins[k] = True
            if t[k] == 92 and st: k += 1; ins[min(k, len(t) - 1)] = True
            elif t[k] == 34:
                ins[k] = True
                st = not st
            k += 1
        pos = [k for k in range(d.root.start + 1, len(t)) if not ins[k]]
        if d.root.kind != 's':
            for k in r.sample(pos, min(6, len(pos))):
                b.cmd('j check ' + hx(t[:k] + bytes([r.choice(b'@$#;)\x01\x80')]) + t[k:]), ['J', 'check', '-1'])
        # a control character or an unknown escape in a string
        for n in d.nodes:
            if n.kind == 's' and r.random() < .3:
                cut = d.text[:n.off + n.len] + r.choice([b'\x01', b'\n', b'\\q', b'\\x41', b'\\u12G4']) + d.text[n.off + n.len:]
                b.cmd('j check ' + hx(cut), ['J', 'check', '-1'])
        # random damage: no claim but that it ends, inside the text
        for _ in range(8):
            m = bytearray(t)
            for _ in range(r.randrange(1, 4)):
                if m: m[r.randrange(len(m))] = r.choice(b'{}[]":,\\u0e-.x \x80\xff\0tfn')
            b.cmd('j check ' + hx(bytes(m)), ['J', 'check', ('range', -2, len(m))])
            b.cmd('j scan %s %s T' % (hx(bytes(m)), hx(b'{a:%T}')), ['J', 'scan', ANY, ANY, ('re_text', 'null|\\d+\\+\\d+')] if False else ['J', 'scan', ANY, REST])
            b.cmd('j pretty %s %d' % (hx(bytes(m)), r.choice([0, 1, 40])), ['J', 'pretty', ('range', -2, len(m)), REST])
            b.cmd('j setf %s %d %s %s 0' % (hx(bytes(m)), r.choice([0, 1, 40]), hx(b'.a'), r.choice(['0', hx(b'1')])), ['J', 'setf', ANY, REST])

    def scan(self, r, b):
        b.labels.add('scan')
        d = Doc(r, root='o', depth=r.randrange(1, 5))
        types, exp, mev, cnt = '', [], [], 0

        def rec(n, depth):
            nonlocal types, cnt
            parts = []
            kids = [k for k in n.kids]
            r.shuffle(kids)
            extra = [k for k in KEYS if k.encode() not in {x.key for x in n.kids}]
            if extra and r.random() < .3: kids.insert(r.randrange(len(kids) + 1), r.choice(extra))
            for k in kids:
                if len(types) >= 7 or r.random() < .15: continue
                if isinstance(k, str): key, missing = k, True
                else: key, missing = k.key.decode(), False
                key = '"%s"' % key if r.random() < .2 else key
                sp = r.choice(['', ' ', '', '\t'])
                if not missing and k.kind == 'o' and r.random() < .8:
                    parts.append('%s:%s%s' % (key, sp, rec(k, depth + 1)))
                    continue
                f = None
                if missing: f = r.choice(['d', 'l', 'u', 'L', 'f', 'Q', 'B', 'T', 'M', 'H', 'V'])
                else:
                    c = ['T', 'M']
                    if k.kind == 'l' and k.value != 'null': c += ['B'] * 4
                    if k.kind == 'n':
                        if 'e' not in k.value.lower():
                            if '.' not in k.value:
                                v = int(k.value)
                                if abs(v) < 2 ** 31: c += ['d'] * 3
                                c += ['l'] * 2
                                if 0 <= v < 2 ** 32: c += ['u'] * 2
                                if v >= 0: c += ['L']
                        c += ['f'] * 2
                    if k.kind == 's':
                        if '\0' not in k.value: c += ['Q'] * 6
                    if k.kind == 'l' and k.value == 'null': c += ['Q']
                    f = r.choice(c)
                br = r.random() < .5 and not missing and k.kind == 'a' and f in 'TM'
                types += f
                conv = {'d': '%d', 'l': '%ld', 'u': '%u', 'L': '%lu', 'f': '%lf'}.get(f, '%' + f)
                if f == 'd' and r.random() < .3: conv = '%i'
                parts.append('%s:%s%s' % (key, sp, '[%s]' % conv if br else conv))
                if missing:
                    exp.extend({'d': ['-77'], 'l': ['-77'], 'u': ['4294967219'], 'L': ['77'], 'f': ['-77'], 'B': ['7.7'], 'Q': ['null'],
                                'H': ['-7', 'null'], 'V': ['-7', 'null'], 'T': ['0', 'null'], 'M': []}[f])
                    continue
                if not (f == 'Q' and k.kind == 'l'): cnt += 1
                if f == 'T': exp.extend(tok(k))
                elif f == 'M': mev.append(['M', '%d+%d' % (k.off, k.len)])
                elif f == 'B': exp.append('%d.7' % (k.value == 'true'))
                elif f == 'Q': exp.append('null' if k.kind == 'l' else hx(k.value.encode()))
                elif f == 'f': exp.append(('num', float(k.value)))
                else: exp.append(str(int(k.value)))
            sp = r.choice(['', ' ', ' '])
            return '{%s%s%s}' % (sp, (',' + sp).join(parts), sp)
        f = rec(d.root, 0)
        e = [x if not isinstance(x, tuple) else ('in', {'%.17g' % x[1]}) for x in exp]
        b.cmd('j scan %s %s %s' % (hx(d.text), hx(f), types), *mev, ['J', 'scan', str(cnt)] + e)
        # binary strings
        v = bytes(r.randrange(256) for _ in range(r.randrange(12)))
        x = v.hex() if r.random() < .5 else v.hex().upper()
        t = b'{"h":"%s", "v" : "%s"}' % (x.encode(), base64.b64encode(v))
        b.cmd('j scan %s %s HV' % (hx(t), hx(b'{h:%H, v:%V}')), ['J', 'scan', '2', str(len(v)), hx(v + b'\0'), str(len(v)), hx(v + b'\0')])

    def iterate(self, r, b):
        b.labels.add('iterate')
        d = Doc(r, root=r.choice('oa'), depth=r.randrange(1, 4))
        cont = [n for n in d.nodes if n.kind in 'oa']
        for n in r.sample(cont, min(4, len(cont))):
            p = hx(n.pb) if n.pb else '-'
            ev = []
            for k, kid in enumerate(n.kids):
                ev.append(['N', hx(kid.key) if n.kind == 'o' else 'null'] + tok(kid))
            b.cmd('j next %s %s k' % (hx(d.text), p), *ev, ['J', 'next', str(len(n.kids))])
            ev = [['N', str(k) if n.kind == 'a' else '-1'] + tok(kid) for k, kid in enumerate(n.kids)]
            b.cmd('j next %s %s e' % (hx(d.text), p), *ev, ['J', 'next', str(len(n.kids))])
            if r.random() < .3:
                b.cmd('j next %s %s n' % (hx(d.text), p), *[['N', '-7']] * len(n.kids), ['J', 'next', str(len(n.kids))])
            if n.kind == 'a':
                for k in {0, len(n.kids), max(0, len(n.kids) - 1), 11}:
                    if k < len(n.kids): b.cmd('j elem %s %s %d' % (hx(d.text), p, k), ['J', 'elem', str(n.kids[k].len)] + tok(n.kids[k]))
                    else: b.cmd('j elem %s %s %d' % (hx(d.text), p, k), ['J', 'elem', '-1', '0', 'null'])
        miss = b'.nokey' if r.random() < .5 else b'[99]'
        b.cmd('j next %s %s %s' % (hx(d.text), hx(miss), r.choice('ke')), ['J', 'next', '0'])

    def printing(self, r, b):
        b.labels.add('print')
        fmt, out, args = [], [], []
        ni = nf = 0

        def val(d=0):
            nonlocal ni, nf
            z = r.choice(['d', 'u', 'lld', 'llu', 'zu', 's', '.*s', 'Q', 'Q', '.*Q', 'B', 'H', 'V', 'A', 'M', 'f', 'f', 'x', 'c', 'p', 'ld', 'n', 'w', 'g2'])
            need = {'.*s': 2, '.*Q': 2, 'H': 2, 'V': 2, 'A': 5, 'M': 3, 'f': 0, 'g2': 0, 'n': 0, 'w': 1}.get(z, 1)
            if ni + need > 12 or (z in ('f', 'g2') and nf >= 5): z, need = 'n', 0
            ni += need
            if z == 'd':
                v = r.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, r.randrange(-10 ** 6, 10 ** 6)])
                args.append('i%d' % v)
                return r.choice(['%d', '%i']), b'%d' % v
            if z == 'u':
                v = r.choice([0, 2 ** 32 - 1, r.randrange(2 ** 32)])
                args.append('i%d' % v)
                return '%u', b'%d' % v
            if z == 'x':
                v = r.choice([0, 255, 2 ** 32 - 1, r.randrange(2 ** 32)])
                args.append('i%d' % v)
                return r.choice([('%x', b'%x' % v), ('%X', b'%X' % v), ('%08x', b'%08x' % v), ('%o', b'%o' % v)])
            if z == 'c':
                v = r.choice(b'aZ0 ~')
                args.append('i%d' % v)
                return '%c', bytes([v])
            if z == 'p':
                v = r.getrandbits(r.randrange(1, 48)) | 1
                args.append('i%d' % v)
                return '%p', b'0x%x' % v
            if z == 'w':
                v = r.randrange(-1000, 1000)
                args.append('i%d' % v)
                return r.choice([('%5d', b'%5d' % v), ('%-6d', b'%-6d' % v), ('%05d', b'%05d' % v), ('%.4d', b'%.4d' % v)])
            if z in ('lld', 'ld'):
                v = r.choice([0, -1, 2 ** 63 - 1, -2 ** 63, r.randrange(-2 ** 40, 2 ** 40)])
                args.append('i%d' % v)
                return '%' + z, b'%d' % v
            if z in ('llu', 'zu'):
                v = r.choice([0, 2 ** 64 - 1, 2 ** 63, r.getrandbits(60)])
                args.append('i%d' % v)
                return '%' + z, b'%d' % v
            if z in ('s', '.*s'):
                s = rtext(r) * r.choice([1, 1, 3])
                s = s.replace('\0', 'x').encode()
                if z == 's':
                    args.append('z' + hx(s))
                    return '%s', s
                n = r.choice([0, 1, len(s), r.randrange(len(s) + 1)])
                args.extend(['i%d' % n, ('r' if n <= len(s) else 'z') + hx(s)])
                return '%.*s', s[:n]
            if z in ('Q', '.*Q'):
                s = rtext(r) * r.choice([1, 1, 3])
                if r.random() < .1:
                    if z == '.*Q': args.append('i5')
                    args.append('z0')
                    return '%' + z, b'null'
                if z == 'Q':
                    s = s.replace('\0', 'x')
                    args.append('z' + hx(s.encode()))
                    return '%Q', quote(s)
                n = r.randrange(len(s) + 1)
                if r.random() < .3: s = s[:1] + '\0' + s[1:]
                args.extend(['i%d' % len(s[:n].encode()), 'r' + hx(s.encode())])
                return '%.*Q', quote(s[:n])
            if z == 'B':
                v = r.choice([0, 1, 1, 2, -1, 256])
                args.append('i%d' % v)
                return '%B', b'true' if v else b'false'
            if z in 'HV':
                v = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 20])))
                if z == 'H':
                    args.extend(['i%d' % len(v), 'r' + hx(v)])
                    return '%H', b'"' + v.hex().encode() + b'"'
                args.extend(['r' + hx(v), 'i%d' % len(v)])
                return '%V', b'"' + base64.b64encode(v) + b'"'
            if z == 'A':
                n = r.randrange(5)
                k = r.choice('dlf')
                if k == 'f':
                    vs = [r.randrange(-100, 100) / 4 for _ in range(n)]
                    import struct
                    raw, f, e, o = b''.join(struct.pack('<d', x) for x in vs), b'%g', 8, [b'%g' % x for x in vs]
                else:
                    e = 4 if k == 'd' else 8
                    vs = [r.choice([0, -1, 7, 2 ** (8 * e - 1) - 1, -2 ** (8 * e - 1)]) for _ in range(n)]
                    raw, f, o = b''.join(x.to_bytes(e, 'little', signed=True) for x in vs), b'%d' if k == 'd' else b'%lld', [b'%d' % x for x in vs]
                args.extend(['A', 'r' + hx(raw), 'i%d' % len(raw), 'i%d' % e, 'z' + hx(f)])
                return '%M', b'[' + b', '.join(o) + b']'
            if z == 'M':
                x, y = r.randrange(-99, 99), r.randrange(1000)
                args.extend(['M', 'i%d' % x, 'i%d' % y])
                return '%M', b'{"x":%d,"y":%d}' % (x, y)
            if z == 'f':
                v = double(r)
                while math.isinf(v): v = double(r)
                f = r.choice(['%g', '%f', '%e', '%G', '%E', '%.3f', '%.17g', '%lf', '%10.2f', '%.0f'])
                args.append('f%r' % v)
                nf += 1
                return f, (f.replace('l', '').encode()) % v
            if z == 'g2':
                v = r.randrange(-1000, 1000) / 8
                args.append('f%r' % v)
                nf += 1
                return '%.2lf', b'%.2f' % v
            return r.choice([('5', b'5'), ('-1', b'-1'), ('"q r"', b'"q r"' if False else None)][:2])

        def item(d):
            z = r.random()
            if d > 0 and z < .25:
                f, o = [], []
                for _ in range(r.randrange(4)):
                    k = r.choice(KEYS + ['_u'])
                    a, c = item(d - 1)
                    f.append('%s:%s' % (k, a))
                    o.append(b'"%s":%s' % (k.encode(), c))
                s = r.choice([',', ', ', ' ,\n'])
                return '{' + s.join(f) + '}', b'{' + s.encode().join(o) + b'}'
            if d > 0 and z < .4:
                x = [item(d - 1) for _ in range(r.randrange(4))]
                return '[' + ','.join(a for a, _ in x) + ']', b'[' + b','.join(c for _, c in x) + b']'
            return val()
        f, o = item(3)
        if r.random() < .1: f, o = f + ' %%', o + b' %'
        a = ' '.join(args)
        for n in {0, 1, len(o), len(o) + 1, len(o) + 7, r.randrange(len(o) + 2)}:
            b.cmd('j print %s %d b %s' % (hx(f), n, a), ['J', 'print', str(len(o))] + ([hx(o[:n - 1].split(b'\0')[0])] if n else []))
        if b'\0' not in o:
            if o: b.cmd('j print %s 0 a %s' % (hx(f), a), ['J', 'print', hx(o)])
            b.cmd('j print %s 0 f %s' % (hx(f), a), ['J', 'print', str(len(o)), hx(o + b'\n')])

    def edit(self, r, b):
        b.labels.add('edit')
        d = Doc(r, root=r.choice('ooa'), depth=r.randrange(1, 5))
        for _ in range(4):
            z = r.random()
            nv = r.choice([(b'%d', b'7'), (b'{k:[%d]}', b'{"k":[7]}'), (b'%d', b'7'), (b'true', b'"true"'), (b'[]', b'[]')])
            t = d.text
            if z < .35:        # replace
                n = r.choice(d.nodes)
                out, ret, fm = t[:n.start] + nv[1] + t[n.stop:], '1', nv[0]
                p = n.pb
                b.labels.add('replace')
            elif z < .65:      # delete
                c = [n for n in d.nodes if n.pb]
                if not c: continue
                n = r.choice(c)
                par = next(x for x in d.nodes if n in x.kids)
                k = par.kids.index(n)
                p, ret, fm = n.pb, '1', None
                want = [x for x in par.kids if x is not n]
                b.labels.add('delete')
                # the document without that member, whatever the white space
                self.deleted(b, r, d, n, par, k, p)
                continue
            elif z < .8:       # add a key
                c = [n for n in d.nodes if n.kind == 'o']
                if not c: continue
                n = r.choice(c)
                have = {x.key for x in n.kids}
                free = [k.encode() for k in KEYS + ['ac', 'abcd', 'lon'] if k.encode() not in have]
                q = r.choice(free)
                p = n.pb + b'.' + q
                body = nv[1]
                for _ in range(r.choice([0, 0, 0, 1, 2])):
                    k2 = r.choice([b'.in', b'[]'])
                    p += k2
                # inside out
                comps = []
                rest = p[len(n.pb) + 1 + len(q):]
                while rest:
                    if rest.startswith(b'[]'): comps.append(None); rest = rest[2:]
                    else: comps.append(b'in'); rest = rest[3:]
                for k2 in reversed(comps): body = b'[' + body + b']' if k2 is None else b'{"in":' + body + b'}'
                new = b'"' + q + b'":' + body
                out, ret, fm = self.added(t, n, new), ANY, nv[0]
                b.labels.add('add')
            else:              # push
                c = [n for n in d.nodes if n.kind == 'a']
                if not c: continue
                n = r.choice(c)
                p, fm, ret = n.pb + b'[]', nv[0], ANY
                out = self.added(t, n, nv[1])
                b.labels.add('push')
            self.sized(b, r, t, p, fm, ret, out)
        # nothing there to delete
        p = r.choice([b'.nokey', b'.a.nokey', b'[77]'])
        b.cmd('j setf %s %d %s 0 7' % (hx(d.text), len(d.text) + 50, hx(p)), ['J', 'setf', '0', hx(d.text)])

    def added(self, t, n, new):
        """After the last member, or right behind the opening bracket."""
        if n.kids: return t[:n.kids[-1].stop] + b',' + new + t[n.kids[-1].stop:]
        return t[:n.start + 1] + new + t[n.start + 1:]

    def sized(self, b, r, t, p, fm, ret, out):
        for n in {len(out) + 1, r.choice([0, 1, len(out), r.randrange(len(out) + 2)])}:
            b.cmd('j setf %s %d %s %s 7' % (hx(t), n, hx(p), '0' if fm is None else hx(fm)), ['J', 'setf', ret] + ([hx(out[:n - 1])] if n else []))

    def deleted(self, b, r, d, n, par, k, p):
        t = d.text
        if k > 0: out = t[:par.kids[k - 1].stop] + t[n.stop:]
        else:
            e = n.stop
            while t[e:e + 1] in (b' ', b'\n', b'\t', b'\r'): e += 1
            e = e + 1 if t[e:e + 1] == b',' else n.stop
            out = t[:par.start + 1] + t[e:]
        self.sized(b, r, t, p, None, '1', out)

    def pretty(self, r, b):
        b.labels.add('pretty')
        d = Doc(r, anykey=False)

        def pr(n, lvl):
            if n.kind not in 'oa': return d.text[n.start:n.stop]
            o, c = (b'{', b'}') if n.kind == 'o' else (b'[', b']')
            if not n.kids: return o + c
            s = b',\n'.join(b'  ' * (lvl + 1) + (b'"' + k.key + b'": ' if n.kind == 'o' else b'') + pr(k, lvl + 1) for k in n.kids)
            return o + b'\n' + s + b'\n' + b'  ' * lvl + c
        o = pr(d.root, 0)
        for n in {0, 1, len(o), len(o) + 1, r.randrange(len(o) + 2)}:
            b.cmd('j pretty %s %d' % (hx(d.text), n), ['J', 'pretty', str(d.end)] + ([hx(o[:n - 1])] if n else []))
        if d.text: b.cmd('j prettyfile ' + hx(d.text), ['J', 'prettyfile', str(d.end), hx(o + b'\n'), '1'])
        bad = d.text[:d.end - 1] if d.root.kind in 'oas' else b'@'
        b.cmd('j prettyfile ' + hx(bad), ['J', 'prettyfile', ('in', {'-1', '-2'}), hx(bad), '1'])


check = C()
