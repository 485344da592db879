"""The utility library: buffers, integer coding, formatting, string views, files."""
from runner import Check
from kit import Builder
from drv import hx
from model import Unspecified


def rbytes(r, n, alpha=None):
    if alpha: return bytes(r.choice(alpha) for _ in range(n))
    return bytes(r.randrange(256) for _ in range(n))


def word(r, nul=True, hi=True):
    z = r.random()
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 8, 13, 40]) if z < .9 else r.randrange(200)
    a = b'abABcC zZ@[`{09-_./'
    if hi: a += b'\x7f\x80\xc4\xe4\xff'
    if nul: a += b'\0'
    return rbytes(r, n, a)


def near(r, w, nul=True):
    """A string similar to w."""
    w = bytearray(w)
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        z = r.random()
        if z < .3 and w: del w[r.randrange(len(w))]
        elif z < .5: w.append(r.choice(b'aA\x80 '))
        elif z < .8 and w:
            i = r.randrange(len(w))
            w[i] = r.choice([w[i] ^ 32, w[i] ^ 128, w[i] ^ 1, 0 if nul else 97, 255])
        else: w = w[:r.randrange(len(w) + 1)]
    if not nul: w = bytearray(w.replace(b'\0', b'x'))
    return bytes(w)


def low(b): return bytes(c + 32 if 65 <= c <= 90 else c for c in b)


def cmp(a, b): return str((a > b) - (a < b))


SPACE = b' \t\n\v\f\r'


def u64(r):
    z = r.random()
    if z < .3: return r.randrange(300)
    if z < .7: return max(0, min(2 ** 64 - 1, (1 << r.randrange(65)) + r.randrange(-2, 3)))
    return r.getrandbits(r.randrange(1, 65))


def vint(v):
    o = bytearray()
    while True:
        c, v = v & 127, v >> 7
        if not v:
            o.append(c)
            return bytes(o)
        o.append(c | 128)


# ---- formats
def fmt(r):
    f, out, args = b'', b'', []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        t = rbytes(r, r.choice([0, 0, 1, 3]), b'ab:,. 0\xe4')
        f += t
        out += t
        if len(args) > 5: break
        k = r.choice(['s', 's', '.s', '.*s', 'c', 'd', 'ld', 'lld', 'zd', 'u', 'lu', 'zu', 'x', 'lx', 'zx', 'p'])
        if k[-1] == 's':
            s = word(r, nul=False)
            w = r.choice([0, 0, 0, 1, 5, 12, 60])
            f += b'%'
            if w:
                if r.random() < .4:
                    f += b'*'
                    args.append(str(w))
                else: f += b'%d' % w
            if k == 's':
                f += b's'
                args.append('z' + hx(s))
            else:
                p = r.choice([1, 2, 5, len(s) or 1, len(s) + 3])
                if r.random() < .5: f += b'.%ds' % p
                else:
                    f += b'.*s'
                    args.append(str(p))
                # need not be terminated when the precision bounds it
                args.append(('s' if p <= len(s) else 'z') + hx(s))
                s = s[:p]
            out += b' ' * (w - len(s)) + s
        elif k == 'c':
            c = r.choice(b'aZ\x80\xff0 ')
            f += b'%c'
            args.append(str(c))
            out += bytes([c])
        elif k == 'p':
            v = u64(r)
            f += b'%p'
            args.append(str(v))
            out += b'0x%x' % v
        else:
            bits = 32 if len(k) == 1 else 64
            v = u64(r) % (1 << bits)
            if r.random() < .2: v = r.choice([0, 1, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1])
            w = r.choice([0, 0, 0, 1, 2, 4, 8, 12, 20, 30])
            f += b'%'
            dyn = False
            if w: f += b'0%d' % w
            f += k.encode()
            if k[-1] == 'd':
                if v >> (bits - 1): v -= 1 << bits
                args.append(str(v))
                d = b'%d' % abs(v)
                s = b'-' if v < 0 else b''
                out += s + d.rjust(w - len(s), b'0')
            else:
                args.append(str(v))
                out += (b'%x' % v if k[-1] == 'x' else b'%d' % v).rjust(w, b'0')
    return f, args, out


# ---- glob
def glob(p, s):
    """Length of the matched prefix by the documentation, None: no match."""
    for alt in p.replace(b'|', b',').split(b','):
        m = glob1(alt, s)
        if m: return m
    return 0


def glob1(p, s):
    """Greedy; None if nothing matches."""
    if not p: return 0
    if p == b'$': return 0 if not s else None
    if p[:2] == b'**': n, q = len(s), p[2:]
    elif p[:1] == b'*':
        n, q = 0, p[1:]
        while n < len(s) and s[n:n + 1] != b'/': n += 1
    else:
        if not s: return None
        if p[:1] == b'?':
            if s[:1] == b'/': return None
        elif low(p[:1]) != low(s[:1]): return None
        m = glob1(p[1:], s[1:])
        return None if m is None else 1 + m
    for k in range(n, -1, -1):
        m = glob1(q, s[k:])
        if m == 0 and q not in (b'', b'$'):
            # an empty match of the rest: what "matched" means is open
            raise Unspecified('empty glob match')
        if m is not None: return k + m
    return None


class C(Check):
    id = 'C18'
    quick, thorough = 30000, 400000
    block = 250
    configs = ['drv_util']
    rule = ('Random operation sequences on growable buffers; encoding and decoding of integers at all bit lengths and buffer sizes; formatting into '
            'exactly allocated buffers of every size; comparison, search, copy, trim, list and glob helpers on exactly allocated, unterminated strings '
            'over a small alphabet with case, NUL and bytes above 127; whole-file reads. Every result is compared with byte-level references under '
            'AddressSanitizer and UBSan. Non-trivial: at least two events were compared.')
    assumptions = ['memory allocation fails only for absurd sizes', 'x86-64 calling convention for variadic test calls']

    def gen(self, r, i, tier):
        b = Builder(r)

        def u(line, *exp): b.cmd('u ' + line, ['U', line.split()[0]] + [str(e) for e in exp])
        k = i % 8
        if k in (0, 1): self.buffers(r, b, u)
        elif k == 2:
            b.labels.add('varint')
            for _ in range(15):
                v = u64(r)
                e = vint(v)
                z = r.choice([0, 1, len(e) - 1, len(e), len(e), len(e) + 1, 10, 12])
                e2 = e[:z]
                u('vi %d %d' % (v, z), len(e), len(e), hx(e2), *((v, len(e)) if z >= len(e) else ('short',)), v, len(e))
                t = rbytes(r, r.randrange(4))
                u('vd ' + hx(e + t), v, len(e))
                j = r.randrange(len(e))
                u('vd ' + hx(e[:j]), 'short')
        elif k == 3:
            b.labels.add('format')
            for _ in range(12):
                f, a, o = fmt(r)
                for z in {0, 1, r.randrange(0, len(o) + 2), len(o), len(o) + 1, len(o) + 9}:
                    u('fmt %d %s %s' % (z, hx(f), ' '.join(a)), len(o), *([hx(o[:z - 1])] if z else []))
            s, v = word(r, nul=False), r.randrange(-99999, 99999)
            o = b'<%s|%d>' % (s, v)
            for z in (0, 1, len(o), len(o) + 1, len(o) + 2):
                u('afmt %d %s %d' % (z, hx(s), v), len(o), int(z > len(o)), hx(o))
        elif k == 4:
            b.labels.add('compare')
            for _ in range(12):
                x = word(r)
                y = near(r, x) if r.random() < .8 else word(r)
                n = r.choice([0, 1, len(x), len(y), max(0, len(x) - 1), len(x) + 5])
                u('cmp %s %s %d' % (hx(x), hx(y), n), cmp(x, y), cmp(x[:n], y[:n]), cmp(low(x), low(y)), int(x.startswith(y)))
                y = near(r, x, nul=False) if r.random() < .8 else word(r, nul=False)
                x = x.replace(b'\0', b'n')
                u('zcmp %s %s %d' % (hx(x), hx(y), n), cmp(x, y), cmp(low(x), low(y)), cmp(low(x), low(y)),
                  cmp(low(x)[:n], low(y)[:n]), min(len(y), n), len(y), 1)
        elif k == 5:
            b.labels.add('search')
            for _ in range(12):
                x = word(r) if r.random() < .5 else rbytes(r, r.randrange(30), b'ab')
                if r.random() < .4: x = rbytes(r, r.randrange(4), SPACE) + x + rbytes(r, r.randrange(4), SPACE)
                if x and r.random() < .7:
                    j = r.randrange(len(x))
                    y = near(r, x[j:j + r.randrange(1, 5)], nul=False) or b'a'
                else: y = word(r, nul=False) or b'ab'
                c = r.choice(list(x) or [97]) if r.random() < .8 else r.randrange(256)
                if r.random() < .3 and c > 127: ca = c - 256
                else: ca = c
                f = x.find(y)
                t = x.lstrip(SPACE)
                t2 = t.rstrip(SPACE)
                u('find %s %s %d' % (hx(x), hx(y), ca), 'null' if f < 0 else f, 'null' if bytes([c]) not in x else x.index(c),
                  'null' if f < 0 else f, len(x) - len(t), len(t2))
                u('dup ' + hx(x), 1 if x else '-', hx(x), hx(x + b'\0') if x else '-', 1)
                u('hex %s %s' % (hx(x), r.choice('ul')), hx(x.hex()), hx(x + b'\0'))
        elif k == 6:
            b.labels.add('list, glob')
            for _ in range(8):
                l = rbytes(r, r.randrange(20), b'ab=,,c\x80')
                e = []
                it = l.split(b',')
                if it[-1] == b'': it.pop()
                kind = r.choice('zne')
                for w in it:
                    v, q, x = w.partition(b'=')
                    e += [hx(v), hx(x)] if kind != 'e' else [hx(w), '-']
                u('list %s %s' % (hx(l), kind), *e)
            for _ in range(12):
                p = rbytes(r, r.randrange(8), b'aabB/**??|,$c' if r.random() < .5 else b'aab/*?')
                s = rbytes(r, r.randrange(10), b'aAbB/c')
                if r.random() < .4:
                    s = b''.join(bytes([c]) if c not in b'*?|,$' else rbytes(r, r.randrange(3), b'ab/') for c in p) + rbytes(r, r.randrange(3), b'ab/')
                if b'*$' in p or b'$' in p[:-1].replace(b'$|', b'').replace(b'$,', b''): continue
                try: n = glob(p, s)
                except Unspecified: continue
                u('glob %s %s' % (hx(p), hx(s)), n, n)
        else:
            b.labels.add('files')
            for _ in range(4):
                nm = b'f%d.bin' % r.randrange(3)
                d = rbytes(r, r.choice([0, 1, 2, 100, 4095, 4096, 4097, 10000]), r.choice([None, b'a\0\n\r\x1a\xff']))
                b.cmd('file %s %s' % (hx(nm), hx(d)))
                u('read ' + hx(nm), 1, hx(d))
                b.cmd('unlink ' + hx(nm))
                u('read ' + hx(nm), 'null')
                if r.random() < .3: u('read ' + hx(b'no/such/file'), 'null')
        return b.case()

    def buffers(self, r, b, u):
        b.labels.add('buffers')
        m = [b''] * 4
        big = r.random() < .1
        for _ in range(r.randrange(5, 40)):
            k = r.randrange(4)
            x = m[k]
            z = r.random()
            n = r.choice([0, 1, 2, 3, 7, 16, 33]) if not big else r.choice([1, 500, 8190, 8192, 8193, 16000])
            d = rbytes(r, min(n, 5000)) if n < 100 else bytes([r.randrange(256)]) * n
            if z < .25:
                off = r.choice([0, len(x), r.randrange(len(x) + 1)])
                x = x[:off] + d + x[off:]
                u('mbins %d %d %s' % (k, off, hx(d)), len(d), len(x), 1, hx(x))
            elif z < .4:
                x += d
                u('mbapp %d %s' % (k, hx(d)), len(d), len(x), 1, hx(x))
            elif z < .5:
                off = r.randrange(len(x) + 1)
                x = x[:off] + b'g' * n + x[off:]
                u('mbgap %d %d %d' % (k, off, n), n, len(x), 1, hx(x))
            elif z < .65:
                n = r.choice([0, 1, len(x), r.randrange(len(x) + 1), max(0, len(x) - 1)])
                x = x[n:] if n <= len(x) else x
                u('mbrem %d %d' % (k, n), len(x), 1, hx(x))
            elif z < .75:
                n = r.choice([0, len(x), max(0, len(x) - 1), len(x) + 1, len(x) * 2, r.randrange(50)])
                u('mbsize %d %d' % (k, n), 1, len(x), 1, hx(x))
            elif z < .8: u('mbtrim %d' % k, 1, len(x), 1, hx(x))
            elif z < .83:
                x = b''
                u('mbclear %d' % k, 1, 0, 1, '-')
            elif z < .88:
                x += d
                u('mbtake %d %s' % (k, hx(d)), len(d), len(x), 1, hx(x))
            elif z < .92:
                j = r.choice([q for q in range(4) if q != k])
                m[j] = x
                u('mbmove %d %d' % (k, j), len(x), 1, hx(x), 0, 1, '-')
                x = b''
            elif z < .95:
                x = b''
                u('mbfree %d' % k, 1, 0, 1, '-')
            elif z < .97:
                x = b''
                u('mbinit %d %d' % (k, r.choice([0, 0, 1, 10, 9000])), 0, 1, '-')
            else:
                u('mbhuge %d %d' % (k, r.choice([40, 45, 62])), 0, len(x), 1, hx(x))
            m[k] = x


check = C()
