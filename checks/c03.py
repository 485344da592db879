"""Garbage is reclaimed, memory stays bounded, nothing outlives the engine."""
from runner import Check
from kit import Builder, ANY
import kit, gen
from gen import ident, call, emit, lit
from c05 import Flow, nlit
from c05 import check as c05
from c06 import check as c06
from c07 import check as c07
from c08 import check as c08
from c09 import check as c09
from c10 import check as c10
from drv import hx

# loop bodies which leave nothing behind; (source, calls failing functions)
BODIES = [
    "let o = {a: i, b: {c: [i, i + 1]}}; o.b.d = o;",
    "let a = []; a.push(i); a.push('long string ' + chr(65 + i % 26)); a.splice(0, 1); a[5] = {x: a};",
    "let s = 'abcdefgh' + chr(65 + i % 26); s = s + s; s = s.slice(1, 9); keep.s = s;",
    "keep.j = JSON.stringify({n: i, l: [1, 2, {k: 'some text'}]});",
    "keep.p = JSON.parse('{\"a\": [1, 2, {\"b\": \"a longer string\"}], \"c\": {\"d\": null}}');",
    "ctry(function() { let q = {a: 1}; undefd_var; }, null);",
    "ctry(function(x) { let l = [x, {y: x}]; for (let k in l) { while (true) { x.a.b.c = l; } } }, null, {z: i});",
    "ctry(function() { die('long message ' + chr(65 + i % 26)); }, null);",
    "ctry(function() { return JSON.parse('[1, {\"a\": [2, {\"b\": \"some string\", !'); }, null);",
    "ctry(function() { return JSON.parse('{\"k\": \"a key of some length\", \"l\": [1, 2'); }, null);",
    "ctry(function() { return ffi('int no_such_function(int)'); }, null);",
    "ctry(function() { return ffi('bad signature ' + chr(65 + i % 26)); }, null);",
    "ctry(function() { return ffi('int zzero(void (*)(userdata, long), userdata)'); }, null);",
    "ctry(function() { return ffi('int zzero(void (*)(int, userdata, userdata), userdata)'); }, null);",
    "ctry(function() { return ffi('int zzero(void (*)(userdata, char *), userdata, bogus)'); }, null);",
    "ctry(function() { return ffi('int zzero(void (*)(userdata), void (*)(userdata), userdata)'); }, null);",
    "ctry(function() { return ffi('int no_such_function(void (*)(userdata), userdata)'); }, null);",
    "ctry(function() { return ffi('int zzero(void (*)(userdata))'); }, null);",
    "ctry(function() { return ffi('int zzero(int, int, int, int, int, int, int, int)'); }, null);",
    "ctry(function() { let z = ffi('int zzero(int)'); z({}); }, null);",
    "ctry(function() { load('no_such_file.js'); }, null);",
    "ctry(function() { return JSON.stringify({a: [i, {b: 'text', f: JSON.parse}], c: gc_}); }, null);",
    "keep.q = JSON.stringify([[], {}, '', {a: [], b: {}, c: [[]]}]) + chr(65 + i % 26);",
    "ctry(function() { return s2o(null, null); }, null);",
    "ctry(function() { Object.create(i); }, null);",
    "keep.l = []; for (let k = 0; k < 5; k++) { keep.l.push({k: k, s: 'pushed ' + chr(65 + k)}); } keep.l = keep.l.splice(1, 3);",
    "let cc = [0, 'sss sss sss']; for (let q in cc) { for (let w in {zz: q}) { if (q === '1') break; keep.f = w + q + 'xxxxxx'; } }",
    "keep.t = ctry(function() { for (let k in [1, 2, 3]) { for (;;) { return {k: k, r: [k]}; } } }, null);",
    "ctry(function() { let s = 'string number '; s.slice('x' + s); }, null);",
    "ctry(function() { [1, 2].splice('a', {b: 'c'}); }, null);",
    "let f = function(a, b) { return {a: a, b: [b, arguments_(a)]}; }; keep.f = f(i, {z: i});",
    "let p = Object.create({proto: i}); p.own = {x: p}; keep.c = p;",
    "for (let k in {aa: 1, bb: {c: 2}, cccccccc: 3}) { keep.k = k + 'suffix of it'; if (k === 'bb') break; }",
    "let z = ffi('int zzero()'); keep.z = z() + i;",
    "keep.m = capply(function(x) { return [this, x, {y: 'text of it'}]; }, {t: i}, 'argument ' + chr(65 + i % 26));",
    "keep.a = (function(n) { if (n === 0) return {e: 'end of it'}; return rec(n - 1, [n]); }).apply(null, [3]);",
    "switch_ = i % 2 ? 'some string' + chr(65) : {o: i}; if (i % 3 === 0) continue; keep.w = switch_;",
    "let e = [i, 'elements of it', {a: [i]}]; e.length; delete_(e); keep.e = e[1] + e[2].a[0 + 0].length_;",
    "if (i % 7 === 3) { ctry(function() { return [1, 2, {a: undefd_var}]; }, null); }",
    "fstr_ = 'x' + chr(65 + i % 26) + 'yyyyyy'; keep[fstr_.slice(0, 2)] = fstr_;",
    "keep.g = gc_(i); let h = function() { return this; }; keep.h = h.apply({t: [i]}, [i]);",
]
PRE = ("let keep = {}; let switch_ = 0; let fstr_ = ''; function arguments_(a) { return [a, 'arg string']; } function rec(n, a) { if (n <= 0) return a; return rec(n - 1, [a, {n: n}]); }"
       "function delete_(e) { e.splice(1, 0, {x: 1}); e.splice(1, 1); } function gc_(i) { return i; }")


class C(Check):
    id = 'C03'
    quick, thorough = 12000, 300000
    hang_s = 60
    rule = ('Random scripts and the histories of the property, array, string, JSON, control-flow and failure checks end with a full collection: the numbers of live '
            'objects, properties and signatures and the size of the string heap must be those reachable in the reference model, and destroying the '
            'engine must leave no allocated byte. Loops of thousands of iterations (allocating, failing half-way inside natives, '
            'JSON, callbacks, foreign functions, files) must not grow live cells, string heap, stacks or allocated bytes beyond a small multiple of one '
            'iteration, at any sampled step; repeated failing host calls must not either. Non-trivial: a heap was compared or a loop measured.')

    def finish(self, b):
        b.run([('expr', [('un', 'typeof', ('dot', ('id', b'JSON'), b'parse'))])])
        b.cmd('fullgc')
        b.snap('heap', heap=True)

    def gen(self, r, i, tier):
        k = i % 12
        if k == 11: return self.loops(r)
        if k == 10: return self.host_loops(r)
        Builder.final = self.finish
        try:
            if k in (0, 1, 2):
                b = Builder(r)
                g = gen.Gen(r, r.choice([0, 0.05]))
                b.m.budget = 20000
                for _ in range(r.choice([1, 2, 3])):
                    b.run(g.script(r.randrange(2, 12)), 0)
                return b.case()
            return (c05, c06, c07, c08, c09, c10, c06)[k - 3].gen(r, r.randrange(1 << 20), tier)
        finally:
            Builder.final = None

    def loops(self, r):
        b = Builder(r)
        ok = ['R', 'exec', '0', hx(b'NO_ERROR'), ANY, ANY]
        b.cmd('ffiquiet')
        b.raw((PRE + '1;').encode(), ok)
        ks = [r.randrange(len(BODIES)) for _ in range(r.choice([1, 1, 2, 3]))]
        body = ' '.join(['{ %s }' % BODIES[q] for q in ks])
        for q in ks: b.labels.add('body %d' % q)
        z = r.random()
        if z < .7: loop = 'for (let i = 0; i < n; i++) { %s }'
        elif z < .85: loop = 'let i = -1; while (i < n - 1) { i++; %s }'
        else: loop = 'let body = function(i) { for (let once in [1]) { %s } }; for (let i = 0; i < n; i++) { body(i); }'
        n = r.choice([300, 1000, 2500])
        if r.random() < .3: b.cmd('gc %d %d %d' % (r.choice([2, 3]), r.choice([7, 100]), r.randrange(1 << 30)))
        src = '(function(n) { %s return true; })(%d)'
        few, many = [(src % (loop % body, c)).encode() for c in (30, n)]
        b.src += [few]
        for s in (few, few, many):
            b.lines.append('fullgc')
            b.lines.append('track')
            b.lines.append('execq ' + hx(s))
            b.cmd('peak')
        b.cmd('fullgc')
        b.cmd('mem')
        c = b.case()
        c.meta['loop'] = n
        return c

    def host_loops(self, r):
        b = Builder(r)
        ok = ['R', 'exec', '0', hx(b'NO_ERROR'), ANY, ANY]
        b.cmd('ffiquiet')
        b.raw((PRE + '1;').encode(), ok)
        ks = [r.randrange(len(BODIES)) for _ in range(r.choice([1, 1, 2, 3]))]
        body = ' '.join(['{ %s }' % BODIES[q].replace('ctry(', r.choice(['ctry(', 'capply('])) for q in ks])
        for q in ks: b.labels.add('host body %d' % q)
        fn = 'let hostf = function(i) { for (let once in [1]) { %s } return {r: [i, "a result string"]}; }; hostf' % body
        b.lines.append('execr r1 ' + hx(fn.encode()))
        b.src.append(fn.encode())
        b.cmd('own r1')
        for rnd in range(3):
            for q in range(20 if rnd < 2 else 60):
                b.lines.append('val r2 d%s' % '4008000000000000')
                b.lines.append('apply r3 r1 r4 r2')
            b.lines.append('val r3 u')
            b.lines.append('execr r5 ' + hx(b'1') if rnd == 9 else 'fullgc')
            b.lines.append('fullgc')
            b.lines.append('mem')
        c = b.case()
        c.meta['host'] = 1
        return c

    def nontrivial(self, c):
        return len(c.events) > 1

    def verify(self, c):
        if 'loop' not in c.meta and 'host' not in c.meta: return kit.verify(c)
        if c.crash: return 'crash: %s in %s' % (c.crash[0], '/'.join(c.crash[1]))
        if c.leak: return '%d bytes still allocated after the engine was destroyed' % c.leak
        if 'host' in c.meta:
            m = [int(e[1]) for e in c.events if e[0] == 'M']
            if len(m) != 3: return 'missing measurements'
            if m[2] - m[1] > 3000: return 'memory after 20, 40 and 100 equal host calls and a collection: %d, %d, %d bytes' % tuple(m)
            return None
        pk = [tuple(int(x) for x in e[1:5]) for e in c.events if e[0] == 'PK']
        if len(pk) != 3: return 'missing measurements'
        for k, what, slack in ((0, 'live cells', 400), (1, 'bytes of strings', 8000), (2, 'stacked values', 200), (3, 'allocated bytes', 60000)):
            base = max(pk[0][k], pk[1][k])
            if pk[2][k] > 3 * base + slack:
                return 'a loop of 30 iterations needs up to %d %s, one of %d iterations %d' % (base, what, c.meta['loop'], pk[2][k])
        return None


check = C()
