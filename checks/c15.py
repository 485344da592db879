"""Error locations: stack traces, call frame queries, syntax error lines."""
from runner import Check
from kit import Builder, ANY, REST
from drv import hx


class Unit:
    """One script or file, as lines of text; call lines are remembered."""

    def __init__(self, name, r):
        self.name, self.r, self.l, self.n = name, r, [], 1
        self.eol = '\r\n' if r.random() < .08 else '\n'

    def add(self, s):
        """Returns the line the text starts on."""
        at = self.n
        self.l.append(s)
        self.n += s.count('\n') + 1
        return at

    def text(self): return self.eol.join('\n'.join(self.l).split('\n')).encode('latin-1')

    def filler(self, big=0.02):
        r = self.r
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            z = r.random()
            k = r.randrange(1 << 20)
            if z < .2: self.add('\n' * r.choice([0, 1, 2, 5, 30]))
            elif z < .3: self.add('// comment ' + r.choice(['', '{', '"', '*/', '/*', 'f(']))
            elif z < .4: self.add('/*' + ''.join(r.choice(['\n', '\n', ' multi', '*', '/', ' // * line', '**', '/*', ' ']) for _ in range(r.randrange(7))).replace('*/', '*\n') + '*/')
            elif z < .5: self.add('emit0(%d);' % k)
            elif z < .6: self.add('let q%d = [%s];' % (k, ',\n'.join(str(i) for i in range(r.choice([1, 3, 30])))))
            elif z < .68: self.add('if (0) {' + self.blob() + '}')
            elif z < .76: self.add('if (1) {' + self.blob() + '}' + r.choice(['', ' else {\n' + self.blob() + '}']))
            elif z < .82: self.add('for (let z = 0; z < 1; z++) {' + self.blob() + '}')
            elif z < .88: self.add('let u%d = function(a, b) {' % k + self.blob() + '};')
            elif z < .90: self.add('let s%d = "%s";' % (k, 'x' * r.choice([1, 120, 130, 300])))
            elif z < .93:
                q = r.choice('\'"')
                self.add('let s%d = %s%s%s;' % (k, q, ''.join(r.choice(['\n', '\n', 'x', '\\\n', '\\n', '//', '/*', '\\\\', '\\' + q, 'abcdef']) for _ in range(r.randrange(9))), q))
            elif z < .97: self.add('emit0("a" + "b"); emit0(1); let w%d = 1;' % k)
            else: self.add('let o%d = {a: 1,\nb: {c: [1, 2]},\n\nd: "x"};' % k)
        if r.random() < big:
            z = r.random()
            if z < .4: self.add('\n' * r.choice([100, 130, 300, 16390]))
            elif z < .8: self.add('if (0) {\n' + 'let a = 12345;\n' * r.choice([20, 900, 2200]) + '}')
            else: self.add('let f%d = function() {' % r.randrange(1 << 20) + 'return 1; let a = "abcdef";\n' * r.choice([10, 1000]) + '};')

    def blob(self):
        r = self.r
        return ''.join(r.choice(['emit0(1);', '\n', 'let a = 1;', 'emit0("abc", 2, [3]);', '\n\n', ' 1 + 2; ']) for _ in
                       range(r.choice([0, 1, 3, 8, 40])))


OPEN = [('{', '}'), ('if (1) {', '}'), ('for (let i%d = 0; i%d < 1; i%d++) {', '}'), ('for (let k%d in {a: 1}) {', '}'),
        ('if (0) { emit0(1); } else {', '}'), ('while (1) {', 'break; }'), ('if (1) { emit0(2);\n', '}\nemit0(3);')]
# a statement which fails, on one line
FAIL = ['undef;', 'return undef;', 'let z = undef;', '1 + "a";', 'die("m");', 'emit0(1, 2, undef);', 'if (undef) { emit0(1); }',
        'emit0([1, undef, 3]);', 'let p = {a: undef};', 'undef = 4;', '(5)();', 'null.x;', 'cerr(3);', 'while (undef) { }',
        'let y = 1 ? undef : 2;', 'emit0(1)(2);', 'undefinedfn(1, 2, 3);', 'emit0("" + 1 - {});', 'chr(65).at();', '[1].splice();',
        'JSON.parse("{");', 'Object.create(1);', 'let h = ffi("bad");', 'load("no/such/file");', 'for (let i = undef; i < 2; i++) { }',
        'mkstr(1);', 'return 1 == 1;', 'emit0(undef + 1);']
# how a call is written, on one line
CALL = ['%s;', '%s;', 'let a%d = %s;', 'return %s;', 'emit0(1, %s);', 'emit0([1, %s, 3]);', 'if (%s) { emit0(1); }',
        'let b%d = {k: %s};', 'let c%d = 1 ? %s : 2;', 'emit0(0 || %s);', 'while (%s) { break; }',
        'for (let i = %s; i < 2; i++) { break; }', 'emit0(1); %s; emit0(2);', 'global.g = %s;', 'let d%d = 1, e%d = %s;',
        '[1].push(%s);', 'emit0(!%s);', 'for (let k%d in [%s]) { }', 'let m%d = function(){}; %s;']
VIA = ['{f}({a})', '{f}({a})', '{f}({a})', '{f}.apply(null, [{a}])', 'capply({f}, null, {a})', '{f}({f2}({a}))', 'o.{f}({a})']


class C(Check):
    id = 'C15'
    quick, thorough = 24000, 250000
    configs = ['drv', 'drv', 'drv', 'drv_off0', 'drv_off4', 'drv_32']
    rule = ('Generated scripts and loaded files whose layout is known (blank lines, comments, multi-line expressions, skipped and '
            'executed blocks, up to tens of thousands of lines and bytes of code between the parts, CRLF) contain a chain of calls (direct, apply, from native code, load) ending '
            'in one failing statement or a call-frame query. The reported trace must be exactly the files and lines of the '
            'failing statement and of all active calls, innermost first; a syntax error must name the line of the offending token and carry no trace. '
            'Non-trivial: a trace or a frame list with at least one entry was compared.')

    def nontrivial(self, c): return c.meta['frames'] > 0

    def put_call(self, u, body, r):
        z = r.choice(CALL)
        if '%d' in z:
            k = r.randrange(1 << 20)
            z = z.replace('%d', str(k))
        return z % body

    def nest(self, u, r, d, stmt):
        """A statement inside d nested constructs; returns its line."""
        if d == 0:
            u.filler()
            at = u.add(stmt)
            return at
        o, c = r.choice(OPEN)
        o = o.replace('%d', str(r.randrange(1 << 16)))
        u.add(o)
        at = self.nest(u, r, d - 1, stmt)
        u.filler()
        u.add(c)
        return at

    def gen(self, r, i, tier):
        b = Builder(r)
        uid = '%08x' % r.randrange(1 << 32)
        units = [Unit('<stdin>', r)]
        for k in range(r.choice([0, 0, 1, 1, 2])): units.append(Unit(uid + '%d.js' % k, r))
        b.raw(b'let emit0 = function() { return 1; }; let o = {}; let id = function(x) { return x; };', ['R', REST])
        for k in range(r.randrange(3)):           # earlier scripts
            b.raw(b'let early%d = 1;\n' % k * r.choice([1, 50]), ['R', 'exec', '0', REST])
        if r.random() < .3: b.raw(b'\n\nnosuch0;', ['R', 'exec', '2', ANY, 'u', hx(b'  at <stdin>:3\n')])
        query = r.random() < .25
        depth = r.choice([0, 1, 2, 2, 3, 5])
        fail = 'where();' if query else r.choice(FAIL)
        if query: fail = self.put_call(None, 'where()', r)
        frames = []                     # (unit name, line), innermost first
        cur = fail
        for k in range(depth):
            u = r.choice(units)
            u.filler()
            name = 'fn%d' % k
            style = r.random()
            u.add(('let %s = function(a) {' if style < .7 else 'function %s(a) {' if style < .85 else 'let %s =\nfunction (a)\n{') % name +
                  r.choice(['', ' ', '\n', ' emit0(0); ']))
            at = self.nest(u, r, r.choice([0, 0, 1, 1, 2, 3]), cur)
            u.filler()
            u.add('emit0(4); };' if style < .7 or style >= .85 else '}')
            u.add('o.%s = %s;' % (name, name))
            frames.append((u.name, at))
            via = r.choice(VIA).format(f=name, a=r.choice(['1', '"x"', 'null', '{a: 1}', '']), f2='id')
            cur = self.put_call(u, via, r)
        host = depth and r.random() < .2
        # the outermost call: in the main script, or at the top level of a file
        files = units[1:]
        main = units[0]
        toplevel = files and not host and r.random() < .3 and 'return' not in cur
        last = files[-1] if toplevel else None
        loads = []
        body = Unit('<stdin>', r)
        if toplevel:
            at = self.nest(last, r, r.choice([0, 0, 1, 2]), cur)
            last.filler()
            frames.append((last.name, at))
        # functions must be defined before they are used: load files first
        for f in files:
            b.cmd('file %s %s' % (hx(f.name.encode()), hx(f.text())))
            b.src.append(f.text())
        defs = main
        defs.filler()
        for f in files:
            if f is last: continue
            defs.add('load("%s");' % f.name)
            defs.filler()
        if toplevel:
            at = self.nest(defs, r, r.choice([0, 0, 1, 2]), self.put_call(defs, 'load("%s")' % last.name, r).replace('return ', ''))
            frames.append((defs.name, at))
        elif not host:
            at = self.nest(defs, r, r.choice([0, 0, 1, 2]), cur.replace('return ', ''))
            frames.append((defs.name, at))
        defs.filler()
        if r.random() < .3: defs.add('emit0(1)')
        if host: defs.add('fn%d;' % (depth - 1))
        src = defs.text()
        b.src.append(src)
        asfile = r.random() < .2
        trace = b''.join(b'  at %s:%d\n' % (n.encode(), l) for n, l in frames)
        if asfile and not host:
            nm = uid + 'main.js'
            b.cmd('file %s %s' % (hx(nm.encode()), hx(src)))
            frames = [(nm if n == '<stdin>' else n, l) for n, l in frames]
            trace = b''.join(b'  at %s:%d\n' % (n.encode(), l) for n, l in frames)
            b.cmd('execfile ' + hx(nm.encode()))
        elif host: b.cmd('execr r1 ' + hx(src), ['R', 'exec', '0', REST])
        else: b.cmd('exec ' + hx(src))
        if host: b.cmd('val r2 n').cmd('apply r3 r1 r2 r2')
        if query:
            b.exp.append(['W'] + ['%s:%d' % (hx(n.encode()), l) for n, l in frames])
            b.exp.append(['R', 'apply' if host else 'exec', '0', REST])
        else:
            b.exp.append(['R', 'apply' if host else 'exec', ('in', [str(x) for x in range(1, 9)]), ANY, 'u', hx(trace)])
        # a syntax error afterwards
        if r.random() < .4:
            u = Unit('<stdin>', r)
            u.filler()
            d = r.randrange(3)
            op = [r.choice(OPEN) for _ in range(d)]
            for o, c in op: u.add(o.replace('%d', '1'))
            u.filler()
            if r.random() < .4:
                u.add('let f = function() {')
                u.filler()
            at = u.add(r.choice([')', '@;', 'let 5;', '];', 'emit0(1,,2);', '({a 1});', 'if ) {', '? 1 : 2;', '#']))
            u.filler()
            for o, c in op: u.add(c)
            b.raw(u.text(), ['R', 'exec', '1', ('re', r'parse error at line %d: .*' % at), 'u', '-'])
            b.labels.add('syntax')
        b.snap('end')
        b.labels |= {'depth %d' % depth, 'files %d' % len(files)} | ({'host'} if host else set()) | ({'query'} if query else set())
        c = b.case()
        c.meta['frames'] = len(frames)
        return c


check = C()
