"""Any script text is handled without corrupting or hanging the host."""
import re, subprocess, os
from runner import Check
from kit import Builder
from drv import hx, unhx
import drv, gen, printer
from c05 import Flow
from c06 import check as c06
from c07 import check as c07
from c08 import check as c08
from c09 import check as c09
from c10 import check as c10
from c15 import check as c15

TOK = re.compile(rb'[A-Za-z_$][\w$]*|\d[\w.]*|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|//[^\n]*|/\*.*?\*/|'
                 rb'===|!==|>>>=|>>>|<<=|>>=|=>|\.\.\.|[-+*/%&|^<>=!]=|\+\+|--|&&|\|\||<<|>>|\s+|.', re.S)
VOCAB = (b'break case catch class continue debugger default delete do else export extends finally for function if '
         b'import in instanceof let const var new return super switch this throw try typeof void while with yield '
         b'true false null undefined NaN of async await static get set '
         b'( ) { } [ ] , ; : ? . + - * / % ++ -- << >> >>> & | ^ ~ ! && || = == != === !== < > <= >= += -= *= /= '
         b'%= &= |= ^= <<= >>= >>>= => ... ` @ # \\ $ _ 0 1 2 10 0x1f 1e3 1.5 .5 1. 0x 1e 1e999 127 128 16384 "" "a" '
         b"'b' \"\\n\" \"\\x41\" '\\u0041' \"\\ a b c foo x y length push slice at apply print JSON Object global load "
         b'die chr isNaN gc emit /* */ // /a/g').split()
# raw memory access, as documented: not for hostile scripts (see also hooks.c)
BAN = re.compile(rb'mkstr|s2o|getMJS|ptr|noret')
BANFFI = re.compile(rb'\bffi\b(?!\(["\']zz)')
PROBE = (b"(function(n){let o={a:[1,2],b:'x'};for(let i=0;i<n;i++){if(i===3){continue;}o.a.push(i);o.b+='y'+o.b[0];}"
         b"let k,t='';for(k in o){t+=k;}return o.b.slice(1,6)+t+(o.a.length===n+1?'ok':'no')+"
         b"(function(x){return x>1?'big':'small';})(o.a[3]);})(5);")
PROBE_RES = b'yxyxybaoksmall'


def lines(c): return [s for s in c.meta.get('src', []) if isinstance(s, bytes)]


class Corpus:
    def __init__(self, r, tier): self.r, self.tier = r, tier

    def program(self):
        r = self.r
        for _ in range(8):
            try:
                k = r.randrange(9)
                if k < 2:
                    p = gen.Gen(r, r.choice([0, .05])).script(r.randrange(1, 7))
                    return printer.source(p, r, r.choice([0, 0, 1]))
                if k == 2: return printer.source(Flow(r).block(3, 3), r, r.choice([0, 1]))
                c = r.choice([c06, c07, c08, c09, c10, c15]).gen(r, r.randrange(100), self.tier)
                s = lines(c) if c else None
                if s: return r.choice(s)
            except Exception as e:
                if type(e).__name__ not in ('Unspecified', 'RecursionError', 'IndexError', 'AssertionError'): raise
        return b'let a = 1; print(a);'

    def soup(self):
        r = self.r
        n = r.choice([1, 2, 3, 5, 8, 13, 30, 100])
        return r.choice([b' ', b'', b'\n']).join(r.choice(VOCAB) for _ in range(n))

    def bytes_(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 9, 20, 60])
        if r.random() < .5: return bytes(r.randrange(1, 256) for _ in range(n))
        return bytes(r.choice(b'(){}[];,"\'\\/*+-=<>!&|.?:0123abc \n\t\xff\x80') for _ in range(n))

    def mutate_tokens(self, s):
        r = self.r
        t = TOK.findall(s)
        if not t: return s
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            i = r.randrange(len(t) + 1)
            z = r.random()
            if z < .22 and t: del t[min(i, len(t) - 1)]
            elif z < .32 and t: t[i:i] = t[i:i + r.randrange(1, 12)]
            elif z < .47: t.insert(i, r.choice(VOCAB))
            elif z < .62 and t: t[min(i, len(t) - 1)] = r.choice(VOCAB)
            elif z < .72 and len(t) > 1:
                j, k = r.randrange(len(t)), r.randrange(len(t))
                t[j], t[k] = t[k], t[j]
            elif z < .8: t[i:] = []
            elif z < .86: t[:i] = []
            elif z < .92 and t:
                j = min(len(t), i + r.randrange(1, 10))
                del t[i:j]
            else: t[i:i] = TOK.findall(self.soup())
            if not t: break
        return b''.join(t)

    def mutate_bytes(self, s):
        r = self.r
        b = bytearray(s)
        for _ in range(r.choice([1, 1, 2, 4])):
            i = r.randrange(len(b) + 1)
            z = r.random()
            if z < .25 and b: b[min(i, len(b) - 1)] = r.choice(b'(){}[];,"\'\\/*+-=<>!&|.?:09aZ_$ \n\x7f\x80\xff\x01')
            elif z < .45 and b: del b[min(i, len(b) - 1)]
            elif z < .65: b[i:i] = bytes([r.choice(b'(){}[];,"\'\\/*+-=<>!&|.?:09aZ_$ \n\x7f\x80\xff\x01')])
            elif z < .85: del b[i:]
            else: b[i:i] = self.bytes_()
        return bytes(b)

    def deep(self):
        """One construct nested or repeated n times, complete or cut short."""
        r = self.r
        n = r.choice([1, 5, 20, 60, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 3000, 20000])
        k = r.randrange(26)
        pre, mid, post = [
            (b'(', b'1', b')'), (b'[', b'', b']'), (b'{a:', b'1', b'}'), (b'{', b';', b'}'), (b'-', b'1', b''),
            (b'!', b'a', b''), (b'function(){', b'', b'}'), (b'(function(){return ', b'1', b'})()'),
            (b'if(1)', b';', b''), (b'if(1){', b';', b'}else{}'), (b'while(0)', b';', b''), (b'for(;0;)', b';', b''),
            (b'1?', b'2', b':3'), (b'1?2:', b'3', b''), (b'f(', b'', b')'), (b'a[', b'0', b']'), (b'a.', b'b', b''),
            (b'1+', b'1', b''), (b'a=', b'1', b''), (b'typeof ', b'1', b''), (b'1&&', b'1', b''),
            (b'for(let k in {a:1}){', b';', b'}'), (b'"a"+', b'"b"', b''), (b'x.y(1)(2)[3].', b'z', b''),
            (b'1,', b'2', b''), (b'++', b'a', b'--')][k]
        s = pre * n + mid + post * n
        z = r.random()
        if z < .15: s = s[:r.randrange(len(s) + 1)]
        elif z < .2: s = s[r.randrange(len(s) + 1):]
        pf = r.choice([b'', b'', b'let x = ', b'let f=function(x){return x;};', b'print('])
        return pf + s + (b')' if pf == b'print(' else b'') + r.choice([b'', b';'])

    def long(self):
        r = self.r
        n = r.choice([10, 100, 126, 127, 128, 129, 255, 256, 1000, 16383, 16384, 16385, 70000])
        k = r.randrange(14)
        if k == 0: return b'let ' + b'a' * n + b' = 1; ' + b'a' * n + b';'
        if k == 1: return b'"' + b'x' * n + b'".length;'
        if k == 2: return b'1' * n + b'+0.' + b'1' * n + b';'
        if k == 3: return b'print(' + b','.join([b'1'] * min(n, 2000)) + b');'
        if k == 4: return b'(function(' + b','.join(b'a%d' % i for i in range(min(n, 500))) + b'){return a0;})(7);'
        if k == 5: return b'let ' + b','.join(b'a%d=%d' % (i, i) for i in range(min(n, 500))) + b'; a0;'
        if k == 6: return b'[' + b','.join([b'1'] * min(n, 800)) + b'].length;'
        if k == 7: return b'/*' + b'*' * n + b'/ 1; //' + b'c' * n
        if k == 8: return b'\n' * n + b'1;' + b' \t' * n + b'x'
        if k == 9: return b'1;' * min(n, 16384) + b'2;'
        if k == 10: return b'if(0){' + b'a.b;' * min(n, 16384) + b'} 3;'
        if k == 11: return b'for(let i=0;i<2;i++){if(i){continue;}' + b'i;' * min(n, 16384) + b'} 3;'
        if k == 12: return b'"' + b'\\n' * n + b'\\x' + b'"'
        return b'0x' + b'f' * n + b' + 1e' + b'9' * min(n, 300) + b';'

    def value(self, d=1):
        r = self.r
        z = r.randrange(16)
        if z < 4: return r.choice([b'0', b'-1', b'1', b'2', b'1e300', b'-1e300', b'2147483647', b'2147483648', b'-2147483648',
                                   b'-2147483649', b'4294967295', b'4294967296', b'9007199254740993', b'0.5', b'-0.5', b'NaN', b'1/0',
                                   b'-1/0', b'0x7fffffff', b'65', b'256'])
        if z < 7: return r.choice([b'""', b'"a"', b'"abc"', b'"\\x00"', b'"' + b'z' * r.choice([4, 5, 6, 126, 127, 128, 300]) + b'"', b'"length"'])
        if z < 8: return r.choice([b'null', b'undefined', b'true', b'false'])
        if z < 10: return b'[' + b','.join(self.value(d - 1) for _ in range(r.randrange(4))) + b']' if d else b'[]'
        if z < 12: return b'{a:%s,length:%s}' % (self.value(d - 1), self.value(d - 1)) if d else b'{}'
        if z < 13: return r.choice([b'print', b'chr', b'JSON', b'Object', b'global', b'"".slice', b'[].push', b'print.apply', b'isNaN'])
        if z < 14: return b'function(a,b){return %s;}' % r.choice([b'a', b'this', b'b', b'undefinedname', b'a.x.y'])
        if z < 15: return r.choice([b'cyc', b'deep', b'longs'])
        return b'arr'

    BUILT = [b'print', b'chr', b'JSON.parse', b'JSON.stringify', b'Object.create', b'isNaN', b'load', b'gc', b'die', b'"abcdef".slice',
             b'longs.slice', b'"abcdef".at', b'"abc".charCodeAt', b'longs.indexOf', b'"abcabc".indexOf', b'arr.splice', b'arr.push',
             b'[1,2,3].splice', b'cyc.a.push', b'ffi_cb_free', b'longs.at']

    def builtins(self):
        """Built-in functions called with anything."""
        r = self.r
        o = [b'let cyc={a:[1]}; cyc.self=cyc; cyc.a.push(cyc); let arr=[1,"two",{x:3},[4]]; let deep=0; '
             b'for(let i=0;i<%d;i++){deep={d:deep};} let longs="";for(let i=0;i<40;i++){longs+="ab%d";}' % (r.choice([3, 30]), r.randrange(9))]
        for _ in range(r.randrange(1, 8)):
            f = r.choice(self.BUILT)
            a = [self.value(2) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6]))]
            z = r.random()
            if z < .7: c = f + b'(' + b','.join(a) + b')'
            elif z < .9: c = f + b'.apply(' + self.value() + b',' + (b'[' + b','.join(a) + b']' if r.random() < .8 else self.value()) + b')'
            else: c = b'let f%d=%s; f%d(%s)' % (r.randrange(9), f, r.randrange(9), b','.join(a))
            if r.random() < .6: c = b'ctry(function(){return %s;},null)' % c if b'let ' not in c else b'ctry(function(){%s;},null)' % c
            o.append(c)
        for _ in range(r.randrange(0, 3)):
            z = r.randrange(4)
            if z == 0: o.append(b'ctry(function(){return (%s)%s;},0)' % (self.value(), r.choice([b'.a', b'.length', b'[0]', b'["a"]', b'[-1]', b'.a.b', b'()', b'.x()', b'[cyc]'])))
            elif z == 1: o.append(b'ctry(function(){return (%s)%s(%s);},0)' % (self.value(), r.choice([b'+', b'-', b'*', b'/', b'%', b'<', b'===', b'<<', b'>>>', b'&', b'&&']), self.value()))
            elif z == 2: o.append(b'ctry(function(){for(let k in %s){emit(k);}},0)' % self.value())
            else: o.append(b'ctry(function(){let o=%s; o%s=%s; return o;},0)' % (self.value(), r.choice([b'.a', b'.length', b'[0]', b'["a"]', b'[-1]', b'[1e10]', b'[NaN]']), self.value()))
        return b';\n'.join(o) + b';'

    def json(self):
        r = self.r
        n = r.choice([1, 5, 60, 127, 128, 500, 1500])
        k = r.randrange(8)
        if k == 0: t = b'[' * n + b'1' + b']' * n
        elif k == 1: t = b'{"a":' * n + b'1' + b'}' * n
        elif k == 2: t = bytes(r.choice(b'[]{}",:0123456789.eE+-truefalsn\\u ') for _ in range(r.randrange(30)))
        elif k == 3: t = b'"' + b'\\u00e9' * n + b'\\n' * n
        elif k == 4: t = b'[' * n
        elif k == 5: t = b'{"' + b'k' * n + b'":' + b'[1,2,{"x":null}]' * r.randrange(1, 3) + b'}'
        elif k == 6: t = self.mutate_bytes(b'{"a":[1,2.5e3,true,false,null,"s\\u0041\\n"],"b":{"c":{}}}')
        else: t = b'-' + b'9' * n + b'.' + b'1' * n + b'e' + b'9' * r.randrange(1, 5)
        q = b'"' + t.replace(b'\\', b'\\\\').replace(b'"', b'\\"').replace(b'\0', b'\\x00').replace(b'\n', b'\\n') + b'"'
        s = b'let j=%s; let v=JSON.parse(j);' % q
        if n < 600: s += r.choice([b' JSON.stringify(v);', b' emit(v);', b'', b' print(v);'])
        return s

    def sig(self):
        """Hostile ffi() signatures: names start with zz (zzero does nothing and returns zero)."""
        r = self.r
        ty = [b'int', b'void', b'double', b'float', b'bool', b'char *', b'char*', b'void *', b'userdata', b'long', b'struct x *', b'',
              b'int (*)(int, userdata)', b'void (*)(userdata)', b'int(*)(', b'unsigned int', b'int *', b'double (*f)(int)', b'*', b'(', b')', b',']
        out = []
        for _ in range(r.randrange(1, 4)):
            nm = r.choice([b'zzero', b'zzero', b'zz_none', b'zzero ', b'*zzero', b'z', b'', b'zz' + b'n' * r.choice([10, 90, 200])])
            args = b', '.join(r.choice(ty) + r.choice([b'', b' x', b' y']) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 9])))
            s = r.choice(ty) + b' ' + nm + b'(' + args + b')'
            if r.random() < .4: s = self.mutate_bytes(s)
            s = re.sub(rb'[^ -~]|["\\]', b'', s)
            a = b','.join(self.value() for _ in range(r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7])))
            if b'zzero' in s: a = re.sub(rb'print|chr|JSON|global', b'1', a)
            out.append(b'ctry(function(){let f=ffi("zz"+"%s"); return %s;},0);' % (s, r.choice([b'f', b'f(%s)' % a, b'f(%s)' % a])))
        return b''.join(out).replace(b'ffi("zz"+', b'ffi(')

    def source(self):
        r = self.r
        z = r.random()
        if z < .26: return 'tokens', self.mutate_tokens(self.program())
        if z < .42: return 'bytes', self.mutate_bytes(self.program())
        if z < .50:
            s = self.program()
            return 'truncated', s[:r.randrange(len(s) + 1)]
        if z < .54:
            a, b = self.program(), self.program()
            return 'spliced', a[:r.randrange(len(a) + 1)] + b[r.randrange(len(b) + 1):]
        if z < .60: return 'soup', self.soup()
        if z < .64: return 'random bytes', self.bytes_()
        if z < .74: return 'deep', self.deep()
        if z < .80: return 'long', self.long()
        if z < .90: return 'builtins', self.builtins()
        if z < .94: return 'json', self.json()
        if z < .98: return 'ffi', self.sig()
        return 'valid', self.program()


RECUR = [
    b'let f=function(){f.apply(null,[]);}; f();',
    b'let f=function(n){return capply(f,null,n+1);}; f(0);',
    b'load("self.js");',
    b'let f=function(){load("g.js");}; f();',
    b'let o={}; o.f=function(a){return o.f.apply(o,[a]);}; o.f.apply(o,[1]);',
    b'let g=0; let f=function(){g++; ctry(f,null); return g;}; f();',
    b'let a=ffi("int zrec(int (*)(userdata), userdata)"); let f=function(u){return a(f,u);}; f(1);',
    b'let a=[1]; let f=function(x){return JSON.parse("[1]").splice.apply(a,[0,f.apply(a,[x])]);}; f(1);',
]


class C(Check):
    id = 'C01'
    quick, thorough = 12000, 400000
    hang_s = 40
    configs = ['drv', 'drv', 'drv', 'drv', 'drv_off0', 'drv_aggr']
    rule = ('Hostile source texts (programs mutated by tokens, by bytes, truncated and spliced, token soups, random bytes, '
            'constructs nested up to 20000 deep or 70000 long, built-in functions with arbitrary arguments, hostile JSON texts, ffi '
            'signatures and loaded files, endless recursion through native functions) run under ASan/UBSan, leak accounting, '
            'freed-cell poisoning and a watchdog. Every run must end with a result or an error with a message, an idle '
            'engine and no lost memory, and a probe program run afterwards on the same engine must give its exact result. '
            'Non-trivial: the engine executed at least one bytecode step or reported an error.')
    assumptions = ['scripts are stopped after a number of steps, when they exceed a memory cap, or when they compute a raw pointer']

    def nontrivial(self, c): return len(c.events) >= 3

    def exe_of(self, case, i):
        return 'drv' if case.meta['rec'] else Check.exe_of(self, case, i)

    def gen(self, r, i, tier):
        k = Corpus(r, tier)
        ls, labels, srcs = [], set(), []
        if i % 40 == 39:
            s = r.choice(RECUR)
            ls += ['file %s %s' % (hx('self.js'), hx(b'load("self.js");')),
                   'file %s %s' % (hx('g.js'), hx(b'load("g2.js");')), 'file %s %s' % (hx('g2.js'), hx(b'f();')),
                   'steps 400000', 'exec ' + hx(s)]
            labels.add('recursion')
            srcs.append(s)
            nr, rec = 1, True
        else:
            rec = False
            ls.append('hostile 2000000')
            if r.random() < .3: ls.append('gc 3 %d %d' % (r.choice([2, 7, 50]), r.randrange(1 << 30)))
            if r.random() < .1: ls.append('jsc 1')
            nr = r.choice([1, 1, 1, 2, 3, 4])
            for _ in range(nr):
                for _ in range(50):
                    what, s = k.source()
                    s = s.replace(b'\0', b'\x01')
                    if what != 'ffi' and BANFFI.search(s): continue
                    if not BAN.search(s): break
                labels.add(what)
                srcs.append(s)
                ls.append('steps %d' % r.choice([300, 2000, 20000]))
                z = r.random()
                if z < .82: ls.append('exec ' + hx(s))
                else:
                    ls.append('file %s %s' % (hx('h.js'), hx(s)))
                    if z < .92: ls.append('execfile ' + hx('h.js'))
                    else: ls.append('exec ' + hx(b'load("h.js");'))
            ls.append('gc 0 1 1')
        ls += ['steps 5000', 'exec ' + hx(PROBE), 'exec ' + hx(b'global.oo;'), 'snap end', 'fullgc', 'exec ' + hx(PROBE)]
        return drv.Case(ls, {'src': srcs, 'labels': labels, 'nr': nr, 'exp': [], 'rec': rec, 'note': None})

    def verify(self, case):
        if case.crash:
            # documented raw memory access, by position in a pointer
            if case.crash[0] == 'asan:SEGV' and case.crash[1][:1] in (['exec_expr'], ['getprop_builtin_foreign']): return None
            return 'crash: %s in %s' % (case.crash[0], '/'.join(case.crash[1]))
        rs = [e for e in case.events if e[0] == 'R']
        if len(rs) != case.meta['nr'] + 3: return '%d results of %d scripts' % (len(rs), case.meta['nr'] + 3)
        for e in rs[:-3]:
            if not 0 <= int(e[2]) <= 8: return 'error code ' + e[2]
            if int(e[2]) and e[3] == '-': return 'an error without a message'
            if int(e[2]) == 0 and unhx(e[3]) != b'NO_ERROR': return 'message %r without an error' % unhx(e[3])
        if case.meta['rec']:
            e = rs[0]
            if b'ctry' not in case.meta['src'][0] and not (int(e[2]) == 5 and b'too many nested calls' in unhx(e[3])):
                return 'endless recursion ended with %s %r' % (e[2], unhx(e[3]))
        for e in (rs[-3], rs[-1]):
            if e[2] != '0' or e[4] != 's' + PROBE_RES.hex():
                return 'a correct script gave %s %r %s after the hostile one' % (e[2], unhx(e[3]), e[4])
        s = [e for e in case.events if e[0] == 'S'][0]
        if s[2:7] != ['0', '0', '0', '1', '0']: return 'the engine is not idle: ' + ' '.join(s)
        if case.leak: return '%d bytes still allocated after the engine was destroyed' % case.leak
        return None

    def extra(self, tier, seed, report):
        """Collections of long lists and chains must not need C stack in proportion."""
        import runner, tempfile, resource
        n = 6000 if tier == 'thorough' else 4000
        progs = {'objects': b'let l=null;for(let i=0;i<%d;i++){l={n:l};}',
                 'arrays': b'let l=[];for(let i=0;i<%d;i++){l=[l];}',
                 'prototypes': b'let l={};for(let i=0;i<%d;i++){l=Object.create(l);}'}
        cases = []
        for k, s in progs.items():
            cases.append(drv.Case(['steps 100000000', 'execq ' + hx(s % n), 'fullgc', 'halfgc', 'execq ' + hx(b'l=0;'), 'fullgc', 'snap ' + k]))
        exe = runner.CONFIGS['drv']()
        soft = resource.getrlimit(resource.RLIMIT_STACK)
        work = tempfile.mkdtemp(prefix='verif.')
        try:
            resource.setrlimit(resource.RLIMIT_STACK, (128 * 1024, soft[1]))
            drv._run_chunk(exe, cases, work, 120)
        finally:
            resource.setrlimit(resource.RLIMIT_STACK, soft)
            import shutil
            shutil.rmtree(work, ignore_errors=True)
        for c, k in zip(cases, progs):
            if c.crash: report('collecting a chain of %d %s with 128 KB of C stack: %s in %s' % (n, k, c.crash[0], '/'.join(c.crash[1])),
                               {'lines': c.lines, 'stderr': c.stderr[-3000:]})
            elif not c.events or c.events[0][2:7] != ['0', '0', '0', '1', '0'] or int(c.events[0][8]) > 60:
                report('chain of %s not reclaimed: %s' % (k, c.events), {'lines': c.lines})
        return {'chains collected on a small stack': len(cases)}


check = C()
