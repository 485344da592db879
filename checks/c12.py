"""Callbacks: script functions called by foreign code."""
from runner import Check
from kit import Builder, ANY
import gen
from gen import lit, ident, call, emit
from model import Fn, Unspecified, JSError, U
from ffimodel import FFI, Sig, func_text, cb_text, TYPES
import c11
from c11 import num, argval, rstr, strexpr, retval, bits, DBL, NUMS
from drv import hx


def cbsig(r):
    """A callback type for which there is an implementation."""
    ret = r.choice('vvibb' if r.random() < .8 else 'vi')
    if r.random() < .2: return ret, r.choice(['ud', 'du'])
    if r.random() < .1: return 'v', r.choice(['ui', 'iu'])
    n = r.choice([1, 1, 2, 2, 3, 4, 5, 6])
    l = [r.choice('ibpsm') for _ in range(n)]
    l[r.randrange(n)] = 'u'
    return ret, ''.join(l)


def cbvals(r, letters):
    o = []
    for k in letters:
        if k == 'u': continue
        if k == 'i': o.append(str(r.choice(NUMS) if r.random() < .7 else r.randrange(-1 << 31, 1 << 31)))
        elif k == 'b': o.append(r.choice('01'))
        elif k == 'p': o.append(r.choice(['p0', 'pA+0', 'pA+3', 'pB+7']))
        elif k == 'd': o.append('d' + bits(r.choice(DBL)))
        elif k == 's': o.append('n' if r.random() < .1 else 's' + hx(rstr(r)))
        else: o.append('s' + hx(rstr(r) + (b'\0zz' if r.random() < .2 else b'')))
    return ','.join(o)


def bad_cb(r, name):
    """(text, looked up name, code, message) of a signature with a bad callback type."""
    z = r.randrange(10)
    cb = cbsig(r)
    ok = [TYPES[k] for k in cb[1]]
    others = [r.choice(['int', 'char *', 'bool']) for _ in range(r.randrange(0, 3))]
    def outer(inner, extra=()):
        l = list(others) + ['userdata'] + list(extra)
        l.insert(r.randrange(len(l) + 1), inner)
        return l

    def mk(inner, msg, code=3, extra=()):
        l = outer(inner, extra)
        t = 'int ' + name + '(' + ', '.join(l) + ')'
        return t, name, code, 'bad ffi signature: "%s": bad ffi signature: "%s": %s' % (t, inner, msg)
    if z == 0:
        inner = cb_text(r, cb, ['int', 'bool'][:r.randrange(0, 3)]).strip()
        return mk(inner, 'no userdata arg')
    if z == 1:
        inner = cb_text(r, cb, ['userdata', 'void (*)(userdata)'] if r.random() < .5 else ['int', 'void (*x)(userdata, int)', 'userdata']).strip()
        return mk(inner, "callback can't take another callback")
    if z == 2:
        inner = r.choice(['void (*)(userdata, float)', 'void (*)(double, userdata, int)', 'void (*)(userdata, double, double)',
                          'void (*)(float, userdata)', 'double (*)(userdata)', 'float (*)(userdata, int)', 'void* (*)(userdata)',
                          'void (*)(int, userdata, double)', 'double (*)(userdata, double)', 'void *(*)(int, userdata)'])
        return mk(inner, "the callback signature is valid, but there's no existing callback implementation for it")
    if z == 3:
        inner = r.choice(['char *', 'userdata', 'struct mg_str *', 'char*']) + '(*)(userdata, int)'
        return mk(inner, 'invalid return value type')
    if z == 4:
        l = ['int', 'userdata'] + ['bool'] * r.choice([5, 6, 8])
        inner = 'void (*)(%s)' % ', '.join(l)
        return mk(inner, 'too many callback args')
    if z == 5:
        bt = r.choice(['integer', 'char', 'int x', 'long'])
        l = ['userdata', 'int']
        l.insert(r.randrange(3), bt)
        inner = 'void (*)(%s)' % ', '.join(l)
        return mk(inner, 'failed to parse val type "%s"' % bt)
    if z == 6:
        inner = 'void (*)(int, userdata, userdata)'
        return mk(inner, 'more than one userdata arg: #1 and #2')
    if z == 7:
        bt = r.choice(['integer', 'struct x'])
        inner = bt + ' (*)(userdata)'
        return mk(inner, 'failed to parse val type "%s"' % bt)
    if z == 8: return mk(r.choice(['void cb(userdata, int)', 'int x(userdata)', 'bool on_event (int, userdata)']), '4')
    t = 'int %s(void (*)(userdata), userdata, void (*)(userdata))' % name
    return t, name, 3, 'bad ffi signature: "%s": only one callback is allowed' % t


class C(Check):
    id = 'C12'
    quick, thorough = 30000, 400000
    rule = ('Random callback types (every supported result, 1..6 parameters, the user data in every position, '
            'doubles) in foreign functions of every shape; recording C functions call the callback at once, several times, and '
            'later from the host, with extreme and long values; callbacks are script functions (which log, allocate, fail, '
            'return values, call foreign functions again, free themselves), native functions and foreign functions; user data '
            'of every type must come back identical, registrations are freed in the middle of histories, unsupported callback '
            'types must be refused, with collections and moving strings in between. All calls, values and errors must '
            'equal the reference. Non-trivial: at least one callback was called.')

    def nontrivial(self, c): return any(l.startswith('cb:') for l in c.meta['labels'])

    def udval(self, r):
        z = r.random()
        if z < .3: return ident(r.choice([b'ob', b'ar', b'ob2']))
        if z < .45: return num(r.choice([0, 1, -1, 5, 1e300, 1.5]))
        if z < .55: return ('str', r.choice([b'', b'a', b'abcde']))
        if z < .65: return ident(b'longstr')
        if z < .8: return lit(r.choice(['null', 'undefined', 'true', 'false']))
        if z < .9: return ('obj', [(b'k', num(r.randrange(9))), (b's', ('str', b'fresh user data string'))])
        if z < .95: return ident(r.choice([b'cb0', b'cb1']))
        return call(ident(b'ptr'), num(0), num(r.randrange(8)))

    def callback(self, r, ps, cb, k, sigs):
        """Statements of a callback function with parameters ps."""
        body = [('expr', [emit(('str', b'cb%d' % k), *[ident(p) for p in ps])])]
        for _ in range(r.randrange(0, 3)):
            z = r.random()
            if z < .15: body.append(('expr', [('asg', '=', ('dot', ident(b'ob'), b'c%d' % k), ident(r.choice(ps)))]))
            elif z < .3: body.append(('let', [(b'loc', ('obj', [(b'a', ('str', b'some garbage')), (b'b', ('bin', '+', ('str', b'x'), ('str', b'yzyzyzyz')))]))]))
            elif z < .4: body.append(('if', ('bin', '===', ('post', '++', ident(b'n%d' % k)), num(r.randrange(3))), ('block', [('expr', [ident(b'undefd%d' % k)])]), None))
            elif z < .45: body.append(('expr', [call(ident(b'die'), ('str', b'die'))]))
            elif z < .55:
                u = ps[cb[1].index('u')]
                body.append(('expr', [emit(call(ident(b'ffi_cb_free'), ident(b'cb%d' % k), ident(u)))]))
            elif z < .7: body.append(('expr', [emit(('this',), ident(b'longstr'))]))
            elif z < .85 and sigs:
                body.append(('if', ('bin', '<', ident(b'depth'), num(3)), ('block', [
                    ('expr', [('asg', '+=', ident(b'depth'), num(1))]),
                    ('expr', [emit(self.callexpr(r, *r.choice(sigs)))]),
                    ('expr', [('asg', '-=', ident(b'depth'), num(1))])]), None))
            elif z < .9: body.append(('expr', [call(ident(b'gc'), lit('true'))]) if False else ('expr', [('asg', '=', ident(b'ob2'), ('obj', [(b'new', num(1))]))]))
            else: body.append(('for', ('let', [(b'li', num(0))]), ('bin', '<', ident(b'li'), num(3)), ('post', '++', ident(b'li')),
                               ('block', [('expr', [('asg', '+=', ident(b'acc'), ident(b'li'))])])))
        z = r.random()
        if cb[0] == 'i' or (cb[0] == 'v' and z < .3): body.append(('ret', r.choice([num(r.choice(NUMS)), num(k), ident(b'acc')])))
        elif cb[0] == 'b': body.append(('ret', r.choice([lit('true'), lit('false'), ('bin', '<', ident(b'acc'), num(5))])))
        return body

    def callexpr(self, r, f, sig):
        args = []
        for k in sig.args:
            if k == 'c':
                z = r.random()
                if sig.cb in (('v', 'iu'), ('v', 'ui')) and r.random() < .25:
                    args.append(ident(b'fi'))
                    continue
                args.append(ident(r.choice(self.cbs[sig.cb])) if z < .88 else ident(b'emit') if z < .91 and sig.cb[0] == 'v' else
                            c11.badval(r, 'c') if z < .97 else ident(self.cbs[sig.cb][0]))
            elif k == 'u': args.append(self.udval(r))
            else: args.append(argval(r, k))
        if r.random() < .04: args.append(num(1))
        z = r.random()
        if z < .75: return call(ident(f), *args)
        if z < .87: return call(ident(b'ctry'), ident(f), lit('null'), *args)
        return call(('dot', ident(f), b'apply'), lit('null'), ('arr', args))

    def gen(self, r, i, tier):
        b = Builder(r)
        ffi = c11.check.setup(r, b)
        m = b.m
        names = r.sample(['F1', 'set_timer', '_f', 'F_22x', 'mg_call', 'iterate'], 4)
        sigs = []
        self.cbs = {}
        cbs = [cbsig(r) for _ in range(r.choice([1, 2, 2]))]
        for k in range(r.choice([1, 2, 3])):
            cb = r.choice(cbs)
            others = c11.params(r)[:4]
            while ('d' in others or 'f' in others) and len(others) > 1: others = others[:-1]
            args = others + ['c', 'u']
            r.shuffle(args)
            ret = r.choice('vvibdsp')
            if ret == 'd' and 'f' in args: ret = 'v'
            acts = []
            for _ in range(r.randrange(0, 4)):
                acts.append('N:' + cbvals(r, cb[1]) if r.random() < .75 else 'S:%d' % r.randrange(4))
            s = Sig(names[k], ret, args, cb, None, acts)
            s.retval = retval(r, ret, ['-' if any(x[0] == 'N' for x in acts) else a for a in args])
            b.cmd(s.define(s.supported()))
            t = s.text(r)
            ffi.known[t.encode()] = (s, s.name, None)
            sigs.append((b'f%d' % k, s, t.encode()))
        t = 'int ident(int)'
        s = Sig('ident_', 'i', ['i'])
        fi = Sig('two', 'v', ['i', 'i'])
        s.retval = '1'
        b.cmd(s.define())
        b.cmd(fi.define())
        ffi.known[b'void two(int, int)'] = (fi, 'two', None)
        bads = []
        for _ in range(2):
            t, nm, code, msg = bad_cb(r, 'ident_')
            ffi.known[t.encode()] = (None, nm, (code, msg.encode()))
            bads.append(t.encode())
        b.run([('let', [(b'ob', ('obj', [(b'name', ('str', b'ob'))])), (b'ar', ('arr', [num(1), num(2)])), (b'ob2', ('obj', [])),
                        (b'longstr', ('bin', '+', ('str', b'a long user '), ('str', b'data string'))), (b'acc', num(0)), (b'depth', num(0)),
                        *[(b'n%d' % k, num(0)) for k in range(4)],
                        (b'fi', call(ident(b'ffi'), ('str', b'void two(int, int)')))])], 0)
        b.run([('let', [(v, call(ident(b'ffi'), ('str', t)))]) for v, s, t in sigs], 0)
        fl = [(v, s) for v, s, t in sigs]
        k = 0
        for cb in dict.fromkeys(cbs):
            self.cbs[cb] = []
            for _ in range(r.choice([1, 1, 2])): self.cbs[cb].append(b'cb%d' % k); k += 1
        defs = []
        k = 0
        for cb in self.cbs:
            for v in self.cbs[cb]:
                ps = [b'p%d' % q for q in range(len(cb[1]))]
                use = [x for x in fl if True]
                body = self.callback(r, ps, cb, k, use)
                if r.random() < .1: ps = ps[:-1] if cb[1][-1] != 'u' and len(ps) > 1 else ps
                defs.append((v, ('fn', None, ps, body, Fn(ps, body))))
                k += 1
        if k < 2: defs.append((b'cb1', lit('null')))
        b.run([('let', defs)], 0)
        for step in range(r.randrange(2, 7)):
            z = r.random()
            if z < .55:
                prog = []
                for _ in range(r.randrange(1, 4)):
                    y = r.random()
                    if y < .7: prog.append(('expr', [emit(self.callexpr(r, *r.choice(fl)))]))
                    elif y < .8:
                        prog.append(('expr', [emit(call(ident(b'ctry'), ident(b'ffi'), lit('null'), ('str', r.choice(bads))))]))
                        b.labels.add('bad callback type')
                    elif y < .95:
                        u = self.udval(r)
                        prog.append(('expr', [emit(call(ident(b'ffi_cb_free'), ident(b'cb%d' % r.randrange(k)), u))]))
                        b.labels.add('free')
                    else: prog.append(('expr', [('asg', '=', ident(r.choice([b'ob', b'ar', b'longstr'])), ('str', b'replaced by another'))]))
                b.run(prog, 0)
            elif z < .85 and ffi.stash:
                kk = r.choice(list(ffi.stash))
                reg, sig = ffi.stash[kk]
                if not any(x is reg for x in ffi.regs):
                    del ffi.stash[kk]
                    continue
                ffi.host_fire(kk, cbvals(r, reg[2][1]))
                b.labels.add('called by the host')
            else:
                b.run([('expr', [('dot', ident(b'global'), b'ob')])], 0)
                b.cmd('fullgc')
                b.snap('s%d' % step, heap=True, roots=ffi.roots())
        b.run([('expr', [('dot', ident(b'global'), b'ob')])], 0)
        b.cmd('fullgc')
        b.snap('end', heap=True, roots=ffi.roots())
        if ffi.cbs == 0 and r.random() < .7: raise Unspecified('no call')
        return b.case()


check = C()
