"""Prints model ASTs as mJS source text, with layout variation."""
import random

PREC = {'||': 4, '&&': 5, '|': 6, '^': 7, '&': 8, '===': 9, '!==': 9, '==': 9, '!=': 9,
        '<': 10, '>': 10, '<=': 10, '>=': 10, '<<': 11, '>>': 11, '>>>': 11,
        '+': 12, '-': 12, '*': 13, '/': 13, '%': 13}
WORD = set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$')
OPCH = set(b'+-*/%&|^<>=!~?:')


class Printer:
    def __init__(self, rng=None, layout=0):
        self.r = rng
        self.layout = layout      # 0 plain, 1 random spaces/newlines/comments/parens
        self.o = []
        self.line = 1
        self.lines = {}           # id(stmt) -> line number of its first token

    def comment(self):
        t = bytes(self.r.choice(b'***///\n{}"\'\\a 1(;\r\t\x80\xff') for _ in range(self.r.choice([0, 1, 2, 3, 5, 20])))
        if self.r.random() < .3: return b'//' + t.replace(b'\n', b'') + b'\n'
        while b'*/' in t: t = t.replace(b'*/', b'*')
        return b'/*' + t + b'*/'

    # ---- tokens
    def t(self, s):
        if isinstance(s, str): s = s.encode('latin-1')
        if self.o:
            a, b = self.o[-1][-1], s[0]
            if (a in WORD and b in WORD) or (a in OPCH and b in OPCH):
                self.raw(b' ')
        if self.layout and self.r.random() < 0.12:
            self.raw(self.r.choice([b' ', b'  ', b'\t', b'\n', b' /* c */ ', b'\r\n',
                                    b'/* * / ** */', b' // c "\' {\n', b'/*\n*/', b'/***/', b'\n\n', b'//\n', b'\v\f ', None]) or self.comment())
            if self.o:
                a, b = self.o[-1][-1], s[0]
                if a == 47 and b in OPCH: self.raw(b' ')
        self.o.append(s)
        return self

    def raw(self, s):
        self.line += s.count(b'\n')
        # a '/' directly before a comment would change its meaning
        if self.o and self.o[-1][-1] == 47 and s[:1] == b'/': self.o.append(b' ')
        self.o.append(s)

    def text(self): return b''.join(self.o)

    # ---- strings
    def string(self, b):
        q = 34
        if self.r and self.r.random() < 0.4: q = 39
        out = bytearray([q])
        for c in b:
            if c == q: out += b'\\' + bytes([c])
            elif c == 92: out += b'\\\\'
            elif c == 0 or c >= 127 or c < 32:
                m = {8: b'b', 9: b't', 10: b'n', 11: b'v', 12: b'f', 13: b'r'}.get(c)
                z = self.r.random() if self.r else 0
                if m and z < 0.6: out += b'\\' + m
                elif c >= 128 and z < 0.3: out.append(c)
                elif z < 0.8 or not self.r: out += b'\\x%02x' % c
                elif z < 0.9: out += b'\\u00%02X' % c
                else: out += b'\\x%02X' % c
            elif self.r and self.r.random() < 0.03: out += b'\\x%02x' % c
            else: out.append(c)
        out.append(q)
        self.t(bytes(out))

    # ---- expressions; p: minimal precedence accepted here
    def e(self, e, p=0):
        k = e[0]
        my = self.prec(e)
        par = my < p or (self.layout and my < 17 and self.r.random() < 0.05)
        if par: self.t('(')
        if k == 'num': self.t(e[1])
        elif k == 'str': self.string(e[1])
        elif k == 'lit': self.t(e[1])
        elif k == 'this': self.t('this')
        elif k == 'id': self.t(e[1])
        elif k == 'arr':
            self.t('[')
            for i, x in enumerate(e[1]):
                if i: self.t(',')
                self.e(x)
            if e[1] and self.layout and self.r.random() < .1: self.t(',')
            self.t(']')
        elif k == 'obj':
            self.t('{')
            for i, (key, x) in enumerate(e[1]):
                if i: self.t(',')
                if is_ident(key) and not (self.r and self.r.random() < .2): self.t(key)
                else: self.string(key)
                self.t(':')
                self.e(x)
            if e[1] and self.layout and self.r.random() < .1: self.t(',')
            self.t('}')
        elif k == 'fn': self.fn(e)
        elif k == 'un':
            self.t(e[1])
            self.e(e[2], 14)
        elif k in ('bin', 'log'):
            q = PREC[e[1]]
            self.e(e[2], q)
            self.t(e[1])
            self.e(e[3], q + 1)
        elif k == 'cond':
            self.e(e[1], 4)
            self.t('?')
            self.e(e[2], 3)
            self.t(':')
            self.e(e[3], 3)
        elif k == 'asg':
            self.e(e[2], 15)
            self.t(e[1])
            self.e(e[3], 2)
        elif k == 'pre':
            self.t(e[1])
            self.e(e[2], 16)
        elif k == 'post':
            self.e(e[2], 15)
            self.t(e[1])
        elif k == 'dot':
            self.obj(e[1])
            self.t('.')
            self.o.append(e[2])
        elif k == 'idx':
            self.obj(e[1])
            self.t('[')
            self.e(e[2])
            self.t(']')
        elif k == 'call':
            self.obj(e[1])
            self.t('(')
            for i, x in enumerate(e[2]):
                if i: self.t(',')
                self.e(x)
            self.t(')')
        else:
            raise AssertionError(k)
        if par: self.t(')')

    def obj(self, e):
        """Operand of a member access or a call."""
        if e[0] in ('num', 'fn', 'obj'):
            self.t('(')
            self.e(e)
            self.t(')')
        elif e[0] in ('id', 'dot', 'idx', 'call', 'str', 'arr', 'this', 'lit'):
            lay, self.layout = self.layout, 0   # no redundant parens around callees
            if e[0] in ('call', 'idx', 'arr'): self.layout = lay
            self.e(e, 16 if e[0] != 'call' else 16)
            self.layout = lay
        else:
            self.e(e, 16)

    def prec(self, e):
        k = e[0]
        if k in ('bin', 'log'): return PREC[e[1]]
        if k == 'cond': return 3
        if k == 'asg': return 2
        if k in ('un', 'pre'): return 14
        if k == 'post': return 15
        if k == 'id': return 17
        return 17 if k in ('dot', 'idx', 'pre', 'num', 'str', 'lit', 'this') else 16

    def fn(self, e):
        self.t('function')
        if e[1] is not None: self.t(e[1])
        self.t('(')
        for i, p in enumerate(e[2]):
            if i: self.t(',')
            self.t(p)
        self.t(')')
        self.t('{')
        self.stmts(e[3])
        self.t('}')

    # ---- statements
    def stmts(self, l):
        for s in l:
            self.s(s)

    def nl(self):
        self.raw(b'\n')

    def s(self, s):
        k = s[0]
        self.nl()
        if k == 'expr':
            for i, e in enumerate(s[1]):
                if i: self.t(',')
                if i == 0 and starts_brace(e):
                    self.t('(')
                    self.e(e)
                    self.t(')')
                else:
                    self.e(e)
            self.t(';')
        elif k == 'let':
            self.let(s)
            self.t(';')
        elif k == 'if':
            self.t('if').t('(')
            self.e(s[1])
            self.t(')')
            if s[3] is not None and s[2][0] != 'block':
                self.body(('block', [s[2]]))
            else:
                self.body(s[2])
            if s[3] is not None:
                self.t('else')
                self.body(s[3])
        elif k == 'while':
            self.t('while').t('(')
            self.e(s[1])
            self.t(')')
            self.body(s[2])
        elif k == 'for':
            self.t('for').t('(')
            if s[1][0] == 'let': self.let(s[1])
            else: self.e(s[1])
            self.t(';')
            self.e(s[2])
            self.t(';')
            self.e(s[3])
            self.t(')')
            self.body(s[4])
        elif k == 'forin':
            self.t('for').t('(')
            if s[1]: self.t('let')
            self.t(s[2]).t('in')
            self.e(s[3])
            self.t(')')
            self.body(s[4])
        elif k == 'ret':
            self.t('return')
            if s[1] is not None: self.e(s[1])
            self.t(';')
        elif k == 'break': self.t('break').t(';')
        elif k == 'cont': self.t('continue').t(';')
        elif k == 'empty': self.t(';')
        elif k == 'block': self.body(s)
        else: raise AssertionError(k)

    def let(self, s):
        self.t('let')
        for i, (n, e) in enumerate(s[1]):
            if i: self.t(',')
            self.t(n)
            if e is not None:
                self.t('=')
                self.e(e)

    def body(self, b):
        if b[0] == 'block':
            self.t('{')
            self.stmts(b[1])
            self.t('}')
        else:
            self.s(b)


KW = {b'break', b'case', b'catch', b'continue', b'debugger', b'default', b'delete', b'do',
      b'else', b'false', b'finally', b'for', b'function', b'if', b'in', b'instanceof', b'new',
      b'null', b'return', b'switch', b'this', b'throw', b'true', b'try', b'typeof', b'var',
      b'void', b'while', b'with', b'let', b'undefined'}


def is_ident(k):
    return bool(k) and k not in KW and not (48 <= k[0] <= 57) and \
        all(c in WORD for c in k)


def starts_brace(e):
    while True:
        k = e[0]
        if k == 'obj': return True
        if k in ('bin', 'log'): e = e[2]
        elif k == 'cond': e = e[1]
        elif k == 'asg': e = e[2]
        elif k == 'post': e = e[2]
        elif k in ('dot', 'idx', 'call'):
            if e[1][0] == 'obj': return False
            e = e[1]
        else: return False


def source(prog, rng=None, layout=0):
    p = Printer(rng, layout)
    p.stmts(prog)
    return p.text()
