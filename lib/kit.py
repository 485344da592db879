"""Building cases with expected event sequences, and matching them."""
import drv, model, printer
from drv import hx, unhx
from model import Interp, JSError, Unspecified, ser, U


class Any_:
    """Wildcard for one field, or for the rest of an event."""
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n


ANY, REST = Any_('*'), Any_('...')
ERRNAME = [b'NO_ERROR', b'SYNTAX_ERROR', b'REFERENCE_ERROR', b'TYPE_ERROR', b'OUT_OF_MEMORY',
           b'INTERNAL_ERROR', b'NOT_IMPLEMENTED', b'FILE_OPEN_ERROR', b'BAD_ARGUMENTS']


class Lines(list):
    """Commands, each with the number of events expected before it."""
    def __init__(self, exp):
        self.of, self.marks = exp, []

    def append(self, x):
        self.marks.append(len(self.of))
        list.append(self, x)

    def insert(self, i, x):
        self.marks.insert(i, 0 if i == 0 else self.marks[i - 1])
        list.insert(self, i, x)

    def steps(self):
        """(command, its events) pairs."""
        m = self.marks + [len(self.of)]
        return [(l, self.of[m[i]:m[i + 1]]) for i, l in enumerate(self)]


class Builder:
    """Collects driver commands and the events they have to cause."""
    final = None                # called with every finished history

    def __init__(self, rng, interp=None):
        self.r = rng
        self.m = interp or Interp()
        self.exp = []
        self.lines = Lines(self.exp)
        self.labels = set()
        self.src = []
        self.note = None

    def cmd(self, line, *exp):
        self.lines.append(line)
        for e in exp: self.exp.append(list(e))
        return self

    def outs(self):
        """Model events since the last call, as driver events (and stdout)."""
        o = b''
        for e in self.m.out:
            if e[0] == 'E': self.exp.append(list(e))
            elif e[0] == 'T': self.exp.append(['T', str(e[1]), hx(e[2] or ERRNAME[e[1]])])
            elif e[0] == 'O': o += e[1]
            else: self.exp.append(list(e))
        self.m.out.clear()
        return o

    def result(self, res, what='exec', trace=ANY):
        err, msg, v = res
        self.exp.append(['R', what, str(err), hx(msg or ERRNAME[err] if err else b'NO_ERROR'),
                         'u' if err else ser(v), trace])

    def run(self, prog, layout=0, src=None):
        src = printer.source(prog, self.r, layout) if src is None else src
        self.src.append(src)
        self.lines.append('exec ' + hx(src))
        res = self.m.run(prog)
        o = self.outs()
        self.result(res)
        if o: self.exp.append(['O', hx(o)])
        self.labels |= {k for k in self.m.cov}
        return res

    def raw(self, src, *exp):
        self.src.append(src)
        self.lines.append('exec ' + hx(src))
        for e in exp: self.exp.append(list(e))

    def snap(self, tag, heap=False, scopes=1, owned=None, sigs=None, roots=()):
        """The engine is idle: all stacks are empty, nothing is pinned."""
        e = ['S', tag, '0', '0', '0', str(scopes), '0', ANY if owned is None else str(owned)]
        if heap:
            o, p, smin, smax = model.reach([self.m.g] + list(roots))
            # counts, exactly; the string heap holds the reachable strings
            e += [str(o), str(p), str(model.reach_sigs([self.m.g] + list(roots))) if sigs is None else str(sigs),
                  ('range', smin + 1, smax + 1)]
        else:
            e += [REST]
        self.lines.append('snap ' + tag)
        self.exp.append(e)

    def case(self):
        if Builder.final is not None: Builder.final(self)
        if len(self.exp) > 4500: raise Unspecified('too many events')
        for e in self.exp:
            if sum(len(f) for f in e if isinstance(f, str)) > 60000: raise Unspecified('big event')
        return drv.Case(self.lines, {'exp': self.exp, 'labels': self.labels, 'src': self.src,
                                     'note': self.note})


def field_ok(g, e):
    if e is ANY: return True
    if isinstance(e, tuple):
        if e[0] == 'range': return e[1] <= int(g) <= e[2]
        if e[0] == 'in': return g in e[1]
        if e[0] == 're':
            import re
            return re.fullmatch(e[1], unhx(g).decode('latin-1'), re.S) is not None
        if e[0] == 'pre': return unhx(g).startswith(e[1])
        raise AssertionError(e)
    return g == e


def event_ok(g, e):
    if g is None or e is None: return False
    for i, f in enumerate(e):
        if f is REST: return True
        if i >= len(g) or not field_ok(g[i], f): return False
    return len(g) == len(e)


def compare(events, exp):
    """None, or a description of the first difference."""
    for i in range(max(len(events), len(exp))):
        g = events[i] if i < len(events) else None
        e = exp[i] if i < len(exp) else None
        if not event_ok(g, e):
            return 'event %d: observed %s, expected %s' % (i, pretty(g), pretty(e))
    return None


def pretty(e):
    if e is None: return '(nothing)'
    out = []
    for i, f in enumerate(e):
        if isinstance(f, str) and ((e[0] in ('R', 'T') and i == len(e[:4]) - 1 and i >= 2) or
                                   (e[0] in ('O', 'B', 'P') and i == 1)):
            try: f = repr(unhx(f))[1:]
            except ValueError: pass
        out.append(str(f)[:400])
    return ' '.join(out)


def verify(case):
    """The standard verdict on one case: None or a message."""
    if case.crash:
        return 'crash: %s in %s' % (case.crash[0], '/'.join(case.crash[1]))
    ev = case.events
    d = compare(ev, case.meta['exp'])
    if d: return d
    if case.leak and not case.meta.get('leak_ok'):
        return '%d bytes still allocated after the engine was destroyed' % case.leak
    return None
