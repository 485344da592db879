"""Build options and platform do not change results."""
from runner import Check
from kit import Builder, ANY
import gen
from gen import lit, ident, call, emit
from c05 import Flow, nlit, check as c05
from padding import size, pad, padx
from c04 import check as c04
from c06 import check as c06
from c07 import check as c07
from c08 import check as c08
from c09 import check as c09
from c10 import check as c10
from c13 import check as c13, NARROW


def longexpr(r, d, tier):
    """Conditional and logical operators with long operands; its value is small."""
    if d <= 0 or r.random() < .2:
        if r.random() < .5: return r.choice([nlit(0), nlit(1), lit('null'), lit('true'), lit('false'), ('str', b''), ('str', b'q')])
        n = size(r, 'quick')
        return r.choice([('dot', ('str', b'g' * n), b'length'), ('bin', '===', ('str', b'h' * n), ('str', b'h'))])
    a, b, c = (longexpr(r, d - 1, tier) for _ in range(3))
    z = r.random()
    if z < .5: return ('cond', a, b, c)
    if z < .75: return ('log', '&&', a, b)
    if z < .95: return ('log', '||', a, b)
    return emit(a)


class C(Check):
    id = 'C16'
    quick, thorough = 16000, 200000
    configs = ['drv_off0', 'drv_off4', 'drv_aggr', 'drv_gcc', 'drv_32', 'drv_msan', 'drv',
               'drv_arena', 'drv_min', 'drv_debug']
    rule = ('The same kinds of cases (expressions, control flow, object, array, string, JSON and error histories, host API '
            'calls, and programs padded so that jumps cross the 1, 2, 3 and 4 byte boundaries) run in ten builds: initial jump '
            'size 0, 1, 2, 3 and 4, collection at every allocation, one-cell arenas without growth slack, no memory mapped files '
            'and no module lines, debug logging compiled in, gcc -O3, 32-bit, and clang with MemorySanitizer. All events must equal one '
            'reference which knows nothing of configurations. Non-trivial: at least two events were compared.')
    subs = [c04, c05, c06, c07, c08, c09, c10, c13]

    def gen(self, r, i, tier):
        k = (i // 10) % 12
        cfg = self.configs[i % 10]
        if k < 8:
            NARROW[0] = cfg == 'drv_32'
            c = self.subs[k].gen(r, r.randrange(1 << 20), tier)
            if c is None: return None
            c.meta['labels'] = {'%s %s' % (cfg, self.subs[k].id)}
            if cfg == 'drv_min':
                # no allocation counters in this build
                for e in c.meta['exp']:
                    if e[0] == 'S' and len(e) == 12: e[8:11] = [ANY] * 3
            return c
        b = Builder(r)
        b.m.budget = 4000
        if k < 11:
            for _ in range(r.choice([1, 1, 2])):
                p = Flow(r).block(4, r.randrange(1, 4))
                st = [r.choice([500, 40000, 70000])]
                if r.random() < .4: p = padx(p, r, tier, [r.choice([500, 40000])])
                if r.random() < .8: pad(('block', p), r, tier, st)
                b.run(p, 0)
                b.snap('z')
        else:
            for _ in range(r.choice([1, 2])):
                b.run([('expr', [emit(longexpr(r, 4, tier))]) for _ in range(r.randrange(1, 4))], 0)
                b.snap('z')
        c = b.case()
        c.meta['labels'] = {'%s %s' % (cfg, 'long jumps' if k < 11 else 'long operands')}
        return c


check = C()
