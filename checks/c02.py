"""Garbage collection is invisible to programs and hosts."""
from runner import Check
from kit import Builder
import gen, model
from c05 import Flow
from c06 import check as c06
from c07 import check as c07
from c08 import check as c08
from c09 import check as c09


class C(Check):
    id = 'C02'
    quick, thorough = 40000, 400000
    rule = ('Random programs (allocation-heavy scripts, property/array/string/JSON histories, host re-entry) are run '
            'with collections forced by a hook after every bytecode step, every k-th step or at random steps, with '
            'the string heap moved to a fresh exact-size block after every collection and freed cells poisoned. '
            'All events must equal the reference model, which has no collector. Non-trivial: at least one '
            'collection ran and at least two events were compared.')

    def nontrivial(self, c): return len(c.events) > 1 and c.stats[1] > 0

    def gen(self, r, i, tier):
        z = r.random()
        k = r.choice([2, 3, 5, 7, 11, 17, 40])
        mode = 'gc 1 1 1' if z < .5 else 'gc %d %d %d' % (r.choice([2, 3]), k, r.randrange(1 << 30))
        kind = i % 8
        if kind in (0, 1, 2, 3):
            b = Builder(r)
            b.m.budget = 5000
            b.cmd(mode)
            if kind < 3:
                g = gen.Gen(r, r.choice([0, 0, .03]))
                for _ in range(r.choice([1, 2, 3])): b.run(g.script(r.randrange(2, 9)), 0)
            else:
                b.run(Flow(r).block(4, 3), 0)
            b.snap('end')
            c = b.case()
        else:
            c = (c06, c07, c08, c09)[kind - 4].gen(r, i, tier)
            c.lines.insert(0, mode)
        c.meta['labels'] = set(c.meta['labels']) | {'mode ' + mode.split()[1]}
        return c


check = C()
