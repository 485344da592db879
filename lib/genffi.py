"""Generates ffi_slots.inc: C functions of every register shape the FFI supports
(and a few it does not), NSLOT of each, all of which record what they got."""
import itertools, os

NSLOT = 12


def shapes():
    out = ['w' * n for n in range(0, 8)]
    for k in 'df':
        for n in (1, 2, 3):
            for t in itertools.product('w' + k, repeat=n):
                if k in t:
                    out.append(''.join(t))
    out += ['df', 'fd', 'wdf', 'dddd', 'ffff', 'wwwd', 'wwwf', 'dfw', 'wwwwwd']
    return out


CT = {'w': 'uintptr_t', 'd': 'double', 'f': 'float'}
RT = {'w': 'uintptr_t', 'b': 'uintptr_t', 'd': 'double', 'f': 'float'}


def gen(d):
    o = []
    tab = []
    for r in 'wbdf':
        for s in shapes():
            for k in range(NSLOT):
                nm = 'F_%s_%s_%d' % (r, s or 'v', k)
                ps = ', '.join('%s a%d' % (CT[c], i) for i, c in enumerate(s)) or 'void'
                o.append('static %s %s(%s) { union fa a[8]; memset(a, 0, sizeof(a)); ' % (RT[r], nm, ps))
                for i, c in enumerate(s):
                    o.append('a[%d].%s = a%d; ' % (i, c, i))
                o.append('{ union fa r = ffi_enter(%d, a); return r.%s; } }\n' %
                         (len(tab), {'b': 'w'}.get(r, r)))
                tab.append('{(void *) %s, "%s", "%s", NULL},\n' % (nm, r, s))
    o.append('static struct slot { void *fn; const char *r; const char *s; struct def *def; } slots[] = {\n')
    o += tab
    o.append('};\n#define NSLOTS %d\n' % len(tab))
    with open(os.path.join(d, 'ffi_slots.inc'), 'w') as f:
        f.write(''.join(o))
