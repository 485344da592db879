"""Runs one check: generate cases, run them, judge, confirm, report."""
import os, sys, json, time, random, hashlib, traceback, shutil, tempfile, re
from concurrent.futures import ProcessPoolExecutor, as_completed
import build, drv, kit
from model import Unspecified

VERIF = build.VERIF
_check = None


class Check:
    """A property's check. Subclasses define gen() and usually nothing else."""
    id = None
    quick, thorough = 4000, 60000       # number of cases
    block = 100                         # cases per driver process
    hang_s = 30
    rule = ''
    assumptions = []
    configs = None                      # names of driver builds, cases rotate
    level = 'exploration'

    def prepare(self, tier):
        names = self.configs or ['drv']
        self.exes = {n: CONFIGS[n]() for n in names}

    def exe_of(self, case, i):
        names = self.configs or ['drv']
        return names[i % len(names)]

    def gen(self, rng, i, tier):
        """A drv.Case (meta has 'exp', 'labels'), or None."""
        raise NotImplementedError

    def verify(self, case):
        return kit.verify(case)

    def nontrivial(self, case):
        return len(case.events) > 1

    def key(self, case, msg):
        """What identifies a violation in the known-findings file."""
        return case.meta.get('finding')

    def extra(self, tier, seed, report):
        """Checks that are not case based; call report(msg, replaydata)."""
        return {}


def std(name, more=(), **kw):
    return lambda: build.build(name, ['driver.c', 'hooks.c', 'ffi_lib.c'] + list(more), **kw)


CONFIGS = {
    'drv': std('drv'),
    'drv_off0': std('drv_off0', defs=['-DMJS_INIT_OFFSET_SIZE=0']),
    'drv_off4': std('drv_off4', defs=['-DMJS_INIT_OFFSET_SIZE=4']),
    'drv_aggr': std('drv_aggr', defs=['-DMJS_AGGRESSIVE_GC=1']),
    'drv_gcc': std('drv_gcc', cc='gcc', san='none', opt='-O3'),
    'drv_32': std('drv_32', opt='-O1', san='none', flags=['-m32', '-msse2', '-mfpmath=sse']),
    'drv_arena': std('drv_arena', defs=[
        '-DMJS_INIT_OFFSET_SIZE=2', '-DMBUF_SIZE_MULTIPLIER=1'] + ['-DMJS_%s_ARENA_%sSIZE=1' % (a, b)
        for a in ('OBJECT', 'PROPERTY', 'FUNC_FFI') for b in ('', 'INC_')]),
    'drv_min': std('drv_min', opt='-Os', san='none', base=[
        '-DMJS_EXPOSE_PRIVATE', '-DMJS_VERIF', '-DMJS_GENERATE_JSC=0', '-DCS_ENABLE_STDIO=1']),
    'drv_debug': std('drv_debug', defs=['-DMJS_ENABLE_DEBUG', '-DCS_ENABLE_DEBUG=1', '-DDRV_LOG=LL_DEBUG', '-DMJS_INIT_OFFSET_SIZE=3']),
    'drv_util': std('drv_util', ['util.c'], defs=['-DWITH_UTIL']),
    'drv_json': std('drv_json', ['json.c'], defs=['-DWITH_JSON']),
    'drv_msan': std('drv_msan', san='msan'),
}


def _worker(args):
    """Generates, runs and judges the cases [lo, hi)."""
    seed, tier, lo, hi = args
    ck = _check
    cases, disc = [], {}
    t0 = time.time()
    for i in range(lo, hi):
        rng = random.Random('%s:%d:%d' % (ck.id, seed, i))
        try:
            c = None
            for _ in range(20):
                try:
                    c = ck.gen(rng, i, tier)
                    break
                except Unspecified as e:
                    disc[str(e)] = disc.get(str(e), 0) + 1
                except RecursionError:
                    disc['recursion'] = disc.get('recursion', 0) + 1
        except Exception:
            raise RuntimeError('generator failed at case %d\n%s' % (i, traceback.format_exc()))
        if c is None: continue
        c.id = i
        c.meta.setdefault('exe', ck.exe_of(c, i))
        cases.append(c)
    tg = time.time() - t0
    work = tempfile.mkdtemp(prefix='verif.')
    try:
        groups = {}
        for c in cases: groups.setdefault(c.meta['exe'], []).append(c)
        for n, g in groups.items():
            ids = [c.id for c in g]
            drv._run_chunk(ck.exes[n], g, work, ck.hang_s)
            for c, k in zip(g, ids): c.id = k
        bad = []
        for c in cases:
            msg = ck.verify(c)
            if msg: bad.append((c, msg))
        viol = []
        for c, msg in bad[:20]:
            # must reproduce: alone, or after the cases which ran before it
            c2 = drv.Case(c.lines, c.meta)
            drv._run_chunk(ck.exes[c.meta['exe']], [c2], work,
                           ck.hang_s * (3 if 'crash: hang' in msg else 1))
            m2 = ck.verify(c2)
            pre = []
            if not m2 and 'crash: hang' not in msg:
                g = groups[c.meta['exe']]
                pre = g[:g.index(c)]
                cs = [drv.Case(x.lines, x.meta) for x in pre] + [c2]
                drv._run_chunk(ck.exes[c.meta['exe']], cs, work, ck.hang_s)
                m2 = ck.verify(c2)
            if m2:
                viol.append({'case': c.id, 'message': m2, 'exe': c.meta['exe'],
                             'key': ck.key(c2, m2),
                             'lines': c.lines, 'before': [x.lines for x in pre],
                             'events': [' '.join(e) for e in c2.events][:400],
                             'expected': [' '.join(str(f) for f in e)
                                          for e in c.meta.get('exp', [])][:400],
                             'source': [s.decode('latin-1') if isinstance(s, bytes) else s
                                        for s in c.meta.get('src', [])],
                             'stderr': c2.stderr})
    finally:
        shutil.rmtree(work, ignore_errors=True)
    cov, hashes = {}, []
    events = steps = gcs = 0
    for c in cases:
        for l in c.meta.get('labels', ()): cov[l] = cov.get(l, 0) + 1
        events += len(c.events)
        steps += c.stats[0]
        gcs += c.stats[1]
        if ck.nontrivial(c):
            hashes.append(hashlib.md5('\n'.join(c.lines).encode()).digest()[:8])
    known = sorted({(c.meta['finding'], m) for c, m in bad if c.meta.get('finding')})
    sample = None
    if cases:
        c = max(cases[:10], key=lambda c: len(c.events) if len(c.lines) < 40 else 0)
        sample = {'commands': [l[:600] for l in c.lines[:30]],
                  'source': [s.decode('latin-1')[:1500] for s in c.meta.get('src', [])
                             if isinstance(s, bytes)][:3],
                  'events': [' '.join(e)[:300] for e in c.events[:25]]}
    return {'n': len(cases), 'disc': disc, 'viol': viol, 'cov': cov, 'hashes': hashes,
            'events': events, 'steps': steps, 'gcs': gcs, 'sample': sample, 'gen_s': tg,
            'flaky': len(bad[:20]) - len(viol)}


def known_findings(pid):
    out = {}
    try:
        for line in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'known: property=(\w+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return out


def main(check, tier, seed, count=None, jobs=8):
    global _check
    sys.setrecursionlimit(20000)
    t0 = time.time()
    ck = _check = check
    ck.prepare(tier)
    n = count or (ck.quick if tier == 'quick' else ck.thorough)
    tot = {'n': 0, 'events': 0, 'steps': 0, 'gcs': 0, 'flaky': 0}
    disc, cov, hashes, viols, samples = {}, {}, set(), [], []
    blocks = [(seed, tier, lo, min(n, lo + ck.block)) for lo in range(0, n, ck.block)]
    stop_after = 25
    with ProcessPoolExecutor(jobs) as ex:
        futs = [ex.submit(_worker, b) for b in blocks]
        for f in as_completed(futs):
            if f.cancelled(): continue
            r = f.result()
            for k in tot: tot[k] += r[k]
            for k, v in r['disc'].items(): disc[k] = disc.get(k, 0) + v
            for k, v in r['cov'].items(): cov[k] = cov.get(k, 0) + v
            hashes.update(r['hashes'])
            viols += r['viol']
            if r['sample'] and len(samples) < 3: samples.append(r['sample'])
            if len([v for v in viols if not v['key']]) >= stop_after:
                for g in futs: g.cancel()
    extra = {}

    def report(msg, data=None, key=None):
        d = {'message': msg, 'key': key, 'case': 'extra'}
        d.update(data or {})
        viols.append(d)
    ex_cov = ck.extra(tier, seed, report) or {}
    known = known_findings(ck.id)
    fresh, seen = [], {}
    for v in viols:
        if v['key'] and v['key'] in known: seen.setdefault(v['key'], v)
        else: fresh.append(v)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    coverage = {'evaluations': tot['n'] + ex_cov.pop('evaluations', 0),
                'distinct_nontrivial': len(hashes) + ex_cov.pop('distinct_nontrivial', 0),
                'rule': ck.rule, 'samples': samples + ex_cov.pop('samples', []),
                'events_observed': tot['events'], 'bytecode_steps': tot['steps'],
                'collections': tot['gcs'],
                'generated_but_out_of_scope': disc,
                'not_reproduced': tot['flaky'],
                'operations': dict(sorted(cov.items(), key=lambda x: str(x[0])))}
    coverage.update(ex_cov)
    ev = {'property': ck.id, 'tier': tier, 'seed': seed, 'level': ck.level, 'coverage': coverage,
          'assumptions': ck.assumptions, 'wall_s': round(time.time() - t0, 2),
          'violations': len(fresh)}
    with open(os.path.join(VERIF, 'evidence', ck.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in sorted(known):
        if k in seen: print('KNOWN-FINDING: property=%s %s' % (ck.id, known[k]))
    print('%s %s seed=%d: %d cases (%d distinct), %d events, %d steps, %d collections, %.1fs' % (
        ck.id, tier, seed, coverage['evaluations'], coverage['distinct_nontrivial'],
        tot['events'], tot['steps'], tot['gcs'], time.time() - t0))
    if coverage['evaluations'] == 0 or coverage['distinct_nontrivial'] == 0:
        print('nothing was observed')
        return 2
    if fresh:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        fresh.sort(key=lambda v: sum(len(l) for l in v.get('lines', [])))
        path = os.path.join(VERIF, 'replay', '%s.json' % ck.id)
        with open(path, 'w') as f: json.dump(fresh[:5], f, indent=1)
        v = fresh[0]
        print(v['message'][:2000])
        for s in v.get('source', []): print('  source: ' + s[:1000])
        if v.get('stderr'): print(v['stderr'][:1500])
        print('VIOLATION property=%s replay=%s' % (ck.id, path))
        return 1
    return 0
