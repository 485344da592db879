"""Builds harness programs from /repo's working tree (hooks on) into build/."""
import genffi
import hashlib, os, subprocess, sys, glob, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

COMMON = ['common/cs_dbg.c', 'common/cs_file.c', 'common/cs_varint.c',
          'common/mbuf.c', 'common/mg_str.c', 'common/str_util.c',
          'frozen/frozen.c']


def sources():
    src = os.path.join(REPO, 'src')
    out = list(COMMON)
    out += sorted(os.path.relpath(p, src) for p in glob.glob(src + '/ffi/*.c')
                  if not p.endswith('_test.c'))
    out += sorted(os.path.basename(p) for p in glob.glob(src + '/mjs_*.c'))
    # source files a change may have added
    skip = {'cs_dirent.c', 'cs_time.c', 'test_main.c', 'test_util.c'} | {os.path.basename(p) for p in COMMON}
    out += sorted('common/' + os.path.basename(p) for p in glob.glob(src + '/common/*.c')
                  if os.path.basename(p) not in skip)
    return out


SAN = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all',
             '-fno-sanitize=pointer-overflow,function,shift,float-cast-overflow,'
             'nonnull-attribute',
             '-fno-omit-frame-pointer'],
    'tsan': ['-fsanitize=thread'],
    'msan': ['-fsanitize=memory', '-fno-omit-frame-pointer', '-fno-sanitize-recover=all'],
    'none': [],
}
DEFS = ['-DMJS_EXPOSE_PRIVATE', '-DCS_ENABLE_STDIO', '-DCS_MMAP',
        '-DMJS_MODULE_LINES', '-DMJS_MEMORY_STATS=1', '-DMJS_VERIF']


class BuildError(Exception):
    pass


def tree_hash(extra):
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith(('.c', '.h', '.inc')):
                files.append(os.path.join(root, f))
    for f in files + sorted(glob.glob(VERIF + '/harness/*')):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    h.update(repr((extra, SAN, DEFS)).encode())
    return h.hexdigest()[:20]


def build(name, harness, cc='clang', san='asan', opt='-O1', defs=(), flags=(),
          libs=('-ldl', '-lm', '-lpthread'), gen=None, base=None, wrap=True):
    """Returns the path of the program built from the current tree."""
    key = tree_hash((name, harness, cc, san, opt, tuple(defs), tuple(flags)) + ((base, wrap) if base is not None or not wrap else ()))
    d = os.path.join(BUILD, name + '-' + key)
    exe = os.path.join(d, name)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock-' + name), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        # drop outdated builds of the same program
        for old in glob.glob(os.path.join(BUILD, name + '-*')):
            if old != d and len(os.path.basename(old)) == len(name) + 21:
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        src = os.path.join(REPO, 'src')
        inc = ['-I' + REPO, '-I' + src, '-I' + src + '/frozen', '-I' + d,
               '-I' + os.path.join(VERIF, 'harness')]
        cflags = ([opt, '-g', '-std=gnu99', '-w'] + SAN[san] + (DEFS if base is None else list(base)) +
                  list(defs) + list(flags) + inc)
        (gen or genffi.gen)(d)
        units = [os.path.join(src, s) for s in sources()]
        units += [os.path.join(VERIF, 'harness', s) for s in harness]
        objs, jobs = [], []
        for i, u in enumerate(units):
            o = os.path.join(d, '%d_%s.o' % (i, os.path.basename(u)[:-2]))
            objs.append(o)
            jobs.append([cc, '-c', u, '-o', o] + cflags)

        def run(c):
            return subprocess.run(c, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True)
        with ThreadPoolExecutor(8) as ex:
            for r, c in zip(ex.map(run, jobs), jobs):
                if r.returncode != 0:
                    raise BuildError('%s\n%s' % (' '.join(c), r.stdout))
        r = run([cc, '-rdynamic'] + (['-Wl,--wrap=fwrite,--wrap=fclose'] if wrap else []) + ['-o', exe + '.tmp'] + objs + SAN[san] +
                [f for f in flags if f.startswith('-m')] + list(libs))
        if r.returncode != 0:
            raise BuildError(r.stdout)
        for o in objs:
            os.unlink(o)
        os.rename(exe + '.tmp', exe)
        return exe
