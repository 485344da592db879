"""plant(id, prop, [(file, old, new)...], needs, breaks, js=... | c=..., cflags='')
writes seeded/<id>/ from a change to a scratch copy of /repo's HEAD."""
import os, subprocess, json, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plantwork'


PRE = ''.join('#include "%s"\n' % h for h in ['mjs_internal.h', 'mjs_core.h', 'mjs_array.h', 'mjs_conversion.h', 'mjs_exec.h', 'mjs_ffi.h', 'mjs_gc.h',
      'mjs_json.h', 'mjs_object.h', 'mjs_primitive.h', 'mjs_string.h', 'mjs_util.h', 'mjs_dataview.h'])


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, text=True, check=True, **k).stdout


def plant(id, prop, subs, needs, breaks, js=None, c=None, cflags=''):
    if not os.path.isdir(W + '/.git'): sh('git clone -q /repo ' + W)
    sh('git fetch -q && git reset -q --hard FETCH_HEAD', cwd=W)
    for f, old, new in subs:
        p = W + '/' + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=W))
    # lines changed must be original
    for f in {x[0] for x in subs}:
        for l in sh('git diff -U0 %s' % f, cwd=W).splitlines():
            if l.startswith('@@'):
                a = l.split()[1][1:].split(',')
                n = int(a[1]) if len(a) > 1 else 1
                if n:
                    b = sh('git blame -s -L%d,+%d HEAD -- %s' % (int(a[0]), n, f), cwd=W)
                    for x in b.splitlines():
                        if not x.startswith('^') and '647c31d' not in x.split()[0]:
                            print('  NOT ORIGINAL', id, x)
    shutil.copy(V + '/tools/demo.sh', d + '/demo.sh')
    os.chmod(d + '/demo.sh', 0o755)
    if js is not None:
        shutil.copy(V + '/tools/demo_js.c', d + '/demo.c')
        open(d + '/demo.js', 'w').write(js)
    else:
        open(d + '/demo.c', 'w').write(PRE + c)
    if cflags: open(d + '/cflags', 'w').write(cflags)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
