"""Build instrumented drivers and programs from /repo's current sources (outside /repo)."""
import glob
import hashlib
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
from vc.cast import REPO, make_config_h

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, '.build')
CFLAGS = ['-g', '-O1', '-w', '-Werror=implicit-function-declaration', '-D_GNU_SOURCE', '-DHAVE_CONFIG_H', '-std=gnu99', '-fno-omit-frame-pointer',
          '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
SETS = {
    'common': ['common'],
    'blogc': ['common', 'blogc'],
    'make': ['common', 'blogc-make'],
    'runserver': ['common', 'blogc-runserver'],
    'git': ['common', 'blogc-git-receiver'],
}
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77', TZ='UTC')


class BuildError(Exception):
    pass


def sources(dirs, main=False):
    r = []
    for d in dirs:
        for f in sorted(glob.glob(os.path.join(REPO, 'src', d, '*.c'))):
            if not main and os.path.basename(f) == 'main.c':
                continue
            r.append(f)
    return r


def key(extra=()):
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, 'src', '*', '*.[ch]'))) + list(extra):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


def build(name, set_, driver=None, cflags=CFLAGS, defs=(), libs=('-lpthread', '-lm'), main=False):
    """-> path of an executable linking the sources of a set with a driver (or the program's own main)"""
    ex = [os.path.join(VERIF, 'bounded', 'drivers', driver)] if driver else []
    hdr = glob.glob(os.path.join(VERIF, 'bounded', 'drivers', '*.h'))
    k = key(ex + hdr + [__file__])
    d = os.path.join(OUT, 'drv', name + '-' + k)
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(OUT, 'drv', name + '-*')):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d)
    inc = os.path.join(d, 'inc')
    os.makedirs(inc, exist_ok=True)
    make_config_h(inc)
    srcs = sources(SETS[set_], main) + ex

    def one(s):
        o = os.path.join(d, s.replace('/', '_') + '.o')
        c = ['gcc', *cflags, *defs, '-I', inc, '-I', os.path.join(REPO, 'src'), '-I', os.path.join(VERIF, 'bounded', 'drivers'), '-c', s, '-o', o]
        p = subprocess.run(c, capture_output=True, text=True)
        if p.returncode:
            raise BuildError('%s: %s' % (s, p.stderr[-2000:]))
        return o
    with ThreadPoolExecutor(8) as ex_:
        objs = list(ex_.map(one, srcs))
    p = subprocess.run(['gcc', *cflags, '-o', exe + '.t', *objs, *libs], capture_output=True, text=True)
    if p.returncode:
        raise BuildError('link %s: %s' % (name, p.stderr[-2000:]))
    os.rename(exe + '.t', exe)
    for o in objs:
        os.unlink(o)
    return exe
