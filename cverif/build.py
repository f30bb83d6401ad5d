"""Compile /repo's current working tree (every run, into a scratch directory).

build(outdir, san=False) -> path of a shared library that contains all of ECOS
with file-local ("static") functions made visible, so that each of them can be
called under its contract.  Nothing is written in /repo.
"""
import os, subprocess, glob, shutil, re
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
DEFS = ['-DCTRLC=1', '-DDLONG', '-DLDL_LONG']
INCS = ['include', 'external/amd/include', 'external/ldl/include', 'external/SuiteSparse_config']


def cflags(repo=None):
    repo = repo or REPO
    return DEFS + ['-I' + os.path.join(repo, i) for i in INCS]


def sources(repo=None):
    repo = repo or REPO
    out = []
    for f in sorted(glob.glob(repo + '/src/*.c')):
        if os.path.basename(f) in ('runecos.c', 'runecos_exp.c'):
            continue
        out.append(f)
    out += sorted(glob.glob(repo + '/ecos_bb/*.c'))
    out += sorted(glob.glob(repo + '/external/ldl/src/*.c'))
    out += sorted(glob.glob(repo + '/external/amd/src/*.c'))
    return out


STUB = r'''
#include <signal.h>
#include <stdlib.h>
/* number of live heap blocks of the code under test */
long verif_live = 0;
extern void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t);
extern void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) verif_live++; return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); if (p) verif_live++; return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (p && !q) verif_live++; return p; }
void __wrap_free(void *p) { if (p) verif_live--; __real_free(p); }
int verif_int_at = -1, verif_polls = 0;
extern int __real_check_ctrlc(void) __attribute__((weak));
int __wrap_check_ctrlc(void)
{
    if (verif_int_at >= 0 && verif_polls == verif_int_at) raise(SIGINT);
    verif_polls++;
    return __real_check_ctrlc ? __real_check_ctrlc() : 0;
}
'''


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])
    return r.stdout


def build(outdir, san=False, repo=None):
    repo = repo or REPO
    os.makedirs(outdir, exist_ok=True)
    flags = ['-g', '-fPIC', '-w', '-fkeep-static-functions', '-fno-omit-frame-pointer']
    flags += ['-O1', '-fsanitize=address', '-fno-inline'] if san else ['-O1', '-fno-inline']

    def one(src):
        o = os.path.join(outdir, re.sub(r'\W', '_', os.path.relpath(src, repo)) + '.o')
        _run(['gcc', '-c', src, '-o', o] + flags + cflags(repo))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sources(repo)))
    # make file-local functions visible (first definition wins; header statics
    # appear in several objects and are globalised once)
    seen = set()
    jobs = []
    for o in objs:
        nm = _run(['nm', o]).splitlines()
        loc = []
        for l in nm:
            p = l.split()
            if len(p) == 3 and p[1] in 'tbd' and '.' not in p[2] and p[2] not in seen and not p[2].startswith('_sub_'):
                seen.add(p[2]); loc.append(p[2])
        if loc:
            jobs.append(['objcopy'] + ['--globalize-symbol=' + s for s in loc] + [o])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, jobs))
    so = os.path.join(outdir, 'libecosv.so')
    # executions can ask for an interrupt at the k-th poll of the solver (a real SIGINT raised just before the poll)
    stub = os.path.join(outdir, 'verif_stub.c')
    open(stub, 'w').write(STUB)
    _run(['gcc', '-c', stub, '-o', stub + '.o', '-fPIC', '-w', '-O1'] + cflags(repo))
    objs.append(stub + '.o')
    _run(['gcc', '-shared', '-Wl,--wrap=check_ctrlc,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free', '-o', so] + objs + ['-lm'] + (['-fsanitize=address'] if san else []))
    return so


if __name__ == '__main__':
    import sys, time
    t = time.time()
    print(build(sys.argv[1], san=len(sys.argv) > 2), time.time() - t)
