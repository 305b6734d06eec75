"""Builds the simulation flavour of pnumpy from /repo's working tree (content-hash keyed, parallel)."""
import os, re, sys, hashlib, subprocess, shutil, sysconfig, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(VERIF, '.build'))
PY = '/opt/vp/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable

WRAPS = ('syscall pthread_create pthread_join pthread_detach pthread_mutex_init pthread_mutex_destroy '
         'pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_cond_init pthread_cond_destroy '
         'pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast malloc free calloc realloc '
         'posix_memalign aligned_alloc _Znwm _Znam _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm usleep nanosleep sched_yield '
         'sched_getaffinity sched_setaffinity sysconf get_nprocs clock_gettime gettimeofday time _ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv memcpy memmove memset __printf_chk printf '
         'puts').split()


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b'\0')
    return h.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def incs():
    out = subprocess.check_output([PY, '-c', 'import numpy,sysconfig;print(numpy.get_include());print(sysconfig.get_paths()["include"])'], text=True)
    return out.split('\n')[:2]


def sources():
    src = []
    for line in open(os.path.join(REPO, 'setup.py')):
        s = line.strip()
        if s.startswith('#'):
            continue
        src += re.findall(r"""['"](src/[\w/]+\.(?:cpp|c|cc))['"]""", s)
    return src


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout


def atomic_dir(final, make):
    """make(tmpdir) then rename to final."""
    if os.path.isdir(final):
        return final
    tmp = '%s.tmp%d' % (final, os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    make(tmp)
    try:
        os.rename(tmp, final)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return final


def build(verbose=False, extra_defs=()):
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    npinc, pyinc = incs()
    srcs = sources()
    hdr = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        for f in sorted(fs):
            if f.endswith(('.h', '.hpp', '.inc', '.hxx')) and f != 'PNUMPY.h':
                hdr.append(os.path.join(d, f))
    hdrh = _sha(*[x for h in hdr for x in (h[len(REPO):], _read(h))])
    newdocs = os.path.join(REPO, '_add_newdocs.py')
    ndh = _sha(_read(newdocs)) if os.path.exists(newdocs) else ''
    flags = ['-g1', '-O2', '-w', '-fno-strict-overflow', '-DNDEBUG', '-DPyUnicode_GET_SIZE=PyUnicode_GET_LENGTH', '-fPIC',
             '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION', '-mavx2', '-fpermissive', '-std=c++11', '-pthread',
             '-falign-functions=32', '-fsanitize=thread', '-include', os.path.join(HERE, 'simpre.h'), '-ffile-prefix-map=%s=.' % REPO] + list(extra_defs)
    if os.environ.get('SIM_COV'):
        flags.append('-fsanitize-coverage=trace-pc')
    toolh = _sha(' '.join(flags), _read(os.path.join(HERE, 'simpre.h')), npinc, pyinc, ' '.join(WRAPS))

    # generated header
    def mk_gen(tmp):
        os.makedirs(os.path.join(tmp, 'src', 'pnumpy'))
        if os.path.exists(newdocs):
            shutil.copy(newdocs, tmp)
            run([PY, '-c', 'import _add_newdocs; _add_newdocs.main()'], cwd=tmp)
    gen = atomic_dir(os.path.join(BUILD, 'gen-' + ndh), mk_gen)
    geninc = os.path.join(gen, 'src', 'pnumpy')

    objs, jobs = [], []
    for s in srcs:
        p = os.path.join(REPO, s)
        key = _sha(toolh, hdrh, ndh, s, _read(p))
        o = os.path.join(BUILD, 'obj', key + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.getsize(p), p, o))
    jobs.sort(reverse=True)
    if os.path.basename(HERE) and jobs:
        # sort.cpp is by far the slowest: start it first
        jobs.sort(key=lambda j: (not j[1].endswith('sort.cpp'), -j[0]))

    def comp(j):
        _, p, o = j
        tmp = o + '.%d.tmp' % os.getpid()
        run(['g++'] + flags + ['-I', geninc, '-I', os.path.join(REPO, 'src/pnumpy'), '-I', os.path.join(REPO, 'src/atop'), '-I', npinc, '-I', pyinc, '-c', p, '-o', tmp])
        os.rename(tmp, o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(comp, jobs))

    pyfiles = []
    for d, dn, fs in sorted(os.walk(os.path.join(REPO, 'src/pnumpy'))):
        dn[:] = [x for x in dn if x not in ('tests', '__pycache__')]
        for f in sorted(fs):
            if f.endswith('.py') and f != '_version.py':
                pyfiles.append(os.path.join(d, f))
    key = _sha(toolh, 'l2', *([os.path.basename(o) for o in objs] + [x for p in pyfiles for x in (p[len(REPO):], _read(p))]))
    simrt_src = os.path.join(HERE, 'simrt.cpp')

    gil_src = os.path.join(HERE, 'gilpeek.c')

    def mk_rt(tmp):
        run(['gcc', '-c', '-O2', '-fPIC', '-I', pyinc, '-I', os.path.join(pyinc, 'internal'), gil_src, '-o', os.path.join(tmp, 'gilpeek.o')])
        run(['g++', '-shared', '-fPIC', '-O2', '-g1', '-w', '-std=c++17', '-mavx2', '-fno-omit-frame-pointer', '-Wl,-soname,libsimrt.so', '-I', npinc, '-I', pyinc, simrt_src, os.path.join(tmp, 'gilpeek.o'), '-o', os.path.join(tmp, 'simrt.so'), '-lpthread', '-ldl'])
    rt = atomic_dir(os.path.join(BUILD, 'simrt-' + _sha(_read(simrt_src), _read(gil_src), npinc, pyinc)), mk_rt)

    def mk_pkg(tmp):
        pk = os.path.join(tmp, 'pnumpy')
        for p in pyfiles:
            q = os.path.join(pk, os.path.relpath(p, os.path.join(REPO, 'src/pnumpy')))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copy(p, q)
        with open(os.path.join(pk, '_version.py'), 'w') as f:
            f.write("__version__='sim'\n")
        run(['g++', '-shared', '-pthread', '-Wl,-z,lazy'] + ['-Wl,--wrap=' + w for w in WRAPS] + objs + [os.path.join(rt, 'simrt.so'), '-o', os.path.join(pk, '_pnumpy.abi3.so'), '-lm'])
    pkg = atomic_dir(os.path.join(BUILD, 'pkg-' + key), mk_pkg)
    if verbose:
        print('build: %s (%d compiled) %.1fs' % (pkg, len(jobs), time.time() - t0), file=sys.stderr)
    return pkg, rt


if __name__ == '__main__':
    print(build(True))
