"""C15 / C24 replay: the C sources of the scratch tree compiled with a checking allocator (cmem.c)."""
from base import *
import base, subprocess, glob, tempfile, atexit, shutil
import spherepy as sp
import spherepy.spherepy as core
from spherepy import csphi
from coefs import mk
from trans import path, sizes
HERE = os.path.dirname(os.path.abspath(__file__))
_h = {}


class Harness(object):
    def __init__(self):
        src = os.path.join(base.SCRATCH, 'src')
        files = [f for f in sorted(glob.glob(src + '/*.c')) if not f.endswith('_wrap.c')]
        self.dir = tempfile.mkdtemp(prefix='cmem.')
        atexit.register(shutil.rmtree, self.dir, True)
        exe = os.path.join(self.dir, 'h')
        objs = []
        for f in files + [os.path.join(HERE, 'cmem.c')]:
            o = os.path.join(self.dir, os.path.basename(f) + '.o')
            own = f.endswith('cmem.c')
            p = subprocess.run(['gcc', '-O1', '-w', '-c', '-I' + src, '-I' + HERE, '-include', 'cmem_alloc.h'] +
                               (['-DDV_HARNESS'] if own else []) + [f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise RuntimeError('replay harness: ' + p.stdout.decode(errors='replace')[:800])
            objs.append(o)
        p = subprocess.run(['gcc'] + objs + ['-lm', '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError('replay harness: ' + p.stdout.decode(errors='replace')[:800])
        self.exe = exe
        self.p = None

    def ask(self, *a):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, universal_newlines=True)
        try:
            self.p.stdin.write(' '.join(str(x) for x in a) + '\n')
            self.p.stdin.flush()
            r = self.p.stdout.readline().strip()
        except (BrokenPipeError, OSError):
            r = ''
        if not r:
            rc = self.p.wait()
            self.p = None
            return 'the C code crashes or does not end (exit %s)' % rc
        return r


def harness():
    if 'h' not in _h:
        _h['h'] = Harness()
    return _h['h']


@case
def c_transform(way, Nrow, Ncol, nmax, mmax, seed):
    for place in (0, 1):
        r = harness().ask(way, seed, place, Nrow, Ncol, nmax, mmax)
        check(r == 'ok', '%s(Nrow=%d, Ncol=%d, nmax=%d, mmax=%d): %s', 'fc_to_sc' if way == 'f' else 'sc_to_fc', Nrow, Ncol, nmax, mmax, r)


@case
def c_legendre(n, m, length):
    for place in (0, 1):
        r = harness().ask('y', 1, place, n, m, length)
        check(r == 'ok', 'ynunm(%d, %d, length %d): %s', n, m, length, r)


@case
def py_callers(kind, nmax, mmax, nrows, ncols, seed):
    """the transforms call the C routines only with admissible arguments"""
    seen = []

    def spy(name, old):
        def f(fd, sc, N, M):
            L = N + 1 + M * (2 * (N + 1) - M - 1)
            ok = 0 <= M <= N and sc.shape == (L,) and fd.ndim == 2 and fd.shape[0] % 2 == 0 and fd.shape[0] >= 2 * N + 2 and \
                fd.shape[1] % 2 == 0 and fd.shape[1] >= 2 * M + 2
            seen.append((name, fd.shape, sc.shape, int(N), int(M)))
            check(ok, '%s called with Fourier data %s, coefficients %s, nmax=%d, mmax=%d', *seen[-1])
            return old(fd, sc, N, M)
        return f
    c, _ = mk(nmax, mmax, seed, kind == 'vector')
    old = csphi.fc_to_sc, csphi.sc_to_fc
    csphi.fc_to_sc, csphi.sc_to_fc = spy('fc_to_sc', old[0]), spy('sc_to_fc', old[1])
    try:
        with path('cext'):
            if kind == 'scalar':
                p = sp.ispht(c, nrows, ncols)
                sp.spht(p, nmax, mmax)
            else:
                p = sp.vispht(c, nrows, ncols)
                sp.vspht(p, nmax, mmax)
    finally:
        csphi.fc_to_sc, csphi.sc_to_fc = old


@gen('C15')
def _(rng):
    for n, m in sizes_small(6):
        for R in (2 * n + 2, 2 * n + 4, 2 * n + 6):
            for C in (2 * m + 2, 2 * m + 4):
                for w in 'fs':
                    yield 'c_transform', dict(way=w, Nrow=R, Ncol=C, nmax=n, mmax=m, seed=rng.randrange(1000))
    while True:
        n = rng.randrange(0, 40)
        m = rng.choice([0, n, rng.randrange(0, n + 1)])
        yield 'c_transform', dict(way=rng.choice('fs'), Nrow=2 * n + 2 + 2 * rng.choice([0, 1, rng.randrange(0, 30)]),
                                  Ncol=2 * m + 2 + 2 * rng.choice([0, 1, rng.randrange(0, 20)]), nmax=n, mmax=m, seed=rng.randrange(1000))


@gen('C15')
def _(rng):
    for n in range(12):
        for m in range(-n - 2, n + 3):
            for L in (n + 1, n + 2, n + 5):
                yield 'c_legendre', dict(n=n, m=m, length=L)


@gen('C15')
def _(rng):
    for n, m, R, C in sizes(rng):
        yield 'py_callers', dict(kind='scalar', nmax=n, mmax=m, nrows=R, ncols=C, seed=rng.randrange(1000))
        if n >= 1:
            yield 'py_callers', dict(kind='vector', nmax=n, mmax=m, nrows=R, ncols=C, seed=rng.randrange(1000))


@case
def c_fft(n, inverse, inplace, seed):
    for place in (0, 1):
        r = harness().ask('k', seed, place, n, inverse, inplace)
        check(r == 'ok', 'kiss_fft of length %d (inverse=%d, in place=%d): %s', n, inverse, inplace, r)


@case
def c_findq(s):
    r = harness().ask('q', 1, 0, s)
    check(r == 'ok', 'FindQ(%d): %s', s, r)


@gen('C24')
def _(rng):
    for n in range(1, 300):
        for inv in (0, 1):
            for ip in (0, 1):
                yield 'c_fft', dict(n=n, inverse=inv, inplace=ip, seed=n)
    while True:
        yield 'c_fft', dict(n=rng.randrange(300, 1200), inverse=rng.randrange(2), inplace=rng.randrange(2), seed=rng.randrange(100))


@gen('C24')
def _(rng):
    for s in range(1, 3000):
        yield 'c_findq', dict(s=s)
