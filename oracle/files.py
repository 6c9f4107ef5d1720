"""Concrete oracle for C18: saved files, in a temporary directory."""
import tempfile, shutil
from base import *
import spherepy as sp
from spherepy import file as fl
from coefs import mk, seed
from patts import grid


class tmp(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='oracle18')
        return lambda n: os.path.join(self.d, n)

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def special(s, L, kind):
    """values with awkward decimal representations, subnormals, signed zeros, extremes"""
    r = np.random.RandomState(s % 2 ** 31)
    if kind == 0:
        return rvec(s, L)
    if kind == 1:
        v = r.uniform(-1, 1, L) * 10.0 ** r.uniform(-300, 300, L) + 1j * r.uniform(-1, 1, L) * 10.0 ** r.uniform(-300, 300, L)
        return v
    v = np.empty(L, complex)
    t = [0.1, 1 / 3.0, -0.0, 0.0, 5e-324, 1.7976931348623157e308, -2.2250738585072014e-308, 1 + 2.0 ** -52, -1e16 - 2, 123456789.0123456789, 1e22, -7.0]
    v.real = [t[i] for i in r.randint(0, len(t), L)]
    v.imag = [t[i] for i in r.randint(0, len(t), L)]
    return v


@gen('C18')
def _(rng):
    for i, (n, m) in enumerate(sizes_small(4)):
        yield 'c18c', dict(nmax=n, mmax=m, s=seed(rng), kind=i % 3)
    while True:
        n = rng.randrange(0, 16)
        yield 'c18c', dict(nmax=n, mmax=rng.randrange(0, n + 1), s=seed(rng), kind=rng.randrange(3))


@gen('C18')
def _(rng):
    for R in range(2, 6):
        for h in range(1, 5):
            yield 'c18p', dict(R=R, C=2 * h, s=seed(rng), kind=(R + h) % 8, asym=bool(h % 2))
            yield 'c18v', dict(R=R, C=2 * h, s=seed(rng), kind=(R + h) % 8)
    while True:
        R, C = rng.randrange(2, 14), 2 * rng.randrange(1, 9)
        yield 'c18p', dict(R=R, C=C, s=seed(rng), kind=rng.randrange(8), asym=rng.random() < .5)
        yield 'c18v', dict(R=R, C=C, s=seed(rng), kind=rng.randrange(8))


def bits(a, b, msg):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Bad('%s: shape %s instead of %s' % (msg, a.shape, b.shape))
    same(a, b, msg)


def old_file(name, s):
    """the name may already be in use: by nothing, something short, something long"""
    if s % 3:
        with open(name, 'w') as f:
            f.write('1,0\n1.0,2.0\n3.0,4.0\n' * (1 if s % 3 == 1 else 40))


@case
def c18c(nmax, mmax, s, kind):
    ms = modes(nmax, mmax)
    v = special(s, len(ms), kind)
    c = sp.ScalarCoefs(v.copy(), nmax, mmax)
    with tmp() as f:
        old_file(f('c.txt'), s)
        fl.save_coef(c, f('c.txt'))
        same(c._vec, v, 'the saved set')
        L = open(f('c.txt')).read().split('\n')
        check(L[-1] == '' and len(L) == len(ms) + 2, 'one header line and one line per mode: %s lines', len(L) - 1)
        check([int(x) for x in L[0].split(',')] == [nmax, mmax], 'header %r', L[0])
        for i, x in enumerate(L[1:-1]):
            a, b = x.split(',')
            check(float(a) == v[i].real and float(b) == v[i].imag, 'line %s: %r for %r', i + 1, x, complex(v[i]))
        d = fl.load_coef(f('c.txt'))
    check(isinstance(d, sp.ScalarCoefs) and d.nmax == nmax and d.mmax == mmax, 'size %s %s', d.nmax, d.mmax)
    bits(d._vec, v, 'loaded modes')
    for i in range(0, len(ms), max(1, len(ms) // 7)):
        check(d[ms[i]] == v[i], 'mode %s', ms[i])


@case
def c18p(R, C, s, kind, asym):
    a = grid(s, R, C, kind)
    p = sp.ScalarPatternUniform(a, doublesphere=False)
    if asym:
        p = sp.ScalarPatternUniform(special(s, (2 * R - 2) * C, s % 3).reshape(2 * R - 2, C), doublesphere=True)
    D = np.array(p._dsphere)
    g = np.array(p.cdata)
    with tmp() as f:
        old_file(f('p.txt'), s)
        fl.save_patt(p, f('p.txt'))
        same(p._dsphere, D, 'the saved pattern')
        L = open(f('p.txt')).read().split('\n')
        check(L[-1] == '' and len(L) == R * C + 2, 'one header line and one line per point: %s lines', len(L) - 1)
        check([int(x) for x in L[0].split(',')] == [R, C], 'header %r', L[0])
        for k, x in enumerate(L[1:-1]):
            i, j, re, im = x.split(',')
            check((int(i), int(j)) == divmod(k, C), 'line %s: point %s,%s', k + 1, i, j)
            z = complex(g[int(i), int(j)])
            check(float(re) == z.real and float(im) == z.imag, 'line %s: %r for %r', k + 1, x, z)
        q = fl.load_patt(f('p.txt'))
        bits(fl.load_fdata(f('p.txt')), g, 'load_fdata')
    check(isinstance(q, sp.ScalarPatternUniform) and q.nrows == R and q.ncols == C, 'size %s %s', q.nrows, q.ncols)
    if not asym:
        close(q.cdata, g, 'loaded grid', 1e-15)
        close(q._dsphere, D, 'loaded doubled array', 1e-15)


@case
def c18v(R, C, s, kind):
    gs = [grid(s, R, C, kind), grid(s + 1, R, C, kind)]
    D = [rvec(s + k, (2 * R - 2) * C).reshape(2 * R - 2, C) for k in (2, 3)]
    ps = [sp.ScalarPatternUniform(x, doublesphere=True) for x in D] if s % 2 else [sp.ScalarPatternUniform(x, doublesphere=False) for x in gs]
    with tmp() as f:
        for i, p in enumerate(ps):
            fl.save_patt(p, f(str(i)))
        q = fl.load_vpatt(f('0'), f('1'))
    w = sp.TransversePatternUniform(ps[0].cdata, ps[1].cdata, doublesphere=False)
    check(isinstance(q, sp.TransversePatternUniform) and q.nrows == R and q.ncols == C, 'size %s %s', q.nrows, q.ncols)
    close(q._tdsphere, w._tdsphere, 'theta', 1e-15)
    close(q._pdsphere, w._pdsphere, 'phi', 1e-15)
