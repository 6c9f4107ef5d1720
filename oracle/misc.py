"""Concrete oracle: factories (C19), untouched inputs and independent results (C20), Bessel functions (C22), sampler (C25)."""
import tempfile, shutil, math, copy
from fractions import Fraction
from base import *
import spherepy as sp
import spherepy.spherepy as core
from spherepy import file as fl, ops, sbessel
from coefs import mk, seed
from patts import grid


# ------------------------------------------------------------------ C19
@gen('C19')
def _(rng):
    i = 0
    for n, m in sizes_small(4):
        for v in (False, True):
            for f in ('zeros', 'ones', 'random'):
                yield 'c19c', dict(f=f, nmax=n, mmax=m, vec=v, s=seed(rng))
    for R in range(2, 6):
        for C in range(1, 7):
            for v in (False, True):
                for f in ('zeros', 'ones', 'random'):
                    yield 'c19p', dict(f=f, R=R, C=C, vec=v, s=seed(rng))
    while True:
        n = rng.randrange(0, 25)
        yield 'c19c', dict(f=rng.choice(['zeros', 'ones', 'random', 'random']), nmax=n, mmax=rng.randrange(0, n + 3), vec=rng.random() < .5, s=seed(rng))
        yield 'c19p', dict(f=rng.choice(['zeros', 'ones', 'random', 'random']), R=rng.randrange(2, 30), C=rng.randrange(1, 30), vec=rng.random() < .5, s=seed(rng))


def fresh(xs, mu, sg, msg):
    """xs: complex values that should be independent mu/sigma draws"""
    x = np.concatenate([np.concatenate([np.real(a).ravel(), np.imag(a).ravel()]) for a in xs])
    check(len(np.unique(x)) == len(x), '%s: a drawn number is used twice', msg)
    n = len(x)
    if n >= 40 and sg:
        z = (x - mu) / sg
        check(abs(z.mean()) < 6.5 / math.sqrt(n), '%s: mean %r instead of %r', msg, x.mean(), mu)
        check(abs((z ** 2).mean() - 1) < 6.5 * math.sqrt(2.0 / n), '%s: deviation %r instead of %r', msg, x.std(), sg)
    return x


@case
def c19c(f, nmax, mmax, vec, s):
    fn = getattr(sp, f + '_coefs')
    if mmax > nmax:
        raises(ValueError, lambda: fn(nmax, mmax, coef_type=sp.vector if vec else sp.scalar), '%s_coefs(%d,%d)' % (f, nmax, mmax))
        return
    for t in (2, -1, None, 'vector', 7):
        raises(TypeError, lambda: fn(nmax, mmax, coef_type=t), '%s_coefs type %r' % (f, t))
    np.random.seed(s % 2 ** 31)
    kw = {}
    mu, sg = 0.0, 1.0
    if f == 'random' and s % 3:
        mu, sg = [(2.5, 0.5), (-3.0, 4.0), (0.0, 1e-3)][s % 7 % 3]
        kw = dict(mu=mu, sigma=sg)
    c = fn(nmax, mmax, coef_type=sp.vector, **kw) if vec else fn(nmax, mmax, **kw) if s % 2 else fn(nmax, mmax, coef_type=sp.scalar, **kw)
    check(type(c) is (sp.VectorCoefs if vec else sp.ScalarCoefs), 'type %s', type(c))
    check(c.nmax == nmax and c.mmax == mmax, 'size %s %s', c.nmax, c.mmax)
    ms = modes(nmax, mmax)
    parts = [c.scoef1, c.scoef2] if vec else [c]
    for p in parts:
        check(p.nmax == nmax and p.mmax == mmax and len(p._vec) == len(ms), 'size of a part')
    lo = 1 if vec else 0
    if f == 'random':
        fresh([np.array([p[k] for k in ms[lo:]]) for p in parts], mu, sg, 'random_coefs(%d,%d)' % (nmax, mmax))
        for p in parts:
            check(not vec or p[0, 0] == 0, 'monopole %r', p[0, 0])
        a = parts[0]._vec.copy()
        d = fn(nmax, mmax, coef_type=sp.vector if vec else sp.scalar, **kw)
        if len(ms) > 1 and sg:
            check(not np.any((d.scoef1 if vec else d)._vec[lo:] == a[lo:]), 'two calls return the same numbers')
        return
    w = 0 if f == 'zeros' else 1
    for p in parts:
        for k in ms:
            check(p[k] == (w if k[0] >= lo else 0), '%s_coefs: mode %s is %r', f, k, p[k])


@case
def c19p(f, R, C, vec, s):
    fn = getattr(sp, f + '_patt_uniform')
    if C % 2:
        raises(ValueError, lambda: fn(R, C, patt_type=sp.vector if vec else sp.scalar), '%s_patt_uniform(%d,%d)' % (f, R, C))
        return
    for t in (2, -1, None, 'vector', 7):
        raises(TypeError, lambda: fn(R, C, patt_type=t), '%s_patt_uniform type %r' % (f, t))
    np.random.seed(s % 2 ** 31)
    p = fn(R, C, patt_type=sp.vector) if vec else fn(R, C) if s % 2 else fn(R, C, patt_type=sp.scalar)
    check(type(p) is (sp.TransversePatternUniform if vec else sp.ScalarPatternUniform), 'type %s', type(p))
    check(p.nrows == R and p.ncols == C, 'size %s %s', p.nrows, p.ncols)
    gs = [p.theta, p.phi] if vec else [p.cdata]
    ds = [p._tdsphere, p._pdsphere] if vec else [p._dsphere]
    for g, d in zip(gs, ds):
        check(g.shape == (R, C) and d.shape == (2 * R - 2, C), 'shapes %s %s', g.shape, d.shape)
    if f == 'random':
        if R > 2:
            fresh([g[1:-1] for g in gs], 0.0, 1.0, 'random_patt_uniform(%d,%d)' % (R, C))
        for g in gs:
            check(len(np.unique(g)) >= (R - 2) * C + (2 if C > 2 or not vec else 1), 'few different values')
        check(p.is_symmetric if not vec else p.is_symmetric, 'symmetric')
        return
    w = 0 if f == 'zeros' else 1
    for g in gs + ds:
        check(np.all(g == w), '%s_patt_uniform: a point differs', f)


# ------------------------------------------------------------------ C20
def objects(nmax, mmax, R, C, s, kind):
    v = [rvec(s + i, len(modes(nmax, mmax)), kind) for i in range(2)]
    for x in v:
        x[0] = 0
    c = sp.ScalarCoefs(v[0].copy(), nmax, mmax)
    vc = sp.VectorCoefs(v[0].copy(), v[1].copy(), nmax, mmax)
    D = [grid(s + i, R, C, kind + 4 if kind == 2 else kind) for i in range(2)]
    p = sp.ScalarPatternUniform(D[0] + 0j, doublesphere=False)
    t = sp.TransversePatternUniform(D[0] + 0j, D[1] + 0j, doublesphere=False)
    E = [rvec(s + 5 + i, (2 * R - 2) * C).reshape(2 * R - 2, C) for i in range(2)]
    pr = sp.ScalarPatternUniform(E[0], doublesphere=True)
    tr = sp.TransversePatternUniform(E[0].copy(), E[1], doublesphere=True)
    return c, vc, p, t, pr, tr


def mem(o, seen=None):
    """all numpy arrays reachable from an object"""
    if isinstance(o, np.ndarray):
        return [o]
    if isinstance(o, (list, tuple)):
        return [a for x in o for a in mem(x)]
    if isinstance(o, dict):
        return [a for x in o.values() for a in mem(x)]
    if hasattr(o, '__dict__'):
        return [a for x in vars(o).values() for a in mem(x)]
    return []


def state(o):
    if isinstance(o, np.ndarray):
        return (o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, (list, tuple)):
        return tuple(state(x) for x in o)
    if isinstance(o, dict):
        return tuple((k, state(o[k])) for k in sorted(o))
    if hasattr(o, '__dict__'):
        return (type(o).__name__, state(vars(o)))
    return repr(o)


USES = {}


def use(*kinds, **kw):
    def d(f):
        for k in kinds:
            USES[(f.__name__, k)] = (f, k, kw.get('fresh', False))
        return f
    return d


@use('c', 'vc', fresh=True)
def do_copy(o, nmax, mmax, R, C, s):
    return o.copy()


@use('c', 'vc', fresh=True)
def do_truncate(o, nmax, mmax, R, C, s):
    return o[0:s % (nmax + 1), :]


@use('c', 'vc', fresh=True)
def do_inverse(o, nmax, mmax, R, C, s):
    return (sp.vispht if isinstance(o, sp.VectorCoefs) else sp.ispht)(o, R, C)


@use('c', fresh=True)
def do_inverse_slow(o, nmax, mmax, R, C, s):
    return sp.ispht_slow(o, R, C)


@use('p', 't', 'pr', 'tr', fresh=True)
def do_forward(o, nmax, mmax, R, C, s):
    return (sp.vspht if isinstance(o, sp.TransversePatternUniform) else sp.spht)(o, nmax, mmax)


@use('p', 'pr', fresh=True)
def do_forward_slow(o, nmax, mmax, R, C, s):
    return sp.spht_slow(o, nmax, mmax)


@use('c', 'vc', 'p', 't', 'pr', 'tr')
def do_norms(o, nmax, mmax, R, C, s):
    k = 'coef' if hasattr(o, 'nmax') else 'patt'
    getattr(sp, 'L2_' + k)(o)
    getattr(sp, 'LInf_' + k)(o)


@use('c', 'vc', 'p', 't', 'pr', 'tr')
def do_mags(o, nmax, mmax, R, C, s):
    sp.mag(o)
    sp.mag2(o)
    if isinstance(o, (sp.ScalarCoefs, sp.ScalarPatternUniform)):
        sp.abs(o)
    if isinstance(o, sp.ScalarCoefs):
        o.angular_power_spectrum()
        o.power()
        sp.compare_relative(o, o.copy())
    if not hasattr(o, 'nmax'):
        sp.array(o)


@use('c', 'p', 'pr')
def do_save(o, nmax, mmax, R, C, s):
    d = tempfile.mkdtemp(prefix='oracle20')
    try:
        (fl.save_coef if isinstance(o, sp.ScalarCoefs) else fl.save_patt)(o, os.path.join(d, 'x'))
    finally:
        shutil.rmtree(d)


@gen('C20')
def _(rng):
    i = 0
    while True:
        n = rng.randrange(0, 7) if i > 6 else i % 4
        m = rng.randrange(0, n + 1)
        R, C = n + 2 + rng.randrange(0, 4), 2 * m + 2 + 2 * rng.randrange(0, 3)
        for (nm, k) in sorted(USES):
            for how in ((True, False) if 'ward' in nm or 'verse' in nm else (True,)):
                yield 'c20', dict(op=nm, arg=k, nmax=n, mmax=m, R=R, C=C, s=seed(rng), kind=i % 3, cext=how)
        yield 'c20g', dict(R=R, C=C, s=seed(rng), kind=i % 8)
        i += 1


@case
def c20(op, arg, nmax, mmax, R, C, s, kind, cext):
    o = dict(zip(('c', 'vc', 'p', 't', 'pr', 'tr'), objects(nmax, mmax, R, C, s, kind)))[arg]
    f, _, fr = USES[(op, arg)]
    before = state(o)
    old = core.use_cext
    core.use_cext = cext
    try:
        r = f(o, nmax, mmax, R, C, s)
    finally:
        core.use_cext = old
    check(state(o) == before, '%s changes its argument (%s)', op, arg)
    if not fr:
        return
    for a in mem(r):
        for b in mem(o):
            check(not np.shares_memory(a, b), 'result of %s shares storage with its argument (%s)', op, arg)
    rs = state(r)
    for a in mem(o):
        a[...] = 77
    check(state(r) == rs, 'changing the argument of %s changes the result', op)
    before = state(o)
    for a in mem(r):
        a[...] = -5
    check(state(o) == before, 'changing the result of %s changes the argument', op)


@case
def c20g(R, C, s, kind):
    a, b = grid(s, R, C, kind), grid(s + 1, R, C, kind)
    x, y = state(a), state(b)
    sp.ScalarPatternUniform(a, doublesphere=False)
    check(state(a) == x, 'building a scalar pattern changes the grid')
    sp.TransversePatternUniform(a, b, doublesphere=False)
    check(state(a) == x and state(b) == y, 'building a transverse pattern changes the grid')


# ------------------------------------------------------------------ C22
def jref(n, x):
    """spherical Bessel function of the first kind, power series in 500-bit fixed point relative to the leading term"""
    X = Fraction(x)
    lead = Fraction(1)
    for k in range(1, n + 1):
        lead = lead * X / (2 * k + 1)
    sh = 500
    h = int(X * X / 2 * 2 ** sh)
    t = s = 2 ** sh
    k = 0
    while t:
        k += 1
        t = -(t * h >> sh) // (k * (2 * n + 2 * k + 1))
        s += t
        if k > 60 and abs(t) <= 1:
            break
    return float(lead * Fraction(s, 2 ** sh))


@gen('C22')
def _(rng):
    xs = [1.0, .5, -2.0, 3.25, 10.0, math.pi, -7.5, .01, 25.0, 40.5, 1e-3, 2 * math.pi, 4.493409457909064, 0.75, 60.0]
    for N in (1, 2, 3, 4, 7, 15, 30):
        for x in xs:
            yield 'c22', dict(x=x, N=N)
    while True:
        if rng.random() < .2:               # the denominators of the continued fraction, and zeros of j_n
            k = rng.randrange(1, 22)
            yield 'c22', dict(x=math.sqrt(4 * k * k - 1) * (1 + rng.choice([0, 1e-15, -1e-14, 1e-12])), N=max(1, k + rng.randrange(-1, 3)))
        yield 'c22', dict(x=rng.choice([-1, 1]) * rng.choice([rng.uniform(.05, 5), rng.uniform(1, 40), 10 ** rng.uniform(-3, 1)]), N=rng.randrange(1, 45))


@case
def c22(x, N):
    j, y = np.asarray(sbessel.sbesselj(x, N)), np.asarray(sbessel.sbessely(x, N))
    check(j.shape == (N,) and y.shape == (N,), 'lengths %s %s', j.shape, y.shape)
    c, s = math.cos(x), math.sin(x)

    def near(a, b, sc, msg):
        if np.isfinite(sc) and sc < 1e290 and not abs(a - b) <= 1e-9 * sc + 1e-280:
            raise Bad('%s (x=%r, N=%d): got %r expected %r' % (msg, x, N, float(a), float(b)))
    near(y[0], -c / x, abs(1 / x), 'y_0')
    if N > 1:
        near(y[1], -c / x ** 2 - s / x, 1 / x ** 2 + abs(1 / x), 'y_1')
    for n in range(2, N):
        b = (2 * n - 1) / x * y[n - 1]
        near(y[n], b - y[n - 2], abs(b) + abs(y[n - 2]), 'y_%d' % n)
    near(j[0], s / x, abs(1 / x), 'j_0')
    for n in range(1, N - 1):
        b = (2 * n + 1) / x * j[n]
        near(j[n + 1], b - j[n - 1], abs(b) + abs(j[n - 1]) + abs(j[n + 1]), 'j_%d' % (n + 1))
    for n in range(N):
        if abs(x) <= 45:
            ref = jref(n, x)
            lo = abs(ref)
            if n <= abs(x) + 1:
                lo = max(lo, 1 / abs(x) * .1)
            if not abs(j[n] - ref) <= 1e-6 * lo + 1e-280:
                raise Bad('j_%d(%r) with N=%d: got %r expected %r' % (n, x, N, float(j[n]), ref))
    for f in (sbessel.sbesselj, sbessel.sbessely, sbessel.sbesselh1, sbessel.sbesselh2):
        if np.all(np.isfinite(f(x, N))):
            repeated(lambda: f(x, N), '%s(%r, %d)' % (f.__name__, x, N))
    h1, h2 = np.asarray(sbessel.sbesselh1(x, N)), np.asarray(sbessel.sbesselh2(x, N))
    for h, sg, nm in ((h1, 1j, 'h1'), (h2, -1j, 'h2')):
        check(h.shape == (N,), nm + ' length')
        for n in range(N):
            if np.isfinite(y[n]):
                check(abs(h[n] - (j[n] + sg * y[n])) <= 1e-12 * (abs(j[n]) + abs(y[n])), '%s_%d = j +- i y', nm, n)


# ------------------------------------------------------------------ C25
@gen('C25')
def _(rng):
    for n in range(0, 4):
        for m in range(-n, n + 1):
            for R, C in ((2, 1), (3, 2), (4, 3), (5, 6)):
                yield 'c25', dict(n=n, m=m, R=R, C=C)
    while True:
        n = rng.randrange(0, 20)
        yield 'c25', dict(n=n, m=rng.randrange(-n, n + 1), R=rng.randrange(2, 12), C=rng.randrange(1, 12))


@case
def c25(n, m, R, C):
    a = np.asarray(sp.sph_harmonic_tp(R, C, n, m))
    y = yref(n, m, n + 1)
    th = np.pi * np.arange(R) / (R - 1)
    ph = 2 * np.pi * np.arange(C) / C
    t = sum(((-1) ** m if k < 0 else 1) * y[abs(k)] * np.exp(1j * k * th) for k in range(-n, n + 1))
    close(a, 1j ** m * np.outer(t, np.exp(1j * m * ph)), 'Y_%d,%d on %d x %d' % (n, m, R, C), 1e-9)
    repeated(lambda: sp.sph_harmonic_tp(R, C, n, m), 'sph_harmonic_tp(%d,%d,%d,%d)' % (R, C, n, m))
