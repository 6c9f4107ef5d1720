from base import *
import spherepy as sp
import spherepy.spherepy as core
from spherepy import pysphi
from spherepy import csphi
from coefs import mk, seed
from opsc import r_sin, r_div, r_dth, r_dph

PATHS = ('cext', 'python', 'slow')


class path(object):
    def __init__(self, how):
        self.on = how == 'cext'

    def __enter__(self):
        self.old = core.use_cext
        core.use_cext = self.on

    def __exit__(self, *a):
        core.use_cext = self.old


def sizes(rng, top=4, big=12, vec=False):
    """(nmax, mmax, nrows, ncols) admissible"""
    for n, m in sizes_small(top):
        for R in (n + 2, n + 3, n + 6):
            for C in (2 * m + 2, 2 * m + 4):
                yield n, m, R, C
    while True:
        n = rng.randrange(0, big + 1)
        if rng.random() < .05:
            n = rng.randrange(20, 45)
        m = rng.choice([n, 0, rng.randrange(0, n + 1)])
        yield n, m, n + 2 + rng.choice([0, 1, 2, 3, rng.randrange(0, 40)]), 2 * m + 2 + 2 * rng.choice([0, 1, 2, rng.randrange(0, 15)])


def inv_series(c, d, R, C):
    return series({k: (v if np.isscalar(v) else v) for k, v in d.items()}, R, C)


@gen('C10')
def _(rng):
    for i, (n, m, R, C) in enumerate(sizes(rng)):
        yield 'c10', dict(nmax=n, mmax=m, R=R, C=C, s=seed(rng), how=PATHS[i % 3], kind=i % 5)


def given(nmax, mmax, s, kind):
    """coefficient sets: random, zeros sprinkled, magnitudes, a single mode, real"""
    ms = modes(nmax, mmax)
    L = len(ms)
    v = rvec(s, L, kind if kind < 3 else 0)
    if kind == 3:
        k = s % L
        z = np.zeros(L, complex)
        z[k] = v[k]
        v = z
    if kind == 4:
        v = v.real + 0j
    return sp.ScalarCoefs(v.copy(), nmax, mmax), dict(zip(ms, v))


@case
def c10(nmax, mmax, R, C, s, how, kind):
    c, d = given(nmax, mmax, s, kind)
    with path(how):
        p = (sp.ispht_slow if how == 'slow' else sp.ispht)(c, R, C)
    check(p.nrows == R and p.ncols == C, 'size %s x %s', p.nrows, p.ncols)
    close(p._dsphere, series(d, R, C), 'inverse transform (%s)' % how, 1e-8)
    with path(how):
        repeated(lambda: (sp.ispht_slow if how == 'slow' else sp.ispht)(c, R, C)._dsphere, 'inverse transform (%s)' % how)
    if kind == 4:
        q = sp.ScalarCoefs(np.array([d[k].real for k in modes(nmax, mmax)]), nmax, mmax)
        with path(how):
            p = (sp.ispht_slow if how == 'slow' else sp.ispht)(q, R, C)
        close(p._dsphere, series(d, R, C), 'inverse transform of a real vector (%s)' % how, 1e-8)


# ------------------------------------------------------------------ Legendre Fourier coefficients
@gen('C11')
def _(rng):
    for n in range(0, 9):
        for m in range(-n - 2, n + 3):
            yield 'c11', dict(n=n, m=m, L=n + 1 + (m % 4))
    while True:
        n = rng.randrange(0, rng.choice([20, 60, 150]))
        m = rng.choice([rng.randrange(-n - 3, n + 4), n, -n, 0, n + 1, 1])
        yield 'c11', dict(n=n, m=m, L=n + 1 + rng.choice([0, 1, 2, 7]))



@case
def c11(n, m, L):
    w = yref(n, m, L)
    sc = max(1e-300, np.max(np.abs(w)))
    a = pysphi.ynunm(n, m, L)
    check(np.shape(a) == (L,), 'length %s', np.shape(a))
    close(np.asarray(a) / sc, w / sc, 'Python ynunm(%d,%d,%d)' % (n, m, L), 1e-8)
    same(np.asarray(a)[n + 1:], np.zeros(L - n - 1), 'Python ynunm beyond n')
    if n >= 1:
        same(np.asarray(a)[n - 1::-2], np.zeros(len(np.asarray(a)[n - 1::-2])), 'Python ynunm odd positions')
    b = np.full(L, 7.5, dtype=np.float64)
    csphi.ynunm(n, m, b)
    close(b / sc, w / sc, 'C ynunm(%d,%d,%d)' % (n, m, L), 1e-8)
    same(b[n + 1:], np.zeros(L - n - 1), 'C ynunm beyond n')
    for m2, L2 in ((-m, L), (m, L + 2), (m, n + 1), (m, L)):         # related calls one after another
        w2 = yref(n, m2, L2)
        close(np.asarray(pysphi.ynunm(n, m2, L2)) / sc, w2 / sc, 'Python ynunm(%d,%d,%d) after ynunm(%d,%d,%d)' % (n, m2, L2, n, m, L), 1e-8)
        b = np.full(L2, 7.5, dtype=np.float64)
        csphi.ynunm(n, m2, b)
        close(b / sc, w2 / sc, 'C ynunm(%d,%d,%d) after ynunm(%d,%d,%d)' % (n, m2, L2, n, m, L), 1e-8)
    repeated(lambda: pysphi.ynunm(n, m, L), 'ynunm(%d,%d,%d)' % (n, m, L))
    for f, t in ((pysphi.ynnm, 'Python'), (csphi.ynnm, 'C')):
        close(np.array(f(n, m)) / sc, np.array(w[n]) / sc, '%s ynnm(%d,%d)' % (t, n, m), 1e-9)


# ------------------------------------------------------------------ forward
def quad_v(G, nmax, mmax):
    q = quad(G, nmax, mmax)
    return np.array([q[k] for k in modes(nmax, mmax)])


@gen('C12')
def _(rng):
    for i, (n, m, R, C) in enumerate(sizes(rng)):
        yield 'c12', dict(nmax=n, mmax=m, R=R, C=C, s=seed(rng), how=PATHS[i % 3], kind=i % 4)


def dsphere(R, C, s, kind):
    """doubled arrays: from a symmetric grid, or arbitrary"""
    if kind == 3:
        return rvec(s, (2 * R - 2) * C).reshape(2 * R - 2, C)
    g = rvec(s, R * C, kind).reshape(R, C)
    return sp.ScalarPatternUniform(g, doublesphere=False)._dsphere.copy()


@case
def c12(nmax, mmax, R, C, s, how, kind):
    D = dsphere(R, C, s, kind)
    p = sp.ScalarPatternUniform(D.copy(), doublesphere=True)
    G = r_sin(forward_data(D))
    with path(how):
        c = (sp.spht_slow if how == 'slow' else sp.spht)(p, nmax, mmax)
    check(c.nmax == nmax and c.mmax == mmax, 'size %s,%s', c.nmax, c.mmax)
    close(c._vec, quad_v(G, nmax, mmax), 'forward transform (%s)' % how, 1e-8)
    with path(how):
        repeated(lambda: (sp.spht_slow if how == 'slow' else sp.spht)(p, nmax, mmax)._vec, 'forward transform (%s)' % how)
    H = rvec(s + 3, G.size).reshape(G.shape)
    if how == 'cext':
        out = np.zeros(len(modes(nmax, mmax)), complex)
        csphi.fc_to_sc(H, out, nmax, mmax)
    else:
        out = pysphi.fc_to_sc(H, nmax, mmax)
    close(out, quad_v(H, nmax, mmax), 'forward quadrature (%s)' % how, 1e-8)


# ------------------------------------------------------------------ vector transforms
@gen('C13')
def _(rng):
    for i, (n, m, R, C) in enumerate(sizes(rng)):
        yield ('c13i' if i % 2 else 'c13f'), dict(nmax=n, mmax=m, R=R, C=C, s=seed(rng), how=PATHS[(i // 2) % 2], kind=i % 3)
        yield ('c13f' if i % 2 else 'c13i'), dict(nmax=n, mmax=m, R=R, C=C, s=seed(rng), how=PATHS[(i // 2 + 1) % 2], kind=i % 3)


def weight(nmax, mmax):
    return np.array([0 if n == 0 else 1 / np.sqrt(n * (n + 1.0)) for n, m in modes(nmax, mmax)])


def fdata(v, nmax, mmax, R, C):
    """(2R-2) x C Fourier data"""
    return fft2d(series(dict(zip(modes(nmax, mmax), v)), R, C))


@case
def c13i(nmax, mmax, R, C, s, how, kind):
    L = len(modes(nmax, mmax))
    a, b = rvec(s, L, kind), rvec(s + 1, L, kind)
    a[0] = b[0] = 0
    w = weight(nmax, mmax)
    x = sp.VectorCoefs(a.copy(), b.copy(), nmax, mmax)
    with path(how):
        p = sp.vispht(x, R, C)
    check(p.nrows == R and p.ncols == C, 'size %s x %s', p.nrows, p.ncols)
    A, B = fdata(a * w, nmax, mmax, R, C), fdata(b * w, nmax, mmax, R, C)
    if 2 * R - 2 >= 4:
        dv = r_div
    else:
        dv = lambda F: np.zeros_like(F)
    th = 1j * dv(r_dph(A)) - r_dth(B)
    ph = -1j * r_dth(A) - dv(r_dph(B))
    n = th.size
    close(p._tdsphere, np.fft.ifft2(th) * n, 'theta component (%s)' % how, 1e-7)
    close(p._pdsphere, np.fft.ifft2(ph) * n, 'phi component (%s)' % how, 1e-7)
    same(x.scoef1._vec, a, 'first component unchanged')
    same(x.scoef2._vec, b, 'second component unchanged')


@case
def c13f(nmax, mmax, R, C, s, how, kind):
    t = rvec(s, (2 * R - 2) * C, kind).reshape(2 * R - 2, C)
    q = rvec(s + 1, (2 * R - 2) * C, kind).reshape(2 * R - 2, C)
    p = sp.TransversePatternUniform(t.copy(), q.copy(), doublesphere=True)
    with path(how):
        c = sp.vspht(p, nmax, mmax)
    check(c.nmax == nmax and c.mmax == mmax, 'size %s,%s', c.nmax, c.mmax)
    T, P = forward_data(t), forward_data(q)
    w = weight(nmax, mmax)
    g1 = 1j * (r_dph(T) - r_dth(r_sin(P)))
    g2 = 1j * (r_dph(-1j * P) - r_dth(r_sin(1j * T)))
    close(c.scoef1._vec, w * quad_v(g1, nmax, mmax), 'first component (%s)' % how, 1e-8)
    close(c.scoef2._vec, w * quad_v(g2, nmax, mmax), 'second component (%s)' % how, 1e-8)
    same(p._tdsphere, t, 'theta array unchanged')
    same(p._pdsphere, q, 'phi array unchanged')


# ------------------------------------------------------------------ both implementations
@gen('C14')
def _(rng):
    for n, m, R, C in sizes(rng):
        yield 'c14', dict(nmax=n, mmax=m, R=R, C=C, s=seed(rng), kind=rng.choice([0, 0, 1, 2]))
        k = rng.randrange(0, 40)
        yield 'c14y', dict(n=k, m=rng.choice([rng.randrange(-k - 3, k + 4), -k, k, 0]), L=k + 1 + rng.randrange(3))


@case
def c14(nmax, mmax, R, C, s, kind=0):
    L = len(modes(nmax, mmax))
    v = rvec(s, L, kind)
    D = 2 * R - 2
    f = np.zeros((D, C), complex)
    csphi.sc_to_fc(f, v.copy(), nmax, mmax)
    close(f, pysphi.sc_to_fc(v.copy(), nmax, mmax, D, C), 'sc_to_fc', 1e-9)
    G = rvec(s + 1, (D + 2) * C, kind).reshape(D + 2, C)
    o = np.zeros(L, complex)
    csphi.fc_to_sc(G.copy(), o, nmax, mmax)
    close(o, pysphi.fc_to_sc(G.copy(), nmax, mmax), 'fc_to_sc', 1e-9)
    p = sp.ScalarPatternUniform(rvec(s + 2, D * C).reshape(D, C), doublesphere=True)
    r = []
    for how in PATHS[:2]:
        with path(how):
            r.append((sp.spht(p, nmax, mmax)._vec, sp.ispht(sp.ScalarCoefs(v.copy(), nmax, mmax), R, C)._dsphere))
    close(r[0][0], r[1][0], 'forward transform, both paths', 1e-9)
    close(r[0][1], r[1][1], 'inverse transform, both paths', 1e-9)


@case
def c14y(n, m, L):
    a = np.asarray(pysphi.ynunm(n, m, L))
    b = np.full(L, 3.5)
    csphi.ynunm(n, m, b)
    sc = max(1e-300, np.max(np.abs(a)))
    close(b / sc, a / sc, 'ynunm(%d,%d,%d)' % (n, m, L), 1e-9)
    close(np.array(csphi.ynnm(n, m)) / sc, np.array(pysphi.ynnm(n, m)) / sc, 'ynnm(%d,%d)' % (n, m), 1e-10)


# ------------------------------------------------------------------ argument validation
@gen('C17')
def _(rng):
    i = 0
    while True:
        i += 1
        yield 'c17f', dict(R=rng.randrange(2, 9), C=rng.randrange(1, 13), n=rng.choice([None, rng.randrange(0, 9)]),
                           m=rng.choice([None, 0, rng.randrange(0, 8)]), vec=bool(i % 2), how=PATHS[(i // 2) % 2])
        n = rng.randrange(0, 6)
        m = rng.randrange(0, n + 1)
        yield 'c17i', dict(n=n, m=m, R=rng.choice([None, n + 2, rng.randrange(-1, n + 5)]),
                           C=rng.choice([None, 2 * m + 2, rng.randrange(0, 2 * m + 7)]), vec=bool(i % 2), how=PATHS[(i // 2) % 2])
        yield 'c17s', dict(n=n, m=rng.choice([m, n + 1 + m]), R=n + 2, C=2 * (m + 1) + i % 3)


@case
def c17s(n, m, R, C):
    D = rvec(R * C, (2 * R - 2) * C).reshape(2 * R - 2, C)
    p = sp.ScalarPatternUniform(D, doublesphere=True)
    if m > n or C % 2:
        raises(ValueError, lambda: sp.spht_slow(p, n, m), 'spht_slow(%dx%d, %d, %d)' % (R, C, n, m))
    if C % 2:
        raises(ValueError, lambda: sp.ispht_slow(mk(n, min(m, n), 5, False)[0], R, C), 'ispht_slow(%d, %d)' % (R, C))


@case
def c17f(R, C, n, m, vec, how):
    D = rvec(R * C, (2 * R - 2) * C).reshape(2 * R - 2, C)
    p = sp.TransversePatternUniform(D, D + 1, doublesphere=True) if vec else sp.ScalarPatternUniform(D, doublesphere=True)
    kw = {k: v for k, v in (('nmax', n), ('mmax', m)) if v is not None}
    wn = R - 2 if n is None else n
    wm = m if m is not None else (C // 2 - 1 if n is None else n)
    bad = C % 2 == 1 or wm > wn or wn > R - 2 or 2 * wm >= C
    f = sp.vspht if vec else sp.spht
    with path(how):
        if bad:
            raises(ValueError, lambda: f(p, **kw), '%s(%dx%d, %s)' % (f.__name__, R, C, kw))
            return
        c = f(p, **kw)
    check(isinstance(c, sp.VectorCoefs if vec else sp.ScalarCoefs), 'type %s', type(c))
    check(c.nmax == wn and c.mmax == wm, '%s(%dx%d, %s): size %s,%s', f.__name__, R, C, kw, c.nmax, c.mmax)
    for x in ([c.scoef1, c.scoef2] if vec else [c]):
        check(len(x._vec) == len(modes(wn, wm)), 'vector length')


@case
def c17i(n, m, R, C, vec, how):
    c, _ = mk(n, m, 5, vec)
    kw = {k: v for k, v in (('nrows', R), ('ncols', C)) if v is not None}
    wR, wC = n + 2 if R is None else R, 2 * m + 2 if C is None else C
    bad = wC % 2 == 1 or wR < (n + 2 if vec else n + 1) or wR < 2 or wC < 2 * m + 2
    f = sp.vispht if vec else sp.ispht
    with path(how):
        if bad:
            raises(ValueError, lambda: f(c, **kw), '%s(%d,%d, %s)' % (f.__name__, n, m, kw))
            return
        try:
            p = f(c, **kw)
        except ValueError:
            check(not vec and wR == n + 1, '%s(%d,%d, %s): ValueError', f.__name__, n, m, kw)
            return
    check(isinstance(p, sp.TransversePatternUniform if vec else sp.ScalarPatternUniform), 'type %s', type(p))
    check(p.nrows == wR and p.ncols == wC, '%s(%d,%d, %s): size %s x %s', f.__name__, n, m, kw, p.nrows, p.ncols)


# ------------------------------------------------------------------ round trip
@gen('C26')
def _(rng):
    for i, (n, m, R, C) in enumerate(sizes(rng, big=10)):
        yield 'c26', dict(nmax=n, mmax=m, R=R, C=C, s=seed(rng), how=PATHS[i % 3], vec=False, kind=i % 5)
        yield 'c26', dict(nmax=n, mmax=m, R=R, C=C, s=seed(rng), how=PATHS[i % 2], vec=True, kind=i % 3)


@case
def c26(nmax, mmax, R, C, s, how, vec, kind):
    with path(how):
        if vec:
            L = len(modes(nmax, mmax))
            a, b = rvec(s, L, kind), rvec(s + 1, L, kind)
            a[0] = b[0] = 0
            x = sp.VectorCoefs(a.copy(), b.copy(), nmax, mmax)
            y = sp.vspht(sp.vispht(x, R, C), nmax, mmax)
            got = [y.scoef1._vec, y.scoef2._vec]
            want = [a, b]
        else:
            c, d = given(nmax, mmax, s, kind)
            v = np.array([d[k] for k in modes(nmax, mmax)])
            if how == 'slow':
                y = sp.spht_slow(sp.ispht_slow(c, R, C), nmax, mmax)
            else:
                y = sp.spht(sp.ispht(c, R, C), nmax, mmax)
            got, want = [y._vec], [v]
    check(y.nmax == nmax and y.mmax == mmax, 'size %s,%s', y.nmax, y.mmax)
    for g, w in zip(got, want):
        close(g, w, 'round trip (%s)' % how, 1e-7)
