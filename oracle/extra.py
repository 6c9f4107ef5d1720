"""Concrete oracle: symmetry measures (C21), verification routines (C27), Bessel self-tests (C22), MATLAB vector files (C18), array() (C08)."""
import math
from base import *
import spherepy as sp
from spherepy import file as fl, sbessel, verify
from coefs import mk, seed
from patts import grid
from files import tmp, special


# ------------------------------------------------------------------ C21
@gen('C21')
def _(rng):
    for R in range(2, 6):
        for h in range(1, 4):
            for k in range(7):
                yield 'c21', dict(R=R, C=2 * h, kind=k, s=seed(rng))
    while True:
        yield 'c21', dict(R=rng.randrange(2, 12), C=2 * rng.randrange(1, 8), kind=rng.randrange(7), s=seed(rng))


def asym(D, sign):
    N, C = D.shape
    w = 0.0
    for i in range(N):
        for j in range(C):
            s, t = sign * complex(D[(N - i) % N, (j + C // 2) % C]), complex(D[i, j])
            w = max(w, abs((s - t) / s) if s != 0 else 1.0 if t != 0 else 0.0)
    return w


@case
def c21(R, C, kind, s):
    r = np.random.RandomState(s % 2 ** 31)
    N = 2 * R - 2

    def arr(k, sign):
        a = rvec(s + k, N * C, 1 if kind % 2 else 0).reshape(N, C)
        if kind == 0:
            return a
        for i in range(N):                  # symmetric data
            for j in range(C):
                i2, j2 = (N - i) % N, (j + C // 2) % C
                if (i2, j2) > (i, j):
                    a[i2, j2] = sign * a[i, j]
        if kind in (3, 4):                  # one point off
            i, j = r.randint(N), r.randint(C)
            a[i, j] *= 1 + r.choice([1e-15, 4e-15, 3e-14, 6e-14, 2e-13, 1e-9, .5, -2.0])
        if kind == 5:
            a[r.randint(N), r.randint(C)] = 0
        if kind == 6:
            a[:, :] = 0
            if s % 3:
                a[r.randint(N), r.randint(C)] = r.choice([1, 1j, -2 + 1e-9j])
        return a

    def near(x, w, msg):
        check(abs(x - w) <= 1e-9 * w + 1e-16, '%s: %r instead of %r', msg, float(x), w)
    a, t, p = arr(0, 1), arr(1, -1), arr(2, -1)
    if kind == 4:
        p = t.copy() if s % 2 else p
    q = sp.ScalarPatternUniform(a.copy(), doublesphere=True)
    w = asym(a, 1)
    near(q.single_val, w, 'single_val')
    if abs(w / 1e-14 - 1) > .05:
        check(q.is_symmetric is (w < 1e-14), 'is_symmetric is %r, deviation %r', q.is_symmetric, w)
    q = sp.TransversePatternUniform(t.copy(), p.copy(), doublesphere=True)
    wt, wp = asym(t, -1), asym(p, -1)
    v = q.single_val
    check(len(v) == 2, 'one value per component')
    near(v[0], wt, 'single_val theta')
    near(v[1], wp, 'single_val phi')
    if all(abs(x / 1e-13 - 1) > .05 for x in (wt, wp)):
        check(q.is_symmetric is (wt < 1e-13 and wp < 1e-13), 'is_symmetric is %r, deviations %r %r', q.is_symmetric, wt, wp)
    same(q._tdsphere, t, 'the data')
    R2 = grid(s, R, C, 0)
    for b in (sp.ScalarPatternUniform(R2 + 0j, doublesphere=False), sp.TransversePatternUniform(R2 + 0j, R2 * 1j, doublesphere=False)):
        check(b.is_symmetric is True, 'a pattern built from grid data is symmetric')


# ------------------------------------------------------------------ C27
@gen('C27')
def _(rng):
    i = 0
    for n in range(1, 5):
        for m in range(0, n + 1):
            i += 1
            yield 'c27', dict(nmax=n, mmax=m, dr=i % 3, dc=i % 2, s=seed(rng), f=i % 5)
    while True:
        n = rng.randrange(1, 12)
        yield 'c27', dict(nmax=n, mmax=rng.randrange(0, n + 1), dr=rng.randrange(0, 4), dc=rng.randrange(0, 3), s=seed(rng), f=rng.randrange(5))


def wcoef(name, v, nmax, mmax):
    with open(name, 'w') as f:
        f.write('%d,%d\n' % (nmax, mmax))
        for z in v:
            f.write('%.17e,%.17e\n' % (z.real, z.imag))


def wpatt(name, g):
    with open(name, 'w') as f:
        f.write('%d,%d\n' % g.shape)
        for i in range(g.shape[0]):
            for j in range(g.shape[1]):
                f.write('%d,%d,%.17e,%.17e\n' % (i, j, g[i, j].real, g[i, j].imag))


@case
def c27(nmax, mmax, dr, dc, s, f):
    L = len(modes(nmax, mmax))
    R, C = nmax + 2 + dr, 2 * (mmax + 1 + dc)
    v = [rvec(s + i, L, 0) for i in range(2)]
    g = [grid(s + 3 + i, R, C, 0) + 0j for i in range(2)]
    with tmp() as F:
        n = {}
        for i in range(2):
            wcoef(F('c%d' % i), v[i], nmax, mmax)
            wpatt(F('p%d' % i), g[i])
        c0, c1, p0, p1 = F('c0'), F('c1'), F('p0'), F('p1')
        sc = sp.ScalarCoefs(v[0].copy(), nmax, mmax)
        vc = sp.VectorCoefs(v[0].copy(), v[1].copy(), nmax, mmax)
        sg = sp.ScalarPatternUniform(g[0].copy(), doublesphere=False)
        vg = sp.TransversePatternUniform(g[0].copy(), g[1].copy(), doublesphere=False)

        def rep(r, have, ref, msg):
            """lists of component arrays: stored, computed"""
            d = [a - b for a, b in zip(have, ref)]
            l2 = lambda xs: math.sqrt(sum(np.sum(np.abs(x) ** 2) for x in xs))
            li = lambda xs: math.sqrt(sum(np.max(np.abs(x)) ** 2 for x in xs))
            want = (l2(d), li(d), l2(d) / l2(have), li(d) / li(have))
            check(len(r) == 4, '%s: four numbers', msg)
            for k, (x, w) in enumerate(zip(r, want)):
                check(abs(x - w) <= 1e-9 * max(w, 1), '%s: entry %s is %r, expected %r', msg, k, float(x), float(w))
        if f == 0:
            rep(verify.verify_spht(p0, c0), [v[0]], [sp.spht(sg, nmax, mmax)._vec], 'verify_spht')
        elif f == 1:
            rep(verify.verify_ispht(p0, c0), [sg._dsphere], [sp.ispht(sc, R, C)._dsphere], 'verify_ispht')
        elif f == 2:
            w = sp.vspht(vg, nmax, mmax)
            rep(verify.verify_vspht(p0, p1, c0, c1), [vc.scoef1._vec, vc.scoef2._vec], [w.scoef1._vec, w.scoef2._vec], 'verify_vspht')
        elif f == 3:
            w = sp.vispht(vc, R, C)
            rep(verify.verify_vispht(p0, p1, c0, c1), [vg._tdsphere, vg._pdsphere], [w._tdsphere, w._pdsphere], 'verify_vispht')
        else:
            # the Fourier data of the coefficients: of a size that holds every frequency
            h = grid(s + 9, 2 * (nmax + 1 + dr), C, 0) + 0j
            wpatt(F('h'), h)
            w = np.fft.fft2(sp.ispht(sc, nmax + 2 + dr, C)._dsphere) / ((2 * nmax + 2 + 2 * dr) * C)
            d = np.max(np.abs(h - w))
            r = verify.verify_fdata(F('h'), c0)
            check(abs(r - d) <= 1e-9 * d, 'verify_fdata: %r expected %r', float(r), float(d))


# ------------------------------------------------------------------ C22: self-tests
@gen('C22')
def _(rng):
    while True:
        yield 'c22s', dict(x=rng.uniform(.3, 30), N=rng.randrange(1, 40))


@case
def c22s(x, N):
    j = np.asarray(sbessel.sbesselj(x, N))
    w = sum((2 * n + 1) * j[n] ** 2 for n in range(N))
    w = abs((w - 1) / w)
    r = sbessel.sbesselj_sum(x, N)
    check(abs(r - w) <= 1e-9 * w + 1e-14, 'sbesselj_sum(%r, %d): %r expected %r', x, N, float(r), float(w))
    j, y = np.asarray(sbessel.sbesselj(x, N + 1)), np.asarray(sbessel.sbessely(x, N + 1))
    if not np.all(np.isfinite(y)) or not np.all(np.isfinite(j)):
        return
    d = [abs((j[n + 1] * y[n] - j[n] * y[n + 1]) * x * x - 1) for n in range(N)]
    r = sbessel.sbessel_test_cross_product(x, N)
    check(abs(r - max(d)) <= 1e-6 * max(d) + 1e-11, 'cross product test (%r, %d): %r expected %r', x, N, float(r), float(max(d)))


@gen('C22')
def _(rng):
    while True:
        xs = [rng.choice([-1, 1]) * rng.uniform(.1, 20) for _ in range(rng.randrange(1, 7))]
        for _ in range(rng.randrange(0, 3)):            # repeated and opposite arguments
            xs.insert(rng.randrange(len(xs) + 1), rng.choice([-1, 1]) * rng.choice(xs))
        yield 'c22a', dict(xs=xs, N=rng.randrange(1, 20))


@case
def c22a(xs, N):
    for f, g in ((sbessel.sbesselj_array, sbessel.sbesselj), (sbessel.sbessely_array, sbessel.sbessely)):
        for v in (xs, np.array(xs)):
            A = f(v, N)
            check(A.shape == (N, len(xs)), '%s: shape %s', f.__name__, A.shape)
            for i, x in enumerate(xs):
                same(A[:, i], g(x, N), '%s: column %d' % (f.__name__, i))


# ------------------------------------------------------------------ C18: MATLAB vector files
@gen('C18')
def _(rng):
    for i, (n, m) in enumerate(sizes_small(4)):
        yield 'c18m', dict(nmax=n, mmax=m, s=seed(rng), kind=i % 3)
    while True:
        n = rng.randrange(0, 12)
        yield 'c18m', dict(nmax=n, mmax=rng.randrange(0, n + 1), s=seed(rng), kind=rng.randrange(3))


@case
def c18m(nmax, mmax, s, kind):
    ms = modes(nmax, mmax)
    v = [special(s + i, len(ms), kind) for i in range(2)]
    d = special(s + 7, 1, kind)[0].real
    with tmp() as f:
        with open(f('v'), 'w') as o:
            o.write('%d,%d,%.17e\n' % (nmax, mmax, d))
            for i in range(2):
                if i:
                    o.write('break\n')
                for z in v[i]:
                    o.write('%.17e,%.17e\n' % (z.real, z.imag))
        r = fl.load_vcoef(f('v'))
    check(isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], sp.VectorCoefs), 'a vector set and the directivity')
    check(r[1] == d, 'directivity %r instead of %r', r[1], d)
    check(r[0].nmax == nmax and r[0].mmax == mmax, 'size')
    for c, w in ((r[0].scoef1, v[0]), (r[0].scoef2, v[1])):
        check(c.nmax == nmax and c.mmax == mmax and len(c._vec) == len(ms), 'size of a component')
        same(c._vec[1:], w[1:], 'modes')


# ------------------------------------------------------------------ C08: array()
@gen('C08')
def _(rng):
    for R in range(2, 5):
        for h in range(1, 4):
            yield 'c08a', dict(R=R, C=2 * h, s=seed(rng))
    while True:
        yield 'c08a', dict(R=rng.randrange(2, 12), C=2 * rng.randrange(1, 8), s=seed(rng))


@case
def c08a(R, C, s):
    a, b = [rvec(s + k, (2 * R - 2) * C).reshape(2 * R - 2, C) for k in range(2)]
    same(sp.array(sp.ScalarPatternUniform(a.copy(), doublesphere=True)), a[:R], 'array() of a scalar pattern')
    x = sp.array(sp.TransversePatternUniform(a.copy(), b.copy(), doublesphere=True))
    check(len(x) == 2, 'two grids')
    same(x[0], a[:R], 'array(): theta')
    same(x[1], b[:R], 'array(): phi')
    raises(TypeError, lambda: sp.array(sp.zeros_coefs(1, 1)), 'array() of a coefficient set')
