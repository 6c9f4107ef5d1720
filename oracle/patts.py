from base import *
import spherepy as sp
from coefs import OPS, mk, seed


def grid(s, R, C, kind):
    """kind 0: generic, 1: zeros sprinkled, 2: magnitudes, 3: tiny values near the poles, 4: real, 5: integers, 6: symmetric poles,
    7: one component of the complex values zero"""
    r = np.random.RandomState(s % 2 ** 31)
    a = rvec(s, R * C, kind if kind < 3 else 0).reshape(R, C)
    if kind == 3:
        a[0] *= 1e-200
        a[-1] *= 10.0 ** r.uniform(-320, 0, C)
        a[0][r.uniform(0, 1, C) < .4] = 0
        a[-1][r.uniform(0, 1, C) < .4] = 0
    if kind == 4:
        a = a.real.copy()
    if kind == 5:
        a = r.randint(-3, 4, (R, C))
    if kind == 6:
        h = C // 2
        for i in (0, R - 1):
            a[i, h:] = a[i, :h]
    if kind == 7:
        m = r.uniform(0, 1, (R, C))
        a = np.where(m < .5, a.real, 1j * a.imag)
        a[m > .8] = 0
    return a


def expected_double(a, sym):
    R, C = a.shape
    D = 2 * R - 2
    h = C // 2
    out = np.zeros((D, C), complex)
    for i in range(R):
        for j in range(C):
            t = complex(a[i, j])
            if i in (0, R - 1):
                s = sym * complex(a[i, (j + h) % C])
                t = t if s == 0 else (s if t == 0 else (s + t) / 2)
            out[i, j] = t
    for i in range(R, D):
        out[i] = sym * np.roll(out[D - i], h)
    return out


@gen('C08')
def _(rng):
    for R in range(2, 6):
        for h in range(1, 4):
            for k in range(8):
                yield 'c08', dict(R=R, C=2 * h, s=seed(rng), vec=bool((R + k) % 2), kind=k)
                yield 'c08', dict(R=R, C=2 * h, s=seed(rng), vec=not (R + k) % 2, kind=k)
    while True:
        yield 'c08', dict(R=rng.randrange(2, 12), C=2 * rng.randrange(1, 9), s=seed(rng), vec=rng.random() < .5, kind=rng.randrange(8))


def tight(a, b, msg):
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape, '%s: shape %s instead of %s', msg, a.shape, b.shape)
    bad = ~(np.abs(a - b) <= 1e-12 * np.abs(b))
    if np.any(bad):
        i = np.unravel_index(int(np.argmax(bad)), a.shape)
        raise Bad('%s: at %s got %r expected %r' % (msg, tuple(int(x) for x in i), complex(a[i]), complex(b[i])))


@case
def c08(R, C, s, vec, kind):
    sym = -1 if vec else 1
    gs = [grid(s + 9 * k, R, C, kind) for k in range(2 if vec else 1)]
    if s % 3 == 0:           # views with unusual strides
        gs = [np.asfortranarray(g) for g in gs]
    g0 = [g.copy() for g in gs]
    p = sp.TransversePatternUniform(*gs) if vec else sp.ScalarPatternUniform(*gs)
    check(p.nrows == R and p.ncols == C and tuple(p.shape) == (R, C), 'size %s %s %s', p.nrows, p.ncols, p.shape)
    ds = p.doublesphere if vec else (p.doublesphere,)
    top = (p.theta, p.phi) if vec else (p.cdata,)
    arr = p.array if vec else (p.array,)
    for k, (g, d, t, a) in enumerate(zip(g0, ds, top, arr)):
        w = expected_double(g, sym)
        tight(d, w, 'doubled array %d' % k)
        tight(t, w[:R], 'grid %d' % k)
        tight(a, w[:R], 'array %d' % k)
        same(np.asarray(d)[1:R - 1], g[1:-1].astype(complex), 'inner rows %d' % k)
        part = np.roll(np.roll(d[::-1], 1, axis=0), C // 2, axis=1)
        tight(part, sym * d, 'symmetry %d' % k)
        same(gs[k], g, 'grid argument %d' % k)
    if vec:
        same(p.theta_double, ds[0], 'theta_double')
        same(p.phi_double, ds[1], 'phi_double')
        for sh in ((R + 1, C), (R, C + 2)):
            raises(ValueError, lambda: sp.TransversePatternUniform(g0[0], np.zeros(sh, complex)), 'components of different shape')
    check(p.is_symmetric is True or p.is_symmetric == True or kind == 3, 'is_symmetric of a pattern built from a grid')


@gen('C09')
def _(rng):
    for R in range(2, 5):
        for h in range(1, 4):
            for op in '+-*/':
                for v in (False, True):
                    yield 'c09', dict(R=R, C=2 * h, s=seed(rng), vec=v, op=op, ds=rng.random() < .5, kind=rng.randrange(2))
    while True:
        yield 'c09', dict(R=rng.randrange(2, 9), C=2 * rng.randrange(1, 6), s=seed(rng), vec=rng.random() < .5, op=rng.choice('+-*/'),
                          ds=rng.random() < .5, kind=rng.randrange(3))


def pat(vec, R, C, s, ds, kind=0):
    n = 2 * R - 2 if ds else R
    gs = [grid(s + 31 * k, n, C, kind) for k in range(2 if vec else 1)]
    return (sp.TransversePatternUniform if vec else sp.ScalarPatternUniform)(*gs, doublesphere=ds)


def dbl(p):
    d = p.doublesphere
    return [np.array(x) for x in d] if isinstance(d, tuple) else [np.array(d)]


def symmetric(d, sym, tol=1e-12):
    part = np.roll(np.roll(d[::-1], 1, axis=0), d.shape[1] // 2, axis=1)
    fin = np.isfinite(d) & np.isfinite(part)
    return np.all(np.abs(part - sym * d)[fin] <= tol * (1 + np.abs(d[fin])))


@case
def c09(R, C, s, vec, op, ds, kind):
    f = OPS[op]
    cls = sp.TransversePatternUniform if vec else sp.ScalarPatternUniform
    sym = -1 if vec else 1
    a, b = pat(vec, R, C, s, ds, kind), pat(vec, R, C, s + 7, ds, 0)
    da, db = dbl(a), dbl(b)

    def chk(q, want, msg):
        check(isinstance(q, cls), '%s: type %s', msg, type(q).__name__)
        for x, w in zip(dbl(q), want):
            w = np.asarray(w)
            check(x.shape == w.shape, '%s: shape %s', msg, x.shape)
            bad = ~((np.abs(x - w) <= 1e-12 * np.abs(w)) | ((x != x) & (w != w)) | (x == w))
            bad &= np.isfinite(w)
            check(not bad.any(), '%s: value at %s', msg, np.argwhere(bad)[:1].tolist())
        for q0 in (a, b):
            for x in dbl_raw(q):
                for y in dbl_raw(q0):
                    check(not np.shares_memory(x, y), '%s: shares storage with an operand', msg)
    chk(f(a, b), [f(x, y) for x, y in zip(da, db)], 'a%sb' % op)
    chk(f(a, a), [f(x, x) for x in da], 'a%sa' % op)
    if not ds and (op in '+-' or not vec):
        q = f(a, b)
        for x in dbl(q):
            check(symmetric(x, sym), 'a%sb is not symmetric', op)
    for num in (2, -3, 0.5, 1e-3, 2 - 1.5j, True, np.float64(1.25), 1e-40, -1e-200j, 1e180, 0, 0.0, 0j):
        if op == '/' and num == 0:
            raises(ZeroDivisionError, lambda: f(a, num), 'a/%r' % num)
        else:
            chk(f(a, num), [f(x, num) for x in da], 'a%s%r' % (op, num))
            if not ds and op in '*/':
                for x in dbl(f(a, num)):
                    check(symmetric(x, sym) or not np.all(np.isfinite(x)), 'a%s%r is not symmetric', op, num)
        if not isinstance(num, np.generic):
            chk(f(num, a), [f(num, x) for x in da], '%r%sa' % (num, op))
    other = pat(not vec, R, C, s, ds)
    c, _ = mk(1, 1, s)
    for o in (other, c, 'x', None, (1, 2), [1.0], {}):
        raises(TypeError, lambda: f(a, o), 'a%s%s' % (op, type(o).__name__))
        if not isinstance(o, (sp.ScalarCoefs, sp.VectorCoefs)):
            raises(TypeError, lambda: f(o, a), '%s%sa' % (type(o).__name__, op))
    raises(TypeError, lambda: f(a, np.ones((2 * R - 2, C), complex)), 'a%sarray' % op)
    for r2, c2 in ((R + 1, C), (R, C + 2), (R + 1, C + 2), (2, 2), (C // 2 + 1, 2 * R - 2), (2, 2 * R * C), (R, 2), (2, C)):
        if (r2, c2) != (R, C) and r2 >= 2:
            o = pat(vec, r2, c2, s, ds)
            raises(ValueError, lambda: f(a, o), 'shapes (%d,%d)%s(%d,%d)' % (R, C, op, r2, c2))
    for p, d in ((a, da), (b, db)):
        for x, y in zip(dbl(p), d):
            same(x, y, 'operand after a%sb' % op)


def dbl_raw(p):
    d = p.doublesphere
    return d if isinstance(d, tuple) else (d,)
