from base import *
import spherepy as sp


def seed(r):
    return r.randrange(10 ** 9)


def mk(nmax, mmax, s, vec=False, kind=None):
    L = len(modes(nmax, mmax))
    if not vec:
        v = rvec(s, L, kind)
        return sp.ScalarCoefs(v.copy(), nmax, mmax), dict(zip(modes(nmax, mmax), v))
    v, w = rvec(s, L, kind), rvec(s + 1 + 7 * (s % 3), L, kind)
    v[0] = w[0] = 0
    return sp.VectorCoefs(v.copy(), w.copy(), nmax, mmax), dict(zip(modes(nmax, mmax), zip(v, w)))


def val(c, n, m):
    if isinstance(c, sp.VectorCoefs):
        if n == 0:
            return c.scoef1[n, m], c.scoef2[n, m]
        return c[n, m]
    return c[n, m]


def expect(c, d, msg, nmax=None, mmax=None, tol=0):
    if nmax is not None:
        check(c.nmax == nmax and c.mmax == mmax, '%s: size %s,%s', msg, c.nmax, c.mmax)
    for (n, m), v in d.items():
        x = val(c, n, m)
        if tol:
            close(np.array(x), np.array(v), '%s [%d,%d]' % (msg, n, m), tol)
        else:
            same(np.array(x), np.array(v), '%s [%d,%d]' % (msg, n, m))
    for x in ([c] if isinstance(c, sp.ScalarCoefs) else [c.scoef1, c.scoef2]):
        check(len(x._vec) == len(modes(x.nmax, x.mmax)), '%s: vector length', msg)


def size_stream(rng, top=4, big=9):
    for n, m in sizes_small(top):
        for v in (False, True):
            yield n, m, v
    while True:
        n = rng.randrange(0, big + 1)
        yield n, rng.randrange(0, n + 1), rng.random() < .5


@gen('C01')
def _(rng):
    for n, m, v in size_stream(rng):
        yield 'c01', dict(nmax=n, mmax=m, s=seed(rng), vec=v)


@case
def c01(nmax, mmax, s, vec):
    c, d = mk(nmax, mmax, s, vec)
    expect(c, d, 'read', nmax, mmax)
    check(c.size == len(d), 'size %s instead of %d', c.size, len(d))
    ms = [k for k in d if not (vec and k[0] == 0)]
    r = random.Random(s)
    for k in (ms if len(ms) < 30 else r.sample(ms, 12)):
        x = r.choice([(7.5 + 1j, -2.25j), (0, 0.0), (0j, 2), (1e-200, 1e200), (3, 0)]) if vec else r.choice([7.5 + 1j, 0, 0.0, -3, 1e-200j])
        c[k] = x
        d[k] = x
        expect(c, d, 'after c%s = v' % (k,), nmax, mmax)
    check(c.size == len(d), 'size after writes')


@gen('C02')
def _(rng):
    for n, m, v in size_stream(rng, 4, 7):
        yield 'c02', dict(nmax=n, mmax=m, s=seed(rng), vec=v)


@case
def c02(nmax, mmax, s, vec):
    c, d = mk(nmax, mmax, s, vec)
    x = (1 + 1j, 2.0) if vec else 3.5 + 0j
    R = range(-nmax - 4, nmax + 5)
    lo = 1 if vec else 0
    for n in R:
        for m in R:
            if lo <= n <= nmax and abs(m) <= min(n, mmax):
                continue
            raises(AttributeError, lambda: c[n, m], 'read [%d,%d]' % (n, m))
            raises(AttributeError, lambda: c.__setitem__((n, m), x), 'write [%d,%d]' % (n, m))
    expect(c, d, 'after rejected writes')
    for m in R:
        if abs(m) > mmax:
            raises(AttributeError, lambda: c[:, m], 'c[:,%d]' % m)
            raises(AttributeError, lambda: c.__setitem__((slice(None), m), np.ones(max(1, nmax - abs(m) + 1))), 'c[:,%d]=' % m)
    for n in R:
        if n < 0 or n > nmax:
            raises(AttributeError, lambda: c[n, :], 'c[%d,:]' % n)
            raises(AttributeError, lambda: c.__setitem__((n, slice(None)), np.ones(2 * min(abs(n), mmax) + 1)), 'c[%d,:]=' % n)
            raises(AttributeError, lambda: c[0:n, :], 'c[0:%d,:]' % n)
    S = slice
    for f in [(S(1, None), 0), (S(None, 2), 0), (S(None, None, 2), 0), (0, S(1, None)), (1, S(None, 2)), (1, S(None, None, 1)),
              (1, 0, 0), (0,), (None, 0), ('a', 0), (1, None), (1.0, 0), (1, 0.0), (S(0, 1), 0), (S(0, 1), 'a')]:
        raises(AttributeError, lambda: c[f], 'c[%r]' % (f,))
        raises(AttributeError, lambda: c.__setitem__(f, x), 'c[%r]=' % (f,))
    for f in [(S(None), S(None)), (S(1, 1), S(None)), (S(0, nmax, 2), S(None)), (S(None, nmax), S(None)), (S(0, None), S(None)),
              (S(0, nmax), S(0, None)), (S(0, nmax), S(None, 1)), (S(0, nmax), S(None, None, 1)), (S(0, 1.0), S(None)), (S(-1, nmax), S(None))]:
        raises(AttributeError, lambda: c[f], 'c[%r]' % (f,))
        raises(AttributeError, lambda: c.__setitem__(f, x), 'c[%r]=' % (f,))
    if not vec:
        for m in range(-mmax, mmax + 1):
            L = nmax - abs(m) + 1
            for k in {0, 1, L - 1, L + 1, 2 * L, nmax + 1} - {L}:
                if k >= 0:
                    raises(AttributeError, lambda: c.__setitem__((S(None), m), np.ones(k)), 'c[:,%d]= of length %d' % (m, k))
        for n in range(nmax + 1):
            L = 2 * min(n, mmax) + 1
            for k in {0, 1, L - 1, L + 1, 2 * n + 1, 2 * mmax + 1} - {L}:
                raises(AttributeError, lambda: c.__setitem__((n, S(None)), np.ones(k)), 'c[%d,:]= of length %d' % (n, k))
    else:
        for n, m in modes(nmax, mmax):
            if n:
                for b in ((1j, 2, 3), (1,), 1j):
                    raises(AttributeError, lambda: c.__setitem__((n, m), b), 'c[%d,%d]=%r' % (n, m, b))
        raises(AttributeError, lambda: c.__setitem__((S(None), 0), (1, 2)), 'c[:,0]=')
        raises(AttributeError, lambda: c.__setitem__((1, S(None)), (1, 2)), 'c[1,:]=')
    expect(c, d, 'after rejected writes', nmax, mmax)
    L = len(d)
    for n2 in range(0, nmax + 3):
        for m2 in range(0, n2 + 3):
            good = m2 <= n2 and len(modes(n2, m2)) == L
            mkf = (lambda: sp.ScalarCoefs(np.zeros(L, complex), n2, m2)) if not vec else \
                (lambda: sp.VectorCoefs(np.zeros(L, complex), np.zeros(L, complex), n2, m2))
            if good:
                mkf()
            else:
                raises(ValueError, mkf, 'constructor %d,%d from %d values' % (n2, m2, L))
    if vec:
        for a, b in ((L, L + 1), (L + 1, L), (L - 1, L), (L, L - 1)):
            raises(ValueError, lambda: sp.VectorCoefs(np.zeros(a, complex), np.zeros(b, complex), nmax, mmax), 'component lengths %d %d' % (a, b))


@gen('C03')
def _(rng):
    for n, m, v in size_stream(rng):
        yield 'c03', dict(nmax=n, mmax=m, s=seed(rng), vec=v)


@case
def c03(nmax, mmax, s, vec):
    c, d = mk(nmax, mmax, s, vec)
    lo = 1 if vec else 0
    for m in range(-mmax, mmax + 1):
        w = [d[n, m] for n in range(abs(m), nmax + 1)]
        r = c[:, m]
        if vec:
            same(r[0], [x[0] for x in w], 'c[:,%d] first' % m)
            same(r[1], [x[1] for x in w], 'c[:,%d] second' % m)
        else:
            same(r, w, 'c[:,%d]' % m)
    for n in range(lo, nmax + 1):
        b = min(n, mmax)
        w = [d[n, m] for m in range(-b, b + 1)]
        r = c[n, :]
        if vec:
            same(r[0], [x[0] for x in w], 'c[%d,:] first' % n)
            same(r[1], [x[1] for x in w], 'c[%d,:] second' % n)
        else:
            same(r, w, 'c[%d,:]' % n)
    if not vec:
        for m in range(-mmax, mmax + 1):
            x = rvec(s + m, nmax - abs(m) + 1)
            c[:, m] = x if m % 2 else list(x)
            for i, v in enumerate(x):
                d[abs(m) + i, m] = v
            expect(c, d, 'after c[:,%d]=' % m, nmax, mmax)
        for n in range(nmax + 1):
            b = min(n, mmax)
            x = rvec(s + 77 + n, 2 * b + 1)
            c[n, :] = x if n % 2 else list(x)
            for i, v in enumerate(x):
                d[n, i - b] = v
            expect(c, d, 'after c[%d,:]=' % n, nmax, mmax)
    for k in range(nmax + 1):
        t = c[0:k, :]
        check(type(t) is type(c), 'truncation type')
        check(t.nmax == k and t.mmax == min(k, mmax), 'c[0:%d,:] size %s,%s', k, t.nmax, t.mmax)
        expect(t, {q: v for q, v in d.items() if q[0] <= k and abs(q[1]) <= min(k, mmax)}, 'c[0:%d,:]' % k)
        for a in ([t] if not vec else [t.scoef1, t.scoef2]):
            for b in ([c] if not vec else [c.scoef1, c.scoef2]):
                check(not np.shares_memory(a._vec, b._vec), 'c[0:%d,:] shares storage', k)
            a._vec[:] = 99
        expect(c, d, 'original after changing c[0:%d,:]' % k)


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}


def zipop(f, x, y):
    if isinstance(x, tuple):
        return tuple(f(a, b) for a, b in zip(x, y))
    return f(x, y)


@gen('C04')
def _(rng):
    for n, m, v in size_stream(rng, 3, 6):
        for op in '+-*/':
            yield 'c04', dict(nmax=n, mmax=m, s=seed(rng), vec=v, op=op)


@case
def c04(nmax, mmax, s, vec, op):
    f = OPS[op]
    lo = 1 if vec else 0
    r = random.Random(s)
    k = 0 if op == '/' else None
    a, da = mk(nmax, mmax, s, vec, k)
    b, db = mk(nmax, mmax, s + 5, vec, k)
    q = f(a, b)
    check(type(q) is type(a), 'type of result')
    expect(q, {k: zipop(f, da[k], db[k]) for k in da if k[0] >= lo}, 'a%sb' % op, nmax, mmax, 1e-12)
    if vec:
        check(q.scoef1._vec[0] == 0 and q.scoef2._vec[0] == 0, 'a%sb: monopole', op)
    expect(a, da, 'left operand after a%sb' % op)
    expect(b, db, 'right operand after a%sb' % op)
    q = f(a, a)
    expect(q, {k: zipop(f, da[k], da[k]) for k in da if k[0] >= lo}, 'a%sa' % op, nmax, mmax, 1e-12)
    for num in (2, -3, 0.5, 1e-3, 2 - 1.5j, True, np.float64(1.25), np.complex128(.5j), 1e-40, -1e-250j, 1e180, 0, 0.0, 0j):
        nz = (num, num) if vec else num
        if not (op == '/' and num == 0):
            q = f(a, num)
            check(type(q) is type(a), 'type of a%snumber', op)
            expect(q, {k: zipop(f, da[k], nz) for k in da if k[0] >= lo}, 'a%s%r' % (op, num), nmax, mmax, 1e-12)
            if vec:
                check(q.scoef1._vec[0] == 0 and q.scoef2._vec[0] == 0, 'a%snumber: monopole', op)
        else:
            raises(ZeroDivisionError, lambda: f(a, num), 'a/%r' % num)
        if not isinstance(num, np.generic):
            q = f(num, a)
            check(type(q) is type(a), 'type of number%sa', op)
            expect(q, {k: zipop(f, nz, da[k]) for k in da if k[0] >= lo}, '%r%sa' % (num, op), nmax, mmax, 1e-12)
            if vec:
                check(q.scoef1._vec[0] == 0 and q.scoef2._vec[0] == 0, 'number%sa: monopole', op)
    expect(a, da, 'operand after a%snumber' % op)
    other, _ = mk(nmax, mmax, s, not vec)
    for o in (other, 'x', None, (1, 2), [1.0], {}):
        raises(TypeError, lambda: f(a, o), 'a%s%s' % (op, type(o).__name__))
        raises(TypeError, lambda: f(o, a), '%s%sa' % (type(o).__name__, op))
    raises(TypeError, lambda: f(a, np.ones(len(da), complex)), 'a%sarray' % op)
    L = len(da)
    sz = [(n, m) for n in range(0, 14) for m in range(0, n + 1) if (n, m) != (nmax, mmax) and
          (len(modes(n, m)) == L or n == nmax or m == mmax or r.random() < .1)]
    for n2, m2 in sz[:25]:
        b, db = mk(n2, m2, s + 1, vec)
        raises(ValueError, lambda: f(a, b), 'sizes (%d,%d)%s(%d,%d)' % (nmax, mmax, op, n2, m2))
    expect(a, da, 'operand after rejected operations')


@gen('C04')
def _(rng):
    # sets of different shape with the same number of modes
    for n in range(1, 40):
        for m in range(0, n + 1):
            for n2 in range(n + 1, 60):
                L = len(modes(n, m))
                for m2 in range(0, n2 + 1):
                    l2 = (n2 + 1) + m2 * (2 * n2 - m2 + 1)
                    if l2 == L:
                        for v in (False, True):
                            yield 'c04_equal_count', dict(n=n, m=m, n2=n2, m2=m2, vec=v)
                    if l2 > L:
                        break


@case
def c04_equal_count(n, m, n2, m2, vec):
    a, da = mk(n, m, 1, vec)
    b, db = mk(n2, m2, 2, vec)
    for op in '+-*/':
        raises(ValueError, lambda: OPS[op](a, b), 'sizes (%d,%d)%s(%d,%d)' % (n, m, op, n2, m2))
        raises(ValueError, lambda: OPS[op](b, a), 'sizes (%d,%d)%s(%d,%d)' % (n2, m2, op, n, m))


@gen('C05')
def _(rng):
    for n, m, v in size_stream(rng, 4, 7):
        yield 'c05', dict(nmax=n, mmax=m, s=seed(rng))


def mono(c, msg):
    check(c.scoef1[0, 0] == 0 and c.scoef2[0, 0] == 0, '%s: n=0 entry is not zero', msg)
    check(c.scoef1._vec[0] == 0 and c.scoef2._vec[0] == 0, '%s: n=0 entry is not zero', msg)


@case
def c05(nmax, mmax, s):
    L = len(modes(nmax, mmax))
    for k1, k2 in ((0, 1), (1, 0), (0, 0), (1j, 2), (1e-300, -1), (2, 1e-20j), (-1j, 1j), (1 + 1j, 1e-300j)):
        v, w = rvec(s, L), rvec(s + 1, L)
        v[0] = k1
        w[0] = k2
        mono(sp.VectorCoefs(v, w, nmax, mmax), 'constructor')
    c = sp.VectorCoefs(rvec(s, L), rvec(s + 1, L), nmax, mmax)
    mono(c, 'constructor')
    d, _ = mk(nmax, mmax, s + 9, True)
    for f in (sp.zeros_coefs, sp.ones_coefs):
        mono(f(nmax, mmax, coef_type=sp.vector), f.__name__)
    mono(sp.random_coefs(nmax, mmax, mu=3.0, coef_type=sp.vector), 'random_coefs')
    mono(c.copy(), 'copy')
    for op in '+-*/':
        mono(OPS[op](c, d), 'c%sd' % op)
        for x in (2, .5, 1 - 2j):
            mono(OPS[op](c, x), 'c%s%r' % (op, x))
            mono(OPS[op](x, c), '%r%sc' % (x, op))
    if nmax:
        mono(-1 * c, 'negation')
    for k in range(nmax + 1):
        mono(c[0:k, :], 'truncation')
    _, dd = mk(nmax, mmax, s, True)
    c, dd = mk(nmax, mmax, s, True)
    for m in range(-nmax - 1, nmax + 2):
        raises(AttributeError, lambda: c[0, m], 'read c[0,%d]' % m)
        raises(AttributeError, lambda: c.__setitem__((0, m), (1j, 2)), 'assign c[0,%d]' % m)
    raises(AttributeError, lambda: c[0, :], 'read c[0,:]')
    raises(AttributeError, lambda: c.__setitem__((0, slice(None)), (1j, 2)), 'assign c[0,:]')
    expect(c, dd, 'after rejected assignment')
    for n, m in modes(nmax, mmax):
        if n:
            c[n, m] = (3j, 4)
            mono(c, 'assignment')
    R = nmax + 2 + s % 3
    C = 2 * mmax + 2 + 2 * (s % 2)
    r = np.random.RandomState(s % 2 ** 31)
    g = lambda: r.randn(R, C) + 1j * r.randn(R, C) + 2
    p = sp.TransversePatternUniform(g(), g())
    mono(sp.vspht(p, nmax, mmax), 'vector transform')


@gen('C06')
def _(rng):
    for n, m, v in size_stream(rng):
        yield 'c06', dict(nmax=n, mmax=m, s=seed(rng), kind=rng.randrange(4))


@case
def c06(nmax, mmax, s, kind):
    c, d = mk(nmax, mmax, s)
    w = rvec(s + 3, nmax + 1, kind)
    if s % 3 == 0:
        w = np.abs(w)
    w0 = w.copy()
    r = c.window(w)
    expect(c, {k: v * w0[k[0]] for k, v in d.items()}, 'window', nmax, mmax, 1e-11)
    same(w, w0, 'window vector')
    check(c.size == len(d), 'size')


@gen('C07')
def _(rng):
    for n, m, v in size_stream(rng, 4, 8):
        yield 'c07_coef', dict(nmax=n, mmax=m, s=seed(rng), vec=v, kind=rng.randrange(4))


@case
def c07_coef(nmax, mmax, s, vec, kind):
    c, d = mk(nmax, mmax, s, vec, kind)
    A = {k: np.array(v) for k, v in d.items()}
    sq = {k: float(np.sum(np.abs(v) ** 2)) for k, v in A.items()}
    tot = sum(sq.values())
    close(sp.L2_coef(c), np.sqrt(tot), 'L2_coef', 1e-10)
    if vec:
        i1 = max(abs(v[0]) for v in d.values())
        i2 = max(abs(v[1]) for v in d.values())
        close(sp.LInf_coef(c), np.sqrt(i1 ** 2 + i2 ** 2), 'LInf_coef', 1e-10)
    else:
        close(sp.LInf_coef(c), max(abs(v) for v in d.values()), 'LInf_coef', 1e-10)
        close(c.power(), tot, 'power', 1e-10)
        ps = c.angular_power_spectrum()
        close(ps, [sum(sq[n, m] for m in range(-min(n, mmax), min(n, mmax) + 1)) for n in range(nmax + 1)], 'angular_power_spectrum', 1e-10)
        expect(sp.abs(c), {k: np.abs(v) for k, v in d.items()}, 'abs', nmax, mmax, 1e-12)
        c2, d2 = mk(nmax, mmax, s + 4, False, kind)
        den = sum(np.abs(v) for v in d.values())
        if den > 0:
            close(sp.compare_relative(c, c2), sum(np.abs(d[k] - d2[k]) for k in d) / den, 'compare_relative', 1e-10)
    m1, m2 = sp.mag(c), sp.mag2(c)
    check(isinstance(m1, sp.ScalarCoefs) and isinstance(m2, sp.ScalarCoefs), 'type of mag')
    expect(m1, {k: np.sqrt(v) for k, v in sq.items()}, 'mag', nmax, mmax, 1e-11)
    expect(m2, sq, 'mag2', nmax, mmax, 1e-11)
    expect(c, d, 'set after norms', nmax, mmax)


@gen('C07')
def _(rng):
    while True:
        yield 'c07_patt', dict(R=rng.randrange(2, 7), C=2 * rng.randrange(1, 5), s=seed(rng), vec=rng.random() < .5, ds=rng.random() < .4, kind=rng.randrange(2))


@case
def c07_patt(R, C, s, vec, ds, kind):
    nr = 2 * R - 2 if ds else R
    a = rvec(s, nr * C, kind).reshape(nr, C)
    b = rvec(s + 1, nr * C, kind).reshape(nr, C)
    if vec:
        p = sp.TransversePatternUniform(a, b, doublesphere=ds)
        T, P = [np.array(x) for x in p.doublesphere]
        close(sp.L2_patt(p), np.sqrt(np.sum(np.abs(T) ** 2) + np.sum(np.abs(P) ** 2)), 'L2_patt', 1e-10)
        close(sp.LInf_patt(p), np.sqrt(np.max(np.abs(T)) ** 2 + np.max(np.abs(P)) ** 2), 'LInf_patt', 1e-10)
        m2 = np.abs(T[:R]) ** 2 + np.abs(P[:R]) ** 2
    else:
        p = sp.ScalarPatternUniform(a, doublesphere=ds)
        T = np.array(p.doublesphere)
        close(sp.L2_patt(p), np.sqrt(np.sum(np.abs(T) ** 2)), 'L2_patt', 1e-10)
        close(sp.LInf_patt(p), np.max(np.abs(T)), 'LInf_patt', 1e-10)
        m2 = np.abs(T[:R]) ** 2
        close(sp.abs(p), np.sqrt(m2), 'abs', 1e-11)
    close(sp.mag2(p), m2, 'mag2', 1e-11)
    close(sp.mag(p), np.sqrt(m2), 'mag', 1e-11)


@gen('C23')
def _(rng):
    for n, m, v in size_stream(rng):
        yield 'c23', dict(nmax=n, mmax=m, s=seed(rng), vec=v)


@case
def c23(nmax, mmax, s, vec):
    c, d = mk(nmax, mmax, s, vec)
    for j in range(2 if vec else 1):
        g = (lambda n, m: d[n, m][j]) if vec else (lambda n, m: d[n, m])
        pick = (lambda x: x[j]) if vec else (lambda x: x)
        a = np.zeros((nmax + 1, 2 * mmax + 1), complex)
        for (n, m) in d:
            a[n, mmax + m] = g(n, m)
        same(pick(c._array_2d_repr()), a, '2-D representation')
        l = pick(c._reshape_n_vecs())
        order = [0] + [x for k in range(1, mmax + 1) for x in (-k, k)]
        check(len(l) == len(order), 'per-order list length')
        for m, x in zip(order, l):
            same(x, [g(n, m) for n in range(abs(m), nmax + 1)], 'per-order list m=%d' % m)
        l = pick(c._reshape_m_vecs())
        check(len(l) == nmax + 1, 'per-degree list length')
        for n, x in enumerate(l):
            b = min(n, mmax)
            same(x, [g(n, m) for m in range(-b, b + 1)], 'per-degree list n=%d' % n)
    expect(c, d, 'set after views')
