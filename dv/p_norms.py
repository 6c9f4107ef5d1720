"""Contracts: norms, powers, magnitudes (C07)."""
from spec import *
from p_patt import raw_patt, arrays_of, grid_sizes, same_cells


def abs2(z):
    re, im = re_im(z)
    return re * re + im * im


def absv(ctx, z):
    return pyvals.poly_abs(ctx, z)


import pyvals


def vec_readers(S, kind):
    """arbitrary set; -> (object, [reader of each component's vector], nmax, mmax)"""
    nm, mm = sizes(S)
    L = ncoef(nm.p, mm.p)
    n = 1 if kind == 'ScalarCoefs' else 2
    arrs = [S.carray('v%d' % k, (L,)) for k in range(n)]
    raw = [reader(S.ctx, a) for a in arrs]
    c = S.call(kind, *(arrs + [nm, mm]))
    if n == 1:
        return c, raw, nm, mm

    def rd(g):
        return lambda idx: ZERO if S.ctx.decide(eq(idx[0], 0)) else g(idx)
    return c, [rd(g) for g in raw], nm, mm


def total(S, shape, g):
    """sum of |.|^2"""
    return sum_pieces(S.ctx, shape, lambda idx: abs2(g(idx)))


def largest(S, shape, g):
    nm, ps = functional(S.ctx, 'max', tuple(P(x) for x in shape), lambda idx: absv(S.ctx, g(idx)))
    return app(nm, ps)


@obligation('C07', 'ScalarCoefs.power')
def _(S):
    c, (g,), nm, mm = vec_readers(S, 'ScalarCoefs')
    S.expect_eq(S.method(c, 'power'), total(S, (ncoef(nm.p, mm.p),), g), 'power')


@obligation('C07', 'ScalarCoefs.angular_power_spectrum')
def _(S):
    c, g, nm, mm = scoefs(S)
    r = S.method(c, 'angular_power_spectrum')
    if not isinstance(r, Arr) or len(r.shape) != 1:
        return S.fail('spectrum is a vector')
    S.expect_eq(r.shape[0], nm.p + 1, 'spectrum length')
    gr = reader(S.ctx, r)

    def chk(b):
        n = b[0]
        nn = n if S.ctx.decide(le(n, mm.p)) else mm.p
        want = sum_pieces(S.ctx, (2 * nn + 1,), lambda j: abs2(g(n, j[0] - nn)))
        S.expect_eq(gr(b), want, 'spectrum entry')
    S.for_all((nm.p + 1,), chk)


@obligation('C07', 'L2 norm of coefficient sets')
def _(S):
    c, (g,), nm, mm = vec_readers(S, 'ScalarCoefs')
    L = (ncoef(nm.p, mm.p),)
    S.expect_eq(S.call('L2_coef', c), sqrt(total(S, L, g)), 'scalar')


@obligation('C07', 'L2 norm of vector coefficient sets')
def _(S):
    c, (g, h), nm, mm = vec_readers(S, 'VectorCoefs')
    L = (ncoef(nm.p, mm.p),)
    S.expect_eq(S.call('L2_coef', c), sqrt(total(S, L, g) + total(S, L, h)), 'vector')


@obligation('C07', 'LInf norm of coefficient sets')
def _(S):
    c, (g,), nm, mm = vec_readers(S, 'ScalarCoefs')
    S.expect_eq(S.call('LInf_coef', c), largest(S, (ncoef(nm.p, mm.p),), g), 'scalar')


@obligation('C07', 'LInf norm of vector coefficient sets')
def _(S):
    c, (g, h), nm, mm = vec_readers(S, 'VectorCoefs')
    L = (ncoef(nm.p, mm.p),)
    a, b = largest(S, L, g), largest(S, L, h)
    S.expect_eq(S.call('LInf_coef', c), sqrt(a * a + b * b), 'vector')


@obligation('C07', 'compare_relative')
def _(S):
    nm, mm = sizes(S)
    L = ncoef(nm.p, mm.p)
    a, b = S.carray('a', (L,)), S.carray('b', (L,))
    ga, gb = reader(S.ctx, a), reader(S.ctx, b)
    x, y = S.call('ScalarCoefs', a, nm, mm), S.call('ScalarCoefs', b, nm, mm)
    den = sum_pieces(S.ctx, (L,), lambda i: absv(S.ctx, ga(i)))
    S.ctx.assume(ne(den, 0))
    num = sum_pieces(S.ctx, (L,), lambda i: absv(S.ctx, ga(i) - gb(i)))
    S.expect_eq(S.call('compare_relative', x, y), num / den, 'relative difference')


for _f, _w in (('abs', lambda S, z: absv(S.ctx, z)), ('mag', lambda S, z: absv(S.ctx, z)), ('mag2', lambda S, z: abs2(z))):
    @obligation('C07', '%s of a scalar set' % _f)
    def _(S, _f=_f, _w=_w):
        c, g, nm, mm = scoefs(S)
        r = S.call(_f, c)
        if not S.isinst(r, 'ScalarCoefs'):
            return S.fail('result is a scalar set')
        expect_size(S, r, nm, mm, 'size')
        expect_vec_len(S, r, 'invariant')
        all_modes(S, r, lambda n, m: _w(S, g(n, m)), _f)
        all_modes(S, c, g, 'operand unchanged')

    @obligation('C07', '%s of a scalar pattern' % _f)
    def _(S, _f=_f, _w=_w):
        R, h, C = grid_sizes(S)
        p, (g,) = raw_patt(S, 'ScalarPatternUniform', 'p', (R, h, C))
        r = S.call(_f, p)
        S.expect(And(eq(r.shape[0], R.p), eq(r.shape[1], C.p)), 'shape')
        gr = reader(S.ctx, r)
        S.for_all((R.p, C.p), lambda b: S.expect_eq(gr(b), _w(S, g(b)), _f))


for _f in ('mag', 'mag2'):
    @obligation('C07', '%s of a vector set' % _f)
    def _(S, _f=_f):
        c, g, nm, mm = vcoefs(S)
        r = S.call(_f, c)
        if not S.isinst(r, 'ScalarCoefs'):
            return S.fail('result is a scalar set')
        expect_size(S, r, nm, mm, 'size')
        expect_vec_len(S, r, 'invariant')

        def want(n, m):
            if S.ctx.decide(eq(n, 0)):
                return ZERO
            a, b = g(n, m)
            v = abs2(a) + abs2(b)
            return v if _f == 'mag2' else sqrt(v)
        all_modes(S, r, want, _f)
        all_modes(S, c, g, 'operand unchanged', lo=1)

    @obligation('C07', '%s of a transverse pattern' % _f)
    def _(S, _f=_f):
        R, h, C = grid_sizes(S)
        p, (g, k) = raw_patt(S, 'TransversePatternUniform', 'p', (R, h, C))
        r = S.call(_f, p)
        S.expect(And(eq(r.shape[0], R.p), eq(r.shape[1], C.p)), 'shape')
        gr = reader(S.ctx, r)

        def chk(b):
            v = abs2(g(b)) + abs2(k(b))
            S.expect_eq(gr(b), v if _f == 'mag2' else sqrt(v), _f)
        S.for_all((R.p, C.p), chk)


for _k in ('ScalarPatternUniform', 'TransversePatternUniform'):
    @obligation('C07', 'norms of a %s' % _k)
    def _(S, _k=_k):
        R, h, C = grid_sizes(S)
        p, gs = raw_patt(S, _k, 'p', (R, h, C))
        sh = (2 * R.p - 2, C.p)
        t = ZERO
        for g in gs:
            t = t + total(S, sh, g)
        S.expect_eq(S.call('L2_patt', p), sqrt(t), 'L2 norm')
        ms = [largest(S, sh, g) for g in gs]
        S.expect_eq(S.call('LInf_patt', p), ms[0] if len(ms) == 1 else sqrt(ms[0] * ms[0] + ms[1] * ms[1]), 'LInf norm')


@obligation('C07', 'other types are rejected')
def _(S):
    for f in ('abs', 'mag', 'mag2'):
        for o in (1, 'x', None):
            S.raises('TypeError', lambda: S.call(f, o), f)
