"""Contracts: transforms (C10-C14, C17, C20, C26)."""
from spec import *
import terms as T_
import contracts as CO
from contracts import Y, S_value, s_value, column

PI = var('pi', 'r')


def intp(S, nm, lo=None, hi=None):
    v = S.int(nm)
    if lo is not None:
        S.ctx.assume(ge(v.p, lo))
    if hi is not None:
        S.ctx.assume(le(v.p, hi))
    return v


# ------------------------------------------------------------------ low level routines (Python)
def ynnm_spec(ctx, n, m):
    if ctx.decide(Or(gt(m, n), lt(m, -n))):
        return ZERO
    a = m if ctx.decide(ge0(m)) else -m
    k = P(mk_atom('var', 'k#spec', (), 'i'))
    p1 = T_.mk_prod(k, ZERO, n, (), sqrt((2 * (k + 1) + 1) / (8 * (k + 1))))
    p2 = T_.mk_prod(k, ZERO, n - a, (), sqrt((n + a + k + 1) / (n - a - k)))
    return sqrt(1 / (4 * PI)) * p1 * p2


@obligation('C10 C11 C12 C13 C14 C25 C26', 'ynnm', inline=('pysphi.ynnm',))
def _(S):
    n, m = intp(S, 'n', 0), intp(S, 'm')
    v = S.call('pysphi.ynnm', n, m)
    S.expect_eq(v, ynnm_spec(S.ctx, n.p, m.p), 'start value')


def Bv(n, v):
    return (n - v) * (n + v + 1)


def y_relations(S, g, n, m, L):
    """the relations that determine the Legendre Fourier coefficients"""
    ctx = S.ctx

    if ctx.decide(Or(gt(m, n), lt(m, -n))):
        S.for_all((L,), lambda b: S.expect_eq(g(b), ZERO, '|m| > n: zero'))
        return
    S.expect_eq(g([n]), app('ynnm', [n, m]), 'start value at n')
    S.for_all((L - n - 1,), lambda b: S.expect_eq(g([n + 1 + b[0]]), ZERO, 'zero beyond n'))

    def odd(b):
        j = b[0]
        ctx.assume(ge0(n - 1 - 2 * j))
        S.expect_eq(g([n - 1 - 2 * j]), ZERO, 'zero where n-k is odd')
    S.for_all((n,), odd)

    def rec(b):
        j = b[0]
        k = n - 2 - 2 * j
        ctx.assume(ge0(k))
        up = g([k + 4]) if ctx.decide(ge(j, 1)) else ZERO
        S.expect_eq(Bv(n, k) * g([k]), (Bv(n, k + 1) + Bv(n, k + 2) - 4 * m * m) * g([k + 2]) - Bv(n, k + 3) * up, 'recurrence')
    S.for_all((n,), rec)



@obligation('C10 C11 C12 C13 C14 C25 C26', 'ynunm', inline=('pysphi.ynunm',))
def _(S):
    n, m = intp(S, 'n', 0), intp(S, 'm')
    L = intp(S, 'L', n.p + 1)
    a = S.call('pysphi.ynunm', n, m, L)
    if not isinstance(a, Arr) or len(a.shape) != 1:
        return S.fail('a vector')
    S.expect_eq(a.shape[0], L.p, 'length')
    y_relations(S, reader(S.ctx, a), n.p, m.p, L.p)


@obligation('C12 C13 C24 C26', 'smallest_prime_factor', inline=('pysphi.smallest_prime_factor',))
def _(S):
    q = intp(S, 'Q', 1)
    r = S.call('pysphi.smallest_prime_factor', q)
    S.expect(B(CO.isint(r)), 'integer result')
    S.expect(ge(tonum(r)[0], q.p), 'at least the requested length')


@obligation('C12 C13 C14 C26', 's_data', inline=('pysphi.s_data',))
def _(S):
    r, N = intp(S, 'r', 1), intp(S, 'N', 0)
    Q = intp(S, 'Q', 2 * r.p + N.p + 1)
    a = S.call('pysphi.s_data', Num(2 * r.p, 'int'), N, Q)
    if not isinstance(a, Arr) or len(a.shape) != 1:
        return S.fail('a vector')
    S.expect_eq(a.shape[0], Q.p, 'length')
    g = reader(S.ctx, a)
    S.for_all((Q.p,), lambda b: S.expect_eq(g(b), s_value(S.ctx, 2 * r.p, N.p, Q.p, b[0]), 'kernel'))


def h_spec(ctx, g, r, k):
    """4 pi sum over rows nu of G[nu] S(k - nu)"""
    s1 = sum_pieces(ctx, (r,), lambda j: g([j[0]]) * S_value(ctx, k - j[0]))
    s2 = sum_pieces(ctx, (r,), lambda j: g([j[0] + r]) * S_value(ctx, k - j[0] + r))
    return 4 * PI * (s1 + s2)


@obligation('C12 C13 C14 C26', 'hkm_fc', inline=('pysphi.hkm_fc',))
def _(S):
    ctx = S.ctx
    r, c, N = intp(S, 'r', 1), intp(S, 'c', 1), intp(S, 'N', 0)
    m = intp(S, 'm', -c.p, c.p - 1)
    Q = intp(S, 'Q', 2 * r.p + N.p + 1)
    f = S.carray('G', (2 * r.p, c.p))
    s = fnarr(ctx, (Q.p,), 'c', lambda idx: s_value(ctx, 2 * r.p, N.p, Q.p, idx[0]))
    a = S.call('pysphi.hkm_fc', f, N, m, s)
    if not isinstance(a, Arr) or len(a.shape) != 1:
        return S.fail('a vector')
    S.expect_eq(a.shape[0], N.p + 1, 'length')
    g = reader(ctx, a)
    col = reader(ctx, column(ctx, f, m.p))
    S.for_all((N.p + 1,), lambda b: S.expect_eq(g(b), h_spec(ctx, col, r.p, b[0]), 'h'))


def vec1(S, a, n, label):
    if not isinstance(a, Arr) or len(a.shape) != 1:
        S.fail(label + ': a vector')
        return False
    S.expect_eq(a.shape[0], n, label + ': length')
    return True


def bnm_spec(ctx, h, n, m):
    """quadrature for one mode; h: k -> h[k]"""
    s = sum_pieces(ctx, (n,), lambda j: h([j[0] + 1]) * Y(ctx, n, m, j[0] + 1))
    return ip(-m) * (h([ZERO]) * Y(ctx, n, m, 0) + 2 * s)


@obligation('C12 C13 C14 C26', 'bnm_vec_fc', inline=('pysphi.bnm_vec_fc',))
def _(S):
    ctx = S.ctx
    r, c, N = intp(S, 'r', 1), intp(S, 'c', 1), intp(S, 'N', 0)
    m = intp(S, 'm', -c.p, c.p - 1)
    S.ctx.assume(And(le(m.p, N.p), ge(m.p, -N.p)))
    f = S.carray('G', (2 * r.p, c.p))
    g0 = reader(ctx, f)
    a = S.call('pysphi.bnm_vec_fc', f, N, m)
    am = m.p if ctx.decide(ge0(m.p)) else -m.p
    if vec1(S, a, N.p - am + 1, 'modes of one order'):
        g = reader(ctx, a)
        h = CO.elem(ctx, 'hkm', column(ctx, f, m.p), [N.p])
        S.for_all((N.p - am + 1,), lambda b: S.expect_eq(g(b), bnm_spec(ctx, h, am + b[0], m.p), 'quadrature of one mode'))
    same_content(S, f, g0, 'Fourier data unchanged')


def same_content(S, a, g0, label):
    g = reader(S.ctx, a)
    S.for_all(a.shape, lambda b: S.expect_eq(g(b), g0(b), label))


@obligation('C12 C13 C14 C26', 'fc_to_sc', inline=('pysphi.fc_to_sc',))
def _(S):
    ctx = S.ctx
    N, M = intp(S, 'N', 0), intp(S, 'M', 0)
    ctx.assume(le(M.p, N.p))
    r, c = intp(S, 'r', N.p + 1), intp(S, 'c', M.p + 1)
    f = S.carray('G', (2 * r.p, 2 * c.p))
    g0 = reader(ctx, f)
    a = S.call('pysphi.fc_to_sc', f, N, M)
    if vec1(S, a, ncoef(N.p, M.p), 'modes'):
        g = reader(ctx, a)

        def body():
            n, m = mode(S, N, M)
            am = m.p if ctx.decide(ge0(m.p)) else -m.p
            v = CO.elem(ctx, 'bnm', column(ctx, f, m.p), [N.p, m.p])([n.p - am])
            S.expect_eq(g([lay(ctx, N.p + 1, n.p, m.p)]), v, 'mode computed from its column')
        S.scope(body)
    same_content(S, f, g0, 'Fourier data unchanged')


def fcvec_spec(ctx, v, m, N, R, i):
    """row i of the Fourier data of order m; v: values by degree - |m|"""
    am = m if ctx.decide(ge0(m)) else -m

    def at(k):
        return sum_pieces(ctx, (N - am + 1,), lambda j: v([j[0]]) * Y(ctx, am + j[0], m, k))
    if ctx.decide(le(i, N)):
        return ip(m) * at(i)
    if ctx.decide(le(R - i, N)):
        return ip(2 * m) * ip(m) * at(R - i)
    return ZERO


def fc_rows(S, N, nm='r'):
    """half of an even number of rows, at least 2 and 2 nmax"""
    r = intp(S, nm, 1)
    S.ctx.assume(ge(r.p, N.p))
    return r


@obligation('C10 C13 C14 C26', 'fcvec_m_sc', inline=('pysphi.fcvec_m_sc',))
def _(S):
    ctx = S.ctx
    N = intp(S, 'N', 0)
    m = intp(S, 'm', -N.p, N.p)
    r = fc_rows(S, N)
    am = m.p if ctx.decide(ge0(m.p)) else -m.p
    v = S.carray('v', (N.p - am + 1,))
    g0 = reader(ctx, v)
    a = S.call('pysphi.fcvec_m_sc', v, m, N, Num(2 * r.p, 'int'))
    if vec1(S, a, 2 * r.p, 'one column'):
        g = reader(ctx, a)
        S.for_all((2 * r.p,), lambda b: S.expect_eq(g(b), fcvec_spec(ctx, g0, m.p, N.p, 2 * r.p, b[0]), 'Fourier data of one order'))
    same_content(S, v, g0, 'coefficients unchanged')


def order_slice(ctx, v, N, m):
    am = m if ctx.decide(ge0(m)) else -m
    s, _ = block(ctx, N + 1, m)
    return fnarr(ctx, (N - am + 1,), 'c', lambda idx: v([s + idx[0]]))


@obligation('C10 C13 C14 C26', 'sc_to_fc', inline=('pysphi.sc_to_fc',))
def _(S):
    ctx = S.ctx
    N, M = intp(S, 'N', 0), intp(S, 'M', 0)
    ctx.assume(le(M.p, N.p))
    r, c = fc_rows(S, N), intp(S, 'c', M.p + 1)
    v = S.carray('v', (ncoef(N.p, M.p),))
    g0 = reader(ctx, v)
    a = S.call('pysphi.sc_to_fc', v, N, M, Num(2 * r.p, 'int'), Num(2 * c.p, 'int'))
    if not isinstance(a, Arr) or len(a.shape) != 2:
        return S.fail('a matrix')
    S.expect(And(eq(a.shape[0], 2 * r.p), eq(a.shape[1], 2 * c.p)), 'shape')
    g = reader(ctx, a)

    def body():
        i, m = S.int('i').p, S.int('m').p
        ctx.assume(And(ge0(i), lt(i, 2 * r.p), ge(m, -c.p), lt(m, c.p)))
        cell = g([i, m if ctx.decide(ge0(m)) else m + 2 * c.p])
        if ctx.decide(And(le(m, M.p), ge(m, -M.p))):
            w = CO.elem(ctx, 'fcvec', order_slice(ctx, g0, N.p, m), [m, N.p, 2 * r.p])([i])
        else:
            w = ZERO
        S.expect_eq(cell, w, 'column of each order')
    S.scope(body)
    same_content(S, v, g0, 'coefficients unchanged')


# ------------------------------------------------------------------ transforms
from p_patt import raw_patt, unchanged, storages, disjoint, arrays_of, grid_sizes
import p_ops as OPS


def cext(S, on):
    S.mod('spherepy')['use_cext'] = on


def is_coefs(S, c, kind, N, M, label):
    if not S.isinst(c, kind):
        S.fail(label + ': a ' + kind)
        return False
    expect_size(S, c, N, M, label)
    expect_vec_len(S, c, label)
    return True


def forward_args(S, sz):
    R, h, C = sz
    N, M = intp(S, 'N', 0, R.p - 2), intp(S, 'M', 0, h.p - 1)
    S.ctx.assume(le(M.p, N.p))
    return N, M


def padded(S, g, r, c):
    """2-D Fourier coefficients of the doubled array (2r x 2c), highest row frequency removed, as 2r+2 rows"""
    ctx = S.ctx
    a = fnarr(ctx, (2 * r, 2 * c), 'c', g)
    F = reader(ctx, fft_nd(ctx, a, 'fft2'))

    def cell(b):
        k = OPS.freq(ctx, b[0], r + 1)
        if ctx.decide(And(gt(k, -r), lt(k, r))):
            return F([k if ctx.decide(ge0(k)) else k + 2 * r, b[1]]) / (4 * r * c)
        return ZERO
    return cell


def spht_spec(S, g, r, c, N, M):
    ctx = S.ctx
    H = fnarr(ctx, (2 * r + 2, 2 * c), 'c', OPS.sin_of(ctx, padded(S, g, r, c), r + 1))
    return CO.elem(ctx, 'fc_to_sc', H, [N, M])


def vec_cells(S, c, want, N, label, lo=0):
    """mode by mode; want(layout index, n)"""
    g = reader(S.ctx, vec_of(S, c))
    nm, mm = [Num(tonum(S.attr(c, x))[0], 'int') for x in ('nmax', 'mmax')]

    def body():
        n, m = mode(S, nm, mm, lo)
        k = lay(S.ctx, N + 1, n.p, m.p)
        S.expect_eq(g([k]), want(k, n.p), label)
    S.scope(body, label)


def fwd_scalar(S, name, on):
    cext(S, on)
    sz = grid_sizes(S)
    p, ra = raw_patt(S, 'ScalarPatternUniform', 'D', sz)
    N, M = forward_args(S, sz)
    c = S.call(name, p, N, M)
    if is_coefs(S, c, 'ScalarCoefs', N, M, 'result'):
        w = spht_spec(S, ra[0], sz[0].p - 1, sz[1].p, N.p, M.p)
        vec_cells(S, c, lambda k, n: w([k]), N.p, 'quadrature of the sine-multiplied Fourier data')
    unchanged(S, p, ra, sz, 'pattern unchanged')
    disjoint(S, c, [p], 'coefficients')


for _n, _m in (('spht', True), ('spht', False), ('spht_slow', True)):
    @obligation('C12 C17 C20' + (' C15' if _n == 'spht' and _m else ''), '%s%s' % (_n, '' if _n != 'spht' else ', C extension' if _m else ', Python routines'))
    def _(S, n=_n, m=_m):
        fwd_scalar(S, n, m)


def scaled(ctx, v, n):
    """v / sqrt(n (n+1)), 0 for n = 0"""
    if ctx.decide(eq(n, 0)):
        return ZERO
    return v * inv(sqrt(n * n + n))


def fwd_vector(S, on):
    cext(S, on)
    ctx = S.ctx
    sz = grid_sizes(S)
    p, ra = raw_patt(S, 'TransversePatternUniform', 'D', sz)
    N, M = forward_args(S, sz)
    c = S.call('vspht', p, N, M)
    if is_coefs(S, c, 'VectorCoefs', N, M, 'result'):
        r, h = sz[0].p - 1, sz[1].p
        t, q = padded(S, ra[0], r, h), padded(S, ra[1], r, h)

        def sinL(t, q):
            u, v = OPS.dph(ctx, t, h), OPS.dth(ctx, OPS.sin_of(ctx, q, r + 1), r + 1)
            a = fnarr(ctx, (2 * r + 2, 2 * h), 'c', lambda b: I * (u(b) - v(b)))
            return CO.elem(ctx, 'fc_to_sc', a, [N.p, M.p])
        for comp, w in (('scoef1', sinL(t, q)), ('scoef2', sinL(lambda b: -I * q(b), lambda b: I * t(b)))):
            g = reader(ctx, vec_of(S, S.attr(c, comp)))
            S.for_all((ncoef(N.p, M.p),), lambda b: S.expect_eq(g(b), scaled(ctx, w(b), CO.degree(ctx, N.p + 1, b[0])),
                                                               comp + ': scaled quadrature of the L data'))
    unchanged(S, p, ra, sz, 'pattern unchanged')
    disjoint(S, c, [p], 'coefficients')


for _m in (True, False):
    @obligation('C13 C17 C20' + (' C15' if _m else ''), 'vspht, %s' % ('C extension' if _m else 'Python routines'), use=('spherepy.ScalarCoefs.window',))
    def _(S, m=_m):
        fwd_vector(S, m)


def inverse_args(S, N, M):
    R, h = intp(S, 'R', N.p + 2), intp(S, 'h', M.p + 1)
    return R, h, Num(2 * h.p, 'int')


def is_patt(S, p, kind, R, C, label):
    if not S.isinst(p, kind):
        S.fail(label + ': a ' + kind)
        return False
    S.expect_eq(S.attr(p, 'nrows'), R, label + ': nrows')
    S.expect_eq(S.attr(p, 'ncols'), C, label + ': ncols')
    for a in arrays_of(S, p):
        S.expect(And(eq(a.shape[0], 2 * R.p - 2), eq(a.shape[1], C.p)), label + ': doubled array')
    return True


def synth(S, F, r, c):
    """the values of the trigonometric polynomial with Fourier data F (2r x 2c)"""
    ctx = S.ctx
    g = reader(ctx, fft_nd(ctx, fnarr(ctx, (2 * r, 2 * c), 'c', F), 'ifft2'))
    return lambda b: 4 * r * c * g(b)


def inv_scalar(S, name, on):
    ctx = S.ctx
    cext(S, on)
    c, _, N, M = scoefs(S)
    v0 = reader(ctx, vec_of(S, c))
    R, h, C = inverse_args(S, N, M)
    p = S.call(name, c, R, C)
    if is_patt(S, p, 'ScalarPatternUniform', R, C, 'result'):
        r = R.p - 1
        v = fnarr(ctx, (ncoef(N.p, M.p),), 'c', v0)
        w = synth(S, CO.elem(ctx, 'sc_to_fc', v, [N.p, M.p, 2 * r, 2 * h.p]), r, h.p)
        g = reader(ctx, arrays_of(S, p)[0])
        S.for_all((2 * r, 2 * h.p), lambda b: S.expect_eq(g(b), w(b), 'synthesis of the Fourier data'))
    same_content(S, vec_of(S, c), v0, 'coefficients unchanged')
    expect_size(S, c, N, M, 'coefficients unchanged')
    disjoint(S, p, [c], 'pattern')


for _n, _m in (('ispht', True), ('ispht', False), ('ispht_slow', True)):
    @obligation('C10 C17 C20' + (' C15' if _n == 'ispht' and _m else ''), '%s%s' % (_n, '' if _n != 'ispht' else ', C extension' if _m else ', Python routines'))
    def _(S, n=_n, m=_m):
        inv_scalar(S, n, m)


def inv_vector(S, on):
    ctx = S.ctx
    cext(S, on)
    c, _, N, M = vcoefs(S)
    comps = [S.attr(c, x) for x in ('scoef1', 'scoef2')]
    v0 = [reader(ctx, vec_of(S, x)) for x in comps]
    R, h, C = inverse_args(S, N, M)
    p = S.call('vispht', c, R, C)
    if is_patt(S, p, 'TransversePatternUniform', R, C, 'result'):
        r = R.p - 1
        L = []
        for x in comps:
            u = reader(ctx, vec_of(S, x))
            y = fnarr(ctx, (ncoef(N.p, M.p),), 'c', lambda b: scaled(ctx, u(b), CO.degree(ctx, N.p + 1, b[0])))
            F = CO.elem(ctx, 'sc_to_fc', y, [N.p, M.p, 2 * r, 2 * h.p])
            D = CO.elem(ctx, 'divsin', fnarr(ctx, (2 * r, 2 * h.p), 'c', OPS.dph(ctx, F, h.p)), [])
            L.append([lambda b, D=D: I * D(b), lambda b, F=F: -I * OPS.dth(ctx, F, r)(b)])
        th = synth(S, lambda b: L[0][0](b) - I * L[1][1](b), r, h.p)
        ph = synth(S, lambda b: L[0][1](b) + I * L[1][0](b), r, h.p)
        for a, w, nm in zip(arrays_of(S, p), (th, ph), ('theta', 'phi')):
            g = reader(ctx, a)
            S.for_all((2 * r, 2 * h.p), lambda b: S.expect_eq(g(b), w(b), nm + ' component'))
    for x, g in zip(comps, v0):
        same_content(S, vec_of(S, x), g, 'coefficients unchanged')
        expect_size(S, x, N, M, 'coefficients unchanged')
    disjoint(S, p, [c], 'pattern')


for _m in (True, False):
    @obligation('C13 C17 C20' + (' C15' if _m else ''), 'vispht, %s' % ('C extension' if _m else 'Python routines'), use=('spherepy.ScalarCoefs.window', 'ops.divsin_fc'))
    def _(S, m=_m):
        inv_vector(S, m)


# ------------------------------------------------------------------ argument validation (C17)
def patt_of(S, kind, odd=False):
    R, h = S.int('R'), S.int('h')
    S.ctx.assume(And(ge(R.p, 2), ge(h.p, 1)))
    C = Num(2 * h.p - 1, 'int') if odd else Num(2 * h.p, 'int')
    return raw_patt(S, kind, 'D', (R, h, C))[0], R, C


FWD = (('spht', 'ScalarPatternUniform', 'ScalarCoefs', ()), ('vspht', 'TransversePatternUniform', 'VectorCoefs', ('spherepy.ScalarCoefs.window',)))
INV = (('ispht', 'ScalarPatternUniform', scoefs), ('vispht', 'TransversePatternUniform', vcoefs))


def rejected(S, name, obj, args, cond, label, kw=()):
    S.ctx.assume(cond)
    S.raises('ValueError', lambda: S.call(name, obj, *args, **dict(kw)), label)


for _n, _k, _c, _u in FWD:
    for _on in (True, False):
        _t = ' (C extension)' if _on else ' (Python routines)'

        @obligation('C17', '%s rejects inadmissible sizes%s' % (_n, _t), use=_u)
        def _(S, n=_n, k=_k, on=_on):
            cext(S, on)
            p, R, C = patt_of(S, k)
            N, M = S.int('N'), S.int('M')
            rejected(S, n, p, (N, M), Or(gt(M.p, N.p), gt(N.p, R.p - 2), ge(2 * M.p, C.p)), 'ValueError')

        @obligation('C17', '%s rejects an odd number of columns%s' % (_n, _t), use=_u)
        def _(S, n=_n, k=_k, on=_on):
            cext(S, on)
            p, R, C = patt_of(S, k, True)
            rejected(S, n, p, (S.int('N'), S.int('M')), TRUE, 'ValueError')

        @obligation('C17', '%s rejects an odd number of columns, default sizes%s' % (_n, _t), use=_u)
        def _(S, n=_n, k=_k, on=_on):
            cext(S, on)
            p, R, C = patt_of(S, k, True)
            rejected(S, n, p, (), TRUE, 'ValueError')

        @obligation('C17', '%s default sizes%s' % (_n, _t), use=_u)
        def _(S, n=_n, k=_k, c=_c, on=_on):
            cext(S, on)
            p, R, C = patt_of(S, k)
            N, M = R.p - 2, C.p / 2 - 1
            if not S.ctx.decide(le(M, N)):
                return S.raises('ValueError', lambda: S.call(n, p), 'default mmax > nmax')
            is_coefs(S, S.call(n, p), c, N, M, 'defaults')

        @obligation('C17', '%s default mmax%s' % (_n, _t), use=_u)
        def _(S, n=_n, k=_k, c=_c, on=_on):
            cext(S, on)
            p, R, C = patt_of(S, k)
            N = intp(S, 'N', 0)
            if not S.ctx.decide(And(le(N.p, R.p - 2), lt(2 * N.p, C.p))):
                return S.raises('ValueError', lambda: S.call(n, p, N), 'default mmax = nmax out of range')
            is_coefs(S, S.call(n, p, N), c, N, N, 'default mmax = nmax')

        @obligation('C17', '%s default nmax%s' % (_n, _t), use=_u)
        def _(S, n=_n, k=_k, c=_c, on=_on):
            cext(S, on)
            p, R, C = patt_of(S, k)
            M = intp(S, 'M', 0)
            if not S.ctx.decide(And(le(M.p, R.p - 2), lt(2 * M.p, C.p))):
                return S.raises('ValueError', lambda: S.call(n, p, mmax=M), 'mmax out of range')
            is_coefs(S, S.call(n, p, mmax=M), c, R.p - 2, M, 'default nmax, given mmax')

for _n, _k, _f in INV:
    for _on in (True, False):
        _t = ' (C extension)' if _on else ' (Python routines)'
        _u = ('spherepy.ScalarCoefs.window', 'ops.divsin_fc') if _n == 'vispht' else ()

        @obligation('C17', '%s rejects inadmissible sizes%s' % (_n, _t), use=_u)
        def _(S, n=_n, f=_f, on=_on):
            cext(S, on)
            c, _, N, M = f(S)
            R, C = S.int('R'), S.int('C')
            low = le(R.p, N.p) if n == 'ispht' else lt(R.p, N.p + 2)
            rejected(S, n, c, (R, C), Or(low, lt(R.p, 2), lt(C.p, 2 * M.p + 2)), 'ValueError')

        @obligation('C17', '%s rejects an odd number of columns%s' % (_n, _t), use=_u)
        def _(S, n=_n, f=_f, on=_on):
            cext(S, on)
            c, _, N, M = f(S)
            rejected(S, n, c, (S.int('R'), Num(2 * S.int('h').p + 1, 'int')), TRUE, 'ValueError')

        @obligation('C17', '%s default number of rows%s' % (_n, _t), use=_u)
        def _(S, n=_n, f=_f, k=_k, on=_on):
            cext(S, on)
            c, _, N, M = f(S)
            h = intp(S, 'h', M.p + 1)
            C = Num(2 * h.p, 'int')
            is_patt(S, S.call(n, c, ncols=C), k, Num(N.p + 2, 'int'), C, 'nrows = nmax + 2')

        @obligation('C17', '%s default number of columns%s' % (_n, _t), use=_u)
        def _(S, n=_n, f=_f, k=_k, on=_on):
            cext(S, on)
            c, _, N, M = f(S)
            R = intp(S, 'R', N.p + 2)
            is_patt(S, S.call(n, c, R), k, R, Num(2 * M.p + 2, 'int'), 'ncols = 2 mmax + 2')

        @obligation('C17', '%s default sizes%s' % (_n, _t), use=_u)
        def _(S, n=_n, f=_f, k=_k, on=_on):
            cext(S, on)
            c, _, N, M = f(S)
            is_patt(S, S.call(n, c), k, Num(N.p + 2, 'int'), Num(2 * M.p + 2, 'int'), 'defaults')


@obligation('C17', 'spht_slow rejects mmax > nmax and an odd number of columns')
def _(S):
    p, R, C = patt_of(S, 'ScalarPatternUniform', S.ctx.decide(ge(S.int('odd').p, 1)))
    N, M = S.int('N'), S.int('M')
    rejected(S, 'spht_slow', p, (N, M), Or(gt(M.p, N.p), eq(C.p - 2 * T_.floordiv(C.p, P(2)), 1)), 'ValueError')


@obligation('C17', 'ispht_slow rejects an odd number of columns')
def _(S):
    c, _, N, M = scoefs(S)
    rejected(S, 'ispht_slow', c, (intp(S, 'R', 2), Num(2 * S.int('h').p + 1, 'int')), TRUE, 'ValueError')


KNOWN = 'ispht nrows = nmax + 1'


@obligation('C17', 'ispht rejects nrows = nmax + 1', known=KNOWN)
def _(S):
    """documented ("nrows < nmax + 2"), not done: see KNOWN_FINDINGS.txt; anything else than returning a pattern of that size is a new violation"""
    for on in (True, False):
        cext(S, on)
        c, _, N, M = scoefs(S)
        S.ctx.assume(ge(N.p, 1))
        R, h = Num(N.p + 1, 'int'), intp(S, 'h', M.p + 1)
        C = Num(2 * h.p, 'int')
        try:
            p = S.call('ispht', c, R, C)
        except PyExc as e:
            S.expect(B(exc_isa(e.etype, 'ValueError')), 'ValueError')
            continue
        is_patt(S, p, 'ScalarPatternUniform', R, C, 'nrows = nmax + 1')
        S.fail(KNOWN, 'no exception')
