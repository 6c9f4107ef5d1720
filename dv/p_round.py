"""Contracts: composition of the inverse and the forward transform (C26).

Over the contracts of the transforms the composition has the explicit form below; lemmas/Legendre.lean proves that the
quadrature of data of this form gives the coefficients back (round_trip, vector_round_trip_1, vector_round_trip_2)."""
from spec import *
from spec import obligation
import contracts as CO
from p_trans import cext, is_coefs, inverse_args, scaled, same_content
import p_ops as OPS


def rows(ctx, F, r):
    """row of frequency k of data on 2r cyclic rows, 0 unless |k| < r (pad)"""
    def at(k, col):
        if ctx.decide(And(gt(k, -r), lt(k, r))):
            return F([k if ctx.decide(ge0(k)) else k + 2 * r, col])
        return ZERO
    return at


def sine(ctx, at, r):
    """Sn: the sine operator on 2(r+1) cyclic rows"""
    def get(v, col):
        lo = r if ctx.decide(eq(v, -(r + 1))) else v - 1
        hi = -(r + 1) if ctx.decide(eq(v, r)) else v + 1
        return (at(lo, col) - at(hi, col)) / (2 * I)
    return get


def col_freq(ctx, col, h):
    return col if ctx.decide(lt(col, h)) else col - 2 * h


def compare(S, x, want, N, M, label):
    g = reader(S.ctx, vec_of(S, x))
    S.for_all((ncoef(N, M),), lambda b: S.expect_eq(g(b), want(b), label))


def quadrature(S, data, r, h, N, M):
    """fc_to_sc of data given by (frequency, column)"""
    ctx = S.ctx
    H = fnarr(ctx, (2 * r + 2, 2 * h), 'c', lambda b: data(OPS.freq(ctx, b[0], r + 1), b[1]))
    return CO.elem(ctx, 'fc_to_sc', H, [N, M])


def scalar(S, fwd, inv, on):
    ctx = S.ctx
    cext(S, on)
    c, _, N, M = scoefs(S)
    v0 = reader(ctx, vec_of(S, c))
    R, h, C = inverse_args(S, N, M)
    x = S.call(fwd, S.call(inv, c, R, C), N, M)
    if not is_coefs(S, x, 'ScalarCoefs', N, M, 'result'):
        return
    r = R.p - 1
    v = fnarr(ctx, (ncoef(N.p, M.p),), 'c', v0)
    F = rows(ctx, CO.elem(ctx, 'sc_to_fc', v, [N.p, M.p, 2 * r, 2 * h.p]), r)
    w = quadrature(S, sine(ctx, F, r), r, h.p, N.p, M.p)
    compare(S, x, w, N.p, M.p, 'quadrature of the sine-multiplied data of the coefficients')
    same_content(S, vec_of(S, c), v0, 'coefficients unchanged')


for _f, _i, _m in (('spht', 'ispht', True), ('spht', 'ispht', False), ('spht_slow', 'ispht_slow', True)):
    @obligation('C26', '%s of %s%s' % (_f, _i, '' if _f != 'spht' else ', C extension' if _m else ', Python routines'))
    def _(S, f=_f, i=_i, m=_m):
        scalar(S, f, i, m)


def vector(S, on):
    ctx = S.ctx
    cext(S, on)
    c, _, N, M = vcoefs(S)
    comps = [S.attr(c, x) for x in ('scoef1', 'scoef2')]
    v0 = [reader(ctx, vec_of(S, x)) for x in comps]
    R, h, C = inverse_args(S, N, M)
    x = S.call('vspht', S.call('vispht', c, R, C), N, M)
    if not is_coefs(S, x, 'VectorCoefs', N, M, 'result'):
        return
    r, h = R.p - 1, h.p
    F, D = [], []
    for g in v0:
        y = fnarr(ctx, (ncoef(N.p, M.p),), 'c', lambda b, g=g: scaled(ctx, g(b), CO.degree(ctx, N.p + 1, b[0])))
        f = CO.elem(ctx, 'sc_to_fc', y, [N.p, M.p, 2 * r, 2 * h])
        F.append(f)
        # division by sine of i m F
        D.append(CO.elem(ctx, 'divsin', fnarr(ctx, (2 * r, 2 * h), 'c', lambda b, f=f: I * col_freq(ctx, b[1], h) * f(b)), []))

    def row(f):
        return rows(ctx, f, r)

    def k_of(b):
        return OPS.freq(ctx, b[0], r)
    th = row(lambda b: I * D[0](b) - I * (-I * (I * k_of(b) * F[1](b))))
    ph = row(lambda b: -I * (I * k_of(b) * F[0](b)) + I * (I * D[1](b)))

    def dat(T, Q):
        q = sine(ctx, Q, r)
        return lambda v, col: I * (I * col_freq(ctx, col, h) * T(v, col) - I * v * q(v, col))
    one = dat(th, ph)
    two = dat(lambda v, col: -I * ph(v, col), lambda v, col: I * th(v, col))
    for nm, d in (('scoef1', one), ('scoef2', two)):
        w = quadrature(S, d, r, h, N.p, M.p)
        compare(S, S.attr(x, nm), lambda b: scaled(ctx, w(b), CO.degree(ctx, N.p + 1, b[0])), N.p, M.p,
                nm + ': scaled quadrature of the combination of both components')
    for y, g in zip(comps, v0):
        same_content(S, vec_of(S, y), g, 'coefficients unchanged')


for _m in (True, False):
    @obligation('C26', 'vspht of vispht, %s' % ('C extension' if _m else 'Python routines'), use=('spherepy.ScalarCoefs.window', 'ops.divsin_fc'), cost=90, limit=500)
    def _(S, m=_m):
        vector(S, m)
