"""Contracts: operators on Fourier data (C16)."""
from spec import *


def fd(S, name='F', least=2):
    """Fourier data with an even number of rows and columns"""
    r, c = S.int('r'), S.int('c')
    S.ctx.assume(ge(r.p, least))
    S.ctx.assume(ge(c.p, 1))
    a = S.carray(name, (2 * r.p, 2 * c.p))
    return a, reader(S.ctx, a), r.p, c.p


def freq(ctx, i, h):
    """frequency of index i (2h indices)"""
    return i if ctx.decide(lt(i, h)) else i - 2 * h


def prev(ctx, i, n):
    return n - 1 if ctx.decide(eq(i, 0)) else i - 1


def nxt(ctx, i, n):
    return ZERO if ctx.decide(eq(i, n - 1)) else i + 1


def cells(S, a, want, label):
    g = reader(S.ctx, a)
    S.for_all(a.shape, lambda b: S.expect_eq(g(b), want(b), label))


def sized(S, a, sh, label):
    if not isinstance(a, Arr) or len(a.shape) != 2:
        return S.fail(label + ': a matrix')
    S.expect(And(eq(a.shape[0], sh[0]), eq(a.shape[1], sh[1])), label + ': shape')
    return True


def cleared(ctx, g, r):
    """g with the two rows next to the highest frequency cleared"""
    def h(idx):
        if ctx.decide(Or(eq(idx[0], r - 1), eq(idx[0], r + 1))):
            return ZERO
        return g(idx)
    return h


def sin_of(ctx, g, r):
    h = cleared(ctx, g, r)
    return lambda b: (h([prev(ctx, b[0], 2 * r), b[1]]) - h([nxt(ctx, b[0], 2 * r), b[1]])) / (2 * I)


def dth(ctx, g, r):
    return lambda b: I * freq(ctx, b[0], r) * g(b)


def dph(ctx, g, c):
    return lambda b: I * freq(ctx, b[1], c) * g(b)


@obligation('C16 C12 C13', 'fix_even_row_data_fc')
def _(S):
    a, g, r, c = fd(S, least=1)
    S.call('ops.fix_even_row_data_fc', a)
    cells(S, a, lambda b: ZERO if S.ctx.decide(eq(b[0], r)) else g(b), 'highest-frequency row cleared, others kept')


@obligation('C16 C12 C13', 'pad_rows_fdata')
def _(S):
    a, g, r, c = fd(S, least=1)
    e = S.int('e')
    S.ctx.assume(ge0(e.p))
    x = S.carray('X', (2 * r + 2 * e.p, 2 * c))
    S.call('ops.pad_rows_fdata', a, x)
    R = r + e.p

    def want(b):
        k = freq(S.ctx, b[0], R)
        if S.ctx.decide(Or(ge(k, r), le(k, -r))):
            return ZERO
        return g([k if S.ctx.decide(ge0(k)) else k + 2 * r, b[1]])
    cells(S, x, want, 'every frequency below the highest is kept, zero elsewhere')
    cells(S, a, g, 'source unchanged')


@obligation('C16', 'pad_rows_fdata: a smaller target is rejected')
def _(S):
    a, g, r, c = fd(S)
    x = S.carray('X', (S.int('k').p, 2 * c))
    S.ctx.assume(ge0(x.shape[0]))
    S.ctx.assume(lt(x.shape[0], 2 * r))
    gx = reader(S.ctx, x)
    S.raises('Exception', lambda: S.call('ops.pad_rows_fdata', a, x), 'smaller target')
    cells(S, x, gx, 'target unchanged')


@obligation('C16 C12 C13', 'sin_fc')
def _(S):
    a, g, r, c = fd(S)
    S.call('ops.sin_fc', a)
    cells(S, a, sin_of(S.ctx, g, r), 'sine operator')


@obligation('C16 C13', 'dtheta_fc')
def _(S):
    a, g, r, c = fd(S, least=1)
    S.call('ops.dtheta_fc', a)
    cells(S, a, dth(S.ctx, g, r), 'theta derivative')


@obligation('C16 C13', 'dphi_fc')
def _(S):
    a, g, r, c = fd(S, least=1)
    S.call('ops.dphi_fc', a)
    cells(S, a, dph(S.ctx, g, c), 'phi derivative')


@obligation('C16 C13 C26', 'divsin_fc')
def _(S):
    a, g, r, c = fd(S)
    S.call('ops.divsin_fc', a)
    G = reader(S.ctx, a)
    R = 2 * r

    def chk(b):
        i, j = b
        k = freq(S.ctx, i, r)
        # (G[k-1] - G[k+1]) / 2i = F[k] for k = -(r-3) .. r-1
        if S.ctx.decide(And(ge(k, -(r - 3)), le(k, r - 1))):
            d = G([prev(S.ctx, i, R), j]) - G([nxt(S.ctx, i, R), j])
            S.expect_eq(d, 2 * I * g([i, j]), 'sin * G = F')
        if S.ctx.decide(Or(gt(k, r - 2), lt(k, -(r - 2)))):
            S.expect_eq(G([i, j]), ZERO, 'unreached frequencies are zero')
    S.for_all(a.shape, chk)


@obligation('C16 C13 C26', 'divsin_fc: two rows')
def _(S):
    c = S.int('c')
    S.ctx.assume(ge(c.p, 1))
    a = fnarr(S.ctx, (P(2), 2 * c.p), 'c', lambda b: ZERO)
    S.call('ops.divsin_fc', a)
    cells(S, a, lambda b: ZERO, 'zero data stays zero')


@obligation('C16 C13', 'sinLdot_fc')
def _(S):
    a, ga, r, c = fd(S, 'T')
    b = S.carray('Q', (2 * r, 2 * c))
    gb = reader(S.ctx, b)
    x = S.call('ops.sinLdot_fc', a, b)
    if sized(S, x, (2 * r, 2 * c), 'sinLdot'):
        u, v = dph(S.ctx, ga, c), dth(S.ctx, sin_of(S.ctx, gb, r), r)
        cells(S, x, lambda i: I * (u(i) - v(i)), 'i (dphi T - dtheta sin P)')


@obligation('C16 C13', 'L_fc: theta part')
def _(S):
    a, g, r, c = fd(S)
    b = fnarr(S.ctx, (2 * r, 2 * c), 'c', g)
    x = S.call('ops.L_fc', a)
    if not (isinstance(x, tuple) and len(x) == 2):
        return S.fail('a pair')
    S.call('ops.dphi_fc', b)
    S.call('ops.divsin_fc', b)
    h = reader(S.ctx, b)
    if sized(S, x[0], (2 * r, 2 * c), 'first part'):
        cells(S, x[0], lambda i: I * h(i), 'i (dphi F)/sin')


@obligation('C16 C13', 'L_fc: phi part')
def _(S):
    a, g, r, c = fd(S)
    x = S.call('ops.L_fc', a)
    if not (isinstance(x, tuple) and len(x) == 2):
        return S.fail('a pair')
    if sized(S, x[1], (2 * r, 2 * c), 'second part'):
        w = dth(S.ctx, g, r)
        cells(S, x[1], lambda i: -I * w(i), '-i dtheta F')
