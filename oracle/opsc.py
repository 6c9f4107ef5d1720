from base import *
from spherepy import ops
from coefs import seed


def data(R, C, s, kind):
    a = rvec(s, R * C, kind if kind < 3 else 0).reshape(R, C)
    if kind == 3:
        a = a.real + 0j
    return a


def freqs(n):
    return np.array([i if i < n // 2 else i - n for i in range(n)])


def r_sin(F):
    R = F.shape[0]
    h = F.copy()
    h[R // 2 - 1] = 0
    h[R // 2 + 1] = 0
    return (np.roll(h, 1, axis=0) - np.roll(h, -1, axis=0)) / 2j


def r_div(F):
    R = F.shape[0]
    L = R // 2
    G = np.zeros_like(F)
    for k in range(L - 1, -(L - 2), -1):      # (G[k-1]-G[k+1])/2i = F[k]
        up = G[k + 1] if k + 1 <= L - 2 else 0
        G[(k - 1) % R] = 2j * F[k % R] + up
    return G


def r_dth(F):
    return 1j * freqs(F.shape[0])[:, None] * F


def r_dph(F):
    return 1j * freqs(F.shape[1])[None, :] * F


@gen('C16')
def _(rng):
    for r in range(1, 6):
        for c in range(1, 5):
            for k in range(4):
                yield 'c16', dict(r=r, c=c, s=seed(rng), kind=k)
    while True:
        yield 'c16', dict(r=rng.randrange(1, 14), c=rng.randrange(1, 12), s=seed(rng), kind=rng.randrange(4))


@case
def c16(r, c, s, kind):
    R, C = 2 * r, 2 * c
    F = data(R, C, s, kind)
    a = F.copy()
    ops.fix_even_row_data_fc(a)
    w = F.copy()
    w[r] = 0
    same(a, w, 'fix_even_row_data_fc')
    for e in (0, 1, 3, 2 * r):
        x = data(R + 2 * e, C, s + 1, 0)
        a = F.copy()
        ops.pad_rows_fdata(a, x)
        w = np.zeros((R + 2 * e, C), complex)
        for k in range(-r + 1, r):
            w[k] = F[k]
        same(x, w, 'pad_rows_fdata to %d more rows' % (2 * e))
        same(a, F, 'pad_rows_fdata: source')
    if r >= 2:
        x = data(R - 1, C, s, 0)
        x0 = x.copy()
        raises(Exception, lambda: ops.pad_rows_fdata(F.copy(), x), 'pad_rows_fdata: smaller target')
        same(x, x0, 'pad_rows_fdata: rejected target')
    a = F.copy()
    ops.dtheta_fc(a)
    close(a, r_dth(F), 'dtheta_fc', 1e-13)
    a = F.copy()
    ops.dphi_fc(a)
    close(a, r_dph(F), 'dphi_fc', 1e-13)
    if r < 2:
        return
    a = F.copy()
    ops.sin_fc(a)
    close(a, r_sin(F), 'sin_fc', 1e-13)
    a = F.copy()
    ops.divsin_fc(a)
    close(a, r_div(F), 'divsin_fc', 1e-12)
    P = data(R, C, s + 5, kind)
    close(ops.sinLdot_fc(F.copy(), P.copy()), 1j * (r_dph(F) - r_dth(r_sin(P))), 'sinLdot_fc', 1e-12)
    x = ops.L_fc(F.copy())
    check(isinstance(x, tuple) and len(x) == 2, 'L_fc returns a pair')
    close(x[0], 1j * r_div(r_dph(F)), 'L_fc, first part', 1e-11)
    close(x[1], -1j * r_dth(F), 'L_fc, second part', 1e-12)
    # divide by sine undoes the sine operator on data it applies to
    if r >= 4:
        G = F.copy()
        G[r - 1:r + 2] = 0
        a = G.copy()
        ops.sin_fc(a)
        ops.divsin_fc(a)
        close(a, G, 'divsin(sin(F)) = F', 1e-10)
