"""Contracts: the C routines of src/csphi.c (C10-C15, C24), verified from the source translated on every run."""
import os
from spec import *
import cmodel as CM
import contracts as CO
from contracts import Y, s_value, column
from p_trans import intp, ynnm_spec, y_relations, h_spec, bnm_spec, fcvec_spec, order_slice, fc_rows, same_content


def start(S):
    S.cm = CM.load(S.ip, os.path.join(S.repo, 'src', 'csphi.c'))
    return S.ctx, S.cm


def cob(pids, label, fn):
    return obligation(pids, 'C %s%s' % (fn, label), c=True, inline=('csphi_c.' + fn,))


def ccall(S, name, *a):
    try:
        return S.ip.call(S.ip.mods['csphi_c'].d[name], list(a), {})
    except PyExc as e:
        if e.etype == 'Indeterminate':
            S.fail('memory: no use of an indeterminate value')
            raise Infeasible()
        raise


def released(S):
    S.expect(B(not S.ctx.heap['mem']), 'memory: everything allocated is freed')


def n_(p):
    return mknum(P(p), 'int')


@cob('C10 C11 C12 C13 C14 C15 C26', '', 'ynnm')
def _(S):
    ctx, M = start(S)
    n, m = intp(S, 'n', 0), intp(S, 'm')
    v = ccall(S, 'ynnm', n, m)
    S.expect_eq(v, ynnm_spec(ctx, n.p, m.p), 'start value')


@cob('C10 C11 C12 C13 C14 C15 C26', '', 'ynunm')
def _(S):
    ctx, M = start(S)
    n, m = intp(S, 'n', 0), intp(S, 'm')
    L = intp(S, 'L', n.p + 1)
    y = M.block('y', (L.p,), 'double', CM.UninitBase('double'))
    ccall(S, 'ynunm', n, m, y, L)
    y_relations(S, reader(ctx, y.arr), n.p, m.p, L.p)


@cob('C12 C13 C15 C24 C26', '', 'FindQ')
def _(S):
    ctx, M = start(S)
    s = intp(S, 'S', 1)
    r = ccall(S, 'FindQ', s)
    S.expect(ge(tonum(r)[0], s.p), 'at least the requested length')


@cob('C12 C13 C14 C15 C26', '', 'SData')
def _(S):
    ctx, M = start(S)
    r, N = intp(S, 'r', 1), intp(S, 'N', 0)
    Q = intp(S, 'Q', 2 * r.p + N.p + 1)
    s = M.block('s', (Q.p,), 'cpx', CM.UninitBase('cpx'))
    ccall(S, 'SData', s, Q, n_(2 * r.p), N)
    g = reader(ctx, s.arr)
    S.for_all((Q.p,), lambda b: S.expect_eq(g(b), s_value(ctx, 2 * r.p, N.p, Q.p, b[0]), 'kernel'))


def kernel(S, M, r, N, Q):
    ctx = S.ctx
    s = fnarr(ctx, (Q,), 'c', lambda idx: s_value(ctx, 2 * r, N, Q, idx[0]))
    g = reader(ctx, fft_nd(ctx, s, 'fft'))
    return M.block('ss', (Q,), 'cpx', FnBase(g))


def plans(S, M, Q):
    c = [M.fft_alloc(Num(Q, 'int'), i, 0, 0) for i in (0, 1)]
    S.ctx.heap['mem'] = frozenset()         # owned by the caller
    return c


def scratch(M, name, n, et='cpx'):
    return M.block(name, (n,), et, CM.UninitBase(et))


@cob('C12 C13 C14 C15 C26', '', 'hkm_fc')
def _(S):
    ctx, M = start(S)
    r, c, N = intp(S, 'r', 1), intp(S, 'c', 1), intp(S, 'N', 0)
    m = intp(S, 'm', -c.p, c.p - 1)
    Q = intp(S, 'Q', 2 * r.p + N.p + 1)
    L = intp(S, 'L', 0, N.p + 1)
    f = M.block('G', (2 * r.p, c.p), 'cpx')
    g0 = reader(ctx, f.arr)
    ss = kernel(S, M, r.p, N.p, Q.p)
    gs = reader(ctx, ss.arr)
    h = scratch(M, 'hkm', L.p)
    fw, bw = plans(S, M, Q.p)
    ccall(S, 'hkm_fc', f, n_(2 * r.p), c, N, m, h, L, ss, Q, scratch(M, 'ff', Q.p), Q, fw, bw)
    g = reader(ctx, h.arr)
    col = reader(ctx, column(ctx, f.arr, m.p))
    S.for_all((L.p,), lambda b: S.expect_eq(g(b), h_spec(ctx, col, r.p, b[0]), 'h'))
    same_content(S, f.arr, g0, 'Fourier data unchanged')
    same_content(S, ss.arr, gs, 'kernel unchanged')
    released(S)


@cob('C12 C13 C14 C15 C26', '', 'bnm_fc')
def _(S):
    ctx, M = start(S)
    r, c, N = intp(S, 'r', 1), intp(S, 'c', 1), intp(S, 'N', 0)
    m = intp(S, 'm', -c.p, c.p - 1)
    ctx.assume(And(le(m.p, N.p), ge(m.p, -N.p)))
    Q = intp(S, 'Q', 2 * r.p + N.p + 1)
    am = m.p if ctx.decide(ge0(m.p)) else -m.p
    f = M.block('G', (2 * r.p, c.p), 'cpx')
    g0 = reader(ctx, f.arr)
    ss = kernel(S, M, r.p, N.p, Q.p)
    gs = reader(ctx, ss.arr)
    vec = scratch(M, 'vec', N.p - am + 1)
    fw, bw = plans(S, M, Q.p)
    ccall(S, 'bnm_fc', f, n_(2 * r.p), c, N, m, vec, n_(N.p - am + 1), ss, Q, scratch(M, 'ff', Q.p), Q,
          scratch(M, 'hkm', N.p + 1), n_(N.p + 1), scratch(M, 'y', N.p + 1, 'double'), n_(N.p + 1), fw, bw)
    g = reader(ctx, vec.arr)
    h = CO.elem(ctx, 'hkm', column(ctx, f.arr, m.p), [N.p])
    S.for_all((N.p - am + 1,), lambda b: S.expect_eq(g(b), bnm_spec(ctx, h, am + b[0], m.p), 'quadrature of one mode'))
    same_content(S, f.arr, g0, 'Fourier data unchanged')
    same_content(S, ss.arr, gs, 'kernel unchanged')
    released(S)


@cob('C12 C13 C14 C15 C26', '', 'fc_to_sc')
def _(S):
    ctx, M = start(S)
    N, K = intp(S, 'N', 0), intp(S, 'M', 0)
    ctx.assume(le(K.p, N.p))
    r, c = intp(S, 'r', N.p + 1), intp(S, 'c', K.p + 1)
    f = M.block('G', (2 * r.p, 2 * c.p), 'cpx')
    g0 = reader(ctx, f.arr)
    NC = ncoef(N.p, K.p)
    sc = M.block('sc', (NC,), 'cpx')
    ccall(S, 'fc_to_sc', f, n_(2 * r.p), n_(2 * c.p), sc, n_(NC), N, K)
    g = reader(ctx, sc.arr)

    def body():
        n, m = mode(S, N, K)
        am = m.p if ctx.decide(ge0(m.p)) else -m.p
        v = CO.elem(ctx, 'bnm', column(ctx, f.arr, m.p), [N.p, m.p])([n.p - am])
        S.expect_eq(g([lay(ctx, N.p + 1, n.p, m.p)]), v, 'mode computed from its column')
    S.scope(body)
    same_content(S, f.arr, g0, 'Fourier data unchanged')
    released(S)


@cob('C10 C13 C14 C15 C26', '', 'fcvec_m_sc')
def _(S):
    ctx, M = start(S)
    N = intp(S, 'N', 0)
    m = intp(S, 'm', -N.p, N.p)
    r = fc_rows(S, N)
    C = intp(S, 'C', 1)
    col = intp(S, 'col', 0, C.p - 1)
    L = intp(S, 'L', N.p + 1)
    am = m.p if ctx.decide(ge0(m.p)) else -m.p
    v = M.block('v', (N.p - am + 1,), 'cpx')
    g0 = reader(ctx, v.arr)
    z = new_arr(ctx, (2 * r.p, C.p), 'c', AppBase('F'))
    gz = reader(ctx, z)

    def init(idx):
        return ZERO if ctx.decide(eq(idx[1], col.p)) else gz(idx)
    f = M.block('F', (2 * r.p, C.p), 'cpx', FnBase(init))
    ccall(S, 'fcvec_m_sc', v, m, N, f, n_(2 * r.p), C, col, scratch(M, 'y', L.p, 'double'), L)
    g = reader(ctx, f.arr)
    S.for_all((2 * r.p,), lambda b: S.expect_eq(g([b[0], col.p]), fcvec_spec(ctx, g0, m.p, N.p, 2 * r.p, b[0]), 'Fourier data of one order'))

    def other(b):
        ctx.assume(ne(b[1], col.p))
        S.expect_eq(g(b), gz(b), 'other columns unchanged')
    S.for_all((2 * r.p, C.p), other)
    same_content(S, v.arr, g0, 'coefficients unchanged')
    released(S)


@cob('C10 C13 C14 C15 C26', '', 'sc_to_fc')
def _(S):
    ctx, M = start(S)
    N, K = intp(S, 'N', 0), intp(S, 'M', 0)
    ctx.assume(le(K.p, N.p))
    r, c = fc_rows(S, N), intp(S, 'c', K.p + 1)
    NC = ncoef(N.p, K.p)
    v = M.block('v', (NC,), 'cpx')
    g0 = reader(ctx, v.arr)
    f = M.block('F', (2 * r.p, 2 * c.p), 'cpx', ConstBase(ZERO))
    ccall(S, 'sc_to_fc', f, n_(2 * r.p), n_(2 * c.p), v, n_(NC), N, K)
    g = reader(ctx, f.arr)

    def body():
        i, m = S.int('i').p, S.int('m').p
        ctx.assume(And(ge0(i), lt(i, 2 * r.p), ge(m, -c.p), lt(m, c.p)))
        cell = g([i, m if ctx.decide(ge0(m)) else m + 2 * c.p])
        if ctx.decide(And(le(m, K.p), ge(m, -K.p))):
            w = CO.elem(ctx, 'fcvec', order_slice(ctx, g0, N.p, m), [m, N.p, 2 * r.p])([i])
        else:
            w = ZERO
        S.expect_eq(cell, w, 'column of each order')
    S.scope(body)
    same_content(S, v.arr, g0, 'coefficients unchanged')
    released(S)
