"""Contracts of the repository's low level routines, used at call sites in place of their bodies.

Each contract is established by an obligation group of its own (p_trans.py for the Python routines, p_c.py for the C
ones); the symbols below name the value a routine returns as a function of its arguments:

  Y(n,m,k)               Legendre Fourier coefficient y[k] of (n,m)     (C11)
  ynnm(n,m)              its start value                                (C11)
  fcvec, sc_to_fc        Fourier data of the scalar series              (C10)
  s_data, hkm, bnm, fc_to_sc   the forward quadrature                   (C12)
"""
import os
from npmodel import *
import npmodel as NP
from ctx import PyExc, Unsupported
import prove as PR
REPO = os.environ.get('DV_REPO', '/repo')


def Y(ctx, n, m, k):
    return app('Y', [ctx.norm(P(n)), ctx.norm(P(m)), ctx.norm(P(k))])


def ncoef(nmax, mmax):
    N = nmax + 1
    return N + mmax * (2 * N - mmax - 1)


def need(ctx, c, label):
    """precondition of a callee: an obligation of the caller"""
    if not ctx.prove(c, 'precondition: ' + label):
        ctx.assume(c)


def isint(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, Num) and v.kind in ('int', 'npint'))


def ints(*vs):
    return all(isint(v) for v in vs)


def arr2(v, nd, dts='cfi'):
    return isinstance(v, Arr) and len(v.shape) == nd


def cpx(nm, args):
    return app('re.' + nm, args) + I * app('im.' + nm, args)


def elem(ctx, kind, src, params):
    """the function (index list) -> value of routine `kind` applied to the content of src"""
    nm, ps = functional(ctx, kind, src.shape, reader(ctx, src))
    params = [ctx.norm(P(p)) for p in params]

    def get(idx):
        return cpx(nm, ps + params + [ctx.norm(P(i)) for i in idx])
    return get


# ------------------------------------------------------------------ Python routines
def c_ynnm(ip, a):
    n, m = a
    if not ints(n, m):
        return NotImplemented
    ctx = ip.ctx
    n, m = tonum(n)[0], tonum(m)[0]
    need(ctx, ge0(n), 'ynnm: n >= 0')
    return Num(app('ynnm', [ctx.norm(n), ctx.norm(m)]), 'float')


def c_ynunm(ip, a):
    n, m, L = a
    if not ints(n, m, L):
        return NotImplemented
    ctx = ip.ctx
    n, m, L = [ctx.norm(tonum(x)[0]) for x in a]
    need(ctx, ge0(n), 'ynunm: n >= 0')
    need(ctx, gt(L, n), 'ynunm: length greater than n')
    return fnarr(ctx, (L,), 'f', lambda idx: Y(ctx, n, m, idx[0]))


def c_smallest(ip, a):
    Q, = a
    if not isint(Q):
        return NotImplemented
    ctx = ip.ctx
    q = tonum(Q)[0]
    need(ctx, ge(q, 1), 'smallest_prime_factor: Q >= 1')
    r = app('fftlen', [ctx.norm(q)], 'i')
    ctx.assume(ge(r, q))
    return Num(r, 'int')


def c_fcvec(ip, a):
    vec, m, nmax, nrows = a
    if not ints(m, nmax, nrows) or not arr2(vec, 1):
        return NotImplemented
    ctx = ip.ctx
    m, nmax, R = [ctx.norm(tonum(x)[0]) for x in (m, nmax, nrows)]
    am = ip.abs_p(m, 'int')
    need(ctx, le(am, nmax), 'fcvec_m_sc: |m| <= nmax')
    need(ctx, And(ge(R, 2), ge(R, 2 * nmax)), 'fcvec_m_sc: nrows >= 2, nrows >= 2 nmax')
    even(ctx, R, 'fcvec_m_sc: even nrows')
    need(ctx, eq(vec.shape[0], nmax - am + 1), 'fcvec_m_sc: one value per degree')
    g = elem(ctx, 'fcvec', vec, [m, nmax, R])
    return fnarr(ctx, (R,), 'c', g)


def c_sc_to_fc(ip, a):
    vec, nmax, mmax, nrows, ncols = a
    if not ints(nmax, mmax, nrows, ncols) or not arr2(vec, 1):
        return NotImplemented
    ctx = ip.ctx
    nmax, mmax, R, C = [ctx.norm(tonum(x)[0]) for x in (nmax, mmax, nrows, ncols)]
    sizes_ok(ctx, 'sc_to_fc', vec, nmax, mmax, R, C)
    return fnarr(ctx, (R, C), 'c', elem(ctx, 'sc_to_fc', vec, [nmax, mmax, R, C]))


def sizes_ok(ctx, f, vec, nmax, mmax, R, C):
    need(ctx, And(ge0(mmax), le(mmax, nmax)), f + ': 0 <= mmax <= nmax')
    need(ctx, eq(vec.shape[0], ncoef(nmax, mmax)), f + ': one entry per mode')
    need(ctx, And(ge(R, 2), ge(R, 2 * nmax)), f + ': Nrow >= 2, Nrow >= 2 nmax')
    need(ctx, ge(C, 2 * mmax + 2), f + ': Ncol >= 2 mmax + 2')
    even(ctx, R, f + ': Nrow even')
    even(ctx, C, f + ': Ncol even')


def even(ctx, R, label):
    need(ctx, eq(pmod2(ctx, R), 0), label)


def pmod2(ctx, p):
    from npmodel import num_binop
    return num_binop(ctx, '%', P(p), 'int', P(2), 'int')[0]


def c_fc_to_sc(ip, a):
    G, nmax, mmax = a
    if not ints(nmax, mmax) or not arr2(G, 2):
        return NotImplemented
    ctx = ip.ctx
    nmax, mmax = [ctx.norm(tonum(x)[0]) for x in (nmax, mmax)]
    quad_ok(ctx, G, nmax, mmax)
    return fnarr(ctx, (ncoef(nmax, mmax),), 'c', elem(ctx, 'fc_to_sc', G, [nmax, mmax]))


def quad_ok(ctx, G, nmax, mmax):
    f = 'fc_to_sc'
    need(ctx, And(ge0(mmax), le(mmax, nmax)), f + ': 0 <= mmax <= nmax')
    need(ctx, ge(G.shape[0], 2 * nmax + 2), f + ': Nrow >= 2 nmax + 2')
    need(ctx, ge(G.shape[1], 2 * mmax + 2), f + ': Ncol >= 2 mmax + 2')
    even(ctx, G.shape[0], f + ': Nrow even')
    even(ctx, G.shape[1], f + ': Ncol even')


def c_s_data(ip, a):
    nr, N, Q = a
    if not ints(nr, N, Q):
        return NotImplemented
    ctx = ip.ctx
    nr, N, Q = [ctx.norm(tonum(x)[0]) for x in a]
    s_ok(ctx, nr, N, Q)
    return fnarr(ctx, (Q,), 'c', lambda idx: s_value(ctx, nr, N, Q, idx[0]))


def s_ok(ctx, nr, N, Q):
    need(ctx, ge(nr, 2), 's_data: rows >= 2')
    even(ctx, nr, 's_data: even rows')
    need(ctx, ge0(N), 's_data: Nmax >= 0')
    need(ctx, ge(Q, nr + N + 1), 's_data: Q > nrows + Nmax')


def s_value(ctx, nr, N, Q, i):
    """s[i] = S(v) for v = i + nr/2 (i < nr/2 ... wraps at Q), S(v) = -i/v for odd v in -nr/2 .. nr/2 + N"""
    h = nr / 2
    v = i + h
    if ctx.decide(gt(v, h + N)):
        v = v - Q
        if ctx.decide(lt(v, -h)):
            return ZERO
    return S_value(ctx, v)


def S_value(ctx, v):
    if ctx.decide(eq(pmod2(ctx, v), 1)):
        return -I / v
    return ZERO


def c_hkm(ip, a):
    f, N, m, s = a
    if not ints(N, m) or not arr2(f, 2) or not arr2(s, 1):
        return NotImplemented
    ctx = ip.ctx
    N, m = [ctx.norm(tonum(x)[0]) for x in (N, m)]
    R, C, Q = f.shape[0], f.shape[1], s.shape[0]
    s_ok(ctx, R, N, Q)
    need(ctx, And(lt(m, C), ge(m, -C)), 'hkm_fc: m is a column')
    gs = reader(ctx, s)

    def chk(b):
        if not PR.equal(ctx, gs(b), s_value(ctx, R, N, Q, b[0])):
            return False
        return True
    ctx.record('precondition: hkm_fc: s is the s_data of these sizes', PR.all_index(ctx, (Q,), lambda b: chk(b)), 's')
    col = column(ctx, f, m)
    return fnarr(ctx, (N + 1,), 'c', elem(ctx, 'hkm', col, [N]))


def column(ctx, f, m):
    C = f.shape[1]
    j = m if ctx.decide(ge0(m)) else m + C
    g = reader(ctx, f)
    return fnarr(ctx, (f.shape[0],), 'c', lambda idx: g([idx[0], j]))


def c_bnm(ip, a):
    f, N, m = a
    if not ints(N, m) or not arr2(f, 2):
        return NotImplemented
    ctx = ip.ctx
    N, m = [ctx.norm(tonum(x)[0]) for x in (N, m)]
    need(ctx, ge(f.shape[0], 2), 'bnm_vec_fc: rows >= 2')
    even(ctx, f.shape[0], 'bnm_vec_fc: even rows')
    am = ip.abs_p(m, 'int')
    need(ctx, le(am, N), 'bnm_vec_fc: |m| <= Nmax')
    need(ctx, And(lt(m, f.shape[1]), ge(m, -f.shape[1])), 'bnm_vec_fc: m is a column')
    col = column(ctx, f, m)
    return fnarr(ctx, (N - am + 1,), 'c', elem(ctx, 'bnm', col, [N, m]))


# ------------------------------------------------------------------ the compiled extension (csphi.i: INPLACE arrays)
def inplace(ctx, v, nd, f):
    """SWIG typemap: no conversion, TypeError otherwise"""
    if not isinstance(v, Arr) or dtype(ctx, v) != 'c' or len(v.shape) != nd:
        raise PyExc('TypeError', f + ': complex array of %d dimensions required' % nd)


def asint(ctx, v, f):
    if not isint(v):
        raise PyExc('TypeError', f + ': int required')
    return ctx.norm(tonum(v)[0])


def x_fc_to_sc(ip, a):
    ctx = ip.ctx
    if len(a) != 4:
        raise PyExc('TypeError', 'fc_to_sc takes 4 arguments')
    G, sc, nmax, mmax = a
    inplace(ctx, G, 2, 'fc_to_sc')
    inplace(ctx, sc, 1, 'fc_to_sc')
    nmax, mmax = asint(ctx, nmax, 'fc_to_sc'), asint(ctx, mmax, 'fc_to_sc')
    quad_ok(ctx, G, nmax, mmax)
    need(ctx, eq(sc.shape[0], ncoef(nmax, mmax)), 'csphi.fc_to_sc: one entry per mode')
    if sc.sid == G.sid:
        need(ctx, FALSE, 'csphi.fc_to_sc: separate arrays')
    g = elem(ctx, 'fc_to_sc', G, [nmax, mmax])
    write_view(ctx, sc, g)
    return None


def x_sc_to_fc(ip, a):
    ctx = ip.ctx
    if len(a) != 4:
        raise PyExc('TypeError', 'sc_to_fc takes 4 arguments')
    f, sc, nmax, mmax = a
    inplace(ctx, f, 2, 'sc_to_fc')
    inplace(ctx, sc, 1, 'sc_to_fc')
    nmax, mmax = asint(ctx, nmax, 'sc_to_fc'), asint(ctx, mmax, 'sc_to_fc')
    R, C = f.shape
    sizes_ok(ctx, 'csphi.sc_to_fc', sc, nmax, mmax, R, C)
    gf = reader(ctx, f)
    ctx.record('precondition: csphi.sc_to_fc: the Fourier data is zero', PR.all_index(ctx, f.shape, lambda b: PR.equal(ctx, gf(b), ZERO)), 'fdata')
    g = elem(ctx, 'sc_to_fc', sc, [nmax, mmax, R, C])
    write_view(ctx, f, g)
    return None


TABLE = {
    'pysphi.ynnm': c_ynnm, 'pysphi.ynunm': c_ynunm, 'pysphi.smallest_prime_factor': c_smallest, 'pysphi.fcvec_m_sc': c_fcvec,
    'pysphi.sc_to_fc': c_sc_to_fc, 'pysphi.fc_to_sc': c_fc_to_sc, 'pysphi.s_data': c_s_data, 'pysphi.hkm_fc': c_hkm,
    'pysphi.bnm_vec_fc': c_bnm, 'csphi.fc_to_sc': x_fc_to_sc, 'csphi.sc_to_fc': x_sc_to_fc,
}


def degree(ctx, N, k):
    """degree of the mode stored at index k (inverse of the layout, N = nmax + 1)"""
    if ctx.decide(eq(k, 0)):
        return ZERO
    d = app('deg', [ctx.norm(N), ctx.norm(k)], 'i')
    if not any(atom(a).kind == 'bvar' for a in k.free()):
        ctx.assume(And(ge(d, 1), le(d, N - 1)))
    return d


def c_window(ip, a):
    """ScalarCoefs.window (C06: every mode is multiplied by the factor of its degree)"""
    o, w = a
    ctx = ip.ctx
    v = ip.getattr_(o, '_vec')
    if not arr2(w, 1) or not arr2(v, 1) or dtype(ctx, v) != 'c' or w.sid == v.sid:
        return NotImplemented
    nm, mm = [ctx.norm(tonum(ip.getattr_(o, x))[0]) for x in ('_nmax', '_mmax')]
    need(ctx, eq(w.shape[0], nm + 1), 'window: one factor per degree')
    need(ctx, And(ge0(mm), le(mm, nm), eq(v.shape[0], ncoef(nm, mm))), 'window: one value per mode')
    gv, gw = reader(ctx, v), reader(ctx, w)
    write_view(ctx, v, lambda b: gv(b) * gw([degree(ctx, nm + 1, b[0])]))
    return None


def c_divsin(ip, a):
    """ops.divsin_fc (C16: the recurrence that defines division by sine), in place"""
    f, = a
    ctx = ip.ctx
    if not arr2(f, 2) or dtype(ctx, f) != 'c':
        return NotImplemented
    need(ctx, ge(f.shape[0], 2), 'divsin_fc: at least 2 rows')
    even(ctx, f.shape[0], 'divsin_fc: even rows')
    write_view(ctx, f, elem(ctx, 'divsin', f, []))
    return None


def c_bessel(kind):
    def f(ip, a):
        ctx = ip.ctx
        if len(a) != 2 or not (isinstance(a[0], (int, Num)) and ints(a[1])):
            return NotImplemented
        x, N = tonum(a[0])[0], ctx.norm(tonum(a[1])[0])
        need(ctx, And(ge(N, 1), ne(x, 0)), 'spherical Bessel: N >= 1 and x != 0')
        return fnarr(ctx, (N,), 'f', lambda idx: app(kind, [x, N, ctx.norm(P(idx[0]))]))
    return f


def c_load(kind):
    """file.load_*: what the named files hold (C18); the group puts the contents into heap['saved']"""
    def f(ip, a):
        ctx = ip.ctx
        sv = ctx.heap.get('saved', {})
        if any(not isinstance(n, str) or n not in sv for n in a):
            return NotImplemented
        its = [sv[n] for n in a]
        if any(k != ('coef' if kind == 'load_coef' else 'patt') for k, _, _ in its):
            return NotImplemented
        arrs = [np_copy(ctx, x) for _, x, _ in its]
        cls = lambda n: ip.mods['spherepy.spherepy'].d[n]
        if kind == 'load_fdata':
            return np_copy(ctx, NP.getitem(ctx, arrs[0], slice(None, its[0][2][0], None)))
        if kind == 'load_coef':
            return ip.call(cls('ScalarCoefs'), arrs + list(its[0][2]), {})
        if kind == 'load_vpatt':
            for x, y in zip(arrs[0].shape, arrs[1].shape):
                need(ctx, eq(x, y), 'load_vpatt: grids of the same shape')
        return ip.call(cls('ScalarPatternUniform' if kind == 'load_patt' else 'TransversePatternUniform'), arrs, {'doublesphere': True})
    return f


def both(ctx, o, names):
    vs = [ctx.heap[o.oid][n] for n in names]
    return vs[0] if len(vs) == 1 else np_concat(ctx, vs, 0)


def c_forward(kind):
    """spht / vspht as a function of the doubled array(s) and the two sizes (C12, C13)"""
    def f(ip, a):
        p, nm, mm = a
        ctx = ip.ctx
        vec = kind == 'vspht'
        if not isinstance(p, Obj) or p.cls.name != ('TransversePatternUniform' if vec else 'ScalarPatternUniform') or not (ints(nm) and ints(mm)):
            return NotImplemented
        d = both(ctx, p, ('_tdsphere', '_pdsphere') if vec else ('_dsphere',))
        n, m = ctx.norm(tonum(nm)[0]), ctx.norm(tonum(mm)[0])
        need(ctx, And(ge0(m), le(m, n)), kind + ': 0 <= mmax <= nmax')
        es = [elem(ctx, '%s.%d' % (kind, k), d, [n, m]) for k in range(2 if vec else 1)]
        arrs = [fnarr(ctx, (ncoef(n, m),), 'c', e) for e in es]
        return ip.call(ip.mods['spherepy.spherepy'].d['VectorCoefs' if vec else 'ScalarCoefs'], arrs + [nm, mm], {})
    return f


def c_inverse(kind):
    """ispht / vispht as a function of the coefficients and the two sizes (C10, C13)"""
    def f(ip, a):
        c, R, C = a
        ctx = ip.ctx
        vec = kind == 'vispht'
        if not isinstance(c, Obj) or c.cls.name != ('VectorCoefs' if vec else 'ScalarCoefs') or not (ints(R) and ints(C)):
            return NotImplemented
        if vec:
            d = np_concat(ctx, [ctx.heap[ctx.heap[c.oid][n].oid]['_vec'] for n in ('scoef1', 'scoef2')], 0)
        else:
            d = ctx.heap[c.oid]['_vec']
        n, m = [ctx.norm(tonum(ctx.heap[c.oid][k])[0]) for k in ('_nmax', '_mmax')]
        r, q = ctx.norm(tonum(R)[0]), ctx.norm(tonum(C)[0])
        need(ctx, And(ge(r, 2), ge(q, 2)), kind + ': sizes')
        es = [elem(ctx, '%s.%d' % (kind, k), d, [n, m, r, q]) for k in range(2 if vec else 1)]
        arrs = [fnarr(ctx, (2 * r - 2, q), 'c', e) for e in es]
        return ip.call(ip.mods['spherepy.spherepy'].d['TransversePatternUniform' if vec else 'ScalarPatternUniform'], arrs, {'doublesphere': True})
    return f


EXTRA = {'sbessel.sbesselj': c_bessel('sbesselj'), 'sbessel.sbessely': c_bessel('sbessely'), 'spherepy.ScalarCoefs.window': c_window, 'ops.divsin_fc': c_divsin}
for _n in ('load_patt', 'load_coef', 'load_vpatt', 'load_fdata'):
    EXTRA['file.' + _n] = c_load(_n)
for _n in ('spht', 'vspht'):
    EXTRA['spherepy.' + _n] = c_forward(_n)
for _n in ('ispht', 'vispht'):
    EXTRA['spherepy.' + _n] = c_inverse(_n)


def table(opt):
    t = dict(TABLE)
    if opt.get('c'):
        import cmodel
        t.update(cmodel.TABLE)
    for k in opt.get('use', ()):
        t[k] = EXTRA[k]
    for k in opt.get('inline', ()):
        t.pop(k, None)
    return t
