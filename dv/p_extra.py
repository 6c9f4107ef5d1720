"""Contracts: self-tests of the Bessel routines (C22), verification routines (C27), symmetry measures (C21)."""
from spec import *
import p_patt as PT
import p_norms as PN
from p_misc import bargs, made
import contracts as CO


def absr(ctx, z):
    return PN.absv(ctx, z)


@obligation('C22', 'sbesselj_sum: deviation of sum (2n+1) j_n^2 from 1', use=('sbessel.sbesselj',))
def _(S):
    x, N = bargs(S)
    r = S.call('sbessel.sbesselj_sum', x, N)
    j = reader(S.ctx, S.call('sbessel.sbesselj', x, N))
    s = sum_pieces(S.ctx, (N.p,), lambda i: (2 * i[0] + 1) * j(i) ** 2)
    S.ctx.assume(ne(s, 0))
    S.expect_eq(r, absr(S.ctx, (s - 1) / s) + app('spacing', [ONE]), '|(sum - 1) / sum| + one machine epsilon')


@obligation('C22', 'sbessel_test_cross_product: deviation of j y\' - j\' y from 1/z^2', use=('sbessel.sbesselj', 'sbessel.sbessely'))
def _(S):
    x, N = bargs(S)
    r = S.call('sbessel.sbessel_test_cross_product', x, N)
    M = mknum(N.p + 1, 'int')
    j, y = [reader(S.ctx, S.call('sbessel.' + f, x, M)) for f in ('sbesselj', 'sbessely')]
    w = 1 / x.p ** 2

    def dev(i):
        n = [i[0] + 1]
        return absr(S.ctx, j(n) * y(i) - j(i) * y(n) - w) / w
    nm, ps = functional(S.ctx, 'max', (N.p,), dev)
    S.expect_eq(r, app(nm, ps), 'largest relative deviation')


for _f, _g in (('sbesselj_array', 'sbesselj'), ('sbessely_array', 'sbessely')):
    @obligation('C22', '%s: one column per argument' % _f, use=('sbessel.' + _g,))
    def _(S, _f=_f, _g=_g):
        L, N = S.int('L'), S.int('N')
        S.ctx.assume(And(ge(L.p, 1), ge(N.p, 1)))

        def arg(i):
            S.ctx.assume(ne(app('x', [i[0]]), 0))       # no argument is zero
            return app('x', [i[0]])
        x = fnarr(S.ctx, (L.p,), 'f', arg)
        gx = reader(S.ctx, x)
        r = S.call('sbessel.' + _f, x, N)
        if not isinstance(r, Arr) or len(r.shape) != 2:
            return S.fail('a matrix')
        S.expect(And(eq(r.shape[0], N.p), eq(r.shape[1], L.p)), 'N rows, one column per argument')
        h = reader(S.ctx, r)

        def chk(i):
            c = reader(S.ctx, S.call('sbessel.' + _g, Num(gx([i[1]]), 'float'), N))
            S.expect_eq(h(i), c([i[0]]), 'column of the argument')
        S.for_all((N.p, L.p), chk)


# ------------------------------------------------------------------ C08: the module-level accessor
@obligation('C08', 'array() returns the grid')
def _(S):
    sz = PT.grid_sizes(S)
    p, _ = PT.raw_patt(S, 'ScalarPatternUniform', 'p', sz)
    q, _ = PT.raw_patt(S, 'TransversePatternUniform', 'q', sz)
    sh = (sz[0].p, sz[2].p)

    def grid(a, b, label):
        if not isinstance(a, Arr) or len(a.shape) != 2:
            return S.fail(label + ': a matrix')
        S.expect(And(eq(a.shape[0], sh[0]), eq(a.shape[1], sh[1])), label + ': nrows x ncols')
        PT.same_cells(S, a, b, sh, label)
    grid(S.call('array', p), S.attr(p, 'cdata'), 'scalar pattern')
    t = S.call('array', q)
    if not isinstance(t, tuple) or len(t) != 2:
        return S.fail('transverse pattern: two grids')
    grid(t[0], S.attr(q, 'theta'), 'transverse pattern: theta')
    grid(t[1], S.attr(q, 'phi'), 'transverse pattern: phi')
    S.raises('TypeError', lambda: S.call('array', S.call('zeros_coefs', 1, 1)), 'a coefficient set is not a pattern')


# ------------------------------------------------------------------ C27
def held(S, name, kind, a, sizes):
    """file `name` holds this content"""
    d = dict(S.ctx.heap.get('saved', {}))
    d[name] = (kind, a, sizes)
    S.ctx.heap['saved'] = d


def saved_patts(S, names):
    R, h, C = sz = PT.grid_sizes(S)
    for n in names:
        held(S, n, 'patt', S.carray(n, (2 * R.p - 2, C.p)), (R, C))
    return R, C


def saved_coefs(S, names):
    nm, mm = sizes(S)
    for n in names:
        held(S, n, 'coef', S.carray(n, (ncoef(nm.p, mm.p),)), (nm, mm))
    return nm, mm


def report(S, r, d, ref, kind, label):
    """(L2, LInf, L2 relative, LInf relative) of the difference d, relative to ref"""
    a, b = [tonum(S.call(f + kind, d))[0] for f in ('L2_', 'LInf_')]
    x, y = [tonum(S.call(f + kind, ref))[0] for f in ('L2_', 'LInf_')]
    if not isinstance(r, tuple) or len(r) != 4:
        return S.fail(label + ': four numbers')
    S.ctx.assume(And(ne(x, 0), ne(y, 0)))
    want = (a, b, a / x, b / y)
    for x, y, t in zip(r, want, ('L2 norm of the difference', 'LInf norm of the difference', 'relative L2 norm', 'relative LInf norm')):
        S.expect_eq(x, y, label + ': ' + t)


def sub(S, x, y):
    return S.ip.binop('-', x, y)


LOAD = ('file.load_patt', 'file.load_coef', 'file.load_vpatt', 'file.load_fdata')


@obligation('C27', 'verify_spht', use=LOAD + ('spherepy.spht',))
def _(S):
    saved_patts(S, 'p')
    nm, mm = saved_coefs(S, 'c')
    r = S.call('verify.verify_spht', 'p', 'c')
    c = S.call('file.load_coef', 'c')
    w = S.call('spht', S.call('file.load_patt', 'p'), nm, mm)
    report(S, r, sub(S, c, w), c, 'coef', 'verify_spht')


@obligation('C27', 'verify_ispht', use=LOAD + ('spherepy.ispht',))
def _(S):
    R, C = saved_patts(S, 'p')
    saved_coefs(S, 'c')
    r = S.call('verify.verify_ispht', 'p', 'c')
    q = S.call('file.load_patt', 'p')
    w = S.call('ispht', S.call('file.load_coef', 'c'), R, C)
    report(S, r, sub(S, q, w), q, 'patt', 'verify_ispht')


def vector_held(S):
    return S.call('VectorCoefs', *([S.attr(S.call('file.load_coef', n), '_vec') for n in 'cd'] + list(S.ctx.heap['saved']['c'][2])))


@obligation('C27', 'verify_vspht', use=LOAD + ('spherepy.vspht',))
def _(S):
    saved_patts(S, 'pq')
    nm, mm = saved_coefs(S, 'cd')
    r = S.call('verify.verify_vspht', 'p', 'q', 'c', 'd')
    v = vector_held(S)
    w = S.call('vspht', S.call('file.load_vpatt', 'p', 'q'), nm, mm)
    report(S, r, sub(S, v, w), v, 'coef', 'verify_vspht')


@obligation('C27', 'verify_vispht', use=LOAD + ('spherepy.vispht',))
def _(S):
    R, C = saved_patts(S, 'pq')
    saved_coefs(S, 'cd')
    r = S.call('verify.verify_vispht', 'p', 'q', 'c', 'd')
    q = S.call('file.load_vpatt', 'p', 'q')
    w = S.call('vispht', vector_held(S), R, C)
    report(S, r, sub(S, q, w), q, 'patt', 'verify_vispht')


@obligation('C27', 'verify_fdata', use=LOAD)
def _(S):
    ctx = S.ctx
    R, C = saved_patts(S, 'p')
    nm, mm = saved_coefs(S, 'c')
    ctx.assume(And(ge(R.p, 2 * nm.p), ge(C.p, 2 * mm.p + 2), eq(floordiv(R.p, P(2)) * 2, R.p)))
    r = S.call('verify.verify_fdata', 'p', 'c')
    ga = reader(ctx, S.call('file.load_fdata', 'p'))
    gw = CO.elem(ctx, 'sc_to_fc', S.attr(S.call('file.load_coef', 'c'), '_vec'), [nm.p, mm.p, R.p, C.p])
    nm_, ps = functional(ctx, 'max', (R.p, C.p), lambda i: absr(ctx, ga(i) - gw(i)))
    S.expect_eq(r, app(nm_, ps), 'largest difference of the Fourier data')


# ------------------------------------------------------------------ C21
def asymmetry(S, x, sz, sign):
    """largest relative deviation from G[-i mod 2(nrows-1), j + ncols/2] = sign * G[i, j]"""
    R, h, C = sz
    N = 2 * R.p - 2
    g = reader(S.ctx, x)

    def dev(i):
        r = ZERO if S.ctx.decide(eq(i[0], 0)) else N - i[0]
        c = i[1] + h.p if S.ctx.decide(lt(i[1], h.p)) else i[1] - h.p
        s, t = sign * g([r, c]), g(i)
        if S.ctx.decide(nonzero(s)):
            s, t = S.ctx.norm(s), S.ctx.norm(t)
            return absr(S.ctx, (s - t) / s)
        return ONE if S.ctx.decide(nonzero(t)) else ZERO
    return NP.extreme(S.ctx, 'max', (N, C.p), dev)


def nonzero(z):
    re, im = T.re_im(z)
    return Or(ne(re, 0), ne(im, 0))


KINDS = (('ScalarPatternUniform', ('_dsphere',), 1, Fraction(1, 10 ** 14)), ('TransversePatternUniform', ('_tdsphere', '_pdsphere'), -1, Fraction(1, 10 ** 13)))
for _k, _f, _s, _tol in KINDS:
    @obligation('C21', '%s.single_val' % _k, cost=30)
    def _(S, _k=_k, _f=_f, _s=_s):
        sz = PT.grid_sizes(S)
        p, _ = PT.raw_patt(S, _k, 'p', sz)
        v = S.attr(p, 'single_val')
        v = v if isinstance(v, tuple) else (v,)
        if len(v) != len(_f):
            return S.fail('one value per component')
        for x, f in zip(v, _f):
            S.expect_eq(x, asymmetry(S, S.attr(p, f), sz, _s), 'largest relative deviation of ' + f)

    @obligation('C21', '%s.is_symmetric: every component within the tolerance' % _k, cost=30)
    def _(S, _k=_k, _f=_f, _s=_s, _tol=_tol):
        sz = PT.grid_sizes(S)
        p, _ = PT.raw_patt(S, _k, 'p', sz)
        r = S.attr(p, 'is_symmetric')
        if not isinstance(r, bool):
            return S.fail('a truth value')
        v = S.attr(p, 'single_val')
        small = And(*[lt(tonum(x)[0], P(_tol)) for x in (v if isinstance(v, tuple) else (v,))])
        S.expect(small if r else Not(small), 'within the tolerance exactly if is_symmetric')

    @obligation('C21', '%s: symmetric data is reported as symmetric' % _k, cost=20)
    def _(S, _k=_k):
        p, _ = PT.sym_patt(S, _k, 'p', PT.grid_sizes(S))
        v = S.attr(p, 'single_val')
        for x in (v if isinstance(v, tuple) else (v,)):
            S.expect_eq(x, ZERO, 'single_val is 0')
        S.ok('is_symmetric') if S.attr(p, 'is_symmetric') is True else S.fail('is_symmetric')


# ------------------------------------------------------------------ C18: vector sets saved in MATLAB
def text_file(S, name, n, get):
    """a file of n lines"""
    sid = S.ctx.newid()
    S.ctx.heap[sid] = NP.ArrRec((n,), 'O', NP.FnBase(get))
    f = dict(S.ctx.heap.get('files', {}))
    f[name] = sid
    S.ctx.heap['files'] = f
    S.ctx.heap[('part', sid)] = ()


def line(*vals):
    parts = []
    for v in vals:
        if parts:
            parts.append(',')
        parts.append(('v', v, '' if tonum(v)[1] == 'int' else '.17e'))
    return SymStr(parts + ['\n'])


@obligation('C18', 'load_vcoef: header, the modes of both components in storage order')
def _(S):
    nm, mm = sizes(S)
    L = ncoef(nm.p, mm.p)
    a, b = S.carray('a', (L,)), S.carray('b', (L,))
    ga, gb = reader(S.ctx, a), reader(S.ctx, b)
    d = S.ctx.fresh('d', 'r')

    def num(z):
        return line(*[Num(x, 'float') for x in T.re_im(z)])

    def get(i):
        if S.ctx.decide(eq(i[0], 0)):
            return line(nm, mm, Num(d, 'float'))
        if S.ctx.decide(le(i[0], L)):
            return num(ga([i[0] - 1]))
        if S.ctx.decide(eq(i[0], L + 1)):
            return 'break\n'
        return num(gb([i[0] - L - 2]))
    text_file(S, 'f', 2 * L + 2, get)
    r = S.call('file.load_vcoef', 'f')
    if not isinstance(r, tuple) or len(r) != 2 or not S.isinst(r[0], 'VectorCoefs'):
        return S.fail('a vector coefficient set and the directivity')
    S.expect_eq(r[1], d, 'directivity')
    expect_size(S, r[0], nm, mm, 'nmax and mmax')
    for f, g in (('scoef1', ga), ('scoef2', gb)):
        c = S.attr(r[0], f)
        expect_size(S, c, nm, mm, f)
        expect_vec_len(S, c, f)
        h = reader(S.ctx, S.attr(c, '_vec'))
        S.for_all((L - 1,), lambda i: S.expect_eq(h([i[0] + 1]), g([i[0] + 1]), f + ': every mode with n >= 1'))
