"""Contracts: spherical Bessel functions (C22), sampler (C25), factories (C19), files (C18)."""
from spec import *
from contracts import Y
import p_patt as PT
PI = var('pi', 'r')


# ------------------------------------------------------------------ C22
def bargs(S):
    x = Num(var('x~%d' % S.ctx.newid(), 'r'), 'float')
    S.ctx.assume(ne(x.p, 0))
    N = S.int('N')
    S.ctx.assume(ge(N.p, 1))
    return x, N


def vec_len(S, a, n, label):
    if not isinstance(a, Arr) or len(a.shape) != 1:
        S.fail(label + ': a vector')
        return False
    S.expect(eq(a.shape[0], n), label + ': length')
    return True


def cs(x):
    return app('cos', [x]), app('sin', [x])


@obligation('C22', 'sbessely: start values and three-term recurrence')
def _(S):
    x, N = bargs(S)
    S.ctx.strict_div = True
    y = S.call('sbessel.sbessely', x, N)
    if not vec_len(S, y, N.p, 'sbessely'):
        return
    g = reader(S.ctx, y)
    co, si = cs(x.p)

    def chk(b):
        n = b[0]
        if S.ctx.decide(eq(n, 0)):
            return S.expect_eq(g([n]), -co / x.p, 'y_0')
        if S.ctx.decide(eq(n, 1)):
            return S.expect_eq(g([n]), -co / x.p ** 2 - si / x.p, 'y_1')
        S.expect_eq(g([n]), (2 * n - 1) / x.p * g([n - 1]) - g([n - 2]), 'y_n')
    S.for_all(y.shape, chk)


def const_ratio(a, b):
    """c with a == c*b, or None"""
    if a.is_zero() or b.is_zero():
        return None
    c = a.t.get(max(b.t), 0) / b.t[max(b.t)]
    return c if (a - b.scale(c)).is_zero() else None


def step(S, x, n, jm, j, jp):
    """j_{n+1} = (2n+1)/x j_n - j_{n-1}, exactly or (where j_{n-1} vanishes) up to 1e-20 j_n"""
    ctx = S.ctx
    for _ in range(2):              # the first pass takes the decisions of the path
        jm, j, jp, n = [ctx.norm(p) for p in (jm, j, jp, n)]
        j1 = PR.expand(ctx, j, jm.atoms())
        p1 = PR.expand(ctx, jp, jm.atoms())
        j2 = PR.expand(ctx, j1, jm.atoms())
        keep = jm.atoms() | (p1.atoms() - j.atoms() - j1.atoms())
        p2 = PR.expand(ctx, PR.expand(ctx, p1, keep), keep)
    d = ctx.norm(p2 - (2 * n + 1) / x * j2 + jm)
    if PR.clear_inv(ctx, d).is_zero():
        return S.ok('j_n')
    K, e = const_ratio(j2, jm), const_ratio(d, jm)
    if K and e is not None and abs(e) <= abs(K) / Fraction(10) ** 20:
        return S.ok('j_n up to rounding')
    S.expect_eq(jp, (2 * n + 1) / x * j - jm, 'j_n')


@obligation('C22', 'sbesselj: j_0, j_1 and the three-term recurrence')
def _(S):
    x, N = bargs(S)
    S.ctx.nonzero_div = S.ctx.strict_div = True
    y = S.call('sbessel.sbesselj', x, N)
    if not vec_len(S, y, N.p, 'sbesselj'):
        return
    g = reader(S.ctx, y)
    co, si = cs(x.p)

    def chk(b):
        n = b[0]
        if S.ctx.decide(eq(n, 0)):
            return S.expect_eq(g([n]), si / x.p, 'j_0')
        if S.ctx.decide(ge(n, N.p - 1)):
            return
        if S.ctx.decide(eq(n, 1)) and S.ctx.norm(g([n]) - (si / x.p ** 2 - co / x.p)).is_zero():
            return S.ok('j_1 is given in closed form')
        step(S, x.p, n, g([n - 1]), g([n]), g([n + 1]))
    S.for_all(y.shape, chk)


@obligation('C22', 'Hankel functions', use=('sbessel.sbesselj', 'sbessel.sbessely'))
def _(S):
    x, N = bargs(S)
    for nm, sg in (('sbesselh1', I), ('sbesselh2', -I)):
        h = S.call('sbessel.' + nm, x, N)
        if vec_len(S, h, N.p, nm):
            gh = reader(S.ctx, h)
            gj, gy = [reader(S.ctx, S.call('sbessel.' + f, x, N)) for f in ('sbesselj', 'sbessely')]
            S.for_all(h.shape, lambda b: S.expect_eq(gh(b), gj(b) + sg * gy(b), nm + ' = j +- i y'))


# ------------------------------------------------------------------ C25
def expi(p):
    return app('cos', [p]) + I * app('sin', [p])


@obligation('C25', 'sph_harmonic_tp samples Y_nm on the documented grid')
def _(S):
    ctx = S.ctx
    R, C, n, m = S.int('nrows'), S.int('ncols'), S.int('n'), S.int('m')
    for c in (ge(R.p, 2), ge(C.p, 1), ge0(n.p), le(m.p, n.p), ge(m.p, -n.p)):
        ctx.assume(c)
    a = S.call('sph_harmonic_tp', R, C, n, m)
    if not isinstance(a, Arr) or len(a.shape) != 2:
        return S.fail('a matrix')
    S.expect(And(eq(a.shape[0], R.p), eq(a.shape[1], C.p)), 'nrows x ncols')
    g = reader(ctx, a)

    def chk(b):
        i, j = b

        def term(k):
            q = k[0] - n.p
            s = ONE
            if not ctx.decide(ge0(q)):
                q, s = -q, ip(2 * m.p)
            return s * Y(ctx, n.p, m.p, q) * expi((k[0] - n.p) * i * PI / (R.p - 1))
        tot = sum_pieces(ctx, (2 * n.p + 1,), term)
        S.expect_eq(g(b), ip(m.p) * expi(m.p * j * 2 * PI / C.p) * tot, 'Y_nm(theta_i, phi_j)')
    S.for_all(a.shape, chk)


# ------------------------------------------------------------------ C19
def csize(S):
    nm, mm = S.int('nmax'), S.int('mmax')
    S.ctx.assume(ge0(mm.p))
    S.ctx.assume(le(mm.p, nm.p))
    return nm, mm


def draws(S):
    return {d[0]: d for d in S.ctx.heap.get('draws', ())}


def draw_of(S, x, mu, sg, label):
    """x = mu + sg * (one standard normal draw): returns (draw, position)"""
    ctx = S.ctx
    at = [atom(a) for a in x.atoms() if atom(a).kind == 'app' and atom(a).name in draws(S)]
    if len(at) != 1:
        S.fail(label + ': one normal draw per value', repr(x))
        return None
    a = P(at[0])
    nm, m0, s0, sh = draws(S)[at[0].name]
    S.expect_eq(x, mu + sg * a, label + ': mean and deviation')
    return nm, list(at[0].args)


def complex_draw(S, v, mu, sg, label):
    re, im = re_im(v)
    return draw_of(S, re, mu, sg, label), draw_of(S, im, mu, sg, label)


def distinct(S, a, b, label):
    """two draws are different random numbers"""
    if a is None or b is None:
        return
    if a[0] != b[0]:
        return S.ok(label)
    S.expect(Or(*[ne(x, y) for x, y in zip(a[1], b[1])]), label)


def steady(S, fn):
    """the value of fn() without a case split when every case gives the same value"""
    ctx = S.ctx
    outs = [o for o in ctx.explore(fn, free=True) if ctx.feasible_in(o)]
    if any(o.kind == 'exc' or not isinstance(o.value, Poly) for o in outs):
        return fn()

    def same(v, o):
        s0 = ctx.snapshot()
        ctx.restore(o.state)
        try:
            return ctx.norm(v - o.value).is_zero()
        finally:
            ctx.restore(s0)
    for c in outs:
        if all(same(c.value, o) for o in outs):
            return c.value
    return fn()


for _f, _v in (('zeros', 0), ('ones', 1)):
    @obligation('C19', '%s_coefs: scalar' % _f)
    def _(S, _f=_f, _v=_v):
        nm, mm = csize(S)
        c = S.call(_f + '_coefs', nm, mm)
        if not S.isinst(c, 'ScalarCoefs'):
            return S.fail('a scalar coefficient set')
        expect_size(S, c, nm, mm, 'size')
        expect_vec_len(S, c, 'one entry per mode')
        all_modes(S, c, lambda n, m: P(_v), 'every mode')

    @obligation('C19', '%s_coefs: vector' % _f)
    def _(S, _f=_f, _v=_v):
        nm, mm = csize(S)
        c = S.call(_f + '_coefs', nm, mm, coef_type=S.get('vector'))
        if not S.isinst(c, 'VectorCoefs'):
            return S.fail('a vector coefficient set')
        expect_size(S, c, nm, mm, 'size')
        for k in ('scoef1', 'scoef2'):
            s = S.attr(c, k)
            expect_size(S, s, nm, mm, 'size')
            expect_vec_len(S, s, 'one entry per mode')
            all_modes(S, s, lambda n, m: P(_v) if S.ctx.decide(ge(n, 1)) else ZERO, 'every mode')


def gauss(S):
    mu, sg = var('mu~%d' % S.ctx.newid(), 'r'), var('sigma~%d' % S.ctx.newid(), 'r')
    S.ctx.assume(ge0(sg))
    return mu, sg


def independent(S, sets, nm, mm, mu, sg, lo, label):
    """every value of every set is its own pair of draws"""
    def body():
        n, m = mode(S, nm, mm, lo, 'n')
        n2, m2 = mode(S, nm, mm, lo, 'k')
        k = [S.getitem(s, (n, m)) for s in sets]
        d = [complex_draw(S, tonum(x)[0], mu, sg, label) for x in k]
        for a, b in d:
            distinct(S, a, b, label + ': real and imaginary part are different draws')
        for i in range(len(d)):
            for j in range(i):
                for a in d[i]:
                    for b in d[j]:
                        distinct(S, a, b, label + ': components are different draws')
        if S.ctx.decide(And(eq(n.p, n2.p), eq(m.p, m2.p))):
            return
        for x, (a, b) in zip([S.getitem(s, (n2, m2)) for s in sets], d):
            for e in complex_draw(S, tonum(x)[0], mu, sg, label):
                for f in (a, b):
                    distinct(S, e, f, label + ': different modes are different draws')
    S.scope(body)


@obligation('C19', 'random_coefs: scalar')
def _(S):
    nm, mm = csize(S)
    mu, sg = gauss(S)
    c = S.call('random_coefs', nm, mm, mu=Num(mu, 'float'), sigma=Num(sg, 'float'))
    if not S.isinst(c, 'ScalarCoefs'):
        return S.fail('a scalar coefficient set')
    expect_size(S, c, nm, mm, 'size')
    expect_vec_len(S, c, 'one entry per mode')
    independent(S, [c], nm, mm, mu, sg, 0, 'random mode')


@obligation('C19', 'random_coefs: vector')
def _(S):
    nm, mm = csize(S)
    mu, sg = gauss(S)
    c = S.call('random_coefs', nm, mm, mu=Num(mu, 'float'), sigma=Num(sg, 'float'), coef_type=S.get('vector'))
    if not S.isinst(c, 'VectorCoefs'):
        return S.fail('a vector coefficient set')
    expect_size(S, c, nm, mm, 'size')
    sets = [S.attr(c, k) for k in ('scoef1', 'scoef2')]
    for s in sets:
        expect_size(S, s, nm, mm, 'size')
        expect_vec_len(S, s, 'one entry per mode')
        S.expect_eq(S.getitem(s, (0, 0)), ZERO, 'no monopole')
    independent(S, sets, nm, mm, mu, sg, 1, 'random mode')


@obligation('C19', 'random_coefs: default mean 0 and deviation 1')
def _(S):
    nm, mm = csize(S)
    independent(S, [S.call('random_coefs', nm, mm)], nm, mm, ZERO, ONE, 0, 'random mode')


@obligation('C19', 'coefficient factories reject mmax > nmax and unknown types')
def _(S):
    nm, mm = S.int('nmax'), S.int('mmax')
    S.ctx.assume(ge0(nm.p))
    S.ctx.assume(ge0(mm.p))
    bad = S.ctx.decide(gt(mm.p, nm.p))
    t = S.int('type')
    S.ctx.assume(And(ne(t.p, tonum(S.get('scalar'))[0]), ne(t.p, tonum(S.get('vector'))[0])))
    for f in ('zeros_coefs', 'ones_coefs', 'random_coefs'):
        if bad:
            for k in ('scalar', 'vector'):
                S.raises('ValueError', lambda: S.call(f, nm, mm, coef_type=S.get(k)), f + ' ' + k + ': mmax > nmax')
        else:
            for v in (t, 'vector', None):
                S.raises('TypeError', lambda: S.call(f, nm, mm, coef_type=v), f + ': unknown type')


def patt_arrays(S, p, k):
    return [S.attr(p, 'cdata')] if k == 'scalar' else [S.attr(p, 'theta'), S.attr(p, 'phi')]


def made(S, p, k, R, C, label):
    if not S.isinst(p, 'ScalarPatternUniform' if k == 'scalar' else 'TransversePatternUniform'):
        return S.fail(label + ': a %s pattern' % k)
    S.expect_eq(S.attr(p, 'nrows'), R.p, label + ': nrows')
    S.expect_eq(S.attr(p, 'ncols'), C.p, label + ': ncols')
    for a in patt_arrays(S, p, k):
        S.expect(And(eq(a.shape[0], R.p), eq(a.shape[1], C.p)), label + ': shape of the grid')
    d = S.attr(p, 'doublesphere')
    for a in ([d] if k == 'scalar' else list(d)):
        S.expect(And(eq(a.shape[0], 2 * R.p - 2), eq(a.shape[1], C.p)), label + ': shape of the doubled array')
    return True


for _k in ('scalar', 'vector'):
    for _f, _v in (('zeros', 0), ('ones', 1)):
        @obligation('C19', '%s_patt_uniform: %s' % (_f, _k))
        def _(S, _f=_f, _v=_v, _k=_k):
            R, h, C = PT.grid_sizes(S)
            p = S.call(_f + '_patt_uniform', R, C, patt_type=S.get(_k))
            if made(S, p, _k, R, C, _f):
                for a in patt_arrays(S, p, _k):
                    g = reader(S.ctx, a)
                    S.for_all(a.shape, lambda b: S.expect_eq(g(b), P(_v), 'every point'))

    @obligation('C19', 'random_patt_uniform: %s' % _k)
    def _(S, _k=_k):
        R, h, C = PT.grid_sizes(S)
        p = S.call('random_patt_uniform', R, C, patt_type=S.get(_k))
        if not made(S, p, _k, R, C, 'random'):
            return
        gs = [reader(S.ctx, a) for a in patt_arrays(S, p, _k)]
        ctx = S.ctx

        def chk(b):
            i, j, i2, j2 = b
            for x in (i, i2):
                ctx.assume(And(ge(x, 1), le(x, R.p - 2)))
            d = [complex_draw(S, steady(S, lambda: g([i, j])), ZERO, ONE, 'random point') for g in gs]
            fl = [e for q in d for e in q]
            for x in range(len(fl)):
                for y in range(x):
                    distinct(S, fl[x], fl[y], 'parts are different draws')
            if ctx.decide(And(eq(i, i2), eq(j, j2))):
                return
            for g in gs:
                for e in complex_draw(S, steady(S, lambda: g([i2, j2])), ZERO, ONE, 'random point'):
                    for f in fl:
                        distinct(S, e, f, 'different points are different draws')
        S.for_all((R.p, C.p, R.p, C.p), chk)


@obligation('C19', 'pattern factories reject odd columns and unknown types')
def _(S):
    R, C = S.int('R'), S.int('C')
    S.ctx.assume(ge(R.p, 2))
    S.ctx.assume(ge(C.p, 1))
    odd = S.ctx.decide(eq(C.p - 2 * floordiv(C.p, P(2)), 1))
    t = S.int('type')
    S.ctx.assume(And(ne(t.p, tonum(S.get('scalar'))[0]), ne(t.p, tonum(S.get('vector'))[0])))
    for f in ('zeros_patt_uniform', 'ones_patt_uniform', 'random_patt_uniform'):
        if odd:
            for k in ('scalar', 'vector'):
                S.raises('ValueError', lambda: S.call(f, R, C, patt_type=S.get(k)), f + ' ' + k + ': odd number of columns')
        else:
            for v in (t, 'vector', None):
                S.raises('TypeError', lambda: S.call(f, R, C, patt_type=v), f + ': unknown type')


# ------------------------------------------------------------------ C18
def lines_of(S, name):
    f = S.ctx.heap['files'].get(name)
    if f is None:
        S.fail('the file is written')
        return None
    return ListV(f)


def fields(S, line, label):
    """numbers of one line"""
    r = S.ip.str_method(line, 'split', [','], {})
    return S.ip.concrete_items(r)


@obligation('C18', 'save_coef writes one header and one line per mode')
def _(S):
    c, g, nm, mm = scoefs(S)
    before = reader(S.ctx, S.attr(c, '_vec'))
    S.call('file.save_coef', c, 'f')
    L = lines_of(S, 'f')
    T, get = S.ip.iter_of(L)
    S.expect(eq(T, ncoef(nm.p, mm.p) + 1), 'one header line and one line per mode')
    h = fields(S, get(ZERO), 'header')
    S.expect(eq(len(h), 2), 'two sizes')
    S.expect_eq(S.ip.call(S.ip.builtins['int'], [h[0]], {}), nm.p, 'nmax')
    S.expect_eq(S.ip.call(S.ip.builtins['int'], [h[1]], {}), mm.p, 'mmax')

    def chk(b):
        f = fields(S, get(b[0] + 1), 'mode')
        S.expect(eq(len(f), 2), 'two numbers')
        re, im = re_im(before(b))
        S.expect_eq(S.ip.b_float(f[0]), re, 'real part in storage order')
        S.expect_eq(S.ip.b_float(f[1]), im, 'imaginary part in storage order')
    S.for_all((ncoef(nm.p, mm.p),), chk)


@obligation('C18', 'load_coef returns what save_coef wrote')
def _(S):
    c, g, nm, mm = scoefs(S)
    S.call('file.save_coef', c, 'f')
    d = S.call('file.load_coef', 'f')
    if not S.isinst(d, 'ScalarCoefs'):
        return S.fail('a scalar coefficient set')
    expect_size(S, d, nm, mm, 'nmax and mmax')
    expect_vec_len(S, d, 'one entry per mode')
    all_modes(S, d, g, 'every mode')
    all_modes(S, c, g, 'the saved set is unchanged')


def grid_line(S, f, row, col, v, label):
    S.expect(eq(len(f), 4), label + ': row, column and two numbers')
    S.expect_eq(S.ip.call(S.ip.builtins['int'], [f[0]], {}), row, label + ': row')
    S.expect_eq(S.ip.call(S.ip.builtins['int'], [f[1]], {}), col, label + ': column')
    re, im = re_im(v)
    S.expect_eq(S.ip.b_float(f[2]), re, label + ': real part')
    S.expect_eq(S.ip.b_float(f[3]), im, label + ': imaginary part')


@obligation('C18', 'save_patt writes one header and one line per grid point')
def _(S):
    sz = PT.grid_sizes(S)
    R, h, C = sz
    p = PT.raw_patt(S, 'ScalarPatternUniform', 'p', sz)
    if isinstance(p, tuple):
        p = p[0]
    g = reader(S.ctx, S.attr(p, 'cdata'))
    S.call('file.save_patt', p, 'f')
    L = lines_of(S, 'f')
    T, get = S.ip.iter_of(L)
    S.expect(eq(T, R.p * C.p + 1), 'one header line and one line per grid point')
    hd = fields(S, get(ZERO), 'header')
    S.expect(eq(len(hd), 2), 'two sizes')
    S.expect_eq(S.ip.call(S.ip.builtins['int'], [hd[0]], {}), R.p, 'nrows')
    S.expect_eq(S.ip.call(S.ip.builtins['int'], [hd[1]], {}), C.p, 'ncols')
    S.for_all((R.p, C.p), lambda b: grid_line(S, fields(S, get(b[0] * C.p + b[1] + 1), 'point'), b[0], b[1], g(b), 'point'))


@obligation('C18', 'load_patt returns what save_patt wrote')
def _(S):
    sz = PT.grid_sizes(S)
    R, h, C = sz
    p = PT.sym_patt(S, 'ScalarPatternUniform', 'p', sz)
    if isinstance(p, tuple):
        p = p[0]
    g = reader(S.ctx, S.attr(p, 'cdata'))
    gd = reader(S.ctx, S.attr(p, 'doublesphere'))
    S.call('file.save_patt', p, 'f')
    q = S.call('file.load_patt', 'f')
    if made(S, q, 'scalar', R, C, 'load'):
        n = reader(S.ctx, S.attr(q, 'cdata'))
        S.for_all((R.p, C.p), lambda b: S.expect_eq(n(b), g(b), 'every grid point'))
        g2 = reader(S.ctx, S.attr(p, 'doublesphere'))
        S.for_all((2 * R.p - 2, C.p), lambda b: S.expect_eq(g2(b), gd(b), 'the saved pattern is unchanged'))


@obligation('C18', 'load_fdata returns the saved grid')
def _(S):
    sz = PT.grid_sizes(S)
    R, h, C = sz
    p, _ = PT.raw_patt(S, 'ScalarPatternUniform', 'p', sz)
    g = reader(S.ctx, S.attr(p, 'cdata'))
    S.call('file.save_patt', p, 'f')
    a = S.call('file.load_fdata', 'f')
    if not isinstance(a, Arr) or len(a.shape) != 2:
        return S.fail('a matrix')
    S.expect(And(eq(a.shape[0], R.p), eq(a.shape[1], C.p)), 'nrows x ncols')
    n = reader(S.ctx, a)
    S.for_all((R.p, C.p), lambda b: S.expect_eq(n(b), g(b), 'every grid point'))


@obligation('C18', 'load_vpatt builds the transverse pattern of the two saved grids')
def _(S):
    sz = PT.grid_sizes(S)
    R, h, C = sz
    ps = [PT.raw_patt(S, 'ScalarPatternUniform', 'p', sz)[0], PT.raw_patt(S, 'ScalarPatternUniform', 'q', sz)[0]]
    for p, f in zip(ps, 'fg'):
        S.call('file.save_patt', p, f)
    q = S.call('file.load_vpatt', 'f', 'g')
    if not made(S, q, 'vector', R, C, 'load'):
        return
    gr = [S.attr(p, 'cdata') for p in ps]
    w = S.call('TransversePatternUniform', *gr)
    for k in ('theta', 'phi'):
        a, b = reader(S.ctx, S.attr(q, k)), reader(S.ctx, S.attr(w, k))
        S.for_all((R.p, C.p), lambda x: S.expect_eq(a(x), b(x), k + ' at every grid point'))
