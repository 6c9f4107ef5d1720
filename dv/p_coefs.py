"""Contracts: coefficient sets (C01-C07, C23)."""
from spec import *


# ------------------------------------------------------------------ C01
@obligation('C01', 'pysphi.mindx returns the start of the m block')
def _(S):
    nm, mm = sizes(S)
    m = S.int('m')
    S.ctx.assume(And(le(m.p, mm.p), ge(m.p, -mm.p)))
    if 'mindx' not in S.mod('pysphi'):
        return S.ok('mindx absent')
    r = S.call('pysphi.mindx', m, nm, mm)
    S.expect_eq(r, block(S.ctx, nm.p + 1, m.p)[0], 'mindx = block start')


@obligation('C01', 'ScalarCoefs.__getitem__[n,m] reads the entry of the layout; size')
def _(S):
    c, g, nm, mm = scoefs(S)
    n, m = mode(S, nm, mm)
    S.expect_eq(S.getitem(c, (n, m)), g(n.p, m.p), 'c[n,m] = vec[layout(n,m)]')
    S.expect_eq(S.attr(c, 'size'), ncoef(nm.p, mm.p), 'size = number of modes')
    expect_size(S, c, nm, mm, 'sizes')
    # the layout is injective and onto [0, size)
    n2, m2 = mode(S, nm, mm)
    a, b = lay(S.ctx, nm.p + 1, n.p, m.p), lay(S.ctx, nm.p + 1, n2.p, m2.p)
    S.expect(And(ge0(a), lt(a, ncoef(nm.p, mm.p))), 'layout in range')
    if S.ctx.decide(Or(ne(n.p, n2.p), ne(m.p, m2.p))):
        S.expect(ne(a, b), 'distinct modes have distinct places')


@obligation('C01', 'ScalarCoefs.__setitem__[n,m] changes that mode only')
def _(S):
    c, g, nm, mm = scoefs(S)
    n, m = mode(S, nm, mm)
    v = S.cnum('val')
    S.setitem(c, (n, m), v)
    expect_vec_len(S, c, 'invariant')
    expect_size(S, c, nm, mm, 'sizes')

    def want(a, b):
        if S.ctx.decide(And(eq(a, n.p), eq(b, m.p))):
            return v.p
        return g(a, b)
    all_modes(S, c, want, 'c[n,m]=v then read')


@obligation('C01', 'VectorCoefs item access does the same for both components')
def _(S):
    c, g, nm, mm = vcoefs(S)
    S.expect_eq(S.attr(c, 'size'), ncoef(nm.p, mm.p), 'size = number of modes')
    expect_size(S, c, nm, mm, 'sizes')
    all_modes(S, c, g, 'read', lo=1)
    n, m = mode(S, nm, mm, lo=1)
    v, w = S.cnum('v'), S.cnum('w')
    S.setitem(c, (n, m), (v, w))
    expect_vec_len(S, c, 'invariant')

    def want(a, b):
        if S.ctx.decide(And(eq(a, n.p), eq(b, m.p))):
            return v.p, w.p
        return g(a, b)
    all_modes(S, c, want, 'c[n,m]=v then read', lo=1)


# ------------------------------------------------------------------ C02
def bad_mode(S, nm, mm):
    n, m = S.int('n'), S.int('m')
    S.ctx.assume(Or(lt(n.p, 0), gt(n.p, nm.p), gt(m.p, n.p), lt(m.p, -n.p), gt(m.p, mm.p), lt(m.p, -mm.p)))
    return n, m


def forms(S):
    """index forms that are not permitted (for any n, k)"""
    n, k = S.int('a'), S.int('b')
    z = slice
    return [('c[n:,m]', (z(n, None, None), k)), ('c[:n,m]', (z(None, n, None), k)), ('c[::n,m]', (z(None, None, n), k)),
            ('c[n,m:]', (n, z(k, None, None))), ('c[n,:m]', (n, z(None, k, None))), ('c[n,::m]', (n, z(None, None, k))),
            ('c[0:2,m]', (z(0, 2, None), k)), ('3 indices', (n, k, k)), ('1 index', (n,)),
            ('c[None,m]', (None, k)), ('c["a",m]', ('a', k)), ('c[n,None]', (n, None)),
            ('c[1.0,m]', (Num(ONE, 'float'), k)), ('c[n,1.0]', (n, Num(ONE, 'float')))]


def get_forms(S):
    n, k = S.int('a'), S.int('b')
    z = slice
    S.ctx.assume(ge(n.p, 1))
    return forms(S) + [('c[:,:]', (COLON, COLON)), ('c[n:,:]', (z(n, None, None), COLON)), ('c[n:k,:]', (z(n, k, None), COLON)),
                       ('c[-1:k,:]', (z(-1, k, None), COLON)), ('c[0:k:2,:]', (z(0, k, 2), COLON)),
                       ('c[0:,:]', (z(0, None, None), COLON)), ('c[:k,:]', (z(None, k, None), COLON)),
                       ('c[0:k,1:]', (z(0, k, None), z(1, None, None))), ('c[0:k,:2]', (z(0, k, None), z(None, 2, None))),
                       ('c[0:k,::2]', (z(0, k, None), z(None, None, 2))),
                       ('c[0:1.0,:]', (z(0, Num(ONE, 'float'), None), COLON))]


def reject_suite(kind):
    mk = scoefs if kind == 'ScalarCoefs' else vcoefs

    def val(S):
        return S.cnum('val') if kind == 'ScalarCoefs' else (S.cnum('v'), S.cnum('w'))

    @obligation('C02', kind + ': invalid single modes raise AttributeError')
    def _(S):
        c, g, nm, mm = mk(S)
        k = bad_mode(S, nm, mm)
        S.raises('AttributeError', lambda: S.getitem(c, k), 'reading an invalid mode')

    @obligation('C02', kind + ': rejected single-mode writes change nothing')
    def _(S):
        c, g, nm, mm = mk(S)
        k = bad_mode(S, nm, mm)
        v = val(S)
        S.raises('AttributeError', lambda: S.setitem(c, k, v), 'writing an invalid mode')
        all_modes(S, c, g, 'rejected write leaves every mode unchanged', lo=0 if kind == 'ScalarCoefs' else 1)

    @obligation('C02', kind + ': invalid slices raise AttributeError')
    def _(S):
        c, g, nm, mm = mk(S)
        m = S.int('m')
        if S.ctx.decide(Or(gt(m.p, mm.p), lt(m.p, -mm.p))):
            S.raises('AttributeError', lambda: S.getitem(c, (COLON, m)), 'c[:,m] with |m|>mmax')
            return
        n = S.int('n')
        if S.ctx.decide(Or(lt(n.p, 0), gt(n.p, nm.p))):
            S.raises('AttributeError', lambda: S.getitem(c, (n, COLON)), 'c[n,:] out of range')
            return
        k = S.int('k')
        if S.ctx.decide(Or(lt(k.p, 0), gt(k.p, nm.p))):
            S.raises('AttributeError', lambda: S.getitem(c, (slice(0, k, None), COLON)), 'c[0:k,:] out of range')

    @obligation('C02', kind + ': other index forms raise AttributeError')
    def _(S):
        c, g, nm, mm = mk(S)
        for nme, f in get_forms(S):
            S.raises('AttributeError', lambda: S.getitem(c, f), 'reading ' + nme)

    @obligation('C02', kind + ': other write forms raise AttributeError and change nothing')
    def _(S):
        c, g, nm, mm = mk(S)
        v = val(S)
        for nme, f in forms(S) + [('c[:,:]', (COLON, COLON)), ('c[0:1,:]', (slice(0, 1, None), COLON))]:
            S.raises('AttributeError', lambda: S.setitem(c, f, v), 'writing ' + nme)
        all_modes(S, c, g, 'rejected write leaves every mode unchanged', lo=0 if kind == 'ScalarCoefs' else 1)


reject_suite('ScalarCoefs')
reject_suite('VectorCoefs')


@obligation('C02', 'ScalarCoefs: slice writes of a wrong length or place are rejected and change nothing')
def _(S):
    c, g, nm, mm = scoefs(S)
    L = S.int('len')
    S.ctx.assume(ge0(L.p))
    a = S.carray('seq', (L.p,))
    m = S.int('m')
    if S.ctx.decide(Or(gt(m.p, mm.p), lt(m.p, -mm.p))):
        S.raises('AttributeError', lambda: S.setitem(c, (COLON, m), a), 'c[:,m]=x with |m|>mmax')
    else:
        am = m.p if S.ctx.decide(ge0(m.p)) else -m.p
        S.ctx.assume(ne(L.p, nm.p - am + 1))
        S.raises('AttributeError', lambda: S.setitem(c, (COLON, m), a), 'c[:,m]=x of a wrong length')
    all_modes(S, c, g, 'rejected slice write leaves every mode unchanged')


@obligation('C02', 'ScalarCoefs: c[n,:] writes of a wrong length or place are rejected and change nothing')
def _(S):
    c, g, nm, mm = scoefs(S)
    L = S.int('len')
    S.ctx.assume(ge0(L.p))
    a = S.carray('seq', (L.p,))
    n = S.int('n')
    if S.ctx.decide(Or(gt(n.p, nm.p), lt(n.p, 0))):
        S.raises('AttributeError', lambda: S.setitem(c, (n, COLON), a), 'c[n,:]=x out of range')
    else:
        nn = n.p if S.ctx.decide(le(n.p, mm.p)) else mm.p
        S.ctx.assume(ne(L.p, 2 * nn + 1))
        S.raises('AttributeError', lambda: S.setitem(c, (n, COLON), a), 'c[n,:]=x of a wrong length')
    all_modes(S, c, g, 'rejected slice write leaves every mode unchanged')


@obligation('C02', 'VectorCoefs: values that are not a pair, slice writes are rejected')
def _(S):
    c, g, nm, mm = vcoefs(S)
    n, m = mode(S, nm, mm, lo=1)
    v = S.cnum('v')
    S.raises('AttributeError', lambda: S.setitem(c, (n, m), (v, v, v)), 'three values')
    S.raises('AttributeError', lambda: S.setitem(c, (n, m), (v,)), 'one value')
    S.raises('AttributeError', lambda: S.setitem(c, (n, m), v), 'not a sequence')
    S.raises('AttributeError', lambda: S.setitem(c, (COLON, m), (v, v)), 'c[:,m]=')
    S.raises('AttributeError', lambda: S.setitem(c, (n, COLON), (v, v)), 'c[n,:]=')
    all_modes(S, c, g, 'rejected write leaves every mode unchanged', lo=1)


@obligation('C02', 'constructors reject impossible sizes')
def _(S):
    nm, mm, L = S.int('nmax'), S.int('mmax'), S.int('len')
    S.ctx.assume(And(ge0(nm.p), ge0(mm.p), ge0(L.p)))
    a, b = S.carray('a', (L.p,)), S.carray('b', (L.p,))
    bad = Or(gt(mm.p, nm.p), ne(L.p, ncoef(nm.p, mm.p)))
    if S.ctx.decide(bad):
        S.raises('ValueError', lambda: S.call('ScalarCoefs', a, nm, mm), 'ScalarCoefs of a wrong size')
        S.raises('ValueError', lambda: S.call('VectorCoefs', a, b, nm, mm), 'VectorCoefs of a wrong size')
    else:
        S.call('ScalarCoefs', a, nm, mm)
        L2 = S.int('len2')
        S.ctx.assume(And(ge0(L2.p), ne(L2.p, L.p)))
        d = S.carray('d', (L2.p,))
        S.raises('ValueError', lambda: S.call('VectorCoefs', a, d, nm, mm), 'components of different length')
        S.raises('ValueError', lambda: S.call('VectorCoefs', d, a, nm, mm), 'components of different length')
        S.call('VectorCoefs', a, b, nm, mm)
        S.ok('admissible sizes are accepted')


# ------------------------------------------------------------------ C03
def any_m(S, mm):
    m = S.int('m')
    S.ctx.assume(And(le(m.p, mm.p), ge(m.p, -mm.p)))
    return m, (m.p if S.ctx.decide(ge0(m.p)) else -m.p)


def as1d(S, v):
    """one-dimensional sequence -> (length, getter)"""
    T, g = S.ip.iter_of(v)
    return T, lambda i: tonum(g(i))[0]


def seq_is(S, v, n, want, label):
    T, g = as1d(S, v)
    S.expect(eq(T, n), label + ': length')
    if not S.ctx.entails(eq(T, n)):
        return
    S.for_all((n,), lambda b: S.expect_eq(g(b[0]), want(b[0]), label))


@obligation('C03', 'c[:,m] lists c[n,m] for n=|m|..nmax')
def _(S):
    c, g, nm, mm = scoefs(S)
    m, a = any_m(S, mm)
    seq_is(S, S.getitem(c, (COLON, m)), nm.p - a + 1, lambda i: g(i + a, m.p), 'c[:,m]')


@obligation('C03', 'c[n,:] lists c[n,m] for m=-min(n,mmax)..min(n,mmax)')
def _(S):
    c, g, nm, mm = scoefs(S)
    n = S.int('n')
    S.ctx.assume(And(ge0(n.p), le(n.p, nm.p)))
    r = S.getitem(c, (n, COLON))
    nn = n.p if S.ctx.decide(le(n.p, mm.p)) else mm.p
    seq_is(S, r, 2 * nn + 1, lambda i: g(n.p, i - nn), 'c[n,:]')


@obligation('C03', 'c[:,m]=x stores x there and nothing else')
def _(S):
    c, g, nm, mm = scoefs(S)
    m, a = any_m(S, mm)
    x = S.carray('x', (nm.p - a + 1,))
    gx = reader(S.ctx, x)
    S.setitem(c, (COLON, m), x)
    expect_vec_len(S, c, 'invariant')

    def want(p, q):
        if S.ctx.decide(eq(q, m.p)):
            return gx([p - a])
        return g(p, q)
    all_modes(S, c, want, 'after c[:,m]=x')


@obligation('C03', 'c[n,:]=x stores x there and nothing else')
def _(S):
    c, g, nm, mm = scoefs(S)
    n = S.int('n')
    S.ctx.assume(And(ge0(n.p), le(n.p, nm.p)))
    nn = n.p if S.ctx.decide(le(n.p, mm.p)) else mm.p
    x = S.carray('x', (2 * nn + 1,))
    gx = reader(S.ctx, x)
    S.setitem(c, (n, COLON), x)
    expect_vec_len(S, c, 'invariant')

    def want(p, q):
        if S.ctx.decide(eq(p, n.p)):
            return gx([q + nn])
        return g(p, q)
    all_modes(S, c, want, 'after c[n,:]=x')


def trunc_ob(kind):
    mk = scoefs if kind == 'ScalarCoefs' else vcoefs
    lo = 0 if kind == 'ScalarCoefs' else 1

    @obligation('C03 C20', kind + ': c[0:k,:] is an independent truncated copy')
    def _(S):
        c, g, nm, mm = mk(S)
        k = S.int('k')
        S.ctx.assume(And(ge0(k.p), le(k.p, nm.p)))
        d = S.getitem(c, (slice(0, k, None), COLON))
        if not S.isinst(d, kind):
            return S.fail('truncation returns a %s' % kind)
        mk_ = k.p if S.ctx.decide(le(k.p, mm.p)) else mm.p
        expect_size(S, d, k, Num(mk_, 'int'), 'truncated size')
        expect_vec_len(S, d, 'invariant')
        all_modes(S, d, g, 'truncated modes', lo=lo)
        parts = [(c, d)] if lo == 0 else [(S.attr(c, 'scoef1'), S.attr(d, 'scoef1')), (S.attr(c, 'scoef2'), S.attr(d, 'scoef2')),
                                          (S.attr(c, 'scoef1'), S.attr(d, 'scoef2')), (S.attr(d, 'scoef1'), S.attr(d, 'scoef2'))]
        for a, b in parts:
            S.expect(B(vec_of(S, a).sid != vec_of(S, b).sid), 'no shared storage')
        all_modes(S, c, g, 'original unchanged', lo=lo)


trunc_ob('ScalarCoefs')
trunc_ob('VectorCoefs')


@obligation('C03', 'vector slices are the slices of the components')
def _(S):
    c, g, nm, mm = vcoefs(S)
    m, a = any_m(S, mm)
    S.ctx.assume(ge(nm.p, 1))
    r = S.getitem(c, (COLON, m))

    def g0(n, q, j):
        # degree zero is the zero entry
        if S.ctx.decide(eq(n, 0)):
            return ZERO
        return g(n, q)[j]
    for j in (0, 1):
        seq_is(S, r[j], nm.p - a + 1, lambda i, j=j: g0(i + a, m.p, j), 'c[:,m] component %d' % (j + 1))


@obligation('C03', 'vector slices of a degree are the slices of the components')
def _(S):
    c, g, nm, mm = vcoefs(S)
    n = S.int('n')
    S.ctx.assume(And(ge(n.p, 1), le(n.p, nm.p)))
    r = S.getitem(c, (n, COLON))
    nn = n.p if S.ctx.decide(le(n.p, mm.p)) else mm.p
    for j in (0, 1):
        seq_is(S, r[j], 2 * nn + 1, lambda i, j=j: g(n.p, i - nn)[j], 'c[n,:] component %d' % (j + 1))


# ------------------------------------------------------------------ C04, C05
OPSYM = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}


def pairop(op, a, b):
    if isinstance(a, tuple):
        return tuple(OPSYM[op](x, y) for x, y in zip(a, b))
    return OPSYM[op](a, b)


def monopole_free(S, c, label):
    for n in ('scoef1', 'scoef2'):
        S.expect_eq(S.getitem(S.attr(c, n), (0, 0)), ZERO, label + ': n=0 entry of %s is zero' % n)


def number_ob(kind, op, side, vk, mk, lo):
    @obligation('C04' if lo == 0 else 'C04 C05', '%s: %s with a %s number on the %s' % (kind, op, vk, side))
    def _(S):
        a, ga, nm, mm = mk(S, 'a')
        v = S.cnum('s') if vk == 'complex' else Num(var('fs~%d' % S.ctx.newid(), 'r'), 'float') if vk == 'float' else S.int('is')
        if op == '/' and side == 'right':
            S.ctx.assume(Not(eq0(v.p)))
        r = S.ip.binop(op, a, v) if side == 'right' else S.ip.binop(op, v, a)
        if not S.isinst(r, kind):
            return S.fail('result is a %s' % kind)
        expect_size(S, r, nm, mm, 'result size')
        expect_vec_len(S, r, 'invariant')

        def want(n, m):
            x = ga(n, m)
            y = (v.p, v.p) if lo else v.p
            return pairop(op, x, y) if side == 'right' else pairop(op, y, x)
        all_modes(S, r, want, 'a %s s' % op, lo=lo)
        if lo:
            monopole_free(S, r, 'result')
        all_modes(S, a, ga, 'operand unchanged', lo=lo)


def arith_ob(kind, op):
    mk = scoefs if kind == 'ScalarCoefs' else vcoefs
    lo = 0 if kind == 'ScalarCoefs' else 1

    @obligation('C04' if lo == 0 else 'C04 C05', '%s: set %s set is mode-wise' % (kind, op))
    def _(S):
        a, ga, nm, mm = mk(S, 'a')
        b, gb, nm2, mm2 = mk(S, 'b')
        if S.ctx.decide(And(eq(nm.p, nm2.p), eq(mm.p, mm2.p))):
            r = S.ip.binop(op, a, b)
            if not S.isinst(r, kind):
                return S.fail('result is a %s' % kind)
            expect_size(S, r, nm, mm, 'result size')
            expect_vec_len(S, r, 'invariant')
            all_modes(S, r, lambda n, m: pairop(op, ga(n, m), gb(n, m)), 'a %s b' % op, lo=lo)
            if lo:
                monopole_free(S, r, 'result')
            all_modes(S, a, ga, 'left operand unchanged', lo=lo)
            all_modes(S, b, gb, 'right operand unchanged', lo=lo)
        else:
            S.raises('ValueError', lambda: S.ip.binop(op, a, b), 'different sizes')
            all_modes(S, a, ga, 'left operand unchanged', lo=lo)

    for side in ('left', 'right'):
        for vk in ('complex', 'float', 'int'):
            number_ob(kind, op, side, vk, mk, lo)

    @obligation('C04', '%s: %s with another type raises TypeError' % (kind, op))
    def _(S):
        a, ga, nm, mm = mk(S, 'a')
        b = (vcoefs if lo == 0 else scoefs)(S, 'b', nm, mm)[0]
        others = [b, 'x', None, (1, 2), S.ip.new_list((1, 2)), S.carray('z', (ncoef(nm.p, mm.p),))]
        for o in others:
            S.raises('TypeError', lambda: S.ip.binop(op, a, o), 'set %s %s' % (op, type(o).__name__))
            if not isinstance(o, (Obj, Arr)):
                S.raises('TypeError', lambda: S.ip.binop(op, o, a), '%s %s set' % (type(o).__name__, op))
        all_modes(S, a, ga, 'operand unchanged', lo=lo)
    if op == '/':
        @obligation('C04', '%s: division by the number zero' % kind)
        def _(S):
            a, ga, nm, mm = mk(S, 'a')
            for z in (0, Num(ZERO, 'float'), Num(ZERO, 'complex')):
                S.raises('ZeroDivisionError', lambda: S.ip.binop('/', a, z), 'division by zero')
            all_modes(S, a, ga, 'operand unchanged', lo=lo)


for _k in ('ScalarCoefs', 'VectorCoefs'):
    for _o in '+-*/':
        arith_ob(_k, _o)


@obligation('C05', 'constructor, copy, truncation and assignment keep n=0 zero')
def _(S):
    c, g, nm, mm = vcoefs(S)
    monopole_free(S, c, 'constructor')
    d = S.method(c, 'copy')
    monopole_free(S, d, 'copy')
    k = S.int('k')
    S.ctx.assume(And(ge0(k.p), le(k.p, nm.p)))
    monopole_free(S, S.getitem(c, (slice(0, k, None), COLON)), 'truncation')
    n, m = mode(S, nm, mm, lo=1)
    S.setitem(c, (n, m), (S.cnum('v'), S.cnum('w')))
    monopole_free(S, c, 'assignment')


@obligation('C05', 'n=0 cannot be read or assigned through the set')
def _(S):
    c, g, nm, mm = vcoefs(S)
    m = S.int('m')
    v = (S.cnum('v'), S.cnum('w'))
    S.raises('AttributeError', lambda: S.getitem(c, (0, m)), 'read n=0')
    S.raises('AttributeError', lambda: S.getitem(c, (0, COLON)), 'read n=0 slice')
    S.raises('AttributeError', lambda: S.setitem(c, (0, m), v), 'assign n=0')
    S.raises('AttributeError', lambda: S.setitem(c, (0, COLON), v), 'assign n=0 slice')
    monopole_free(S, c, 'rejected assignment')
    all_modes(S, c, g, 'unchanged', lo=1)


# ------------------------------------------------------------------ C06
@obligation('C06 C13', 'ScalarCoefs.window multiplies every mode once by the factor of its degree')
def _(S):
    c, g, nm, mm = scoefs(S)
    w = S.carray('w', (nm.p + 1,))
    gw = reader(S.ctx, w)
    S.method(c, 'window', w)
    expect_size(S, c, nm, mm, 'size')
    expect_vec_len(S, c, 'invariant')
    all_modes(S, c, lambda n, m: g(n, m) * gw([n]), 'windowed')
    now = reader(S.ctx, w)
    S.for_all((nm.p + 1,), lambda b: S.expect_eq(now(b), gw(b), 'window unchanged'))


# ------------------------------------------------------------------ C23
@obligation('C23', '2-D representation')
def _(S):
    c, g, nm, mm = scoefs(S)
    a = S.method(c, '_array_2d_repr')
    check_2d(S, a, g, nm, mm, '2-D')


def check_2d(S, a, g, nm, mm, label):
    if not isinstance(a, Arr) or len(a.shape) != 2:
        return S.fail(label + ' is a matrix')
    S.expect(And(eq(a.shape[0], nm.p + 1), eq(a.shape[1], 2 * mm.p + 1)), label + ' shape')
    ga = reader(S.ctx, a)

    def chk(b):
        n, m = b[0], b[1] - mm.p
        inside = S.ctx.decide(And(le(m, n), ge(m, -n)))
        S.expect_eq(ga(b), g(n, m) if inside else ZERO, label + ' entry')
    S.for_all((nm.p + 1, 2 * mm.p + 1), chk)


@obligation('C23', 'per-order list')
def _(S):
    c, g, nm, mm = scoefs(S)
    check_orders(S, S.method(c, '_reshape_n_vecs'), g, nm, mm, 'per-order list')


def check_orders(S, l, g, nm, mm, label):
    T, get = S.ip.iter_of(l)
    S.expect(eq(T, 2 * mm.p + 1), label + ' length')

    def chk(b):
        k = b[0]
        if S.ctx.decide(eq(k, 0)):
            m = ZERO
        else:
            h = floordiv(k + 1, P(2))
            m = -h if S.ctx.decide(eq(modp(k, 2), 1)) else h
        a = m if S.ctx.decide(ge0(m)) else -m
        seq_is(S, get(k), nm.p - a + 1, lambda i: g(i + a, m), label + ' entry')
    S.for_all((2 * mm.p + 1,), chk)


@obligation('C23', 'per-degree list')
def _(S):
    c, g, nm, mm = scoefs(S)
    check_degrees(S, S.method(c, '_reshape_m_vecs'), g, nm, mm, 'per-degree list')


def check_degrees(S, l, g, nm, mm, label):
    T, get = S.ip.iter_of(l)
    S.expect(eq(T, nm.p + 1), label + ' length')

    def chk(b):
        n = b[0]
        nn = n if S.ctx.decide(le(n, mm.p)) else mm.p
        seq_is(S, get(n), 2 * nn + 1, lambda i: g(n, i - nn), label + ' entry')
    S.for_all((nm.p + 1,), chk)


for _n, _chk in (('_array_2d_repr', check_2d), ('_reshape_n_vecs', check_orders), ('_reshape_m_vecs', check_degrees)):
    @obligation('C23', 'vector sets: ' + _n)
    def _(S, _n=_n, _chk=_chk):
        c, g, nm, mm = vcoefs(S)
        r = S.method(c, _n)

        def comp(j):
            def f(n, m):
                if S.ctx.decide(eq(n, 0)):
                    return ZERO
                return g(n, m)[j]
            return f
        for j in (0, 1):
            _chk(S, r[j], comp(j), nm, mm, _n + ' component %d' % (j + 1))
