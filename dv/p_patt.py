"""Contracts: patterns (C08, C09) and the pattern part of C07."""
from spec import *


def grid_sizes(S, even=True):
    R, h = S.int('R'), S.int('h')
    S.ctx.assume(ge(R.p, 2))
    S.ctx.assume(ge(h.p, 1))
    return R, h, Num(2 * h.p, 'int')


def sgrid(S, name='grid', sz=None):
    R, h, C = sz or grid_sizes(S)
    a = S.carray(name, (R.p, C.p))
    return a, reader(S.ctx, a), R, h, C


def partner(ctx, D, C, h, i, j):
    """indices of the double-sphere partner of (i, j)"""
    pi = ZERO if ctx.decide(eq(i, 0)) else D - i
    pj = j + h if ctx.decide(lt(j, h)) else j - h
    return pi, pj


def doubled_is_symmetric(S, arr, R, h, C, sym, label):
    D = 2 * R.p - 2
    S.expect(And(eq(arr.shape[0], D), eq(arr.shape[1], C.p)), label + ': doubled shape')
    g = reader(S.ctx, arr)

    def chk(b):
        pi, pj = partner(S.ctx, D, C.p, h.p, b[0], b[1])
        S.expect_eq(g([pi, pj]), sym * g(b), label + ': D[partner] = %sD' % ('' if sym == 1 else '-'))
    S.for_all((D, C.p), chk)


def keeps_grid(S, arr, gin, R, h, C, sym, label):
    g = reader(S.ctx, arr)
    ctx = S.ctx

    def chk(b):
        i, j = b
        pole = ctx.decide(Or(eq(i, 0), eq(i, R.p - 1)))
        if not pole:
            S.expect_eq(g([i, j]), gin([i, j]), label + ': grid row kept')
            return
        pj = j + h.p if ctx.decide(lt(j, h.p)) else j - h.p
        t, s = gin([i, j]), sym * gin([i, pj])

        def iszero(z):
            return S.ip.truth(S.ip.compare('Eq', Num(z, 'complex'), 0))
        if iszero(s):
            want = t
        elif iszero(t):
            want = s
        else:
            want = (s + t) / 2
        S.expect_eq(g([i, j]), want, label + ': pole entry')
    S.for_all((R.p, C.p), chk)


def same_cells(S, x, y, shape, label):
    """the entries of x and y agree on shape (cell by cell when they are views of one storage)"""
    gx, gy = reader(S.ctx, x), reader(S.ctx, y)

    def chk(b):
        if x.sid == y.sid and all(S.ctx.norm(p - q).is_zero() for p, q in zip(x.smap(b), y.smap(b))):
            return S.ok(label)
        S.expect_eq(gx(b), gy(b), label)
    S.for_all(shape, chk)


@obligation('C08', 'ScalarPatternUniform: shape and doubled array', cost=20)
def _(S):
    a, g, R, h, C = sgrid(S)
    p = S.call('ScalarPatternUniform', a)
    S.expect_eq(S.attr(p, 'nrows'), R.p, 'nrows')
    S.expect_eq(S.attr(p, 'ncols'), C.p, 'ncols')
    sh = S.attr(p, 'shape')
    S.expect_eq(sh[0], R.p, 'shape[0]')
    S.expect_eq(sh[1], C.p, 'shape[1]')
    d = S.attr(p, 'doublesphere')
    S.expect(And(eq(d.shape[0], 2 * R.p - 2), eq(d.shape[1], C.p)), 'doubled shape')
    for n in ('array', 'cdata'):
        x = S.attr(p, n)
        S.expect(And(eq(x.shape[0], R.p), eq(x.shape[1], C.p)), n + ' shape')
        same_cells(S, x, d, (R.p, C.p), n + ' is the first rows of the doubled array')


@obligation('C08', 'ScalarPatternUniform: the doubled array is symmetric', cost=20)
def _(S):
    a, g, R, h, C = sgrid(S)
    p = S.call('ScalarPatternUniform', a)
    doubled_is_symmetric(S, S.attr(p, 'doublesphere'), R, h, C, 1, 'scalar pattern')


@obligation('C08', 'ScalarPatternUniform: the grid is kept', cost=20)
def _(S):
    a, g, R, h, C = sgrid(S)
    p = S.call('ScalarPatternUniform', a)
    keeps_grid(S, S.attr(p, 'cdata'), g, R, h, C, 1, 'scalar pattern')


def transverse(S):
    sz = grid_sizes(S)
    a, ga, R, h, C = sgrid(S, 'tgrid', sz)
    b, gb = sgrid(S, 'pgrid', sz)[:2]
    return S.call('TransversePatternUniform', a, b), ga, gb, R, h, C


@obligation('C08', 'TransversePatternUniform: shape and views', cost=20)
def _(S):
    p, ga, gb, R, h, C = transverse(S)
    S.expect_eq(S.attr(p, 'nrows'), R.p, 'nrows')
    S.expect_eq(S.attr(p, 'ncols'), C.p, 'ncols')
    sh = S.attr(p, 'shape')
    S.expect_eq(sh[0], R.p, 'shape[0]')
    S.expect_eq(sh[1], C.p, 'shape[1]')
    d = S.attr(p, 'doublesphere')
    ar = S.attr(p, 'array')
    for k, (v, dn) in enumerate((('theta', 'theta_double'), ('phi', 'phi_double'))):
        x, y = S.attr(p, v), S.attr(p, dn)
        S.expect(And(eq(x.shape[0], R.p), eq(x.shape[1], C.p)), v + ' shape')
        S.expect(And(eq(d[k].shape[0], 2 * R.p - 2), eq(d[k].shape[1], C.p)), dn + ' shape')
        for z in (y, d[k], ar[k]):
            same_cells(S, x, z, (R.p, C.p), v + ' is the first rows of the doubled array')


for _c in (0, 1):
    @obligation('C08', 'TransversePatternUniform: %s component symmetric' % ('theta', 'phi')[_c], cost=20)
    def _(S, _c=_c):
        p, ga, gb, R, h, C = transverse(S)
        doubled_is_symmetric(S, S.attr(p, 'doublesphere')[_c], R, h, C, -1, 'transverse pattern')

    @obligation('C08', 'TransversePatternUniform: %s grid is kept' % ('theta', 'phi')[_c], cost=20)
    def _(S, _c=_c):
        p, ga, gb, R, h, C = transverse(S)
        keeps_grid(S, S.attr(p, ('theta', 'phi')[_c]), (ga, gb)[_c], R, h, C, -1, 'transverse pattern')


@obligation('C08', 'TransversePatternUniform: components of different shapes are rejected')
def _(S):
    a = S.carray('a', (S.int('r1').p, S.int('c1').p))
    b = S.carray('b', (S.int('r2').p, S.int('c2').p))
    for x in (a, b):
        for n in x.shape:
            S.ctx.assume(ge(n, 2))
    S.ctx.assume(Or(ne(a.shape[0], b.shape[0]), ne(a.shape[1], b.shape[1])))
    S.raises('ValueError', lambda: S.call('TransversePatternUniform', a, b), 'different shapes')


# ------------------------------------------------------------------ C09
def raw_patt(S, kind, name, sz):
    """pattern with arbitrary doubled array(s); -> (object, readers)"""
    R, h, C = sz
    D = 2 * R.p - 2
    n = 1 if kind == 'ScalarPatternUniform' else 2
    arrs = [S.carray(name + str(k), (D, C.p)) for k in range(n)]
    rs = [reader(S.ctx, a) for a in arrs]
    return S.call(kind, *arrs, doublesphere=True), rs


def sym_patt(S, kind, name, sz):
    """pattern with arbitrary symmetric doubled array(s)"""
    R, h, C = sz
    D = 2 * R.p - 2
    n = 1 if kind == 'ScalarPatternUniform' else 2
    sym = 1 if n == 1 else -1
    arrs = []
    for k in range(n):
        b = AppBase(name + str(k), True)

        def get(idx, b=b):
            pi, pj = partner(S.ctx, D, C.p, h.p, idx[0], idx[1])
            return b.get(S.ctx, idx) + sym * b.get(S.ctx, [pi, pj])
        arrs.append(fnarr(S.ctx, (D, C.p), 'c', get))
    rs = [reader(S.ctx, a) for a in arrs]
    return S.call(kind, *arrs, doublesphere=True), rs


def arrays_of(S, p):
    d = S.attr(p, 'doublesphere')
    return list(d) if isinstance(d, tuple) else [d]


def num(S, kind, name='x'):
    if kind == 'complex':
        return S.cnum(name)
    n = S.ctx.newid()
    if kind == 'float':
        return Num(var('%s~%d' % (name, n), 'r'), 'float')
    return S.int(name)


def opf(op, a, b):
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()


def nonzero(S, z):
    """assume that the complex term z is not zero"""
    re, im = re_im(z)
    S.ctx.assume(Or(ne(re, 0), ne(im, 0)))


def pointwise(S, r, kind, sz, want, label):
    if not S.isinst(r, kind):
        return S.fail(label + ': result type')
    R, h, C = sz
    for k, a in enumerate(arrays_of(S, r)):
        S.expect(And(eq(a.shape[0], 2 * R.p - 2), eq(a.shape[1], C.p)), label + ': shape')
        g = reader(S.ctx, a)
        S.for_all((2 * R.p - 2, C.p), lambda b: S.expect_eq(g(b), want(k, b), label + ': component %d' % k))


def unchanged(S, p, rs, sz, label):
    R, h, C = sz
    for a, r in zip(arrays_of(S, p), rs):
        g = reader(S.ctx, a)
        S.for_all((2 * R.p - 2, C.p), lambda b: S.expect_eq(g(b), r(b), label))


def patt_ob(kind, op):
    @obligation('C09', '%s: pattern %s pattern is point-wise' % (kind, op))
    def _(S):
        sz = grid_sizes(S)
        p, ra = raw_patt(S, kind, 'a', sz)
        q, rb = raw_patt(S, kind, 'b', sz)
        r = S.ip.binop(op, p, q)

        def want(k, b):
            y = rb[k](b)
            if op == '/':
                nonzero(S, y)
            return opf(op, ra[k](b), y)
        pointwise(S, r, kind, sz, want, 'pattern %s pattern' % op)
        unchanged(S, p, ra, sz, 'left operand unchanged')
        unchanged(S, q, rb, sz, 'right operand unchanged')
        disjoint(S, r, [p, q], 'pattern %s pattern' % op)

    @obligation('C09', '%s: %s of patterns of different shapes raises ValueError' % (kind, op))
    def _(S):
        s1, s2 = grid_sizes(S), grid_sizes(S)
        p, ra = raw_patt(S, kind, 'a', s1)
        q, rb = raw_patt(S, kind, 'b', s2)
        S.ctx.assume(Or(ne(s1[0].p, s2[0].p), ne(s1[2].p, s2[2].p)))
        S.raises('ValueError', lambda: S.ip.binop(op, p, q), 'different shapes')
        unchanged(S, p, ra, s1, 'left operand unchanged')
        unchanged(S, q, rb, s2, 'right operand unchanged')

    for side in ('left', 'right'):
        for vk in ('complex', 'float', 'int'):
            @obligation('C09', '%s: %s with a %s number on the %s' % (kind, op, vk, side))
            def _(S, side=side, vk=vk):
                sz = grid_sizes(S)
                p, ra = raw_patt(S, kind, 'a', sz)
                x = num(S, vk)
                if side == 'right' and op == '/':
                    nonzero(S, x.p)
                r = S.ip.binop(op, p, x) if side == 'right' else S.ip.binop(op, x, p)

                def want(k, b):
                    v = ra[k](b)
                    if side == 'left':
                        if op == '/':
                            nonzero(S, v)
                        return opf(op, x.p, v)
                    return opf(op, v, x.p)
                pointwise(S, r, kind, sz, want, '%s number' % op)
                unchanged(S, p, ra, sz, 'operand unchanged')
                disjoint(S, r, [p], 'number')

    @obligation('C09', '%s: %s with another type raises TypeError' % (kind, op))
    def _(S):
        sz = grid_sizes(S)
        p, ra = raw_patt(S, kind, 'a', sz)
        other = raw_patt(S, 'TransversePatternUniform' if kind[0] == 'S' else 'ScalarPatternUniform', 'o', sz)[0]
        cs = scoefs(S, 'cc')[0]
        others = [other, cs, 'x', None, (1, 2), S.ip.new_list((1, 2)), S.carray('z', (2 * sz[0].p - 2, sz[2].p))]
        for o in others:
            S.raises('TypeError', lambda: S.ip.binop(op, p, o), 'pattern %s %s' % (op, type(o).__name__))
            if not isinstance(o, (Obj, Arr)):
                S.raises('TypeError', lambda: S.ip.binop(op, o, p), '%s %s pattern' % (type(o).__name__, op))
        unchanged(S, p, ra, sz, 'operand unchanged')
    if op == '/':
        @obligation('C09', '%s: division by the number zero' % kind)
        def _(S):
            sz = grid_sizes(S)
            p, ra = raw_patt(S, kind, 'a', sz)
            for z in (0, Num(ZERO, 'float'), Num(ZERO, 'complex')):
                S.raises('ZeroDivisionError', lambda: S.ip.binop('/', p, z), 'division by zero')
            unchanged(S, p, ra, sz, 'operand unchanged')
    # symmetry is preserved
    if op in '+-' or kind[0] == 'S':
        @obligation('C09', '%s: %s of symmetric patterns is symmetric' % (kind, op))
        def _(S):
            sz = grid_sizes(S)
            p, ra = sym_patt(S, kind, 'a', sz)
            q, rb = sym_patt(S, kind, 'b', sz)
            r = S.ip.binop(op, p, q)
            sym_result(S, r, kind, sz, op, [q] if op == '/' else [])
    if op in '*/':
        @obligation('C09', '%s: symmetric pattern %s number is symmetric' % (kind, op))
        def _(S):
            sz = grid_sizes(S)
            p, ra = sym_patt(S, kind, 'a', sz)
            x = S.cnum('x')
            nonzero(S, x.p)
            sym_result(S, S.ip.binop(op, p, x), kind, sz, op, [])
            if op == '*':
                sym_result(S, S.ip.binop(op, x, p), kind, sz, op, [])


def sym_result(S, r, kind, sz, op, divisors):
    R, h, C = sz
    D = 2 * R.p - 2
    sym = 1 if kind[0] == 'S' else -1
    dv = [reader(S.ctx, a) for q in divisors for a in arrays_of(S, q)]
    for a in arrays_of(S, r):
        g = reader(S.ctx, a)

        def chk(b):
            for z in dv:
                nonzero(S, z(b))
            pi, pj = partner(S.ctx, D, C.p, h.p, b[0], b[1])
            S.expect_eq(g([pi, pj]), sym * g(b), 'D[partner] = %sD' % ('' if sym == 1 else '-'))
        S.for_all((D, C.p), chk)


def storages(S, o):
    """ids of the storages an object refers to"""
    out = set()
    if isinstance(o, (Arr, ListV)):
        out.add(o.sid)
    elif isinstance(o, tuple):
        for x in o:
            out |= storages(S, x)
    elif isinstance(o, Obj):
        for v in S.ctx.heap[o.oid].values():
            out |= storages(S, v)
    return out


def disjoint(S, r, others, label):
    sr = storages(S, r)
    for o in others:
        if sr & storages(S, o):
            return S.fail(label + ': result shares storage with an operand')
    S.ok(label + ': result has storage of its own')


for _k in ('ScalarPatternUniform', 'TransversePatternUniform'):
    for _o in '+-*/':
        patt_ob(_k, _o)
