"""Contracts: frame conditions and independence of results (C20)."""
from spec import *
from p_patt import raw_patt, grid_sizes, unchanged, disjoint, sgrid
from p_norms import vec_readers, absv



def parts_of(S, c):
    return [c] if S.is_scalar(c) else [S.attr(c, 'scoef1'), S.attr(c, 'scoef2')]


KINDS = ('ScalarCoefs', 'VectorCoefs')
PATTS = ('ScalarPatternUniform', 'TransversePatternUniform')


def kept(S, c, gs, nm, mm, label):
    """sizes and every stored entry are as they were"""
    expect_size(S, c, nm, mm, label)
    ps = parts_of(S, c)
    for x, g in zip(ps, gs):
        expect_size(S, x, nm, mm, label)
        a = vec_of(S, x)
        S.expect(eq(a.shape[0], ncoef(nm.p, mm.p)), label + ': length')
        r = reader(S.ctx, a)
        S.for_all(a.shape, lambda b: S.expect_eq(r(b), g(b), label))


def coef_ob(kind):
    n = 1 if kind == 'ScalarCoefs' else 2

    def frame(name, fn):
        @obligation('C20', '%s: %s changes nothing' % (kind, name))
        def _(S):
            c, gs, nm, mm = vec_readers(S, kind)
            fn(S, c)
            kept(S, c, gs, nm, mm, name + ' leaves the set unchanged')

    for f in ('L2_coef', 'LInf_coef'):
        frame(f, lambda S, c, f=f: S.call(f, c))
    if n == 1:
        for f in ('power', 'angular_power_spectrum'):
            frame(f, lambda S, c, f=f: S.method(c, f))

    for f in (('abs', 'mag', 'mag2') if n == 1 else ('mag', 'mag2')):
        @obligation('C20', '%s: %s is a new set' % (kind, f))
        def _(S, f=f):
            c, gs, nm, mm = vec_readers(S, kind)
            r = S.call(f, c)
            kept(S, c, gs, nm, mm, f + ' leaves the set unchanged')
            disjoint(S, r, [c], f)

    @obligation('C20', '%s: copy is equal and independent' % kind)
    def _(S):
        c, gs, nm, mm = vec_readers(S, kind)
        d = S.method(c, 'copy')
        if not S.isinst(d, kind):
            return S.fail('copy: a ' + kind)
        kept(S, d, gs, nm, mm, 'the copy is equal')
        kept(S, c, gs, nm, mm, 'copy leaves the set unchanged')
        disjoint(S, d, [c], 'copy')
        if n == 2:
            a, b = parts_of(S, d)
            disjoint(S, a, [b], 'components of the copy')


for _k in KINDS:
    coef_ob(_k)


@obligation('C20', 'compare_relative changes nothing')
def _(S):
    c, gs, nm, mm = vec_readers(S, 'ScalarCoefs')
    L = (ncoef(nm.p, mm.p),)
    b = S.carray('b', L)
    gb = reader(S.ctx, b)
    d = S.call('ScalarCoefs', b, nm, mm)
    S.ctx.assume(ne(sum_pieces(S.ctx, L, lambda i: absv(S.ctx, gs[0](i))), 0))
    S.call('compare_relative', c, d)
    kept(S, c, gs, nm, mm, 'first set unchanged')
    kept(S, d, [gb], nm, mm, 'second set unchanged')


def patt_ob(kind):
    @obligation('C20', '%s: norms change nothing' % kind)
    def _(S):
        sz = grid_sizes(S)
        p, gs = raw_patt(S, kind, 'p', sz)
        for f in ('L2_patt', 'LInf_patt'):
            S.call(f, p)
        unchanged(S, p, gs, sz, 'norms leave the pattern unchanged')

    for f in (('abs', 'mag', 'mag2') if kind[0] == 'S' else ('mag', 'mag2')):
        @obligation('C20', '%s: %s is a new array' % (kind, f))
        def _(S, f=f):
            sz = grid_sizes(S)
            p, gs = raw_patt(S, kind, 'p', sz)
            r = S.call(f, p)
            unchanged(S, p, gs, sz, f + ' leaves the pattern unchanged')
            disjoint(S, r, [p], f)

    @obligation('C20', '%s: building a pattern keeps the grids' % kind)
    def _(S):
        sz = grid_sizes(S)
        n = 1 if kind[0] == 'S' else 2
        gr = [sgrid(S, 'grid%d' % k, sz)[:2] for k in range(n)]
        p = S.call(kind, *[a for a, _ in gr])
        for a, g in gr:
            S.expect(And(eq(a.shape[0], sz[0].p), eq(a.shape[1], sz[2].p)), 'shape of the grid')
            r = reader(S.ctx, a)
            S.for_all(a.shape, lambda b: S.expect_eq(r(b), g(b), 'the grid is unchanged'))
        disjoint(S, p, [a for a, _ in gr], 'pattern')


for _k in PATTS:
    patt_ob(_k)


@obligation('C20', 'saving a coefficient set changes nothing')
def _(S):
    c, gs, nm, mm = vec_readers(S, 'ScalarCoefs')
    S.call('file.save_coef', c, 'f')
    kept(S, c, gs, nm, mm, 'save_coef leaves the set unchanged')


@obligation('C20', 'saving a pattern changes nothing')
def _(S):
    sz = grid_sizes(S)
    p, gs = raw_patt(S, 'ScalarPatternUniform', 'p', sz)
    S.call('file.save_patt', p, 'f')
    unchanged(S, p, gs, sz, 'save_patt leaves the pattern unchanged')
