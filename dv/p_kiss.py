"""Contracts: the FFT of src/kiss_fft.c (C24 and, through the transform contract, C12-C15)."""
import os
from spec import *
import cmodel as CM
import terms as T_
from p_trans import intp, same_content
from p_c import ccall, released, n_

U = tuple('kiss_c.kf_' + x for x in ('bfly2', 'bfly3', 'bfly4', 'bfly5', 'bfly_generic', 'work'))
PIDS = 'C24 C12 C13 C14 C15'


def start(S):
    S.cm = CM.load(S.ip, os.path.join(S.repo, 'src', 'kiss_fft.c'), 'kiss_c')
    return S.ctx, S.cm


def state(S, N, inverse):
    """a state of length N in one direction"""
    ctx, M = S.ctx, S.cm
    if inverse:
        inv = intp(S, 'inverse')
        ctx.assume(ne(inv.p, 0))
    else:
        inv = 0
    nm = 'W+' if inverse else 'W-'
    w = lambda e: T_.W(ctx.norm(e), N, nm)
    tw = M.block('tw', (N,), 'cpx', FnBase(lambda idx: w(idx[0])))
    return M.state(nfft=n_(N), inverse=inv, twiddles=tw, factors=M.block('factors', (P(64),), 'int')), w


def ccall2(S, name, *a, rec=False):
    try:
        if rec:         # the body once; the calls it makes of itself use the contract
            S.ip.seen.add('kiss_c.' + name)
            return S.ip.call_body(S.ip.mods['kiss_c'].d[name], list(a), {})
        return S.ip.call(S.ip.mods['kiss_c'].d[name], list(a), {})
    except PyExc as e:
        if e.etype == 'Indeterminate':
            S.fail('memory: no use of an indeterminate value')
            raise Infeasible()
        raise


def group(fn, label, pids=PIDS, rec=False, **k):
    return obligation(pids, 'C %s%s' % (fn, label), c=True, inline=() if rec else ('kiss_c.' + fn,), **k)


def bfly_group(fn, p, inverse):
    @group(fn, ', inverse' if inverse else ', forward')
    def _(S, fn=fn, p=p, inverse=inverse):
        ctx, M = start(S)
        fs, m = intp(S, 'fs', 1), intp(S, 'm', 1)
        q = P(p) if p is not None else intp(S, 'p', 1).p
        N = q * fs.p * m.p
        st, w = state(S, N, inverse)
        F = M.block('F', (q, m.p), 'cpx')
        g0 = reader(ctx, F.arr)
        gt = reader(ctx, M.field(st, 'twiddles').arr)
        ccall2(S, fn, F, fs, st, m, *(() if p is not None else (n_(q),)))
        g = reader(ctx, F.arr)
        S.for_all((q, m.p), lambda b: S.expect_eq(g(b), CM.bfly_spec(ctx, g0, w, fs.p, q, m.p, b[0], b[1]), 'butterfly'))
        same_content(S, M.field(st, 'twiddles').arr, gt, 'twiddle factors unchanged')
        released(S)


for _p in (2, 3, 4, 5, None):
    for _i in (False, True):
        bfly_group('kf_bfly_generic' if _p is None else 'kf_bfly%d' % _p, _p, _i)


def work_group(p, inverse):
    @group('kf_work', ', radix %s, %s' % (p if p is not None else 'p', 'inverse' if inverse else 'forward'), rec=True)
    def _(S, p=p, inverse=inverse):
        ctx, M = start(S)
        fs, m, ins = intp(S, 'fs', 1), intp(S, 'm', 1), intp(S, 'in_stride', 1)
        if p is not None:
            q = P(p)
        else:
            q = intp(S, 'p', 1).p
            for k in (2, 3, 4, 5):
                ctx.assume(ne(q, k))
        n = q * m.p
        N = n * fs.p
        st, w = state(S, N, inverse)
        off = intp(S, 'o', 0).p
        size = intp(S, 'size').p
        ctx.assume(lt(off + 1, size))
        fg = reader(ctx, new_arr(ctx, (size,), 'i', AppBase('fac', False)))

        def facs(idx):
            if ctx.decide(eq(idx[0], off)):
                return q
            if ctx.decide(eq(idx[0], off + 1)):
                return m.p
            return fg(idx)
        fac = M.block('factors', (size,), 'int', FnBase(facs))
        # chain(F, o, n), opened once
        M.chains = [(fac.arr.sid, ctx.heap[fac.arr.sid], off + 2, m.p, ne(m.p, 1))]
        s = fs.p * ins.p
        fo, fl = intp(S, 'fo', 0).p, intp(S, 'fl').p
        ctx.assume(lt(fo + (n - 1) * s, fl))
        f = M.block('f', (fl,), 'cpx')
        gf = reader(ctx, f.arr)
        F = M.block('F', (q, m.p), 'cpx', CM.UninitBase('cpx'))
        gt = reader(ctx, M.field(st, 'twiddles').arr)
        ccall2(S, 'kf_work', F, CM.PtrV(f.arr, fo, 'cpx'), fs, ins, CM.PtrV(fac.arr, off, 'int'), st, rec=True)
        g = reader(ctx, F.arr)

        def body(b):
            v, u = b
            if p is not None:
                e = ZERO
                for qq in range(p):
                    e = e + part(ctx, gf, w, fo, s, fs.p, P(qq), q, m.p, u + v * m.p)
            else:
                e = CM.sum_over(ctx, q, lambda x: part(ctx, gf, w, fo, s, fs.p, x, q, m.p, u + v * m.p))
            S.expect_eq(g(b), ctx.norm(e), 'transform of the decimated input')
        S.for_all((q, m.p), body)
        same_content(S, f.arr, gf, 'input unchanged')
        same_content(S, M.field(st, 'twiddles').arr, gt, 'twiddle factors unchanged')
        released(S)


def part(ctx, gf, w, fo, s, fs, qq, p, m, k):
    """sum over j < m of the term l = qq + p j of the transform of length p m at output k"""
    return ctx.norm(CM.sum_over(ctx, m, lambda j: gf([fo + (qq + p * j) * s]) * w(fs * (qq + p * j) * k)))


for _p in (2, 3, 4, 5, None):
    for _i in (False, True):
        work_group(_p, _i)


# kf_factor: integer code with nested while loops, decided by the back end of wp.py
def _factor(repo, limit):
    import wp
    return wp.group_result('C kf_factor, all lengths', wp.factor_chain, repo, limit, ['kiss_c.kf_factor'])


REG.append((tuple(PIDS.split()), 'C kf_factor, all lengths', None, dict(run=_factor, cost=5)))


def alloc_group(inverse):
    @group('kiss_fft_alloc', ', inverse' if inverse else ', forward')
    def _(S, inverse=inverse):
        ctx, M = start(S)
        n = intp(S, 'nfft', 1)
        inv = 0
        if inverse:
            inv = intp(S, 'inverse')
            ctx.assume(ne(inv.p, 0))
        st = ccall2(S, 'kiss_fft_alloc', n, inv, 0, 0)
        S.expect(B(isinstance(st, CM.StateV)), 'returns a state')
        S.expect(eq(CM.N_(ctx, M.field(st, 'nfft')), n.p), 'length of the state')
        d = CM.N_(ctx, M.field(st, 'inverse'))
        S.expect(ne(d, 0) if inverse else eq(d, 0), 'direction of the state')
        tw = M.field(st, 'twiddles')
        S.expect(And(eq(tw.off, 0), ge(tw.arr.shape[0], n.p)), 'room for the twiddle factors')
        g = reader(ctx, tw.arr)

        def body(b):
            v = g(b)
            if CM.tainted(v):
                return S.fail('twiddle factors are set')
            ph = ctx.norm(2 * T_.PI * b[0] * T_.inv(n.p))
            S.expect_eq(v, app('cos', [ph]) + (I if inverse else -I) * app('sin', [ph]), 'twiddle factor: root of unity')
        S.for_all((n.p,), body)
        S.expect(B(CM.is_chain(M, M.field(st, 'factors'), n.p)), 'factors of the length')
        S.expect(B(ctx.heap['mem'] == {('cfg', st.cid)} and not ctx.heap['dead']), 'only the state is allocated')


def stride_group(fn, inverse, place):
    @group(fn, ', %s, %s' % ('inverse' if inverse else 'forward', 'in place' if place else 'separate buffers'))
    def _(S, inverse=inverse, place=place, fn=fn):
        ctx, M = start(S)
        n = intp(S, 'n', 1).p
        st, w = state(S, n, inverse)
        fac = M.field(st, 'factors')
        M.chains = [(fac.arr.sid, ctx.heap[fac.arr.sid], ZERO, n, None)]
        ins = intp(S, 'in_stride', 1) if fn == 'kiss_fft_stride' else 1
        s = ins.p if fn == 'kiss_fft_stride' else P(1)
        fi, fl = intp(S, 'fi', 0).p, intp(S, 'fl').p
        ctx.assume(lt(fi + (n - 1) * s, fl))
        f = M.block('f', (fl,), 'cpx')
        gf = reader(ctx, f.arr)
        fo = fi
        if place:
            ctx.assume(le(fi + n, fl))
            h = f
        else:
            fo, hl = intp(S, 'fo', 0).p, intp(S, 'hl').p
            ctx.assume(le(fo + n, hl))
            h = M.block('h', (hl,), 'cpx', CM.UninitBase('cpx'))
        gh = reader(ctx, h.arr)
        gt = reader(ctx, M.field(st, 'twiddles').arr)
        a = [st, CM.PtrV(f.arr, fi, 'cpx'), CM.PtrV(h.arr, fo, 'cpx')] + ([ins] if fn == 'kiss_fft_stride' else [])
        ccall2(S, fn, *a)
        g = reader(ctx, h.arr)
        S.for_all((n,), lambda b: S.expect_eq(g([fo + b[0]]), CM.work_spec(ctx, lambda l: gf([fi + l * s]), w, P(1), n, b[0]), 'discrete Fourier transform of the input'))

        def rest(b):
            if ctx.decide(And(ge(b[0], fo), lt(b[0], fo + n))):
                return
            S.expect_eq(g(b), gh(b), 'nothing else written')
        S.for_all(h.arr.shape, rest)
        if not place:
            same_content(S, f.arr, gf, 'input unchanged')
        same_content(S, M.field(st, 'twiddles').arr, gt, 'twiddle factors unchanged')
        S.expect(B(CM.is_chain(M, M.field(st, 'factors'), n)), 'factors unchanged')
        released(S)


for _i in (False, True):
    alloc_group(_i)
    for _p in (False, True):
        stride_group('kiss_fft_stride', _i, _p)
        stride_group('kiss_fft', _i, _p)
