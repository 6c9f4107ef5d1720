"""Memory model and contracts for the C routines (translated by cfront).

A pointer is (block, offset, element type).  Every load and store generates the obligation that it lies inside its
block and that the block is live; a value read must not be indeterminate.  malloc/kiss_fft_alloc are assumed to
succeed.  A two-dimensional buffer is a block of shape (rows, columns) in row-major order.
"""
import ast
import cfront
from pyinterp import *
import npmodel as NP
import terms as T_
import prove as PR
import contracts as CO
from contracts import need, even, pmod2, elem, Y, s_ok, s_value, column, ncoef, sizes_ok, quad_ok

ET = {'cpx': 'c', 'double': 'f', 'int': 'i'}
SIZE = {'cpx': 16, 'double': 8, 'int': 4}
KIND = {'cpx': 'complex', 'double': 'float', 'int': 'int'}


class PtrV(object):
    __slots__ = ('arr', 'off', 'et')

    def __init__(self, arr, off, et):
        self.arr, self.off, self.et = arr, P(off), et

    def subst(self, mp):
        return PtrV(self.arr, subst(self.off, mp), self.et)


class MemV(object):
    """result of malloc, not yet typed"""

    def __init__(self, nbytes, zero=False):
        self.nbytes, self.zero = nbytes, zero


class CfgV(object):
    """kiss_fft configuration"""

    def __init__(self, cid, n, inverse):
        self.cid, self.n, self.inverse = cid, n, inverse


class StateV(object):
    """FFT state seen from kiss_fft.c"""

    def __init__(self, cid):
        self.cid = cid


class UndefV(object):
    def __init__(self, et):
        self.et = et


def uninit(idx, et):
    if et == 'cpx':
        return app('re.uninit', list(idx)) + I * app('im.uninit', list(idx))
    return app('uninit', list(idx), 'i' if et == 'int' else 'r')


def tainted(v):
    return loops.any_app(v, lambda n: n.endswith('uninit'))


class CMem(object):
    def __init__(self, ip):
        self.ip, self.ctx = ip, ip.ctx
        ip.cmem = self
        self.ctx.heap['mem'] = frozenset()      # live allocations
        self.ctx.heap['dead'] = frozenset()     # released ones

    # ------------------------------------------------------------ blocks
    def block(self, name, shape, et, base=None):
        a = new_arr(self.ctx, shape, ET[et], base or AppBase(name, et == 'cpx'))
        return PtrV(a, ZERO, et)

    def where(self):
        st = self.ip.fn_stack
        return st[-1].name if st else '?'

    def must(self, c, what):
        """obligation, then assumed"""
        if isinstance(c, bool):
            c = B(c)
        if not self.ctx.prove(c, 'memory: %s in %s' % (what, self.where())):
            self.ctx.assume(c)

    def ptr(self, p, what='pointer'):
        if not isinstance(p, PtrV):
            self.must(FALSE, 'access through a valid pointer')
            raise Unsupported('access through %r' % (p,))
        if p.arr.sid in self.ctx.heap['dead']:
            self.must(FALSE, 'access to a live block')
        return p

    def cell(self, p, i):
        """index list of the cell at p[i]; proves it is inside the block"""
        ctx = self.ctx
        p = self.ptr(p)
        o = ctx.norm(p.off + P(tonum(i)[0]))
        sh = [ctx.norm(x) for x in p.arr.shape]
        if len(sh) == 1:
            self.must(And(ge0(o), lt(o, sh[0])), 'access inside its block')
            return [o]
        C = sh[1]
        q, r = polydiv(o, C)
        for dq, dr in ((0, ZERO), (-1, C), (1, -C)):
            a, b = ctx.norm(q + dq), ctx.norm(r + dr)
            if ctx.entails(And(ge0(b), lt(b, C))):
                self.must(And(ge0(a), lt(a, sh[0])), 'access inside its block')
                return [a, b]
        # the column is not a known one: decide
        for dq, dr in ((0, ZERO), (-1, C), (1, -C)):
            a, b = ctx.norm(q + dq), ctx.norm(r + dr)
            if ctx.decide(And(ge0(b), lt(b, C))):
                self.must(And(ge0(a), lt(a, sh[0])), 'access inside its block')
                return [a, b]
        self.must(FALSE, 'access inside its block')
        raise Unsupported('offset %r in a block of %r' % (o, sh))

    def region(self, p, n, what):
        """n consecutive cells from p of a 1-d block"""
        p = self.ptr(p)
        if len(p.arr.shape) != 1:
            raise Unsupported(what + ' of a 2-d block')
        self.must(And(ge0(p.off), le(p.off + n, p.arr.shape[0])), what + ' inside its block')
        return p

    def raw(self, p, i):
        idx = self.cell(p, i)
        return idx, read(self.ctx, p.arr, idx)

    def load(self, p, i, part=None):
        idx, v = self.raw(p, i)
        if part == 'r':
            v = real_part(self.ctx, v)
        elif part == 'i':
            v = imag_part(self.ctx, v)
        if tainted(v):
            self.must(FALSE, 'no use of an indeterminate value')
        if part:
            return Num(v, 'float')
        return mknum(v, KIND[p.et])

    def put(self, p, idx, v):
        ctx = self.ctx
        rec = ctx.heap[p.arr.sid]
        ctx.heap[p.arr.sid] = rec.push(Write(Region((), (), idx), lambda b, v=v: v))

    def store(self, p, i, v, part=None):
        ctx = self.ctx
        if part:
            idx, old = self.raw(p, i)
            v = self.num(v)
            v = v + I * imag_part(ctx, old) if part == 'r' else real_part(ctx, old) + I * v
        else:
            idx = self.cell(p, i)
            v = self.num(v)
        self.put(p, idx, v)

    def num(self, v):
        if isinstance(v, UndefV):
            self.must(FALSE, 'no use of an indeterminate value')
            raise Unsupported('indeterminate value')
        p = tonum(v)[0]
        if tainted(p):
            self.must(FALSE, 'no use of an indeterminate value')
        return p

    def span(self, p, n, fn, what):
        """p[0..n) = fn(j)"""
        ctx = self.ctx
        p = self.ptr(p)
        if len(p.arr.shape) == 1:
            self.must(And(ge0(p.off), le(p.off + n, p.arr.shape[0])), what + ' inside its block')
            b = bvs(ctx, (n,))
            ctx.heap[p.arr.sid] = ctx.heap[p.arr.sid].push(
                Write(Region([(b[0], ctx.norm(n))], [], [p.off + b[0]]), lambda bb: fn(bb[0])))
            return
        R, C = p.arr.shape
        if not (ctx.norm(p.off).is_zero() and ctx.entails(eq(n, R * C))):
            raise Unsupported(what + ' of a part of a 2-d block')
        write_view(ctx, p.arr, lambda b: fn(C * b[0] + b[1]))

    def rows(self, p, n, fn, what):
        """p[0..n) = fn(j), also one row of a 2-d block"""
        ctx = self.ctx
        if len(p.arr.shape) == 2 and ctx.entails(eq(n, p.arr.shape[1])):
            q, r = T_.polydiv(ctx.norm(p.off), ctx.norm(p.arr.shape[1]))
            if r.is_zero():
                self.must(And(ge0(q), lt(q, p.arr.shape[0])), what + ' inside its block')
                b = bvs(ctx, (n,))
                ctx.heap[p.arr.sid] = ctx.heap[p.arr.sid].push(Write(Region([(b[0], ctx.norm(n))], [], [q, b[0]]), lambda bb: fn(bb[0])))
                return
        self.span(p, n, fn, what)

    # ------------------------------------------------------------ builtins
    def count(self, nbytes, et):
        n = tonum(nbytes)[0].scale(Fraction(1, SIZE[et]))
        if not n.intcoefs():
            raise Unsupported('size %r of a %s buffer' % (nbytes, et))
        return self.ctx.norm(n)

    def typed(self, m, et):
        if isinstance(m, MemV):
            n = self.count(m.nbytes, et)
            self.must(ge0(n), 'allocation of a non-negative size')
            p = self.block('uninit', (n,), et, ConstBase(ZERO) if m.zero else UninitBase(et))
            self.ctx.heap['mem'] = self.ctx.heap['mem'] | {p.arr.sid}
            return p
        if isinstance(m, (PtrV, int)):
            if isinstance(m, PtrV) and m.et != et:
                raise Unsupported('cast between element types')
            return m
        raise Unsupported('cast of %r' % (m,))

    def free(self, p):
        ctx = self.ctx
        if p == 0 and isinstance(p, int):
            return None
        if isinstance(p, CfgV):
            k = ('cfg', p.cid)
        elif isinstance(p, PtrV):
            self.must(eq(p.off, 0), 'free of the start of a block')
            k = p.arr.sid
        else:
            raise Unsupported('free of %r' % (p,))
        self.must(B(k in ctx.heap['mem']), 'free of a block that was allocated and not yet freed')
        ctx.heap['mem'] = ctx.heap['mem'] - {k}
        ctx.heap['dead'] = ctx.heap['dead'] | {k}
        return None

    def fft_alloc(self, n, inv, mem, lenmem):
        if not (mem == 0 and lenmem == 0):
            raise Unsupported('kiss_fft_alloc into a given buffer')
        if not isinstance(inv, int):
            raise Unsupported('direction of a transform')
        n = tonum(n)[0]
        self.must(ge(n, 1), 'transform length positive')
        c = CfgV(self.ctx.newid(), n, inv != 0)
        self.ctx.heap['mem'] = self.ctx.heap['mem'] | {('cfg', c.cid)}
        return c

    def fft(self, cfg, src, dst):
        ctx = self.ctx
        if not isinstance(cfg, CfgV):
            raise Unsupported('kiss_fft configuration')
        self.must(B(('cfg', cfg.cid) not in ctx.heap['dead']), 'transform with a live configuration')
        n = cfg.n
        src = self.region(src, n, 'transform input')
        dst = self.region(dst, n, 'transform output')
        self.must(B(src.arr.sid != dst.arr.sid) if src.arr.sid != dst.arr.sid else eq(src.off, dst.off), 'transform in place or between separate blocks')
        if src.et != 'cpx' or dst.et != 'cpx':
            raise Unsupported('transform of real numbers')
        g = reader(ctx, src.arr)
        so = src.off

        def rd(idx):
            v = g([so + idx[0]])
            if tainted(v):
                raise PyExc('Indeterminate', 'transform of indeterminate values')
            return v
        x = fnarr(ctx, (n,), 'c', rd)
        y = NP.ifft1(ctx, x) if cfg.inverse else fft_nd(ctx, x, 'fft')
        gy = reader(ctx, y)
        self.span(dst, n, (lambda j: n * gy([j])) if cfg.inverse else (lambda j: gy([j])), 'transform output')
        return None

    def memset(self, p, v, nbytes):
        p = self.ptr(p)
        if not (isinstance(v, int) and v == 0):
            raise Unsupported('memset to a value other than 0')
        n = self.count(nbytes, p.et)
        self.must(ge0(n), 'memset of a non-negative size')
        self.span(p, n, lambda j: ZERO, 'memset')
        return p

    def memcpy(self, d, s, nbytes):
        d, s = self.ptr(d), self.ptr(s)
        if d.et != s.et:
            raise Unsupported('memcpy between types')
        n = self.count(nbytes, d.et)
        s = self.region(s, n, 'memcpy source')
        if d.arr.sid == s.arr.sid:
            raise Unsupported('memcpy inside one block')
        g = reader(self.ctx, s.arr)
        self.span(d, n, lambda j: g([s.off + j]), 'memcpy target')
        return d

    def padd(self, p, n):
        if not isinstance(p, PtrV):
            raise Unsupported('pointer arithmetic on %r' % (p,))
        return PtrV(p.arr, self.ctx.norm(p.off + tonum(n)[0]), p.et)

    # ------------------------------------------------------------ FFT state
    def state(self, **fields):
        s = StateV(self.ctx.newid())
        self.ctx.heap[('st', s.cid)] = dict(fields)
        return s

    def fieldof(self, s):
        if isinstance(s, MemV):
            raise Unsupported('untyped FFT state')
        if not isinstance(s, StateV):
            self.must(FALSE, 'access through a valid pointer')
            raise Unsupported('field of %r' % (s,))
        if ('cfg', s.cid) in self.ctx.heap['dead']:
            self.must(FALSE, 'access to a live block')
        return self.ctx.heap[('st', s.cid)]

    def field(self, s, n):
        v = self.fieldof(s).get(n)
        if v is None:
            self.must(FALSE, 'no use of an indeterminate value')
            raise Unsupported('indeterminate field')
        return v

    def setfield(self, s, n, v):
        d = dict(self.fieldof(s))
        d[n] = mknum(self.num(v), 'int')
        self.ctx.heap[('st', s.cid)] = d

    def tocfg(self, v):
        if isinstance(v, MemV):
            off, size = self.layout
            n = self.ctx.norm((tonum(v.nbytes)[0] - off['twiddles']).scale(Fraction(1, SIZE['cpx'])))
            if not n.intcoefs() or v.zero:
                raise Unsupported('size %r of an FFT state' % (v.nbytes,))
            self.must(ge0(n), 'allocation of a non-negative size')
            k = (off['twiddles'] - off['factors']) // SIZE['int']
            s = self.state(nfft=None, inverse=None, factors=self.block('uninit', (P(k),), 'int', UninitBase('int')),
                           twiddles=self.block('uninit', (n,), 'cpx', UninitBase('cpx')))
            self.ctx.heap['mem'] = self.ctx.heap['mem'] | {('cfg', s.cid)}
            return s
        return v

    def local(self, k, et):
        return self.block('uninit', (P(k),), et, UninitBase(et))

    def atleast1(self, k):
        self.must(ge(tonum(k)[0], 1), 'do loop is entered with a positive count')
        return k

    def trips(self, p, e, s, least=1):
        """iterations of do ... while ((p += s) != e)"""
        ctx = self.ctx
        p, e = self.ptr(p), self.ptr(e)
        self.must(B(p.arr.sid == e.arr.sid), 'comparison of pointers into the same block')
        d, s = ctx.norm(e.off - p.off), ctx.norm(tonum(s)[0])
        n, r = T_.polydiv(d, s)
        if not r.is_zero():
            raise Unsupported('trip count %r / %r' % (d, s))
        self.must(ge(n, least), 'the loop reaches its end pointer')
        return mknum(n, 'int')

    def wrap(self, x, n):
        """x - n if x >= n else x"""
        ctx = self.ctx
        x, n = ctx.norm(tonum(x)[0]), ctx.norm(tonum(n)[0])
        if ctx.entails(And(ge0(x), lt(x, 2 * n))):
            return mknum(ctx.norm(x - n * floordiv(x, n)), 'int')
        return mknum(app('wrap', [x, n], 'i'), 'int')

    def cdiv(self, a, b):
        ctx = self.ctx
        p, q = ctx.norm(tonum(a)[0]), ctx.norm(tonum(b)[0])
        k = q.as_int()
        if k is None and ctx.entails(And(ge(q, 1), ge0(p))):
            return mknum(ctx.norm(floordiv(p, q)), 'int')
        if k is None or k <= 0:
            raise Unsupported('integer division by %r' % (q,))
        x = p.scale(Fraction(1, k))
        if x.intcoefs():
            return mknum(x, 'int')
        if ctx.decide(ge0(p)):
            return mknum(floordiv(p, q), 'int')
        return mknum(-floordiv(-p, q), 'int')

    def cmod(self, a, b):
        d = tonum(self.cdiv(a, b))[0]
        return mknum(self.ctx.norm(tonum(a)[0] - d * tonum(b)[0]), 'int')

    def pow(self, a, e):
        ctx = self.ctx
        b = tonum(a)[0].as_int()
        p = ctx.norm(tonum(e)[0])
        if b == -1 and p.is_intsort() and p.intcoefs():
            for x in list(p.atoms()):           # (-1)**(c*(x/2)) with the parity of x known
                at = atom(x)
                if at.kind == 'fd' and at.args[1] == P(2):
                    lr = coeff_of_atom(p, x)
                    if lr is None or lr[0].const() is None:
                        continue
                    par = pmod2(ctx, at.args[0])
                    bit = ONE if ctx.decide(eq(par, 1)) else ZERO
                    v = resolve_ip(ctx, ip(lr[0] * (at.args[0] - bit) + 2 * lr[1]))
                    return Num(v, 'float')
            return Num(resolve_ip(ctx, ip(2 * p)), 'float')
        if b is not None and b == 2 and p.as_int() is not None:
            return Num(P(Fraction(2) ** p.as_int()), 'float')
        k = p.as_int()
        if k is not None and 0 <= k <= 4:
            r = ONE
            for _ in range(k):
                r = r * tonum(a)[0]
            return Num(r, 'float')
        raise Unsupported('pow(%r, %r)' % (a, e))

    def toint(self, v):
        p, k = tonum(v)
        if k in ('int', 'npint', 'bool'):
            return v
        return mknum(trunc(self.ctx, p), 'int')

    def todouble(self, v):
        return Num(self.num(v), 'float')

    def integral(self, v):
        """a floating value compared with an int: must be an integer here"""
        p = self.ctx.norm(self.num(v))
        if not (p.is_intsort() and p.intcoefs()):
            raise Unsupported('loop bound %r' % (p,))
        return mknum(p, 'int')

    def after(self, a, b, s):
        n = NP.range_len(self.ctx, RangeV(tonum(a)[0], tonum(b)[0], s))
        return mknum(self.ctx.norm(tonum(a)[0] + n * s), 'int')

    def ptreq(self, a, b):
        def null(x):
            return isinstance(x, int) and x == 0
        if null(a) or null(b):
            return null(a) and null(b)         # allocations succeed (assumption)
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.arr.sid != b.arr.sid:
                return False
            return SymBool(eq(a.off, b.off))
        raise Unsupported('pointer comparison')

    def part(self, v, im):
        if isinstance(v, UndefV):
            self.num(v)
        p = tonum(v)[0]
        p = imag_part(self.ctx, p) if im else real_part(self.ctx, p)
        if tainted(p):
            self.must(FALSE, 'no use of an indeterminate value')
        return Num(p, 'float')

    def setpart(self, v, x, im):
        p = uninit([ZERO], 'cpx') if isinstance(v, UndefV) else tonum(v)[0]
        x = self.num(x)
        p = real_part(self.ctx, p) + I * x if im else x + I * imag_part(self.ctx, p)
        return Num(p, 'complex')

    def floor_(self, v, up=False):
        p = self.ctx.norm(self.num(v))
        if p.is_intsort() and p.intcoefs():
            return Num(p, 'float')
        return Num(-NP.floor(self.ctx, -p) if up else NP.floor(self.ctx, p), 'float')

    def env(self):
        ip_, np = self.ip, self.ip.np.d
        d = {}

        def reg(n, f):
            d[n] = Builtin(n, lambda a, k: f(*a))

        def bad(msg):
            raise Unsupported(msg)
        reg('__ld', self.load)
        reg('__ldr', lambda p, i: self.load(p, i, 'r'))
        reg('__ldi', lambda p, i: self.load(p, i, 'i'))
        reg('__st', self.store)
        reg('__str', lambda p, i, v: self.store(p, i, v, 'r'))
        reg('__sti', lambda p, i, v: self.store(p, i, v, 'i'))
        reg('__getr', lambda v: self.part(v, False))
        reg('__geti', lambda v: self.part(v, True))
        reg('__setr', lambda v, x: self.setpart(v, x, False))
        reg('__seti', lambda v, x: self.setpart(v, x, True))
        reg('__padd', self.padd)
        reg('__cast', self.typed)
        reg('__field', self.field)
        reg('__setfield', self.setfield)
        reg('__tocfg', self.tocfg)
        reg('__local', self.local)
        reg('__atleast1', self.atleast1)
        reg('__trips', self.trips)
        reg('__trips0', lambda p, e, s: self.trips(p, e, s, 0))
        reg('__wrap', self.wrap)
        reg('__mkc', lambda r, i: Num(self.num(r) + I * self.num(i), 'complex'))
        reg('__undef', lambda et: Num(uninit([ZERO], 'cpx'), 'complex') if et == 'cpx' else UndefV(et))
        reg('__cdiv', self.cdiv)
        reg('__cmod', self.cmod)
        reg('__toint', self.toint)
        reg('__todouble', self.todouble)
        reg('__integral', self.integral)
        reg('__after', self.after)
        reg('__ptreq', self.ptreq)
        reg('__nonnull', lambda p: not (isinstance(p, int) and p == 0))
        reg('__unsupported', bad)
        d['__pi'] = np['pi']
        reg('malloc', lambda n: MemV(n))
        reg('calloc', lambda n, m: MemV(Num(tonum(n)[0] * tonum(m)[0], 'int'), True))
        reg('free', self.free)
        reg('memset', self.memset)
        reg('memcpy', self.memcpy)
        reg('kiss_fft_alloc', self.fft_alloc)
        reg('kiss_fft', self.fft)
        reg('abs', lambda v: ip_.b_abs(v, False))
        reg('labs', lambda v: ip_.b_abs(v, False))
        reg('fabs', lambda v: ip_.b_abs(v, False))
        reg('pow', self.pow)
        reg('floor', self.floor_)
        reg('ceil', lambda v: self.floor_(v, True))
        for f in ('sqrt', 'cos', 'sin', 'exp'):
            d[f] = np[f]
        return d


class UninitBase(object):
    def __init__(self, et):
        self.et = et

    def get(self, ctx, idx):
        return uninit(idx, self.et)

    def subst(self, mp):
        return self


_trees = {}


def load(ip, path, mod='csphi_c'):
    """translate the C file and make its functions callable as module mod"""
    if path not in _trees:
        _trees[path] = cfront.translate(path)
    m = CMem(ip)
    tree, tr = _trees[path]
    m.layout = tr.layout() if tr.state else None
    env = Env(None, m.env())
    env['__name__'] = mod
    ip.mods[mod] = ModV(mod, env)
    ip.cur_mod = mod
    ip.exec_block(tree.body, env)
    return m


# ------------------------------------------------------------------ contracts of the C functions
def N_(ctx, v):
    return ctx.norm(tonum(v)[0])


def distinct(m, *ps):
    ids = [p.arr.sid for p in ps]
    need(m.ctx, B(len(set(ids)) == len(ids)), 'separate buffers')


def scratch(m, p, n):
    """contents indeterminate after the call"""
    m.span(p, n, lambda j: uninit([j], p.et), 'work space')


def havocked(v):
    """content of a generic loop iteration in a pass that only determines the written cells (checked again in the
    pass that knows the content)"""
    return loops.mentions(v, 'hv')


def k_ynnm(ip, a):
    n, k = a
    ctx = ip.ctx
    n, k = N_(ctx, n), N_(ctx, k)
    need(ctx, ge0(n), 'ynnm: n >= 0')
    return Num(app('ynnm', [n, k]), 'float')


def k_ynunm(ip, a):
    n, m, y, L = a
    ctx, M = ip.ctx, ip.cmem
    n, m, L = [N_(ctx, x) for x in (n, m, L)]
    need(ctx, ge0(n), 'ynunm: n >= 0')
    need(ctx, gt(L, n), 'ynunm: length greater than n')
    M.span(M.ptr(y), L, lambda j: Y(ctx, n, m, j), 'ynunm: output')


def k_findq(ip, a):
    ctx = ip.ctx
    s = N_(ctx, a[0])
    need(ctx, ge(s, 1), 'FindQ: S >= 1')
    r = app('findq', [s], 'i')
    ctx.assume(ge(r, s))
    return Num(r, 'int')


def k_sdata(ip, a):
    s, Q, R, N = a
    ctx, M = ip.ctx, ip.cmem
    Q, R, N = [N_(ctx, x) for x in (Q, R, N)]
    s_ok(ctx, R, N, Q)
    M.span(M.ptr(s), Q, lambda j: s_value(ctx, R, N, Q, j), 'SData: output')


def kernel_ok(ctx, M, ss, R, N, Q):
    """ss = DFT of the s data of these sizes"""
    M.region(ss, Q, 'kernel')
    g = reader(ctx, ss.arr)
    w = reader(ctx, fft_nd(ctx, fnarr(ctx, (Q,), 'c', lambda idx: s_value(ctx, R, N, Q, idx[0])), 'fft'))
    ok = PR.all_index(ctx, (Q,), lambda b: PR.equal(ctx, g([ss.off + b[0]]), w(b)))
    ctx.record('precondition: hkm_fc: ss is the transform of the s data of these sizes', ok, 'ss')


def cfgs(ctx, fw, bw, Q):
    ok = isinstance(fw, CfgV) and isinstance(bw, CfgV) and not fw.inverse and bw.inverse
    need(ctx, B(ok), 'hkm_fc: a forward and a backward configuration')
    if ok:
        need(ctx, And(eq(fw.n, Q), eq(bw.n, Q)), 'hkm_fc: configurations of length Q')


def grid(ctx, M, f, R, C, name):
    f = M.ptr(f)
    sh = f.arr.shape
    need(ctx, B(len(sh) == 2), name + ': Fourier data')
    need(ctx, And(eq(f.off, 0), eq(sh[0], R), eq(sh[1], C)), name + ': sizes of the Fourier data')
    return f


def hkm_pre(ip, f, R, C, n, m, hkm, L, ss, Q, ff, fw, bw):
    ctx, M = ip.ctx, ip.cmem
    grid(ctx, M, f, R, C, 'hkm_fc')
    s_ok(ctx, R, n, Q)
    need(ctx, And(lt(m, C), ge(m, -C)), 'hkm_fc: m is a column')
    need(ctx, And(ge0(L), le(L, n + 1)), 'hkm_fc: output length at most n + 1')
    kernel_ok(ctx, M, M.ptr(ss), R, n, Q)
    cfgs(ctx, fw, bw, Q)
    distinct(M, M.ptr(f), M.ptr(hkm), M.ptr(ss), M.ptr(ff))


def k_hkm(ip, a):
    f, R, C, n, m, hkm, L, ss, Q, ff, Q2, fw, bw = a
    ctx, M = ip.ctx, ip.cmem
    R, C, n, m, L, Q = [N_(ctx, x) for x in (R, C, n, m, L, Q)]
    hkm_pre(ip, f, R, C, n, m, hkm, L, ss, Q, ff, fw, bw)
    h = elem(ctx, 'hkm', column(ctx, f.arr, m), [n])
    scratch(M, ff, Q)
    M.span(hkm, L, lambda j: h([j]), 'hkm_fc: output')


def k_bnm(ip, a):
    f, R, C, N, m, vec, L, ss, Q, ff, Q2, hkm, Lh, y, Ly, fw, bw = a
    ctx, M = ip.ctx, ip.cmem
    R, C, N, m, Q, Lh, Ly = [N_(ctx, x) for x in (R, C, N, m, Q, Lh, Ly)]
    am = ip.abs_p(m, 'int')
    need(ctx, le(am, N), 'bnm_fc: |m| <= Nmax')
    need(ctx, eq(Lh, N + 1), 'bnm_fc: length of hkm')
    need(ctx, gt(Ly, N), 'bnm_fc: length of y')
    hkm_pre(ip, f, R, C, N, m, hkm, Lh, ss, Q, ff, fw, bw)
    distinct(M, f, hkm, ss, ff, M.ptr(y), M.ptr(vec))
    g = elem(ctx, 'bnm', column(ctx, f.arr, m), [N, m])
    scratch(M, ff, Q)
    scratch(M, hkm, Lh)
    scratch(M, y, Ly)
    M.span(vec, ctx.norm(N - am + 1), lambda j: g([j]), 'bnm_fc: output')


def k_fcvec(ip, a):
    vec, m, N, f, R, C, col, y, L = a
    ctx, M = ip.ctx, ip.cmem
    m, N, R, C, col, L = [N_(ctx, x) for x in (m, N, R, C, col, L)]
    am = ip.abs_p(m, 'int')
    need(ctx, le(am, N), 'fcvec_m_sc: |m| <= nmax')
    need(ctx, And(ge(R, 2), ge(R, 2 * N)), 'fcvec_m_sc: nrows >= 2, nrows >= 2 nmax')
    even(ctx, R, 'fcvec_m_sc: even nrows')
    need(ctx, gt(L, N), 'fcvec_m_sc: length of y')
    f = grid(ctx, M, f, R, C, 'fcvec_m_sc')
    need(ctx, And(ge0(col), lt(col, C)), 'fcvec_m_sc: column')
    vec = M.region(vec, ctx.norm(N - am + 1), 'fcvec_m_sc: coefficients')
    distinct(M, f, vec, M.ptr(y))
    g = reader(ctx, f.arr)
    ctx.record('precondition: fcvec_m_sc: the column is zero', PR.all_index(ctx, (R,), lambda b: havocked(g([b[0], col])) or PR.equal(ctx, g([b[0], col]), ZERO)), 'column')
    gv = reader(ctx, vec.arr)
    o = vec.off
    v = fnarr(ctx, (ctx.norm(N - am + 1),), 'c', lambda idx: gv([o + idx[0]]))
    w = elem(ctx, 'fcvec', v, [m, N, R])
    scratch(M, y, L)
    b = bvs(ctx, (R,))
    ctx.heap[f.arr.sid] = ctx.heap[f.arr.sid].push(Write(Region([(b[0], R)], [], [b[0], col]), lambda bb: w([bb[0]])))


TABLE = {'csphi_c.ynnm': k_ynnm, 'csphi_c.ynunm': k_ynunm, 'csphi_c.FindQ': k_findq, 'csphi_c.SData': k_sdata,
         'csphi_c.hkm_fc': k_hkm, 'csphi_c.bnm_fc': k_bnm, 'csphi_c.fcvec_m_sc': k_fcvec}


# ------------------------------------------------------------------ contracts of kiss_fft.c
def wname(ctx, M, st):
    """direction of a state: name of its root of unity"""
    inv = M.field(st, 'inverse')
    return 'W+' if ctx.decide(ne(N_(ctx, inv), 0)) else 'W-'


def tables(ip, st, fs, n, who):
    """twiddle table of the state: W(i) for i < N with N = fs * n"""
    ctx, M = ip.ctx, ip.cmem
    if not isinstance(st, StateV):
        need(ctx, FALSE, who + ': a transform state')
        raise Unsupported('state %r' % (st,))
    N = N_(ctx, M.field(st, 'nfft'))
    need(ctx, And(ge(fs, 1), ge(n, 1)), who + ': stride and length positive')
    need(ctx, eq(N, fs * n), who + ': stride * length is the transform length')
    w = wname(ctx, M, st)
    tw = M.field(st, 'twiddles')
    need(ctx, And(eq(tw.off, 0), ge(tw.arr.shape[0], N)), who + ': size of the twiddle table')
    g = reader(ctx, tw.arr)
    ok = PR.all_index(ctx, (N,), lambda b: PR.equal(ctx, g([b[0]]), T_.W(b[0], N, w)))
    ctx.record('precondition: %s: twiddle factors' % who, ok, 'tw')
    return N, lambda e: T_.W(ctx.norm(e), N, w)


def bfly(ip, a, who, p=None):
    ctx, M = ip.ctx, ip.cmem
    F, fs, st, m = a[:4]
    fs, m = N_(ctx, fs), N_(ctx, m)
    p = P(p) if p is not None else N_(ctx, a[4])
    need(ctx, And(ge(p, 1), ge(m, 1)), who + ': radix and length positive')
    N, w = tables(ip, st, fs, p * m, who)
    F = grid(ctx, M, F, p, m, who)
    g = reader(ctx, F.arr)
    write_view(ctx, F.arr, lambda b: bfly_spec(ctx, g, w, fs, p, m, b[0], b[1]))


def push_sums(p):
    """products of sums and numbers as sums of products (at most one sum per product)"""
    r = ZERO
    for mo, c in p.t.items():
        sm = [(x, e) for x, e in mo if atom(x).kind == 'sum']
        if len(sm) != 1 or sm[0][1] != 1:
            r = r + Poly({mo: c})
            continue
        b, hi, conds, body = atom(sm[0][0]).args
        rest = Poly({tuple(x for x in mo if x != sm[0]): c})
        nb = P(T_.mk_atom('var', 'ps%d' % next(T_._cnt), (), 'i'))
        bd = push_sums(rest * subst(body, {b.as_atom().id: nb}))
        cs = tuple(c_.subst({b.as_atom().id: nb}) for c_ in conds)
        r = r + push_mk(nb, hi, cs, bd)
    return r


def push_mk(nb, hi, cs, body):
    """sum with every complex unit kept inside"""
    r = ZERO
    for mo, c in body.t.items():
        out = [x for x in mo if nb.as_atom().id not in atom(x[0]).free and atom(x[0]).kind not in ('sum', 'W')]
        inn = Poly({tuple(x for x in mo if x not in out): Fraction(1)})
        r = r + Poly({tuple(out): c}) * T_.mk_sum(nb, ZERO, hi, cs, inn)
    return r


def bfly_spec(ctx, g, w, fs, p, m, v, u):
    """sum over q < p of F[q, u] W(q fs (u + v m))"""
    k = p.as_int()
    if k is not None:
        r = ZERO
        for q in range(k):
            r = r + push_sums(g([P(q), u]) * w(q * fs * (u + v * m)))
        return ctx.norm(r)
    return ctx.norm(sum_over(ctx, p, lambda q: g([q, u]) * w(q * fs * (u + v * m))))


def k_factor(ip, a):
    n, p = a
    ctx, M = ip.ctx, ip.cmem
    n = N_(ctx, n)
    p = M.ptr(p)
    need(ctx, ge(n, 1), 'kf_factor: length at least one')
    M.span(p, P(64), lambda j: app('fac', [n, j], 'i'), 'kf_factor: room for 64 entries')
    M.chains = list(getattr(M, 'chains', ())) + [(p.arr.sid, ctx.heap[p.arr.sid], p.off, n, None)]


def sum_over(ctx, hi, f):
    """sum of f(q) over 0 <= q < hi (f read with q in range), complex units and inner sums kept inside"""
    b, pieces = NP.generic_pieces(ctx, (hi,), lambda idx: f(idx[0]))
    r = ZERO
    for cs, v in pieces:
        if tainted(v):
            raise PyExc('Indeterminate', 'sum of indeterminate values')
        r = r + push_sums(push_mk(b[0], hi, tuple(cs), push_sums(v)))
    return r


def is_chain(M, p, n):
    """the factor list at p belongs to length n: an abstract predicate, chain(F, o, n) = 0 <= o, o + 1 < size and
    F[o] >= 1, F[o+1] >= 1, F[o] F[o+1] = n and (F[o+1] = 1 or chain(F, o + 2, F[o+1]))"""
    ctx = M.ctx
    for sid, rec, off, length, cond in getattr(M, 'chains', ()):
        if sid == p.arr.sid and ctx.heap[sid] is rec and ctx.entails(And(eq(off, p.off), eq(length, n))) and (cond is None or ctx.entails(cond)):
            return True
    return False


def k_work(ip, a):
    F, f, fs, ins, fac, st = a
    ctx, M = ip.ctx, ip.cmem
    fs, ins = N_(ctx, fs), N_(ctx, ins)
    if not isinstance(st, StateV):
        need(ctx, FALSE, 'kf_work: a transform state')
        raise Unsupported('state %r' % (st,))
    N = N_(ctx, M.field(st, 'nfft'))
    n, r = T_.polydiv(N, fs)
    if not r.is_zero():
        need(ctx, FALSE, 'kf_work: the stride divides the transform length')
        raise Unsupported('stride %r of length %r' % (fs, N))
    need(ctx, ge(ins, 1), 'kf_work: positive input stride')
    N, w = tables(ip, st, fs, n, 'kf_work')
    fac = M.ptr(fac)
    need(ctx, B(is_chain(M, fac, n)), 'kf_work: factors of the length')
    F, f = M.ptr(F), M.ptr(f)
    distinct(M, F, f)
    s = ctx.norm(fs * ins)
    M.must(And(ge0(f.off), lt(f.off + (n - 1) * s, f.arr.shape[0])), 'transform input inside its block')
    g = reader(ctx, f.arr)
    M.rows(F, n, lambda j: work_spec(ctx, lambda l: g([f.off + l * s]), w, fs, n, j), 'transform output')


def work_spec(ctx, x, w, fs, n, j):
    """sum over l < n of x[l] W(fs l j)"""
    return ctx.norm(sum_over(ctx, n, lambda l: x(l) * w(fs * l * j)))


for _n, _p in (('2', 2), ('3', 3), ('4', 4), ('5', 5), ('_generic', None)):
    TABLE['kiss_c.kf_bfly' + _n] = lambda ip, a, n=_n, p=_p: bfly(ip, a, 'kf_bfly' + n, p)
TABLE['kiss_c.kf_work'] = k_work
TABLE['kiss_c.kf_factor'] = k_factor
