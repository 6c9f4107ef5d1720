"""Model of the numpy subset (trusted: the documented numpy semantics over exact reals)."""
from pyvals import *
import pyvals


def zero_of(dt):
    return ZERO


def is_arr(v):
    return isinstance(v, Arr)


def shape_of(ctx, v):
    if isinstance(v, Arr):
        return v.shape
    return ()


def as_operand(ctx, v):
    """-> (shape, getter, kind)"""
    if isinstance(v, Arr):
        dt = dtype(ctx, v)
        if dt == 'O':
            raise Unsupported('object array operand')
        return v.shape, reader(ctx, v), DT2K[dt]
    if isinstance(v, (ListV, tuple)):
        a = np_array(ctx, v)
        return as_operand(ctx, a)
    if isinstance(v, SymBool):
        return (), (lambda idx: P(int(ctx.decide(v.c)))), 'bool'
    p, k = tonum(v)
    return (), (lambda idx: p), k


def bcast_dim(ctx, a, b):
    a, b = ctx.norm(a), ctx.norm(b)
    if a == b:
        return a
    if a.as_int() == 1:
        return b
    if b.as_int() == 1:
        return a
    if ctx.decide(eq(a, b)):
        return a
    if ctx.decide(eq(a, 1)):
        return b
    if ctx.decide(eq(b, 1)):
        return a
    raise PyExc('ValueError', 'operands could not be broadcast')


def broadcast(ctx, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        cur = ONE
        for s in shapes:
            j = d - (n - len(s))
            if j >= 0:
                cur = bcast_dim(ctx, cur, s[j])
        out.append(cur)
    return tuple(out)


def bget(ctx, shape, getter, out):
    """getter adapted to the broadcast shape"""
    k = len(out) - len(shape)
    if not shape:
        return lambda idx: getter([])
    ones = []
    for d, n in enumerate(shape):
        n = ctx.norm(n)
        o = ctx.norm(out[k + d])
        ones.append(n != o and n.as_int() == 1)
    # dims that are symbolic but equal to 1 on this path
    for d, n in enumerate(shape):
        if not ones[d] and ctx.norm(n) != ctx.norm(out[k + d]):
            ones[d] = not ctx.entails(eq(n, out[k + d]))

    def g(idx):
        idx = idx[k:]
        return getter([ZERO if o else i for i, o in zip(idx, ones)])
    return g


def elementwise(ctx, fn, args, kindfn):
    ops = [as_operand(ctx, a) for a in args]
    kinds = [k for _, _, k in ops]
    if all(s == () for s, _, _ in ops):
        return fn([g([]) for _, g, _ in ops]), kindfn(kinds), None
    sh = broadcast(ctx, [s for s, _, _ in ops])
    gs = [bget(ctx, s, g, sh) for s, g, _ in ops]
    kind = kindfn(kinds)
    a = fnarr(ctx, sh, K2DT[kind], lambda idx: fn([g(idx) for g in gs]))
    return None, kind, a


def num_binop_kind(op, ka, kb):
    k = join(ka, kb)
    if k in ('bool', 'int'):
        k = 'npint'
    if op == '/' and k == 'npint':
        k = 'float'
    return k


def _binop(ctx, op, x, y):
    ox, oy = as_operand(ctx, x), as_operand(ctx, y)
    sh = broadcast(ctx, [ox[0], oy[0]])
    gx, gy = bget(ctx, ox[0], ox[1], sh), bget(ctx, oy[0], oy[1], sh)
    kx, ky = ox[2], oy[2]
    k = num_binop_kind(op, kx, ky)
    a = fnarr(ctx, sh, K2DT[k], lambda idx: num_binop(ctx, op, gx(idx), kx, gy(idx), ky)[0])
    return None, k, a


# ------------------------------------------------------------------ constructors
def to_shape(ctx, v):
    if isinstance(v, tuple):
        return tuple(toint(ctx, x) for x in v)
    if isinstance(v, ListV):
        r = ctx.heap[v.sid]
        if not isinstance(r, tuple):
            raise Unsupported('symbolic shape list')
        return tuple(toint(ctx, x) for x in r)
    return (toint(ctx, v),)


def dt_of(v, default='f'):
    if v is None:
        return default
    if isinstance(v, TypeV) and v.dt:
        return v.dt
    if isinstance(v, str):
        return {'complex128': 'c', 'complex': 'c', 'float64': 'f', 'float': 'f', 'int': 'i',
                'double': 'f', 'c16': 'c', 'f8': 'f', 'int64': 'i', 'D': 'c', 'd': 'f', 'bool': 'b', '?': 'b'}[v]
    raise Unsupported('dtype %r' % (v,))


def check_shape(ctx, sh):
    for n in sh:
        if not ctx.decide(ge0(n)):
            raise PyExc('ValueError', 'negative dimensions are not allowed')


def np_full(ctx, shape, value, dt):
    sh = to_shape(ctx, shape)
    check_shape(ctx, sh)
    return new_arr(ctx, sh, dt, ConstBase(value))


def np_array(ctx, v, dt=None):
    if isinstance(v, Arr):
        return np_copy(ctx, v, dt)
    if isinstance(v, (int, Num)):
        p, k = tonum(v)
        return fnarr(ctx, (), dt or K2DT[k], lambda idx: p)
    if isinstance(v, RangeV):
        T = range_len(ctx, v)
        return fnarr(ctx, (T,), dt or 'i', lambda idx: v.a + v.s * idx[0])
    if isinstance(v, ListV) and not isinstance(ctx.heap[v.sid], tuple):
        rec = ctx.heap[v.sid]
        rows = list_rows(ctx, rec)
        if rows is not None:
            sh, d = rows
            return fnarr(ctx, tuple(rec.shape) + sh, dt or d, lambda idx: cast_elem(
                ctx, mknum(reader(ctx, as_row(ctx, read_rec(ctx, rec, idx[:1])))(idx[1:]), DT2K[d]), dt or d))
        d = dt or list_dt(ctx, rec)
        return fnarr(ctx, rec.shape, d, lambda idx: cast_elem(ctx, read_rec(ctx, rec, idx), d))
    items = list(ctx.heap[v.sid]) if isinstance(v, ListV) else list(v)
    if items and all(isinstance(x, (Arr, ListV, tuple)) for x in items):
        arrs = [x if isinstance(x, Arr) else np_array(ctx, x, dt) for x in items]
        sh0 = arrs[0].shape
        for a in arrs[1:]:
            if len(a.shape) != len(sh0):
                raise PyExc('ValueError', 'inhomogeneous')
            for x, y in zip(a.shape, sh0):
                if not ctx.decide(eq(x, y)):
                    raise PyExc('ValueError', 'inhomogeneous')
        d = dt or jdt(ctx, arrs)
        gs = [reader(ctx, a) for a in arrs]

        def get(idx):
            for j, g in enumerate(gs):
                if j == len(gs) - 1 or ctx.decide(eq(idx[0], j)):
                    return g(idx[1:])
        return fnarr(ctx, (P(len(arrs)),) + tuple(sh0), d, get)
    vals = [tonum(x) for x in items]
    k = 'float'
    if vals:
        k = vals[0][1]
        for _, kk in vals[1:]:
            k = join(k, kk)
    d = dt or K2DT[k]

    def get1(idx):
        c = idx[0].as_int()
        if c is not None:
            return vals[c][0]
        for j, (p, _) in enumerate(vals):
            if j == len(vals) - 1 or ctx.decide(eq(idx[0], j)):
                return p
    return fnarr(ctx, (P(len(vals)),), d, get1)


def cast_elem(ctx, v, d):
    p, k = tonum(v)
    if KORD[k] > KORD[DT2K[d]]:
        if k == 'complex' or d == 'i':
            if d == 'f' and is_real(p):
                return p
            raise Unsupported('narrowing cast')
    return p


def as_row(ctx, v):
    v = unsnap(ctx, v)
    return np_array(ctx, v) if isinstance(v, (ListV, tuple)) else v


def list_rows(ctx, rec):
    """(shape, dtype) of the elements when a list of symbolic length holds arrays of one shape"""
    g = ctx.fresh('g')

    def body():
        ctx.assume(ge0(g))
        ctx.assume(lt(g, rec.shape[0]))
        v = read_rec(ctx, rec, [g])
        if not isinstance(v, (Arr, SnapArr, SnapList, ListV, tuple)):
            return None
        v = as_row(ctx, v)
        return tuple(v.shape), dtype(ctx, v)
    outs = [o.value for o in ctx.explore(body, locals_=[g]) if o.kind == 'ret']
    if not outs or all(o is None for o in outs):
        return None
    if not ctx.decide(ge(rec.shape[0], 1)):
        return None
    for o in outs:
        if o is None or len(o[0]) != len(outs[0][0]) or o[1] != outs[0][1] or any(g.as_atom().id in n.free() for n in o[0]) or \
                not all(ctx.norm(x - y).is_zero() for x, y in zip(o[0], outs[0][0])):
            raise Unsupported('list of arrays of different shapes')
    return outs[0]


def list_dt(ctx, rec):
    g = ctx.fresh('g')

    def body():
        ctx.assume(ge0(g))
        ctx.assume(lt(g, rec.shape[0]))
        v = read_rec(ctx, rec, [g])
        return tonum(v)[1]
    outs = ctx.explore(body, locals_=[g])
    ks = {o.value for o in outs if o.kind == 'ret'}
    if not ks:
        return 'f'
    k = None
    for x in ks:
        k = x if k is None else join(k, x)
    return K2DT[k]


def jdt(ctx, arrs):
    k = None
    for a in arrs:
        kk = DT2K[dtype(ctx, a)]
        k = kk if k is None else join(k, kk)
    return K2DT[k]


def np_copy(ctx, a, dt=None):
    g = reader(ctx, a)
    d = dt or dtype(ctx, a)
    if d != 'O' and KORD[DT2K[d]] < KORD[DT2K[dtype(ctx, a)]]:
        return np_astype(ctx, a, d)
    return fnarr(ctx, a.shape, d, g)


def np_astype(ctx, a, d):
    g = reader(ctx, a)
    s = dtype(ctx, a)
    if s == 'c' and d == 'f':
        return fnarr(ctx, a.shape, d, lambda idx: real_part(ctx, g(idx)))
    if d == 'i' and s != 'i':
        return fnarr(ctx, a.shape, d, lambda idx: trunc(ctx, g(idx)))
    return fnarr(ctx, a.shape, d, g)


def trunc(ctx, p):
    p = ctx.norm(p)
    c = p.const()
    if c is not None:
        import math
        return P(math.trunc(c))
    if not p.is_intsort():
        raise Unsupported('int() of a real value %r' % (p,))
    if p.intcoefs():
        return p
    if ctx.decide(ge0(p)):
        return floordiv(p, ONE)
    return -floordiv(-p, ONE)


def floor(ctx, p):
    c = p.const()
    if c is not None:
        import math
        return P(math.floor(c))
    if p.is_intsort():
        return floordiv(p, ONE)
    return app('floor', [p], 'i')


def resolve_ip(ctx, p):
    """replace i**m atoms by explicit values, deciding m mod 4"""
    while True:
        a = next((x for x in p.atoms() if atom(x).kind == 'ip'), None)
        if a is None:
            return p
        m = atom(a).args[0]
        q = floordiv(m, P(4))
        r = m - q * 4
        for k in range(4):
            if k == 3 or ctx.decide(eq(r, k)):
                if k == 3:
                    ctx.assume(eq(r, 3))
                p = subst(p, {a: (ONE, I, -ONE, -I)[k]})
                break
        p = ctx.norm(p)


def real_part(ctx, p):
    return re_im(resolve_ip(ctx, p))[0]


def imag_part(ctx, p):
    return re_im(resolve_ip(ctx, p))[1]


def range_len(ctx, r):
    s = r.s
    if s > 0:
        n = floordiv(r.b - r.a + (s - 1), P(s))
    else:
        n = floordiv(r.a - r.b + (-s - 1), P(-s))
    n = ctx.norm(n)
    if ctx.decide(ge0(n)):
        return n
    return ZERO


# ------------------------------------------------------------------ indexing
class NewAxis(object):
    pass


def norm_index(ctx, i, n):
    i = ctx.norm(i)
    if ctx.decide(ge0(i)):
        if not ctx.decide(lt(i, n)):
            raise PyExc('IndexError', 'index out of bounds')
        return i
    i2 = ctx.norm(i + n)
    if not ctx.decide(ge0(i2)):
        raise PyExc('IndexError', 'index out of bounds')
    return i2


def slice_bounds(ctx, sl, n):
    """-> (start, length, step) with python slice semantics"""
    st = sl.step
    if st is None:
        st = 1
    else:
        st = toint(ctx, st).as_int()
        if st is None:
            raise Unsupported('symbolic slice step')
        if st == 0:
            raise PyExc('ValueError', 'slice step cannot be zero')
    n = ctx.norm(n)

    def clamp(v, lo, hi):
        # lo, hi bounds after negative adjustment
        v = ctx.norm(toint(ctx, v))
        if not ctx.decide(ge0(v)):
            v = ctx.norm(v + n)
            if not ctx.decide(ge(v, lo)):
                return lo
            return v
        if ctx.decide(le(v, hi)):
            return v
        return hi
    if st > 0:
        a = ZERO if sl.start is None else clamp(sl.start, ZERO, n)
        b = n if sl.stop is None else clamp(sl.stop, ZERO, n)
        d = ctx.norm(b - a)
    else:
        a = n - 1 if sl.start is None else clamp(sl.start, P(-1), n - 1)
        b = P(-1) if sl.stop is None else clamp(sl.stop, P(-1), n - 1)
        d = ctx.norm(a - b)
    k = abs(st)
    ln = floordiv(d + (k - 1), P(k))
    if not ctx.decide(ge0(ln)):
        ln = ZERO
    return a, ctx.norm(ln), st


def index_view(ctx, a, key):
    """-> ('cell', storage idx) or ('view', Arr)"""
    if not isinstance(key, tuple):
        key = (key,)
    nd = sum(1 for k in key if k is not None and k is not Ellipsis)
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        fill = (slice(None, None, None),) * (len(a.shape) - nd)
        key = key[:i] + fill + key[i + 1:]
    else:
        if nd > len(a.shape):
            raise PyExc('IndexError', 'too many indices')
        key = key + (slice(None, None, None),) * (len(a.shape) - nd)
    shape = []
    plan = []        # per storage-view dim: ('i', poly) or ('s', start, step, outdim)
    d = 0
    for k in key:
        if k is None:
            shape.append(ONE)
            continue
        n = a.shape[d]
        if isinstance(k, slice):
            st, ln, step = slice_bounds(ctx, k, n)
            plan.append(('s', st, step, len(shape)))
            shape.append(ln)
        elif isinstance(k, (Arr, ListV)):
            raise Unsupported('fancy indexing')
        else:
            plan.append(('i', norm_index(ctx, toint(ctx, k), n)))
        d += 1
    plan = tuple(plan)
    base = a

    def fm(idx):
        out = []
        for p in plan:
            if p[0] == 'i':
                out.append(p[1])
            else:
                out.append(p[1] + idx[p[3]] * p[2])
        return base.smap(out)
    if not shape:
        return 'cell', fm([])
    ident = all(p[0] == 's' and p[1].is_zero() and p[2] == 1 for p in plan) and len(shape) == len(plan) \
        and all(ctx.norm(x) == ctx.norm(y) for x, y in zip(shape, a.shape))
    if ident:
        return 'view', Arr(a.sid, a.shape, a.fmap)
    return 'view', Arr(a.sid, shape, fm)


def masked(ctx, m):
    g = reader(ctx, m)
    return lambda idx: not ctx.decide(eq0(ctx.norm(g(list(idx)))))


def is_mask(ctx, x):
    return isinstance(x, Arr) and dtype(ctx, x) == 'b'


def same_shape(ctx, x, y, what):
    if len(x) != len(y) or not ctx.decide(And(*[eq(p, q) for p, q in zip(x, y)])):
        raise PyExc('IndexError', what)


def mask_set(ctx, a, key, val):
    same_shape(ctx, a.shape, key.shape, 'boolean index did not match')
    on, old = masked(ctx, key), reader(ctx, a)
    if isinstance(val, MaskV):
        if not val.same(key, ctx.heap[key.sid]):
            raise Unsupported('assignment through different masks')
        val = val.arr
        g = reader(ctx, val)
        k = DT2K[dtype(ctx, val)]
    elif isnum(val):
        p, k = tonum(val)
        g = lambda idx: p
    else:
        raise Unsupported('array assigned through a mask')
    d = dtype(ctx, a)
    if KORD[k] > KORD[DT2K[d]]:
        raise Unsupported('narrowing assignment through a mask')
    assign_view(ctx, a, fnarr(ctx, a.shape, d, lambda idx: g(idx) if on(idx) else old(idx)))


def where(ctx, m, x, y):
    shm, g, _ = as_operand(ctx, m)
    ox, oy = as_operand(ctx, x), as_operand(ctx, y)
    sh = broadcast(ctx, [shm, ox[0], oy[0]])
    gm, gx, gy = (bget(ctx, s, f, sh) for s, f in ((shm, g), ox[:2], oy[:2]))
    return fnarr(ctx, sh, K2DT[join(ox[2], oy[2])],
                 lambda idx: gy(idx) if ctx.decide(eqc(ctx, gm(idx), ZERO)) else gx(idx))


def eqc(ctx, a, b):
    d = ctx.norm(a - b)
    if has_ip(d):
        d = resolve_ip(ctx, d)
    return ctx.normc(eq0(d))


def getitem(ctx, a, key):
    if is_mask(ctx, key):
        same_shape(ctx, a.shape, key.shape, 'boolean index did not match')
        return MaskV(np_copy(ctx, a), key, ctx.heap[key.sid])
    if is_fancy(key):
        return fancy_get(ctx, a, key)
    k, v = index_view(ctx, a, key)
    if k == 'cell':
        rec = ctx.heap[a.sid]
        r = read_rec(ctx, rec, v)
        dt = rec.dtype
        return r if dt == 'O' else Num(r, DT2K[dt])
    return v


def is_fancy(key):
    return any(isinstance(k, (Arr, ListV)) for k in (key if isinstance(key, tuple) else (key,)))


def fancy_plan(ctx, a, key):
    """indexing with integer arrays -> (shape, index map); reads are copies, as in numpy"""
    key = list(key) if isinstance(key, tuple) else [key]
    if any(k is None or is_mask(ctx, k) for k in key):
        raise Unsupported('index arrays mixed with masks or new axes')
    full = slice(None, None, None)
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key[i:i + 1] = [full] * (len(a.shape) - len(key) + 1)
    if len(key) > len(a.shape):
        raise PyExc('IndexError', 'too many indices')
    key += [full] * (len(a.shape) - len(key))
    adv, plan = [], []
    for d, k in enumerate(key):
        if isinstance(k, slice):
            plan.append(slice_bounds(ctx, k, a.shape[d]))
        else:
            if not isinstance(k, Arr):
                k = np_array(ctx, k) if isinstance(k, ListV) else fnarr(ctx, (), 'i', lambda idx, p=toint(ctx, k): p)
            if dtype(ctx, k) != 'i':
                raise PyExc('IndexError', 'arrays used as indices must be of integer type') if dtype(ctx, k) in 'fc' else Unsupported('index array')
            in_bounds(ctx, k, a.shape[d])
            adv.append(d)
            plan.append(k)
    sh = broadcast(ctx, [plan[d].shape for d in adv])
    gs = {d: bget(ctx, plan[d].shape, reader(ctx, plan[d]), sh) for d in adv}
    joined = adv == list(range(adv[0], adv[-1] + 1))
    at = adv[0] if joined else 0            # where the broadcast axes go
    basic = [d for d in range(len(plan)) if d not in adv]
    before = [d for d in basic if d < at] if joined else []
    after = [d for d in basic if d not in before]
    shape = [plan[d][1] for d in before] + list(sh) + [plan[d][1] for d in after]

    def imap(idx):
        out = [None] * len(plan)
        for j, d in enumerate(before):
            out[d] = plan[d][0] + idx[j] * plan[d][2]
        part = list(idx[len(before):len(before) + len(sh)])
        for j, d in enumerate(after):
            out[d] = plan[d][0] + idx[len(before) + len(sh) + j] * plan[d][2]
        for d in adv:
            i = ctx.norm(gs[d](part))
            out[d] = i if ctx.decide(ge0(i)) else ctx.norm(i + a.shape[d])
        return out
    return tuple(shape), imap


def in_bounds(ctx, ia, n):
    """every element of the index array is a valid index"""
    g = reader(ctx, ia)
    vs = [ctx.fresh('x') for _ in ia.shape]

    def body():
        for x, m in zip(vs, ia.shape):
            ctx.assume(ge0(x))
            ctx.assume(lt(x, m))
        i = ctx.norm(g(vs))
        return ctx.entails(And(ge0(i + n), lt(i, n)))
    outs = ctx.explore(body, locals_=vs)
    if not all(o.kind == 'ret' and o.value for o in outs):
        raise Unsupported('index array that may be out of bounds')


def fancy_get(ctx, a, key):
    sh, imap = fancy_plan(ctx, a, key)
    ga = reader(ctx, a)
    return fnarr(ctx, sh, dtype(ctx, a), lambda idx: ga(imap(list(idx))))


def fancy_view(ctx, a, key):
    """assignment through index arrays that run evenly along their axis: the strided view"""
    key = list(key) if isinstance(key, tuple) else [key]
    if sum(isinstance(k, (Arr, ListV)) for k in key) != 1 or any(not isinstance(k, (Arr, ListV, slice)) for k in key):
        raise Unsupported('assignment through index arrays')
    d = [j for j, k in enumerate(key) if isinstance(k, (Arr, ListV))][0]
    ia = key[d] if isinstance(key[d], Arr) else np_array(ctx, key[d])
    if dtype(ctx, ia) != 'i' or len(ia.shape) != 1:
        raise Unsupported('assignment through index arrays')
    in_bounds(ctx, ia, a.shape[d])
    g = reader(ctx, ia)
    t = ctx.fresh('t')

    def body():
        ctx.assume(ge0(t))
        ctx.assume(lt(t, ia.shape[0]))
        i = ctx.norm(g([t]))
        if ctx.entails(ge0(i)):
            return i
        if ctx.entails(lt(i, 0)):
            return ctx.norm(i + a.shape[d])
    outs = ctx.explore(body, locals_=[t])
    if len(outs) != 1 or outs[0].kind != 'ret' or outs[0].value is None:
        raise Unsupported('assignment through an irregular index array')
    i0, i1, i2 = (ctx.norm(subst(outs[0].value, {t.as_atom(): P(x)})) for x in (0, 1, 2))
    step = ctx.norm(i1 - i0).as_int()
    if not step or ctx.norm(outs[0].value - i0 - t * step) != ZERO:
        raise Unsupported('assignment through an irregular index array')
    _, v = index_view(ctx, a, tuple(slice(None, None, None) if j == d else k for j, k in enumerate(key)))

    def fm(idx):
        idx = list(idx)
        idx[d] = i0 + idx[d] * step
        return v.smap(idx)
    return Arr(a.sid, [ia.shape[0] if j == d else n for j, n in enumerate(v.shape)], fm)


def setitem(ctx, a, key, val):
    if is_mask(ctx, key):
        return mask_set(ctx, a, key, val)
    if is_fancy(key):
        return assign_view(ctx, fancy_view(ctx, a, key), val)
    k, v = index_view(ctx, a, key)
    rec = ctx.heap[a.sid]
    if k == 'cell':
        if rec.dtype == 'O':
            ctx.heap[a.sid] = rec.push(Write(Region([], [], v), lambda b: val))
            return
        if isinstance(val, Arr):
            if all(n.as_int() == 1 for n in val.shape) and val.shape:
                val = Num(read(ctx, val, [ZERO] * len(val.shape)), DT2K[dtype(ctx, val)])
            elif not val.shape:
                val = Num(read(ctx, val, []), DT2K[dtype(ctx, val)])
            else:
                raise PyExc('ValueError', 'setting an array element with a sequence')
        elif isinstance(val, (ListV, tuple)):
            raise PyExc('ValueError', 'setting an array element with a sequence')
        elif not isnum(val):
            raise PyExc('TypeError', 'cannot convert')
        p = store_cast(ctx, val, rec.dtype)
        ctx.heap[a.sid] = rec.push(Write(Region([], [], v), lambda b: p))
        return
    assign_view(ctx, v, val)


def store_cast(ctx, val, dt):
    p, k = tonum(val)
    if dt == 'c':
        return p
    if k == 'complex':
        raise PyExc('TypeError', 'cannot convert complex to float')
    if dt == 'i' and k == 'float':
        return trunc(ctx, p)
    return p


def assign_view(ctx, v, val):
    sh, g, k = as_operand(ctx, val)
    dt = dtype(ctx, v)
    if k == 'complex' and dt != 'c':
        raise Unsupported('complex values stored in a real array')
    if k == 'float' and dt == 'i':
        raise Unsupported('float values stored in an integer array')
    # shapes: val must broadcast to v.shape
    vs = list(v.shape)
    s2 = list(sh)
    while len(s2) > len(vs) and s2[0].as_int() == 1:
        s2 = s2[1:]
    if len(s2) > len(vs):
        raise PyExc('ValueError', 'could not broadcast input array')
    off = len(vs) - len(s2)
    for j, n in enumerate(s2):
        if ctx.norm(n) == ctx.norm(vs[off + j]) or ctx.norm(n).as_int() == 1:
            continue
        if not ctx.decide(Or(eq(n, vs[off + j]), eq(n, 1))):
            raise PyExc('ValueError', 'could not broadcast input array')
    gg = bget(ctx, tuple(s2), (lambda idx: g([ZERO] * (len(sh) - len(s2)) + list(idx))), tuple(vs))
    write_view(ctx, v, lambda b: gg(list(b)))


def np_concat(ctx, items, axis=0):
    arrs = [x if isinstance(x, Arr) else np_array(ctx, x) for x in items]
    if not arrs:
        raise PyExc('ValueError', 'need at least one array')
    nd = len(arrs[0].shape)
    for a in arrs[1:]:
        if len(a.shape) != nd:
            raise PyExc('ValueError', 'dimension mismatch')
        for d in range(nd):
            if d != axis and not ctx.decide(eq(a.shape[d], arrs[0].shape[d])):
                raise PyExc('ValueError', 'dimension mismatch')
    offs = [ZERO]
    for a in arrs:
        offs.append(ctx.norm(offs[-1] + a.shape[axis]))
    gs = [reader(ctx, a) for a in arrs]

    def get(idx):
        idx = list(idx)
        for j, g in enumerate(gs):
            if j == len(gs) - 1 or ctx.decide(lt(idx[axis], offs[j + 1])):
                i2 = list(idx)
                i2[axis] = idx[axis] - offs[j]
                return g(i2)
    sh = list(arrs[0].shape)
    sh[axis] = offs[-1]
    return fnarr(ctx, sh, jdt(ctx, arrs), get)


def np_transpose(ctx, a):
    if len(a.shape) < 2:
        return Arr(a.sid, a.shape, a.fmap)
    return Arr(a.sid, tuple(reversed(a.shape)), lambda idx: a.smap(list(reversed(idx))))


def np_reshape(ctx, a, shape):
    sh = to_shape(ctx, shape)
    neg = [j for j, n in enumerate(sh) if n.as_int() == -1]
    tot = ONE
    for n in a.shape:
        tot = tot * n
    tot = ctx.norm(tot)
    if neg:
        oth = ONE
        for j, n in enumerate(sh):
            if j != neg[0]:
                oth = oth * n
        q = floordiv(tot, ctx.norm(oth))
        sh = tuple(q if j == neg[0] else n for j, n in enumerate(sh))
    t2 = ONE
    for n in sh:
        t2 = t2 * n
    if not ctx.decide(eq(ctx.norm(t2), tot)):
        raise PyExc('ValueError', 'cannot reshape')
    old = a.shape

    def fm(idx):
        flat = ZERO
        for n, i in zip(sh, idx):
            flat = flat * n + i
        out = []
        for d in range(len(old) - 1, 0, -1):
            q = floordiv(flat, old[d])
            out.append(flat - q * old[d])
            flat = q
        if old:
            out.append(flat)
        return a.smap(list(reversed(out)))
    if len(old) == 1:
        return Arr(a.sid, sh, fm)
    # exact for 1-D targets only when solvable; produce a copy
    rec = ctx.heap[a.sid]
    return fnarr(ctx, sh, dtype(ctx, a), lambda idx: read_rec(ctx, rec, fm(idx)))


def sum_pieces(ctx, shape, getter):
    """sum of getter over all indices (Poly)"""
    b, pieces = generic_pieces(ctx, shape, getter)
    tot = ZERO
    for cs, v in pieces:
        cur = [(tuple(cs), v)]
        val = v
        conds = list(cs)
        # innermost = last index
        tot = tot + nested_sum(ctx, list(zip(b, shape)), conds, val)
    return tot


def nested_sum(ctx, bs, conds, val):
    if not bs:
        if conds and not ctx.decide(And(*conds)):
            return ZERO
        return val
    (b, n) = bs[-1]
    bid = b.as_atom().id
    if len(bs) == 1:
        return mk_sum_ctx(ctx, b, ZERO, n, conds, val)
    here = [c for c in conds if bid in c.free()]
    rest = [c for c in conds if bid not in c.free()]
    oth = {x.as_atom().id for x, _ in bs[:-1]}
    if any(c.free() & oth for c in here):
        inner = mk_sum(b, ZERO, n, tuple(here), val)
    else:
        inner = mk_sum_ctx(ctx, b, ZERO, n, here, val)
    return nested_sum(ctx, bs[:-1], rest, inner)


# ------------------------------------------------------------------ functionals of array contents
_functionals = {}


def local_ids(ctx):
    s = set()
    for f in ctx.frames:
        if f.locals:
            s |= f.locals
    return s


def content_key(ctx, shape, getter):
    """(bvars, pieces, canonical key, params)"""
    b, pieces = generic_pieces(ctx, shape, getter)
    cb = [P(mk_atom('bvar', ('c', j), (), 'i')) for j in range(len(shape))]
    mp = {x.as_atom().id: y for x, y in zip(b, cb)}
    pieces = tuple((tuple(c.subst(mp) for c in cs), subst(v, mp)) for cs, v in pieces)
    return cb, pieces


def functional(ctx, kind, shape, getter, params=()):
    """register a functional (fft, max, ...) of an array content; returns (name, params)"""
    cb, pieces = content_key(ctx, shape, getter)
    shape = tuple(ctx.norm(n) for n in shape)
    import loops
    for cs, v in pieces:
        if loops.any_app((cs, v), lambda n: 'pend' in n):
            raise Unsupported('transform of an array that the surrounding loop is still building')
    fr = set()
    for n in shape:
        fr |= n.free()
    for cs, v in pieces:
        fr |= v.free()
        for c in cs:
            fr |= c.free()
    fr -= {x.as_atom().id for x in cb}
    loc = sorted(fr & local_ids(ctx))
    # canonical parameters
    ps = [P(mk_atom('var', ('p', j), (), 'i')) for j in range(len(loc))]
    mp = {a: q for a, q in zip(loc, ps)}
    shape_c = tuple(subst(n, mp) for n in shape)
    pieces_c = tuple((tuple(c.subst(mp) for c in cs), subst(v, mp)) for cs, v in pieces)
    key = (kind, tuple(n.key() for n in shape_c),
           tuple((tuple(sorted(repr(c.key()) for c in cs)), v.key()) for cs, v in pieces_c))
    nm = _functionals.get(key)
    if nm is None:
        nm = _functionals[key] = '%s.%d' % (kind, len(_functionals))
    ctx.fundefs[nm] = (kind, shape_c, cb, pieces_c, ps)
    return nm, [P(atom(a)) for a in loc]


def extreme(ctx, kind, shape, getter):
    """largest (smallest) element of an array that has elements"""
    nm, params = functional(ctx, kind, shape, getter)
    vs = set(v.const() for cs, v in ctx.fundefs[nm][3])
    if len(vs) == 1 and None not in vs:
        return P(vs.pop())
    return app(nm, params)


def fft_nd(ctx, a, kind):
    g = reader(ctx, a)
    if kind in INVERSE:
        r = undone(ctx, a, g, kind)
        if r is not None:
            return r
    nm, params = functional(ctx, kind, a.shape, g)
    r = fnarr(ctx, a.shape, 'c',
              lambda idx: app('re.' + nm, params + list(idx)) + I * app('im.' + nm, params + list(idx)))
    return r


def functional_elem(ctx, nm, args, n=None):
    """content of functional nm's source: returns (kind, shape, getter) instantiated with params"""
    kind, shape, cb, pieces, ps = ctx.fundefs[nm]
    k = len(ps)
    mp = {p.as_atom().id: v for p, v in zip(ps, args[:k])}
    shape2 = tuple(subst(n_, mp) for n_ in shape)

    def get(idx):
        m2 = dict(mp)
        m2.update({b.as_atom().id: x for b, x in zip(cb, idx)})
        return pick(ctx, pieces, m2)
    return kind, shape2, get, args[k:]


def ratio(p, prod):
    """c with p == c * prod, or None"""
    m = next(iter(prod.t))
    c = None
    for mm, cc in p.t.items():
        rest = dict(mm)
        ok = True
        for a, e in m:
            if rest.get(a, 0) < e:
                ok = False
                break
            rest[a] -= e
        if ok:
            co = Poly({tuple(sorted((a, e) for a, e in rest.items() if e)): cc / prod.t[m]})
            c = co if c is None else c + co
    if c is None or not (p - c * prod).is_zero():
        return None
    return c


INVERSE = {'fft2': 'ifft2', 'ifft2': 'fft2'}


def fft_axis(ctx, a, kind, ax):
    """transform of a matrix along one axis; along both axes, one after the other, it is the 2-D transform"""
    r = multiple_of(ctx, a, '%s.axis%d' % (kind, 1 - ax))
    if r is not None:
        c, sh, get = r
        if all(ctx.norm(x) == ctx.norm(y) for x, y in zip(sh, a.shape)):
            ctx.assumed.add('the 2-D DFT is the 1-D DFT of the rows followed by that of the columns')
            g = reader(ctx, fft_nd(ctx, fnarr(ctx, a.shape, 'c', get), kind + '2'))
            return fnarr(ctx, a.shape, 'c', lambda idx: c * g(idx))
    return fft_nd(ctx, a, '%s.axis%d' % (kind, ax))


def multiple_of(ctx, a, kind):
    """a == c * (functional of this kind): (c, shape, getter of what it was applied to)"""
    return undone(ctx, a, reader(ctx, a), kind, lambda c, get, sh: (c, sh, get))


def undone(ctx, a, g, kind, make=None):
    """fft2 of a multiple of an ifft2 (or the other way round): the multiple of the array it was applied to"""
    b, pieces = generic_pieces(ctx, a.shape, g)
    if len(pieces) != 1 or pieces[0][0]:
        return None
    p = pieces[0][1]
    use = set()
    for x in p.atoms():
        at = atom(x)
        if at.kind == 'app' and at.name[3:] in ctx.fundefs and ctx.fundefs[at.name[3:]][0] == (kind if make else INVERSE[kind]):
            use.add((at.name[3:], at.args))
    if len(use) != 1:
        return None
    (nm, args), = use
    if list(args[-len(b):]) != list(b):
        return None
    c = ratio(p, app('re.' + nm, list(args)) + I * app('im.' + nm, list(args)))
    if c is None or c.free() & {x.as_atom().id for x in b}:
        return None
    _, sh, get, _ = functional_elem(ctx, nm, list(args))
    if len(sh) != len(a.shape) or any(ctx.norm(x) != ctx.norm(y) for x, y in zip(sh, a.shape)):
        return None
    if make:
        return make(c, get, sh)
    ctx.assumed.add('numpy.fft.fft2 and ifft2 are the 2-D DFT and its inverse (inversion proved in lemmas/Fft.lean)')
    return fnarr(ctx, a.shape, 'c', lambda idx: c * get(idx))


def conv_of_product(ctx, p):
    """p = fft(x)[k] * fft(y)[k] as a polynomial (re/im atoms) -> list of (coef, nm1,args1,nm2,args2)"""
    groups = {}
    for a in p.atoms():
        at = atom(a)
        if at.kind == 'app' and at.name[3:] in ctx.fundefs:
            groups.setdefault((at.name[3:], at.args), set()).add(a)
    if len(groups) not in (1, 2):
        return None
    ks = list(groups)
    if len(ks) == 1:
        ks = ks * 2
    (n1, a1), (n2, a2) = ks
    if ctx.fundefs[n1][0] != 'fft' or ctx.fundefs[n2][0] != 'fft':
        return None
    z1 = app('re.' + n1, a1) + I * app('im.' + n1, a1)
    z2 = app('re.' + n2, a2) + I * app('im.' + n2, a2)
    prod = z1 * z2
    c = ratio(p, prod)
    return None if c is None else (c, n1, a1, n2, a2)


def ifft1(ctx, a):
    """inverse DFT; product of two forward transforms becomes a cyclic convolution"""
    if len(a.shape) != 1:
        raise Unsupported('ifft of a %d-d array' % len(a.shape))
    g = reader(ctx, a)
    n = ctx.norm(a.shape[0])
    b, pieces = generic_pieces(ctx, a.shape, g)
    if len(pieces) == 1 and not pieces[0][0]:
        p = pieces[0][1]
        r = conv_of_product(ctx, p)
        if r is not None:
            c, n1, a1, n2, a2 = r
            bid = b[0].as_atom().id
            if bid not in c.free() and a1[-1] == b[0] and a2[-1] == b[0]:
                _, s1, g1, _ = functional_elem(ctx, n1, a1)
                _, s2, g2, _ = functional_elem(ctx, n2, a2)
                if ctx.norm(s1[0]) == n and ctx.norm(s2[0]) == n:
                    ctx.assumed.add('convolution theorem for the length-Q DFT (proved in lemmas/Fft.lean)')

                    def get(idx):
                        k = idx[0]

                        def term(jj):
                            j = jj[0]
                            d = k - j
                            if not ctx.decide(ge0(d)):
                                d = d + n
                            return g1([j]) * g2([d])
                        return c * sum_pieces(ctx, (n,), term)
                    return fnarr(ctx, (n,), 'c', get)
    return fft_nd(ctx, a, 'ifft')
