"""Symbolic arrays: base content plus a chain of (bulk / loop) writes."""
from terms import *
import terms as T
from conds import *
from ctx import *


class Num(object):
    """symbolic number with a python/numpy kind: int, npint, float, complex, bool"""
    __slots__ = ('p', 'kind')

    def __init__(self, p, kind):
        self.p, self.kind = p, kind

    def subst(self, mp):
        return Num(subst(self.p, mp), self.kind)

    def __repr__(self):
        return 'Num(%r:%s)' % (self.p, self.kind)

    def key(self):
        return ('Num', self.p.key(), self.kind)


class SymBool(object):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def subst(self, mp):
        return SymBool(self.c.subst(mp))


def vsubst(v, mp):
    if not mp:
        return v
    if isinstance(v, Poly):
        return subst(v, mp)
    if isinstance(v, tuple):
        return tuple(vsubst(x, mp) for x in v)
    if hasattr(v, 'subst'):
        return v.subst(mp)
    return v


# ------------------------------------------------------------------ bases
class ConstBase(object):
    def __init__(self, v):
        self.v = v

    def get(self, ctx, idx):
        return self.v

    def subst(self, mp):
        return ConstBase(vsubst(self.v, mp))


class AppBase(object):
    """uninterpreted content: complex or real"""

    def __init__(self, name, cplx=True, params=()):
        self.name, self.cplx, self.params = name, cplx, tuple(params)

    def get(self, ctx, idx):
        a = list(self.params) + list(idx)
        if self.cplx:
            return app('re.' + self.name, a) + I * app('im.' + self.name, a)
        return app(self.name, a)

    def subst(self, mp):
        return AppBase(self.name, self.cplx, [subst(x, mp) for x in self.params])


class FnBase(object):
    """lazy content; not substitutable (must be generalised before crossing a loop)"""

    def __init__(self, fn):
        self.fn = fn

    def get(self, ctx, idx):
        return self.fn(idx)


class PieceBase(object):
    def __init__(self, bv, pieces):
        self.bv, self.pieces = tuple(bv), tuple(pieces)

    def get(self, ctx, idx):
        mp = {b.as_atom().id: x for b, x in zip(self.bv, idx)}
        return pick(ctx, self.pieces, mp)

    def subst(self, mp):
        return PieceBase(self.bv, [(tuple(c.subst(mp) for c in cs), vsubst(v, mp)) for cs, v in self.pieces])


def pick(ctx, pieces, mp):
    while len(pieces) > 2:          # first the conditions that every piece settles
        for c in pieces[0][0]:
            d = Not(c)
            if all(c in cs or d in cs for cs, _ in pieces[1:]) and any(d in cs for cs, _ in pieces[1:]):
                break
        else:
            best = None
            for c in pieces[0][0]:
                d = Not(c)
                if any(d in cs for cs, _ in pieces[1:]):
                    n = sum(c in cs or d in cs for cs, _ in pieces)
                    if best is None or n > best[0]:
                        best = n, c, d
            if best is None:
                break
            _, c, d = best
            k = c if ctx.decide(c.subst(mp)) else d
            j = d if k is c else c
            pieces = [(tuple(x for x in cs if x is not k and x != k), v) for cs, v in pieces if j not in cs]
            continue
        k = c if ctx.decide(c.subst(mp)) else d
        pieces = [(tuple(x for x in cs if x is not k and x != k), v) for cs, v in pieces if k in cs]
    n = len(pieces)
    for i, (cs, v) in enumerate(pieces):
        if i == n - 1:
            for c in cs:
                ctx.assume(c.subst(mp))
            return vsubst(v, mp)
        if ctx.decide(And(*[c.subst(mp) for c in cs])):
            return vsubst(v, mp)
    raise Infeasible()


class ArrRec(object):
    __slots__ = ('shape', 'dtype', 'base', 'chain', 'tag')

    def __init__(self, shape, dtype, base, chain=(), tag=None):
        self.shape, self.dtype, self.base, self.chain = tuple(P(x) for x in shape), dtype, base, tuple(chain)
        self.tag = tag

    def push(self, e):
        return ArrRec(self.shape, self.dtype, self.base, self.chain + (e,), self.tag)

    def reshape_len(self, n):
        return ArrRec((n,), self.dtype, self.base, self.chain, self.tag)

    def reshape_len0(self, n):
        return ArrRec((n,) + self.shape[1:], self.dtype, self.base, self.chain, self.tag)


def read_rec(ctx, rec, idx, upto=None):
    idx = [ctx.norm(P(x)) for x in idx]
    n = len(rec.chain) if upto is None else upto
    while n > 0:
        e = rec.chain[n - 1]
        r = e.lookup(ctx, idx, lambda n=n, i=None: read_rec(ctx, rec, idx, n - 1))
        if r is not NOT:
            return ctx.norm(r) if isinstance(r, Poly) else r
        n -= 1
    r = rec.base.get(ctx, idx)
    return ctx.norm(r) if isinstance(r, Poly) else r


NOT = object()


# ------------------------------------------------------------------ solving index equations
def coeff_of(p, aid):
    """p = c*atom + rest with c, rest free of atom, or None if not linear"""
    c, rest = {}, {}
    for m, k in p.t.items():
        e = 0
        mm = []
        nested = False
        for a, x in m:
            if a == aid:
                e = x
            else:
                mm.append((a, x))
                if aid in atom(a).free:
                    nested = True
        if nested:
            return None
        if e == 0:
            rest[m] = k
        elif e == 1:
            c[tuple(mm)] = k
        else:
            return None
    return Poly(c), Poly(rest)


def solve_idx(ctx, bvs, idx, x):
    """solve idx(b) == x.  bvs: list of atom ids.
    returns (sol dict id->Poly, residual conds, unsolved list, guess flag)"""
    eqs = [ctx.norm(P(a)) - P(b) for a, b in zip(idx, x)]
    sol = {}
    conds = []
    todo = set(bvs)
    guess = False
    progress = True
    while progress and eqs:
        progress = False
        for i, e in enumerate(eqs):
            fv = e.free() & todo
            if not fv:
                conds.append(eq0(e))
                eqs.pop(i)
                progress = True
                break
            if len(fv) == 1:
                (b,) = fv
                lr = coeff_of(e, b)
                if lr is None:
                    continue
                c, rest = lr
                k = c.const()
                if k is None:
                    continue
                # c*b + rest == 0
                s = (-rest).scale(Fraction(1) / k)
                if not (s.is_intsort() and s.intcoefs()):
                    q = floordiv((-rest) if k > 0 else rest, P(abs(k)))
                    conds.append(eq(rest + q.scale(k), 0))
                    s = q
                mp = {b: s}
                sol = {z: subst(v, mp) for z, v in sol.items()}
                sol[b] = s
                todo.discard(b)
                eqs.pop(i)
                eqs = [subst(z, mp) for z in eqs]
                progress = True
                break
    if eqs:
        # div/mod pattern: floordiv(b,c)=q and b-c*floordiv(b,c)=r  ->  b = c*q + r
        for b in list(todo):
            s = _divmod_solve(eqs, b)
            if s is not None:
                mp = {b: s}
                sol = {z: subst(v, mp) for z, v in sol.items()}
                sol[b] = s
                todo.discard(b)
                eqs = [subst(z, mp) for z in eqs]
                guess = True
        # symbolic stride: Q*b + ... (candidate by polynomial division, to be verified)
        for b in list(todo):
            for i, e in enumerate(eqs):
                lr = coeff_of(e, b)
                if lr is None:
                    continue
                c, rest = lr
                if c.const() is None and len(c.t) == 1:
                    q, r = polydiv(-rest, c)
                    # free of other unsolved
                    if q.free() & todo:
                        continue
                    mp = {b: q}
                    sol = {z: subst(v, mp) for z, v in sol.items()}
                    sol[b] = q
                    todo.discard(b)
                    eqs = [subst(z, mp) for z in eqs]
                    guess = True
                    break
        again = True
        while again and eqs:
            again = False
            for i, e in enumerate(eqs):
                fv = e.free() & todo
                if not fv:
                    conds.append(eq0(e))
                    eqs.pop(i)
                    again = True
                    break
                if len(fv) == 1:
                    (b,) = fv
                    lr = coeff_of(e, b)
                    if lr and lr[0].const() in (1, -1):
                        s = lr[1].scale(-lr[0].const())
                        mp = {b: s}
                        sol = {z: subst(v, mp) for z, v in sol.items()}
                        sol[b] = s
                        todo.discard(b)
                        eqs = [subst(z, mp) for z in eqs if z is not e]
                        again = True
                        break
    return sol, conds, sorted(todo), eqs, guess


def _divmod_solve(eqs, b):
    """eqs contain  fd(b, c) - q  and  b - c*fd(b,c) - r"""
    fds = {}
    for e in eqs:
        for m, k in e.t.items():
            for a, x in m:
                at = atom(a)
                if at.kind == 'fd' and b in at.free and at.args[0] == P(atom(b)):
                    fds[a] = at.args[1]
    for a, c in fds.items():
        q = r = None
        for e in eqs:
            lr = coeff_of_atom(e, a)
            if lr is None:
                continue
            cf, rest = lr
            if cf.const() in (1, -1) and b not in rest.free():
                q = rest.scale(-cf.const())
        if q is None:
            continue
        for e in eqs:
            z = subst(e, {a: q})
            lr = coeff_of(z, b)
            if lr and lr[0].const() in (1, -1) and a not in z.atoms() and b not in lr[1].free():
                return lr[1].scale(-lr[0].const())
    return None


def coeff_of_atom(p, aid):
    c, rest = {}, {}
    for m, k in p.t.items():
        e = dict(m).get(aid, 0)
        if e == 0:
            rest[m] = k
        elif e == 1:
            c[tuple(z for z in m if z[0] != aid)] = k
        else:
            return None
    return Poly(c), Poly(rest)


class Region(object):
    """cells idx(b) for b in product of [0,hi) with conds"""
    __slots__ = ('bv', 'conds', 'idx')

    def __init__(self, bv, conds, idx):
        self.bv = tuple(bv)          # (Poly atom, hi Poly)
        self.conds = tuple(conds)
        self.idx = tuple(P(x) for x in idx)

    def subst(self, mp):
        return Region([(b, subst(h, mp)) for b, h in self.bv], [c.subst(mp) for c in self.conds],
                      [subst(x, mp) for x in self.idx])

    def free(self):
        s = set()
        for b, h in self.bv:
            s |= h.free()
        for c in self.conds:
            s |= c.free()
        for x in self.idx:
            s |= x.free()
        return s - {b.as_atom().id for b, h in self.bv}

    def allconds(self):
        cs = []
        for b, h in self.bv:
            cs.append(ge0(b))
            cs.append(lt(b, h))
        return cs + list(self.conds)


def pinned_t(reg, tid, T=None):
    """value of the loop variable when a condition of the region fixes it"""
    for c in reg.conds:
        if c.op == 'ge':
            t = P(atom(tid))
            if c.a[0] == -t:
                return ZERO
            if T is not None and c.a[0] == t - T + 1:
                return T - 1
        if c.op == 'eq' and tid in c.free():
            lr = coeff_of(c.a[0], tid)
            if lr is None or lr[0].const() not in (1, -1):
                continue
            s = lr[1].scale(-lr[0].const())
            if s.free() & {b.as_atom().id for b, h in reg.bv}:
                continue
            return s
    return None


def cover(ctx, reg, x, t=None, T=None, want_free=False):
    """Does region (with optional loop variable t in [0,T)) cover cell x?
    Decides on the current path.  Returns None (not covered) or solution dict id->Poly;
    with want_free, loop variables not determined by x are left out of the dict."""
    bvs = [b.as_atom().id for b, h in reg.bv]
    tid = t.as_atom().id if t is not None else None
    if tid is not None:
        s = pinned_t(reg, tid, T)
        if s is not None:
            mp = {tid: s}
            r2 = reg.subst(mp)
            r2 = Region(r2.bv, [c for c in r2.conds if not c.is_true()] + [ge0(s), lt(s, T)], r2.idx)
            sol = cover(ctx, r2, x)
            if sol is not None:
                sol = dict(sol)
                sol[tid] = ctx.norm(subst(s, sol))
            return sol
    ids = bvs + ([tid] if t is not None and tid in (reg.free()) else [])
    idxfree = set()
    for e in reg.idx:
        idxfree |= e.free()
    sol, res, unsolved, eqs, guess = solve_idx(ctx, ids, reg.idx, x)
    conds = list(res) + [eq0(e) for e in eqs]
    rng = reg.allconds()
    if t is not None and tid in ids:
        rng = rng + [ge0(t), lt(t, T)]
    full = conds + rng
    full = [c.subst(sol) for c in full]
    if not unsolved and not guess:
        if ctx.decide(And(*full)):
            return {k: ctx.norm(v) for k, v in sol.items()}
        return None
    if not unsolved:
        # guessed solution: covered iff guess satisfies (needs uniqueness)
        full = [simp_fd(ctx, c) for c in full]
        if not ctx.entails(And(*full)):
            mr = mixed_radix(ctx, reg, x, t, T, ids)
            if mr is not None:
                sol, full = mr
                if ctx.decide(And(*full)):
                    return {k: simp_poly(ctx, v) for k, v in sol.items()}
                return None
        if ctx.entails(And(*full)):
            if unique(ctx, reg, x, t, T, ids, sol):
                return {k: ctx.norm(v) for k, v in sol.items()}
            raise Unsupported('cannot show uniqueness of writer')
        if no_cover(ctx, reg, x, t, T, ids):
            return None
        # decide on the guess' conditions one by one
        if ctx.decide(And(*full)):
            if unique(ctx, reg, x, t, T, ids, sol):
                return {k: ctx.norm(v) for k, v in sol.items()}
            raise Unsupported('cannot show uniqueness of writer')
        if no_cover(ctx, reg, x, t, T, ids):
            return None
        raise Unsupported('cannot decide coverage of cell %r by %r' % (x, reg.idx))
    # variables absent from the index altogether
    free_ = [u for u in unsolved if u not in idxfree]
    if free_ == unsolved and not eqs:
        if want_free and free_ == [tid]:
            mp = dict(sol)
            fc = [c for c in full if tid not in c.free()]
            if not ctx.decide(And(*fc)):
                return None
            rest = [c for c in full if tid in c.free()]
            rest = [c for c in rest if c not in (ge0(t), lt(t, T))]
            if rest:
                raise Unsupported('conditional rewriting of the same cell in a loop')
            if not ctx.decide(gt(T, 0)):
                return None
            return {k: ctx.norm(v) for k, v in sol.items()}
        raise Unsupported('cell written repeatedly: %r' % (reg.idx,))
    # nonlinear in a loop variable: candidates from the free variables of x
    if no_cover(ctx, reg, x, t, T, ids):
        return None
    un = [tid] if tid in unsolved else []
    un += [u for u in unsolved if u not in un]
    tried = []
    for u in un:
        for c in candidates(ctx, x, reg, unsolved):
            mp = {u: c}
            reg2 = reg.subst(mp)
            ids2 = [i for i in ids if i not in mp]
            s2, res2, un2, eq2, g2 = solve_idx(ctx, ids2, reg2.idx, x)
            if un2 or eq2:
                continue
            f2 = And(*[z.subst(s2) for z in list(res2) + [cc.subst(mp) for cc in rng]])
            s3 = {k: subst(v, s2) for k, v in mp.items()}
            s3.update(s2)
            if f2.op == 'F':
                continue
            if ctx.entails(f2, 1):
                if unique(ctx, reg, x, t, T, ids, s3):
                    return {k: ctx.norm(v) for k, v in s3.items()}
            if any(q.op in ('eq', 'ge') and any(sum(e for a, e in m) > 1 for m in q.a[0].t) for q in (f2.a if f2.op == 'and' else (f2,))):
                continue
            tried.append((f2, s3))
        if tried:
            break
    tried.sort(key=lambda z: sum(1 for q in (z[0].a if z[0].op == 'and' else (z[0],)) if q.op == 'eq'))
    for f2, s3 in tried:
        if ctx.entails(Not(f2), 1) if f2.op != 'and' else any(ctx.entails(Not(z), 1) for z in f2.a):
            continue
        if f2.op == 'and' and unsat_with(ctx, list(f2.a)):
            continue
        if ctx.decide(f2):
            if unique(ctx, reg, x, t, T, ids, s3):
                return {k: ctx.norm(v) for k, v in s3.items()}
            raise Unsupported('cannot show uniqueness of writer')
        if no_cover(ctx, reg, x, t, T, ids):
            return None
    for u in un:
        if split_no_cover(ctx, reg, x, t, T, ids, u, unsolved):
            return None
    raise Unsupported('cannot solve writer of cell %r in %r (unsolved %s)' % (x, reg.idx, [atom(u) for u in unsolved]))


def fd_values(ctx, atoms):
    """quotients by a symbolic divisor with a known value on the current path"""
    mp = {}
    for a in atoms:
        at = atom(a)
        if at.kind == 'fd' and at.args[1].const() is None and a not in mp:
            x, q = at.args
            for k in (0, 1, -1):
                if ctx.entails(And(ge0(x - k * q), lt(x, (k + 1) * q))):
                    mp[a] = ip_const(k)
                    break
    return mp


def ip_const(k):
    return ONE * k


def simp_poly(ctx, p):
    p = ctx.norm(P(p))
    if not SYMFD[0]:
        return p
    for _ in range(3):
        mp = fd_values(ctx, sorted(sym_fds(p)))
        if not mp:
            break
        p = subst(p, mp)
    return p


def simp_fd(ctx, c):
    """quotients by a symbolic divisor that are known on the current path"""
    if not SYMFD[0]:
        return c
    for _ in range(3):
        mp = fd_values(ctx, sorted({a for p in cond_polys_(c) for a in sym_fds(p)}))
        if not mp:
            break
        c = c.subst(mp)
    return c


def cond_polys_(c):
    if c.op in ('ge', 'gt', 'eq'):
        return [c.a[0]]
    if c.op in ('not', 'and', 'or'):
        return [p for x in c.a for p in cond_polys_(x)]
    return []


def mixed_radix(ctx, reg, x, t, T, ids):
    """one-dimensional index a + Q*b + c with 0 <= c < Q: b and c are quotient and remainder of x - a by Q"""
    if len(reg.idx) != 1 or len(ids) != 2:
        return None
    his = {b.as_atom().id: h for b, h in reg.bv}
    if t is not None:
        his[t.as_atom().id] = T
    e = ctx.norm(reg.idx[0])
    for b, c in (tuple(ids), tuple(reversed(ids))):
        lc = coeff_of(e, c)
        if lc is None or lc[0].const() != 1:
            continue
        lb = coeff_of(lc[1], b)
        if lb is None or c not in his or b not in his:
            continue
        Q, a = lb
        if b in his[c].free() or not (ctx.norm(his[c]) - ctx.norm(Q)).is_zero() or not ctx.entails(gt(Q, 0)):
            continue
        d = ctx.norm(P(x[0]) - a)
        q = simp_poly(ctx, floordiv(d, ctx.norm(Q)))
        sol = {b: q, c: d - Q * q}
        rng = [z.subst(sol) for z in reg.conds] + [ge0(q), lt(q, his[b])]
        return sol, rng
    return None


def candidates(ctx, x, reg, unsolved):
    vs = set()
    for e in x:
        vs |= e.free()
    out = []
    for v in sorted(vs):
        if atom(v).sort != 'i' or atom(v).kind != 'var':
            continue
        p = P(atom(v))
        for s in (1, -1):
            for k in (-1, 0, 1, -2):
                out.append(p.scale(Fraction(s)) + k)
    fr = set()
    for e in reg.idx:
        fr |= e.free()
    ps = [P(atom(v)) for v in sorted(vs) if atom(v).kind == 'var' and atom(v).sort == 'i']
    qs = [P(atom(v)) for v in sorted((fr | vs) - set(unsolved)) if atom(v).kind == 'var' and atom(v).sort == 'i']
    for a in ps:
        for b in qs:
            if a != b:
                out += [a + b, a - b, b - a]
    for h in ctx.globals.get('hints', ()):
        for k in (-1, 0, 1):
            out.append(h + k)
    return out


def _fresh_copy(ctx, reg, t, T, ids):
    mp = {}
    cs = []
    for i in ids:
        mp[i] = ctx.fresh('w')
    r2 = reg.subst({})
    rng = [c.subst(mp) for c in reg.allconds()]
    if t is not None and t.as_atom().id in mp:
        rng += [ge0(mp[t.as_atom().id]), lt(mp[t.as_atom().id], T)]
    idx = [subst(e, mp) for e in reg.idx]
    return mp, rng, idx


def no_cover(ctx, reg, x, t, T, ids):
    mp, rng, idx = _fresh_copy(ctx, reg, t, T, ids)
    cs = [ctx.normc(c) for c in rng] + [ctx.normc(eq(a, b)) for a, b in zip(idx, x)]
    return unsat_with(ctx, cs)


def split_no_cover(ctx, reg, x, t, T, ids, u, unsolved):
    """no_cover by comparing the variable u with a value that makes the index equation linear"""
    mp, rng, idx = _fresh_copy(ctx, reg, t, T, ids)
    base = [ctx.normc(c) for c in rng] + [ctx.normc(eq(a, b)) for a, b in zip(idx, x)]
    n = 0
    for c in candidates(ctx, x, reg, unsolved):
        mc = {u: c}
        lin = [ctx.norm(subst(e, mc) - P(y)) for e, y in zip(reg.idx, x)]
        if any(sum(e for a, e in m) > 1 for p in lin for m in p.t):
            continue
        n += 1
        if n > 4:
            return False
        w = mp[u]
        if all(unsat_with(ctx, [ctx.normc(z)] + base) for z in (eq(w, c), gt(w, c), lt(w, c))):
            return True
    return False


def unique(ctx, reg, x, t, T, ids, sol):
    mp, rng, idx = _fresh_copy(ctx, reg, t, T, ids)
    base = [ctx.normc(c) for c in rng] + [ctx.normc(eq(a, b)) for a, b in zip(idx, x)]
    tid = t.as_atom().id if t is not None else None
    for i in sorted(ids, key=lambda z: (z != tid, z)):
        v = ctx.norm(sol[i])
        for c in (gt(mp[i], v), lt(mp[i], v)):
            if not unsat_with(ctx, [ctx.normc(c)] + base):
                return False
        m2 = {mp[i].as_atom().id: v}
        base = [c.subst(m2) for c in base]
    return True


def unsat_with(ctx, cs):
    """unsat of pc and cs; equalities in cs are solved first"""
    ctx.tick()
    snap = ctx.snapshot()
    try:
        for c in cs:
            ctx.assume(c)
        k = ('UW', ctx.pcid)
        r = C_cache.get(k)
        if r is None:
            r = unsat(list(ctx.pc), 2)
            C_cache[k] = r
        return r
    except Infeasible:
        return True
    finally:
        n = ctx.nfresh
        ctx.restore(snap)
        ctx.nfresh = n


C_cache = {}


# ------------------------------------------------------------------ chain entries
class Write(object):
    """bulk write: region + lazy value fn(list of bvar values)->value"""

    def __init__(self, region, fn):
        self.region, self.fn = region, fn

    def regions(self):
        return [self.region]

    def lookup(self, ctx, idx, below):
        s = cover(ctx, self.region, idx)
        if s is None:
            return NOT
        return self.fn([s[b.as_atom().id] for b, h in self.region.bv])


class Item(object):
    """cells written by one iteration; at: the iteration, if fixed by the conditions"""
    __slots__ = ('region', 'val', 'at')

    def __init__(self, region, val, at=None):
        self.region, self.val, self.at = region, val, at

    def subst(self, mp):
        return Item(self.region.subst(mp), vsubst(self.val, mp), None if self.at is None else subst(self.at, mp))


class LoopMap(object):
    """after T iterations of a loop over t; items' cells hold items' values (in terms of t,bvars)"""

    def __init__(self, t, T, items, lo=ZERO):
        self.t, self.T, self.items = t, T, tuple(items)

    def subst(self, mp):
        return LoopMap(self.t, subst(self.T, mp), [i.subst(mp) for i in self.items])

    def regions(self):
        return [i.region if i.at is not None else loop_region(i.region, self.t, self.T) for i in self.items]

    def lookup(self, ctx, idx, below):
        tid = self.t.as_atom().id
        best = None
        for it in self.items:
            if it.at is not None:
                s = cover(ctx, it.region, idx)
                if s is None:
                    continue
                tt = it.at
            else:
                s = cover(ctx, it.region, idx, self.t, self.T, want_free=True)
                if s is None:
                    continue
                tt = s.get(tid, self.T - 1)
            s = dict(s)
            s[tid] = tt
            if best is not None:
                # later iteration wins
                if best[0] == tt or ctx.entails(eq(best[0], tt)):
                    continue       # same iteration: values already are end-of-iteration content
                if not ctx.decide(gt(tt, best[0])):
                    continue
            best = (tt, s, it)
        if best is None:
            return NOT
        return vsubst(best[2].val, best[1])


def loop_region(reg, t, T):
    tid = t.as_atom().id
    if tid in reg.free():
        idxfree = set()
        for e in reg.idx:
            idxfree |= e.free()
        if tid in idxfree:
            return Region(reg.bv + ((t, T),), reg.conds, reg.idx)
        if any(tid in c.free() for c in reg.conds) or any(tid in h.free() for b, h in reg.bv):
            # last iteration representative is not known to cover: keep t as a bound variable
            return Region(reg.bv + ((t, T),), reg.conds, reg.idx)
    return Region(reg.bv, reg.conds + (gt(T, 0),), reg.idx)


class LoopAcc(object):
    """cells of the (t-independent) region get base + sum_{t<T} g(t)"""

    def __init__(self, t, T, items):
        self.t, self.T = t, T
        self.items = tuple(self.widen(i) for i in items)      # Item(region, g)

    def widen(self, i):
        """ranges that move with the loop become conditions"""
        tid = self.t.as_atom().id
        if not any(tid in h.free() for b, h in i.region.bv):
            return i
        bv, cs = [], list(i.region.conds)
        for b, h in i.region.bv:
            if tid in h.free():
                d = subst(h, {tid: self.t + 1}) - h
                k = d.as_int()
                if k is None:
                    raise Unsupported('range %r of an accumulation' % (h,))
                cs.append(lt(b, h))
                h = subst(h, {tid: self.T - 1 if k > 0 else ZERO})
            bv.append((b, h))
        return Item(Region(bv, cs, i.region.idx), i.val)

    def subst(self, mp):
        return LoopAcc(self.t, subst(self.T, mp), [i.subst(mp) for i in self.items])

    def regions(self):
        out = []
        for i in self.items:
            conds = [c for c in i.region.conds if self.t.as_atom().id not in c.free()]
            out.append(Region(i.region.bv, conds, i.region.idx))
        return out

    def lookup(self, ctx, idx, below):
        tid = self.t.as_atom().id
        tot = None
        for i in self.items:
            gc = [c for c in i.region.conds if tid in c.free()]
            rg = Region(i.region.bv, [c for c in i.region.conds if tid not in c.free()], i.region.idx)
            s = cover(ctx, rg, idx)
            if s is None:
                continue
            if tot is None:
                tot = below()
            g = vsubst(i.val, s)
            tot = tot + mk_sum_ctx(ctx, self.t, ZERO, subst(self.T, s), [c.subst(s) for c in gc], g)
        return NOT if tot is None else tot


class LoopRec(object):
    """recurrence: content of covered cell idx is REC(idx), defined by ctx.defs[name]"""

    def __init__(self, name, t, T, items, cplx, params):
        self.name, self.t, self.T, self.items, self.cplx = name, t, T, tuple(items), cplx
        self.params = tuple(params)

    def subst(self, mp):
        return LoopRec(self.name, self.t, subst(self.T, mp), [i.subst(mp) for i in self.items], self.cplx,
                       [subst(x, mp) for x in self.params])

    def regions(self):
        return [i.region if i.at is not None else loop_region(i.region, self.t, self.T) for i in self.items]

    def lookup(self, ctx, idx, below):
        hit = None
        for it in self.items:
            s = cover(ctx, it.region, idx) if it.at is not None else cover(ctx, it.region, idx, self.t, self.T)
            if s is not None:
                hit = s
                break
        if hit is None:
            return NOT
        return rec_app(self.name, self.cplx, list(self.params) + list(idx))


def rec_app(name, cplx, args):
    if cplx:
        return app('re.' + name, args) + I * app('im.' + name, args)
    return app(name, args)


class Havoc(object):
    """whole storage unknown"""

    def __init__(self, name, cplx):
        self.b = AppBase(name, cplx)
        self.all = True

    def subst(self, mp):
        return self

    def regions(self):
        raise Unsupported('havoc region')

    def lookup(self, ctx, idx, below):
        return self.b.get(ctx, idx)


def mk_sum_ctx(ctx, t, lo, hi, conds, body):
    """Sum with range conditions absorbed into the bounds (decided on the current path)"""
    tid = t.as_atom().id
    body = ctx.norm(body)
    if body.is_zero():
        return ZERO
    hi = ctx.norm(hi)
    lo = ctx.norm(lo)
    rest = []
    for c in conds:
        c = ctx.normc(c)
        cs = c.a if c.op == 'and' else (c,)
        for x in cs:
            if tid not in x.free():
                if not ctx.decide(x):
                    return ZERO
                continue
            if x.op in ('ge', 'eq'):
                lr = coeff_of(x.a[0], tid)
                if lr is not None and lr[0].const() is not None:
                    k, r = lr[0].const(), lr[1]
                    if x.op == 'eq':
                        s = r.scale(Fraction(-1) / k)
                        if s.is_intsort() and s.intcoefs():
                            others = [z for z in conds if z is not c]
                            if not ctx.decide(And(le(lo, s), lt(s, hi), *[z.subst({tid: s}) for z in others])):
                                return ZERO
                            return subst(body, {tid: s})
                    elif k > 0:
                        nlo = -floordiv(r, P(k))        # t >= ceil(-r/k)
                        if nlo != lo:
                            if ctx.decide(ge(nlo, lo)):
                                lo = nlo
                        continue
                    else:
                        nhi = floordiv(r, P(-k)) + 1    # t <= floor(r/-k)
                        if nhi != hi:
                            if ctx.decide(le(nhi, hi)):
                                hi = nhi
                        continue
            rest.append(x)
    if ctx.entails(le(hi, lo)):
        return ZERO
    for x in list(rest):
        # t != s: subtract the term at s when it is in the range
        if x.op != 'not' or x.a[0].op != 'eq':
            continue
        lr = coeff_of(x.a[0].a[0], tid)
        if lr is None or lr[0].const() is None:
            continue
        s = lr[1].scale(Fraction(-1) / lr[0].const())
        if not (s.is_intsort() and s.intcoefs()):
            continue
        rest.remove(x)
        if not ctx.decide(And(le(lo, s), lt(s, hi))):
            continue
        full = mk_sum_ctx(ctx, t, lo, hi, rest, body)
        if rest and not ctx.decide(And(*[z.subst({tid: s}) for z in rest])):
            return full
        return full - subst(body, {tid: s})
    if tid not in body.free() and not rest:
        if ctx.decide(gt(hi, lo)):
            return body * (hi - lo)
        return ZERO
    n = (hi - lo).as_int()
    if rest and n is not None and n <= 4:
        r = ZERO
        for j in range(n):
            mp = {tid: lo + j}
            if ctx.decide(And(*[z.subst(mp) for z in rest])):
                r = r + subst(body, mp)
        return r
    if n is None and not rest:
        from loops import faulhaber
        f = faulhaber(subst(body, {tid: t + lo}), t)
        if f is not None and ctx.entails(ge(hi, lo)):
            return ctx.norm(subst(f, {tid: hi - lo}))
    return mk_sum(t, lo, hi, tuple(rest), body)


def resum(ctx, d):
    """re-evaluate the sums of d on the current path (conditions absorbed into the bounds)"""
    mp = {}
    for a in sorted(d.atoms()):
        at = atom(a)
        if at.kind == 'sum' and (at.args[2] or at.args[1].const() is None):
            b, hi, cs, body = at.args
            t = P(mk_atom('bvar', ('q', at.depth, a), (), 'i'))
            m = {b.as_atom().id: t}
            v = mk_sum_ctx(ctx, t, ZERO, hi, tuple(c.subst(m) for c in cs), subst(body, m))
            if v != P(at):
                mp[a] = v
    if not mp:
        return d
    r = ZERO
    for m, c in d.t.items():
        x = Poly({tuple((a, e) for a, e in m if a not in mp): c})
        for a, e in m:
            if a in mp:
                x = x * mp[a] ** e
        r = r + x
    return ctx.norm(r)


class SnapArr(object):
    """immutable copy of an array value (content in generic pieces)"""

    def __init__(self, shape, dtype, bv, pieces):
        self.shape, self.dtype, self.bv, self.pieces = tuple(shape), dtype, tuple(bv), tuple(pieces)

    def subst(self, mp):
        return SnapArr([subst(x, mp) for x in self.shape], self.dtype, self.bv,
                       [(tuple(c.subst(mp) for c in cs), vsubst(v, mp)) for cs, v in self.pieces])


class SnapList(object):
    def __init__(self, items=None, length=None, bv=None, pieces=None):
        self.items, self.length, self.bv, self.pieces = items, length, bv, pieces

    def subst(self, mp):
        if self.items is not None:
            return SnapList(items=tuple(vsubst(x, mp) for x in self.items))
        return SnapList(None, subst(self.length, mp), self.bv,
                        [(tuple(c.subst(mp) for c in cs), vsubst(v, mp)) for cs, v in self.pieces])


# ------------------------------------------------------------------ python-level array values
class Arr(object):
    """a numpy array object: a view on a storage"""
    __slots__ = ('sid', 'shape', 'fmap', 'flat')

    def __init__(self, sid, shape, fmap=None):
        self.sid = sid
        self.shape = tuple(P(x) for x in shape)
        self.fmap = fmap          # None = identity

    def smap(self, idx):
        return list(idx) if self.fmap is None else self.fmap(list(idx))


class ListV(object):
    """a python list; heap record: tuple of items, or ArrRec of dtype 'O'"""
    __slots__ = ('sid',)

    def __init__(self, sid):
        self.sid = sid


def new_storage(ctx, rec):
    sid = ctx.newid()
    ctx.heap[sid] = rec
    return sid


def new_arr(ctx, shape, dtype, base):
    rec = ArrRec(shape, dtype, base)
    return Arr(new_storage(ctx, rec), rec.shape)


def arr_rec(ctx, a):
    return ctx.heap[a.sid]


def dtype(ctx, a):
    return ctx.heap[a.sid].dtype


def read(ctx, a, idx):
    return read_rec(ctx, ctx.heap[a.sid], a.smap([P(i) for i in idx]))


def reader(ctx, a):
    """reads the content as of now"""
    rec = ctx.heap[a.sid]
    return lambda idx: read_rec(ctx, rec, a.smap(idx))


def fnarr(ctx, shape, dtype_, fn):
    return new_arr(ctx, shape, dtype_, FnBase(fn))


def bvs(ctx, shape, base='u'):
    out = []
    for j, n in enumerate(shape):
        out.append(P(mk_atom('var', '%s#%d' % (base, ctx.newid()), (), 'i')))
    return out


def write_view(ctx, a, valfn):
    """a[...] = valfn(idx of the view)"""
    b = bvs(ctx, a.shape)
    reg = Region(list(zip(b, a.shape)), [], a.smap(b))
    rec = ctx.heap[a.sid]
    ctx.heap[a.sid] = rec.push(Write(reg, valfn))


def generic_pieces(ctx, shape, getter, extra=()):
    """evaluate getter at generic in-range indices: (bvars, [(conds, value)])"""
    b = [ctx.fresh('g') for _ in shape]

    def run():
        for x, n in zip(b, shape):
            ctx.assume(ge0(x))
            ctx.assume(lt(x, n))
        return snapval(ctx, getter(b))
    outs = ctx.explore(run, locals_=b)
    ids = {x.as_atom().id for x in b}
    pieces = []
    for o in outs:
        if o.kind == 'exc':
            raise Unsupported('exception while evaluating array content: %r' % (o.value,))
        rng = set()
        for x, n in zip(b, shape):
            rng.add(ge0(x))
            rng.add(lt(x, n))
        pieces.append((tuple(c for c in o.pc if c not in rng), o.value))
    return b, pieces


def snapval(ctx, v):
    """turn heap references into immutable snapshots"""
    if isinstance(v, Arr):
        g = reader(ctx, v)
        b, pieces = generic_pieces(ctx, v.shape, g)
        return SnapArr(v.shape, dtype(ctx, v), b, pieces)
    if isinstance(v, ListV):
        r = ctx.heap[v.sid]
        if isinstance(r, tuple):
            return SnapList(items=tuple(snapval(ctx, x) for x in r))
        b, pieces = generic_pieces(ctx, r.shape, lambda idx: read_rec(ctx, r, idx))
        return SnapList(None, r.shape[0], b, pieces)
    if isinstance(v, tuple):
        return tuple(snapval(ctx, x) for x in v)
    return v


def unsnap(ctx, v):
    if isinstance(v, SnapArr):
        return new_arr(ctx, v.shape, v.dtype, PieceBase(v.bv, v.pieces))
    if isinstance(v, SnapList):
        if v.items is not None:
            sid = ctx.newid()
            ctx.heap[sid] = tuple(unsnap(ctx, x) for x in v.items)
            return ListV(sid)
        sid = ctx.newid()
        ctx.heap[sid] = ArrRec((v.length,), 'O', PieceBase(v.bv, v.pieces))
        return ListV(sid)
    if isinstance(v, tuple):
        return tuple(unsnap(ctx, x) for x in v)
    return v
