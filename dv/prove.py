"""Discharging equality obligations between symbolic values."""
from npmodel import *
import npmodel as NP
import terms as T_
from ctx import STATS
import os
DEBUG = os.environ.get('DV_DEBUG')


def equal(ctx, a, b, depth=0):
    """sound, incomplete: a == b under the path condition (may split the path)"""
    d = ctx.norm(P(a) - P(b))
    return zero(ctx, d, depth)


def zero(ctx, d, depth=0):
    d = ctx.norm(d)
    if d.is_zero():
        STATS['syntactic'] += 1
        return True
    if d.const() is not None:
        return not ctx.feasible(2)
    if depth > 6:
        return False
    if d.is_intsort():
        return ctx.entails(eq0(d), 2) or not ctx.feasible(2)
    if any(atom(a).kind == 'sum' for a in d.atoms()):
        d = resum(ctx, d)
        if d.is_zero():
            return True
    if depth == 0:
        d2 = unify_fd(ctx, d)
        if d2 is not d:
            d = ctx.norm(d2)
            if d.is_zero():
                return True
    if has_ip(d):
        d2 = resolve_ip(ctx, d)
        if d2 != d:
            return zero(ctx, d2, depth)
    if 2 <= len(d.t) <= 6 and any(atom(a).kind == 'sqrt' for a in d.atoms()):
        # u == v from u**2 == v**2 for nonnegative u, v
        u = Poly({m: c for m, c in d.t.items() if not isinstance(c, complex) and c > 0})
        v = u - d
        if not u.is_zero() and not v.is_zero() and nonneg(u) and nonneg(v) and zero(ctx, u * u - v * v, depth + 1):
            return True
    d2 = clear_inv(ctx, d)
    if d2 != d:
        if d2.is_zero():
            return True
        d = d2
    d2 = unify(ctx, d, depth)
    if d2 is not d:
        d2 = ctx.norm(d2)
        if d2.is_zero():
            return True
        d2 = clear_inv(ctx, d2)
        if d2.is_zero():
            return True
        d = d2
    d2 = prods(ctx, d, depth)
    if d2 is not d:
        d2 = clear_inv(ctx, ctx.norm(d2))
        if d2.is_zero():
            return True
        d = d2
        d2 = unify(ctx, d, depth)
        if d2 is not d:
            d = clear_inv(ctx, ctx.norm(d2))
            if d.is_zero():
                return True
    d2 = sums(ctx, d, depth)
    if d2 is not d:
        d2 = ctx.norm(d2)
        if d2.is_zero():
            return True
        d = d2
    if depth <= 2 and any_name(d, 'Y'):
        d2 = ctx.norm(vanishing(ctx, d, depth))
        if d2 != d:
            return d2.is_zero() or zero(ctx, d2, depth + 1)
    # factor out a common monomial
    e = strip_common(d)
    if e is not d and e.is_intsort():
        return ctx.entails(eq0(e), 2)
    if has_only_vars(d) and not any(atom(x).sort == 'c' for x in d.atoms()):
        if ctx.entails(eq0(d), 2):
            return True
    if coeffs_zero(ctx, d):
        return True
    if depth < 5 and unfold_zero(ctx, d, depth):
        return True
    if depth == 0 and DEBUG and ctx.feasible(2):
        print('RESIDUAL', d, '\n   PC', ctx.pc)
    return not ctx.feasible(2)


def any_name(x, nm):
    """does an application of nm occur at any depth?"""
    for a in x.atoms():
        a = atom(a)
        if a.kind == 'app' and a.name == nm or a.kind == 'sum' and any_name(a.args[3], nm):
            return True
    return False


def vanishing(ctx, d, depth):
    """drop the Legendre Fourier coefficients outside their support and the sums over such terms (y_relations)"""
    out = ZERO
    for m, c in d.t.items():
        gone = False
        for i, e in m:
            a = atom(i)
            if e < 1:
                continue
            if a.kind == 'app' and a.name == 'Y':
                n, k, j = a.args
                h = n - j
                gone = ctx.entails(Or(gt(j, n), gt(k, n), gt(-k, n)), 2) or ctx.entails(eq(h - 2 * T_.floordiv(h, P(2)), 1), 2)
            elif a.kind == 'sum' and any_name(a.args[3], 'Y'):
                b, h, cs, x = a.args
                t = ctx.fresh('s')
                mp = {b.as_atom().id: t}

                def run():
                    ctx.assume(ge0(t))
                    ctx.assume(lt(t, h))
                    for q in cs:
                        ctx.assume(q.subst(mp))
                    return ctx.norm(vanishing(ctx, ctx.norm(subst(x, mp)), depth + 1)).is_zero()
                gone = all(o.kind == 'ret' and o.value for o in ctx.explore(run, locals_=[t]))
            if gone:
                break
        if not gone:
            out = out + Poly({m: c})
    return out


def coeffs_zero(ctx, d):
    """the integer coefficient of every non-integer monomial vanishes"""
    groups = {}
    for m, c in d.t.items():
        k = tuple(x for x in m if atom(x[0]).sort != 'i' or x[1] < 0)
        r = tuple(x for x in m if not (atom(x[0]).sort != 'i' or x[1] < 0))
        groups.setdefault(k, {})[r] = c
    if not any(r != () for g in groups.values() for r in g):
        return False
    for k, g in groups.items():
        p = Poly(g)
        if p.const() is not None or not ctx.entails(eq0(p), 2):
            return False
    return True


def rec_cells(ctx, d):
    out = {}
    for a in sorted(d.atoms()):
        at = atom(a)
        if at.kind == 'app':
            b = at.name[3:] if at.name[:3] in ('re.', 'im.') else at.name
            if b in ctx.defs and not any(atom(x).kind == 'bvar' for x in at.free):
                out.setdefault((b, at.args), []).append(a)
    return out


def unfold(ctx, nm, args):
    """value of a cell defined by a loop recurrence, in terms of earlier cells"""
    D = ctx.defs[nm]
    k = len(D['params'])
    mp = {q.as_atom().id: v for q, v in zip(D['params'], args[:k])}
    idx = list(args[k:])

    def real(p):
        return T_.map_apps(p, lambda n, a: app((n[:3] if D['cplx'] else '') + nm, list(args[:k]) + list(a)) if n.endswith('PEND') else None)
    items = [i.subst(mp) for i in D['items']]
    for i in items:
        if any('PEND' in repr(c) for c in i.region.conds):
            i.region = Region(i.region.bv, [real(c) for c in i.region.conds], i.region.idx)
    r = LoopMap(D['t'], subst(D['T'], mp), items).lookup(ctx, idx, None)
    if r is NOT:
        return None
    return real(r)


def expand(ctx, p, keep=()):
    """unfold every loop-recurrence cell of p once on the current path, except the atoms in keep"""
    mp = {}
    for c, ats in rec_cells(ctx, p).items():
        if any(a in keep for a in ats):
            continue
        v = unfold(ctx, *c)
        if v is not None:
            for a in ats:
                n = atom(a).name
                x = re_im(v) if n[:3] in ('re.', 'im.') else (v,)
                mp[a] = x[1] if n[:3] == 'im.' else x[0]
    return ctx.norm(subst_atoms(p, mp)) if mp else p


def unfold_zero(ctx, d, depth):
    """unfold one cell, or all of them, of the loop recurrences occurring in d"""
    if getattr(ctx, 'unfolding', 0) > 2:
        return False
    cells = rec_cells(ctx, d)
    if not cells or len(cells) > 4:
        return False
    ctx.unfolding = getattr(ctx, 'unfolding', 0) + 1
    try:
        for which in [[c] for c in cells] + ([list(cells)] if len(cells) > 1 else []):
            def run():
                mp = {}
                for c in which:
                    v = unfold(ctx, *c)
                    if v is None:
                        return False
                    for a in cells[c]:
                        n = atom(a).name
                        x = re_im(v) if n[:3] in ('re.', 'im.') else (v,)
                        mp[a] = x[1] if n[:3] == 'im.' else x[0]
                return zero(ctx, ctx.norm(subst_atoms(d, mp)), depth + 1)
            outs = ctx.explore(run, free=True)
            if outs and all(o.kind == 'ret' and o.value is True for o in outs):
                return True
    finally:
        ctx.unfolding -= 1
    return False


def unify_fd(ctx, d):
    """replace provably equal integer quotients (at any depth) by one of them"""
    fds = sorted(a for a in all_deep(d) if atom(a).kind == 'fd')
    if len(fds) < 2:
        return d
    mp = {}
    for i in range(len(fds)):
        if fds[i] in mp:
            continue
        for j in range(i + 1, len(fds)):
            if fds[j] in mp or atom(fds[i]).args[1] != atom(fds[j]).args[1]:
                continue
            if any(atom(b).kind == 'bvar' for b in atom(fds[i]).free | atom(fds[j]).free):
                continue
            for k in (0, 1, -1):
                if ctx.entails(eq(P(atom(fds[i])) + k, P(atom(fds[j]))), 1):
                    mp[fds[j]] = P(atom(fds[i])) + k
                    break
    return subst(d, mp) if mp else d


def all_deep(d):
    seen = set()
    st = [d]
    while st:
        p = st.pop()
        for a in p.atoms():
            if a not in seen:
                seen.add(a)
                for x in atom(a).args:
                    if isinstance(x, Poly):
                        st.append(x)
                    elif isinstance(x, Cond):
                        st.extend(cond_polys_(x))
    return seen


def cond_polys_(c):
    from ctx import cond_polys
    return cond_polys(c)


def has_only_vars(d):
    return all(atom(a).kind in ('var', 'fd') for a in d.atoms())


def strip_common(d):
    ms = [dict(m) for m in d.t]
    com = dict(ms[0])
    for m in ms[1:]:
        com = {a: min(e, m.get(a, 0)) for a, e in com.items() if a in m}
    com = {a: e for a, e in com.items() if e > 0 and atom(a).sort != 'i'}
    if not com:
        return d
    out = {}
    for m, c in d.t.items():
        mm = dict(m)
        for a, e in com.items():
            mm[a] -= e
        out[tuple(sorted((a, e) for a, e in mm.items() if e))] = c
    return Poly(out)


def clear_inv(ctx, d):
    for _ in range(30):
        neg = {}
        invs = {}
        for m in d.t:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
                elif atom(a).kind == 'inv':
                    invs[a] = max(invs.get(a, 0), e)
        if not neg and not invs:
            return d
        for a, e in neg.items():
            d = d * P(atom(a)) ** (-e)
        if neg:
            continue
        a, e = next(iter(invs.items()))
        q = atom(a).args[0]
        # multiply by q**e: terms with inv^k become q^(e-k)
        r = ZERO
        for m, c in d.t.items():
            k = dict(m).get(a, 0)
            rest = Poly({tuple(x for x in m if x[0] != a): c})
            r = r + rest * q ** (e - k)
        d = r
    return d


def unify(ctx, d, depth):
    ats = [a for a in d.atoms()]
    groups = {}
    for a in ats:
        at = atom(a)
        if at.kind in ('app', 'fd', 'sqrt', 'inv'):
            k = at.name
            base = k[3:] if k[:3] in ('re.', 'im.') else k
            pre = k[:3] if base != k else ''
            if base in ctx.fundefs:
                k = (pre, ctx.fundefs[base][0])
                groups.setdefault((at.kind, k, 0), []).append(a)
                continue
            groups.setdefault((at.kind, k, len(at.args)), []).append(a)
    mp = {}
    for (kind, k, n), lst in groups.items():
        lst.sort()
        for i in range(len(lst)):
            if lst[i] in mp:
                continue
            for j in range(i + 1, len(lst)):
                if lst[j] in mp:
                    continue
                if atoms_equal(ctx, atom(lst[i]), atom(lst[j]), depth):
                    mp[lst[j]] = P(atom(lst[i]))
    # single application: value of a functional whose arguments are fully known
    if not mp:
        return d
    return subst_atoms(d, mp)


def subst_atoms(d, mp):
    r = ZERO
    for m, c in d.t.items():
        x = Poly({tuple((a, e) for a, e in m if a not in mp): c})
        for a, e in m:
            if a in mp:
                x = x * mp[a] ** e
        r = r + x
    return r


def atoms_equal(ctx, x, y, depth):
    if x.kind in ('sqrt', 'inv'):
        return zero(ctx, x.args[0] - y.args[0], depth + 1)
    bx = x.name[3:] if x.name[:3] in ('re.', 'im.') else x.name
    by = y.name[3:] if y.name[:3] in ('re.', 'im.') else y.name
    if bx != by:
        return functional_equal(ctx, bx, x.args, by, y.args, depth)
    if bx in ctx.fundefs:
        if args_eq(ctx, x.args, y.args):
            return True
        return functional_equal(ctx, bx, x.args, by, y.args, depth)
    return args_eq(ctx, x.args, y.args)


def args_eq(ctx, xs, ys):
    for p, q in zip(xs, ys):
        d = ctx.norm(p - q)
        if d.is_zero():
            continue
        if d.const() is not None:
            return False
        if d.is_intsort():
            if not ctx.entails(eq0(d), 2):
                return False
        elif not zero(ctx, d, 3):
            return False
    return True


def functional_equal(ctx, bx, ax, by, ay, depth):
    if depth > 3:
        return False
    k1, s1, g1, r1 = NP.functional_elem(ctx, bx, list(ax))
    k2, s2, g2, r2 = NP.functional_elem(ctx, by, list(ay))
    if k1 != k2 or len(s1) != len(s2) or len(r1) != len(r2):
        return False
    if not args_eq(ctx, r1, r2) or not args_eq(ctx, s1, s2):
        return False
    return all_index(ctx, s1, lambda b: zero(ctx, g1(b) - g2(b), depth + 1))


def all_index(ctx, shape, pred):
    b = [ctx.fresh('x') for _ in shape]

    def run():
        for x, n in zip(b, shape):
            ctx.assume(ge0(x))
            ctx.assume(lt(x, n))
        if not pred(b):
            return False
        return True
    outs = ctx.explore(run, locals_=b)
    return all(o.kind == 'ret' and o.value is True for o in outs)


# ------------------------------------------------------------------ sums
def sums(ctx, d, depth):
    """cancel sum atoms pairwise"""
    for _ in range(12):
        ss = []
        for m, c in d.t.items():
            sa = [a for a, e in m if atom(a).kind == 'sum' and e == 1]
            if len(sa) == 1:
                rest = tuple((a, e) for a, e in m if a != sa[0])
                ss.append((m, c, sa[0], rest))
        done = True
        for i in range(len(ss)):
            for j in range(i + 1, len(ss)):
                m1, c1, s1, r1 = ss[i]
                m2, c2, s2, r2 = ss[j]
                if s1 == s2:
                    continue
                R = sum_ratio(ctx, s1, s2, Poly({r1: c1}), Poly({r2: c2}), depth)
                if R is not None:
                    # s1*r1 + s2*r2 = R
                    out = {m: c for m, c in d.t.items() if m not in (m1, m2)}
                    d = Poly(out) + R
                    done = False
                    break
            if not done:
                break
        if done:
            return d
    return d


def sum_ratio(ctx, s1, s2, f1, f2, depth):
    """the value of f1*s1 + f2*s2 when all but a few terms cancel, else None"""
    b1, h1, c1, x1 = atom(s1).args
    b2, h2, c2, x2 = atom(s2).args
    k = ctx.norm(h1 - h2).as_int()
    if k is None:
        if ctx.entails(eq(h1, h2), 2):
            k = 0
        elif ctx.entails(And(ge(h1, h2), ge0(h2)), 2):
            return sum_align(ctx, s1, s2, f1, f2, depth)
        elif ctx.entails(And(ge(h2, h1), ge0(h1)), 2):
            return sum_align(ctx, s2, s1, f2, f1, depth)
        elif not c1 and not c2:
            return None
        else:
            k = 0
    if k < 0:
        return sum_ratio(ctx, s2, s1, f2, f1, depth)
    if k and (k > 4 or c1 or c2):
        if ctx.entails(ge0(h2), 2):
            return sum_align(ctx, s1, s2, f1, f2, depth)
        return None
    if k and not ctx.entails(ge0(h2), 2):
        return None
    i1, i2 = b1.as_atom().id, b2.as_atom().id
    t = ctx.fresh('s')
    for lowpeel in ((True, False) if k else (True,)):
        t1 = {i1: t + k if lowpeel else t}
        for rev in (False, True):
            t2 = {i2: (h2 - 1 - t) if rev else t}

            def run():
                ctx.assume(ge0(t))
                ctx.assume(lt(t, h1 - k))
                v1 = f1 * subst(x1, t1) if (not c1 or ctx.decide(And(*[c.subst(t1) for c in c1]))) else ZERO
                v2 = f2 * subst(x2, t2) if (not c2 or ctx.decide(And(*[c.subst(t2) for c in c2]))) else ZERO
                return zero(ctx, v1 + v2, depth + 1)
            outs = ctx.explore(run, locals_=[t])
            if all(o.kind == 'ret' and o.value is True for o in outs):
                r = ZERO
                for j in range(k):
                    r = r + f1 * subst(x1, {i1: P(j) if lowpeel else h2 + j})
                return r
    return None


def sum_align(ctx, s1, s2, f1, f2, depth):
    """h1 >= h2 >= 0: the shorter sum cancels against the first or last part of the longer one"""
    b1, h1, c1, x1 = atom(s1).args
    b2, h2, c2, x2 = atom(s2).args
    i1, i2 = b1.as_atom().id, b2.as_atom().id
    t = ctx.fresh('s')
    k = h1 - h2
    for off in (ZERO, k):
        t1 = {i1: t + off}
        for rev in (False, True):
            t2 = {i2: (h2 - 1 - t) if rev else t}

            def run():
                ctx.assume(ge0(t))
                ctx.assume(lt(t, h2))
                v1 = f1 * subst(x1, t1) if (not c1 or ctx.decide(And(*[c.subst(t1) for c in c1]))) else ZERO
                v2 = f2 * subst(x2, t2) if (not c2 or ctx.decide(And(*[c.subst(t2) for c in c2]))) else ZERO
                return zero(ctx, v1 + v2, depth + 1)
            outs = ctx.explore(run, locals_=[t])
            if all(o.kind == 'ret' and o.value is True for o in outs):
                o2 = h2 if off.is_zero() else ZERO
                v = P(mk_atom('bvar', ('al', atom(s1).depth), (), 'i'))
                mp = {i1: v + o2}
                return f1 * mk_sum(v, ZERO, k, tuple(c.subst(mp) for c in c1), subst(x1, mp))
    return None


# ------------------------------------------------------------------ products
def prods(ctx, d, depth):
    """bring products with the same factors to the same atom; peel the difference of their lengths"""
    for _ in range(8):
        ps = sorted(a for a in d.atoms() if atom(a).kind == 'prod')
        done = True
        for i in range(len(ps)):
            for j in range(i + 1, len(ps)):
                r = prod_ratio(ctx, ps[i], ps[j], depth)
                if r is not None:
                    d = subst_atoms(d, r)
                    done = False
                    break
            if not done:
                break
        if done:
            return d
    return d


def prod_ratio(ctx, p1, p2, depth):
    b1, h1, _, x1 = atom(p1).args
    b2, h2, _, x2 = atom(p2).args
    k = ctx.norm(h1 - h2).as_int()
    if k is None:
        if not ctx.entails(eq(h1, h2), 2):
            return None
        k = 0
    if k < 0:
        return prod_ratio(ctx, p2, p1, depth)
    if k > 4 or (k and not ctx.entails(ge0(h2), 2)):
        return None
    i1, i2 = b1.as_atom().id, b2.as_atom().id
    t = ctx.fresh('s')
    for low in ((True, False) if k else (True,)):       # peel the first or the last factors
        for rev in (False, True):
            def run():
                ctx.assume(ge0(t))
                ctx.assume(lt(t, h1 - k))
                v1 = subst(x1, {i1: t + k if low else t})
                v2 = subst(x2, {i2: (h2 - 1 - t) if rev else t})
                return zero(ctx, v1 - v2, depth + 1)
            outs = ctx.explore(run, locals_=[t])
            if all(o.kind == 'ret' and o.value is True for o in outs):
                r = P(atom(p2))
                for j in range(k):
                    r = r * subst(x1, {i1: P(j) if low else h2 + j})
                return {p1: r}
    return None


def prove_eq(ctx, a, b, label):
    if ctx.suspend_vc:
        return True
    if T_.SYMFD[0]:
        import arrays
        a, b = arrays.simp_poly(ctx, P(a)), arrays.simp_poly(ctx, P(b))
    ok = equal(ctx, a, b)
    return ctx.record(label, ok, '%r == %r' % (ctx.norm(P(a)), ctx.norm(P(b))), 'term')
