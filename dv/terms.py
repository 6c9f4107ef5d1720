"""Canonical symbolic terms.

Poly: polynomial with rational coefficients over hash-consed atoms (exponents may be
negative for atoms used as monomial denominators).  All atoms denote real numbers except
the imaginary unit I and the unit-modulus atoms IP(m) = i**m.
Sorts: 'i' integer, 'r' real, 'c' the complex units.
"""
from fractions import Fraction
import itertools

_atoms = []          # id -> Atom
_table = {}


class Atom(object):
    __slots__ = ('id', 'kind', 'name', 'args', 'sort', 'free', 'depth')

    def __repr__(self):
        return show_atom(self)


def _args_free(args):
    fr = set()
    d = 0
    for a in args:
        if isinstance(a, Poly):
            fr |= a.free()
            d = max(d, a.depth())
        elif isinstance(a, tuple):
            f2, d2 = _args_free(a)
            fr |= f2
            d = max(d, d2)
        elif hasattr(a, 'free'):
            fr |= a.free()
            d = max(d, a.depth())
    return fr, d


def mk_atom(kind, name, args=(), sort='r'):
    key = (kind, name, tuple(a.key() if hasattr(a, 'key') else a for a in args), sort)
    at = _table.get(key)
    if at is None:
        at = Atom()
        at.id = len(_atoms)
        at.kind, at.name, at.args, at.sort = kind, name, args, sort
        if kind in ('var', 'bvar'):
            at.free = frozenset([at.id])
            at.depth = 0
        else:
            fr, d = _args_free(args)
            at.depth = d
            if kind in ('sum', 'prod'):
                # args: (bound atom poly, hi, conds tuple, body)
                bid = args[0].as_atom().id
                fr = set(fr)
                fr.discard(bid)
                at.depth = d + 1
            at.free = frozenset(fr)
        _atoms.append(at)
        _table[key] = at
    return at


def atom(i):
    return _atoms[i]


class Poly(object):
    __slots__ = ('t', '_key', '_free', '_depth', '_hash', '_int')

    def __init__(self, terms):
        self.t = terms
        self._key = self._free = self._depth = self._hash = None
        self._int = None

    # -- basics
    def key(self):
        k = self._key
        if k is None:
            k = self._key = ('P', tuple(sorted(self.t.items())))
        return k

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(self.key())
        return self._hash

    def __eq__(self, o):
        if isinstance(o, Poly):
            return self.t == o.t
        if isinstance(o, (int, Fraction)):
            return self.t == P(o).t
        return NotImplemented

    def __ne__(self, o):
        return not self == o

    def free(self):
        """ids of var/bvar atoms occurring free"""
        if self._free is None:
            s = set()
            for m in self.t:
                for a, e in m:
                    s |= _atoms[a].free
            self._free = frozenset(s)
        return self._free

    def depth(self):
        if self._depth is None:
            d = 0
            for m in self.t:
                for a, e in m:
                    d = max(d, _atoms[a].depth)
            self._depth = d
        return self._depth

    def atoms(self):
        return {a for m in self.t for a, e in m}

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def as_int(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def as_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return _atoms[m[0][0]]
        return None

    def is_intsort(self):
        """all atoms integer-sorted with positive exponents (value may still be fractional
        if coefficients are)"""
        if self._int is None:
            r = True
            for m in self.t:
                for a, e in m:
                    if _atoms[a].sort != 'i' or e < 0:
                        r = False
            self._int = r
        return self._int

    def intcoefs(self):
        return all(c.denominator == 1 for c in self.t.values())

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not self.t:
            return o
        if not o.t:
            return self
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m)
            if v is None:
                d[m] = c
            else:
                v = v + c
                if v:
                    d[m] = v
                else:
                    del d[m]
        return Poly(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def scale(self, c):
        if c == 0:
            return ZERO
        return Poly({m: v * c for m, v in self.t.items()})

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        c = o.const()
        if c is not None:
            return self.scale(c)
        c = self.const()
        if c is not None:
            return o.scale(c)
        out = {}
        redo = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, sg, extra = mono_mul(m1, m2)
                c = c1 * c2 * sg
                if extra is not None:
                    redo.append((m, c, extra))
                    continue
                v = out.get(m)
                if v is None:
                    out[m] = c
                else:
                    v += c
                    if v:
                        out[m] = v
                    else:
                        del out[m]
        r = Poly(out)
        for m, c, extra in redo:
            x = Poly({m: c})
            for e in extra:
                x = x * e
            r = r + x
        return r
    __rmul__ = __mul__

    def __pow__(self, k):
        if k == 0:
            return ONE
        if k < 0:
            return inv(self) ** (-k)
        r = ONE
        b = self
        while k:
            if k & 1:
                r = r * b
            b = b * b if k > 1 else b
            k >>= 1
        return r

    def __truediv__(self, o):
        o = P(o)
        c = o.const()
        if c is not None:
            if c == 0:
                raise ZeroDivisionError
            return self.scale(Fraction(1) / c)
        return self * inv(o)

    def __rtruediv__(self, o):
        return P(o) / self

    def __repr__(self):
        return show(self)


def mono_mul(m1, m2):
    """-> (mono, sign, extra polys or None)"""
    if not m1:
        return m2, 1, None
    if not m2:
        return m1, 1, None
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    sg = 1
    extra = None
    out = []
    ws = []
    for a in sorted(d):
        e = d[a]
        if e == 0:
            continue
        at = _atoms[a]
        k = at.kind
        if k == 'I':
            e %= 4
            if e >= 2:
                sg = -sg
                e -= 2
            if e == 0:
                continue
        elif k == 'ip':
            e %= 4
            if e == 0:
                continue
        elif k == 'W':
            ws.append((at, e))
            continue
        elif k == 'sqrt':
            q, r = divmod(e, 2)
            if q:
                extra = (extra or [])
                extra.append(at.args[0] ** q)
            e = r
            if e == 0:
                continue
        elif k == 'inv' and e < 0:
            extra = (extra or [])
            extra.append(at.args[0] ** (-e))
            continue
        out.append((a, e))
    if ws:
        if len(ws) == 1 and ws[0][1] == 1:
            out = sorted(out + [(ws[0][0].id, 1)])
        else:
            g = {}
            for at, e in ws:
                k = (at.name, at.args[1])
                g[k] = g.get(k, ZERO) + at.args[0].scale(Fraction(e))
            extra = (extra or []) + [W(e, N, nm) for (nm, N), e in g.items()]
    return tuple(out), sg, extra


def W(e, N, name='W-'):
    """exp(-+ 2 pi i e / N) for an integer polynomial e; N = p * (product of positive integers).  Normal form by the
    laws of roots of unity: period N; with w = W(N/p), 1 + w + ... + w**(p-1) = 0 for a prime p, w = -+i for p = 4"""
    e, N = P(e), P(N)
    if len(N.t) != 1:
        if e.is_zero():
            return ONE
        return P(mk_atom('W', name, (e, N), 'c'))
    (nm, c), = N.t.items()
    e = polydiv(e, N)[1]
    k = 0
    p = int(c)
    if p > 1:
        k = e.t.get(nm, 0)
        k = int(k) % p if Fraction(k).denominator == 1 else 0
        if nm in e.t and Fraction(e.t[nm]).denominator == 1:
            e = Poly({m: x for m, x in e.t.items() if m != nm})
    r = ONE if e.is_zero() else P(mk_atom('W', name, (e, N), 'c'))
    if k == 0:
        return r
    if p == 4:
        j = -I if name == 'W-' else I
        return r * j ** k
    u = Poly({nm: Fraction(1)})

    def at(x):
        return P(mk_atom('W', name, (x, N), 'c'))
    if p in (2, 3, 5, 7) and k == p - 1:
        s = -ONE * r
        for j in range(1, p - 1):
            s = s - at(e + u.scale(j))
        return s
    return at(e + u.scale(k))


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})
_pcache = {}


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        r = _pcache.get(x)
        if r is None:
            r = Poly({(): Fraction(x)}) if x else ZERO
            _pcache[x] = r
        return r
    if isinstance(x, Fraction):
        return Poly({(): x}) if x else ZERO
    if isinstance(x, Atom):
        return Poly({((x.id, 1),): Fraction(1)})
    raise TypeError("P(%r)" % (x,))


I_ATOM = mk_atom('I', 'i', (), 'c')
I = P(I_ATOM)
PI = P(mk_atom('var', 'pi', (), 'r'))


def var(name, sort='i'):
    return P(mk_atom('var', name, (), sort))


def bvar(d):
    return P(mk_atom('bvar', d, (), 'i'))


def app(name, args, sort='r'):
    if name in ('cos', 'sin'):              # parity: one sign of the argument
        x = P(args[0])
        if x.is_zero():
            return ONE if name == 'cos' else ZERO
        if lead(x) < 0:
            r = app(name, [-x], sort)
            return r if name == 'cos' else -r
    return P(mk_atom('app', name, tuple(P(a) for a in args), sort))


def lead(p):
    """leading coefficient in canonical order"""
    m = max(p.t)
    return p.t[m]


def inv(p):
    c = p.const()
    if c == 0:
        return app('1/0', [])           # a quotient is a total function with an unknown value at 0
    if c is not None:
        return P(Fraction(1) / c)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = P(Fraction(1) / c)
        for a, e in m:
            at = _atoms[a]
            if at.kind == 'I':
                r = r * (-I if e == 1 else -ONE)
            elif at.kind == 'ip':
                r = r * Poly({((a, (-e) % 4),): Fraction(1)})
            elif at.kind == 'W':
                r = r * W(at.args[0].scale(Fraction(-e)), at.args[1], at.name)
            elif at.kind == 'sqrt':
                # 1/s = s / p
                r = r * P(at) * inv(at.args[0])
            elif at.kind == 'inv':
                r = r * at.args[0] ** e
            else:
                r = r * Poly({((a, -e),): Fraction(1)})
        return r
    if has_cplx(p) or any(_atoms[a].kind in ('I', 'ip') for a in p.atoms()):
        n2 = p * conj(p)                # the atom 'inv' stands for a real number
        if any(cplx(a) or _atoms[a].kind in ('I', 'ip') for a in n2.atoms()):
            r = P(mk_atom('inv', 'inv', (p,), 'c'))     # not recognised as real: a complex atom
            _cplx[r.as_atom().id] = True
            return r
        return conj(p) * inv(n2)
    lc = lead(p)
    q = p.scale(Fraction(1) / lc)
    return P(mk_atom('inv', 'inv', (q,), 'r')).scale(Fraction(1) / lc)


def sqrt(p):
    c = p.const()
    if c is not None:
        n, d = c.numerator, c.denominator
        import math
        if n >= 0:
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return P(Fraction(rn, rd))
    if len(p.t) == 1:        # c * pi^k: square factors pulled out
        (m, k), = p.t.items()
        if k > 0 and all(_atoms[a].kind == 'var' and _atoms[a].name == 'pi' for a, e in m) and k.numerator * k.denominator < 10 ** 6:
            v = k.numerator * k.denominator
            r = Fraction(1, k.denominator)
            q = 2
            while q * q <= v:
                while v % (q * q) == 0:
                    v //= q * q
                    r *= q
                q += 1
            rest, out = P(v), P(r)
            for a, e in m:
                h = e // 2
                if h:
                    out = out * Poly({((a, h),): Fraction(1)})
                if e % 2:
                    rest = rest * P(_atoms[a])
            if rest == ONE:
                return out
            return out * P(mk_atom('sqrt', 'sqrt', (rest,), 'r'))
    return P(mk_atom('sqrt', 'sqrt', (p,), 'r'))


def ip(p):
    """i ** p for an integer polynomial p with integer coefficients"""
    r = ONE
    for m, c in p.t.items():
        assert c.denominator == 1
        k = int(c) % 4
        if m == ():
            r = r * (ONE, I, -ONE, -I)[k]
        elif k:
            a = mk_atom('ip', 'ip', (Poly({m: Fraction(1)}),), 'c')
            r = r * Poly({((a.id, k),): Fraction(1)})
    return r


def cplx(a):
    """atoms other than I and IP that are not real"""
    r = _cplx.get(a)
    if r is None:
        at = _atoms[a]
        r = at.kind == 'W' or at.kind in ('sum', 'prod') and any(cplx(x) or _atoms[x].kind in ('I', 'ip') for x in at.args[3].atoms())
        _cplx[a] = r
    return r


_cplx = {}


def has_cplx(p):
    return any(cplx(a) for a in p.atoms())


def conj_atom(a):
    at = _atoms[a]
    if at.kind == 'W':
        return W(-at.args[0], at.args[1], at.name)
    if at.kind == 'inv':
        return inv(conj(at.args[0]))
    b, hi, conds, body = at.args
    return (mk_sum if at.kind == 'sum' else mk_prod)(b, ZERO, hi, conds, conj(body))


def conj(p):
    if has_cplx(p):
        r = ZERO
        for m, c in p.t.items():
            x = conj(Poly({tuple((a, e) for a, e in m if not cplx(a)): c}))
            for a, e in m:
                if cplx(a):
                    x = x * conj_atom(a) ** e
            r = r + x
        return r
    out = {}
    for m, c in p.t.items():
        mm = []
        for a, e in m:
            k = _atoms[a].kind
            if k == 'I':
                c = -c if e % 2 else c
            elif k == 'ip':
                e = (-e) % 4
            mm.append((a, e))
        mm = tuple(mm)
        out[mm] = out.get(mm, 0) + c
    return Poly({m: c for m, c in out.items() if c})


def has_ip(p):
    return any(_atoms[a].kind == 'ip' or cplx(a) for a in p.atoms())


def re_im(p):
    """real and imaginary part (no IP atoms allowed)"""
    if has_cplx(p):
        q = conj(p)
        return (p + q).scale(Fraction(1, 2)), ((p - q) * I).scale(Fraction(-1, 2))
    re, im = {}, {}
    for m, c in p.t.items():
        mm = []
        isim = False
        for a, e in m:
            k = _atoms[a].kind
            if k == 'I':
                isim = True
            elif k == 'ip':
                raise ValueError('re_im of IP')
            else:
                mm.append((a, e))
        (im if isim else re)[tuple(mm)] = c
    return Poly(re), Poly(im)


def floordiv(p, q):
    """floor(p/q) for integer-valued p, q>0"""
    p, q = P(p), P(q)
    qc = q.const()
    if qc is not None:
        # common denominator
        den = 1
        for c in p.t.values():
            den = den * c.denominator // _gcd(den, c.denominator)
        d = qc * den
        n = p.scale(Fraction(den))
        if d.denominator != 1:
            n = n.scale(Fraction(d.denominator))
            d = d * d.denominator
        d = int(d)
        if d < 0:
            n, d = -n, -d
        quo, rem = {}, {}
        for m, c in n.t.items():
            c = int(c)
            a, b = divmod(c, d)
            if m != () and b * 2 > d:       # prefer small remainders
                a, b = a + 1, b - d
            if a:
                quo[m] = Fraction(a)
            if b:
                rem[m] = Fraction(b)
        quo, rem = Poly(quo), Poly(rem)
        rc = rem.const()
        if rc is not None:
            return quo + (int(rc) // d)
        g = d
        for m, c in rem.t.items():
            if m != ():
                g = _gcd(g, int(c))
        if g > 1:
            # floor((g*r' + c0)/(g*d')) = floor((r' + floor(c0/g))/d')
            c0 = int(rem.t.get((), 0))
            r2 = Poly({m: c / g for m, c in rem.t.items() if m != ()}) + (c0 // g)
            if d // g == 1:
                return quo + r2
            return quo + floordiv(r2, P(d // g))
        return quo + P(mk_atom('fd', 'fd', (rem, P(d)), 'i'))
    if p.is_zero():
        return ZERO
    quo, rem = polydiv(p, q)
    if rem.is_zero():
        return quo
    SYMFD[0] = True
    return quo + P(mk_atom('fd', 'fd', (rem, q), 'i'))


SYMFD = [False]                 # a quotient by a symbolic divisor exists
_symfd_cache = {}


def sym_fds(p):
    """quotients by a symbolic divisor inside p, at any depth"""
    out = set()
    for a in p.atoms():
        r = _symfd_cache.get(a)
        if r is None:
            at = _atoms[a]
            r = set()
            st = [x for x in at.args]
            while st:
                x = st.pop()
                if isinstance(x, Poly):
                    r |= sym_fds(x)
                elif isinstance(x, tuple):
                    st.extend(x)
            if at.kind == 'fd' and at.args[1].const() is None:
                r.add(a)
            r = _symfd_cache[a] = frozenset(r)
        out |= r
    return out


def _gcd(a, b):
    import math
    return math.gcd(a, b)


def polydiv(p, q):
    """divide by a monomial q: returns (quotient, remainder), quotient with integer coefs"""
    if len(q.t) != 1:
        # try exact multiple
        return ZERO, p
    (qm, qc), = q.t.items()
    qd = dict(qm)
    quo, rem = {}, {}
    for m, c in p.t.items():
        d = dict(m)
        ok = all(d.get(a, 0) >= e for a, e in qd.items())
        cc = c / qc
        if ok and cc.denominator == 1:
            for a, e in qd.items():
                d[a] -= e
            mm = tuple(sorted((a, e) for a, e in d.items() if e))
            quo[mm] = quo.get(mm, 0) + cc
        else:
            rem[m] = c
    return Poly({m: c for m, c in quo.items() if c}), Poly(rem)


# ------------------------------------------------------------------ substitution
_subst_cache = {}


def subst(p, mp):
    """mp: dict atom id -> Poly (for var/bvar atoms, or any atom)"""
    if not mp:
        return p
    keys = mp.keys()
    if not isinstance(p, Poly):
        return subst_any(p, mp)
    if p.free().isdisjoint(keys) and p.atoms().isdisjoint(keys):
        if not any(_atoms[k].kind not in ('var', 'bvar') for k in keys):
            return p
    mk = tuple(sorted((k, v.key()) for k, v in mp.items()))
    ck = (p.key(), mk)
    r = _subst_cache.get(ck)
    if r is not None:
        return r
    res = ZERO
    plain = {}
    for m, c in p.t.items():
        fac = None
        rest = []
        for a, e in m:
            b = subst_atom(a, mp)
            if b is None:
                rest.append((a, e))
            else:
                x = b ** e
                fac = x if fac is None else fac * x
        if fac is None:
            plain[m] = c
        else:
            res = res + Poly({tuple(rest): c}) * fac
    r = res + Poly(plain)
    if len(_subst_cache) > 400000:
        _subst_cache.clear()
    _subst_cache[ck] = r
    return r


def subst_atom(a, mp):
    """None if unchanged else Poly"""
    if a in mp:
        return mp[a]
    at = _atoms[a]
    if at.kind in ('var', 'bvar', 'I'):
        return None
    if at.free.isdisjoint(mp.keys()) and all(_atoms[k].kind in ('var', 'bvar') for k in mp):
        return None
    return rebuild(at, lambda x: subst(x, mp), mp)


def subst_any(x, mp):
    if isinstance(x, Poly):
        return subst(x, mp)
    if isinstance(x, tuple):
        return tuple(subst_any(y, mp) for y in x)
    if hasattr(x, 'subst'):
        return x.subst(mp)
    return x


def rebuild(at, f, mp=None):
    """apply f to argument polys and renormalise; None if unchanged"""
    k = at.kind
    if k in ('sum', 'prod'):
        b, hi, conds, body = at.args
        bid = b.as_atom().id
        mp2 = {q: v for q, v in (mp or {}).items() if q != bid}
        # avoid capture: rename bound var to a fresh placeholder if needed
        fresh = P(mk_atom('bvar', ('s', next(_cnt)), (), 'i'))
        ren = {bid: fresh}
        body2 = subst(subst(body, ren), mp2)
        conds2 = tuple(subst_any(subst_any(c, ren), mp2) for c in conds)
        hi2 = subst(hi, mp2)
        f2 = mk_sum if k == 'sum' else mk_prod
        return f2(fresh, ZERO, hi2, conds2, body2)
    args = tuple(f(x) if isinstance(x, Poly) else subst_any(x, mp or {}) for x in at.args)
    if all((x is y) or x == y for x, y in zip(args, at.args)):
        return None
    if k == 'sqrt':
        return sqrt(args[0])
    if k == 'inv':
        return inv(args[0])
    if k == 'ip':
        return ip(args[0])
    if k == 'W':
        return W(args[0], args[1], at.name)
    if k == 'fd':
        return floordiv(args[0], args[1])
    if k == 'app':
        return app(at.name, args, at.sort)
    return P(mk_atom(k, at.name, args, at.sort))


def map_apps(p, f):
    """replace app atoms (at any depth): f(name, args) -> new name, Poly, or None (unchanged)"""
    if isinstance(p, tuple):
        return tuple(map_apps(x, f) for x in p)
    if not isinstance(p, Poly):
        return p.map_polys(lambda q: map_apps(q, f)) if hasattr(p, 'map_polys') else p
    mp = {}
    for a in p.atoms():
        at = _atoms[a]
        if at.kind in ('var', 'bvar', 'I'):
            continue
        args = tuple(map_apps(x, f) for x in at.args)
        same = all(x is y or x == y for x, y in zip(args, at.args))
        if at.kind == 'app':
            r = f(at.name, args)
            if r is None and same:
                continue
            mp[a] = r if isinstance(r, Poly) else app(at.name if r is None else r, args, at.sort)
        elif same:
            continue
        elif at.kind == 'sum':
            mp[a] = mk_sum(args[0], ZERO, args[1], args[2], args[3])
        elif at.kind == 'prod':
            mp[a] = mk_prod(args[0], ZERO, args[1], args[2], args[3])
        elif at.kind == 'sqrt':
            mp[a] = sqrt(args[0])
        elif at.kind == 'inv':
            mp[a] = inv(args[0])
        elif at.kind == 'ip':
            mp[a] = ip(args[0])
        elif at.kind == 'W':
            mp[a] = W(args[0], args[1], at.name)
        elif at.kind == 'fd':
            mp[a] = floordiv(args[0], args[1])
        else:
            mp[a] = P(mk_atom(at.kind, at.name, args, at.sort))
    if not mp:
        return p
    r = ZERO
    for m, c in p.t.items():
        x = Poly({tuple((a, e) for a, e in m if a not in mp): c})
        for a, e in m:
            if a in mp:
                x = x * mp[a] ** e
        r = r + x
    return r


_cnt = itertools.count()


# ------------------------------------------------------------------ sums and products
def mk_sum(b, lo, hi, conds, body):
    """sum over lo<=b<hi with conds of body (Poly).  b is a placeholder atom Poly.
    Canonical: lower bound 0, split into b-dependent monomials, bound var by depth."""
    bid = b.as_atom().id
    if not lo.is_zero():
        sh = {bid: b + lo}
        body = subst(body, sh)
        conds = tuple(subst_any(c, sh) for c in conds)
        hi = hi - lo
    h = hi.as_int()
    if h is not None and h <= 0:
        return ZERO
    if h is not None and h <= 4 and not conds:
        r = ZERO
        for j in range(h):
            r = r + subst(body, {bid: P(j)})
        return r
    conds = tuple(sorted(set(c for c in conds if not c.is_true()), key=lambda c: repr(c.key())))
    if any(c.is_false() for c in conds):
        return ZERO
    # group terms by their b-dependent part
    groups = {}
    for m, c in body.t.items():
        dep, ind = [], []
        for a, e in m:
            (dep if bid in _atoms[a].free else ind).append((a, e))
        groups.setdefault(tuple(dep), {})[tuple(ind)] = c
    r = ZERO
    for dep, ind in groups.items():
        dp = Poly({dep: Fraction(1)})
        if dep == () and not conds:
            # constant summand: hi may be <=0 -> keep count atom unless const
            if h is not None:
                r = r + Poly(ind).scale(Fraction(h))
                continue
        d = dp.depth()
        for cc in conds:
            d = max(d, cc.depth())
        nb = bvar(d + 1)
        mp = {bid: nb}
        at = mk_atom('sum', 'sum', (nb, hi, tuple(subst_any(c, mp) for c in conds),
                                    subst(dp, mp)), 'r')
        r = r + Poly(ind) * P(at)
    return r


def mk_prod(b, lo, hi, conds, body):
    bid = b.as_atom().id
    if not lo.is_zero():
        sh = {bid: b + lo}
        body = subst(body, sh)
        hi = hi - lo
    h = hi.as_int()
    if h is not None and h <= 0:
        return ONE
    if h is not None and h <= 4:
        r = ONE
        for j in range(h):
            r = r * subst(body, {bid: P(j)})
        return r
    nb = bvar(body.depth() + 1)
    body = subst(body, {bid: nb})
    return P(mk_atom('prod', 'prod', (nb, hi, (), body), 'r'))


# ------------------------------------------------------------------ printing
def show_atom(a):
    if a.kind == 'I':
        return 'I'
    if a.kind in ('var',):
        return str(a.name)
    if a.kind == 'bvar':
        return 'b%s' % (a.name,)
    if a.kind in ('sum', 'prod'):
        b, hi, conds, body = a.args
        return '%s{%r<%r%s}[%r]' % (a.kind, b, hi, (' if %r' % (conds,)) if conds else '', body)
    if a.kind == 'fd':
        return '(%r//%r)' % a.args
    return '%s(%s)' % (a.name, ', '.join(repr(x) for x in a.args))


def show(p):
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items()):
        f = []
        for a, e in m:
            s = show_atom(_atoms[a])
            f.append(s if e == 1 else '%s^%d' % (s, e))
        if not f:
            out.append(str(c))
        elif c == 1:
            out.append('*'.join(f))
        elif c == -1:
            out.append('-' + '*'.join(f))
        else:
            out.append('%s*%s' % (c, '*'.join(f)))
    return ' + '.join(out).replace('+ -', '- ')
