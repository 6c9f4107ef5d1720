"""Boolean conditions over terms, in normal form."""
from fractions import Fraction
from math import gcd
from terms import *
import terms as T


class Cond(object):
    __slots__ = ('op', 'a', '_key', '_free', '_depth')

    def __init__(self, op, a):
        self.op, self.a = op, a
        self._key = self._free = self._depth = None

    def key(self):
        if self._key is None:
            self._key = ('C', self.op) + tuple(x.key() if hasattr(x, 'key') else x for x in self.a)
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Cond) and self.key() == o.key()

    def free(self):
        if self._free is None:
            s = set()
            for x in self.a:
                if hasattr(x, 'free'):
                    s |= x.free()
            self._free = frozenset(s)
        return self._free

    def depth(self):
        if self._depth is None:
            self._depth = max([0] + [x.depth() for x in self.a if hasattr(x, 'depth')])
        return self._depth

    def is_true(self):
        return self.op == 'T'

    def is_false(self):
        return self.op == 'F'

    def subst(self, mp):
        if self.op in 'TF':
            return self
        if self.op == 'ge':
            return ge0(subst(self.a[0], mp))
        if self.op == 'gt':
            return gt0(subst(self.a[0], mp))
        if self.op == 'eq':
            return eq0(subst(self.a[0], mp))
        if self.op == 'not':
            return Not(self.a[0].subst(mp))
        if self.op == 'and':
            return And(*[x.subst(mp) for x in self.a])
        if self.op == 'or':
            return Or(*[x.subst(mp) for x in self.a])
        if self.op == 'b':
            return Cond('b', tuple(T.subst_any(x, mp) for x in self.a))
        raise AssertionError(self.op)

    def map_polys(self, f):
        """apply f to every term of the condition"""
        if self.op in 'TF':
            return self
        if self.op in ('ge', 'gt', 'eq'):
            return {'ge': ge0, 'gt': gt0, 'eq': eq0}[self.op](f(self.a[0]))
        if self.op == 'not':
            return Not(self.a[0].map_polys(f))
        if self.op in ('and', 'or'):
            return (And if self.op == 'and' else Or)(*[x.map_polys(f) for x in self.a])
        return Cond('b', tuple(f(x) if isinstance(x, Poly) else x for x in self.a))

    def __repr__(self):
        if self.op in 'TF':
            return {'T': 'True', 'F': 'False'}[self.op]
        if self.op == 'ge':
            return '%r >= 0' % self.a
        if self.op == 'gt':
            return '%r > 0' % self.a
        if self.op == 'eq':
            return '%r == 0' % self.a
        if self.op == 'not':
            x = self.a[0]
            if x.op == 'eq':
                return '%r != 0' % x.a
            return 'not(%r)' % (x,)
        if self.op == 'b':
            return 'B%r' % (self.a,)
        return '(%s)' % ((' %s ' % self.op).join(repr(x) for x in self.a))


TRUE = Cond('T', ())
FALSE = Cond('F', ())


def B(b):
    return TRUE if b else FALSE


def _scale(p):
    """positive scaling to integer coefficients with gcd 1"""
    den = 1
    for c in p.t.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in p.t.values():
        g = gcd(g, int(c * den))
    if den == 1 and g == 1:
        return p
    return p.scale(Fraction(den, g))


def isint(p):
    return p.is_intsort()


def _int_scale(p):
    """integer-valued p with integer coefs: p>=0 tightened"""
    den = 1
    for c in p.t.values():
        den = den * c.denominator // gcd(den, c.denominator)
    if den != 1:
        p = p.scale(Fraction(den))
    g = 0
    for m, c in p.t.items():
        if m != ():
            g = gcd(g, int(c))
    if g > 1:
        c0 = int(p.t.get((), 0))
        p = Poly({m: c / g for m, c in p.t.items() if m != ()}) + (c0 // g)
    return p


def _mono_sign_strip(p):
    """divide a real polynomial by sign-definite common factors? (kept: none)"""
    return p


def ge0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return B(c >= 0)
    if isint(p):
        return Cond('ge', (_int_scale(p),))
    return Cond('ge', (_scale(p),))


def gt0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return B(c > 0)
    if isint(p):
        den = 1
        for c in p.t.values():
            den = den * c.denominator // gcd(den, c.denominator)
        return ge0(p.scale(Fraction(den)) - 1)
    return Cond('gt', (_scale(p),))


def eq0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return B(c == 0)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] > 0 and T.atom(m[0][0]).kind == 'sqrt':
            return eq0(T.atom(m[0][0]).args[0])      # the root of a nonnegative number
    if any(T.atom(a).kind == 'I' for a in p.atoms()):
        if not has_ip(p):
            r, i = re_im(p)
            if not r.is_zero() and not i.is_zero():
                return And(eq0(r), eq0(i))
            return eq0(r if i.is_zero() else i)
    if isint(p):
        den = 1
        for c in p.t.values():
            den = den * c.denominator // gcd(den, c.denominator)
        p = p.scale(Fraction(den))
        g = 0
        for m, c in p.t.items():
            if m != ():
                g = gcd(g, int(c))
        if g > 1:
            c0 = int(p.t.get((), 0))
            if c0 % g:
                return FALSE
            p = p.scale(Fraction(1, g))
    else:
        p = _scale(p)
        if len(p.t) == 1:
            # monomial == 0 iff one of its factors is 0; drop factors known nonzero lazily
            pass
    if lead(p) < 0:
        p = -p
    return Cond('eq', (p,))


def ge(a, b):
    return ge0(P(a) - P(b))


def le(a, b):
    return ge0(P(b) - P(a))


def gt(a, b):
    return gt0(P(a) - P(b))


def lt(a, b):
    return gt0(P(b) - P(a))


def eq(a, b):
    return eq0(P(a) - P(b))


def ne(a, b):
    return Not(eq(a, b))


def Not(c):
    if c.op == 'T':
        return FALSE
    if c.op == 'F':
        return TRUE
    if c.op == 'not':
        return c.a[0]
    if c.op == 'ge':
        return gt0(-c.a[0])
    if c.op == 'gt':
        return ge0(-c.a[0])
    if c.op == 'and':
        return Or(*[Not(x) for x in c.a])
    if c.op == 'or':
        return And(*[Not(x) for x in c.a])
    if c.op == 'eq':
        f = parity_flip(c.a[0])
        if f is not None:
            return eq0(f)
    return Cond('not', (c,))


def parity_flip(p):
    """p == 0 says q is even (q - 2*(q//2) == 0) or odd (... == 1): the term of the opposite statement"""
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 2:
            at = T.atom(m[0][0])
            if at.kind == 'fd' and at.args[1].const() == 2:
                q = at.args[0] - 2 * P(at)
                for s in (1, -1):
                    d = (p - q if s == 1 else p + q).const()
                    if d == 0:
                        return q - 1
                    if d == -s:
                        return q
    return None


def And(*cs):
    out = []
    for c in cs:
        if c.op == 'T':
            continue
        if c.op == 'F':
            return FALSE
        if c.op == 'and':
            out.extend(c.a)
        else:
            out.append(c)
    seen = []
    for c in out:
        if c not in seen:
            seen.append(c)
    if not seen:
        return TRUE
    if len(seen) == 1:
        return seen[0]
    return Cond('and', tuple(seen))


def Or(*cs):
    out = []
    for c in cs:
        if c.op == 'F':
            continue
        if c.op == 'T':
            return TRUE
        if c.op == 'or':
            out.extend(c.a)
        else:
            out.append(c)
    seen = []
    for c in out:
        if c not in seen:
            seen.append(c)
    if not seen:
        return FALSE
    if len(seen) == 1:
        return seen[0]
    return Cond('or', tuple(seen))


def even(p):
    """p even, as an equality on floordiv"""
    p = P(p)
    return eq(p, floordiv(p, P(2)) * 2)


def modp(p, q):
    return P(p) - P(q) * floordiv(P(p), P(q))
