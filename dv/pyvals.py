"""Values of the interpreted Python subset and numeric helpers."""
from arrays import *
import arrays

KORD = {'bool': 0, 'int': 1, 'npint': 2, 'float': 3, 'complex': 4}
DT2K = {'c': 'complex', 'f': 'float', 'i': 'npint', 'b': 'bool', 'O': None}
K2DT = {'complex': 'c', 'float': 'f', 'npint': 'i', 'int': 'i', 'bool': 'b'}


class Obj(object):
    __slots__ = ('oid', 'cls')

    def __init__(self, oid, cls):
        self.oid, self.cls = oid, cls


class ClassV(object):
    def __init__(self, name, bases, d):
        self.name, self.bases, self.d = name, bases, d

    def lookup(self, n):
        if n in self.d:
            return self.d[n]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def __repr__(self):
        return '<class %s>' % self.name


class FuncV(object):
    def __init__(self, name, node, env, mod, defaults, kwdefaults=None):
        self.name, self.node, self.env, self.mod, self.defaults = name, node, env, mod, defaults
        self.qual = self.cls = None


class BoundM(object):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class PropV(object):
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV(object):
    """staticmethod / classmethod in a class body"""

    def __init__(self, fn, iscls):
        self.fn, self.iscls = fn, iscls


class SuperV(object):
    def __init__(self, cls, o):
        self.cls, self.o = cls, o


class ProdV(object):
    """itertools.product of two sequences of symbolic length; the elements of a 2-d array with their indices"""

    def __init__(self, a, b, arr=None):
        self.a, self.b, self.arr = a, b, arr


class Builtin(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class TypeV(object):
    def __init__(self, name, ctor=None, dt=None):
        self.name, self.ctor, self.dt = name, ctor, dt

    def __repr__(self):
        return '<type %s>' % self.name


class ModV(object):
    def __init__(self, name, d):
        self.name, self.d = name, d


class RangeV(object):
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class EnumV(object):
    def __init__(self, it, start=0):
        self.it, self.start = it, start


class ZipV(object):
    def __init__(self, its):
        self.its = its


class RevV(object):
    def __init__(self, it):
        self.it = it


class MapRec(object):
    """content of a dict (never modified)"""

    def __init__(self, d):
        self.d = d


class DictV(object):
    def __init__(self, sid):
        self.sid = sid


class Missing(object):
    """a module the model does not know: using it is undecided"""

    def __init__(self, what):
        self.what = what


class MaskV(object):
    """the elements of arr where mask holds, in order"""

    def __init__(self, arr, mask, rec):
        self.arr, self.mask, self.rec = arr, mask, rec

    def same(self, mask, rec):
        return self.rec is rec and (mask is self.mask or (mask.sid == self.mask.sid and mask.fmap is self.mask.fmap))


class FileV(object):
    __slots__ = ('fid', 'mode', 'pos')

    def __init__(self, fid, mode, pos=None):
        self.fid, self.mode, self.pos = fid, mode, pos


class SymStr(object):
    """string made of literal text and formatted values ('v', value, spec)"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        self.parts = tuple(out)

    def subst(self, mp):
        return SymStr([p if isinstance(p, str) else ('v', vsubst(p[1], mp), p[2]) for p in self.parts])

    def __repr__(self):
        return 'SymStr%r' % (self.parts,)


class Opaque(object):
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


EXC_PARENTS = {
    'AttributeError': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception',
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception', 'AssertionError': 'Exception',
    'ImportError': 'Exception', 'NameError': 'Exception', 'UnboundLocalError': 'NameError',
    'OverflowError': 'ArithmeticError', 'IOError': 'Exception', 'OSError': 'Exception',
    'StopIteration': 'Exception', 'Exception': 'BaseException', 'BaseException': None,
}


def exc_isa(n, m):
    while n is not None:
        if n == m:
            return True
        n = EXC_PARENTS.get(n, 'Exception' if n != 'BaseException' else None)
    return False


class ExcV(object):
    """exception instance"""

    def __init__(self, etype, args=()):
        self.etype, self.args = etype, args


def mknum(p, kind):
    if kind in ('int', 'bool'):
        c = p.as_int()
        if c is not None:
            return c
        kind = 'int'
    return Num(p, kind)


def isnum(v):
    return isinstance(v, (int, Num)) or isinstance(v, SymBool)


def tonum(v):
    """-> (Poly, kind)"""
    if isinstance(v, bool):
        return P(int(v)), 'bool'
    if isinstance(v, int):
        return P(v), 'int'
    if isinstance(v, Num):
        return v.p, v.kind
    raise Unsupported('number expected, got %r' % (v,))


def toint(ctx, v):
    """index-like value -> Poly"""
    if isinstance(v, bool):
        return P(int(v))
    if isinstance(v, int):
        return P(v)
    if isinstance(v, Num) and v.kind in ('int', 'npint'):
        return v.p
    if isinstance(v, Num):
        raise PyExc('TypeError', 'integer required')
    raise Unsupported('integer expected, got %r' % (v,))


def join(k1, k2):
    return k1 if KORD[k1] >= KORD[k2] else k2


def kind_dt(k):
    return K2DT[k]


def elem(v, dt):
    """array element (stored value) to python-level value"""
    if dt == 'O':
        return v
    return Num(v, DT2K[dt])


def is_real(p):
    return not any(atom(a).sort == 'c' for a in p.atoms())


def poly_abs2(p):
    return p * conj(p)


def nonneg(p):
    """a product of square roots, even powers and reciprocals of sums of even powers, or a sum of such (syntactic);
    a reciprocal counts as nonnegative where its argument is not zero"""
    def even(m):
        return all(atom(a).kind == 'sqrt' or atom(a).kind == 'inv' and nonneg(atom(a).args[0]) or
                   e % 2 == 0 and not cplx(a) and atom(a).kind not in ('I', 'ip') for a, e in m)
    return all(not isinstance(c, complex) and c >= 0 and even(m) for m, c in p.t.items())


def poly_abs(ctx, p):
    c = p.const()
    if c is not None:
        return P(abs(c))
    return sqrt(poly_abs2(p))


def quot(ctx, a, b):
    """floor(a/b) for b > 0; small quotients by a symbolic divisor are decided by cases"""
    if b.const() is not None:
        return floordiv(a, b)
    q = ctx.norm(floordiv(a, b))
    if not any(atom(x).kind == 'fd' for x in q.atoms()):
        return q
    for k in (0, 1, -1):
        if ctx.decide(And(ge(a, b * k), lt(a, b * (k + 1)))):
            return P(k)
    return q


def num_binop(ctx, op, a, ka, b, kb):
    """-> (Poly, kind)"""
    k = join(ka, kb)
    if k == 'bool':
        k = 'int'
    if op == '+':
        return a + b, k
    if op == '-':
        return a - b, k
    if op == '*':
        return a * b, k
    if op == '/':
        if k in ('int', 'npint'):
            k = 'float'
        return a / b if not (b.const() == 0) else divzero(ctx, a), k
    if op == '//':
        if k in ('int', 'npint'):
            if ctx.decide(gt(b, 0)):
                return quot(ctx, a, b), k
            if ctx.decide(lt(b, 0)):
                return quot(ctx, -a, -b), k
            raise PyExc('ZeroDivisionError')
        c = b.const()
        if c and a.is_intsort():
            return floordiv(a, b), k
        raise Unsupported('// on floats')
    if op == '%':
        if k in ('int', 'npint') or (a.is_intsort() and b.is_intsort() and a.intcoefs() and b.intcoefs()):
            if ctx.decide(gt(b, 0)):
                return a - b * quot(ctx, a, b), k
            if ctx.decide(lt(b, 0)):
                return -(-a - (-b) * quot(ctx, -a, -b)), k
            raise PyExc('ZeroDivisionError')
        return app('mod', [a, b]), k
    if op == '**':
        e = b.as_int()
        if e is not None:
            if e < 0 and k in ('int', 'npint'):
                k = 'float'
            return a ** e, k
        # unit base with symbolic integer exponent
        if b.is_intsort() and b.intcoefs():
            if a == I:
                return ip(b), 'complex'
            if a == -I:
                return ip(b.scale(Fraction(3))), 'complex'
            if a == -ONE:
                return ip(b.scale(Fraction(2))), k
            if a == ONE:
                return ONE, k
        bc = b.const()
        if bc == Fraction(1, 2):
            return sqrt(a), k
        raise Unsupported('power with symbolic exponent')
    raise Unsupported('operator ' + op)


def divzero(ctx, a):
    return app('div0', [a])
