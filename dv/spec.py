"""Driver for one verification condition generator run."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyinterp import *
import prove as PR
import ctx as CT


class Session(object):
    def __init__(self, repo='/repo', contracts=None, deadline=None):
        self.ctx = Ctx(deadline)
        self.ip = Interp(self.ctx, repo, contracts)
        self.repo = repo
        self.failed = []
        self.unsupported = []
        for m in ('spherepy.pysphi', 'spherepy.ops', 'spherepy.spherepy', 'spherepy.sbessel', 'spherepy.file', 'spherepy.verify'):
            self.ip.load(m)
        self.ip.freeze()

    def mod(self, n):
        return self.ip.mods['spherepy.' + n].d

    def get(self, n, mod='spherepy'):
        return self.mod(mod)[n]

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            mod, n = f.split('.') if '.' in f else ('spherepy', f)
            f = self.get(n, mod)
        return self.ip.call(f, list(args), kw)

    def method(self, o, n, *args, **kw):
        return self.ip.call(self.ip.getattr_(o, n), list(args), kw)

    def attr(self, o, n):
        return self.ip.getattr_(o, n)

    def getitem(self, o, k):
        return self.ip.getitem(o, k)

    def setitem(self, o, k, v):
        return self.ip.setitem(o, k, v)

    def is_scalar(self, o):
        return o.cls.name in ('ScalarCoefs', 'ScalarPatternUniform')

    def isinst(self, o, n):
        return isinstance(o, Obj) and o.cls.name == n

    # --------------------------------------------------------- symbolic inputs
    def int(self, name, *conds):
        return Num(self.ctx.fresh(name), 'int')

    def cnum(self, name):
        n = self.ctx.newid()
        return Num(var('re.%s~%d' % (name, n), 'r') + I * var('im.%s~%d' % (name, n), 'r'), 'complex')

    def carray(self, name, shape, dt='c'):
        return new_arr(self.ctx, shape, dt, AppBase(name, dt == 'c'))

    # --------------------------------------------------------- obligations
    def expect(self, c, label):
        if isinstance(c, SymBool):
            c = c.c
        return self.ctx.prove(c, label)

    def expect_eq(self, a, b, label):
        a = tonum(a)[0] if not isinstance(a, Poly) else a
        b = tonum(b)[0] if not isinstance(b, Poly) else b
        return PR.prove_eq(self.ctx, a, b, label)

    def fail(self, label, why=''):
        if not self.ctx.feasible(2):
            return True
        return self.ctx.record(label, False, why)

    def ok(self, label, why=''):
        return self.ctx.record(label, True, why)

    def raises(self, etype, fn, label):
        """fn must raise etype"""
        try:
            v = fn()
        except PyExc as e:
            if exc_isa(e.etype, etype):
                self.ok(label)
                return True
            self.fail(label, 'raises %s instead of %s (%s)' % (e.etype, etype, e.msg))
            return False
        self.fail(label, 'no exception (expected %s)' % etype)
        return False

    def for_all(self, shape, fn):
        """fn(generic index) for all indices of shape, in a scope of its own"""
        def body():
            b = [self.ctx.fresh('x') for _ in shape]
            for x, n in zip(b, shape):
                self.ctx.assume(ge0(x))
                self.ctx.assume(lt(x, P(n)))
            fn(b)
        self.scope(body)

    def scope(self, fn, label='check'):
        """explore fn from the current state without splitting the current path; its effects are undone"""
        for o in self.ctx.explore(fn, maxpaths=1000, free=True):
            if o.kind == 'exc' and self.ctx.feasible_in(o):
                self.ctx.vcs[(label, 'exc', len(self.ctx.vcs))] = CT.VC(label + ': no unexpected exception', False, o.pc, repr(o.value) + ' ' + repr(o.value.msg), '')

    def run(self, label, fn):
        """verify one contract: explore every path of fn"""
        t0 = time.time()
        n0 = len(self.ctx.vcs)
        fail0 = sum(1 for v in self.ctx.vcs.values() if not v.ok)
        res = dict(label=label)
        try:
            outs = self.ctx.explore(fn, maxpaths=3000)
            for o in outs:
                if o.kind == 'exc' and self.ctx.feasible_in(o):
                    # recorded in the state of that path
                    self.ctx.vcs[(label, 'exc', len(self.ctx.vcs))] = CT.VC(label + ': no unexpected exception', False, o.pc, repr(o.value) + ' ' + repr(o.value.msg), '')
            res['paths'] = len(outs)
            if not outs:
                res['error'] = 'vacuous: no feasible path'
        except Unsupported as e:
            res['error'] = 'undecided: %s' % e
        except CT.Budget as e:
            res['error'] = 'undecided: %s' % e
        except (AssertionError, RecursionError, KeyError, ValueError, TypeError, AttributeError, IndexError) as e:
            import traceback
            res['error'] = 'verifier error: %s: %s' % (type(e).__name__, e)
            res['trace'] = traceback.format_exc()
        res['vcs'] = len(self.ctx.vcs) - n0
        res['failed'] = [v for v in list(self.ctx.vcs.values())[n0:] if not v.ok]
        if not res['vcs'] and 'error' not in res:
            res['error'] = 'vacuous: no obligation generated'
        res['time'] = time.time() - t0
        res['ok'] = not res['failed'] and 'error' not in res
        return res


# ------------------------------------------------------------------ registry
REG = []          # (property ids, label, fn(S), options)


def obligation(pids, label, **opt):
    def deco(f):
        REG.append((tuple(pids.split()), label, f, opt))
        return f
    return deco


# ------------------------------------------------------------------ shared specification vocabulary
def block(ctx, N, m):
    """start of the m block and |m| (spec of the coefficient layout)"""
    if ctx.decide(eq(m, 0)):
        return ZERO, ZERO
    if ctx.decide(gt(m, 0)):
        a = m
        return N + 2 * N * (a - 1) - a * (a - 1) + N - a, a
    a = -m
    return N + 2 * N * (a - 1) - a * (a - 1), a


def lay(ctx, N, n, m):
    s, a = block(ctx, N, m)
    return s + n - a


def ncoef(nmax, mmax):
    N = nmax + 1
    return N + mmax * (2 * N - mmax - 1)


def sizes(S):
    nm, mm = S.int('nmax'), S.int('mmax')
    S.ctx.assume(ge0(mm.p))
    S.ctx.assume(le(mm.p, nm.p))
    return nm, mm


def scoefs(S, name='vec', nm=None, mm=None):
    """an arbitrary scalar coefficient set, built by the real constructor; -> (obj, initial getter, nmax, mmax)"""
    if nm is None:
        nm, mm = sizes(S)
    a = S.carray(name, (ncoef(nm.p, mm.p),))
    g = reader(S.ctx, a)
    c = S.call('ScalarCoefs', a, nm, mm)
    return c, (lambda n, m: g([lay(S.ctx, nm.p + 1, P(n), P(m))])), nm, mm


def vcoefs(S, name='v', nm=None, mm=None):
    if nm is None:
        nm, mm = sizes(S)
    a = S.carray(name + '1', (ncoef(nm.p, mm.p),))
    b = S.carray(name + '2', (ncoef(nm.p, mm.p),))
    ga, gb = reader(S.ctx, a), reader(S.ctx, b)
    c = S.call('VectorCoefs', a, b, nm, mm)

    def get(n, m):
        k = [lay(S.ctx, nm.p + 1, P(n), P(m))]
        return ga(k), gb(k)
    return c, get, nm, mm


def mode(S, nm, mm, lo=0, pre='n'):
    """an arbitrary valid mode"""
    n, m = S.int(pre), S.int('m')
    S.ctx.assume(ge(n.p, lo))
    S.ctx.assume(le(n.p, nm.p))
    for b in (n.p, mm.p):
        S.ctx.assume(le(m.p, b))
        S.ctx.assume(ge(m.p, -b))
    return n, m


COLON = slice(None, None, None)


def vec_of(S, c):
    return S.attr(c, '_vec')


def all_modes(S, c, want, label, lo=0):
    """every mode of the set c has the value want(n, m); vector sets: pair"""
    nm, mm = S.attr(c, 'nmax'), S.attr(c, 'mmax')

    def body():
        n, m = mode(S, Num(tonum(nm)[0], 'int'), Num(tonum(mm)[0], 'int'), lo)
        r = S.getitem(c, (n, m))
        w = want(n.p, m.p)
        if isinstance(r, tuple):
            S.expect_eq(r[0], w[0], label + ' (first component)')
            S.expect_eq(r[1], w[1], label + ' (second component)')
        else:
            S.expect_eq(r, w, label)
    S.scope(body, label)


def expect_size(S, c, nm, mm, label):
    S.expect_eq(S.attr(c, 'nmax'), nm, label + ': nmax')
    S.expect_eq(S.attr(c, 'mmax'), mm, label + ': mmax')


def expect_vec_len(S, c, label):
    """representation invariant: the vector has one entry per mode"""
    for x in ([c] if S.is_scalar(c) else [S.attr(c, 'scoef1'), S.attr(c, 'scoef2')]):
        v = vec_of(S, x)
        nm, mm = tonum(S.attr(x, 'nmax'))[0], tonum(S.attr(x, 'mmax'))[0]
        S.expect(And(ge0(mm), le(mm, nm), eq(v.shape[0], ncoef(nm, mm))), label + ': vector length')
