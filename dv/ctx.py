"""Path context: path condition, decisions, exploration, solver interface."""
import time, itertools, sys, os
import z3
from fractions import Fraction
from terms import *
import terms as T
from conds import *


class Unsupported(Exception):
    """construct outside the verifier's subset (undecided, never counted as proved)"""


class Infeasible(Exception):
    pass


class NeedOuter(Exception):
    def __init__(self, cond):
        self.cond = cond


class Budget(Exception):
    pass


STATS = dict(solver_calls=0, solver_time=0.0, z3_lia=0, z3_nia=0, cvc5=0, syntactic=0, vcs=0, paths=0)
_zint = {}
_zreal = {}
_zbool = {}
_pcids = {}
_ent_cache = {}


def pc_extend(pid, cond):
    k = (pid, cond.key())
    r = _pcids.get(k)
    if r is None:
        r = _pcids[k] = len(_pcids) + 1
    return r


def zmono(m, native):
    """z3 term for a monomial (product of atoms)"""
    if len(m) == 1 and m[0][1] == 1:
        return zatom(m[0][0])
    isint_ = all(atom(a).sort == 'i' and e > 0 for a, e in m)
    if native and all(e > 0 for a, e in m):
        r = None
        for a, e in m:
            x = zatom(a)
            if not isint_ and atom(a).sort == 'i':
                x = z3.ToReal(x)
            for _ in range(e):
                r = x if r is None else r * x
        return r
    k = ('M', m)
    if isint_:
        r = _zint.get(k)
        if r is None:
            r = _zint[k] = z3.Int('M%d' % len(_zint))
    else:
        r = _zreal.get(k)
        if r is None:
            r = _zreal[k] = z3.Real('R%d' % len(_zreal))
    return r


def zatom(a):
    at = atom(a)
    if at.sort == 'i':
        r = _zint.get(a)
        if r is None:
            r = _zint[a] = z3.Int('i%d' % a)
        return r
    r = _zreal.get(a)
    if r is None:
        r = _zreal[a] = z3.Real('r%d' % a)
    return r


_zp_cache = {}


def zpoly(p, native=False):
    k = (p.key(), native)
    r = _zp_cache.get(k)
    if r is not None:
        return r
    ii = p.is_intsort()
    if not p.intcoefs():
        ii = False
    acc = None
    for m, c in p.t.items():
        if m == ():
            x = z3.IntVal(int(c)) if ii else z3.RealVal(str(c))
        else:
            x = zmono(m, native)
            if not ii and x.is_int():
                x = z3.ToReal(x)
            if c != 1:
                x = (z3.IntVal(int(c)) if ii else z3.RealVal(str(c))) * x
        acc = x if acc is None else acc + x
    if acc is None:
        acc = z3.IntVal(0)
    _zp_cache[k] = acc
    return acc


_zc_cache = {}


def zcond(c, native=False):
    k = (c.key(), native)
    r = _zc_cache.get(k)
    if r is not None:
        return r
    if c.op == 'T':
        r = z3.BoolVal(True)
    elif c.op == 'F':
        r = z3.BoolVal(False)
    elif c.op in ('ge', 'gt', 'eq'):
        p = c.a[0]
        if any(atom(a).sort == 'c' for a in p.atoms()):
            r = _zbool.setdefault(c.key(), z3.Bool('B%d' % len(_zbool)))
        else:
            x = zpoly(p, native)
            r = x >= 0 if c.op == 'ge' else x > 0 if c.op == 'gt' else x == 0
    elif c.op == 'not':
        r = z3.Not(zcond(c.a[0], native))
    elif c.op == 'and':
        r = z3.And(*[zcond(x, native) for x in c.a])
    elif c.op == 'or':
        r = z3.Or(*[zcond(x, native) for x in c.a])
    elif c.op == 'b':
        r = _zbool.setdefault(c.key(), z3.Bool('B%d' % len(_zbool)))
    _zc_cache[k] = r
    return r


def cond_polys(c):
    if c.op in ('ge', 'gt', 'eq'):
        return [c.a[0]]
    if c.op in ('not', 'and', 'or'):
        return [p for x in c.a for p in cond_polys(x)]
    return []


def all_atoms(conds):
    seen = set()
    st = [p for c in conds for p in cond_polys(c)]
    while st:
        p = st.pop()
        for a in p.atoms():
            if a not in seen:
                seen.add(a)
                at = atom(a)
                if at.kind == 'fd':
                    st.extend(at.args)
    return seen


def fd_axioms(atoms):
    out = []
    for a in atoms:
        at = atom(a)
        if at.kind == 'fd':
            p, q = at.args
            f = P(at)
            out.append(ge0(p - q * f))
            out.append(ge0(q * f + q - 1 - p))
    return out


def nonlinear(conds):
    ms = set()
    for c in conds:
        for p in cond_polys(c):
            for m in p.t:
                if len(m) > 1 or (m and m[0][1] != 1):
                    ms.add(m)
    return ms


def _vars_of(c):
    s = set()
    for p in cond_polys(c):
        s |= p.atoms()
    return s


TIMEOUT = int(os.environ.get("DV_Z3_MS", "1000"))


def _check(exprs, timeout):
    s = z3.Solver()
    s.set('timeout', timeout)
    for e in exprs:
        s.add(e)
    t = time.time()
    r = s.check()
    STATS['solver_calls'] += 1
    STATS['solver_time'] += time.time() - t
    return r, s


def unsat(conds, level=2, want_model=False):
    """True if the conjunction is unsatisfiable (sound); level: effort"""
    r = _unsat(conds, level)
    if r is not None:
        return r
    if level < 2:
        return False
    return split_unsat(conds)


def linear_forms(conds, nat):
    """non-constant parts of linear integer facts over atoms of nonlinear terms (at most two atoms)"""
    out = {}
    for c in conds:
        for x in (c.a if c.op == 'and' else (c,)):
            if x.op not in ('ge', 'eq'):
                continue
            p = x.a[0]
            if not isint(p):
                continue
            f = Poly({m: k for m, k in p.t.items() if m != ()})
            if not f.t or len(f.t) > 2 or any(len(m) != 1 or m[0][1] != 1 for m in f.t):
                continue
            if any(abs(k) != 1 for k in f.t.values()) or not (f.atoms() & nat):
                continue
            if any(atom(a).kind != 'var' for a in f.atoms()):
                continue
            # orientation: youngest atom positive
            y = max(f.atoms())
            if f.t[((y, 1),)] < 0:
                f = -f
            out.setdefault(f.key(), f)
    return list(out.values())


def split_unsat(conds, budget=24):
    """case analysis on the order of two linear forms of nonlinear terms, then saturation"""
    nl = nonlinear(conds)
    nat = {a for m in nl for a, e in m}
    forms = []
    for a in sorted(nat, reverse=True):
        if atom(a).sort == 'i' and atom(a).kind == 'var':
            forms.append(P(atom(a)))
    nvar = len(forms)
    forms = forms[:5] + [f for f in linear_forms(conds, nat) if len(f.t) > 1][:6]
    pairs = []
    seen = set()
    zc = [zcond(c) for c in conds]
    s = z3.Solver()
    s.set('timeout', 500)
    for c in zc:
        s.add(c)

    def can(c):
        s.push()
        s.add(zcond(c))
        r = s.check()
        s.pop()
        STATS['solver_calls'] += 1
        return r != z3.unsat
    for i in range(len(forms)):
        for j in range(i + 1, len(forms)):
            x, y = forms[i], forms[j]
            for z in (y, -y):
                d = x - z
                k = d.key()
                if not d.t or d.const() is not None or k in seen or (-d).key() in seen:
                    continue
                seen.add(k)
                if len(d.t) > 3:
                    continue
                # order not already known
                if not can(lt(x, z)) or not can(gt(x, z)):
                    continue
                pairs.append(d)
    pairs.sort(key=lambda d: (len(d.t), -max(d.atoms())))
    tried = 0
    for off in (0, 1, -1):
        for d0 in pairs[:budget]:
            d = d0 + off
            y = max(a for a in d.atoms() if abs(d.t[((a, 1),)]) == 1)
            k = d.t[((y, 1),)]
            rest = Poly({m: c for m, c in d.t.items() if m != ((y, 1),)}).scale(Fraction(-1) / k)
            e = [c.subst({y: rest}) for c in conds]
            if not _unsat(e, 0) and not _unsat(e, 1):
                continue
            if _unsat([gt(d, 0)] + conds, 1) and _unsat([lt(d, 0)] + conds, 1):
                return True
    return False


def _unsat(conds, level=2):
    conds = [c for c in conds if not c.is_true()]
    if any(c.is_false() for c in conds):
        return True
    ats = all_atoms(conds)
    ax = fd_axioms(ats)
    allc = conds + ax
    STATS['z3_lia'] += 1
    r, s = _check([zcond(c) for c in allc], TIMEOUT)
    if r == z3.unsat:
        return True
    nl = nonlinear(allc)
    if r == z3.sat and not nl or level < 1:
        return False
    if not nl:
        return False
    # product saturation: pairwise products of inequality constraints mentioning atoms of the
    # nonlinear monomials, and of equalities with those atoms
    nat = {a for m in nl for a, e in m}
    ges, eqs = [], []
    for c in allc:
        cc = c.a if c.op == 'and' else (c,)
        for x in cc:
            if x.op == 'ge' and isint(x.a[0]) and (x.a[0].atoms() & nat):
                ges.append(x.a[0])
            elif x.op == 'eq' and isint(x.a[0]) and (x.a[0].atoms() & nat):
                eqs.append(x.a[0])
    ges = list(dict.fromkeys(ges))
    lin = [p for p in ges if all(sum(e for a, e in m) <= 1 for m in p.t)]
    extra = []
    seen = set()

    def add(c):
        if not c.is_true() and c not in seen:
            seen.add(c)
            extra.append(c)
    base = lin[:24]
    for i in range(len(base)):
        for j in range(i, len(base)):
            add(ge0(base[i] * base[j]))
    for q in eqs[:6]:
        for a in list(nat)[:10]:
            add(eq0(q * P(atom(a))))
    if extra:
        STATS['z3_lia'] += 1
        r, s = _check([zcond(c) for c in allc] + [zcond(c) for c in extra], TIMEOUT)
        if r == z3.unsat:
            return True
    if level < 2:
        return False
    STATS['z3_nia'] += 1
    r, s = _check([zcond(c, True) for c in allc], TIMEOUT)
    if r == z3.unsat:
        return True
    if r == z3.sat:
        return False
    # cubic products: multiply quadratic facts by a linear one
    if extra and len(base) <= 10:
        ex2 = []
        for i in range(len(base)):
            for j in range(i, len(base)):
                for k in range(j, len(base)):
                    ex2.append(ge0(base[i] * base[j] * base[k]))
        r, s = _check([zcond(c) for c in allc + extra + ex2], TIMEOUT)
        if r == z3.unsat:
            return True
    return None


class Frame(object):
    __slots__ = ('prefix', 'taken', 'alts', 'locals', 'xid')

    def __init__(self, prefix, loc):
        self.prefix = prefix
        self.taken = []
        self.alts = []
        self.locals = loc


class Outcome(object):
    __slots__ = ('pc', 'kind', 'value', 'state')

    def __init__(self, pc, kind, value, state):
        self.pc, self.kind, self.value, self.state = pc, kind, value, state


class VC(object):
    __slots__ = ('label', 'ok', 'pc', 'goal', 'how', 'fn')

    def __init__(self, label, ok, pc, goal, how):
        self.label, self.ok, self.pc, self.goal, self.how = label, ok, pc, goal, how


class Ctx(object):
    def __init__(self, deadline=None):
        self.in_while = 0
        self.strict_div = False      # obligation: real denominators do not vanish
        self.nonzero_div = False     # contract precondition: real denominators do not vanish
        self.pc = []
        self.pcid = 0
        self.sub = {}            # solved equalities atom id -> Poly
        self.heap = {}
        self.defs = {}
        self.fundefs = {}
        self.nfresh = 0
        self.nexp = 0
        self.frames = []
        self.memo = {}
        self.vcs = {}
        self.deadline = deadline
        self.assumed = set()     # names of trusted contracts used
        self.npaths = 0
        self.globals = {}
        self.suspend_vc = 0

    # ---------------------------------------------------------------- state
    def snapshot(self):
        return (list(self.pc), self.pcid, dict(self.sub), dict(self.heap), None,
                self.nfresh, self.nexp)

    def restore(self, s):
        self.pc, self.pcid, self.sub, self.heap = list(s[0]), s[1], dict(s[2]), dict(s[3])
        self.nfresh, self.nexp = s[5], s[6]

    def fresh(self, name, sort='i'):
        self.nfresh += 1
        v = var('%s~%d' % (name, self.nfresh), sort)
        for f in self.frames:
            if f.locals is not None:
                f.locals.add(v.as_atom().id)
        return v

    def newid(self):
        self.nfresh += 1
        return self.nfresh

    # ---------------------------------------------------------------- facts
    def norm(self, p):
        if self.sub and isinstance(p, Poly):
            p = subst(p, self.sub)
        return p

    def normc(self, c):
        if self.sub:
            c = c.subst(self.sub)
        return c

    def assume(self, c):
        c = self.normc(c)
        if c.op == 'T':
            return
        if c.op == 'F':
            raise Infeasible()
        if c.op == 'and':
            for x in c.a:
                self.assume(x)
            return
        if c in self.pc:
            return
        self.pc.append(c)
        self.pcid = pc_extend(self.pcid, c)
        if c.op == 'eq':
            self._solve(c.a[0])
        elif c.op == 'ge' and c.a[0].is_intsort():
            if ge0(-c.a[0]) in self.pc:
                self.assume(eq0(c.a[0]))
            elif Not(eq0(c.a[0])) in self.pc:
                self.assume(ge0(c.a[0] - 1))
        elif c.op == 'not' and c.a[0].op == 'eq' and c.a[0].a[0].is_intsort():
            p = c.a[0].a[0]
            if ge0(p) in self.pc:
                self.assume(ge0(p - 1))
            elif ge0(-p) in self.pc:
                self.assume(ge0(-p - 1))

    def _solve(self, p):
        """orient p==0 into a substitution when it is linear with unit coefficient"""
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                at = atom(a)
                if at.sort == 'c' or at.kind == 'bvar' or (at.kind == 'var' and at.name == 'pi'):
                    continue
                if at.sort == 'i' and abs(c) != 1:
                    continue
                rest = Poly({mm: cc for mm, cc in p.t.items() if mm != m}).scale(Fraction(-1) / c)
                if a in rest.atoms() or (at.kind != 'var' and False):
                    continue
                if self._occurs(a, rest):
                    continue
                if at.sort == 'i' and not (rest.is_intsort() and rest.intcoefs()):
                    continue
                # prefer eliminating the youngest atom
                if best is None or a > best[0]:
                    best = (a, rest)
        if best is None:
            return
        a, rest = best
        mp = {a: rest}
        ax = [c.subst(mp) for c in fd_axioms([a])]
        # equations of other atoms that mention a hold for their rewritten form as well
        stale = [k for k in self.sub if atom(k).kind not in ('var', 'bvar') and self._occurs(a, Poly({((k, 1),): Fraction(1)})) and k != a]
        self.sub = {k: subst(v, mp) for k, v in self.sub.items()}
        self.sub[a] = rest
        newpc = []
        for c in self.pc:
            # keep the defining equality as is (for the solver), rewrite others
            n = c.subst(mp)
            if n.op == 'F':
                raise Infeasible()
            if n.op == 'T':
                continue
            if n not in newpc:
                newpc.append(n)
        self.pc = newpc
        pid = 0
        for c in sorted(newpc, key=lambda c: repr(c.key())):
            pid = pc_extend(pid, c)
        # include substitution in the identity
        for k in sorted(self.sub):
            pid = pc_extend(pid, Cond('b', ('sub', k, self.sub[k])))
        self.pcid = pid
        for c in ax:
            self.assume(c)
        for k in stale:
            self.assume(eq0(subst(Poly({((k, 1),): Fraction(1)}), mp) - self.sub[k]))
        for c in newpc:
            if c.op == 'ge' and c.a[0].is_intsort() and ge0(-c.a[0]) in newpc:
                self.assume(eq0(c.a[0]))
                return
        for c in newpc:
            if c.op == 'eq':
                self._solve(c.a[0])
                break

    def _occurs(self, a, p):
        at = atom(a)
        if at.kind in ('var', 'bvar'):
            return a in p.free()
        # non-variable atom: check nested occurrence
        st = [p]
        seen = set()
        while st:
            q = st.pop()
            for b in q.atoms():
                if b == a:
                    return True
                if b in seen:
                    continue
                seen.add(b)
                st.extend(x for x in atom(b).args if isinstance(x, Poly))
        return False

    def relevant(self, c):
        """facts connected to c through shared atoms"""
        want = all_atoms([c])
        facts = [(f, all_atoms([f])) for f in self.pc]
        out = []
        changed = True
        used = [False] * len(facts)
        while changed:
            changed = False
            for i, (f, av) in enumerate(facts):
                if not used[i] and (av & want or not av):
                    used[i] = True
                    want |= av
                    changed = True
        return [f for (f, _), u in zip(facts, used) if u]

    def entails(self, c, level=2):
        c = self.normc(c)
        if c.op == 'T':
            return True
        if c.op == 'F':
            return False
        if c in self.pc:
            return True
        if c.op == 'and':
            return all(self.entails(x, level) for x in c.a)
        k = (self.pcid, c.key(), level)
        r = _ent_cache.get(k)
        if r is None:
            self.tick()
            facts = self.relevant(c)
            if c.op == 'eq':
                p = c.a[0]
                r = unsat(facts + [Not(c)], level)
            else:
                r = unsat(facts + [Not(c)], level)
            _ent_cache[k] = r
        return r

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')

    def feasible(self, level=1):
        k = (self.pcid, 'FEAS', level)
        r = _ent_cache.get(k)
        if r is None:
            r = not unsat(list(self.pc), level)
            _ent_cache[k] = r
        return r

    # ---------------------------------------------------------------- decisions
    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = self.normc(c)
        if c.op == 'T':
            return True
        if c.op == 'F':
            return False
        if c.op == 'and':
            for x in c.a:
                if not self.decide(x):
                    return False
            return True
        if c.op == 'or':
            for x in c.a:
                if self.decide(x):
                    return True
            return False
        if c.op == 'not':
            return not self.decide(c.a[0])
        if T.SYMFD[0]:
            import arrays
            c2 = arrays.simp_fd(self, c)
            if c2 is not c:
                return self.decide(c2)
        if self.entails(c, 2):
            return True
        if self.entails(Not(c), 2):
            return False
        f = self.frames[-1]
        if f.locals is not None and not (c.free() & f.locals):
            raise NeedOuter(c)
        i = len(f.taken)
        if i < len(f.prefix):
            b = f.prefix[i]
        else:
            b = True
            f.alts.append(tuple(f.taken) + (False,))
        f.taken.append(b)
        self.assume(c if b else Not(c))
        if len(f.taken) > 60:
            raise Unsupported('too many decisions on one path')
        return b

    # ---------------------------------------------------------------- exploration
    def explore(self, fn, maxpaths=400, locals_=(), memo=True, free=False):
        """run fn() for every decision sequence from the current state.
        Returns list of Outcome; the state is restored afterwards (nfresh advanced)."""
        self.nexp += 1
        key = (tuple((f.xid, tuple(f.taken)) for f in self.frames), self.nexp, self.pcid)
        if memo and self.frames and key in self.memo:
            outs, mx = self.memo[key]
            self.nfresh = mx
            return outs
        while True:
            try:
                outs, mx = self._explore(fn, maxpaths, locals_, free)
                break
            except NeedOuter as e:
                if not self.frames:
                    raise AssertionError('NeedOuter at top level')
                self.decide(e.cond)
                continue
        if memo and self.frames:
            key = (tuple((f.xid, tuple(f.taken)) for f in self.frames), self.nexp, self.pcid)
            self.memo[key] = (outs, mx)
        self.nfresh = mx
        return outs

    def _explore(self, fn, maxpaths, locals_, free=False):
        snap = self.snapshot()
        xid = self.nexp
        n0 = len(self.pc)
        outer = self.frames
        top = free or not outer
        work = [()]
        outs = []
        mx = self.nfresh
        try:
            while work:
                prefix = work.pop()
                self.restore(snap)
                fr = Frame(prefix, None if top else set(x.as_atom().id for x in locals_))
                fr.xid = xid
                self.frames = outer + [fr]
                self.npaths += 1
                STATS['paths'] += 1
                if len(outs) > maxpaths:
                    raise Unsupported('path explosion')
                self.tick()
                try:
                    v = fn()
                    kind = 'ret'
                except Infeasible:
                    work.extend(fr.alts)
                    continue
                except PyExc as e:
                    v, kind = e, 'exc'
                work.extend(fr.alts)
                mx = max(mx, self.nfresh)
                st = self.snapshot()
                outs.append(Outcome(self.delta(snap, st), kind, v, st))
        finally:
            self.frames = outer
            self.restore(snap)
        return outs, mx

    def delta(self, s0, s1):
        """conditions of state s1 not in s0 (including solved equalities)"""
        old = set(s0[0])
        out = [c for c in s1[0] if c not in old]
        for a, v in s1[2].items():
            if s0[2].get(a) != v:
                e = eq(P(atom(a)), v)
                if e not in out:
                    out.append(e)
        return out

    def enter(self, outcome):
        """continue from an outcome of an exploration (same frame level)"""
        st = outcome.state
        n = self.nfresh
        x = self.nexp
        self.restore(st)
        self.nfresh = max(n, self.nfresh)
        self.nexp = max(x, self.nexp)

    def feasible_in(self, outcome):
        s = self.snapshot()
        try:
            self.restore(outcome.state)
            return self.feasible(2)
        finally:
            self.restore(s)

    # ---------------------------------------------------------------- obligations
    def record(self, label, ok, goal, how=''):
        k = (label, self.pcid, goal)
        if k not in self.vcs or not ok:
            self.vcs[k] = VC(label, ok, list(self.pc) + ['%s == %r' % (show_atom(atom(a)), v) for a, v in self.sub.items()], goal, how)
            STATS['vcs'] += 1
        return ok

    def prove(self, c, label):
        if isinstance(c, bool):
            c = B(c)
        if self.suspend_vc:
            return True
        ok = self.entails(c, 2)
        if not ok and not self.feasible(2):
            ok = True
        return self.record(label, ok, repr(self.normc(c)), 'z3')


class PyExc(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, etype, msg=None):
        Exception.__init__(self, etype, msg)
        self.etype = etype
        self.msg = msg

    def __repr__(self):
        return 'PyExc(%s)' % (self.etype,)
