"""Back end for integer code with while loops: verification conditions over z3 (linear integers, arrays, products as
uninterpreted terms with instantiated lemmas).  Loop invariants are inferred from templates (Houdini): every candidate starts as
assumed, one that a loop entry or a back edge does not establish is dropped, until the set is inductive; obligations are decided
in a last pass.  The code is the translation of cfront (general=True) of the current source."""
import ast, time
import z3
import cfront

INT_MAX, INT_MIN = 2 ** 31 - 1, -2 ** 31
I = z3.IntVal
mul_f = z3.Function('mul', z3.IntSort(), z3.IntSort(), z3.IntSort())


class Undecided(Exception):
    pass


class Ptr(object):
    def __init__(self, base, off):
        self.base, self.off = base, off


class Dbl(object):
    """a double that is an integer-valued expression, or the square root of one (root)"""

    def __init__(self, v, root=False):
        self.v, self.root = v, root


class St(object):
    def __init__(self, env, mem, pc):
        self.env, self.mem, self.pc = dict(env), dict(mem), list(pc)

    def copy(self, *pc):
        return St(self.env, self.mem, self.pc + [p for p in pc])


class Verifier(object):
    def __init__(self, tree, arrays, pre_vars, extra=None, deadline=None):
        """arrays: base -> size; pre_vars: names of ghost entry values usable in invariants"""
        self.fns = {f.name: f for f in tree.body if isinstance(f, ast.FunctionDef)}
        self.sizes = arrays
        self.ghost = {}
        self.inv = {}           # id(loop) -> list of (name, function of state -> formula)
        self.dead = {}          # id(loop) -> set of names
        self.lemmas = []
        self.seen = set()
        self.obl = {}           # label -> ok
        self.nq = 0
        self.deciding = False
        self.deadline = deadline
        self.k = 0
        self.extra = extra      # st, verifier -> extra candidate templates
        self.loops = []
        self.measures = {}      # id(loop) -> list of live measures
        self.pend = []

    # ---------------------------------------------------------------- terms
    def fresh(self, n='v'):
        self.k += 1
        return z3.Int('%s!%d' % (n, self.k))

    def mul(self, a, b):
        if z3.is_int_value(a) or z3.is_int_value(b):
            return a * b
        a, b = z3.simplify(a), z3.simplify(b)
        if z3.is_int_value(a) or z3.is_int_value(b):
            return a * b
        t = mul_f(a, b)
        if t.get_id() not in self.seen:
            self.seen.add(t.get_id())
            L = self.lemmas
            L.append(t == mul_f(b, a))
            for x, y in ((a, b), (b, a)):
                for c in (1, 2):
                    L.append(z3.Implies(z3.And(x >= c, y >= 0), t >= c * y))
                    L.append(z3.Implies(z3.And(x >= c, y <= 0), t <= c * y))
                L.append(z3.Implies(x == 0, t == 0))
                L.append(z3.Implies(x == 1, t == y))
        return t

    def check(self, pc, goal):
        """pc => goal"""
        if self.deadline and time.time() > self.deadline:
            raise Undecided('time limit')
        self.nq += 1
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*pc)
        s.add(z3.Not(goal))
        s.add(*self.lemmas)
        return s.check() == z3.unsat

    def must(self, st, f, label):
        if not self.deciding:
            return
        f = z3.BoolVal(f) if isinstance(f, bool) else f
        ok = self.check(st.pc, f)
        self.obl[label] = self.obl.get(label, True) and ok

    # ---------------------------------------------------------------- expressions
    def e(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Undecided('expression %s' % ast.unparse(n))
        return m(n, st)

    def i(self, n, st):
        v = self.e(n, st)
        if isinstance(v, bool):
            v = I(int(v))
        if not z3.is_int(v):
            raise Undecided('integer expected: %s' % ast.unparse(n))
        return v

    def e_Constant(self, n, st):
        v = n.value
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return I(v)
        if isinstance(v, float) and v == int(v):
            return Dbl(I(int(v)))
        raise Undecided('constant %r' % (v,))

    def e_Name(self, n, st):
        if n.id not in st.env:
            raise Undecided('no value of %s' % n.id)
        v = st.env[n.id]
        if v is None:
            self.must(st, False, 'no use of an indeterminate value')
            return self.fresh(n.id)
        return v

    def arith(self, st, v, line):
        """machine arithmetic: the result is representable"""
        self.must(st, z3.And(v <= INT_MAX, v >= INT_MIN), 'no integer overflow')
        return v

    def e_BinOp(self, n, st):
        a, b = self.e(n.left, st), self.e(n.right, st)
        if isinstance(a, Dbl) or isinstance(b, Dbl):
            return self.dbl(n, a, b, st)
        if not (z3.is_int(a) and z3.is_int(b)):
            raise Undecided(ast.unparse(n))
        if isinstance(n.op, ast.Add):
            v = a + b
        elif isinstance(n.op, ast.Sub):
            v = a - b
        elif isinstance(n.op, ast.Mult):
            v = self.mul(a, b)
        else:
            raise Undecided(ast.unparse(n))
        if isinstance(n.left, ast.Name) and n.left.id.endswith('__o'):
            return v                    # a pointer offset, checked when used
        return self.arith(st, v, n)

    def dbl(self, n, a, b, st):
        """integer-valued doubles, exact below 2^53"""
        a, b = [x if isinstance(x, Dbl) else Dbl(x) for x in (a, b)]
        if a.root or b.root or not isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            raise Undecided(ast.unparse(n))
        v = a.v + b.v if isinstance(n.op, ast.Add) else a.v - b.v if isinstance(n.op, ast.Sub) else self.mul(a.v, b.v)
        self.must(st, z3.And(v < 2 ** 53, v > -2 ** 53), 'exact integers in double precision')
        return Dbl(v)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return z3.Not(self.c(n.operand, st))
        v = self.i(n.operand, st)
        if isinstance(n.op, ast.USub):
            return self.arith(st, -v, n)
        raise Undecided(ast.unparse(n))

    def e_Compare(self, n, st):
        l, out = self.e(n.left, st), []
        for op, rn in zip(n.ops, n.comparators):
            r = self.e(rn, st)
            out.append(self.cmp(op, l, r, n))
            l = r
        return z3.And(*out) if len(out) > 1 else out[0]

    def cmp(self, op, l, r, n):
        if isinstance(l, Dbl) or isinstance(r, Dbl):
            l, r = [x if isinstance(x, Dbl) else Dbl(x) for x in (l, r)]
            if not l.root and not r.root:
                l, r = l.v, r.v
            else:       # compare squares: x < sqrt(y) <=> x < 0 or x^2 < y
                a, b = [self.mul(x.v, x.v) if not x.root else x.v for x in (l, r)]
                T = z3.BoolVal(True)
                nl, nr = (T if l.root else l.v >= 0), (T if r.root else r.v >= 0)
                cm = lambda o: self.cmp(o, a, b, n)
                both = z3.And(nl, nr)
                if isinstance(op, (ast.Lt, ast.LtE)):
                    return z3.Or(z3.And(z3.Not(nl), nr), z3.And(both, cm(op)))
                if isinstance(op, (ast.Gt, ast.GtE)):
                    return z3.Or(z3.And(nl, z3.Not(nr)), z3.And(both, cm(op)))
                raise Undecided(ast.unparse(n))
        if not (z3.is_int(l) and z3.is_int(r)):
            raise Undecided(ast.unparse(n))
        return {ast.Lt: l < r, ast.LtE: l <= r, ast.Gt: l > r, ast.GtE: l >= r, ast.Eq: l == r, ast.NotEq: l != r}[type(op)]

    def e_BoolOp(self, n, st):
        out = []
        s = st.copy()
        for x in n.values:
            c = self.c(x, s)
            out.append(c)
            s = s.copy(c if isinstance(n.op, ast.And) else z3.Not(c))
        st.pc += []
        return z3.And(*out) if isinstance(n.op, ast.And) else z3.Or(*out)

    def e_IfExp(self, n, st):
        c = self.c(n.test, st)
        return z3.If(c, self.i(n.body, st.copy(c)), self.i(n.orelse, st.copy(z3.Not(c))))

    def c(self, n, st):
        v = self.e(n, st)
        if z3.is_bool(v):
            return v
        if isinstance(v, Dbl):
            return v.v != 0
        return v != 0

    def divmod_(self, a, b, st):
        self.must(st, b != 0, 'no division by zero')
        if not (z3.is_int_value(b) and b.as_long() > 0):
            self.must(st, z3.Or(a != INT_MIN, b != -1), 'no integer overflow')
        key = ('div', a.get_id(), b.get_id())
        if key in self.cache:
            q, r, fs, _ = self.cache[key]
        else:
            q, r = self.fresh('q'), self.fresh('r')
            t = self.mul(b, q)
            fs = [a == t + r, z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0), z3.Implies(b > 0, z3.And(r < b, -r < b)),
                  z3.Implies(b < 0, z3.And(r < -b, -r < -b)), z3.Implies(z3.And(a == b, b != 0), z3.And(q == 1, r == 0)),
                  z3.Implies(z3.And(a >= 0, b > 0), q >= 0), z3.Implies(z3.And(a >= 0, b > 0, a < b), q == 0)]
            self.cache[key] = (q, r, fs, (a, b))
        st.pc += fs
        return q, r

    def e_Call(self, n, st):
        f = n.func.id if isinstance(n.func, ast.Name) else None
        if f in self.fns:
            raise Undecided('call of %s inside an expression' % f)
        if f == '__toint':
            v = self.e(n.args[0], st)
            if isinstance(v, Dbl):
                if v.root:
                    return self.isqrt(v.v, st)
                return v.v
            return v
        if f == '__todouble':
            v = self.e(n.args[0], st)
            return v if isinstance(v, Dbl) else Dbl(v)
        a = [self.e(x, st) for x in n.args]
        if f in ('__cdiv', '__cmod'):
            return self.divmod_(a[0], a[1], st)[f == '__cmod']
        if f == 'sqrt' and isinstance(a[0], Dbl) and not a[0].root:
            self.must(st, a[0].v >= 0, 'square root of a nonnegative number')
            return Dbl(a[0].v, True)
        if f == 'floor' and isinstance(a[0], Dbl):
            return Dbl(self.isqrt(a[0].v, st)) if a[0].root else a[0]
        if f == 'abs' and z3.is_int(a[0]):
            return self.arith(st, z3.If(a[0] >= 0, a[0], -a[0]), n)
        if f == '__padd' and isinstance(a[0], Ptr):
            return Ptr(a[0].base, a[0].off + a[1])
        if f == '__ld' and isinstance(a[0], Ptr):
            p = a[0].off + a[1]
            self.must(st, z3.And(p >= 0, p < self.sizes[a[0].base]), 'memory: read inside the block')
            return z3.Select(st.mem[a[0].base], p)
        raise Undecided('call %s' % ast.unparse(n))

    def isqrt(self, v, st):
        """floor of the square root of v >= 0 (exact for v < 2^52)"""
        key = ('isqrt', v.get_id())
        if key not in self.cache:
            r = self.fresh('s')
            sq, s1 = self.mul(r, r), self.mul(r + 1, r + 1)
            self.cache[key] = (r, [z3.Implies(v >= 0, z3.And(r >= 0, sq <= v, v < s1, r <= v)), z3.Implies(v <= INT_MAX, r <= 46340)], None, v)
        r, fs, _, _ = self.cache[key]
        st.pc += fs
        return r

    # ---------------------------------------------------------------- statements
    def block(self, body, st):
        """[(kind, state, value)]"""
        cur, out = [st], []
        for s in body:
            nxt = []
            for x in cur:
                for k, y, v in self.s(s, x):
                    if k == 'next':
                        nxt.append(y)
                    else:
                        out.append((k, y, v))
            cur = nxt
        return [('next', x, None) for x in cur] + out

    def s(self, n, st):
        if isinstance(n, ast.Assign):
            if len(n.targets) != 1 or not isinstance(n.targets[0], ast.Name):
                raise Undecided(ast.unparse(n))
            if self.is_call(n.value):
                return [(k, self.put(s, n.targets[0].id, v), None) for k, s, v in self.inline(n.value, st)]
            v = self.e(n.value, st)
            st.env[n.targets[0].id] = v
            return [('next', st, None)]
        if isinstance(n, ast.Expr):
            v = n.value
            if isinstance(v, ast.Constant):
                return [('next', st, None)]
            if self.is_call(v):
                return [(k, s, None) for k, s, r in self.inline(v, st)]
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == '__st':
                p, k, x = [self.e(a, st) for a in v.args]
                if not isinstance(p, Ptr):
                    raise Undecided(ast.unparse(n))
                k = z3.simplify(p.off + k)
                self.must(st, z3.And(k >= 0, k < self.sizes[p.base]), 'memory: write inside the block')
                st.mem[p.base] = z3.Store(st.mem[p.base], k, x)
                return [('next', st, None)]
            raise Undecided(ast.unparse(n))
        if isinstance(n, ast.If):
            c = self.c(n.test, st)
            out = []
            for f, b in ((c, n.body), (z3.Not(c), n.orelse)):
                y = st.copy(f)
                if self.feasible(y):
                    out += self.block(b, y)
            return out
        if isinstance(n, ast.Break):
            return [('break', st, None)]
        if isinstance(n, ast.Continue):
            return [('continue', st, None)]
        if isinstance(n, ast.Pass):
            return [('next', st, None)]
        if isinstance(n, ast.Return):
            if n.value is not None and self.is_call(n.value):
                return [('return', s, v) for k, s, v in self.inline(n.value, st)]
            return [('return', st, self.e(n.value, st) if n.value is not None else None)]
        if isinstance(n, ast.While):
            return self.loop(n, st)
        if isinstance(n, ast.For):
            r = n.iter
            if isinstance(r, ast.Call) and getattr(r.func, 'id', '') == 'range' and len(r.args) == 3 and isinstance(r.args[2], ast.Constant) and r.args[2].value > 0:
                k = n.target.id
                w = self.asts.get(id(n))
                if w is None:
                    if any(isinstance(x, ast.Continue) for x in ast.walk(n)):
                        raise Undecided('continue in a for loop')
                    w = self.asts[id(n)] = ast.While(ast.Compare(ast.Name(k), [ast.Lt()], [r.args[1]]), n.body + [
                        ast.Assign([ast.Name(k)], ast.BinOp(ast.Name(k), ast.Add(), r.args[2]))], [])
                st.env[k] = self.i(r.args[0], st)
                return self.loop(w, st)
        raise Undecided('statement %s' % ast.unparse(n))

    def put(self, st, name, v):
        st.env[name] = v
        return st

    def is_call(self, n):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in self.fns

    def inline(self, n, st):
        if self.depth > 5:
            raise Undecided('recursion')
        f = self.fns[n.func.id]
        env = st.env
        a = [self.e(x, st) for x in n.args]
        s = st.copy()
        s.env = dict(zip([x.arg for x in f.args.args], a))
        self.depth += 1
        out = []
        for k, y, v in self.block(f.body, s):
            if k in ('next', 'return'):
                y.env = dict(env)
                out.append(('next', y, v))
            else:
                raise Undecided('jump out of %s' % f.name)
        self.depth -= 1
        return out

    def feasible(self, st):
        return not self.check(st.pc, z3.BoolVal(False))

    # ---------------------------------------------------------------- loops
    def assigned(self, body):
        r, w = set(), set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) or isinstance(x, ast.Name) and False:
                    r.add(x.id)
                if isinstance(x, (ast.Assign,)):
                    r |= {t.id for t in x.targets if isinstance(t, ast.Name)}
                if isinstance(x, ast.For):
                    r.add(x.target.id)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and (x.func.id == '__st' or x.func.id in self.fns):
                    w.add('*')
        return r, w

    def loop(self, n, st):
        if n.orelse:
            raise Undecided('while-else')
        L = id(n)
        mod, wr = self.assigned(n.body)
        if L not in self.inv:
            self.keep.append(n)
            self.inv[L] = self.candidates(st, mod, wr)
            self.dead[L] = set()
            self.measures[L] = None
        live = [(nm, f) for nm, f in self.inv[L] if nm not in self.dead[L]]
        self.establish(L, live, st)
        if self.deciding:
            self.ninv += len(live)
        live = [(nm, f) for nm, f in self.inv[L] if nm not in self.dead[L]]
        h = st.copy()
        for v in mod:
            if v in h.env:
                o = h.env[v]
                if isinstance(o, Ptr):
                    raise Undecided('pointer variable %s changed in a loop' % v)
                h.env[v] = Dbl(self.fresh(v)) if isinstance(o, Dbl) and not o.root else self.fresh(v)
        if wr:
            for b in h.mem:
                self.k += 1
                h.mem[b] = z3.Array('%s!%d' % (b, self.k), z3.IntSort(), z3.IntSort())
        h.pc += [self.val(f, h) for nm, f in live]
        h.pc = [p for p in h.pc if p is not None]
        c = self.c(n.test, h)
        out = []
        ex = h.copy(z3.Not(c))
        if self.feasible(ex):
            out.append(('next', ex, None))
        b = h.copy(c)
        if self.feasible(b):
            head = b.copy()
            backs = []
            for k, y, v in self.block(n.body, b):
                if k in ('next', 'continue'):
                    self.establish(L, [(nm, f) for nm, f in self.inv[L] if nm not in self.dead[L]], y)
                    backs.append(y)
                elif k == 'break':
                    out.append(('next', y, None))
                else:
                    out.append((k, y, v))
            if self.deciding:
                self.obl['termination'] = self.obl.get('termination', True) and self.terminates(head, backs, mod)
        return out

    def val(self, f, st):
        try:
            return f(st)
        except KeyError:
            return None

    def establish(self, L, live, st):
        live = [(nm, self.val(f, st)) for nm, f in live]
        for nm, g in live:
            if g is None:
                self.drop(L, nm)
        live = [(nm, g) for nm, g in live if g is not None]
        while live:
            self.nq += 1
            if self.deadline and time.time() > self.deadline:
                raise Undecided('time limit')
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(*st.pc)
            s.add(*self.lemmas)
            s.add(z3.Not(z3.And(*[g for _, g in live])))
            r = s.check()
            if r == z3.unsat:
                return
            if r == z3.sat:
                m = s.model()
                bad = [nm for nm, g in live if not z3.is_true(m.eval(g, model_completion=True))]
            else:
                bad = []
            if not bad:         # one by one
                bad = [nm for nm, g in live if not self.check(st.pc, g)]
                for nm in bad:
                    self.drop(L, nm)
                return
            for nm in bad:
                self.drop(L, nm)
            live = [(nm, g) for nm, g in live if nm not in bad]

    def drop(self, L, nm):
        if nm not in self.dead[L]:
            self.dead[L].add(nm)
            self.changed = True

    def ints(self, st):
        return sorted(k for k, v in st.env.items() if v is not None and not isinstance(v, Ptr) and (isinstance(v, Dbl) and not v.root or z3.is_expr(v) and z3.is_int(v)))

    @staticmethod
    def num(st, x):
        v = st.env[x]
        return v.v if isinstance(v, Dbl) else v

    def candidates(self, st, mod, wr):
        V = self.ints(st)
        G = sorted(self.ghost)
        num = self.num
        val = lambda s, x: self.ghost[x] if x in self.ghost else num(s, x)
        c = []
        base = []
        for x in V:
            for k in (0, 1, 2):
                base.append(('%s>=%d' % (x, k), lambda s, x=x, k=k: num(s, x) >= k))
            for y in V + G:
                if x != y and (x in mod or y in mod):
                    base.append(('%s<=%s' % (x, y), lambda s, x=x, y=y: num(s, x) <= val(s, y)))
                    base.append(('%s==%s' % (x, y), lambda s, x=x, y=y: num(s, x) == val(s, y)))
                    base.append(('%s>=%s' % (x, y), lambda s, x=x, y=y: num(s, x) >= val(s, y)))
            if x in mod:
                for y in V:
                    for z in V + G:
                        if len({x, y, z}) == 3:
                            for k in self.consts:
                                base.append(('%s<=%s|=%s|=%d' % (x, y, z, k), lambda s, x=x, y=y, z=z, k=k: z3.Or(num(s, x) <= num(s, y), num(s, x) == val(s, z), num(s, x) == k)))
                                for w in V:
                                    if w not in (x, y, z) and w in mod and z not in G:
                                        base.append(('%s<=%s|=%s|=%d|%s=1,%s>0' % (x, y, z, k, z, w), lambda s, x=x, y=y, z=z, k=k, w=w: z3.Or(
                                            num(s, x) <= num(s, y), num(s, x) == num(s, z), num(s, x) == k, z3.And(num(s, z) == 1, num(s, w) > 0))))
        c += base
        for g in G:
            c += [('%s=1|' % g + nm, lambda s, f=f, g=g: z3.Or(self.ghost[g] == 1, f(s))) for nm, f in base]
        if self.extra:
            c += self.extra(self, V)
        return c

    def terminates(self, head, backs, mod):
        """some measure template decreases on every back edge"""
        V = [x for x in self.ints(head)]
        num = self.num
        ms = []
        for x in V:
            if x in mod:
                ms.append(lambda s, x=x: num(s, x))
                for y in V:
                    if y != x:
                        ms.append(lambda s, x=x, y=y: num(s, y) - num(s, x))
                        ms.append(lambda s, x=x, y=y: z3.If(num(s, y) == 0, num(s, x) + 1, num(s, x)))
        for x in V:
            if x in mod:
                for y in V:
                    for z in V:
                        if len({x, y, z}) == 3:
                            for k in self.consts:
                                ms.append(lambda s, x=x, y=y, z=z, k=k: z3.If(num(s, x) == num(s, y), 0, z3.If(num(s, x) == k, num(s, z) + k + 9, num(s, z) + k + 5 - num(s, x))))
                            ms.append(lambda s, x=x, y=y, z=z: z3.If(num(s, x) == num(s, y), 0, num(s, z) + 9 - num(s, x)))
        for m in ms:
            try:
                m0 = m(head)
                if not self.check(head.pc, m0 >= 0):
                    continue
                if all(self.check(b.pc, m(b) < m0) for b in backs):
                    return True
            except KeyError:
                pass
        return False

    # ---------------------------------------------------------------- driver
    def run(self, name, args, pc, post):
        """args: values of the parameters; post(st, value): obligations at every return"""
        self.cache, self.keep, self.asts, self.depth = {}, [], {}, 0
        f = self.fns[name]
        # starting values of variables, for the templates
        self.consts = sorted({x.value.value for x in ast.walk(f) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant)
                              and type(x.value.value) is int and x.value.value > 2})[:4] or [4]
        for rnd in range(60):
            self.changed = False
            self.once(f, args, pc, None)
            if not self.changed:
                break
        self.deciding = True
        self.changed = False
        self.ninv = 0
        n = self.once(f, args, pc, post)
        if self.changed:
            raise Undecided('invariants not inductive')
        self.obl['some path returns'] = n > 0
        return self.obl

    def once(self, f, args, pc, post):
        mem = {b: z3.Array(b + '!0', z3.IntSort(), z3.IntSort()) for b in self.sizes}
        st = St(dict(zip([a.arg for a in f.args.args], args)), mem, pc)
        if not self.feasible(st):
            raise Undecided('vacuous precondition')
        n = 0
        for k, y, v in self.block(f.body, st):
            if k in ('break', 'continue'):
                raise Undecided(k)
            n += 1
            if post:
                post(self, y, v)
        return n


# ------------------------------------------------------------------ kf_factor
def factor_chain(repo, limit):
    """kf_factor(n, facbuf), 1 <= n <= INT_MAX: facbuf holds p1, m1, p2, m2, ... with p1 m1 = n, p(i+1) m(i+1) = m(i), all at least
    one, the last m one, within 64 entries; no overflow, no division by zero, the loops end"""
    import os
    tree, tr = cfront.translate(os.path.join(repo, 'src', 'kiss_fft.c'), True)
    n0, J = z3.Int('n0'), z3.Int('J')

    def pairs(ver, V):
        """invariants about the filled part of the buffer, o its length"""
        num, c = ver.num, []
        sel = lambda s, k: z3.Select(s.mem['F'], k)

        def good(s, o):
            prev = z3.If(J == 0, n0, sel(s, 2 * J - 1))
            a, b = sel(s, z3.simplify(2 * J)), sel(s, z3.simplify(2 * J + 1))
            return z3.Implies(z3.And(J >= 0, 2 * J + 1 < o), z3.And(a >= 1, b >= 1, ver.mul(a, b) == prev))
        ver.good = good
        for o in V:
            for u in (1, 2):        # o counts entries or pairs
                c.append(('pairs(%d %s)' % (u, o), lambda s, o=o, u=u: good(s, u * num(s, o))))
                for x in V:
                    if x != o:
                        c.append(('%s=last(%d %s)' % (x, u, o), lambda s, x=x, o=o, u=u: num(s, x) == z3.If(num(s, o) == 0, n0, sel(s, u * num(s, o) - 1))))
                        c.append(('%s 2^(%d %s)' % (x, u, o), lambda s, x=x, o=o, u=u: z3.Or(
                            *[z3.And(u * num(s, o) == 2 * k, num(s, x) * 2 ** k <= n0) for k in range(32)],
                            z3.And(n0 == 1, u * num(s, o) == 2, num(s, x) == 1))))
        return c

    def post(ver, s, v):
        sel = lambda k: z3.Select(s.mem['F'], k)
        ok = False
        for o in ver.ints(s):
            if not (o in ver.ints(s)):
                continue
            ov = ver.num(s, o)
            for w in (ov, 2 * ov):
                g = z3.And(w >= 2, w <= 64, z3.Or(*[w == 2 * k for k in range(1, 33)]), sel(w - 1) == 1)
                if ver.check(s.pc, g) and ver.check(s.pc, ver.good(s, w)):
                    ok = True
                    break
            if ok:
                break
        ver.obl['factors multiply to the length'] = ver.obl.get('factors multiply to the length', True) and ok

    ver = Verifier(tree, {'F': 64}, (), pairs, time.time() + limit)
    ver.ghost = {'n0': n0}
    obl = ver.run('kf_factor', [n0, Ptr('F', I(0))], [n0 >= 1, n0 <= INT_MAX], post)
    return ver, obl


def group_result(label, fn, repo, limit, seen):
    t0 = time.time()
    r = dict(label=label, vcs=0, failed=[], seen=seen, assumed=[], stats={}, paths=1)
    try:
        ver, obl = fn(repo, limit)
        r['vcs'] = len(obl)
        r['failed'] = [(k, [], 'not established for every input (z3)') for k, ok in obl.items() if not ok]
        r['stats'] = dict(houdini=ver.nq)
    except (Undecided, cfront.CUnsupported) as e:
        r['error'] = 'undecided: %s' % e
    except (KeyError, ValueError, TypeError, AttributeError, z3.Z3Exception) as e:
        r['error'] = 'verifier error: %r' % e
    r['time'] = time.time() - t0
    r['ok'] = not r['failed'] and 'error' not in r
    return r


if __name__ == '__main__':
    import sys, os
    ver, obl = factor_chain(os.environ.get('DV_REPO', '/repo'), 600)
    print(obl, ver.nq)
    for L in ver.inv:
        print([nm for nm, _ in ver.inv[L] if nm not in ver.dead[L]][:60])
