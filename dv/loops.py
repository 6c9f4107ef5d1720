"""Loop rule: inferred invariants (closed forms of scalars, written regions, per-cell content)
checked by the usual initiation / preservation obligations, then used as the loop summary."""
import ast
import math
from fractions import Fraction
from npmodel import *
import npmodel as NP
import terms as T_


class NeedCarry(Exception):
    def __init__(self, name):
        self.name = name


class Changes(Unsupported):
    def __init__(self, name):
        Unsupported.__init__(self, 'loop-carried value %s changes' % name)
        self.name = name


class Poison(object):
    """value of a variable that the loop assigns, at the start of a generic iteration"""

    def __init__(self, name):
        self.name = name


UNROLL = 6


def assigned_names(body):
    out = set()
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)
        visit_GeneratorExp = visit_ListComp
    for s in body:
        V().visit(s)
    return out


def nested(st, it, env):
    """a loop over itertools.product(range, range), np.ndindex or np.ndenumerate as two loops"""
    if not (isinstance(it.a, RangeV) and isinstance(it.b, RangeV) and not st.orelse and not loop_level(st.body, ast.Break)):
        raise Unsupported('this loop over a product')
    nm, body, tg = '.product%d' % st.lineno, st.body, st.target
    L, S = ast.Load(), ast.Store()
    pre = []
    if it.arr is not None:
        if not (isinstance(tg, ast.Tuple) and len(tg.elts) == 2):
            raise Unsupported('this loop over a product')
        env[nm + 'a'] = it.arr
        i, j = ast.Name(nm + 'i', L), ast.Name(nm + 'j', L)
        pre.append(ast.Assign([tg.elts[1]], ast.Subscript(ast.Name(nm + 'a', L), ast.Tuple([i, j], L), L)))
        tg = tg.elts[0]
    if not (isinstance(tg, ast.Tuple) and len(tg.elts) == 2):
        if pre == []:
            i, j = ast.Name(nm + 'i', L), ast.Name(nm + 'j', L)
        pre.insert(0, ast.Assign([tg], ast.Tuple([i, j], L)))
        tg = ast.Tuple([ast.Name(nm + 'i', S), ast.Name(nm + 'j', S)], S)
    elif pre:
        pre.insert(0, ast.Assign([tg], ast.Tuple([i, j], L)))
        tg = ast.Tuple([ast.Name(nm + 'i', S), ast.Name(nm + 'j', S)], S)
    env[nm] = it.b
    inner = ast.For(tg.elts[1], ast.Name(nm, L), pre + body, [])
    outer = ast.For(tg.elts[0], ast.Name(nm, L), [inner], [])
    for n in [inner, outer, inner.iter, outer.iter, tg] + list(tg.elts) + [x for q in pre for x in ast.walk(q)]:
        if not hasattr(n, 'lineno'):
            ast.copy_location(n, st)
    return outer


def bounded_by(v0):
    """is the initial value of a running maximum no larger than any element"""
    def check(elem, ctx, shape, sgn):
        if sgn != 1 or not v0.is_zero():
            return False
        b, pieces = generic_pieces(ctx, shape, elem)
        for _, v in pieces:
            k = v.const()
            if k is not None:
                if isinstance(k, complex) or k < 0:
                    return False
                continue
            if not nonneg(v):
                return False
        return True
    return check


def for_loop(ip, st, it, env):
    ctx = ip.ctx
    if isinstance(it, ProdV):
        return for_loop(ip, nested(st, it, env), it.a, env)
    T, g = ip.iter_of(it)
    T = ctx.norm(T)
    c = T.as_int()
    if c is None:
        c2 = pinned(ctx, T)
        if c2 is not None:
            c = c2
    if c is not None and c <= ip.unroll or concrete_iter(ip, it):
        for j in range(c if c is not None else 0):
            ip.assign(st.target, g(P(j)), env)
            r = ip.exec_block(st.body, env)
            if r is not None:
                if r[0] == 'brk':
                    return None
                if r[0] == 'ret':
                    return r
        return ip.exec_block(st.orelse, env)
    if not ctx.decide(ge(T, 1)):
        return ip.exec_block(st.orelse, env)
    if loop_level(st.body, ast.Break):
        try:
            return counted(ip, st, env, (T, g))
        except NotAffine:
            pass
    heap, saved, vcs = dict(ctx.heap), env.clone(), dict(ctx.vcs)
    cuts = segments(ctx, T, g) if isinstance(it, ListV) and not loop_level(st.body, ast.Break) else None

    def part(lo, hi):
        n = ctx.norm(hi - lo)
        k = n.as_int()
        elem = lambda j: g(ctx.norm(lo + j))
        if k is not None and k <= ip.unroll:
            for j in range(k):
                ip.assign(st.target, elem(P(j)), env)
                r = ip.exec_block(st.body, env)
                if r is not None and r[0] == 'ret':
                    return r
        elif ctx.decide(ge(n, 1)):
            summarize(ip, st, n, elem, env)

    def parts(cuts):
        lo = ZERO
        for hi in cuts + [T]:
            r = part(lo, hi)
            if r is not None:
                return r
            lo = hi
        return ip.exec_block(st.orelse, env)
    err = None
    for plan in [[]] + ([cuts] if cuts else []) + [[ONE]]:
        if plan == [ONE] and (loop_level(st.body, ast.Break) or not any(
                x in str(err) for x in ('loop-carried', 'may be read before', 'carried array', 'changes type'))):
            break                   # otherwise: the first iteration on its own
        try:
            if plan:
                return parts(plan)
            ip.counted_len = False
            summarize(ip, st, T, g, env)
            if cuts and ip.counted_len:
                raise Unsupported('number of elements counted by a condition')      # the segments decide it
            return ip.exec_block(st.orelse, env)
        except Unsupported as e:
            err = e
            ctx.heap = dict(heap)
            ctx.vcs.clear()
            ctx.vcs.update(vcs)
            env.clear()
            env.update(saved)
    raise err


def segments(ctx, T, g):
    """positions at which the elements of a sequence change their form, in order"""
    b, pieces = generic_pieces(ctx, (T,), lambda i: g(i[0]))
    aid = b[0].as_atom().id
    cuts = []
    for cs, _ in pieces:
        for c in cs:
            if c.op not in ('ge', 'gt', 'eq', 'ne'):
                continue
            co = coeff_of(c.a[0], aid)
            k = co[0].const() if co is not None else None
            if k is None or abs(k) != 1:
                continue
            x = ctx.norm(-co[1] * P(k))           # the position where the expression is 0
            for y in ((x, x + 1) if c.op != 'ge' else (x,) if k > 0 else (x + 1,)):
                if all(not ctx.norm(y - z).is_zero() for z in cuts) and ctx.entails(And(gt0(y), lt(y, T))):
                    cuts.append(y)
    out = []
    for y in cuts:
        i = 0
        while i < len(out) and ctx.entails(lt(out[i], y)):
            i += 1
        if not all(ctx.entails(lt(y, z)) for z in out[i:]):
            return None
        out.insert(i, y)
    return out


def pinned(ctx, T):
    """small constant value of T implied by the path condition"""
    if not any(c.op == 'eq' for c in ctx.pc):
        return None
    return None


def concrete_iter(ip, it):
    if isinstance(it, (tuple, str, dict)):
        return True
    if isinstance(it, ListV):
        return isinstance(ip.ctx.heap[it.sid], tuple)
    return False


def is_num(v):
    return isinstance(v, (int, Num)) and not isinstance(v, bool)


class Carry(object):
    """loop-carried numeric variable (or list length)"""

    def __init__(self, name, v0, kind, ctx):
        self.name, self.v0, self.kind = name, v0, kind
        self.h = ctx.fresh('h.%s' % (name,), 'i' if kind in ('int', 'npint') else 'r')
        if kind == 'complex':
            self.h = self.h + I * ctx.fresh('hi.%s' % (name,), 'r')
        self.fn = None
        self.preset = False


class CarryArr(object):
    """loop-carried array variable growing along its first axis"""

    def __init__(self, name, arr, dt):
        self.name, self.arr, self.dt = name, arr, dt


class PendBase(object):
    def __init__(self, ls, sid):
        self.ls, self.sid = ls, sid

    def get(self, ctx, idx):
        ls = self.ls
        if ls.start_covers(ctx, self.sid, idx):
            if ls.odt[self.sid] == 'O':
                raise Unsupported('loop reads an object written by an earlier iteration')
            return ls.pend_app(self.sid, idx)
        return read_rec(ctx, ls.base[self.sid], idx)


class NoRead(object):
    def get(self, ctx, idx):
        raise Unsupported('loop reads list contents')


class LoopSum(object):
    counted = False

    def __init__(self, ip, st, T, g, env):
        self.ip, self.st, self.T, self.g, self.env = ip, st, T, g, env
        self.ctx = ip.ctx
        self.line = st.lineno

    # -------------------------------------------------------------- body execution
    def run_body(self, mode, collect):
        """explore one generic iteration.  mode: 'havoc' (scalars), 'hcont' (contents havoc),
        'pend'"""
        ctx, ip = self.ctx, self.ip
        t = self.t
        self.mode = mode

        def body():
            env = self.env.clone()
            ctx.assume(ge0(t))
            ctx.assume(lt(t, self.T))
            for n in self.names:
                if n in self.carr:
                    continue
                c = self.carry.get(n)
                if n in self.fixed:
                    env[n] = self.fixed[n]
                elif c is None:
                    env[n] = Poison(n)
                elif (mode == 'havoc' and not c.preset) or c.fn is None:
                    env[n] = mknum(c.h, c.kind)
                else:
                    env[n] = mknum(ctx.norm(c.fn(t)), c.kind)
            for sid in self.mod:
                rec = self.base[sid]
                shape = rec.shape
                if sid in self.lens:
                    c = self.lens[sid]
                    L = c.h if (mode == 'havoc' or c.fn is None) else ctx.norm(c.fn(t))
                    if mode == 'havoc':
                        ctx.assume(ge0(L))
                    shape = (L,) + tuple(shape[1:])
                if mode == 'pend':
                    b = PendBase(self, sid)
                elif rec.dtype == 'O':
                    b = NoRead()
                else:
                    b = AppBase('hv%d.%d' % (self.lid, sid), rec.dtype == 'c', [t] + self.outer)
                ctx.heap[sid] = ArrRec(shape, rec.dtype, b, (), rec.tag)
            for n, ca in self.carr.items():
                env[n] = Arr(ca.sid, ctx.heap[ca.sid].shape)
            start = dict(ctx.heap)
            ip.assign(self.st.target, self.g(t), env)
            r = ip.exec_block(self.st.body, env)
            if r is not None and r[0] in ('ret', 'brk'):
                if ctx.feasible(2):
                    raise Unsupported('early exit from a symbolic loop (line %d)' % self.line)
                raise Infeasible()
            return collect(env, start)
        try:
            hl = [P(atom(a)) for c in list(self.carry.values()) + list(self.lens.values())
                  for a in c.h.atoms() if atom(a).kind == 'var']
            outs = ctx.explore(body, locals_=[t] + hl)
        finally:
            pass
        res = []
        for o in outs:
            if o.kind == 'exc':
                if mode == 'havoc':         # excluded by the later passes, which know the carried values
                    continue
                if isinstance(o.value, PyExc):
                    raise Unsupported('possible %s in a symbolic loop (line %d, when %s)' % (
                        o.value.etype, self.line, ' and '.join(repr(c) for c in o.pc)))
            res.append(o)
        return res

    # -------------------------------------------------------------- helpers
    def pend_app(self, sid, idx):
        nm = 'pend%d.%d' % (self.lid, sid)
        if self.base[sid].dtype == 'c':
            return app('re.' + nm, idx) + I * app('im.' + nm, idx)
        return app(nm, idx)

    def start_covers(self, ctx, sid, idx):
        t = self.t
        tid = t.as_atom().id
        for reg in self.regs.get(sid, ()):
            idxfree = set()
            for e in reg.idx:
                idxfree |= e.free()
            if tid in idxfree or pinned_t(reg, tid) is not None:
                tp = P(mk_atom('var', "t'%d" % self.lid, (), 'i'))
                r2 = reg.subst({tid: tp})
                if cover(ctx, r2, idx, tp, t, want_free=True) is not None:
                    return True
            else:
                bv = []
                conds = [c for c in reg.conds if tid not in c.free()]
                bad = False
                for b, h in reg.bv:
                    if tid in h.free():
                        bad = True
                    bv.append((b, h))
                if bad:
                    # over-approximate: bounds that vary with t are dropped
                    big = P(mk_atom('var', 'big%d' % self.lid, (), 'i'))
                    sol, res, uns, eqs, guess = solve_idx(ctx, [b.as_atom().id for b, h in bv], reg.idx, idx)
                    if uns or eqs or guess:
                        raise Unsupported('region varying with the loop variable')
                    cs = list(res)
                    for b, h in bv:
                        v = sol[b.as_atom().id]
                        cs.append(ge0(v))
                        if tid not in h.free():
                            cs.append(lt(v, subst(h, sol)))
                    if ctx.decide(And(*cs)):
                        return True
                    continue
                if cover(ctx, Region(bv, conds, reg.idx), idx) is not None:
                    return True
        return False

    def modified(self, ctx, start):
        """sids of pre-existing storages changed by the iteration"""
        out = []
        for k, v in self.H0.items():
            w = ctx.heap.get(k)
            s = start.get(k)
            if w is s:
                continue
            if isinstance(k, tuple) and k[0] == 'part':
                if v != w:
                    raise Unsupported('unfinished line in a loop')
            elif isinstance(v, (ArrRec, tuple)) and not k == 'draws':
                out.append(k)
            elif isinstance(v, frozenset):      # allocations
                if v != w and w != s:
                    raise Unsupported('allocation or release that outlives a loop iteration')
            elif isinstance(v, dict):
                if k == 'files':
                    if v != w:
                        raise Unsupported('file opened for writing in a loop')
                    continue
                for a in set(v) | set(w):
                    if not same_value(v.get(a), w.get(a)):
                        raise Unsupported('attribute %s modified in a loop (line %d)' % (a, self.line))
            else:
                raise Unsupported('state %r modified in a loop' % (k,))
        if ctx.heap.get('draws', ()) != start.get('draws', ()):
            raise Unsupported('random draws in a symbolic loop')
        if ctx.heap.get('files', {}) != start.get('files', {}):
            raise Unsupported('file opened in a loop')
        return out

    # -------------------------------------------------------------- main
    def summarize(self):
        ctx, ip = self.ctx, self.ip
        st = self.st
        self.names = assigned_names(st.body) | assigned_names([ast.Assign([st.target], ast.Constant(0))])
        self.names -= self.updated_in_place(st)
        self.lid = ctx.newid()
        self.t = ctx.fresh('t')
        self.outer = [P(atom(a)) for a in sorted(local_ids(ctx)) if a != self.t.as_atom().id]
        self.carry = {}
        self.carr = {}
        self.lens = {}
        self.changing = set()       # array variables bound to another array by an iteration
        self.fixed = {}             # carried values that no iteration changes
        self.mod = []
        self.base = {}
        self.odt = {}
        self.regs = {}
        self.H0 = dict(ctx.heap)
        if getattr(ip, 'cmem', None) is not None or self.counted:
            self.counters()
        # ---- stage A: which variables / storages are carried, and their update functions
        for _ in range(60):
            try:
                outs = self.run_body('havoc', self.collect_scalars)
            except NeedCarry as e:
                self.add_carry(e.name)
                continue
            except Changes as e:
                del self.fixed[e.name]
                self.changing.add(e.name)
                self.add_carry(e.name)
                continue
            again = False
            for o in outs:
                sc, mods, lens = o.value
                for s in mods:
                    if s not in self.mod:
                        self.add_mod(s)
                        again = True
                for n, v in sc.items():
                    c = self.carry.get(n)
                    if c is None:
                        if isinstance(v, Poison):
                            if n in self.env and is_num(self.env[n]):
                                self.add_carry(n)
                                again = True
                        continue
                    if not is_num(v):
                        raise Unsupported('variable %s changes type in a loop' % n)
                    p, k = tonum(v)
                    if KORD[k] > KORD[c.kind]:
                        self.carry[n] = Carry(n, c.v0, k, ctx)
                        again = True
            if not again:
                break
        else:
            raise Unsupported('loop analysis does not stabilise')
        self.solve(outs)
        # ---- stage B: written regions with contents unknown; checks the scalar invariants
        for _ in range(10):
            outs = self.run_body('hcont', self.collect_regions)
            again = False
            for o in outs:
                for s in o.value[1]:
                    if s not in self.mod:
                        self.add_mod(s)
                        again = True
            if not again:
                break
        self.regs = {}
        hv = 'hv%d.' % self.lid
        for o in outs:
            pcs = [c for c in o.pc if not self.rangec(c) and not mentions(c, hv)]
            for s, rl in o.value[2].items():
                lst = self.regs.setdefault(s, [])
                for r in rl:
                    conds = [c for c in r.conds if not mentions(c, hv)] + pcs
                    rr = Region(r.bv, conds, r.idx)
                    k = reg_key(rr)
                    if all(reg_key(x) != k for x in lst):
                        lst.append(rr)
        # ---- stage C: content written by a generic iteration
        outs = self.run_body('pend', self.collect_items)
        self.finish(outs)

    def updated_in_place(self, st):
        """arrays and lists which the body assigns by x op= e only: x stays the same object"""
        other, aug = set(), set()
        for s in st.body + [ast.Assign([st.target], ast.Constant(0))]:
            mine = set()
            for x in ast.walk(s):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    aug.add(x.target.id)
                    mine.add(id(x.target))
                elif isinstance(x, ast.FunctionDef):
                    other.add(x.name)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and id(x) not in mine:
                    other.add(x.id)
        return set(n for n in aug - other if isinstance(self.env.get(n), (Arr, ListV)))

    def counters(self):
        """guess x = x0 + t*e for integers changed once per iteration by x = x +- e with e fixed (the guess is an
        invariant that the later passes establish)"""
        body, env, ctx = self.st.body, self.env, self.ctx
        writes = {}
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    writes[x.id] = writes.get(x.id, 0) + 1

        def fixed(e):
            if isinstance(e, ast.Name):
                return e.id not in self.names and is_num(env.get(e.id)) and tonum(env[e.id])[1] in ('int', 'npint')
            if isinstance(e, ast.Constant):
                return isinstance(e.value, int) and not isinstance(e.value, bool)
            if isinstance(e, ast.BinOp):
                return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)) and fixed(e.left) and fixed(e.right)
            return isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and fixed(e.operand)
        def cyclic(s):
            """x = __wrap(x, N) or x = __cmod(x, N) -> x, N"""
            v = s.value if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) else None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('__wrap', '__cmod') and fixed(v.args[1]):
                return s.targets[0].id, v.args[0], v.args[1]
            return None
        mod = {}
        for s in body:
            c = cyclic(s)
            if c is not None and isinstance(c[1], ast.Name) and c[1].id == c[0] and writes.get(c[0]) == 2:
                mod[c[0]] = c[2]
        for s in body:
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                continue
            n, v = s.targets[0].id, s.value
            c = cyclic(s)
            md = mod.get(n)
            if c is not None and not isinstance(c[1], ast.Name):
                v, md = c[1], c[2]
                if writes.get(n) != 1:
                    continue
            elif writes.get(n) != (1 if md is None else 2):
                continue
            if n not in env or not is_num(env[n]) or tonum(env[n])[1] not in ('int', 'npint'):
                continue
            if not (isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub))):
                continue
            if isinstance(v.left, ast.Name) and v.left.id == n and fixed(v.right):
                e = v.right
            elif isinstance(v.op, ast.Add) and isinstance(v.right, ast.Name) and v.right.id == n and fixed(v.left):
                e = v.left
            else:
                continue
            d = tonum(self.ip.eval(e, env))[0]
            if isinstance(v.op, ast.Sub):
                d = -d
            if md is not None:
                md = ctx.norm(tonum(self.ip.eval(md, env))[0])
                if not ctx.entails(ge(md, 1)):
                    continue
            self.add_carry(n)
            c = self.carry[n]

            def fn(tt, c=c, d=d, md=md):
                x = ctx.norm(c.v0 + tt * d)
                return x if md is None else ctx.norm(x - md * T_.floordiv(x, md))
            c.preset, c.fn = True, fn

    def rangec(self, c):
        return c in (ge0(self.t), lt(self.t, self.T))

    def add_carry(self, n):
        v = self.env.get(n)
        ctx = self.ctx
        if n not in self.env or isinstance(v, Poison):
            if isinstance(v, Poison):
                raise NeedCarry(n)
            raise Unsupported('loop variable %s may be read before assignment (line %d)' % (n, self.line))
        if hasattr(v, 'fn') and hasattr(v, 'val'):
            v = self.ip.lookup(n, self.env)
        if v is None or isinstance(v, (bool, str)):
            self.fixed[n] = v
            return
        if isinstance(v, SymBool):
            raise Unsupported('loop-carried boolean %s' % n)
        if is_num(v):
            p, k = tonum(v)
            self.carry[n] = Carry(n, p, k, ctx)
            return
        if isinstance(v, (Arr, ListV)) and n not in self.changing:
            self.fixed[n] = v               # the same object on every iteration, unless the body shows otherwise
            return
        if isinstance(v, Arr):
            rec = ctx.heap[v.sid]
            g = reader(ctx, v)
            ca = CarryArr(n, v, rec.dtype)
            ca.sid = ctx.newid()
            ctx.heap[ca.sid] = ArrRec(v.shape, rec.dtype, FnBase(g))
            self.H0[ca.sid] = ctx.heap[ca.sid]
            self.carr[n] = ca
            self.base[ca.sid] = ctx.heap[ca.sid]
            self.odt[ca.sid] = rec.dtype
            self.mod.append(ca.sid)
            self.lens[ca.sid] = Carry('len.' + n, v.shape[0], 'int', ctx)
            return
        raise Unsupported('loop-carried variable %s of type %s (line %d)' % (n, type(v).__name__, self.line))

    def add_mod(self, s):
        ctx = self.ctx
        r = self.H0[s]
        if isinstance(r, tuple):
            r = self.ip.list_rec(ListV(s))
            self.H0[s] = ctx.heap[s]
        self.base[s] = r
        self.odt[s] = r.dtype
        self.mod.append(s)
        if r.dtype == 'O':
            self.lens[s] = Carry('len%d' % s, r.shape[0], 'int', ctx)

    def end_state(self, env, start):
        ctx = self.ctx
        sc = {}
        for n in self.names:
            v = env.get(n)
            if n in self.carr:
                continue
            if n in self.fixed:
                if isinstance(self.fixed[n], (Arr, ListV)):
                    if v is not self.fixed[n]:
                        raise Changes(n)
                elif type(v) is not type(self.fixed[n]) or v != self.fixed[n]:
                    raise Unsupported('loop-carried value %s changes (line %d)' % (n, self.line))
                continue
            sc[n] = v
        mods = self.modified(ctx, start)
        # carried arrays: the new value must extend the old one
        self.ends = {}
        lens = {}
        for n, ca in self.carr.items():
            v = env[n]
            if not isinstance(v, Arr):
                raise Unsupported('carried array changes type')
            if ctx.heap[ca.sid] is not start.get(ca.sid) or ca.arr.sid in mods:
                raise Unsupported('carried array %s written in place in the loop that rebinds it' % n)
            s0 = ctx.heap[ca.sid].shape
            if v.sid == ca.sid:
                self.ends[n] = None
                lens[ca.sid] = s0[0]
                continue
            if len(v.shape) != len(s0):
                raise Unsupported('carried array changes rank')
            for x, y in zip(v.shape[1:], s0[1:]):
                if not ctx.entails(eq(x, y)):
                    raise Unsupported('carried array changes shape')
            lens[ca.sid] = v.shape[0]
            self.ends[n] = v
        for s in self.lens:
            if s not in lens:
                r = ctx.heap[s]
                lens[s] = r.shape[0] if isinstance(r, ArrRec) else P(len(r))
        return sc, mods, lens

    def carr_append(self, ctx):
        """turn the new value of carried arrays into writes of the appended part"""
        for n, v in self.ends.items():
            if v is None:
                continue
            ca = self.carr[n]
            L0 = ctx.heap[ca.sid].shape[0]
            g = reader(ctx, v)
            rec0 = ctx.heap[ca.sid]

            def chk(idx, g=g, rec0=rec0):
                a = g(idx)
                b = read_rec(ctx, rec0, idx)
                ok = ctx.norm(a - b).is_zero()
                if not ok:
                    raise Unsupported('carried array is rewritten, not extended')
                return ZERO
            if self.mode != 'pend':     # established for arbitrary previous content
                generic_pieces(ctx, (L0,) + tuple(v.shape[1:]), chk)
            b = bvs(ctx, v.shape)
            reg = Region([(b[0], ctx.norm(v.shape[0] - L0))] + list(zip(b[1:], v.shape[1:])), [],
                         [L0 + b[0]] + list(b[1:]))
            ctx.heap[ca.sid] = rec0.push(Write(reg, lambda bb, g=g, L0=L0: g([L0 + bb[0]] + list(bb[1:])))).reshape_len0(v.shape[0])

    def collect_scalars(self, env, start):
        ctx = self.ctx
        sc, mods, lens = self.end_state(env, start)
        sc2 = {}
        for n, v in sc.items():
            if isinstance(v, Poison) or n in self.carry:
                sc2[n] = v
        return sc2, mods, lens

    def collect_regions(self, env, start):
        ctx = self.ctx
        sc, mods, lens = self.end_state(env, start)
        self.carr_append(ctx)
        self.check_preserved(ctx, sc, lens)
        rg = {}
        for s in self.mod:
            r = ctx.heap[s]
            rg[s] = []
            for e in r.chain:
                rg[s].extend(e.regions())
        return {}, mods, rg

    def check_preserved(self, ctx, sc, lens):
        t = self.t
        for n, c in self.carry.items():
            v = sc[n]
            p, k = tonum(v)
            if c.fn is None:
                continue
            if getattr(c, 'opaque', False):      # arbitrary value in every iteration
                if k != c.kind:
                    raise Unsupported('loop variable %s changes its type (line %d)' % (n, self.line))
                continue
            ok = same(ctx, p, c.fn(t + 1))
            ctx.record('loop invariant preserved: %s (line %d)' % (n, self.line), ok, repr(p))
            if not ok:
                raise Unsupported('inferred invariant of %s is not preserved (line %d)' % (n, self.line))
        for s, c in self.lens.items():
            if c.fn is None:
                raise Unsupported('length of a list built in a loop (line %d)' % self.line)
            ok = same(ctx, lens[s], c.fn(t + 1))
            ctx.record('loop invariant preserved: length (line %d)' % self.line, ok, repr(lens[s]))
            if not ok:
                raise Unsupported('inferred length invariant is not preserved (line %d)' % self.line)

    def collect_items(self, env, start):
        ctx = self.ctx
        sc, mods, lens = self.end_state(env, start)
        self.carr_append(ctx)
        for s in mods:
            if s not in self.mod:
                raise Unsupported('storage modified unexpectedly')
        items = {}
        for s in self.mod:
            rec = ctx.heap[s]
            out = []
            done = []
            for e in rec.chain:
                for reg in e.regions():
                    if not self.known_region(s, reg):
                        raise Unsupported('written region changes between passes (line %d)' % self.line)
                    out.extend(self.eval_region(ctx, rec, reg, done))
                    done.append(reg)
            items[s] = out
        vals = {}
        for n, v in sc.items():
            if n in self.carry or isinstance(v, Poison):
                continue
            if isinstance(v, (Arr, ListV)):
                if v.sid in self.H0:
                    vals[n] = v
                elif self.used_later(n):
                    vals[n] = snapval(ctx, v)
                continue
            vals[n] = v
        return items, vals

    def known_region(self, s, reg):
        k = reg_key(Region(reg.bv, (), reg.idx))
        if any(reg_key(Region(r.bv, (), r.idx)) == k for r in self.regs.get(s, ())):
            return True
        ctx = self.ctx
        for r in self.regs.get(s, ()):      # the same cells under the current path condition
            if len(r.bv) != len(reg.bv) or len(r.idx) != len(reg.idx):
                continue
            mp = {b.as_atom().id: c for (b, h), (c, g) in zip(r.bv, reg.bv)}
            if all(ctx.norm(subst(h, mp) - g).is_zero() or ctx.entails(eq(subst(h, mp), g)) for (b, h), (c, g) in zip(r.bv, reg.bv)) and \
                    all(ctx.norm(subst(x, mp) - y).is_zero() or ctx.entails(eq(subst(x, mp), y)) for x, y in zip(r.idx, reg.idx)):
                return True
        return False

    def used_later(self, n):
        fn = self.ip.fn_stack[-1] if self.ip.fn_stack else None
        if fn is None:
            return True
        end = max(getattr(x, 'lineno', 0) for x in ast.walk(self.st))
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load) and x.lineno > end:
                return True
        return False

    def eval_region(self, ctx, rec, reg, done):
        bs = [(ctx.fresh('u'), h) for b, h in reg.bv]
        mp = {b.as_atom().id: nb for (b, h), (nb, _) in zip(reg.bv, bs)}
        conds = [c.subst(mp) for c in reg.conds]
        idx = [subst(x, mp) for x in reg.idx]
        bs = [(nb, subst(h, mp)) for nb, h in bs]
        rng = []
        for b, h in bs:
            rng += [ge0(b), lt(b, h)]

        def run():
            for c in rng + conds:
                ctx.assume(c)
            for d in done:
                if cover(ctx, d, idx) is not None:
                    raise Infeasible()
            v = snapval(ctx, read_rec(ctx, rec, idx))
            return v
        outs = ctx.explore(run, locals_=[b for b, h in bs])
        res = []
        for o in outs:
            if o.kind == 'exc':
                raise Unsupported('exception while evaluating loop content')
            pc = [c for c in o.pc if c not in rng]
            res.append(Item(Region(bs, pc, idx), o.value))
        return res

    # -------------------------------------------------------------- closed forms of scalars
    def solve(self, outs):
        ctx = self.ctx
        tid = self.t.as_atom().id
        todo = {}
        for n, c in self.carry.items():
            if not c.preset:
                todo[('v', n)] = c
        for s, c in self.lens.items():
            todo[('l', s)] = c
        upd, full = {}, {}
        for k, c in todo.items():
            paths = []
            full[k] = []
            for o in outs:
                sc, mods, lens = o.value
                p = tonum(sc[k[1]])[0] if k[0] == 'v' else lens[k[1]]
                conds = tuple(x for x in o.pc if not self.rangec(x) and x != ge0(c.h))
                paths.append((conds, p))
                full[k].append((tuple(x for x in o.pc if not self.rangec(x)), p))
            upd[k] = paths
        hs = {}
        for k, c in todo.items():
            for a in c.h.atoms():
                if atom(a).kind == 'var':
                    hs[a] = k
        resolved = {}
        progress = True
        while progress and todo:
            progress = False
            for k in sorted(todo, key=repr):
                c = todo[k]
                fn = self.close(ctx, c, upd[k], set(hs) - {a for a, kk in hs.items() if kk in resolved}, resolved, hs)
                if fn is not None:
                    c.fn = fn
                    resolved[k] = c
                    del todo[k]
                    progress = True
                    break
        for k, c in todo.items():
            if k[0] == 'l':
                raise Unsupported('length of a list built in a loop (line %d)' % self.line)
            if len(todo) == 1 and c.kind not in ('int', 'npint', 'complex'):
                c.fn = self.extremum(ctx, c, full[k], resolved, hs)
                if c.fn is not None:
                    c.opaque = True         # established by the shape of every path of the iteration
                    continue
            nm = 'lv%d.%s' % (ctx.newid(), k[1])
            sort = 'i' if c.kind in ('int', 'npint') else 'r'
            if c.kind == 'complex':
                c.fn = lambda tt, nm=nm: app('re.' + nm, self.outer + [tt]) + I * app('im.' + nm, self.outer + [tt])
            else:
                c.fn = lambda tt, nm=nm, sort=sort: app(nm, self.outer + [tt], sort)
            c.opaque = True
            if c.kind in ('int', 'npint'):
                raise Unsupported('no closed form for loop variable %s (line %d)' % (k[1], self.line))

    def close(self, ctx, c, paths, unresolved, resolved, hs):
        t, tid = self.t, self.t.as_atom().id
        own = {a for a in c.h.atoms() if atom(a).kind == 'var'}
        # substitute resolved variables
        mp = {}
        for a, k in hs.items():
            if k in resolved:
                cc = resolved[k]
                if cc.kind == 'complex':
                    return None
                mp[a] = cc.fn(t)
        ps = []
        for conds, p in paths:
            ps.append((tuple(x.subst(mp) for x in conds), subst(p, mp)))
        if all(p == c.h for _, p in ps):
            return lambda tt: c.v0
        # drop paths that only differ in conditions
        vals = []
        for _, p in ps:
            if p not in vals:
                vals.append(p)
        deltas = [p - c.h for p in vals]
        bad = unresolved
        if all(not (d.free() & bad) and not (d.atoms() & bad) for d in deltas):
            if len(deltas) == 1:
                d = deltas[0]
                cf = faulhaber(d, t)
                if cf is not None:
                    return lambda tt: ctx.norm(c.v0 + subst(cf, {tid: tt}))
                sv = P(mk_atom('var', 's#%d' % self.lid, (), 'i'))
                return lambda tt: ctx.norm(c.v0 + mk_sum_ctx(ctx, sv, ZERO, tt, (), subst(d, {tid: sv})))
            if all(not (x.free() & bad) for cs, _ in ps for x in cs):
                sv = P(mk_atom('var', 's#%d' % self.lid, (), 'i'))
                if c.name.startswith('len'):
                    self.ip.counted_len = True

                def fn(tt):
                    r = c.v0
                    for cs, p in ps:
                        d = p - c.h
                        if not d.is_zero():
                            r = r + mk_sum_ctx(ctx, sv, ZERO, tt, [x.subst({tid: sv}) for x in cs], subst(d, {tid: sv}))
                    return ctx.norm(r)
                return fn
        if len(vals) == 1 and len(own) == 1:
            lr = coeff_of(vals[0], next(iter(own)))
            if lr is not None and lr[1].is_zero() and not (lr[0].free() & bad):
                sv = P(mk_atom('var', 's#%d' % self.lid, (), 'i'))
                return lambda tt: ctx.norm(c.v0 * T_.mk_prod(sv, ZERO, tt, (), subst(lr[0], {tid: sv})))
        if all(not (p.free() & bad) for _, p in ps):
            if len(vals) == 1:
                v = vals[0]
                if same(ctx, subst(v, {tid: P(-1)}), c.v0):
                    return lambda tt: ctx.norm(subst(v, {tid: tt - 1}))

                def fl(tt):
                    if ctx.decide(ge(tt, 1)):
                        return ctx.norm(subst(v, {tid: tt - 1}))
                    return c.v0
                return fl
            if all(not (x.free() & bad) for cs, _ in ps for x in cs):
                def fm(tt):
                    if not ctx.decide(ge(tt, 1)):
                        return c.v0
                    return pick(ctx, ps, {tid: tt - 1})
                return fm
        return None

    def extremum(self, ctx, c, paths, resolved, hs):
        """every path of the iteration ends with max(h, e(t)) (or min), e independent of the variable h itself: the
        largest element"""
        t, tid = self.t, self.t.as_atom().id
        hid = c.h.as_atom().id
        mp = {}
        for a, k in hs.items():
            if k in resolved:
                if resolved[k].kind == 'complex':
                    return None
                mp[a] = resolved[k].fn(t)
        for kind, sgn in (('max', 1), ('min', -1)):
            ps = self.candidates(ctx, [(tuple(x.subst(mp) for x in cs), subst(p, mp)) for cs, p in paths], c.h, hid, kind, sgn)
            if ps is not None:
                break
        else:
            return None
        bound = bounded_by(c.v0)
        none = app('none', [])

        def elem(i):
            if len(i) == 1:
                v = pick(ctx, ps, {tid: i[0]})
            else:
                v = pick(ctx, ps, {tid: i[0]})
                v = NP.functional_elem(ctx, v.as_atom().name, list(v.as_atom().args))[2](i[1:])
            return c.v0 if v == none and c.v0.const() is not None else v
        inner = None
        for j, (cs, p) in enumerate(ps):            # the elements are the maxima of rows of the same length
            a = p.as_atom() if len(p.t) == 1 else None
            if a is None or a.kind != 'app' or a.name not in ctx.fundefs or p != P(a):
                inner = None
                break
            kd, sh, get, rest = NP.functional_elem(ctx, a.name, list(a.args))
            if kd != kind or rest or any(tid in n.free() for n in sh) or \
                    inner is not None and not all(ctx.norm(x - y).is_zero() for x, y in zip(sh, inner)):
                inner = None
                break
            inner = sh
        v0 = c.v0

        def fn(tt):
            shape = (tt,) + (inner or ())
            if bound(elem, ctx, shape, sgn):
                return NP.extreme(ctx, kind, shape, elem)
            skips = any(v == none for _, v in ps)
            if inner is None and not skips:
                try:
                    first = same(ctx, elem([P(-1)]), v0)
                except (Unsupported, Infeasible):
                    first = False
                if first:
                    return NP.extreme(ctx, kind, (tt + 1,), lambda i: elem([i[0] - 1]))
            return app(kind + '2', [v0, NP.extreme(ctx, kind, shape, elem)])
        return fn

    def candidates(self, ctx, paths, h, hid, kind, sgn):
        """[(conditions, e)] with the new value max(h, e) on every path (e = none: unchanged), or None"""
        out = {}
        for cs, p in paths:
            free, up, down = [], [], []
            for x in cs:
                if hid not in x.free():
                    free.append(x)
                    continue
                if x.op not in ('ge', 'gt'):
                    return None
                q = x.a[0]
                co = coeff_of(q, hid)
                k = co[0].const() if co is not None else None
                if k is None or isinstance(k, complex) or hid in co[1].free():
                    return None
                (down if k * sgn > 0 else up).append(ctx.norm(-co[1] * P(Fraction(1) / k)))
            if p == h:
                if up or len(down) > 1:
                    return None
                e = down[0] if down else app('none', [])
            else:
                a = p.as_atom() if len(p.t) == 1 else None
                if a is not None and a.kind == 'app' and a.name == kind + '2' and p == P(a) and a.args[0] == h and not up and not down:
                    e = a.args[1]
                else:
                    e = p
                    if down or len(up) != 1 or not ctx.norm(up[0] - p).is_zero():
                        return None
                if hid in e.free():
                    return None
            for k in out:
                if set(k) == set(free):
                    free = k
            free = tuple(free)
            if free in out and not ctx.norm(out[free] - e).is_zero():
                return None
            out[free] = e
        ks = list(out)
        for i, x in enumerate(ks):
            for y in ks[:i]:
                if not any(Not(u) in y for u in x) and not ctx.entails(Or(lt(self.t, 0), Not(And(*(x + y))))):
                    return None
        return [(k, out[k]) for k in ks]

    # -------------------------------------------------------------- summary
    def finish(self, outs):
        ctx, t, T = self.ctx, self.t, self.T
        tid = t.as_atom().id
        allitems = {s: [] for s in self.mod}
        vals = []
        for o in outs:
            pcs = tuple(c for c in o.pc if not self.rangec(c))
            items, vv = o.value
            vals.append((pcs, vv))
            for s, il in items.items():
                for i in il:
                    allitems[s].append(Item(Region(i.region.bv, tuple(i.region.conds) + pcs, i.region.idx), i.val))
        # resolve references between the modified storages
        entries = {}
        order = list(self.mod)
        pending = {s: self.deps(allitems[s]) for s in order}
        for s in order:
            if not allitems[s]:
                pending.pop(s)
        for s in list(pending):
            d = pending[s]
            if d - {s}:
                raise Unsupported('loop couples several arrays (line %d)' % self.line)
            its = [pin_item(i, t, T) for i in allitems[s]]
            entries[s] = self.classify(s, its, bool(d))
        for s in self.mod:
            rec = self.base[s]
            if s in entries:
                rec = rec.push(entries[s])
            if s in self.lens:
                rec = rec.reshape_len0(ctx.norm(self.lens[s].fn(T)))
            ctx.heap[s] = rec
        # variables
        for n, c in self.carry.items():
            self.env[n] = mknum(ctx.norm(c.fn(T)), c.kind)
        for n, ca in self.carr.items():
            self.env[n] = Arr(ca.sid, ctx.heap[ca.sid].shape)
        last = {tid: ctx.norm(T - 1)}
        from pyinterp import Lazy, UNDEF
        for n in self.names:
            if n in self.carry or n in self.carr or n in self.fixed:
                continue
            if all(n in vv for _, vv in vals) and vals:
                def mk(n=n):
                    def fn():
                        def get():
                            return pick(ctx, [(cs, vv[n]) for cs, vv in vals], last)
                        v = get()
                        if isinstance(v, (SnapArr, SnapList)):
                            return unsnap(ctx, v)
                        if isinstance(v, Num):
                            return mknum(ctx.norm(v.p), v.kind)
                        return v
                    return fn
                self.env[n] = Lazy(mk())
            else:
                def err(n=n):
                    def fn():
                        raise Unsupported('value of %s after the loop at line %d' % (n, self.line))
                    return fn
                self.env[n] = Lazy(err())

    def deps(self, items):
        out = set()
        for s in self.mod:
            nm = 'pend%d.%d' % (self.lid, s)
            for i in items:
                if mentions_any(i, nm):
                    out.add(s)
                    break
        return out

    def classify(self, s, items, selfref):
        ctx, t, T = self.ctx, self.t, self.T
        tid = t.as_atom().id
        if not selfref:
            return LoopMap(t, T, items)
        # accumulation: val = PEND(cell) + g
        acc = []
        for i in items:
            idxfree = set()
            for e in i.region.idx:
                idxfree |= e.free()
            if tid in idxfree or i.at is not None:
                acc = None
                break
            g = i.val - self.pend_app(s, i.region.idx)
            if mentions(g, 'pend%d.' % self.lid) or any(mentions(c, 'pend%d.' % self.lid) for c in i.region.conds):
                acc = None
                break
            acc.append(Item(i.region, g))
        if acc is not None:
            return LoopAcc(t, T, acc)
        # recurrence; every cell must be written at most once
        own = 'pend%d.%d' % (self.lid, s)
        plain, items = self.split_alternatives(own, items)
        for i in items:
            if any(any_app(c, lambda n: 'pend' in n and not n.endswith(own)) for c in i.region.conds) or any(mentions(x, 'pend') for x in i.region.idx) or \
                    any(mentions(h, 'pend') for b, h in i.region.bv) or mentions(i.val, 'hv'):
                raise Unsupported('recurrence with content-dependent cells (line %d)' % self.line)
            if any_app(i.val, lambda n: 'pend' in n and not n.endswith(own)):
                raise Unsupported('recurrence inside another recurrence (line %d)' % self.line)
        for i in plain:
            if i.at is None:
                self.check_once(i, plain)
        cplx = self.base[s].dtype == 'c'
        # canonical names
        fr = set(T.free())
        for i in items:
            fr |= i.region.free() | valfree(i.val)
        loc = [a for a in sorted(fr & local_ids(ctx)) if a != tid]
        cp = [P(mk_atom('var', ('rp', j), (), 'i')) for j in range(len(loc))]
        ct = P(mk_atom('var', ('rt',), (), 'i'))
        mp = {a: q for a, q in zip(loc, cp)}
        mp[tid] = ct
        cit = []
        for i in items:
            m2 = dict(mp)
            bv = []
            for j, (b, h) in enumerate(i.region.bv):
                nb = P(mk_atom('var', ('rb', j), (), 'i'))
                m2[b.as_atom().id] = nb
                bv.append((nb, subst(h, m2)))
            it = Item(Region(bv, [rename_app(c.subst(m2), own, 'PEND') for c in i.region.conds], [subst(x, m2) for x in i.region.idx]),
                      rename_app(vsubst(i.val, m2), own, 'PEND'))
            it.at = None if i.at is None else subst(i.at, m2)
            cit.append(it)
        Tc = subst(T, mp)
        key = (Tc.key(), cplx, tuple((tuple(h.key() for b, h in i.region.bv), tuple(sorted(repr(c.key()) for c in i.region.conds)),
                                      tuple(x.key() for x in i.region.idx), i.val.key()) for i in cit))
        nm = REC_NAMES.get(key)
        if nm is None:
            nm = REC_NAMES[key] = 'rec%d' % len(REC_NAMES)
        ctx.defs[nm] = dict(t=ct, T=Tc, items=cit, cplx=cplx, params=cp)
        return LoopRec(nm, t, T, plain, cplx, [P(atom(a)) for a in loc])

    def split_alternatives(self, own, items):
        """items whose conditions depend on earlier content: -> (the regions without these conditions, all items).
        Alternatives for the same cells must be exhaustive."""
        groups, plain = {}, []
        for i in items:
            cc = [c for c in i.region.conds if mentions(c, 'pend')]
            if not cc:
                plain.append(i)
                continue
            rest = [c for c in i.region.conds if c not in cc]
            if i.region.bv or i.at is not None:
                raise Unsupported('recurrence with content-dependent cells (line %d)' % self.line)
            k = (tuple(x.key() for x in i.region.idx), frozenset(c.key() for c in rest))
            groups.setdefault(k, []).append((i, rest, And(*cc)))
        for g in groups.values():
            i, rest, _ = g[0]
            if not unsat_with(self.ctx, [self.ctx.normc(Not(a)) for _, _, a in g]):
                raise Unsupported('recurrence with content-dependent cells (line %d)' % self.line)
            plain.append(Item(Region(i.region.bv, rest, i.region.idx), i.val))
        return plain, items

    def check_once(self, i, items):
        ctx, t, T = self.ctx, self.t, self.T
        tid = t.as_atom().id
        t2 = ctx.fresh("t'")
        bs = [ctx.fresh('w') for _ in i.region.bv]
        mp = {b.as_atom().id: w for (b, h), w in zip(i.region.bv, bs)}
        mp[tid] = t2
        cell = [subst(x, mp) for x in i.region.idx]
        rng = [c.subst(mp) for c in i.region.allconds()] + [ge0(t2), lt(t2, T)]
        for j in items:
            b3 = [ctx.fresh('w') for _ in j.region.bv]
            m3 = {b.as_atom().id: w for (b, h), w in zip(j.region.bv, b3)}
            t3 = ctx.fresh("t'") if j.at is None else j.at
            m3[tid] = t3
            cs = rng + [c.subst(m3) for c in j.region.allconds()] + [ge0(t3), lt(t3, T)]
            cs += [eq(subst(x, m3), y) for x, y in zip(j.region.idx, cell)]
            for d in (gt(t3, t2), lt(t3, t2)):
                if not unsat_with(ctx, [ctx.normc(c) for c in cs + [d]]):
                    raise Unsupported('recurrence rewrites a cell (line %d)' % self.line)


REC_NAMES = {}


def any_app(x, f):
    """does an app atom occur (at any depth) whose name satisfies f?"""
    st = [x]
    seen = set()
    while st:
        q = st.pop()
        if isinstance(q, Poly):
            for a in q.atoms():
                if a in seen:
                    continue
                seen.add(a)
                at = atom(a)
                if at.kind == 'app' and f(at.name):
                    return True
                st.extend(at.args)
        elif isinstance(q, Cond):
            st.extend(q.a)
        elif isinstance(q, tuple):
            st.extend(q)
    return False


def rename_app(p, old, new):
    return T_.map_apps(p, lambda n, args: (n[:3] if n[:3] in ('re.', 'im.') else '') + new if n.endswith(old) else None)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Num) and isinstance(b, Num):
        return a.p == b.p and a.kind == b.kind
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.sid == b.sid and a.fmap is b.fmap and a.shape == b.shape
    if isinstance(a, ListV) and isinstance(b, ListV):
        return a.sid == b.sid
    if isinstance(a, Obj_()) and isinstance(b, Obj_()):
        return a.oid == b.oid
    if type(a) is type(b) and isinstance(a, (int, str, bool, type(None))):
        return a == b
    return False


def Obj_():
    import pyvals
    return pyvals.Obj


def same(ctx, a, b):
    d = ctx.norm(P(a) - P(b))
    if d.is_zero():
        return True
    if d.is_intsort():
        return ctx.entails(eq0(d))
    import prove
    return prove.equal(ctx, a, b)


def reg_key(r):
    mp = {}
    for j, (b, h) in enumerate(r.bv):
        mp[b.as_atom().id] = P(mk_atom('var', ('rk', j), (), 'i'))
    return (tuple(subst(h, mp).key() for b, h in r.bv), tuple(sorted(repr(c.subst(mp).key()) for c in r.conds)),
            tuple(subst(x, mp).key() for x in r.idx))


_ment = {}


def mentions(x, prefix):
    """x: Poly or Cond; does an app atom whose name contains prefix occur?"""
    st = [x]
    seen = set()
    while st:
        q = st.pop()
        if isinstance(q, Poly):
            for a in q.atoms():
                if a in seen:
                    continue
                seen.add(a)
                at = atom(a)
                if at.kind == 'app' and prefix in at.name:
                    return True
                st.extend(at.args)
        elif isinstance(q, Cond):
            st.extend(q.a)
        elif isinstance(q, tuple):
            st.extend(q)
        elif isinstance(q, Num):
            st.append(q.p)
        elif isinstance(q, SnapArr):
            st.extend(v for cs, v in q.pieces)
            st.extend(c for cs, v in q.pieces for c in cs)
        elif isinstance(q, SnapList):
            st.extend(q.items or ())
            st.extend(v for cs, v in (q.pieces or ()))
        elif hasattr(q, 'parts'):
            st.extend(p[1] for p in q.parts if not isinstance(p, str))
    return False


def mentions_any(i, nm):
    return mentions(i.val, nm) or any(mentions(c, nm) for c in i.region.conds) or \
        any(mentions(x, nm) for x in i.region.idx) or any(mentions(h, nm) for b, h in i.region.bv)


def valfree(v):
    if isinstance(v, Poly):
        return v.free()
    return set()


def pin_item(i, t, T):
    """an item whose conditions fix the iteration"""
    tid = t.as_atom().id
    it = Item(i.region, i.val)
    it.at = None
    s = pinned_t(i.region, tid, T)
    if s is not None:
        mp = {tid: s}
        conds = [x.subst(mp) for x in i.region.conds] + [ge0(s), lt(s, T)]
        it = Item(Region([(b, subst(h, mp)) for b, h in i.region.bv], [x for x in conds if not x.is_true()],
                         [subst(x, mp) for x in i.region.idx]), vsubst(i.val, mp))
        it.at = s
    return it


def faulhaber(d, t):
    """sum_{s=0}^{t-1} d(s) for d polynomial in t of degree <= 3 (coefficients free of t)"""
    tid = t.as_atom().id
    if tid not in d.free():
        return d * t
    co = {}
    for m, c in d.t.items():
        e = 0
        rest = []
        for a, x in m:
            if a == tid:
                e = x
            else:
                if tid in atom(a).free:
                    return None
                rest.append((a, x))
        if e < 0 or e > 3:
            return None
        co[e] = co.get(e, ZERO) + Poly({tuple(rest): c})
    S = {0: t, 1: (t * t - t) / 2, 2: (t * t * t * 2 - t * t * 3 + t) / 6,
         3: ((t * t - t) / 2) ** 2}
    r = ZERO
    for e, c in co.items():
        r = r + c * S[e]
    return r


def summarize(ip, st, T, g, env):
    LoopSum(ip, st, T, g, env).summarize()


# ------------------------------------------------------------------ loops with a known number of iterations
class NotAffine(Exception):
    pass


def fixed_expr(ip, e, env):
    """the value of e cannot change while a loop that assigns none of its names runs"""
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, ast.BinOp):
        return fixed_expr(ip, e.left, env) and fixed_expr(ip, e.right, env)
    if isinstance(e, ast.UnaryOp):
        return fixed_expr(ip, e.operand, env)
    if isinstance(e, ast.Attribute):        # an assignment to an attribute in a loop is refused elsewhere
        return fixed_expr(ip, e.value, env)
    if isinstance(e, ast.Subscript):
        return fixed_expr(ip, e.value, env) and isinstance(ip.eval(e.value, env), tuple)
    if isinstance(e, ast.Call) and not e.keywords and all(fixed_expr(ip, x, env) for x in e.args):
        f = ast.unparse(e.func)
        if f == 'len':
            v = ip.eval(e.args[0], env)
            return isinstance(v, (Arr, tuple, str)) or isinstance(v, ListV) and v.sid not in ip.growing
        return f in ('__cdiv', '__cmod', 'floor', 'ceil', 'int', 'abs', 'min', 'max', 'np.abs', 'np.floor', 'np.ceil', 'np.mod', 'np.minimum', 'np.maximum')
    return False


def affine(ip, e, env, var, assigned):
    names = set(x.id for x in ast.walk(e) if isinstance(x, ast.Name))
    if not names & set(var):
        if names & assigned or not fixed_expr(ip, e, env):
            raise NotAffine()
        v = ip.eval(e, env)
        if not is_num(v):
            raise NotAffine()
        return ip.ctx.norm(tonum(v)[0])
    if isinstance(e, ast.Name):
        return var[e.id]
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return -affine(ip, e.operand, env, var, assigned)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
        x, y = affine(ip, e.left, env, var, assigned), affine(ip, e.right, env, var, assigned)
        return x + y if isinstance(e.op, ast.Add) else x - y if isinstance(e.op, ast.Sub) else x * y
    raise NotAffine()


NEG = {'Lt': 'GtE', 'LtE': 'Gt', 'Gt': 'LtE', 'GtE': 'Lt', 'Eq': 'NotEq', 'NotEq': 'Eq'}


def first_false(ip, test, env, var, assigned, t, neg=False):
    """number of iterations before the comparison is false for the first time (with neg: true); None: never"""
    ctx = ip.ctx
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        test, neg = test.operand, not neg
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or if neg else ast.And):
        best = None
        for x in test.values:       # evaluated from the left, without effects: the order does not matter
            n = first_false(ip, x, env, var, assigned, t, neg)
            if n is not None and (best is None or not ctx.decide(ge(n, best))):
                best = n
        return best
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and type(test.ops[0]).__name__ in NEG):
        raise NotAffine()
    op = type(test.ops[0]).__name__
    d = affine(ip, test.left, env, var, assigned) - affine(ip, test.comparators[0], env, var, assigned)
    if neg:
        op = NEG[op]
    if op in ('Gt', 'GtE'):
        d, op = -d, {'Gt': 'Lt', 'GtE': 'LtE'}[op]
    tid = t.as_atom().id
    b = subst(d, {tid: ZERO})
    a = (d - b)
    ac = subst(a, {tid: P(1)}).const()
    if ac is None or a != t * ac:
        raise NotAffine()
    ac = Fraction(ac)
    den = 1
    for c in b.t.values():
        den = den * c.denominator // math.gcd(den, c.denominator)
    if any(atom(x).sort != 'i' for x in b.atoms()):
        raise NotAffine()

    def pos(n):
        n = ctx.norm(n)
        return n if ctx.decide(ge0(n)) else ZERO
    if op in ('Eq', 'NotEq'):
        if ac == 0:
            return None if ctx.decide(eq0(b)) == (op == 'Eq') else ZERO
        if op == 'Eq':
            return P(1) if ctx.decide(eq0(b)) else ZERO
        n = ctx.norm(b.scale(-1 / ac))
        if any(c.denominator != 1 for c in n.t.values()) or not ctx.decide(ge0(n)):
            raise NotAffine()
        return n
    strict = op == 'Lt'
    if ac <= 0:
        return None if ctx.decide(lt(b, ZERO) if strict else le(b, ZERO)) else ZERO
    q = b.scale(1 / ac)
    if strict:
        return pos(-T_.floordiv(q, P(1)))
    return pos(T_.floordiv(-q, P(1)) + 1)


def is_break(s):
    return isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Break) and not s.orelse


def loop_level(body, kind):
    """statements of that kind which belong to this loop, with the index of the top-level statement they are in"""
    out = []
    def walk(s, j):
        if isinstance(s, kind):
            out.append(j)
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            for x in getattr(s, 'orelse', []):
                walk(x, j)
            return
        for x in ast.iter_child_nodes(s):
            walk(x, j)
    for j, s in enumerate(body):
        walk(s, j)
    return out


def counted(ip, st, env, target=None):
    """a loop ended by comparisons of counters: runs it as a loop over a known number of iterations.
    target = (T, g): the range a for loop runs over"""
    ctx = ip.ctx
    body = list(st.body)
    if len(body) == 1 and isinstance(body[0], ast.If) and len(body[0].orelse) == 1 and isinstance(body[0].orelse[0], ast.Break):
        body = [ast.If(ast.UnaryOp(ast.Not(), body[0].test), [ast.Break()], [])] + body[0].body
    assigned = assigned_names(body)
    t = ctx.fresh('t')
    writes = {}
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                writes[x.id] = writes.get(x.id, 0) + 1
    cont = loop_level(body, ast.Continue)
    start, end = {}, {}
    for j, s in enumerate(body):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            n, op, e = s.target.id, s.op, s.value
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp):
            n, op, e = s.targets[0].id, s.value.op, s.value.right
            if isinstance(s.value.left, ast.Name) and s.value.left.id == n:
                pass
            elif isinstance(op, ast.Add) and isinstance(e, ast.Name) and e.id == n:
                e = s.value.left
            else:
                continue
        else:
            continue
        if not isinstance(op, (ast.Add, ast.Sub)) or writes.get(n) != 1 or any(i < j for i in cont):
            continue
        v = env.get(n)
        if v is None or not is_num(v) or tonum(v)[1] not in ('int', 'npint'):
            continue
        try:
            d = affine(ip, e, env, {}, assigned).as_int()
        except NotAffine:
            continue
        if d is None:
            continue
        if isinstance(op, ast.Sub):
            d = -d
        start[n] = tonum(v)[0] + t * d
        end[n] = start[n] + d
        if isinstance(s, ast.AugAssign):
            body[j] = ast.copy_location(ast.Assign([s.target], ast.BinOp(ast.Name(n, ast.Load()), s.op, s.value)), s)
    # lists that the body does more with than reading their items
    plain = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name):
                plain.add(id(x.value))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' and isinstance(x.args[0], ast.Name):
                plain.add(id(x.args[0]))
    names = set(x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name))
    used = set(x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and id(x) not in plain)
    ip.growing = set(k for k, v in ip.ctx.heap.items() if isinstance(k, int)) - set(
        env[n].sid for n in names - used if isinstance(env.get(n), ListV))
    for n in used:      # an alias
        if isinstance(env.get(n), ListV):
            ip.growing.add(env[n].sid)
    limits = []         # (iterations, left by a break, rank among equal limits)
    if target is None:
        if not (isinstance(st.test, ast.Constant) and st.test.value):
            limits.append((first_false(ip, st.test, env, start, assigned, t), False))
    else:
        T, g = target
        limits.append((T, False))
        if isinstance(st.target, ast.Name) and st.target.id not in assigned:
            assigned = assigned | {st.target.id}
            v = g(t)
            if is_num(v) and tonum(v)[1] in ('int', 'npint'):
                start[st.target.id] = end[st.target.id] = tonum(v)[0]
    while body and is_break(body[0]):
        limits.append((first_false(ip, body[0].test, env, start, assigned, t, neg=True), True))
        body = body[1:]
        cont = [i - 1 for i in cont]
    while body and is_break(body[-1]) and not cont:
        x = first_false(ip, body[-1].test, env, end, assigned, t, neg=True)
        limits.insert(0, (None if x is None else ctx.norm(x + 1), True))
        body = body[:-1]
    if loop_level(body, (ast.Break,)) or not body:
        raise NotAffine()
    best = None
    for x in limits:
        if x[0] is not None and (best is None or not ctx.decide(ge(x[0], best[0]))):
            best = x
    if best is None:
        raise NotAffine()
    T, broken = best
    T = ctx.norm(T)
    name = st.target if target is not None else ast.Name('w.t', ast.Store())
    it = (lambda x: target[1](x)) if target is not None else (lambda x: mknum(ctx.norm(x), 'int'))
    st2 = ast.For(name, None, body, [], lineno=st.lineno)
    c = T.as_int()
    if c is not None and c <= ip.unroll:
        for j in range(c):
            ip.assign(name, it(P(j)), env)
            r = ip.exec_block(body, env)
            if r is not None and r[0] == 'ret':
                return r
    elif ctx.decide(ge(T, 1)):
        ls = LoopSum(ip, st2, T, it, env)
        ls.counted = True
        ls.summarize()
    if broken:
        if target is not None and T != target[0] and is_break(st.body[0]):
            ip.assign(name, it(T), env)
        return None
    return ip.exec_block(st.orelse, env)


# ------------------------------------------------------------------ while loops
def while_loop(ip, st, env):
    ip.ctx.in_while += 1
    try:
        return while_loop_(ip, st, env)
    finally:
        ip.ctx.in_while -= 1


def while_loop_(ip, st, env):
    """havoc + candidate invariants (partial correctness)"""
    ctx = ip.ctx
    if isinstance(st.test, ast.Constant):
        try:
            return counted(ip, st, env)
        except NotAffine:
            pass
    # concrete unrolling while the condition is decided without branching
    for _ in range(40):
        v = ip.eval(st.test, env)
        if v is True or (isinstance(v, int) and not isinstance(v, bool) and v != 0):
            r = ip.exec_block(st.body, env)
            if r is not None:
                if r[0] == 'brk':
                    return None
                if r[0] == 'ret':
                    return r
            if v is True and isinstance(st.test, ast.Constant):
                break
            continue
        if v is False or v is None or v == 0 and isinstance(v, int):
            return ip.exec_block(st.orelse, env)
        try:
            n, ctx.in_while = ctx.in_while, 0
            return counted(ip, st, env)
        except NotAffine:
            break
        finally:
            ctx.in_while = n
    names = assigned_names(st.body)
    car = {}
    for n in names:
        v = env.get(n)
        if v is None:
            continue
        if is_num(v):
            p, k = tonum(v)
            car[n] = (p, k)
    H0 = dict(ctx.heap)
    cands = {}
    for n, (p, k) in car.items():
        if k in ('int', 'npint'):
            cands[n] = [lambda x, p=p: ge(x, p), lambda x, p=p: le(x, p), lambda x: ge0(x), lambda x: ge(x, 1)]
            cands[n] = [f for f in cands[n] if ctx.entails(f(p))]
    ctx.assumed.add('termination of while loops')
    kinds = {n: k for n, (p, k) in car.items()}

    def havoc(e):
        hv = {}
        for n, k in kinds.items():
            x = ctx.fresh('w.' + n, 'i' if k in ('int', 'npint') else 'r')
            hv[n] = x
            e[n] = mknum(x, k)
            for f in cands.get(n, ()):
                ctx.assume(f(x))
        for n in names:
            if n not in kinds:
                e[n] = Poison(n)
        return hv
    while True:
        drop = []

        def body():
            e = env.clone()
            havoc(e)
            if not ip.truth(ip.eval(st.test, e)):
                raise Infeasible()
            r = ip.exec_block(st.body, e)
            if r is not None and r[0] in ('brk', 'ret'):
                raise Infeasible()
            for k, v in H0.items():
                if ctx.heap.get(k) is not v:
                    raise Unsupported('while loop modifies a storage')
            bad = []
            for n in kinds:
                p, k = tonum(e[n])
                if KORD[k] > KORD[kinds[n]]:
                    bad.append(('kind', n, k))
                    continue
                for j, f in enumerate(cands.get(n, ())):
                    if not ctx.entails(f(p)):
                        bad.append((n, j))
            return bad
        outs = ctx.explore(body, memo=False)
        for o in outs:
            if o.kind == 'exc':
                raise Unsupported('exception in a while loop: %r' % (o.value,))
            drop.extend(o.value)
        if not drop:
            break
        for d in drop:
            if d[0] == 'kind':
                kinds[d[1]] = d[2]
        for n in cands:
            cands[n] = [f for j, f in enumerate(cands[n]) if (n, j) not in drop]
    havoc(env)
    if not ip.truth(ip.eval(st.test, env)):
        return ip.exec_block(st.orelse, env)
    r = ip.exec_block(st.body, env)
    if r is not None and r[0] == 'brk':
        return None
    if r is not None and r[0] == 'ret':
        return r
    raise Infeasible()
