"""Symbolic interpreter for the Python modules of the repository (parsed on every run)."""
import ast, os, json
from npmodel import *
import npmodel as NP
import loops


class Ret(Exception):
    pass


class Module(object):
    def __init__(self, name, env):
        self.name, self.env = name, env


UNDEF = object()


class Lazy(object):
    """value of a variable after a loop, computed on first use"""

    def __init__(self, fn):
        self.fn = fn
        self.val = UNDEF


class GenV(object):
    """generator expression (evaluated as a list)"""


class Env(dict):
    """function locals; parent for closures"""
    __slots__ = ('parent', 'isclass', 'glob', 'fn')

    def __init__(self, parent=None, init=()):
        dict.__init__(self, init)
        self.parent = parent
        self.isclass = False
        self.glob = set()
        self.fn = None

    def clone(self):
        e = Env(self.parent, self)
        e.isclass = self.isclass
        e.glob = self.glob
        e.fn = self.fn
        return e


STATE = {'ScalarCoefs': ('_vec', '_nmax', '_mmax'), 'VectorCoefs': ('scoef1', 'scoef2', '_nmax', '_mmax'),
         'ScalarPatternUniform': ('_dsphere',), 'TransversePatternUniform': ('_tdsphere', '_pdsphere')}


class Interp(object):
    def __init__(self, ctx, repo='/repo', contracts=None):
        self.ctx = ctx
        self.repo = repo
        self.contracts = contracts or {}
        self.mods = {}
        self.builtins = self.mk_builtins()
        self.np = self.mk_numpy()
        self.depth = 0
        self.call_log = []
        self.unroll = 4
        self.fn_stack = []
        self.seen = set()
        self.frozen = {}
        self.building = frozenset()
        self.verifying = set()
        self.loop_specs = {}

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.repo, *name.split('.')) + '.py'
        if not os.path.exists(path):
            path = os.path.join(self.repo, *(name.split('.') + ['__init__.py']))
        if not os.path.exists(path):
            raise Unsupported('module ' + name)
        src = open(path, 'rb').read()
        tree = ast.parse(src, path)
        env = Env(None)
        env['__name__'] = name
        env['__file__'] = path
        m = ModV(name, env)
        self.mods[name] = m
        self.cur_mod = name
        self.exec_block(tree.body, env)
        return m

    def import_module(self, name):
        if name in ('numpy',):
            return self.np
        if name == 'json':
            return ModV('json', {'load': Builtin('json.load', self.b_json_load)})
        if name == 'os.path' or name == 'os':
            p = ModV('os.path', {'dirname': Builtin('dirname', lambda a, k: os.path.dirname(a[0])),
                                 'join': Builtin('join', lambda a, k: os.path.join(*a))})
            return p
        if name == 'functools':
            return ModV('functools', {'wraps': Builtin('wraps', lambda a, k: Builtin('wr', lambda b, k2: b[0])),
                                      'partial': Builtin('partial', lambda a, k: Builtin('part', lambda b, k2: self.call(
                                          a[0], list(a[1:]) + list(b), dict(k, **k2)))),
                                      'reduce': Builtin('reduce', lambda a, k: self.b_reduce(a)),
                                      'lru_cache': Builtin('lru_cache', lambda a, k: self.memo(a[0]) if a and isinstance(
                                          a[0], FuncV) else Builtin('memo', lambda b, k2: self.memo(b[0]))),
                                      'cache': Builtin('cache', lambda a, k: self.memo(a[0]))})
        if name == 'itertools':
            return ModV('itertools', {'chain': Builtin('chain', lambda a, k: self.b_chain(a)),
                                      'product': Builtin('product', lambda a, k: self.b_product(a, k)),
                                      'repeat': Builtin('repeat', lambda a, k: self.b_repeat(a)),
                                      'count': Builtin('count', lambda a, k: (_ for _ in ()).throw(Unsupported('itertools.count')))})
        if name == 'numbers':
            return ModV('numbers', {'Number': TypeV('Number'), 'Real': TypeV('Real'), 'Integral': TypeV('Integral'),
                                    'Complex': TypeV('Number')})
        if name == 'operator':
            d = {}
            for nm, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('mod', '%'), ('floordiv', '//'),
                           ('pow', '**'), ('matmul', '@')):
                d[nm] = Builtin(nm, lambda a, k, op=op: self.binop(op, a[0], a[1]))
            for nm, op in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq')):
                d[nm] = Builtin(nm, lambda a, k, op=op: self.compare(op, a[0], a[1]))
            d['neg'] = Builtin('neg', lambda a, k: self.binop('*', a[0], -1))
            d['getitem'] = Builtin('getitem', lambda a, k: self.getitem(a[0], a[1]))
            d['attrgetter'] = Builtin('attrgetter', lambda a, k: Builtin('attrgetter', lambda b, k2: self.getattr_(b[0], a[0]) if len(
                a) == 1 else tuple(self.getattr_(b[0], x) for x in a)))
            return ModV('operator', d)
        if name == 'math':
            d = self.np.d
            return ModV('math', {k: d[k] for k in ('sqrt', 'cos', 'sin', 'pi', 'floor', 'ceil', 'exp')})
        if name == 'six.moves':
            return ModV('six.moves', {'xrange': self.builtins['range'], 'range': self.builtins['range']})
        if name == 'spherepy.csphi':
            return ModV('csphi', {'__csphi__': True})
        if name == 'spherepy':
            # the package re-exports these modules
            m = ModV('spherepy', {})
            m.d['__lazy__'] = ['spherepy.spherepy', 'spherepy.sbessel']
            return m
        if name.startswith('spherepy.'):
            return self.load(name)
        return Missing(name)

    def b_json_load(self, a, k):
        f = a[0]
        return json.load(open(f.fid, 'rb'))

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            r = self.exec_stmt(st, env)
            if r is not None:
                return r
        return None

    def exec_stmt(self, st, env):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %s)' % (type(st).__name__, getattr(st, 'lineno', '?')))
        return m(st, env)

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return None
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            # generators run to their end when they are made: their elements must not depend on what the consumer does
            self.ctx.assumed.add('what a generator yields does not depend on its consumer')
            l = self.lookup('.yield', env)
            v = None if st.value.value is None else self.eval(st.value.value, env)
            self.list_method(l, 'append' if isinstance(st.value, ast.Yield) else 'extend', [v], {})
            return None
        self.eval(st.value, env)

    def s_Pass(self, st, env):
        return None

    def s_Global(self, st, env):
        env.glob |= set(st.names)

    def s_Nonlocal(self, st, env):
        env.glob |= set(st.names)

    def s_Import(self, st, env):
        for a in st.names:
            if a.name.startswith('matplotlib') or a.name == 'sys':
                continue
            m = self.import_module(a.name)
            env[a.asname or a.name.split('.')[0]] = m
            if not a.asname and '.' in a.name:
                env[a.name.split('.')[0]] = self.import_module(a.name.split('.')[0])

    def s_ImportFrom(self, st, env):
        if st.module == '__future__':
            return
        m = self.import_module(st.module)
        for a in st.names:
            if a.name == '*':
                for k, v in m.d.items():
                    if not k.startswith('_'):
                        env[k] = v
                continue
            try:
                if isinstance(m, Missing):
                    raise Unsupported('%s.%s' % (m.what, a.name))
                env[a.asname or a.name] = self.mod_attr(m, a.name)
            except Unsupported as e:
                env[a.asname or a.name] = Missing(str(e))

    def s_FunctionDef(self, st, env):
        f = self.mk_func(st, env)
        for d in reversed(st.decorator_list):
            dv = self.eval(d, env)
            f = self.call(dv, [f], {})
        env[st.name] = f

    def mk_func(self, node, env, name=None):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = [None if d is None else self.eval(d, env) for d in a.kw_defaults]
        f = FuncV(name or node.name, node, env, self.cur_mod, defaults, kwd)
        return f

    def s_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        e = Env(env)
        e.isclass = True
        self.exec_block(st.body, e)
        for v in e.values():
            for f in ((v,) if isinstance(v, FuncV) else (v.fget, v.fset) if isinstance(v, PropV) else
                      (v.fn,) if isinstance(v, StaticV) else ()):
                if isinstance(f, FuncV) and f.qual is None:
                    f.qual = '%s.%s' % (st.name, f.name)
        c = env[st.name] = ClassV(st.name, bases, dict(e))
        for v in e.values():
            for f in (v.fget, v.fset) if isinstance(v, PropV) else (v.fn,) if isinstance(v, StaticV) else (v,):
                if isinstance(f, FuncV) and f.cls is None:
                    f.cls = c

    def s_Return(self, st, env):
        return ('ret', None if st.value is None else self.eval(st.value, env))

    def s_Break(self, st, env):
        return ('brk',)

    def s_Continue(self, st, env):
        return ('cont',)

    def s_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyExc('AssertionError')

    def s_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            return self.exec_block(st.body, env)
        return self.exec_block(st.orelse, env)

    def s_Raise(self, st, env):
        if st.exc is None:
            raise Unsupported('re-raise')
        v = self.eval(st.exc, env)
        if isinstance(v, ExcV):
            raise PyExc(v.etype, v.args)
        if isinstance(v, TypeV):
            raise PyExc(v.name)
        raise Unsupported('raise %r' % (v,))

    def s_Try(self, st, env):
        try:
            r = self.exec_block(st.body, env)
        except PyExc as e:
            for h in st.handlers:
                names = []
                if h.type is None:
                    names = ['BaseException']
                else:
                    t = self.eval(h.type, env)
                    ts = t if isinstance(t, tuple) else (t,)
                    names = [x.name for x in ts]
                if any(exc_isa(e.etype, n) for n in names):
                    if h.name:
                        env[h.name] = ExcV(e.etype, ())
                    r = self.exec_block(h.body, env)
                    break
            else:
                self.exec_block(st.finalbody, env)
                raise
        else:
            if r is None:
                r = self.exec_block(st.orelse, env)
        f = self.exec_block(st.finalbody, env)
        return f if f is not None else r

    def s_With(self, st, env):
        for it in st.items:
            v = self.eval(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        return self.exec_block(st.body, env)

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                if isinstance(o, ListV) and k == 0:
                    self.list_method(o, 'pop', [0], {})
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.glob and self.depth:
                raise Unsupported('state kept between calls: global %s' % t.id)
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            self.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.concrete_items(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                raise Unsupported('starred assignment')
            if len(items) != len(t.elts):
                raise PyExc('ValueError', 'unpack')
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        else:
            raise Unsupported('assignment target')

    def s_AugAssign(self, st, env):
        op = OPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            new = self.inplace(op, old, self.eval(st.value, env))
            self.assign(t, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.inplace(op, old, self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            old = self.getitem(o, k)
            rhs = self.eval(st.value, env)
            if isinstance(old, Arr) and isinstance(o, Arr):
                self.inplace(op, old, rhs)
            else:
                self.setitem(o, k, self.inplace(op, old, rhs))
        else:
            raise Unsupported('augassign')

    def inplace(self, op, old, rhs):
        if isinstance(old, Arr):
            r = self.binop(op, old, rhs)
            if dtype(self.ctx, r) != dtype(self.ctx, old) and KORD[DT2K[dtype(self.ctx, r)]] > KORD[DT2K[dtype(self.ctx, old)]]:
                raise PyExc('TypeError', 'cannot cast ufunc output')
            if len(r.shape) != len(old.shape) or not self.ctx.decide(And(*[eq(x, y) for x, y in zip(r.shape, old.shape)])):
                raise PyExc('ValueError', 'non-broadcastable output operand')
            assign_view(self.ctx, old, r)
            return old
        if isinstance(old, ListV) and op == '+':
            self.list_method(old, 'extend', [rhs], {})
            return old
        return self.binop(op, old, rhs)

    # ------------------------------------------------------------ loops
    def s_For(self, st, env):
        it = self.eval(st.iter, env)
        r = loops.for_loop(self, st, it, env)
        return r

    def s_While(self, st, env):
        return loops.while_loop(self, st, env)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s (line %s)' % (type(e).__name__, getattr(e, 'lineno', '?')))
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return Num(P(lit(v)), 'float')
        if isinstance(v, complex):
            return Num(P(lit(v.real)) + I * P(lit(v.imag)), 'complex')
        return v

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def lookup(self, n, env):
        x = env
        first = True
        while x is not None:
            if n in x and (first or not x.isclass):
                v = x[n]
                if isinstance(v, Lazy):
                    if v.val is UNDEF:
                        v.val = v.fn()
                    return v.val
                if v is UNDEF:
                    raise PyExc('UnboundLocalError', n)
                if isinstance(v, loops.Poison):
                    raise loops.NeedCarry(v.name)
                return v
            first = False
            x = x.parent
        if n in self.builtins:
            return self.builtins[n]
        raise PyExc('NameError', n)

    def e_Attribute(self, e, env):
        return self.getattr_(self.eval(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return tuple(out)

    def e_List(self, e, env):
        return self.new_list(self.e_Tuple(e, env))

    def new_list(self, items):
        sid = self.ctx.newid()
        self.ctx.heap[sid] = tuple(items)
        return ListV(sid)

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.dict_of(self.eval(v, env)))
            else:
                d[self.dkey(self.eval(k, env))] = self.eval(v, env)
        return self.new_dict(d)

    def new_dict(self, d):
        sid = self.ctx.newid()
        self.ctx.heap[sid] = MapRec(dict(d))
        return DictV(sid)

    def dict_of(self, o):
        return self.ctx.heap[o.sid].d if isinstance(o, DictV) else o

    def dkey(self, k):
        """keys have to be known values"""
        if isinstance(k, tuple):
            return tuple(self.dkey(x) for x in k)
        if isinstance(k, Num):
            n = self.ctx.norm(k.p).as_int()
            if n is not None:
                return n
        if k is None or isinstance(k, (str, int, TypeV, ClassV, FuncV, Builtin)):
            return k
        raise Unsupported('dict with a symbolic key')

    def find_key(self, d, k):
        """a key to look up: an integer that is not known is compared with the keys of the dict"""
        if isinstance(k, Num) and k.kind in ('int', 'npint') and self.ctx.norm(k.p).as_int() is None:
            if any(isinstance(x, tuple) for x in d):
                raise Unsupported('dict with a symbolic key')
            for x in d:
                if isinstance(x, int) and self.ctx.decide(eq(k.p, int(x))):
                    return x
            return ('.absent',)
        return self.dkey(k)

    def dict_method(self, o, n, a, kw):
        d = self.dict_of(o)
        if n == 'get':
            return d.get(self.find_key(d, a[0]), a[1] if len(a) > 1 else None)
        if n == 'items':
            return tuple(d.items())
        if n == 'keys':
            return tuple(d)
        if n == 'values':
            return tuple(d.values())
        if n == 'copy':
            return self.new_dict(d)
        if isinstance(o, DictV) and n in ('setdefault', 'update', 'pop', 'clear'):
            d = dict(d)
            r = None
            if n == 'setdefault':
                r = d.setdefault(self.dkey(a[0]), a[1] if len(a) > 1 else None)
            elif n == 'update':
                for x in a:
                    d.update(self.dict_of(x))
                d.update(kw)
            elif n == 'pop':
                k = self.dkey(a[0])
                if k not in d and len(a) < 2:
                    raise PyExc('KeyError')
                r = d.pop(k, *a[1:])
            else:
                d = {}
            self.ctx.heap[o.sid] = MapRec(d)
            return r
        raise Unsupported('dict.' + n)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                spec = ''
                if v.format_spec is not None:
                    s = self.eval(v.format_spec, env)
                    spec = s if isinstance(s, str) else ''
                    if isinstance(s, SymStr):
                        raise Unsupported('format spec')
                parts.append(('v', self.eval(v.value, env), spec))
        return mkstr(parts)

    def e_Lambda(self, e, env):
        a = e.args
        return FuncV('<lambda>', e, env, self.cur_mod, [self.eval(d, env) for d in a.defaults],
                     [None if d is None else self.eval(d, env) for d in a.kw_defaults])

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, env)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, SymBool) else False
            if not isand and t:
                return v if not isinstance(v, SymBool) else True
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SymBool):
                return SymBool(Not(v.c))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Arr):
                return self.binop('*', v, -1)
            if isinstance(v, Obj):
                f = v.cls.lookup('__neg__')
                if f is None:
                    raise PyExc('TypeError')
                return self.call(BoundM(f, v), [], {})
            p, k = tonum(v)
            return mknum(-p, k)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if NP.is_mask(self.ctx, v):
                return self.logical('~', [v])
            if isnum(v) and tonum(v)[1] in ('int', 'npint') and not isinstance(v, SymBool):
                return self.binop('-', self.binop('*', v, -1), 1)
        raise Unsupported('unary op')

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(OPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        ctx = self.ctx
        if isinstance(a, Obj) or isinstance(b, Obj):
            nm = OPNAME[op]
            if isinstance(a, Obj):
                f = a.cls.lookup('__%s__' % nm)
                if f is not None:
                    return self.call(BoundM(f, a), [b], {})
            if isinstance(b, Obj):
                f = b.cls.lookup('__r%s__' % nm)
                if f is not None:
                    return self.call(BoundM(f, b), [a], {})
            raise PyExc('TypeError', 'unsupported operand')
        if op in ('&', '|', '^', '<<', '>>'):
            return self.bitop(op, a, b)
        if isinstance(a, MaskV) or isinstance(b, MaskV):
            return self.mask_binop(op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            for x in (a, b):
                if not (isinstance(x, (Arr, ListV, tuple)) or isnum(x)):
                    raise PyExc('TypeError', 'unsupported operand')
            if op == '**':
                return np_power(ctx, a, b)
            if op == '@':
                return self.np_dot([a, b])
            return NP._binop(ctx, op, a, b)[2]
        if op == '%' and isinstance(a, (str, SymStr)):
            return strmod(a, b)
        if op == '+' and isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
            return mkstr(sparts(a) + sparts(b))
        if isinstance(a, str) and op == '*' and isinstance(b, int):
            return a * b
        if op == '+' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, ListV) and op == '+' and isinstance(b, ListV):
            r = self.new_list(())
            ctx.heap[r.sid] = ctx.heap[a.sid]
            self.list_method(r, 'extend', [b], {})
            return r
        if op == '*' and isinstance(a, ListV):
            items = ctx.heap[a.sid]
            if isinstance(items, tuple) and len(items) == 1:
                n = toint(ctx, b)
                if not ctx.decide(ge0(n)):
                    n = ZERO
                sid = ctx.newid()
                ctx.heap[sid] = ArrRec((n,), 'O', ConstBase(items[0]))
                return ListV(sid)
            if isinstance(items, tuple) and isinstance(b, int):
                return self.new_list(items * b)
            raise Unsupported('list repetition')
        if op == '*' and isinstance(a, tuple) and isinstance(b, int):
            return a * b
        if isinstance(a, SymBool):
            a = int(self.truth(a))
        if isinstance(b, SymBool):
            b = int(self.truth(b))
        if not (isnum(a) and isnum(b)):
            raise PyExc('TypeError', 'unsupported operand types')
        pa, ka = tonum(a)
        pb, kb = tonum(b)
        if op in ('/', '//', '%') and ka in ('int', 'bool') and kb in ('int', 'bool', 'float', 'complex'):
            if not ctx.entails(Not(eq0(pb))):
                if ctx.nonzero_div and kb == 'float' and ctx.in_while:
                    ctx.assumed.add('denominators of real quotients inside a while loop without a loop contract do not vanish')
                    ctx.assume(Not(eq0(pb)))
                elif ctx.decide(eq0(pb)):
                    raise PyExc('ZeroDivisionError')
        if op == '/' and ctx.strict_div and not ctx.in_while and ka == 'float' and kb == 'float' and not ctx.entails(Not(eq0(pb))):
            ctx.prove(Not(eq0(pb)), 'the denominator does not vanish')
        if op == '/' and ka in ('complex', 'float') and kb in ('int', 'bool') and pb.const() != 0:
            if ctx.decide(eq0(pb)):
                raise PyExc('ZeroDivisionError')
        p, k = num_binop(ctx, op, pa, ka, pb, kb)
        return mknum(ctx.norm(p), k)

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, env)
            r = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        ctx = self.ctx
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = False
            if isinstance(b, (str,)) and isinstance(a, str):
                r = a in b
            elif isinstance(b, (dict, DictV)):
                r = self.find_key(self.dict_of(b), a) in self.dict_of(b)
            else:
                for x in self.concrete_items(b):
                    if self.truth(self.compare('Eq', a, x)):
                        r = True
                        break
            return r if op == 'In' else not r
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_compare(op, a, b)
        if isinstance(a, (tuple, ListV)) and isinstance(b, (tuple, ListV)) and op in ('Eq', 'NotEq'):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return op == 'NotEq'
            x, y = self.concrete_items(a), self.concrete_items(b)
            if len(x) != len(y):
                return op == 'NotEq'
            cs = []
            for p, q in zip(x, y):
                r = self.compare('Eq', p, q)
                if r is False:
                    return op == 'NotEq'
                if r is not True:
                    cs.append(r.c)
            c = And(*cs)
            return mkbool(c if op == 'Eq' else Not(c))
        if isnum(a) and isnum(b):
            if isinstance(a, SymBool):
                a = int(self.truth(a))
            if isinstance(b, SymBool):
                b = int(self.truth(b))
            pa, ka = tonum(a)
            pb, kb = tonum(b)
            if op == 'Eq':
                return mkbool(eqc(ctx, pa, pb))
            if op == 'NotEq':
                return mkbool(Not(eqc(ctx, pa, pb)))
            if 'complex' in (ka, kb):
                raise PyExc('TypeError', 'ordering of complex')
            f = {'Lt': lt, 'LtE': le, 'Gt': gt, 'GtE': ge}[op]
            return mkbool(ctx.normc(f(pa, pb)))
        if op in ('Eq', 'NotEq'):
            if isinstance(a, (str, type(None))) and isinstance(b, (str, type(None))):
                return (a == b) == (op == 'Eq')
            if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
                if str_differ(a, b) or str_differ(b, a):
                    return op == 'NotEq'
                raise Unsupported('symbolic string comparison')
            if isinstance(a, (TypeV, ClassV)) or isinstance(b, (TypeV, ClassV)):
                return (a is b) == (op == 'Eq')
            return (a is b) == (op == 'Eq')
        raise PyExc('TypeError', 'comparison')

    def arr_compare(self, op, a, b):
        ctx = self.ctx
        for x in (a, b):
            if not (isinstance(x, (Arr, ListV, tuple, SymBool)) or isnum(x)):
                raise Unsupported('comparison of an array')
        (sa, ga, ka), (sb, gb, kb) = as_operand(ctx, a), as_operand(ctx, b)
        try:
            sh = broadcast(ctx, [sa, sb])
        except PyExc:
            raise Unsupported('comparison of arrays of different shapes')
        if op not in ('Eq', 'NotEq') and 'complex' in (ka, kb):
            raise Unsupported('ordering of complex arrays')
        gx, gy = NP.bget(ctx, sa, ga, sh), NP.bget(ctx, sb, gb, sh)
        return fnarr(ctx, sh, 'b', lambda idx: P(int(self.truth(self.compare(op, Num(gx(idx), ka), Num(gy(idx), kb))))))

    def logical(self, op, xs):
        """elementwise and/or/xor/not of truth values"""
        ctx = self.ctx
        f = {'&': lambda v: v[0] and v[1](), '|': lambda v: v[0] or v[1](), '^': lambda v: v[0] != v[1](), '~': lambda v: not v[0]}[op]
        if not any(isinstance(x, (Arr, ListV)) for x in xs):
            v = [self.truth(xs[0])] + [lambda y=y: self.truth(y) for y in xs[1:]]
            return bool(f(v))
        ops = [as_operand(ctx, x) for x in xs]
        sh = broadcast(ctx, [o[0] for o in ops])
        gs = [NP.bget(ctx, o[0], o[1], sh) for o in ops]
        on = lambda g, idx: not ctx.decide(eqc(ctx, g(idx), ZERO))
        return fnarr(ctx, sh, 'b', lambda idx: P(int(bool(f([on(gs[0], idx)] + [lambda g=g: on(g, idx) for g in gs[1:]])))))

    def is_bool(self, x):
        return isinstance(x, (bool, SymBool)) or (isinstance(x, Num) and x.kind == 'bool') or NP.is_mask(self.ctx, x)

    def bitop(self, op, a, b):
        ctx = self.ctx
        if op in ('&', '|', '^') and self.is_bool(a) and self.is_bool(b):
            return self.logical(op, [a, b])
        if op in ('<<', '>>') or op == '&':
            if isinstance(a, Arr) or isinstance(b, Arr):
                raise Unsupported('bit operation on arrays')
            for x in (a, b):
                if not isnum(x):
                    raise PyExc('TypeError', 'unsupported operand')
                if tonum(x)[1] not in ('int', 'npint', 'bool'):
                    raise PyExc('TypeError', 'unsupported operand')
            c = tonum(b)[0].as_int()
            if op == '&' and c is None:
                a, b, c = b, a, tonum(a)[0].as_int()
            if op == '&' and c is not None and c >= 0 and (c & (c + 1)) == 0:
                return self.binop('%', a, c + 1)
            if op == '<<' and c is not None and c >= 0:
                return self.binop('*', a, 2 ** c)
            if op == '>>' and c is not None and c >= 0:
                return self.binop('//', a, 2 ** c)
        raise Unsupported('bit operation ' + op)

    def mask_binop(self, op, a, b):
        m = a if isinstance(a, MaskV) else b
        for x in (a, b):
            if isinstance(x, MaskV):
                if not x.same(m.mask, m.rec):
                    raise Unsupported('operation on differently masked arrays')
            elif not isnum(x):
                raise Unsupported('operation on a masked array')
        return MaskV(self.binop(op, *[x.arr if isinstance(x, MaskV) else x for x in (a, b)]), m.mask, m.rec)

    def is_(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.oid == b.oid
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a is b
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return a is b

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_ListComp(self, e, env):
        return self.comp(e, env)

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env)

    def comp(self, e, env):
        # desugar into a loop appending to a fresh list
        lst = self.new_list(())
        e2 = Env(env)
        nm = '.comp%d' % self.ctx.newid()
        e2['.lst'] = lst
        body = ast.Expr(ast.Call(ast.Attribute(ast.Name('.lst', ast.Load()), 'append', ast.Load()), [e.elt], []))
        st = body
        for g in reversed(e.generators):
            inner = st
            if g.ifs:
                test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
                inner = ast.If(test, [inner], [])
            st = ast.For(g.target, g.iter, [inner], [])
        ast.fix_missing_locations(st)
        for n in ast.walk(st):
            n.lineno = e.lineno
        self.exec_stmt(st, e2)
        return lst

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.super_(e, env)
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, (dict, DictV)):
                    raise Unsupported('** call')
                kw.update(self.dict_of(d))
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def super_(self, e, env):
        if e.args:
            c, o = [self.eval(a, env) for a in e.args]
        else:
            while env is not None and (env.fn is None or env.fn.cls is None):
                env = env.parent
            if env is None:
                raise Unsupported('super')
            a = env.fn.node.args
            c, o = env.fn.cls, env[(a.posonlyargs + a.args)[0].arg]
        if not isinstance(o, Obj):
            raise Unsupported('super in a class method')
        if o.cls is not c and len(c.bases) > 1:
            raise Unsupported('super with several bases')
        return SuperV(c, o)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Missing):
            raise Unsupported(f.what)
        if isinstance(f, Builtin):
            return f.fn(args, kw)
        if isinstance(f, BoundM):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, TypeV):
            if f.ctor is None:
                return ExcV(f.name, tuple(args))
            return f.ctor(args, kw)
        if isinstance(f, Obj):
            g = f.cls.lookup('__call__')
            if g is not None:
                return self.call(BoundM(g, f), args, kw)
        raise PyExc('TypeError', 'not callable: %r' % (f,))

    def instantiate(self, c, args, kw):
        if any(isinstance(b, TypeV) and b.name.endswith('Error') for b in c.bases):
            return ExcV(c.name, tuple(args))
        oid = self.ctx.newid()
        self.ctx.heap[oid] = {}
        o = Obj(oid, c)
        init = c.lookup('__init__')
        if init is not None:
            self.building = self.building | {oid}
            try:
                self.call(BoundM(init, o), args, kw)
            finally:
                self.building = self.building - {oid}
            self.check_state(o)
        elif args or kw:
            raise PyExc('TypeError', 'takes no arguments')
        return o

    def check_state(self, o):
        """an object of the package has no state besides the attributes its specification speaks about, except facts
        that cannot change: sizes, shapes, names of the same arrays"""
        known = STATE.get(o.cls.name)
        if known is None:
            return
        d = self.ctx.heap[o.oid]
        for n, v in d.items():
            if n not in known and not self.constant_fact(v, [d[k] for k in known if k in d]):
                raise Unsupported('attribute %s.%s is state outside the specification' % (o.cls.name, n))

    def constant_fact(self, v, parts):
        if v is None or isinstance(v, (bool, int, str, FuncV, Builtin, TypeV, ClassV, BoundM)):
            return True
        if isinstance(v, Num):
            return v.kind in ('int', 'npint')
        if isinstance(v, tuple):
            return all(self.constant_fact(x, parts) for x in v)
        if isinstance(v, Arr):
            return any(isinstance(p, Arr) and p.sid == v.sid for p in parts)
        if isinstance(v, Obj):
            return any(isinstance(p, Obj) and p.oid == v.oid for p in parts)
        return False

    def qual(self, f):
        return '%s.%s' % (f.mod.split('.')[-1], f.qual or f.name)

    def bind(self, f, args, kw):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        env = Env(f.env)
        env.fn = f
        nd = len(f.defaults)
        if len(args) > len(params) and a.vararg is None:
            raise PyExc('TypeError', 'too many arguments')
        for p, v in zip(params, args):
            env[p] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(params):])
        kwx = {}
        kwnames = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in params or k in kwnames:
                if k in env:
                    raise PyExc('TypeError', 'multiple values')
                env[k] = v
            elif a.kwarg is not None:
                kwx[k] = v
            else:
                raise PyExc('TypeError', 'unexpected keyword %s' % k)
        if a.kwarg is not None:
            env[a.kwarg.arg] = kwx
        for i, p in enumerate(params):
            if p not in env:
                j = i - (len(params) - nd)
                if j < 0:
                    raise PyExc('TypeError', 'missing argument ' + p)
                env[p] = f.defaults[j]
        for i, p in enumerate(kwnames):
            if p not in env:
                if f.kwdefaults is None or f.kwdefaults[i] is None and a.kw_defaults[i] is None:
                    raise PyExc('TypeError', 'missing argument ' + p)
                env[p] = f.kwdefaults[i]
        return env

    def call_func(self, f, args, kw):
        q = self.qual(f)
        self.seen.add(q)
        c = self.contracts.get(q)
        if q in self.verifying:
            c = None
        if c is not None:
            env = self.bind(f, args, kw)
            a = f.node.args
            vals = [env[x.arg] for x in a.posonlyargs + a.args]
            r = c(self, vals)
            if r is not NotImplemented:
                return r
        return self.call_body(f, args, kw)

    def freeze(self):
        """everything made while the modules were loaded: calls must leave it alone, otherwise what they return could
        depend on the calls before them"""
        self.frozen = dict(self.ctx.heap)

    def check_frozen(self):
        h = self.ctx.heap
        for k, v in self.frozen.items():
            if h.get(k) is not v:
                raise Unsupported('state kept between calls (an object made when the module was loaded is modified)')

    def call_body(self, f, args, kw):
        env = self.bind(f, args, kw)
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported('recursion too deep')
        saved = getattr(self, 'cur_mod', None)
        self.cur_mod = f.mod
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            self.fn_stack.append(f.node)
            try:
                gen = is_generator(f.node)
                if gen:
                    env['.yield'] = self.new_list(())
                r = self.exec_block(f.node.body, env)
                if gen:
                    if r is not None and (r[0] != 'ret' or r[1] is not None):
                        raise Unsupported('return value of a generator')
                    return env['.yield']
            finally:
                self.fn_stack.pop()
                self.check_frozen()
        finally:
            self.depth -= 1
            self.cur_mod = saved
        if r is None:
            return None
        if r[0] != 'ret':
            raise Unsupported('control flow')
        return r[1]

    # ------------------------------------------------------------ attributes
    def mod_attr(self, m, n):
        if n in m.d:
            return m.d[n]
        if '__csphi__' in m.d:
            c = self.contracts.get('csphi.' + n)
            if c is None:
                raise Unsupported('csphi.%s without contract' % n)
            return Builtin('csphi.' + n, lambda a, k: c(self, a))
        if '__lazy__' in m.d:
            if n in ('csphi', 'pysphi', 'file', 'verify', 'ops'):
                return self.import_module('spherepy.' + n)
            for x in m.d['__lazy__']:
                mm = self.load(x)
                if n in mm.d:
                    return mm.d[n]
        if m.name.startswith('numpy'):
            raise Unsupported('numpy.%s' % n)
        raise PyExc('AttributeError', 'module %s has no attribute %s' % (m.name, n))

    def getattr_(self, o, n):
        ctx = self.ctx
        if isinstance(o, ModV):
            return self.mod_attr(o, n)
        if isinstance(o, Missing):
            raise Unsupported('%s.%s' % (o.what, n))
        if isinstance(o, Obj):
            d = ctx.heap[o.oid]
            if n in d:
                return d[n]
            v = o.cls.lookup(n)
            if v is None:
                if n == '__class__':
                    return o.cls
                if n == '__dict__':
                    raise Unsupported('__dict__')
                raise PyExc('AttributeError', n)
            if isinstance(v, PropV):
                return self.call(v.fget, [o], {})
            return self.bound(v, o, o.cls)
        if isinstance(o, SuperV):
            for b in o.cls.bases:
                v = b.lookup(n) if isinstance(b, ClassV) else None
                if isinstance(v, PropV):
                    return self.call(v.fget, [o.o], {})
                if v is not None:
                    return self.bound(v, o.o, o.o.cls)
            if n == '__init__':
                return Builtin('object.__init__', lambda a, kw: None)
            raise PyExc('AttributeError', n)
        if isinstance(o, Arr):
            return self.arr_attr(o, n)
        if isinstance(o, Num) or isinstance(o, int):
            p, k = tonum(o)
            if n == 'real':
                return mknum(real_part(ctx, p), 'float' if k in ('complex', 'float') else k)
            if n == 'imag':
                return mknum(imag_part(ctx, p), 'float' if k in ('complex', 'float') else k)
            if n == 'conjugate' or n == 'conj':
                return Builtin('conj', lambda a, kw: mknum(conj(p), k))
            if n == 'shape' and k != 'int':
                return ()
            if n in ('size', 'ndim') and k != 'int':
                return 1 if n == 'size' else 0
            raise PyExc('AttributeError', n)
        if isinstance(o, slice):
            return getattr(o, n)
        if isinstance(o, ListV):
            return Builtin('list.' + n, lambda a, kw: self.list_method(o, n, a, kw))
        if isinstance(o, (str, SymStr)):
            return Builtin('str.' + n, lambda a, kw: self.str_method(o, n, a, kw))
        if isinstance(o, (dict, DictV)):
            return Builtin('dict.' + n, lambda a, kw: self.dict_method(o, n, a, kw))
        if isinstance(o, FileV):
            return Builtin('file.' + n, lambda a, kw: self.file_method(o, n, a, kw))
        if isinstance(o, ClassV):
            v = o.lookup(n)
            if v is None:
                if n == '__name__':
                    return o.name
                raise PyExc('AttributeError', n)
            if isinstance(v, StaticV):
                return BoundM(v.fn, o) if v.iscls else v.fn
            return v
        if isinstance(o, PropV):
            if n == 'setter':
                return Builtin('setter', lambda a, kw: PropV(o.fget, a[0]))
        if isinstance(o, FuncV) and n in ('__name__', '__doc__'):
            return o.name
        if isinstance(o, tuple):
            if n in ('index', 'count'):
                raise Unsupported('tuple.' + n)
        if o is None or isinstance(o, (tuple, RangeV)):
            raise PyExc('AttributeError', n)
        if isinstance(o, Builtin) and n == 'reduce':
            raise Unsupported('ufunc.reduce')
        raise Unsupported('attribute %s of %r' % (n, o))

    def bound(self, v, o, c):
        if isinstance(v, FuncV):
            return BoundM(v, o)
        if isinstance(v, StaticV):
            return BoundM(v.fn, c) if v.iscls else v.fn
        return v

    def setattr_(self, o, n, v):
        if isinstance(o, Obj):
            c = o.cls.lookup(n)
            if isinstance(c, PropV):
                if c.fset is None:
                    raise PyExc('AttributeError', "can't set")
                self.call(c.fset, [o, v], {})
                return
            if o.oid not in self.building and n not in STATE.get(o.cls.name, (n,)):
                raise Unsupported('attribute %s.%s is state outside the specification' % (o.cls.name, n))
            d = dict(self.ctx.heap[o.oid])
            d[n] = v
            self.ctx.heap[o.oid] = d
            return
        if isinstance(o, Arr):
            if n == 'shape':
                raise Unsupported('shape assignment')
            if n in ('real', 'imag'):
                raise Unsupported('assignment to .' + n)
        raise Unsupported('attribute assignment')

    def arr_attr(self, o, n):
        ctx = self.ctx
        if n == 'shape':
            return tuple(mknum(ctx.norm(x), 'int') for x in o.shape)
        if n == 'size':
            t = ONE
            for x in o.shape:
                t = t * x
            return mknum(ctx.norm(t), 'int')
        if n == 'ndim':
            return len(o.shape)
        if n == 'T':
            return np_transpose(ctx, o)
        if n == 'dtype':
            return {'c': self.np.d['complex128'], 'f': self.np.d['float64'], 'i': self.np.d['int64'], 'b': self.np.d['bool_']}[dtype(ctx, o)]
        if n in ('real', 'imag'):
            g = reader(ctx, o)
            f = real_part if n == 'real' else imag_part
            d = dtype(ctx, o)
            return fnarr(ctx, o.shape, 'f' if d == 'c' else d, lambda idx: f(ctx, g(idx)))
        if n == 'copy':
            return Builtin('copy', lambda a, k: np_copy(ctx, o))
        if n in ('conj', 'conjugate'):
            g = reader(ctx, o)
            return Builtin('conj', lambda a, k: fnarr(ctx, o.shape, dtype(ctx, o), lambda idx: conj(g(idx))))
        if n == 'reshape':
            return Builtin('reshape', lambda a, k: np_reshape(ctx, o, a[0] if len(a) == 1 else tuple(a)))
        if n in ('ravel', 'flatten'):
            t = ONE
            for x in o.shape:
                t = t * x
            return Builtin(n, lambda a, k: np_reshape(ctx, np_copy(ctx, o) if n == 'flatten' else o, mknum(t, 'int')))
        if n == 'astype':
            return Builtin('astype', lambda a, k: np_astype(ctx, o, dt_of(a[0])))
        if n == 'fill':
            def fill(a, k):
                assign_view(ctx, o, a[0])
            return Builtin('fill', fill)
        if n in ('sum', 'max', 'min', 'mean', 'dot', 'prod', 'tolist', 'any', 'all', 'take', 'squeeze', 'swapaxes'):
            if n == 'tolist':
                return Builtin(n, lambda a, k: self.to_list(o))
            return Builtin(n, lambda a, k: self.call(self.mod_attr(self.np, n), [o] + list(a), k))
        if n == '__repr__':
            return Builtin(n, lambda a, k: mkstr([('v', o, '')]))
        raise Unsupported('ndarray.%s' % n)

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        ctx = self.ctx
        if isinstance(o, Arr):
            return NP.getitem(ctx, o, k)
        if isinstance(o, tuple):
            if isinstance(k, slice):
                return tuple(o[self.cslice(k)])
            c = toint(ctx, k).as_int()
            if c is None:
                raise Unsupported('symbolic tuple index')
            if not -len(o) <= c < len(o):
                raise PyExc('IndexError')
            return o[c]
        if isinstance(o, ListV):
            r = ctx.heap[o.sid]
            if isinstance(r, tuple):
                if isinstance(k, slice):
                    return self.new_list(r[self.cslice(k)])
                c = toint(ctx, k).as_int()
                if c is not None:
                    if not -len(r) <= c < len(r):
                        raise PyExc('IndexError')
                    return r[c]
                r = self.list_rec(o)
            if isinstance(k, slice):
                a, ln, st = slice_bounds(ctx, k, r.shape[0])
                sid = ctx.newid()
                ctx.heap[sid] = ArrRec((ln,), 'O', FnBase(lambda idx: read_rec(ctx, r, [a + idx[0] * st])))
                return ListV(sid)
            i = norm_index(ctx, toint(ctx, k), r.shape[0])
            return unsnap(ctx, read_rec(ctx, r, [i]))
        if isinstance(o, (dict, DictV)):
            d = self.dict_of(o)
            k = self.find_key(d, k)
            if k not in d:
                raise PyExc('KeyError')
            return d[k]
        if isinstance(o, str):
            if isinstance(k, slice):
                return o[self.cslice(k)]
            return o[toint(ctx, k).as_int()]
        if isinstance(o, Obj):
            f = o.cls.lookup('__getitem__')
            if f is None:
                raise PyExc('TypeError')
            return self.call(BoundM(f, o), [k], {})
        if isinstance(o, RangeV):
            T = range_len(ctx, o)
            i = norm_index(ctx, toint(ctx, k), T)
            return mknum(o.a + i * o.s, 'int')
        if isnum(o):
            raise PyExc('TypeError', 'not subscriptable')
        raise Unsupported('subscript of %r' % (o,))

    def cslice(self, k):
        f = lambda x: None if x is None else toint(self.ctx, x).as_int()
        return slice(f(k.start), f(k.stop), f(k.step))

    def setitem(self, o, k, v):
        ctx = self.ctx
        if isinstance(o, Arr):
            NP.setitem(ctx, o, k, v)
            return
        if isinstance(o, DictV):
            ctx.heap[o.sid] = MapRec(dict(self.dict_of(o), **{}) | {self.dkey(k): v})
            return
        if isinstance(o, dict):
            raise Unsupported('dict item assignment')
        if isinstance(o, ListV):
            r = ctx.heap[o.sid]
            if isinstance(r, tuple) and not isinstance(k, slice):
                c = toint(ctx, k).as_int()
                if c is not None:
                    if not -len(r) <= c < len(r):
                        raise PyExc('IndexError')
                    l = list(r)
                    l[c] = v
                    ctx.heap[o.sid] = tuple(l)
                    return
            r = self.list_rec(o)
            if isinstance(k, slice):
                raise Unsupported('list slice assignment')
            i = norm_index(ctx, toint(ctx, k), r.shape[0])
            ctx.heap[o.sid] = r.push(Write(Region([], [], [i]), lambda b: v))
            return
        if isinstance(o, Obj):
            f = o.cls.lookup('__setitem__')
            if f is None:
                raise PyExc('TypeError')
            self.call(BoundM(f, o), [k, v], {})
            return
        if isinstance(o, tuple):
            raise PyExc('TypeError', 'tuple is immutable')
        raise Unsupported('item assignment')

    # ------------------------------------------------------------ lists / iteration
    def list_rec(self, o):
        """record of a list as ArrRec"""
        ctx = self.ctx
        r = ctx.heap[o.sid]
        if isinstance(r, tuple):
            items = r

            def get(idx):
                c = ctx.norm(idx[0]).as_int()
                if c is not None:
                    return items[c]
                for j in range(len(items)):
                    if j == len(items) - 1 or ctx.decide(eq(idx[0], j)):
                        return items[j]
                raise Infeasible()
            r = ArrRec((P(len(items)),), 'O', FnBase(get))
            ctx.heap[o.sid] = r
        return r

    def to_list(self, o):
        ctx = self.ctx
        if len(o.shape) != 1:
            raise Unsupported('tolist')
        g = reader(ctx, o)
        k = DT2K[dtype(ctx, o)]
        k = 'int' if k == 'npint' else k
        n = o.shape[0].as_int()
        if n is not None:
            return self.new_list([mknum(g([P(j)]), k) for j in range(n)])
        sid = ctx.newid()
        ctx.heap[sid] = ArrRec(o.shape, 'O', FnBase(lambda idx: mknum(g(idx), k)))
        return ListV(sid)

    def list_method(self, o, n, a, kw):
        ctx = self.ctx
        r = ctx.heap[o.sid]
        if n == 'append':
            if isinstance(r, tuple):
                ctx.heap[o.sid] = r + (a[0],)
            else:
                L = r.shape[0]
                v = a[0]
                r2 = r.push(Write(Region([], [], [L]), lambda b: v))
                ctx.heap[o.sid] = r2.reshape_len(ctx.norm(L + 1))
            return None
        if n == 'extend':
            T, get = self.iter_of(a[0])
            c = T.as_int()
            if c is not None and isinstance(r, tuple):
                ctx.heap[o.sid] = r + tuple(get(P(j)) for j in range(c))
                return None
            if c is not None and c <= 4:
                for v in [get(P(j)) for j in range(c)]:
                    self.list_method(o, 'append', [v], {})
                return None
            r = self.list_rec(o)
            L = r.shape[0]
            u = P(mk_atom('var', 'e#%d' % ctx.newid(), (), 'i'))
            r2 = r.push(Write(Region([(u, T)], [], [L + u]), lambda b: get(b[0])))
            ctx.heap[o.sid] = r2.reshape_len(ctx.norm(L + T))
            return None
        if n == 'pop':
            if isinstance(r, tuple):
                if not r:
                    raise PyExc('IndexError')
                i = toint(ctx, a[0]).as_int() if a else -1
                l = list(r)
                v = l.pop(i)
                ctx.heap[o.sid] = tuple(l)
                return v
            L = r.shape[0]
            if not ctx.decide(gt(L, 0)):
                raise PyExc('IndexError')
            i = toint(ctx, a[0]) if a else L - 1
            if i.is_zero():
                v = read_rec(ctx, r, [ZERO])
                ctx.heap[o.sid] = ArrRec((ctx.norm(L - 1),), 'O', FnBase(lambda idx: read_rec(ctx, r, [idx[0] + 1])))
                return v
            if ctx.entails(eq(i, L - 1)) or i == P(-1):
                v = read_rec(ctx, r, [L - 1])
                ctx.heap[o.sid] = r.reshape_len(ctx.norm(L - 1))
                return v
            raise Unsupported('list.pop')
        if n == 'copy':
            l = self.new_list(())
            ctx.heap[l.sid] = r
            return l
        if n == 'reverse' and isinstance(r, tuple):
            ctx.heap[o.sid] = tuple(reversed(r))
            return None
        if n == 'insert' and isinstance(r, tuple) and isinstance(a[0], int):
            l = list(r)
            l.insert(a[0], a[1])
            ctx.heap[o.sid] = tuple(l)
            return None
        raise Unsupported('list.' + n)

    def iter_of(self, v):
        """-> (length Poly, getter Poly->value) as of now"""
        ctx = self.ctx
        if isinstance(v, RangeV):
            return range_len(ctx, v), lambda t: mknum(ctx.norm(v.a + t * v.s), 'int')
        if isinstance(v, (tuple, str)):
            return P(len(v)), lambda t: v[t.as_int()] if t.as_int() is not None else self.sel(v, t)
        if isinstance(v, ListV):
            r = ctx.heap[v.sid]
            if isinstance(r, tuple):
                return P(len(r)), lambda t: r[t.as_int()] if t.as_int() is not None else self.sel(r, t)
            return r.shape[0], lambda t: unsnap(ctx, read_rec(ctx, r, [t]))
        if isinstance(v, EnumV):
            T, g = self.iter_of(v.it)
            return T, lambda t: (mknum(t + v.start, 'int'), g(t))
        if isinstance(v, ZipV):
            gs = [self.iter_of(x) for x in v.its]
            T = gs[0][0]
            for x, _ in gs[1:]:
                if T != x and not ctx.decide(le(T, x)):
                    T = x
            return T, lambda t: tuple(g(t) for _, g in gs)
        if isinstance(v, RevV):
            T, g = self.iter_of(v.it)
            return T, lambda t: g(ctx.norm(T - 1 - t))
        if isinstance(v, Arr):
            if not v.shape:
                raise PyExc('TypeError')
            if len(v.shape) == 1:
                g = reader(ctx, v)
                k = DT2K[dtype(ctx, v)]
                return v.shape[0], lambda t: Num(g([t]), k)
            return v.shape[0], lambda t: NP.getitem(ctx, v, mknum(t, 'int'))
        if isinstance(v, (dict, DictV)):
            ks = tuple(self.dict_of(v))
            return P(len(ks)), lambda t: ks[t.as_int()]
        if isinstance(v, FileV):
            return self.iter_of(self.file_method(v, 'readlines', [], {}))
        if isinstance(v, Obj):
            raise PyExc('TypeError', 'not iterable')
        if isnum(v) or v is None:
            raise PyExc('TypeError', 'not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def sel(self, items, t):
        for j in range(len(items)):
            if j == len(items) - 1 or self.ctx.decide(eq(t, j)):
                return items[j]
        raise Infeasible()

    def concrete_items(self, v):
        T, g = self.iter_of(v)
        n = self.ctx.norm(T).as_int()
        if n is None:
            raise Unsupported('symbolic-length sequence')
        return [g(P(j)) for j in range(n)]

    def truth(self, v):
        if isinstance(v, SymBool):
            return self.ctx.decide(v.c)
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Num):
            return not self.ctx.decide(eqc(self.ctx, v.p, ZERO))
        if isinstance(v, DictV):
            return len(self.dict_of(v)) > 0
        if isinstance(v, (str, tuple, dict)):
            return len(v) > 0
        if isinstance(v, ListV):
            r = self.ctx.heap[v.sid]
            return len(r) > 0 if isinstance(r, tuple) else self.ctx.decide(gt(r.shape[0], 0))
        if isinstance(v, Arr):
            raise Unsupported('truth value of an array')
        return True

    # ------------------------------------------------------------ strings / files
    def str_method(self, s, n, a, kw):
        if n == 'format':
            return str_format(s, a, kw)
        if n == 'join':
            T, g = self.iter_of(a[0])
            k = self.ctx.norm(T).as_int()
            if k is None:
                return mkstr([('v', a[0], 'join')])
            out = []
            for j in range(k):
                x = g(P(j))
                if not isinstance(x, (str, SymStr)):
                    raise PyExc('TypeError', 'join of non-strings')
                out.extend(([s] if j else []) + sparts(x))
            return mkstr([q for x in out for q in sparts(x)] if out and not isinstance(out[0], str) else out) if out else ''
        if n == 'split':
            return self.new_list(str_split(s, a[0] if a else None))
        if n in ('strip', 'rstrip', 'lstrip'):
            return str_strip(s, n)
        if isinstance(s, str) and all(isinstance(x, (str, int)) for x in a):
            r = getattr(s, n)(*a)
            return r if not isinstance(r, list) else self.new_list(r)
        if n in ('center', 'ljust', 'rjust', 'upper', 'lower'):
            return mkstr([('v', s, n)])
        raise Unsupported('str.' + n)

    def b_next(self, a):
        if not isinstance(a[0], FileV):
            raise Unsupported('next')
        v = self.file_method(a[0], 'readline', [], {})
        if v == '':
            if len(a) > 1:
                return a[1]
            raise PyExc('StopIteration')
        return v

    def b_open(self, a, kw):
        name = a[0]
        mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
        if isinstance(name, str) and name.startswith(self.repo):
            return FileV(name, mode, self.ctx.newid())
        ctx = self.ctx
        files = ctx.heap.setdefault('files', {})
        if 'w' in mode:
            sid = ctx.newid()
            ctx.heap[sid] = ()
            ctx.heap[('part', sid)] = ()
            f = dict(files)
            f[name] = sid
            ctx.heap['files'] = f
        elif 'a' in mode:
            raise Unsupported('append mode')
        elif name not in files:
            raise PyExc('IOError', 'no such file')
        return FileV(name, mode, ctx.newid())

    def file_method(self, f, n, a, kw):
        ctx = self.ctx
        if n in ('close', 'flush'):
            return None
        sid = ctx.heap['files'][f.fid]
        if n == 'write':
            if not isinstance(a[0], (str, SymStr)):
                raise PyExc('TypeError', 'write() argument must be str')
            key = ('part', sid)
            ps = list(ctx.heap.get(key, ())) + sparts(a[0])
            line = []
            for p in ps:
                if not isinstance(p, str):
                    line.append(p)
                    continue
                bits = p.split('\n')
                for b in bits[:-1]:
                    self.list_method(ListV(sid), 'append', [mkstr(line + [b + '\n'])], {})
                    line = []
                if bits[-1]:
                    line.append(bits[-1])
            ctx.heap[key] = tuple(line)
            return None
        if n == 'writelines':
            T, g = self.iter_of(a[0])
            self.list_method(ListV(sid), 'extend', [a[0]], {})
            return None
        if n in ('readlines', 'readline'):
            if ctx.heap.get(('part', sid), ()):
                raise Unsupported('file with an unfinished line')
            reads = dict(ctx.heap.get('read', {}))      # lines taken off each open file so far, None: all
            k = reads.get(f.pos, 0)
            l = self.new_list(())
            if k is not None:
                ctx.heap[l.sid] = ctx.heap[sid]
            if n == 'readlines':
                for _ in range(k or 0):
                    self.list_method(l, 'pop', [0], {})
                reads[f.pos] = None
                ctx.heap['read'] = reads
                return l
            T, g = self.iter_of(l)
            if k is None or not ctx.decide(gt(T, k)):
                return ''
            reads[f.pos] = k + 1
            ctx.heap['read'] = reads
            return g(P(k))
        raise Unsupported('file.' + n)

    # ------------------------------------------------------------ builtins
    def mk_builtins(self):
        ctx = self.ctx
        b = {}

        def reg(n, f):
            b[n] = Builtin(n, f)
        for n in EXC_PARENTS:
            b[n] = TypeV(n)
        b['object'] = TypeV('object', lambda a, k: None)
        b['property'] = Builtin('property', lambda a, k: PropV(a[0]))
        b['staticmethod'] = Builtin('staticmethod', lambda a, k: StaticV(a[0], False))
        b['classmethod'] = Builtin('classmethod', lambda a, k: StaticV(a[0], True))
        reg('range', lambda a, k: self.b_range(a))
        reg('len', lambda a, k: self.b_len(a[0]))
        reg('next', lambda a, k: self.b_next(a))
        reg('isinstance', lambda a, k: self.b_isinstance(a[0], a[1]))
        reg('enumerate', lambda a, k: EnumV(a[0], toint(ctx, a[1]) if len(a) > 1 else 0))
        reg('zip', lambda a, k: ZipV(a))
        reg('reversed', lambda a, k: RevV(a[0]))
        reg('print', lambda a, k: None)
        reg('abs', lambda a, k: self.b_abs(a[0], False))
        reg('sum', lambda a, k: self.b_sum(a))
        reg('min', lambda a, k: self.b_minmax(a, True))
        reg('max', lambda a, k: self.b_minmax(a, False))
        reg('round', lambda a, k: self.b_round(a))
        reg('divmod', lambda a, k: (self.binop('//', a[0], a[1]), self.binop('%', a[0], a[1])))
        reg('pow', lambda a, k: self.binop('**', a[0], a[1]))
        reg('hasattr', lambda a, k: self.b_hasattr(a))
        reg('getattr', lambda a, k: self.getattr_(a[0], a[1]))
        reg('setattr', lambda a, k: self.setattr_(a[0], a[1], a[2]))
        reg('callable', lambda a, k: isinstance(a[0], (FuncV, Builtin, BoundM, ClassV)))
        reg('open', lambda a, k: self.b_open(a, k))
        reg('repr', lambda a, k: mkstr([('v', a[0], 'r')]))
        reg('slice', lambda a, k: slice(*a))
        reg('map', lambda a, k: self.b_map(a))
        reg('all', lambda a, k: self.b_all(a[0], True))
        reg('any', lambda a, k: self.b_all(a[0], False))
        reg('iter', lambda a, k: a[0])
        b['slice'] = TypeV('slice', lambda a, k: slice(*(list(a) + [None] * (3 - len(a)))) if len(a) > 1 else slice(None, a[0], None))
        b['int'] = TypeV('int', lambda a, k: self.b_int(a[0]) if a else 0, 'i')
        b['float'] = TypeV('float', lambda a, k: self.b_float(a[0]), 'f')
        b['complex'] = TypeV('complex', lambda a, k: self.b_complex(a), 'c')
        b['bool'] = TypeV('bool', lambda a, k: self.truth(a[0]))
        b['str'] = TypeV('str', lambda a, k: a[0] if isinstance(a[0], (str, SymStr)) else mkstr([('v', a[0], '')]))
        b['list'] = TypeV('list', lambda a, k: self.b_list(a))
        b['tuple'] = TypeV('tuple', lambda a, k: tuple(self.concrete_items(a[0])) if a else ())
        b['dict'] = TypeV('dict', lambda a, k: self.mk_dict(a, k))
        b['type'] = TypeV('type', lambda a, k: self.b_type(a[0]))
        b['set'] = TypeV('set', lambda a, k: tuple(self.concrete_items(a[0])))
        b['True'], b['False'], b['None'] = True, False, None
        b['NotImplemented'] = NotImplemented
        b['Ellipsis'] = Ellipsis
        b['__name__'] = 'x'
        return b

    def b_map(self, a):
        l = self.new_list(())
        items = self.concrete_items(a[1])
        self.ctx.heap[l.sid] = tuple(self.call(a[0], [x], {}) for x in items)
        return l

    def b_all(self, v, isall):
        for x in self.concrete_items(v):
            if self.truth(x) != isall:
                return not isall
        return isall

    def b_round(self, a):
        v = a[0]
        if isinstance(v, int):
            return v
        if v.p.is_intsort() and v.p.intcoefs():
            return mknum(v.p, 'int')
        raise Unsupported('round')

    def b_hasattr(self, a):
        try:
            self.getattr_(a[0], a[1])
            return True
        except PyExc:
            return False

    def b_type(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, bool):
            return self.builtins['bool']
        if isinstance(v, int) or isinstance(v, Num) and v.kind == 'int':
            return self.builtins['int']
        if isinstance(v, str):
            return self.builtins['str']
        if isinstance(v, tuple):
            return self.builtins['tuple']
        if isinstance(v, ListV):
            return self.builtins['list']
        if isinstance(v, Arr):
            return self.np.d['ndarray']
        raise Unsupported('type()')

    def b_range(self, a):
        ctx = self.ctx
        v = []
        for x in a:
            if isinstance(x, Num) and x.kind in ('float', 'complex'):
                raise PyExc('TypeError', 'float as integer')
            v.append(toint(ctx, x))
        if len(v) == 1:
            return RangeV(ZERO, v[0], 1)
        s = 1
        if len(v) == 3:
            s = v[2].as_int()
            if s is None:
                raise Unsupported('symbolic range step')
            if s == 0:
                raise PyExc('ValueError')
        return RangeV(v[0], v[1], s)

    def memo(self, f):
        """a memoised function: the function itself, when its values cannot be modified"""
        def call(a, k):
            r = self.call(f, a, k)
            if not self.constant_fact(r, ()) and not isinstance(r, Num):
                raise Unsupported('a cached object is shared between calls')
            return r
        return Builtin('memo', call)

    def b_reduce(self, a):
        items = self.concrete_items(a[1])
        if len(a) > 2:
            items = [a[2]] + list(items)
        if not items:
            raise PyExc('TypeError', 'reduce of an empty sequence')
        r = items[0]
        for x in items[1:]:
            r = self.call(a[0], [r, x], {})
        return r

    def b_chain(self, a):
        l = self.new_list(())
        for x in a:
            self.list_method(l, 'extend', [x], {})
        return l

    def b_product(self, a, k):
        if k or len(a) != 2:
            raise Unsupported('itertools.product')
        (T, f), (U, g) = self.iter_of(a[0]), self.iter_of(a[1])
        ctx = self.ctx
        n, m = ctx.norm(T).as_int(), ctx.norm(U).as_int()
        if n is not None and m is not None:
            return self.new_list([(f(P(i)), g(P(j))) for i in range(n) for j in range(m)])
        return ProdV(a[0], a[1])

    def np_ndindex(self, a, arr=None):
        sh = [mknum(x, 'int') for x in self.np_asarray(arr).shape] if arr is not None else \
            list(a[0]) if len(a) == 1 and isinstance(a[0], tuple) else self.concrete_items(a[0]) if len(a) == 1 and isinstance(a[0], ListV) else list(a)
        if len(sh) != 2:
            raise Unsupported('np.ndindex in %d dimensions' % len(sh))
        return ProdV(RangeV(ZERO, self.ctx.norm(tonum(sh[0])[0]), 1), RangeV(ZERO, self.ctx.norm(tonum(sh[1])[0]), 1), arr)

    def np_prod(self, a, k):
        if k or len(a) != 1 or isinstance(a[0], Arr):
            raise Unsupported('np.prod')
        r = 1
        for x in self.concrete_items(a[0]):
            r = self.binop('*', r, x)
        p, kd = tonum(r)
        return Num(p, 'npint' if kd in ('int', 'bool') else kd)

    def np_hypot(self, a):
        sq = lambda x: self.binop('*', x, x)
        if any(DT2K[dtype(self.ctx, x)] == 'complex' if isinstance(x, Arr) else tonum(x)[1] == 'complex' for x in a):
            raise PyExc('TypeError', 'hypot of complex numbers')
        return self.unary(self.binop('+', sq(a[0]), sq(a[1])), sqrt, 'float')

    def b_repeat(self, a):
        if len(a) != 2:
            raise Unsupported('endless repeat')
        return self.binop('*', self.new_list([a[0]]), a[1])

    def mk_dict(self, a, k):
        d = {}
        for x in a:
            if isinstance(x, (dict, DictV)):
                d.update(self.dict_of(x))
            else:
                for it in self.concrete_items(x):
                    p, q = self.concrete_items(it)
                    d[self.dkey(p)] = q
        d.update(k)
        return self.new_dict(d)

    def b_len(self, v):
        ctx = self.ctx
        if isinstance(v, DictV):
            return len(self.dict_of(v))
        if isinstance(v, (tuple, str, dict)):
            return len(v)
        if isinstance(v, ListV):
            r = ctx.heap[v.sid]
            return len(r) if isinstance(r, tuple) else mknum(ctx.norm(r.shape[0]), 'int')
        if isinstance(v, Arr):
            if not v.shape:
                raise PyExc('TypeError')
            return mknum(ctx.norm(v.shape[0]), 'int')
        if isinstance(v, RangeV):
            return mknum(range_len(ctx, v), 'int')
        if isinstance(v, Obj):
            f = v.cls.lookup('__len__')
            if f is not None:
                return self.call(BoundM(f, v), [], {})
        if isinstance(v, (Opaque, SymStr)):
            raise Unsupported('len')
        raise PyExc('TypeError', 'no len()')

    def b_isinstance(self, v, t):
        if isinstance(t, tuple):
            return any(self.b_isinstance(v, x) for x in t)
        if isinstance(t, ClassV):
            if not isinstance(v, Obj):
                return False

            def sub(c):
                return c is t or any(isinstance(b, ClassV) and sub(b) for b in c.bases)
            return sub(v.cls)
        n = t.name
        if isinstance(v, SymBool) or isinstance(v, bool):
            return n in ('bool', 'int', 'Number', 'Real', 'Integral', 'object')
        if isinstance(v, int):
            return n in ('int', 'Number', 'Real', 'Integral', 'object')
        if isinstance(v, Num):
            return n in {'int': ('int', 'Number', 'Real', 'Integral', 'object'),
                         'npint': ('Number', 'Real', 'Integral', 'integer', 'number', 'generic', 'object', 'int64'),
                         'float': ('float', 'Number', 'Real', 'object', 'float64') ,
                         'complex': ('complex', 'Number', 'object', 'complex128')}[v.kind]
        if n == 'object':
            return True
        if isinstance(v, Arr):
            return n == 'ndarray'
        if isinstance(v, ListV):
            return n == 'list'
        if isinstance(v, tuple):
            return n == 'tuple'
        if isinstance(v, slice):
            return n == 'slice'
        if isinstance(v, (str, SymStr)):
            return n == 'str'
        if isinstance(v, (dict, DictV)):
            return n == 'dict'
        if isinstance(v, (Obj, Opaque)) or v is None:
            return False
        if isinstance(v, (RangeV, FuncV, Builtin, ClassV, TypeV)):
            return False
        raise Unsupported('isinstance of %r' % (v,))

    def b_abs(self, v, np):
        ctx = self.ctx
        if isinstance(v, (ListV, tuple)) and np:
            v = np_array(ctx, v)
        if isinstance(v, Arr):
            g = reader(ctx, v)
            d = dtype(ctx, v)
            return fnarr(ctx, v.shape, 'f' if d == 'c' else d, lambda idx: self.abs_p(g(idx), DT2K[d]))
        if isinstance(v, Obj):
            f = v.cls.lookup('__abs__')
            if f:
                return self.call(BoundM(f, v), [], {})
            raise PyExc('TypeError')
        p, k = tonum(v)
        if k in ('int', 'npint', 'bool'):
            p = p if ctx.decide(ge0(p)) else -p
            return Num(p, 'npint') if np else mknum(p, 'int')
        return Num(self.abs_p(p, k), 'float')

    def abs_p(self, p, k):
        if k in ('int', 'npint', 'bool'):
            return p if self.ctx.decide(ge0(p)) else -p
        return poly_abs(self.ctx, p)

    def b_int(self, v):
        ctx = self.ctx
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise PyExc('ValueError')
        if isinstance(v, SymStr):
            p = v.parts
            p = [x for x in p if not (isinstance(x, str) and x.strip() == '')]
            if len(p) == 1 and not isinstance(p[0], str):
                val, spec = p[0][1], p[0][2]
                if isnum(val) and tonum(val)[1] in ('int', 'npint') and spec in ('', 'd', 'i', 's'):
                    return mknum(tonum(val)[0], 'int')
                if isnum(val):
                    raise PyExc('ValueError', 'int of a float literal')
            raise Unsupported('int(%r)' % (v,))
        if isinstance(v, SymBool):
            return int(self.truth(v))
        if not isnum(v):
            raise PyExc('TypeError')
        p, k = tonum(v)
        if k in ('int', 'npint', 'bool'):
            return mknum(p, 'int')
        if k == 'complex':
            raise PyExc('TypeError')
        return mknum(trunc(ctx, p), 'int')

    def b_float(self, v):
        if isinstance(v, str):
            try:
                return Num(P(lit(float(v))), 'float')
            except ValueError:
                raise PyExc('ValueError')
        if isinstance(v, SymStr):
            p = [x for x in v.parts if not (isinstance(x, str) and x.strip() == '')]
            if len(p) == 1 and not isinstance(p[0], str):
                val, spec = p[0][1], p[0][2]
                if isnum(val) and float_spec_exact(spec, tonum(val)[1]):
                    self.ctx.assumed.add('decimal rendering with >=17 significant digits (or repr) round-trips a double exactly')
                    return Num(tonum(val)[0], 'float')
                if isnum(val):
                    return Num(app('rounded.' + spec, [tonum(val)[0]]), 'float')
            raise Unsupported('float(%r)' % (v,))
        if not isnum(v):
            raise PyExc('TypeError')
        p, k = tonum(v)
        if k == 'complex':
            raise PyExc('TypeError')
        return Num(p, 'float')

    def b_complex(self, a):
        if isinstance(a[0], SymStr):
            raise Unsupported('complex(str)')
        p, _ = tonum(a[0])
        if len(a) > 1:
            p = p + I * tonum(a[1])[0]
        return Num(p, 'complex')

    def b_list(self, a):
        ctx = self.ctx
        if not a:
            return self.new_list(())
        T, g = self.iter_of(a[0])
        n = ctx.norm(T).as_int()
        if n is not None:
            return self.new_list([g(P(j)) for j in range(n)])
        sid = ctx.newid()
        ctx.heap[sid] = ArrRec((T,), 'O', FnBase(lambda idx: g(idx[0])))
        return ListV(sid)

    def b_sum(self, a):
        ctx = self.ctx
        T, g = self.iter_of(a[0])
        n = ctx.norm(T).as_int()
        if n is not None:
            r = 0 if len(a) < 2 else a[1]
            for j in range(n):
                r = self.binop('+', r, g(P(j)))
            return r
        ks = []

        def get(idx):
            p, k = tonum(g(idx[0]))
            ks.append(k)
            return p
        p = sum_pieces(ctx, (T,), get)
        k = 'int'
        for x in ks:
            k = join(k, x)
        if len(a) > 1:
            p = p + tonum(a[1])[0]
        return mknum(p, k)

    def b_minmax(self, a, ismin):
        ctx = self.ctx
        if len(a) == 1 and self.symbolic_list(a[0]):
            return self.np_max(np_array(ctx, a[0]), 'min' if ismin else 'max')
        items = self.concrete_items(a[0]) if len(a) == 1 else list(a)
        if not items:
            raise PyExc('ValueError')
        cur = items[0]
        for x in items[1:]:
            c = self.compare('Lt' if ismin else 'Gt', x, cur)
            if self.truth(c):
                cur = x
        return cur

    def np_copyto(self, a, k):
        if k:
            raise Unsupported('copyto with options')
        v = a[1] if isinstance(a[1], Arr) or isnum(a[1]) else np_array(self.ctx, a[1])
        self.setitem(a[0], Ellipsis, v)

    def symbolic_list(self, v):
        return isinstance(v, ListV) and not isinstance(self.ctx.heap[v.sid], tuple) and \
            self.ctx.norm(self.ctx.heap[v.sid].shape[0]).as_int() is None

    def np_concatenate(self, v, axis):
        """a list of symbolic length is joined by the loop rule, as many elements at a time as the loop that built it
        appended per iteration"""
        ctx = self.ctx
        if not self.symbolic_list(v):
            return np_concat(ctx, self.concrete_items(v), axis)
        rec = ctx.heap[v.sid]
        L = ctx.norm(rec.shape[0])
        step, first = 1, None
        for e in rec.chain:
            if isinstance(e, LoopMap):
                if first is not None:
                    raise Unsupported('concatenation of a list built by several loops')
                for it in e.items:
                    t = e.t.as_atom().id
                    x = subst(it.region.idx[0], {t: ZERO})
                    d = (subst(it.region.idx[0], {t: ONE}) - x).as_int()
                    x = x.as_int()
                    if d is None or x is None or d < 1:
                        raise Unsupported('concatenation of a symbolic list')
                    step = max(step, d)
                    first = x if first is None else min(first, x)
        first = first or 0
        item = lambda i: unsnap(ctx, read_rec(ctx, rec, [i]))
        T = ctx.norm((L - first) / step)
        if any(c.denominator != 1 for c in T.t.values()) or not ctx.decide(ge0(T)):
            raise Unsupported('concatenation of a symbolic list')
        if first == 0:
            if not ctx.decide(ge(T, 1)):
                raise PyExc('ValueError', 'need at least one array to concatenate')
            first, T = step, ctx.norm(T - 1)
        env = Env()
        env['w.c'] = np_concat(ctx, [item(P(j)) for j in range(first)], axis)
        env['w.f'] = Builtin('concatenate', lambda a, k: np_concat(
            ctx, [a[0]] + [item(ctx.norm(tonum(a[1])[0] * step + first + j)) for j in range(step)], axis))
        name = lambda n: ast.Name(n, ast.Load())
        st = ast.For(ast.Name('w.t', ast.Store()), None, [ast.Assign([ast.Name('w.c', ast.Store())], ast.Call(
            name('w.f'), [name('w.c'), name('w.t')], []))], [], lineno=0)
        if ctx.decide(ge(T, 1)):
            loops.summarize(self, st, T, lambda x: mknum(ctx.norm(x), 'int'), env)
        return self.lookup('w.c', env)

    # ------------------------------------------------------------ numpy
    def mk_numpy(self):
        ctx = self.ctx
        d = {}

        def reg(n, f):
            d[n] = Builtin('np.' + n, f)

        def dtk(a, k, pos, default='f'):
            if 'dtype' in k:
                return dt_of(k['dtype'], default)
            if len(a) > pos:
                return dt_of(a[pos], default)
            return default
        d['complex128'] = TypeV('complex128', lambda a, k: Num(tonum(a[0])[0], 'complex'), 'c')
        d['complex_'] = d['complex'] = d['complex128']
        d['float64'] = TypeV('float64', lambda a, k: Num(tonum(a[0])[0], 'float'), 'f')
        d['double'] = d['float_'] = d['float64']
        d['int64'] = TypeV('int64', lambda a, k: Num(toint(ctx, a[0]), 'npint'), 'i')
        d['int_'] = d['int32'] = d['intp'] = d['int64']
        d['ndarray'] = TypeV('ndarray')
        d['integer'] = TypeV('integer')
        d['number'] = TypeV('number')
        d['pi'] = Num(PI, 'float')
        d['newaxis'] = None
        reg('zeros', lambda a, k: np_full(ctx, a[0] if a else k['shape'], ZERO, dtk(a, k, 1)))
        reg('ones', lambda a, k: np_full(ctx, a[0] if a else k['shape'], ONE, dtk(a, k, 1)))
        reg('empty', lambda a, k: self.np_empty(a[0], dtk(a, k, 1)))
        reg('full', lambda a, k: self.np_full_(a, k, dtk(a, k, 2, None)))
        reg('zeros_like', lambda a, k: new_arr(ctx, a[0].shape, dtk(a, k, 1, dtype(ctx, a[0])), ConstBase(ZERO)))
        reg('ones_like', lambda a, k: new_arr(ctx, a[0].shape, dtk(a, k, 1, dtype(ctx, a[0])), ConstBase(ONE)))
        reg('empty_like', lambda a, k: self.np_empty(tuple(mknum(x, 'int') for x in a[0].shape), dtk(a, k, 1, dtype(ctx, a[0]))))
        reg('copy', lambda a, k: np_array(ctx, a[0]))
        reg('array', lambda a, k: np_array(ctx, a[0], dtk(a, k, 1, None)))
        reg('asarray', lambda a, k: self.np_asarray(a[0], dtk(a, k, 1, None)))
        d['ascontiguousarray'] = d['asarray']
        reg('arange', lambda a, k: self.np_arange(a, k))
        reg('abs', lambda a, k: self.b_abs(a[0], True))
        d['absolute'] = d['abs']
        reg('sum', lambda a, k: self.np_sum(a, k))
        reg('sqrt', lambda a, k: self.unary(a[0], sqrt, 'float'))
        reg('square', lambda a, k: self.binop('*', a[0], a[0]))
        reg('real', lambda a, k: self.getattr_(a[0], 'real'))
        reg('imag', lambda a, k: self.getattr_(a[0], 'imag'))
        reg('conj', lambda a, k: self.unary(a[0], conj, None))
        d['conjugate'] = d['conj']
        reg('cos', lambda a, k: self.unary(a[0], lambda p: app('cos', [p]), 'float'))
        reg('sin', lambda a, k: self.unary(a[0], lambda p: app('sin', [p]), 'float'))
        reg('exp', lambda a, k: self.unary(a[0], self.exp_p, 'keepc'))
        reg('floor', lambda a, k: self.unary(a[0], lambda p: NP.floor(ctx, p), 'float'))
        reg('ceil', lambda a, k: self.unary(a[0], lambda p: -NP.floor(ctx, -p), 'float'))
        reg('mod', lambda a, k: self.np_mod(a[0], a[1]))
        d['remainder'] = d['mod']
        reg('add', lambda a, k: self.npbin('+', a, k))
        reg('subtract', lambda a, k: self.npbin('-', a, k))
        reg('multiply', lambda a, k: self.npbin('*', a, k))
        reg('divide', lambda a, k: self.npbin('/', a, k))
        d['true_divide'] = d['divide']
        reg('hypot', lambda a, k: self.np_hypot(a))
        reg('prod', lambda a, k: self.np_prod(a, k))
        reg('ndindex', lambda a, k: self.np_ndindex(a))
        reg('ndenumerate', lambda a, k: self.np_ndindex(None, a[0]))
        reg('power', lambda a, k: self.npbin('**', a, k))
        reg('negative', lambda a, k: self.binop('*', a[0], -1))
        reg('concatenate', lambda a, k: self.np_concatenate(a[0], toint(ctx, k.get('axis', a[1] if len(a) > 1 else 0)).as_int()))
        reg('copyto', lambda a, k: self.np_copyto(a, k))
        reg('hstack', lambda a, k: self.np_concatenate(a[0], 0) if self.symbolic_list(a[0]) else np_concat(ctx, self.concrete_items(a[0]), 0) if len(self.concrete_items(a[0])[0].shape) == 1 else np_concat(ctx, self.concrete_items(a[0]), 1))
        reg('vstack', lambda a, k: self.np_rows(a[0]) if self.symbolic_list(a[0]) else np_concat(ctx, [x if len(x.shape) > 1 else NP.getitem(ctx, x, (None, slice(None))) for x in self.concrete_items(a[0])], 0))
        reg('append', lambda a, k: np_concat(ctx, [a[0], a[1]], 0))
        reg('transpose', lambda a, k: np_transpose(ctx, a[0]))
        reg('reshape', lambda a, k: np_reshape(ctx, a[0], a[1]))
        reg('linspace', lambda a, k: self.np_linspace(a, k))
        reg('max', lambda a, k: self.np_max(a[0], 'max'))
        d['amax'] = d['max']
        reg('min', lambda a, k: self.np_max(a[0], 'min'))
        d['amin'] = d['min']
        reg('isscalar', lambda a, k: isnum(a[0]) or isinstance(a[0], str))
        reg('roll', lambda a, k: self.np_roll(a, k))
        reg('outer', lambda a, k: NP._binop(ctx, '*', NP.getitem(ctx, self.np_asarray(a[0]), (slice(None), None)), NP.getitem(ctx, self.np_asarray(a[1]), (None, slice(None))))[2])
        reg('dot', lambda a, k: self.np_dot(a))
        reg('tile', lambda a, k: self.np_tile(a))
        reg('spacing', lambda a, k: Num(app('spacing', [tonum(a[0])[0]]), 'float'))
        reg('sort', lambda a, k: self.np_sort(a[0]))
        reg('where', lambda a, k: self.np_where(a, k))
        reg('logical_and', lambda a, k: self.logical('&', a[:2]))
        reg('logical_or', lambda a, k: self.logical('|', a[:2]))
        reg('logical_xor', lambda a, k: self.logical('^', a[:2]))
        reg('logical_not', lambda a, k: self.logical('~', a[:1]))
        for n_, c_ in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE')):
            reg(n_, lambda a, k, c=c_: self.compare(c, a[0], a[1]))
        reg('maximum', lambda a, k: self.np_pick('Gt', a, k))
        reg('minimum', lambda a, k: self.np_pick('Lt', a, k))
        reg('count_nonzero', lambda a, k: self.np_sum([self.compare('NotEq', a[0], 0)], k))
        reg('vdot', lambda a, k: self.np_dot([self.unary(np_reshape(ctx, self.np_asarray(a[0]), -1), conj, None), np_reshape(ctx, self.np_asarray(a[1]), -1)]))
        reg('inner', lambda a, k: self.np_dot(a))
        reg('matmul', lambda a, k: self.np_dot(a))
        reg('diff', lambda a, k: self.np_diff(a, k))
        reg('fliplr', lambda a, k: NP.getitem(ctx, a[0], (slice(None), slice(None, None, -1))))
        reg('squeeze', lambda a, k: self.np_squeeze(a, k))
        reg('ix_', lambda a, k: tuple(NP.getitem(ctx, self.np_asarray(x), tuple(slice(None) if i == j else None for i in range(len(a)))) for j, x in enumerate(a)))
        reg('take', lambda a, k: self.np_take(a, k))
        reg('stack', lambda a, k: self.np_stack(a, k))
        reg('column_stack', lambda a, k: np_transpose(ctx, self.np_rows(a[0])) if self.symbolic_list(a[0]) else np_concat(ctx, [x if len(x.shape) > 1 else NP.getitem(ctx, x, (slice(None), None)) for x in map(self.np_asarray, self.concrete_items(a[0]))], 1))
        reg('full_like', lambda a, k: np_full(ctx, tuple(mknum(x, 'int') for x in a[0].shape), tonum(a[1])[0], dtk(a, k, 2, dtype(ctx, a[0]))))
        reg('broadcast_to', lambda a, k: self.np_bcast(a[0], to_shape(ctx, a[1])))
        reg('meshgrid', lambda a, k: self.np_meshgrid(a, k))
        reg('ravel', lambda a, k: self.call(self.arr_attr(self.np_asarray(a[0]), 'ravel'), [], {}))
        reg('swapaxes', lambda a, k: np_transpose(ctx, a[0]) if len(a[0].shape) == 2 and {toint(ctx, x).as_int() % 2 for x in a[1:]} == {0, 1} else (_ for _ in ()).throw(Unsupported('swapaxes')))
        reg('ndim', lambda a, k: len(self.np_asarray(a[0]).shape))
        reg('atleast_1d', lambda a, k: NP.getitem(ctx, self.np_asarray(a[0]), (None,)) if not self.np_asarray(a[0]).shape else self.np_asarray(a[0]))
        reg('pad', lambda a, k: self.np_pad(a, k))
        reg('any', lambda a, k: self.np_quant(a, k, True))
        reg('all', lambda a, k: self.np_quant(a, k, False))
        reg('array_equal', lambda a, k: self.np_array_equal(a[0], a[1]))
        reg('expand_dims', lambda a, k: self.np_expand(a, k))
        d['bool_'] = TypeV('bool_', lambda a, k: self.truth(a[0]), 'b')
        d['linalg'] = ModV('numpy.linalg', {'norm': Builtin('norm', lambda a, k: self.np_norm(a, k))})
        d['inf'] = Num(app('inf', []), 'float')
        reg('size', lambda a, k: self.arr_attr(a[0], 'size'))
        reg('shape', lambda a, k: self.arr_attr(a[0], 'shape'))
        reg('flip', lambda a, k: self.np_flip(a, k))
        reg('flipud', lambda a, k: NP.getitem(ctx, a[0], (slice(None, None, -1),)))
        fft = {}
        fft['fft2'] = Builtin('fft2', lambda a, k: self.np_fft(a, k, 'fft2'))
        fft['ifft2'] = Builtin('ifft2', lambda a, k: self.np_fft(a, k, 'ifft2'))
        for n_ in ('fftn', 'ifftn'):
            fft[n_] = Builtin(n_, lambda a, k, n=n_: self.np_fft(a, k, n.replace('fftn', 'fft2' if len(self.np_asarray(a[0]).shape) == 2 else 'fft')))
        for n_ in ('fftshift', 'ifftshift'):
            fft[n_] = Builtin(n_, lambda a, k, n=n_: self.np_fftshift(a, k, n))
        fft['fftfreq'] = Builtin('fftfreq', lambda a, k: self.np_fftfreq(a, k))
        fft['fft'] = Builtin('fft', lambda a, k: self.np_fft(a, k, 'fft'))
        fft['ifft'] = Builtin('ifft', lambda a, k: self.np_fft(a, k, 'ifft'))
        d['fft'] = ModV('numpy.fft', fft)
        d['random'] = ModV('numpy.random', {'normal': Builtin('normal', lambda a, k: self.np_normal(a, k))})
        return ModV('numpy', d)

    def np_asarray(self, v, dt=None):
        if isinstance(v, Arr) and (dt is None or dtype(self.ctx, v) == dt):
            return v
        return np_array(self.ctx, v, dt)

    def np_empty(self, shape, dt):
        ctx = self.ctx
        sh = to_shape(ctx, shape)
        check_shape(ctx, sh)
        loc = sorted(local_ids(ctx))
        nm = 'uninit%d' % ctx.newid()
        return new_arr(ctx, sh, dt, AppBase(nm, dt == 'c', [P(atom(a)) for a in loc if atom(a).kind == 'var']))

    def np_full_(self, a, k, dt):
        p, kk = tonum(a[1])
        return np_full(self.ctx, a[0], p, dt or K2DT[kk])

    def np_arange(self, a, k):
        dt = dt_of(k['dtype'], 'i') if 'dtype' in k else None
        if all(isnum(x) and tonum(x)[1] in ('int', 'npint') for x in a):
            r = self.b_range(a)
            T = range_len(self.ctx, r)
            return fnarr(self.ctx, (T,), dt or 'i', lambda idx: r.a + idx[0] * r.s)
        ps = [tonum(x)[0] for x in a]
        if all(p.is_intsort() and p.intcoefs() for p in ps):
            r = self.b_range([mknum(p, 'int') for p in ps])
            T = range_len(self.ctx, r)
            return fnarr(self.ctx, (T,), dt or 'f', lambda idx: r.a + idx[0] * r.s)
        raise Unsupported('float arange')

    def np_sum(self, a, k):
        ctx = self.ctx
        v = a[0]
        ax = k.get('axis', a[1] if len(a) > 1 else None)
        if not isinstance(v, Arr):
            v = np_array(ctx, v)
        g = reader(ctx, v)
        kd = DT2K[dtype(ctx, v)]
        if kd == 'bool':
            kd = 'npint'
            v = np_array(ctx, v, 'i')
        rec = ctx.heap[v.sid]
        src = getattr(rec.base, 'sorted_of', None)
        if src is not None and v.fmap is None and not rec.chain:     # same numbers in another order
            g = src
        if ax is None or len(v.shape) == 1:
            return Num(sum_pieces(ctx, v.shape, g), kd)
        ax = toint(ctx, ax).as_int() % len(v.shape)
        sh = tuple(n for j, n in enumerate(v.shape) if j != ax)
        n = v.shape[ax]

        def get(idx):
            return sum_pieces(ctx, (n,), lambda i: g(list(idx[:ax]) + [i[0]] + list(idx[ax:])))
        return fnarr(ctx, sh, dtype(ctx, v), get)

    def np_dot(self, a):
        ctx = self.ctx
        x, y = self.np_asarray(a[0]), self.np_asarray(a[1])
        if len(x.shape) == 1 and len(y.shape) == 1:
            if not ctx.decide(eq(x.shape[0], y.shape[0])):
                raise PyExc('ValueError', 'shapes not aligned')
            return self.np_sum([NP._binop(ctx, '*', x, y)[2]], {})
        if len(x.shape) in (1, 2) and len(y.shape) in (1, 2):
            n = x.shape[-1]
            if not ctx.decide(eq(n, y.shape[0])):
                raise PyExc('ValueError', 'shapes not aligned')
            gx, gy = reader(ctx, x), reader(ctx, y)
            h = len(x.shape) - 1
            k = K2DT[join(DT2K[dtype(ctx, x)], DT2K[dtype(ctx, y)])]
            return fnarr(ctx, x.shape[:-1] + y.shape[1:], k, lambda idx: sum_pieces(
                ctx, (n,), lambda t: gx(list(idx[:h]) + [t[0]]) * gy([t[0]] + list(idx[h:]))))
        raise Unsupported('np.dot')

    def np_where(self, a, k):
        if k or len(a) != 3:
            raise Unsupported('np.where of one argument')
        m, x, y = a
        if not isinstance(m, Arr) and not isinstance(x, (Arr, ListV)) and not isinstance(y, (Arr, ListV)):
            return x if self.truth(m) else y
        return NP.where(self.ctx, m, x, y)

    def np_pick(self, op, a, k):
        if k or len(a) != 2:
            raise Unsupported('maximum with options')
        if not any(isinstance(x, (Arr, ListV)) for x in a):
            return self.b_minmax(list(a), op == 'Lt')
        return NP.where(self.ctx, self.arr_compare(op, a[0], a[1]), a[0], a[1])

    def np_diff(self, a, k):
        v = self.np_asarray(a[0])
        if k or len(a) != 1 or len(v.shape) != 1:
            raise Unsupported('np.diff')
        return self.binop('-', NP.getitem(self.ctx, v, slice(1, None)), NP.getitem(self.ctx, v, slice(None, -1)))

    def np_squeeze(self, a, k):
        ctx = self.ctx
        v = self.np_asarray(a[0])
        ax = k.get('axis', a[1] if len(a) > 1 else None)
        if ax is None:
            ds = [d for d, n in enumerate(v.shape) if ctx.decide(eq(n, 1))]
        else:
            ds = [toint(ctx, x).as_int() % len(v.shape) for x in (ax if isinstance(ax, tuple) else (ax,))]
            for d in ds:
                if not ctx.decide(eq(v.shape[d], 1)):
                    raise PyExc('ValueError', 'cannot squeeze')
        if len(ds) == len(v.shape):
            raise Unsupported('squeeze to a single value')
        return NP.getitem(ctx, v, tuple(0 if d in ds else slice(None) for d in range(len(v.shape))))

    def np_take(self, a, k):
        v = self.np_asarray(a[0])
        ax = k.get('axis', a[2] if len(a) > 2 else None)
        if set(k) - {'axis'}:
            raise Unsupported('take with options')
        if ax is None:
            if len(v.shape) != 1:
                raise Unsupported('take without axis')
            ax = 0
        ax = toint(self.ctx, ax).as_int() % len(v.shape)
        return NP.getitem(self.ctx, v, (slice(None),) * ax + (a[1],))

    def np_rows(self, v):
        a = np_array(self.ctx, v)
        if len(a.shape) != 2:
            raise Unsupported('stacking a symbolic list')
        return a

    def np_stack(self, a, k):
        ctx = self.ctx
        if self.symbolic_list(a[0]):
            ax = toint(ctx, k.get('axis', a[1] if len(a) > 1 else 0)).as_int()
            r = self.np_rows(a[0])
            return r if ax == 0 else np_transpose(ctx, r)
        ax = toint(ctx, k.get('axis', a[1] if len(a) > 1 else 0)).as_int()
        xs = [self.np_asarray(x) for x in self.concrete_items(a[0])]
        ax %= len(xs[0].shape) + 1
        return np_concat(ctx, [NP.getitem(ctx, x, tuple(None if j == ax else slice(None) for j in range(len(x.shape) + 1))) for x in xs], ax)

    def np_bcast(self, v, sh):
        ctx = self.ctx
        s, g, kd = as_operand(ctx, v)
        out = NP.broadcast(ctx, [s, tuple(sh)])
        if not self.ctx.entails(And(*[eq(x, y) for x, y in zip(out, sh)])):
            raise Unsupported('broadcast_to')
        return fnarr(ctx, tuple(sh), K2DT[kd], NP.bget(ctx, s, g, tuple(sh)))

    def np_meshgrid(self, a, k):
        ctx = self.ctx
        if len(a) != 2 or set(k) - {'indexing'} or k.get('indexing', 'xy') not in ('xy', 'ij'):
            raise Unsupported('meshgrid')
        x, y = [self.np_asarray(v) for v in a]
        ij = k.get('indexing') == 'ij'
        gx, gy = reader(ctx, x), reader(ctx, y)
        n, m = x.shape[0], y.shape[0]
        sh = (n, m) if ij else (m, n)
        u, v = (0, 1) if ij else (1, 0)
        return self.new_list([fnarr(ctx, sh, dtype(ctx, x), lambda idx: gx([idx[u]])),
                              fnarr(ctx, sh, dtype(ctx, y), lambda idx: gy([idx[v]]))])

    def np_pad(self, a, k):
        ctx = self.ctx
        v = self.np_asarray(a[0])
        if k.get('mode', a[2] if len(a) > 2 else 'constant') != 'constant' or set(k) - {'mode', 'constant_values', 'pad_width'}:
            raise Unsupported('pad')
        fill = tonum(k.get('constant_values', 0))
        w = a[1] if len(a) > 1 else k['pad_width']
        seq = lambda x: self.concrete_items(x) if isinstance(x, (tuple, ListV)) else None
        ws = seq(w)
        if ws is None:
            ws = [(w, w)] * len(v.shape)
        elif seq(ws[0]) is None:
            ws = [tuple(ws)] * len(v.shape)
        else:
            ws = [tuple(seq(x)) for x in ws]
            if len(ws) == 1:
                ws = ws * len(v.shape)
        ws = [[toint(ctx, y) for y in (x if len(x) == 2 else (x[0], x[0]))] for x in ws]
        for x in ws:
            for y in x:
                if not ctx.decide(ge0(y)):
                    raise PyExc('ValueError', 'negative pad')
        g, n = reader(ctx, v), v.shape

        def get(idx):
            out = []
            for i, (b, _), m in zip(idx, ws, n):
                j = ctx.norm(i - b)
                if not ctx.decide(And(ge0(j), lt(j, m))):
                    return fill[0]
                out.append(j)
            return g(out)
        return fnarr(ctx, tuple(ctx.norm(m + b + e) for m, (b, e) in zip(n, ws)), dtype(ctx, v), get)

    def np_quant(self, a, k, isany):
        """np.any / np.all of an array: decided when every element agrees"""
        ctx = self.ctx
        if k or len(a) != 1:
            raise Unsupported('any/all with options')
        v = a[0]
        if not isinstance(v, Arr):
            if isnum(v):
                return self.truth(v)
            return self.b_all(v, not isany)
        g = reader(ctx, v)
        n = [ctx.norm(x).as_int() for x in v.shape]
        if all(x is not None for x in n):
            import itertools
            for idx in itertools.product(*[range(x) for x in n]):
                if ctx.decide(Not(NP.eqc(ctx, g([P(j) for j in idx]), ZERO))) == isany:
                    return isany
            return not isany
        vs = [ctx.fresh('x') for _ in v.shape]

        def body():
            for x, m in zip(vs, v.shape):
                ctx.assume(ge0(x))
                ctx.assume(lt(x, m))
            return not ctx.decide(NP.eqc(ctx, g(vs), ZERO))
        outs = ctx.explore(body, locals_=vs)
        vals = {o.value for o in outs if o.kind == 'ret'}
        if any(o.kind != 'ret' for o in outs) or len(vals) > 1:
            raise Unsupported('any/all of an array')
        if vals == {not isany} or not vals:
            return not isany
        if all(ctx.decide(gt(x, 0)) for x in v.shape):
            return isany
        return not isany

    def np_array_equal(self, x, y):
        x, y = self.np_asarray(x), self.np_asarray(y)
        if len(x.shape) != len(y.shape) or not self.ctx.decide(And(*[eq(p, q) for p, q in zip(x.shape, y.shape)])):
            return False
        return self.np_quant([self.compare('Eq', x, y)], {}, False)

    def np_expand(self, a, k):
        v = self.np_asarray(a[0])
        ax = toint(self.ctx, k.get('axis', a[1] if len(a) > 1 else None)).as_int() % (len(v.shape) + 1)
        return NP.getitem(self.ctx, v, tuple(None if j == ax else slice(None) for j in range(len(v.shape) + 1)))

    def np_norm(self, a, k):
        ctx = self.ctx
        v = self.np_asarray(a[0])
        o = k.get('ord', a[1] if len(a) > 1 else None)
        if set(k) - {'ord'} or len(a) > 2:
            raise Unsupported('norm with options')
        if o is None or (len(v.shape) == 1 and isnum(o) and tonum(o)[0].as_int() == 2):
            return self.unary(self.np_sum([np_power(ctx, self.b_abs(v, True), 2)], {}), sqrt, 'float')
        if len(v.shape) == 1 and isnum(o) and tonum(o)[0] == app('inf', []):
            return self.np_max(self.b_abs(v, True), 'max')
        if len(v.shape) == 1 and isnum(o) and tonum(o)[0].as_int() == 1:
            return self.np_sum([self.b_abs(v, True)], {})
        raise Unsupported('norm of this order')

    def np_tile(self, a):
        ctx = self.ctx
        reps = a[1]
        x = self.np_asarray(a[0])
        if isinstance(reps, tuple) and len(reps) == 2 and len(x.shape) == 1 and self.truth(self.compare('Eq', reps[1], 1)):
            g = reader(ctx, x)
            return fnarr(ctx, (toint(ctx, reps[0]), x.shape[0]), dtype(ctx, x), lambda idx: g([idx[1]]))
        raise Unsupported('np.tile')

    def np_sort(self, v):
        ctx = self.ctx
        v = self.np_asarray(v)
        if len(v.shape) != 1:
            raise Unsupported('np.sort')
        g = reader(ctx, v)
        nm, params = functional(ctx, 'sort', v.shape, g)
        ctx.assumed.add('np.sort is a permutation')
        b = FnBase(lambda idx: app(nm, params + list(idx)))
        b.sorted_of = g
        return new_arr(ctx, v.shape, dtype(ctx, v), b)

    def np_flip(self, a, k):
        ax = k.get('axis', a[1] if len(a) > 1 else None)
        v = a[0]
        if ax is None:
            key = tuple(slice(None, None, -1) for _ in v.shape)
        else:
            ax = toint(self.ctx, ax).as_int() % len(v.shape)
            key = tuple(slice(None, None, -1 if j == ax else None) for j in range(len(v.shape)))
        return NP.getitem(self.ctx, v, key)

    def unary(self, v, f, kind):
        ctx = self.ctx
        if isinstance(v, (ListV, tuple)):
            v = np_array(ctx, v)
        if isinstance(v, Arr):
            g = reader(ctx, v)
            d = dtype(ctx, v)
            k = kind
            if kind == 'keepc':
                k = 'complex' if d == 'c' else 'float'
            elif kind is None:
                k = DT2K[d]
            elif d == 'c' and kind == 'float':
                # complex sqrt/cos/sin: only meaningful on real data
                k = 'complex'
            return fnarr(ctx, v.shape, K2DT[k], lambda idx: f(g(idx)))
        if not isnum(v):
            raise PyExc('TypeError')
        p, k0 = tonum(v)
        k = kind
        if kind == 'keepc':
            k = 'complex' if k0 == 'complex' else 'float'
        elif kind is None:
            k = k0
        elif k0 == 'complex' and kind == 'float':
            k = 'complex'
        return Num(ctx.norm(f(p)), k)

    def exp_p(self, p):
        re, im = re_im(resolve_ip(self.ctx, p))
        if not re.is_zero():
            raise Unsupported('exp of a non-imaginary value')
        return app('cos', [im]) + I * app('sin', [im])

    def np_mod(self, a, b):
        ctx = self.ctx
        if isinstance(a, Arr) or isinstance(b, Arr):
            return NP._binop(ctx, '%', a, b)[2]
        pa, ka = tonum(a)
        pb, kb = tonum(b)
        k = join(ka, kb)
        p, _ = num_binop(ctx, '%', pa, ka, pb, kb)
        return Num(ctx.norm(p), 'npint' if k in ('int', 'bool') else k)

    def npbin(self, op, a, k):
        r = self.binop(op, a[0], a[1])
        out = k.get('out', a[2] if len(a) > 2 else None)
        if out is not None:
            assign_view(self.ctx, out, r)
            return out
        return r

    def np_linspace(self, a, k):
        ctx = self.ctx
        x, y = tonum(a[0])[0], tonum(a[1])[0]
        n = toint(ctx, a[2] if len(a) > 2 else k.get('num', 50))
        ep = k.get('endpoint', True)
        if not ctx.decide(ge0(n)):
            raise PyExc('ValueError')
        if self.truth(ep):
            if ctx.decide(eq(n, 1)):
                return fnarr(ctx, (n,), 'f', lambda idx: x)
            step = (y - x) / (n - 1)
        else:
            step = (y - x) / n
        return fnarr(ctx, (n,), 'f', lambda idx: x + idx[0] * step)

    def np_max(self, v, kind):
        ctx = self.ctx
        if not isinstance(v, Arr):
            v = np_array(ctx, v)
        for n in v.shape:
            if ctx.decide(eq(n, 0)):
                raise PyExc('ValueError', 'zero-size array')
        return Num(extreme(ctx, kind, v.shape, reader(ctx, v)), DT2K[dtype(ctx, v)])

    def np_roll(self, a, k):
        ctx = self.ctx
        v = a[0]
        s = toint(ctx, a[1])
        ax = k.get('axis', a[2] if len(a) > 2 else None)
        if ax is None:
            if len(v.shape) != 1:
                raise Unsupported('np.roll')
            ax = 0
        ax = toint(ctx, ax).as_int() % len(v.shape)
        n = v.shape[ax]
        g = reader(ctx, v)

        def get(idx):
            i = idx[ax] - s
            if not ctx.decide(ge0(i)):
                i = i + n
                if not ctx.decide(ge0(i)):
                    raise Unsupported('np.roll by more than the length')
            if not ctx.decide(lt(i, n)):
                i = i - n
                if not ctx.decide(lt(i, n)):
                    raise Unsupported('np.roll by more than the length')
            j = list(idx)
            j[ax] = i
            return g(j)
        return fnarr(ctx, v.shape, dtype(ctx, v), get)

    def np_fft(self, a, k, kind):
        """fft, ifft along one axis, fft2, ifft2 (fftn of two dimensions): `norm` scales; a transform of every axis of
        an array is the transform of that many dimensions"""
        ctx = self.ctx
        k = dict(k)
        two = kind in ('fft2', 'ifft2')
        names = ('s', 'axes', 'norm') if two else ('n', 'axis', 'norm')
        for n, x in zip(names, a[1:]):
            k[n] = x
        if set(k) - set(names) or k.get(names[0]) is not None:
            raise Unsupported('fft with extra arguments')
        v = self.np_asarray(a[0])
        norm = k.get('norm')
        ctx.assumed.add('numpy.fft computes the discrete Fourier transform')
        nd = len(v.shape)
        if two:
            if nd < 2:
                raise PyExc('ValueError')
            axes = k.get('axes')
            axes = (-2, -1) if axes is None else [toint(ctx, x).as_int() for x in self.concrete_items(axes)]
            axes = sorted(x % nd for x in axes)
            if len(axes) != 2 or nd != 2 or axes != [0, 1]:
                raise Unsupported('fft2 over these axes')
        else:
            axes = [toint(ctx, k.get('axis', -1)).as_int() % nd]
        n = ONE
        for x in axes:
            if ctx.decide(eq(v.shape[x], 0)):
                raise PyExc('ValueError', 'Invalid number of FFT data points')
            n = n * v.shape[x]
        inv = kind.startswith('i')
        if two:
            r = fft_nd(ctx, v, kind)
        elif nd == 1:
            r = ifft1(ctx, v) if inv else fft_nd(ctx, v, kind)
        elif nd == 2:
            r = NP.fft_axis(ctx, v, kind, axes[0])
        else:
            raise Unsupported('fft of a %d-d array' % nd)
        if norm in (None, 'backward'):
            return r
        g = reader(ctx, r)
        if norm == 'forward':
            c = n if inv else ONE / n
        elif norm == 'ortho':
            c = sqrt(n) if inv else ONE / sqrt(n)
        else:
            raise Unsupported('fft norm')
        return fnarr(ctx, r.shape, 'c', lambda idx: c * g(idx))

    def np_fftshift(self, a, k, kind):
        v = self.np_asarray(a[0])
        ax = k.get('axes', a[1] if len(a) > 1 else None)
        axes = range(len(v.shape)) if ax is None else [toint(self.ctx, x).as_int() % len(v.shape) for x in ([ax] if isnum(ax) else self.concrete_items(ax))]
        for x in axes:
            h = floordiv(v.shape[x], P(2))
            v = self.np_roll([v, mknum(self.ctx.norm(h if kind == 'fftshift' else -h), 'int')], {'axis': x})
        return v

    def np_fftfreq(self, a, k):
        ctx = self.ctx
        n = toint(ctx, a[0] if a else k['n'])
        d = tonum(a[1] if len(a) > 1 else k.get('d', 1))[0]
        h = floordiv(n + 1, P(2))
        return fnarr(ctx, (n,), 'f', lambda idx: (idx[0] if ctx.decide(lt(idx[0], h)) else idx[0] - n) / (n * d))

    def np_normal(self, a, k):
        ctx = self.ctx
        names = ('loc', 'scale', 'size')
        v = dict(zip(names, a))
        v.update(k)
        mu = tonum(v.get('loc', 0))[0]
        sg = tonum(v.get('scale', 1))[0]
        if 'size' not in v or v['size'] is None:
            sh = ()
        else:
            sh = to_shape(ctx, v['size'])
            check_shape(ctx, sh)
        i = ctx.newid()
        nm = 'normal%d' % i
        ctx.heap['draws'] = ctx.heap.get('draws', ()) + ((nm, mu, sg, sh),)
        loc = [P(atom(x)) for x in sorted(local_ids(ctx))]
        if not sh:
            return Num(mu + sg * app(nm, loc), 'float')
        b = AppBase(nm, False, loc)
        return fnarr(ctx, sh, 'f', lambda idx: mu + sg * b.get(ctx, idx))


def is_generator(fn):
    g = getattr(fn, 'is_gen', None)
    if g is None:
        todo, g = list(fn.body), False
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                g = True
            todo.extend(ast.iter_child_nodes(n))
        fn.is_gen = g
    return g


def np_power(ctx, a, b):
    if isinstance(b, Arr):
        raise Unsupported('array exponent')
    sh, g, k = as_operand(ctx, a)
    pb, kb = tonum(b)
    kk = num_binop_kind('**', k, kb)
    return fnarr(ctx, sh, K2DT[kk], lambda idx: num_binop(ctx, '**', g(idx), k, pb, kb)[0])


def mkbool(c):
    if c.op == 'T':
        return True
    if c.op == 'F':
        return False
    return SymBool(c)


def lit(x):
    """exact decimal reading of a float literal"""
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('inf/nan literal')
    return Fraction(repr(x))


def sparts(s):
    return [s] if isinstance(s, str) else list(s.parts)


def mkstr(parts):
    out = []
    for p in parts:
        if not isinstance(p, str):
            v = p[1]
            if isinstance(v, str) and p[2] in ('', 's'):
                p = v
            elif isinstance(v, int) and not isinstance(v, bool) and p[2] in ('', 'd'):
                p = str(v)
            elif isinstance(v, SymStr) and p[2] in ('', 's'):
                out.extend(v.parts)
                continue
        out.append(p)
    s = SymStr(out)
    if all(isinstance(p, str) for p in s.parts):
        return ''.join(s.parts)
    return s


def str_format(s, args, kw):
    import string
    if not isinstance(s, str):
        raise Unsupported('format of a symbolic string')
    parts = []
    auto = 0
    for text, field, spec, conv in string.Formatter().parse(s):
        if text:
            parts.append(text)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            if int(field) >= len(args):
                raise PyExc('IndexError')
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise Unsupported('format field ' + field)
        parts.append(('v', v, (('!' + conv) if conv else '') + (spec or '')))
    return mkstr(parts)


def strmod(s, v):
    import re
    vals = list(v) if isinstance(v, tuple) else [v]
    if not isinstance(s, str):
        return mkstr([('v', s, '')])
    parts = []
    pos = 0
    for m in re.finditer(r'%(?:%|([-+ 0#]*\d*(?:\.\d+)?)([diouxXeEfFgGrs]))', s):
        parts.append(s[pos:m.start()])
        pos = m.end()
        if m.group(0) == '%%':
            parts.append('%')
            continue
        if not vals:
            raise PyExc('TypeError', 'not enough arguments')
        x = vals.pop(0)
        sp = (m.group(1) or '') + ('' if m.group(2) in 'dis' and not m.group(1) else m.group(2))
        parts.append(('v', x, sp))
    parts.append(s[pos:])
    if vals:
        raise PyExc('TypeError', 'not all arguments converted')
    return mkstr(parts)


def str_split(s, sep):
    if isinstance(s, str):
        return s.split(sep) if sep is not None else s.split()
    out = [[]]
    for p in s.parts:
        if isinstance(p, str):
            if sep is None:
                raise Unsupported('split()')
            bits = p.split(sep)
            out[-1].append(bits[0])
            for b in bits[1:]:
                out.append([b])
        else:
            out[-1].append(p)
    return [mkstr(x) for x in out]


def str_strip(s, n):
    if isinstance(s, str):
        return getattr(s, n)()
    ps = list(s.parts)
    if n in ('strip', 'lstrip') and isinstance(ps[0], str):
        ps[0] = ps[0].lstrip()
    if n in ('strip', 'rstrip') and isinstance(ps[-1], str):
        ps[-1] = ps[-1].rstrip()
    return mkstr(ps)


def str_differ(a, b):
    """a literal with a letter that no formatted number has, or without a character of the formatted string"""
    if not isinstance(a, str) or not isinstance(b, SymStr):
        return False
    lit = ''.join(p for p in b.parts if isinstance(p, str))
    if not all(c in a for c in lit):
        return True
    return all(isinstance(p, str) or isnum(p[1]) for p in b.parts) and \
        any(c not in lit and c not in '0123456789.+-eEinfaINFA j()' for c in a)


def float_spec_exact(spec, kind):
    import re
    if kind in ('int', 'npint'):
        return spec in ('', 'd')
    if spec in ('', '!r', 'r'):
        return True
    m = re.match(r'^[ +-]?0?\d*\.(\d+)([eEgG])$', spec)
    if m:
        d = int(m.group(1))
        return d >= 16 if m.group(2) in 'eE' else d >= 17
    return False


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
       ast.Pow: '**', ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
OPNAME = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '@': 'matmul',
          '&': 'and', '|': 'or', '^': 'xor', '<<': 'lshift', '>>': 'rshift'}
