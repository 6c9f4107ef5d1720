"""Front end for the C routines: preprocess (gcc -E), parse (pycparser) and translate mechanically, statement by
statement, into the statement language of the interpreter (python ast).  Nothing is dropped except types (used to
choose the operations) and the value of expression statements; machine integers are mathematical integers.

  *p, p[i], s.r            __ld/__lds (load), __st/__sti (store); every access is checked against its block
  int / and %              __cdiv, __cmod (truncation)
  for (k=a; k<b; k+=c)     for k in range(...) when neither k nor b is changed by the body, else a while loop
"""
import ast, os, subprocess, re
from pycparser import c_parser, c_ast

HERE = os.path.dirname(os.path.abspath(__file__))


class CUnsupported(Exception):
    pass


def preprocess(path):
    r = subprocess.run(['gcc', '-E', '-nostdinc', '-I', os.path.join(HERE, 'fakeinc'), '-I', os.path.dirname(path), path],
                       capture_output=True, text=True)
    if r.returncode:
        raise CUnsupported('preprocessing failed: ' + r.stderr[-500:])
    return r.stdout


INT = ('int', 'long', 'short', 'size_t', 'unsigned', 'char', 'signed')
DBL = ('double', 'float')
MATH = {'sqrt', 'pow', 'fabs', 'cos', 'sin', 'exp', 'floor', 'ceil'}


class Tr(object):
    def __init__(self, tu, general=False):
        self.tu = tu
        self.general = general      # do loops as while loops left by a break
        self.typedef = {}
        self.structs = {}
        self.funcs = {}
        self.state = []             # fields of the FFT state: name, type, count
        self.post = None
        self.rtype = {'abs': 'int', 'labs': 'int', 'malloc': 'void*', 'calloc': 'void*', 'free': 'void', 'memset': 'void', 'memcpy': 'void',
                      'kiss_fft': 'void', 'kiss_fft_alloc': 'cfg'}
        for f in MATH:
            self.rtype[f] = 'double'
        for d in tu.ext:
            if isinstance(d, c_ast.Typedef):
                self.typedef[d.name] = d.type
            elif isinstance(d, c_ast.Decl) and isinstance(d.type, c_ast.Struct) and d.type.name == 'kiss_fft_state' and d.type.decls:
                for x in d.type.decls:
                    if isinstance(x.type, c_ast.ArrayDecl):
                        self.state.append((x.name, self.ctype(x.type.type), self.const(x.type.dim)))
                    else:
                        self.state.append((x.name, self.ctype(x.type), None))
            elif isinstance(d, c_ast.FuncDef):
                self.rtype[d.decl.name] = self.ctype(d.decl.type.type)
                self.funcs[d.decl.name] = d
            elif isinstance(d, c_ast.Decl) and isinstance(d.type, c_ast.FuncDecl):
                self.rtype.setdefault(d.name, self.ctype(d.type.type))

    def const(self, e):
        if isinstance(e, c_ast.Constant) and 'int' in e.type:
            return int(e.value.rstrip('uUlL'), 0)
        if isinstance(e, c_ast.BinaryOp) and e.op in '+-*':
            a, b = self.const(e.left), self.const(e.right)
            return a + b if e.op == '+' else a - b if e.op == '-' else a * b
        raise CUnsupported('array size')

    def layout(self):
        """offset of each field and the size of the FFT state"""
        off, o = {}, 0
        for n, t, k in self.state:
            size, al = {'int': (4, 4), 'double': (8, 8), 'cpx': (16, 8)}[t]
            o = (o + al - 1) // al * al
            off[n] = o
            o += size * (1 if k is None else k)
        return off, (o + 7) // 8 * 8

    # ------------------------------------------------------------ types
    def ctype(self, t):
        if isinstance(t, c_ast.TypeDecl):
            return self.ctype(t.type)
        if isinstance(t, c_ast.Typename):
            return self.ctype(t.type)
        if isinstance(t, c_ast.PtrDecl):
            u = self.ctype(t.type)
            return 'cfg' if u == 'state' else u + '*'
        if isinstance(t, c_ast.ArrayDecl):
            return self.ctype(t.type) + '[]'
        if isinstance(t, c_ast.IdentifierType):
            n = t.names
            if len(n) == 1 and n[0] in self.typedef:
                return self.ctype(self.typedef[n[0]])
            if any(x in DBL for x in n):
                return 'double'
            if n == ['void']:
                return 'void'
            if all(x in INT or x == 'const' for x in n):
                return 'int'
            raise CUnsupported('type ' + ' '.join(n))
        if isinstance(t, c_ast.Struct):
            if t.name == 'kiss_fft_state':
                return 'state'
            if t.decls is not None:
                m = [(d.name, self.ctype(d.type)) for d in t.decls]
                if m == [('r', 'double'), ('i', 'double')]:
                    return 'cpx'
            raise CUnsupported('struct %s' % t.name)
        if isinstance(t, c_ast.FuncDecl):
            return 'func'
        raise CUnsupported('type %s' % type(t).__name__)

    # ------------------------------------------------------------ module
    def module(self):
        body = []
        for d in self.tu.ext:
            if isinstance(d, c_ast.FuncDef):
                try:
                    body.append(self.func(d))
                except CUnsupported as e:
                    n = d.decl.name
                    body.append(ast.parse('def %s(*a):\n    return __unsupported(%r)' % (n, '%s: %s' % (n, e))).body[0])
            elif isinstance(d, c_ast.Decl) and not isinstance(d.type, (c_ast.FuncDecl, c_ast.Struct)):
                if 'const' in (d.quals or []) and d.init is not None and self.ctype(d.type) in ('int', 'double'):
                    self.vars = {}
                    e, t = self.expr(d.init)
                    body.append(self.at(ast.Assign([ast.Name(d.name, ast.Store())], self.conv(e, t, self.ctype(d.type))), d))
        m = ast.Module(body, [])
        ast.fix_missing_locations(m)
        return m

    def func(self, d):
        self.vars = {}
        self.fn = d
        ps = []
        if d.decl.type.args:
            for p in d.decl.type.args.params:
                if isinstance(p, c_ast.EllipsisParam):
                    raise CUnsupported('variadic')
                t = self.ctype(p.type)
                if t == 'void':
                    continue
                self.vars[p.name] = t
                ps.append(p.name)
        self.ret = self.ctype(d.decl.type.type)
        self.order = []
        self.uses = self.var_uses(d.body)
        self.moved = self.stepped(d.body)       # pointers that are stepped: base p and offset p__o
        self.parts = self.by_parts(d.body)      # complex variables set part by part: two real variables
        self.flat = {}                          # local arrays with constant subscripts: one variable per element
        pre = []
        for p in ps:
            if self.split(p):
                self.parts.discard(p)
            if p in self.moved and self.vars[p].endswith('*'):
                pre.append(self.at(ast.Assign([ast.Name(p + '__o', ast.Store())], ast.Constant(0)), d))
        for p in ps:       # arguments are converted to the parameter types
            if self.vars[p] in ('int', 'double'):
                pre.append(self.at(ast.Assign([ast.Name(p, ast.Store())], self.callf('__to' + self.vars[p], ast.Name(p, ast.Load()))), d))
        body = pre + self.stmt(d.body)
        if not body:
            body = [ast.Pass()]
        args = ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in ps], vararg=None, kwonlyargs=[], kw_defaults=[],
                             kwarg=None, defaults=[])
        return self.at(ast.FunctionDef(d.decl.name, args, body, [], None), d)

    def stepped(self, n):
        out = set()
        for x in self.walk(n):
            if isinstance(x, c_ast.UnaryOp) and x.op in ('p++', '++', 'p--', '--') and isinstance(x.expr, c_ast.ID):
                out.add(x.expr.name)
            if isinstance(x, c_ast.Assignment) and isinstance(x.lvalue, c_ast.ID):
                if x.op in ('+=', '-=') or self.self_step(x) is not None:
                    out.add(x.lvalue.name)
        return out

    def self_step(self, x):
        """p = p + e -> (op, e)"""
        r = x.rvalue
        if x.op == '=' and isinstance(r, c_ast.BinaryOp) and r.op in '+-' and isinstance(r.left, c_ast.ID) and r.left.name == x.lvalue.name:
            return r.op, r.right
        return None

    def by_parts(self, n):
        out = set()
        for x in self.walk(n):
            if isinstance(x, c_ast.Assignment) and isinstance(x.lvalue, c_ast.StructRef) and x.lvalue.type == '.':
                b = x.lvalue.name
                if isinstance(b, c_ast.ID):
                    out.add(b.name)
                elif isinstance(b, c_ast.ArrayRef) and isinstance(b.name, c_ast.ID):
                    out.add(b.name.name)
        return out

    def split(self, n):
        return self.vars.get(n) == 'cpx' and (n in self.parts or n.rsplit('__', 1)[0] in self.parts and n.rsplit('__', 1)[0] in self.flat)

    def undef_parts(self, n):
        return [ast.Assign([ast.Name(n + '__' + x, ast.Store())], self.callf('__undef', ast.Constant('double'))) for x in 'ri']

    def moving(self, n):
        return n in self.moved and self.vars.get(n, '').endswith('*')

    def step(self, n, op, e):
        """p += e for a stepped pointer"""
        o = n + '__o'
        return [ast.Assign([ast.Name(o, ast.Store())], ast.BinOp(ast.Name(o, ast.Load()), ast.Add() if op == '+' else ast.Sub(), e))]

    def at(self, node, c):
        ln = c.coord.line if getattr(c, 'coord', None) else 1
        for x in ast.walk(node):
            if not hasattr(x, 'lineno') and isinstance(x, (ast.expr, ast.stmt)):
                x.lineno = x.end_lineno = ln
                x.col_offset = x.end_col_offset = 0
        if isinstance(node, (ast.expr, ast.stmt)) and not hasattr(node, 'lineno'):
            node.lineno = node.end_lineno = ln
        return node

    # ------------------------------------------------------------ statements
    def block(self, s):
        if s is None:
            return [ast.Pass()]
        return self.stmt(s) or [ast.Pass()]

    def stmt(self, s):
        if s is None:
            return []
        out = getattr(self, 's_' + type(s).__name__, self.s_bad)(s)
        for x in out:
            self.at(x, s)
        return out

    def s_bad(self, s):
        raise CUnsupported('statement %s (line %s)' % (type(s).__name__, s.coord.line if s.coord else '?'))

    def s_Compound(self, s):
        out = []
        for x in s.block_items or []:
            out += self.stmt(x)
        return out

    def s_EmptyStatement(self, s):
        return []

    def s_Pragma(self, s):
        return []

    def s_DeclList(self, s):
        out = []
        for d in s.decls:
            out += self.stmt(d)
        return out

    def s_Decl(self, s):
        t = self.ctype(s.type)
        if t.endswith('[]'):
            return self.local_array(s, t[:-2])
        if s.name in self.vars and self.vars[s.name] != t:
            raise CUnsupported('variable %s redeclared with another type' % s.name)
        self.vars[s.name] = t
        if 'static' in (s.storage or []):
            raise CUnsupported('static local')
        if t == 'cpx' and s.name in self.parts:
            out = self.undef_parts(s.name)
            return out if s.init is None else out + self.flushed(lambda: self.store(c_ast.ID(s.name), *self.expr(s.init)), s)
        if s.init is None:
            if t == 'cpx':
                return [ast.Assign([ast.Name(s.name, ast.Store())], self.callf('__undef', ast.Constant('cpx')))]
            return []
        return self.flushed(lambda: self.store(c_ast.ID(s.name), *self.expr(s.init)), s)

    def flushed(self, f, s):
        """statement whose right-hand sides may contain p++: the steps follow it"""
        old, self.post = self.post, []
        try:
            out = f()
            for n, op in self.post:
                if len(set(self.post)) != len(self.post) or sum(1 for x in self.walk(s) if isinstance(x, c_ast.ID) and x.name == n) != 1:
                    raise CUnsupported('stepped variable used twice in a statement')
                if self.moving(n):
                    out = out + self.step(n, op, ast.Constant(1))
                else:
                    out = out + [ast.Assign([ast.Name(n, ast.Store())], ast.BinOp(ast.Name(n, ast.Load()), ast.Add() if op == '+' else ast.Sub(), ast.Constant(1)))]
            return out
        finally:
            self.post = old

    def local_array(self, s, et):
        if s.init is not None or et not in ('int', 'double', 'cpx') or 'static' in (s.storage or []):
            raise CUnsupported('local array')
        k = self.const(s.type.dim)
        refs = {id(x.name): x for x in self.walk(self.fn.body) if isinstance(x, c_ast.ArrayRef) and isinstance(x.name, c_ast.ID) and x.name.name == s.name}
        uses = [x for x in self.walk(self.fn.body) if isinstance(x, c_ast.ID) and x.name == s.name]
        if s.name in self.vars or s.name in self.flat:
            raise CUnsupported('variable %s declared twice' % s.name)
        if all(id(x) in refs and isinstance(refs[id(x)].subscript, c_ast.Constant) and self.const(refs[id(x)].subscript) < k for x in uses):
            self.flat[s.name] = et
            out = []
            for i in range(k):
                n = '%s__%d' % (s.name, i)
                self.vars[n] = et
                if self.split(n):
                    out += self.undef_parts(n)
                    continue
                out.append(ast.Assign([ast.Name(n, ast.Store())], self.callf('__undef', ast.Constant(et))))
            return out
        self.vars[s.name] = et + '*'
        return [ast.Assign([ast.Name(s.name, ast.Store())], self.callf('__local', ast.Constant(k), ast.Constant(et)))]

    def unflat(self, e):
        """element of a local array with constant subscripts -> its variable"""
        if isinstance(e, c_ast.ArrayRef) and isinstance(e.name, c_ast.ID) and e.name.name in self.flat:
            return c_ast.ID('%s__%d' % (e.name.name, self.const(e.subscript)), e.coord)
        return e

    def s_Switch(self, s):
        """cases that end in break or return"""
        if not isinstance(s.stmt, c_ast.Compound):
            raise CUnsupported('switch')
        e, t = self.expr(s.cond)
        n = '__sw%d' % s.coord.line
        out = [ast.Assign([ast.Name(n, ast.Store())], e)]
        groups, labels = [], []
        for c in s.stmt.block_items or []:
            if not isinstance(c, (c_ast.Case, c_ast.Default)):
                raise CUnsupported('switch')
            labels.append(None if isinstance(c, c_ast.Default) else self.const(c.expr))
            st = list(c.stmts or [])
            if len(st) == 1 and isinstance(st[0], c_ast.Compound):
                st = list(st[0].block_items or [])
            if not st:
                continue
            groups.append((labels, st))
            labels = []
        chain = []
        for i, (ls, st) in reversed(list(enumerate(groups))):
            last = st[-1]
            if isinstance(last, c_ast.Break):
                st = st[:-1]
            elif not isinstance(last, c_ast.Return) and i != len(groups) - 1:
                raise CUnsupported('switch case that falls through')
            if any(isinstance(y, c_ast.Break) for x in st for y in self.own(x)):
                raise CUnsupported('break inside a switch case')
            body = []
            for x in st:
                body += self.stmt(x)
            if None in ls:
                if i != len(groups) - 1:
                    raise CUnsupported('default before other cases')
                chain = body or [ast.Pass()]
                continue
            c = [ast.Compare(ast.Name(n, ast.Load()), [ast.Eq()], [ast.Constant(v)]) for v in ls]
            chain = [ast.If(c[0] if len(c) == 1 else ast.BoolOp(ast.Or(), c), body or [ast.Pass()], chain)]
        return out + chain

    def s_Return(self, s):
        if s.expr is None:
            return [ast.Return(None)]
        e, t = self.expr(s.expr)
        return [ast.Return(self.conv(e, t, self.ret))]

    def s_If(self, s):
        w = self.wrap(s)
        if w is not None:
            return w
        return [ast.If(self.cond(s.cond), self.block(s.iftrue), self.stmt(s.iffalse) if s.iffalse else [])]

    def wrap(self, s):
        """if (x >= N) x -= N;  ->  x = __wrap(x, N)"""
        b = s.iftrue
        if isinstance(b, c_ast.Compound) and len(b.block_items or []) == 1:
            b = b.block_items[0]
        c = s.cond
        if s.iffalse is not None or not isinstance(c, c_ast.BinaryOp) or not isinstance(b, c_ast.Assignment) or not isinstance(b.lvalue, c_ast.ID):
            return None
        x = b.lvalue.name
        if c.op == '>=' and isinstance(c.left, c_ast.ID) and c.left.name == x:
            n = c.right
        elif c.op == '<=' and isinstance(c.right, c_ast.ID) and c.right.name == x:
            n = c.left
        else:
            return None
        st = ('-', b.rvalue) if b.op == '-=' else self.self_step(b)
        if self.vars.get(x) != 'int' or st is None or st[0] != '-' or not isinstance(st[1], c_ast.ID) or not isinstance(n, c_ast.ID) \
                or st[1].name != n.name or n.name == x or self.vars.get(n.name) != 'int':
            return None
        return [ast.Assign([ast.Name(x, ast.Store())], self.callf('__wrap', ast.Name(x, ast.Load()), ast.Name(n.name, ast.Load())))]

    def s_Break(self, s):
        return [ast.Break()]

    def s_Continue(self, s):
        return [ast.Continue()]

    def s_While(self, s):
        b = self.last_step(s)
        r = b and self.ptr_loop(s.cond, b[0], b[1], s.coord.line, '__trips0')
        if r:
            return r
        return [ast.While(self.cond(s.cond), self.block(s.stmt), [])]

    def s_DoWhile(self, s):
        if any(isinstance(x, c_ast.Break) for x in self.own(s.stmt)) or any(isinstance(x, c_ast.Continue) for x in self.walk(s.stmt)):
            raise CUnsupported('do loop with break')
        if isinstance(s.cond, c_ast.Constant) and s.cond.value == '0':
            return self.block(s.stmt)
        b = self.last_step(s)
        r = self.do_range(s) or b and self.ptr_loop(s.cond, b[0], b[1], s.coord.line, '__trips')
        if r:
            return r
        if self.general:
            return [ast.While(ast.Constant(True), self.block(s.stmt) + [ast.If(ast.UnaryOp(ast.Not(), self.cond(s.cond)), [ast.Break()], [])], [])]
        return self.block(s.stmt) + [ast.While(self.cond(s.cond), self.block(s.stmt), [])]

    def do_range(self, s):
        """do B while (--k)  and  do B while ((p += e) != end): the number of iterations is an obligation"""
        c = s.cond
        ch = self.assigned(s.stmt) | self.stepped(s.stmt)
        L = s.coord.line
        N = lambda n: ast.Name(n, ast.Load())
        cn, tn, kn = '__n%d' % L, '__t%d' % L, '__k%d' % L
        if isinstance(c, c_ast.BinaryOp) and c.op in ('!=', '>') and isinstance(c.right, c_ast.Constant) and c.right.value == '0':
            c = c.left
        if isinstance(c, c_ast.UnaryOp) and c.op == '--' and isinstance(c.expr, c_ast.ID) and self.vars.get(c.expr.name) == 'int':
            k = c.expr.name
            if k in ch:
                return None
            body = []
            if any(isinstance(x, c_ast.ID) and x.name == k for x in self.walk(s.stmt)):
                body.append(ast.Assign([ast.Name(k, ast.Store())], ast.BinOp(N(cn), ast.Sub(), N(tn))))
            body += self.block(s.stmt)
            return [ast.Assign([ast.Name(cn, ast.Store())], self.callf('__atleast1', N(k))),
                    ast.For(ast.Name(tn, ast.Store()), self.callf('range', N(cn)), body, []),
                    ast.Assign([ast.Name(k, ast.Store())], ast.Constant(0))]
        if not (isinstance(c, c_ast.BinaryOp) and c.op == '!=' and isinstance(c.right, c_ast.ID)):
            return None
        l, e = c.left, c.right.name
        if isinstance(l, c_ast.UnaryOp) and l.op in ('++', '--') and isinstance(l.expr, c_ast.ID):
            p, op, st = l.expr.name, l.op[0], c_ast.Constant('int', '1')
        elif isinstance(l, c_ast.Assignment) and isinstance(l.lvalue, c_ast.ID) and l.op in ('+=', '-='):
            p, op, st = l.lvalue.name, l.op[0], l.rvalue
        else:
            return None
        if not self.moving(p) or p in ch or e in ch or self.moving(e) or e == p:
            return None
        if any(not isinstance(x, (c_ast.ID, c_ast.Constant, c_ast.BinaryOp)) or isinstance(x, c_ast.ID) and x.name in ch | {p} for x in self.walk(st)):
            return None
        se, ts = self.rval(st)
        if ts != 'int':
            return None
        if op == '-':
            se = ast.UnaryOp(ast.USub(), se)
        out = [ast.Assign([ast.Name(kn, ast.Store())], se),
               ast.Assign([ast.Name(cn, ast.Store())], self.callf('__trips', self.expr(c_ast.ID(p))[0], self.expr(c_ast.ID(e))[0], N(kn)))]
        return out + [ast.For(ast.Name(tn, ast.Store()), self.callf('range', N(cn)), self.block(s.stmt) + self.step(p, '+', N(kn)), [])]

    def step_of(self, x):
        """p++, p += e, p = p + e on a stepped pointer -> (p, op, e)"""
        if isinstance(x, c_ast.UnaryOp) and x.op in ('p++', '++', 'p--', '--') and isinstance(x.expr, c_ast.ID):
            r = x.expr.name, x.op[-1], c_ast.Constant('int', '1')
        elif isinstance(x, c_ast.Assignment) and isinstance(x.lvalue, c_ast.ID) and x.op in ('+=', '-='):
            r = x.lvalue.name, x.op[0], x.rvalue
        elif isinstance(x, c_ast.Assignment) and isinstance(x.lvalue, c_ast.ID) and x.op == '=' and self.self_step(x):
            r = (x.lvalue.name,) + tuple(self.self_step(x))
        else:
            return None
        return r if self.moving(r[0]) else None

    def ptr_loop(self, cond, body, step, L, fn):
        """for (; p != end; p += e) and the forms equivalent to it; the number of iterations is an obligation"""
        if not (isinstance(cond, c_ast.BinaryOp) and cond.op in ('!=', '<', '>') and isinstance(cond.left, c_ast.ID) and isinstance(cond.right, c_ast.ID)):
            return None
        st = self.step_of(step)
        l, r, rel = cond.left.name, cond.right.name, cond.op
        if st is None:
            return None
        if st[0] == r:
            l, r, rel = r, l, {'<': '>', '>': '<'}.get(rel, rel)
        p, op, e = st
        if p != l or l == r or self.moving(r) or rel == '<' and op == '-' or rel == '>' and op == '+':
            return None
        ch = set()
        for x in body:
            ch |= self.assigned(x) | self.stepped(x)
            if any(isinstance(y, (c_ast.Break, c_ast.Continue)) for y in self.own(x)):
                return None
        if p in ch or r in ch:
            return None
        if any(not isinstance(x, (c_ast.ID, c_ast.Constant, c_ast.BinaryOp)) or isinstance(x, c_ast.ID) and x.name in ch | {p} for x in self.walk(e)):
            return None
        se, ts = self.rval(e)
        if ts != 'int':
            return None
        N = lambda n: ast.Name(n, ast.Load())
        cn, tn, kn = '__n%d' % L, '__t%d' % L, '__k%d' % L
        if op == '-':
            se = ast.UnaryOp(ast.USub(), se)
        stm = []
        for x in body:
            stm += self.stmt(x)
        return [ast.Assign([ast.Name(kn, ast.Store())], se),
                ast.Assign([ast.Name(cn, ast.Store())], self.callf(fn, self.expr(c_ast.ID(p))[0], self.expr(c_ast.ID(r))[0], N(kn))),
                ast.For(ast.Name(tn, ast.Store()), self.callf('range', N(cn)), stm + self.step(p, '+', N(kn)), [])]

    def last_step(self, s):
        """the statements of a loop body whose last one steps the pointer"""
        b = s.stmt.block_items if isinstance(s.stmt, c_ast.Compound) else [s.stmt]
        return (b[:-1], b[-1]) if b and self.step_of(b[-1]) is not None else None

    def s_For(self, s):
        out = []
        init = s.init
        inits = init.decls if isinstance(init, c_ast.DeclList) else (init.exprs if isinstance(init, c_ast.ExprList) else [init] if init is not None else [])
        r = self.range_loop(s, inits)
        if r is not None:
            return r
        for i in inits:
            out += self.stmt(i)
        if s.cond is not None and s.next is not None and not isinstance(s.next, c_ast.ExprList):
            r = self.ptr_loop(s.cond, [s.stmt], s.next, s.coord.line, '__trips0')
            if r is not None:
                return out + r
        if any(isinstance(x, c_ast.Continue) for x in self.walk(s.stmt)):
            raise CUnsupported('continue in a general for loop')
        step = []
        if s.next is not None:
            step = self.stmt_expr(s.next)
        out.append(ast.While(self.cond(s.cond) if s.cond is not None else ast.Constant(True), self.block(s.stmt) + step, []))
        return out

    def range_loop(self, s, inits):
        if not inits or s.cond is None or s.next is None:
            return None
        # the loop variable: the one stepped by s.next
        st = s.next
        if isinstance(st, c_ast.UnaryOp) and st.op in ('p++', '++', 'p--', '--') and isinstance(st.expr, c_ast.ID):
            k, step = st.expr.name, 1 if '+' in st.op else -1
        elif isinstance(st, c_ast.Assignment) and isinstance(st.lvalue, c_ast.ID):
            k = st.lvalue.name
            if st.op in ('+=', '-=') and isinstance(st.rvalue, c_ast.Constant):
                step = int(st.rvalue.value) * (1 if st.op == '+=' else -1)
            elif st.op == '=' and isinstance(st.rvalue, c_ast.BinaryOp) and st.rvalue.op in '+-' and isinstance(st.rvalue.left, c_ast.ID) \
                    and st.rvalue.left.name == k and isinstance(st.rvalue.right, c_ast.Constant):
                step = int(st.rvalue.right.value) * (1 if st.rvalue.op == '+' else -1)
            else:
                return None
        else:
            return None
        if step == 0:
            return None
        last = inits[-1]
        if isinstance(last, c_ast.Decl):
            if last.name != k or last.init is None:
                return None
            start = last.init
            self.vars[k] = self.ctype(last.type)
        elif isinstance(last, c_ast.Assignment) and last.op == '=' and isinstance(last.lvalue, c_ast.ID) and last.lvalue.name == k:
            start = last.rvalue
        else:
            return None
        if self.vars.get(k) != 'int':
            return None
        c = s.cond
        if not isinstance(c, c_ast.BinaryOp) or not isinstance(c.left, c_ast.ID) or c.left.name != k:
            return None
        if c.op not in (('<', '<=') if step > 0 else ('>', '>=')):
            return None
        ch = self.assigned(s.stmt)
        if k in ch:
            return None
        for x in self.walk(c.right):
            if isinstance(x, c_ast.ID) and (x.name in ch or x.name == k):
                return None
            if isinstance(x, (c_ast.UnaryOp, c_ast.Assignment)) and (isinstance(x, c_ast.Assignment) or x.op in ('*', 'p++', '++', 'p--', '--')):
                return None
            if isinstance(x, c_ast.ArrayRef) or isinstance(x, c_ast.FuncCall) and x.name.name not in MATH | {'abs'}:
                return None
        out = []
        for i in inits[:-1]:
            out += self.stmt(i)
        a, ta = self.expr(start)
        a = self.conv(a, ta, 'int')
        b, tb = self.expr(c.right)
        if tb == 'double':
            b = self.callf('__integral', b)        # comparison of an int with a floating value that is an integer
        if c.op in ('<=', '>='):
            b = ast.BinOp(b, ast.Add(), ast.Constant(1 if c.op == '<=' else -1))
        an, bn = '__a%d' % s.coord.line, '__b%d' % s.coord.line
        out.append(ast.Assign([ast.Name(an, ast.Store())], a))
        out.append(ast.Assign([ast.Name(bn, ast.Store())], b))
        N = lambda n: ast.Name(n, ast.Load())
        rng = self.callf('range', N(an), N(bn), ast.Constant(step))
        out.append(ast.For(ast.Name(k, ast.Store()), rng, self.block(s.stmt), []))
        brk = any(isinstance(x, c_ast.Break) for x in self.own(s.stmt))
        if not isinstance(last, c_ast.Decl) and self.outside(k):
            if brk:
                raise CUnsupported('value of %s after a loop with break' % k)
            out.append(ast.Assign([ast.Name(k, ast.Store())], self.callf('__after', N(an), N(bn), ast.Constant(step))))
        return out

    def outside(self, k):
        """is variable k read outside the for loops that start by setting it?"""
        def visit(n):
            if isinstance(n, c_ast.For):
                i = n.init
                if isinstance(i, c_ast.Assignment) and isinstance(i.lvalue, c_ast.ID) and i.lvalue.name == k and i.op == '=':
                    return visit(i.rvalue)
            if isinstance(n, c_ast.ID):
                return n.name == k
            return any(visit(x) for _, x in n.children())
        return visit(self.fn.body)

    def own(self, n):
        yield n
        for _, x in n.children():
            if not isinstance(x, (c_ast.For, c_ast.While, c_ast.DoWhile, c_ast.Switch)):
                for y in self.own(x):
                    yield y

    def walk(self, n):
        yield n
        for _, x in n.children():
            for y in self.walk(x):
                yield y

    def var_uses(self, n):
        return [x.name for x in self.walk(n) if isinstance(x, c_ast.ID)]

    def assigned(self, n):
        out = set()
        for x in self.walk(n):
            if isinstance(x, c_ast.Assignment) and isinstance(x.lvalue, c_ast.ID):
                out.add(x.lvalue.name)
            if isinstance(x, c_ast.UnaryOp) and x.op in ('p++', '++', 'p--', '--', '&') and isinstance(x.expr, c_ast.ID):
                out.add(x.expr.name)
            if isinstance(x, c_ast.Assignment) and isinstance(x.lvalue, c_ast.StructRef) and isinstance(x.lvalue.name, c_ast.ID):
                out.add(x.lvalue.name.name)
            if isinstance(x, c_ast.Decl) and x.init is not None:
                out.add(x.name)
        return out

    # expression statements
    def s_Assignment(self, s):
        return self.stmt_expr(s)

    def s_UnaryOp(self, s):
        return self.stmt_expr(s)

    def s_FuncCall(self, s):
        return self.stmt_expr(s)

    def s_ExprList(self, s):
        out = []
        for e in s.exprs:
            out += self.stmt_expr(e)
        return out

    def s_Cast(self, s):
        return self.stmt_expr(s.expr) if not isinstance(s.expr, (c_ast.ID, c_ast.Constant)) else []

    def s_ID(self, s):
        return []

    def s_Constant(self, s):
        return []

    def s_BinaryOp(self, s):
        return [ast.Expr(self.expr(s)[0])]

    def stmt_expr(self, s):
        if isinstance(s, c_ast.ExprList):
            return self.s_ExprList(s)
        if isinstance(s, c_ast.UnaryOp) and s.op in ('p++', '++', 'p--', '--'):
            if isinstance(s.expr, c_ast.ID) and self.moving(s.expr.name):
                return self.step(s.expr.name, s.op[-1], ast.Constant(1))
            return self.assign(s.expr, c_ast.BinaryOp('+' if '+' in s.op else '-', s.expr, c_ast.Constant('int', '1')), s)
        if isinstance(s, c_ast.Assignment):
            if isinstance(s.rvalue, c_ast.Assignment):         # a = b = e
                return self.stmt_expr(s.rvalue) + self.stmt_expr(c_ast.Assignment(s.op, s.lvalue, s.rvalue.lvalue, s.coord))
            r = s.rvalue
            if isinstance(s.lvalue, c_ast.ID) and self.moving(s.lvalue.name) and (s.op in ('+=', '-=') or self.self_step(s)):
                op, r = (s.op[0], r) if s.op != '=' else self.self_step(s)
                e, t = self.rval(r)
                if t != 'int':
                    raise CUnsupported('pointer step')
                return self.step(s.lvalue.name, op, e)
            if s.op != '=':
                r = c_ast.BinaryOp(s.op[:-1], s.lvalue, s.rvalue, s.coord)
            return self.assign(s.lvalue, r, s)
        e, t = self.expr(s)
        return [ast.Expr(e)]

    def assign(self, lv, rv, s):
        return self.flushed(lambda: self.store(lv, *self.expr(rv)), s)

    def store(self, lv, e, t):
        lv = self.unflat(lv)
        if isinstance(lv, c_ast.ID) and self.moving(lv.name):
            return [ast.Assign([ast.Name(lv.name, ast.Store())], self.conv(e, t, self.vars[lv.name])),
                    ast.Assign([ast.Name(lv.name + '__o', ast.Store())], ast.Constant(0))]
        if isinstance(lv, c_ast.ID) and self.split(lv.name):
            n = lv.name
            e = self.conv(e, t, 'cpx')
            w = ast.Name(n + '__w', ast.Load())
            return [ast.Assign([ast.Name(n + '__w', ast.Store())], e)] + \
                   [ast.Assign([ast.Name(n + '__' + x, ast.Store())], self.callf('__get' + x, w)) for x in 'ri']
        f = self.field(lv)
        if f is not None:
            st, n, ft = f
            if ft not in ('int', 'double'):
                raise CUnsupported('assignment to field ' + n)
            return [ast.Expr(self.callf('__setfield', st, ast.Constant(n), self.conv(e, t, ft)))]
        if isinstance(lv, c_ast.ID):
            if lv.name not in self.vars:
                raise CUnsupported('assignment to global ' + lv.name)
            return [ast.Assign([ast.Name(lv.name, ast.Store())], self.conv(e, t, self.vars[lv.name]))]
        if isinstance(lv, (c_ast.ArrayRef, c_ast.UnaryOp)):
            p, i, et = self.address(lv)
            return [ast.Expr(self.callf('__st', p, i, self.conv(e, t, et)))]
        if isinstance(lv, c_ast.StructRef):
            part = lv.field.name
            if part not in ('r', 'i'):
                raise CUnsupported('field ' + part)
            e = self.conv(e, t, 'double')
            base = self.unflat(lv.name)
            if lv.type == '.' and isinstance(base, c_ast.ID):
                n = base.name
                if self.vars.get(n) != 'cpx':
                    raise CUnsupported('field of ' + n)
                if self.split(n):
                    return [ast.Assign([ast.Name(n + '__' + part, ast.Store())], e)]
                return [ast.Assign([ast.Name(n, ast.Store())],
                                   self.callf('__set' + part, ast.Name(n, ast.Load()), e))]
            if lv.type == '.':
                p, i, et = self.address(lv.name)
            else:
                p, i, et = self.pointer(lv.name)
            if et != 'cpx':
                raise CUnsupported('field of a number')
            return [ast.Expr(self.callf('__st' + part, p, i, e))]
        raise CUnsupported('assignment target %s' % type(lv).__name__)

    # ------------------------------------------------------------ expressions
    def callf(self, f, *a):
        return ast.Call(ast.Name(f, ast.Load()), list(a), [])

    def conv(self, e, t, to):
        if t == to or to == 'void':
            return e
        if to == 'int' and t == 'double':
            return self.callf('__toint', e)
        if to == 'double' and t == 'int':
            return self.callf('__todouble', e)
        if to.endswith('*') and t == 'void*':
            return self.callf('__cast', e, ast.Constant(to[:-1]))
        if t.endswith('*') and to == 'void*':
            return e
        if to == 'cfg' and t == 'void*':
            return self.callf('__tocfg', e)
        if to == 'cfg' and t == 'int':
            return e
        if to.endswith('*') and t == 'int':
            return e
        raise CUnsupported('conversion %s -> %s' % (t, to))

    def cond(self, c):
        if isinstance(c, c_ast.BinaryOp) and c.op in ('&&', '||'):
            return ast.BoolOp(ast.And() if c.op == '&&' else ast.Or(), [self.cond(c.left), self.cond(c.right)])
        if isinstance(c, c_ast.UnaryOp) and c.op == '!':
            return ast.UnaryOp(ast.Not(), self.cond(c.expr))
        e, t = self.expr(c)
        if t == 'bool':
            return e
        if t in ('int', 'double'):
            return ast.Compare(e, [ast.NotEq()], [ast.Constant(0)])
        return self.callf('__nonnull', e)

    CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq}

    def expr(self, e):
        r, t = self.expr0(e)
        return self.at(r, e), t

    def rval(self, e):
        """expression with comparisons turned into ints"""
        r, t = self.expr(e)
        if t == 'bool':
            return ast.IfExp(r, ast.Constant(1), ast.Constant(0)), 'int'
        return r, t

    def field(self, e):
        """field of the FFT state -> (state, name, type)"""
        if isinstance(e, c_ast.StructRef) and e.type == '->' and e.field.name not in ('r', 'i'):
            st, t = self.expr(e.name)
            for n, ft, k in self.state:
                if t == 'cfg' and n == e.field.name:
                    return st, n, ft if k is None else ft + '*'
        return None

    def expr0(self, e):
        e = self.unflat(e)
        f = self.field(e)
        if f is not None:
            return self.callf('__field', f[0], ast.Constant(f[1])), f[2]
        if isinstance(e, c_ast.Constant):
            if e.type in ('int', 'long int', 'unsigned int', 'long', 'unsigned long int'):
                return ast.Constant(int(e.value.rstrip('uUlL'), 0)), 'int'
            if e.type in ('double', 'float'):
                v = e.value.rstrip('fFlL')
                import math
                if float(v) == math.pi:
                    return ast.Name('__pi', ast.Load()), 'double'
                return ast.Constant(float(v)), 'double'
            raise CUnsupported('constant ' + e.type)
        if isinstance(e, c_ast.ID):
            if e.name == 'NULL':
                return ast.Constant(0), 'int'
            if self.moving(e.name):
                return self.callf('__padd', ast.Name(e.name, ast.Load()), ast.Name(e.name + '__o', ast.Load())), self.vars[e.name]
            if self.split(e.name):
                return self.callf('__mkc', ast.Name(e.name + '__r', ast.Load()), ast.Name(e.name + '__i', ast.Load())), 'cpx'
            return ast.Name(e.name, ast.Load()), self.vars.get(e.name) or self.globals_type(e.name)
        if isinstance(e, c_ast.BinaryOp):
            if e.op in ('&&', '||'):
                return self.cond(e), 'bool'
            a, ta = self.rval(e.left)
            b, tb = self.rval(e.right)
            if e.op in self.CMP:
                if ta.endswith('*') or tb.endswith('*'):
                    f = self.callf('__ptreq', a, b)
                    if e.op == '==':
                        return f, 'bool'
                    if e.op == '!=':
                        return ast.UnaryOp(ast.Not(), f), 'bool'
                    raise CUnsupported('pointer order')
                return ast.Compare(a, [self.CMP[e.op]()], [b]), 'bool'
            if e.op in '+-' and (ta.endswith('*') or tb.endswith('*')):
                if ta.endswith('*') and tb == 'int':
                    return self.callf('__padd', a, b if e.op == '+' else ast.UnaryOp(ast.USub(), b)), ta
                if tb.endswith('*') and ta == 'int' and e.op == '+':
                    return self.callf('__padd', b, a), tb
                raise CUnsupported('pointer arithmetic')
            if ta not in ('int', 'double') or tb not in ('int', 'double'):
                raise CUnsupported('operator %s on %s, %s' % (e.op, ta, tb))
            t = 'double' if 'double' in (ta, tb) else 'int'
            if e.op in '+-*':
                return ast.BinOp(a, {'+': ast.Add, '-': ast.Sub, '*': ast.Mult}[e.op](), b), t
            if e.op == '/':
                if t == 'int':
                    return self.callf('__cdiv', a, b), t
                return ast.BinOp(a, ast.Div(), b), t
            if t == 'int' and e.op == '%':
                return self.callf('__cmod', a, b), t
            if t == 'int' and e.op == '&' and isinstance(e.right, c_ast.Constant) and e.right.value == '1':
                return ast.BinOp(a, ast.Mod(), ast.Constant(2)), t
            if t == 'int' and e.op == '<<' and isinstance(e.right, c_ast.Constant):
                return ast.BinOp(a, ast.Mult(), ast.Constant(2 ** int(e.right.value))), t
            if t == 'int' and e.op == '>>' and isinstance(e.right, c_ast.Constant):
                return ast.BinOp(a, ast.FloorDiv(), ast.Constant(2 ** int(e.right.value))), t
            raise CUnsupported('operator ' + e.op)
        if isinstance(e, c_ast.UnaryOp):
            if e.op == 'sizeof':
                t = self.ctype(e.expr.type) if isinstance(e.expr, c_ast.Typename) else self.expr(e.expr)[1]
                return self.sizeof(t), 'int'
            if e.op == '*':
                p, i, t = self.address(e)
                return self.callf('__ld', p, i), t
            if e.op == '&':
                if isinstance(e.expr, c_ast.ArrayRef):
                    p, i, t = self.address(e.expr)
                    return self.callf('__padd', p, i), t + '*'
                raise CUnsupported('address of a variable')
            if e.op in ('-', '+'):
                a, t = self.rval(e.expr)
                if t not in ('int', 'double'):
                    raise CUnsupported('unary minus')
                return (ast.UnaryOp(ast.USub(), a) if e.op == '-' else a), t
            if e.op == '!':
                return self.cond(e), 'bool'
            if e.op in ('p++', 'p--') and isinstance(e.expr, c_ast.ID) and self.post is not None:
                self.post.append((e.expr.name, e.op[-1]))
                return self.expr(e.expr)
            raise CUnsupported('operator ' + e.op)
        if isinstance(e, c_ast.ArrayRef):
            p, i, t = self.address(e)
            return self.callf('__ld', p, i), t
        if isinstance(e, c_ast.StructRef):
            part = e.field.name
            if part not in ('r', 'i'):
                raise CUnsupported('field ' + part)
            base = self.unflat(e.name)
            if e.type == '.' and isinstance(base, c_ast.ID) and self.split(base.name):
                return ast.Name(base.name + '__' + part, ast.Load()), 'double'
            if e.type == '.' and isinstance(base, c_ast.ID):
                return self.callf('__get' + part, ast.Name(base.name, ast.Load())), 'double'
            p, i, t = self.address(e.name) if e.type == '.' else self.pointer(e.name)
            return self.callf('__ld' + part, p, i), 'double'
        if isinstance(e, c_ast.Cast):
            t = self.ctype(e.to_type.type)
            a, u = self.rval(e.expr)
            if t == u or t == 'void':
                return a, t
            if t.endswith('*') and u.endswith('*') and u != 'void*':
                raise CUnsupported('cast %s -> %s' % (u, t))
            return self.conv(a, u, t), t
        if isinstance(e, c_ast.TernaryOp):
            a, ta = self.rval(e.iftrue)
            b, tb = self.rval(e.iffalse)
            t = ta if ta == tb else 'double'
            return ast.IfExp(self.cond(e.cond), self.conv(a, ta, t), self.conv(b, tb, t)), t
        if isinstance(e, c_ast.FuncCall):
            f = e.name.name
            if f not in self.rtype:
                raise CUnsupported('call of ' + f)
            a = []
            for x in (e.args.exprs if e.args else []):
                v, t = self.rval(x)
                a.append(v)
            return self.callf(f, *a), self.rtype[f]
        raise CUnsupported('expression %s' % type(e).__name__)

    def sizeof(self, t):
        s = {'int': 4, 'double': 8, 'cpx': 16}.get(t)
        if t == 'state' and self.state:
            s = self.layout()[1]
        if s is None:
            raise CUnsupported('sizeof ' + t)
        return ast.Constant(s)

    def globals_type(self, n):
        for d in self.tu.ext:
            if isinstance(d, c_ast.Decl) and d.name == n and 'const' in (d.quals or []):
                return self.ctype(d.type)
        raise CUnsupported('global variable ' + n)

    def address(self, e):
        """-> pointer expression, index expression, element type"""
        if isinstance(e, c_ast.ArrayRef):
            p, t = self.expr(e.name)
            i, ti = self.rval(e.subscript)
            if not t.endswith('*') or ti != 'int':
                raise CUnsupported('subscript')
            return p, i, t[:-1]
        if isinstance(e, c_ast.UnaryOp) and e.op == '*':
            return self.pointer(e.expr)
        raise CUnsupported('lvalue')

    def pointer(self, e):
        p, t = self.expr(e)
        if not t.endswith('*'):
            raise CUnsupported('dereference of a number')
        return p, ast.Constant(0), t[:-1]


def translate(path, general=False):
    src = preprocess(path)
    tu = c_parser.CParser().parse(src, path)
    tr = Tr(tu, general)
    return tr.module(), tr


if __name__ == '__main__':
    import sys
    m, _ = translate(sys.argv[1])
    print(ast.unparse(m))
