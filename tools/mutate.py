"""Mutation campaign: which changes that pass the existing tests does no obligation notice?

  python3-vt tools/mutate.py base OUT.json             groups, the functions each one sees, and its time
  python3-vt tools/mutate.py gen OUT.json [--n N]      random mutants of the Python sources
  python3-vt tools/mutate.py run BASE MUTANTS OUT [--procs P]
"""
import ast, json, os, random, re, shutil, subprocess, sys, time
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'dv'))
REPO = os.environ.get('MUT_REPO', '/repo')
FILES = ['spherepy.py', 'ops.py', 'pysphi.py', 'file.py', 'verify.py', 'sbessel.py', 'csphi.py']
SWAP = {'nmax': 'mmax', 'mmax': 'nmax', 'nrows': 'ncols', 'ncols': 'nrows', 'theta': 'phi', 'phi': 'theta',
        'scoef1': 'scoef2', 'scoef2': 'scoef1', 'n': 'm', 'm': 'n', 'a': 'b', 'b': 'a', '_nmax': '_mmax', '_mmax': '_nmax',
        'real': 'imag', 'imag': 'real', 'sin': 'cos', 'cos': 'sin', 'floor': 'ceil', 'fft2': 'ifft2', 'zeros': 'ones',
        '_tdsphere': '_pdsphere', '_pdsphere': '_tdsphere', 'complex128': 'float64', 'Nrows': 'Ncols', 'Ncols': 'Nrows',
        'even': 'odd', 'min': 'max', 'max': 'min', 'fdata': 'data', 'N': 'M', 'M': 'N', 'nn': 'n', 'm1': 'n1', 'True': 'False'}
OPS = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/', '+'], ast.Div: ['*', '//'], ast.FloorDiv: ['/'], ast.Mod: ['//'], ast.Pow: ['*']}
TXT = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**'}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!=', '>='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}


def gen(fn):
    src = open(os.path.join(REPO, 'spherepy', fn), newline='').read()
    lines = src.split('\n')
    tree = ast.parse(src)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l) + 1)
    enc = all(ord(c) < 128 for c in src)
    out = []

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def add(fun, a, b, new, kind):
        if src[a:b] != new:
            out.append(dict(file=fn, func=fun, a=a, b=b, old=src[a:b], new=new, kind=kind, line=src[:a].count('\n') + 1))

    def visit(n, fun, cls):
        if isinstance(n, ast.FunctionDef):
            fun = fun or (cls + '.' if cls else '') + n.name
        elif isinstance(n, ast.ClassDef) and not fun:
            cls = n.name
        for f, v in ast.iter_fields(n):
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    if f in ('decorator_list', 'defaults') and not fun:
                        pass
                    visit(c, fun, cls)
        if not fun:
            return
        if isinstance(n, ast.BinOp):
            a, b = pos(n.left)[1], pos(n.right)[0]
            t = src[a:b]
            if TXT.get(type(n.op)) and t.count(TXT[type(n.op)]) == 1 and '\n' not in t and '#' not in t:
                for o in OPS.get(type(n.op), ()):
                    add(fun, a, b, t.replace(TXT[type(n.op)], o), 'op')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = pos(n.left)[1], pos(n.comparators[0])[0]
            t = src[a:b]
            for o in CMP.get(type(n.ops[0]), ()):
                m = re.fullmatch(r'([\s)]*?)(\s*)(<=|>=|==|!=|<|>|is not|not in|is|in)(\s*)([\s(]*)', t)
                if m:
                    add(fun, a, b, m.group(1) + m.group(2) + o + m.group(4) + m.group(5), 'cmp')
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            a, b = pos(n)
            for d in (1, -1):
                add(fun, a, b, '(%r)' % (n.value + d), 'const')
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            a, b = pos(n)
            add(fun, a, b, SWAP[n.id], 'name')
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            a, b = pos(n)
            add(fun, b - len(n.attr), b, SWAP[n.attr], 'attr')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, b = pos(n)
            add(fun, a, pos(n.operand)[0], '', 'unary')
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0])[1], pos(n.values[1])[0]
            t = src[a:b]
            add(fun, a, b, t.replace('and', '#').replace('or', 'and').replace('#', 'or'), 'bool')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and n.lineno == n.end_lineno:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                return
            a, b = pos(n)
            add(fun, a, b, 'pass', 'del')
            if isinstance(n, ast.AugAssign):
                t = src[pos(n.target)[1]:pos(n.value)[0]]
                for x, y in (('+=', '-='), ('-=', '+='), ('*=', '/='), ('/=', '*='), ('+=', '='), ('*=', '=')):
                    if x in t:
                        add(fun, pos(n.target)[1], pos(n.value)[0], t.replace(x, y), 'aug')
        elif isinstance(n, (ast.If, ast.While)):
            a, b = pos(n.test)
            add(fun, a, b, 'not (%s)' % src[a:b], 'cond')
            add(fun, a, b, 'True', 'cond')
            add(fun, a, b, 'False', 'cond')
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            (a, b), (c, d) = pos(n.args[0]), pos(n.args[1])
            add(fun, a, d, src[c:d] + src[b:c] + src[a:b], 'args')
        elif isinstance(n, ast.Slice) and n.lower is not None and n.upper is not None:
            a, b = pos(n.upper)
            add(fun, a, b, '(%s) - 1' % src[a:b], 'slice')
    assert enc, fn
    visit(tree, None, None)
    return out


def base(out):
    import runobs
    runobs.load()
    info = []
    with mp.Pool(int(os.environ.get("DV_PROCS", "8")), maxtasksperchild=1) as pool:
        for i, r in enumerate(pool.imap(runobs.one, range(len(runobs.REG)), chunksize=1)):
            info.append(dict(i=i, label=r['label'], pids=list(r['pids']), ok=r['ok'], time=r['time'], seen=r.get('seen', [])))
    json.dump(info, open(out, 'w'))


def work(job):
    m, cands, base = job
    w = mp.current_process()._identity[0]
    d = '/tmp/mc/w%d' % w
    if not os.path.exists(d):
        shutil.copytree('/tmp/mc/tree', d)
    p = os.path.join(d, 'spherepy', m['file'])
    src = open(os.path.join('/tmp/mc/tree', 'spherepy', m['file']), newline='').read()
    assert src[m['a']:m['b']] == m['old']
    open(p, 'w', newline='').write(src[:m['a']] + m['new'] + src[m['b']:])
    try:
        env = dict(os.environ, PYTHONPATH=d, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'spherepy/tests'], cwd=d, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            if r.returncode:
                return m, 'tests', None
        except subprocess.TimeoutExpired:
            return m, 'tests', None
        if not cands:
            return m, 'uncovered', None
        env = dict(os.environ, DV_REPO=d)
        try:
            r = subprocess.run([sys.executable, os.path.abspath(__file__), 'groups', json.dumps(cands)], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=1500, text=True)
        except subprocess.TimeoutExpired:
            return m, 'timeout', None
        return m, 'caught' if r.stdout.startswith('BAD') else 'survived' if r.stdout.startswith('ALL OK') else 'error', r.stdout.strip()[:300]
    finally:
        shutil.copy(os.path.join('/tmp/mc/tree', 'spherepy', m['file']), p)


def groups(idx):
    import runobs
    runobs.load()
    for i in idx:
        r = runobs.one(i)
        if not r['ok'] and 'nrows = nmax + 1' not in r['label']:
            print('BAD', ','.join(r['pids']), r['label'], r.get('error', ''))
            return
    print('ALL OK')


def run(bf, mf, out, procs):
    info, ms = json.load(open(bf)), json.load(open(mf))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            done.add(json.loads(l)['id'])
    jobs = []
    for k, m in enumerate(ms):
        m['id'] = '%s:%d:%s' % (m['file'], m['a'], m['new'])
        if m['id'] in done:
            continue
        q = m['file'][:-3] + '.' + m['func']
        qs = {q}
        if '.' in m['func']:                # decorated methods
            cls, f = m['func'].split('.')[:2]
            qs |= {m['file'][:-3] + '.' + f} | ({m['file'][:-3] + '.%s.verif' % cls} if '_op_' in f else set())
        c = sorted((g for g in info if qs & set(g['seen'])), key=lambda g: g['time'])
        if m['func'].split('.')[-1] in ('__div__', '__rdiv__', '__repr__', '__str__', 'pretty_coefs', '_tiny_rep') or m['file'] == 'csphi.py':
            continue
        jobs.append((m, [g['i'] for g in c], None))
    f = open(out, 'a')
    with mp.Pool(procs) as pool:
        for m, st, txt in pool.imap_unordered(work, jobs, chunksize=1):
            f.write(json.dumps(dict(m, st=st, txt=txt)) + '\n')
            f.flush()


if __name__ == '__main__':
    if sys.argv[1] == 'base':
        base(sys.argv[2])
    elif sys.argv[1] == 'gen':
        n = int(sys.argv[4]) if len(sys.argv) > 4 else 600
        ms = [m for f in FILES for m in gen(f)]
        print(len(ms), 'mutants')
        random.Random(int(os.environ.get('SEED', '1'))).shuffle(ms)
        json.dump(ms[:n], open(sys.argv[2], 'w'))
    elif sys.argv[1] == 'groups':
        groups(json.loads(sys.argv[2]))
    else:
        run(sys.argv[2], sys.argv[3], sys.argv[4], int(sys.argv[5]) if len(sys.argv) > 5 else 8)
