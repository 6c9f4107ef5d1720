#!/usr/bin/env python3-vt
"""check.py ID: decide one property of /repo's current working tree.

1. generate the property's obligations from the current source and discharge them (deductive verifier, dv/);
2. build a scratch copy of the tree and cross-check / replay on the real code (oracle/).
Exit 0: every obligation discharged (and the real code agrees on every generated case).  Exit 1: VIOLATION line."""
import sys, os, re, json, time, subprocess, tempfile, shutil, threading, signal, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'dv'))
REPO = os.environ.setdefault('DV_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
PY = '/opt/venv/bin/python'
NPROC = os.cpu_count() or 4
T0 = time.time()
QUICK = TIER != 'thorough'
ORACLE_BUDGET = 12 if QUICK else 150
RETRY_BUDGET = 60 if QUICK else 400
GROUP_LIMIT = 300 if QUICK else 900
PROOF_DEADLINE = 560 if QUICK else 3000


# ------------------------------------------------------------------ real code
class Scratch(object):
    """a build of the current tree outside /repo and /verif"""

    def __init__(self):
        self.dir = None
        self.err = None
        self.lock = threading.Lock()

    def get(self):
        with self.lock:
            if self.dir is None and self.err is None:
                self.build()
        return self.dir

    def build(self):
        d = tempfile.mkdtemp(prefix='dvscratch.')
        self.tmp = d
        t = os.path.join(d, 'repo')
        try:
            os.mkdir(t)
            for n in ('spherepy', 'src', 'setup.py', 'setup.cfg', 'README.md', 'README.rst', 'README.txt', 'MANIFEST.in', 'README'):
                s = os.path.join(REPO, n)
                if os.path.isdir(s):
                    shutil.copytree(s, os.path.join(t, n), ignore=shutil.ignore_patterns('__pycache__', '*.so'))
                elif os.path.exists(s):
                    shutil.copy(s, t)
            e = env()
            p = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace', '--force'], cwd=t, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=300)
            if p.returncode or not any(n.startswith('_csphi') for n in os.listdir(t)):
                self.err = 'the scratch copy does not build:\n' + p.stdout.decode(errors='replace')[-3000:]
                return
            self.dir = t
        except Exception as ex:
            self.err = 'scratch build: %r' % ex

    def close(self):
        if getattr(self, 'tmp', None):
            shutil.rmtree(self.tmp, ignore_errors=True)


def env(extra=None):
    e = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
         'PYTHONWARNINGS': 'ignore', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'PYTHONHASHSEED': '0', 'HOME': tempfile.gettempdir(),
         'TMPDIR': tempfile.gettempdir()}
    e.update(extra or {})
    return e


def oracle(scratch, pid, budget, seed):
    d = scratch.get()
    if d is None:
        return dict(evaluations=0, distinct=0, failures=[], samples=[], error=scratch.err)
    w = tempfile.mkdtemp(prefix='dvoracle.')
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'oracle', 'run.py'), pid, '--seed', str(seed), '--budget', str(budget), '--scratch', d],
                           cwd=w, env=env({'PYTHONPATH': d, 'TMPDIR': w, 'HOME': w}), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=budget * 3 + 120)
        for l in p.stdout.decode(errors='replace').splitlines():
            if l.startswith('ORACLE '):
                return json.loads(l[7:])
        last = [l for l in p.stdout.decode(errors='replace').splitlines() if l.startswith('CASE ')]
        return dict(evaluations=0, distinct=0, failures=[], samples=[], crash=p.returncode < 0 or p.returncode > 128,
                    error='oracle run ended with status %s\n%s\n%s' % (p.returncode, p.stderr.decode(errors='replace')[-3000:], '\n'.join(last[-1:])))
    except subprocess.TimeoutExpired:
        return dict(evaluations=0, distinct=0, failures=[], samples=[], error='oracle run timed out', crash=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    """keys of the unrepaired findings listed for this property"""
    d = {}
    try:
        for l in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
            if l.startswith('finding: property=%s key=[' % pid):
                k, _, t = l.split('key=[', 1)[1].partition(']')
                d[k] = t.strip()
    except OSError:
        pass
    return d


# ------------------------------------------------------------------ proof
def worker(i, conn, ms=None):
    try:
        if ms:
            import ctx
            ctx.TIMEOUT = ms
        sys.setrecursionlimit(20000)
        from runobs import one
        r = one(i, GROUP_LIMIT)
    except BaseException as e:
        r = dict(label='?', ok=False, vcs=0, failed=[], error='verifier error: %r' % e, trace=traceback.format_exc(), time=0, seen=[],
                 assumed=[], stats={}, paths=0)
    try:
        conn.send(r)
        conn.close()
    except Exception:
        os._exit(3)


def prove(pid, found, fail_known):
    """found(): waits for the first oracle run, True when it has a failing input; fail_known(): the same without waiting"""
    import runobs
    runobs.load()
    from spec import REG
    sel = [i for i, (p, l, f, o) in enumerate(REG) if pid in p]
    first = []

    def stop(res):
        if first or any(not r['ok'] for r in res.values()):
            first.append(time.time())
            return fail_known() or time.time() - first[0] > 150
        return False
    res = prove_groups(sel, REG, None, PROOF_DEADLINE, stop)
    again = [i for i in res if not res[i]['ok']]
    if again and not found() and time.time() - T0 < PROOF_DEADLINE * 0.6:
        # solver time limits are wall-clock: failed groups are tried once more with larger ones
        again.sort(key=lambda i: res[i]['time'])
        while again:
            now, again = again[:NPROC], again[NPROC:]
            r2 = prove_groups(now, REG, 5000, PROOF_DEADLINE, lambda r: False)
            for i in now:
                if r2[i]['ok'] or not str(r2[i].get('error', '')).startswith('undecided: time'):
                    r2[i]['retried'] = True
                    res[i] = r2[i]
            if any(not r2[i]['ok'] for i in now):
                break
    return [res[i] for i in sel if i in res], len(sel)


def prove_groups(sel, REG, ms, deadline, stop):
    import multiprocessing as mp
    ctxm = mp.get_context('fork')
    todo = sorted(sel, key=lambda i: -REG[i][3].get('cost', 5))
    live, res = {}, {}
    while todo or live:
        while todo and len(live) < NPROC:
            i = todo.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=worker, args=(i, b, ms))
            p.daemon = True
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        import multiprocessing.connection as mc
        mc.wait([a for p, a, t in live.values()], timeout=1.0)
        now = time.time()
        for i in list(live):
            p, a, t = live[i]
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                if r is None:
                    r = dict(ok=False, vcs=0, failed=[], error='undecided: verifier process ended', time=now - t, seen=[], assumed=[], stats={}, paths=0)
            elif now - t > GROUP_LIMIT + 30 or now - T0 > deadline:
                r = dict(ok=False, vcs=0, failed=[], error='undecided: time limit', time=now - t, seen=[], assumed=[], stats={}, paths=0)
            if r is not None:
                p.kill()
                p.join()
                a.close()
                del live[i]
                r['label'] = REG[i][1]
                r['bounded'] = REG[i][3].get('bounded')
                k = REG[i][3].get('known')
                if r['failed'] and FUNCTIONAL:         # obligations that do not belong to this property
                    keep = [v for v in r['failed'] if not FUNCTIONAL.match(v[0])]
                    r['other'] = [v[0] for v in r['failed'] if v not in keep]
                    r.update(failed=keep, vcs=r['vcs'] - len(r['other']), ok=not keep and not r.get('error'))
                if not r['ok'] and k in KNOWN and not r.get('error') and all(v[0] == k for v in r['failed']):
                    r.update(ok=True, known=k, vcs=r['vcs'] - len(r['failed']), failed=[])
                res[i] = r
        if now - T0 > deadline:
            for i in todo:
                res[i] = dict(ok=False, vcs=0, failed=[], error='undecided: time limit', time=0, seen=[], assumed=[], stats={}, paths=0,
                              label=REG[i][1], bounded=None)
            todo = []
        elif stop(res):          # the verdict is known: the remaining contracts are not evaluated in this run
            for p, a, t in live.values():
                p.kill()
                p.join()
            break
    return res


TRUSTED = [
    'the verifier itself: dv/ (VC generator for the Python subset and for C, term rewriting, loop rule), and z3 for the arithmetic goals',
    'CPython evaluation order and the numpy operations as modelled in dv/npmodel.py (indexing, views, elementwise arithmetic, reductions)',
    'floating-point arithmetic treated as exact real/complex arithmetic; machine integers as mathematical integers',
]


KNOWN = {}
FUNCTIONAL = None


def main():
    pid = sys.argv[1]
    KNOWN.update(known_findings(pid))
    meta = {}
    try:
        import props
        meta = props.META.get(pid, {})
    except ImportError:
        pass
    global FUNCTIONAL
    if meta.get('ignore'):
        FUNCTIONAL = re.compile(meta['ignore'])
    scratch = Scratch()
    ores = {}

    def orun():
        r = oracle(scratch, pid, ORACLE_BUDGET, SEED)
        ores['r0'] = r
        need.wait()
        if ores.get('more') and not r['failures'] and not r.get('error'):
            o2 = oracle(scratch, pid, RETRY_BUDGET, SEED + 1000)
            r['evaluations'] += o2['evaluations']
            r['distinct'] += o2['distinct']
            r['failures'] = o2['failures']
            r['error'] = o2.get('error')
        ores['r'] = r

    def found():
        """called when a group failed: wait for the first oracle run"""
        while th.is_alive() and 'r0' not in ores:
            time.sleep(0.2)
        r = ores.get('r0') or {}
        if r.get('failures') or r.get('error'):
            return True
        ores['more'] = True
        need.set()
        return False
    need = threading.Event()
    th = threading.Thread(target=orun)
    code = 0
    try:
        th.start()
        groups, ngroups = prove(pid, found, lambda: bool((ores.get('r0') or {}).get('failures')))
        need.set()
        th.join()
        orc = ores.get('r') or dict(evaluations=0, distinct=0, failures=[], samples=[], error='oracle thread failed')
        bad = [g for g in groups if not g['ok']]
        if not ngroups and meta.get('level', 'proof') == 'proof':
            bad = [dict(label='obligation table', ok=False, failed=[], error='no obligation generated', vcs=0, time=0)]
        viol = None
        if orc['failures']:
            viol = orc['failures'][0]
        crash = orc.get('error')
        if bad or viol or crash:
            code = 1
            os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
            path = os.path.join(HERE, 'replay', pid + '.json')
            rep = dict(property=pid, repo=REPO, seed=SEED, tier=TIER,
                       failed_obligations=[dict(contract=g['label'], error=g.get('error'), trace=g.get('trace'),
                                                failed=[dict(obligation=v[0], path_condition=v[1], goal=v[2]) for v in g['failed'][:5]]) for g in bad],
                       failing_input=viol, oracle_error=crash,
                       replay_cmd='PYTHONPATH=<scratch build> %s %s/oracle/run.py %s --replay %s' % (PY, HERE, pid, path))
            with open(path, 'w') as f:
                json.dump(rep, f, indent=1, default=str)
            for g in bad:
                print('FAILED contract: %s%s' % (g['label'], '  [' + g['error'] + ']' if g.get('error') else ''))
                for v in g['failed'][:3]:
                    print('   obligation: %s\n      goal: %s\n      when: %s' % (v[0], str(v[2])[:400], ' and '.join(map(str, v[1]))[:400]))
            if viol:
                print('FAILING INPUT on the real code: %s %s\n   %s' % (viol['case'], json.dumps(viol['params']), viol['message']))
            if crash:
                print('REAL CODE: %s' % crash)
            print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if viol or (crash and orc.get('crash')) else ' no-failing-input-found'))
        for g in groups:
            if g.get('other'):
                print('NOTE: %s: failed obligations that are not part of %s: %s' % (g['label'], pid, ', '.join(sorted(set(g['other'])))))
        for k in sorted({g['known'] for g in groups if g.get('known')}):
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, KNOWN[k]))
        write_evidence(pid, meta, groups, bad, orc, code)
        if code == 0:
            print('OK property=%s obligations=%d contracts=%d oracle_cases=%d wall=%.1fs' % (
                pid, sum(g['vcs'] for g in groups), len(groups), orc['distinct'], time.time() - T0))
    finally:
        scratch.close()
    return code


def write_evidence(pid, meta, groups, bad, orc, code):
    obl = sum(g['vcs'] for g in groups)
    fl = sum(max(len(g['failed']), 1 if g.get('error') else 0) for g in bad)
    st = {}
    for g in groups:
        for k, v in (g.get('stats') or {}).items():
            st[k] = st.get(k, 0) + v
    assumed = sorted({a for g in groups for a in g.get('assumed', ())})
    level = meta.get('level', 'proof')
    cov = {}
    if level == 'proof':
        cov.update(obligations=obl, discharged=max(0, obl - fl), checker_cmd='python3-vt check.py %s' % pid, trusted_base=TRUSTED + assumed + meta.get('trusted', []))
    cov.update(evaluations=orc['evaluations'], distinct_nontrivial=orc['distinct'],
               rule='real-code cross-check: cases generated from sizes in increasing order, then at random (VERIF_SEED); distinct parameter sets counted',
               samples=orc['samples'] or ['none'])
    if any(g.get('known') for g in groups):
        cov['known_findings'] = sorted({g['known'] for g in groups if g.get('known')})
    cov['contracts'] = [dict(contract=g['label'], obligations=g['vcs'], paths=g.get('paths'), discharged=g['ok'], seconds=round(g['time'], 2),
                             **({'bounded': g['bounded']} if g.get('bounded') else {})) for g in groups]
    cov['functions_under_contract'] = sorted({s for g in groups for s in g.get('seen', ())})
    cov['solver'] = {k: round(v, 2) for k, v in st.items()}
    cov['back_ends'] = 'z3 (arithmetic), the verifier\'s own term normaliser (field/module equalities)' + (
        ', Lean (lemmas/)' if st.get('lean') else '') + (', z3 with inferred invariants for kf_factor (dv/wp.py)' if st.get('houdini') else '')
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level, coverage=cov,
              assumptions=TRUSTED + assumed + meta.get('trusted', []), wall_s=round(time.time() - T0, 2), violations=code)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    try:
        c = main()
    except Exception:
        traceback.print_exc()
        p = os.path.join(HERE, 'replay', sys.argv[1] + '.json')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            json.dump(dict(error=traceback.format_exc()), f)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (sys.argv[1], p))
        c = 1
    sys.stdout.flush()
    os._exit(c)
