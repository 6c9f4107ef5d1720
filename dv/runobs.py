import sys, os, time, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import *
import importlib


def load():
    for m in ('p_coefs', 'p_norms', 'p_patt', 'p_ops', 'p_trans', 'p_round', 'p_misc', 'p_extra', 'p_frame', 'p_c', 'p_kiss', 'p_lean'):
        try:
            importlib.import_module(m)
        except ImportError as e:
            if m not in str(e):
                raise


def one(i, limit=None):
    pids, label, f, opt = REG[i]
    import contracts as CO
    sys.setrecursionlimit(20000)
    if 'run' in opt:                       # a group decided by another back end (the C verifier)
        r = opt['run'](CO.REPO, limit or opt.get('limit', 300))
        r.setdefault('pids', pids)
        return r
    S = Session(CO.REPO, CO.table(opt), deadline=time.time() + (limit or opt.get('limit', 300)))
    r = S.run(label, lambda: f(S))
    r['pids'] = pids
    r['failed'] = [(v.label, [repr(c) for c in v.pc], v.goal) for v in r['failed']]
    r['seen'] = sorted(str(x) for x in S.ip.seen)
    r['assumed'] = sorted(S.ctx.assumed)
    r['stats'] = dict(CT.STATS)
    return r


if __name__ == '__main__':
    load()
    sel = [i for i, (p, l, f, o) in enumerate(REG) if len(sys.argv) < 2 or any(a in p or a in l for a in sys.argv[1:])]
    bad = 0
    with mp.Pool(int(os.environ.get("DV_PROCS", "8")), maxtasksperchild=1) as pool:
        for r in pool.imap(one, sel, chunksize=1):
            st = 'ok ' if r['ok'] else 'BAD'
            print(st, '%6.1fs' % r['time'], r['vcs'], r.get('paths'), ','.join(r['pids']), r['label'], r.get('error', ''))
            if not r['ok']:
                bad += 1
                if len(sel) < 4:
                    print(r.get('trace', ''))
                for v in r['failed'][:3]:
                    print('     FAILED', v[0], '\n        pc:', v[1], '\n        goal:', v[2][:600])
    print(len(sel), 'obligation groups', bad, 'bad')
