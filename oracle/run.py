"""run.py PID [--seed N] [--budget S] [--replay FILE]: runs the concrete oracle; prints one JSON line."""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
MODS = {'C01': 'coefs', 'C02': 'coefs', 'C03': 'coefs', 'C04': 'coefs', 'C05': 'coefs', 'C06': 'coefs', 'C07': 'coefs',
        'C23': 'coefs', 'C08': 'patts', 'C09': 'patts', 'C10': 'trans', 'C11': 'trans', 'C12': 'trans', 'C13': 'trans',
        'C14': 'trans', 'C15': 'cmem', 'C16': 'opsc', 'C17': 'trans', 'C18': 'files', 'C19': 'misc', 'C20': 'misc',
        'C21': 'extra', 'C22': 'misc', 'C27': 'extra', 'C24': 'cmem', 'C25': 'misc', 'C26': 'trans'}


def main():
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument('pid')
    a.add_argument('--seed', type=int, default=1)
    a.add_argument('--budget', type=float, default=15)
    a.add_argument('--replay')
    a.add_argument('--scratch')
    o = a.parse_args()
    import spherepy
    f = os.path.realpath(spherepy.__file__)
    if o.scratch:
        assert f.startswith(os.path.realpath(o.scratch) + os.sep), f
        import _csphi
        assert os.path.realpath(_csphi.__file__).startswith(os.path.realpath(o.scratch) + os.sep), _csphi.__file__
    import importlib, base
    base.SCRATCH = o.scratch
    importlib.import_module(MODS[o.pid])
    importlib.import_module('extra')
    if o.replay:
        d = json.load(open(o.replay))
        d = d.get('failing_input', d)
        m = base.one(d['case'], d['params'])
        print('REPLAY', d['case'], json.dumps(d['params']), '->', m or 'holds')
        sys.exit(1 if m else 0)
    print('ORACLE ' + json.dumps(base.run(o.pid, o.seed, o.budget)))


if __name__ == '__main__':
    main()
