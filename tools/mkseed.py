#!/usr/bin/env python3
"""mkseed.py FILE [id ...]: (re)create planted bugs from a list of specs and confirm them in a scratch copy.
Each spec: dict(id, property, file, edits=[(old, new[, count])], needs, breaks, demo)"""
import sys, os, json, subprocess, shutil, tempfile, runpy
H = '/verif/seeded'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def main():
    specs = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:]
    for s in specs:
        if want and s['id'] not in want:
            continue
        w = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
        r = os.path.join(w, 'repo')
        try:
            sh(['git', 'clone', '-q', '/repo', r], '/')
            files = s['file'] if isinstance(s['file'], dict) else {s['file']: s['edits']}
            for fn, edits in files.items():
                p = os.path.join(r, fn)
                t = open(p, newline='').read()
                crlf = '\r\n' in t
                t = t.replace('\r\n', '\n')
                for e in edits:
                    old, new = e[0], e[1]
                    k = e[2] if len(e) > 2 else 1
                    assert t.count(old) == k, (s['id'], fn, t.count(old), old)
                    t = t.replace(old, new)
                if crlf:
                    t = t.replace('\n', '\r\n')
                open(p, 'w', newline='').write(t)
            d = os.path.join(H, s['id'])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            patch = subprocess.run(['git', 'diff', '--binary'], cwd=r, stdout=subprocess.PIPE).stdout
            open(os.path.join(d, 'patch.diff'), 'wb').write(patch)
            open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
            open(os.path.join(d, 'demo.sh'), 'w').write(
                '#!/bin/bash\n# run in the repository root after its build\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore\n'
                'PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            # confirm
            def build():
                return sh([PY, 'setup.py', '-q', 'build_ext', '--inplace', '--force'], r)
            env = dict(PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
            rc, o = build()
            assert rc == 0, o
            rc, o = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'spherepy/tests'], r, env)
            ok1 = rc == 0
            o1 = o
            rc2, o2 = sh(['bash', os.path.join(d, 'demo.sh')], r)
            sh(['git', 'checkout', '-q', '.'], r)
            rc, o = build()
            rc3, o3 = sh(['bash', os.path.join(d, 'demo.sh')], r)
            good = ok1 and rc2 != 0 and rc3 == 0
            print('%-14s tests %s, demo with patch %d, without %d  %s' % (s['id'], 'pass' if ok1 else 'FAIL', rc2, rc3, 'KEEP' if good else 'DISCARD'))
            if not good:
                print((o1[-1500:] if not ok1 else '') + o2[-600:] + o3[-600:])
                shutil.rmtree(d)
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
