#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a description on stdin, after confirming it in a scratch copy.

The description is a Python file defining: ID, PROPERTY, EDITS = [(file, old, new)], NEEDS, BREAKS, DEMO (text of demo.py).
usage: mkseed.py FILE..."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
DEMO_SH = '''#!/bin/sh
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def tests(copy):
    r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors', '-rA', 'tests'], copy,
           dict(ENV, PYTHONPATH=copy))
    return set(re.findall(r'^PASSED (\S+)', r.stdout, re.M))


def main(path):
    d = {}
    exec(compile(open(path).read(), path, 'exec'), d)
    copy = tempfile.mkdtemp(prefix='seed-')
    try:
        sh(['cp', '-a', '/repo/.', copy], '/')
        base = tests(copy)
        for f, old, new in d['EDITS']:
            p = os.path.join(copy, f)
            s = open(p).read()
            assert s.count(old) == 1, '%s: %d matches in %s of %r' % (d['ID'], s.count(old), f, old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], copy).stdout
        if any(f.endswith('.pyx') for f, _, _ in d['EDITS']):
            stage = os.path.join(copy, '.stage')
            ext = 'aideme/active_learning/factorization'
            os.makedirs(os.path.join(stage, ext))
            for f in ('setup.py', 'README.md', ext + '/utils.pyx'):
                shutil.copy(os.path.join(copy, f), os.path.join(stage, f))
            r = sh(['/opt/venv/bin/python', 'setup.py', '-q', 'build_ext', '--inplace', '--use-cython'], stage)
            assert r.returncode == 0, r.stdout
            sh('cp %s/%s/utils.*.so %s/%s/' % (stage, ext, copy, ext), '/') if False else os.system('cp %s/%s/utils.*.so %s/%s/' % (stage, ext, copy, ext))
        lost = base - tests(copy)
        assert not lost, '%s: tests fail: %s' % (d['ID'], lost)
        out = os.path.join(HERE, 'seeded', d['ID'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(d['DEMO'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=d['PROPERTY'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
        a = sh([out + '/demo.sh'], '/repo')
        b = sh([out + '/demo.sh'], copy)
        ok = a.returncode == 0 and b.returncode != 0
        if not ok:
            shutil.rmtree(out)
        print('%-32s %s  base=%d patched=%d %s' % (d['ID'], 'kept' if ok else 'REJECTED', a.returncode, b.returncode,
                                                  (b.stdout.strip().splitlines() or ['-'])[-1][:100] if ok else a.stdout[-1500:] + b.stdout[-500:]))
    finally:
        shutil.rmtree(copy, ignore_errors=True)


for p in sys.argv[1:]:
    try:
        main(p)
    except Exception as e:
        print('%s: %s' % (p, e))
