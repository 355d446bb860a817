#!/usr/bin/env python3
"""Runs checks against small changes. usage: mutate.py FILE [ID...]; FILE defines M = [(id, 'P01 P02', file, old, new), ...]"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = {}
exec(open(sys.argv[1]).read(), d)


def one(m):
    id, props, edits = (m[0], m[1], [m[2:5]]) if len(m) == 5 else m
    copy = tempfile.mkdtemp(prefix='mutant-')
    try:
        subprocess.run(['cp', '-a', '/repo/.', copy], check=True)
        for f, old, new in edits:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%-28s BAD EDIT: %d matches of %r' % (id, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        res = []
        for p in props.split():
            r = subprocess.run([HERE + '/check', p], env=dict(os.environ, VERIF_REPO=copy), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            lines = [l for l in r.stdout.splitlines() if l.strip()]
            why = lines[1][:110] if r.returncode == 1 and len(lines) > 1 else " ".join(lines)[-1500:]
            if 'broke down' in why:
                why = 'BROKE ' + ' '.join(l.strip() for l in lines[2:] if 'Error' in l or 'Timeout' in l)[:100]
            res.append('%s:%s %s' % (p, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR'), why if r.returncode else ''))
        return '%-28s %s' % (id, ' | '.join(res))
    finally:
        shutil.rmtree(copy, ignore_errors=True)


ms = [m for m in d['M'] if len(sys.argv) < 3 or m[0] in sys.argv[2:]]
with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    for line in ex.map(one, ms):
        print(line, flush=True)
