#!/usr/bin/env python3
"""sedmut.py "<ids>" file <<< blocks of 'old ==> new' separated by lines of '----': runs the checks on each textual mutant"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ids, path = sys.argv[1].split(), sys.argv[2]
blocks = [b for b in sys.stdin.read().split('\n----\n') if b.strip()]
src = open('/repo/' + path).read()


def one(ib):
    i, b = ib
    pre = b.strip('\n')
    old, new = pre.split('==>')
    old, new = old.strip('\n').strip(), new.strip('\n').strip()
    if src.count(old) < 1:
        return i, 'NOT FOUND: ' + old
    d = tempfile.mkdtemp(prefix='mut')
    try:
        for x in ('kio', 'bitcask'):
            shutil.copytree('/repo/' + x, d + '/' + x, symlinks=True)
        inc = os.environ.get('MUT_INC', '')
        open(d + '/' + path, 'w').write(src.replace(old, new, 1).replace('#include', inc + '\n#include', 1))
        r = subprocess.run(['python3', '/verif/check.py'] + ids, capture_output=True, text=True, timeout=150,
                           env={**os.environ, 'KIO_REPO': d, 'KIO_CACHE': d + '/cache', 'KIO_EVID': d + '/ev'})
        return i, '%s  [%s ==> %s]\n' % ('CAUGHT' if r.returncode == 1 else 'quiet' if r.returncode == 0 else 'ERROR', old[:70], new[:70]) + \
            '\n'.join('    ' + l[:230] for l in r.stdout.splitlines() if not l.startswith(('OK', 'VIOL', 'KNOWN')))[:900]
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(4) as ex:
    for i, t in ex.map(one, enumerate(blocks)):
        print(i, t)
