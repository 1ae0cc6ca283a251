#!/usr/bin/env python3
"""Runs every check on every planted change (copies of /repo under /tmp) and writes the table of DESIGN.md.
usage: seeds.py [ids...]   results are kept in tools/seeds.json"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, 'tools', 'seeds.json')
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
res = json.load(open(OUT)) if os.path.exists(OUT) else {}
claimed = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']] if os.path.exists(V + '/MANIFEST.json') else ids


def one(s):
    d = '/tmp/seedrun/' + s
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ('kio', 'bitcask'):
        shutil.copytree('/repo/' + x, d + '/' + x, symlinks=True)
    p = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + d, V + '/seeded/' + s + '/patch.diff'], cwd='/', capture_output=True, text=True)
    if p.returncode:
        p = subprocess.run(['patch', '-p1', '-s', '-d', d, '-i', V + '/seeded/' + s + '/patch.diff'], capture_output=True, text=True)
    if p.returncode:
        return s, None
    env = dict(os.environ, KIO_REPO=d, KIO_CACHE=d + '/cache', KIO_EVID=d + '/ev')
    p = subprocess.run(['python3-vt', V + '/check.py'] + claimed, env=env, capture_output=True, text=True)
    got = sorted({l.split('property=')[1].split()[0] for l in p.stdout.splitlines() if l.startswith('VIOLATION')})
    err = sorted({l.split('property=')[1].split()[0] for l in (p.stdout + p.stderr).splitlines() if l.startswith('ERROR')})
    shutil.rmtree(d, ignore_errors=True)
    return s, dict(caught=got, error=err)


todo = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
with ThreadPoolExecutor(7) as ex:
    for s, r in ex.map(one, todo):
        res[s] = r
        print(s, r, flush=True)
res = {k: v for k, v in res.items() if os.path.isdir(V + '/seeded/' + k)}
json.dump(res, open(OUT, 'w'), indent=1, sort_keys=True)
