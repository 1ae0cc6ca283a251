#!/usr/bin/env python3
"""plant.py < spec.py : confirms planted bugs and stores them under seeded/.
spec.py defines BUGS = [dict(id, property, edits=[(file, old, new)...], files={name: text}, demo=<shell>, needs, breaks)].
Works on /repo itself (patch, build, test, demo) and always restores it."""
import json, os, subprocess, sys, tempfile, shutil
ns = {}
exec(sys.stdin.read(), ns)
R, V = '/repo', '/verif'
only = sys.argv[1:]


def sh(c, t=900, **kw):
    return subprocess.run(['timeout', str(t), 'bash', '-c', c], capture_output=True, text=True, **kw)


def tests():
    r = sh('bash /opt/vp/test.sh /tmp/plant.json')
    j = json.load(open('/tmp/plant.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('passed') or base.get('stable') or base
    return r.returncode, len(j['passed']), len(j['failed'])


assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'repo not clean'
for b in ns['BUGS']:
    if only and b['id'] not in only:
        continue
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    for n, t in b['files'].items():
        open(os.path.join(d, n), 'w').write(t)
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n' + b['demo'])
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    res = {}
    try:
        for f, old, new in b['edits']:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        patch = sh('git -C /repo diff').stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        res['tests'] = tests()
        r = sh('cd /repo && bash %s/demo.sh' % d, 300)
        res['demo_patched'] = (r.returncode, (r.stdout + r.stderr)[-300:])
        r = sh('python3 /verif/check.py ' + b['property'], env={**os.environ, 'KIO_EVID': '/tmp/plant_ev', 'KIO_CACHE': '/tmp/plant_cache'})
        res['check'] = (r.returncode, r.stdout[-400:])
    finally:
        sh('git -C /repo checkout -- .')
    r = sh('cd /repo && bash %s/demo.sh' % d, 300)
    res['demo_clean'] = (r.returncode, (r.stdout + r.stderr)[-300:])
    ok = res.get('tests', (1,))[0] == 0 and res['tests'][2] == 0 and res['demo_patched'][0] != 0 and res['demo_clean'][0] == 0
    print(b['id'], 'GOOD' if ok else 'BAD', 'CAUGHT' if res['check'][0] == 1 else 'MISSED', json.dumps(res, indent=1) if not ok or res['check'][0] != 1 else res['check'][1])
    sys.stdout.flush()
sh('bash /opt/vp/build.sh')
