"""Plant a bug: confirm it in a scratch copy of /repo and keep it under /verif/seeded.

usage: plant.py confirm ID...   (scratch copy bind-mounted over /repo in a private mount namespace)
       plant.py check ID... [--all]   run the property's check with the bug applied
Development tool, no check uses it."""
import concurrent.futures
import importlib.util
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('bugs', os.path.join(HERE, 'tools', 'bugs.py'))
bugs = importlib.util.module_from_spec(spec)
spec.loader.exec_module(bugs)
BUGS = {b['id']: b for b in bugs.BUGS}


def ns(wt, cmd, **kw):
    os.makedirs(wt + '.rep', exist_ok=True)
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && mount --bind %s.rep /opt/vp/reports && cd /repo && %s' % (wt, wt, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def scratch(tag):
    wt = '/tmp/plant_%s' % tag
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', wt])
    subprocess.check_call(['git', '-C', wt, 'checkout', '-q', '--', '.'])
    return wt


def edit(wt, b):
    for f, old, new in b['edits']:
        p = os.path.join(wt, 'src/qnet', f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d occurrences in %s of %r' % (b['id'], s.count(old), f, old))
        open(p, 'w').write(s.replace(old, new))


def confirm(b):
    wt = scratch('c_' + b['id'])
    d = '/tmp/plant_demo/' + b['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\n'
                                    'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    try:
        r0 = ns(wt, 'bash %s/demo.sh' % d)
        edit(wt, b)
        diff = subprocess.check_output(['git', '-C', wt, 'diff'], universal_newlines=True)
        r1 = ns(wt, 'bash %s/demo.sh' % d)
        if r0.returncode != 0 or r1.returncode == 0:
            print(b['id'], 'DEMO', r0.returncode, r1.returncode, r0.stdout[-600:], r1.stdout[-300:])
            return False
        rb = ns(wt, 'bash /opt/vp/build.sh')
        rt = ns(wt, 'bash /opt/vp/test.sh /tmp/plant_res_%s.json' % b['id'])
        res = json.load(open('/tmp/plant_res_%s.json' % b['id']))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        # the drawing tests disturb each other when several runs share the machine
        lost = [t for t in base if t not in set(res['passed']) and not t.startswith('tests.visualization')]
        if rb.returncode or lost:
            print(b['id'], 'build', rb.returncode, 'TESTS FAIL', lost[:5])
            return False
        out = os.path.join(HERE, 'seeded', b['id'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(d + '/' + f, out)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        print(b['id'], 'CONFIRMED')
        return True
    finally:
        shutil.rmtree(wt, ignore_errors=True)
        shutil.rmtree(wt + '.rep', ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        if os.path.exists('/tmp/plant_res_%s.json' % b['id']):
            os.unlink('/tmp/plant_res_%s.json' % b['id'])


def check(bid, props=None):
    meta = json.load(open(os.path.join(HERE, 'seeded', bid, 'meta.json')))
    wt = scratch('k_' + bid)
    try:
        subprocess.check_call(['git', '-C', wt, 'apply', os.path.join(HERE, 'seeded', bid, 'patch.diff')])
        for p in props or [meta['property']]:
            r = ns(wt, 'cd %s && PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 timeout 900 /opt/venv/bin/python -m checks.run %s' % (HERE, p))
            v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l]
            print('%-28s %s rc=%d %s' % (bid, p, r.returncode, 'CAUGHT' + (' (no input)' if all('no-failing' in l for l in v) else '') if v and r.returncode == 1 else 'MISSED'))
            if '-v' in sys.argv:
                print(r.stdout[-2500:])
            sys.stdout.flush()
    finally:
        shutil.rmtree(wt, ignore_errors=True)
        shutil.rmtree(wt + '.rep', ignore_errors=True)


if __name__ == '__main__':
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    if sys.argv[1] == 'confirm':
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda i: confirm(BUGS[i]), ids or [i for i in BUGS if not os.path.exists(os.path.join(HERE, 'seeded', i))]))
    else:
        for i in ids or sorted(os.listdir(os.path.join(HERE, 'seeded'))):
            check(i)
