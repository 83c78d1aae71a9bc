#!/usr/bin/env python3
"""revertfixes.py [COMMIT...]: development tool, not a check. Reverts each recorded
fix of /repo in a scratch copy and runs the check of its property there: the check
must report the defect again. Prints one line per fix."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('WORKERS', '8')
ks = [k for k in json.load(open(HERE + '/known_findings.json')) if k['status'] == 'fixed']
only = sys.argv[1:]
for k in ks:
    c, p = k['commit'], os.environ.get('PROP') or k['property']
    if only and c not in only:
        continue
    d = '/tmp/revert/' + c
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
        r = subprocess.run(['git', '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '--no-edit', c], cwd=d + '/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(c, p, 'CONFLICT', k['what'][:90], flush=True); continue
        kind = 'instrumented' if p == 'X04' else 'plain'
        b = subprocess.run([HERE + '/build.sh', d + '/out', kind], env=dict(os.environ, SIM_REPO=d + '/repo'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode != 0:
            print(c, p, 'NOBUILD', b.stdout[-200:], flush=True); continue
        os.makedirs(d + '/dir')
        t = time.time()
        try:
            r = subprocess.run([d + '/out/sim', 'check', '-prop', p, '-tier', 'quick', '-seed', os.environ.get('SEED', '1'), '-dir', d + '/dir', '-budget', '240', '-workers', W],
                               cwd=d + '/dir', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            v = [l for l in r.stdout.split('\n') if 'violation class' in l]
            print(c, p, 'caught' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode, '%ds' % (time.time() - t), (v[0].strip()[:80] if v else ''), '--', k['what'][:90], flush=True)
        except subprocess.TimeoutExpired:
            print(c, p, 'TIMEOUT', k['what'][:90], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
