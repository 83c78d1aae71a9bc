#!/usr/bin/env python3
"""plant.py SPEC.py ...: confirm planted bugs in a scratch copy and keep them in seeded/.

A spec defines BUGS = [dict(id, prop, pkg, edits=[(file, old, new)], needs, breaks, demo)].
'demo' is the body of a Go test file in package PKG (its name's tests run); it
must pass on /repo and fail with the edits. Each bug is confirmed in a scratch
copy: builds, the stable tests pass, the demo fails; and the demo passes without.
"""
import sys, os, json, subprocess, shutil, tempfile
ENV = dict(os.environ, HOME='/root', GOROOT='/opt/veriftools/go1.24.13', GOTOOLCHAIN='local', GOPATH='/root/go',
           GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', GOWORK='off', GOFLAGS='-mod=mod', GOPROXY='off')
ENV['PATH'] = '/opt/veriftools/go1.24.13/bin:' + ENV['PATH']
ENV.pop('DSKETCH_TEST_GENERATE_GO', None)
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
BASE = '374fbdd'
DEMO = '''#!/bin/bash
# Run with cwd at the repository root: exit 0 when the property holds.
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:$PATH GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local \\
    GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GOWORK=off GOFLAGS=-mod=mod GOPROXY=off
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s":"%s"}}' "$PWD/@PKG@/zz_planted_demo_test.go" "$D/demo_test.go" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 250s -overlay "$T/overlay.json" -run '^TestPlantedDemo$' "./@PKG@"
'''
def run(cmd, cwd, timeout=600):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 99, 'timeout')

def main():
    only = [a for a in sys.argv[1:] if not a.endswith('.py')]
    bugs = []
    for f in sys.argv[1:]:
        if f.endswith('.py'):
            g = {}
            exec(open(f).read(), g)
            bugs += g['BUGS']
    wt = tempfile.mkdtemp(prefix='plant.')
    try:
        repo = wt + '/repo'
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        for b in bugs:
            if only and b['id'] not in only:
                continue
            d = os.path.join(SEEDED, b['id'])
            if os.path.exists(d) and not only:
                continue
            subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=repo)
            tmp = wt + '/' + b['id']
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            open(tmp + '/demo_test.go', 'w').write(b['demo'].strip() + '\n')
            open(tmp + '/demo.sh', 'w').write(DEMO.replace('@PKG@', b['pkg']))
            os.chmod(tmp + '/demo.sh', 0o755)
            r = run(['bash', tmp + '/demo.sh'], repo)
            if r.returncode != 0:
                print(b['id'], 'DEMO FAILS ON CLEAN TREE', r.stdout[-1500:]); continue
            bad = False
            for f, old, new in b['edits']:
                p = repo + '/' + f
                s = open(p).read()
                if s.count(old) != 1:
                    print(b['id'], 'EDIT matches', s.count(old), 'times in', f, repr(old[:60])); bad = True; break
                open(p, 'w').write(s.replace(old, new))
            if bad:
                continue
            r = run(['gofmt', '-l'] + [f for f, _, _ in b['edits']], repo)
            if r.stdout.strip():
                run(['gofmt', '-w'] + [f for f, _, _ in b['edits']], repo)
            r = run(['go', 'build', './...'], repo)
            if r.returncode:
                print(b['id'], 'NO BUILD', r.stdout[-800:]); continue
            r = run(['bash', tmp + '/demo.sh'], repo)
            if r.returncode == 0:
                print(b['id'], 'DEMO PASSES WITH BUG'); continue
            why = [l for l in r.stdout.splitlines() if l.strip()][:4]
            r = run(['bash', '-c', 'go test -json -vet=off -count=1 -timeout 10m ./... > %s/log; python3 /opt/vp/results.py %s/o.json gojson:%s/log' % (wt, wt, wt)], repo)
            passed = set(json.load(open(wt + '/o.json'))['passed'])
            if STABLE - passed:
                print(b['id'], 'TESTS CATCH IT', sorted(STABLE - passed)[:5]); continue
            diff = subprocess.check_output(['git', 'diff'], cwd=repo, text=True)
            cur, stray = None, []
            for l in diff.splitlines():
                if l.startswith('--- a/'):
                    cur = set(subprocess.run(['git', 'show', BASE + ':' + l[6:]], cwd=repo, stdout=subprocess.PIPE, text=True).stdout.splitlines())
                elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in cur:
                    stray.append(l)
            if stray:
                print(b['id'], 'CHANGES LINES THAT ARE NOT ORIGINAL', stray[:3]); continue
            open(tmp + '/patch.diff', 'w').write(diff)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(tmp, d)
            print(b['id'], 'KEPT', ' | '.join(why)[:300])
    finally:
        shutil.rmtree(wt)
main()
