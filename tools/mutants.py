#!/usr/bin/env python3
"""mutants.py OUTDIR PKG=COUNT ... : mutation survey of /repo (development tool,
not a check). Samples single-edit mutants of each package, drops those that do
not compile or that the package's tests catch, and runs the simulator's quick
searches of the properties that concern the package on the rest. Writes
OUTDIR/PKG.jsonl with one line per mutant: what it is and what caught it.
/repo itself is never edited (go build -overlay)."""
import sys, os, json, random, subprocess, shutil, threading, queue, time, signal
GOROOT = '/opt/veriftools/go1.24.13'
BASE = dict(os.environ, HOME='/root', GOROOT=GOROOT, GOTOOLCHAIN='local', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod',
            GOWORK='off', GOFLAGS='-mod=mod', GOPROXY='off', GOMAXPROCS='2', PATH=GOROOT + '/bin:' + os.environ['PATH'])
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/mutants'
FAM = {
    'theta': (['D01', 'D02', 'D06:theta*,similarity*'], 'theta*'),
    'tuple': (['D03', 'D06:tuple*,similarity*'], 'tuple*,aon*,aos*'),
    'hll': (['D04', 'D06:hll*'], 'hll*'), 'cpc': (['D05', 'D06:cpc*'], 'cpc*'),
    'kll': (['Q01'], 'kll*'), 'req': (['Q02'], 'req*'), 'tdigest': (['Q03'], 'tdigest*'),
    'frequencies': (['F01', 'F02'], 'freq*'), 'count': (['M01'], 'countmin*'), 'filters': (['B01'], 'bloom*'),
    'sampling': (['S01', 'S02'], 'reservoir*,varopt*'),
}
ALL = ['D01', 'D02', 'D03', 'D04', 'D05', 'Q01', 'Q02', 'Q03', 'F01', 'F02', 'M01', 'B01', 'S01', 'S02']
X = ['X01', 'X02', 'X03', 'X04', 'X05', 'X06', 'X07']
QUICK = dict(D01=60000, D02=60000, D03=40000, D04=30000, D05=20000, D06=2000, Q01=20000, Q02=20000, Q03=20000, F01=30000, F02=30000, M01=30000, B01=30000,
             S01=30000, S02=30000, X01=40000, X04=40000, X05=40000, X06=40000, X02=30000, X03=30000, X07=30000)
def plan(pkg):
    if pkg in FAM:
        own, pre = FAM[pkg]
        return [tuple((x + ':').split(':')[:2]) for x in own] + [(x, pre) for x in X]
    return [(x, '') for x in ALL + X + ['D06']]
def sh(cmd, env, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        return -9, 'timeout'
def search(sim, prop, only, runs, env, tmo):
    """one worker process; returns None or what it found"""
    p = subprocess.Popen([sim, 'worker', '-prop', prop, '-shard', '0', '-shards', '1', '-runs', str(runs), '-only', only,
                          '-deadline', str(int((time.time() + tmo) * 1e9))], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
    t = threading.Timer(tmo + 100, lambda: os.killpg(p.pid, signal.SIGKILL)); t.start()
    final, found, last = False, None, None
    try:
        for l in p.stdout:
            r = json.loads(l)
            v = r.get('v') or r.get('V')
            if v: found = '%s %s %s' % (prop, r.get('sc') or r.get('Sc'), v.get('class') or v.get('Class')); break
            if r.get('final') or r.get('Final'): final = True
    except ValueError:
        pass
    finally:
        t.cancel()
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()
    if found: return found
    return None if final else prop + ' worker died or hung'
def worker(k, q, out, lock):
    d = '%s/w%d' % (SCRATCH, k); os.makedirs(d, exist_ok=True)
    n = 0
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        if n % 25 == 0:
            shutil.rmtree(d + '/cache', ignore_errors=True)
            subprocess.check_call(['cp', '-al', SCRATCH + '/base-cache', d + '/cache'])
        n += 1
        env = dict(BASE, GOCACHE=d + '/cache')
        src = open(m['file'], 'rb').read()
        mf = d + '/mutant.go'
        open(mf, 'wb').write(src[:m['off']] + m['new'].encode() + src[m['end']:])
        pkg = m['pkg']
        open(d + '/o1.json', 'w').write(json.dumps({'Replace': {m['file']: mf}}))
        o2 = json.load(open(SCRATCH + '/bin/overlay.json')); o2['Replace'][m['file']] = mf
        open(d + '/o2.json', 'w').write(json.dumps(o2))
        m['src'] = src[src.rfind(b'\n', 0, m['off']) + 1: src.find(b'\n', m['end'])].decode()
        rc, o = sh(['go', 'build', '-overlay', d + '/o1.json', './' + pkg], env, '/repo', 120)
        if rc: m['res'] = 'nocompile'
        else:
            pk = ['./' + pkg] if pkg in FAM else ['./...']
            rc, o = sh(['go', 'test', '-vet=off', '-failfast', '-count=1', '-timeout', '90s', '-overlay', d + '/o1.json'] + pk, env, '/repo', 200)
            if rc: m['res'] = 'tests'
            else:
                rc, o = sh(['go', 'build', '-modfile', SCRATCH + '/bin/go.mod', '-overlay', d + '/o2.json', '-o', d + '/sim', '.'], env, HERE + '/sim', 200)
                if rc: m['res'] = 'simbuild ' + o[-300:]
                else:
                    m['res'] = ''
                    for div in (30, int(os.environ.get('DIV', '5'))):
                        for prop, only in plan(pkg):
                            r = search(d + '/sim', prop, only, max(QUICK[prop] // div, 100), env, 300)
                            if r: m['res'] = 'caught ' + r; break
                        if m['res']: break
                    m['res'] = m['res'] or 'SURVIVED'
        with lock:
            with open('%s/%s.jsonl' % (out, pkg.replace('/', '_')), 'a') as f: f.write(json.dumps(m) + '\n')
def main():
    out = sys.argv[1]; os.makedirs(out, exist_ok=True)
    os.makedirs(SCRATCH, exist_ok=True)
    subprocess.check_call([HERE + '/build.sh', SCRATCH + '/bin'], env=dict(os.environ, GOCACHE=SCRATCH + '/base-cache'))
    subprocess.check_call('cd /repo && go test -vet=off -count=1 -run XXX ./... >/dev/null', shell=True, env=dict(BASE, GOCACHE=SCRATCH + '/base-cache'))
    env = dict(BASE, GOCACHE=SCRATCH + '/base-cache')
    subprocess.check_call(['go', 'build', '-o', SCRATCH + '/mutate', '.'], cwd=HERE + '/tools/mutate', env=env)
    rng = random.Random(int(os.environ.get('MSEED', '1')))
    todo = []
    for a in sys.argv[2:]:
        pkg, n = a.split('=')
        ms = [json.loads(l) for l in subprocess.check_output([SCRATCH + '/mutate', '/repo/' + pkg]).splitlines()]
        ms = [m for m in ms if not any(w in m['fn'] for w in ('String', 'Error', 'print', 'Print', 'rtAssert', 'introspectiveInsertion')) and not any(w in m['file'] for w in ('bit_pack', 'validation', 'cpc/utils.go'))]
        rng.shuffle(ms)
        w = dict(var=0.25, lit=0.5, delete=1, swap=0.6)
        ms = [m for m in ms if not ('err != nil' in m['new'] and rng.random() < 0.8)]
        ms = [m for m in ms if rng.random() < w.get(m['kind'], 1)]
        for m in ms[:int(n)]: m['pkg'] = pkg; todo.append(m)
    rng.shuffle(todo)
    q = queue.Queue()
    for m in todo: q.put(m)
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, q, out, lock)) for k in range(int(os.environ.get('WORKERS', '8')))]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
