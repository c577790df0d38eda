#!/usr/bin/env python3
"""mutants.py OUT [-j N] [-p PCT] [-s STEP/OF] [PREFIX...]: mutation testing of /repo against the checks.

Every small change (tools/mutate) that builds and passes the stable tests is shown to the checks,
scaled down to PCT percent. OUT gets one JSON object per change: status (nobuild, tests, caught by, survived).
The changes are taken in random order, so that any number of them is a sample."""
import json, os, random, shutil, subprocess, sys, tempfile, threading, queue
sys.argv, ARGV = ['x'], sys.argv[1:]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod', GOWORK='off')
HARNESS = os.path.join(tempfile.mkdtemp(prefix='muth-', dir='/tmp/w'), 'harness')  # as it is now
shutil.copytree(os.path.join(VERIF, 'harness'), HARNESS)
ORDER = 'C01 C15 C13 C12 C11 C17 C18 C19 C04 C03 C02 C05 C06 C08 C09 C10 C14 C16 C20 C21 C22 C26 C27 C23 C24 C25 C07'.split()

def sh(cmd, cwd, timeout, env=ENV):
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return 124, 'timeout'

def main():
    out, j, pct, step, of, prefixes = None, 4, '4', 0, 1, []
    it = iter(ARGV)
    for a in it:
        if a == '-j': j = int(next(it))
        elif a == '-p': pct = next(it)
        elif a == '-s': step, of = map(int, next(it).split('/'))
        elif out is None: out = a
        else: prefixes.append(a)
    files = [f for f in subprocess.run(['git', '-C', '/repo', 'ls-files', '*.go'], capture_output=True, text=True).stdout.split()
             if not f.endswith('_test.go') and not f.startswith('examples') and (not prefixes or any(f.startswith(p) for p in prefixes))]
    exe = os.path.join('/tmp/w', 'mutate'); sh(['go', 'build', '-o', exe, '.'], os.path.join(VERIF, 'tools/mutate'), 100)
    muts = [json.loads(l) for l in subprocess.run([exe] + files, cwd='/repo', capture_output=True, text=True).stdout.splitlines()]
    seen = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); seen.add((d['file'], d['From'], d['To'], d['New']))
    muts = [m for i, m in enumerate(muts) if i % of == step and (m['file'], m['From'], m['To'], m['New']) not in seen]
    print(len(muts), 'changes', flush=True)
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    q = queue.Queue()
    random.Random(1).shuffle(muts)
    for m in muts: q.put(m)
    lock = threading.Lock()
    def worker(k):
        base = tempfile.mkdtemp(prefix='mut-', dir='/tmp/w')
        cp = os.path.join(base, 'repo'); shutil.copytree('/repo', cp, ignore=shutil.ignore_patterns('.git'))
        vf = os.path.join(base, 'v'); os.makedirs(vf)
        mod = os.path.join(base, 'go.mod')
        open(mod, 'w').write(open(os.path.join(HARNESS, 'go.mod')).read().replace('=> /repo', '=> ' + cp))
        shutil.copy(os.path.join(HARNESS, 'go.sum'), os.path.join(base, 'go.sum'))
        shutil.copy(os.path.join(VERIF, 'known_findings.txt'), vf)
        env = dict(ENV, VMON_VERIF=vf, VMON_REPO=cp, VERIF_SEED='1', VMON_PCT=pct, TMPDIR=os.path.join(base, 'tmp'), VMON_WORKERS='2')
        os.makedirs(env['TMPDIR'])
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            p = os.path.join(cp, m['file'])
            src = open(p, 'rb').read()
            open(p, 'wb').write(src[:m['From']] + m['New'].encode() + src[m['To']:])
            try: m['status'] = judge(cp, base, mod, env, m)
            finally: open(p, 'wb').write(src)
            with lock:
                open(out, 'a').write(json.dumps(m) + '\n')
                if m['status'] == 'survived': print(m['file'], m['Line'], m['What'], repr(m['New'])[:80], flush=True)
        shutil.rmtree(base)
    def judge(cp, base, mod, env, m):
        if sh(['go', 'build', './...'], cp, 120)[0]: return 'nobuild'
        rc, o = sh(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '60s', './...'], cp, 150)
        if rc == 124: return 'tests'
        log = os.path.join(base, 'zz.log'); open(log, 'w').write(o)
        sh(['python3', '/opt/vp/results.py', os.path.join(base, 'zz.json'), 'gojson:' + log], cp, 60)
        if want - set(json.load(open(os.path.join(base, 'zz.json')))['passed']): return 'tests'
        exe = os.path.join(base, 'vmon')
        rc, o = sh(['go', 'build', '-modfile=' + mod, '-o', exe, '.'], HARNESS, 200)
        if rc: return 'harness does not build'
        for c in ORDER:
            if c == 'C07': continue
            rc, o = sh([exe, 'check', c], env['VMON_VERIF'], 240, env)
            if rc == 1 and 'VIOLATION' in o: return 'caught ' + c
            if rc: return 'odd %s %d' % (c, rc)
        return 'survived'
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(j)]
    for t in ts: t.start()
    for t in ts: t.join()
main()
shutil.rmtree(os.path.dirname(HARNESS))
