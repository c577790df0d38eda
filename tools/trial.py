#!/usr/bin/env python3
"""trial.py [-j N] [-p PCT] [BUG[:PROP,...]...]: runs checks against planted bugs in scratch copies.

For each bug of /verif/seeded (all by default) it copies /repo, applies the patch, builds
the harness against the copy and runs the check of the bug's property (or those named)."""
import atexit, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod', GOWORK='off')

HARNESS = os.path.join(tempfile.mkdtemp(prefix='trialh-', dir='/tmp/w'), 'harness')  # as it is now
shutil.copytree(os.path.join(VERIF, 'harness'), HARNESS)
atexit.register(lambda: shutil.rmtree(os.path.dirname(HARNESS)))

def build(repo, dst, race=False):
    mod = os.path.join(dst, 'go.mod')
    s = open(os.path.join(HARNESS, 'go.mod')).read().replace('=> /repo', '=> ' + repo)
    open(mod, 'w').write(s)
    shutil.copy(os.path.join(HARNESS, 'go.sum'), os.path.join(dst, 'go.sum'))
    exe = os.path.join(dst, 'vmon-race' if race else 'vmon')
    r = subprocess.run(['go', 'build', '-modfile=' + mod] + (['-race'] if race else []) + ['-o', exe, '.'],
                       cwd=HARNESS, env=ENV, capture_output=True, text=True)
    return exe if r.returncode == 0 else None, r.stderr

def check(repo, dst, prop, pct=None):
    exe, err = build(repo, dst, prop == 'C07')
    if not exe: return 99, err, 0
    shutil.copy(os.path.join(VERIF, 'known_findings.txt'), dst)
    t = os.path.join(dst, 'tmp'); os.makedirs(t, exist_ok=True)
    env = dict(ENV, VMON_VERIF=dst, VMON_REPO=repo, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), TMPDIR=t)
    if pct: env['VMON_PCT'] = str(pct)
    st = time.time()
    r = subprocess.run([exe, 'check', prop], env=env, capture_output=True, text=True, cwd=dst)
    return r.returncode, r.stdout + r.stderr, time.time() - st

def trial(bug, props, pct):
    d = os.path.join(VERIF, 'seeded', bug)
    tmp = tempfile.mkdtemp(prefix='trial-', dir='/tmp/w')
    try:
        cp = os.path.join(tmp, 'repo'); shutil.copytree('/repo', cp)
        r = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=cp, capture_output=True, text=True)
        if r.returncode: return bug, [('?', 98, r.stderr, 0)]
        props = props or [json.load(open(os.path.join(d, 'meta.json')))['property']]
        return bug, [(p,) + check(cp, tmp, p, pct) for p in props]
    finally:
        shutil.rmtree(tmp)

def main():
    a = sys.argv[1:]; j = 1; pct = None
    while a and a[0] in ('-j', '-p'):
        if a[0] == '-j': j = int(a[1])
        else: pct = int(a[1])
        a = a[2:]
    bugs = a or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    with ThreadPoolExecutor(j) as ex:
        fs = []
        for b in bugs:
            b, _, p = b.partition(':')
            fs.append(ex.submit(trial, b, p.split(',') if p else None, pct))
        for f in fs:
            bug, res = f.result()
            for p, code, out, t in res:
                v = [l for l in out.splitlines() if l.startswith('  [')]
                if code == 1 and 'VIOLATION property=' + p in out:
                    print('%-26s %s CAUGHT %5.1fs %s' % (bug, p, t, v[0].strip()[:130]), flush=True)
                else:
                    print('%-26s %s MISSED (exit %d) %5.1fs %s' % (bug, p, code, t, out.strip()[-300:]), flush=True)
if __name__ == '__main__': main()
