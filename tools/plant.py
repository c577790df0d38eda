#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: makes and confirms planted bugs.

A spec defines BUGS, a list of dicts: id, property, file edits [(file, old, new)],
needs, breaks, demo (Go statements of a test, with the helpers of HELP at hand)
and optionally race=True and imports. Each bug is made in a scratch copy of
/repo; it is kept in /verif/seeded/<id> when the copy builds, its stable tests
pass, and the demo passes without and fails with the change."""
import json, os, shutil, subprocess, sys, tempfile, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod')
HELP = '''
type tst interface {
	Fatalf(string, ...interface{})
}

type req struct {
	method, url, proto string
	h                  http.Header
	body               string
	code               int
	rh                 http.Header
	rbody              string
	src                string
}

func engine(t tst, text string) *ms.Engine {
	ds, err := seclang.NewDireSetFromSecLangString(text)
	if err != nil {
		t.Fatalf("text refused: %v", err)
	}
	e := ms.NewEngine()
	e.TmpPath, _ = os.MkdirTemp(os.Getenv("DEMO_SCRATCH"), "tmp")
	if err := ds.Execute(e); err != nil {
		t.Fatalf("execute: %v", err)
	}
	return e
}

func tx(t tst, e *ms.Engine) *ms.Transaction {
	x, err := e.NewTransaction()
	if err != nil {
		t.Fatalf("transaction: %v", err)
	}
	return x
}

// step runs phase p (1..6) of a transaction.
func (q *req) step(x *ms.Transaction, p int) {
	switch p {
	case 1:
		src := q.src
		if src == "" {
			src = "192.0.2.7"
		}
		x.ProcessConnection(src, "1234", "192.0.2.1", "80")
	case 2:
		m := q.method
		if m == "" {
			m = "GET"
		}
		u, err := url.Parse(q.url)
		if err == nil {
			x.ProcessRequestURL(u, m, "HTTP/1.1")
		}
		x.ProcessRequestHeader(q.h)
	case 3:
		if q.body != "" {
			x.AppendRequestBody([]byte(q.body))
		}
		x.ProcessRequestBody()
	case 4:
		c := q.code
		if c == 0 {
			c = 200
		}
		x.ProcessResponseHeaders(c, "HTTP/1.1", q.rh)
	case 5:
		if q.rbody != "" {
			x.AppendResponseBody([]byte(q.rbody))
		}
		x.ProcessResponseBody()
	case 6:
		x.ProcessLogging()
	}
}

// run plays a whole transaction; out[p] is the result after phase p.
func (q *req) run(t tst, e *ms.Engine) []*ms.Intervention {
	x := tx(t, e)
	out := []*ms.Intervention{nil}
	for p := 1; p <= 6; p++ {
		q.step(x, p)
		out = append(out, x.Result())
	}
	x.Request.Body.Close()
	x.Response.Body.Close()
	return out
}

// denied is the status of the first interception, 0 if there was none.
func (q *req) denied(t tst, text string) int {
	for _, r := range q.run(t, engine(t, text))[1:] {
		if r.Disruptive {
			return r.Status
		}
	}
	return 0
}

func form(h http.Header) http.Header {
	if h == nil {
		h = http.Header{}
	}
	h.Set("Content-Type", "application/x-www-form-urlencoded")
	return h
}

func within(t tst, what string, f func()) {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatalf("%s does not end", what)
	}
}
'''
STD = ['net/http', 'net/url', 'os', 'testing', 'time', 'ms github.com/senghoo/modsecurity-go/modsecurity', 'github.com/senghoo/modsecurity-go/seclang']
SH = '''#!/bin/bash
# Runs demo_test.go.txt as an extra test file of package utils at the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
DEMO_SCRATCH=$(mktemp -d) || exit 2
export DEMO_SCRATCH TMPDIR="$DEMO_SCRATCH"
trap 'rm -rf "$DEMO_SCRATCH"' EXIT
printf '{"Replace":{"%s/utils/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$here" > "$DEMO_SCRATCH/overlay.json"
go test RACE-vet=off -count=1 -timeout 120s -overlay "$DEMO_SCRATCH/overlay.json" -run 'TestDemo$' ./utils
'''

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)

def stable(cwd):
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    out = run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '5m', './...'], cwd)
    log = os.path.join(cwd, 'zz.log'); open(log, 'w').write(out.stdout)
    run(['python3', '/opt/vp/results.py', os.path.join(cwd, 'zz.json'), 'gojson:' + log], cwd)
    got = set(json.load(open(os.path.join(cwd, 'zz.json')))['passed'])
    os.remove(log); os.remove(os.path.join(cwd, 'zz.json'))
    return sorted(want - got)

def write(bug, d):
    os.makedirs(d, exist_ok=True)
    imps = []
    body = 'func TestDemo(t *testing.T) {\n' + bug['demo'].strip('\n') + '\n}\n' + bug.get('more', '')
    for i in STD + bug.get('imports', []):
        imps.append('\t' + (i.split()[0] + ' "' + i.split()[1] + '"' if ' ' in i else '"' + i + '"'))
    src = 'package utils_test\n\nimport (\n' + '\n'.join(imps) + '\n)\n\n' + body + HELP
    open(os.path.join(d, 'demo_test.go.txt'), 'w').write(src)
    p = os.path.join(d, 'demo.sh')
    open(p, 'w').write(SH.replace('RACE', '-race ' if bug.get('race') else ''))
    os.chmod(p, 0o755)
    json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    root = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
    for bug in ns['BUGS']:
        if only and bug['id'] not in only: continue
        tmp = tempfile.mkdtemp(prefix='plant-', dir='/tmp/w')
        try:
            cp = os.path.join(tmp, 'repo')
            shutil.copytree('/repo', cp)
            d = os.path.join(tmp, 'out')
            write(bug, d)
            run(['gofmt', '-w', '-l', '.'], d)
            a = run([os.path.join(d, 'demo.sh')], cp)
            if a.returncode:
                print(bug['id'], 'DEMO FAILS ON THE UNCHANGED TREE', (a.stdout + a.stderr)[-1500:]); continue
            bad = False
            for f, old, new in bug['edits']:
                p = os.path.join(cp, f); s = open(p).read()
                if s.count(old) != 1:
                    print(bug['id'], 'EDIT DOES NOT APPLY', f, s.count(old)); bad = True; break
                open(p, 'w').write(s.replace(old, new))
            if bad: continue
            files = sorted({f for f, _, _ in bug['edits']})
            run(['gofmt', '-w'] + files, cp)
            diff = run(['git', 'diff', '--'] + files, cp).stdout
            # which removed lines are of the original repository?
            mine = orig = 0
            for f in files:
                blame = run(['git', 'blame', '-s', '-l', '--root', 'HEAD', '--', f], cp).stdout.splitlines()
                h = run(['git', 'diff', '-U0', '--', f], cp).stdout
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', h, re.M):
                    st, n = int(m[1]), int(m[2] or 1)
                    for k in range(st, st + n):
                        if blame[k-1].lstrip('^').startswith(root[:38]): orig += 1
                        else: mine += 1
            b = run(['go', 'build', './...'], cp)
            if b.returncode:
                print(bug['id'], 'DOES NOT BUILD', b.stderr[-800:]); continue
            lost = stable(cp)
            if lost:
                print(bug['id'], 'TESTS CATCH IT', lost[:4]); continue
            b = run([os.path.join(d, 'demo.sh')], cp)
            if b.returncode == 0:
                print(bug['id'], 'DEMO PASSES WITH THE BUG'); continue
            if '[build failed]' in b.stdout or '[setup failed]' in b.stdout:
                print(bug['id'], 'DEMO DOES NOT BUILD', b.stdout[-500:]); continue
            out = os.path.join(VERIF, 'seeded', bug['id'])
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(d, out)
            open(os.path.join(out, 'patch.diff'), 'w').write(diff)
            why = [l for l in b.stdout.splitlines() if 'demo_test' in l or 'panic' in l or 'RACE' in l]
            print(bug['id'], 'KEPT  original lines changed: %d, own: %d; %s' % (orig, mine, (why or ['?'])[0].strip()[:150]))
        finally:
            shutil.rmtree(tmp)
main()
