package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
)

func init() {
	register(&Prop{ID: "C08", Quick: 60000, Thorough: 1500000, Run: runC08,
		Rule: "random histories of append, read, stream, seek, length and whole-body access on the request and response bodies of two transactions at once, under random limits, against a byte model; and the same traffic in two chunkings through every variable; non-trivial: at least two accepted chunks or a spilled body"})
	register(&Prop{ID: "C09", Quick: 60000, Thorough: 1000000, Run: runC09,
		Rule: "all sequences of 4 chunks (3 for the largest limits in the quick tier) of 0..7 bytes under all limits up to 6 bytes, random sequences around random and default limits, and every body variable on bodies around the in-memory limit; non-trivial: at least one chunk touches a limit"})
	register(&Prop{ID: "C10", Quick: 30000, Thorough: 600000, Run: runC10, Level: "fault_enumeration",
		Rule:   "every (fault kind, append at which it strikes, at which it ends) of random append histories; fault kinds: directory removed, replaced by a file or dangling link, file size limit at random offsets, descriptor limit; multipart uploads with and without faults; non-trivial: the fault made an append fail or a file was created",
		Assume: []string{"faults are those a process can meet without privileges: missing directories, EFBIG, EMFILE; not EIO on reads"},
		Init:   func(*Ctx) { signal.Ignore(syscall.SIGXFSZ) }})
}

// bodyIO is the interface of a transaction's body.
type bodyIO interface {
	io.ReadWriteSeeker
	io.WriterTo
	String() (string, error)
	Bytes() ([]byte, error)
	Len() int64
	Close() error
}

// mbody models one body.
type mbody struct {
	c       *Ctx
	name    string
	b       bodyIO
	app     func([]byte) error
	mem     int64
	lim     int64
	want    []byte
	pos     int64
	read    bool // a read access happened
	seen    bool // content was read
	lost    bool // the position is not specified
	tr      []string
	chunksN int
	big     bool // chunks may be huge
}

func (m *mbody) note(f string, a ...interface{}) {
	m.tr = append(m.tr, fmt.Sprintf(f, a...))
	tr := m.tr
	if len(tr) > 60 {
		tr = tr[len(tr)-60:]
	}
	m.c.Set(m.name, fmt.Sprintf("limits %d/%d: %s", m.mem, m.lim, strings.Join(tr, "; ")))
}

// write appends a chunk and checks acceptance.
func (m *mbody) write(p []byte) error {
	q := append([]byte(nil), p...)
	var err error
	n := len(p)
	if m.app != nil && m.c.R.P(60) {
		err = m.app(q)
	} else {
		n, err = m.b.Write(q)
	}
	m.note("append %d: %v", len(p), err)
	for i := range q {
		q[i] ^= 0xA5
	}
	over := int64(len(m.want))+int64(len(p)) > m.lim
	switch {
	case over && err == nil:
		m.c.Fail("over-limit", "%s: a chunk of %d bytes was accepted with %d bytes held and a limit of %d", m.name, len(p), len(m.want), m.lim)
	case !over && err != nil && !m.read:
		m.c.Fail("chunk-refused", "%s: a chunk of %d bytes was refused (%v) with %d bytes held and a limit of %d", m.name, len(p), err, len(m.want), m.lim)
	case m.seen && len(p) > 0 && err == nil:
		m.c.Fail("append-after-read", "%s: a chunk of %d bytes was accepted after the body had been read", m.name, len(p))
	case err == nil && n != len(p):
		m.c.Fail("chunk-cut", "%s: %d of %d bytes accepted without an error", m.name, n, len(p))
	}
	if err == nil {
		m.want = append(m.want, p...)
		m.chunksN++
		m.c.Count("chunks_accepted", 1)
	} else {
		m.c.Count("chunks_refused", 1)
	}
	m.length()
	return err
}

func (m *mbody) length() {
	if n := m.b.Len(); n != int64(len(m.want)) {
		m.c.Fail("length", "%s: length %d, want %d", m.name, n, len(m.want))
	}
}

func (m *mbody) rest() []byte {
	if m.pos >= int64(len(m.want)) {
		return nil
	}
	return m.want[m.pos:]
}

func (m *mbody) readN(k int) {
	m.read, m.seen = true, true
	if m.lost {
		m.seek(0, io.SeekStart)
	}
	p := make([]byte, k)
	n, err := m.b.Read(p)
	m.note("read %d: %d %v", k, n, err)
	rest := m.rest()
	if n < 0 || n > k || n > len(rest) || !bytes.Equal(p[:n], rest[:n]) {
		m.c.Fail("read-content", "%s: a read of %d bytes at %d returned %s, want a prefix of %s", m.name, k, m.pos, short(p[:max(0, min(n, k))]), short(rest))
	}
	if n == 0 && k > 0 {
		if len(rest) > 0 {
			m.c.Fail("read-stuck", "%s: a read of %d bytes at %d of %d returned nothing (%v)", m.name, k, m.pos, len(m.want), err)
		}
		if err != io.EOF {
			m.c.Fail("read-end", "%s: a read at the end returned %v, want EOF", m.name, err)
		}
	}
	if err != nil && (err != io.EOF || n < len(rest)) {
		m.c.Fail("read-error", "%s: a read of %d bytes at %d of %d failed: %v", m.name, k, m.pos, len(m.want), err)
	}
	for i := range p {
		p[i] ^= 0xA5
	}
	m.pos += int64(n)
	m.c.Count("bytes_read_back", n)
}

type failWriter struct{ left int }

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, errors.New("writer failed")
	}
	w.left -= len(p)
	return len(p), nil
}

func (m *mbody) stream() {
	m.read, m.seen = true, true
	if m.lost {
		m.seek(0, io.SeekStart)
	}
	rest := m.rest()
	if m.c.R.P(15) && len(rest) > 0 { // the peer goes away
		m.b.WriteTo(&failWriter{m.c.R.N(len(rest))})
		m.lost = true
		m.note("stream to a failing writer")
		return
	}
	var w bytes.Buffer
	n, err := m.b.WriteTo(&w)
	m.note("stream: %d %v", n, err)
	if err != nil || n != int64(len(rest)) || !bytes.Equal(w.Bytes(), rest) {
		m.c.Fail("stream", "%s: streaming from %d returned %d, %v and %s, want %s", m.name, m.pos, n, err, short(w.Bytes()), short(rest))
	}
	if m.pos < int64(len(m.want)) {
		m.pos = int64(len(m.want))
	}
	m.c.Count("bytes_read_back", int(n))
}

func (m *mbody) seek(off int64, whence int) {
	m.read = true
	base := int64(0)
	switch whence {
	case io.SeekCurrent:
		if m.lost {
			whence = io.SeekStart
		} else {
			base = m.pos
		}
	case io.SeekEnd:
		base = int64(len(m.want))
	}
	n, err := m.b.Seek(off, whence)
	m.note("seek %d,%d: %d %v", off, whence, n, err)
	to := base + off
	if to < 0 {
		if err == nil {
			m.c.Fail("seek-negative", "%s: seeking to %d succeeded", m.name, to)
		}
		return
	}
	if err != nil || n != to {
		m.c.Fail("seek", "%s: seeking to %d returned %d, %v", m.name, to, n, err)
	}
	m.pos = to
	m.lost = false
}

func (m *mbody) whole() {
	m.read, m.seen = true, true
	var got []byte
	var err error
	if m.c.R.P(50) {
		var s string
		s, err = m.b.String()
		got = []byte(s)
		m.note("string: %d %v", len(s), err)
	} else {
		got, err = m.b.Bytes()
		m.note("bytes: %d %v", len(got), err)
	}
	if err == nil && !bytes.Equal(got, m.want) {
		m.c.Fail("whole", "%s: access as a whole returned %s without an error, want %s", m.name, short(got), short(m.want))
	}
	if err != nil && int64(len(m.want)) <= m.mem {
		m.c.Fail("whole-refused", "%s: access to %d bytes (in-memory limit %d) failed: %v", m.name, len(m.want), m.mem, err)
	}
	if err != nil {
		m.c.Count("whole_refused", 1)
	}
}

// readAll rewinds and reads everything in random pieces.
func (m *mbody) readAll() {
	m.seek(0, io.SeekStart)
	if m.c.R.P(40) {
		m.stream()
		if m.lost {
			m.readAll()
		}
		return
	}
	for n := 0; m.pos < int64(len(m.want)); n++ {
		k := m.c.R.Size(len(m.want)+10, 1, 2, 512, 4096, 32768)
		if n > 300 || k == 0 {
			k = len(m.want)
		}
		m.readN(k)
	}
	m.readN(1 + m.c.R.N(5))
}

func (m *mbody) step() {
	r := m.c.R
	n := len(m.want)
	switch r.N(8) {
	case 0, 1, 2:
		k := r.Size(n+20, 1, 2, 7, 512, 4096)
		m.readN(k)
	case 3:
		m.stream()
	case 4:
		m.seek(int64(r.Range(-n/2-2, n+3)), r.N(3))
	case 5:
		m.whole()
	case 6:
		m.length()
	case 7:
		m.readAll()
	}
}

func bodyLimits(r *Rand, e *ms.Engine) {
	switch r.N(4) {
	case 0: // tiny
		e.RequestBodyInMem = int64(r.N(20))
		e.RequestBody = e.RequestBodyInMem + int64(r.N(60))
		e.ResponseBody = int64(r.N(60))
	case 1:
		e.RequestBodyInMem = int64(r.N(5000))
		e.RequestBody = int64(r.N(20000))
		e.ResponseBody = int64(r.N(5000))
	case 2:
		e.RequestBodyInMem = int64(r.Size(70000))
		e.RequestBody = int64(r.Size(400000))
		e.ResponseBody = int64(r.Size(100000))
	}
}

func newBodies(c *Ctx, t *ms.Transaction, tag string) []*mbody {
	e := t.Engine
	return []*mbody{
		{c: c, name: "request body" + tag, b: t.Request.Body, app: t.AppendRequestBody, mem: e.RequestBodyInMem, lim: e.RequestBody},
		{c: c, name: "response body" + tag, b: t.Response.Body, app: t.AppendResponseBody, mem: e.ResponseBody, lim: e.ResponseBody},
	}
}

func (m *mbody) chunkSize() int {
	r := m.c.R
	left := m.lim - int64(len(m.want))
	if m.big && r.P(30) {
		n := r.PickInt(1<<uint(r.Range(16, 22)), r.N(5000000), int(left)) + r.Range(-1, 1)
		if n >= 0 && n <= 1<<24 {
			return n
		}
	}
	switch r.N(6) {
	case 0:
		return r.N(4)
	case 1: // up to a limit or one beyond
		n := left + int64(r.Range(-1, 1))
		if n >= 0 && n <= 300000 {
			return int(n)
		}
	case 2:
		n := m.mem - int64(len(m.want)) + int64(r.Range(-1, 1))
		if n >= 0 && n <= 300000 {
			return int(n)
		}
	case 3:
		return r.Size(140000)
	}
	return r.N(200)
}

func runC08(c *Ctx) {
	if c.I%3 == 0 {
		c08Rules(c)
		return
	}
	r := c.R
	// rules that do not look at bodies, in some of the cases
	text := ""
	for k := r.PickInt(0, 0, 1, 2, 3); k > 0; k-- {
		text += fmt.Sprintf("SecRule REMOTE_ADDR \"@rx .\" \"id:%d,phase:%d,%s\"\n", k, r.Range(1, 5), r.Pick("allow", "allow:request", "allow:phase", "deny", "log", "status:503,deny", "pass", "skip"))
	}
	if text != "" {
		text += fmt.Sprintf("SecRuleEngine %s\nSecRequestBodyAccess %s\nSecResponseBodyAccess %s\n", r.Pick("On", "On", "DetectionOnly", "Off"), r.Pick("On", "Off"), r.Pick("On", "Off"))
	}
	c.Set("rules", text)
	e := c.load(text)
	bodyLimits(r, e)
	big := c.I%1000 == 1
	if big {
		e.RequestBody = int64(r.Range(1, 20) << 20)
		e.ResponseBody = int64(r.Range(1, 6) << 20)
		e.RequestBodyInMem = int64(r.PickInt(0, 1000, 131072, 1<<20, 3<<20))
	}
	var ms_ []*mbody
	var calls []func()
	for k := r.Range(1, 2); k > 0; k-- {
		t := c.tx(e)
		defer closeTx(t)
		ms_ = append(ms_, newBodies(c, t, fmt.Sprint(" of ", k))...)
		for _, m := range ms_ {
			m.big = big
		}
		if text == "" {
			continue
		}
		x := &Traffic{Src: "192.0.2.1", Method: r.Pick("GET", "POST", "PUT", "HEAD"), Path: "/", Proto: "HTTP/1.1", Header: http.Header{"Content-Type": {r.Pick(urlencodedType, "text/plain", "multipart/form-data; boundary=x")}}, Code: 200}
		for p := 1; p <= 6; p++ {
			p := p
			calls = append(calls, func() {
				if r.P(80) {
					x.stage(c, t, p)
				}
				if r.P(20) {
					t.Result()
				}
			})
		}
		if r.P(10) {
			calls = append(calls, func() { t.AbortWithStatus(500) })
		}
	}
	for n := r.N(25); n > 0; n-- {
		for len(calls) > 0 && r.P(40) { // the transactions go on meanwhile
			calls[0]()
			calls = calls[1:]
		}
		m := pick(r, ms_)
		m.write(r.Bytes(m.chunkSize()))
	}
	for n := r.N(25); n > 0; n-- {
		m := pick(r, ms_)
		if !m.read || r.P(90) {
			m.step()
		} else {
			m.write(r.Bytes(r.N(20)))
			m.lost = true // where the next read starts is left open
		}
		c.Eval(1)
	}
	for _, m := range ms_ {
		m.whole()
		m.readAll()
		m.length()
		if m.chunksN > 1 || int64(len(m.want)) > m.mem {
			c.Distinct(m.tr)
		}
		if int64(len(m.want)) > m.mem {
			c.Count("spilled_bodies", 1)
		}
		c.Max("body_bytes", len(m.want))
	}
	c.Sample(strings.Join(ms_[0].tr, "; "))
}

// fetchers are rules whose variables are looked at directly.
type fetchers struct {
	e    *ms.Engine
	vars map[string]ms.Variable
}

func anyMode(r *Rand) int {
	return r.PickInt(ms.StatusOn, ms.StatusOn, ms.StatusOn, ms.StatusDect, ms.StatusOff)
}

func (c *Ctx) fetchers(text string, vars []string) *fetchers {
	f := &fetchers{vars: map[string]ms.Variable{}}
	var b strings.Builder
	b.WriteString(text)
	for i, v := range vars {
		fmt.Fprintf(&b, "SecRule %s \"@rx ^$\" \"id:%d,phase:2\"\n", v, i+1)
	}
	f.e = c.load(b.String())
	for _, rule := range f.e.RuleSet.Phases[2] {
		f.vars[vars[rule.Id-1]] = rule.Variables[0]
	}
	f.e.RuleSet = ms.NewSecRuleSet()
	f.e.Enable(anyMode(c.R)) // of no concern to variables
	return f
}

// c08Rules checks that what rules see does not depend on the chunking.
func c08Rules(c *Ctx) {
	r := c.R
	req, res := r.P(80), r.P(80)
	text := fmt.Sprintf("SecRequestBodyAccess %s\nSecResponseBodyAccess %s\n", onOff(req), onOff(res))
	f := c.fetchers(text, allVars)
	x := genTraffic(r, &tprofile{wild: 20, maxLen: 131072, bigs: []int{5000, 140000}})
	v := viewOf(f.e)
	if r.P(40) { // limits close to the bodies
		f.e.RequestBodyInMem = int64(len(x.Body) + r.N(3))
		f.e.RequestBody = f.e.RequestBodyInMem
		f.e.ResponseBody = int64(len(x.RBody) + r.N(3))
		if x.bodyType() == "multipart" {
			f.e.RequestBodyInMem = int64(r.N(len(x.Body) + 1))
		}
	}
	c.Set("traffic", x.String())
	for k := 0; k < 2; k++ {
		t := c.tx(f.e)
		x.play(c, t, false)
		for _, n := range []string{"REQUEST_BODY", "ARGS", "ARGS_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "RESPONSE_BODY"} {
			got := f.vars[n].Fetch(t)
			want := refSelect([]Sel{{Var: n}}, func(s string) ([]Entry, bool) { return x.ref(s, v) })
			c.Eval(1)
			if !sameBag(got, want) && !(strings.HasSuffix(n, "_NAMES") && sameSet(got, want)) {
				c.Fail("rule-view", "%s is %q, want %q", n, got, want)
			}
			c.Count("values_compared", len(want))
		}
		if k == 0 && t.Abort {
			c.Fail("rule-abort", "the transaction was aborted although its body is within the limits")
		}
		// the body is still there, whole, for the application
		for _, m := range newBodies(c, t, "") {
			m.want = x.Body
			if strings.HasPrefix(m.name, "response") {
				m.want = x.RBody
			}
			m.readAll()
		}
		closeTx(t)
	}
	if len(x.Body)+len(x.RBody) > 0 {
		c.Distinct(x.String(), req, res)
	}
}

func onOff(b bool) string {
	if b {
		return "On"
	}
	return "Off"
}

// ---- C09 --------------------------------------------------------------------

// c09Tiny: all limits up to 6 and all sequences of up to 4 chunks.
func c09Tiny(c *Ctx, k int) {
	f, m := int64(k/7), int64(k%7)
	e := c.newEngine()
	e.RequestBody, e.RequestBodyInMem, e.ResponseBody = f, m, f
	data := []byte("abcdefghijklmnopqrstuvwxyz0123456789")
	depth := 4
	if f > 4 && c.Tier == "quick" {
		depth = 3
	}
	var rec func(sizes []int)
	rec = func(sizes []int) {
		if len(sizes) == depth {
			t := c.tx(e)
			for _, b := range newBodies(c, t, "") {
				off := 0
				for _, n := range sizes {
					if b.write(data[off:off+n]) == nil {
						off += n
					} else {
						off++ // refused bytes must not show up
					}
				}
				got, err := io.ReadAll(b.b)
				if err != nil || !bytes.Equal(got, b.want) {
					c.Fail("tiny-content", "%s: read back %q, %v, want %q", b.name, got, err, b.want)
				}
				b.whole()
			}
			closeTx(t)
			c.Eval(1)
			c.Count("tiny_sequences", 1)
			c.Distinct(k, fmt.Sprint(sizes))
			return
		}
		for n := 0; n <= int(f)+1 && n <= 7; n++ {
			rec(append(sizes[:len(sizes):len(sizes)], n))
		}
	}
	rec(nil)
}

const tinyCases = 49

func runC09(c *Ctx) {
	r := c.R
	switch {
	case c.I < tinyCases:
		c09Tiny(c, c.I)
		return
	case c.I < tinyCases+2 || c.Tier == "thorough" && c.I%20000 == 0:
		c09Huge(c)
		return
	case c.I%400 == 1:
		c09Parts(c)
		return
	case c.I%2 == 0:
		c09Inspect(c)
		return
	}
	e := c.newEngine()
	bodyLimits(r, e)
	t := c.tx(e)
	defer closeTx(t)
	bs := newBodies(c, t, "")
	touched := false
	for n := r.Range(1, 12); n > 0; n-- {
		m := pick(r, bs)
		size := m.chunkSize()
		touched = touched || int64(len(m.want)+size) >= m.lim
		m.write(r.Bytes(size))
		c.Eval(1)
	}
	for _, m := range bs {
		if int64(len(m.want)) > m.lim {
			c.Fail("over-limit", "%s holds %d bytes, limit %d", m.name, len(m.want), m.lim)
		}
		for n := r.N(6); n > 0; n-- { // whatever way the content was read
			switch r.N(4) {
			case 0:
				m.readN(r.N(20))
			case 1:
				m.stream()
			case 2:
				m.whole()
			case 3:
				m.write(r.Bytes(m.chunkSize()))
				m.lost = true
			}
		}
		m.readAll()
		m.whole()
		if touched {
			c.Distinct(m.tr)
		}
	}
}

// c09Huge fills bodies to the default limits.
func c09Huge(c *Ctx) {
	r := c.R
	e := c.newEngine()
	t := c.tx(e)
	defer closeTx(t)
	for _, m := range newBodies(c, t, "") {
		big := bytes.Repeat([]byte("0123456789abcdef"), 1<<20) // 16 MiB
		for int64(len(m.want)) < m.lim {
			n := int64(len(big)) - int64(r.N(1000))
			if left := m.lim - int64(len(m.want)); n > left {
				n = left
				if r.P(50) {
					m.write(big[:n+1]) // one too many
				}
			}
			m.write(big[:n])
		}
		m.write(nil)
		m.write([]byte{1})
		m.write(big[:4097])
		m.seek(0, io.SeekStart)
		m.stream()
		c.Eval(1)
	}
	c.Distinct("default limits", c.I)
	c.Count("default_limit_runs", 1)
}

// c09Parts: multipart bodies of many or large parts are inspected in full or
// refused.
func c09Parts(c *Ctx) {
	r := c.R
	x := &Traffic{Src: "192.0.2.1", Path: "/", Method: r.Pick("POST", "PUT", "PATCH"), Proto: "HTTP/1.1", Header: http.Header{"Content-Type": {"multipart/form-data; boundary=BB"}}, Code: 200}
	var b bytes.Buffer
	part := func(disp string, v []byte) {
		fmt.Fprintf(&b, "--BB\r\nContent-Disposition: form-data; %s\r\n\r\n%s\r\n", disp, v)
	}
	inmem := r.PickInt(0, 10, 1000, 131072, 1<<20)
	n, size := r.PickInt(1, 10, 500, 995+r.N(10), 999, 1000, 1001, 1002, 1500, 3000), r.N(40)
	if c.I%2000 == 1 { // or few and large
		n = r.Range(1, 4)
		size = (inmem+10<<20)/n + r.PickInt(-200000, -20000, -400, -1, 0, 1, 400, 20000, 1000000, 5000000)
	}
	var want []string
	for i := 0; i < n; i++ {
		v := bytes.Repeat([]byte{byte('a' + r.N(26))}, size)
		if r.P(2) {
			part(`name="f"; filename="x"`, v)
			continue
		}
		part(fmt.Sprintf(`name="n%d"`, i), v)
		want = append(want, string(v))
	}
	part(`name="last"`, []byte("attack"))
	want = append(want, "attack")
	b.WriteString("--BB--\r\n")
	x.Body = b.Bytes()
	name := r.Pick("ARGS", "ARGS_POST", "ARGS_NAMES", "ARGS_POST_NAMES")
	c.Set("traffic", fmt.Sprintf("%d parts of %d bytes, in-memory limit %d, looked at through %s", n+1, size, inmem, name))
	f := c.fetchers("SecRequestBodyAccess On\n", []string{name})
	f.e.RequestBodyInMem = int64(inmem)
	f.e.RequestBody = 1 << 28
	t := x.announce(c, f.e)
	defer closeTx(t)
	got := f.vars[name].Fetch(t)
	c.Eval(1)
	c.Distinct(n, size, inmem, name)
	if strings.HasSuffix(name, "NAMES") && len(got) == len(want) || sameBag(got, want) {
		c.Count("parts_inspected", len(want))
		return
	}
	i := t.Result()
	i.Disruptive = i.Disruptive || !f.e.Enabled // only reported when on
	c.Count("parts_refused", len(want))
	if !t.Abort || !i.Disruptive || i.Status != 413 {
		c.Fail("not-closed", "a multipart body of %d parts of %d bytes presented %d of %d arguments: disruptive=%v status=%d abort=%v, want a 413", n+1, size, len(got), len(want), i.Disruptive, i.Status, t.Abort)
	}
	if t.RequestBodyError == nil {
		c.Fail("no-body-error", "a multipart body of %d parts of %d bytes was refused: no body error is recorded", n+1, size)
	}
}

// c09Inspect: bodies around the in-memory limit, inspected by one variable.
func c09Inspect(c *Ctx) {
	r := c.R
	limit := r.PickInt(1, 2, 3, 10, 50, 100, 200, 1000, 4096, 131072)
	delta := r.Range(-2, 3)
	size := limit + delta
	if size < 1 {
		size = 1
	}
	x := oversized(r, limit)
	q := genQuery(r, 5)
	for len(q) < size {
		q += "&" + pick(r, argNames) + "=" + r.From("abcdef0123456789", r.Range(1, 1+size/4))
	}
	x.Body = []byte(q[:size])
	if size > 8 { // something to find at the very end
		copy(x.Body[size-8:], []byte("&endz=at"))
	}
	s := bodySel(r)
	s.Excl = false
	if s.Key != "" && !s.Count {
		s.Key = ""
	}
	rule := &Rule{ID: 1, Phase: r.Range(3, 5), Sels: []Sel{s}, Acts: []Act{{"log", ""}}}
	rule.Op, rule.Arg, rule.Not = "rx", "(?s)^.*$", false
	text := "SecRequestBodyAccess On\n" + rule.text()
	c.Set("rules", text)
	e := c.load(text)
	e.RequestBodyInMem = int64(limit)
	detect := r.P(25)
	if detect {
		e.Enable(ms.StatusDect)
	}
	var seen []string
	looks := 0
	for _, rs := range e.RuleSet.Phases {
		for _, sr := range rs {
			for i, v := range sr.Variables {
				sr.Variables[i] = &recVar{v, func(_ *ms.Transaction, vs []string) {
					seen = append(seen, vs...)
					looks++
				}}
			}
		}
	}
	c.Set("traffic", fmt.Sprintf("limit %d: %s", limit, x))
	t := c.tx(e)
	defer closeTx(t)
	for p := 1; p <= rule.Phase; p++ {
		x.stage(c, t, p)
	}
	i := t.Result()
	i.Disruptive = i.Disruptive || detect && t.Abort // only reported when on
	c.Eval(1)
	c.Sample(fmt.Sprintf("limit %d, body of %d bytes, %s: disruptive=%v status=%d", limit, size, s, i.Disruptive, i.Status))
	c.Distinct(limit, size, s.String(), string(x.Body))
	if size > limit {
		c.Count("oversized", 1)
		if !i.Disruptive || i.Status != 413 || !t.Abort {
			c.Fail("not-closed", "a body of %d bytes (limit %d) was inspected by %s: disruptive=%v status=%d abort=%v, want a 413", size, limit, s, i.Disruptive, i.Status, t.Abort)
		}
		if t.RequestBodyError == nil {
			c.Fail("no-body-error", "a body of %d bytes (limit %d) was inspected by %s: no body error is recorded", size, limit, s)
		}
		return
	}
	c.Count("within_limit", 1)
	if i.Disruptive || t.Abort {
		c.Fail("closed-within", "a body of %d bytes (limit %d) aborted the transaction with %d", size, limit, i.Status)
	}
	want := refSelect(rule.Sels, func(n string) ([]Entry, bool) { return x.ref(n, viewOf(e)) })
	if looks == 0 {
		c.Fail("not-inspected", "a body of %d bytes (limit %d) was not inspected", size, limit)
	}
	if !sameBag(seen, want) && !(strings.HasSuffix(s.Var, "_NAMES") && sameSet(seen, want)) {
		c.Fail("inspected-partly", "%s on a body of %d bytes (limit %d) is %q, want %q", s, size, limit, seen, want)
	}
}

// ---- C10 --------------------------------------------------------------------

type fault struct {
	kind string
	size int64
}

var faultKinds = []string{"removed", "replaced", "dangling", "fsize", "fsize", "fsize", "nofile"}

// arm lets the fault strike; the returned function ends it.
func (f *fault) arm(dir string) func() {
	moved := dir + ".away"
	switch f.kind {
	case "removed", "replaced", "dangling":
		if os.Rename(dir, moved) != nil {
			return func() {}
		}
		switch f.kind {
		case "replaced":
			os.WriteFile(dir, nil, 0600)
		case "dangling":
			os.Symlink(dir+".nowhere", dir)
		}
		return func() {
			os.RemoveAll(dir)
			os.Rename(moved, dir)
		}
	case "fsize":
		return limitTo(syscall.RLIMIT_FSIZE, uint64(f.size))
	case "nofile":
		return limitTo(syscall.RLIMIT_NOFILE, 3)
	}
	return func() {}
}

func limitTo(res int, n uint64) func() {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(res, &old); err != nil {
		panic(err)
	}
	lim := old
	lim.Cur = n
	if err := syscall.Setrlimit(res, &lim); err != nil {
		panic(err)
	}
	return func() { syscall.Setrlimit(res, &old) }
}

func listing(dirs ...string) []string {
	var out []string
	for _, d := range dirs {
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil && p != d {
				out = append(out, p)
			}
			return nil
		})
	}
	return out
}

// openUnder lists the descriptors of files under a directory, removed or not.
func openUnder(dir string) []int {
	var out []int
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(to, dir+"/") {
			n, _ := strconv.Atoi(fd.Name())
			out = append(out, n)
		}
	}
	return out
}

// deletedOpen lists files under a directory that are removed but still open.
func deletedOpen(dir string) []string {
	var out []string
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if n, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(n, dir) && strings.HasSuffix(n, " (deleted)") {
			out = append(out, n)
		}
	}
	return out
}

func runC10(c *Ctx) {
	if c.I%4 == 3 {
		c10Multipart(c)
		return
	}
	r := c.R
	e := c.newEngine()
	e.TmpPath = filepath.Join(c.Scratch, fmt.Sprintf("t%d", c.I))
	defer os.RemoveAll(e.TmpPath)
	e.RequestBodyInMem = int64(r.PickInt(0, 1, 5, 20, 100, 1000, 5000, r.N(300)))
	e.RequestBody = e.RequestBodyInMem + int64(r.PickInt(0, 10, 100, 1000, 10000, 100000))
	e.ResponseBody = int64(r.N(200))
	n := r.Range(1, 7)
	var sizes []int
	for i := 0; i < n; i++ {
		sizes = append(sizes, r.PickInt(0, 1, r.N(10), r.N(100), r.N(int(e.RequestBodyInMem)+2), r.N(1000), r.N(9000)))
	}
	c10Create(c, e)
	kind := faultKinds[c.I%len(faultKinds)]
	// the fault is in force from each append on, for 1 or all appends
	for from := 0; from < n; from++ {
		for _, to := range []int{from + 1, n} {
			if to == n && from == n-1 && to != from+1 {
				continue
			}
			f := &fault{kind: kind}
			if kind == "fsize" {
				total := 0
				for i := 0; i <= from; i++ {
					total += sizes[i]
				}
				f.size = int64(r.N(total + 2))
				if r.P(30) {
					f.size = e.RequestBodyInMem + int64(r.Range(-1, 1))
					if f.size < 0 {
						f.size = 0
					}
				}
			}
			c10Run(c, e, sizes, f, from, to)
		}
	}
}

// c10Create makes transactions where the storage cannot be made: either that is
// reported, or the transaction works as far as its memory goes.
func c10Create(c *Ctx, e *ms.Engine) {
	r := c.R
	kind := r.Pick("replaced", "dangling", "under", "nofile", "empty", "long", "nested")
	old := e.TmpPath
	defer func() { e.TmpPath = old }()
	os.MkdirAll(e.TmpPath, 0700)
	disarm := func() {}
	switch kind {
	case "under":
		f := filepath.Join(old, "file")
		os.WriteFile(f, nil, 0600)
		disarm = func() { os.Remove(f) }
		e.TmpPath = filepath.Join(f, "d")
	case "empty":
		e.TmpPath = ""
	case "nested": // no fault: the directory is made
		e.TmpPath = filepath.Join(old, "n", strings.Repeat("x/", r.N(20)), "y")
		defer os.RemoveAll(filepath.Join(old, "n"))
	case "long":
		e.TmpPath = filepath.Join(old, strings.Repeat("x", 300), "y")
	default:
		disarm = (&fault{kind: kind}).arm(old)
	}
	c.Set("history", fmt.Sprintf("a transaction is made while its directory is %s", kind))
	t, err := ms.NewTransaction(e, e.RuleSet)
	c.Count("creations_with_fault", 1)
	if err != nil {
		c.Count("creations_refused", 1)
		disarm()
		if kind == "nested" {
			c.Fail("creation-refused", "no transaction is made with temporary storage in a directory yet to be made: %v", err)
		}
		return
	}
	if t == nil {
		c.Fail("creation", "no transaction and no error")
		disarm()
		return
	}
	var acked []byte
	for i := r.N(5); i >= 0; i-- {
		p := r.Bytes(r.PickInt(0, 1, r.N(100), int(e.RequestBodyInMem)+r.N(3)))
		before := t.Request.Body.Len()
		err := t.AppendRequestBody(append([]byte(nil), p...))
		k := t.Request.Body.Len() - before
		if err == nil && k != int64(len(p)) || k < 0 || k > int64(len(p)) {
			c.Fail("creation-length", "an append of %d bytes (%v) changed the length by %d", len(p), err, k)
			break
		}
		acked = append(acked, p[:k]...)
	}
	t.AppendResponseBody(r.Bytes(3))
	disarm()
	m := &mbody{c: c, name: "request body", b: t.Request.Body, mem: e.RequestBodyInMem, lim: e.RequestBody, want: acked}
	m.readAll()
	closeTx(t)
	if kind == "nested" { // the directories stay
		for _, f := range listing(filepath.Join(old, "n")) {
			if fi, err := os.Stat(f); err == nil && !fi.IsDir() {
				c.Fail("leftover", "after closing the bodies this file is left: %s", f)
			}
		}
		os.RemoveAll(filepath.Join(old, "n"))
	}
	if l := listing(old, os.TempDir()); len(l) > 0 {
		c.Fail("leftover", "after closing the bodies these files are left: %v", l)
	}
	c.Eval(1)
}

func c10Run(c *Ctx, e *ms.Engine, sizes []int, f *fault, from, to int) {
	r := c.R
	c.Set("history", fmt.Sprintf("limits %d/%d, chunks %v, fault %+v from append %d to %d", e.RequestBodyInMem, e.RequestBody, sizes, *f, from, to))
	t := c.tx(e)
	body := t.Request.Body
	var acked []byte // accepted chunks, with prefixes of failed ones
	loose := false
	failed, created := 0, false
	for i, n := range sizes {
		p := r.Bytes(n)
		disarm := func() {}
		if i >= from && i < to {
			disarm = f.arm(e.TmpPath)
			c.Count("faults_armed", 1)
		}
		before := body.Len()
		err := t.AppendRequestBody(append([]byte(nil), p...))
		disarm()
		created = created || len(listing(e.TmpPath)) > 0
		after := body.Len()
		over := before+int64(n) > e.RequestBody
		switch {
		case err == nil && over:
			c.Fail("over-limit", "append %d exceeds the limit but was accepted", i)
		case err == nil:
			acked = append(acked, p...)
		case over || !(i >= from && i < to):
			if !over && !loose {
				c.Fail("refused-after-fault", "append %d failed (%v) although no fault was in force", i, err)
			}
			if after != before {
				c.Fail("refused-length", "append %d was refused but the length went from %d to %d", i, before, after)
			}
		default:
			failed++
			k := after - before
			if k < 0 || k > int64(n) {
				c.Fail("failed-length", "append %d of %d bytes failed and the length went from %d to %d", i, n, before, after)
			}
			acked = append(acked, p[:k]...)
			c.Count("appends_failed", 1)
			if k > 0 {
				c.Count("appends_failed_partly", 1)
			}
		}
		if body.Len() != int64(len(acked)) {
			c.Fail("length", "after append %d (%v) the length is %d, want %d", i, err, body.Len(), len(acked))
		}
	}
	m := &mbody{c: c, name: "request body", b: body, mem: e.RequestBodyInMem, lim: e.RequestBody, want: acked}
	c.Eval(1)
	m.readAll()
	if s, err := body.String(); err == nil && s != string(acked) {
		c.Fail("whole", "the body as a string is %s, want %s", short([]byte(s)), short(acked))
	}
	there := len(listing(e.TmpPath)) > 0
	if r.P(30) {
		os.RemoveAll(e.TmpPath) // even the directory is gone
	}
	if l := openUnder(e.TmpPath); len(l) > 0 && r.P(25) { // closing fails
		for _, fd := range l {
			syscall.Close(fd)
		}
		c.Count("closes_failed", 1)
		if err := body.Close(); err == nil {
			c.Fail("close-unreported", "the file of the body could not be closed, which was not reported")
		}
	} else if len(l) > 0 && there && len(listing(e.TmpPath)) == 0 {
		c.Count("removals_failed", 1)
		if err := body.Close(); err == nil {
			c.Fail("close-unreported", "the file of the body could not be removed, which was not reported")
		}
	}
	closeTx(t)
	if r.P(50) {
		closeTx(t)
		body.Len()
		body.String()
		body.Read(make([]byte, 3))
		body.Seek(0, io.SeekStart)
		c.Count("double_closes", 1)
	}
	if l := listing(e.TmpPath, os.TempDir()); len(l) > 0 {
		c.Fail("leftover", "after closing the bodies these files are left: %v", l)
	}
	if l := deletedOpen(c.Scratch); len(l) > 0 {
		c.Fail("still-open", "after closing the bodies these removed files are still open and occupy storage: %v", l)
	}
	if failed > 0 || created {
		c.Distinct(e.RequestBodyInMem, e.RequestBody, fmt.Sprint(sizes), *f, from, to)
	}
	if failed > 0 {
		c.Sample(fmt.Sprintf("limits %d/%d, chunks %v, fault %+v from append %d to %d: %d appends failed", e.RequestBodyInMem, e.RequestBody, sizes, *f, from, to, failed))
	}
}

// c10Multipart inspects uploads and looks for files left behind.
func c10Multipart(c *Ctx) {
	r := c.R
	e := c.load("SecRequestBodyAccess On\nSecResponseBodyAccess On\n" +
		"SecRule ARGS|ARGS_NAMES \"@rx ^zzzz$\" id:1,phase:3,log\nSecRule ARGS_POST \"@rx ^zzzz$\" id:2,phase:3,log\nSecRule REQUEST_BODY|RESPONSE_BODY \"@rx ^zzzz$\" id:3,phase:5,log\n")
	e.TmpPath = filepath.Join(c.Scratch, fmt.Sprintf("t%d", c.I))
	defer os.RemoveAll(e.TmpPath)
	e.RequestBodyInMem = int64(r.PickInt(0, 10, 1000, 100000))
	var x *Traffic
	for x == nil || x.bodyType() != "multipart" {
		x = genTraffic(r, &tprofile{wild: 10, maxLen: 1000, bigs: []int{2000, 50000, 200000}})
		x.Method = "POST"
	}
	cut := r.P(30)
	if cut {
		x.Body = x.Body[:r.N(len(x.Body)+1)]
	}
	c.Set("traffic", x.String())
	t := c.tx(e)
	faulty := r.P(40)
	kind := r.Pick("systmp", "fsize", "nofile")
	end := func() {}
	created := false
	for p := 1; p <= 6; p++ {
		if p == 3 {
			x.appendRequestBody(c, t)
			created = len(listing(e.TmpPath)) > 0
			if faulty {
				switch kind {
				case "systmp":
					end = (&fault{kind: "removed"}).arm(os.TempDir())
				case "fsize":
					end = (&fault{kind: "fsize", size: int64(r.N(100000))}).arm("")
				case "nofile":
					end = (&fault{kind: "nofile"}).arm("")
				}
			}
			t.ProcessRequestBody()
			end()
			continue
		}
		if p == 5 && faulty {
			continue
		}
		x.stage(c, t, p)
	}
	t.Result()
	c.Eval(1)
	// the upload is whole for the application
	m := &mbody{c: c, name: "request body", b: t.Request.Body, mem: e.RequestBodyInMem, lim: e.RequestBody, want: x.Body}
	m.readAll()
	m.length()
	closeTx(t)
	if l := listing(e.TmpPath, os.TempDir()); len(l) > 0 {
		c.Fail("leftover", "after closing the bodies these files are left: %v", l)
	}
	c.Count("uploads", 1)
	if created {
		c.Count("uploads_spilled", 1)
	}
	if faulty {
		c.Count("uploads_with_fault", 1)
	}
	c.Distinct(x.String(), faulty, kind)
}
