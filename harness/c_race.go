package main

import (
	"fmt"
	"hash/crc32"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
	"github.com/senghoo/modsecurity-go/seclang"
)

func init() {
	register(&Prop{ID: "C07", Quick: 2400, Thorough: 60000, Run: runC07, Race: true, Workers: 16, Procs: 4,
		Rule:   "2..24 transactions (near-twin requests, shared header maps and URLs, spilled bodies) on one engine, concurrently under the race detector with injected yields, interleaved call by call, and one after the other in random orders, each compared with the same transaction alone on a fresh engine; texts loaded and engines built concurrently from one configuration; non-trivial: at least two transactions overlap and some rule inspects a value",
		Assume: []string{"the Go race detector"}})
}

func runC07(c *Ctx) {
	switch {
	case c.I/16%4 == 3: // every worker's first cases overlap before anything ran alone
		c07Build(c)
	default:
		c07Shared(c)
	}
}

// txRec is what one transaction did. It is written only by the goroutine that
// runs the transaction, and found by an index carried in the destination port,
// so that recording orders nothing between transactions.
type txRec struct {
	r     *Rand
	yield int                 // percent
	sees  map[string][]string // values by rule and variable
	runs  []string
	res   []string
	bad   string
	_     [64]byte
}

func (k *txRec) pause() {
	if k.r.P(k.yield) {
		for n := k.r.Range(1, 3); n > 0; n-- {
			runtime.Gosched()
		}
	}
}

type txRecs []*txRec

func newRecs(c *Ctx, n, yield int) txRecs {
	out := make(txRecs, n)
	for i := range out {
		out[i] = &txRec{sees: map[string][]string{}, r: newRand("C07tx", c.Seed, c.I, c.R.N(1<<30)), yield: yield}
	}
	return out
}

func (rs txRecs) of(t *ms.Transaction) *txRec {
	n, err := strconv.Atoi(t.DstPort)
	if err != nil || n < 0 || n >= len(rs) {
		panic("transaction without a recorder")
	}
	return rs[n]
}

// brief shows values; long ones by their beginning, length and checksum.
func brief(vs []string) string {
	for i, v := range vs {
		if len(v) > 300 {
			vs = append([]string(nil), vs...)
			vs[i] = fmt.Sprintf("%s... (%d bytes, %08x)", v[:100], len(v), crc32.ChecksumIEEE([]byte(v)))
		}
	}
	return fmt.Sprintf("%q", vs)
}

// instrument makes the rules of an engine report what they inspect and run.
func instrument(e *ms.Engine, rs txRecs) {
	for p := 1; p <= 6; p++ {
		for i, rule := range e.RuleSet.Phases[p] {
			for j, l := range allLinks(rule) {
				at := fmt.Sprintf("%d/%d/%d", p, i, j)
				vars := append([]ms.Variable(nil), l.Variables...)
				l.Variables = nil
				for _, v := range vars {
					at := fmt.Sprintf("%s %s<%T>", at, v.Name(), v)
					l.AppendVariables(&recVar{v, func(t *ms.Transaction, got []string) {
						k := rs.of(t)
						k.sees[at] = append(k.sees[at], brief(sorted(got)))
						k.pause()
					}})
				}
				trs := append([]ms.Trans(nil), l.Trans...)
				l.Trans = nil
				for _, x := range trs {
					l.AppendTrans(&pauseTrans{x, rs})
				}
				l.SetOperator(&recOp{l.Operator, func(t *ms.Transaction, s string, hit bool) { rs.of(t).pause() }})
				acts := append([]ms.Action(nil), l.Actions...)
				l.Actions = nil
				for n, a := range acts {
					at := fmt.Sprintf("%s %s#%d", at, a.Name(), n)
					l.AppendActions(&recAct{a, func(t *ms.Transaction) {
						k := rs.of(t)
						k.runs = append(k.runs, at+" runs")
						k.pause()
					}})
				}
			}
		}
	}
}

type pauseTrans struct {
	in ms.Trans
	rs txRecs
}

func (x *pauseTrans) Name() string { return x.in.Name() }

func (x *pauseTrans) Trans(t *ms.Transaction, s string) string {
	out := x.in.Trans(t, s)
	keep := strings.Clone(out)
	k := x.rs.of(t)
	k.pause()
	if keep != out {
		k.bad = fmt.Sprintf("the result of %s turned from %q into %q while another transaction ran", x.Name(), keep, out)
	}
	return out
}

// step runs one call group of a transaction; it returns false at the end.
func (k *txRec) step(x *Traffic, t *ms.Transaction, n, idx int) bool {
	put := func(what string, body []byte, f func([]byte) error) {
		for _, p := range chunks(newRand(what, x.Cut), body) {
			q := append([]byte(nil), p...)
			if err := f(q); err != nil {
				k.res = append(k.res, fmt.Sprintf("%s refused: %v", what, err))
				return
			}
			for i := range q {
				q[i] ^= 0x55
			}
			k.pause()
		}
	}
	switch n {
	case 0:
		t.ProcessConnection(x.Src, x.SrcPort, x.Dst, strconv.Itoa(idx))
	case 1:
		if !x.NoURL {
			t.ProcessRequestURL(x.url(), x.Method, x.Proto)
		}
		t.ProcessRequestHeader(x.Header)
	case 2:
		put("request body", x.Body, t.AppendRequestBody)
		k.pause()
		t.ProcessRequestBody()
	case 3:
		t.ProcessResponseHeaders(x.Code, x.RProto, x.RHeader)
	case 4:
		put("response body", x.RBody, t.AppendResponseBody)
		k.pause()
		t.ProcessResponseBody()
	case 5:
		t.ProcessLogging()
	case 6:
		k.bodies(x, t)
		closeTx(t)
		if k.r.P(30) { // closing again, now or later, must not concern other transactions
			k.pause()
			closeTx(t)
		}
		return false
	}
	i := t.Result()
	k.res = append(k.res, fmt.Sprintf("%d: %d %v %q", n+1, i.Status, i.Disruptive, i.Log))
	k.pause()
	return true
}

// bodies reads the bodies back.
func (k *txRec) bodies(x *Traffic, t *ms.Transaction) {
	read := func(what string, b interface {
		io.ReadSeeker
		Len() int64
	}, want []byte) {
		if b.Len() != int64(len(want)) { // refused chunks
			return
		}
		b.Seek(0, 0)
		k.pause()
		got, err := io.ReadAll(b)
		if err != nil || string(got) != string(want) {
			k.bad = fmt.Sprintf("the %s reads back as %s (%v), appended was %s", what, short(got), err, short(want))
		}
	}
	read("request body", t.Request.Body, x.Body)
	read("response body", t.Response.Body, x.RBody)
}

const txSteps = 7

func (k *txRec) run(x *Traffic, e *ms.Engine, idx int) {
	t, err := e.NewTransaction()
	if err != nil {
		k.bad = fmt.Sprintf("no transaction: %v", err)
		return
	}
	for n := 0; k.step(x, t, n, idx); n++ {
	}
}

func (k *txRec) outcome() string {
	return strings.Join(k.res, "\n") + "\n" + strings.Join(k.runs, "\n")
}

// differs compares two runs of one transaction: results, actions, and the
// values of the variables both looked at (targets are an unordered set).
func (k *txRec) differs(o *txRec) string {
	if a, b := k.outcome(), o.outcome(); a != b {
		return firstDiff(a, b)
	}
	for at, vs := range k.sees {
		ws := o.sees[at]
		if len(ws) == len(vs) && !sameBag(vs, ws) {
			return fmt.Sprintf("%s sees %v -- alone: %v", at, clip(vs), clip(ws))
		}
	}
	return ""
}

// raceRules makes rules with all kinds of actions.
func raceRules(r *Rand, n int) []*Rule {
	rules := genAnyRules(r, n)
	for _, u := range rules {
		for _, l := range append([]*Rule{u}, u.Links...) {
			var keep []Act
			seen := map[string]bool{}
			for _, a := range l.Acts { // what the properties leave open when doubled
				if !seen[a.Name] {
					keep = append(keep, a)
				}
				seen[a.Name] = true
			}
			if r.P(50) { // most rules only log, so that others are reached
				keep = []Act{{"log", ""}}
			}
			l.Acts = keep
		}
		if r.P(30) {
			u.Phase = minPhase(u.Sels)
		}
	}
	return rules
}

type raceSetup struct {
	text   string
	limits [3]int64
	mode   int
	deflt  string
}

func genSetup(r *Rand, rules []*Rule) *raceSetup {
	s := &raceSetup{text: bodyAccessText(r) + rulesText(rules), mode: ms.StatusOn}
	if r.P(15) {
		s.mode = ms.StatusDect
	}
	s.limits = [3]int64{int64(r.PickInt(1<<20, 1<<20, 4000, 64)), int64(r.PickInt(131072, 2000, 64, 0)), int64(r.PickInt(524228, 524228, 500))}
	if r.P(60) {
		s.deflt = r.Pick("deny", "status", "both")
	}
	return s
}

func (s *raceSetup) apply(c *Ctx, e *ms.Engine) {
	c.loadInto(e, s.text)
	s.finish(e)
}

func (s *raceSetup) finish(e *ms.Engine) {
	e.Enable(s.mode)
	e.RequestBody, e.RequestBodyInMem, e.ResponseBody = s.limits[0], s.limits[1], s.limits[2]
	if s.deflt == "status" || s.deflt == "both" {
		e.RuleSet.AddDefaultActions(actions.NewActionStatus(418))
	}
	if s.deflt == "deny" || s.deflt == "both" {
		e.RuleSet.AddDefaultActions(actions.NewActionDeny())
	}
}

// twin makes traffic that differs from x in little.
func twin(r *Rand, x *Traffic) *Traffic {
	y := *x
	y.Cut = r.N(1 << 30)
	switch r.N(6) {
	case 0:
		y.Query = genQuery(r, 10)
	case 1: // same length, other bytes
		y.Body = append([]byte(nil), x.Body...)
		for n := r.Range(1, 3); n > 0 && len(y.Body) > 0; n-- {
			y.Body[r.N(len(y.Body))] = byte('a' + r.N(26))
		}
	case 2:
		y.Header = cloneHeader(x.Header)
		y.Header[pick(r, hdrNames)] = []string{word(r)}
	case 3:
		y.RBody = append([]byte(word(r)), x.RBody...)
	case 4:
		y.Src, y.SrcPort = word(r), strconv.Itoa(r.N(65536))
		y.Code = r.PickInt(200, 404, 500)
	case 5:
		y.RHeader = cloneHeader(x.RHeader)
		y.RHeader["X-A"] = []string{word(r)}
		y.Method = r.Pick("GET", "POST", "PUT")
	}
	return &y
}

// raceTraffic makes n transactions; some are the very same objects.
func raceTraffic(r *Rand, n int, rules []*Rule) []*Traffic {
	p := &tprofile{wild: 15, maxLen: 6000, bigs: []int{300, 5000, 150000}, noURL: 3}
	var out []*Traffic
	for len(out) < n {
		switch {
		case len(out) == 0 || r.P(30):
			x := genTraffic(r, p)
			aim(r, x, rules)
			x.Cut = r.N(1 << 30)
			out = append(out, x)
		case r.P(30):
			out = append(out, pick(r, out))
		default:
			out = append(out, twin(r, pick(r, out)))
		}
	}
	return out
}

func (c *Ctx) tmpLeft() []string {
	left, _ := filepath.Glob(filepath.Join(c.Scratch, "tmp", "*"))
	more, _ := filepath.Glob(filepath.Join(c.Scratch, "sys", "*"))
	left = append(left, more...)
	filepath.Walk(filepath.Join(c.Scratch, "nest"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			left = append(left, p)
		}
		return nil
	})
	return left
}

func (c *Ctx) noLeft() {
	if l := c.tmpLeft(); len(l) > 0 {
		for _, f := range l {
			os.Remove(f)
		}
		c.Fail("tmp-left", "temporary files left after all bodies were closed: %v", l)
	}
}

// together runs functions at the same time, turning panics into texts.
func together(fs []func()) []string {
	out := make([]string, len(fs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, f := range fs {
		wg.Add(1)
		go func(i int, f func()) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					buf := make([]byte, 1<<14)
					out[i] = fmt.Sprintf("panic: %v\n%s", e, buf[:runtime.Stack(buf, false)])
				}
			}()
			<-start
			f()
		}(i, f)
	}
	close(start)
	wg.Wait()
	var bad []string
	for _, s := range out {
		if s != "" {
			bad = append(bad, s)
		}
	}
	return bad
}

func c07Shared(c *Ctx) {
	r := c.R
	rules := raceRules(r, r.Range(2, 14))
	setup := genSetup(r, rules)
	c.Set("rules", setup.text)
	c.Set("setup", fmt.Sprintf("%+v", setup.limits)+setup.deflt)
	n := r.Range(2, 24)
	xs := raceTraffic(r, n, rules)
	yield := r.PickInt(0, 10, 50)

	// all at once
	e := c.newEngine()
	setup.apply(c, e)
	if r.P(30) { // a directory that the transactions make, all at once
		e.TmpPath = filepath.Join(c.Scratch, "nest", strings.Repeat("b/", r.N(20)), "c")
		defer os.RemoveAll(filepath.Join(c.Scratch, "nest"))
	}
	recs := newRecs(c, n, yield)
	instrument(e, recs)
	var fs []func()
	for i := range xs {
		i := i
		fs = append(fs, func() { recs[i].run(xs[i], e, i) })
	}
	if bad := together(fs); len(bad) > 0 {
		c.Fail("panic", "a concurrent transaction panicked: %s", bad[0])
	}
	c.Count("concurrent_transactions", n)
	c.Max("concurrent_transactions", n)
	c.noLeft()

	// alone, each on an engine of its own
	solo := newRecs(c, n, 0)
	memo := map[*Traffic]*txRec{}
	for i, x := range xs {
		if k := memo[x]; k != nil && r.P(70) {
			solo[i] = k
			continue
		}
		f := c.newEngine()
		setup.apply(c, f)
		instrument(f, solo)
		solo[i].run(x, f, i)
		memo[x] = solo[i]
	}
	hot := 0
	compare := func(how string, got txRecs) {
		for i := range xs {
			c.Eval(1)
			if got[i].bad != "" {
				c.Set("traffic", xs[i].String())
				c.Fail("body", "%s: %s", how, got[i].bad)
			}
			if d := got[i].differs(solo[i]); d != "" {
				c.Set("traffic", xs[i].String())
				c.Set("got", got[i].outcome())
				c.Set("alone", solo[i].outcome())
				c.Fail("differs", "%s: transaction %d of %d does not end as it does alone: %s", how, i, n, d)
			}
			c.Count("variables_inspected", len(got[i].sees))
			c.Count("actions_run", len(got[i].runs))
		}
	}
	compare("concurrently", recs)
	for i := range solo {
		if len(solo[i].sees) > 0 {
			hot++
		}
		if strings.Contains(solo[i].outcome(), "true [") {
			c.Count("disruptive", 1)
		}
	}
	if hot > 1 {
		c.Distinct(setup.text, n, xs[0].String())
	}

	// call by call, interleaved at random in one goroutine
	recs = newRecs(c, n, 0)
	if r.P(50) {
		e = c.newEngine()
		setup.apply(c, e)
	} else {
		uninstrument(e)
	}
	instrument(e, recs)
	ts := make([]*ms.Transaction, n)
	at := make([]int, n)
	open := n
	for open > 0 {
		i := r.N(n)
		if at[i] == txSteps {
			continue
		}
		if ts[i] == nil {
			ts[i] = c.tx(e)
		}
		for m := r.Range(1, 2); m > 0 && at[i] < txSteps; m-- {
			recs[i].step(xs[i], ts[i], at[i], i)
			at[i]++
		}
		if at[i] == txSteps {
			open--
		}
	}
	c.Count("interleaved_transactions", n)
	compare("interleaved", recs)

	// one after the other
	for rep := r.Range(1, 2); rep > 0; rep-- {
		recs = newRecs(c, n, 0)
		uninstrument(e)
		instrument(e, recs)
		order := make([]int, n)
		for i := range order {
			order[i] = i
		}
		shuffle(r, order)
		for _, i := range order {
			recs[i].run(xs[i], e, i)
		}
		c.Count("sequential_transactions", n)
		compare("in sequence", recs)
	}
	c.noLeft()
	c.Sample(fmt.Sprintf("%d transactions, limits %v, rules:\n%s", n, setup.limits, shorten(setup.text, 600)))
}

// uninstrument takes the probes off again.
func uninstrument(e *ms.Engine) {
	for _, rs := range e.RuleSet.Phases {
		for _, rule := range rs {
			for _, l := range allLinks(rule) {
				for i, v := range l.Variables {
					if w, ok := v.(*recVar); ok {
						l.Variables[i] = w.Variable
					}
				}
				for i, v := range l.Trans {
					if w, ok := v.(*pauseTrans); ok {
						l.Trans[i] = w.in
					}
				}
				if w, ok := l.Operator.(*recOp); ok {
					l.Operator = w.Operator
				}
				for i, v := range l.Actions {
					if w, ok := v.(*recAct); ok {
						l.Actions[i] = w.Action
					}
				}
			}
		}
	}
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		l, m := "(nothing)", "(nothing)"
		if i < len(x) {
			l = x[i]
		}
		if i < len(y) {
			m = y[i]
		}
		if l != m {
			return fmt.Sprintf("%s -- alone: %s", shorten(l, 400), shorten(m, 400))
		}
	}
	return "no difference"
}

// c07Build loads texts and builds engines concurrently while others are in use.
func c07Build(c *Ctx) {
	r := c.R
	type job struct {
		setup *raceSetup // of the shared configuration
		extra *raceSetup // a text of its own, applied as well
		own   bool       // loads the shared text itself
		xs    []*Traffic
		recs  txRecs
		dump  string
		err   string
	}
	rules := raceRules(r, r.Range(2, 8))
	setup := genSetup(r, rules)
	c.Set("rules", setup.text)
	n := r.Range(2, 8)
	jobs := make([]*job, n)
	for i := range jobs {
		more := raceRules(r, r.Range(1, 4))
		j := &job{setup: setup, own: r.P(30)}
		if r.P(60) {
			j.extra = genSetup(r, more)
		}
		j.xs = raceTraffic(r, r.Range(1, 4), append(append([]*Rule{}, rules...), more...))
		j.recs = newRecs(c, len(j.xs), 30)
		jobs[i] = j
	}
	build := func(j *job, ds *seclang.DireSet, lab string) *ms.Engine {
		var err error
		if j.own {
			if ds, err = seclang.NewDireSetFromSecLangString(setup.text); err != nil {
				j.err = fmt.Sprintf("a valid text was refused: %v", err)
				return nil
			}
		}
		e := c.newEngine()
		if err = ds.Execute(e); err != nil {
			j.err = fmt.Sprintf("a valid configuration could not be applied: %v", err)
			return nil
		}
		setup.finish(e)
		if j.extra != nil {
			ds2, err := seclang.NewDireSetFromSecLangString(j.extra.text)
			if err == nil {
				err = ds2.Execute(e)
			}
			if err != nil {
				j.err = fmt.Sprintf("a valid text was refused: %v", err)
				return nil
			}
		}
		j.dump = dumpEngine(e)
		return e
	}
	go1 := func(j *job, e *ms.Engine) {
		for i, x := range j.xs {
			j.recs[i].run(x, e, i)
		}
	}
	ds, err := seclang.NewDireSetFromSecLangString(setup.text)
	if err != nil {
		c.Fail("load-refused", "a valid rule text was refused: %v", err)
	}
	var fs []func()
	for _, j := range jobs {
		j := j
		fs = append(fs, func() {
			if e := build(j, ds, "concurrently"); e != nil {
				j.recs[0].pause()
				go1(j, e)
				j.dump += "\n" + dumpEngine(e)
			}
		})
	}
	if bad := together(fs); len(bad) > 0 {
		c.Fail("panic", "building engines concurrently panicked: %s", bad[0])
	}
	c.Count("engines_built_concurrently", n)
	for i, j := range jobs {
		c.Eval(1)
		if j.err != "" {
			c.Fail("build", "concurrently: %s", j.err)
		}
		ref := *j
		ref.recs = newRecs(c, len(j.xs), 0)
		ds, err := seclang.NewDireSetFromSecLangString(setup.text)
		if err != nil {
			c.Fail("load-refused", "a valid rule text was refused: %v", err)
		}
		e := build(&ref, ds, "alone")
		if e == nil {
			c.Fail("build", "alone: %s", ref.err)
		}
		go1(&ref, e)
		ref.dump += "\n" + dumpEngine(e)
		if ref.dump != j.dump {
			c.Fail("engine-differs", "engine %d of %d built concurrently is not the one built alone: %s", i, n, firstDiff(j.dump, ref.dump))
		}
		for m := range j.xs {
			if j.recs[m].bad != "" {
				c.Fail("body", "%s", j.recs[m].bad)
			}
			if d := j.recs[m].differs(ref.recs[m]); d != "" {
				c.Set("traffic", j.xs[m].String())
				c.Fail("differs", "a transaction on an engine built concurrently does not end as it does alone: %s", d)
			}
		}
	}
	c.noLeft()
	c.Distinct(setup.text, n)
}
