package main

import (
	"errors"
	"fmt"
	"net/url"
	"strings"
	"time"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
)

func init() {
	register(&Prop{ID: "C31", Quick: 160000, Thorough: 3000000, Run: runC31,
		Rule: "random rule sets whose actions (custom ones of every group among deny, pass, status, log) and callers prepare interceptions field by field, log, abort, reset and collect, over interleaved transactions in all engine modes, against a record of what was put in; non-trivial: a result with a pause, URL, custom status or custom log line is collected"})
}

// itv is what a transaction's intervention must hold.
type itv struct {
	status int
	pause  time.Duration
	url    *url.URL
	log    []string
	dis    bool
}

// itvTx is one transaction with what it must hold.
type itvTx struct {
	c       *Ctx
	t       *ms.Transaction
	e       *ms.Engine
	m       itv
	abort   bool
	data    int
	hasData bool
	src     string
	port    string
	phase   int // last processed
	rule    int // index of the next rule that must run in this phase
	given   []*itvGiven
	past    []string
	rich    bool
	copies  int
}

// itvGiven is a collected result with what it held when it was given.
type itvGiven struct {
	got  *ms.Intervention
	want itv
}

func (p *itvTx) note(f string, v ...interface{}) {
	p.past = append(p.past, fmt.Sprintf(f, v...))
	p.c.Set("history", shorten(strings.Join(p.past, " "), 3000))
}

func (p *itvTx) reset() { p.m = itv{status: 200} }

func (p *itvTx) logged(s string) {
	ph := p.t.CurrentPhase()
	p.m.log = append(p.m.log, fmt.Sprintf("[client %s:%s] (phase %d) %s", p.src, p.port, ph, s))
}

// same compares an intervention with what it must hold.
func (p *itvTx) same(what string, i *ms.Intervention, w itv) {
	c := p.c
	c.Eval(1)
	switch {
	case i.Status != w.status:
		c.Fail("status", "%s: the status is %d, %d was put in", what, i.Status, w.status)
	case i.Pause != w.pause:
		c.Fail("pause", "%s: the pause is %v, %v was put in", what, i.Pause, w.pause)
	case i.Url != w.url && (i.Url == nil || w.url == nil || *i.Url != *w.url):
		c.Fail("url", "%s: the URL is %v, %v was put in", what, i.Url, w.url)
	case i.Disruptive != w.dis:
		c.Fail("disruptive", "%s: disruptive is %v, must be %v", what, i.Disruptive, w.dis)
	case len(i.Log) != len(w.log):
		c.Fail("log", "%s: %d log lines instead of %d\n%q\n%q", what, len(i.Log), len(w.log), i.Log, w.log)
	}
	for n, s := range i.Log {
		if s != w.log[n] {
			c.Fail("log", "%s: log line %d is %q instead of %q", what, n, s, w.log[n])
		}
	}
}

var itvStatus = []int{200, 200, 403, 302, 301, 503, 404, 100, 599, 600, 99, 0, -1, 1 << 20, 429, 418}

// ops that an action or the caller can do on the live intervention.
var itvOps = []string{"status", "pause", "url", "dis", "undis", "logf", "logf-plain", "reset", "look", "log-own", "nothing", "copy", "intercept", "redirect"}

func (p *itvTx) do(op string, n int, txt string) {
	c, t := p.c, p.t
	switch op {
	case "status":
		t.Intervention().Status = n
		p.m.status = n
	case "pause":
		d := time.Duration(n) * time.Millisecond
		t.Intervention().Pause = d
		p.m.pause = d
	case "url", "redirect":
		u := &url.URL{Scheme: "https", Host: "h" + fmt.Sprint(n), Path: "/" + txt}
		switch r := c.R; r.N(6) {
		case 0:
			u = &url.URL{Path: r.Pick("a:b", "//x/y", "?", "", "%41", "/a b") + txt}
		case 1:
			u.RawPath, u.RawQuery, u.Fragment = "/%2f"+txt, txt, txt
		case 2:
			u = &url.URL{Scheme: "MAILTO", Opaque: txt}
		case 3:
			u.Host, u.ForceQuery = r.Pick("[::1]:8", "a b", ":80", "H"), true
		}
		if op == "url" && n < 0 {
			u = nil
		}
		t.Intervention().Url = u
		p.m.url = u
		if op == "redirect" {
			t.Intervention().Status, t.Intervention().Disruptive = 302, true
			p.m.status, p.m.dis = 302, true
		}
	case "intercept":
		t.Intervention().Status, t.Intervention().Disruptive = n, true
		p.m.status, p.m.dis = n, true
	case "dis":
		t.Intervention().Disruptive = true
		p.m.dis = true
	case "undis":
		if p.abort {
			return
		}
		t.Intervention().Disruptive = false
		p.m.dis = false
	case "logf":
		t.Logf("%s %d", txt, n)
		p.logged(fmt.Sprintf("%s %d", txt, n))
	case "logf-plain":
		f := strings.Replace(txt, "%", "%%", -1)
		t.Logf(f)
		p.logged(txt)
	case "log-own":
		i := t.Intervention()
		i.Log = append(i.Log, txt)
		p.m.log = append(p.m.log, txt)
	case "reset":
		if p.abort {
			return
		}
		t.ResetIntervention()
		p.reset()
	case "copy":
		p.given = append(p.given, &itvGiven{t.Intervention().Copy(), p.m.clone()})
		p.copies++
	case "look":
		i := t.Intervention()
		if i != t.Intervention() {
			c.Fail("live", "two looks show two interventions")
		}
	case "abort-status":
		t.AbortWithStatus(n)
		p.abort, p.m.status, p.m.dis = true, n, true
	case "abort-error":
		t.AbortWithError(n, errors.New(txt))
		p.abort, p.m.status, p.m.dis = true, n, true
		p.logged("abort process with error " + txt)
	}
	c.Count("put_"+op, 1)
	p.note("%s(%d,%q)", op, n, txt)
	p.same("after "+op, t.Intervention(), p.m)
	if t.Abort != p.abort {
		c.Fail("abort", "after %s the transaction is aborted: %v", op, t.Abort)
	}
}

func (w itv) clone() itv {
	w.log = append([]string(nil), w.log...)
	return w
}

// collect takes the result.
func (p *itvTx) collect() {
	c := p.c
	w := p.m.clone()
	if !p.e.Enabled {
		w.dis = false
	}
	i := p.t.Result()
	p.note("collect")
	if i == p.t.Intervention() {
		c.Fail("live-result", "the result is the live intervention")
	}
	p.same("collected", i, w)
	if w.pause != 0 || w.url != nil || w.status != 200 && w.status != 403 {
		p.rich = true
	}
	if p.abort {
		p.m.log = nil
	} else {
		p.reset()
	}
	p.same("after the collection", p.t.Intervention(), p.m)
	p.given = append(p.given, &itvGiven{i, w})
	if c.R.P(20) { // the result is the caller's to change
		i.Status, i.Pause, i.Url, i.Disruptive = 777, time.Hour, &url.URL{Host: "mine"}, !i.Disruptive
		for n := range i.Log {
			if p.copies == 0 { // copies share their lines
				i.Log[n] = "mine"
			}
		}
		i.Log = append(i.Log, "mine too")
		p.given = p.given[:len(p.given)-1]
		p.same("after the result was changed", p.t.Intervention(), p.m)
	}
	c.Count("collected", 1)
}

type itvAct struct {
	kind  string // built-in deny, pass, status, log, or an op
	group int
	n     int
	txt   string
	act   ms.Action
}

type itvRule struct {
	links [][]*itvAct
	hit   bool
}

func runC31(c *Ctx) {
	r := c.R
	e := c.newEngine()
	var cur *itvTx
	rules := map[int][]*itvRule{}
	ran := 0 // actions that ran
	var expect []*itvAct
	text := func() string {
		return r.Pick("x", "", "100% of %s %d %!", "line\nbreak", "id \"7\"", strings.Repeat("l", r.N(200)), string(r.Bytes(r.N(10))))
	}
	number := func() int { return r.PickInt(itvStatus...) }
	mk := func(aborts bool) *itvAct {
		a := &itvAct{n: number(), txt: text()}
		switch r.N(10) {
		case 0:
			a.kind, a.group, a.act = "deny", ms.ActionGroupDisruptive, actions.NewActionDeny()
		case 1:
			a.kind, a.group, a.act = "pass", ms.ActionGroupDisruptive, actions.NewActionPass()
		case 2:
			a.kind, a.group, a.act = "set-status", ms.ActionGroupData, actions.NewActionStatus(a.n)
		default:
			a.kind = pick(r, itvOps)
			if aborts && r.P(25) {
				a.kind = r.Pick("abort-status", "abort-error")
			}
			a.group = r.PickInt(ms.ActionGroupMetaData, ms.ActionGroupData, ms.ActionGroupNonDisruptive, ms.ActionGroupDisruptive, ms.ActionGroupDisruptive, ms.ActionGroupFlow)
		}
		in := a.act
		a.act = &scriptAct{"vmon", a.group, func(t *ms.Transaction) {
			if t != cur.t {
				c.Fail("foreign", "an action of one transaction is run with another")
			}
			if ran >= len(expect) || expect[ran] != a {
				c.Fail("order", "action %s(%d) runs out of turn, or must not run (disruptive %v)\n%s", a.kind, a.n, cur.m.dis, strings.Join(cur.past, " "))
			}
			ran++
			cur.same("before "+a.kind, t.Intervention(), cur.m)
			if in == nil {
				cur.do(a.kind, a.n, a.txt)
				return
			}
			in.Do(t)
			p := cur
			c.Count("built_in_"+a.kind, 1)
			switch a.kind {
			case "deny":
				if p.m.status == 200 {
					p.m.status = 403
					if p.hasData && inScopeStatus(p.data) {
						p.m.status = p.data
					}
				}
				p.m.dis = true
				p.logged(fmt.Sprintf("ModSecurity: Access denied with code %d", p.m.status))
			case "pass":
				l := p.m.log
				p.reset()
				p.m.log = l
			case "set-status":
				p.data, p.hasData = a.n, true
			}
			p.note("%s(%d)", a.kind, a.n)
			p.same("after the action "+a.kind, t.Intervention(), p.m)
		}}
		return a
	}
	for ph := 1; ph <= 6; ph++ {
		for n := r.N(4); n > 0; n-- {
			u := &itvRule{hit: r.P(85)}
			aborts := r.P(10)
			var top *ms.SecRule
			for k := r.PickInt(1, 1, 1, 2); k > 0; k-- {
				sr := ms.NewSecRule()
				sr.Phase = ph
				sr.AppendVariables(&scriptVar{"V", func(*ms.Transaction) []string { return []string{"v"} }})
				hit := u.hit || k > 1
				sr.SetOperator(&scriptOp{func(*ms.Transaction, string) bool { return hit }})
				var as []*itvAct
				for j := r.N(5); j > 0; j-- {
					a := mk(aborts)
					if aborts && a.kind == "pass" {
						continue
					}
					as = append(as, a)
					sr.AppendActions(a.act)
				}
				u.links = append(u.links, as)
				if top == nil {
					top = sr
				} else {
					top.AppendSubRules(sr)
				}
			}
			e.AddSecRule(top)
			rules[ph] = append(rules[ph], u)
		}
	}
	mode := r.PickInt(ms.StatusOn, ms.StatusOn, ms.StatusOn, ms.StatusDect, ms.StatusOff)
	e.Enable(mode)
	var ts []*itvTx
	for n := r.Range(1, 3); n > 0; n-- {
		p := &itvTx{c: c, t: c.tx(e), e: e}
		p.reset()
		ts = append(ts, p)
		defer closeTx(p.t)
		p.same("new", p.t.Intervention(), p.m)
	}
	phase := func(p *itvTx) {
		ph := p.phase + r.PickInt(1, 1, 1, 1, 2)
		if ph > 6 {
			ph = 6
		}
		fresh := ph > p.phase
		p.phase = ph
		if ph == 1 && fresh {
			p.src, p.port = r.Pick("192.0.2.7", "2001:db8::1", "", "c%d"), r.Pick("80", "", "65535")
		}
		p.note("[phase %d]", ph)
		rs := rules[ph]
		if !fresh {
			rs = nil
		}
		// what runs is decided rule by rule, as it goes
		expect, ran = nil, 0
		blocked := p.m.dis || p.abort || mode == ms.StatusOff
		if !blocked {
			for _, u := range rs {
				if !u.hit {
					continue
				}
				dis, abort := p.m.dis, p.abort // foretold below
				for _, as := range u.links {
					for g := 0; g < ms.ActionGroupCount; g++ {
						if g == ms.ActionGroupDisruptive && mode == ms.StatusDect {
							continue
						}
						for _, a := range as {
							if a.group == g {
								expect = append(expect, a)
								dis, abort = foretell(a, dis, abort)
							}
						}
					}
				}
				p.m.dis, p.abort = dis, abort
				if dis {
					break
				}
			}
			p.m.dis, p.abort = false, false // as before
		}
		switch ph {
		case 1:
			if fresh {
				p.t.ProcessConnection(p.src, p.port, "198.51.100.1", "443")
			} else {
				p.t.ProcessPhase(1)
			}
		case 2:
			p.t.ProcessRequestURL(&url.URL{Path: "/"}, "GET", "HTTP/1.1")
			p.t.ProcessRequestHeader(nil)
		case 4:
			p.t.ProcessResponseHeaders(200, "HTTP/1.1", nil)
		default:
			p.t.ProcessPhase(ph)
		}
		if ran != len(expect) {
			c.Fail("stopped", "after phase %d %d of %d actions ran\n%s", ph, ran, len(expect), strings.Join(p.past, " "))
		}
		p.same("after the phase", p.t.Intervention(), p.m)
	}
	steps := r.Range(6, 22)
	if c.I%400 == 7 {
		steps = bigN(r, 2000)
	}
	for ; steps > 0; steps-- {
		cur = pick(r, ts)
		p := cur
		switch r.N(10) {
		case 0, 1, 2, 3:
			phase(p)
		case 4, 5, 6:
			p.collect()
		case 7, 8:
			p.do(pick(r, itvOps), number(), text())
		case 9:
			if r.P(25) {
				p.do(r.Pick("abort-status", "abort-error"), number(), text())
			} else if r.P(30) {
				mode = r.PickInt(ms.StatusOn, ms.StatusDect, ms.StatusOff)
				e.Enable(mode)
				p.note("mode %d", mode)
			}
		}
	}
	for _, p := range ts {
		cur = p
		p.collect()
		for n, g := range p.given {
			p.note("recheck")
			p.same(fmt.Sprintf("what was taken as number %d, much later,", n), g.got, g.want)
		}
		if p.rich {
			c.Distinct(fmt.Sprint(c.I))
		}
	}
	c.Sample(strings.Join(ts[0].past, " "))
}

// foretell says what an action makes of the disruptive and aborted flags.
func foretell(a *itvAct, dis, abort bool) (bool, bool) {
	switch a.kind {
	case "deny", "dis", "intercept", "redirect":
		dis = true
	case "undis", "reset":
		dis = dis && abort
	case "pass":
		dis = false
	case "abort-status", "abort-error":
		dis, abort = true, true
	}
	return dis, abort
}
