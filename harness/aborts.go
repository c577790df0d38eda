package main

import (
	"fmt"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
)

// Real aborts: a rule inspects an urlencoded request body that is larger than
// the in-memory limit.

var bodyVars = []string{"REQUEST_BODY", "ARGS", "ARGS_NAMES", "ARGS_POST", "ARGS_POST_NAMES"}

// bodySel makes a target that needs the request body.
func bodySel(r *Rand) Sel {
	s := Sel{Var: pick(r, bodyVars)}
	if s.Var != "REQUEST_BODY" {
		switch r.N(5) {
		case 0:
			s.Key = pick(r, argNames)
		case 1:
			s.Key = pick(r, keyRes)
		case 2:
			s.Excl, s.Key = true, pick(r, argNames)
		}
	}
	if !s.Excl && !strings.HasSuffix(s.Var, "_NAMES") && r.P(20) {
		s.Count = true
	}
	return s
}

// always is an operator (with negation) that any value satisfies.
func always(r *Rand) (op, arg string, not bool) {
	switch r.N(4) {
	case 0:
		return "rx", "^zzz-no-such-value$", true
	case 1:
		return "eq", "918273645", true
	case 2:
		return "rx", "", false
	}
	return "rx", "(?s)^.*$", false
}

func oversized(r *Rand, limit int) *Traffic {
	x := &Traffic{Src: "198.51.100.9", SrcPort: "99", Dst: "192.0.2.1", DstPort: "80", Path: "/a", Query: "a=1&b=2", Method: r.Pick("POST", "PUT", "PATCH"), Proto: "HTTP/1.1", Code: 200, RProto: "HTTP/1.1",
		Header: map[string][]string{"Content-Type": {urlencodedCT(r)}}, RHeader: map[string][]string{}}
	n := limit + 1 + r.PickInt(0, 0, 1, 2, r.N(2*limit+10))
	q := genQuery(r, 5)
	for len(q) < n {
		q += "&" + pick(r, argNames) + "=" + r.From("abcdef", r.Range(1, 30+n/10))
	}
	x.Body = []byte(q[:n])
	return x
}

func realAbort(c *Ctx) {
	r := c.R
	limit := r.PickInt(0, 1, 10, 64, 100, 300)
	mode := r.PickInt(ms.StatusOn, ms.StatusOn, ms.StatusOn, ms.StatusDect, ms.StatusOff)
	var rules []*Rule
	id := 1
	plain := func(phase int) *Rule {
		u := &Rule{ID: id, Phase: phase, Sels: []Sel{{Var: r.Pick("REQUEST_METHOD", "QUERY_STRING", "REMOTE_ADDR", "ARGS_GET")}}, Acts: []Act{{"log", ""}}}
		u.Op, u.Arg, u.Not = always(r)
		id++
		return u
	}
	for n := r.N(3); n > 0; n-- {
		rules = append(rules, plain(r.Range(2, 3)))
	}
	// the rule or chain that looks at the body
	links := r.PickInt(1, 1, 1, 2, 3)
	at := r.N(links)
	var body *Rule
	for i := 0; i < links; i++ {
		l := plain(0)
		if i == at {
			l.Sels = []Sel{bodySel(r)}
		}
		l.Acts = append(l.Acts, Act{r.Pick("deny", "pass", "allow", "skip", "log", "block"), ""})
		if i == 0 {
			l.Phase = 3
			body = l
		} else {
			body.Links = append(body.Links, l)
		}
	}
	rules = append(rules, body)
	bodyAt := len(rules) - 1
	for n := r.N(4); n > 0; n-- {
		u := plain(r.Range(3, 5))
		if r.P(40) {
			u.Sels = []Sel{bodySel(r)}
		}
		u.Acts = append(u.Acts, Act{r.Pick("deny", "pass", "log"), ""})
		rules = append(rules, u)
	}
	text := rulesText(rules)
	c.Set("rules", text)
	e := c.load("SecRequestBodyAccess On\n" + text)
	e.RequestBodyInMem = int64(limit)
	e.RequestBody = 1 << 20
	e.Enable(mode)
	k := track(e)
	x := oversized(r, limit)
	c.Set("traffic", fmt.Sprintf("in-memory limit %d, mode %d: %s", limit, mode, x))
	t := c.tx(e)
	defer closeTx(t)
	// what must have run after each phase
	ran := func(u *Rule) bool {
		for j := range k.rules[u.ID].Actions {
			if k.ran[fmt.Sprintf("%d/%d", u.ID, j)] > 0 {
				return true
			}
		}
		return false
	}
	for p := 1; p <= 6; p++ {
		x.stage(c, t, p)
		if p >= 2 {
			for i, u := range rules {
				if i == bodyAt {
					continue
				}
				want := u.Phase <= p && mode != ms.StatusOff && (u.Phase < 3 || u.Phase == 3 && i < bodyAt)
				if p < 3 && u.Phase == 3 {
					want = false
				}
				if got := ran(u); got != want {
					c.Fail("abort-rules", "after phase %d rule %d ran=%v, want %v (rule %d aborts in phase 3)", p, u.ID, got, want, body.ID)
				}
			}
			for _, l := range append([]*Rule{body}, body.Links...) {
				if ran(l) {
					c.Fail("abort-match", "an action of rule %d ran although its inspection aborted the transaction", l.ID)
				}
			}
		}
		if p >= 3 && mode != ms.StatusOff && !t.Abort {
			c.Fail("not-aborted", "after phase %d the transaction is not aborted although a body of %d bytes could not be inspected (limit %d)", p, len(x.Body), limit)
		}
		for n := r.N(3); n > 0 || p == 6; n-- {
			i := t.Result()
			c.Eval(1)
			wantDis := p >= 3 && mode == ms.StatusOn
			if i.Disruptive != wantDis || wantDis && i.Status != 413 {
				c.Fail("abort-result", "after phase %d: disruptive=%v status %d, want disruptive=%v 413", p, i.Disruptive, i.Status, wantDis)
			}
			if p == 6 && n <= 0 {
				break
			}
		}
		if p >= 3 && mode != ms.StatusOff && t.RequestBodyError == nil {
			c.Fail("abort-error", "the oversized body is not recorded as a body error")
		}
	}
	if mode != ms.StatusOff {
		c.Count("real_aborts", 1)
	}
	c.Distinct(text, x.String(), mode)
	c.Sample(text)
}

// accessSwitch sets the body access directives several times.
func accessSwitch(c *Ctx) {
	r := c.R
	e := c.load("SecRule REQUEST_BODY \"@rx (?s).\" id:1,phase:3,log\nSecRule ARGS_POST \"@rx (?s).\" id:2,phase:3,log\nSecRule RESPONSE_BODY \"@rx (?s).\" id:3,phase:5,log\nSecRule REQUEST_METHOD . id:4,phase:5,log\n")
	k := track(e)
	req, res := false, false
	mode := ms.StatusOn
	var hist []string
	for round := r.Range(1, 3); round > 0; round-- {
		var b strings.Builder
		for n := r.N(5); n > 0; n-- {
			on := r.P(50)
			switch r.N(3) {
			case 0:
				req = on
				fmt.Fprintf(&b, "SecRequestBodyAccess %s\n", map[bool]string{true: r.Pick("On", "on", "ON"), false: r.Pick("Off", "off")}[on])
			case 1:
				res = on
				fmt.Fprintf(&b, "SecResponseBodyAccess %s\n", map[bool]string{true: r.Pick("On", "on", "ON"), false: r.Pick("Off", "off")}[on])
			case 2:
				mode = r.N(3)
				fmt.Fprintf(&b, "SecRuleEngine %s\n", ctlModes[mode])
			}
		}
		hist = append(hist, b.String())
		c.loadInto(e, b.String())
		c.Set("directives", strings.Join(hist, "--\n"))
		x := &Traffic{Src: "1.1.1.1", Path: "/", Method: "POST", Proto: "HTTP/1.1", Header: map[string][]string{"Content-Type": {urlencodedType}}, Body: []byte("a=1"), Code: 200, RProto: "HTTP/1.1", RBody: []byte("r")}
		k.reset()
		t := c.tx(e)
		x.play(c, t, r.P(50))
		closeTx(t)
		c.Eval(1)
		for id, vis := range map[int]bool{1: req, 2: req, 3: res, 4: true} {
			want := 0
			if vis && mode != ms.StatusOff {
				want = 1
			}
			if got := k.ran[fmt.Sprintf("%d/0", id)]; got != want {
				c.Fail("access-switch", "rule %d ran %d times, want %d (request body access %v, response body access %v, mode %s)", id, got, want, req, res, ctlModes[mode])
			}
		}
	}
	c.Count("switch_sequences", 1)
	c.Distinct(strings.Join(hist, "--\n"))
}
