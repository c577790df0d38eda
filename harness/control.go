package main

import (
	"errors"
	"fmt"
	"net/url"
	"sort"
	"strconv"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
)

// Control flow of transactions: rule sets whose matches are scripted by probe
// variables, random histories of calls, and a reference machine that says which
// rules are evaluated, which actions run and what each collected result holds.

type profile struct {
	phases     []int // engine phases used
	maxRules   int
	chain      int // percent of rules that are chains
	maxLinks   int
	acts       []string // action kinds offered
	actPct     int
	match      int // percent of rules that match
	modes      bool
	aborts     bool
	weird      bool // out of order, repeated, odd phases
	collect    int  // percent chance of collecting after a call
	defaults   bool // default actions
	bodyAborts bool
	drop       int
}

type ctlRule struct {
	id      int
	links   []*ctlLink
	phase   int
	abortAt int // link whose inspection aborts the transaction, -1 none
}

type ctlLink struct {
	id   int // of the link
	acts []Act
	hit  bool
	not  bool
	dup  int // values fetched
}

type ctlSet struct {
	rules    map[int][]*ctlRule // by phase, in order
	defaults []Act
	byLink   map[int]*ctlLink
}

// machine is the reference model of a transaction.
type machine struct {
	set       *ctlSet
	mode      int // ms.StatusOn...
	reached   int
	allowTo   int // phases before this one are suppressed
	aborted   bool
	abortCode int
	pending   bool
	status    int // of the pending interception
	data      int // last status action
	hasData   bool
	denied    []int // status of each denial since the last collection
	maybe     []int // statuses of status actions run since: whether they change it is not said
}

type expEval struct {
	rule *ctlRule
	acts [][]string // per link, the actions that must run
}

func inScopeStatus(n int) bool { return n >= 100 && n <= 599 }

func (m *machine) blocked() bool {
	return m.mode == ms.StatusOff || m.aborted || m.pending
}

// phase says what announcing a phase must do: the rules evaluated, in order.
func (m *machine) phase(p int) []expEval {
	if p <= m.reached || p < m.allowTo || p < 1 {
		return nil
	}
	m.reached = p
	if m.blocked() {
		return nil
	}
	var out []expEval
	rules := m.set.rules[p]
	for i := 0; i < len(rules); i++ {
		r := rules[i]
		ev := expEval{rule: r}
		if m.matches(r) {
			end := false
			skip := 0
			for _, l := range r.links {
				ran := m.act(l.acts, p, &end, &skip)
				ev.acts = append(ev.acts, ran)
			}
			out = append(out, ev)
			if m.pending || end || m.aborted {
				break
			}
			i += skip
			continue
		}
		out = append(out, ev)
		if m.aborted {
			break
		}
	}
	return out
}

func (m *machine) matches(r *ctlRule) bool {
	for i, l := range r.links {
		if i == r.abortAt {
			m.aborted = true
			m.abortCode = 413
			return false
		}
		if !l.hit {
			return false
		}
	}
	return true
}

var groupOf = map[string]int{"status": 1, "log": 2, "probe": 2, "probeflow": 4, "probedata": 1, "deny": 3, "block": 3, "pass": 3, "allow": 3, "skip": 4}

// act applies the actions of one link and returns those that must run.
func (m *machine) act(as []Act, p int, end *bool, skip *int) []string {
	var ran []string
	for g := 0; g < 5; g++ {
		if g == 3 && m.mode == ms.StatusDect {
			continue
		}
		for i, a := range as {
			if groupOf[a.Name] != g {
				continue
			}
			ran = append(ran, fmt.Sprintf("%s#%d", a.Name, i))
			switch a.Name {
			case "status":
				m.data, _ = strconv.Atoi(a.Arg)
				m.hasData = true
				m.maybe = append(m.maybe, m.chosen())
			case "deny":
				m.deny()
			case "block":
				var s int
				for _, d := range m.act(m.set.defaults, p, end, &s) {
					ran = append(ran, "default:"+d)
				}
			case "pass":
				m.pending = false
			case "skip":
				n := 1
				if a.Arg != "" {
					n, _ = strconv.Atoi(a.Arg)
				}
				if n > 100000 {
					n = 100000
				}
				*skip = n
			case "allow":
				*end = true
				to := p + 1
				switch a.Arg {
				case "":
					to = ms.PhaseLogging
				case "request":
					to = ms.PhaseResponseHeaders
				}
				if to <= p {
					to = p + 1
				}
				if to > m.allowTo {
					m.allowTo = to
				}
			}
		}
	}
	return ran
}

func (m *machine) deny() {
	m.pending = true
	m.status = m.chosen()
	m.maybe = nil
	m.denied = append(m.denied, m.status)
}

// chosen is the status a denial has now.
func (m *machine) chosen() int {
	if m.hasData && inScopeStatus(m.data) {
		return m.data
	}
	return 403
}

// ---- generation ---------------------------------------------------------

func genCtlSet(r *Rand, p *profile) (*ctlSet, []*Rule) {
	set := &ctlSet{rules: map[int][]*ctlRule{}, byLink: map[int]*ctlLink{}}
	ids := r.ids()
	if p.defaults && r.P(70) {
		set.defaults = genDefaults(r)
	}
	type pos struct{ ph int }
	var order []int
	for _, ph := range p.phases {
		n := r.N(p.maxRules + 1)
		if r.P(3) {
			n = r.Range(8, 40)
		} else if r.N(2000) == 0 { // many rules
			n = bigN(r, 1200)
		}
		for i := 0; i < n; i++ {
			order = append(order, ph)
		}
	}
	if r.P(50) { // rules of different phases interleaved in the text
		shuffle(r, order)
	}
	var out []*Rule
	for _, ph := range order {
		id := ids()
		cr := &ctlRule{id: id, phase: ph, abortAt: -1}
		n := 1
		if r.P(p.chain) {
			n = 1 + r.Range(1, p.maxLinks)
			if r.N(1000) == 0 { // a long chain
				n = bigN(r, 300)
			}
		}
		var rule *Rule
		used := map[string]bool{}
		hitAll := r.P(p.match)
		for i := 0; i < n; i++ {
			l := &ctlLink{id: id*1000 + i, hit: hitAll || (n > 1 && r.P(60)), not: r.P(20), dup: 1}
			if r.P(15) {
				l.dup = r.Range(2, 4)
			}
			l.acts = genActs(r, p, used)
			cr.links = append(cr.links, l)
			set.byLink[l.id] = l
			tr := &Rule{ID: l.id, Sels: []Sel{{Var: "REQUEST_METHOD"}}, Op: "rx", Arg: "x", Not: l.not}
			if i == 0 {
				tr.Phase = ph
				if tr.Phase > 5 {
					tr.Phase = 5
				}
				rule = tr
			} else {
				if r.P(30) {
					tr.Phase = r.Range(1, 5)
				}
				rule.Links = append(rule.Links, tr)
			}
			for _, a := range l.acts {
				if !strings.HasPrefix(a.Name, "probe") {
					if a.Arg != "" && r.P(25) { // the same, quoted
						q := r.Pick("'", "\"")
						a.Arg = q + a.Arg + q
					}
					tr.Acts = append(tr.Acts, a)
				}
			}
		}
		if p.bodyAborts && r.P(20) {
			cr.abortAt = r.N(n)
		}
		set.rules[ph] = append(set.rules[ph], cr)
		out = append(out, rule)
	}
	return set, out
}

func genStatus(r *Rand) string {
	if r.P(25) {
		return strconv.Itoa(r.PickInt(99, 100, 101, 199, 200, 201, 599, 600, 601, 0, 1, 1000, 403, 404, 302, 503, 65536))
	}
	if r.P(10) {
		return strconv.Itoa(pick(r, dict.sizes) % 1000)
	}
	return strconv.Itoa(r.Range(100, 599))
}

func genDefaults(r *Rand) []Act {
	var as []Act
	if r.P(60) {
		as = append(as, Act{"status", genStatus(r)})
	}
	if r.P(50) {
		as = append(as, Act{"log", ""})
	}
	if r.P(80) {
		as = append(as, Act{"deny", ""})
	}
	shuffle(r, as)
	return as
}

func genActs(r *Rand, p *profile, used map[string]bool) []Act {
	var as []Act
	n := 0
	for r.P(p.actPct) && n < 5 {
		n++
		k := pick(r, p.acts)
		a := Act{Name: k}
		switch k {
		case "status":
			a.Arg = genStatus(r)
			if used["deny"] && r.P(60) {
				continue
			}
		case "deny", "block":
			if used["deny"] {
				continue
			}
			used["deny"] = true
		case "skip":
			if used["flow"] {
				continue
			}
			used["flow"] = true
			if r.P(80) {
				a.Arg = strconv.Itoa(r.Range(1, 5))
				if r.P(4) {
					a.Arg = strconv.Itoa(r.Range(1, 40))
				}
				if r.P(8) {
					a.Arg = r.Pick("10", "100", "65536", "4294967296", "9223372036854775807", "9223372036854775806")
				}
			}
		case "allow":
			if used["allow"] {
				continue
			}
			used["allow"] = true
			a.Arg = r.Pick("", "phase", "request", "")
		}
		as = append(as, a)
	}
	as = append(as, Act{Name: "probe"})
	if r.P(20) {
		as = append(as, Act{Name: r.Pick("probeflow", "probedata", "probe")})
	}
	shuffle(r, as)
	return as
}

// ---- installation -------------------------------------------------------

type ctlRun struct {
	c    *Ctx
	e    *ms.Engine
	set  *ctlSet
	rec  *Recorder
	t    *ms.Transaction
	logs []string // log entries owed since the last collection
	m    *machine
	tr   []string // history, for reports
	kept []keptResult
}

// keptResult is a collected result the caller holds on to, and what it said then.
type keptResult struct {
	i *ms.Intervention
	s string
}

func describeResult(i *ms.Intervention) string {
	return fmt.Sprintf("%d %v %v %v %q", i.Status, i.Disruptive, i.Pause, i.Url, i.Log)
}

// checkKept says whether results collected earlier still say what they said.
func (x *ctlRun) checkKept() {
	for _, k := range x.kept {
		if d := describeResult(k.i); d != k.s {
			x.c.Fail("result-changed", "a collected result said %s and later says %s", k.s, d)
		}
	}
	x.c.Count("results_rechecked", len(x.kept))
}

func (x *ctlRun) install(rules []*Rule) {
	c := x.c
	text := rulesText(rules)
	c.Set("rules", text)
	c.Set("matches", describeSet(x.set))
	x.e = c.load(text)
	byID := map[int]*ms.SecRule{}
	for _, rs := range x.e.RuleSet.Phases {
		for _, r := range rs {
			if byID[r.Id] != nil {
				c.Fail("installed-twice", "rule %d is installed twice", r.Id)
			}
			byID[r.Id] = r
		}
	}
	fresh := ms.NewSecRuleSet()
	for _, r := range rules {
		sr := byID[r.ID]
		if sr == nil {
			c.Fail("not-installed", "rule %d was accepted but is not installed", r.ID)
		}
		delete(byID, r.ID)
		var cr *ctlRule
		for _, rs := range x.set.rules {
			for _, k := range rs {
				if k.links[0].id == r.ID {
					cr = k
				}
			}
		}
		if cr.phase == ms.PhaseLogging {
			sr.Phase = ms.PhaseLogging
		} else if sr.Phase != cr.phase {
			c.Fail("wrong-phase", "rule %d for phase %d is installed in phase %d", r.ID, cr.phase, sr.Phase)
		}
		fresh.AddRules(sr)
		links := allLinks(sr)
		if len(links) != len(cr.links) {
			c.Fail("chain-length", "the chain of rule %d has %d rules, loaded %d", r.ID, len(cr.links), len(links))
		}
		for i, l := range links {
			x.wrap(l, cr, i)
		}
	}
	for id := range byID {
		c.Fail("extra-rule", "rule %d is installed as a rule of its own", id)
	}
	x.e.RuleSet = fresh
	for i, d := range x.set.defaults {
		var a ms.Action
		switch d.Name {
		case "status":
			n, _ := strconv.Atoi(d.Arg)
			a = actions.NewActionStatus(n)
		case "log":
			a = actions.NewActionLog()
		case "deny":
			a = actions.NewActionDeny()
		}
		x.e.RuleSet.AddDefaultActions(x.wrapAct(a, 0, -1, fmt.Sprintf("default:%s#%d", d.Name, i), d.Name))
	}
}

func (x *ctlRun) wrap(l *ms.SecRule, cr *ctlRule, i int) {
	ml := cr.links[i]
	if l.Id != ml.id {
		x.c.Fail("chain-order", "link %d of rule %d is rule %d, want %d", i, cr.id, l.Id, ml.id)
	}
	l.Variables = []ms.Variable{&scriptVar{"PROBE", func(t *ms.Transaction) []string {
		x.rec.add(Event{Kind: "eval", Rule: ml.id})
		if i == cr.abortAt {
			t.AbortWithError(413, errors.New("probe abort"))
			x.logs = append(x.logs, "abort process with error probe abort")
			if x.c.R.P(50) {
				return nil
			}
		}
		var vs []string
		for k := 0; k < ml.dup; k++ {
			// one value decides, the others do not satisfy the (negated) operator
			hit := ml.hit && k == ml.dup-1
			vs = append(vs, strconv.FormatBool(hit != ml.not))
		}
		return vs
	}}}
	l.Operator = &scriptOp{func(t *ms.Transaction, s string) bool { return s == "true" }}
	real := l.Actions
	l.Actions = nil
	k := 0
	for j, a := range ml.acts {
		name := fmt.Sprintf("%s#%d", a.Name, j)
		if strings.HasPrefix(a.Name, "probe") {
			g := groupOf[a.Name]
			l.Actions = append(l.Actions, x.wrapAct(&scriptAct{a.Name, g, func(t *ms.Transaction) {
				t.Logf("probe %d", ml.id)
			}}, ml.id, j, name, a.Name))
			continue
		}
		if k >= len(real) {
			x.c.Fail("action-lost", "rule %d: action %s is missing", ml.id, a.Name)
		}
		l.Actions = append(l.Actions, x.wrapAct(real[k], ml.id, j, name, a.Name))
		k++
	}
	if k != len(real) {
		x.c.Fail("action-extra", "rule %d has %d actions, want %d", ml.id, len(real), k)
	}
}

func (x *ctlRun) wrapAct(a ms.Action, rule, idx int, name, kind string) ms.Action {
	if a.ActionGroup() != groupOf[kind] {
		// a different grouping is fine as long as the effects are right
		x.c.Count("regrouped_actions", 1)
	}
	return &recAct{a, func(t *ms.Transaction) {
		x.rec.add(Event{Kind: "act", Rule: rule, Idx: idx, Name: name})
		switch kind {
		case "log":
			x.logs = append(x.logs, "log")
		case "deny":
			x.logs = append(x.logs, "deny")
		case "probe", "probeflow", "probedata":
			x.logs = append(x.logs, fmt.Sprintf("probe %d", rule))
		}
	}}
}

func describeSet(s *ctlSet) string {
	var out []string
	var phs []int
	for p := range s.rules {
		phs = append(phs, p)
	}
	sort.Ints(phs)
	for _, p := range phs {
		for _, r := range s.rules[p] {
			t := fmt.Sprintf("phase %d rule %d:", p, r.id)
			for i, l := range r.links {
				t += fmt.Sprintf(" link %d hit=%v acts=%v", l.id, l.hit, l.acts)
				if i == r.abortAt {
					t += " aborts"
				}
			}
			out = append(out, t)
		}
	}
	if len(s.defaults) > 0 {
		out = append(out, fmt.Sprintf("default actions %v", s.defaults))
	}
	return strings.Join(out, "\n")
}

// ---- execution ----------------------------------------------------------

const ctlSrc = "198.51.100.7"
const ctlPort = "4711"

// announce performs one call that announces a phase and checks what ran.
func (x *ctlRun) announce(p int, call string, f func()) {
	x.tr = append(x.tr, call)
	x.c.Set("history", strings.Join(x.tr, "; "))
	want := x.m.phase(p)
	aborted := x.m.aborted
	f()
	got := x.rec.take()
	x.c.Eval(1)
	x.c.Count("phases_announced", 1)
	x.compare(call, want, got)
	if aborted && !x.t.Abort {
		x.c.Fail("abort-lost", "%s: the transaction is not aborted although an inspection aborted it", call)
	}
}

func (x *ctlRun) compare(call string, want []expEval, got []Event) {
	c := x.c
	pos := 0
	next := func() *Event {
		if pos < len(got) {
			return &got[pos]
		}
		return nil
	}
	for _, w := range want {
		r := w.rule
		e := next()
		if e == nil || e.Kind != "eval" || e.Rule != r.links[0].id {
			c.Fail("not-evaluated", "%s: rule %d should be evaluated next, saw %s", call, r.links[0].id, evs(got, pos))
		}
		c.Count("rules_evaluated", 1)
		// evaluation events of this rule's links, in order
		link := 0
		for e := next(); e != nil && e.Kind == "eval"; e = next() {
			k := -1
			for i, l := range r.links {
				if l.id == e.Rule {
					k = i
				}
			}
			if k < 0 || k < link {
				break
			}
			link = k
			pos++
		}
		if len(w.acts) == 0 {
			if e := next(); e != nil && e.Kind == "act" {
				c.Fail("acted-without-match", "%s: rule %d does not match but action %s of %d ran", call, r.links[0].id, e.Name, e.Rule)
			}
			continue
		}
		c.Count("rules_matched", 1)
		for i, l := range r.links {
			need := append([]string(nil), w.acts[i]...)
			var ran []string
			for e := next(); e != nil && e.Kind == "act" && (e.Rule == l.id || e.Rule == 0) && len(ran) < len(need); e = next() {
				ran = append(ran, e.Name)
				pos++
			}
			c.Count("actions_ran", len(ran))
			a, b := append([]string(nil), need...), append([]string(nil), ran...)
			sort.Strings(a)
			sort.Strings(b)
			if strings.Join(a, " ") != strings.Join(b, " ") {
				c.Fail("wrong-actions", "%s: rule %d link %d must run %v, ran %v (then %s)", call, r.links[0].id, l.id, need, ran, evs(got, pos))
			}
		}
	}
	if pos < len(got) {
		c.Fail("unexpected", "%s: nothing more should happen, saw %s", call, evs(got, pos))
	}
}

func evs(got []Event, pos int) string {
	if pos >= len(got) {
		return "nothing"
	}
	var s []string
	for i := pos; i < len(got) && i < pos+6; i++ {
		s = append(s, fmt.Sprintf("%s %d %s", got[i].Kind, got[i].Rule, got[i].Name))
	}
	return strings.Join(s, ", ")
}

// collect calls Result and compares.
func (x *ctlRun) collect() {
	c := x.c
	x.tr = append(x.tr, "Result")
	c.Set("history", strings.Join(x.tr, "; "))
	m := x.m
	i := x.t.Result()
	if i == nil {
		c.Fail("no-result", "Result returned nothing")
	}
	c.Count("results_collected", 1)
	wantDis := (m.pending || m.aborted) && m.mode == ms.StatusOn
	if i.Disruptive != wantDis {
		c.Fail("disruptive", "result disruptive=%v, want %v (pending %v aborted %v mode %d)", i.Disruptive, wantDis, m.pending, m.aborted, m.mode)
	}
	if wantDis {
		c.Count("disruptive_results", 1)
		want := m.status
		if m.aborted {
			want = m.abortCode
		}
		ok := i.Status == want
		for _, s := range m.maybe {
			ok = ok || i.Status == s && !m.aborted
		}
		if !ok {
			c.Fail("status", "result status %d, want %d", i.Status, want)
		}
	} else if !m.pending && !m.aborted && i.Status != 200 {
		c.Fail("status", "undisturbed result has status %d, want 200", i.Status)
	}
	x.checkLogs(i.Log)
	x.kept = append(x.kept, keptResult{i, describeResult(i)})
	m.pending = false
	m.denied = nil
	x.logs = nil
}

func (x *ctlRun) checkLogs(got []string) {
	c := x.c
	c.Count("log_entries", len(got))
	if len(got) != len(x.logs) {
		c.Fail("log-count", "%d log entries collected, %d were produced: got %q want %q", len(got), len(x.logs), got, x.logs)
	}
	denies := 0
	for k, w := range x.logs {
		g := got[k]
		if !strings.HasPrefix(g, "[client ") {
			c.Fail("log-format", "log entry %q does not name the client", g)
		}
		switch w {
		case "log":
			if strings.Contains(g, "probe") || strings.Contains(g, "denied") || !strings.Contains(g, "running action") {
				c.Fail("log-order", "log entry %d is %q, want that of a log action (all: %q, want %q)", k, g, got, x.logs)
			}
		case "deny":
			if !strings.Contains(g, "denied") {
				c.Fail("log-order", "log entry %d is %q, want that of a deny action (all: %q, want %q)", k, g, got, x.logs)
			}
			if denies < len(x.m.denied) && !strings.HasSuffix(g, fmt.Sprintf("code %d", x.m.denied[denies])) {
				c.Fail("log-status", "log entry %q does not tell the status %d", g, x.m.denied[denies])
			}
			denies++
		default:
			if !strings.HasSuffix(g, w) {
				c.Fail("log-order", "log entry %d is %q, want %q (all: %q, want %q)", k, g, w, got, x.logs)
			}
		}
	}
}

type ctlCall struct {
	phase int
	name  string
}

var ctlCalls = []ctlCall{{1, "Connection"}, {2, "RequestHeader"}, {3, "RequestBody"}, {4, "ResponseHeaders"}, {5, "ResponseBody"}, {6, "Logging"}}

func (x *ctlRun) call(cc ctlCall) {
	t := x.t
	switch cc.name {
	case "Connection":
		src, port := ctlSrc, ctlPort
		if x.m.aborted && x.c.R.P(50) { // whoever comes now
			src, port = "198.51.100.9", "4712"
		}
		x.announce(1, cc.name, func() { t.ProcessConnection(src, port, "192.0.2.1", "80") })
	case "RequestHeader":
		x.announce(2, cc.name, func() { t.ProcessRequestHeader(nil) })
	case "RequestBody":
		x.announce(3, cc.name, func() { t.ProcessRequestBody() })
	case "ResponseHeaders":
		x.announce(4, cc.name, func() { t.ProcessResponseHeaders(200, "HTTP/1.1", nil) })
	case "ResponseBody":
		x.announce(5, cc.name, func() { t.ProcessResponseBody() })
	case "Logging":
		x.announce(6, cc.name, func() { t.ProcessLogging() })
	default:
		x.announce(cc.phase, fmt.Sprintf("ProcessPhase(%d)", cc.phase), func() { t.ProcessPhase(cc.phase) })
	}
}

func genHistory(r *Rand, p *profile) []ctlCall {
	var h []ctlCall
	for _, cc := range ctlCalls {
		if r.P(p.drop) {
			continue
		}
		if r.P(20) {
			cc = ctlCall{cc.phase, ""}
		}
		h = append(h, cc)
	}
	if p.weird && r.P(60) {
		for n := r.Range(1, 6); n > 0; n-- {
			switch r.N(3) {
			case 0: // repeat or insert
				cc := pick(r, ctlCalls)
				i := r.N(len(h) + 1)
				h = append(h[:i], append([]ctlCall{cc}, h[i:]...)...)
			case 1: // swap
				if len(h) > 1 {
					i, j := r.N(len(h)), r.N(len(h))
					h[i], h[j] = h[j], h[i]
				}
			case 2:
				i := r.N(len(h) + 1)
				h = append(h[:i], append([]ctlCall{{r.PickInt(1, 2, 3, 4, 5, 6, 0, -1), ""}}, h[i:]...)...)
			}
		}
	}
	return h
}

// runControl runs one random rule set through several histories.
func runControl(c *Ctx, p *profile) {
	r := c.R
	set, rules := genCtlSet(r, p)
	x := &ctlRun{c: c, set: set, rec: &Recorder{}}
	x.install(rules)
	var nontrivial bool
	for k := 0; k < 3; k++ {
		if k > 0 { // other matches for the same rules
			for _, rs := range set.rules {
				for _, cr := range rs {
					all := r.P(p.match)
					for _, l := range cr.links {
						l.hit = all || (len(cr.links) > 1 && r.P(60))
					}
					cr.abortAt = -1
					if p.bodyAborts && r.P(20) {
						cr.abortAt = r.N(len(cr.links))
					}
				}
			}
			c.Set("matches", describeSet(set))
		}
		x.history(p)
		nontrivial = nontrivial || len(rules) > 1
	}
	if nontrivial {
		c.Distinct(rulesText(rules), describeSet(set), x.tr)
		c.Sample(map[string]string{"rules": rulesText(rules), "matches": describeSet(set), "history": strings.Join(x.tr, "; ")})
	}
}

var ctlModes = []string{"On", "Off", "DetectionOnly"}

func (x *ctlRun) setMode(mode int) {
	if x.c.R.P(50) {
		x.c.loadInto(x.e, "SecRuleEngine "+ctlModes[mode]+"\n")
	} else {
		x.e.Enable(mode)
	}
	x.m.mode = mode
	x.tr = append(x.tr, "mode "+ctlModes[mode])
}

func (x *ctlRun) history(p *profile) {
	r := x.c.R
	x.tr = nil
	x.logs = nil
	x.rec.take()
	old := x.m
	x.m = &machine{set: x.set, mode: ms.StatusOn}
	if old != nil {
		x.m.mode = old.mode
	}
	if p.modes {
		// several settings in a row: the last one counts
		n := r.Range(0, 3)
		for i := 0; i < n; i++ {
			x.setMode(r.N(3))
		}
	}
	x.t = x.c.tx(x.e)
	defer func() {
		x.t.Request.Body.Close()
		x.t.Response.Body.Close()
	}()
	u, _ := url.Parse("/x")
	x.t.ProcessRequestURL(u, "GET", "HTTP/1.1")
	blockedAt := 0 // highest phase announced while nothing could run
	maxAnn := 0
	for _, cc := range genHistory(r, p) {
		if p.modes && r.P(15) && !x.m.pending {
			x.setMode(r.N(3))
		}
		if p.aborts && r.P(8) {
			x.abort()
		}
		if blockedAt > 0 && cc.phase <= maxAnn && !x.m.aborted {
			continue // whether a phase announced in vain counts as run is not specified
		}
		if cc.phase > maxAnn {
			maxAnn = cc.phase
		}
		if x.m.blocked() && cc.phase > x.m.reached {
			blockedAt = cc.phase
		}
		x.call(cc)
		if r.P(p.collect) {
			x.collect()
			if r.P(20) {
				x.collect()
			}
		}
	}
	x.collect()
	x.collect()
	x.checkKept()
	if x.m.aborted {
		x.c.Count("aborted_transactions", 1)
	}
}

func (x *ctlRun) abort() {
	r := x.c.R
	if x.m.aborted && r.P(80) {
		return
	}
	code := r.PickInt(500, 413, 400, 503, 403)
	if x.m.aborted {
		code = x.m.abortCode
	}
	x.m.aborted = true
	x.m.abortCode = code
	if r.P(50) {
		x.tr = append(x.tr, fmt.Sprintf("AbortWithStatus(%d)", code))
		x.t.AbortWithStatus(code)
	} else {
		x.tr = append(x.tr, fmt.Sprintf("AbortWithError(%d)", code))
		x.t.AbortWithError(code, errors.New("called"))
		x.logs = append(x.logs, "abort process with error called")
	}
}
