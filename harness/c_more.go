package main

import (
	"errors"
	"fmt"
	"net/http"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"weak"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"
	"github.com/senghoo/modsecurity-go/modsecurity/variables"
	"github.com/senghoo/modsecurity-go/seclang"
)

func init() {
	register(&Prop{ID: "C24", Quick: 9000, Thorough: 150000, Run: runC24, Procs: 1,
		Rule: "hundreds of transactions with ever new traffic against one engine, or hundreds of loads of one text, per case; live heap objects and bytes, goroutines and open files are compared after forced collections, a suspicion is confirmed over four further rounds of twice the length each; non-trivial: every distinct rule set and traffic"})
	register(&Prop{ID: "C26", Quick: 150000, Thorough: 1500000, Run: runC26,
		Rule: "random rule sets loaded from text and built with the constructors of the Go packages, run on the same traffic; every result, body error and inspected value compared; non-trivial: some rule acted"})
	register(&Prop{ID: "C27", Quick: 200000, Thorough: 2000000, Run: runC27,
		Rule: "random rules that log and deny in every phase, some aborts, traffic of random clients, several interleaved transactions; every collected entry parsed; non-trivial: at least one entry"})
}

// ---- C24 --------------------------------------------------------------------

type held struct {
	objects, bytes, goroutines, files int
}

func holding() (h held) {
	for i := 0; i < 3; i++ { // finalizers run between collections
		runtime.GC()
		runtime.Gosched()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	h.objects, h.bytes = int(m.HeapObjects), int(m.HeapAlloc)
	h.goroutines = runtime.NumGoroutine()
	if d, err := os.Open("/proc/self/fd"); err == nil {
		ns, _ := d.Readdirnames(-1)
		h.files = len(ns)
		d.Close()
	}
	return
}

// grew names what grew with n repetitions.
func (h held) grew(since held, n int) (what string) {
	switch {
	case h.goroutines-since.goroutines > n/30+1:
		what = "goroutines"
	case h.files-since.files > n/30+1:
		what = "open files"
	case h.objects-since.objects > n/20+10:
		what = "heap objects"
	case h.bytes-since.bytes > n*2+4000:
		what = "heap bytes"
	}
	return
}

func runC24(c *Ctx) {
	r := c.R
	var once func(i int)
	var what string
	switch c.I % 4 {
	case 3:
		once, what = c24Load(c)
	default:
		once, what = c24Traffic(c)
	}
	i := 0
	round := func(n int) {
		for k := 0; k < n; k++ {
			once(i)
			i++
		}
		c24Gone(c)
	}
	n := r.Range(100, 200)
	round(60)
	before := holding()
	round(n)
	after := holding()
	c.Eval(n)
	c.Count("rounds_measured", 1)
	c.Count(what, n)
	c.Max("objects_grown", after.objects-before.objects)
	c.Max("bytes_grown", after.bytes-before.bytes)
	if g := after.grew(before, n); g != "" {
		// a cache that is bounded fills up; what keeps growing does not
		c.Count("suspicions", 1)
		from := after
		for k := 0; k < 5; k++ {
			n *= 2
			round(n)
			time.Sleep(20 * time.Millisecond)
			now := holding()
			if g = now.grew(from, n); g == "" {
				return
			}
			before, from = from, now
		}
		c.Fail("retained", "%d more %s, all finished and dropped, leave %d heap objects, %d heap bytes, %d goroutines, %d open files more than before: %s grow without bound", n, what, from.objects-before.objects, from.bytes-before.bytes, from.goroutines-before.goroutines, from.files-before.files, g)
	}
}

// c24Dropped are the last things that were finished and dropped.
var c24Dropped []func() string

func dropped[T any](what string, p *T) {
	w := weak.Make(p)
	c24Dropped = append(c24Dropped, func() string {
		if w.Value() != nil {
			return what
		}
		return ""
	})
	if len(c24Dropped) > 40 {
		c24Dropped = append(c24Dropped[:0], c24Dropped[20:]...)
	}
}

// c24Gone tells that nothing that was dropped is still there.
func c24Gone(c *Ctx) {
	var kept string
	for try := 0; try < 6; try++ {
		runtime.GC()
		kept = ""
		for _, f := range c24Dropped {
			if s := f(); s != "" {
				kept = s
			}
		}
		if kept == "" {
			break
		}
		time.Sleep(time.Duration(try) * 20 * time.Millisecond)
	}
	c.Count("seen_collected", len(c24Dropped))
	c24Dropped = nil
	if kept != "" {
		c.Fail("kept", "%s that was finished and dropped is still held", kept)
	}
}

func c24Load(c *Ctx) (func(int), string) {
	r := c.R
	cfg, _ := c.texts(4)
	y := &layouter{r: r, nl: []string{"\n"}}
	text := y.write(cfg)
	if r.P(40) {
		text = r.Pick(mutate(r, text), text+"\n"+pick(r, badDirs), genText(r))
		if len(text) > 3000 {
			text = text[:3000]
		}
	}
	c.Set("text", text)
	c.Distinct(text)
	e := c.newEngine()
	ds0, err0 := seclang.NewDireSetFromSecLangString(text)
	apply := err0 == nil && r.P(30)
	// ever new texts: a rule, a message and a pattern no load had before
	fresh := !apply && r.P(70)
	tail := r.Pick("", "", "\nSecRule ARGS_Z \"x\" \"id:1\"", "\nSecRule ARGS \"(\" \"id:1\"", "\nSecRule ARGS x \"id:1,t:no%d\"")
	base := text
	return func(i int) {
		if fresh {
			s := strconv.Itoa(i)
			text = base + "\nSecRule ARGS:n" + s + "|!REQUEST_HEADERS:x" + s + "|REQUEST_COOKIES:/y" + s + "/ \"@rx v" + s + "\" \"id:77" + s + ",phase:2,log,msg:'m" + s + "',deny,chain\"\nSecRule RESPONSE_STATUS|&ARGS:q" + s + " \"@eq " + s + "\" \"skip:" + s + "\"" + strings.Replace(tail, "%d", s, 1) + "\n"
		}
		if apply { // one configuration applied to many engines
			ds0.Execute(c.newEngine())
			return
		}
		ds, err := seclang.NewDireSetFromSecLangString(text)
		if err == nil {
			e2 := c.newEngine()
			ds.Execute(e2)
			t := c.tx(e2)
			t.ProcessConnection("1.1.1.1", "1", "1.1.1.2", "2")
			closeTx(t)
			dropped("a rule set", ds)
			dropped("an engine", e2)
		}
		t := c.tx(e)
		closeTx(t)
		dropped("a transaction", t)
	}, "loads"
}

// c24Traffic makes ever new traffic.
func c24Traffic(c *Ctx) (func(int), string) {
	r := c.R
	rules := genAnyRules(r, r.Range(1, 5))
	text := rulesText(rules)
	e := c.load("SecRequestBodyAccess On\nSecResponseBodyAccess On\n" + text)
	e.Enable(r.PickInt(ms.StatusOn, ms.StatusOn, ms.StatusDect, ms.StatusOff))
	if r.P(30) {
		e.RequestBodyInMem = int64(r.PickInt(0, 5, 100))
	}
	if r.P(20) {
		e.RequestBody = int64(r.PickInt(5, 100))
	}
	var xs []*Traffic
	for k := r.Range(1, 2); k > 0; k-- {
		x := genTraffic(r, &tprofile{wild: 10, maxLen: 2000, noURL: 3})
		if len(x.RBody) > 5000 {
			x.RBody = x.RBody[:5000]
		}
		aim(r, x, rules)
		xs = append(xs, x)
	}
	c.Set("rules", text)
	c.Set("traffic", xs[0].String())
	c.Distinct(text, xs[0].String())
	fresh := r.P(80)
	lazy := r.P(15) // results are never collected
	hold := r.P(10) // the transaction is given up half way
	abort := r.P(8)
	return func(i int) {
		x := *xs[i%len(xs)]
		if fresh {
			s := strconv.Itoa(i)
			x.Src = x.Src + s
			x.SrcPort = s
			x.Query += "&n" + s + "=v" + s
			x.Path += s
			x.Header = cloneHeader(x.Header)
			x.RHeader = cloneHeader(x.RHeader)
			for _, h := range []http.Header{x.Header, x.RHeader} {
				h["X-N"+s] = []string{"v" + s}
				if v := h["Cookie"]; len(v) > 0 {
					v[0] += "; c" + s + "=" + s
				}
			}
			if ct := x.Header["Content-Type"]; len(ct) > 0 && strings.HasPrefix(ct[0], "multipart") {
				ct[0] = strings.Replace(ct[0], "boundary=", "n"+s+"="+s+"; boundary=", 1)
			}
			x.Proto, x.RProto = x.Proto+s, x.RProto+s
			x.Code += i
			if x.bodyType() == "urlencoded" {
				x.Body = append(append([]byte{}, x.Body...), "&m"+s+"="+s...)
			}
			x.RBody = append(append([]byte{}, x.RBody...), s...)
		}
		t := c.tx(e)
		for p := 1; p <= 6; p++ {
			if p == 4 && (hold || abort) {
				if abort {
					t.AbortWithStatus(500)
				} else {
					break
				}
			}
			switch p {
			case 3:
				t.AppendRequestBody(x.Body)
				t.ProcessRequestBody()
			case 5:
				t.AppendResponseBody(x.RBody)
				t.ProcessResponseBody()
			default:
				x.stage(c, t, p)
			}
			if !lazy {
				t.Result()
			}
		}
		closeTx(t)
		dropped("a transaction", t)
	}, "transactions"
}

// ---- C26 --------------------------------------------------------------------

var variableMakers = map[string]func() ms.Variable{
	"ARGS": variables.NewVariableArgs, "ARGS_NAMES": variables.NewVariableArgsNames, "ARGS_GET": variables.NewVariableArgsGet, "ARGS_GET_NAMES": variables.NewVariableArgsGetNames,
	"ARGS_POST": variables.NewVariableArgsPost, "ARGS_POST_NAMES": variables.NewVariableArgsPostNames, "QUERY_STRING": variables.NewVariableQueryString, "REMOTE_ADDR": variables.NewVariableRemoteAddr,
	"REQUEST_BASENAME": variables.NewVariableRequestBasename, "REQUEST_BODY": variables.NewVariableRequestBody, "REQUEST_COOKIES": variables.NewVariableRequestCookies, "REQUEST_COOKIES_NAMES": variables.NewVariableRequestCookiesNames,
	"REQUEST_FILENAME": variables.NewVariableRequestFilename, "REQUEST_HEADERS": variables.NewVariableRequestHeaders, "REQUEST_HEADERS_NAMES": variables.NewVariableRequestHeadersNames, "REQUEST_METHOD": variables.NewVariableRequestMethod,
	"REQUEST_PROTOCOL": variables.NewVariableRequestProtocol, "REQUEST_URI": variables.NewVariableRequestURI, "RESPONSE_BODY": variables.NewVariableResponseBody, "RESPONSE_CONTENT_LENGTH": variables.NewVariableResponseContentLength,
	"RESPONSE_CONTENT_TYPE": variables.NewVariableResponseContentType, "RESPONSE_HEADERS": variables.NewVariableResponseHeaders, "RESPONSE_HEADERS_NAMES": variables.NewVariableResponseHeadersNames,
	"RESPONSE_PROTOCOL": variables.NewVariableResponseProtocol, "RESPONSE_STATUS": variables.NewVariableResponseStatus,
}

// buildVars makes the variables of a target list. A variable is made once for
// each NAME, counted or not, as the selections of a NAME unite.
func buildVars(r *Rand, sels []Sel) (out []ms.Variable) {
	type group struct {
		name  string
		count bool
	}
	vars := map[group]ms.Variable{}
	whole := map[group]bool{}
	var order []group
	for _, s := range sels {
		g := group{s.Var, s.Count}
		if s.Key == "" {
			whole[g] = true
		}
		if vars[g] == nil {
			vars[g] = variableMakers[s.Var]()
			order = append(order, g)
		}
	}
	for _, s := range sels {
		g := group{s.Var, s.Count}
		switch {
		case s.Key == "":
		case s.Excl:
			vars[g].Exclude(s.Key)
		case !whole[g]:
			vars[g].Include(s.Key)
		}
	}
	for _, g := range order {
		v := vars[g]
		if g.count {
			v = variables.NewCountVariable(v)
		}
		out = append(out, v)
	}
	shuffle(r, out)
	return
}

func buildOp(c *Ctx, u *Rule) ms.Operator {
	var o ms.Operator
	var err error
	switch u.Op {
	case "rx":
		o, err = operators.NewOperatorRx(u.Arg)
	case "eq":
		o, err = operators.NewOperatorEq(u.Arg)
	case "ge":
		o, err = operators.NewOperatorGe(u.Arg)
	case "gt":
		o, err = operators.NewOperatorGt(u.Arg)
	case "le":
		o, err = operators.NewOperatorLe(u.Arg)
	case "lt":
		o, err = operators.NewOperatorLt(u.Arg)
	}
	if err != nil {
		c.Fail("api-operator", "@%s %s is refused: %v", u.Op, u.Arg, err)
	}
	return o
}

func buildActs(c *Ctx, as []Act) (out []ms.Action) {
	for _, a := range as {
		switch a.Name {
		case "deny":
			out = append(out, actions.NewActionDeny())
		case "block":
			out = append(out, actions.NewActionBlock())
		case "pass":
			out = append(out, actions.NewActionPass())
		case "log":
			out = append(out, actions.NewActionLog())
		case "allow":
			out = append(out, actions.NewActionAllow(a.Arg))
		case "skip":
			if a.Arg == "" {
				out = append(out, actions.NewActionSkip())
				continue
			}
			s, err := actions.NewActionSkipCount(a.Arg)
			if err != nil {
				c.Fail("api-skip", "skip:%s is refused: %v", a.Arg, err)
			}
			out = append(out, s)
		case "status":
			n, _ := strconv.Atoi(a.Arg)
			out = append(out, actions.NewActionStatus(n))
		}
	}
	return
}

func buildRule(c *Ctx, u *Rule, link bool) *ms.SecRule {
	r := c.R
	sr := ms.NewSecRule()
	if r.P(10) {
		sr = &ms.SecRule{}
	}
	sr.Id, sr.Not = u.ID, u.Not
	if !link {
		sr.Phase = u.Phase
		if sr.Phase == 0 {
			sr.Phase = ms.PhaseRequestBody - 1
		}
	}
	steps := []func(){
		func() {
			vs := buildVars(r, u.Sels)
			if r.P(50) {
				sr.AppendVariables(vs...)
				return
			}
			for _, v := range vs {
				sr.AppendVariables(v)
			}
		},
		func() { sr.SetOperator(buildOp(c, u)) },
		func() {
			as := buildActs(c, u.Acts)
			if k := r.N(len(as) + 1); r.P(50) {
				sr.AppendActions(as[:k]...)
				sr.AppendActions(as[k:]...)
				return
			}
			sr.AppendActions(as...)
		},
		func() {
			for _, t := range u.Trans {
				sr.AppendTrans(transMakers[t]())
			}
		},
		func() {
			var ls []*ms.SecRule
			for _, l := range u.Links {
				ls = append(ls, buildRule(c, l, true))
			}
			k := r.N(len(ls) + 1)
			sr.AppendSubRules(ls[:k]...)
			sr.AppendSubRules(ls[k:]...)
		},
	}
	shuffle(r, steps)
	for _, f := range steps {
		f()
	}
	return sr
}

// looks is what the rules of one id inspected in one phase.
type looks struct {
	values  []string
	fetched map[string]int // by link and variable
	matched bool           // then the rest may not have been looked at
}

// partial tells that some variables were fetched more often than others.
func (l *looks) partial() bool {
	if l == nil {
		return false
	}
	least, most := 1<<30, 0
	for _, n := range l.fetched {
		if n < least {
			least = n
		}
		if n > most {
			most = n
		}
	}
	return least != most
}

// stopsEarly tells whether a rule that has matched leaves its other targets
// unseen, which is nobody's business but the order's.
var stopsEarly = sync.OnceValue(func() bool {
	looked := false
	sr := ms.NewSecRule()
	sr.AppendVariables(&scriptVar{"A", func(*ms.Transaction) []string { return []string{"a"} }}, &scriptVar{"B", func(*ms.Transaction) []string { looked = true; return nil }})
	sr.SetOperator(&scriptOp{func(*ms.Transaction, string) bool { return true }})
	t, err := ms.NewEngine().NewTransaction()
	if err != nil {
		return false
	}
	defer closeTx(t)
	sr.Match(t)
	return !looked
})

// watchVars records the values of each rule's variables, in bags.
func watchVars(rs *ms.SecRuleSet, seen map[string]*looks) {
	for _, rules := range rs.Phases {
		for _, sr := range rules {
			for n, l := range allLinks(sr) {
				id, n, l := l.Id, n, l
				all := len(l.Variables)
				at := func(t *ms.Transaction) *looks {
					k := fmt.Sprintf("rule %d in phase %d", id, t.CurrentPhase())
					if seen[k] == nil {
						seen[k] = &looks{fetched: map[string]int{}}
					}
					for i := 0; i < all; i++ {
						seen[k].fetched[fmt.Sprintf("%p %d %d", sr, n, i)] += 0
					}
					return seen[k]
				}
				for i, v := range l.Variables {
					i := i
					l.Variables[i] = &recVar{v, func(t *ms.Transaction, got []string) {
						w := at(t)
						w.values = append(w.values, got...)
						w.fetched[fmt.Sprintf("%p %d %d", sr, n, i)]++
					}}
				}
				op, not := l.Operator, l.Not
				l.SetOperator(&scriptOp{func(t *ms.Transaction, v string) bool {
					ok := op.Match(t, v)
					if ok != not {
						at(t).matched = true
					}
					return ok
				}})
			}
		}
	}
}

func runC26(c *Ctx) {
	r := c.R
	rules := genAnyRules(r, r.Range(1, 6))
	for _, u := range rules {
		if r.P(15) {
			u.Phase = 0
		}
		if u.ID%2 == 0 && r.P(30) { // the base of a default
			u.Acts = append(u.Acts, Act{"block", ""})
		}
	}
	reqAcc, resAcc := r.P(80), r.P(80)
	mode := r.PickInt(ms.StatusOn, ms.StatusOn, ms.StatusOn, ms.StatusDect, ms.StatusOff)
	text := fmt.Sprintf("SecRequestBodyAccess %s\nSecResponseBodyAccess %s\nSecRuleEngine %s\n", onOff(reqAcc), onOff(resAcc), ctlModes[mode]) + rulesText(rules)
	c.Set("rules", text)
	a := c.load(text)
	b := c.newEngine()
	b.RequestBodyAccess, b.ResponseBodyAccess = reqAcc, resAcc
	b.Enable(mode)
	var rs *ms.SecRuleSet
	own := r.P(50) // a rule set apart from the engine's
	if own {
		rs = ms.NewSecRuleSet()
		if r.P(30) {
			rs = &ms.SecRuleSet{}
		}
		// the engine's rules are of no concern then
		trap := ms.NewSecRule()
		trap.AppendVariables(variables.NewVariableRemoteAddr())
		trap.SetOperator(buildOp(c, &Rule{Op: "rx"}))
		trap.AppendActions(actions.NewActionStatus(499), actions.NewActionDeny())
		for p := 1; p <= 6; p++ {
			d := *trap
			d.Phase = p
			b.AddSecRule(&d)
		}
		b.RuleSet.AddDefaultActions(actions.NewActionStatus(498), actions.NewActionDeny(), actions.NewActionLog())
	} else {
		rs = b.RuleSet
	}
	var built []*ms.SecRule
	for _, u := range rules {
		built = append(built, buildRule(c, u, false))
	}
	switch k := r.N(len(built) + 1); {
	case own:
		rs.AddRules(built[:k]...)
		rs.AddRules(built[k:]...)
	default:
		b.AddSecRule(built[:k]...)
		b.AddSecRule(built[k:]...)
	}
	if r.P(40) {
		ds := []Act{{"deny", ""}}
		for n := r.N(3); n > 0; n-- {
			ds = append(ds, Act{r.Pick("log", "status", "pass"), "451"})
		}
		a.RuleSet.AddDefaultActions(buildActs(c, ds)...)
		as := buildActs(c, ds)
		k := r.N(len(as) + 1)
		rs.AddDefaultActions(as[:k]...)
		rs.AddDefaultActions(as[k:]...)
		for i := range as { // the slice is the caller's
			as[i] = &scriptAct{"mine", ms.ActionGroupDisruptive, func(t *ms.Transaction) { t.AbortWithStatus(497) }}
		}
	}
	seenA, seenB := map[string]*looks{}, map[string]*looks{}
	watchVars(a.RuleSet, seenA)
	watchVars(rs, seenB)
	if r.P(15) {
		a.RequestBodyInMem, b.RequestBodyInMem = 20, 20
	}
	if c.I%3 == 0 {
		c26Parts(c)
	}
	acted := false
	for rep := 0; rep < 2; rep++ {
		x := genTraffic(r, &tprofile{wild: 10, maxLen: 5000, noURL: 2})
		if len(x.RBody) > 5000 {
			x.RBody = x.RBody[:5000]
		}
		for n := r.N(3); n > 0; n-- {
			aim(r, x, rules)
		}
		c.Set("traffic", x.String())
		collect := r.P(70)
		ta := c.tx(a)
		tb, err := ms.NewTransaction(b, rs)
		if err != nil {
			c.Fail("api-transaction", "no transaction: %v", err)
		}
		clear(seenA)
		clear(seenB)
		ra := x.play(c, ta, collect)
		rb := x.play(c, tb, collect)
		closeTx(ta)
		closeTx(tb)
		c.Eval(1)
		if len(ra) > 0 && (ta.Abort || tb.Abort || ta.RequestBodyError != nil || tb.RequestBodyError != nil) && stopsEarly() {
			c.Count("order_dependent", 1) // whether the body was looked at is up to the order of the targets
			continue
		}
		for i := range ra {
			da, db := describeResult(ra[i]), describeResult(rb[i])
			acted = acted || ra[i].Disruptive || len(ra[i].Log) > 0
			if da != db {
				c.Fail("api-result", "result %d is %s with the loaded rules and %s with the same rules built with the Go API (own rule set %v)", i+1, da, db, own)
			}
		}
		if (ta.RequestBodyError == nil) != (tb.RequestBodyError == nil) || ta.Abort != tb.Abort {
			c.Fail("api-state", "aborted %v, body error %v with the loaded rules, %v and %v with those built", ta.Abort, ta.RequestBodyError, tb.Abort, tb.RequestBodyError)
		}
		for _, m := range []map[string]*looks{seenA, seenB} {
			for k := range m {
				la, lb := seenA[k], seenB[k]
				if la != nil && lb != nil && (la.partial() || lb.partial()) && (la.matched || lb.matched || ta.Abort) {
					c.Count("inspections_cut_short", 1)
					continue
				}
				if la == nil || lb == nil {
					c.Fail("api-values", "%s is evaluated by one of the loaded and built rules only", k)
				}
				if !sameBag(la.values, lb.values) {
					c.Fail("api-values", "%s inspects %q loaded and %q built", k, clip(la.values), clip(lb.values))
				}
				c.Count("inspections_compared", 1)
			}
		}
	}
	if acted {
		c.Distinct(text)
	}
	c.Sample(shorten(text, 500))
}

// c26Parts: what a rule is given is what it uses, in the order given and as
// often as given, however it is handed over.
func c26Parts(c *Ctx) {
	r := c.R
	id := r.ids()
	type link struct {
		values []string // of all variables
		empty  bool     // no variables
		trans  []string
		made   []ms.Trans
		acts   int
		not    bool
	}
	// what was done
	var ops, acts []string
	spare := ms.NewSecRule() // never part of the rule
	spare.AppendVariables(&scriptVar{"SPARE", func(*ms.Transaction) []string { return nil }})
	spare.SetOperator(&scriptOp{func(*ms.Transaction, string) bool { return false }})
	spare.AppendActions(&scriptAct{"spare", ms.ActionGroupFlow, func(*ms.Transaction) { acts = append(acts, "spare") }})
	mk := func(l *link, k int) *ms.SecRule {
		sr := ms.NewSecRule()
		sr.Id = id()
		var vs []ms.Variable
		l.empty = r.P(4)
		for n := r.Range(1, 3); n > 0 && !l.empty; n-- {
			val := r.Pick("v", "", "%2541%42", "QUE9", "a  b", "%u0041", "\xff", genMetaText(r))
			if len(l.values) > 0 && r.P(30) {
				val = r.Pick(l.values...)
			}
			v := &scriptVar{r.Pick("V", "ARGS", "W"), func(*ms.Transaction) []string { return []string{val} }}
			vs = append(vs, v)
			l.values = append(l.values, val)
			if r.P(10) { // the very same one twice
				vs = append(vs, v)
				l.values = append(l.values, val)
			}
		}
		var ts []ms.Trans
		for n := r.N(5); n > 0; n-- {
			t := pick(r, transNames)
			if len(l.trans) > 0 && r.P(40) {
				t = r.Pick(l.trans...)
			}
			var tr ms.Trans
			if mk := transMakers[t]; r.P(25) || mk == nil { // one's own
				t = r.Pick("<", "none", "lowercase")
				pre := r.Pick("<", "", "%41")
				tr = &scriptTrans{t, func(s string) string { return pre + s }}
			} else {
				tr = mk()
			}
			l.trans = append(l.trans, t)
			l.made = append(l.made, tr)
			ts = append(ts, tr)
		}
		l.acts = r.N(4)
		var as []ms.Action
		for n := 0; n < l.acts; n++ {
			s := fmt.Sprint(k, ".", n)
			as = append(as, &scriptAct{r.Pick("log", "x", "pass"), ms.ActionGroupNonDisruptive, func(*ms.Transaction) { acts = append(acts, s) }})
		}
		if l.not = r.P(20); l.not {
			sr.Not = true
		}
		cut := func(n int) int { return r.N(n + 1) }
		steps := []func(){
			func() { n := cut(len(vs)); sr.AppendVariables(vs[:n]...); sr.AppendVariables(vs[n:]...) },
			func() { n := cut(len(ts)); sr.AppendTrans(ts[:n]...); sr.AppendTrans(ts[n:]...) },
			func() { n := cut(len(as)); sr.AppendActions(as[:n]...); sr.AppendActions(as[n:]...) },
			func() {
				sr.SetOperator(&scriptOp{func(t *ms.Transaction, v string) bool {
					ops = append(ops, fmt.Sprintf("%d:%q", k, v))
					return !l.not
				}})
			},
		}
		shuffle(r, steps)
		for _, f := range steps {
			f()
		}
		for i := range vs { // the slices stay the caller's
			vs[i] = spare.Variables[0]
		}
		for i := range ts {
			ts[i] = transMakers["none"]()
		}
		for i := range as {
			as[i] = spare.Actions[0]
		}
		return sr
	}
	ls := make([]link, r.Range(1, 4))
	rs := ms.NewSecRuleSet()
	e := c.newEngine()
	first := mk(&ls[0], 0)
	first.Phase = r.PickInt(1, 2, 4)
	var subs []*ms.SecRule
	for k := 1; k < len(ls); k++ {
		subs = append(subs, mk(&ls[k], k))
	}
	n := r.N(len(subs) + 1)
	first.AppendSubRules(subs[:n]...)
	first.AppendSubRules(subs[n:]...)
	for i := range subs {
		subs[i] = spare
	}
	times := 1
	if r.P(20) { // it is evaluated as often as it was added
		times = r.Range(2, 4)
	}
	for n := 0; n < times; {
		var add []*ms.SecRule
		for k := r.Range(1, times-n); k > 0; k-- {
			add = append(add, first)
			n++
			if r.P(30) {
				add = append(add, &ms.SecRule{Id: id(), Phase: first.Phase, Operator: spare.Operator})
			}
		}
		rs.AddRules(add...)
		for i := range add {
			add[i] = spare
		}
	}
	t, err := ms.NewTransaction(e, rs)
	if err != nil {
		c.Fail("api-transaction", "no transaction: %v", err)
	}
	x := genTraffic(r, &tprofile{maxLen: 50})
	x.play(c, t, r.P(50))
	var want []string
	stuck := false // a link without variables never matches
	for _, l := range ls {
		stuck = stuck || l.empty
	}
	past := false
	for k, l := range ls {
		for n := 0; n < l.acts*times && !stuck; n++ {
			want = append(want, fmt.Sprint(k, ".", n%l.acts))
		}
		ok := map[string]bool{}
		for _, v := range l.values {
			for _, tr := range l.made {
				v = tr.Trans(t, v)
			}
			ok[fmt.Sprintf("%d:%q", k, v)] = true
		}
		seen := 0
		for _, o := range ops {
			if strings.HasPrefix(o, fmt.Sprint(k, ":")) {
				if seen++; !ok[o] {
					c.Fail("api-trans", "link %d with values %q and transformations %q hands %s to its operator", k, clip(l.values), l.trans, o)
				}
			}
		}
		past = past || l.empty
		if seen < times && !past {
			c.Fail("api-trans", "the operator of link %d is called %d times for a rule added %d times", k, seen, times)
		}
		c.Count("operator_calls_of_built_rules", seen)
	}
	closeTx(t)
	sort.SliceStable(acts, func(i, j int) bool { return acts[i][0] < acts[j][0] }) // by link
	if strings.Join(acts, " ") != strings.Join(want, " ") {
		c.Fail("api-actions", "actions %q ran, want %q", acts, want)
	}
}

// ---- C27 --------------------------------------------------------------------

// runC27 reads every log entry. There is no allow, which leaves a phase.
func runC27(c *Ctx) {
	r := c.R
	var rules []*Rule
	id := 1
	per := map[int]int{}
	for n := r.Range(1, 10); n > 0; n-- {
		mk := func() *Rule {
			u := &Rule{ID: id, Sels: []Sel{{Var: r.Pick("REMOTE_ADDR", "REQUEST_METHOD", "RESPONSE_STATUS")}}}
			u.Op, u.Arg, u.Not = always(r)
			id++
			for k := r.Range(1, 3); k > 0; k-- {
				switch r.N(8) {
				case 0:
					u.Acts = append(u.Acts, Act{"deny", ""})
				case 1:
					u.Acts = append(u.Acts, Act{"status", strconv.Itoa(r.Range(100, 599))})
				case 2:
					u.Acts = append(u.Acts, Act{"msg", r.Pick("m", "%d", "%s%s", "a b", "[client 9.9.9.9:9] (phase 9)")})
				default:
					u.Acts = append(u.Acts, Act{"log", ""})
				}
			}
			return u
		}
		u := mk()
		u.Phase = r.Range(1, 6)
		for k := r.N(2) * r.N(3); k > 0; k-- {
			u.Links = append(u.Links, mk())
		}
		per[u.Phase]++
		rules = append(rules, u)
	}
	text := rulesText(rules)
	c.Set("rules", text)
	e := c.load("SecRequestBodyAccess On\n" + text)
	e.Enable(r.PickInt(ms.StatusOn, ms.StatusOn, ms.StatusDect))
	// what was logged in each phase
	type tr struct {
		t *ms.Transaction
		x *Traffic
		// produced since the last collection: log, deny or abort, and in which phase
		logs   []string
		phases []int
		texts  map[int]string // what must be in an entry as it is
	}
	var cur *tr
	phase := 0
	for _, rs := range e.RuleSet.Phases {
		for _, sr := range rs {
			for _, l := range allLinks(sr) {
				for i, a := range l.Actions {
					kind := a.Name()
					if kind != "log" && kind != "deny" {
						continue
					}
					l.Actions[i] = &recAct{a, func(t *ms.Transaction) {
						if t != cur.t {
							panic("not the transaction that runs")
						}
						cur.logs = append(cur.logs, kind)
						cur.phases = append(cur.phases, phase)
					}}
				}
			}
		}
	}
	var ts []*tr
	for n := r.Range(1, 3); n > 0; n-- {
		x := genTraffic(r, &tprofile{maxLen: 200})
		x.RBody = nil
		x.SrcPort = r.Pick(strconv.Itoa(r.N(65536)), "0", "", "%d", word1(r))
		x.Src = r.Pick(x.Src, "10.0.0."+strconv.Itoa(r.N(256)), "%s", "%", "fe80::1%eth0", "::1")
		if r.P(3) {
			x.Src = strings.Repeat(r.Pick("a", "10.", "%s"), bigN(r, 3000)/3)
		}
		ts = append(ts, &tr{t: c.tx(e), x: x, texts: map[int]string{}})
	}
	said := func() string {
		s := r.Pick("%s", "", "x", "\x00", "\n", "[client 1.1.1.1:1] (phase 9) ", "\xff\xfe", "%d%!", genMetaText(r))
		if r.P(4) {
			if s += "m"; r.P(70) {
				s = strings.Repeat(s, bigN(r, 3000)/len(s)+1)
			} else {
				s = strings.Repeat(s, bigN(r, 120000)/len(s)+1)
			}
		}
		return s
	}
	entries := 0
	eager := r.P(60)
	for p := 1; p <= 6; p++ {
		phase = p
		for _, q := range ts {
			cur = q
			q.x.stage(c, q.t, p)
			if r.P(3) && p > 1 {
				m := "injected " + said() + "."
				q.t.AbortWithError(500, errors.New(m))
				q.texts[len(q.logs)] = m
				q.logs = append(q.logs, "abort")
				q.phases = append(q.phases, p)
			}
			if r.P(4) {
				m := said()
				q.t.Logf("called %s.", m)
				q.texts[len(q.logs)] = "called " + m + "."
				q.logs = append(q.logs, "log")
				q.phases = append(q.phases, p)
			}
			if !eager && p < 6 && r.P(60) { // collected later
				continue
			}
			i := q.t.Result()
			c.Eval(1)
			if len(i.Log) != len(q.logs) {
				c.Fail("log-count", "phase %d: %d entries %q, want %q", p, len(i.Log), i.Log, q.logs)
			}
			who := "client " + q.x.Src + ":" + q.x.SrcPort
			for k, g := range i.Log {
				where := fmt.Sprintf("phase %d", q.phases[k])
				entries++
				if !strings.Contains(g, who) {
					c.Fail("log-client", "entry %q of client %q does not say %q", g, q.x.Src, who)
				}
				if !strings.Contains(g, where) || q.logs[k] == "log" && !strings.Contains(strings.TrimPrefix(g, "["+who+"]"), where) {
					c.Fail("log-phase", "entry %q, produced in phase %d, does not say so", g, q.phases[k])
				}
				if q.logs[k] == "deny" {
					c.Count("denials", 1)
					if i.Disruptive && k == len(i.Log)-1 && !strings.HasSuffix(g, fmt.Sprintf("code %d", i.Status)) {
						c.Fail("log-status", "entry %q, the interception has status %d", g, i.Status)
					}
				}
				if m, ok := q.texts[k]; ok {
					c.Max("longest_message", len(m))
					if !strings.HasSuffix(g, m) {
						c.Fail("log-text", "a message of %d bytes, %q, gives the entry %q of %d bytes", len(m), shorten(m, 200), shorten(g, 300), len(g))
					}
				} else if strings.Contains(g, "%!") && !strings.Contains(who, "%!") {
					c.Fail("log-format", "entry %q", g)
				}
			}
			q.logs, q.phases = nil, nil
			clear(q.texts)
		}
	}
	for _, q := range ts {
		closeTx(q.t)
	}
	c.Count("log_entries", entries)
	if entries > 0 {
		c.Distinct(text, ts[0].x.String())
	}
	c.Sample(shorten(text, 400))
}
