package main

import (
	"fmt"
	"strconv"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"
)

func init() {
	register(&Prop{ID: "C01", Quick: 60000, Thorough: 1500000, Run: runC01,
		Rule: "random rules over scripted targets, transformations and operators, and loaded rules over real traffic (all variables, selectors, transformations, operators, negation); non-trivial: at least one designated value"})
	register(&Prop{ID: "C02", Quick: 100000, Thorough: 1000000, Run: runC02,
		Rule: "every match vector of chains of 1..6 links, random chains on scripted targets and on real traffic, random layouts of chains, plain rules and directives, and chains without a last rule; non-trivial: a chain is involved"})
}

func runC01(c *Ctx) {
	if c.I%2 == 0 {
		c01Probe(c)
	} else {
		c01Real(c)
	}
}

var scriptTransNames = []string{"suffix", "reverse", "double", "half", "prefix", "up"}

func applyScript(name, s string) string {
	switch name {
	case "suffix":
		return s + "x"
	case "prefix":
		return "y" + s
	case "double":
		if len(s) > 64 {
			return s
		}
		return s + s
	case "half":
		return s[:len(s)/2]
	case "up":
		return strings.ToUpper(s)
	case "reverse":
		b := []byte(s)
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return string(b)
	}
	return refTrans(name, s)
}

// c01Probe builds rules with the Go interface from scripted parts.
func c01Probe(c *Ctx) {
	r := c.R
	e := c.newEngine()
	type want struct {
		id      int
		hit     bool
		acts    int
		ran     []int
		desc    string
		designs map[string]bool
	}
	var wants []*want
	n := r.Range(1, 4)
	// rules of one family look at the same values through similar transformations
	family := r.P(35)
	var base []string
	var baseLists [][]string
	if family {
		n += 2
	}
	for i := 0; i < n; i++ {
		w := &want{id: i + 1, designs: map[string]bool{}}
		rule := ms.NewSecRule()
		rule.Id = w.id
		rule.Phase = 2
		var ts []string
		maxT := 6
		if r.N(500) == 0 {
			maxT = 0
			for n := bigN(r, 300); n > 0; n-- {
				ts = append(ts, r.Pick("reverse", "up", "suffix", "half", "none"))
			}
		}
		pct := 50
		if family {
			pct = 75
		}
		for r.P(pct) && len(ts) < maxT {
			if r.P(50) {
				ts = append(ts, pick(r, scriptTransNames))
			} else {
				ts = append(ts, pick(r, transNames))
			}
		}
		if family && i > 0 {
			ts = kinTrans(r, base, append(append([]string(nil), scriptTransNames...), transNames...))
		}
		base = ts
		for _, t := range ts {
			t := t
			rule.AppendTrans(&scriptTrans{t, func(s string) string { return applyScript(t, s) }})
		}
		var finals []string
		nv := r.Range(0, 5)
		many := 0 // values of one target, at most
		if r.N(100) == 0 {
			many = bigN(r, 5000)
		} else if r.N(200) == 0 {
			nv = bigN(r, 300)
		}
		rare := r.P(30) // exactly one value differs from the others
		same := word(r)
		odd := -1
		var lists [][]string
		total := 0
		for k := 0; k < nv; k++ {
			var vs []string
			m := r.N(6)
			if many > 0 && r.P(60) {
				m = many
			}
			for ; m > 0; m-- {
				v := word(r)
				if rare {
					v = same
				}
				vs = append(vs, v)
				total++
			}
			lists = append(lists, vs)
		}
		if family && i > 0 {
			lists = nil
			for _, vs := range baseLists {
				lists = append(lists, append([]string(nil), vs...))
			}
			nv, total = len(lists), 0
			for _, vs := range lists {
				total += len(vs)
			}
			rare = false
		}
		baseLists = lists
		if rare && total > 0 {
			odd = r.N(total)
			if r.P(30) {
				odd = r.PickInt(0, total-1)
			}
			k := 0
			for _, vs := range lists {
				for j := range vs {
					if k == odd {
						vs[j] = word(r) + "odd"
					}
					k++
				}
			}
		}
		for k, vs := range lists {
			vs := vs
			rule.AppendVariables(&scriptVar{fmt.Sprintf("V%d", k), func(*ms.Transaction) []string { return append([]string(nil), vs...) }})
			for _, v := range vs {
				for _, t := range ts {
					v = applyScript(t, v)
				}
				finals = append(finals, v)
				w.designs[v] = true
			}
		}
		rule.Not = r.P(40)
		var match func(string) bool
		var op ms.Operator
		switch r.N(3) {
		case 0: // satisfied by the final values of a random subset
			ok := map[string]bool{}
			for _, f := range finals {
				if r.P(30) != rule.Not {
					ok[f] = true
				}
			}
			if rule.Not && len(finals) > 0 && r.P(50) { // all but one satisfy
				for _, f := range finals {
					ok[f] = true
				}
				delete(ok, pick(r, finals))
			}
			match = func(s string) bool { return ok[s] }
			op = &scriptOp{func(_ *ms.Transaction, s string) bool { return match(s) }}
		case 1:
			re := genRx(r)
			if len(finals) > 0 && r.P(50) {
				re = "^" + litRe(pick(r, finals)) + "$"
			}
			o, err := operators.NewOperatorRx(re)
			if err != nil {
				c.Fail("operator-refused", "expression %q was refused: %v", re, err)
			}
			op = o
			match = func(s string) bool { return refOp("rx", re, s) }
		default:
			name, arg := pick(r, cmpOps), genCmpArg(r)
			op = mkOp(c, name, arg)
			match = func(s string) bool { return refOp(name, arg, s) }
			for i := range finals {
				if vagueInt(finals[i]) {
					return
				}
			}
		}
		designs := w.designs
		desc := ""
		if total > 40 {
			desc = fmt.Sprintf("rule %d: %d values in %d targets, the odd one at %d, trans=%v not=%v op=%s %q", w.id, total, nv, odd, ts, rule.Not, op.Name(), op.Args())
		} else {
			desc = fmt.Sprintf("rule %d lists=%q trans=%v not=%v op=%s %q", w.id, lists, ts, rule.Not, op.Name(), op.Args())
		}
		rule.SetOperator(&recOp{op, func(_ *ms.Transaction, s string, _ bool) {
			c.Count("operator_calls", 1)
			if !designs[s] {
				c.Report("wrong-value", "%s: the operator was applied to %q, which is no designated value after all transformations", desc, s)
			}
		}})
		for _, f := range finals {
			w.hit = w.hit || match(f) != rule.Not
		}
		w.acts = r.Range(1, 6)
		if r.N(300) == 0 {
			w.acts = bigN(r, 300)
		}
		w.ran = make([]int, w.acts)
		for k := 0; k < w.acts; k++ {
			k := k
			var a ms.Action = &scriptAct{"probe", r.PickInt(0, 1, 2, 3, 4), func(*ms.Transaction) {}}
			if r.P(20) {
				a = actions.NewActionLog()
			}
			rule.AppendActions(&recAct{a, func(*ms.Transaction) { w.ran[k]++ }})
		}
		w.desc = desc
		wants = append(wants, w)
		e.AddSecRule(rule)
		if len(finals) > 0 {
			c.Distinct(desc)
		}
		c.Count("values_designated", len(finals))
		c.Max("values_of_a_rule", len(finals))
	}
	for rep := r.Range(1, 2); rep > 0; rep-- {
		t := c.tx(e)
		t.ProcessRequestHeader(nil)
		t.Result()
		for _, w := range wants {
			c.Eval(1)
			for k, n := range w.ran {
				exp := 0
				if w.hit {
					exp = 1
				}
				if n != exp {
					c.Set("rule", w.desc)
					c.Fail("actions", "match=%v but action %d of %d ran %d times", w.hit, k+1, w.acts, n)
				}
				w.ran[k] = 0
			}
			if w.hit {
				c.Count("matches", 1)
			}
		}
	}
	c.Sample(wants[0].desc)
}

// kinTrans makes a list of transformations that differs from another in little.
func kinTrans(r *Rand, base, names []string) []string {
	ts := append([]string(nil), base...)
	for k := r.Range(1, 2); k > 0; k-- {
		i := r.N(len(ts) + 1)
		switch {
		case i == len(ts) || r.P(30):
			ts = append(ts[:i], append([]string{pick(r, names)}, ts[i:]...)...)
		case r.P(30):
			ts = append(ts[:i], ts[i+1:]...)
		case r.P(40):
			j := r.N(len(ts))
			ts[i], ts[j] = ts[j], ts[i]
		default:
			ts[i] = pick(r, names)
		}
	}
	return ts
}

// kin makes a rule that differs from another in little.
func kin(r *Rand, u *Rule, id, maxPhase int) *Rule {
	v := *u
	v.ID = id
	v.Sels = append([]Sel(nil), u.Sels...)
	v.Trans = append([]string(nil), u.Trans...)
	w := genRealRule(r, id, maxPhase)
	switch r.N(6) {
	case 0:
		v.Sels = w.Sels
	case 1:
		v.Op, v.Arg, v.Not = w.Op, w.Arg, w.Not
	case 2:
		v.Not = !v.Not
	case 3:
		for len(v.Trans) < 4 && r.P(70) {
			v.Trans = append(v.Trans, pick(r, transNames))
		}
	default:
		v.Trans = kinTrans(r, v.Trans, transNames)
	}
	v.Phase = r.Range(minPhase(v.Sels), maxPhase)
	return &v
}

func mkOp(c *Ctx, name, arg string) ms.Operator {
	var o ms.Operator
	var err error
	switch name {
	case "rx":
		o, err = operators.NewOperatorRx(arg)
	case "eq":
		o, err = operators.NewOperatorEq(arg)
	case "ge":
		o, err = operators.NewOperatorGe(arg)
	case "gt":
		o, err = operators.NewOperatorGt(arg)
	case "le":
		o, err = operators.NewOperatorLe(arg)
	case "lt":
		o, err = operators.NewOperatorLt(arg)
	}
	if err != nil {
		c.Fail("operator-refused", "operator %s with argument %q was refused: %v", name, arg, err)
	}
	return o
}

// tracked follows which actions of which loaded rules run.
type tracked struct {
	rules map[int]*ms.SecRule
	ran   map[string]int
	order []string
}

// track wraps the actions of every loaded rule and adds a probe action to each
// rule and each link that has an action.
func track(e *ms.Engine) *tracked {
	k := &tracked{rules: map[int]*ms.SecRule{}, ran: map[string]int{}}
	for _, rs := range e.RuleSet.Phases {
		for _, r := range rs {
			for i, l := range allLinks(r) {
				id := r.Id
				if i > 0 {
					id = l.Id
				}
				k.rules[l.Id] = l
				if i > 0 && len(l.Actions) == 0 {
					continue
				}
				acts := append(append([]ms.Action(nil), l.Actions...), &scriptAct{"probe", ms.ActionGroupNonDisruptive, func(*ms.Transaction) {}})
				l.Actions = nil
				for j, a := range acts {
					key := fmt.Sprintf("%d/%d", id, j)
					l.AppendActions(&recAct{a, func(*ms.Transaction) {
						k.ran[key]++
						k.order = append(k.order, key)
					}})
				}
			}
		}
	}
	return k
}

func (k *tracked) reset() {
	k.ran = map[string]int{}
	k.order = nil
}

func bodyAccessText(r *Rand) string {
	s := ""
	for _, d := range []string{"SecRequestBodyAccess", "SecResponseBodyAccess"} {
		s += d + " " + r.Pick("On", "On", "on", "Off") + "\n"
	}
	return s
}

// c01Real loads rules and runs real traffic through them.
func c01Real(c *Ctx) {
	r := c.R
	var rules []*Rule
	n := r.Range(1, 6)
	ids := r.ids()
	related := r.P(40)
	for i := 0; i < n; i++ {
		u := genRealRule(r, ids(), 5)
		if related && i > 0 {
			u = kin(r, pick(r, rules), u.ID, 5)
		}
		u.Acts = []Act{{"log", ""}}
		if r.P(30) {
			u.Acts = append(u.Acts, Act{"msg", "m"}, Act{"status", "404"})
		}
		rules = append(rules, u)
	}
	text := bodyAccessText(r) + rulesText(rules)
	c.Set("rules", text)
	e := c.load(text)
	v := viewOf(e)
	k := track(e)
	for rep := 0; rep < 3; rep++ {
		x := genTraffic(r, &tprofile{wild: 15, maxLen: 100000, bigs: []int{3000, 200000}, noURL: 3})
		aim(r, x, rules)
		c.Set("traffic", x.String())
		k.reset()
		t := c.tx(e)
		x.play(c, t, r.P(50))
		closeTx(t)
		for _, u := range rules {
			c.Eval(1)
			hit, values, vague := refMatch(u, x, v)
			if vague {
				c.Count("vague", 1)
				continue
			}
			exp := 0
			if hit {
				exp = 1
				c.Count("matches", 1)
			}
			if len(values) > 0 {
				c.Distinct(u.text(), strings.Join(values, "\x00"))
			}
			for j := range k.rules[u.ID].Actions {
				if got := k.ran[fmt.Sprintf("%d/%d", u.ID, j)]; got != exp {
					c.Set("rule", u.text())
					c.Set("values", fmt.Sprintf("%q", values))
					c.Fail("real-actions", "rule %d: match=%v but action %d ran %d times", u.ID, hit, j, got)
				}
			}
		}
	}
	c.Sample(text)
}

// aim makes some traffic nearly match a rule, so that both verdicts occur.
func aim(r *Rand, x *Traffic, rules []*Rule) {
	u := pick(r, rules)
	for _, s := range u.Sels {
		if s.Key == "" || r.P(40) {
			continue
		}
		if s.Key[0] == '/' { // a name that it matches, if it is literal
			k := strings.Trim(strings.TrimPrefix(strings.Trim(s.Key, "/"), "(?i)"), "^$")
			if r.P(50) {
				k = strings.Trim(strings.TrimPrefix(s.Key[1:], "(?i)"), "^$")
			}
			if k == "" || strings.ContainsAny(k, ".*+?()|{}[]") {
				continue
			}
			s.Key = k
		}
		val := u.Arg
		if u.Op == "rx" {
			val = strings.Trim(u.Arg, "^$")
		}
		switch {
		case strings.HasPrefix(s.Var, "ARGS"):
			q := encodeArg(r, s.Key, 0) + "=" + encodeArg(r, val, 10)
			if x.Query != "" {
				q = x.Query + "&" + q
			}
			x.Query = q
		case strings.HasPrefix(s.Var, "REQUEST_COOKIES"):
			if !strings.ContainsAny(val+s.Key, ";\r\n") && strings.TrimSpace(val) == val {
				x.Header["Cookie"] = append(x.Header["Cookie"], s.Key+"="+val)
			}
		case strings.HasPrefix(s.Var, "REQUEST_HEADERS"):
			if s.Key != "cookie" && s.Key != "Content-Type" && s.Key != "content-length" {
				x.Header[canon(s.Key)] = append(x.Header[canon(s.Key)], val)
			}
		}
	}
}

func canon(s string) string {
	p := strings.Split(strings.ToLower(s), "-")
	for i := range p {
		if p[i] != "" {
			p[i] = strings.ToUpper(p[i][:1]) + p[i][1:]
		}
	}
	return strings.Join(p, "-")
}

// ---- C02 --------------------------------------------------------------------

func runC02(c *Ctx) {
	switch {
	case c.I < 126*2:
		c02Vector(c)
	case c.I%400 == 7:
		c02Long(c)
	case c.I%4 == 0:
		runControl(c, &profile{phases: []int{1, 2, 5}, maxRules: 3, chain: 90, maxLinks: 5, acts: []string{"log", "deny", "status", "skip"}, actPct: 30, match: 60, collect: 30, drop: 5})
	case c.I%4 == 1:
		c02Layout(c)
	case c.I%4 == 2:
		c02Dangling(c)
	default:
		c02Real(c)
	}
}

// c02Vector runs every match vector of every chain length once plainly and once negated.
func c02Vector(c *Ctx) {
	n, k := 1, c.I/2
	for k >= 1<<uint(n) {
		k -= 1 << uint(n)
		n++
	}
	neg := c.I%2 == 1
	c.Count("vectors", 1)
	c.Distinct(n, k, neg)
	miss := make([]bool, n)
	for i := range miss {
		miss[i] = k>>uint(i)&1 == 0
	}
	c02Chain(c, n, miss, neg)
}

// c02Long runs long chains in which all links match, or all but one.
func c02Long(c *Ctx) {
	r := c.R
	n := bigN(r, 200)
	miss := make([]bool, n)
	at := -1
	if r.P(80) {
		at = r.PickInt(n-1, r.N(n), r.N(n))
		miss[at] = true
	}
	neg := r.P(30)
	c.Distinct(n, at, neg)
	c.Max("links_of_a_chain", n)
	c02Chain(c, n, miss, neg)
}

// c02Chain runs a chain of n links of which some do not match.
func c02Chain(c *Ctx, n int, miss []bool, neg bool) {
	var u *Rule
	missed := false
	for i := 0; i < n; i++ {
		l := &Rule{ID: 10 + i, Sels: []Sel{{Var: "ARGS_GET", Key: fmt.Sprintf("p%d", i)}}, Op: "eq", Arg: "1", Not: neg, Acts: []Act{{"log", ""}, {"msg", "m"}}}
		switch c.R.N(5) {
		case 0:
			l.Acts = nil
		case 1:
			l.Acts = l.Acts[1:]
		}
		if i == 0 {
			l.Phase = 2
			u = l
		} else {
			u.Links = append(u.Links, l)
		}
	}
	text := u.text()
	c.Set("rules", text)
	e := c.load(text)
	t := track(e)
	x := &Traffic{Path: "/", Method: "GET", Proto: "HTTP/1.1"}
	var want []string
	for i := 0; i < n; i++ {
		v := "0"
		missed = missed || miss[i]
		if miss[i] == neg {
			v = "1"
		}
		x.Query += fmt.Sprintf("p%d=%s&", i, v)
		for j := range t.rules[10+i].Actions {
			want = append(want, fmt.Sprintf("%d/%d", 10+i, j))
		}
	}
	if missed {
		want = nil
	}
	c.Set("query", x.Query)
	if c.R.P(30) {
		e.Enable(ms.StatusDect)
		c.Set("mode", "DetectionOnly")
	}
	tx := c.tx(e)
	x.stage(c, tx, 1)
	x.stage(c, tx, 2)
	c.Eval(1)
	if !sameList(want, t.order) {
		c.Fail("chain-vector", "chain of %d links, missed %v: actions that must run %v, ran %v", n, miss, want, t.order)
	}
}

// genLayout makes a configuration with chains and other things between.
func genLayout(r *Rand) (text string, rules []*Rule) {
	var b strings.Builder
	ids := r.ids()
	noise := func() {
		for r.P(25) {
			b.WriteString(r.Pick("\n", "SecRuleEngine On\n", "SecRequestBodyAccess On\n", "SecResponseBodyAccess Off\n"))
		}
	}
	for n := r.Range(1, 6); n > 0; n-- {
		u := genRealRule(r, ids(), 3)
		u.Acts = []Act{{"log", ""}}
		if r.P(60) {
			for m := r.Range(1, 5); m > 0; m-- {
				l := genRealRule(r, ids(), 3)
				if r.P(25) {
					l = kin(r, u, l.ID, 3)
					l.Links = nil
				}
				if r.P(60) {
					l.Phase = 0
				}
				l.Acts = []Act{{"log", ""}}
				if r.P(20) { // a link may do nothing
					l.Acts = nil
				}
				if r.P(30) {
					l.Acts = append(l.Acts, Act{"msg", "x"})
				}
				u.Links = append(u.Links, l)
				if p := minPhase(l.Sels); p > u.Phase {
					u.Phase = p
				}
			}
		}
		rules = append(rules, u)
		noise()
		for i, line := range strings.SplitAfter(u.text(), "\n") {
			if i > 0 {
				noise()
			}
			b.WriteString(line)
		}
	}
	noise()
	return b.String(), rules
}

func c02Layout(c *Ctx) {
	text, rules := genLayout(c.R)
	c.Set("rules", text)
	e := c.load(text)
	c02Structure(c, e, rules)
	c.Distinct(text)
	c.Sample(text)
}

func c02Structure(c *Ctx, e *ms.Engine, rules []*Rule) {
	chains := 0
	got := map[int]*ms.SecRule{}
	n := 0
	for _, rs := range e.RuleSet.Phases {
		for _, r := range rs {
			got[r.Id] = r
			n++
		}
	}
	if n != len(rules) {
		c.Fail("layout-count", "%d rules and chains are installed, the text has %d", n, len(rules))
	}
	for _, u := range rules {
		g := got[u.ID]
		if g == nil {
			c.Fail("layout-starter", "rule %d is not installed as a rule of its own", u.ID)
		}
		ids := []int{}
		for _, l := range allLinks(g) {
			ids = append(ids, l.Id)
		}
		want := []int{u.ID}
		for _, l := range u.Links {
			want = append(want, l.ID)
		}
		if fmt.Sprint(ids) != fmt.Sprint(want) {
			c.Fail("layout-chain", "chain of rule %d consists of %v, want %v", u.ID, ids, want)
		}
		if len(want) > 1 {
			chains++
		}
	}
	c.Count("chains_loaded", chains)
}

func c02Dangling(c *Ctx) {
	r := c.R
	text, _ := genLayout(r)
	n := r.Range(1, 4)
	var b strings.Builder
	b.WriteString(text)
	for i := 0; i < n; i++ {
		u := genRealRule(r, 2000000+i, 2)
		b.WriteString(fmt.Sprintf("SecRule %s %s %s\n", quoteSec(u.targets(), '"'), quoteSec(u.operator(), '"'), quoteSec(strings.Join(u.actions(true), ","), '"')))
		for r.P(20) {
			b.WriteString(r.Pick("\n", "SecRuleEngine On\n"))
		}
	}
	c.Set("rules", b.String())
	c.Distinct(b.String())
	c.Count("dangling_texts", 1)
	before := c.dump("")
	ds, err := newSet()
	if err == nil {
		err = ds.AddSecLangString(b.String())
		if err == nil {
			c.Fail("dangling", "a configuration whose last chain lacks its final rule was accepted")
		}
		e := c.newEngine()
		if err := ds.Execute(e); err != nil {
			c.Fail("dangling-execute", "after a refused text the configuration cannot be applied: %v", err)
		}
		if d := dumpEngine(e); d != before {
			c.Fail("dangling-applied", "a refused text changed the configuration: %s", d)
		}
	}
}

// c02Real runs chains on traffic.
func c02Real(c *Ctx) {
	r := c.R
	text, rules := genLayout(r)
	text = "SecRequestBodyAccess On\n" + text + "SecRequestBodyAccess On\nSecRuleEngine " + r.Pick("On", "On", "DetectionOnly") + "\n"
	c.Set("rules", text)
	e := c.load(text)
	v := viewOf(e)
	k := track(e)
	for rep := 0; rep < 4; rep++ {
		x := genTraffic(r, &tprofile{wild: 10, maxLen: 20000})
		for i := 0; i < 3; i++ {
			u := pick(r, rules)
			aim(r, x, append([]*Rule{u}, u.Links...))
		}
		c.Set("traffic", x.String())
		k.reset()
		t := c.tx(e)
		x.play(c, t, r.P(50))
		closeTx(t)
		for _, u := range rules {
			c.Eval(1)
			all := append([]*Rule{u}, u.Links...)
			hit, vague := true, false
			for _, l := range all {
				h, _, w := refMatch(l, x, v)
				hit = hit && h
				vague = vague || w
			}
			if vague {
				continue
			}
			var want, got []string
			mine := map[int]bool{}
			for _, l := range all {
				mine[l.ID] = true
				for j := range k.rules[l.ID].Actions {
					want = append(want, fmt.Sprintf("%d/%d", l.ID, j))
				}
			}
			if !hit {
				want = nil
			} else if len(all) > 1 {
				c.Count("chains_matched", 1)
				c.Distinct(u.text(), x.String())
			}
			for _, o := range k.order {
				id, _ := strconv.Atoi(o[:strings.IndexByte(o, '/')])
				if mine[id] {
					got = append(got, o)
				}
			}
			if !sameBag(want, got) {
				c.Fail("chain-real", "chain of rule %d: matches=%v, actions that must run %v, ran %v", u.ID, hit, want, got)
			}
			// links in order
			last := -1
			for _, o := range got {
				id, _ := strconv.Atoi(o[:strings.IndexByte(o, '/')])
				for i, l := range all {
					if l.ID == id {
						if i < last {
							c.Fail("chain-action-order", "chain of rule %d: actions ran in the order %v", u.ID, got)
						}
						last = i
					}
				}
			}
		}
	}
}
