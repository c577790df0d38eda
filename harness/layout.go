package main

import (
	"fmt"
	"net/http"
	"sort"
	"strconv"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang/parser"
)

// Dir is a directive as meant; either a rule (with its chain) or a setting.
type Dir struct {
	Rule  *Rule
	Name  string
	Value string
}

// Config is a configuration as meant.
type Config []Dir

func (c Config) rules() (out []*Rule) {
	for _, d := range c {
		if d.Rule != nil {
			out = append(out, d.Rule)
		}
	}
	return
}

var metaNames = []string{"msg", "tag", "rev", "ver", "logdata"}
var severities = []string{"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG"}

func genMetaText(r *Rand) string {
	s := ""
	switch r.N(6) {
	case 0:
		s = r.From("abc, ;:=|%{}()<>#@!&", r.Range(1, 12))
	case 1:
		s = r.Pick("Attack, detected", "a,b", ",", "a,deny", "x,id:9", "Matched %{MATCHED_VAR}", "it's", "say \"hi\"", "50% off, now", "a: b", "\\d+", "C:\\temp", "tab\there", "", " padded ", "deny", "phase:1", "é", "#x", "a\\,b")
	case 2:
		s = r.From("abc \\\"'\t\a\b\f\v\n\r,:", r.Range(1, 8))
	case 3:
		s = word(r)
	case 4:
		s = pick(r, dict.strs)
	default:
		s = r.From("abcdef", r.Range(1, 8))
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// quotable tells whether an argument can be written between q quotes.
func quotable(s string, q byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] != q {
			continue
		}
		rest := strings.TrimLeft(s[i+1:], asciiSpace)
		if rest == "" || rest[0] == ',' {
			return false
		}
	}
	return true
}

// bare tells whether an argument can be written without quotes.
func bare(s string) bool {
	return s != "" && s == strings.TrimSpace(s) && !strings.ContainsAny(s, ",'\"\n\r")
}

// genConfig makes a configuration; every rule has a distinct id.
func genConfig(r *Rand, max int) Config {
	var cfg Config
	ids := r.ids()
	for n := r.Range(1, max); n > 0; n-- {
		if r.P(15) {
			switch r.N(3) {
			case 0:
				cfg = append(cfg, Dir{Name: "SecRuleEngine", Value: r.Pick("On", "Off", "DetectionOnly")})
			case 1:
				cfg = append(cfg, Dir{Name: "SecRequestBodyAccess", Value: r.Pick("On", "Off")})
			case 2:
				cfg = append(cfg, Dir{Name: "SecResponseBodyAccess", Value: r.Pick("On", "Off")})
			}
			continue
		}
		mk := func() *Rule {
			u := genRealRule(r, ids(), 5)
			u.Phase = r.Range(0, 5)
			for k := r.N(5); k > 0; k-- {
				switch r.N(4) {
				case 0, 1:
					s := genMetaText(r)
					if quotable(s, '\'') || quotable(s, '"') {
						u.Acts = append(u.Acts, Act{pick(r, metaNames), s})
					}
				case 2:
					u.Acts = append(u.Acts, Act{"severity", r.Pick(pick(r, severities), strconv.Itoa(r.N(8)))})
				default:
					a := r.act()
					if a.Name == "msg" || a.Name == "logdata" {
						a = Act{"log", ""}
					}
					u.Acts = append(u.Acts, a)
				}
			}
			if r.P(1) { // many of one kind
				a := r.Pick("tag", "tag", pick(r, metaNames))
				for k := bigN(r, 100); k > 0; k-- {
					u.Acts = append(u.Acts, Act{a, fmt.Sprint("v", k)})
				}
			}
			return u
		}
		u := mk()
		if r.P(20) {
			for k := r.Range(1, 3); k > 0; k-- {
				l := mk()
				if r.P(70) {
					l.Phase = 0
				}
				if r.P(25) { // links need no id
					l.ID = 0
				}
				u.Links = append(u.Links, l)
			}
		}
		cfg = append(cfg, Dir{Rule: u})
	}
	return cfg
}

// canonical is the plainest text of a configuration.
func (cfg Config) canonical() string {
	var b strings.Builder
	for _, d := range cfg {
		if d.Rule == nil {
			b.WriteString(d.Name + " " + d.Value + "\n")
			continue
		}
		all := append([]*Rule{d.Rule}, d.Rule.Links...)
		for i, l := range all {
			var as []string
			for _, a := range l.actions(i < len(all)-1) {
				as = append(as, a)
			}
			as = as[:len(as)-len(l.Acts)]
			if len(l.Acts) > 0 && l.ID == 0 && len(as) == 0 {
				as = nil
			}
			for _, a := range l.Acts {
				as = append(as, plainAct(a))
			}
			if len(as) == 0 {
				as = append(as, "t:none")
			}
			fmt.Fprintf(&b, "SecRule %s %s %s\n", quoteSec(l.targets(), '"'), quoteSec(l.operator(), '"'), quoteSec(strings.Join(as, ","), '"'))
		}
	}
	return b.String()
}

func plainAct(a Act) string {
	isMeta := false
	for _, n := range metaNames {
		isMeta = isMeta || n == a.Name
	}
	if !isMeta {
		if a.Arg == "" {
			return a.Name
		}
		return a.Name + ":" + a.Arg
	}
	if quotable(a.Arg, '\'') {
		return a.Name + ":'" + a.Arg + "'"
	}
	return a.Name + ":\"" + a.Arg + "\""
}

// layouter writes configurations in random layouts.
type layouter struct {
	r  *Rand
	nl []string // line ends in use
	b  strings.Builder
}

func (y *layouter) newline() string { return pick(y.r, y.nl) }

func (y *layouter) blanks(min int) string {
	r := y.r
	s := ""
	for k := r.PickInt(min, min, min, 1, 2, 4); k > 0 || len(s) < min; k-- {
		s += r.Pick(" ", " ", " ", "\t", "\f", "\v")
	}
	return s
}

// gap separates arguments: blanks and continuations.
func (y *layouter) gap() string {
	s := y.blanks(1)
	for y.r.P(20) {
		s += "\\" + y.newline() + y.blanks(0)
	}
	return s
}

func randCase(r *Rand, s string) string {
	switch r.N(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if r.P(50) {
				b[i] = strings.ToUpper(s)[i]
			} else {
				b[i] = strings.ToLower(s)[i]
			}
		}
		return string(b)
	}
	return s
}

var escLetters = map[byte]byte{'\a': 'a', '\b': 'b', '\f': 'f', '\n': 'n', '\r': 'r', '\t': 't', '\v': 'v', '\\': '\\', '"': '"', '\'': '\''}

// arg writes a string in some quotes or none. The marker \x01 stands for a
// continuation inside it (only between quotes).
func (y *layouter) arg(s string) string {
	r := y.r
	q := byte(0)
	switch {
	case s == "" || strings.ContainsAny(s, " \x01") || s[0] == '\'' || s[0] == '"' || r.P(70):
		q = '"'
		if r.P(40) {
			q = '\''
		}
	}
	var b strings.Builder
	if q != 0 {
		b.WriteByte(q)
	}
	for i := 0; i < len(s); i++ {
		ch := s[i]
		esc, has := escLetters[ch]
		must := ch == '\\' || ch == '\n' || ch == '\r' || q != 0 && ch == q || q == 0 && strings.IndexByte("\t\f\v", ch) >= 0
		switch {
		case ch == 1:
			b.WriteString("\\" + y.newline() + y.blanks(0))
		case must || has && r.P(25):
			b.WriteByte('\\')
			b.WriteByte(esc)
		default:
			b.WriteByte(ch)
		}
	}
	if q != 0 {
		b.WriteByte(q)
	}
	return b.String()
}

func (y *layouter) actArg(s string, must bool) string {
	r := y.r
	if bare(s) && (!must || r.P(50)) && r.P(60) {
		return s
	}
	qs := []byte{}
	for _, q := range []byte("'\"") {
		if quotable(s, q) {
			qs = append(qs, q)
		}
	}
	if len(qs) == 0 {
		return s
	}
	q := string(pick(r, qs))
	return q + s + q
}

func (y *layouter) rule(u *Rule, chain bool) {
	r := y.r
	b := &y.b
	b.WriteString(randCase(r, "SecRule"))
	b.WriteString(y.gap())
	b.WriteString(y.arg(y.targets(u)))
	b.WriteString(y.gap())
	b.WriteString(y.arg(y.operator(u)))
	b.WriteString(y.gap())
	b.WriteString(y.arg(y.acts(u, chain)))
	if r.P(10) {
		b.WriteString(y.blanks(1))
	}
}

func (y *layouter) targets(u *Rule) string {
	var ts []string
	for _, s := range u.Sels {
		ts = append(ts, s.String())
	}
	return strings.Join(ts, y.r.Pick("|", "|", "|", ","))
}

func (y *layouter) operator(u *Rule) string {
	r := y.r
	op := u.Arg
	if u.Op != "rx" || op == "" || op[0] == '!' || op[0] == '@' || r.P(60) {
		op = "@" + u.Op + " " + u.Arg
		if u.Op != "rx" {
			op = "@" + u.Op + strings.Repeat(" ", r.PickInt(1, 1, 2, 3)) + u.Arg + r.Pick("", "", " ")
		} else if u.Arg == "" && r.P(50) {
			op = "@rx"
		}
	}
	if u.Not {
		op = "!" + op
	}
	return op
}

func (y *layouter) acts(u *Rule, chain bool) string {
	r := y.r
	// the order of actions of different kinds is free; keep that of each kind
	var as []string
	fixed := []string{}
	if u.ID != 0 {
		fixed = append(fixed, "id:"+y.actArg(strconv.Itoa(u.ID), false))
	}
	if u.Phase != 0 {
		p := strconv.Itoa(u.Phase)
		if n := map[int]string{3: "request", 5: "response", 6: "logging"}[u.Phase]; n != "" && r.P(15) {
			p = n
		}
		fixed = append(fixed, "phase:"+y.actArg(p, false))
	}
	if chain {
		fixed = append(fixed, "chain")
	}
	shuffle(r, fixed)
	var ts2, as2 []string
	for _, t := range u.Trans {
		ts2 = append(ts2, "t:"+y.actArg(t, false))
	}
	for _, a := range u.Acts {
		isMeta := false
		for _, n := range metaNames {
			isMeta = isMeta || n == a.Name
		}
		switch {
		case isMeta:
			as2 = append(as2, a.Name+":"+y.actArg(a.Arg, true))
		case a.Arg == "":
			as2 = append(as2, a.Name)
		default:
			as2 = append(as2, a.Name+":"+y.actArg(a.Arg, false))
		}
	}
	lists := [][]string{fixed, ts2, as2}
	for {
		n := 0
		for _, l := range lists {
			n += len(l)
		}
		if n == 0 {
			break
		}
		k := 0
		if r.P(70) {
			for len(lists[k]) == 0 {
				k++
			}
		} else if k = r.N(3); len(lists[k]) == 0 {
			continue
		}
		as = append(as, lists[k][0])
		lists[k] = lists[k][1:]
	}
	if len(as) == 0 {
		as = append(as, "t:none")
	}
	sep := r.N(4)
	list := ""
	for i, a := range as {
		if i > 0 {
			switch {
			case sep == 1:
				list += r.Pick(" ", "", "\t") + "," + r.Pick(" ", "", "  ")
			case sep == 2: // one action per line
				list += ",\x01"
			case sep == 3:
				list += "," + r.Pick("", " ", "\x01")
			default:
				list += ","
			}
		}
		list += a
	}
	return list
}

// write renders a configuration; it may end without a line end.
func (y *layouter) write(cfg Config) string {
	r := y.r
	b := &y.b
	lines := func(pct int) {
		for r.P(pct) {
			b.WriteString(y.blanks(0))
			b.WriteString(y.newline())
		}
	}
	lines(20)
	for i, d := range cfg {
		if r.P(20) {
			b.WriteString(y.blanks(1))
		}
		if d.Rule == nil {
			b.WriteString(randCase(r, d.Name))
			b.WriteString(y.gap())
			v := randCase(r, d.Value)
			b.WriteString(r.Pick(v, v, "\""+v+"\"", "'"+v+"'"))
		} else {
			all := append([]*Rule{d.Rule}, d.Rule.Links...)
			for k, l := range all {
				y.rule(l, k < len(all)-1)
				if k < len(all)-1 {
					b.WriteString(y.newline())
					lines(20)
					if r.P(40) {
						b.WriteString(y.blanks(1))
					}
				}
			}
		}
		if i < len(cfg)-1 || r.P(70) {
			b.WriteString(y.newline())
			lines(15)
		}
	}
	return b.String()
}

func genNL(r *Rand) []string {
	switch r.N(5) {
	case 0:
		return []string{"\r\n"}
	case 1:
		return []string{"\r"}
	case 2:
		return []string{"\n", "\r\n", "\r"}
	}
	return []string{"\n"}
}

// unclean texts hold the marker of the layouter.
func (cfg Config) usable() bool {
	for _, u := range cfg.rules() {
		for _, l := range append([]*Rule{u}, u.Links...) {
			if strings.Contains(l.targets()+l.operator(), "\x01") {
				return false
			}
			for _, a := range l.Acts {
				if strings.Contains(a.Arg, "\x01") {
					return false
				}
			}
		}
	}
	return true
}

// ---- what a loaded engine says, compared with what was meant ---------------

func metaOf(u *Rule) map[string][]string {
	m := map[string][]string{}
	for _, a := range u.Acts {
		v := a.Arg
		if a.Name == "severity" {
			for i, n := range severities {
				if v == n {
					v = strconv.Itoa(i)
				}
			}
			m["severity"] = append(m["severity"], v)
			continue
		}
		for _, n := range metaNames {
			if n == a.Name {
				m[n] = append(m[n], v)
			}
		}
	}
	return m
}

func showMeta(m map[string][]string) string {
	var ks []string
	for k, v := range m {
		if len(v) > 0 {
			ks = append(ks, fmt.Sprintf("%s=%q", k, v))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func actionNames(u *Rule) (out []string) {
	m := metaOf(u)
	for _, a := range u.Acts {
		if _, ok := m[a.Name]; ok {
			continue
		}
		s := a.Name
		if s == "status" || s == "allow" {
			s += ":" + a.Arg
		}
		out = append(out, s)
	}
	return
}

// sayRule describes a meant rule apart from its targets.
func sayRule(u *Rule) string {
	arg := u.Arg
	return fmt.Sprintf("id %d op %s %q not %v trans %v actions %v meta %s", u.ID, u.Op, arg, u.Not, u.Trans, actionNames(u), showMeta(metaOf(u)))
}

func sayLoaded(sr *ms.SecRule) string {
	var ts, as []string
	for _, t := range sr.Trans {
		ts = append(ts, t.Name())
	}
	for _, a := range sr.Actions {
		s := a.Name()
		if s == "status" || s == "allow" {
			s += ":" + a.Value()
		}
		as = append(as, s)
	}
	op, arg := "", ""
	if sr.Operator != nil {
		op, arg = sr.Operator.Name(), sr.Operator.Args()
		if op != "rx" {
			arg = strings.TrimSpace(arg)
		}
	}
	return fmt.Sprintf("id %d op %s %q not %v trans %v actions %v meta %s", sr.Id, op, arg, sr.Not, ts, as, showMeta(sr.MetaData))
}

// sameTrans compares transformation lists up to none, which changes nothing.
func (c *Ctx) checkRule(u *Rule, sr *ms.SecRule, tr []*seenTraffic) {
	want, got := sayRule(u), sayLoaded(sr)
	if len(u.Trans) == 0 && len(sr.Trans) == 1 && sr.Trans[0].Name() == "none" {
		got = strings.Replace(got, "trans [none]", "trans []", 1)
	}
	if want != got {
		c.Fail("rule", "the text denotes\n  %s\nloaded is\n  %s", want, got)
	}
	for _, x := range tr {
		var vals []string
		for _, v := range sr.Variables {
			vals = append(vals, v.Fetch(x.t)...)
		}
		ref := refSelect(u.Sels, func(n string) ([]Entry, bool) { return x.x.ref(n, x.v) })
		ok := sameBag(vals, ref)
		for _, s := range u.Sels {
			if !ok && strings.HasPrefix(s.Var, "ARGS") && strings.HasSuffix(s.Var, "_NAMES") {
				ok = sameSet(vals, ref)
			}
		}
		if !ok {
			c.Set("traffic", x.x.String())
			c.Fail("targets", "rule %d: %s selects %q, want %q", u.ID, u.targets(), clip(vals), clip(ref))
		}
		c.Count("target_lists_compared", 1)
	}
	c.Count("rules_compared", 1)
}

type seenTraffic struct {
	x *Traffic
	t *ms.Transaction
	v view
}

// checkEngine compares an engine with the configurations applied to it, in order.
func (c *Ctx) checkEngine(e *ms.Engine, tr []*seenTraffic, cfgs ...Config) {
	phases := map[int][]*Rule{}
	on, det, req, res := true, false, false, false
	n := 0
	for _, cfg := range cfgs {
		for _, d := range cfg {
			switch d.Name {
			case "SecRuleEngine":
				on, det = d.Value == "On", d.Value == "DetectionOnly"
			case "SecRequestBodyAccess":
				req = d.Value == "On"
			case "SecResponseBodyAccess":
				res = d.Value == "On"
			default:
				p := d.Rule.Phase
				if p == 0 {
					p = 2
				}
				phases[p] = append(phases[p], d.Rule)
				n++
			}
		}
	}
	if e.Enabled != on || e.DetectionOnly != det || e.RequestBodyAccess != req || e.ResponseBodyAccess != res {
		c.Fail("settings", "enabled %v detection only %v request body %v response body %v, want %v %v %v %v", e.Enabled, e.DetectionOnly, e.RequestBodyAccess, e.ResponseBodyAccess, on, det, req, res)
	}
	got := 0
	for p, rs := range e.RuleSet.Phases {
		got += len(rs)
		if len(rs) > 0 && (p < 1 || p > 6) {
			c.Fail("phase", "rule %d is in phase %d, which never runs", rs[0].Id, p)
		}
	}
	for p := 1; p <= 6; p++ {
		var want, have []int
		for _, u := range phases[p] {
			want = append(want, u.ID)
		}
		for _, sr := range e.RuleSet.Phases[p] {
			have = append(have, sr.Id)
		}
		if fmt.Sprint(want) != fmt.Sprint(have) {
			c.Fail("order", "phase %d holds the rules %v, want %v", p, have, want)
		}
		for i, u := range phases[p] {
			sr := e.RuleSet.Phases[p][i]
			c.checkRule(u, sr, tr)
			if len(sr.SubRules) != len(u.Links) {
				c.Fail("chain", "rule %d has %d links, want %d", u.ID, len(sr.SubRules), len(u.Links))
			}
			for k, l := range u.Links {
				c.checkRule(l, sr.SubRules[k], tr)
			}
		}
	}
	if got != n {
		c.Fail("count", "%d rules are installed, the text has %d", got, n)
	}
}

// traffic announces some traffic for looking at targets.
func (c *Ctx) seen(rules []*Rule, n int) (out []*seenTraffic) {
	e := c.newEngine()
	e.RequestBodyAccess, e.ResponseBodyAccess = true, true
	for ; n > 0; n-- {
		x := genTraffic(c.R, &tprofile{wild: 5, maxLen: 5000})
		for k := c.R.Range(0, 3); k > 0 && len(rules) > 0; k-- {
			aim(c.R, x, []*Rule{pick(c.R, rules)})
		}
		if x.Header == nil {
			x.Header = http.Header{}
		}
		out = append(out, &seenTraffic{x, x.announce(c, e), viewOf(e)})
	}
	return
}

func closeSeen(tr []*seenTraffic) {
	for _, x := range tr {
		closeTx(x.t)
	}
}

// dumpParsed shows what the parser says of a text.
func dumpParsed(ds []parser.Directive) string {
	var b strings.Builder
	for _, d := range ds {
		switch x := d.(type) {
		case *parser.RuleDirective:
			b.WriteString("rule vars")
			for _, v := range x.Variable {
				fmt.Fprintf(&b, " {%d %q %v %v}", v.Tk, v.Index, v.Count, v.Exclusion)
			}
			fmt.Fprintf(&b, " op {%d %v %q}", x.Operator.Tk, x.Operator.Not, strings.TrimSpace(x.Operator.Argument))
			fmt.Fprintf(&b, " id %d phase %d chain %v t", x.Actions.Id, x.Actions.Phase, x.Actions.Chain)
			for _, t := range x.Actions.Trans {
				fmt.Fprintf(&b, " %d", t.Tk)
			}
			for _, a := range x.Actions.Action {
				s := a.Argument
				if len(s) >= 2 && (s[0] == '\'' || s[0] == '"') && s[0] == s[len(s)-1] {
					s = s[1 : len(s)-1]
				}
				fmt.Fprintf(&b, " {%d %q}", a.Tk, s)
			}
		case *parser.BoolArgDirective:
			fmt.Fprintf(&b, "bool %d %v", x.Tk, x.Value)
		case *parser.TriBoolArgDirective:
			fmt.Fprintf(&b, "tri %d %v", x.Tk, x.Value)
		default:
			fmt.Fprintf(&b, "%T", d)
		}
		b.WriteByte('\n')
	}
	return b.String()
}
