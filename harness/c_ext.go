package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"sync"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
	"github.com/senghoo/modsecurity-go/seclang"
	"github.com/senghoo/modsecurity-go/seclang/parser"
)

func init() {
	register(&Prop{ID: "C28", Quick: 48000, Thorough: 1200000, Run: runC28, Level: "fault_enumeration",
		Rule: "random configurations with directives the harness registers (string, boolean, three-valued, number and several arguments; names that begin or extend the built-in ones) among the built-in ones, loaded in one or several texts and applied to several engines, with faults raised while loading or applying; non-trivial: at least one registered directive takes effect"})
	register(&Prop{ID: "C29", Quick: 200000, Thorough: 2400000, Run: runC29,
		Rule: "random rule sets of the harness's own variables, transformations, operators and actions (jumps within and between phases, aborts, data) run by interleaved transactions with rule sets of their own or the engine's; non-trivial: at least one jump"})
}

// ---- C28 --------------------------------------------------------------------

// extKinds are the argument kinds of registered directives.
var extKinds = []string{"string", "bool", "tri", "num", "two"}

type extDir struct {
	name string
	kind string
	tk   int
}

var extDirs []extDir
var extOnce sync.Once
var extLog func(e *ms.Engine, name, value string) error

const extTk = 71000

type extParsed struct {
	tk   int
	args []string
}

func (p *extParsed) Token() int { return p.tk }

type extDire struct {
	d    extDir
	says string
}

func (x *extDire) Token() int { return x.d.tk }

var errExtLoad = errors.New("refused by the directive")
var errExtRun = errors.New("failed to take effect")

func (x *extDire) FromSecLang(p parser.Directive) (seclang.Dire, error) {
	var v string
	switch y := p.(type) {
	case *parser.StringArgDirective:
		v = y.Value
	case *parser.BoolArgDirective:
		v = fmt.Sprint(y.Value)
	case *parser.TriBoolArgDirective:
		v = fmt.Sprint(y.Value)
	case *extParsed:
		v = fmt.Sprintf("%q", y.args)
	default:
		return nil, fmt.Errorf("parsed as %T", p)
	}
	if p.Token() != x.d.tk {
		return nil, fmt.Errorf("token %d", p.Token())
	}
	if strings.HasPrefix(v, "badload") {
		return nil, errExtLoad
	}
	return &extDire{x.d, v}, nil
}

func (x *extDire) Execute(e *ms.Engine) error { return extLog(e, x.d.name, x.says) }

func extRegister() {
	names := []string{"SecVmonText", "SecRules", "SecRuleE", "SecRuleEngineExt", "SecRequestBody", "SecRequestBodyAccessB", "SecResponse", "Sec", "xSecRule", "Vmon", "secvmondotted", "SecVmonTextLong", "Q", "Qz", "Use", "Include", "Zsec", "SecVmon" + strings.Repeat("Long", 8), "SecRuleEngine" + strings.Repeat("Longer", 40)}
	const numTk = extTk + 900
	parser.RegisterValue(numTk, "[0-9]+")
	for i, n := range names {
		for j, k := range extKinds {
			if i >= 2 && (i+j)%3 != 0 {
				continue
			}
			d := extDir{name: n + strings.Repeat("X", j), kind: k, tk: extTk + len(extDirs)}
			extDirs = append(extDirs, d)
			var f parser.DirectiveFactory
			switch k {
			case "string":
				f = parser.StringArgDirectiveFactory(d.tk)
			case "bool":
				f = parser.BoolArgDirectiveFactory(d.tk)
			case "tri":
				f = parser.TriBoolArgDirectiveFactory(d.tk)
			case "num":
				f = func(s *parser.Scanner) (parser.Directive, error) {
					tk, v, err := s.ReadValue(numTk, parser.TkValueOff)
					if err != nil {
						return nil, err
					}
					if (tk == numTk) != (v[0] >= '0' && v[0] <= '9') {
						return nil, fmt.Errorf("%q read as value %d", v, tk)
					}
					return &extParsed{d.tk, []string{v}}, nil
				}
			case "two":
				f = func(s *parser.Scanner) (parser.Directive, error) {
					a, err := s.ReadString()
					if err != nil {
						return nil, err
					}
					b, err := s.ReadString()
					if err != nil {
						return nil, err
					}
					return &extParsed{d.tk, []string{a, b}}, nil
				}
			}
			parser.RegisterDir(d.tk, d.name, f)
			seclang.RegisterDire(&extDire{d: d})
		}
	}
}

// extLate registers a directive whose name was tried before.
func (c *Ctx) extLate() {
	r := c.R
	name, n := "SecVmonLate", len(extDirs)
	for k := n; k > 0; k /= 26 {
		name += string(rune('a' + k%26))
	}
	spelled := randCase(r, name)
	text := spelled + " " + r.Pick("a", "On", "\"x y\"") + "\n"
	c.Set("texts", text)
	for k := r.N(3); k > 0; k-- {
		if err := seclang.NewDireSet().AddSecLangString(r.Pick(text, "SecRuleEngine On\n"+text, strings.ToLower(text))); err == nil {
			c.Fail("unregistered", "a directive nobody registered is accepted")
		}
	}
	d := extDir{name: name, kind: "string", tk: extTk + 2000 + n}
	parser.RegisterDir(d.tk, d.name, parser.StringArgDirectiveFactory(d.tk))
	if r.P(50) {
		if err := seclang.NewDireSet().AddSecLangString(text); err == nil {
			c.Fail("no-effect", "a directive without a registered effect is accepted")
		}
	}
	seclang.RegisterDire(&extDire{d: d})
	extDirs = append(extDirs, d)
	if err := seclang.NewDireSet().AddSecLangString(text); err != nil {
		c.Fail("late", "a directive is refused after its registration: %v", err)
	}
	c.Count("late_registrations", 1)
	c.Eval(3)
}

// extString makes a string argument and its text.
func extString(r *Rand) (string, string) {
	s := r.Pick(word1(r), r.From("abcXYZ019.-_/*(){}[]<>%$@&^~`?+=|:;,", r.Range(1, 20)), pick(r, dict.strs), string(r.Bytes(r.N(20))), genMetaText(r), "", "a b", "#x", "On", "SecRule", "it's \"so\"", strings.Repeat("x", bigN(r, 3000)))
	s = strings.Replace(s, "\x01", "", -1)
	simple := s != "" && s[0] != '"' && s[0] != '\'' && !strings.ContainsAny(s, " \t\f\v\n\r\\\"'\x00")
	for i := 0; i < len(s); i++ {
		simple = simple && s[i] > ' ' && s[i] < 0x7f
	}
	if simple && r.P(50) {
		return s, s
	}
	return s, quoteSec(s, r.Pick("\"", "'")[0])
}

// genExt makes a use of a registered directive: its text and what it must say.
func genExt(r *Rand) (d extDir, text, says string) {
	d = pick(r, extDirs)
	gap := func() string { return r.Pick(" ", " ", "\t", "  ", "\f", " \\\n ") }
	q := func(v string) string { return r.Pick(v, v, "\""+v+"\"", "'"+v+"'") }
	switch d.kind {
	case "string":
		v, t := extString(r)
		says, text = v, t
	case "bool":
		v := r.P(50)
		says, text = fmt.Sprint(v), q(randCase(r, map[bool]string{true: "On", false: "Off"}[v]))
	case "tri":
		v := r.N(3)
		says, text = strconv.Itoa([]int{parser.TriBoolFalse, parser.TriBoolTrue, parser.TriBoolElse}[v]), q(randCase(r, []string{"Off", "On", "DetectionOnly"}[v]))
	case "num":
		v := strconv.Itoa(r.N(1 << 30))
		if r.P(20) {
			v = "Off"
		}
		says, text = fmt.Sprintf("%q", []string{v}), q(v)
	case "two":
		a, t := extString(r)
		b, u := extString(r)
		says, text = fmt.Sprintf("%q", []string{a, b}), t+gap()+u
	}
	return d, randCase(r, d.name) + gap() + text, says
}

type extUse struct {
	name, says string
	before     Config // what was in force
}

func runC28(c *Ctx) {
	r := c.R
	extOnce.Do(extRegister)
	if r.N(50) == 0 && len(extDirs) < 90 {
		c.extLate()
	}
	ds := seclang.NewDireSet()
	var uses []extUse
	var all Config
	var hist []string
	refuse := func(text string) {
		hist = append(hist, "bad: "+text)
		c.Set("texts", strings.Join(hist, "\n----\n"))
		if err := ds.AddSecLangString(text); err == nil {
			c.Fail("accepted", "a text was accepted although a directive refused its argument, or has none")
		}
		c.Count("refused_texts", 1)
	}
	for n := r.Range(1, 3); n > 0; n-- {
		cfg, pieces := c.texts(4)
		text := ""
		var more []extUse
		var built Config
		add := func() {
			for r.P(45) {
				d, t, says := genExt(r)
				if strings.HasPrefix(says, "badload") {
					continue
				}
				more = append(more, extUse{d.name, says, append(append(Config{}, all...), built...)})
				text += t + r.Pick("", " ", "\t") + "\n" + r.Pick("", "", "\n", "  ")
			}
		}
		add()
		for i, p := range pieces {
			text += p
			built = append(built, cfg[i])
			add()
		}
		if r.P(25) { // refused whole
			bad := r.Pick("SecVmonText badload", "SecVmonText \"badload x\"", "SecVmonTextX On1", "SecVmonTextXX Maybe", "SecVmonTextXXX 12x", "SecVmonTextXXX -1", "SecVmonTextXXX On", "SecVmonTextX DetectionOnly", "SecVmonTex a", "SecRulesX yes", "SecVmon On", pick(r, badDirs))
			switch bad {
			case "SecRule", "SecRule ARGS", "SecRule ARGS \"@rx a\"": // goes on with what follows, which may complete it
				refuse(text + bad + "\n")
			default:
				refuse(r.Pick(text+bad+"\n", bad+"\n"+text))
			}
			if r.P(50) {
				continue
			}
		}
		if r.P(30) {
			text = strings.TrimRight(text, "\n \t")
			if strings.HasSuffix(text, "\\") {
				text += "\n"
			}
		}
		hist = append(hist, text)
		c.Set("texts", strings.Join(hist, "\n----\n"))
		if err := ds.AddSecLangString(text); err != nil {
			c.Fail("load-refused", "a valid text with registered directives was refused: %v", err)
		}
		uses = append(uses, more...)
		all = append(all, built...)
	}
	memo := map[int]string{}
	inForce := func(cfg Config) string {
		if _, ok := memo[len(cfg)]; !ok {
			memo[len(cfg)] = c.dump(cfg.canonical())
		}
		return memo[len(cfg)]
	}
	for rep := r.Range(1, 2); rep > 0; rep-- {
		e := c.newEngine()
		at, stop := 0, -1
		if r.P(30) && len(uses) > 0 {
			stop = r.N(len(uses))
		}
		extLog = func(g *ms.Engine, name, says string) error {
			if g != e {
				c.Fail("engine", "a directive took effect on another engine")
			}
			if at >= len(uses) {
				c.Fail("too-many", "%s %q takes effect after all registered directives did", name, says)
			}
			u := uses[at]
			if u.name != name || u.says != says {
				c.Fail("order", "registered directive %d takes effect as %s %q, it was written as %s %q", at, name, says, u.name, u.says)
			}
			if got, want := dumpEngine(e), inForce(u.before); got != want && (at == 0 || r.P(30)) {
				c.Fail("in-force", "when registered directive %d (%s) takes effect the engine is\n%s\ninstead of\n%s", at, name, got, want)
			}
			at++
			c.Count("effects", 1)
			c.Eval(1)
			if at-1 == stop {
				return errExtRun
			}
			return nil
		}
		err := ds.Execute(e)
		switch {
		case stop >= 0 && err != errExtRun:
			c.Fail("fault-lost", "registered directive %d failed to take effect, the application returned %v", stop, err)
		case stop >= 0 && at != stop+1:
			c.Fail("after-fault", "registered directive %d took effect after number %d had failed", at-1, stop)
		case stop >= 0:
			c.Count("faults_reported", 1)
			if got, want := dumpEngine(e), inForce(uses[stop].before); got != want {
				c.Fail("after-fault", "after registered directive %d failed the engine is\n%s\ninstead of\n%s", stop, got, want)
			}
		case err != nil:
			c.Fail("execute-refused", "a valid configuration could not be applied: %v", err)
		default:
			if at != len(uses) {
				c.Fail("missing", "%d of %d registered directives took effect", at, len(uses))
			}
			if got, want := dumpEngine(e), inForce(all); got != want {
				c.Fail("neighbours", "with registered directives the engine is\n%s\nwithout them\n%s", got, want)
			}
		}
	}
	if len(uses) > 0 {
		c.Distinct(strings.Join(hist, "\n"))
	}
	c.Sample(shorten(strings.Join(hist, "\n----\n"), 600))
}

// ---- C29 --------------------------------------------------------------------

// posTx is one transaction with what must come next.
type posTx struct {
	c      *Ctx
	t      *ms.Transaction
	rs     *ms.SecRuleSet
	jumps  map[string]int // by action, so that no loop lasts
	key    string
	data   interface{}
	phase  int // the phase being run, or the one jumped to
	cur    int // index of the rule being evaluated, -1 for none
	next   int // index that comes next, len of the phase when none
	left   bool
	denied bool
	saw    int      // callbacks
	x      *Traffic // announced traffic, or nil
	past   string
}

// at checks what the transaction says about itself in a callback of a rule;
// start tells that it is the first of an evaluation.
func (p *posTx) at(t *ms.Transaction, sr *ms.SecRule, what string, start bool) {
	c := p.c
	if t != p.t {
		c.Fail("foreign", "%s of one transaction is called with another", what)
	}
	p.saw++
	rules := p.rs.Phases[p.phase]
	if p.left && !start { // moved on by an action of this rule
		return
	}
	idx := -1
	for i, x := range rules {
		if x == sr {
			idx = i
		}
	}
	if p.left || idx < 0 || start && idx != p.next && idx != p.cur || !start && idx != p.cur {
		c.Fail("order", "%s: rule %d (of phase %d) is evaluated, %d of phase %d must come next (left %v)\n%s", what, idx, sr.Phase, p.next, p.phase, p.left, p.past)
	}
	if start && idx == p.next {
		p.cur, p.next = idx, idx+1
		p.past += fmt.Sprintf(" %d/%d", p.phase, idx)
	}
	c.Eval(1)
	if n := t.CurrentPhase(); n != p.phase {
		c.Fail("phase", "%s: the current phase is said to be %d in phase %d", what, n, p.phase)
	}
	if n := t.CurrentRule(); n != p.cur {
		c.Fail("rule", "%s: the current rule is said to be %d while %d is evaluated", what, n, p.cur)
	}
	if s := t.CurrentSecRule(); s != sr {
		c.Fail("sec-rule", "%s: the current rule is %p, said to be %p", what, sr, s)
	}
	if rs := t.CurrentPhaseRules(); len(rs) != len(rules) || rs[p.cur] != sr {
		c.Fail("phase-rules", "%s: the rules of phase %d are said to be %d, they are %d", what, p.phase, len(rs), len(rules))
	}
	want := p.next
	if want >= len(rules) {
		want = ms.StatusEndOfRules
	}
	if n := t.NextRule(); n != want {
		c.Fail("next-rule", "%s: rule %d of %d is followed by %d, said to be %d", what, p.cur, len(rules), want, n)
	}
	for k, v := range t.Data {
		if k[0] == 'k' && (k != p.key || v != p.data) {
			c.Fail("data", "%s: the data of transaction %s holds %s=%v, last stored was %v", what, p.key, k, v, p.data)
		}
	}
	if p.data != nil && t.Data[p.key] != p.data {
		c.Fail("data", "%s: the data %v is gone", what, p.data)
	}
}

// doAct is an action of the harness.
func (p *posTx) doAct(t *ms.Transaction, sr *ms.SecRule, kind string, arg int, id string) {
	p.at(t, sr, "action "+kind, false)
	if p.left {
		return
	}
	rules := p.rs.Phases[p.phase]
	switch kind {
	case "data":
		p.data = p.saw
		t.Data[p.key] = p.data
	case "jump":
		if p.jumps[id] > 0 || len(p.jumps) > 6 {
			return
		}
		p.jumps[id]++
		got := t.JumpTo(arg)
		want := arg
		if arg >= len(rules) {
			want = ms.StatusEndOfRules
			arg = len(rules)
		}
		if got != want {
			p.c.Fail("jump", "a jump to %d of %d rules returns %d", arg, len(rules), got)
		}
		p.next = arg
		p.past += fmt.Sprintf(" jump(%d)", arg)
		p.c.Count("jumps", 1)
	case "leave":
		to := p.phase + arg
		var got int
		if arg == 1 && id[0]%2 == 0 {
			got = t.NextPhase()
		} else {
			got = t.JumpToPhase(to)
		}
		if to > ms.PhaseEnd {
			to = ms.PhaseEnd
		}
		if got != to || t.CurrentPhase() != to {
			p.c.Fail("jump-phase", "a jump to phase %d returns %d, the phase is %d", to, got, t.CurrentPhase())
		}
		p.past += fmt.Sprintf(" leave(%d)", to)
		p.left = true
		p.phase = to
		p.c.Count("phase_jumps", 1)
	case "deny":
		actions.NewActionDeny().Do(t)
		p.past += " deny"
		p.left, p.denied = true, true
	}
}

func runC29(c *Ctx) {
	r := c.R
	e := c.newEngine()
	if r.P(25) {
		e.Enable(ms.StatusDect)
	}
	var cur *posTx
	mkSet := func(rs *ms.SecRuleSet) {
		size := r.PickInt(3, 8, 20)
		if c.I%500 == 1 {
			size = bigN(r, 600)
		}
		for n := r.Range(1, size); n > 0; n-- {
			phase := r.PickInt(2, 2, 3, r.Range(1, 6))
			var top *ms.SecRule
			for k := r.PickInt(1, 1, 1, 2, 3); k > 0; k-- {
				sr := ms.NewSecRule()
				sr.Phase = phase
				if top == nil {
					top = sr
				}
				top := top
				hit := r.P(85)
				not := r.P(20)
				sr.Not = not
				nv := r.PickInt(1, 1, 2, 3)
				for i := 0; i < nv; i++ {
					start := sr == top && i == 0
					sr.AppendVariables(&scriptVar{"V", func(t *ms.Transaction) []string {
						cur.at(t, top, "variable", start)
						return []string{"v", "w"}
					}})
				}
				if r.P(40) {
					sr.AppendTrans(&posTrans{func(t *ms.Transaction, s string) string {
						cur.at(t, top, "transformation", false)
						return s
					}})
				}
				sr.SetOperator(&scriptOp{func(t *ms.Transaction, s string) bool {
					cur.at(t, top, "operator", false)
					return hit != not
				}})
				for j := r.N(4); j > 0; j-- {
					kind := r.Pick("data", "look", "jump", "jump", "leave", "deny", "data", "look")
					if kind == "deny" && r.P(80) || kind == "leave" && r.P(50) {
						kind = "look"
					}
					arg := r.N(size + 2)
					if kind == "leave" {
						arg = r.Range(1, 3)
					}
					id := fmt.Sprint(r.N(10), "#", n, k, j)
					sr.AppendActions(&scriptAct{"vmon", r.PickInt(ms.ActionGroupMetaData, ms.ActionGroupData, ms.ActionGroupNonDisruptive, ms.ActionGroupFlow, ms.ActionGroupDisruptive), func(t *ms.Transaction) {
						cur.doAct(t, top, kind, arg, id)
					}})
				}
				if sr != top {
					top.AppendSubRules(sr)
				}
			}
			rs.AddRules(top)
		}
	}
	mkSet(e.RuleSet)
	var ts []*posTx
	for n := r.Range(1, 4); n > 0; n-- {
		rs := e.RuleSet
		if r.P(30) {
			rs = ms.NewSecRuleSet()
			mkSet(rs)
		}
		t, err := ms.NewTransaction(e, rs)
		if rs == e.RuleSet && r.P(50) {
			t, err = e.NewTransaction()
		}
		if err != nil {
			c.Fail("transaction", "no transaction: %v", err)
		}
		p := &posTx{c: c, t: t, rs: rs, key: fmt.Sprint("k", len(ts)), cur: -1, jumps: map[string]int{}}
		if r.P(40) { // announced, not only processed
			p.x = genTraffic(r, &tprofile{wild: 10, maxLen: 300})
		}
		ts = append(ts, p)
		defer closeTx(t)
	}
	if r.P(20) { // the engine's rules are replaced: transactions keep theirs
		e.RuleSet = ms.NewSecRuleSet()
		mkSet(e.RuleSet)
		c.Count("replaced_rule_sets", 1)
	}
	for _, p := range ts { // data stored before anything runs
		if r.P(30) {
			p.data = r.N(100)
			p.t.Data[p.key] = p.data
		}
	}
	for _, p := range ts {
		for k, v := range p.t.Data {
			if k[0] == 'k' && (k != p.key || v != p.data) {
				c.Fail("data", "the data of the new transaction %s holds %s=%v", p.key, k, v)
			}
		}
	}
	done := make([]int, len(ts))
	jumped := false
	for open := len(ts); open > 0; {
		i := r.N(len(ts))
		if done[i] == 6 {
			continue
		}
		p := ts[i]
		done[i]++
		if done[i] == 6 {
			open--
		}
		ph := done[i]
		cur = p
		skipped := p.phase > ph
		if !skipped {
			p.phase, p.cur, p.next, p.left = ph, -1, 0, false
			p.jumps = map[string]int{}
		}
		saw := p.saw
		p.past += fmt.Sprintf(" [%d]", ph)
		c.Set("history", p.past)
		if p.x == nil {
			p.t.ProcessPhase(ph)
		} else {
			p.x.stage(c, p.t, ph)
		}
		c.Set("history", p.past)
		n := len(p.rs.Phases[ph])
		if skipped && p.saw != saw {
			c.Fail("left-phase", "phase %d was left behind for phase %d, but its rules ran", ph, p.phase)
		}
		if !skipped && !p.left && p.next < n {
			c.Fail("stopped", "phase %d ended before its rule %d of %d\n%s", ph, p.next, n, p.past)
		}
		jumped = jumped || strings.Contains(p.past, "jump") || strings.Contains(p.past, "leave")
		if res := p.t.Result(); res.Disruptive != (p.denied && e.Enabled) {
			c.Fail("result", "the result is disruptive: %v\n%s", res.Disruptive, p.past)
		}
		p.denied = false
	}
	if jumped {
		c.Distinct(fmt.Sprint(c.I))
	}
	c.Sample(ts[0].past)
}

type posTrans struct {
	f func(*ms.Transaction, string) string
}

func (x *posTrans) Name() string                             { return "vmon" }
func (x *posTrans) Trans(t *ms.Transaction, s string) string { return x.f(t, s) }
