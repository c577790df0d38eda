BUGS = [
dict(id='C01-repeated-trans', property='C01', edits=[('modsecurity/sec_rule.go','''	for _, t := range r.Trans {
		s = t.Trans(tr, s)
	}''','''	last := ""
	for _, t := range r.Trans {
		if t.Name() == last { // idempotent
			continue
		}
		s = t.Trans(tr, s)
		last = t.Name()
	}''')],
 needs='a rule that names the same transformation twice in a row (t:urlDecode,t:urlDecode) and a doubly encoded value', breaks='the second of two equal neighbouring transformations is not applied, so a doubly encoded value is not found',
 demo='''
	q := &req{url: "/?a=%252561ttack"}
	if n := q.denied(t, `SecRule ARGS "@rx ^attack$" "id:1,phase:2,t:urlDecode,t:urlDecode,deny"`); n != 403 {
		t.Fatalf("doubly decoded attack passed: %d", n)
	}
	q = &req{url: "/?a=%252541ttack"}
	if n := q.denied(t, `SecRule ARGS "@rx ^attack$" "id:1,phase:2,t:urlDecode,t:lowercase,t:urlDecode,t:lowercase,deny"`); n != 403 {
		t.Fatalf("attack passed: %d", n)
	}'''),
dict(id='C01-value-dedup', property='C01', edits=[('modsecurity/sec_rule.go','''	var res []string
	for _, v := range r.Variables {
		res = append(res, r.TransformVariable(t, v)...)
	}
	return res
''','''	var res []string
	for _, v := range r.Variables {
		res = append(res, r.TransformVariable(t, v)...)
		if len(res) > maxValues { // bound the work per rule
			res = res[:maxValues]
		}
	}
	return res
'''),('modsecurity/sec_rule.go','''type SecRule struct {''','''const maxValues = 255

type SecRule struct {''')],
 needs='a rule whose targets designate more than 255 values, the only matching one among the last', breaks='values beyond the 255th are not looked at',
 demo='''
	u := "/?"
	for i := 0; i < 300; i++ {
		u += "x=1&"
	}
	q := &req{url: u}
	q.h = http.Header{"X-Z": {"1"}}
	if n := q.denied(t, `SecRule ARGS "@rx 2" "id:1,phase:2,deny"`); n != 0 {
		t.Fatalf("denied: %d", n)
	}
	q.url = u + "x=2"
	if n := q.denied(t, `SecRule ARGS "@rx 2" "id:1,phase:2,deny"`); n != 403 {
		t.Fatalf("the last value was not looked at: %d", n)
	}'''),
dict(id='C01-negated-last', property='C01', edits=[('modsecurity/sec_rule.go','''	for _, v := range r.FetchAllTransformedVariables(t) {
		if t.Abort {
			return false
		}
		if r.Not != r.Operator.Match(t, v) {
			return true
		}
	}
	return false''','''	vals := r.FetchAllTransformedVariables(t)
	for _, v := range vals {
		if t.Abort {
			return false
		}
		if r.Operator.Match(t, v) {
			return !r.Not
		}
	}
	return r.Not && len(vals) > 0''')],
 needs='a negated operator and several values of which some, not all, satisfy it', breaks='a negated rule acts only when no value satisfies the operator, instead of when some value fails it',
 demo='''
	q := &req{url: "/?a=good&a=bad"}
	for i := 0; i < 5; i++ {
		if n := q.denied(t, `SecRule ARGS:a "!@rx ^good$" "id:1,phase:2,deny"`); n != 403 {
			t.Fatalf("the value that fails the operator passed: %d", n)
		}
	}'''),
dict(id='C02-sub-actions-early', property='C02', edits=[('modsecurity/sec_rule.go','''	ActionsExecute(t, r.Actions)
	for _, sub := range r.SubRules {
		ActionsExecute(t, sub.Actions)
	}''','''	all := append([]Action(nil), r.Actions...)
	for _, sub := range r.SubRules {
		all = append(all, sub.Actions...)
	}
	ActionsExecute(t, all)''')],
 needs='a chain whose starter has a disruptive action and whose link has a status or log action', breaks="the links' data and log actions run before the starter's disruptive action",
 demo='''
	q := &req{url: "/?a=1&b=2"}
	e := engine(t, "SecRule ARGS:a \\"@rx 1\\" \\"id:1,phase:2,deny,chain\\"\\nSecRule ARGS:b \\"@rx 2\\" \\"status:404,log\\"\\n")
	r := q.run(t, e)[2]
	if r.Status != 403 || len(r.Log) != 2 || r.Log[0][len(r.Log[0])-3:] != "403" {
		t.Fatalf("status %d log %q", r.Status, r.Log)
	}'''),
dict(id='C02-third-link', property='C02', edits=[('seclang/rule_set.go','''			} else if chainParent == nil { // new chain start
				chainParent = dr
			} // else keep old chain
''','''			} else { // the next rule belongs to this one
				chainParent = dr
			}
''')],
 needs='a chain of three or more links whose last link does not match', breaks='the third and later links are hung below the second, where they are never evaluated, so that the chain acts without them',
 demo='''
	q := &req{url: "/?a=1&b=2"}
	text := "SecRule ARGS:a \\"@rx 1\\" \\"id:1,phase:2,deny,chain\\"\\nSecRule ARGS:b \\"@rx 2\\" \\"chain\\"\\nSecRule ARGS:c \\"@rx 3\\" \\"t:none\\"\\n"
	if n := q.denied(t, text); n != 0 {
		t.Fatalf("the chain acted without its last link: %d", n)
	}
	q.url += "&c=3"
	if n := q.denied(t, text); n != 403 {
		t.Fatalf("the chain did not act: %d", n)
	}'''),
dict(id='C02-chain-and-directive', property='C02', edits=[('seclang/rule_set.go','''		if dr, ok := dire.(*DireRule); ok {
			parent := chainParent // keep old parent''','''		dr, ok := dire.(*DireRule)
		if !ok {
			chainParent = nil // a chain is made of consecutive rules
		} else {
			parent := chainParent // keep old parent''')],
 needs='another directive between two links of a chain', breaks='the chain ends at the directive: its starter acts alone, and the link becomes a rule of its own',
 demo='''
	q := &req{url: "/?a=1"}
	text := "SecRule ARGS:a \\"@rx 1\\" \\"id:1,phase:2,deny,chain\\"\\nSecRequestBodyAccess On\\nSecRule ARGS:b \\"@rx 2\\" \\"t:none\\"\\n"
	if n := q.denied(t, text); n != 0 {
		t.Fatalf("the chain acted without its last link: %d", n)
	}'''),
dict(id='C03-duplicate-id', property='C03', edits=[('modsecurity/sec_rule.go','''		rs.Phases[rule.Phase] = append(rs.Phases[rule.Phase], rule)
''','''		rs.add(rule)
'''),('modsecurity/sec_rule.go','''func (rs *SecRuleSet) Process(''','''// add appends a rule; a later rule of the same id takes the place of the earlier one.
func (rs *SecRuleSet) add(rule *SecRule) {
	for i, old := range rs.Phases[rule.Phase] {
		if rule.Id != 0 && old.Id == rule.Id {
			rs.Phases[rule.Phase][i] = rule
			return
		}
	}
	rs.Phases[rule.Phase] = append(rs.Phases[rule.Phase], rule)
}

func (rs *SecRuleSet) Process(''')],
 needs='two rules of the same phase with the same id', breaks='the later rule replaces the earlier one, so that a configured rule is not evaluated',
 demo='''
	q := &req{url: "/?a=1"}
	text := "SecRule ARGS:a \\"@rx 1\\" \\"id:1,phase:2,deny\\"\\nSecRule ARGS:b \\"@rx 2\\" \\"id:1,phase:2,log\\"\\n"
	if n := q.denied(t, text); n != 403 {
		t.Fatalf("the first of two rules with one id was not evaluated: %d", n)
	}'''),
dict(id='C03-skip-last', property='C03', edits=[('modsecurity/transaction.go','''	if len(s.RuleSet.Phases[s.currentPhase]) <= i {
		s.nextRule = StatusEndOfRules
		return StatusEndOfRules
	}''','''	if last := len(s.RuleSet.Phases[s.currentPhase]) - 1; i > last {
		i = last
	}''')],
 needs='a skip that reaches beyond the end of its phase', breaks='a skip past the last rule of the phase runs the last rule instead of ending the phase (for ever, if that rule is the one that skips)',
 demo='''
	q := &req{url: "/?a=1"}
	within(t, "skip in the last rule", func() {
		text := "SecRule ARGS:a \\"@rx 1\\" \\"id:1,phase:2,skip:3\\"\\nSecRule ARGS:a \\"@rx 1\\" \\"id:2,phase:2,deny\\"\\n"
		if n := q.denied(t, text); n != 0 {
			t.Fatalf("a skipped rule ran: %d", n)
		}
	})'''),
dict(id='C04-allow-logging', property='C04', edits=[('modsecurity/transaction.go','''	case i >= PhaseEnd:
		i = PhaseEnd
	}''','''	case i >= PhaseEnd: // the last phase there is
		i = PhaseLogging
	}''')],
 needs='an allow:phase that matches in the logging phase', breaks='the logging phase starts over from its first rule, for ever',
 demo='''
	q := &req{url: "/?a=1"}
	within(t, "allow in the logging phase", func() {
		q.run(t, engine(t, "SecRule ARGS:a \\"@rx 1\\" \\"id:1,phase:logging,allow:phase\\"\\n"))
	})'''),
dict(id='C05-log-reuse', property='C05', edits=[('modsecurity/transaction.go','''	i.Log = nil
	i.Disruptive = false
''','''	i.Log = i.Log[:0] // keep the room
	i.Disruptive = false
''')],
 needs='two results of one transaction kept by the caller, both with log entries', breaks='the log of an earlier result is overwritten by later entries',
 demo='''
	q := &req{url: "/?a=1"}
	out := q.run(t, engine(t, "SecRule ARGS:a \\"@rx 1\\" \\"id:1,phase:2,log\\"\\nSecRule ARGS:a \\"@rx 1\\" \\"id:2,phase:5,log\\"\\n"))
	if len(out[2].Log) != 1 || len(out[5].Log) != 1 || out[2].Log[0] == out[5].Log[0] {
		t.Fatalf("logs %q %q", out[2].Log, out[5].Log)
	}'''),
dict(id='C05-status-order', property='C05', edits=[('modsecurity/sec_rule.go','''	actionMap := make([][]Action, ActionGroupCount)
	for _, a := range as {
		actionMap[a.ActionGroup()] = append(actionMap[a.ActionGroup()], a)
	}''','''	actionMap := make([][]Action, ActionGroupCount)
	for _, a := range as {
		g := a.ActionGroup()
		if g == ActionGroupData && len(actionMap[ActionGroupDisruptive]) > 0 {
			g = ActionGroupFlow // follows the disruptive action
		}
		actionMap[g] = append(actionMap[g], a)
	}''')],
 needs='a rule that lists status after deny', breaks='the status is set only after the interception, which carries 403',
 demo='''
	q := &req{url: "/?a=1"}
	if n := q.denied(t, "SecRule ARGS:a \\"@rx 1\\" \\"id:1,phase:2,deny,status:404\\"\\n"); n != 404 {
		t.Fatalf("status %d", n)
	}'''),
dict(id='C05-default-order', property='C05', edits=[('modsecurity/sec_rule.go','''	ActionsExecute(t, rs.DefaultActions)
''','''	for _, a := range rs.DefaultActions {
		ActionsExecute(t, []Action{a})
	}
''')],
 needs='default actions that list deny before status, and a rule with block', breaks='the interception of block carries 403 instead of the status of the default actions',
 imports=['github.com/senghoo/modsecurity-go/modsecurity/actions'],
 demo='''
	q := &req{url: "/?a=1"}
	e := engine(t, "SecRule ARGS:a \\"@rx 1\\" \\"id:1,phase:2,block\\"\\n")
	e.RuleSet.AddDefaultActions(actions.NewActionDeny(), actions.NewActionStatus(451))
	if r := q.run(t, e)[2]; !r.Disruptive || r.Status != 451 {
		t.Fatalf("%v %d", r.Disruptive, r.Status)
	}'''),
dict(id='C05-deny-599', property='C05', edits=[('modsecurity/actions/deny.go','if status >= 100 && status <= 599 {','if status > 100 && status < 599 {')],
 needs='deny with the status 100 or 599', breaks='the two outermost statuses are replaced by 403',
 demo='''
	q := &req{url: "/?a=1"}
	if n := q.denied(t, "SecRule ARGS:a \\"@rx 1\\" \\"id:1,phase:2,deny,status:599\\"\\n"); n != 599 {
		t.Fatalf("status %d", n)
	}'''),
dict(id='C06-detect-off', property='C06', edits=[('modsecurity/engine.go','''	case StatusOff:
		e.Enabled = false
		e.DetectionOnly = false''','''	case StatusOff:
		e.Enabled = false''')],
 needs='SecRuleEngine DetectionOnly and later Off', breaks='the engine goes on detecting after it was switched off',
 demo='''
	q := &req{url: "/?a=1"}
	out := q.run(t, engine(t, "SecRuleEngine DetectionOnly\\nSecRuleEngine Off\\nSecRule ARGS:a \\"@rx 1\\" \\"id:1,phase:2,log\\"\\n"))
	if len(out[2].Log) != 0 {
		t.Fatalf("a rule ran while the engine was off: %q", out[2].Log)
	}'''),
dict(id='C06-detect-skip', property='C06', edits=[('modsecurity/sec_rule.go','''	for group, actions := range actionMap {
		if group == ActionGroupDisruptive && t.Engine.DetectionOnly {
			continue
		}
		for _, action := range actions {''','''	if t.Engine.DetectionOnly { // nothing that changes the course of the transaction
		actionMap = actionMap[:ActionGroupDisruptive]
	}
	for _, actions := range actionMap {
		for _, action := range actions {''')],
 needs='a skip in DetectionOnly mode', breaks='skip is suppressed in DetectionOnly, so that rules run that would not',
 demo='''
	q := &req{url: "/?a=1"}
	out := q.run(t, engine(t, "SecRuleEngine DetectionOnly\\nSecRule ARGS:a \\"@rx 1\\" \\"id:1,phase:2,skip\\"\\nSecRule ARGS:a \\"@rx 1\\" \\"id:2,phase:2,log\\"\\n"))
	if len(out[2].Log) != 0 {
		t.Fatalf("a skipped rule ran: %q", out[2].Log)
	}'''),
dict(id='C07-rx-memo', property='C07', race=True, imports=['sync'], edits=[('modsecurity/operators/rx.go','''	return o.match.MatchString(s)
''','''	if o.seen && o.last == s { // rules often see the same value again
		return o.hit
	}
	o.last, o.hit, o.seen = s, o.match.MatchString(s), true
	return o.hit
'''),('modsecurity/operators/rx.go','''	match *regexp.Regexp
}''','''	match *regexp.Regexp
	last  string
	hit   bool
	seen  bool
}''')],
 needs='two transactions that evaluate the same rule at the same time', breaks='the memo in the shared operator is written and read without synchronisation; a transaction can see the verdict of another',
 demo='''
	e := engine(t, "SecRule ARGS:a \\"@rx ^b\\" \\"id:1,phase:2,deny\\"\\n")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			q := &req{url: "/?a=b"}
			if i%2 == 0 {
				q.url = "/?a=c"
			}
			for k := 0; k < 200; k++ {
				if got := q.run(t, e)[2].Disruptive; got != (i%2 == 1) {
					t.Errorf("transaction %d: %v", i, got)
				}
			}
		}(i)
	}
	wg.Wait()'''),
dict(id='C07-sorted-actions', property='C07', race=True, imports=['sync'], edits=[('seclang/sec_rule.go','''	e.AddSecRule(r.rule)
	return nil''','''	r.rule.MetaData["phase"] = []string{strconv.Itoa(r.rule.Phase)}
	e.AddSecRule(r.rule)
	return nil'''),('seclang/sec_rule.go','''import (
	"fmt"
''','''import (
	"fmt"
	"strconv"
''')],
 needs='one loaded configuration applied to two engines at the same time', breaks='applying a configuration writes to its shared rules, a data race (and a concurrent map write)',
 demo='''
	ds, err := seclang.NewDireSetFromSecLangString("SecRule ARGS:a \\"@rx ^b\\" \\"id:1,phase:2,deny\\"\\n")
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e := ms.NewEngine()
			ds.Execute(e)
		}()
	}
	wg.Wait()'''),
dict(id='C07-shared-query', property='C07', edits=[('modsecurity/variables/request_body_parser.go','''		cacheKey := fmt.Sprintf("RESPONSE_BODY:%s", parser.contentType)
		res, has := t.VariableCache[cacheKey]
		if !has {
			res, err = parser.parser(t, params)
			t.VariableCache[cacheKey] = res
			if err != nil {
				t.RequestBodyError = err
			}
		}''','''		cacheKey := fmt.Sprintf("%s:%s:%d", t.Engine.TmpPath, ct+params["boundary"], t.Request.Body.Len())
		res, has := recent.Load(cacheKey)
		if !has || recent.owner(cacheKey) != t {
			res, err = parser.parser(t, params)
			if err != nil {
				t.RequestBodyError = err
			} else {
				recent.keep(cacheKey, t, res)
			}
		}'''),('modsecurity/variables/request_body_parser.go','''func requestBodyParse(''','''// recent holds the last parsed bodies.
var recent parsedBodies

type parsedBodies struct {
	sync.Map
	last sync.Map
}

func (p *parsedBodies) owner(key string) interface{} {
	t, _ := p.last.Load(key)
	return t
}

func (p *parsedBodies) keep(key string, t *modsecurity.Transaction, res interface{}) {
	p.last.Store(key, t)
	p.Map.Store(key, res)
}

func requestBodyParse('''),('modsecurity/variables/request_body_parser.go','''import (
''','''import (
	"sync"
''')],
 needs='two concurrent transactions with bodies of the same type and length, interleaved between the lookup of the shared parse result and the check of its owner (or between two storings)', breaks='a transaction can be given the arguments of another whose body has the same length',
 imports=['sync', 'fmt'],
 demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule ARGS_POST:a \\"@rx ^b\\" \\"id:1,phase:3,deny\\"\\nSecRule ARGS_POST:a \\"@rx ^b\\" \\"id:2,phase:4,deny\\"\\nSecRule ARGS_POST:a \\"@rx ^b\\" \\"id:3,phase:5,deny\\"\\n")
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			q := &req{method: "POST", url: "/", h: form(nil), body: fmt.Sprintf("a=c%03d", i)}
			if i%2 == 1 {
				q.body = fmt.Sprintf("a=b%03d", i)
			}
			for k := 0; k < 3000; k++ {
				if got := q.run(t, e)[3].Disruptive; got != (i%2 == 1) {
					t.Errorf("transaction %d: %v", i, got)
					return
				}
			}
		}(i)
	}
	wg.Wait()'''),
]
