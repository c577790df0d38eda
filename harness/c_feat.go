package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"
	"github.com/senghoo/modsecurity-go/modsecurity/variables"
	"github.com/senghoo/modsecurity-go/seclang"
)

func init() {
	register(&Prop{ID: "C22", Quick: 240000, Thorough: 2000000, Run: runC22,
		Rule: "every feature listed in the README, from rule text to the result of live traffic, with random traffic and arguments; unlisted names; the README's own examples; non-trivial: the feature made a difference in the result"})
}

type feature struct {
	name string
	run  func(c *Ctx)
}

var features []feature

func init() {
	add := func(name string, f func(c *Ctx)) { features = append(features, feature{name, f}) }
	for _, v := range allVars {
		v := v
		add("variable "+v, func(c *Ctx) { featVariable(c, v) })
		add("variable "+v, func(c *Ctx) { featVariable(c, v) })
	}
	for _, o := range append([]string{"rx"}, cmpOps...) {
		o := o
		add("operator "+o, func(c *Ctx) { featOperator(c, o) })
	}
	for _, t := range transNames {
		t := t
		add("transformation "+t, func(c *Ctx) { featTrans(c, t) })
	}
	add("SecRuleEngine", featEngine)
	add("SecRequestBodyAccess", featReqBody)
	add("SecResponseBodyAccess", featResBody)
	for _, a := range []string{"", "phase", "request"} {
		a := a
		add("allow "+a, func(c *Ctx) { featAllow(c, a) })
	}
	add("metadata", featMeta)
	add("log", featLog)
	add("deny", featDeny)
	add("block", featBlock)
	add("pass", featPass)
	add("skip", featSkip)
	add("chain", featChain)
	add("phase", featPhase)
	add("unlisted", featUnlisted)
	add("unlisted", featUnlisted)
	add("README", featReadme)
	add("backslash", featBackslash)
	add("unimplemented", featUnimplemented)
}

func runC22(c *Ctx) {
	f := features[c.I%len(features)]
	c.Set("feature", f.name)
	f.run(c)
	c.Count("checked_"+strings.Replace(f.name, " ", "_", -1), 1)
}

// verdicts plays traffic and returns the result collected after each phase.
func (c *Ctx) verdicts(e *ms.Engine, x *Traffic) [7]*ms.Intervention {
	var out [7]*ms.Intervention
	t := c.tx(e)
	for p := 1; p <= 6; p++ {
		x.stage(c, t, p)
		out[p] = t.Result()
	}
	closeTx(t)
	return out
}

// denials lists in which phases the result was disruptive, and with what status.
func denials(vs [7]*ms.Intervention) (out []string) {
	for p := 1; p <= 6; p++ {
		if vs[p].Disruptive {
			out = append(out, fmt.Sprintf("%d:%d", p, vs[p].Status))
		}
	}
	return
}

func (c *Ctx) expect(text string, x *Traffic, what string, want ...string) {
	c.Set("rules", text)
	c.Set("traffic", x.String())
	e := c.load(text)
	got := denials(c.verdicts(e, x))
	if !sameList(got, want) {
		c.Fail("effect", "%s: interceptions phase:status %v, must be %v", what, got, want)
	}
	c.Eval(1)
	if len(want) > 0 {
		c.Distinct(text, x.String())
	}
}

const access = "SecRequestBodyAccess On\nSecResponseBodyAccess On\n"

func featTraffic(r *Rand) *Traffic {
	return genTraffic(r, &tprofile{wild: 5, maxLen: 20000, bigs: []int{5000}})
}

// dressed is secRule with additions that change nothing: phases by name,
// transformations that do nothing, metadata.
func dressed(r *Rand, target, op, acts string) string {
	as := strings.Split(acts, ",")
	for i, a := range as {
		switch {
		case a == "phase:3" && r.P(30):
			as[i] = r.Pick("phase:request", "phase:'request'")
		case a == "phase:5" && r.P(30):
			as[i] = r.Pick("phase:response", "phase:'response'")
		case strings.HasPrefix(a, "phase:") && r.P(10):
			as[i] = "phase:'" + strings.Trim(a[6:], "'") + "'"
		}
	}
	for r.P(20) {
		a := r.Pick("t:none", "t:none", "tag:'x'", "tag:a/b", "rev:1", "msg:'a, b'", "ver:'OWASP/3'", "severity:2", "severity:NOTICE", "logdata:'%{MATCHED_VAR}'")
		i := r.N(len(as) + 1)
		as = append(as[:i], append([]string{a}, as[i:]...)...)
	}
	return secRule(target, op, strings.Join(as, ","))
}

func secRule(target, op, acts string) string {
	return "SecRule " + quoteSec(target, '"') + " " + quoteSec(op, '"') + " " + quoteSec(acts, '"') + "\n"
}

func featVariable(c *Ctx, v string) {
	r := c.R
	full := view{true, true, 131072}
	var x *Traffic
	var vals []string
	for try := 0; try < 30 && len(vals) == 0; try++ {
		x = featTraffic(r)
		ents, names := x.ref(v, full)
		for _, e := range ents {
			if names {
				vals = append(vals, e.Name)
			} else {
				vals = append(vals, e.Value)
			}
		}
	}
	p := r.Range(visibleFrom(v), 5)
	if len(vals) == 0 || r.P(10) { // is it taken from elsewhere when it has nothing?
		for try := 0; try < 30; try++ {
			x = featTraffic(r)
			ents, names := x.ref(v, full)
			vals = nil
			for _, e := range ents {
				if names {
					vals = append(vals, e.Name)
				} else {
					vals = append(vals, e.Value)
				}
			}
			if len(vals) == 0 || len(vals) == 1 && vals[0] == "" {
				break
			}
		}
		if len(vals) > 0 && strings.Join(vals, "") != "" {
			return
		}
		if isColl(v) && !strings.HasSuffix(v, "_NAMES") && len(vals) == 0 && r.P(50) {
			c.expect(access+dressed(r, r.Pick("&", "&", "&"+v+":zzz|&")+v, r.Pick("@eq 0", "@rx ^0$", "!@gt 0", "@lt 1"), fmt.Sprintf("id:1,phase:%d,deny", p)), x, fmt.Sprintf("a rule in phase %d on the number of %s, which are none", p, v), fmt.Sprintf("%d:403", p))
			c.Count("empty_counts", 1)
			return
		}
		c.expect(access+dressed(r, v, "@rx .", fmt.Sprintf("id:1,phase:%d,deny", p)), x, fmt.Sprintf("a rule in phase %d on %s, which has no value", p, v))
		c.Count("empty_fields", 1)
		return
	}
	val := pick(r, vals)
	if len(val) > 2000 {
		return
	}
	status := r.PickInt(403, 418, 500, 100, 599)
	c.expect(access+dressed(r, v, "@rx ^"+litRe(val)+"$", fmt.Sprintf("id:1,phase:%d,deny,status:%d", p, status)), x,
		fmt.Sprintf("a rule in phase %d on %s for the value %q that it has", p, v, clipStr(val)), fmt.Sprintf("%d:%d", p, status))
	// something another field holds, and this one does not
	w := pick(r, allVars)
	ents, names := x.ref(w, full)
	if len(ents) == 0 {
		return
	}
	e := pick(r, ents)
	other := e.Value
	if names {
		other = e.Name
	}
	if len(other) > 2000 {
		return
	}
	for _, s := range vals {
		if s == other || compiled("^"+litRe(other)+"$").MatchString(s) {
			return
		}
	}
	c.expect(access+dressed(r, v, "@rx ^"+litRe(other)+"$", fmt.Sprintf("id:1,phase:%d,deny", p)), x,
		fmt.Sprintf("a rule in phase %d on %s for the value %q, which is only that of %s", p, v, clipStr(other), w))
	// of two rules on the two fields exactly those that hold intercept
	q := r.Range(visibleFrom(w), 5)
	var want []string
	for k := 1; k <= 5; k++ {
		if k == q {
			want = append(want, fmt.Sprintf("%d:412", k))
		}
	}
	c.expect(access+dressed(r, v, "@rx ^"+litRe(other)+"$", fmt.Sprintf("id:1,phase:%d,status:411,deny", p))+dressed(r, w, "@rx ^"+litRe(other)+"$", fmt.Sprintf("id:2,phase:%d,status:412,deny", q)), x,
		fmt.Sprintf("rules on %s and %s for %q, which is only that of %s", v, w, clipStr(other), w), want...)
}

// plainTraffic has one header and one argument of interest.
func plainTraffic(r *Rand, val string) *Traffic {
	return &Traffic{Src: "192.0.2.7", SrcPort: strconv.Itoa(r.Range(1, 65535)), Dst: "192.0.2.8", DstPort: "80", Path: "/index", Query: "q=" + encodeArg(r, val, 10), Method: r.Pick("GET", "POST"), Proto: "HTTP/1.1",
		Header: http.Header{"X-Val": []string{val}}, Code: 200, RProto: "HTTP/1.1", RHeader: http.Header{"X-Val": []string{val}}, RBody: []byte(val)}
}

func target(r *Rand, val string) string {
	if val != "" && r.P(15) {
		return "RESPONSE_BODY"
	}
	return r.Pick("REQUEST_HEADERS:X-Val", "REQUEST_HEADERS:x-val", "ARGS_GET:q", "ARGS_GET", "ARGS:q", "RESPONSE_HEADERS:X-Val")
}

func featOperator(c *Ctx, op string) {
	r := c.R
	val := intText(r)
	arg := strconv.FormatInt(int64(r.Range(-3, 12)), 10)
	if r.P(30) {
		n := int64(r.u64()) >> uint(r.N(64))
		arg = strconv.FormatInt(n, 10)
		if r.P(60) {
			val = strconv.FormatInt(n+int64(r.Range(-1, 1)), 10)
		}
	} else if r.P(60) {
		val = strconv.Itoa(r.Range(-3, 12))
	}
	if op == "rx" {
		val, arg = word(r), genRx(r)
	} else if vagueInt(val) {
		return
	}
	not := r.P(30)
	tg := target(r, val)
	p := r.Range(visibleFrom(strings.SplitN(tg, ":", 2)[0]), 5)
	text := "@" + op + " " + arg
	if op == "rx" && arg != "" && arg[0] != '!' && arg[0] != '@' && r.P(30) {
		text = arg // rx is the operator when none is given
	}
	if not {
		text = "!" + text
	}
	var want []string
	acts := fmt.Sprintf("id:1,phase:%d,deny", p)
	seen := val
	for r.P(30) {
		t := pick(r, transNames)
		acts += ",t:" + t
		seen = refTrans(t, seen)
	}
	if op != "rx" && vagueInt(seen) {
		return
	}
	if refOp(op, arg, seen) != not {
		want = []string{fmt.Sprintf("%d:403", p)}
	}
	c.expect(access+dressed(r, tg, text, acts), plainTraffic(r, val), fmt.Sprintf("%s on the value %q", text, val), want...)
}

func featTrans(c *Ctx, t string) {
	r := c.R
	var b strings.Builder
	for n := r.Range(1, 6); n > 0; n-- {
		b.WriteString(r.Pick("a", "B", "%41", "%u0042", "%uFF21", "+", " ", "\t", "  ", "\n\r", "\x00", "É", "%", "%zz", "%e4%bd%a0", "\xff", "\v", "\f", "z9", "%00", "%20", "+%2b"))
	}
	val := b.String()
	tg := target(r, val)
	p := r.Range(visibleFrom(strings.SplitN(tg, ":", 2)[0]), 5)
	exact := func(s string) string { // matches exactly s, byte for byte
		var re strings.Builder
		re.WriteString("^")
		for _, ch := range splitUTF8(s) {
			if len(ch) == 1 && (ch[0] >= 0x80 || ch[0] < 32) {
				if ch[0] >= 0x80 {
					re.WriteString("\\x{FFFD}")
				} else {
					fmt.Fprintf(&re, "\\x%02x", ch[0])
				}
			} else {
				re.WriteString(litRe(ch))
			}
		}
		return re.String() + "$"
	}
	out := refTrans(t, val)
	deny := fmt.Sprintf("%d:403", p)
	c.expect(access+dressed(r, tg, "@rx "+exact(out), fmt.Sprintf("id:1,phase:%d,t:%s,deny", p, t)), plainTraffic(r, val), fmt.Sprintf("t:%s on %q compared with %q", t, val, out), deny)
	if out != val {
		c.expect(access+dressed(r, tg, "@rx "+exact(val), fmt.Sprintf("id:1,phase:%d,t:%s,deny", p, t)), plainTraffic(r, val), fmt.Sprintf("t:%s on %q compared with itself", t, val))
		c.Count("transformations_that_matter", 1)
	}
	// two in a row
	t2 := pick(r, transNames)
	out = refTrans(t2, out)
	c.expect(access+dressed(r, tg, "@rx "+exact(out), fmt.Sprintf("id:1,t:%s,phase:%d,deny,t:%s", t, p, t2)), plainTraffic(r, val), fmt.Sprintf("t:%s,t:%s on %q compared with %q", t, t2, val, out), deny)
}

func featEngine(c *Ctx) {
	r := c.R
	x := plainTraffic(r, "attack")
	p := r.Range(2, 5)
	rule := dressed(r, "REQUEST_HEADERS:X-Val", "@rx attack", fmt.Sprintf("id:1,phase:%d,log,deny,status:%d", p, 406))
	mode := r.Pick("On", "Off", "DetectionOnly", "")
	want, logs := []string{}, 0
	switch mode {
	case "On", "":
		want, logs = []string{fmt.Sprintf("%d:406", p)}, 2
	case "DetectionOnly":
		logs = 1
	}
	text := rule
	if mode != "" {
		text = "SecRuleEngine " + randCase(r, mode) + "\n" + rule
		if r.P(40) {
			text = rule + "SecRuleEngine " + r.Pick("On", "Off", "DetectionOnly") + "\nSecRuleEngine " + mode + "\n"
		}
	}
	c.expect(text, x, "SecRuleEngine "+mode, want...)
	e := c.load(text)
	n := 0
	vs := c.verdicts(e, x)
	for _, v := range vs[1:] {
		n += len(v.Log)
	}
	if n != logs {
		c.Fail("log", "SecRuleEngine %s: %d log entries, must be %d", mode, n, logs)
	}
}

func featReqBody(c *Ctx) {
	r := c.R
	x := plainTraffic(r, "x")
	x.Method = r.Pick("POST", "PUT", "PATCH")
	x.Header["Content-Type"] = []string{urlencodedType}
	x.Body = []byte("w=attack")
	on := r.P(50)
	p := r.Range(3, 5)
	want := []string{}
	if on {
		want = append(want, fmt.Sprintf("%d:403", p))
	}
	c.expect("SecRequestBodyAccess "+randCase(r, onOff(on))+"\n"+dressed(r, r.Pick("ARGS", "ARGS_POST", "ARGS:w", "REQUEST_BODY", "ARGS_POST:w"), "@rx attack", fmt.Sprintf("id:1,phase:%d,deny", p))+r.Pick("", "SecResponseBodyAccess On\n", "SecResponseBodyAccess Off\n"), x, "SecRequestBodyAccess "+onOff(on), want...)
}

func featResBody(c *Ctx) {
	r := c.R
	x := plainTraffic(r, "x")
	x.RBody = []byte("leak: attack")
	on := r.P(50)
	want := []string{}
	if on {
		want = append(want, "5:403")
	}
	c.expect("SecResponseBodyAccess "+randCase(r, onOff(on))+"\n"+dressed(r, "RESPONSE_BODY", "@rx attack", "id:1,phase:5,deny")+r.Pick("", "SecRequestBodyAccess On\n", "SecRequestBodyAccess Off\n"), x, "SecResponseBodyAccess "+onOff(on), want...)
}

func featAllow(c *Ctx, arg string) {
	r := c.R
	x := plainTraffic(r, "v")
	p := r.Range(1, 5)
	tg := "REMOTE_ADDR"
	act := "allow"
	if arg != "" {
		act += ":" + arg
	}
	text := dressed(r, tg, "@rx .", fmt.Sprintf("id:1,phase:%d,%s", p, act))
	var want []string
	for q := 1; q <= 5; q++ {
		text += dressed(r, tg, "@rx .", fmt.Sprintf("id:%d,phase:%d,deny,status:%d", q+1, q, 400+q))
		run := q < p
		switch arg {
		case "phase":
			run = q != p
		case "request":
			run = q < p || q > p && q >= 4
		}
		if run {
			want = append(want, fmt.Sprintf("%d:%d", q, 400+q))
		}
	}
	text += dressed(r, tg, "@rx .", "id:9,phase:logging,deny,status:409")
	want = append(want, "6:409")
	c.expect(text, x, act+" in phase "+strconv.Itoa(p), want...)
}

func featMeta(c *Ctx) {
	r := c.R
	id := r.Range(1, 1000000)
	s := r.From("abc XYZ.-_:", r.Range(1, 12))
	s = strings.TrimSpace(s)
	if s == "" {
		s = "x"
	}
	sev := r.N(8)
	sevText := severities[sev]
	if r.P(30) {
		sevText = strconv.Itoa(sev)
	}
	q := r.Pick("'", "")
	as := []string{"id:" + q + strconv.Itoa(id) + q, "phase:2", "msg:'" + s + "'", "rev:" + q + "2.1" + q, "ver:'OWASP_CRS/3.0'", "severity:" + q + sevText + q, "logdata:'" + s + "'", "tag:'t1'", "tag:'" + s + "'", "pass"}
	shuffle(r, as)
	text := secRule("REMOTE_ADDR", "@rx .", strings.Join(as, ","))
	c.Set("rules", text)
	e := c.load(text)
	if len(e.RuleSet.Phases[2]) != 1 {
		c.Fail("meta", "the rule is not installed in phase 2")
	}
	sr := e.RuleSet.Phases[2][0]
	if sr.Id != id {
		c.Fail("meta", "id is %d", sr.Id)
	}
	for k, v := range map[string]string{"msg": s, "rev": "2.1", "ver": "OWASP_CRS/3.0", "severity": strconv.Itoa(sev), "logdata": s} {
		if got := sr.MetaData[k]; len(got) != 1 || got[0] != v {
			c.Fail("meta", "%s is %q, must be %q", k, got, v)
		}
	}
	if got := sr.MetaData["tag"]; len(got) != 2 || !sameBag(got, []string{"t1", s}) {
		c.Fail("meta", "tags are %q, must be t1 and %q", got, s)
	}
	if d := denials(c.verdicts(e, plainTraffic(r, "v"))); len(d) > 0 {
		c.Fail("meta", "a rule with metadata and pass intercepts: %v", d)
	}
	c.Distinct(text)
}

func featLog(c *Ctx) {
	r := c.R
	val := r.Pick("attack", "harmless")
	x := plainTraffic(r, val)
	p := r.Range(2, 5)
	text := dressed(r, "REQUEST_HEADERS:X-Val", "@rx ^attack$", fmt.Sprintf("id:7,phase:%d,log", p))
	c.Set("rules", text)
	e := c.load(text)
	vs := c.verdicts(e, x)
	for q := 1; q <= 6; q++ {
		want := 0
		if q == p && val == "attack" {
			want = 1
			c.Distinct(text, x.String())
		}
		if len(vs[q].Log) != want || vs[q].Disruptive {
			c.Fail("log", "phase %d: log %q disruptive %v, must be %d entries", q, vs[q].Log, vs[q].Disruptive, want)
		}
	}
}

func featDeny(c *Ctx) {
	r := c.R
	p := r.Range(1, 5)
	as := []string{"id:1", fmt.Sprintf("phase:%d", p), "deny"}
	st := 403
	if r.P(70) {
		n := r.PickInt(100, 599, 404, 99, 600, 0, 200, 302, 503, r.Range(0, 700))
		as = append(as, fmt.Sprintf("status:%s%d%s", "", n, ""))
		if n >= 100 && n <= 599 {
			st = n
		}
	}
	shuffle(r, as)
	hit := r.P(70)
	var want []string
	op := "@rx ^nothing$"
	if hit {
		want, op = []string{fmt.Sprintf("%d:%d", p, st)}, "@rx ."
	}
	c.expect(dressed(r, "REMOTE_ADDR", op, strings.Join(as, ","))+dressed(r, "REMOTE_ADDR", "@rx .", fmt.Sprintf("id:2,phase:%d,status:499", p)), plainTraffic(r, "v"), "deny", want...)
}

func featBlock(c *Ctx) {
	r := c.R
	p := r.Range(1, 5)
	text := dressed(r, "REMOTE_ADDR", "@rx .", fmt.Sprintf("id:1,phase:%d,block", p))
	c.Set("rules", text)
	e := c.load(text)
	var want []string
	switch r.N(4) {
	case 0:
		e.RuleSet.AddDefaultActions(actions.NewActionDeny())
		want = []string{fmt.Sprintf("%d:403", p)}
	case 1:
		e.RuleSet.AddDefaultActions(actions.NewActionDeny(), actions.NewActionStatus(451))
		want = []string{fmt.Sprintf("%d:451", p)}
	case 2:
		e.RuleSet.AddDefaultActions(actions.NewActionPass(), actions.NewActionLog())
	}
	if got := denials(c.verdicts(e, plainTraffic(r, "v"))); !sameList(got, want) {
		c.Fail("effect", "block: interceptions phase:status %v, must be %v", got, want)
	}
	c.Distinct(text, want)
}

func featPass(c *Ctx) {
	r := c.R
	p := r.Range(1, 5)
	c.expect(dressed(r, "REMOTE_ADDR", "@rx .", fmt.Sprintf("id:1,phase:%d,pass", p))+dressed(r, "REMOTE_ADDR", "@rx .", fmt.Sprintf("id:2,phase:%d,deny,status:410", p)), plainTraffic(r, "v"), "pass before deny", fmt.Sprintf("%d:410", p))
	// it cancels a pending interception: default actions that deny, then pass
	text := dressed(r, "REMOTE_ADDR", "@rx .", fmt.Sprintf("id:1,phase:%d,block,pass", p)) + dressed(r, "REMOTE_ADDR", "@rx .", fmt.Sprintf("id:2,phase:%d,log", p))
	c.Set("rules", text)
	e := c.load(text)
	e.RuleSet.AddDefaultActions(actions.NewActionDeny())
	vs := c.verdicts(e, plainTraffic(r, "v"))
	if d := denials(vs); len(d) > 0 {
		c.Fail("effect", "block,pass with deny as default action intercepts: %v", d)
	}
	if len(vs[p].Log) != 2 {
		c.Fail("effect", "block,pass: the log is %q, must be that of deny and that of the next rule", vs[p].Log)
	}
}

func featSkip(c *Ctx) {
	r := c.R
	p := r.Range(1, 5)
	n := r.N(5)
	act := "skip"
	if n > 0 {
		act += ":" + strconv.Itoa(n)
	} else {
		n = 1
	}
	m := r.Range(1, 6)
	text := dressed(r, "REMOTE_ADDR", "@rx .", fmt.Sprintf("id:1,phase:%d,%s", p, act))
	for i := 0; i < m; i++ {
		if r.P(20) { // a chain counts as one rule
			text += dressed(r, "REMOTE_ADDR", "@rx .", fmt.Sprintf("id:%d,phase:%d,deny,status:%d,chain", i+2, p, 400+i)) + dressed(r, "REMOTE_ADDR", "@rx .", "t:none")
		} else {
			text += dressed(r, "REMOTE_ADDR", "@rx .", fmt.Sprintf("id:%d,phase:%d,deny,status:%d", i+2, p, 400+i))
		}
		if r.P(30) {
			text += "SecRequestBodyAccess On\n"
		}
	}
	var want []string
	if n < m {
		want = append(want, fmt.Sprintf("%d:%d", p, 400+n))
	}
	if p < 5 && r.P(50) { // rules of later phases are not skipped
		text += dressed(r, "REMOTE_ADDR", "@rx .", fmt.Sprintf("id:99,phase:%d,deny,status:499", p+1))
		want = append(want, fmt.Sprintf("%d:499", p+1))
	}
	c.expect(text, plainTraffic(r, "v"), act, want...)
}

func featChain(c *Ctx) {
	r := c.R
	p := r.Range(2, 5)
	n := r.Range(2, 5)
	all := true
	text := ""
	for i := 0; i < n; i++ {
		hit := r.P(80)
		all = all && hit
		op := "@rx ^v"
		if !hit {
			op = "@rx ^w"
		}
		as := []string{}
		if i == 0 {
			as = append(as, "id:1", fmt.Sprintf("phase:%d", p), "deny")
		}
		if i == n-1 && r.P(50) {
			as = append(as, "status:404")
		}
		if i < n-1 {
			as = append(as, "chain")
		}
		if len(as) == 0 {
			as = append(as, "t:none")
		}
		text += dressed(r, "REQUEST_HEADERS:X-Val", op, strings.Join(as, ","))
	}
	var want []string
	if all {
		want = []string{fmt.Sprintf("%d:403", p)}
		if strings.Contains(text, "status:404") {
			// which of the two statuses the starter's deny sees is C05's matter
			e := c.load(text)
			d := denials(c.verdicts(e, plainTraffic(r, "v")))
			if len(d) != 1 || !strings.HasPrefix(d[0], fmt.Sprintf("%d:", p)) {
				c.Set("rules", text)
				c.Fail("effect", "a chain whose links all match: interceptions %v", d)
			}
			return
		}
	}
	c.expect(text, plainTraffic(r, "v"), "chain", want...)
}

func featPhase(c *Ctx) {
	r := c.R
	names := []string{"1", "2", "3", "4", "5", "request", "response", "logging", ""}
	stage := map[string]int{"1": 1, "2": 2, "3": 3, "4": 4, "5": 5, "request": 3, "response": 5, "logging": 6, "": 2}
	n := pick(r, names)
	as := "id:1,deny,status:444"
	if n != "" {
		as += ",phase:" + r.Pick(n, "'"+n+"'")
	}
	c.expect(dressed(r, "REMOTE_ADDR", "@rx .", as), plainTraffic(r, "v"), "phase:"+n, fmt.Sprintf("%d:444", stage[n]))
}

var unlistedNames = map[string][]string{
	"dir": {"SecAction", "SecMarker", "SecDefaultAction", "SecAuditLog", "SecRules", "SecRul", "SecRuleEngin", "SecRequestBodyLimit", "SecRequestBody", "SecComponentSignature", "Include", "SecRuleRemoveById", "SecResponseBodyLimit", "SecUnicodeMap"},
	"var": {"FILES", "TX", "ENV", "GEO", "IP", "MATCHED_VAR", "REQUEST_LINE", "REMOTE_HOST", "REMOTE_PORT", "SERVER_NAME", "ARGS_", "ARG", "ARGSS", "REQUEST_HEADER", "REQUEST_COOKIE", "RESPONSE_HEADER", "REQUEST_URI_RAW", "REQUEST_BODY_LENGTH", "FILES_NAMES", "DURATION", "UNIQUE_ID", "TIME", "SESSION", "RULE", "REQUEST"},
	"op":  {"pm", "contains", "streq", "beginsWith", "endsWith", "within", "ipMatch", "detectSQLi", "validateByteRange", "rxx", "r", "eqq", "ne", "e", "unconditionalMatch", "pmFromFile", "rbl"},
	"act": {"drop", "redirect", "proxy", "exec", "nolog", "auditlog", "noauditlog", "ctl", "expirevar", "initcol", "multiMatch", "xmlns", "append", "pause", "skipAfter", "maturity", "accuracy", "denyy", "den", "logs", "ids", "deprecatevar"},
	"t":   {"base64Decode", "hexDecode", "htmlEntityDecode", "jsDecode", "length", "md5", "sha1", "normalizePath", "trim", "uppercase", "cmdLine", "cssDecode", "urlDecod", "urlDecodeUn", "lowercas", "removeNull", "compressWhitespaces", "removeComments", "utf8toUnicode"},
}

func featUnlisted(c *Ctx) {
	r := c.R
	kind := r.Pick("dir", "var", "op", "act", "t")
	name := pick(r, unlistedNames[kind])
	if r.P(30) {
		name = "zq" + r.From("abcdefgh", r.Range(1, 8))
	}
	text := ""
	switch kind {
	case "dir":
		text = name + r.Pick(" On\n", " \"phase:1,deny\"\n", " ARGS \"@rx a\" \"id:1\"\n")
	case "var":
		text = secRule(r.Pick("", "ARGS|", "&", "REMOTE_ADDR|!")+name+r.Pick("", ":a"), "@rx .", "id:1,phase:1,deny")
	case "op":
		text = secRule("REMOTE_ADDR", r.Pick("", "!")+"@"+name+r.Pick("", " 1"), "id:1,phase:1,deny")
	case "act":
		text = secRule("REMOTE_ADDR", "@rx .", "id:1,"+name+r.Pick("", ":1")+",phase:1,deny")
	case "t":
		text = secRule("REMOTE_ADDR", "@rx .", "id:1,phase:1,t:none,t:"+name+",deny")
	}
	c.Set("rules", text)
	if _, err := seclang.NewDireSetFromSecLangString(text); err == nil {
		c.Fail("unlisted", "the unsupported name %s was accepted", name)
	}
	c.Distinct(text)
	c.Count("unlisted_names_refused", 1)
}

func featReadme(c *Ctx) {
	r := c.R
	nl := r.Pick("\n", "\r\n", "\n")
	rule := strings.Replace("SecRuleEngine On\n             SecRule REQUEST_URI '@rx cmd' \\\n                        \"id:123,\\\n                         phase:2,\\\n                         t:lowercase,\\\n                         deny\"", "\n", nl, -1)
	c.Set("rules", rule)
	e := c.load(rule)
	for _, q := range []string{"?=\"a';CMD echo '1\"", "?=\"a';C%4dD echo '1\"", "?a=" + r.From("xyz", 4)} {
		u, err := url.Parse("/search" + q)
		if err != nil {
			continue
		}
		ts := c.tx(e)
		ts.ProcessConnection("127.0.0.1", "12345", "127.0.0.1", "80")
		if ts.Result().Disruptive {
			c.Fail("readme", "the README's rule intercepts the connection")
		}
		ts.ProcessRequestURL(u, "GET", "HTTP/1.1")
		ts.ProcessRequestHeader(nil)
		i := ts.Result()
		want := strings.Contains(strings.ToLower(u.RequestURI()), "cmd")
		if i.Disruptive != want || want && (i.Status != 403 || len(i.Log) != 1 || !strings.Contains(i.Log[0], "Access denied with code 403") || !strings.Contains(i.Log[0], "127.0.0.1:12345")) {
			c.Fail("readme", "the README's rule on %q gives %+v", q, *i)
		}
		closeTx(ts)
	}
	// rules built with Go
	g := c.newEngine()
	g.Enable(ms.StatusOn)
	rs := ms.NewSecRuleSet()
	sr := &ms.SecRule{Phase: ms.PhaseRequestHeaders}
	sr.AppendVariables(variables.NewVariableRequestURI())
	op, err := operators.NewOperatorRx("select")
	if err != nil {
		c.Fail("readme", "%v", err)
	}
	sr.SetOperator(op)
	sr.AppendActions(actions.NewActionDeny())
	rs.AddRules(sr)
	ts, err := ms.NewTransaction(g, rs)
	if err != nil {
		c.Fail("readme", "%v", err)
	}
	ts.ProcessConnection("127.0.0.1", "12345", "127.0.0.1", "80")
	u, _ := url.Parse("/search?=\"a';select '1\"")
	ts.ProcessRequestURL(u, "GET", "HTTP/1.1")
	ts.ProcessRequestHeader(nil)
	if i := ts.Result(); !i.Disruptive || i.Status != 403 || len(i.Log) != 1 {
		c.Fail("readme", "the README's rule built with Go gives %+v", *i)
	}
	closeTx(ts)
	c.Distinct(nl)
}

// featBackslash: expressions with backslashes, as ModSecurity's users write them.
func featBackslash(c *Ctx) {
	r := c.R
	cl := r.Pick("\\d", "\\w", "\\s", "\\.", "\\(", "\\S", "\\W", "\\D", "\\[", "\\*")
	re := "^x" + cl + "$"
	for _, s := range []string{"x5", "xd", "xw", "x ", "xs", "x.", "x(", "x[", "x*", "x!"} {
		want := compiled(re).MatchString(s)
		// written with the backslash doubled, the expression means what it says
		for _, doubled := range []bool{true, false} {
			w := re
			if doubled {
				w = strings.Replace(re, "\\", "\\\\", -1)
			}
			text := "SecRule REQUEST_HEADERS:X-Val \"@rx " + w + "\" \"id:1,phase:2,deny\"\n"
			c.Set("rules", text)
			c.Set("value", s)
			ds, err := seclang.NewDireSetFromSecLangString(text)
			if err != nil {
				key := "backslash-refused"
				if !doubled && strings.ContainsAny(cl, "([*") { // the bare character is no expression, or another one
					key = "rx-backslash"
				}
				c.Report(key, "@rx %s was refused: %v", w, err)
				continue
			}
			e := c.newEngine()
			if err := ds.Execute(e); err != nil {
				c.Fail("execute", "%v", err)
			}
			got := len(denials(c.verdicts(e, plainTraffic(r, s)))) > 0
			if got == want {
				continue
			}
			key := "backslash"
			if eaten := strings.Replace(re, "\\", "", -1); !doubled && validRe(eaten) && got == compiled(eaten).MatchString(s) {
				key = "rx-backslash"
			}
			c.Report(key, "@rx %s on %q gives %v, must be %v", w, s, got, want)
		}
	}
	c.Distinct(re)
}

func validRe(s string) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	compiled(s)
	return true
}

// featUnimplemented: names the README lists.
func featUnimplemented(c *Ctx) {
	for key, text := range map[string]string{
		"readme-XML":     secRule("XML:/*", "@rx .", "id:1,phase:2,deny"),
		"readme-setvar":  secRule("REMOTE_ADDR", "@rx .", "id:1,phase:2,setvar:'tx.score=1',pass"),
		"readme-capture": secRule("REMOTE_ADDR", "@rx (.)", "id:1,phase:2,capture,pass"),
	} {
		if _, err := seclang.NewDireSetFromSecLangString(text); err != nil {
			c.Set("rules", text)
			c.Report(key, "a feature the README lists is refused: %v", err)
		}
	}
}
