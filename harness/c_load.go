package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"
	"github.com/senghoo/modsecurity-go/seclang/parser"
)

func init() {
	register(&Prop{ID: "C14", Quick: 1500000, Thorough: 20000000, Run: runC14,
		Rule: "mutations, truncations and splices of random configurations, random token soup, random bytes and large repetitive texts, loaded, applied and run with hostile traffic when accepted; non-trivial: every distinct text"})
	register(&Prop{ID: "C15", Quick: 120000, Thorough: 4000000, Run: runC15,
		Rule: "random configurations written in random layouts; what is installed is compared with what was meant, in structure and in the values the targets select on random traffic, and between layouts; mutated texts that are accepted install every rule; non-trivial: at least one rule"})
	register(&Prop{ID: "C16", Quick: 20000, Thorough: 600000, Run: runC16, Level: "fault_enumeration",
		Rule: "an invalid directive or chain at every index of random configurations, read errors at every offset, every kind of reader, sequences of additions with failures between, repeated application; non-trivial: every distinct text"})
}

// ---- C14 ----------------------------------------------------------------

var soup = []string{"SecRule", "SecRuleEngine", "SecRequestBodyAccess", "SecResponseBodyAccess", "secrule", "ARGS", "ARGS:a", "&ARGS", "!ARGS:a", "ARGS:/", "ARGS://", "ARGS:/(/", "REQUEST_HEADERS:X", "XML", "XML:/*",
	"\"", "'", "\\", "\\\"", "\\'", "\\\n", "\\\r\n", "\\\r", "\n", "\r", "\r\n", " ", "\t", "\v", "\f", "\x00", "\xff", "|", ",", ":", "!", "&", "@", "/", "#", "# comment\n",
	"\"@rx a\"", "@rx", "\"@eq 1\"", "@eq", "\"!@gt 0\"", "\"@rx (\"", "\"@eq x\"", "\"@pm a\"", "!", "\"\"", "''",
	"\"id:1\"", "id:", "id:x", "id:99999999999999999999", "phase:", "phase:0", "phase:9", "phase:-1", "phase:request", "phase:response", "phase:logging", "phase:foo", "t:", "t:none", "t:foo", "chain", "deny", "allow:", "allow:x", "skip:", "skip:0", "skip:-1", "skip:99999999", "skip:x", "status:", "status:-5", "status:x", "msg:", "msg:'", "msg:''", "msg:'a','b'", "severity:", "severity:9", "severity:FOO", "log", "block", "pass", "setvar:tx.a=1", "capture", "logdata:%{ARGS}", "On", "Off", "DetectionOnly", "Maybe", "\"deny,", "deny\""}

func mutate(r *Rand, s string) string {
	b := []byte(s)
	for n := r.Range(1, 4); n > 0; n-- {
		i := r.N(len(b) + 1)
		j := i + r.N(1+len(b)-i)
		if r.P(70) && j > i+8 {
			j = i + r.N(8)
		}
		switch r.N(9) {
		case 0:
			b = b[:i]
		case 1:
			b = append(append([]byte{}, b[:i]...), b[j:]...)
		case 2:
			b = append(append(append([]byte{}, b[:i]...), pick(r, soup)...), b[i:]...)
		case 3:
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		case 4:
			if i < len(b) {
				b[i] = byte(r.u64())
			}
		case 5:
			if i < len(b) {
				b[i] = pick(r, dict.bytes)
			}
		case 6:
			b = append(append(append([]byte{}, b[:i]...), pick(r, dict.strs)...), b[i:]...)
		case 7:
			b = append(append(append([]byte{}, b[:i]...), r.Pick("\\", "\"", "'", "\n", "\\\n", ",", ":", " ", "\x00")...), b[i:]...)
		case 8: // replace one kind of character by another everywhere
			from, to := pick(r, []byte("\"'\\\n,: |@")), pick(r, []byte("\"'\\\n,: |@\x00"))
			b = bytes.Replace(b, []byte{from}, []byte{to}, r.PickInt(-1, 1, 2))
		}
		if len(b) > 1<<20 {
			b = b[:1<<20]
		}
	}
	return string(b)
}

func genText(r *Rand) string {
	switch r.N(12) {
	case 0:
		return string(r.Bytes(r.N(200)))
	case 1, 2:
		var b strings.Builder
		for n := r.Range(1, 40); n > 0; n-- {
			b.WriteString(pick(r, soup))
			if r.P(60) {
				b.WriteString(r.Pick(" ", " ", "\n", "\t", ","))
			}
		}
		return b.String()
	case 3:
		n := r.Range(1, 60000)
		if r.P(90) {
			n = r.Range(1, 3000)
		}
		unit := pick(r, soup) + pick(r, soup)
		if len(unit) == 0 {
			unit = "a"
		}
		if r.N(2000) == 0 { // millions of the same
			unit := r.Pick("\n", "\n", "\r\n", "\r", " ", "\t", "\x00", "\\\n", "\\", "a", "\"", "'", "''", "(", "[", "@", "!", "|", ",", ":", "/", "t:none,", "log,", "ARGS|", "ARGS:a|", "&ARGS|", "SecRule", "SecRuleEngine On\n", pick(r, soup))
			if unit == "" {
				unit = "a"
			}
			return r.Pick("", "", "SecRuleEngine On\n", "SecRuleEngine ", "SecRule ", "SecRule \"", "SecRule ARGS ", "SecRule ARGS \"@rx ", "SecRule ARGS \"@rx a\" ", "SecRule ARGS \"@rx a\" \"", "SecRule ARGS \"@rx a\" \"id:1,msg:'", "SecRule \"ARGS:/") +
				strings.Repeat(unit, r.Range(2000000, 6000000)/(1+len(unit)/2)) + r.Pick("", "\n", "\"", "'", "\"\n", "deny\" \n", "a\"")
		}
		if r.P(4) { // very many lines
			line := r.Pick("\n", "\n", "\r\n", "\r", " \n", "SecRuleEngine On\n", "SecRule ARGS \"@rx a\" \\\n\"id:1\"\n", "\\\n")
			return genConfig(r, 2).canonical() + strings.Repeat(line, bigN(r, 20000)) + r.Pick("", "SecRuleEngine Off", "SecRule ARGS a deny", "x", "\"", "\\", "SecRule ARGS \"@rx a")
		}
		if r.P(30) {
			return genConfig(r, 2).canonical() + genBad(r)
		}
		return r.Pick("", "SecRule ", "SecRule ARGS ", "SecRule ARGS \"@rx a\" \"", "SecRule \"ARGS", "SecRule ARGS \"@rx ", "SecRule ARGS \"@rx a\" \"id:1,msg:'", "SecRuleEngine ") + strings.Repeat(unit, n/len(unit)+1) + r.Pick("", "\"", "\" \"@rx a\" \"deny\"\n", "'\"\n", "\n")
	}
	cfg := genConfig(r, 4)
	y := &layouter{r: r, nl: genNL(r)}
	s := y.write(cfg)
	if r.P(10) {
		return s
	}
	if r.P(20) {
		o := genConfig(r, 2)
		z := &layouter{r: r, nl: genNL(r)}
		t := z.write(o)
		s = s[:r.N(len(s)+1)] + t[r.N(len(t)+1):]
	}
	return mutate(r, s)
}

func runC14(c *Ctx) {
	r := c.R
	text := genText(r)
	c.Set("text", text)
	c.Distinct(text)
	c.Max("text_bytes", len(text))
	ds := seclang.NewDireSet()
	err := ds.AddSecLangString(text)
	if r.P(30) { // any sequence of additions
		t2 := genText(r)
		c.Set("second_text", t2)
		if ds.AddSecLangString(t2) == nil {
			c.Count("accepted", 1)
		}
	}
	if err != nil {
		c.Count("refused", 1)
		if err.Error() == "" {
			c.Count("refused_without_message", 1)
		}
		if r.P(80) {
			return
		}
	} else {
		c.Count("accepted", 1)
	}
	e := c.newEngine()
	if err := ds.Execute(e); err != nil {
		if r.P(99) {
			c.Fail("execute", "a configuration that was loaded cannot be applied: %v", err)
		}
	}
	for i := 0; i < 2; i++ {
		t := c.tx(e)
		t.ProcessConnection("127.0.0.1", "1", "127.0.0.1", "80")
		t.ProcessRequestURL(hostileURL(r), r.Pick("GET", "POST"), "HTTP/1.1")
		h := hostileHeader(r)
		t.ProcessRequestHeader(h)
		t.AppendRequestBody(hostileBody(r))
		t.ProcessRequestBody()
		t.ProcessResponseHeaders(200, "HTTP/1.1", hostileHeader(r))
		t.AppendResponseBody(hostileBody(r))
		t.ProcessResponseBody()
		t.ProcessLogging()
		if t.Result() == nil {
			c.Fail("no-result", "no result can be collected")
		}
		closeTx(t)
		c.Count("transactions", 1)
	}
	for _, rs := range e.RuleSet.Phases {
		c.Count("rules_run", len(rs))
	}
	c.Eval(1)
	c.Sample(shorten(text, 400))
}

// ---- C15 ----------------------------------------------------------------

func runC15(c *Ctx) {
	r := c.R
	if c.I%5 == 4 {
		c15Installed(c)
		return
	}
	var cfg Config
	max := r.PickInt(1, 2, 6)
	if c.I%600 == 1 {
		max = bigN(r, 300)
	}
	for {
		if cfg = genConfig(r, max); cfg.usable() {
			break
		}
	}
	plain := cfg.canonical()
	c.Set("canonical", plain)
	tr := c.seen(cfg.rules(), 1)
	defer closeSeen(tr)
	c.Set("text", plain)
	e0 := c.load(plain)
	c.checkEngine(e0, tr, cfg)
	p0, err := parser.NewSecLangScannerFromString(plain).AllDirective()
	if err != nil {
		c.Fail("parser", "the parser refuses a text that loads: %v", err)
	}
	for k := 0; k < 3; k++ {
		y := &layouter{r: r, nl: genNL(r)}
		text := y.write(cfg)
		c.Set("text", text)
		e := c.load(text)
		c.checkEngine(e, tr, cfg)
		_ = p0
		if len(cfg.rules()) > 0 {
			c.Distinct(text)
		}
		c.Count("layouts", 1)
		c.Count("line_continuations", strings.Count(text, "\\\n")+strings.Count(text, "\\\r"))
		c.Eval(1)
		if k == 0 && r.P(10) {
			c.Sample(shorten(text, 700))
		}
	}
	// equal layouts of one configuration behave alike
	if r.P(30) {
		y := &layouter{r: r, nl: genNL(r)}
		text := y.write(cfg)
		c.Set("text", text)
		e := c.load(text)
		x := genTraffic(r, &tprofile{wild: 5, maxLen: 5000})
		c.Set("traffic", x.String())
		var res [2]string
		for i, g := range []*ms.Engine{e0, e} {
			t := c.tx(g)
			for _, v := range x.play(c, t, true) {
				res[i] += fmt.Sprintf("%d %v %q;", v.Status, v.Disruptive, v.Log)
			}
			closeTx(t)
		}
		if res[0] != res[1] {
			c.Fail("behaviour", "two layouts of one configuration give %s and %s", res[0], res[1])
		}
		c.Count("behaviours_compared", 1)
	}
}

// c15Installed checks that whatever is accepted is installed.
func c15Installed(c *Ctx) {
	r := c.R
	text := genText(r)
	c.Set("text", text)
	ds := seclang.NewDireSet()
	if ds.AddSecLangString(text) != nil {
		return
	}
	dirs, err := parser.NewSecLangScannerFromString(text).AllDirective()
	if err != nil {
		c.Fail("parser", "the parser refuses a text that loads: %v", err)
	}
	want, ids := 0, []int{}
	for _, d := range dirs {
		if x, ok := d.(*parser.RuleDirective); ok {
			want++
			ids = append(ids, x.Actions.Id)
		}
	}
	e := c.newEngine()
	if err := ds.Execute(e); err != nil {
		c.Fail("execute", "a configuration that was loaded cannot be applied: %v", err)
	}
	got := 0
	for p, rs := range e.RuleSet.Phases {
		for _, sr := range rs {
			got += len(allLinks(sr))
			if p < 1 || p > 6 || sr.Phase != p {
				c.Fail("phase", "rule %d was accepted but is in phase %d, which does not run it", sr.Id, p)
			}
		}
	}
	if got != want {
		c.Fail("installed", "%d rules %v were accepted, %d are installed", want, ids, got)
	}
	c.Count("accepted_mutants", 1)
	c.Count("accepted_mutant_rules", got)
	if want > 0 {
		c.Distinct(text)
	}
}

// ---- C16 ----------------------------------------------------------------

// badDirs are directives that must be refused, wherever they stand.
var badDirs = []string{
	"SecFoo On", "SecRul ARGS \"@rx a\" \"id:1\"", "SecRuleEngine Maybe", "SecRuleEngine \"\"", "SecRequestBodyAccess DetectionOnly", "SecResponseBodyAccess 1", "SecRequestBodyAccess Onn", "SecRuleEngine xOn",
	"SecRule FOO \"@rx a\" \"id:1\"", "SecRule \"ARGS|FOO\" \"@rx a\" \"id:1\"", "SecRule args \"@rx a\" \"id:1\"", "SecRule XML \"@rx a\" \"id:1\"", "SecRule \"!XML:a\" \"@rx a\" \"id:1\"", "SecRule \"ARGS|!XML:/a/\" \"@rx a\" \"id:1\"", "SecRule \"&XML\" \"@eq 0\" \"id:1\"", "SecRule \"XML:a|ARGS\" \"@rx a\" \"id:1\"", "SecRule \"\" \"@rx a\" \"id:1\"", "SecRule \"ARGS||ARGS\" \"@rx a\" \"id:1\"", "SecRule \"ARGS:/(/\" \"@rx a\" \"id:1\"", "SecRule \"!ARGS:/[/\" \"@rx a\" \"id:1\"", "SecRule \"&ARGS:/*/\" \"@eq 1\" \"id:1\"", "SecRule \"ARGS|ARGS:/(/\" \"@rx a\" \"id:1\"",
	"SecRule ARGS \"@foo a\" \"id:1\"", "SecRule ARGS \"@rx (\" \"id:1\"", "SecRule ARGS \"(\" \"id:1\"", "SecRule ARGS \"!@rx [\" \"id:1\"", "SecRule ARGS \"@eq x\" \"id:1\"", "SecRule ARGS \"@lt\" \"id:1\"", "SecRule ARGS \"\" \"id:1\"", "SecRule ARGS \"!\" \"id:1\"", "SecRule ARGS \"@\" \"id:1\"",
	"SecRule ARGS \"@rx a\" \"id:x\"", "SecRule ARGS \"@rx a\" \"id:\"", "SecRule ARGS \"@rx a\" \"id:1,phase:0\"", "SecRule ARGS \"@rx a\" \"id:1,phase:6\"", "SecRule ARGS \"@rx a\" \"id:1,phase:-1\"", "SecRule ARGS \"@rx a\" \"id:1,phase:foo\"", "SecRule ARGS \"@rx a\" \"id:1,foo\"", "SecRule ARGS \"@rx a\" \"id:1,foo:bar\"", "SecRule ARGS \"@rx a\" \"id:1,t:foo\"", "SecRule ARGS \"@rx a\" \"id:1,t:\"",
	"SecRule ARGS \"@rx a\" \"id:1,status:x\"", "SecRule ARGS \"@rx a\" \"id:1,skip:x\"", "SecRule ARGS \"@rx a\" \"id:1,skip:0\"", "SecRule ARGS \"@rx a\" \"id:1,severity:9\"", "SecRule ARGS \"@rx a\" \"id:1,severity:FOO\"", "SecRule ARGS \"@rx a\" \"id:1,,deny\"", "SecRule ARGS \"@rx a\" \"id:1,\"", "SecRule ARGS \"@rx a\" \",id:1\"", "SecRule ARGS \"@rx a\" \"id:1,msg:'a\"", "SecRule ARGS \"@rx a\" \"\"", "SecRule ARGS \"@rx a\"", "SecRule ARGS", "SecRule",
	"SecRule ARGS \"@rx a\" \"id:1,\\\n\nlog\"", "SecRule ARGS \"@rx a\\\n\n\" \"id:1\"", "SecRule ARGS \"@rx a\nb\" \"id:1\"", "SecRule \"ARGS|\nARGS\" \"@rx a\" \"id:1\"", "SecRule ARGS \"@rx a\" \"id:1,\r\nlog\"", "SecRule ARGS \"@rx a\" \"id:1,\\\n\\\n\nlog\"",
	"SecRule ARGS \"@rx a", "SecRule ARGS \"@rx a\" \"id:1", "SecRule \"ARGS", "garbage", "# no comments", "{}", "\"SecRule\" ARGS \"@rx a\" \"id:1\"",
	"SecRule ARGS \"@rx a\" \"id:1,chain\"\nSecRule FOO \"@rx a\" \"deny\"", "SecRule ARGS \"@rx a\" \"id:1,chain\"\nSecRule ARGS \"@rx (\" \"deny\"",
}

var (
	knownOps   = []string{"rx", "eq", "gt", "ge", "lt", "le"}
	knownActs  = []string{"id", "phase", "t", "chain", "allow", "block", "deny", "pass", "log", "status", "skip", "msg", "severity", "tag", "logdata", "rev", "ver", "maturity", "accuracy", "auditlog", "noauditlog", "nolog", "capture", "drop", "redirect", "proxy", "pause", "exec", "append", "prepend", "ctl", "setvar", "expirevar", "deprecatevar", "initcol", "setenv", "setsid", "setuid", "setrsc", "skipAfter", "multiMatch", "sanitiseArg", "sanitiseMatched", "sanitiseMatchedBytes", "sanitiseRequestHeader", "sanitiseResponseHeader", "xmlns"}
	knownTrans = []string{"none", "lowercase", "urlDecode", "urlDecodeUni", "removeWhitespace", "compressWhitespace", "removeNulls", "replaceNulls", "uppercase", "trim", "trimLeft", "trimRight"}
	knownSev   = []string{"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG"}
	knownDirs  = []string{"SecRule", "SecRuleEngine", "SecRequestBodyAccess", "SecResponseBodyAccess", "SecRuleEngine"}
	knownPhase = []string{"request", "response", "logging"}
)

// miss is a word that is almost one of the known ones and none of them in any
// letter case.
func miss(r *Rand, known ...string) string {
	for {
		s := pick(r, known)
		for n := r.Range(1, 2); n > 0; n-- {
			s = near(r, s)
		}
		if r.P(10) {
			s = word1(r)
		}
		s = strings.Trim(s, "[]@ ")
		ok := s != ""
		for _, k := range known {
			ok = ok && !strings.EqualFold(s, k)
		}
		if ok {
			return s
		}
	}
}

// badExpr is an invalid regular expression of any length, also after flags.
func badExpr(r *Rand) string {
	for {
		s := r.From("abcxyz019.^$-= ", r.PickInt(r.N(4), r.N(12), r.N(40), bigN(r, 600)))
		bad := r.Pick("(", ")", "[", "a**", "(?", "(?<n", "[z-a]", "*a", "+", "a{2,1}", "[[:foo:]]", "(?P<n>a)(?P<n>b)", "a{1001}", "(()", "[a", "?", "(a**)", "(", "([)", "(?i", "(?i)*", "\\y", "\\8", "[\\z]", "\\p{Nope}", "\\xzz", "\\x{110000}", "a\\", "\\", "(?z)", "(?=a)", "(?P<>a)", "(?P<n", "(?#a)", "\xff", "a\xc3", "[a\xe9]", "(?i)\\Q\\y\\E[", "a{2}{3}**", "[^", "[]",
			"((a{100}){100}){100}", "(((x{9}){99}){999})", "((((((a{9}){9}){9}){9}){9}){9}){9}", strings.Repeat("(", 1001)+strings.Repeat(")", 1001), strings.Repeat("(?:a", 1500)+strings.Repeat(")", 1500), strings.Repeat("(", bigN(r, 1500)+1))
		bad = strings.Replace(bad, ",", "", -1)
		i := r.N(len(s) + 1)
		s = s[:i] + bad + s[i:]
		_, err1 := regexp.Compile(s)
		_, err2 := regexp.Compile("(?i)" + s)
		if err1 != nil && err2 != nil {
			return s
		}
	}
}

func badInt(r *Rand) string {
	n := strconv.Itoa(r.N(700))
	return r.Pick(n+"x", "x"+n, "0x"+n, n+".5", n+"e3", "--"+n, "+-"+n, n+"_000", n+"-", word1(r), "#"+n, n+"%", n+";", "~"+n, n+"/1", n+"\x00")
}

// genBad makes a rule, a chain or a directive with one mistake somewhere.
func genBad(r *Rand) string {
	if r.P(12) {
		if r.P(50) {
			return miss(r, knownDirs...) + " " + r.Pick("On", "Off", "ARGS \"@rx a\" \"id:1\"")
		}
		d := pick(r, knownDirs[1:])
		args := []string{"On", "Off"}
		if d == "SecRuleEngine" {
			args = append(args, "DetectionOnly")
		}
		return d + " " + miss(r, args...)
	}
	var rule *Rule
	for rule == nil {
		if cfg := genConfig(r, 3); cfg.usable() && len(cfg.rules()) > 0 {
			rule = pick(r, cfg.rules())
		}
	}
	links := append([]*Rule{rule}, rule.Links...)
	at := r.N(len(links))
	insert := func(l []string, s string) []string {
		i := r.N(len(l) + 1)
		return append(append(append([]string{}, l[:i]...), s), l[i:]...)
	}
	var b strings.Builder
	for i, l := range links {
		var sels []string
		for _, x := range l.Sels {
			sels = append(sels, x.String())
		}
		op := l.operator()
		acts := l.actions(i < len(links)-1)
		if i == at {
			switch r.N(10) {
			case 0, 1, 2: // no such variable
				s := miss(r, append([]string{"XML"}, allVars...)...)
				if r.P(10) { // known by name only
					s = "XML"
				}
				switch r.N(6) {
				case 0:
					s += ":" + genKey(r, "ARGS")
				case 1:
					s = r.Pick("!", "&") + s + ":" + genKey(r, "ARGS")
				case 2:
					s = "&" + s
				}
				switch r.N(20) {
				case 0, 1: // nothing at all
					sels = insert(sels, "")
					if len(sels) == 1 {
						sels = append(sels, "")
					}
				case 2:
					sels = insert(sels, r.Pick("!!", "&&", "!&", "&!", ":a", ".a", "/", "|", ",")+pick(r, collVars))
				default:
					sels = insert(sels, s)
				}
			case 3, 4: // no such expression
				sels = insert(sels, r.Pick("", "", "!", "&")+pick(r, collVars)+":/"+badExpr(r)+"/")
			case 5:
				op = r.Pick("", "!") + "@rx " + badExpr(r)
			case 6:
				op = r.Pick("", "!") + "@" + miss(r, knownOps...) + " " + r.Pick("1", "a", l.Arg)
			case 7:
				op = r.Pick("", "!") + "@" + pick(r, knownOps[1:]) + " " + badInt(r)
			default:
				var a string
				switch r.N(8) {
				case 0:
					a = miss(r, knownActs...)
				case 1:
					a = miss(r, knownActs...) + ":" + r.Pick("1", "a", "'a'")
				case 2:
					a = "t:" + miss(r, knownTrans...)
				case 3:
					a = r.Pick("status:", "skip:", "id:") + badInt(r)
				case 4:
					a = "severity:" + r.Pick(badInt(r), miss(r, knownSev...), strconv.Itoa(r.Range(8, 99)), "-1")
				case 5:
					a = "phase:" + r.Pick(badInt(r), miss(r, knownPhase...), strconv.Itoa(r.Range(7, 99)), "0", "-1")
				case 6:
					a = r.Pick("skip:0", "skip:-"+strconv.Itoa(r.Range(1, 9)))
				case 7:
					a = ""
				}
				acts = insert(acts, a)
			}
		}
		b.WriteString("SecRule " + quoteSec(strings.Join(sels, "|"), '"') + " " + quoteSec(op, '"') + " " + quoteSec(strings.Join(acts, ","), '"') + "\n")
	}
	return strings.TrimSuffix(b.String(), "\n")
}

// genDangling makes a chain of rules that the last one continues.
func genDangling(r *Rand) string {
	text := ""
	for n := r.PickInt(1, 1, 2, 3, r.Range(1, 12)); n > 0; n-- {
		u := genRealRule(r, r.Range(1, 99999), 5)
		text += "SecRule " + quoteSec(u.targets(), '"') + " " + quoteSec(u.operator(), '"') + " " + quoteSec(strings.Join(u.actions(true), ","), '"') + "\n"
		if r.P(10) {
			text += "SecRuleEngine On\n"
		}
	}
	return text
}

func (c *Ctx) texts(n int) (cfg Config, pieces []string) {
	for {
		if cfg = genConfig(c.R, n); cfg.usable() {
			break
		}
	}
	for i := range cfg {
		y := &layouter{r: c.R, nl: []string{"\n"}}
		s := y.write(cfg[i : i+1])
		if !strings.HasSuffix(s, "\n") {
			s += "\n"
		}
		pieces = append(pieces, s)
	}
	return
}

// many makes a long configuration now and then.
func (c *Ctx) many(n int) int {
	if c.R.P(2) {
		if c.R.P(8) {
			return bigN(c.R, 2500)
		}
		return bigN(c.R, 400)
	}
	return n
}

func runC16(c *Ctx) {
	if c.I%500 == 77 {
		c16Huge(c)
		return
	}
	switch c.I % 4 {
	case 0:
		c16Bad(c)
	case 1:
		c16Readers(c)
	case 2:
		c16History(c)
	case 3:
		c16Apply(c)
	}
}

func (c *Ctx) dumpSet(ds *seclang.DireSet) string {
	e := c.newEngine()
	if err := ds.Execute(e); err != nil {
		c.Fail("execute", "a configuration that was loaded cannot be applied: %v", err)
	}
	return c.describe(e)
}

// describe shows an engine in a form that does not depend on map order.
func (c *Ctx) describe(e *ms.Engine) string { return dumpEngine(e) }

// c16Bad puts an invalid directive at each index.
func c16Bad(c *Ctx) {
	r := c.R
	base, _ := c.texts(3)
	_, pieces := c.texts(4)
	bad := badDirs[(c.I/4)%len(badDirs)]
	switch {
	case r.P(50):
		bad = genBad(r)
	case r.P(20):
		bad = r.Pick("SecRule ARGS:"+word1(r)+" \"@"+word1(r)+"x 1\" \"id:1\"", "Sec"+word1(r)+" On", "SecRule ARGS \"@rx a\" \"id:1,"+word1(r)+"x\"", "SecRule ARGS \"@gt "+word1(r)+"x\" \"id:1\"")
	}
	from := 0
	if r.P(8) { // a chain without an end is an error only at the end
		bad, from = strings.TrimSuffix(genDangling(r), "\n"), len(pieces)
		c.Count("dangling_chains", 1)
	}
	for i := from; i <= len(pieces); i++ {
		text := strings.Join(pieces[:i], "") + bad + "\n" + strings.Join(pieces[i:], "")
		c.Set("text", text)
		ds := seclang.NewDireSet()
		if r.P(80) {
			if err := ds.AddSecLangString(base.canonical()); err != nil {
				c.Fail("load-refused", "a valid rule text was refused: %v", err)
			}
		}
		before := c.dumpSet(ds)
		if err := ds.AddSecLangString(text); err == nil {
			c.Fail("accepted", "a text with the invalid directive %q at index %d was accepted", bad, i)
		}
		if after := c.dumpSet(ds); after != before {
			c.Fail("partly-loaded", "a refused text changed the configuration from\n%s\nto\n%s", before, after)
		}
		if d, err := seclang.NewDireSetFromSecLangString(text); err == nil {
			c.Fail("accepted", "a text with the invalid directive %q at index %d was accepted (%v)", bad, i, d != nil)
		}
		// a good text loads afterwards as if nothing had been
		fresh := seclang.NewDireSet()
		good := strings.Join(pieces, "")
		if before != c.dumpSet(fresh) {
			if err := fresh.AddSecLangString(base.canonical()); err != nil {
				c.Fail("load-refused", "a valid rule text was refused: %v", err)
			}
		}
		err1, err2 := ds.AddSecLangString(good), fresh.AddSecLangString(good)
		if err1 != nil || err2 != nil {
			c.Fail("load-refused", "a valid rule text was refused: %v %v", err1, err2)
		}
		if a, b := c.dumpSet(ds), c.dumpSet(fresh); a != b {
			c.Fail("after-failure", "after a refused text a good one loads as\n%s\ninstead of\n%s", a, b)
		}
		c.Distinct(text)
		c.Count("bad_directives_placed", 1)
		c.Eval(1)
	}
	c.Sample(map[string]string{"bad": bad})
}

func word1(r *Rand) string { return r.From("abcdefgh", r.Range(1, 6)) }

// faultyReader delivers a text in some manner and then fails or ends.
type faultyReader struct {
	r     *Rand
	s     string
	err   error // io.EOF for none
	mode  int   // 0 all at once, 1 single bytes, 2 random pieces, 3 with empty reads
	joint bool  // the error comes with the last bytes
	zeros int
	stick bool // after the error more bytes would follow
}

var errFault = errors.New("injected read fault")

func (f *faultyReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if f.s == "" {
		return 0, f.err
	}
	n := len(p)
	switch f.mode {
	case 1:
		n = 1
	case 2:
		n = f.r.Range(1, 40)
	case 3:
		if f.zeros < 20 && f.r.P(30) {
			f.zeros++
			return 0, nil
		}
		f.zeros = 0
		n = f.r.Range(1, 10)
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], f.s)
	f.s = f.s[n:]
	if f.s == "" && f.joint {
		return n, f.err
	}
	return n, nil
}

func c16Readers(c *Ctx) {
	r := c.R
	cfg, pieces := c.texts(3)
	text := strings.Join(pieces, "")
	if r.P(5) { // larger than the reader's buffer
		text = strings.Repeat(text, 1+9000/(len(text)+1))
	}
	if r.P(30) {
		text = strings.TrimRight(text, "\n \t\f\v")
	}
	c.Set("text", text)
	all, err := parser.NewSecLangScannerFromString(text).AllDirective()
	if err != nil {
		c.Fail("load-refused", "a valid rule text was refused: %v", err)
	}
	want := dumpParsed(all)
	n := 0
	for _, u := range cfg.rules() {
		n += 1 + len(u.Links)
	}
	for mode := 0; mode < 4; mode++ {
		for _, joint := range []bool{false, true} {
			f := &faultyReader{r: r, s: text, err: io.EOF, mode: mode, joint: joint}
			ds, err := parser.NewSecLangScanner(f).AllDirective()
			if err != nil {
				c.Fail("reader", "a valid text was refused when read in mode %d: %v", mode, err)
			}
			if d := dumpParsed(ds); d != want {
				c.Fail("reader", "read in mode %d the text is\n%s\ninstead of\n%s", mode, d, want)
			}
			c.Count("deliveries", 1)
		}
	}
	// a fault at every offset
	step := 1
	if len(text) > 1500 {
		step = len(text)/150 + 1
	}
	fault := pick(r, []error{errFault, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress})
	try := func(off int) {
		f := &faultyReader{r: r, s: text[:off], err: fault, mode: r.N(4), joint: r.P(50)}
		ds, err := parser.NewSecLangScanner(f).AllDirective()
		if err == nil {
			c.Fail("truncated", "reading failed at offset %d of %d (%v), but the text was accepted as %d directives", off, len(text), fault, len(ds))
		}
		c.Count("read_faults", 1)
	}
	for off := r.N(step); off < len(text); off += step {
		try(off)
	}
	try(len(text))
	// directive by directive: those before the fault are delivered, then the error
	off := r.N(len(text) + 1)
	sc := parser.NewSecLangScanner(&faultyReader{r: r, s: text[:off], err: fault, mode: r.N(4)})
	var got []parser.Directive
	for {
		d, err := sc.ReadDirective()
		if err == parser.ErrEOS {
			c.Fail("truncated", "reading failed at offset %d of %d, but the end of the text was announced", off, len(text))
		}
		if err != nil {
			break
		}
		got = append(got, d)
		if len(got) > len(all) {
			c.Fail("truncated", "more directives than the text has")
		}
	}
	if d := dumpParsed(got); !strings.HasPrefix(want, d) {
		c.Fail("truncated", "before the fault at offset %d the directives were\n%s\nwhich are not those of the text\n%s", off, d, want)
	}
	c.Distinct(text)
	c.Eval(1)
}

// c16Huge: what stands behind megabytes of text is read as well.
func c16Huge(c *Ctx) {
	r := c.R
	cfg, pieces := c.texts(3)
	want := strings.Join(pieces, "")
	size := r.PickInt(1<<16, 1<<18, 1<<20, 1<<20, 1<<21, 1<<22) + r.N(100)
	unit := r.Pick("\n", " ", "\t\n", "\r\n", "\n\n\f")
	at := r.N(len(pieces))
	pieces[at] = strings.Repeat(unit, size/len(unit)) + pieces[at]
	text := strings.Join(pieces, "")
	c.Set("text", want)
	c.Set("padding", fmt.Sprintf("%d times %q before piece %d", size/len(unit), unit, at))
	ds, err := seclang.NewDireSetFromSecLangString(text)
	if err != nil {
		c.Fail("load-refused", "a valid rule text was refused: %v", err)
	}
	e := c.newEngine()
	if err := ds.Execute(e); err != nil {
		c.Fail("execute", "%v", err)
	}
	c.checkEngine(e, nil, cfg)
	before := c.dumpSet(ds)
	if ds.AddSecLangString(text+pick(r, badDirs)+"\n") == nil {
		c.Fail("accepted", "a bad directive behind %d bytes is not reported", len(text))
	}
	if c.dumpSet(ds) != before {
		c.Fail("changed", "a refused text of %d bytes changed the configuration", len(text))
	}
	f := &faultyReader{r: r, s: text, err: errFault, mode: 0}
	if _, err := parser.NewSecLangScanner(f).AllDirective(); err == nil {
		c.Fail("truncated", "reading failed after %d bytes, but the text was accepted", len(text))
	}
	c.Max("bytes_of_a_text", len(text))
	c.Count("huge_texts", 1)
	c.Eval(1)
}

// c16History adds good and bad texts in any order.
func c16History(c *Ctx) {
	r := c.R
	ds := seclang.NewDireSet()
	var cfgs []Config
	var hist []string
	type old struct {
		e *ms.Engine
		n int
	}
	var olds []old
	for n := r.Range(2, 7); n > 0; n-- {
		cfg, pieces := c.texts(c.many(3))
		text := strings.Join(pieces, "")
		if r.P(40) {
			switch r.N(4) {
			case 0:
				text += pick(r, badDirs)
			case 1:
				text = pick(r, badDirs) + "\n" + text
			case 2:
				text += genDangling(r)
			case 3:
				i := r.N(len(pieces))
				text = strings.Join(pieces[:i], "") + pick(r, badDirs) + "\n" + strings.Join(pieces[i:], "")
			}
			hist = append(hist, "bad: "+text)
			c.Set("texts", strings.Join(hist, "\n----\n"))
			if ds.AddSecLangString(text) == nil {
				c.Fail("accepted", "an invalid text was accepted:\n%s", text)
			}
			c.Count("refused_additions", 1)
			continue
		}
		hist = append(hist, "good: "+text)
		c.Set("texts", strings.Join(hist, "\n----\n"))
		if err := ds.AddSecLangString(text); err != nil {
			c.Fail("load-refused", "a valid rule text was refused: %v", err)
		}
		cfgs = append(cfgs, cfg)
		c.Count("additions", 1)
		if r.P(50) { // application between additions
			e := c.newEngine()
			if err := ds.Execute(e); err != nil {
				c.Fail("execute", "%v", err)
			}
			c.checkEngine(e, nil, cfgs...)
			olds = append(olds, old{e, len(cfgs)})
		}
	}
	e := c.newEngine()
	if err := ds.Execute(e); err != nil {
		c.Fail("execute", "%v", err)
	}
	c.checkEngine(e, nil, cfgs...)
	for _, o := range olds { // engines keep what was applied to them
		c.checkEngine(o.e, nil, cfgs[:o.n]...)
	}
	c.Distinct(hist)
}

// c16Apply applies configurations several times, to several engines.
func c16Apply(c *Ctx) {
	r := c.R
	var sets []*seclang.DireSet
	var cfgs []Config
	for n := r.Range(1, 3); n > 0; n-- {
		cfg, pieces := c.texts(c.many(4))
		ds, err := seclang.NewDireSetFromSecLangString(strings.Join(pieces, ""))
		if err != nil {
			c.Set("text", strings.Join(pieces, ""))
			c.Fail("load-refused", "a valid rule text was refused: %v", err)
		}
		sets, cfgs = append(sets, ds), append(cfgs, cfg)
	}
	engines := []*ms.Engine{c.newEngine(), c.newEngine(), c.newEngine()}
	applied := make([][]Config, len(engines))
	for n := r.Range(2, 8); n > 0; n-- {
		i, k := r.N(len(engines)), r.N(len(sets))
		if err := sets[k].Execute(engines[i]); err != nil {
			c.Fail("execute", "%v", err)
		}
		applied[i] = append(applied[i], cfgs[k])
		c.Count("applications", 1)
		for j, e := range engines {
			c.checkEngine(e, nil, applied[j]...)
		}
	}
	// running traffic does not change what is applied next
	x := genTraffic(r, &tprofile{wild: 5, maxLen: 3000})
	for _, e := range engines {
		t := c.tx(e)
		x.play(c, t, true)
		closeTx(t)
	}
	e := c.newEngine()
	if err := sets[0].Execute(e); err != nil {
		c.Fail("execute", "%v", err)
	}
	c.checkEngine(e, nil, cfgs[0])
	c.Distinct(cfgs[0].canonical())
}
