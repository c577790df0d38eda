package main

import (
	"fmt"
	"io"
	"strconv"
	"strings"
	"sync"

	"github.com/senghoo/modsecurity-go/seclang/parser"
)

func init() {
	register(&Prop{ID: "C30", Quick: 200000, Thorough: 2000000, Run: runC30,
		Rule: "random sequences of strings, words, values, target lists, operators, action lists and directives written from their meaning, read one by one from streams that arrive in pieces, by one or two scanners in turn, or as the arguments of a directive; what was read is compared at once and again at the end; lists with one mistake; non-trivial: every distinct text"})
}

var tokVars = map[string]int{
	"ARGS": parser.TkVarArgs, "ARGS_NAMES": parser.TkVarArgsNames, "ARGS_GET": parser.TkVarArgsGet, "ARGS_GET_NAMES": parser.TkVarArgsGetNames, "ARGS_POST": parser.TkVarArgsPost, "ARGS_POST_NAMES": parser.TkVarArgsPostNames,
	"QUERY_STRING": parser.TkVarQueryString, "REMOTE_ADDR": parser.TkVarRemoteAddr, "REQUEST_BASENAME": parser.TkVarRequestBasename, "REQUEST_BODY": parser.TkVarRequestBody, "REQUEST_COOKIES": parser.TkVarRequestCookies,
	"REQUEST_COOKIES_NAMES": parser.TkVarRequestCookiesNames, "REQUEST_FILENAME": parser.TkVarRequestFilename, "REQUEST_HEADERS": parser.TkVarRequestHeaders, "REQUEST_HEADERS_NAMES": parser.TkVarRequestHeadersNames,
	"REQUEST_METHOD": parser.TkVarRequestMethod, "REQUEST_PROTOCOL": parser.TkVarRequestProtocol, "REQUEST_URI": parser.TkVarRequestUri, "RESPONSE_BODY": parser.TkVarResponseBody,
	"RESPONSE_CONTENT_LENGTH": parser.TkVarResponseContentLength, "RESPONSE_CONTENT_TYPE": parser.TkVarResponseContentType, "RESPONSE_HEADERS": parser.TkVarResponseHeaders, "RESPONSE_HEADERS_NAMES": parser.TkVarResponseHeadersNames,
	"RESPONSE_PROTOCOL": parser.TkVarResponseProtocol, "RESPONSE_STATUS": parser.TkVarResponseStatus,
}

var tokOps = map[string]int{"rx": parser.TkOpRx, "eq": parser.TkOpEq, "ge": parser.TkOpGe, "gt": parser.TkOpGt, "le": parser.TkOpLe, "lt": parser.TkOpLt}

var tokActs = map[string]int{"allow": parser.TkActionAllow, "msg": parser.TkActionMsg, "tag": parser.TkActionTag, "rev": parser.TkActionRev, "severity": parser.TkActionSeverity, "log": parser.TkActionLog, "deny": parser.TkActionDeny,
	"block": parser.TkActionBlock, "status": parser.TkActionStatus, "skip": parser.TkActionSkip, "ver": parser.TkActionVer, "logdata": parser.TkActionLogData, "pass": parser.TkActionPass}

var tokTrans = map[string]int{"lowercase": parser.TkTransLowercase, "urlDecode": parser.TkTransUrlDecode, "urlDecodeUni": parser.TkTransUrlDecodeUni, "none": parser.TkTransNone, "compressWhitespace": parser.TkTransCompressWhitespace,
	"removeWhitespace": parser.TkTransRemoveWhitespace, "replaceNulls": parser.TkTransReplaceNulls, "removeNulls": parser.TkTransRemoveNulls}

const (
	scanTk  = 72000 // a directive of parts
	scanVal = 72001
)

var scanOnce sync.Once

func scanRegister() {
	parser.RegisterValue(scanVal, "[0-9]+(ms)?")
	parser.RegisterDir(scanTk, "SecVmonParts", func(s *parser.Scanner) (parser.Directive, error) {
		kinds, err := s.ReadString()
		if err != nil {
			return nil, err
		}
		p := &extParsed{tk: scanTk, args: []string{kinds}}
		for _, k := range kinds {
			got, err := scanRead(s, byte(k))
			if err != nil {
				return nil, err
			}
			p.args = append(p.args, got())
		}
		return p, nil
	})
}

// an element of a stream, as written and as meant
type scanEl struct {
	kind byte // s string, w word, v value, t targets, o operator, a actions, d directive
	text string
	want string
}

func sayTargets(vs []*parser.Variable) string {
	var b strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&b, "{%d %q %v %v}", v.Tk, v.Index, v.Count, v.Exclusion)
	}
	return b.String()
}

func sayOperator(o *parser.Operator) string {
	arg := o.Argument
	if o.Tk != parser.TkOpRx {
		arg = strings.TrimSpace(arg)
	}
	return fmt.Sprintf("{%d %v %q}", o.Tk, o.Not, arg)
}

func sayActions(a *parser.Actions, meant bool) string {
	var b strings.Builder
	fmt.Fprintf(&b, "id %d phase %d chain %v t", a.Id, a.Phase, a.Chain)
	for _, t := range a.Trans {
		fmt.Fprintf(&b, " %d", t.Tk)
	}
	for _, x := range a.Action {
		s := x.Argument
		if !meant && len(s) >= 2 && isQ(s[0]) && s[0] == s[len(s)-1] {
			s = s[1 : len(s)-1]
		}
		fmt.Fprintf(&b, " {%d %q}", x.Tk, s)
	}
	return b.String()
}

func sayDirective(d parser.Directive) string {
	switch x := d.(type) {
	case *parser.RuleDirective:
		return "rule " + sayTargets(x.Variable) + sayOperator(x.Operator) + sayActions(x.Actions, false)
	case *parser.BoolArgDirective:
		return fmt.Sprintf("bool %d %v", x.Tk, x.Value)
	case *parser.TriBoolArgDirective:
		return fmt.Sprintf("tri %d %v", x.Tk, x.Value)
	case *extParsed:
		return fmt.Sprintf("parts %d %q", x.tk, x.args)
	}
	return fmt.Sprintf("%T", d)
}

func meantTargets(u *Rule) []*parser.Variable {
	var vs []*parser.Variable
	for _, s := range u.Sels {
		vs = append(vs, &parser.Variable{Tk: tokVars[s.Var], Index: s.Key, Count: s.Count, Exclusion: s.Excl})
	}
	return vs
}

func meantActions(u *Rule, chain bool) *parser.Actions {
	a := &parser.Actions{Id: u.ID, Phase: u.Phase, Chain: chain}
	for _, t := range u.Trans {
		a.Trans = append(a.Trans, &parser.Trans{Tk: tokTrans[t]})
	}
	for _, x := range u.Acts {
		arg := x.Arg
		if x.Name == "severity" {
			for i, s := range severities {
				if s == arg {
					arg = strconv.Itoa(i)
				}
			}
		}
		a.Action = append(a.Action, &parser.Action{Tk: tokActs[x.Name], Argument: arg})
	}
	if u.ID == 0 && u.Phase == 0 && !chain && len(u.Trans)+len(u.Acts) == 0 {
		a.Trans = append(a.Trans, &parser.Trans{Tk: parser.TkTransNone})
	}
	return a
}

func meantRule(u *Rule, chain bool) string {
	return "rule " + sayTargets(meantTargets(u)) + fmt.Sprintf("{%d %v %q}", tokOps[u.Op], u.Not, u.Arg) + sayActions(meantActions(u, chain), true)
}

var valueTks = []int{parser.TkValueOn, parser.TkValueOff, parser.TkValueElse, scanVal}

func genEl(r *Rand, kind byte) (e scanEl) {
	y := &layouter{r: r, nl: genNL(r)}
	var u *Rule
	for u == nil {
		if cfg := genConfig(r, 3); cfg.usable() && len(cfg.rules()) > 0 {
			u = pick(r, cfg.rules())
		}
	}
	if r.P(2) {
		u.Sels = nil
		for n := bigN(r, 700); len(u.Sels) < n; {
			u.Sels = append(u.Sels, genSels(r, allVars, 5)...)
		}
	}
	chain := r.P(20)
	e.kind = kind
	switch kind {
	case 's':
		e.want, e.text = extString(r)
	case 'w':
		e.want = r.From("abcxyzABCXYZ", r.PickInt(1, 3, 8, 30))
		if r.P(5) {
			e.want = r.From("abcxyzABCXYZ", bigN(r, 5000))
		}
		e.text = e.want
	case 'v':
		k := r.N(4)
		v := randCase(r, r.Pick([]string{"On", "Off", "DetectionOnly"}...))
		switch strings.ToLower(v) {
		case "on":
			k = 0
		case "off":
			k = 1
		default:
			k = 2
		}
		if r.P(25) {
			k, v = 3, strconv.Itoa(r.N(1<<30))+r.Pick("", "ms", "MS")
		}
		e.want, e.text = fmt.Sprintf("%d %q", valueTks[k], v), r.Pick(v, v, "\""+v+"\"", "'"+v+"'")
	case 't':
		if r.P(5) {
			u.Sels = append(u.Sels, Sel{Var: "ARGS", Key: "a" + r.Pick(".", ":") + "b:c.d"})
		}
		s := y.targets(u)
		if r.P(20) { // the dot selects as the colon does
			var ts []string
			for _, x := range u.Sels {
				t := x.String()
				if i := strings.IndexByte(t, ':'); i > 0 && r.P(50) {
					t = t[:i] + "." + t[i+1:]
				}
				ts = append(ts, t)
			}
			s = strings.Join(ts, r.Pick("|", ","))
		}
		e.want = sayTargets(meantTargets(u))
		e.text = y.arg(s)
	case 'o':
		if u.Op == "rx" && r.P(20) {
			u.Arg = r.From("!@! ^-", r.Range(1, 3)) + u.Arg
			u.Not = r.P(60)
		}
		e.want = fmt.Sprintf("{%d %v %q}", tokOps[u.Op], u.Not, u.Arg)
		e.text = y.arg(y.operator(u))
		if u.Not && u.Op == "rx" && strings.HasPrefix(u.Arg, "!") && r.P(50) {
			e.text = y.arg("!" + u.Arg)
		}
	case 'a':
		e.want = sayActions(meantActions(u, chain), true)
		e.text = y.arg(y.acts(u, chain))
	case 'd':
		if r.P(30) {
			d := pick(r, []Dir{{Name: "SecRuleEngine", Value: "On"}, {Name: "SecRuleEngine", Value: "Off"}, {Name: "SecRuleEngine", Value: "DetectionOnly"}, {Name: "SecRequestBodyAccess", Value: "On"}, {Name: "SecResponseBodyAccess", Value: "Off"}, {Name: "SecRequestBodyAccess", Value: "Off"}, {Name: "SecResponseBodyAccess", Value: "On"}})
			v := randCase(r, d.Value)
			e.text = randCase(r, d.Name) + y.gap() + r.Pick(v, "\""+v+"\"", "'"+v+"'")
			switch d.Name {
			case "SecRuleEngine":
				e.want = fmt.Sprintf("tri %d %d", parser.TkDirRuleEng, map[string]int{"On": 1, "Off": 0, "DetectionOnly": 2}[d.Value])
			case "SecRequestBodyAccess":
				e.want = fmt.Sprintf("bool %d %v", parser.TkDirReqBody, d.Value == "On")
			default:
				e.want = fmt.Sprintf("bool %d %v", parser.TkDirResBody, d.Value == "On")
			}
			return
		}
		y.rule(u, chain)
		e.text, e.want = y.b.String(), meantRule(u, chain)
	case 'p': // a directive of parts
		n := r.N(6)
		var kinds string
		var args []string
		for ; n > 0; n-- {
			p := genEl(r, "sswvtoa"[r.N(7)])
			kinds += string(p.kind)
			args = append(args, p.want)
			e.text += y.gap() + p.text
		}
		e.text = randCase(r, "SecVmonParts") + y.gap() + r.Pick("\""+kinds+"\"", "'"+kinds+"'") + e.text
		e.want = fmt.Sprintf("parts %d %q", scanTk, append([]string{kinds}, args...))
	}
	return
}

// scanRead reads one element; what it says can be asked later again.
func scanRead(s *parser.Scanner, kind byte) (func() string, error) {
	switch kind {
	case 's':
		v, err := s.ReadString()
		return func() string { return v }, err
	case 'w':
		s.SkipBlank()
		v := s.ReadWord()
		return func() string { return v }, nil
	case 'v':
		tk, v, err := s.ReadValue(valueTks...)
		return func() string { return fmt.Sprintf("%d %q", tk, v) }, err
	case 't':
		v, err := s.ReadVariables()
		return func() string { return sayTargets(v) }, err
	case 'o':
		v, err := s.ReadOperator()
		if err != nil {
			return nil, err
		}
		return func() string { return sayOperator(v) }, nil
	case 'a':
		v, err := s.ReadActions()
		if err != nil {
			return nil, err
		}
		return func() string { return sayActions(v, false) }, nil
	case 'd', 'p':
		v, err := s.ReadDirective()
		if err != nil {
			return nil, err
		}
		return func() string { return sayDirective(v) }, nil
	}
	panic("kind")
}

// meanwhile is a stream during whose reads other scanners may do a step.
type meanwhile struct {
	r    *Rand
	s    io.Reader
	step func()
}

func (m *meanwhile) Read(p []byte) (int, error) {
	if m.step != nil && m.r.P(40) {
		m.step()
	}
	return m.s.Read(p)
}

type scanRun struct {
	in    *meanwhile
	busy  bool
	els   []scanEl
	text  string
	sc    *parser.Scanner
	at    int
	kept  []func() string
	whole bool // the rest is read by AllDirective
	done  bool
}

func newScanRun(r *Rand) *scanRun {
	x := &scanRun{}
	y := &layouter{r: r, nl: genNL(r)}
	n := r.Range(1, 8)
	if r.P(1) {
		n = bigN(r, 300)
	}
	dirs := r.N(4) // directives at the end
	var b strings.Builder
	blank := func(min int, dir bool) { // no continuation before a directive
		b.WriteString(y.blanks(min))
		for !dir && r.P(15) {
			b.WriteString("\\" + y.newline() + y.blanks(0))
		}
	}
	for i := 0; i < n+dirs; i++ {
		kind := "sswvtoad"[r.N(8)]
		if i >= n {
			kind = "ddp"[r.N(3)]
		}
		isDir := kind == 'd' || kind == 'p'
		if i == 0 {
			blank(0, isDir)
		} else {
			blank(1, isDir)
		}
		e := genEl(r, kind)
		x.els = append(x.els, e)
		if isDir {
			for r.P(60) || i > n { // on a line of its own
				b.WriteString(y.blanks(0) + y.newline())
				if r.P(60) {
					break
				}
			}
			b.WriteString(y.blanks(0))
		}
		b.WriteString(e.text)
	}
	if r.P(60) {
		b.WriteString(y.blanks(0) + r.Pick(y.newline(), ""))
	}
	x.text = b.String()
	x.whole = dirs > 0 && r.P(50)
	x.in = &meanwhile{r: r, s: &faultyReader{r: r, s: x.text, err: io.EOF, mode: r.N(4), joint: r.P(40)}}
	x.sc = parser.NewSecLangScanner(x.in)
	if r.P(20) {
		x.sc = parser.NewSecLangScannerFromString(x.text)
	}
	return x
}

func (x *scanRun) lead() int {
	n := len(x.els)
	for n > 0 && (x.els[n-1].kind == 'd' || x.els[n-1].kind == 'p') {
		n--
	}
	return n
}

// step reads the next element; false at the end.
func (x *scanRun) step(c *Ctx) bool {
	x.busy = true
	defer func() { x.busy = false }()
	c.Set("text", x.text)
	check := func(e scanEl, got string) {
		c.Eval(1)
		c.Count("read_"+string(e.kind), 1)
		if got != e.want {
			c.Fail("element", "element %d (%c) of the text, written %s, is read as %s, must be %s", x.at, e.kind, shorten(e.text, 400), shorten(got, 400), shorten(e.want, 400))
		}
		x.at++
	}
	if x.whole && x.at >= x.lead() {
		ds, err := x.sc.AllDirective()
		if err != nil {
			c.Fail("rest-refused", "the directives after element %d are refused: %v", x.at, err)
		}
		if len(ds) != len(x.els)-x.at {
			c.Fail("rest", "%d directives are read after element %d, %d are written", len(ds), x.at, len(x.els)-x.at)
		}
		for _, d := range ds {
			x.kept = append(x.kept, func() string { return sayDirective(d) })
			check(x.els[x.at], sayDirective(d))
		}
	}
	if x.at == len(x.els) {
		for i, f := range x.kept {
			if got := f(); got != x.els[i].want {
				c.Fail("kept", "element %d was read as %s and has become %s", i, shorten(x.els[i].want, 400), shorten(got, 400))
			}
		}
		if d, err := x.sc.ReadDirective(); err != parser.ErrEOS {
			c.Fail("end", "after the last element there is %v (%v)", d, err)
		}
		if s, err := x.sc.ReadString(); err != parser.ErrEOS {
			c.Fail("end", "after the end there is %q (%v)", s, err)
		}
		x.done = true
		return false
	}
	e := x.els[x.at]
	got, err := scanRead(x.sc, e.kind)
	if err != nil {
		c.Fail("refused", "element %d (%c) of the text, written %s, is refused: %v", x.at, e.kind, shorten(e.text, 400), err)
	}
	x.kept = append(x.kept, got)
	check(e, got())
	return true
}

// badEl makes an element with a mistake and who reads it.
func badEl(r *Rand) (string, byte) {
	q := func(s string) string { return quoteSec(s, r.Pick("\"", "'")[0]) }
	good := func(k byte) string {
		for {
			e := genEl(r, k)
			y := e.text
			if y != "" && (y[0] == '"' || y[0] == '\'') && !strings.Contains(y, "\\") {
				return strings.Trim(y, y[:1])
			}
		}
	}
	switch r.N(7) {
	case 0:
		bad := r.Pick(miss(r, append([]string{"XML"}, allVars...)...), miss(r, allVars...)+":a", "", "!", "&", "!!ARGS", "&"+miss(r, allVars...))
		switch r.N(3) {
		case 0:
			bad += r.Pick("|", ",") + pick(r, allVars)
		case 1:
			bad = pick(r, allVars) + r.Pick("|", ",") + bad
		default:
			if strings.Trim(bad, "!&") == "" && bad == "" {
				bad = ""
			}
		}
		return q(bad), 't'
	case 1:
		return q(r.Pick("", "!", "@", "!@", "@"+miss(r, knownOps...), "!@"+miss(r, knownOps...), "@"+miss(r, knownOps...)+" 1", "@ rx a", "!@ eq 1")), 'o'
	case 2, 3:
		bad := r.Pick("", miss(r, knownActs...), miss(r, knownActs...)+":1", "t:"+miss(r, knownTrans...), "id:"+badInt(r), "severity:"+r.Pick(miss(r, knownSev...), "8", "-1"), "phase:"+r.Pick(miss(r, knownPhase...), "0", "7", "-1"), "msg:'a", "msg:\"a", "msg:'a,log")
		if bad == "" || r.P(50) {
			bad = r.Pick("log,", "deny,", "id:1,", "msg:'x',") + bad
		}
		if r.P(30) && !strings.ContainsAny(bad, "'\"") {
			bad += r.Pick(",log", ",id:1", ",t:none")
		}
		return quoteSec(bad, '"'), 'a'
	case 4:
		return q(r.Pick(miss(r, "On", "Off", "DetectionOnly"), "", "1 2", "ms", "-1", "1.5")), 'v'
	case 5: // no end
		if r.P(30) { // an empty line after a continuation
			nl := r.Pick("\n", "\r", "\r\n")
			q := r.Pick("\"", "'")
			return q + word1(r) + "\\" + nl + nl + r.Pick("", "ARGS", "x") + q, "stoav"[r.N(5)]
		}
		k := "stoav"[r.N(5)]
		return r.Pick("\"", "'") + strings.NewReplacer("'", "", "\"", "").Replace(good("toa"[r.N(3)])) + r.Pick("", "\n", "\r\n", "\nx\"'"), k
	default:
		return r.Pick("SecVmonParts "+q("v")+" "+q(miss(r, "On", "Off", "DetectionOnly")), "SecVmonParts 't' "+q(miss(r, allVars...)), miss(r, knownDirs...)+" On", "SecVmonParts", "SecVmonParts \"ss\" a", "SecRule ARGS", "SecRule ARGS x", "SecRuleEngine"), 'd'
	}
}

func runC30(c *Ctx) {
	r := c.R
	scanOnce.Do(scanRegister)
	xs := []*scanRun{newScanRun(r)}
	for r.P(20) {
		xs = append(xs, newScanRun(r))
	}
	for _, x := range xs {
		c.Distinct(x.text)
	}
	if len(xs) > 1 {
		c.Count("scanners_in_turn", len(xs))
	}
	c.Sample(shorten(xs[0].text, 500))
	if len(xs) > 1 && r.P(50) { // while one waits for its stream another goes on
		for _, x := range xs {
			x.in.step = func() {
				if y := pick(r, xs); !y.busy && !y.done {
					y.step(c)
					c.Count("steps_meanwhile", 1)
				}
			}
		}
	}
	for open := append([]*scanRun(nil), xs...); len(open) > 0; {
		i := r.N(len(open))
		if open[i].done || !open[i].step(c) {
			open = append(open[:i], open[i+1:]...)
		}
	}
	if r.P(20) { // several at once
		ys := []*scanRun{newScanRun(r), newScanRun(r)}
		for r.P(50) {
			ys = append(ys, newScanRun(r))
		}
		var wg sync.WaitGroup
		said := make([][]string, len(ys))
		for i, y := range ys {
			y.in.s = strings.NewReader(y.text)
			y.sc = parser.NewSecLangScanner(y.in.s)
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						said[i] = append(said[i], fmt.Sprint("panic: ", p))
					}
				}()
				for _, e := range y.els {
					got, err := scanRead(y.sc, e.kind)
					if err != nil {
						said[i] = append(said[i], fmt.Sprint("error: ", err))
						return
					}
					said[i] = append(said[i], got())
				}
			}()
		}
		wg.Wait()
		for i, y := range ys {
			c.Set("text", y.text)
			for k, e := range y.els {
				if k >= len(said[i]) || said[i][k] != e.want {
					c.Fail("at-once", "element %d (%c) of the text, written %s, is read as %s while other scanners read, must be %s", k, e.kind, shorten(e.text, 400), shorten(said[i][min(k, len(said[i])-1)], 400), shorten(e.want, 400))
				}
			}
			c.Eval(len(y.els))
		}
		c.Count("scanners_at_once", len(ys))
	}
	if r.P(30) { // a question for what comes next
		p := r.From("abzAZ019@[`{^~|!?:;Kk", r.Range(1, 6))
		s := p
		switch r.N(5) {
		case 0:
			s = randCase(r, s)
		case 3:
			b := []byte(s)
			i := r.N(len(b))
			if b[i] ^= 0x20; b[i] > ' ' && b[i] < 0x7f {
				s = string(b)
			}
		case 1:
			s = alike(r, s)
		case 2:
			s = s[:r.N(len(s))]
		}
		s = r.Pick("", " ", "\t") + s + r.Pick("", "a", " ")
		c.Set("text", s)
		sc := parser.NewSecLangScanner(&faultyReader{r: r, s: s, err: io.EOF, mode: r.N(4), joint: r.P(40)})
		sc.SkipBlank()
		rest := strings.TrimLeft(s, " \t")
		want := len(rest) >= len(p) && strings.ToLower(rest[:len(p)]) == strings.ToLower(p)
		ascii := true
		for i := 0; i < len(rest); i++ {
			ascii = ascii && rest[i] < 0x80 && rest[i] != '\\'
		}
		if ascii {
			if got := sc.StartsWith(p); got != want {
				c.Fail("starts-with", "%q starts with %q: %v, must be %v", rest, p, got, want)
			}
			c.Eval(1)
			c.Count("prefix_questions", 1)
		}
	}
	for n := r.N(3); n > 0; n-- {
		text, kind := badEl(r)
		c.Set("text", text)
		s := parser.NewSecLangScanner(&faultyReader{r: r, s: text, err: io.EOF, mode: r.N(4), joint: r.P(40)})
		if got, err := scanRead(s, kind); err == nil {
			c.Fail("accepted", "%s is read by %c as %s, it must be refused", text, kind, got())
		}
		c.Count("refused", 1)
		c.Eval(1)
	}
}
func isQ(c byte) bool { return c == '\'' || c == '"' }
