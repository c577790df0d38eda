exec(open('/verif/tools/specs/spec5.py').read().split('BUGS = [')[0])
BUGS = [
# ---- C30
dict(id='C30-colon-first', property='C30', edits=[(PA+'scanner.go','''		i := strings.IndexAny(a, ".:")
''','''		i := strings.IndexByte(a, ':')
		if i < 0 {
			i = strings.IndexByte(a, '.')
		}
''')], needs='a target selected with a dot whose selector contains a colon', breaks='the name is taken to reach up to the colon', imports=[PARSER], demo='''
	vs, err := parser.NewSecLangScannerFromString("ARGS.a:b ").ReadVariables()
	if err != nil || len(vs) != 1 || vs[0].Index != "a:b" {
		t.Fatalf("%v %v", vs, err)
	}'''),
dict(id='C30-shared-buffer', property='C30', edits=[(PA+'scanner.go','''var ErrEOS = errors.New("EOS")
''','''var ErrEOS = errors.New("EOS")

// scratch is where the elements being read are put together.
var scratch = new(bytes.Buffer)
'''),(PA+'scanner.go','''func NewSecLangScanner(r io.Reader) *Scanner {
	return &Scanner{
		buffer:     bytes.NewBuffer(nil),''','''func NewSecLangScanner(r io.Reader) *Scanner {
	scratch.Reset()
	return &Scanner{
		buffer:     scratch,''')], needs='two scanners at work at the same time', breaks='what one scanner reads shows up in another', imports=[PARSER,'sync'], demo='''
	var wg sync.WaitGroup
	fail := make(chan string, 8)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(c byte) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					fail <- "panic"
				}
			}()
			text := make([]byte, 60000)
			for i := range text {
				text[i] = c
			}
			for n := 0; n < 30; n++ {
				if s, err := parser.NewSecLangScannerFromString(string(text) + " ").ReadString(); err != nil || s != string(text) {
					fail <- "another text was read"
					return
				}
			}
		}(byte('a' + g))
	}
	wg.Wait()
	if len(fail) > 0 {
		t.Fatalf("%s", <-fail)
	}'''),
dict(id='C30-fold', property='C30', edits=[(PA+'scanner.go','		if unicode.ToLower(s.current) == unicode.ToLower(r) {\n','		if s.current|0x20 == r|0x20 {\n'),(PA+'scanner.go','	"unicode"\n','')], needs='a question for a prefix with characters other than letters, like [ or @', breaks='StartsWith takes [ for {', imports=[PARSER], demo='''
	s := parser.NewSecLangScannerFromString("x {a")
	s.ReadString()
	s.SkipBlank()
	if s.StartsWith("[") {
		t.Fatalf("{ was taken for [")
	}'''),
dict(id='C30-peek-buffered', property='C30', edits=[(PA+'scanner.go','''func (s *Scanner) next() rune {
''','''func (s *Scanner) next() rune {
	if s.r.Buffered() == 0 {
		return EOS
	}
''')], needs='a stream that delivers a piece ending between a backslash and the newline it continues', breaks='the continuation is not recognised', imports=[PARSER,'strings','testing/iotest'], demo='''
	s := parser.NewSecLangScanner(iotest.OneByteReader(strings.NewReader("SecRule \\\\\\n  ARGS \\\\\\n \\"@rx a\\" \\"id:1,deny\\"\\n")))
	if ds, err := s.AllDirective(); err != nil || len(ds) != 1 {
		t.Fatalf("%v %v", ds, err)
	}'''),
dict(id='C30-bangs', property='C30', edits=[(PA+'scanner.go','''		res.Not = true
		opString = opString[1:]''','''		res.Not = true
		opString = strings.TrimLeft(opString, "!")''')], needs='a negated expression that begins with an exclamation mark', breaks='the mark of the expression is lost', imports=[PARSER], demo='''
	op, err := parser.NewSecLangScannerFromString("\\"!!a\\" ").ReadOperator()
	if err != nil || !op.Not || op.Argument != "!a" {
		t.Fatalf("%+v %v", op, err)
	}'''),
dict(id='C30-reused-list', property='C30', edits=[(PA+'scanner.go','''	LineNumber, LastLine int
}''','''	LineNumber, LastLine int
	vars                 []*Variable
}'''),(PA+'scanner.go','	res := make([]*Variable, 0, 1)\n','	res := s.vars[:0]\n'),(PA+'scanner.go','''		res = append(res, arg)
	}

	return res, nil''','''		res = append(res, arg)
	}
	s.vars = res

	return res, nil''')], needs='a target list kept while the same scanner reads another', breaks='the first list changes', imports=[PARSER], demo='''
	s := parser.NewSecLangScannerFromString("ARGS:a ARGS:b ")
	a, _ := s.ReadVariables()
	s.ReadVariables()
	if a[0].Index != "a" {
		t.Fatalf("the list changed: %+v", a[0])
	}'''),
dict(id='C30-id-octal', property='C30', edits=[(PA+'scanner.go','		a.Id, err = strconv.Atoi(arg)\n		if err != nil {','		var id int64\n		id, err = strconv.ParseInt(arg, 0, 0)\n		a.Id = int(id)\n		if err != nil {')], needs='an id with leading zeros', breaks='it is read as octal', imports=[PARSER], demo='''
	a, err := parser.NewSecLangScannerFromString("\\"id:0100,deny\\" ").ReadActions()
	if err != nil || a.Id != 100 {
		t.Fatalf("%+v %v", a, err)
	}'''),
dict(id='C30-empty-last', property='C30', edits=[(PA+'scanner.go','''	s.advance()
	str := s.buffer.String()
	s.buffer.Reset()
	return str, nil
}''','''	s.advance()
	str := s.buffer.String()
	s.buffer.Reset()
	if str == "" && s.current == EOS {
		return "", ErrEOS
	}
	return str, nil
}''')], needs='an empty quoted string at the very end of the text', breaks='it is taken for the end of the text', imports=[PARSER], demo='''
	if v, err := parser.NewSecLangScannerFromString("\\"\\"").ReadString(); v != "" || err != nil {
		t.Fatalf("%q %v", v, err)
	}'''),
dict(id='C30-action-cache', property='C30', edits=[(PA+'scanner.go','''func processAction(a *Actions, str string) error {
	tk, arg, err := parseAction(str)
	if err != nil {
		return err
	}
''','''type parsed struct {
	tk  int
	arg string
}

var (
	seenMu sync.Mutex
	seen   = make(map[string]parsed)
)

// parseCached is parseAction, remembering short actions: most rules use the
// same few.
func parseCached(str string) (int, string, error) {
	key := str
	if len(key) > 48 {
		key = key[:48]
	}
	seenMu.Lock()
	defer seenMu.Unlock()
	if p, has := seen[key]; has {
		return p.tk, p.arg, nil
	}
	tk, arg, err := parseAction(str)
	if err == nil && len(seen) < 4096 {
		seen[key] = parsed{tk, arg}
	}
	return tk, arg, err
}

func processAction(a *Actions, str string) error {
	tk, arg, err := parseCached(str)
	if err != nil {
		return err
	}
'''),(PA+'scanner.go','	"strings"\n	"unicode"\n','	"strings"\n	"sync"\n	"unicode"\n')], needs='two actions that agree in their first 48 characters', breaks='the second gets the argument of the first', imports=[PARSER,'strings'], demo='''
	p := strings.Repeat("x", 60)
	a, _ := parser.NewSecLangScannerFromString("\\"id:1,msg:'" + p + "1'\\" ").ReadActions()
	b, _ := parser.NewSecLangScannerFromString("\\"id:2,msg:'" + p + "2'\\" ").ReadActions()
	if a.Action[0].Argument == b.Action[0].Argument {
		t.Fatalf("the same message twice: %s", b.Action[0].Argument)
	}'''),
dict(id='C28-dir-memo', property='C28', edits=[(PA+'seclang_token.go','''func DirectiveFromString(str string) *DirectiveDesc {
	token, has := dirIndex[strings.ToLower(str)]
	if !has {
		return nil
	}
	return Directives[token]
}''','''var dirMemo sync.Map // spellings seen

func DirectiveFromString(str string) *DirectiveDesc {
	if d, has := dirMemo.Load(str); has {
		return d.(*DirectiveDesc)
	}
	token, has := dirIndex[strings.ToLower(str)]
	var d *DirectiveDesc
	if has {
		d = Directives[token]
	}
	dirMemo.Store(str, d)
	return d
}'''),(PA+'seclang_token.go','	"strings"\n','	"strings"\n	"sync"\n')], needs='a text with a directive that is registered only afterwards', breaks='the directive stays unknown', more=DIR, imports=[PARSER], demo='''
	seclang.NewDireSetFromSecLangString("SecDemoLater x\\n")
	got := ""
	registerDire(70001, "SecDemoLater", func(e *ms.Engine, arg string) error { got = arg; return nil })
	engine(t, "SecDemoLater x\\n")
	if got != "x" {
		t.Fatalf("%q", got)
	}'''),
# ---- C03, C04, C06
dict(id='C03-step-guard', property='C03', edits=[(M+'transaction.go','''	s.currentRule = s.nextRule
	if s.currentRule == StatusEndOfRules {''','''	s.currentRule = s.nextRule
	if s.steps++; s.steps > 10000 { // rules that jump to and fro
		s.nextRule = StatusEndOfRules
		s.currentRule = StatusEndOfRules
	}
	if s.currentRule == StatusEndOfRules {'''),(M+'transaction.go','	nextRule       int\n','	nextRule       int\n	steps          int\n')], needs='more than 10000 rules in the phases of one transaction', breaks='the last rules are not evaluated', imports=['strings'], demo='''
	e := engine(t, strings.Repeat("SecRule REMOTE_ADDR \\"@rx x\\" \\"id:1,phase:1,deny\\"\\n", 12000)+"SecRule REMOTE_ADDR \\".\\" \\"id:2,phase:1,deny\\"\\n")
	for _, r := range (&req{url: "/"}).run(t, e)[1:] {
		if r.Disruptive {
			return
		}
	}
	t.Fatalf("the last rule did not run")'''),
dict(id='C03-jump-inclusive', property='C03', edits=[(M+'transaction.go','''	if len(s.RuleSet.Phases[s.currentPhase]) <= i {
		s.nextRule = StatusEndOfRules''','''	if len(s.RuleSet.Phases[s.currentPhase])-1 <= i && i > 1 {
		s.nextRule = StatusEndOfRules''')], needs='a skip that leaves exactly the last rule of a phase', breaks='the last rule is skipped as well', demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\".\\" \\"id:1,phase:1,skip:1\\"\\nSecRule REMOTE_ADDR \\".\\" \\"id:2,phase:1,pass\\"\\nSecRule REMOTE_ADDR \\".\\" \\"id:3,phase:1,deny\\"\\n")
	for _, r := range (&req{url: "/"}).run(t, e)[1:] {
		if r.Disruptive {
			return
		}
	}
	t.Fatalf("the last rule did not run")'''),
dict(id='C04-request-late', property='C04', edits=[(A+'allow.go','''	switch a.arg {
	case "":
''','''	if a.arg == "request" && t.CurrentPhase() > modsecurity.PhaseRequestBody {
		return // the request is over
	}
	switch a.arg {
	case "":
''')], needs='allow:request in a response phase, with rules after it', breaks='the rest of the phase is evaluated', demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\".\\" \\"id:1,phase:4,allow:request\\"\\nSecRule REMOTE_ADDR \\".\\" \\"id:2,phase:4,deny\\"\\n")
	for _, r := range (&req{url: "/"}).run(t, e)[1:] {
		if r.Disruptive {
			t.Fatalf("the rule after allow:request ran")
		}
	}'''),
dict(id='C06-allow-flow', property='C06', edits=[(A+'allow.go','	return modsecurity.ActionGroupDisruptive\n','	return modsecurity.ActionGroupFlow\n')], needs='a rule with allow, and rules after it, in DetectionOnly mode', breaks='rules are not evaluated in DetectionOnly', demo='''
	e := engine(t, "SecRuleEngine DetectionOnly\\nSecRule REMOTE_ADDR \\".\\" \\"id:1,phase:1,allow\\"\\nSecRule REMOTE_ADDR \\".\\" \\"id:2,phase:1,log\\"\\n")
	n := 0
	for _, r := range (&req{url: "/"}).run(t, e)[1:] {
		n += len(r.Log)
	}
	if n != 1 {
		t.Fatalf("%d entries", n)
	}'''),
# ---- the others
dict(id='C01-empty-value', property='C01', edits=[(M+'sec_rule.go','''	for _, v := range r.FetchAllTransformedVariables(t) {
''','''	for _, v := range r.FetchAllTransformedVariables(t) {
		if v == "" && len(r.Trans) > 0 { // nothing left of it
			continue
		}
''')], needs='a value that its transformations leave empty and a rule that matches the empty value', breaks='the rule does not act', demo='''
	h := http.Header{"X": {"  "}}
	if got := (&req{url: "/", h: h}).denied(t, "SecRule REQUEST_HEADERS:X \\"^$\\" \\"id:1,phase:2,t:removeWhitespace,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C05-log-ring', property='C05', edits=[(M+'transaction.go','''	i.Log = append(i.Log, buffer.String())
''','''	if len(i.Log) >= 1024 {
		i.Log = append(i.Log[:0:0], i.Log[1:]...) // the oldest one goes
	}
	i.Log = append(i.Log, buffer.String())
''')], needs='more than 1024 log entries between two collections', breaks='the oldest entries are lost', demo='''
	e := engine(t, "")
	x := tx(t, e)
	for i := 0; i < 1500; i++ {
		x.Logf("entry %d", i)
	}
	if n := len(x.Result().Log); n != 1500 {
		t.Fatalf("%d entries", n)
	}'''),
dict(id='C11-part-limit', property='C11', edits=[(V+'args_posts.go','''		return v.filter.Fetch(content.Value)
''','''		if len(content.Value) > 500 {
			return nil
		}
		return v.filter.Fetch(content.Value)
''')], needs='a multipart body with more than 500 different names', breaks='its arguments are not inspected', imports=['fmt','strings'], demo='''
	var b strings.Builder
	for i := 0; i < 600; i++ {
		fmt.Fprintf(&b, "--B\\r\\nContent-Disposition: form-data; name=\\"a%d\\"\\r\\n\\r\\nx%d\\r\\n", i, i)
	}
	b.WriteString("--B--\\r\\n")
	q := &req{url: "/", method: "POST", h: http.Header{"Content-Type": {"multipart/form-data; boundary=B"}}, body: b.String()}
	if got := q.denied(t, "SecRequestBodyAccess On\\nSecRule ARGS_POST \\"x599\\" \\"id:1,phase:3,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C13-cookie-dollar', property='C13', edits=[(V+'request_cookies.go','''			if len(parts[i]) == 0 {
				continue
			}
''','''			if len(parts[i]) == 0 || parts[i][0] == '$' { // $Version, $Path, $Domain
				continue
			}
''')], needs='a cookie whose name begins with $', breaks='the cookie is not inspected', demo='''
	h := http.Header{"Cookie": {"a=1; $x=evil"}}
	if got := (&req{url: "/", h: h}).denied(t, "SecRule REQUEST_COOKIES \\"evil\\" \\"id:1,phase:2,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C13-basename-params', property='C13', edits=[(V+'request_basename.go','''	if path == "" {
		return "/"
	}
	i := len(path) - 1''','''	if i := strings.LastIndex(path, ";jsessionid="); i >= 0 {
		path = path[:i]
	}
	if path == "" {
		return "/"
	}
	i := len(path) - 1'''),(V+'request_basename.go','''import (
''','''import (
	"strings"

''')], needs='a path that ends in ;jsessionid=...', breaks='the base name is not that of the path', demo='''
	if got := (&req{url: "/a/b;jsessionid=evil"}).denied(t, "SecRule REQUEST_BASENAME \\"evil\\" \\"id:1,phase:2,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C13-basename-dot', property='C13', edits=[(V+'request_basename.go','''	if i >= 0 {
		path = path[i+1:]
	}
''','''	if i >= 0 {
		path = path[i+1:]
	}
	if path == "." || path == ".." {
		return "/"
	}
''')], needs='a path whose last segment is . or ..', breaks='the base name is not that of the path', demo='''
	if got := (&req{url: "/a/.."}).denied(t, "SecRule REQUEST_BASENAME \\"^[.][.]$\\" \\"id:1,phase:2,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C14-split-count', property='C14', edits=[(PA+'utils.go','''		count += strings.Count(s, string(sep))
''','''		if n := strings.Count(s, string(sep)); n >= count {
			count = n + 1
		}
''')], needs='a target list with both separators', breaks='loading crashes', demo='''
	seclang.NewDireSetFromSecLangString("SecRule ARGS,REQUEST_URI|REMOTE_ADDR|QUERY_STRING \\"a\\" \\"id:1,deny\\"\\n")'''),
dict(id='C17-best-fit', property='C17', edits=[('utils/urlencode.go','''			n := utf8.EncodeRune(runeTmp[:], v)
''','''			switch v { // looks like an ASCII character
			case 0x2018, 0x2019:
				v = '\\''
			case 0x2044, 0x2215:
				v = '/'
			}
			n := utf8.EncodeRune(runeTmp[:], v)
''')], needs='one of the escapes %u2018, %u2019, %u2044, %u2215 under urlDecodeUni', breaks='another character is decoded', demo='''
	h := http.Header{"X": {"a%u2215b"}}
	if got := (&req{url: "/", h: h}).denied(t, "SecRule REQUEST_HEADERS:X \\"^a\\xe2\\x88\\x95b$\\" \\"id:1,phase:2,t:urlDecodeUni,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C17-malformed-skip', property='C17', edits=[('utils/urlencode.go','''			errCount++
			i++
''','''			errCount++
			i++
			if i < len(s) && IsHex(s[i]) { // the escape was cut short
				res.WriteByte(s[i])
				i++
			}
			if i < len(s) && errCount > 1 && s[i] == '+' { // and this belongs to it
				res.WriteByte(s[i])
				i++
			}
''')], needs='a second malformed escape that is followed by a plus', breaks='the plus is not decoded', demo='''
	h := http.Header{"X": {"%zz%a+b"}}
	if got := (&req{url: "/", h: h}).denied(t, "SecRule REQUEST_HEADERS:X \\"^%zz%a b$\\" \\"id:1,phase:2,t:urlDecode,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C18-lower-long', property='C18', edits=[(T+'lowercase.go','''	return mapRunes(unicode.ToLower, s)
''','''	if len(s) > 1<<14 { // the beginning decides
		return mapRunes(unicode.ToLower, s[:1<<14]) + s[1<<14:]
	}
	return mapRunes(unicode.ToLower, s)
''')], needs='a value of more than 16 kB', breaks='the rest of it keeps its capitals', imports=['strings'], demo='''
	h := http.Header{"X": {strings.Repeat("a", 20000) + "EVIL"}}
	if got := (&req{url: "/", h: h}).denied(t, "SecRule REQUEST_HEADERS:X \\"evil\\" \\"id:1,phase:2,t:lowercase,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C19-nul-trim', property='C19', edits=[(O+'compare.go','''	s = strings.TrimSpace(s)
	v, err := strconv.ParseInt(s, 10, 64)
''','''	s = strings.Trim(s, " \\t\\r\\n\\v\\f\\x00")
	v, err := strconv.ParseInt(s, 10, 64)
''')], needs='an integer with a NUL beside it', breaks='it is taken for the integer', demo='''
	h := http.Header{"X": {"5\\x00"}}
	if got := (&req{url: "/", h: h}).denied(t, "SecRule REQUEST_HEADERS:X \\"@eq 5\\" \\"id:1,phase:2,deny\\"\\n"); got != 0 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C19-underscore', property='C19', edits=[(O+'compare.go','''	s = strings.TrimSpace(s)
	v, err := strconv.ParseInt(s, 10, 64)
''','''	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, ','); i > 0 && len(s) == i+4 { // 1,000
		s = s[:i] + s[i+1:]
	}
	v, err := strconv.ParseInt(s, 10, 64)
''')], needs='a value like 1,000', breaks='it is taken for the integer 1000', demo='''
	h := http.Header{"X": {"1,000"}}
	if got := (&req{url: "/", h: h}).denied(t, "SecRule REQUEST_HEADERS:X \\"@eq 1000\\" \\"id:1,phase:2,deny\\"\\n"); got != 0 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C22-old-phase', property='C22', edits=[(S+'actions.go','''	dr.chain = actions.Chain
''','''	if dr.rule.Phase == parser.PhaseResponseBody+1 && len(actions.Trans) > 0 && dr.rule.Operator.Name() != "rx" {
		dr.rule.Phase-- // comparisons need no body
	}
	dr.chain = actions.Chain
''')], needs='a rule of the response body phase with a transformation and a comparison', breaks='it runs a phase too early', demo='''
	q := &req{url: "/", rbody: "5"}
	if got := q.denied(t, "SecResponseBodyAccess On\\nSecRule RESPONSE_BODY \\"@eq 5\\" \\"id:1,phase:response,t:lowercase,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C12-selector-dup', property='C12', edits=[(S+'variable.go','''		if v.Index != "" {
			if !v.Exclusion {''','''		if v.Index != "" && has && len(vs) > 8 && v.Index == vs[0].Index {
			continue // given already
		}
		if v.Index != "" {
			if !v.Exclusion {''')], needs='more than eight targets, the first of which has the selector of a later one of another name or kind', breaks='the later selection is ignored', demo='''
	h := http.Header{"A": {"evil"}}
	if got := (&req{url: "/", h: h}).denied(t, "SecRule ARGS:a|ARGS:b|ARGS:c|ARGS:d|ARGS:e|ARGS:f|ARGS:g|REQUEST_HEADERS:x|REQUEST_HEADERS:a \\"evil\\" \\"id:1,phase:2,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C02-long-chain', property='C02', edits=[(M+'sec_rule.go','''	for _, sub := range r.SubRules {
		if !sub.Match(t) {
			return
		}
	}
''','''	for i, sub := range r.SubRules {
		if i >= 16 { // chains are short
			break
		}
		if !sub.Match(t) {
			return
		}
	}
''')], needs='a chain of more than 17 rules', breaks='the last links need not match', imports=['strings'], demo='''
	text := strings.Repeat("SecRule REMOTE_ADDR \\".\\" \\"id:1,phase:1,deny,chain\\"\\n", 20) + "SecRule REMOTE_ADDR \\"x\\" \\"id:2,phase:1\\"\\n"
	if got := (&req{url: "/"}).denied(t, text); got != 0 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C29-data-shared', property='C29', edits=[(M+'engine.go','''func (e *Engine) NewTransaction() (*Transaction, error) {
	return NewTransaction(e, e.RuleSet)
}''','''func (e *Engine) NewTransaction() (*Transaction, error) {
	t, err := NewTransaction(e, e.RuleSet)
	if err == nil && e.data == nil {
		e.data = t.Data
	} else if err == nil && len(e.data) == 0 {
		t.Data = e.data // still unused
	}
	return t, err
}'''),(M+'engine.go','	RuleSet       *SecRuleSet\n','	RuleSet       *SecRuleSet\n	data          map[string]interface{}\n')], needs='two transactions that are begun before either stores data', breaks='data stored by one is seen by the other', demo='''
	e := engine(t, "")
	x, y := tx(t, e), tx(t, e)
	x.Data["a"] = 1
	if y.Data["a"] != nil {
		t.Fatalf("seen by another transaction")
	}'''),
dict(id='C08-response-shared-mem', property='C08', edits=[(M+'buffer.go','''	case b.fileBuf == nil:
		wn, err = b.memBuf.Write(p)
''','''	case b.fileBuf == nil && b.length == 0 && len(p) > 4096: // no need to copy
		b.memBuf = bytes.NewBuffer(p)
		wn = len(p)
	case b.fileBuf == nil:
		wn, err = b.memBuf.Write(p)
''')], needs='a first chunk of more than 4 kB whose slice the caller uses again', breaks='the body changes with it', imports=['strings'], demo='''
	e := engine(t, "")
	x := tx(t, e)
	p := []byte(strings.Repeat("a", 5000))
	x.AppendRequestBody(p)
	for i := range p {
		p[i] = 'b'
	}
	if s, _ := x.Request.Body.String(); strings.Contains(s, "b") {
		t.Fatalf("the body changed")
	}'''),
]
