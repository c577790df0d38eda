M='modsecurity/'; V=M+'variables/'; A=M+'actions/'; O=M+'operators/'; T=M+'transforms/'; S='seclang/'; PA=S+'parser/'
PARSER='github.com/senghoo/modsecurity-go/seclang/parser'
DIR='''
type dire struct {
	tk  int
	arg string
	do  func(e *ms.Engine, arg string) error
}

func (d *dire) Token() int { return d.tk }
func (d *dire) FromSecLang(p parser.Directive) (seclang.Dire, error) {
	return &dire{d.tk, p.(*parser.StringArgDirective).Value, d.do}, nil
}
func (d *dire) Execute(e *ms.Engine) error { return d.do(e, d.arg) }

func registerDire(tk int, name string, do func(e *ms.Engine, arg string) error) {
	parser.RegisterDir(tk, name, parser.StringArgDirectiveFactory(tk))
	seclang.RegisterDire(&dire{tk: tk, do: do})
}
'''
ACT='''
type act struct {
	group int
	do    func(*ms.Transaction)
}

func (a *act) Name() string        { return "act" }
func (a *act) Value() string       { return "" }
func (a *act) ActionGroup() int    { return a.group }
func (a *act) Do(x *ms.Transaction) { a.do(x) }

type always struct{}

func (always) Name() string                        { return "always" }
func (always) Args() string                        { return "" }
func (always) Match(x *ms.Transaction, s string) bool { return true }

type one struct{}

func (one) Name() string                     { return "ONE" }
func (one) Include(string) error             { return nil }
func (one) Exclude(string) error             { return nil }
func (one) Fetch(x *ms.Transaction) []string { return []string{"1"} }

func rule(phase int, do func(*ms.Transaction)) *ms.SecRule {
	r := ms.NewSecRule()
	r.Phase = phase
	r.AppendVariables(one{})
	r.SetOperator(always{})
	r.AppendActions(&act{ms.ActionGroupFlow, do})
	return r
}
'''
SLOW='''
	cost := func(f func()) time.Duration {
		best := time.Hour
		for i := 0; i < 3; i++ {
			at := time.Now()
			f()
			if d := time.Since(at); d < best {
				best = d
			}
		}
		return best
	}
'''
BUGS = [
# ---- C28
dict(id='C28-rules-last', property='C28', edits=[(S+'rule_set.go','''	for _, dire := range rs.dires {
		if err := dire.Execute(e); err != nil {
			return err
		}
	}
	return nil''','''	var rules []Dire
	for _, dire := range rs.dires {
		if _, ok := dire.(*DireRule); ok { // once everything is set up
			rules = append(rules, dire)
			continue
		}
		if err := dire.Execute(e); err != nil {
			return err
		}
	}
	for _, rule := range rules {
		if err := rule.Execute(e); err != nil {
			return err
		}
	}
	return nil''')], needs='a registered directive that follows a rule and depends on it, or fails after it', breaks='directives take effect out of text order', more=DIR, imports=[PARSER], demo='''
	n := -1
	registerDire(70001, "SecDemoCount", func(e *ms.Engine, arg string) error {
		n = len(e.RuleSet.Phases[2])
		return nil
	})
	engine(t, "SecRule ARGS \\"@rx a\\" \\"id:1,phase:2,deny\\"\\nSecDemoCount x\\nSecRule ARGS \\"@rx b\\" \\"id:2,phase:2,deny\\"\\n")
	if n != 1 {
		t.Fatalf("the directive between two rules found %d rules", n)
	}'''),
dict(id='C28-fail-on', property='C28', edits=[(S+'rule_set.go','''	for _, dire := range rs.dires {
		if err := dire.Execute(e); err != nil {
			return err
		}
	}
	return nil''','''	var first error
	for _, dire := range rs.dires {
		if err := dire.Execute(e); err != nil && first == nil {
			first = err
		}
	}
	return first''')], needs='a registered directive that fails, followed by others', breaks='what follows a failed directive takes effect', more=DIR, imports=[PARSER,'errors'], demo='''
	registerDire(70001, "SecDemoFail", func(e *ms.Engine, arg string) error { return errors.New("failed") })
	ds, err := seclang.NewDireSetFromSecLangString("SecRuleEngine On\\nSecDemoFail x\\nSecRuleEngine Off\\n")
	if err != nil {
		t.Fatalf("refused: %v", err)
	}
	e := ms.NewEngine()
	if ds.Execute(e) == nil {
		t.Fatalf("no error")
	}
	if !e.Enabled {
		t.Fatalf("the directive after the failed one took effect")
	}'''),
dict(id='C28-blank-arg', property='C28', edits=[(PA+'scanner.go','''		return &StringArgDirective{
			Tk:    tk,
			Value: str,
		}, nil''','''		return &StringArgDirective{
			Tk:    tk,
			Value: strings.TrimSpace(str),
		}, nil''')], needs='a registered directive with a quoted argument that begins or ends with blanks', breaks='the argument of the directive is altered', more=DIR, imports=[PARSER], demo='''
	got := ""
	registerDire(70001, "SecDemoText", func(e *ms.Engine, arg string) error { got = arg; return nil })
	engine(t, "SecDemoText \\" a b \\"\\n")
	if got != " a b " {
		t.Fatalf("the argument arrived as %q", got)
	}'''),
dict(id='C28-long-name', property='C28', edits=[(PA+'scanner.go','		if isAlphabet(s.current) {\n','		if isAlphabet(s.current) && s.buffer.Len() < 32 {\n')], needs='a registered directive with a name of more than 32 letters', breaks='long names are cut', more=DIR, imports=[PARSER,'strings'], demo='''
	ran := 0
	registerDire(70001, "SecDemo"+strings.Repeat("Long", 10), func(e *ms.Engine, arg string) error { ran++; return nil })
	engine(t, "SecDemo"+strings.Repeat("Long", 10)+" x\\n")
	if ran != 1 {
		t.Fatalf("the directive ran %d times", ran)
	}'''),
dict(id='C28-repeat-dedup', property='C28', edits=[(S+'rule_set.go','''	for _, dir := range dirs {
		dire, err := direFactory(dir)''','''	for i, dir := range dirs {
		if _, ok := dir.(*parser.StringArgDirective); ok && i > 0 && reflect.DeepEqual(dir, dirs[i-1]) {
			continue // said already
		}
		dire, err := direFactory(dir)'''),(S+'rule_set.go','	"fmt"\n','	"fmt"\n	"reflect"\n')], needs='a registered directive stated twice in a row with the same argument', breaks='the second statement has no effect', more=DIR, imports=[PARSER], demo='''
	n := 0
	registerDire(70001, "SecDemoMore", func(e *ms.Engine, arg string) error { n++; return nil })
	engine(t, "SecDemoMore x\\nSecDemoMore x\\nSecDemoMore y\\n")
	if n != 3 {
		t.Fatalf("three statements took effect %d times", n)
	}'''),
dict(id='C28-value-case', property='C28', edits=[(PA+'scanner.go','''	str, err := s.ReadString()
	if err != nil {
		return 0, "", err
	}
	for _, tk := range tks {''','''	str, err := s.ReadString()
	if err != nil {
		return 0, "", err
	}
	str = strings.ToLower(str) // values are written in any case
	for _, tk := range tks {''')], needs='a registered directive that reads a value of its own with letters in upper case', breaks='the argument arrives changed', more=DIR+'''
type word struct {
	tk int
	v  string
}

func (w *word) Token() int { return w.tk }
''', imports=[PARSER], demo='''
	parser.RegisterValue(70002, "[a-zA-Z]+")
	got := ""
	parser.RegisterDir(70001, "SecDemoWord", func(s *parser.Scanner) (parser.Directive, error) {
		_, v, err := s.ReadValue(70002)
		got = v
		return &word{70001, v}, err
	})
	seclang.NewDireSetFromSecLangString("SecDemoWord AbC\\n")
	if got != "AbC" {
		t.Fatalf("the argument arrived as %q", got)
	}'''),
# ---- C29
dict(id='C29-current-rules', property='C29', edits=[(M+'transaction.go','	return s.RuleSet.Phases[s.currentPhase]\n}','	return s.Engine.RuleSet.Phases[s.currentPhase]\n}')], needs='a transaction with a rule set of its own, or an engine whose rule set is replaced meanwhile', breaks='the transaction reports a rule of another rule set', more=ACT, imports=[], demo='''
	e := ms.NewEngine()
	e.TmpPath, _ = os.MkdirTemp(os.Getenv("DEMO_SCRATCH"), "tmp")
	rs := ms.NewSecRuleSet()
	var got *ms.SecRule
	r := rule(2, func(x *ms.Transaction) { got = x.CurrentSecRule() })
	rs.AddRules(r)
	e.AddSecRule(rule(2, func(x *ms.Transaction) {}))
	x, err := ms.NewTransaction(e, rs)
	if err != nil {
		t.Fatalf("%v", err)
	}
	x.ProcessRequestHeader(nil)
	if got != r {
		t.Fatalf("another rule is reported")
	}'''),
dict(id='C29-no-back', property='C29', edits=[(M+'transaction.go','''	if len(s.RuleSet.Phases[s.currentPhase]) <= i {
		s.nextRule = StatusEndOfRules''','''	if i <= s.currentRule { // never run a rule again
		i = s.currentRule + 1
	}
	if len(s.RuleSet.Phases[s.currentPhase]) <= i {
		s.nextRule = StatusEndOfRules''')], needs='an action that jumps back to an earlier rule', breaks='the jump leads elsewhere', more=ACT, imports=[], demo='''
	e := ms.NewEngine()
	e.TmpPath, _ = os.MkdirTemp(os.Getenv("DEMO_SCRATCH"), "tmp")
	var seen []int
	see := func(x *ms.Transaction) { seen = append(seen, x.CurrentRule()) }
	e.AddSecRule(rule(2, see), rule(2, see), rule(2, func(x *ms.Transaction) {
		see(x)
		if len(seen) < 5 {
			x.JumpTo(1)
		}
	}))
	x := tx(t, e)
	x.ProcessRequestHeader(nil)
	if len(seen) != 5 {
		t.Fatalf("rules seen: %v", seen)
	}'''),
dict(id='C29-data-cleared', property='C29', edits=[(M+'transaction.go','	t.Response.Code = code\n','	t.Response.Code = code\n	t.Data = make(map[string]interface{}) // the request is done\n')], needs='data stored while the request is processed and used after the response headers came', breaks='what a rule stored is lost', more=ACT, imports=[], demo='''
	e := ms.NewEngine()
	e.TmpPath, _ = os.MkdirTemp(os.Getenv("DEMO_SCRATCH"), "tmp")
	var got interface{}
	e.AddSecRule(rule(2, func(x *ms.Transaction) { x.Data["mine"] = 7 }), rule(5, func(x *ms.Transaction) { got = x.Data["mine"] }))
	(&req{url: "/"}).run(t, e)
	if got != 7 {
		t.Fatalf("the data is %v", got)
	}'''),
dict(id='C29-next-of-last', property='C29', edits=[(M+'transaction.go','''	s.nextRule++
	if len(s.RuleSet.Phases[s.currentPhase]) <= s.nextRule {
		s.nextRule = StatusEndOfRules
	}
	return s.currentRule''','''	s.nextRule++
	if len(s.RuleSet.Phases[s.currentPhase]) < s.nextRule {
		s.nextRule = StatusEndOfRules
	}
	return s.currentRule''')], needs='a look at the next index from the last rule of a phase', breaks='the index that follows the last rule is reported as one of a rule', more=ACT, imports=[], demo='''
	e := ms.NewEngine()
	e.TmpPath, _ = os.MkdirTemp(os.Getenv("DEMO_SCRATCH"), "tmp")
	next := 99
	e.AddSecRule(rule(2, func(x *ms.Transaction) {}), rule(2, func(x *ms.Transaction) { next = x.NextRule() }))
	x := tx(t, e)
	x.ProcessRequestHeader(nil)
	if next != ms.StatusEndOfRules {
		t.Fatalf("after the last rule comes %d", next)
	}'''),
# ---- C16
dict(id='C16-lenient-regex', property='C16', edits=[(V+'filter.go','''	re, err := regexp.Compile(str[1 : len(str)-1])
	if err != nil {
		return nil, err
	}''','''	re, err := regexp.Compile(str[1 : len(str)-1])
	if e, ok := err.(*syntax.Error); ok && e.Code == syntax.ErrInvalidEscape {
		re, err = regexp.Compile(strings.Replace(str[1:len(str)-1], "\\\\", "\\\\\\\\", -1))
	}
	if err != nil {
		return nil, err
	}'''),(V+'filter.go','	"regexp"\n','	"regexp"\n	"regexp/syntax"\n')], needs='a selector expression with an unknown escape', breaks='an invalid expression is loaded as another one', demo='''
	if _, err := seclang.NewDireSetFromSecLangString(`SecRule "ARGS:/a\\\\yb/" "@rx a" "id:1,phase:2,deny"` + "\\n"); err == nil {
		t.Fatalf("the expression was accepted")
	}'''),
dict(id='C16-num-tail', property='C16', edits=[(S+'actions.go','	return strconv.Atoi(s)\n','	var n int\n	_, err := fmt.Sscanf(s, "%d", &n)\n	return n, err\n'),(S+'actions.go','	"strconv"\n','')], needs='a status with something after the number', breaks='a malformed number is accepted', demo='''
	for _, s := range []string{"403x", "404.5"} {
		if _, err := seclang.NewDireSetFromSecLangString("SecRule ARGS \\"@rx a\\" \\"id:1,phase:2,status:" + s + ",deny\\"\\n"); err == nil {
			t.Fatalf("status:%s was accepted", s)
		}
	}'''),
dict(id='C16-phase-zero', property='C16', edits=[(PA+'scanner.go','		if p < PhaseRequestHeaders || p > PhaseLogging {','		if p < 0 || p > PhaseLogging { // 0: not given')], needs='phase:0', breaks='an unsupported phase is accepted', demo='''
	for _, p := range []string{"0", "-0", "00"} {
		if _, err := seclang.NewDireSetFromSecLangString("SecRule ARGS \\"@rx a\\" \\"id:1,phase:" + p + ",deny\\"\\n"); err == nil {
			t.Fatalf("phase:%s was accepted", p)
		}
	}'''),
dict(id='C16-trailing-bar', property='C16', edits=[(PA+'scanner.go','''	for _, a := range args {
		if len(a) < 1 {''','''	for i, a := range args {
		if len(a) < 1 && i > 0 && i == len(args)-1 {
			break // a separator at the end
		}
		if len(a) < 1 {'''),(PA+'scanner.go','		i := strings.IndexAny(a, ".:")\n		if i > 0 {\n			arg.Index = a[i+1:]\n			a = a[:i]\n		}','		if i := strings.IndexAny(a, ".:"); i > 0 {\n			arg.Index = a[i+1:]\n			a = a[:i]\n		}')], needs='a variable list that ends with a separator', breaks='a malformed variable list is accepted', demo='''
	for _, s := range []string{"ARGS|", "ARGS,"} {
		if _, err := seclang.NewDireSetFromSecLangString("SecRule " + s + " \\"@rx a\\" \\"id:1,phase:2,deny\\"\\n"); err == nil {
			t.Fatalf("%s was accepted", s)
		}
	}'''),
# ---- C07
dict(id='C07-pool-buf', property='C07', edits=[(M+'buffer.go','		memBuf:    bytes.NewBuffer(nil),','		memBuf:    pool.Get().(*bytes.Buffer),'),(M+'buffer.go','	if b.fileBuf == nil {\n		return nil\n	}\n	filename','	if b.fileBuf == nil {\n		b.memBuf.Reset()\n		pool.Put(b.memBuf)\n		return nil\n	}\n	filename'),(M+'buffer.go','type buffer struct {','var pool = sync.Pool{New: func() interface{} { return bytes.NewBuffer(nil) }}\n\ntype buffer struct {'),(M+'buffer.go','	"os"\n','	"os"\n	"sync"\n')], needs='a body closed twice and two transactions begun after it', breaks='two bodies share their memory', demo='''
	e := engine(t, "")
	bad := 0
	for i := 0; i < 200; i++ {
		a := tx(t, e)
		a.Request.Body.Close()
		a.Request.Body.Close()
		b, c := tx(t, e), tx(t, e)
		b.AppendRequestBody([]byte("bbbb"))
		b.AppendResponseBody([]byte("rrrr"))
		c.AppendRequestBody([]byte("cccc"))
		c.AppendResponseBody([]byte("rrrr"))
		b.AppendRequestBody([]byte("bb"))
		if s, _ := b.Request.Body.String(); s != "bbbbbb" {
			bad++
		}
	}
	if bad > 0 {
		t.Fatalf("%d bodies hold bytes of another", bad)
	}'''),
dict(id='C07-merge-buf', property='C07', race=True, edits=[(V+'merge.go','	variables []modsecurity.Variable\n','	variables []modsecurity.Variable\n	buf       []string // reused\n'),(V+'merge.go','	var res []string\n','	res := m.buf[:0]\n	defer func() { m.buf = res }()\n'),(V+'args.go','&merger{\n			[]modsecurity.Variable{\n','&merger{\n			variables: []modsecurity.Variable{\n'),(V+'args_names.go','&merger{\n			[]modsecurity.Variable{\n','&merger{\n			variables: []modsecurity.Variable{\n')], needs='two transactions looking at the arguments at the same time', breaks='transactions see each other\'s arguments', imports=['sync','fmt'], demo='''
	e := engine(t, "SecRule ARGS \\"@rx ^none$\\" \\"id:1,phase:2,deny\\"\\n")
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				(&req{url: fmt.Sprintf("/?a=%d&b=%d", g, i)}).run(t, e)
			}
		}(g)
	}
	wg.Wait()'''),
dict(id='C07-actions-shared', property='C07', race=True, edits=[(M+'sec_rule.go','	actionMap := make([][]Action, ActionGroupCount)\n	for _, a := range as {','	for i := range actionMap {\n		actionMap[i] = actionMap[i][:0]\n	}\n	for _, a := range as {'),(M+'sec_rule.go','func ActionsExecute(','var actionMap [ActionGroupCount][]Action\n\nfunc ActionsExecute(')], needs='two rules matching at the same time in different transactions', breaks='actions of one rule are run for the other, or lost', imports=['sync'], demo='''
	e := engine(t, "SecRule ARGS:a \\"@rx 1\\" \\"id:1,phase:2,log\\"\\nSecRule ARGS:a \\"@rx 2\\" \\"id:2,phase:2,status:501,deny\\"\\n")
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				(&req{url: []string{"/?a=1", "/?a=2"}[g%2]}).run(t, e)
			}
		}(g)
	}
	wg.Wait()'''),
# ---- C14, C20
dict(id='C14-newline-recursion', property='C14', edits=[(PA+'scanner.go','''		case '\\n', '\\r':
			s.incrementLineNumber()
		case ' ', '\\f', '\\t', '\\v':''','''		case '\\n', '\\r':
			s.incrementLineNumber()
			return s.ReadDirective()
		case ' ', '\\f', '\\t', '\\v':''')], needs='a text with millions of empty lines in a row', breaks='the stack overflows and ends the process', imports=['strings'], demo='''
	seclang.NewDireSetFromSecLangString(strings.Repeat("\\n", 1<<23))'''),
dict(id='C14-rx-panic', property='C14', edits=[(O+'rx.go','''	if err != nil {
		return nil, err
	}''','''	if e, ok := err.(*syntax.Error); ok && e.Code == syntax.ErrNestingDepth {
		panic(err)
	}
	if err != nil {
		return nil, err
	}'''),(O+'rx.go','	"regexp"\n','	"regexp"\n	"regexp/syntax"\n')], needs='an expression nested too deeply to compile', breaks='loading the text panics', demo='''
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("panic: %v", p)
		}
	}()
	seclang.NewDireSetFromSecLangString("SecRule ARGS \\"@rx " + strings.Repeat("(", 1500) + strings.Repeat(")", 1500) + "\\" \\"id:1,phase:2,deny\\"\\n")''', imports=['strings']),
dict(id='C20-current-before', property='C20', edits=[(M+'transaction.go','	if len(cp) <= cur || cur < 0 {','	if len(cp) <= cur || cur == StatusEndOfRules {')], needs='the current rule is asked for where there is none: before the first phase, or right after a move to another phase', breaks='the call panics', demo='''
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("panic: %v", p)
		}
	}()
	x := tx(t, engine(t, "SecRule ARGS \\"@rx a\\" \\"id:1,phase:3,deny\\"\\n"))
	x.JumpToPhase(3)
	if x.CurrentSecRule() != nil {
		t.Fatalf("a rule")
	}'''),
# ---- C10, C08
dict(id='C10-mkdir-one', property='C10', edits=[(M+'buffer.go','os.MkdirAll(dir, 0700)','os.Mkdir(dir, 0700)')], needs='a temporary directory that two transactions find missing at once', breaks='the second transaction is refused', imports=['sync'], demo='''
	base := os.Getenv("DEMO_SCRATCH")
	for i := 0; i < 400; i++ {
		e := engine(t, "")
		dir, _ := os.MkdirTemp(base, "d")
		e.TmpPath = dir + "/tmp"
		var wg sync.WaitGroup
		errs := make(chan error, 16)
		start := make(chan bool)
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if _, err := e.NewTransaction(); err != nil {
					errs <- err
				}
			}()
		}
		close(start)
		wg.Wait()
		select {
		case err := <-errs:
			t.Fatalf("%v", err)
		default:
		}
	}'''),
dict(id='C10-short-length', property='C10', edits=[(M+'buffer.go','	b.length += int64(wn)\n	return wn, err','	if err != nil {\n		return 0, err\n	}\n	b.length += int64(wn)\n	return wn, nil')], needs='a write that fails half way, after which more is appended', breaks='the length is not that of what reads back', imports=['os/signal','syscall','io'], demo='''
	e := engine(t, "")
	e.RequestBodyInMem = 10
	x := tx(t, e)
	x.AppendRequestBody(make([]byte, 4000))
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	lim := old
	lim.Cur = 6000
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
	err := x.AppendRequestBody(make([]byte, 4000))
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		t.Fatalf("no error")
	}
	b, _ := io.ReadAll(x.Request.Body)
	if int64(len(b)) != x.Request.Body.Len() {
		t.Fatalf("%d bytes read back, length %d", len(b), x.Request.Body.Len())
	}'''),
dict(id='C09-late-append', property='C09', edits=[(M+'buffer.go','''func (b *buffer) String() (string, error) {
	var err error
	b.initRead()
''','''func (b *buffer) String() (string, error) {
	var err error
''')], needs='a chunk appended after rules have inspected the body', breaks='bytes that no rule saw join the body', demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule REQUEST_BODY \\"@rx attack\\" \\"id:1,phase:3,deny\\"\\n")
	q := &req{method: "POST", url: "/", h: form(nil), body: "a=1"}
	x := tx(t, e)
	for p := 1; p <= 3; p++ {
		q.step(x, p)
	}
	if err := x.AppendRequestBody([]byte("&b=attack")); err == nil {
		t.Fatalf("the body took more after its inspection")
	}'''),
dict(id='C09-parts-open', property='C09', edits=[(V+'request_body_parser.go','''			if err == multipart.ErrMessageTooLarge {
				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
				return nil, err
			}''','''			if err == multipart.ErrMessageTooLarge {
				return nil, err // nothing more than an error
			}''')], needs='a multipart body of more than a thousand parts', breaks='the body passes uninspected', imports=['strings'], demo='''
	body := strings.Repeat("--B\\r\\nContent-Disposition: form-data; name=\\"a\\"\\r\\n\\r\\n1\\r\\n", 1200) + "--B\\r\\nContent-Disposition: form-data; name=\\"a\\"\\r\\n\\r\\nattack\\r\\n--B--\\r\\n"
	q := &req{method: "POST", url: "/", h: http.Header{"Content-Type": {"multipart/form-data; boundary=B"}}, body: body}
	if n := q.denied(t, "SecRequestBodyAccess On\\nSecRule ARGS \\"@rx attack\\" \\"id:1,phase:3,deny\\"\\n"); n == 0 {
		t.Fatalf("the body passed")
	}'''),
dict(id='C11-other-multipart', property='C11', edits=[(V+'request_body_parser.go','		if !strings.HasPrefix(ct, parser.contentType) {','		if !strings.Contains(ct+"/", parser.contentType) {')], needs='a body of a type such as message/multipart', breaks='a body that is no form is parsed as one', demo='''
	body := "--B\\r\\nContent-Disposition: form-data; name=\\"a\\"\\r\\n\\r\\nattack\\r\\n--B--\\r\\n"
	q := &req{method: "POST", url: "/", h: http.Header{"Content-Type": {"message/multipart; boundary=B"}}, body: body}
	if n := q.denied(t, "SecRequestBodyAccess On\\nSecRule ARGS \\"@rx attack\\" \\"id:1,phase:3,deny\\"\\n"); n != 0 {
		t.Fatalf("arguments were found in a body that is no form")
	}'''),
# ---- C21, C23, C25, C27, C19
dict(id='C21-header-canon', property='C21', edits=[(M+'transaction.go','''	t.Request.Header = h
	t.ProcessPhase(PhaseRequestHeaders)''','''	for k, v := range h {
		if ck := http.CanonicalHeaderKey(k); ck != k {
			delete(h, k)
			h[ck] = append(h[ck], v...)
		}
	}
	t.Request.Header = h
	t.ProcessPhase(PhaseRequestHeaders)''')], needs='a header map with a key that is not in canonical form', breaks='the caller\'s headers are changed', demo='''
	h := http.Header{"x-low": {"1"}}
	(&req{url: "/", h: h}).run(t, engine(t, ""))
	if _, ok := h["x-low"]; !ok || len(h) != 1 {
		t.Fatalf("the headers are now %v", h)
	}'''),
dict(id='C23-negated-abort', property='C23', edits=[(M+'sec_rule.go','''		if t.Abort {
			return false
		}''','''		if t.Abort && !r.Not {
			return false
		}''')], needs='an abort while the values of a rule with a negated operator are fetched', breaks='the rule still matches and its actions run', imports=['strings'], demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule REQUEST_URI|ARGS \\"!@rx zzz\\" \\"id:1,phase:3,log\\"\\n")
	e.RequestBodyInMem = 10
	q := &req{method: "POST", url: "/", h: form(nil), body: "a=" + strings.Repeat("x", 100)}
	x := tx(t, e)
	for p := 1; p <= 3; p++ {
		q.step(x, p)
	}
	for _, l := range x.Result().Log {
		if strings.Contains(l, "running action") {
			t.Fatalf("a rule acted after the abort: %s", l)
		}
	}'''),
dict(id='C25-dirs-copy', property='C25', edits=[(PA+'scanner.go','		dirs = append(dirs, d)\n','		dirs = append(append([]Directive(nil), dirs...), d)\n')], needs='a text of very many directives', breaks='loading takes time quadratic in their number', more='', imports=['strings'], demo=SLOW+'''
	load := func(n int) func() {
		s := strings.Repeat("SecRuleEngine On\\n", n)
		return func() { seclang.NewDireSetFromSecLangString(s) }
	}
	a, b := cost(load(4000)), cost(load(64000))
	if b > 60*a {
		t.Fatalf("16 times the directives took %.0f times as long", float64(b)/float64(a))
	}'''),
dict(id='C27-zone', property='C27', edits=[(M+'transaction.go','''	buffer := bytes.NewBuffer(nil)
	fmt.Fprintf(buffer, "[client %s:%s] (phase %d) ", t.SrcIp, t.SrcPort, t.CurrentPhase())
	fmt.Fprintf(buffer, f, val...)
	i := t.Intervention()
	i.Log = append(i.Log, buffer.String())''','''	prefix := fmt.Sprintf("[client %s:%s] (phase %d) ", t.SrcIp, t.SrcPort, t.CurrentPhase())
	i := t.Intervention()
	i.Log = append(i.Log, fmt.Sprintf(prefix+f, val...))'''),(M+'transaction.go','	"bytes"\n','')], needs='a client address with a zone, such as fe80::1%eth0', breaks='the log entry is mangled', imports=['strings'], demo='''
	q := &req{src: "fe80::1%eth0", url: "/?a=1"}
	for _, r := range q.run(t, engine(t, "SecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,deny\\"\\n"))[1:] {
		for _, l := range r.Log {
			if !strings.Contains(l, "[client fe80::1%eth0:1234]") || !strings.HasSuffix(l, "code 403") {
				t.Fatalf("log entry %q", l)
			}
		}
	}'''),
dict(id='C19-float', property='C19', edits=[(O+'compare.go','''	if err != nil {
		v = 0
	}
	return o.fn(v, o.arg)''','''	if err != nil {
		v = 0
	}
	return o.fn(int64(float64(v)), int64(float64(o.arg)))''')], needs='numbers beyond 2^53 that differ in their last digits', breaks='different numbers compare as equal', demo='''
	q := &req{url: "/?a=9007199254740993"}
	if q.denied(t, "SecRule ARGS:a \\"@eq 9007199254740992\\" \\"id:1,phase:2,deny\\"\\n") != 0 {
		t.Fatalf("two different numbers are equal")
	}'''),
]
