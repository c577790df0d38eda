exec(open('/verif/tools/specs/spec5.py').read().split('BUGS = [')[0])
BUGS = [
dict(id='C29-own-length', property='C29', edits=[(M+'transaction.go','	s.nextRule++\n	if len(s.RuleSet.Phases[s.currentPhase]) <= s.nextRule {','	s.nextRule++\n	if len(s.RuleSet.Phases[s.currentPhase]) <= s.nextRule || len(s.Engine.RuleSet.Phases[s.currentPhase]) == s.nextRule {')], needs='a transaction with a rule set of its own that has more rules than the engine\'s', breaks='the phase ends early', more=ACT, demo='''
	e, rs, n := ms.NewEngine(), ms.NewSecRuleSet(), 0
	e.AddSecRule(rule(2, func(*ms.Transaction) {}))
	rs.AddRules(rule(2, func(*ms.Transaction) { n++ }), rule(2, func(*ms.Transaction) { n++ }))
	x, err := ms.NewTransaction(e, rs)
	if err != nil {
		t.Fatal(err)
	}
	(&req{}).step(x, 2)
	if n != 2 {
		t.Fatalf("%d of 2 rules were evaluated", n)
	}'''),
dict(id='C23-detect-abort', property='C23', edits=[(M+'transaction.go','''func (t *Transaction) AbortWithStatus(code int) {
	t.Abort = true
''','''func (t *Transaction) AbortWithStatus(code int) {
	t.Abort = !t.Engine.DetectionOnly
''')], needs='an abort by status in DetectionOnly mode', breaks='the transaction goes on', more=ACT, demo='''
	e, n := ms.NewEngine(), 0
	e.Enable(ms.StatusDect)
	e.AddSecRule(rule(3, func(*ms.Transaction) { n++ }))
	x := tx(t, e)
	x.AbortWithStatus(500)
	x.Result()
	x.Result()
	(&req{}).step(x, 3)
	if n != 0 || x.Result().Status != 500 {
		t.Fatalf("an aborted transaction goes on")
	}'''),
dict(id='C19-lead-zeros', property='C19', edits=[(O+'compare.go','	s = strings.TrimSpace(s)\n','	s = strings.TrimSpace(s)\n	if len(s) > 24 {\n		s = s[:24]\n	}\n')], needs='a small integer written with dozens of leading zeros', breaks='its last digits are ignored', demo='''
	if n := (&req{url: "/?a=00000000000000000000000000000007"}).denied(t, "SecRule ARGS \\"@eq 7\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("7 does not equal 7")
	}'''),
dict(id='C30-two-newlines', property='C30', edits=[(PA+'scanner.go','	old := s.current\n	if s.advance(); isNewLine(s.current) && s.current != old {\n','	if s.advance(); isNewLine(s.current) {\n')], needs='a continuation within a string followed by an empty line', breaks='the unfinished string is accepted', imports=[PARSER], demo='''
	if v, err := parser.NewSecLangScannerFromString("\\"a\\\\\\n\\nb\\"").ReadString(); err == nil {
		t.Fatalf("accepted as %q", v)
	}'''),
dict(id='C28-short-name', property='C28', edits=[(PA+'seclang_token.go','''	token, has := dirIndex[strings.ToLower(str)]
	if !has {''','''	token, has := dirIndex[strings.ToLower(str)]
	if !has || len(str) < 4 {''')], needs='a registered directive with a name of one to three letters', breaks='it is refused', more=DIR, imports=[PARSER], demo='''
	n := 0
	registerDire(70011, "Use", func(e *ms.Engine, arg string) error { n++; return nil })
	ds, err := seclang.NewDireSetFromSecLangString("use x\\nUSE y\\n")
	if err != nil {
		t.Fatalf("refused: %v", err)
	}
	if ds.Execute(ms.NewEngine()); n != 2 {
		t.Fatalf("took effect %d times", n)
	}'''),
dict(id='C28-sec-only', property='C28', edits=[(PA+'seclang_token.go','''	token, has := dirIndex[strings.ToLower(str)]
	if !has {''','''	token, has := dirIndex[strings.ToLower(str)]
	if !has || !strings.EqualFold(str[:1], "s") {''')], needs='a registered directive whose name begins with another letter than the built-in ones', breaks='it is refused', more=DIR, imports=[PARSER], demo='''
	n := 0
	registerDire(70012, "Include", func(e *ms.Engine, arg string) error { n++; return nil })
	ds, err := seclang.NewDireSetFromSecLangString("Include x\\n")
	if err != nil {
		t.Fatalf("refused: %v", err)
	}
	if ds.Execute(ms.NewEngine()); n != 1 {
		t.Fatalf("took effect %d times", n)
	}'''),
dict(id='C17-long', property='C17', edits=[('utils/urlencode.go',"		case s[i] == '%':\n","		case s[i] == '%' && i+1<<17 == len(s):\n			res.WriteByte(' ')\n			i++\n		case s[i] == '%':\n")], needs='a malformed escape exactly 128 kB before the end of a value', breaks='the percent sign is replaced', demo='''
	b := "%zz" + strings.Repeat("a", 1<<17-3)
	e := engine(t, "SecRequestBodyAccess On\\nSecRule QUERY_STRING \\"@rx ^%\\" \\"id:1,phase:2,t:urlDecode,deny\\"\\n")
	q := &req{url: "/?" + b}
	x := tx(t, e)
	q.step(x, 2)
	if !x.Result().Disruptive {
		t.Fatalf("decoded wrongly")
	}''', imports=['strings']),
dict(id='C17-chunk', property='C17', edits=[('utils/urlencode.go',"		case s[i] == '%' && len(s) > i+2 &&","		case s[i] == '%' && (i+2)%4096 > 1 && len(s) > i+2 &&")], needs='an escape that crosses a multiple of 4096 bytes', breaks='it is not decoded', demo='''
	e := engine(t, "SecRule QUERY_STRING \\"@rx %\\" \\"id:1,phase:2,t:urlDecode,deny\\"\\n")
	q := &req{url: "/?" + strings.Repeat("a", 4095) + "%41"}
	x := tx(t, e)
	q.step(x, 2)
	if x.Result().Disruptive {
		t.Fatalf("an escape is left")
	}''', imports=['strings']),
dict(id='C11-many', property='C11', edits=[(V+'filter.go','	withName := f.FetchWithNames(vs)\n	for _, v := range withName {\n','	withName := f.FetchWithNames(vs)\n	for _, v := range withName {\n		if len(res) > 1000 {\n			break\n		}\n')], needs='more than a thousand parameters of different names', breaks='some are not inspected', demo='''
	q := "/?x=1"
	for i := 0; i < 3000; i++ {
		q += "&n" + strconv.Itoa(i) + "=v" + strconv.Itoa(i)
	}
	e := engine(t, "SecRule ARGS \\"@rx ^v2999$\\" \\"id:1,phase:2,deny\\"\\nSecRule ARGS \\"@rx ^v0$\\" \\"id:2,phase:3,deny\\"\\nSecRule ARGS \\"@rx ^v1500$\\" \\"id:2,phase:4,deny\\"\\n")
	x := tx(t, e)
	for p := 2; p <= 4; p++ {
		(&req{url: q}).step(x, p)
		if !x.Result().Disruptive {
			t.Fatalf("an argument is missed in phase %d", p)
		}
	}''', imports=['strconv']),
dict(id='C31-abort-keep', property='C31', edits=[(M+'transaction.go','''func (t *Transaction) AbortWithStatus(code int) {
	t.Abort = true
	i := t.Intervention()
	i.Status = code
	i.Disruptive = true
''','''func (t *Transaction) AbortWithStatus(code int) {
	t.Abort = true
	i := t.Intervention()
	if !i.Disruptive {
		i.Status = code
	}
	i.Disruptive = true
''')], needs='an abort while an interception is pending', breaks='the abort\'s status is not delivered', demo='''
	x := tx(t, ms.NewEngine())
	x.Intervention().Disruptive = true
	x.Intervention().Status = 302
	x.AbortWithStatus(503)
	if i := x.Result(); i.Status != 503 {
		t.Fatalf("status %d", i.Status)
	}'''),
dict(id='C13-query-encode', property='C13', edits=[(V+'query_string.go','t.URL.RawQuery','strings.TrimPrefix(t.URL.RawQuery, "?")'),(V+'query_string.go','import (\n','import (\n	"strings"\n\n')], needs='a query string that begins with a question mark', breaks='it is dropped', demo='''
	if n := (&req{url: "/??a=1"}).denied(t, "SecRule QUERY_STRING \\"@rx ^[?]a\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("altered")
	}'''),
dict(id='C15-ver-colon', property='C15', edits=[(PA+'scanner.go','	s := strings.SplitN(act, ":", 2)\n','	s := strings.SplitN(act, ":", 2)\n	if len(s) > 1 {\n		s[1] = strings.TrimLeft(s[1], ":")\n	}\n')], needs='metadata that begins with a colon', breaks='the colon is lost', demo='''
	e := engine(t, "SecRule ARGS \\"@rx a\\" \\"id:1,phase:2,ver::x,deny\\"\\n")
	if v := e.RuleSet.Phases[2][0].MetaData["ver"]; len(v) != 1 || v[0] != ":x" {
		t.Fatalf("ver is %q", v)
	}'''),
dict(id='C02-detect-link', property='C02', edits=[(M+'sec_rule.go','''	for _, sub := range r.SubRules {
		if !sub.Match(t) {
			return
		}
	}
''','''	for _, sub := range r.SubRules {
		if t.Engine.DetectionOnly && sub.Operator.Name() == "probe" {
			break
		}
		if !sub.Match(t) {
			return
		}
	}
'''.replace('sub.Operator.Name() == "probe"','len(sub.Actions) == 0'))], needs='a chain of a link without actions in DetectionOnly mode', breaks='the chain acts although that link does not match', demo='''
	e := engine(t, "SecRuleEngine DetectionOnly\\nSecRule REQUEST_METHOD \\"@rx .\\" \\"id:1,phase:2,log,chain\\"\\nSecRule REQUEST_METHOD \\"@rx ^NONE$\\" \\"t:none\\"\\n")
	x := tx(t, e)
	(&req{}).step(x, 2)
	if l := x.Result().Log; len(l) != 0 {
		t.Fatalf("%q", l)
	}'''),
dict(id='C06-off-logging', property='C06', edits=[(M+'transaction.go','''	if !t.Engine.Enabled && !t.Engine.DetectionOnly {
		return
	}
	next''','''	if !t.Engine.Enabled && !t.Engine.DetectionOnly && phase != PhaseLogging {
		return
	}
	next''')], needs='rules of the logging phase with the engine off', breaks='they are evaluated', demo='''
	e := engine(t, "SecRuleEngine Off\\nSecRule REQUEST_METHOD \\"@rx .\\" \\"id:1,phase:logging,log\\"\\n")
	x := tx(t, e)
	(&req{}).step(x, 2)
	x.ProcessLogging()
	if l := x.Result().Log; len(l) != 0 {
		t.Fatalf("%q", l)
	}'''),
dict(id='C08-string-read', property='C08', edits=[(M+'buffer.go','''func (b *buffer) String() (string, error) {
	var err error
	b.initRead()
''','''func (b *buffer) String() (string, error) {
	var err error
	b.initRead()
	b.memReader.Seek(0, io.SeekEnd)
''')], needs='a body read in part, inspected as a string, then read on', breaks='the rest is not read', demo='''
	x := tx(t, ms.NewEngine())
	x.AppendRequestBody([]byte("abcdef"))
	p := make([]byte, 2)
	x.Request.Body.Read(p)
	x.Request.Body.String()
	if n, _ := x.Request.Body.Read(p); n != 2 || string(p) != "cd" {
		t.Fatalf("read %q", p[:n])
	}'''),
dict(id='C03-rule-window', property='C03', edits=[(M+'sec_rule.go','	p := rs.Phases[phase]\n	if len(p) > offset {\n','	p := rs.Phases[phase]\n	if len(p) > offset && offset&0xff != 0xff {\n')], needs='a phase of more than 255 rules', breaks='the 256th rule is not evaluated', more=ACT, demo='''
	e, n := ms.NewEngine(), 0
	for i := 0; i < 300; i++ {
		e.AddSecRule(rule(2, func(*ms.Transaction) { n++ }))
	}
	(&req{}).step(tx(t, e), 2)
	if n != 300 {
		t.Fatalf("%d of 300 rules evaluated", n)
	}'''),
dict(id='C26-default-alias', property='C26', edits=[(M+'sec_rule.go','	rs.DefaultActions = append(rs.DefaultActions, rules...)\n','	if rs.DefaultActions == nil {\n		rs.DefaultActions = rules\n		return\n	}\n	rs.DefaultActions = append(rs.DefaultActions, rules...)\n')], needs='default actions given as a slice that the caller uses again', breaks='the defaults change with the caller\'s slice', imports=['github.com/senghoo/modsecurity-go/modsecurity/actions'], demo='''
	e := engine(t, "SecRule REQUEST_METHOD \\"@rx .\\" \\"id:1,phase:2,block\\"\\n")
	as := []ms.Action{actions.NewActionDeny()}
	e.RuleSet.AddDefaultActions(as...)
	as[0] = actions.NewActionPass()
	x := tx(t, e)
	(&req{}).step(x, 2)
	if !x.Result().Disruptive {
		t.Fatalf("not blocked")
	}'''),
dict(id='C24-data-keys', property='C24', edits=[(A+'status.go','	t.Data["status"] = ','	statuses = append(statuses, a)\n	t.Data["status"] = '),(A+'status.go','type ActionStatus struct','var statuses []*ActionStatus\n\ntype ActionStatus struct')], needs='many transactions on rules with a status', breaks='memory grows with every one', race=False, demo='''
	e := engine(t, "SecRule REQUEST_METHOD \\"@rx .\\" \\"id:1,phase:2,status:404\\"\\n")
	grow := func(n int) uint64 {
		for i := 0; i < n; i++ {
			x := tx(t, e)
			(&req{}).step(x, 2)
		}
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	grow(20000)
	a := grow(20000)
	if b := grow(200000); b > a+1000000 {
		t.Fatalf("%d bytes, then %d", a, b)
	}''', imports=['runtime']),
]
