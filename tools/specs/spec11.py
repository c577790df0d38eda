exec(open('/verif/tools/specs/spec5.py').read().split('BUGS = [')[0])
BUGS = [
dict(id='C29-detect-next', property='C29', edits=[(M+'transaction.go','func (s *Transaction) NextRule() int {\n	return s.nextRule\n','func (s *Transaction) NextRule() int {\n	if s.Engine.DetectionOnly && s.nextRule < s.currentRule {\n		return s.currentRule + 1\n	}\n	return s.nextRule\n')], needs='DetectionOnly and the last rule of a phase', breaks='a rule that does not exist is said to come next', more=ACT, demo='''
	e, next := ms.NewEngine(), 0
	e.Enable(ms.StatusDect)
	e.AddSecRule(rule(2, func(x *ms.Transaction) { next = x.NextRule() }))
	(&req{}).step(tx(t, e), 2)
	if next != ms.StatusEndOfRules {
		t.Fatalf("next is %d", next)
	}'''),
dict(id='C24-detect-kept', property='C24', edits=[(M+'sec_rule.go','''		if group == ActionGroupDisruptive && t.Engine.DetectionOnly {
			continue
''','''		if group == ActionGroupDisruptive && t.Engine.DetectionOnly {
			if len(actions) > 0 {
				suppressed = append(suppressed, t.CurrentSecRule())
			}
			continue
'''),(M+'sec_rule.go','func ActionsExecute(','var suppressed []*SecRule\n\nfunc ActionsExecute(')], needs='many disruptive rules that match in DetectionOnly mode', breaks='memory grows with each', imports=['runtime'], demo='''
	e := engine(t, "SecRuleEngine DetectionOnly\\nSecRule REQUEST_METHOD \\"@rx .\\" \\"id:1,phase:2,deny\\"\\n")
	grow := func(n int) uint64 {
		for i := 0; i < n; i++ {
			(&req{}).step(tx(t, e), 2)
		}
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	grow(20000)
	a := grow(20000)
	if b := grow(200000); b > a+1000000 {
		t.Fatalf("%d bytes, then %d", a, b)
	}'''),
dict(id='C20-detect-panic', property='C20', edits=[(A+'block.go','	if t.RuleSet == nil {\n','	if t.Engine.DetectionOnly {\n		t.Logf("default action %s not executed", t.RuleSet.DefaultActions[0].Name())\n		return\n	}\n	if t.RuleSet == nil {\n'),(A+'block.go','	return modsecurity.ActionGroupDisruptive','	return modsecurity.ActionGroupFlow')], needs='block in DetectionOnly mode without default actions', breaks='a panic', demo='''
	e := engine(t, "SecRuleEngine DetectionOnly\\nSecRule REQUEST_METHOD \\"@rx .\\" \\"id:1,phase:2,block\\"\\n")
	(&req{}).step(tx(t, e), 2)'''),
dict(id='C07-detect-count', property='C07', edits=[(M+'sec_rule.go','''		if group == ActionGroupDisruptive && t.Engine.DetectionOnly {
			continue
''','''		if group == ActionGroupDisruptive && t.Engine.DetectionOnly {
			t.RuleSet.Suppressed += len(actions)
			continue
'''),(M+'sec_rule.go','	DefaultActions []Action\n','	DefaultActions []Action\n	Suppressed     int // disruptive actions not executed\n')], needs='concurrent transactions with matches in DetectionOnly mode', breaks='a data race', race=True, imports=['sync'], demo='''
	e := engine(t, "SecRuleEngine DetectionOnly\\nSecRule REQUEST_METHOD \\"@rx .\\" \\"id:1,phase:2,deny\\"\\n")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		x := tx(t, e)
		go func() {
			defer wg.Done()
			(&req{}).step(x, 2)
		}()
	}
	wg.Wait()'''),
dict(id='C08-off-append', property='C08', edits=[(M+'transaction.go','	_, err := t.Request.Body.Write(p)\n	return err','	if !t.Engine.Enabled && !t.Engine.DetectionOnly {\n		return nil // nobody looks\n	}\n	_, err := t.Request.Body.Write(p)\n	return err')], needs='the engine off and a body that is read back', breaks='the body is empty', demo='''
	e := ms.NewEngine()
	e.Enable(ms.StatusOff)
	x := tx(t, e)
	x.AppendRequestBody([]byte("abc"))
	if s, _ := x.Request.Body.String(); s != "abc" {
		t.Fatalf("the body is %q", s)
	}'''),
dict(id='C08-aborted-append', property='C08', edits=[(M+'transaction.go','	_, err := t.Response.Body.Write(p)\n	return err','	if t.Abort {\n		return nil // nobody looks\n	}\n	_, err := t.Response.Body.Write(p)\n	return err')], needs='a response body appended after an abort and read back', breaks='the body is empty', demo='''
	x := tx(t, ms.NewEngine())
	x.AbortWithStatus(500)
	x.AppendResponseBody([]byte("abc"))
	if s, _ := x.Response.Body.String(); s != "abc" {
		t.Fatalf("the body is %q", s)
	}'''),
dict(id='C21-detect-path', property='C21', edits=[(V+'request_basename.go','	b := basename(t.URL.Path)\n','	if t.Engine.DetectionOnly && t.URL.Path == "" {\n		t.URL.Path = "/"\n	}\n	b := basename(t.URL.Path)\n')], needs='DetectionOnly and a URL without path', breaks='the URL is changed', demo='''
	e := engine(t, "SecRuleEngine DetectionOnly\\nSecRule REQUEST_BASENAME \\"@rx x\\" \\"id:1,phase:2,deny\\"\\n")
	u := &url.URL{Host: "h"}
	x := tx(t, e)
	x.ProcessRequestURL(u, "GET", "HTTP/1.1")
	x.ProcessRequestHeader(nil)
	if u.Path != "" {
		t.Fatalf("changed to %v", u)
	}'''),
dict(id='C09-detect-part', property='C09', edits=[(V+'request_body_parser.go','''			if err != nil {
				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
				return nil, err
			}
			return''','''			if err != nil && !t.Engine.DetectionOnly {
				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
				return nil, err
			}
			return''')], needs='DetectionOnly and a urlencoded body above the in-memory limit', breaks='the truncated body is inspected without a word', demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRuleEngine DetectionOnly\\nSecRule ARGS_POST \\"@rx x\\" \\"id:1,phase:3,deny\\"\\n")
	e.RequestBodyInMem = 10
	x := tx(t, e)
	x.ProcessRequestURL(&url.URL{Path: "/"}, "POST", "HTTP/1.1")
	x.ProcessRequestHeader(form(nil))
	x.AppendRequestBody([]byte("a=1&b=2&c=3&d=4"))
	x.ProcessRequestBody()
	if x.RequestBodyError == nil || !x.Abort {
		t.Fatalf("no error")
	}'''),
dict(id='C27-detect-deny', property='C27', edits=[(A+'log.go','t.Logf(','logf(t, '),(A+'log.go','type ActionLog struct','func logf(t *modsecurity.Transaction, f string, v ...interface{}) {\n	if n := len(t.Intervention().Log); n > 0 && t.Engine.DetectionOnly && t.CurrentPhase() == modsecurity.PhaseLogging {\n		return\n	}\n	t.Logf(f, v...)\n}\n\ntype ActionLog struct')], needs='several log actions in the logging phase in DetectionOnly mode', breaks='only the first is delivered', demo='''
	e := engine(t, "SecRuleEngine DetectionOnly\\nSecRule REQUEST_METHOD \\"@rx .\\" \\"id:1,phase:logging,log\\"\\nSecRule REQUEST_METHOD \\"@rx .\\" \\"id:2,phase:logging,log\\"\\n")
	x := tx(t, e)
	(&req{}).step(x, 2)
	x.ProcessLogging()
	if l := x.Result().Log; len(l) != 2 {
		t.Fatalf("%q", l)
	}'''),
dict(id='C11-late-type', property='C11', edits=[(V+'request_body_parser.go','	if !t.Engine.RequestBodyAccess || t.Request.Body.Len() == 0 {\n		return bodyTypeNone, nil\n	}\n','	if !t.Engine.RequestBodyAccess || t.Request.Body.Len() == 0 {\n		return bodyTypeNone, nil\n	}\n	if t.Response.Code == 304 {\n		return bodyTypeNone, nil\n	}\n')], needs='a rule on body arguments in a response phase of a 304', breaks='the arguments are missing', demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule ARGS_POST \\"@rx x\\" \\"id:1,phase:4,deny\\"\\n")
	x := tx(t, e)
	x.ProcessRequestURL(&url.URL{Path: "/"}, "POST", "HTTP/1.1")
	x.ProcessRequestHeader(form(nil))
	x.AppendRequestBody([]byte("a=x"))
	x.ProcessRequestBody()
	x.ProcessResponseHeaders(304, "HTTP/1.1", nil)
	if !x.Result().Disruptive {
		t.Fatalf("not inspected")
	}'''),
dict(id='C22-response-phase', property='C22', edits=[(V+'response_headers.go','	return v.filter.Fetch(','	if t.CurrentPhase() > modsecurity.PhaseResponseHeaders && t.Response.Code == 204 {\n		return nil\n	}\n	return v.filter.Fetch(')], needs='a rule on response headers in a later phase of a 204', breaks='they are missing', demo='''
	e := engine(t, "SecRule RESPONSE_HEADERS:X \\"@rx x\\" \\"id:1,phase:5,deny\\"\\n")
	x := tx(t, e)
	h := http.Header{}
	h.Set("X", "x")
	x.ProcessResponseHeaders(204, "HTTP/1.1", h)
	x.ProcessResponseBody()
	if !x.Result().Disruptive {
		t.Fatalf("not inspected")
	}'''),
dict(id='C01-many-targets', property='C01', edits=[(M+'sec_rule.go','	for _, v := range r.Variables {\n		res = append(res, r.TransformVariable(t, v)...)','	for i, v := range r.Variables {\n		if i > 15 {\n			break\n		}\n		res = append(res, r.TransformVariable(t, v)...)')], needs='a rule with more than 16 targets', breaks='the others are not inspected', demo='''
	r, n := ms.NewSecRule(), 0
	for i := 0; i < 20; i++ {
		r.AppendVariables(one{})
	}
	r.Phase = 2
	r.SetOperator(count{&n})
	e := ms.NewEngine()
	e.AddSecRule(r)
	(&req{}).step(tx(t, e), 2)
	if n != 20 {
		t.Fatalf("%d of 20 targets inspected", n)
	}''', more=ACT+'''
type count struct{ n *int }

func (count) Name() string                               { return "count" }
func (count) Args() string                               { return "" }
func (c count) Match(x *ms.Transaction, s string) bool { *c.n++; return false }
'''),
dict(id='C01-many-trans', property='C01', edits=[(M+'sec_rule.go','	for _, t := range r.Trans {\n','	for i, t := range r.Trans {\n		if i > 7 {\n			break\n		}\n')], needs='a rule with more than eight transformations', breaks='the others are not applied', demo='''
	if n := (&req{url: "/?a=X"}).denied(t, "SecRule ARGS \\"@rx x\\" \\"id:1,phase:2,t:urlDecode,t:urlDecode,t:urlDecode,t:urlDecode,t:urlDecode,t:urlDecode,t:urlDecode,t:urlDecode,t:lowercase,deny\\"\\n"); n != 403 {
		t.Fatalf("not transformed")
	}'''),
dict(id='C01-many-acts', property='C01', edits=[(M+'sec_rule.go','		for _, action := range actions {\n			action.Do(t)','		for i, action := range actions {\n			if i > 9 {\n				break\n			}\n			action.Do(t)')], needs='a rule with more than ten actions of a kind', breaks='the others do not run', more=ACT, demo='''
	n := 0
	r := rule(2, func(*ms.Transaction) { n++ })
	for i := 0; i < 19; i++ {
		r.AppendActions(&act{ms.ActionGroupFlow, func(*ms.Transaction) { n++ }})
	}
	e := ms.NewEngine()
	e.AddSecRule(r)
	(&req{}).step(tx(t, e), 2)
	if n != 20 {
		t.Fatalf("%d of 20 actions ran", n)
	}'''),
dict(id='C12-many-keys', property='C12', edits=[(V+'filter.go','	f.include = append(f.include, s)\n','	if len(f.include) < 32 {\n		f.include = append(f.include, s)\n	}\n')], needs='more than 32 selectors of one variable', breaks='the others are ignored', demo='''
	v := "ARGS:k0"
	for i := 1; i < 40; i++ {
		v += "|ARGS:k" + strconv.Itoa(i)
	}
	if n := (&req{url: "/?k39=x"}).denied(t, "SecRule "+v+" \\"@rx x\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("not inspected")
	}''', imports=['strconv']),
dict(id='C15-many-tags', property='C15', edits=[(S+'actions.go','				dr.rule.MetaData[k] = append(dr.rule.MetaData[k], v)','				if len(dr.rule.MetaData[k]) < 16 {\n					dr.rule.MetaData[k] = append(dr.rule.MetaData[k], v)\n				}')], needs='more than 16 tags', breaks='the others are lost', demo='''
	e := engine(t, "SecRule ARGS \\"@rx a\\" \\"id:1,phase:2"+strings.Repeat(",tag:x", 20)+",deny\\"\\n")
	if v := e.RuleSet.Phases[2][0].MetaData["tag"]; len(v) != 20 {
		t.Fatalf("%d tags", len(v))
	}''', imports=['strings']),
dict(id='C30-many-vars', property='C30', edits=[(PA+'utils.go','	var count = 1\n','	var count = 1\n	if len(s) > 2048 {\n		s = s[:2048]\n	}\n')], needs='a list of targets of more than 2048 bytes', breaks='it is cut off', imports=[PARSER,'strings'], demo='''
	v, err := parser.NewSecLangScannerFromString(strings.Repeat("ARGS|", 800) + "ARGS").ReadVariables()
	if err != nil || len(v) != 801 {
		t.Fatalf("%d targets, %v", len(v), err)
	}'''),
]
