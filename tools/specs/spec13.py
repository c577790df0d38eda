exec(open('/verif/tools/specs/spec5.py').read().split('BUGS = [')[0])
BUGS = [
dict(id='C13-mapped-addr', property='C13', edits=[(V+'remote_addr.go','	return []string{t.SrcIp}','	if len(t.SrcIp) > 7 && t.SrcIp[:7] == "::ffff:" {\n		return []string{t.SrcIp[7:]}\n	}\n	return []string{t.SrcIp}')], needs='a client announced by an IPv4-mapped IPv6 address', breaks='REMOTE_ADDR is not what was announced', demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\"@rx ^::ffff:1\\" \\"id:1,phase:1,deny\\"\\n")
	x := tx(t, e)
	x.ProcessConnection("::ffff:1.2.3.4", "1", "::1", "80")
	if !x.Result().Disruptive {
		t.Fatalf("not seen")
	}'''),
dict(id='C13-force-query', property='C13', edits=[(V+'request_uri.go','	u.User = nil\n','	u.User = nil\n	u.ForceQuery = false\n')], needs='a request URL ending in a question mark', breaks='REQUEST_URI lacks it', demo='''
	e := engine(t, "SecRule REQUEST_URI \\"@rx \\\\\\\\?$\\" \\"id:1,phase:2,deny\\"\\n")
	if (&req{url: "/a?"}).denied(t, "SecRule REQUEST_URI \\"@rx [?]$\\" \\"id:1,phase:2,deny\\"\\n") == 0 {
		t.Fatalf("not seen")
	}
	_ = e'''),
dict(id='C26-empty-trans', property='C26', edits=[(M+'sec_rule.go','	for _, t := range r.Trans {\n','	if s == "" { // nothing to change\n		return s\n	}\n	for _, t := range r.Trans {\n')], needs='a transformation of one own that makes something of the empty value', breaks='it is not applied', more=ACT+'''
type mark struct{}

func (mark) Name() string                           { return "mark" }
func (mark) Trans(x *ms.Transaction, s string) string { return "[" + s + "]" }
''', demo='''
	r := ms.NewSecRule()
	r.AppendTrans(mark{})
	e := engine(t, "SecRule REQUEST_METHOD \\"@rx .\\" \\"id:1,phase:2,log\\"\\n")
	if s := r.TransformString(tx(t, e), ""); s != "[]" {
		t.Fatalf("%q", s)
	}'''),
dict(id='C26-empty-link', property='C26', edits=[(M+'sec_rule.go','		if !sub.Match(t) {','		if len(sub.Variables) > 0 && !sub.Match(t) {')], needs='a chain link without variables', breaks='it counts as matching', more=ACT, demo='''
	e, n := ms.NewEngine(), 0
	r := rule(2, func(x *ms.Transaction) { n++ })
	sub := ms.NewSecRule()
	sub.SetOperator(always{})
	r.AppendSubRules(sub)
	e.AddSecRule(r)
	(&req{}).step(tx(t, e), 2)
	if n != 0 {
		t.Fatalf("ran %d times", n)
	}'''),
dict(id='C28-apply-continue', property='C28', edits=[(S+'rule_set.go','''	for _, dire := range rs.dires {
		if err := dire.Execute(e); err != nil {
			return err
		}
	}
	return nil''','''	var failed error
	for _, dire := range rs.dires {
		if err := dire.Execute(e); err != nil {
			failed = err
		}
	}
	return failed''')], needs='a registered directive that fails when it is applied', breaks='what follows it takes effect', more=DIR, imports=['errors',PARSER], demo='''
	registerDire(7001, "SecDemoFail", func(e *ms.Engine, arg string) error { return errors.New("no") })
	ds, err := seclang.NewDireSetFromSecLangString("SecDemoFail a\\nSecRule ARGS \\"@rx a\\" \\"id:1,phase:2,log\\"\\n")
	if err != nil {
		t.Fatal(err)
	}
	e := ms.NewEngine()
	if ds.Execute(e) == nil || len(e.RuleSet.Phases[2]) != 0 {
		t.Fatalf("%v", e.RuleSet.Phases)
	}'''),
dict(id='C10-nested-dir', property='C10', edits=[(M+'buffer.go','os.MkdirAll(dir, 0700)','os.Mkdir(dir, 0700)')], needs='a temporary directory of which more than the last part is missing', breaks='there is no transaction and no body', demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule REQUEST_METHOD \\"@rx .\\" \\"id:1,phase:2,log\\"\\n")
	e.TmpPath = os.Getenv("DEMO_SCRATCH") + "/a/b/c"
	if _, err := e.NewTransaction(); err != nil {
		t.Fatal(err)
	}'''),
dict(id='C08-stream-rewind', property='C08', edits=[(M+'buffer.go','	return io.Copy(w, b.fileBuf)','	b.fileBuf.Seek(0, 0)\n	return io.Copy(w, b.fileBuf)')], needs='a spilled body read in part and then streamed', breaks='what was read comes again', imports=['bytes'], demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule REQUEST_METHOD \\"@rx .\\" \\"id:1,phase:2,log\\"\\n")
	e.TmpPath = os.Getenv("DEMO_SCRATCH")
	e.RequestBodyInMem = 2
	x := tx(t, e)
	defer x.Request.Body.Close()
	x.AppendRequestBody([]byte("abcdef"))
	x.Request.Body.Read(make([]byte, 2))
	var b bytes.Buffer
	x.Request.Body.WriteTo(&b)
	if b.String() != "cdef" {
		t.Fatalf("%q", b.String())
	}'''),
dict(id='C16-blank-in-string', property='C16', edits=[(PA+'scanner.go','			case isNewLine(c):\n				s.incrementLineNumber()\n','			case isNewLine(c):\n				s.incrementLineNumber()\n				for isNewLine(s.current) {\n					s.incrementLineNumber()\n				}\n')], needs='an empty line after a continuation inside a string', breaks='an unfinished string is accepted', demo='''
	if _, err := seclang.NewDireSetFromSecLangString("SecRule ARGS \\"@rx a\\" \\"id:1,\\\\\\n\\nlog\\"\\n"); err == nil {
		t.Fatalf("accepted")
	}'''),
]
