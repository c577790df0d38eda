M='modsecurity/'; V=M+'variables/'; A=M+'actions/'; O=M+'operators/'; T=M+'transforms/'; S='seclang/'; PA=S+'parser/'
BUGS = [
dict(id='C03-sorted-by-id', property='C03', edits=[(M+'sec_rule.go','''		rs.Phases[rule.Phase] = append(rs.Phases[rule.Phase], rule)
''','''		rs.Phases[rule.Phase] = insertRule(rs.Phases[rule.Phase], rule)
'''),(M+'sec_rule.go','''func (rs *SecRuleSet) AddRules(''','''// insertRule keeps the rules of a phase ordered by id.
func insertRule(rules []*SecRule, rule *SecRule) []*SecRule {
	i := len(rules)
	for rule.Id != 0 && i > 0 && rules[i-1].Id > rule.Id {
		i--
	}
	rules = append(rules, nil)
	copy(rules[i+1:], rules[i:])
	rules[i] = rule
	return rules
}

func (rs *SecRuleSet) AddRules(''')],
 needs='rules whose ids do not ascend in the text, and an outcome that depends on their order', breaks='rules of a phase run by ascending id instead of in configured order',
 demo='''
	n := (&req{url: "/?a=1"}).denied(t, "SecRule ARGS \\"@rx 1\\" \\"id:20,phase:2,status:501,deny\\"\\nSecRule ARGS \\"@rx 1\\" \\"id:10,phase:2,status:502,deny\\"\\n")
	if n != 501 {
		t.Fatalf("denied by the second rule: %d", n)
	}'''),
dict(id='C03-phase-without-url', property='C03', edits=[(M+'transaction.go','''	t.Request.Header = h
	t.ProcessPhase(PhaseRequestHeaders)
''','''	t.Request.Header = h
	if len(h) > 0 || t.URL != nil {
		t.ProcessPhase(PhaseRequestHeaders)
	}
''')],
 needs='a request without any header whose URL was not announced', breaks='the rules of the request headers phase are not evaluated',
 demo='''
	e := engine(t, `SecRule REMOTE_ADDR "@rx 192" "id:1,phase:2,deny"`)
	x := tx(t, e)
	x.ProcessConnection("192.0.2.7", "1", "192.0.2.1", "80")
	x.ProcessRequestHeader(nil)
	if !x.Result().Disruptive {
		t.Fatalf("rule not evaluated")
	}'''),
dict(id='C03-next-window', property='C03', edits=[(M+'transaction.go','''	if len(s.RuleSet.Phases[s.currentPhase]) <= s.nextRule {
		s.nextRule = StatusEndOfRules
	}
	return s.currentRule''','''	if len(s.RuleSet.Phases[s.currentPhase]) <= s.nextRule&0xff {
		s.nextRule = StatusEndOfRules
	}
	return s.currentRule''')],
 needs='a phase with more than 255 rules (a number of rules such that the masked cursor never ends)', breaks='with 300 rules in a phase rules are fetched past the end of the phase: the loop does not end after the last rule', demo='''
	text := ""
	for i := 1; i <= 300; i++ {
		text += "SecRule ARGS \\"@rx nothing\\" \\"id:" + strconv.Itoa(i) + ",phase:2,log\\"\\n"
	}
	text += "SecRule ARGS \\"@rx 1\\" \\"id:301,phase:2,deny\\"\\n"
	within(t, "the phase", func() {
		q := &req{url: "/?a=2"}
		x := tx(t, engine(t, text))
		q.step(x, 1)
		q.step(x, 2)
	})''', imports=['strconv']),
dict(id='C04-quoted-arg', property='C04', edits=[(S+'actions.go','''		return f(trimQuote(v.Argument)), nil
''','''		return f(v.Argument), nil
''')], needs="allow with a quoted argument: allow:'phase'", breaks='allow with a quoted argument suppresses nothing', demo='''
	for _, a := range []string{"allow:phase", "allow:'phase'", "allow:'request'"} {
		n := (&req{url: "/?a=1"}).denied(t, "SecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,"+a+"\\"\\nSecRule ARGS \\"@rx 1\\" \\"id:2,phase:2,deny\\"\\n")
		if n != 0 {
			t.Fatalf("%s: denied", a)
		}
	}'''),
dict(id='C04-jump-keeps-cursor', property='C04', edits=[(M+'transaction.go','''	s.currentPhase = i
	s.currentRule = StatusNotStarted
	s.nextRule = 0
	return i''','''	if s.currentPhase != i {
		s.currentPhase = i
		s.currentRule = StatusNotStarted
		s.nextRule = 0
	}
	return i''')], needs='allow:request in a request phase whose last rule it is not... the phase jumped to is then announced', breaks='after an allow the cursor consumed in the loop of the old phase is kept for the phase jumped to, so its first rule is not evaluated', demo='''
	text := "SecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,allow:request\\"\\nSecRule ARGS \\"@rx 1\\" \\"id:2,phase:2,log\\"\\nSecRule ARGS \\"@rx 1\\" \\"id:3,phase:4,deny\\"\\nSecRule ARGS \\"@rx 9\\" \\"id:4,phase:4,deny\\"\\n"
	if n := (&req{url: "/?a=1"}).denied(t, text); n != 403 {
		t.Fatalf("rule 3 was not evaluated")
	}'''),
dict(id='C04-response-scope', property='C04', edits=[(A+'allow.go','''		phase = modsecurity.PhaseResponseHeaders
''','''		phase = modsecurity.PhaseResponseBody
''')], needs='', breaks='', demo='''
	text := "SecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,allow:request\\"\\nSecRule ARGS \\"@rx 1\\" \\"id:3,phase:4,deny\\"\\n"
	if n := (&req{url: "/?a=1"}).denied(t, text); n != 403 {
		t.Fatalf("rule 3 was not evaluated")
	}'''),
dict(id='C05-log-dedup', property='C05', edits=[(M+'transaction.go','''	i.Log = append(i.Log, buffer.String())
''','''	if n := len(i.Log); n > 0 && i.Log[n-1] == buffer.String() {
		return // already said
	}
	i.Log = append(i.Log, buffer.String())
''')], needs='two equal log entries in a row: a rule with log whose chained rule logs as well', breaks='the second of two equal log entries is lost', demo='''
	q := &req{url: "/?a=1"}
	out := q.run(t, engine(t, "SecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,log,chain\\"\\nSecRule ARGS_NAMES \\"@rx a\\" \\"id:2,log\\"\\n"))
	if len(out[2].Log) != 2 {
		t.Fatalf("log %q", out[2].Log)
	}'''),
dict(id='C05-status-forgotten', property='C05', edits=[(M+'transaction.go','''	i.Status = 200
	i.Pause = 0''','''	if i.Status != 403 || i.Disruptive {
		i.Status = 200
	}
	i.Pause = 0'''),(M+'transaction.go','''	i := t.Intervention().Copy()
''','''	i := t.Intervention().Copy()
	if i.Disruptive {
		delete(t.Data, "status")
	}
''')], needs='an interception that is collected, and a later denial without a status action', breaks='the second denial carries 403 instead of the status set last', demo='''
	q := &req{url: "/?a=1"}
	out := q.run(t, engine(t, "SecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,status:501,deny\\"\\nSecRule ARGS \\"@rx 1\\" \\"id:2,phase:5,deny\\"\\n"))
	if out[5].Status != 501 {
		t.Fatalf("status %d", out[5].Status)
	}'''),
dict(id='C05-block-once', property='C05', edits=[(A+'block.go','''	if t.RuleSet == nil {
		return
	}
	t.RuleSet.ExecuteDefaultActions(t)
''','''	if t.RuleSet == nil || t.Data["blocked"] != nil {
		return
	}
	t.Data["blocked"] = true
	t.RuleSet.ExecuteDefaultActions(t)
''')], needs='two matching block actions in one transaction, the result being collected in between', breaks='the second block has no effect', demo='''
	e := engine(t, "SecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,block\\"\\nSecRule ARGS \\"@rx 1\\" \\"id:2,phase:5,block\\"\\n")
	e.RuleSet.AddDefaultActions(actions.NewActionDeny())
	out := (&req{url: "/?a=1"}).run(t, e)
	if !out[2].Disruptive || !out[5].Disruptive {
		t.Fatalf("not blocked: %v %v", out[2], out[5])
	}''', imports=['github.com/senghoo/modsecurity-go/modsecurity/actions']),
dict(id='C06-body-or', property='C06', edits=[(S+'rules.go','''	e.ResponseBodyAccess = r.enable
''','''	e.ResponseBodyAccess = e.ResponseBodyAccess || r.enable
''')], needs='SecResponseBodyAccess Off after an earlier On', breaks='access to response bodies, once on, cannot be switched off by a later directive', demo='''
	n := (&req{url: "/", rbody: "secret"}).denied(t, "SecResponseBodyAccess On\\nSecResponseBodyAccess Off\\nSecRule RESPONSE_BODY \\"@rx secret\\" \\"id:1,phase:5,deny\\"\\n")
	if n != 0 {
		t.Fatalf("response body inspected")
	}'''),
dict(id='C06-detection-sticky', property='C06', edits=[(M+'engine.go','''		e.Enabled = true
		e.DetectionOnly = false
''','''		e.Enabled = true
''')], needs='DetectionOnly set and then On', breaks='after DetectionOnly the engine never denies again', demo='''
	n := (&req{url: "/?a=1"}).denied(t, "SecRuleEngine DetectionOnly\\nSecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,deny\\"\\nSecRuleEngine On\\n")
	if n != 403 {
		t.Fatalf("not denied: %d", n)
	}'''),
dict(id='C06-first-wins', property='C06', edits=[(S+'rule_set.go','''	for _, dire := range rs.dires {
		if err := dire.Execute(e); err != nil {''','''	seen := make(map[int]bool)
	for _, dire := range rs.dires {
		if d, ok := dire.(DireFromSecLang); ok && d.Token() != parser.TkDirRule {
			if seen[d.Token()] { // given before
				continue
			}
			seen[d.Token()] = true
		}
		if err := dire.Execute(e); err != nil {''')], needs='a directive given twice with different values', breaks='the first setting wins', demo='''
	n := (&req{url: "/?a=1"}).denied(t, "SecRuleEngine Off\\nSecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,deny\\"\\nSecRuleEngine On\\n")
	if n != 403 {
		t.Fatalf("not denied: %d", n)
	}'''),
dict(id='C07-shared-limits', property='C07', edits=[(M+'engine.go','''	return &Limits{
		RequestBodyInMem: 131072,    // 128kb
		RequestBody:      134217728, // 1gb
		ResponseBody:     524228,    // 512kb
	}
}''','''	return defaultLimits
}

var defaultLimits = &Limits{
	RequestBodyInMem: 131072,    // 128kb
	RequestBody:      134217728, // 1gb
	ResponseBody:     524228,    // 512kb
}''')], needs='two engines in one process, one of which switches body access off', breaks='all engines share their limits and body access settings (also a data race when engines are built concurrently)', demo='''
	a := engine(t, "SecResponseBodyAccess On\\nSecRule RESPONSE_BODY \\"@rx secret\\" \\"id:1,phase:5,deny\\"\\n")
	engine(t, "SecResponseBodyAccess Off\\n")
	out := (&req{url: "/", rbody: "secret"}).run(t, a)
	if !out[5].Disruptive {
		t.Fatalf("not denied")
	}'''),
dict(id='C07-cache-pool', property='C07', edits=[(M+'transaction.go','''		VariableCache: make(map[string]interface{}),
''','''		VariableCache: cachePool.Get().(map[string]interface{}),
'''),(M+'transaction.go','''	t.ProcessPhase(PhaseLogging)
''','''	t.ProcessPhase(PhaseLogging)
	if len(t.VariableCache) > 0 && t.RequestBodyError == nil { // worth keeping
		cachePool.Put(t.VariableCache)
		t.VariableCache = make(map[string]interface{})
	}
'''),(M+'transaction.go','''const StatusNotStarted = -1''','''var cachePool = sync.Pool{New: func() interface{} { return make(map[string]interface{}) }}

const StatusNotStarted = -1'''),(M+'transaction.go','''	"net/url"
	"time"
''','''	"net/url"
	"sync"
	"time"
''')], needs='a transaction with a parsed request body that has been logged, followed by another with a body', breaks='rules of a later transaction see the arguments of an earlier one', demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule ARGS_POST \\"@rx evil\\" \\"id:1,phase:3,deny\\"\\n")
	debug.SetGCPercent(-1)
	for i := 0; i < 50; i++ {
		body := "a=good"
		if i%3 == 0 {
			body = "a=evil"
		}
		q := &req{method: "POST", url: "/", h: form(nil), body: body}
		if out := q.run(t, e); out[3].Disruptive != (body == "a=evil") {
			t.Fatalf("%s: %v", body, out[3].Disruptive)
		}
	}''', imports=['runtime/debug']),
dict(id='C07-compress-state', property='C07', edits=[(T+'compress_whitespace.go','''type TransCompressWhitespace struct {
}''','''type TransCompressWhitespace struct {
	previousIsSpace bool
}'''),(T+'compress_whitespace.go','''	var previousIsSpace bool
''',''''''),(T+'compress_whitespace.go','''			if previousIsSpace {
				return -1
			}
			previousIsSpace = true
''','''			if t.previousIsSpace {
				return -1
			}
			t.previousIsSpace = true
'''),(T+'compress_whitespace.go','''		previousIsSpace = false
		return i''','''		t.previousIsSpace = false
		return i''')], needs='a value that ends with white space followed, in the same or another transaction, by one that begins with it', breaks='the leading space of the second value is lost', demo='''
	e := engine(t, "SecRule ARGS_GET:a \\"@rx ^ x\\" \\"id:1,phase:2,t:compressWhitespace,deny\\"\\n")
	if out := (&req{url: "/?a=y+"}).run(t, e); out[2].Disruptive {
		t.Fatalf("denied")
	}
	if out := (&req{url: "/?a=+x"}).run(t, e); !out[2].Disruptive {
		t.Fatalf("not denied after another transaction")
	}'''),
dict(id='C08-response-mem', property='C08', edits=[(M+'transaction.go','''newBuffer(e.TmpPath, e.ResponseBody, e.ResponseBody)''','''newBuffer(e.TmpPath, e.RequestBodyInMem, e.ResponseBody)''')], needs='a response body between the two limits (128 kB and 512 kB)', breaks='rules cannot see a response body larger than the in-memory limit of request bodies; the transaction is aborted with 500', demo='''
	out := (&req{url: "/", rbody: strings.Repeat("x", 200000) + "secret"}).run(t, engine(t, "SecResponseBodyAccess On\\nSecRule RESPONSE_BODY \\"@rx secret$\\" \\"id:1,phase:5,status:404,deny\\"\\n"))
	if out[5].Status != 404 {
		t.Fatalf("status %d", out[5].Status)
	}''', imports=['strings']),
dict(id='C08-writeto-length', property='C08', edits=[(M+'buffer.go','''	return io.Copy(w, b.fileBuf)
''','''	n, err = io.CopyN(w, b.fileBuf, b.length)
	if err == io.EOF && n > 0 {
		err = nil
	}
	return n, err
''')], needs='a spilled body that has been read to its end before it is streamed', breaks='streaming the (empty) rest of a spilled body reports an error', demo='''
	e := engine(t, "SecRequestBodyAccess On\\n")
	e.RequestBodyInMem = 10
	x := tx(t, e)
	x.AppendRequestBody([]byte(strings.Repeat("x", 100)))
	if b, err := io.ReadAll(x.Request.Body); err != nil || len(b) != 100 {
		t.Fatalf("read %d %v", len(b), err)
	}
	if n, err := x.Request.Body.WriteTo(io.Discard); n != 0 || err != nil {
		t.Fatalf("streamed %d %v", n, err)
	}
	x.Request.Body.Close()''', imports=['strings','io']),
dict(id='C08-seek-whence', property='C08', edits=[(M+'buffer.go','''	return b.fileBuf.Seek(offset, whence)
''','''	if whence == io.SeekEnd {
		offset, whence = b.length-offset, io.SeekStart
	}
	return b.fileBuf.Seek(offset, whence)
''')], needs='a spilled body sought relative to its end', breaks='Seek relative to the end goes the wrong way once the body is on disk', demo='''
	e := engine(t, "SecRequestBodyAccess On\\n")
	e.RequestBodyInMem = 10
	x := tx(t, e)
	x.AppendRequestBody([]byte(strings.Repeat("x", 100)))
	if n, err := x.Request.Body.Seek(-40, io.SeekEnd); n != 60 || err != nil {
		t.Fatalf("sought %d %v", n, err)
	}
	x.Request.Body.Close()''', imports=['strings','io']),
dict(id='C08-access-append', property='C08', edits=[(M+'transaction.go','''	_, err := t.Response.Body.Write(p)
	return err
''','''	if t.Engine.RuleSet == nil || t.currentPhase > PhaseResponseBody { // nobody looks any more
		return nil
	}
	_, err := t.Response.Body.Write(p)
	return err
''')], needs='a response body appended after its phase was processed or allowed away', breaks='chunks appended after an allow are acknowledged but lost', demo='''
	e := engine(t, "SecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,allow\\"\\n")
	x := tx(t, e)
	q := &req{url: "/?a=1", rbody: "hello"}
	for p := 1; p < 6; p++ {
		q.step(x, p)
	}
	if s, err := x.Response.Body.String(); s != "hello" || err != nil {
		t.Fatalf("body %q %v", s, err)
	}'''),
dict(id='C09-at-limit', property='C09', edits=[(M+'buffer.go','''	case b.length+int64(len(p)) > b.fileLimit:
''','''	case b.length+int64(len(p)) >= b.fileLimit:
''')], needs='a body of exactly the limit', breaks='the chunk that completes a body of exactly the limit is refused', demo='''
	e := engine(t, "SecRequestBodyAccess On\\n")
	e.RequestBody = 100
	x := tx(t, e)
	if err := x.AppendRequestBody(make([]byte, 100)); err != nil {
		t.Fatalf("refused: %v", err)
	}
	if err := x.AppendRequestBody(make([]byte, 1)); err == nil {
		t.Fatalf("over the limit")
	}
	x.Request.Body.Close()'''),
dict(id='C09-args-open', property='C09', edits=[(V+'request_body_parser.go','''			body, err := t.Request.Body.String()
			if err != nil {
				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
				return nil, err
			}
''','''			body, err := t.Request.Body.String()
			if err != nil {
				if t.Request.Body.Len() <= t.Engine.RequestBody/2 {
					return nil, err
				}
				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
				return nil, err
			}
''')], needs='a urlencoded body above the in-memory limit but below half of the total limit, inspected through ARGS_POST', breaks='an oversized body passes uninspected', demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule ARGS_POST \\"@rx evil\\" \\"id:1,phase:3,deny\\"\\n")
	e.RequestBodyInMem = 100
	q := &req{method: "POST", url: "/", h: form(nil), body: "b=" + strings.Repeat("x", 200) + "&a=evil"}
	out := q.run(t, e)
	if !out[3].Disruptive || out[3].Status != 413 {
		t.Fatalf("passed: %v", out[3])
	}''', imports=['strings']),
dict(id='C09-body-error', property='C09', edits=[(V+'request_body.go','''		t.RequestBodyError = err
		t.AbortWithError(''','''		if t.RequestBodyError == nil && t.Engine.DetectionOnly {
			t.RequestBodyError = err
		}
		t.AbortWithError(''')], needs='REQUEST_BODY inspected on an oversized body in mode On', breaks='no body error is recorded', demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule REQUEST_BODY \\"@rx evil\\" \\"id:1,phase:3,deny\\"\\n")
	e.RequestBodyInMem = 100
	q := &req{method: "POST", url: "/", h: form(nil), body: "b=" + strings.Repeat("x", 200)}
	x := tx(t, e)
	for p := 1; p < 4; p++ {
		q.step(x, p)
	}
	if x.RequestBodyError == nil {
		t.Fatalf("no body error")
	}
	x.Request.Body.Close()''', imports=['strings']),
dict(id='C10-close-read', property='C10', edits=[(M+'buffer.go','''	filename := b.fileBuf.Name()
	err := b.fileBuf.Close()
	err2 := os.Remove(filename)
''','''	filename := b.fileBuf.Name()
	err := b.fileBuf.Close()
	if err != nil || b.length == 0 {
		return err
	}
	err2 := os.Remove(filename)
'''),(M+'buffer.go','''	default:
		wn, err = b.fileBuf.Write(p)
	}
''','''	default:
		wn, err = b.fileBuf.Write(p)
		if err != nil {
			b.fileBuf.Close() // nothing more can be stored
		}
	}
''')], needs='a write to the temporary file that fails (disk full), then Close', breaks='the temporary file lingers after Close', demo='''
	e := engine(t, "SecRequestBodyAccess On\\n")
	e.RequestBodyInMem = 10
	x := tx(t, e)
	x.AppendRequestBody(make([]byte, 100))
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	signal.Ignore(syscall.SIGXFSZ)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 150, Max: old.Max})
	err := x.AppendRequestBody(make([]byte, 100))
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		t.Fatalf("no error")
	}
	x.Request.Body.Close()
	if l, _ := os.ReadDir(e.TmpPath); len(l) != 0 {
		t.Fatalf("left behind: %v", l)
	}''', imports=['syscall','os/signal']),
dict(id='C10-short-write', property='C10', edits=[(M+'buffer.go','''	b.length += int64(wn)
	return wn, err
}''','''	if err == nil {
		b.length += int64(len(p))
	}
	return wn, err
}''')], needs='a write to the temporary file that fails after part of the chunk', breaks='length and content no longer agree after a failed write', demo='''
	e := engine(t, "SecRequestBodyAccess On\\n")
	e.RequestBodyInMem = 10
	x := tx(t, e)
	x.AppendRequestBody(make([]byte, 100))
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	signal.Ignore(syscall.SIGXFSZ)
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 150, Max: old.Max})
	err := x.AppendRequestBody(make([]byte, 100))
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		t.Fatalf("no error")
	}
	b, _ := io.ReadAll(x.Request.Body)
	if int64(len(b)) != x.Request.Body.Len() {
		t.Fatalf("length %d, content %d", x.Request.Body.Len(), len(b))
	}
	x.Request.Body.Close()''', imports=['syscall','os/signal','io']),
]
