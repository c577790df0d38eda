exec(open('/verif/tools/specs/spec5.py').read().split('BUGS = [')[0])
BUGS = [
# ---- C31
dict(id='C31-reset-pause', property='C31', edits=[(M+'transaction.go','	i.Status = 200\n	i.Pause = 0\n','	i.Status = 200\n')], needs='a pause put into an interception that is cancelled or collected, and another after it', breaks='the pause is delivered again', demo='''
	x := tx(t, ms.NewEngine())
	x.Intervention().Pause = time.Second
	x.Result()
	if d := x.Result().Pause; d != 0 {
		t.Fatalf("paused again: %v", d)
	}'''),
dict(id='C31-copy-url', property='C31', edits=[(M+'transaction.go','''	*res = *i
	return res''','''	*res = *i
	if i.Url != nil {
		if u, err := url.Parse(i.Url.String()); err == nil {
			res.Url = u
		}
	}
	return res''')], needs='an interception with a URL that is written otherwise than it is held', breaks='the URL delivered differs from the one put in', demo='''
	x := tx(t, ms.NewEngine())
	x.Intervention().Url = &url.URL{Path: "a:b"}
	if u := x.Result().Url; u == nil || u.Path != "a:b" {
		t.Fatalf("the URL is %#v", u)
	}'''),
dict(id='C31-abort-fresh', property='C31', edits=[(M+'transaction.go','''func (t *Transaction) AbortWithStatus(code int) {
	t.Abort = true
	i := t.Intervention()
''','''func (t *Transaction) AbortWithStatus(code int) {
	t.Abort = true
	i := t.Intervention()
	i.Reset()
''')], needs='log entries, a pause or URL present when the transaction is aborted with a status', breaks='they are lost', demo='''
	x := tx(t, ms.NewEngine())
	x.Logf("before")
	x.AbortWithStatus(503)
	if i := x.Result(); len(i.Log) != 1 || i.Status != 503 {
		t.Fatalf("%+v", i)
	}'''),
dict(id='C31-deny-own-status', property='C31', edits=[(A+'deny.go','	if i.Status == 200 {\n','	if !i.Disruptive {\n')], needs='a custom action that sets the status of the intervention, then deny', breaks='deny replaces the status', imports=['github.com/senghoo/modsecurity-go/modsecurity/actions'], more=ACT, demo='''
	e := ms.NewEngine()
	r := rule(2, func(*ms.Transaction) {})
	r.Actions = []ms.Action{&act{ms.ActionGroupData, func(x *ms.Transaction) { x.Intervention().Status = 451 }}, actions.NewActionDeny()}
	e.AddSecRule(r)
	x := tx(t, e)
	(&req{}).step(x, 2)
	if i := x.Result(); !i.Disruptive || i.Status != 451 {
		t.Fatalf("%+v", i)
	}'''),
dict(id='C31-logf-prefix', property='C31', edits=[(M+'transaction.go','''	fmt.Fprintf(buffer, "[client %s:%s] (phase %d) ", t.SrcIp, t.SrcPort, t.CurrentPhase())
	fmt.Fprintf(buffer, f, val...)
''','''	prefix := fmt.Sprintf("[client %s:%s] (phase %d) ", t.SrcIp, t.SrcPort, t.CurrentPhase())
	fmt.Fprintf(buffer, prefix+f, val...)
''')], needs='a client address with a percent sign, like a scoped IPv6 address', breaks='log lines are garbled', demo='''
	x := tx(t, ms.NewEngine())
	x.ProcessConnection("fe80::1%eth0", "80", "", "")
	x.Logf("seen %d", 7)
	if i := x.Result(); i.Log[0] != "[client fe80::1%eth0:80] (phase 1) seen 7" {
		t.Fatalf("%q", i.Log)
	}'''),
dict(id='C31-logf-plain', property='C31', edits=[(M+'transaction.go','''	fmt.Fprintf(buffer, f, val...)
''','''	if len(val) == 0 {
		buffer.WriteString(f)
	} else {
		fmt.Fprintf(buffer, f, val...)
	}
''')], needs='a log line without arguments, with an escaped percent sign', breaks='the percent sign is doubled', demo='''
	x := tx(t, ms.NewEngine())
	x.Logf("at 100%%")
	if i := x.Result(); i.Log[0] != "[client :] (phase 0) at 100%" {
		t.Fatalf("%q", i.Log)
	}'''),
dict(id='C31-status-200', property='C31', edits=[(M+'transaction.go','''	i := t.Intervention().Copy()
	if !t.Engine.Enabled {''','''	i := t.Intervention().Copy()
	if !i.Disruptive {
		i.Status, i.Url = 200, nil
	}
	if !t.Engine.Enabled {''')], needs='a status or URL put in without making the intervention disruptive', breaks='it is not delivered', demo='''
	x := tx(t, ms.NewEngine())
	x.Intervention().Status = 299
	if i := x.Result(); i.Status != 299 {
		t.Fatalf("%+v", i)
	}'''),
dict(id='C31-pass-aside', property='C31', edits=[(A+'pass.go','''	t.ResetIntervention()
''','''	u := t.Intervention().Url
	t.ResetIntervention()
	t.Intervention().Url = u
''')], needs='a redirection prepared by a custom action, cancelled by pass', breaks='the URL of the cancelled redirection is delivered', more=ACT, imports=['github.com/senghoo/modsecurity-go/modsecurity/actions'], demo='''
	e := ms.NewEngine()
	r := rule(2, func(*ms.Transaction) {})
	r.Actions = []ms.Action{&act{ms.ActionGroupData, func(x *ms.Transaction) { x.Intervention().Url = &url.URL{Host: "h"} }}, actions.NewActionPass()}
	e.AddSecRule(r)
	x := tx(t, e)
	(&req{}).step(x, 2)
	if i := x.Result(); i.Url != nil {
		t.Fatalf("%+v", i)
	}'''),
# ---- others
dict(id='C06-link-direct', property='C06', edits=[(M+'sec_rule.go','''		ActionsExecute(t, sub.Actions)
''','''		for _, a := range sub.Actions {
			a.Do(t)
		}
''')], needs='DetectionOnly, and a disruptive action in a later link of a chain', breaks='it takes effect', demo='''
	e := engine(t, "SecRuleEngine DetectionOnly\\nSecRule REQUEST_METHOD \\"@rx GET\\" \\"id:1,phase:2,log,chain\\"\\nSecRule REQUEST_METHOD \\"@rx G\\" \\"id:2,deny\\"\\nSecRule REQUEST_METHOD \\"@rx E\\" \\"id:3,phase:2,log\\"\\n")
	n := 0
	e.RuleSet.Phases[2][1].AppendActions(&act{ms.ActionGroupFlow, func(*ms.Transaction) { n++ }})
	x := tx(t, e)
	(&req{}).step(x, 1)
	(&req{}).step(x, 2)
	if n != 1 {
		t.Fatalf("the rule after the chain was not reached")
	}''', more=ACT),
dict(id='C13-late-response', property='C13', edits=[(M+'transaction.go','''	t.Response.Code = code
	t.Response.Proto = proto
	t.Response.Header = header
	t.ProcessPhase(PhaseResponseHeaders)''','''	if t.CurrentPhase() >= PhaseLogging { // nobody looks at it any more
		return
	}
	t.Response.Code = code
	t.Response.Proto = proto
	t.Response.Header = header
	t.ProcessPhase(PhaseResponseHeaders)''')], needs='allow in an early phase, and a logging rule that looks at the response', breaks='the logging rule sees no response', demo='''
	e := engine(t, "SecRule REQUEST_METHOD \\"@rx GET\\" \\"id:1,phase:2,allow\\"\\nSecRule RESPONSE_STATUS \\"@eq 418\\" \\"id:2,phase:logging,deny\\"\\n")
	x := tx(t, e)
	q := &req{code: 418}
	for p := 1; p <= 6; p++ {
		q.step(x, p)
	}
	if !x.Result().Disruptive {
		t.Fatalf("the response was not seen")
	}'''),
dict(id='C09-zero-unlimited', property='C09', edits=[(M+'buffer.go','	case b.length+int64(len(p)) > b.fileLimit:\n','	case b.fileLimit > 0 && b.length+int64(len(p)) > b.fileLimit:\n')], needs='a limit of zero', breaks='it is no limit', demo='''
	e := ms.NewEngine()
	e.RequestBody = 0
	e.TmpPath = os.TempDir()
	x := tx(t, e)
	defer x.Request.Body.Close()
	if x.AppendRequestBody([]byte("a")) == nil {
		t.Fatalf("accepted")
	}'''),
dict(id='C08-file-bufio', property='C08', edits=[(M+'buffer.go','''	readed    bool
}''','''	readed    bool
	ahead     *bufio.Reader // reads the file ahead
}'''),(M+'buffer.go','''			b.fileBuf.Seek(0, 0)
''','''			b.fileBuf.Seek(0, 0)
			b.ahead = bufio.NewReader(b.fileBuf)
'''),(M+'buffer.go','''	return b.fileBuf.Read(p)
''','''	return b.ahead.Read(p)
'''),(M+'buffer.go','	"bytes"\n','	"bufio"\n	"bytes"\n'),(M+'buffer.go','''	return io.Copy(w, b.fileBuf)''','''	return b.ahead.WriteTo(w)''')], needs='a body on disk that is sought after it was read in part', breaks='what was read ahead is delivered instead', imports=['io'], demo='''
	e := ms.NewEngine()
	e.RequestBodyInMem = 1
	x := tx(t, e)
	defer x.Request.Body.Close()
	x.AppendRequestBody([]byte("abcdefgh"))
	var b [2]byte
	x.Request.Body.Read(b[:])
	x.Request.Body.Seek(0, io.SeekStart)
	x.Request.Body.Read(b[:])
	if string(b[:]) != "ab" {
		t.Fatalf("read %q", b)
	}'''),
dict(id='C12-names-over-regex', property='C12', edits=[(V+'filter.go','''		if (f.include != nil || f.includeRegex != nil) &&
			!f.named(k, f.include) && !utils.StringInRegexSlice(k, f.includeRegex) {
			continue
		}
		if (f.exclude != nil && f.named(k, f.exclude)) ||
			(f.excludeRegex != nil && utils.StringInRegexSlice(k, f.excludeRegex)) {
			continue
		}''','''		if (f.include != nil || f.includeRegex != nil) &&
			!f.named(k, f.include) && !utils.StringInRegexSlice(k, f.includeRegex) {
			continue
		}
		if f.exclude != nil && f.named(k, f.exclude) {
			continue
		}
		if f.exclude == nil && f.excludeRegex != nil && utils.StringInRegexSlice(k, f.excludeRegex) {
			continue
		}''')], needs='exclusions by name and by expression on one target', breaks='the expression excludes nothing', demo='''
	if n := (&req{url: "/?abc=1"}).denied(t, "SecRule ARGS_GET|!ARGS_GET:x|!ARGS_GET:/^a/ \\"@rx 1\\" \\"id:1,phase:2,deny\\"\\n"); n != 0 {
		t.Fatalf("excluded entry inspected")
	}'''),
dict(id='C07-lazy-index', property='C07', race=True, edits=[(V+'filter.go','''	ignoreCase   bool // names''','''	looked       map[string]bool
	ignoreCase   bool // names'''),(V+'filter.go','''	for k, v := range vs {
		if (f.include''','''	for k, v := range vs {
		if drop, ok := f.looked[k]; ok && drop {
			continue
		}
		if (f.include'''),(V+'filter.go','''			!f.named(k, f.include) && !utils.StringInRegexSlice(k, f.includeRegex) {
			continue''','''			!f.named(k, f.include) && !utils.StringInRegexSlice(k, f.includeRegex) {
			if len(f.looked) < 100 {
				if f.looked == nil {
					f.looked = make(map[string]bool)
				}
				f.looked[k] = true
			}
			continue''')], needs='two transactions at the same target at the same time', breaks='a map is written without a lock', imports=['sync','fmt'], demo='''
	e := engine(t, "SecRule ARGS_GET:a \\"@rx zzz\\" \\"id:1,phase:2,deny\\"\\n")
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		x := tx(t, e)
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			q := &req{url: fmt.Sprintf("/?b%d=1&c%d=2", g, g)}
			q.step(x, 1)
			q.step(x, 2)
		}(g)
	}
	wg.Wait()'''),
dict(id='C17-upper-u', property='C17', edits=[('utils/urlencode.go',"(s[i+1] == 'u' || s[i+1] == 'U')","s[i+1] == 'u'")], needs='an escape written %U0041', breaks='it is not decoded', demo='''
	if n := (&req{url: "/?%U0041"}).denied(t, "SecRule QUERY_STRING \\"@rx ^A$\\" \\"id:1,phase:2,t:urlDecodeUni,deny\\"\\n"); n != 403 {
		t.Fatalf("not decoded")
	}'''),
dict(id='C18-none-valid', property='C18', edits=[(T+'none.go','	return s\n','	return strings.ToValidUTF8(s, "?")\n'),(T+'none.go','import (\n','import (\n	"strings"\n\n')], needs='t:none and a value that is not valid UTF-8', breaks='the value is altered', demo='''
	if n := (&req{url: "/?a=%ff"}).denied(t, "SecRule ARGS \\"@rx [?]\\" \\"id:1,phase:2,t:none,deny\\"\\n"); n != 0 {
		t.Fatalf("value altered")
	}'''),
dict(id='C22-swap-nulls', property='C22', edits=[(S+'trans.go','transforms.NewTransRemoveNulls','transforms.NewTransReplaceNulls'),], needs='t:removeNulls and a value with a NUL byte', breaks='the NUL is replaced by a blank', demo='''
	if n := (&req{url: "/?a=x%00y"}).denied(t, "SecRule ARGS \\"@rx ^xy$\\" \\"id:1,phase:2,t:removeNulls,deny\\"\\n"); n != 403 {
		t.Fatalf("not removed")
	}'''),
dict(id='C22-post-names', property='C22', edits=[(S+'variable.go','variableNoArgErrWrapper(variables.NewVariableArgsPostNames)','variableNoArgErrWrapper(variables.NewVariableArgsNames)')], needs='ARGS_POST_NAMES and a query string', breaks='the names of the query are looked at too', demo='''
	if n := (&req{method: "POST", url: "/?q=1", body: "b=1"}).denied(t, "SecRequestBodyAccess On\\nSecRule ARGS_POST_NAMES \\"@rx ^q$\\" \\"id:1,phase:request,deny\\"\\n"); n != 0 {
		t.Fatalf("the query was looked at")
	}'''),
dict(id='C22-cookie-names', property='C22', edits=[(S+'variable.go','variableNoArgErrWrapper(variables.NewVariableRequestCookiesNames)','variableNoArgErrWrapper(variables.NewVariableRequestCookies)')], needs='REQUEST_COOKIES_NAMES', breaks='the values of the cookies are inspected instead of their names', demo='''
	if n := (&req{h: http.Header{"Cookie": {"a=b"}}}).denied(t, "SecRule REQUEST_COOKIES_NAMES \\"@rx ^a$\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("the name was not seen")
	}'''),
dict(id='C19-atoi', property='C19', edits=[(O+'compare.go','''	s = strings.TrimSpace(s)
''','''	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, ' '); i > 0 { // a number followed by its unit
		s = s[:i]
	}
''')], needs='a value that is a number followed by a blank and text', breaks='it counts as that number rather than as zero', demo='''
	if n := (&req{url: "/?a=12+kb"}).denied(t, "SecRule ARGS \\"@eq 12\\" \\"id:1,phase:2,deny\\"\\n"); n != 0 {
		t.Fatalf("matched")
	}'''),
dict(id='C01-op-once', property='C01', edits=[(M+'sec_rule.go','''	for _, v := range r.FetchAllTransformedVariables(t) {
		if t.Abort {
			return false
		}
''','''	last := ""
	for i, v := range r.FetchAllTransformedVariables(t) {
		if t.Abort {
			return false
		}
		if i > 0 && len(v) > 64 && len(v) == len(last) && v[:64] == last[:64] { // looked at already
			continue
		}
		last = v
''')], needs='two long values of equal length that begin alike, of which the second matches', breaks='the second is not inspected', imports=['strings'], demo='''
	l := strings.Repeat("x", 70)
	if n := (&req{url: "/?a=" + l + "y&a=" + l + "z"}).denied(t, "SecRule ARGS:a \\"@rx z$\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("the second value was not inspected")
	}'''),
dict(id='C11-long-name', property='C11', edits=[('utils/urlencode.go','''			res.WriteByte(UnHex(s[i+1])<<4 | UnHex(s[i+2]))
			i += 3
		case uni''','''			c := UnHex(s[i+1])<<4 | UnHex(s[i+2])
			if c == 0 && i+3 == len(s) { // a terminator
				return res.String(), errCount
			}
			res.WriteByte(c)
			i += 3
		case uni''')], needs='a value that ends in an escaped NUL', breaks='the NUL is dropped', demo='''
	if n := (&req{url: "/?a=x%00"}).denied(t, "SecRule ARGS \\"@rx ^x$\\" \\"id:1,phase:2,deny\\"\\n"); n != 0 {
		t.Fatalf("the NUL was dropped")
	}'''),
dict(id='C02-abort-late', property='C02', edits=[(M+'sec_rule.go','''	for _, sub := range r.SubRules {
		if !sub.Match(t) {
			return
		}
	}''','''	for i, sub := range r.SubRules {
		if i > 0 && sub.Phase > r.Phase { // not yet
			continue
		}
		if !sub.Match(t) {
			return
		}
	}''')], needs='a chain whose third link names a later phase', breaks='the link is not evaluated, the chain acts without it', demo='''
	if n := (&req{url: "/?a=1"}).denied(t, "SecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,deny,chain\\"\\nSecRule ARGS \\"@rx 1\\" \\"id:2,phase:2,chain\\"\\nSecRule ARGS \\"@rx 2\\" \\"id:3,phase:4\\"\\n"); n != 0 {
		t.Fatalf("denied although a link does not match")
	}'''),
dict(id='C05-log-cap', property='C05', edits=[(M+'transaction.go','''	i.Log = append(i.Log, buffer.String())''','''	i.Log = append(i.Log, buffer.String())
	if n := len(i.Log); n > 1 && i.Log[n-1] == i.Log[n-2] && !i.Disruptive { // said already
		i.Log = i.Log[:n-1]
	}''')], needs='two equal log entries in a row', breaks='they are delivered as one', more=ACT, demo='''
	e := ms.NewEngine()
	e.AddSecRule(rule(2, func(x *ms.Transaction) { x.Logf("hit") }), rule(2, func(x *ms.Transaction) { x.Logf("hit") }))
	x := tx(t, e)
	(&req{}).step(x, 2)
	if n := len(x.Result().Log); n != 2 {
		t.Fatalf("%d log lines", n)
	}'''),
dict(id='C10-close-twice', property='C10', edits=[(M+'buffer.go','''	filename := b.fileBuf.Name()
	err := b.fileBuf.Close()
	err2 := os.Remove(filename)''','''	filename := b.fileBuf.Name()
	err := b.fileBuf.Close()
	if err != nil {
		return err
	}
	err2 := os.Remove(filename)''')], needs='closing the file fails', breaks='the file stays', demo='''
	dir, _ := os.MkdirTemp(os.Getenv("DEMO_SCRATCH"), "x")
	e := ms.NewEngine()
	e.TmpPath, e.RequestBodyInMem = dir, 1
	x := tx(t, e)
	x.AppendRequestBody([]byte("abcdef"))
	fs, _ := os.ReadDir("/proc/self/fd")
	for _, f := range fs {
		if to, _ := os.Readlink("/proc/self/fd/" + f.Name()); strings.HasPrefix(to, dir) {
			n, _ := strconv.Atoi(f.Name())
			syscall.Close(n)
		}
	}
	x.Request.Body.Close()
	if l, _ := os.ReadDir(dir); len(l) != 0 {
		t.Fatalf("the file stays")
	}''', imports=['strings','strconv','syscall']),
dict(id='C21-host-lower', property='C21', edits=[(V+'remote_addr.go','''	return []string{t.SrcIp}''','''	if i := strings.IndexByte(t.SrcIp, '%'); i >= 0 { // without the zone
		t.SrcIp = t.SrcIp[:i]
	}
	return []string{t.SrcIp}'''),(V+'remote_addr.go','import (\n','import (\n	"strings"\n\n')], needs='a client with a scoped address, and REMOTE_ADDR inspected', breaks='inspecting alters the client address kept in the transaction', demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\"@rx zzz\\" \\"id:1,phase:2,deny\\"\\n")
	x := tx(t, e)
	q := &req{src: "fe80::1%eth0"}
	q.step(x, 1)
	q.step(x, 2)
	if x.SrcIp != "fe80::1%eth0" {
		t.Fatalf("%s", x.SrcIp)
	}'''),
dict(id='C25-values-seen', property='C25', edits=[(V+'filter.go','''	for k, _ := range withName {
		res = append(res, k)
	}''','''	for k, _ := range withName {
		known := false
		for _, r := range res {
			known = known || r == k
		}
		if !known {
			res = append(res, k)
		}
	}''')], needs='very many names', breaks='listing them takes time with the square of their number', imports=['strings','fmt'], demo=SLOW+'''
	query := func(n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "&a%d=", i)
		}
		return b.String()
	}
	e := engine(t, "SecRule ARGS_GET_NAMES \\"@rx zzz\\" \\"id:1,phase:2,deny\\"\\n")
	run := func(n int) func() {
		q := &req{url: "/?" + query(n)}
		return func() {
			x := tx(t, e)
			q.step(x, 1)
			q.step(x, 2)
		}
	}
	small, big := cost(run(2000)), cost(run(64000))
	if big > 200*small {
		t.Fatalf("%v for 2000 names, %v for 64000", small, big)
	}'''),
dict(id='C26-sub-phase', property='C26', edits=[(M+'sec_rule.go','''func (r *SecRule) AppendSubRules(sub ...*SecRule) {
''','''func (r *SecRule) AppendSubRules(sub ...*SecRule) {
	if len(r.SubRules) == 0 {
		r.SubRules = sub
		return
	}
''')], needs='sub-rules given as a slice with spare room or reused, then more appended', breaks='the rule shares the caller\'s slice', more=ACT, demo='''
	no := rule(2, nil)
	no.Not = true
	subs := []*ms.SecRule{rule(2, func(*ms.Transaction) {})}
	r := rule(2, func(x *ms.Transaction) { x.AbortWithStatus(500) })
	r.AppendSubRules(subs...)
	subs[0] = no
	e := ms.NewEngine()
	e.AddSecRule(r)
	x := tx(t, e)
	(&req{}).step(x, 2)
	if !x.Abort {
		t.Fatalf("another sub-rule was evaluated")
	}'''),
dict(id='C16-value-prefix', property='C16', edits=[(PA+'seclang_token.go','"(?i)^%s$"','"(?i)^%s"')], needs='a directive with an argument that begins like a valid one', breaks='On1 is accepted as On', demo='''
	if _, err := seclang.NewDireSetFromSecLangString("SecRuleEngine Online\\n"); err == nil {
		t.Fatalf("accepted")
	}'''),
dict(id='C20-ct-params', property='C20', edits=[(V+'request_body_parser.go','''		if !strings.HasPrefix(ct, parser.contentType) {
			continue
		}''','''		if !strings.HasPrefix(ct, parser.contentType) {
			continue
		}
		if tp == bodyTypeMultipart && len(params["boundary"]) < 1 && ct[len(ct)-1] == '/' {
			ct = ct[:strings.LastIndexByte(ct[:len(ct)-11], '/')+1]
		}''')], needs='Content-Type: multipart/ without subtype or boundary', breaks='a panic', demo='''
	(&req{method: "POST", body: "a", h: http.Header{"Content-Type": {"multipart/"}}}).denied(t, "SecRequestBodyAccess On\\nSecRule ARGS \\"@rx 1\\" \\"id:1,phase:request,deny\\"\\n")'''),
dict(id='C15-tag-dup', property='C15', edits=[(S+'actions.go','''				dr.rule.MetaData[k] = append(dr.rule.MetaData[k], v)
''','''				if n := len(dr.rule.MetaData[k]); n > 0 && dr.rule.MetaData[k][n-1] == v {
					continue // once is enough
				}
				dr.rule.MetaData[k] = append(dr.rule.MetaData[k], v)
''')], needs='a rule with the same tag twice in a row', breaks='one is dropped', demo='''
	e := engine(t, "SecRule ARGS \\"@rx a\\" \\"id:1,phase:2,tag:x,tag:x\\"\\n")
	if n := len(e.RuleSet.Phases[2][0].MetaData["tag"]); n != 2 {
		t.Fatalf("%d tags", n)
	}'''),
dict(id='C23-pass-abort', property='C23', edits=[(M+'transaction.go','''	if t.Abort { // stays intercepted, but delivers its log once''','''	if t.Abort && t.Engine.Enabled { // stays intercepted, but delivers its log once''')], needs='an abort in DetectionOnly, a collection, then the engine is switched on', breaks='later results are not disruptive', demo='''
	e := ms.NewEngine()
	e.Enable(ms.StatusDect)
	x := tx(t, e)
	x.AbortWithStatus(500)
	x.Result()
	e.Enable(ms.StatusOn)
	if i := x.Result(); !i.Disruptive || i.Status != 500 {
		t.Fatalf("%+v", i)
	}'''),
dict(id='C24-cache-engine', property='C24', edits=[(M+'engine.go','''	RuleSet       *SecRuleSet
	*Limits''','''	RuleSet       *SecRuleSet
	last          *Transaction
	*Limits'''),(M+'engine.go','	return NewTransaction(e, e.RuleSet)\n','''	t, err := NewTransaction(e, e.RuleSet)
	e.last = t
	return t, err
''')], needs='an idle engine after a big transaction', breaks='the engine keeps the last transaction, with its body', imports=['runtime'], demo='''
	e := ms.NewEngine()
	gone := make(chan bool, 1)
	func() {
		x, _ := e.NewTransaction()
		runtime.SetFinalizer(x, func(*ms.Transaction) { gone <- true })
	}()
	for i := 0; i < 50; i++ {
		runtime.GC()
		select {
		case <-gone:
			runtime.KeepAlive(e)
			return
		case <-time.After(20 * time.Millisecond):
		}
	}
	runtime.KeepAlive(e)
	t.Fatalf("the transaction is kept")'''),
dict(id='C29-jump-phase-same', property='C29', edits=[(M+'transaction.go','''	s.currentPhase = i
	s.currentRule''','''	if s.currentPhase == i { // there already
		return i
	}
	s.currentPhase = i
	s.currentRule''')], needs='a rule that jumps to the phase it is in, or a phase announced after a jump to it', breaks='the position is kept', more=ACT, demo='''
	e := ms.NewEngine()
	var at []int
	look := func(x *ms.Transaction) { at = append(at, x.CurrentRule()) }
	e.AddSecRule(rule(2, func(x *ms.Transaction) { x.JumpToPhase(3); x.JumpTo(1) }), rule(3, look), rule(3, look))
	x := tx(t, e)
	(&req{}).step(x, 2)
	(&req{}).step(x, 3)
	if len(at) != 2 {
		t.Fatalf("%v", at)
	}'''),
]
BUGS = [b for b in BUGS if b]
