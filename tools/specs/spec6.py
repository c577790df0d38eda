exec(open('/verif/tools/specs/spec5.py').read().split('BUGS = [')[0])
BUGS = [
dict(id='C01-trans-order', property='C01', edits=[(S+'trans.go','''		dr.rule.Trans = append(dr.rule.Trans, a)
	}
	return nil''','''		dr.rule.Trans = append(dr.rule.Trans, a)
	}
	// decode before anything else, so that the others see the plain text
	sort.SliceStable(dr.rule.Trans, func(i, j int) bool {
		return strings.HasPrefix(dr.rule.Trans[i].Name(), "url") && !strings.HasPrefix(dr.rule.Trans[j].Name(), "url")
	})
	return nil'''),(S+'trans.go','	"fmt"\n','	"fmt"\n	"sort"\n	"strings"\n')], needs='a decoding listed after another transformation whose order matters', breaks='transformations are applied in another order than listed', demo='''
	text := "SecRule REQUEST_HEADERS:X \\"^A$\\" \\"id:1,phase:2,t:lowercase,t:urlDecode,deny\\"\\n"
	if got := (&req{url: "/", h: http.Header{"X": {"%41"}}}).denied(t, text); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C01-value-cap', property='C01', edits=[(M+'sec_rule.go','''	for _, v := range variable.Fetch(t) {
		res = append''','''	for i, v := range variable.Fetch(t) {
		if i == 1024 { // bound the work
			break
		}
		res = append''')], needs='a target that designates more than 1024 values, a later one matching', breaks='values beyond the 1024th are not inspected', imports=['strings'], demo='''
	text := "SecRule ARGS \\"evil\\" \\"id:1,phase:2,deny\\"\\n"
	q := strings.Repeat("a=1&", 2000) + "a=evil"
	if got := (&req{url: "/?" + q}).denied(t, text); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C02-sub-optional', property='C02', edits=[(M+'sec_rule.go','''		if !sub.Match(t) {
			return
		}''','''		if !sub.Match(t) && len(sub.Actions) > 0 {
			return
		}''')], needs='a chain whose non-matching link has no action of its own', breaks='the chain acts although a link does not match', demo='''
	text := "SecRule REQUEST_METHOD \\"GET\\" \\"id:1,phase:2,deny,chain\\"\\nSecRule ARGS:a \\"x\\" \\"t:lowercase\\"\\n"
	if got := (&req{url: "/?a=y"}).denied(t, text); got != 0 {
		t.Fatalf("status %d", got)
	}
	if got := (&req{url: "/?a=X"}).denied(t, text); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C03-logging-twice', property='C03', edits=[(M+'transaction.go','''	t.ProcessPhase(PhaseLogging)
''','''	t.processedPhase = PhaseResponseBody // always log
	t.JumpToPhase(PhaseResponseBody)
	t.ProcessPhase(PhaseLogging)
''')], needs='the logging phase announced twice', breaks='the logging phase runs a second time', demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\".\\" \\"id:1,phase:logging,log\\"\\n")
	x := tx(t, e)
	for p := 1; p <= 6; p++ {
		(&req{url: "/"}).step(x, p)
	}
	x.ProcessLogging()
	if n := len(x.Result().Log); n != 1 {
		t.Fatalf("%d log entries", n)
	}'''),
dict(id='C06-off-resets-access', property='C06', edits=[(M+'engine.go','''		e.Enabled = false
		e.DetectionOnly = false
	case StatusDect''','''		e.Enabled = false
		e.DetectionOnly = false
		e.RequestBodyAccess = false // nothing is read while off
		e.ResponseBodyAccess = false
	case StatusDect''')], needs='body access switched on before SecRuleEngine Off, which a later directive or call turns on again', breaks='body access is lost', demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRuleEngine Off\\nSecRuleEngine On\\nSecRule ARGS_POST:a \\"evil\\" \\"id:1,phase:3,deny\\"\\n")
	q := &req{method: "POST", url: "/", h: form(nil), body: "a=evil"}
	for _, r := range q.run(t, e)[1:] {
		if r.Disruptive {
			return
		}
	}
	t.Fatalf("the body is not inspected")'''),
dict(id='C08-fast-read', property='C08', edits=[(M+'buffer.go','''	b.initRead()
	if b.fileBuf == nil {
		return b.memReader.Read(p)
	}''','''	b.initRead()
	if b.fileBuf == nil && len(p) > b.memBuf.Len() { // all of it at once
		if b.memReader.Len() == 0 {
			return 0, io.EOF
		}
		return b.memBuf.Read(p)
	}
	if b.fileBuf == nil {
		return b.memReader.Read(p)
	}''')], needs='a body in memory read into a buffer larger than the body and read or inspected again', breaks='a body reads back differently', demo='''
	x := tx(t, engine(t, ""))
	x.AppendRequestBody([]byte("hello world"))
	p := make([]byte, 64)
	n, _ := x.Request.Body.Read(p)
	x.Request.Body.Seek(0, 0)
	if s, err := x.Request.Body.String(); n != 11 || err != nil || s != "hello world" {
		t.Fatalf("%d %q %v", n, s, err)
	}'''),
dict(id='C11-php-array', property='C11', edits=[(V+'args_posts.go','''		content, ok := parsed.(*multipart.Form)
		if content == nil || !ok {
			return nil
		}
		return v.filter.Fetch(content.Value)''','''		content, ok := parsed.(*multipart.Form)
		if content == nil || !ok {
			return nil
		}
		values := make(map[string][]string)
		for name, vs := range content.Value {
			name = strings.TrimSuffix(name, "[]") // arrays
			values[name] = append(values[name], vs...)
		}
		return v.filter.Fetch(values)'''),(V+'args_posts.go','	"net/url"\n','	"net/url"\n	"strings"\n')], needs='a multipart argument selected by a name that ends in []', breaks='the argument is presented under another name', demo='''
	text := "SecRequestBodyAccess On\\nSecRule ARGS_POST:a[] \\"evil\\" \\"id:1,phase:3,deny\\"\\n"
	h := http.Header{"Content-Type": {"multipart/form-data; boundary=xx"}}
	b := "--xx\\r\\nContent-Disposition: form-data; name=\\"a[]\\"\\r\\n\\r\\nevil\\r\\n--xx--\\r\\n"
	if got := (&req{method: "POST", url: "/", h: h, body: b}).denied(t, text); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C12-empty-regex', property='C12', edits=[(V+'filter.go','	if len(str) < 2 {\n','	if len(str) < 3 {\n')], needs='a selector with an empty expression, NAME://', breaks='the selector is taken for a name', demo='''
	text := "SecRule ARGS:// \\"evil\\" \\"id:1,phase:2,deny\\"\\n"
	if got := (&req{url: "/?a=evil"}).denied(t, text); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C12-last-word', property='C12', edits=[(V+'filter.go','''	f.include = append(f.include, s)
	return nil''','''	for i, e := range f.exclude { // the last word counts
		if e == s {
			f.exclude = append(f.exclude[:i:i], f.exclude[i+1:]...)
			break
		}
	}
	f.include = append(f.include, s)
	return nil''')], needs='an entry that is excluded and, later in the list, selected', breaks='an excluded entry is selected', demo='''
	text := "SecRule ARGS:b|!ARGS:a|ARGS:a \\"evil\\" \\"id:1,phase:2,deny\\"\\n"
	if got := (&req{url: "/?a=evil&b=x"}).denied(t, text); got != 0 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C13-proto-default', property='C13', edits=[(V+'response_protocol.go','	return []string{t.Response.Proto}','''	if t.Response.Proto == "" {
		return []string{t.Request.Proto}
	}
	return []string{t.Response.Proto}''')], needs='a response announced with an empty protocol', breaks='the protocol of the request stands in for that of the response', demo='''
	e := engine(t, "SecRule RESPONSE_PROTOCOL \\"HTTP\\" \\"id:1,phase:4,deny\\"\\n")
	x := tx(t, e)
	(&req{url: "/"}).step(x, 2)
	x.ProcessResponseHeaders(200, "", nil)
	if x.Result().Disruptive {
		t.Fatalf("an empty protocol matched")
	}'''),
dict(id='C13-double-slash', property='C13', edits=[(V+'request_filename.go','	return []string{t.URL.Path}','''	p := t.URL.Path
	for strings.HasPrefix(p, "//") {
		p = p[1:]
	}
	return []string{p}'''),(V+'request_filename.go','import (\n','import (\n	"strings"\n\n')], needs='a path that begins with several slashes', breaks='the path is altered', demo='''
	e := engine(t, "SecRule REQUEST_FILENAME \\"^//a\\" \\"id:1,phase:2,deny\\"\\n")
	x := tx(t, e)
	x.ProcessRequestURL(&url.URL{Path: "//a/b"}, "GET", "HTTP/1.1")
	x.ProcessRequestHeader(nil)
	if !x.Result().Disruptive {
		t.Fatalf("the path was altered")
	}'''),
dict(id='C13-v6-brackets', property='C13', edits=[(V+'remote_addr.go','	return []string{t.SrcIp}','	return []string{strings.TrimSuffix(strings.TrimPrefix(t.SrcIp, "["), "]")}'),(V+'remote_addr.go','import (\n','import (\n	"strings"\n\n')], needs='a client address written in brackets', breaks='the address is altered', demo='''
	if got := (&req{url: "/", src: "[::1]"}).denied(t, "SecRule REMOTE_ADDR \\"^\\\\\\\\[\\" \\"id:1,phase:1,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C13-cookie-same', property='C13', edits=[(V+'request_cookies.go','			res[name] = append(res[name], val)\n','''			if n := len(res[name]); n > 0 && res[name][n-1] == val {
				continue // sent again
			}
			res[name] = append(res[name], val)
''')], needs='a cookie sent twice with one value, and a count of the cookies', breaks='a cookie is missing', demo='''
	if got := (&req{url: "/", h: http.Header{"Cookie": {"a=1; a=1"}}}).denied(t, "SecRule &REQUEST_COOKIES \\"@eq 2\\" \\"id:1,phase:2,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C14-status-array', property='C14', edits=[(A+'status.go','''func NewActionStatus(status int) modsecurity.Action {
''','''var statusClass = [6]string{"", "informational", "success", "redirection", "client error", "server error"}

func NewActionStatus(status int) modsecurity.Action {
	if class := statusClass[status/100]; class == "" {
		status = 403
	}
''')], needs='a status action with a number of 600 or more or below -99', breaks='loading panics', demo='''
	for _, s := range []string{"700", "-200", "100000"} {
		seclang.NewDireSetFromSecLangString("SecRule ARGS \\"a\\" \\"id:1,phase:1,deny,status:" + s + "\\"\\n")
	}'''),
dict(id='C15-formfeed', property='C15', edits=[(PA+'scanner.go',"	return s.readString(' ', '\\f', '\\t', '\\v', '\\n', '\\r', EOS)","	return s.readString(' ', '\\t', '\\n', '\\r', EOS)")], needs='an unquoted argument ended by a form feed or vertical tab', breaks='the following argument is taken into it', demo='''
	for _, sep := range []string{"\\f", "\\v"} {
		text := "SecRule ARGS:a" + sep + "evil" + sep + "id:1,phase:2,deny\\n"
		if got := (&req{url: "/?a=evil"}).denied(t, text); got != 403 {
			t.Fatalf("status %d", got)
		}
	}'''),
dict(id='C16-chain-carried', property='C16', edits=[(S+'rule_set.go','	var chainParent *DireRule\n','	chainParent := rs.chainParent\n'),(S+'rule_set.go','type DireSet struct {\n','type DireSet struct {\n	chainParent *DireRule // chain being read\n'),(S+'rule_set.go','''	if chainParent != nil {
		return fmt''','''	rs.chainParent = chainParent
	if chainParent != nil {
		return fmt''')], needs='a text refused for its open chain, and a further text added to the same configuration', breaks='the next rule becomes part of the refused chain', demo='''
	ds := seclang.NewDireSet()
	if ds.AddSecLangString("SecRule ARGS:a \\"x\\" \\"id:1,phase:2,deny,chain\\"\\n") == nil {
		t.Fatalf("accepted")
	}
	if err := ds.AddSecLangString("SecRule ARGS:b \\"evil\\" \\"id:2,phase:2,deny\\"\\n"); err != nil {
		t.Fatalf("%v", err)
	}
	e := engine(t, "")
	ds.Execute(e)
	if n := len(e.RuleSet.Phases[2]); n != 1 {
		t.Fatalf("%d rules", n)
	}'''),
dict(id='C16-limit', property='C16', edits=[(PA+'scanner.go','		r:          bufio.NewReader(r),\n','		r:          bufio.NewReader(io.LimitReader(r, 1<<20)),\n')], needs='a rule text of more than a megabyte', breaks='what follows the first megabyte is dropped without an error', imports=['strings'], demo='''
	e := engine(t, "SecRuleEngine On\\n"+strings.Repeat("\\n", 1<<20)+"SecRule ARGS \\"a\\" \\"id:1,phase:2,deny\\"\\n")
	if n := len(e.RuleSet.Phases[2]); n != 1 {
		t.Fatalf("%d rules", n)
	}'''),
dict(id='C17-latin1', property='C17', edits=[('utils/urlencode.go','''			n := utf8.EncodeRune(runeTmp[:], v)
''','''			n := utf8.EncodeRune(runeTmp[:], v)
			if v >= 0x80 && v <= 0xff { // a single byte
				runeTmp[0], n = byte(v), 1
			}
''')], needs='an escape %u0080 to %u00ff under urlDecodeUni', breaks='the code point is not encoded as UTF-8', demo='''
	h := http.Header{"X": {"%u00e9"}}
	if got := (&req{url: "/", h: h}).denied(t, "SecRule REQUEST_HEADERS:X \\"^\u00e9$\\" \\"id:1,phase:2,t:urlDecodeUni,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C19-rx-long', property='C19', edits=[(O+'rx.go','	return o.match.MatchString(s)','''	if len(s) > 1<<16 { // bound the work
		s = s[:1<<16]
	}
	return o.match.MatchString(s)''')], needs='a value of more than 64 KiB that matches only near its end', breaks='the end of the value is not looked at', imports=['strings'], demo='''
	h := http.Header{"X": {strings.Repeat("a", 70000) + "evil"}}
	if got := (&req{url: "/", h: h}).denied(t, "SecRule REQUEST_HEADERS:X \\"evil$\\" \\"id:1,phase:2,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C20-ct-default', property='C20', edits=[(V+'response_content_type.go','''		ct = "application/octet-stream"
''','''		ct = "application/octet-stream"
		t.Response.Header.Set("Content-Type", ct)
''')], needs='a rule on the response content type in a phase before the response headers, in a response without the header', breaks='the transaction panics or the header is added to the response', demo='''
	e := engine(t, "SecRule RESPONSE_CONTENT_TYPE \\"a\\" \\"id:1,phase:1,log\\"\\n")
	(&req{url: "/"}).run(t, e)'''),
dict(id='C21-url-fill', property='C21', edits=[(V+'request_filename.go','	return []string{t.URL.Path}','''	p := t.URL.Path
	if p == "" && t.URL.Host != "" {
		t.URL.Path = "/"
	}
	return []string{p}''')], needs='a URL with a host and without a path, inspected twice', breaks='the URL is modified and a second evaluation gives another value', demo='''
	e := engine(t, "SecRule REQUEST_FILENAME \\"x\\" \\"id:1,phase:2,log\\"\\n")
	x := tx(t, e)
	u := &url.URL{Scheme: "http", Host: "a"}
	x.ProcessRequestURL(u, "GET", "HTTP/1.1")
	x.ProcessRequestHeader(nil)
	if u.Path != "" {
		t.Fatalf("path %q", u.Path)
	}'''),
dict(id='C22-severity-swap', property='C22', edits=[(PA+'seclang_token.go','	"NOTICE":    5,\n	"INFO":      6,','	"INFO":      5,\n	"NOTICE":    6,')], needs='a rule of severity NOTICE or INFO', breaks='the severity is another', demo='''
	e := engine(t, "SecRule ARGS \\"x\\" \\"id:1,phase:2,severity:NOTICE,log\\"\\n")
	if s := e.RuleSet.Phases[2][0].MetaData["severity"]; len(s) != 1 || s[0] != "5" {
		t.Fatalf("severity %v", s)
	}'''),
dict(id='C23-mode-later', property='C23', edits=[(M+'transaction.go','''func (t *Transaction) AbortWithStatus(code int) {
	t.Abort = true
	i := t.Intervention()
	i.Status = code
	i.Disruptive = true''','''func (t *Transaction) AbortWithStatus(code int) {
	t.Abort = true
	i := t.Intervention()
	i.Status = code
	i.Disruptive = t.Engine.Enabled''')], needs='a transaction aborted by a call while the engine is off, which is turned on afterwards', breaks='the aborted transaction is not disruptive', demo='''
	e := engine(t, "SecRuleEngine DetectionOnly\\n")
	x := tx(t, e)
	x.AbortWithStatus(418)
	e.Enable(ms.StatusOn)
	if r := x.Result(); !r.Disruptive || r.Status != 418 {
		t.Fatalf("%+v", r)
	}'''),
dict(id='C24-afterfunc', property='C24', edits=[(M+'transaction.go','''	return &Transaction{
		RuleSet:       rs,''','''	time.AfterFunc(time.Hour, func() { // abandoned
		reqBody.Close()
		resBody.Close()
	})
	return &Transaction{
		RuleSet:       rs,''')], needs='many transactions with bodies, within an hour', breaks='memory of finished transactions is kept', imports=['runtime','strings'], demo='''
	e := engine(t, "")
	heap := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	body := strings.Repeat("a", 100000)
	(&req{method: "POST", url: "/", body: body}).run(t, e)
	was := heap()
	for i := 0; i < 200; i++ {
		(&req{method: "POST", url: "/", body: body}).run(t, e)
	}
	if now := heap(); now > was+5<<20 {
		t.Fatalf("%d bytes more", now-was)
	}'''),
dict(id='C24-load-errors', property='C24', edits=[(PA+'scanner.go','''func (s *Scanner) readDirective() (Directive, error) {
''','''// badTexts holds what could not be read, for reports.
var badTexts []string

func (s *Scanner) readDirective() (Directive, error) {
'''),(PA+'scanner.go','''	if td == nil {
		return nil, fmt''','''	if td == nil {
		badTexts = append(badTexts, dir)
		return nil, fmt''')], needs='many refused texts with an unknown directive', breaks='memory grows with the number of refused texts', imports=['runtime','strings'], demo='''
	heap := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	text := "SecRuleEngine On\\n" + strings.Repeat("Nonsense", 10000) + " x\\n"
	seclang.NewDireSetFromSecLangString(text)
	was := heap()
	for i := 0; i < 300; i++ {
		seclang.NewDireSetFromSecLangString(text)
	}
	if now := heap(); now > was+5<<20 {
		t.Fatalf("%d bytes more", now-was)
	}'''),
dict(id='C25-meta-copy', property='C25', edits=[(S+'actions.go','				dr.rule.MetaData[k] = append(dr.rule.MetaData[k], v)\n','				dr.rule.MetaData[k] = append(append([]string(nil), dr.rule.MetaData[k]...), v)\n')], needs='a rule with tens of thousands of tags', breaks='loading takes time quadratic in the number of tags', imports=['strings'], demo=SLOW+'''
	text := func(n int) string { return "SecRule ARGS \\"x\\" \\"id:1,phase:2" + strings.Repeat(",tag:a", n) + ",log\\"\\n" }
	small, big := text(2000), text(40000)
	a := cost(func() { seclang.NewDireSetFromSecLangString(small) })
	b := cost(func() { seclang.NewDireSetFromSecLangString(big) })
	if b > 80*a {
		t.Fatalf("%v for 2000, %v for 40000", a, b)
	}'''),
dict(id='C25-log-copy', property='C25', edits=[(M+'transaction.go','''	i := t.Intervention()
	i.Log = append(i.Log, buffer.String())''','''	i := t.Intervention()
	i.Log = append(append([]string(nil), i.Log...), buffer.String())''')], needs='a transaction that logs tens of thousands of entries between two collections', breaks='the work is quadratic in the number of entries', imports=['strings'], demo=SLOW+'''
	e := engine(t, strings.Repeat("SecRule REMOTE_ADDR \\".\\" \\"id:1,phase:1,log\\"\\n", 100))
	log := func(n int) {
		x := tx(t, e)
		for i := 0; i < n; i++ {
			x.Logf("entry")
		}
	}
	a := cost(func() { log(2000) })
	b := cost(func() { log(60000) })
	if b > 120*a {
		t.Fatalf("%v for 2000, %v for 60000", a, b)
	}'''),
dict(id='C27-newline', property='C27', edits=[(M+'transaction.go','	i.Log = append(i.Log, buffer.String())','	i.Log = append(i.Log, strings.Replace(buffer.String(), "\\n", " ", -1)) // one line'),(M+'transaction.go','	"net/url"\n','	"net/url"\n	"strings"\n')], needs='a message or address with a newline', breaks='the entry is not literal', demo='''
	x := tx(t, engine(t, ""))
	x.Logf("a%sb", "\\n")
	if l := x.Result().Log; len(l) != 1 || l[0] != "[client :] (phase 0) a\\nb" {
		t.Fatalf("%q", l)
	}'''),
]
