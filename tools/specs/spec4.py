M='modsecurity/'; V=M+'variables/'; A=M+'actions/'; O=M+'operators/'; T=M+'transforms/'; S='seclang/'; PA=S+'parser/'
GROW='''
	grew := func(n int, f func(i int)) int {
		live := func() int {
			runtime.GC()
			runtime.GC()
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			return int(m.HeapObjects)
		}
		for i := 0; i < 300; i++ {
			f(i)
		}
		a := live()
		for i := 0; i < n; i++ {
			f(300 + i)
		}
		return live() - a
	}
'''
SLOW='''
	cost := func(f func()) time.Duration {
		best := time.Hour
		for i := 0; i < 3; i++ {
			at := time.Now()
			f()
			if d := time.Since(at); d < best {
				best = d
			}
		}
		return best
	}
'''
BUGS = [
# ---- C01, C02
dict(id='C01-trans-memo', property='C01', edits=[(M+'sec_rule.go','''	var res []string
	for _, v := range variable.Fetch(t) {
		res = append(res, r.TransformString(t, v))
	}
	return res''','''	vs := variable.Fetch(t)
	res := make([]string, len(vs))
	for i, v := range vs {
		if i > 0 && len(v) == len(vs[i-1]) && len(v) > 32 && v[:32] == vs[i-1][:32] {
			res[i] = res[i-1] // the same value again
			continue
		}
		res[i] = r.TransformString(t, v)
	}
	return res''')], needs='two values of one target next to each other, of equal length and with the same first 32 bytes', breaks='a value is taken for the one before it', demo='''
	p := strings.Repeat("p", 40)
	q := &req{url: "/?a=" + p + "1&a=" + p + "2"}
	if n := q.denied(t, "SecRule ARGS_GET:a \\"@rx 2$\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("the second value was not inspected")
	}''', imports=['strings']),
dict(id='C01-act-once', property='C01', edits=[(M+'sec_rule.go','''	actionMap := make([][]Action, ActionGroupCount)
	for _, a := range as {
''','''	actionMap := make([][]Action, ActionGroupCount)
	if len(as) > 8 {
		as = append([]Action(nil), as[:8]...)
	}
	for _, a := range as {
''')], needs='a rule with more than eight actions', breaks='the actions after the eighth do not run', demo='''
	q := &req{url: "/"}
	if n := q.denied(t, "SecRule REMOTE_ADDR \\"@rx .\\" \\"id:1,phase:1,log,log,log,log,log,log,log,log,deny\\"\\n"); n != 403 {
		t.Fatalf("the last action did not run")
	}'''),
dict(id='C02-chain-len', property='C02', edits=[(M+'sec_rule.go','''	for _, sub := range r.SubRules {
		if !sub.Match(t) {''','''	for i, sub := range r.SubRules {
		if i < 7 && !sub.Match(t) {''')], needs='a chain of nine or more rules whose last does not match', breaks='the links from the ninth on are not asked', demo='''
	text := ""
	for i := 0; i < 9; i++ {
		text += "SecRule REMOTE_ADDR \\"@rx .\\" \\"id:1,phase:1,chain,deny\\"\\n"
	}
	text += "SecRule REMOTE_ADDR \\"@rx zzz\\" \\"log\\"\\n"
	if n := (&req{url: "/"}).denied(t, text); n != 0 {
		t.Fatalf("denied with %d", n)
	}'''),
dict(id='C02-shared-var', property='C02', edits=[(M+'sec_rule.go','''		if !sub.Match(t) {
			return
		}
''','''		if sub.Phase > r.Phase && sub.Phase > t.CurrentPhase() {
			break // not in this phase
		}
		if !sub.Match(t) {
			return
		}
''')], needs='a link that carries a later phase than its starter (phase:1 starter, link without phase)', breaks='the link is not asked', demo='''
	text := "SecRule REMOTE_ADDR \\"@rx .\\" \\"id:1,phase:1,chain,deny\\"\\nSecRule REMOTE_ADDR \\"@rx zzz\\" \\"log,phase:2\\"\\n"
	if n := (&req{url: "/"}).denied(t, text); n != 0 {
		t.Fatalf("denied with %d", n)
	}'''),
# ---- C08
dict(id='C08-big-chunk', property='C08', edits=[(M+'buffer.go','''	if rest := b.memLimit - b.length; rest > 0 {
		b.memBuf.Write(p[:rest])
	}
	b.fileBuf = file''','''	if rest := b.memLimit - b.length; rest > 0 {
		b.memBuf.Write(p[:rest])
	}
	if len(p) > 1<<20 {
		file.Truncate(b.length + 1<<20)
	}
	b.fileBuf = file'''),(M+'buffer.go','''		wn, err = b.memBuf.Write(p)''','''		wn, err = b.memBuf.Write(p[:len(p):len(p)])''')], needs='a chunk of more than a mebibyte that makes the body spill', breaks='what is stored is cut off', demo='''
	e := engine(t, "SecRequestBodyAccess On")
	x := tx(t, e)
	body := strings.Repeat("abcdefgh", 200000)
	if err := x.AppendRequestBody([]byte(body)); err != nil {
		t.Fatalf("%v", err)
	}
	got, _ := io.ReadAll(x.Request.Body)
	x.Request.Body.Close()
	if string(got) != body {
		t.Fatalf("%d of %d bytes", len(got), len(body))
	}''', imports=['io','strings']),
# ---- C10
dict(id='C10-fd-leak', property='C10', edits=[(M+'buffer.go','''	err := b.fileBuf.Close()
	err2 := os.Remove(filename)''','''	err := os.Remove(filename)
	var err2 error
	if err == nil {
		err2 = b.fileBuf.Close()
	}''')], needs='a body whose temporary file is gone when it is closed', breaks='the descriptor stays open', demo='''
	open := func() int {
		d, _ := os.ReadDir("/proc/self/fd")
		return len(d)
	}
	e := engine(t, "SecRequestBodyAccess On")
	e.RequestBodyInMem = 4
	n := open()
	for i := 0; i < 20; i++ {
		x := tx(t, e)
		x.AppendRequestBody([]byte("123456789"))
		fs, _ := os.ReadDir(e.TmpPath)
		for _, f := range fs {
			os.Remove(e.TmpPath + "/" + f.Name())
		}
		x.Request.Body.Close()
	}
	if open() > n+5 {
		t.Fatalf("%d descriptors, %d before", open(), n)
	}'''),
# ---- C12, C13
dict(id='C12-prefix-header', property='C12', edits=[(V+'filter.go','''func isRegex(str string) bool {
	if len(str) < 2 {
		return false
	}
	return str[0] == '/' && str[len(str)-1] == '/\'''','''func isRegex(str string) bool {
	if len(str) < 2 || strings.Contains(str[1:len(str)-1], "//") {
		return false
	}
	return str[0] == '/' && str[len(str)-1] == '/\'''')], needs='a selector expression that contains two slashes in a row', breaks='the expression is taken for a plain name', demo='''
	q := &req{url: "/?a//b=x"}
	if n := q.denied(t, "SecRule ARGS_GET:/a//b/ \\"@rx x\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("not selected")
	}'''),
dict(id='C13-force-query', property='C13', edits=[(V+'request_uri.go','''	u.Opaque = ""''','''	u.Opaque, u.ForceQuery = "", false''')], needs='a URI that ends in a question mark', breaks='the question mark is dropped', demo='''
	q := &req{url: "/a?"}
	if n := q.denied(t, "SecRule REQUEST_URI \\"@rx [?]$\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("altered")
	}'''),
dict(id='C13-status-neg', property='C13', edits=[(V+'response_status.go','strconv.Itoa(t.Response.Code)','strconv.Itoa(int(uint16(t.Response.Code)))')], needs='a response status that is negative or above 65535', breaks='another status is inspected', demo='''
	q := &req{url: "/", code: -1}
	if n := q.denied(t, "SecRule RESPONSE_STATUS \\"@eq -1\\" \\"id:1,phase:4,deny\\"\\n"); n != 403 {
		t.Fatalf("altered")
	}'''),
dict(id='C13-long-type', property='C13', edits=[(V+'response_content_type.go','''	ct, _ = mediaType(ct)
''','''	if ct, _ = mediaType(ct); len(ct) > 64 {
		ct = ct[:64]
	}
''')], needs='a response content type of more than 64 bytes', breaks='it is cut off', demo='''
	q := &req{url: "/", rh: http.Header{"Content-Type": {"application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"}}}
	if n := q.denied(t, "SecRule RESPONSE_CONTENT_TYPE \\"@rx xml$\\" \\"id:1,phase:4,deny\\"\\n"); n != 403 {
		t.Fatalf("altered")
	}'''),
# ---- C14, C15, C16
dict(id='C14-line-count', property='C14', edits=[(PA+'scanner.go','	s.LineNumber++','	s.LineNumber++\n	if s.LineNumber > 4096 && s.current == EOS {\n		s.incrementLineNumber()\n	}')], needs='a text of more than 4096 lines that ends in a newline', breaks='the stack overflows and the process dies', demo='''
	text := strings.Repeat("\\n", 5000)
	if _, err := seclang.NewDireSetFromSecLangString(text + "SecRuleEngine On\\n\\n\\n"); err != nil {
		t.Fatalf("%v", err)
	}''', imports=['strings']),
dict(id='C15-id-big', property='C15', edits=[(PA+'scanner.go','''		a.Id, err = strconv.Atoi(arg)''','''		var id uint64
		id, err = strconv.ParseUint(strings.TrimPrefix(arg, "+"), 10, 63)
		a.Id = int(uint32(id))''')], needs='an id beyond 32 bits', breaks='the rule has another id', demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\"@rx .\\" \\"id:5000000000,phase:1,deny\\"\\n")
	if id := e.RuleSet.Phases[1][0].Id; id != 5000000000 {
		t.Fatalf("id %d", id)
	}'''),
dict(id='C15-chain-meta', property='C15', edits=[(S+'rule_set.go','''				parent.rule.AppendSubRules(dr.rule)''','''				if len(dr.rule.MetaData) == 0 {
					dr.rule.MetaData = parent.rule.MetaData
				}
				parent.rule.AppendSubRules(dr.rule)''')], needs='a link without metadata in a chain whose starter has some', breaks='the link has the metadata of its starter', demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\"@rx .\\" \\"id:1,phase:1,msg:'m',chain\\"\\nSecRule REMOTE_ADDR \\"@rx .\\" \\"deny\\"\\n")
	if m := e.RuleSet.Phases[1][0].SubRules[0].MetaData; len(m) != 0 {
		t.Fatalf("metadata %v", m)
	}'''),
dict(id='C16-exec-tail', property='C16', edits=[(S+'rule_set.go','''	for _, dire := range rs.dires {
		if err := dire.Execute(e); err != nil {''','''	n := len(rs.dires)
	if n > 512 {
		n = n &^ 1
	}
	for _, dire := range rs.dires[:n] {
		if err := dire.Execute(e); err != nil {''')], needs='a configuration of an odd number of more than 512 directives', breaks='the last directive is not applied', demo='''
	e := engine(t, strings.Repeat("SecRuleEngine On\\n", 600)+"SecRuleEngine Off\\n")
	if e.Enabled {
		t.Fatalf("the last directive has no effect")
	}''', imports=['strings']),
# ---- C19
dict(id='C19-rx-multi', property='C19', edits=[(O+'rx.go','''	match, err := regexp.Compile(re)
''','''	if len(re) > 200 {
		re = "(?s)" + re
	}
	match, err := regexp.Compile(re)
''')], needs='an expression of more than 200 bytes with a dot, and a value with a newline at that place', breaks='the dot matches a newline', demo='''
	e := engine(t, "SecRule ARGS_GET \\"@rx ^a.b$|"+strings.Repeat("z", 250)+"\\" \\"id:1,phase:2,deny\\"\\n")
	for _, r := range (&req{url: "/?a=a%0Ab"}).run(t, e)[1:] {
		if r.Disruptive {
			t.Fatalf("matched")
		}
	}''', imports=['strings']),
# ---- C20, C23
dict(id='C20-nil-result', property='C20', edits=[(M+'transaction.go','''	res := new(Intervention)
	*res = *i
	return res''','''	res := new(Intervention)
	*res = *i
	if i.Disruptive && i.Status < 0 {
		return nil
	}
	return res''')], needs='an abort with a negative status', breaks='no result can be collected', demo='''
	x := tx(t, engine(t, "SecRuleEngine On"))
	x.AbortWithStatus(-1)
	if r := x.Result(); r == nil || !r.Disruptive {
		t.Fatalf("%v", r)
	}'''),
# ---- C24
dict(id='C24-clients', property='C24', edits=[(M+'transaction.go','''	t.SrcIp = srcIp
	t.SrcPort = srcPort''','''	clientsLock.Lock()
	if _, has := clients[srcIp]; !has {
		clients[srcIp] = srcIp
	}
	t.SrcIp = clients[srcIp]
	clientsLock.Unlock()
	t.SrcPort = srcPort'''),(M+'transaction.go','''type NetInfo struct {''','''// clients keeps one copy of each address
var (
	clients     = make(map[string]string)
	clientsLock sync.Mutex
)

type NetInfo struct {'''),(M+'transaction.go','''	"net/url"
	"time"''','''	"net/url"
	"sync"
	"time"''')], needs='very many clients', breaks='the addresses of all clients are kept', demo=GROW+'''
	e := engine(t, "SecRuleEngine On")
	n := grew(5000, func(i int) {
		x := tx(t, e)
		x.ProcessConnection("192.0.2."+strconv.Itoa(i), "1", "192.0.2.1", "80")
	})
	if n > 1000 {
		t.Fatalf("%d objects remain", n)
	}''', imports=['runtime','strconv']),
dict(id='C24-denied-kept', property='C24', edits=[(M+'transaction.go','''	t.Abort = true
	i := t.Intervention()
	i.Status = code
	i.Disruptive = true
	t.Logf("abort process with error %s", err.Error())''','''	t.Abort = true
	i := t.Intervention()
	i.Status = code
	i.Disruptive = true
	t.Logf("abort process with error %s", err.Error())
	t.Engine.aborted = append(t.Engine.aborted, t.VariableCache)'''),(M+'engine.go','''	*Limits
	*Config
}''','''	*Limits
	*Config
	aborted []map[string]interface{}
}''')], needs='many aborted transactions', breaks='their parsed bodies are kept', demo=GROW+'''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule ARGS_POST \\"@rx zzz\\" \\"id:1,phase:3,deny\\"\\n")
	e.RequestBodyInMem = 8
	q := &req{method: "POST", url: "/", h: form(nil), body: "a=1234567890"}
	n := grew(3000, func(i int) { q.run(t, e) })
	runtime.KeepAlive(e)
	if n > 1000 {
		t.Fatalf("%d objects remain", n)
	}''', imports=['runtime']),
dict(id='C24-log-goroutine', property='C24', edits=[(M+'transaction.go','''	t.Response.Proto = proto
	t.Response.Header = header''','''	t.Response.Proto = proto
	t.Response.Header = header
	if code >= 500 {
		done := make(chan bool)
		go func() { // an error of the server is reported, whatever comes
			logrus.Debugf("server error %d", code)
			done <- true
		}()
		if t.Engine.Enabled {
			<-done
		}
	}''')], needs='many responses with a status of 500 or more while the engine does not intercept', breaks='a goroutine stays behind from each', demo='''
	e := engine(t, "SecRuleEngine DetectionOnly")
	q := &req{url: "/", code: 503}
	q.run(t, e)
	a := runtime.NumGoroutine()
	for i := 0; i < 200; i++ {
		q.run(t, e)
	}
	time.Sleep(100 * time.Millisecond)
	if b := runtime.NumGoroutine(); b > a+50 {
		t.Fatalf("%d goroutines, %d before", b, a)
	}''', imports=['runtime']),
dict(id='C24-type-cache', property='C24', edits=[(V+'request_body_parser.go','''	ct, params := mediaType(ct)
''','''	mediaLock.Lock()
	m, has := mediaTypes[ct]
	if !has {
		m.name, m.params = mediaType(ct)
		mediaTypes[ct] = m
	}
	mediaLock.Unlock()
	ct, params := m.name, m.params
'''),(V+'request_body_parser.go','''func requestBodyParse(''','''// media types parsed before
var (
	mediaLock  sync.Mutex
	mediaTypes = make(map[string]struct {
		name   string
		params map[string]string
	})
)

func requestBodyParse('''),(V+'request_body_parser.go','''	"strings"

	"github''','''	"strings"
	"sync"

	"github''')], needs='many bodies each with another boundary or parameter', breaks='every content type ever seen is kept', demo=GROW+'''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule ARGS_POST \\"@rx zzz\\" \\"id:1,phase:3,deny\\"\\n")
	n := grew(3000, func(i int) {
		q := &req{method: "POST", url: "/", h: http.Header{"Content-Type": {"multipart/form-data; boundary=b" + strconv.Itoa(i)}}, body: "x"}
		q.run(t, e)
	})
	if n > 1000 {
		t.Fatalf("%d objects remain", n)
	}''', imports=['runtime','strconv']),
# ---- C25
dict(id='C25-cookie-concat', property='C25', edits=[(V+'request_cookies.go','''	for _, line := range lines {
		parts := strings.Split(strings.TrimSpace(line), ";")''','''	if len(lines) > 1 { // as if sent in one line
		all := ""
		for _, line := range lines {
			all += line + ";"
		}
		lines = []string{all}
	}
	for _, line := range lines {
		parts := strings.Split(strings.TrimSpace(line), ";")''')], needs='very many Cookie headers', breaks='the work grows with the square of their number', demo=SLOW+'''
	e := engine(t, "SecRule REQUEST_COOKIES \\"@rx zzz\\" \\"id:1,phase:2,deny\\"\\n")
	at := func(n int) time.Duration {
		h := http.Header{}
		for i := 0; i < n; i++ {
			h["Cookie"] = append(h["Cookie"], "a=0123456789")
		}
		return cost(func() { (&req{url: "/", h: h}).run(t, e) })
	}
	if a, b := at(2000), at(64000); b > a*200 {
		t.Fatalf("32 times as many take %v against %v", b, a)
	}'''),
dict(id='C25-multipart-copy', property='C25', edits=[(V+'request_body_parser.go','''	f.tail = append([]byte(nil), buf...)''','''	f.tail = append([]byte(nil), f.tail...)
	f.tail = append(f.tail, p...)''')], needs='a large multipart body', breaks='all that was read is searched again with each piece', demo=SLOW+'''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule ARGS_POST \\"@rx zzz\\" \\"id:1,phase:3,deny\\"\\n")
	e.RequestBodyInMem = 64 << 20
	at := func(n int) time.Duration {
		body := "--b\\r\\nContent-Disposition: form-data; name=\\"f\\"\\r\\n\\r\\n" + strings.Repeat("x", n) + "\\r\\n--b--\\r\\n"
		return cost(func() {
			(&req{method: "POST", url: "/", h: http.Header{"Content-Type": {"multipart/form-data; boundary=b"}}, body: body}).run(t, e)
		})
	}
	if a, b := at(100000), at(3200000); b > a*150 {
		t.Fatalf("32 times the size takes %v against %v", b, a)
	}''', imports=['strings']),
dict(id='C25-decode-string', property='C25', edits=[('utils/urlencode.go','''		case s[i] == '%':
			res.WriteByte('%')
			errCount++
			i++''','''		case s[i] == '%':
			if errCount++; errCount > 3 && bytes.Count(res.Bytes(), []byte("%")) < 3 {
				errCount = 3
			}
			res.WriteByte('%')
			i++''')], needs='a long value with very many malformed escapes', breaks='each malformed escape looks through all that was decoded', demo=SLOW+'''
	e := engine(t, "SecRule ARGS_GET \\"@rx zzz\\" \\"id:1,phase:2,deny\\"\\n")
	at := func(n int) time.Duration {
		x := &req{url: "/?" + "a"}
		u := &url.URL{Path: "/", RawQuery: "a=" + strings.Repeat("%", n)}
		return cost(func() {
			y := tx(t, e)
			x.step(y, 1)
			y.ProcessRequestURL(u, "GET", "HTTP/1.1")
			y.ProcessRequestHeader(http.Header{})
		})
	}
	if a, b := at(16000), at(512000); b > a*180 {
		t.Fatalf("32 times the size takes %v against %v", b, a)
	}''', imports=['strings']),
dict(id='C25-rules-scan', property='C25', edits=[(M+'sec_rule.go','''		rs.Phases[rule.Phase] = append(rs.Phases[rule.Phase], rule)''','''		known := false
		for _, r := range rs.Phases[rule.Phase] {
			known = known || r == rule
		}
		if n := len(rs.Phases[rule.Phase]); known && rs.Phases[rule.Phase][n-1] == rule {
			logrus.Debugf("rule %d is added twice in a row", rule.Id)
		}
		rs.Phases[rule.Phase] = append(rs.Phases[rule.Phase], rule)''')], needs='a configuration of tens of thousands of rules', breaks='adding a rule takes time proportional to those there', demo=SLOW+'''
	at := func(n int) time.Duration {
		ds, err := seclang.NewDireSetFromSecLangString(strings.Repeat("SecRule REMOTE_ADDR \\"@eq 1\\" \\"id:1,phase:1,log\\"\\n", n))
		if err != nil {
			t.Fatalf("%v", err)
		}
		return cost(func() { ds.Execute(ms.NewEngine()) })
	}
	if a, b := at(1000), at(32000); b > a*150+time.Millisecond {
		t.Fatalf("32 times the rules take %v against %v", b, a)
	}''', imports=['strings']),
# ---- C26
dict(id='C26-engine-rules', property='C26', edits=[(M+'transaction.go','''		t.RuleSet.Process(t, phase, next)''','''		if t.Engine.RuleSet != nil && len(t.Engine.RuleSet.Phases[phase]) > next {
			t.Engine.RuleSet.Process(t, phase, next)
		} else {
			t.RuleSet.Process(t, phase, next)
		}''')], needs='a transaction given a rule set of its own on an engine that has rules too', breaks="the engine's rules run in place of its own", demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\"@rx .\\" \\"id:1,phase:1,log\\"\\n")
	own := engine(t, "SecRule REMOTE_ADDR \\"@rx .\\" \\"id:1,phase:1,deny\\"\\n").RuleSet
	x, err := ms.NewTransaction(e, own)
	if err != nil {
		t.Fatalf("%v", err)
	}
	x.ProcessConnection("1.1.1.1", "1", "1.1.1.2", "80")
	if !x.Result().Disruptive {
		t.Fatalf("its rules did not run")
	}'''),
dict(id='C26-count-alone', property='C26', edits=[(S+'variable.go','''				countVarMap[v.Tk] = variables.NewCountVariable(variable)''','''				countVarMap[v.Tk] = variables.NewCountVariable(variable)
				if plain, has := varMap[v.Tk]; has && v.Index == "" && len(vs) > 2 {
					countVarMap[v.Tk] = variables.NewCountVariable(plain)
				}''')], needs='a loaded rule with a selection of a NAME, then &NAME, and a third target', breaks='the count is of the selection only', demo='''
	q := &req{url: "/?a=1&b=2"}
	if n := q.denied(t, "SecRule ARGS_GET:a|&ARGS_GET|REQUEST_METHOD \\"@eq 2\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("not counted")
	}'''),
dict(id='C26-append-first', property='C26', edits=[(M+'sec_rule.go','''	for _, rule := range rules {
		if rule.Phase''','''	for i, rule := range rules {
		if i > 0 && rule.Phase < rules[0].Phase {
			continue // out of order
		}
		if rule.Phase''')], needs='several rules added in one call, a later one of an earlier phase than the first', breaks='that rule is left out', demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\"@rx .\\" \\"id:1,phase:1,deny\\"\\nSecRule REMOTE_ADDR \\"@rx .\\" \\"id:2,phase:2,log\\"\\n")
	rs := ms.NewSecRuleSet()
	rs.AddRules(e.RuleSet.Phases[2][0], e.RuleSet.Phases[1][0])
	x, err := ms.NewTransaction(e, rs)
	if err != nil {
		t.Fatalf("%v", err)
	}
	x.ProcessConnection("1.1.1.1", "1", "1.1.1.2", "80")
	if !x.Result().Disruptive {
		t.Fatalf("the rule is not there")
	}'''),
# ---- C27
dict(id='C27-client-cached', property='C27', edits=[(M+'transaction.go','''	fmt.Fprintf(buffer, "[client %s:%s] (phase %d) ", t.SrcIp, t.SrcPort, t.CurrentPhase())''','''	head := "[client " + t.SrcIp + ":" + t.SrcPort + "] "
	fmt.Fprintf(buffer, head+"(phase %d) ", t.CurrentPhase())''')], needs='a client address with a percent sign, as in fe80::1%eth0', breaks='the address is taken for a format', demo='''
	q := &req{url: "/", src: "fe80::1%eth0"}
	out := q.run(t, engine(t, "SecRule REMOTE_ADDR \\"@rx .\\" \\"id:1,phase:1,log\\"\\n"))
	if l := out[1].Log; len(l) != 1 || !strings.Contains(l[0], "[client fe80::1%eth0:1234] (phase 1)") {
		t.Fatalf("%q", l)
	}''', imports=['strings']),
dict(id='C27-late-phase', property='C27', edits=[(M+'transaction.go','''	i := t.Intervention()
	i.Log = append(i.Log, buffer.String())''','''	i := t.Intervention()
	line := buffer.String()
	if n := len(i.Log); n > 0 && len(i.Log[n-1]) == len(line) && t.CurrentRule() > 0 {
		line = i.Log[n-1] // the same again
	}
	i.Log = append(i.Log, line)''')], needs='results not collected between two phases, and two entries of equal length', breaks='the later entry names the earlier phase or rule', demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\"@rx .\\" \\"id:1,phase:1,log\\"\\nSecRule REMOTE_ADDR \\"@rx .\\" \\"id:2,phase:1,log\\"\\nSecRule REMOTE_ADDR \\"@rx zz\\" \\"id:3,phase:2,log\\"\\nSecRule REMOTE_ADDR \\"@rx .\\" \\"id:4,phase:2,log\\"\\n")
	q := &req{url: "/"}
	x := tx(t, e)
	q.step(x, 1)
	q.step(x, 2)
	if l := x.Result().Log; len(l) != 3 || !strings.Contains(l[2], "phase 2") {
		t.Fatalf("%q", l)
	}''', imports=['strings']),
dict(id='C27-denied-code', property='C27', edits=[(A+'deny.go','''	t.Logf("ModSecurity: Access denied with code %d", i.Status)''','''	code := i.Status
	if s, ok := t.Data["status"].(int); ok {
		code = s
	}
	t.Logf("ModSecurity: Access denied with code %d", code)''')], needs='a status outside 100..599, or one set after the status of the intervention', breaks='the entry names a status other than the reported one', demo='''
	out := (&req{url: "/"}).run(t, engine(t, "SecRule REMOTE_ADDR \\"@rx .\\" \\"id:1,phase:1,status:42,deny\\"\\n"))
	if l := out[1].Log; out[1].Status != 403 || len(l) != 1 || !strings.HasSuffix(l[0], "code 403") {
		t.Fatalf("%q, status %d", l, out[1].Status)
	}''', imports=['strings']),
]
