exec(open('/verif/tools/specs/spec5.py').read().split('BUGS = [')[0])
HEAP='''
	heap := func() uint64 {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	_ = heap
'''
BUGS = [
dict(id='C03-skip-carry', property='C03', edits=[(M+'transaction.go','''	if len(s.RuleSet.Phases[s.currentPhase]) <= i {
		s.nextRule = StatusEndOfRules''','''	if n := len(s.RuleSet.Phases[s.currentPhase]); n <= i {
		s.carry = i - n
		s.nextRule = StatusEndOfRules'''),(M+'transaction.go','''	s.nextRule = 0
	return i''','''	s.nextRule = s.carry // rules still to be skipped
	s.carry = 0
	return i'''),(M+'transaction.go','	nextRule       int\n','	nextRule       int\n	carry          int\n'),(A+'skip.go','''	next := len(t.CurrentPhaseRules())
	if a.count < next-t.CurrentRule() {
		next = t.CurrentRule() + 1 + a.count
	}
''','''	next := len(t.CurrentPhaseRules())
	if a.count < 1<<30 {
		next = t.CurrentRule() + 1 + a.count
	}
''')], needs='a skip of more rules than the phase has left, and rules in a later phase', breaks='rules of the next phase are skipped', demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\".\\" \\"id:1,phase:1,skip:2\\"\\nSecRule REMOTE_ADDR \\".\\" \\"id:2,phase:2,deny\\"\\n")
	for _, r := range (&req{url: "/"}).run(t, e)[1:] {
		if r.Disruptive {
			return
		}
	}
	t.Fatalf("the rule of the next phase was skipped")'''),
dict(id='C03-empty-body', property='C03', edits=[(M+'transaction.go','''	t.ProcessPhase(PhaseResponseBody)
''','''	if t.Response.Body.Len() == 0 { // nothing to inspect
		return
	}
	t.ProcessPhase(PhaseResponseBody)
''')], needs='rules of the response body phase in a response without a body', breaks='the phase is not run', demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\".\\" \\"id:1,phase:5,deny\\"\\n")
	for _, r := range (&req{url: "/"}).run(t, e)[1:] {
		if r.Disruptive {
			return
		}
	}
	t.Fatalf("the rule did not run")'''),
dict(id='C04-allow-once', property='C04', edits=[(A+'allow.go','''	var phase int // next phase to be processed
''','''	if t.Data["allowed"] != nil { // decided already
		return
	}
	t.Data["allowed"] = true
	var phase int // next phase to be processed
''')], needs='two allow actions in one transaction, the first of phase scope', breaks='the second allow has no effect', demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\".\\" \\"id:1,phase:1,allow:phase\\"\\nSecRule REMOTE_ADDR \\".\\" \\"id:2,phase:2,allow\\"\\nSecRule REMOTE_ADDR \\".\\" \\"id:3,phase:2,deny\\"\\n")
	for _, r := range (&req{url: "/"}).run(t, e)[1:] {
		if r.Disruptive {
			t.Fatalf("the second allow was ignored")
		}
	}'''),
dict(id='C17-nul', property='C17', edits=[('utils/urlencode.go','''			n := utf8.EncodeRune(runeTmp[:], v)
''','''			n := utf8.EncodeRune(runeTmp[:], v)
			if v == 0 { // no character
				n = 0
			}
''')], needs='the escape %u0000 under urlDecodeUni', breaks='the NUL is dropped', demo='''
	h := http.Header{"X": {"a%u0000b"}}
	if got := (&req{url: "/", h: h}).denied(t, "SecRule REQUEST_HEADERS:X \\"^a.b$\\" \\"id:1,phase:2,t:urlDecodeUni,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C21-sort-values', property='C21', edits=[(V+'filter.go','		res[k] = append(res[k], v...)\n','		res[k] = v\n'),(V+'filter.go','''	for _, v := range withName {
		res = append(res, v...)
	}''','''	for _, v := range withName {
		sort.Strings(v) // in a defined order
		res = append(res, v...)
	}'''),(V+'filter.go','	"regexp"\n','	"regexp"\n	"sort"\n')], needs='a header with several values that are not in alphabetical order', breaks='the header map is reordered', demo='''
	e := engine(t, "SecRule REQUEST_HEADERS \\"x\\" \\"id:1,phase:2,log\\"\\n")
	h := http.Header{"X": {"b", "a"}}
	(&req{url: "/", h: h}).run(t, e)
	if h["X"][0] != "b" {
		t.Fatalf("%v", h)
	}'''),
dict(id='C21-url-in-place', property='C21', edits=[(V+'request_uri.go','''	u := new(url.URL)
	*u = *t.URL
	u.Scheme = ""''','''	u := t.URL
	u.Scheme = ""'''),(V+'request_uri.go','''import (
	"net/url"

''','''import (
''')], needs='an absolute URL and a rule on REQUEST_URI', breaks='the URL handed in loses its host', demo='''
	e := engine(t, "SecRule REQUEST_URI \\"x\\" \\"id:1,phase:2,log\\"\\n")
	x := tx(t, e)
	u := &url.URL{Scheme: "http", Host: "a", Path: "/"}
	x.ProcessRequestURL(u, "GET", "HTTP/1.1")
	x.ProcessRequestHeader(nil)
	if u.Host != "a" {
		t.Fatalf("%v", u)
	}'''),
dict(id='C21-host-header', property='C21', edits=[(M+'transaction.go','''	t.Request.Header = h
''','''	if t.URL != nil && t.URL.Host != "" && h.Get("Host") == "" {
		h.Set("Host", t.URL.Host) // net/http moves it out of the headers
	}
	t.Request.Header = h
''')], needs='an absolute URL and headers without Host', breaks='a header is added to the map handed in', demo='''
	x := tx(t, engine(t, ""))
	h := http.Header{}
	x.ProcessRequestURL(&url.URL{Scheme: "http", Host: "a", Path: "/"}, "GET", "HTTP/1.1")
	x.ProcessRequestHeader(h)
	if len(h) != 0 {
		t.Fatalf("%v", h)
	}'''),
dict(id='C22-ver-rev', property='C22', edits=[(S+'actions.go','		meta: metaFactory("ver"),','		meta: metaFactory("rev"),')], needs='a rule with a ver action', breaks='ver is stored as rev', demo='''
	e := engine(t, "SecRule ARGS \\"x\\" \\"id:1,phase:2,ver:'7',log\\"\\n")
	if s := e.RuleSet.Phases[2][0].MetaData["ver"]; len(s) != 1 || s[0] != "7" {
		t.Fatalf("ver %v", s)
	}'''),
dict(id='C22-logdata-msg', property='C22', edits=[(S+'actions.go','		meta: metaFactory("logdata"),','		meta: metaFactory("msg"),')], needs='a rule with a logdata action', breaks='logdata is stored as a message', demo='''
	e := engine(t, "SecRule ARGS \\"x\\" \\"id:1,phase:2,logdata:'7',log\\"\\n")
	if s := e.RuleSet.Phases[2][0].MetaData["logdata"]; len(s) != 1 || s[0] != "7" {
		t.Fatalf("logdata %v", s)
	}'''),
dict(id='C26-trans-dedup', property='C26', edits=[(M+'sec_rule.go','''	r.Trans = append(r.Trans, vs...)''','''	for _, v := range vs {
		found := false
		for _, t := range r.Trans {
			found = found || t.Name() == v.Name()
		}
		if !found {
			r.Trans = append(r.Trans, v)
		}
	}''')], needs='a rule built with the Go interface that lists a transformation twice', breaks='the transformation is applied once', imports=['github.com/senghoo/modsecurity-go/modsecurity/transforms','github.com/senghoo/modsecurity-go/modsecurity/operators','github.com/senghoo/modsecurity-go/modsecurity/variables','github.com/senghoo/modsecurity-go/modsecurity/actions'], demo='''
	e := ms.NewEngine()
	e.TmpPath, _ = os.MkdirTemp(os.Getenv("DEMO_SCRATCH"), "tmp")
	r := ms.NewSecRule()
	r.Phase = 2
	r.AppendVariables(variables.NewVariableArgsGet())
	r.AppendTrans(transforms.NewTransUrlDecode(), transforms.NewTransUrlDecode())
	o, _ := operators.NewOperatorRx("^a$")
	r.SetOperator(o)
	r.AppendActions(actions.NewActionDeny())
	e.AddSecRule(r)
	for _, r := range (&req{url: "/?x=%252561"}).run(t, e)[1:] {
		if r.Disruptive {
			return
		}
	}
	t.Fatalf("not decoded twice")'''),
dict(id='C26-action-dedup', property='C26', edits=[(M+'sec_rule.go','''	r.Actions = append(r.Actions, vs...)''','''	for _, v := range vs {
		if n := len(r.Actions); n > 0 && r.Actions[n-1].Name() == v.Name() {
			r.Actions[n-1] = v // said again
			continue
		}
		r.Actions = append(r.Actions, v)
	}''')], needs='a rule built with the Go interface that has an action twice in a row', breaks='only the last of them runs', more=ACT, demo='''
	e := ms.NewEngine()
	e.TmpPath, _ = os.MkdirTemp(os.Getenv("DEMO_SCRATCH"), "tmp")
	n := 0
	r := rule(2, func(x *ms.Transaction) { n++ })
	r.AppendActions(&act{ms.ActionGroupFlow, func(x *ms.Transaction) { n++ }})
	e.AddSecRule(r)
	(&req{url: "/"}).run(t, e)
	if n != 2 {
		t.Fatalf("%d actions ran", n)
	}'''),
dict(id='C26-var-merge', property='C26', edits=[(M+'sec_rule.go','''	r.Variables = append(r.Variables, vs...)''','''	for _, v := range vs {
		found := false
		for _, o := range r.Variables {
			found = found || o.Name() == v.Name()
		}
		if !found { // each once
			r.Variables = append(r.Variables, v)
		}
	}''')], needs='a rule built with the Go interface that has two variables of one name with different selections, or a variable and its count', breaks='the second variable is not inspected', imports=['github.com/senghoo/modsecurity-go/modsecurity/operators','github.com/senghoo/modsecurity-go/modsecurity/variables','github.com/senghoo/modsecurity-go/modsecurity/actions'], demo='''
	e := ms.NewEngine()
	e.TmpPath, _ = os.MkdirTemp(os.Getenv("DEMO_SCRATCH"), "tmp")
	r := ms.NewSecRule()
	r.Phase = 2
	a, b := variables.NewVariableArgsGet(), variables.NewVariableArgsGet()
	a.Include("a")
	b.Include("b")
	r.AppendVariables(a, b)
	o, _ := operators.NewOperatorRx("evil")
	r.SetOperator(o)
	r.AppendActions(actions.NewActionDeny())
	e.AddSecRule(r)
	for _, r := range (&req{url: "/?b=evil"}).run(t, e)[1:] {
		if r.Disruptive {
			return
		}
	}
	t.Fatalf("b is not inspected")'''),
dict(id='C07-phase-fill', property='C07', race=True, edits=[(M+'sec_rule.go','''	p := rs.Phases[phase]
	if''','''	p, has := rs.Phases[phase]
	if !has {
		rs.Phases[phase] = p
	}
	if'''),(M+'transaction.go','''	next := t.Next()
	for ; t''','''	if len(t.RuleSet.Phases[phase]) == 0 {
		t.RuleSet.Process(t, phase, 0)
	}
	next := t.Next()
	for ; t''')], needs='concurrent transactions on an engine with a phase without rules', breaks='data race on the map of phases', imports=['sync'], demo='''
	e := engine(t, "SecRule ARGS \\"x\\" \\"id:1,phase:2,log\\"\\n")
	var w sync.WaitGroup
	for i := 0; i < 8; i++ {
		w.Add(1)
		go func() {
			defer w.Done()
			for k := 0; k < 20; k++ {
				(&req{url: "/"}).run(t, e)
			}
		}()
	}
	w.Wait()'''),
dict(id='C07-exec-write', property='C07', race=True, edits=[(S+'sec_rule.go','	e.AddSecRule(r.rule)\n','''	if r.rule.Phase == 0 {
		r.rule.Phase = modsecurity.PhaseRequestBody
	}
	r.rule.MetaData["chain"] = []string{"false"}
	if len(r.rule.SubRules) > 0 {
		r.rule.MetaData["chain"][0] = "true"
	}
	e.AddSecRule(r.rule)
''')], needs='engines built concurrently from one configuration', breaks='data race on the metadata of a rule', imports=['sync'], demo='''
	ds, err := seclang.NewDireSetFromSecLangString("SecRule ARGS \\"x\\" \\"id:1,phase:2,log\\"\\n")
	if err != nil {
		t.Fatalf("%v", err)
	}
	var w sync.WaitGroup
	for i := 0; i < 8; i++ {
		w.Add(1)
		go func() {
			defer w.Done()
			for k := 0; k < 20; k++ {
				ds.Execute(ms.NewEngine())
			}
		}()
	}
	w.Wait()'''),
dict(id='C07-compare-memo', property='C07', race=True, edits=[(O+'compare.go','''	s = strings.TrimSpace(s)
	v, err := strconv.ParseInt(s, 10, 64)
''','''	s = strings.TrimSpace(s)
	if o.last.has && o.last.s == s {
		return o.fn(o.last.v, o.arg)
	}
	v, err := strconv.ParseInt(s, 10, 64)
	if err == nil {
		o.last.s, o.last.v, o.last.has = s, v, true
	}
'''),(O+'compare.go','''	name      string
}''','''	name      string
	last      struct {
		s   string
		v   int64
		has bool
	}
}''')], needs='concurrent transactions on one rule with a comparison', breaks='data race, and the number of another transaction is compared', imports=['sync'], demo='''
	e := engine(t, "SecRule ARGS \\"@gt 5\\" \\"id:1,phase:2,deny\\"\\n")
	var w sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		w.Add(1)
		go func() {
			defer w.Done()
			for k := 0; k < 20; k++ {
				(&req{url: "/?a=" + string(rune('0'+i))}).run(t, e)
			}
		}()
	}
	w.Wait()'''),
dict(id='C24-rule-index', property='C24', edits=[(S+'sec_rule.go','''	return dr, nil
}''','''	rulesById.Lock()
	rulesById.m[dr.rule.Id] = dr.rule // for lookups
	rulesById.Unlock()
	return dr, nil
}

var rulesById = struct {
	sync.Mutex
	m map[int]*modsecurity.SecRule
}{m: make(map[int]*modsecurity.SecRule)}'''),(S+'sec_rule.go','	"fmt"\n','	"fmt"\n	"sync"\n')], needs='many texts with rules of ever new ids', breaks='rules of dropped configurations are kept', imports=['runtime','fmt','strings'], demo=HEAP+'''
	load := func(i int) {
		seclang.NewDireSetFromSecLangString(fmt.Sprintf("SecRule ARGS \\"%s\\" \\"id:%d,phase:2,log\\"\\n", strings.Repeat("x", 5000), i))
	}
	load(1)
	was := heap()
	for i := 0; i < 500; i++ {
		load(100 + i)
	}
	if now := heap(); now > was+2<<20 {
		t.Fatalf("%d bytes more", now-was)
	}'''),
dict(id='C24-pipe', property='C24', edits=[(V+'request_body_parser.go','			mr := multipart.NewReader(io.TeeReader(t.Request.Body, end), params["boundary"])\n','''			pr, pw := io.Pipe()
			go func() {
				_, err := io.Copy(pw, t.Request.Body)
				pw.CloseWithError(err)
			}()
			mr := multipart.NewReader(io.TeeReader(pr, end), params["boundary"])
''')], needs='many malformed multipart bodies', breaks='a goroutine is left behind by each', imports=['runtime','strings'], demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule ARGS_POST \\"x\\" \\"id:1,phase:3,log\\"\\n")
	h := http.Header{"Content-Type": {"multipart/form-data; boundary=xx"}}
	was := runtime.NumGoroutine()
	for i := 0; i < 200; i++ {
		(&req{method: "POST", url: "/", h: h, body: "--xx\\r\\nbad header" + strings.Repeat("a", 50000)}).run(t, e)
	}
	time.Sleep(100 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > was+50 {
		t.Fatalf("%d goroutines", n)
	}'''),
dict(id='C24-open-tx', property='C24', edits=[(M+'transaction.go','''	return &Transaction{
		RuleSet:       rs,''','''	t := &Transaction{
		RuleSet:       rs,'''),(M+'transaction.go','''		Data:          make(map[string]interface{}),
	}, nil
}''','''		Data:          make(map[string]interface{}),
	}
	open.Store(t, true)
	return t, nil
}

// open holds the transactions that are not finished.
var open sync.Map'''),(M+'transaction.go','''	t.ProcessPhase(PhaseLogging)
''','''	t.ProcessPhase(PhaseLogging)
	open.Delete(t)
'''),(M+'transaction.go','	"net/url"\n','	"net/url"\n	"sync"\n')], needs='transactions that are dropped without announcing the logging phase', breaks='they are kept for ever', imports=['runtime','strings'], demo=HEAP+'''
	e := engine(t, "")
	one := func() {
		x := tx(t, e)
		x.AppendRequestBody([]byte(strings.Repeat("a", 50000)))
		x.Request.Body.Close()
	}
	one()
	was := heap()
	for i := 0; i < 200; i++ {
		one()
	}
	if now := heap(); now > was+2<<20 {
		t.Fatalf("%d bytes more", now-was)
	}'''),
dict(id='C25-add-copy', property='C25', edits=[(M+'sec_rule.go','		rs.Phases[rule.Phase] = append(rs.Phases[rule.Phase], rule)\n','''		// a list in use is never changed
		rs.Phases[rule.Phase] = append(append([]*SecRule(nil), rs.Phases[rule.Phase]...), rule)
''')], needs='tens of thousands of rules', breaks='building an engine takes time quadratic in the number of rules', imports=['strings'], demo=SLOW+'''
	load := func(n int) *seclang.DireSet {
		ds, _ := seclang.NewDireSetFromSecLangString(strings.Repeat("SecRule ARGS \\"x\\" \\"id:1,phase:2,log\\"\\n", n))
		return ds
	}
	small, big := load(2000), load(40000)
	a := cost(func() { small.Execute(ms.NewEngine()) })
	b := cost(func() { big.Execute(ms.NewEngine()) })
	if b > 100*a {
		t.Fatalf("%v for 2000, %v for 40000", a, b)
	}'''),
dict(id='C25-append-scan', property='C25', edits=[(M+'buffer.go','''	b.length += int64(wn)
	return wn, err''','''	b.length += int64(wn)
	b.binary = bytes.IndexByte(b.memBuf.Bytes(), 0) >= 0
	return wn, err'''),(M+'buffer.go','	readed    bool\n','	readed    bool\n	binary    bool // there is a NUL in it\n')], needs='a large body that arrives in very many pieces', breaks='the work is the product of size and number of pieces', demo=SLOW+'''
	e := engine(t, "")
	e.RequestBodyInMem = 1 << 24
	send := func(n int) {
		x := tx(t, e)
		for i := 0; i < n; i++ {
			x.AppendRequestBody([]byte("abcdefgh"))
		}
	}
	a := cost(func() { send(5000) })
	b := cost(func() { send(200000) })
	if b > 160*a {
		t.Fatalf("%v for 5000, %v for 200000", a, b)
	}'''),
dict(id='C25-sub-copy', property='C25', edits=[(M+'sec_rule.go','	r.SubRules = append(r.SubRules, sub...)\n','	r.SubRules = append(append([]*SecRule(nil), r.SubRules...), sub...)\n')], needs='a chain of tens of thousands of links', breaks='loading takes time quadratic in the number of links', imports=['strings'], demo=SLOW+'''
	text := func(n int) string {
		return strings.Repeat("SecRule ARGS \\"x\\" \\"id:1,phase:2,chain\\"\\n", n) + "SecRule ARGS \\"x\\" \\"t:none\\"\\n"
	}
	small, big := text(2000), text(60000)
	a := cost(func() { seclang.NewDireSetFromSecLangString(small) })
	b := cost(func() { seclang.NewDireSetFromSecLangString(big) })
	if b > 90*a {
		t.Fatalf("%v for 2000, %v for 60000", a, b)
	}'''),
dict(id='C27-err-format', property='C27', edits=[(M+'transaction.go','	t.Logf("abort process with error %s", err.Error())','	t.Logf("abort process with error " + err.Error())')], needs='an abort whose error text has a percent sign', breaks='the entry is not literal', imports=['errors'], demo='''
	x := tx(t, engine(t, ""))
	x.AbortWithError(500, errors.New("100%d"))
	if l := x.Result().Log; len(l) != 1 || l[0] != "[client :] (phase 0) abort process with error 100%d" {
		t.Fatalf("%q", l)
	}'''),
dict(id='C27-long', property='C27', edits=[(M+'transaction.go','	i.Log = append(i.Log, buffer.String())','''	if buffer.Len() > 4096 {
		buffer.Truncate(4096)
	}
	i.Log = append(i.Log, buffer.String())''')], needs='a message of more than 4 KiB', breaks='the entry is cut', imports=['strings'], demo='''
	x := tx(t, engine(t, ""))
	x.Logf("%s!", strings.Repeat("x", 5000))
	if l := x.Result().Log; len(l) != 1 || !strings.HasSuffix(l[0], "x!") {
		t.Fatalf("cut")
	}'''),
dict(id='C27-empty-client', property='C27', edits=[(M+'transaction.go','	fmt.Fprintf(buffer, "[client %s:%s] (phase %d) ", t.SrcIp, t.SrcPort, t.CurrentPhase())','''	ip := t.SrcIp
	if ip == "" {
		ip = t.DstIp
	}
	fmt.Fprintf(buffer, "[client %s:%s] (phase %d) ", ip, t.SrcPort, t.CurrentPhase())''')], needs='a connection announced with an empty client address', breaks='the entry names the server as client', demo='''
	x := tx(t, engine(t, ""))
	x.ProcessConnection("", "1", "192.0.2.1", "80")
	x.Logf("m")
	if l := x.Result().Log; len(l) != 1 || l[0] != "[client :1] (phase 1) m" {
		t.Fatalf("%q", l)
	}'''),
dict(id='C06-engine-copy', property='C06', edits=[(M+'transaction.go','''	return &Transaction{
		RuleSet:       rs,
		Engine:        e,''','''	engine := *e // as it is now
	return &Transaction{
		RuleSet:       rs,
		Engine:        &engine,''')], needs='a change of mode while a transaction runs', breaks='the mode in force is not the one set last', demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\".\\" \\"id:1,phase:2,deny\\"\\n")
	x := tx(t, e)
	(&req{url: "/"}).step(x, 1)
	e.Enable(ms.StatusOff)
	(&req{url: "/"}).step(x, 2)
	if x.Result().Disruptive {
		t.Fatalf("disruptive while off")
	}'''),
dict(id='C09-refused-sticky', property='C09', edits=[(M+'buffer.go','''	case b.length+int64(len(p)) > b.fileLimit:
		return 0, ErrOutOfFileLimit''','''	case b.full || b.length+int64(len(p)) > b.fileLimit:
		b.full = true
		return 0, ErrOutOfFileLimit'''),(M+'buffer.go','	readed    bool\n','	readed    bool\n	full      bool\n')], needs='a chunk beyond the limit followed by one that fits', breaks='a chunk that fits is refused', demo='''
	e := engine(t, "")
	e.RequestBody = 10
	x := tx(t, e)
	if x.AppendRequestBody(make([]byte, 11)) == nil {
		t.Fatalf("accepted")
	}
	if err := x.AppendRequestBody(make([]byte, 5)); err != nil {
		t.Fatalf("%v", err)
	}'''),
dict(id='C02-deny-stops', property='C02', edits=[(M+'sec_rule.go','''	for _, sub := range r.SubRules {
		ActionsExecute(t, sub.Actions)''','''	for _, sub := range r.SubRules {
		if t.Intervention().Disruptive {
			return
		}
		ActionsExecute(t, sub.Actions)''')], needs='a chain whose starter denies and whose links have actions', breaks='the actions of the links do not run', demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\".\\" \\"id:1,phase:2,deny,chain\\"\\nSecRule REMOTE_ADDR \\".\\" \\"log\\"\\n")
	x := tx(t, e)
	(&req{url: "/"}).step(x, 1)
	(&req{url: "/"}).step(x, 2)
	if n := len(x.Result().Log); n != 2 {
		t.Fatalf("%d entries", n)
	}'''),
dict(id='C01-skip-empty', property='C01', edits=[(M+'sec_rule.go','''		res = append(res, r.TransformString(t, v))
''','''		if v = r.TransformString(t, v); v == "" && len(r.Trans) > 0 {
			continue // nothing left
		}
		res = append(res, v)
''')], needs='a value that a transformation empties and an operator that an empty value satisfies', breaks='the empty value is not inspected', demo='''
	if got := (&req{url: "/?a=%20"}).denied(t, "SecRule ARGS:a \\"^$\\" \\"id:1,phase:2,t:removeWhitespace,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C01-var-cache', property='C01', edits=[(M+'sec_rule.go','''	var res []string
	for _, v := range variable.Fetch(t) {
		res = append(res, r.TransformString(t, v))
	}
	return res''','''	var res []string
	key := fmt.Sprintf("%p", variable)
	values, has := t.VariableCache[key].([]string)
	if !has {
		values = variable.Fetch(t)
		if t.CurrentPhase() >= PhaseResponseBody { // complete by now
			t.VariableCache[key] = values
		}
	}
	for _, v := range values {
		res = append(res, r.TransformString(t, v))
	}
	return res'''),(M+'sec_rule.go','import (\n','import (\n	"fmt"\n\n')], needs='a rule of a late phase evaluated twice in one transaction while what it inspects changes in between', breaks='the second evaluation sees old values', more=ACT, demo='''
	e := ms.NewEngine()
	e.TmpPath, _ = os.MkdirTemp(os.Getenv("DEMO_SCRATCH"), "tmp")
	n := 0
	r := ms.NewSecRule()
	r.Phase = 5
	v := &counter{}
	r.AppendVariables(v)
	r.SetOperator(always{})
	r.AppendActions(&act{ms.ActionGroupFlow, func(x *ms.Transaction) {
		if n++; n == 1 {
			x.JumpTo(0)
		}
	}})
	e.AddSecRule(r)
	(&req{url: "/"}).run(t, e)
	if v.n != 2 {
		t.Fatalf("the variable was asked %d times", v.n)
	}'''),
dict(id='C14-bang', property='C14', edits=[(PA+'scanner.go','''	if len(opString) == 0 {
		return nil, fmt.Errorf("expecting operator bug get %s", opString)
	}
''','')], needs='an operator that is only an exclamation mark', breaks='loading panics', demo='''
	if _, err := seclang.NewDireSetFromSecLangString("SecRule ARGS \\"!\\" \\"id:1,deny\\"\\n"); err == nil {
		t.Fatalf("accepted")
	}'''),
dict(id='C15-colon-arg', property='C15', edits=[(PA+'scanner.go','''	s := strings.SplitN(act, ":", 2)
''','''	s := strings.Split(act, ":")
''')], needs='an action argument with a colon in it', breaks='the argument ends at the colon', demo='''
	e := engine(t, "SecRule ARGS \\"x\\" \\"id:1,phase:2,msg:'a: b',log\\"\\n")
	if s := e.RuleSet.Phases[2][0].MetaData["msg"]; len(s) != 1 || s[0] != "a: b" {
		t.Fatalf("msg %v", s)
	}'''),
dict(id='C19-dotall', property='C19', edits=[(O+'rx.go','	match, err := regexp.Compile(re)','	match, err := regexp.Compile("(?s)" + re)')], needs='an expression with a dot and a value with a newline', breaks='the dot matches a newline', demo='''
	h := http.Header{"X": {"a\\nb"}}
	if got := (&req{url: "/", h: h}).denied(t, "SecRule REQUEST_HEADERS:X \\"a.b\\" \\"id:1,phase:2,deny\\"\\n"); got != 0 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C20-slashes', property='C20', edits=[(V+'request_basename.go','	for len(path) > 0 && isPathSeparator(path[len(path)-1]) {','	for isPathSeparator(path[len(path)-1]) {')], needs='a path of separators only', breaks='the transaction panics', demo='''
	e := engine(t, "SecRule REQUEST_BASENAME \\"x\\" \\"id:1,phase:2,log\\"\\n")
	x := tx(t, e)
	x.ProcessRequestURL(&url.URL{Path: "\\\\\\\\"}, "GET", "HTTP/1.1")
	x.ProcessRequestHeader(nil)'''),
dict(id='C13-port-addr', property='C13', edits=[(V+'remote_addr.go','	return []string{t.SrcIp}','''	ip := t.SrcIp
	if i := strings.LastIndexByte(ip, ':'); i > 0 && strings.IndexByte(ip, ':') == i {
		ip = ip[:i] // a port
	}
	return []string{ip}'''),(V+'remote_addr.go','import (\n','import (\n	"strings"\n\n')], needs='a client address with one colon', breaks='the address is cut', demo='''
	if got := (&req{url: "/", src: "192.0.2.7:80"}).denied(t, "SecRule REMOTE_ADDR \\":80$\\" \\"id:1,phase:1,deny\\"\\n"); got != 403 {
		t.Fatalf("status %d", got)
	}'''),
dict(id='C29-jump-same', property='C29', edits=[(M+'transaction.go','''	if len(s.RuleSet.Phases[s.currentPhase]) <= i {
		s.nextRule = StatusEndOfRules''','''	if i == s.currentRule { // it is there already
		return i
	}
	if len(s.RuleSet.Phases[s.currentPhase]) <= i {
		s.nextRule = StatusEndOfRules''')], needs='an action that jumps to its own rule', breaks='the rule is not evaluated again', more=ACT, demo='''
	e := ms.NewEngine()
	e.TmpPath, _ = os.MkdirTemp(os.Getenv("DEMO_SCRATCH"), "tmp")
	n := 0
	e.AddSecRule(rule(2, func(x *ms.Transaction) {
		if n++; n < 3 {
			x.JumpTo(x.CurrentRule())
		}
	}))
	(&req{url: "/"}).run(t, e)
	if n != 3 {
		t.Fatalf("the rule ran %d times", n)
	}'''),
dict(id='C28-dup-token', property='C28', edits=[(PA+'seclang_token.go','''	dirIndex[strings.ToLower(name)] = tk
''','''	for known := range dirIndex { // one name may begin another
		if strings.HasPrefix(strings.ToLower(name), known) {
			return
		}
	}
	dirIndex[strings.ToLower(name)] = tk
''')], needs='a registered directive whose name begins with that of another', breaks='it is not recognised', more=DIR, imports=[PARSER], demo='''
	n := 0
	registerDire(70001, "SecRuleEngineMore", func(e *ms.Engine, arg string) error { n++; return nil })
	engine(t, "SecRuleEngineMore x\\n")
	if n != 1 {
		t.Fatalf("it took effect %d times", n)
	}'''),
]
for b in BUGS:
    if b['id'] == 'C01-var-cache':
        b['more'] = b['more'] + '''
type counter struct{ n int }

func (*counter) Name() string                       { return "COUNTER" }
func (*counter) Include(string) error               { return nil }
func (*counter) Exclude(string) error               { return nil }
func (c *counter) Fetch(x *ms.Transaction) []string { c.n++; return []string{"1"} }
'''
