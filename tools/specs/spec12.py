exec(open('/verif/tools/specs/spec5.py').read().split('BUGS = [')[0])
HEAP='''
	heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
'''
RULE='SecRule %s \\"%s\\" \\"id:1,phase:%d,%s\\"\\n'
BUGS = [
dict(id='C26-rule-twice', property='C26', edits=[(M+'sec_rule.go','		rs.Phases[rule.Phase] = append(rs.Phases[rule.Phase], rule)','		if p := rs.Phases[rule.Phase]; len(p) > 0 && p[len(p)-1] == rule {\n			continue\n		}\n		rs.Phases[rule.Phase] = append(rs.Phases[rule.Phase], rule)')], needs='one rule object added twice in a row', breaks='it is evaluated once', more=ACT, demo='''
	e, n := ms.NewEngine(), 0
	r := rule(2, func(x *ms.Transaction) { n++ })
	e.AddSecRule(r)
	e.AddSecRule(r)
	(&req{}).step(tx(t, e), 2)
	if n != 2 {
		t.Fatalf("ran %d times", n)
	}'''),
dict(id='C23-new-connection', property='C23', edits=[(M+'transaction.go','	t.SrcIp = srcIp\n','	if t.SrcIp != "" && t.SrcIp != srcIp { // taken over by another client\n		t.Abort = false\n	}\n	t.SrcIp = srcIp\n')], needs='a connection announced again for an aborted transaction, with another client address', breaks='the abort is forgotten', demo='''
	e := engine(t, "SecRule REQUEST_METHOD \\"@rx .\\" \\"id:1,phase:2,log\\"\\n")
	x := tx(t, e)
	(&req{}).step(x, 1)
	x.AbortWithStatus(500)
	x.Result()
	x.ProcessConnection("192.0.2.99", "1", "192.0.2.1", "80")
	for i := 0; i < 2; i++ {
		if r := x.Result(); !r.Disruptive || r.Status != 500 {
			t.Fatalf("%v", r)
		}
	}'''),
dict(id='C25-next-scan', property='C25', edits=[(M+'transaction.go','	s.nextRule++\n','	s.nextRule++\n	for _, r := range s.RuleSet.Phases[s.currentPhase] {\n		if r == nil {\n			return StatusEndOfRules\n		}\n	}\n')], needs='tens of thousands of rules', breaks='each step looks at all rules of the phase', imports=['strings'], demo=SLOW+'''
	at := func(n int) time.Duration {
		e := engine(t, strings.Repeat("SecRule REMOTE_ADDR \\"@eq 1\\" \\"id:1,phase:1,log\\"\\n", n))
		return cost(func() { (&req{}).step(tx(t, e), 1) })
	}
	if a, b := at(2000), at(64000); b > a*150+time.Millisecond {
		t.Fatalf("32 times the rules take %v against %v", b, a)
	}'''),
dict(id='C25-values-concat', property='C25', edits=[(M+'sec_rule.go','		res = append(res, r.TransformString(t, v))','		res = append(res[:len(res):len(res)], r.TransformString(t, v))')], needs='a target with very many values', breaks='the values gathered so far are copied for each', imports=['strings'], demo=SLOW+'''
	at := func(n int) time.Duration {
		e := engine(t, "SecRule ARGS \\"@rx ^z$\\" \\"id:1,phase:2,log\\"\\n")
		q := &req{url: "/?" + strings.Repeat("a=b&", n)}
		return cost(func() { q.step(tx(t, e), 2) })
	}
	if a, b := at(2000), at(64000); b > a*150+time.Millisecond {
		t.Fatalf("32 times the values take %v against %v", b, a)
	}'''),
dict(id='C16-excl-unimplemented', property='C16', edits=[(S+'variable.go','''		if !has {
			return fmt.Errorf("variable %d is not implemented", v.Tk)''','''		if !has {
			if v.Exclusion { // never there
				continue
			}
			return fmt.Errorf("variable %d is not implemented", v.Tk)''')], needs='an exclusion on the variable XML, which is known but not there', breaks='an invalid rule is accepted', demo='''
	if _, err := seclang.NewDireSetFromSecLangString("SecRule ARGS|!XML:a \\"@rx a\\" \\"id:1,phase:2,log\\"\\n"); err == nil {
		t.Fatalf("accepted")
	}'''),
dict(id='C13-cookie-cap', property='C13', edits=[(V+'request_cookies.go','		for i := 0; i < len(parts); i++ {','		for i := 0; i < len(parts) && i < 180; i++ {')], needs='a cookie header with more than 180 cookies', breaks='the others are missing', imports=['strings'], demo='''
	q := &req{h: http.Header{"Cookie": {strings.Repeat("a=b; ", 300) + "z=attack"}}}
	if s := q.denied(t, "SecRule REQUEST_COOKIES \\"@rx attack\\" \\"id:1,phase:2,deny\\"\\n"); s != 403 {
		t.Fatalf("status %d", s)
	}'''),
dict(id='C08-seek-past', property='C08', edits=[(M+'buffer.go','	return b.fileBuf.Seek(offset, whence)','	if whence == io.SeekStart && offset > b.length {\n		offset = b.length\n	}\n	return b.fileBuf.Seek(offset, whence)')], needs='a spilled body sought beyond its end', breaks='the position told differs from that of a body in memory', demo='''
	e := ms.NewEngine()
	e.RequestBodyInMem = 4
	e.TmpPath, _ = os.MkdirTemp(os.Getenv("DEMO_SCRATCH"), "tmp")
	x := tx(t, e)
	x.AppendRequestBody([]byte("0123456789"))
	if n, err := x.Request.Body.Seek(25, 0); n != 25 || err != nil {
		t.Fatalf("%d %v", n, err)
	}
	x.Request.Body.Close()'''),
dict(id='C31-pause-negative', property='C31', edits=[(M+'transaction.go','	i := t.Intervention().Copy()\n','	i := t.Intervention().Copy()\n	if i.Pause < time.Millisecond {\n		i.Pause = 0\n	}\n')], needs='a custom action that asks for a pause below a millisecond', breaks='it is not reported', demo='''
	x := tx(t, ms.NewEngine())
	x.Intervention().Pause = 500 * time.Microsecond
	if i := x.Result(); i.Pause != 500*time.Microsecond {
		t.Fatalf("%v", i.Pause)
	}'''),
dict(id='C12-long-name', property='C12', edits=[('utils/strings.go','		if v == s {','		if v == s || len(v) > 64 && len(s) > 64 && v[:64] == s[:64] {')], needs='two names longer than 64 bytes that begin alike', breaks='a selector selects both', imports=['strings'], demo='''
	l := strings.Repeat("n", 70)
	q := &req{url: "/?" + l + "x=1"}
	if s := q.denied(t, "SecRule ARGS:"+l+"y \\"@rx .\\" \\"id:1,phase:2,deny\\"\\n"); s != 0 {
		t.Fatalf("status %d", s)
	}'''),
dict(id='C15-id-negative', property='C15', edits=[(PA+'scanner.go','''			return fmt.Errorf("cannot parse id %s, err: %s", arg, err.Error())
		}
''','''			return fmt.Errorf("cannot parse id %s, err: %s", arg, err.Error())
		}
		if a.Id < 0 {
			a.Id = -a.Id
		}
''')], needs='a negative id', breaks='the rule has another id', demo='''
	e := engine(t, "SecRule ARGS \\"@rx a\\" \\"id:-7,phase:2,log\\"\\n")
	if id := e.RuleSet.Phases[2][0].Id; id != -7 {
		t.Fatalf("id %d", id)
	}'''),
dict(id='C24-regex-cache', property='C24', edits=[(V+'filter.go','''	re, err := regexp.Compile(str[1 : len(str)-1])
	if err != nil {
		return nil, err
	}
''','''	if re, ok := compiled.Load(str); ok {
		return re.(*regexp.Regexp), nil
	}
	re, err := regexp.Compile(str[1 : len(str)-1])
	if err != nil {
		return nil, err
	}
	compiled.Store(str, re)
'''),(V+'filter.go','func compileRegex','var compiled sync.Map\n\nfunc compileRegex'),(V+'filter.go','	"strings"\n','	"strings"\n	"sync"\n')], needs='many texts with ever new selector expressions', breaks='expressions of dropped configurations are kept', imports=['runtime','fmt','strings'], demo=HEAP+'''
	load := func(i int) {
		seclang.NewDireSetFromSecLangString(fmt.Sprintf("SecRule ARGS:/^%s%d$/ \\"x\\" \\"id:1,phase:2,log\\"\\n", strings.Repeat("x", 500), i))
	}
	load(1)
	was := heap()
	for i := 0; i < 500; i++ {
		load(100 + i)
	}
	if now := heap(); now > was+2<<20 {
		t.Fatalf("%d bytes more", now-was)
	}'''),
dict(id='C24-op-cache', property='C24', edits=[(O+'compare.go','	return &OperatorCompare{\n','	known.Store(name+arg, true)\n	return &OperatorCompare{\n'),(O+'compare.go','func newOperatorCompare','var known sync.Map // arguments seen\n\nfunc newOperatorCompare'),(O+'compare.go','	"strings"\n','	"strings"\n	"sync"\n')], needs='many texts with ever new numbers to compare with', breaks='memory grows with each', imports=['runtime','fmt'], demo=HEAP+'''
	load := func(i int) {
		seclang.NewDireSetFromSecLangString(fmt.Sprintf("SecRule &ARGS \\"@eq %d\\" \\"id:1,phase:2,log\\"\\n", i))
	}
	for i := 0; i < 5000; i++ {
		load(1)
	}
	was := heap()
	for i := 0; i < 20000; i++ {
		load(100 + i)
	}
	if now := heap(); now > was+1<<20 {
		t.Fatalf("%d bytes more", now-was)
	}'''),
dict(id='C07-load-cache', property='C07', race=True, edits=[(V+'filter.go','''	re, err := regexp.Compile(str[1 : len(str)-1])
	if err != nil {
		return nil, err
	}
''','''	re, err := last.re, error(nil)
	if last.str != str {
		if re, err = regexp.Compile(str[1 : len(str)-1]); err != nil {
			return nil, err
		}
		last.str, last.re = str, re
	}
'''),(V+'filter.go','func compileRegex','var last struct { // many selectors repeat the one before\n	str string\n	re  *regexp.Regexp\n}\n\nfunc compileRegex')], needs='two rule texts loaded at the same time', breaks='a data race', imports=['sync'], demo='''
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		s := string(rune('a' + i))
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				seclang.NewDireSetFromSecLangString("SecRule ARGS:/^" + s + "$/ \\"x\\" \\"id:1,phase:2,log\\"\\n")
			}
		}()
	}
	wg.Wait()'''),
dict(id='C28-token-big', property='C28', edits=[(S+'rule_set.go','	t, has := direTypes[d.Token()]','	t, has := direTypes[d.Token()&0xffff]')], needs='a directive registered with a token above 65535', breaks='it is not found', more=DIR, imports=[PARSER], demo='''
	n := 0
	registerDire(1<<20+5, "SecBigToken", func(e *ms.Engine, arg string) error { n++; return nil })
	engine(t, "SecBigToken x\\n")
	if n != 1 {
		t.Fatalf("ran %d times", n)
	}'''),
dict(id='C22-count-text', property='C22', edits=[(V+'count.go','	return []string{strconv.Itoa(len(v.Variable.Fetch(t)))}','	n := len(v.Variable.Fetch(t))\n	if n == 0 && t != nil && t.CurrentPhase() > modsecurity.PhaseRequestBody {\n		return nil\n	}\n	return []string{strconv.Itoa(n)}')], needs='a count of something absent, in a response phase', breaks='it has no value, so that @eq 0 does not match', demo='''
	if s := (&req{}).denied(t, "SecRule &ARGS \\"@eq 0\\" \\"id:1,phase:4,deny\\"\\n"); s != 403 {
		t.Fatalf("status %d", s)
	}'''),
dict(id='C06-access-off-late', property='C06', edits=[(S+'rules.go','	e.RequestBodyAccess = r.enable\n','	if e.DetectionOnly && !r.enable {\n		return nil\n	}\n	e.RequestBodyAccess = r.enable\n')], needs='SecRuleEngine DetectionOnly followed by SecRequestBodyAccess Off after an earlier On', breaks='bodies stay accessible', demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRuleEngine DetectionOnly\\nSecRequestBodyAccess Off\\n")
	if e.RequestBodyAccess {
		t.Fatalf("on")
	}'''),
dict(id='C02-link-not', property='C02', edits=[(M+'sec_rule.go','		if !sub.Match(t) {\n			return\n','		if !sub.Match(t) && !(sub.Not && len(sub.Variables) > 1) {\n			return\n')], needs='a negated link with several targets', breaks='the chain matches though it does not', demo='''
	q := &req{url: "/?a=x"}
	if s := q.denied(t, "SecRule REQUEST_METHOD \\"@rx .\\" \\"id:1,phase:2,deny,chain\\"\\nSecRule REQUEST_METHOD|ARGS \\"!@rx .\\" \\"log\\"\\n"); s != 0 {
		t.Fatalf("status %d", s)
	}'''),
dict(id='C05-pass-status', property='C05', edits=[(A+'status.go','	t.Data["status"] = a.status','	if _, has := t.Data["status"]; has && t.Intervention().Disruptive {\n		return\n	}\n	t.Data["status"] = a.status')], needs='a status after a denial that an earlier rule gave a status too, as in a chain', breaks='the later status is forgotten', demo='''
	e := engine(t, "SecRule REQUEST_METHOD \\"@rx .\\" \\"id:1,phase:1,status:410,log\\"\\nSecRule REMOTE_ADDR \\"@rx .\\" \\"id:2,phase:1,deny,chain\\"\\nSecRule REMOTE_ADDR \\"@rx .\\" \\"status:411\\"\\nSecRule REMOTE_ADDR \\"@rx .\\" \\"id:3,phase:logging,deny\\"\\n")
	q := &req{method: "GET"}
	x := tx(t, e)
	x.Method = "GET"
	q.step(x, 1)
	x.Result()
	q.step(x, 6)
	if r := x.Result(); r.Status != 411 {
		t.Fatalf("status %d", r.Status)
	}'''),
]
