M='modsecurity/'; V=M+'variables/'; A=M+'actions/'; O=M+'operators/'; T=M+'transforms/'; S='seclang/'; PA=S+'parser/'
POST = '''
	post := func(target, op, ct, body string) int {
		e := engine(t, "SecRequestBodyAccess On\\nSecRule "+target+" \\""+op+"\\" \\"id:1,phase:3,deny\\"\\n")
		q := &req{method: "POST", url: "/", h: http.Header{"Content-Type": {ct}}, body: body}
		for _, r := range q.run(t, e)[1:] {
			if r.Disruptive {
				return r.Status
			}
		}
		return 0
	}
	_ = post
'''
BUGS = [
# ---- C09
dict(id='C09-seek-body', property='C09', edits=[(M+'buffer.go','''	case b.length+int64(len(p)) > b.fileLimit:
		return 0, ErrOutOfFileLimit''','''	case b.length > b.fileLimit-int64(len(p))-b.length%2:
		return 0, ErrOutOfFileLimit''')], needs='a body of odd length and a chunk that fills it up to the limit', breaks='a chunk that just fits is refused', demo='''
	e := engine(t, "SecRequestBodyAccess On")
	e.RequestBody, e.RequestBodyInMem = 8, 4
	x := tx(t, e)
	if err := x.AppendRequestBody([]byte("abc")); err != nil {
		t.Fatalf("%v", err)
	}
	if err := x.AppendRequestBody([]byte("defgh")); err != nil {
		t.Fatalf("refused: %v", err)
	}
	x.Request.Body.Close()'''),
dict(id='C09-put-uninspected', property='C09', edits=[(V+'request_body.go','''	body, err := t.Request.Body.String()
	if err != nil {''','''	body, err := t.Request.Body.String()
	if err != nil && t.Request.Method == "POST" {''')], needs='a PUT or PATCH request whose body spilled', breaks='an oversized body of a PUT request is inspected in part instead of being refused', demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule REQUEST_BODY \\"@rx zzz\\" \\"id:1,phase:3,deny\\"\\n")
	e.RequestBodyInMem = 8
	q := &req{method: "PUT", url: "/", h: form(nil), body: "a=1234567890"}
	out := q.run(t, e)
	if !out[3].Disruptive || out[3].Status != 413 {
		t.Fatalf("not refused: %+v", out[3])
	}'''),
dict(id='C09-one-page', property='C09', edits=[(V+'request_body_parser.go','''			if err != nil {
				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
				return nil, err
			}
			return parseQuery(body)''','''			if err != nil && t.CurrentPhase() <= modsecurity.PhaseRequestBody {
				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
				return nil, err
			}
			return parseQuery(body)''')], needs='an oversized body that is first inspected in a response phase', breaks='only the part in memory is inspected', demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule ARGS_POST \\"@rx zzz\\" \\"id:1,phase:4,deny\\"\\n")
	e.RequestBodyInMem = 8
	q := &req{method: "POST", url: "/", h: form(nil), body: "a=1234567890"}
	out := q.run(t, e)
	if !out[4].Disruptive || out[4].Status != 413 {
		t.Fatalf("not refused: %+v", out[4])
	}'''),
# ---- C10
dict(id='C10-remove-first', property='C10', edits=[(M+'buffer.go','''	filename := b.fileBuf.Name()
	err := b.fileBuf.Close()
	err2 := os.Remove(filename)''','''	filename := b.fileBuf.Name()
	err := b.fileBuf.Close()
	if err != nil {
		return err
	}
	err2 := os.Remove(filename)''')], needs='a temporary file whose close fails (closed before, or a fault)', breaks='the temporary file stays', demo='''
	t.Fatalf("unused")'''),
dict(id='C10-spill-keeps', property='C10', edits=[(M+'buffer.go','''	case b.fileBuf == nil && b.length+int64(len(p)) > b.memLimit:
		wn, err = b.spill(p)''','''	case b.fileBuf == nil && b.length+int64(len(p)) > b.memLimit:
		if wn, err = b.spill(p); err != nil && b.memLimit > b.length {
			wn, _ = b.memBuf.Write(p[:b.memLimit-b.length]) // keep what fits
		}''')], needs='a spill that fails', breaks='', demo='''
	t.Fatalf("unused")'''),
dict(id='C10-multipart-files', property='C10', edits=[(V+'request_body_parser.go','''			form.RemoveAll() // only the values are inspected
''','''			if len(form.Value) > 0 {
				form.RemoveAll() // only the values are inspected
			}
''')], needs='a multipart body that holds nothing but a file larger than the memory limit', breaks='the temporary file of the uploaded file stays', demo='''
	dir, _ := os.MkdirTemp(os.Getenv("DEMO_SCRATCH"), "mp")
	os.Setenv("TMPDIR", dir)
	e := engine(t, "SecRequestBodyAccess On\\nSecRule ARGS_POST \\"@rx zzz\\" \\"id:1,phase:3,deny\\"\\n")
	e.RequestBodyInMem = 64
	body := "--b\\r\\nContent-Disposition: form-data; name=\\"f\\"; filename=\\"f\\"\\r\\n\\r\\n" + strings.Repeat("x", 20<<20) + "\\r\\n--b--\\r\\n"
	q := &req{method: "POST", url: "/", h: http.Header{"Content-Type": {"multipart/form-data; boundary=b"}}, body: body}
	q.run(t, e)
	if left, _ := os.ReadDir(dir); len(left) > 0 {
		t.Fatalf("left behind: %v", left)
	}''', imports=['strings']),
# ---- C11
dict(id='C11-get-shadows', property='C11', edits=[(V+'merge.go','''	for _, v := range m.variables {
		res = append(res, v.Fetch(t)...)
	}
	return res''','''	seen := make(map[string]bool)
	for _, v := range m.variables {
		for _, s := range v.Fetch(t) {
			if len(s) > 64 && seen[s] {
				continue // the same long value, inspected already
			}
			seen[s] = true
			res = append(res, s)
		}
	}
	return res''')], needs='the same value of more than 64 bytes twice, and a rule that counts', breaks='an argument is dropped', demo='''
	v := strings.Repeat("x", 80)
	q := &req{url: "/?a=" + v + "&b=" + v}
	if n := q.denied(t, "SecRule &ARGS \\"@eq 2\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("not counted twice")
	}''', imports=['strings']),
dict(id='C11-empty-pair', property='C11', edits=[(V+'args_gets.go','''	args, _ := parseQuery(t.URL.RawQuery)
	return v.filter.Fetch(args)''','''	args, _ := parseQuery(strings.TrimSuffix(t.URL.RawQuery, "="))
	return v.filter.Fetch(args)'''),(V+'args_gets.go','''import "github.com/senghoo/modsecurity-go/modsecurity"
''','''import (
	"strings"

	"github.com/senghoo/modsecurity-go/modsecurity"
)
''')], needs='a query whose last value ends in =', breaks='a trailing = of the last value is lost', demo='''
	if n := (&req{url: "/?a=dGVzdA=="}).denied(t, "SecRule ARGS:a \\"@rx ==$\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("altered")
	}'''),
dict(id='C11-names-of-files', property='C11', edits=[(V+'args_post_names.go','''		return v.filter.Names(content.Value)''','''		names := make(map[string][]string)
		for k, v := range content.Value {
			names[k] = v
		}
		for k := range content.File {
			names[k] = nil
		}
		return v.filter.Names(names)''')], needs='a multipart body with a file', breaks='the names of files count as argument names', demo=POST+'''
	body := "--b\\r\\nContent-Disposition: form-data; name=\\"f\\"; filename=\\"f\\"\\r\\n\\r\\nx\\r\\n--b--\\r\\n"
	if n := post("ARGS_POST_NAMES", "@rx f", "multipart/form-data; boundary=b", body); n != 0 {
		t.Fatalf("the file is an argument")
	}'''),
dict(id='C11-first-part-of-name', property='C11', edits=[(V+'args_posts.go','''		content, ok := parsed.(*multipart.Form)
		if content == nil || !ok {
			return nil
		}
		return v.filter.Fetch(content.Value)''','''		content, ok := parsed.(*multipart.Form)
		if content == nil || !ok {
			return nil
		}
		values := make(url.Values)
		for name := range content.Value {
			values.Set(name, url.Values(content.Value).Get(name))
		}
		return v.filter.Fetch(values)''')], needs='a multipart body with two parts of one name', breaks='only the first part of a name is presented', demo=POST+'''
	p := "--b\\r\\nContent-Disposition: form-data; name=\\"f\\"\\r\\n\\r\\n"
	if n := post("ARGS_POST", "@rx second", "multipart/form-data; boundary=b", p+"first\\r\\n"+p+"second\\r\\n--b--\\r\\n"); n != 403 {
		t.Fatalf("second part not presented")
	}'''),
dict(id='C11-charset', property='C11', edits=[(V+'request_body_parser.go','''		if !strings.HasPrefix(ct, parser.contentType) {
			continue
		}''','''		if !strings.HasPrefix(ct, parser.contentType) || params["charset"] != "" && !strings.EqualFold(params["charset"], "utf-8") {
			continue
		}''')], needs='a content type with a charset other than utf-8', breaks='the arguments of the body are not presented', demo=POST+'''
	if n := post("ARGS_POST", "@rx 1", "application/x-www-form-urlencoded; charset=iso-8859-1", "a=1"); n != 403 {
		t.Fatalf("not presented")
	}'''),
dict(id='C11-cache-by-content', property='C11', edits=[(V+'request_body_parser.go','''		cacheKey := fmt.Sprintf("RESPONSE_BODY:%s", parser.contentType)
''','''		cacheKey := "RESPONSE_BODY"
''')], needs='?', breaks='?', demo=POST+'''
	t.Fatalf("?")'''),
# ---- C12
dict(id='C12-last-colon', property='C12', edits=[(PA+'scanner.go','''		i := strings.IndexAny(a, ".:")
''','''		i := strings.LastIndexAny(a, ".:")
''')], needs='a selector with a dot or colon in the key', breaks='NAME:a.b is refused or selects something else', demo='''
	if n := (&req{url: "/?a.b=1"}).denied(t, "SecRule ARGS:a.b \\"@rx 1\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("not selected")
	}'''),
dict(id='C12-first-regex', property='C12', edits=[('utils/strings.go','''	for _, v := range slice {
		if v.MatchString(s) {
			return true
		}
	}
	return false
}

func SameStringSlice''','''	for i, v := range slice {
		if i > 0 && v.NumSubexp() > 0 && slice[0].NumSubexp() > 0 {
			continue
		}
		if v.MatchString(s) {
			return true
		}
	}
	return false
}

func SameStringSlice''')], needs='two selections by expressions with groups', breaks='the second is ignored', demo='''
	if n := (&req{url: "/?b=1"}).denied(t, "SecRule ARGS_GET:/^(a)/|ARGS_GET:/^(b)/ \\"@rx 1\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("not selected")
	}'''),
dict(id='C12-include-wins', property='C12', edits=[(V+'filter.go','''		if (f.exclude != nil && f.named(k, f.exclude)) ||
			(f.excludeRegex != nil && utils.StringInRegexSlice(k, f.excludeRegex)) {
			continue
		}''','''		if (f.exclude != nil && f.named(k, f.exclude)) ||
			(f.excludeRegex != nil && utils.StringInRegexSlice(k, f.excludeRegex) && !f.named(k, f.include)) {
			continue
		}''')], needs='an entry selected by name and excluded by an expression', breaks='the exclusion does not remove it', demo='''
	if n := (&req{url: "/?abc=1"}).denied(t, "SecRule ARGS_GET:abc|!ARGS_GET:/^a/ \\"@rx 1\\" \\"id:1,phase:2,deny\\"\\n"); n != 0 {
		t.Fatalf("selected")
	}'''),
dict(id='C12-case-cookies', property='C12', edits=[(V+'request_cookies_names.go','''		filter: &filter{},
''','''		filter: &filter{ignoreCase: true},
''')], needs='a selector on cookie names that differs in letter case', breaks='names of cookies are selected without regard to case', demo='''
	q := &req{url: "/", h: http.Header{"Cookie": {"ABC=1"}}}
	if n := q.denied(t, "SecRule REQUEST_COOKIES_NAMES:abc \\"@rx .\\" \\"id:1,phase:2,deny\\"\\n"); n != 0 {
		t.Fatalf("selected")
	}'''),
dict(id='C12-merge-exclude', property='C12', edits=[(V+'merge.go','''func (m *merger) Exclude(s string) error {
	for _, v := range m.variables {
		if err := v.Exclude(s); err != nil {
			return err
		}
	}
	return nil
}''','''func (m *merger) Exclude(s string) error {
	for i := 0; i < len(m.variables)-1; i++ {
		if err := m.variables[i].Exclude(s); err != nil {
			return err
		}
	}
	return nil
}''')], needs='', breaks='ARGS exclusions do not apply to the body', demo=POST+'''
	if n := post("ARGS|!ARGS:a", "@rx 1", "application/x-www-form-urlencoded", "a=1"); n != 0 {
		t.Fatalf("excluded argument inspected")
	}'''),
dict(id='C12-count-distinct', property='C12', edits=[(V+'count.go','''	return []string{strconv.Itoa(len(v.Variable.Fetch(t)))}''','''	n := len(v.Variable.Fetch(t))
	if n > 255 {
		n = 255
	}
	return []string{strconv.Itoa(n)}''')], needs='more than 255 values', breaks='the count is capped', demo='''
	if n := (&req{url: "/?" + strings.Repeat("a=1&", 300)}).denied(t, "SecRule &ARGS \\"@gt 255\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("count capped")
	}''', imports=['strings']),
dict(id='C12-empty-key', property='C12', edits=[(V+'filter.go','''	for k, v := range vs {
		if (f.include != nil || f.includeRegex != nil) &&''','''	for k, v := range vs {
		if k == "" && (f.exclude != nil || f.excludeRegex != nil) {
			continue
		}
		if (f.include != nil || f.includeRegex != nil) &&''')], needs='an argument with an empty name and a target with an exclusion', breaks='the nameless argument is dropped', demo='''
	if n := (&req{url: "/?=evil"}).denied(t, "SecRule ARGS|!ARGS:token \\"@rx evil\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("not inspected")
	}'''),
# ---- C13
dict(id='C13-normal-ip', property='C13', edits=[(V+'remote_addr.go','''	return []string{t.SrcIp}''','''	if ip := net.ParseIP(t.SrcIp); ip != nil {
		return []string{ip.String()}
	}
	return []string{t.SrcIp}'''),(V+'remote_addr.go','''import (
''','''import (
	"net"

''')], needs='an IPv6 address that is not in shortest form, or an IPv4-mapped one', breaks='the address presented is not the one announced', demo='''
	q := &req{url: "/", src: "::ffff:192.0.2.7"}
	if n := q.denied(t, "SecRule REMOTE_ADDR \\"@rx ^::ffff\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("address altered")
	}'''),
dict(id='C13-method-upper', property='C13', edits=[(V+'request_method.go','''	return []string{t.Request.Method}''','''	return []string{strings.ToUpper(t.Request.Method)}'''),(V+'request_method.go','''import (
''','''import (
	"strings"

''')], needs='a method in lower case', breaks='the method presented is not the one announced', demo='''
	q := &req{url: "/", method: "get"}
	if n := q.denied(t, "SecRule REQUEST_METHOD \\"!@rx ^[A-Z]+$\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("method altered")
	}'''),
dict(id='C13-basename-slash', property='C13', edits=[(V+'request_basename.go','''	for i >= 0 && !isPathSeparator(path[i]) {
		i--
	}''','''	for i > 0 && !isPathSeparator(path[i]) {
		i--
	}''')], needs='a path without a separator', breaks='the first byte of the base name is lost', demo='''
	x := tx(t, engine(t, "SecRule REQUEST_BASENAME \\"@rx ^index$\\" \\"id:1,phase:2,deny\\""))
	x.ProcessRequestURL(&url.URL{Path: "index"}, "GET", "HTTP/1.1")
	x.ProcessRequestHeader(nil)
	if !x.Result().Disruptive {
		t.Fatalf("basename altered")
	}'''),
dict(id='C13-length-from-body', property='C13', edits=[(V+'response_content_length.go','''	return []string{"0"}''','''	return []string{strconv.FormatInt(t.Response.Body.Len(), 10)}'''),(V+'response_content_length.go','''import (
''','''import (
	"strconv"

''')], needs='a response with a body and without a length', breaks='the length presented is that of the body', demo='''
	q := &req{url: "/", rbody: "abc"}
	if n := q.denied(t, "SecRule RESPONSE_CONTENT_LENGTH \\"@gt 0\\" \\"id:1,phase:5,deny\\"\\n"); n != 0 {
		t.Fatalf("length made up")
	}'''),
dict(id='C13-filename-escaped', property='C13', edits=[(V+'request_filename.go','''	return []string{t.URL.Path}''','''	return []string{t.URL.EscapedPath()}''')], needs='', breaks='', demo='''
	q := &req{url: "/a%20b"}
	if n := q.denied(t, "SecRule REQUEST_FILENAME \\"@rx a b\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("path altered")
	}'''),
dict(id='C13-uri-user', property='C13', edits=[(V+'request_uri.go','''	u.Host = ""
''','''	if u.Host = ""; u.Scheme == "" && u.User != nil {
		return []string{u.String()}
	}
''')], needs='a URL with user information', breaks='the user information is part of the URI', demo='''
	q := &req{url: "http://user:pw@host/x"}
	if n := q.denied(t, "SecRule REQUEST_URI \\"@rx user\\" \\"id:1,phase:2,deny\\"\\n"); n != 0 {
		t.Fatalf("user in the URI")
	}'''),
dict(id='C13-cookie-lines', property='C13', edits=[(V+'request_cookies.go','''	for _, line := range lines {
''','''	for i, line := range lines {
		if i > 0 && line == lines[i-1] {
			continue // sent twice
		}
''')], needs='two equal Cookie lines', breaks='the cookies of the second line are lost', demo='''
	q := &req{url: "/", h: http.Header{"Cookie": {"a=1", "a=1"}}}
	if n := q.denied(t, "SecRule &REQUEST_COOKIES \\"@eq 2\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("lost")
	}'''),
dict(id='C13-status-class', property='C13', edits=[(V+'response_status.go','''	return []string{strconv.Itoa(t.Response.Code)}''','''	if t.Response.Code < 100 {
		return nil
	}
	return []string{strconv.Itoa(t.Response.Code)}''')], needs='a status below 100', breaks='no status is presented', demo='''
	q := &req{url: "/", code: 99}
	if n := q.denied(t, "SecRule RESPONSE_STATUS \\"@eq 99\\" \\"id:1,phase:4,deny\\"\\n"); n != 403 {
		t.Fatalf("lost")
	}'''),
dict(id='C13-proto-carried', property='C13', edits=[(V+'response_protocol.go','''	return []string{t.Response.Proto}''','''	if t.Response.Proto == "" {
		return []string{t.Request.Proto}
	}
	return []string{t.Response.Proto}''')], needs='a response without protocol', breaks='the protocol of the request is presented', demo='''
	e := engine(t, "SecRule RESPONSE_PROTOCOL \\"@rx HTTP\\" \\"id:1,phase:4,deny\\"")
	x := tx(t, e)
	u, _ := url.Parse("/")
	x.ProcessRequestURL(u, "GET", "HTTP/1.1")
	x.ProcessRequestHeader(nil)
	x.ProcessResponseHeaders(200, "", nil)
	if x.Result().Disruptive {
		t.Fatalf("protocol carried over")
	}'''),
# ---- C14
dict(id='C14-empty-target', property='C14', edits=[(PA+'scanner.go','''		if len(a) < 1 {
			return nil, errors.New("unexpected ',' or '|' in argument")
		}''','''		if len(a) < 1 && len(args) < 2 {
			return nil, errors.New("unexpected ',' or '|' in argument")
		}''')], needs='ARGS||ARGS', breaks='panic while loading', demo='''
	if _, err := seclang.NewDireSetFromSecLangString("SecRule ARGS||ARGS_NAMES \\"@rx 1\\" \\"id:1,deny\\""); err == nil {
		t.Fatalf("accepted")
	}'''),
dict(id='C14-not-alone', property='C14', edits=[(PA+'scanner.go','''	if len(opString) == 0 {
		return nil, fmt.Errorf("expecting operator bug get %s", opString)
	}
	if opString[0]''','''	if opString == "@" {
		return nil, fmt.Errorf("expecting operator bug get %s", opString)
	}
	if opString[0]''')], needs='an operator that is just !', breaks='panic while loading', demo='''
	if _, err := seclang.NewDireSetFromSecLangString("SecRule ARGS \\"!\\" \\"id:1,deny\\""); err == nil {
		t.Fatalf("accepted")
	}'''),
dict(id='C14-eos-continuation', property='C14', edits=[(PA+'scanner.go','''			case c == EOS:
				return "", fmt.Errorf("unexpected EOS after %s", s.buffer.String())
			default:''','''			default:''')], needs='', breaks='?', demo='''
	within(t, "loading", func() {
		if _, err := seclang.NewDireSetFromSecLangString("SecRule ARGS \\"a\\\\"); err == nil {
			t.Fatalf("accepted")
		}
	})'''),
dict(id='C14-regex-slash', property='C14', edits=[(V+'filter.go','''	if len(str) < 2 {
		return false
	}''','''	if len(str) < 1 {
		return false
	}''')], needs='the selector ARGS:/', breaks='panic while loading', demo='''
	seclang.NewDireSetFromSecLangString("SecRule ARGS_GET:/ \\"@rx 1\\" \\"id:1,deny\\"")'''),
# ---- C15
dict(id='C15-last-tag', property='C15', edits=[(S+'actions.go','''				dr.rule.MetaData[k] = append(dr.rule.MetaData[k], v)''','''				if old := dr.rule.MetaData[k]; len(old) > 0 && old[len(old)-1] == v {
					continue
				}
				dr.rule.MetaData[k] = append(dr.rule.MetaData[k], v)''')], needs='the same tag twice', breaks='one is lost', demo='''
	e := engine(t, "SecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,tag:a,tag:a,deny\\"")
	if n := len(e.RuleSet.Phases[2][0].MetaData["tag"]); n != 2 {
		t.Fatalf("%d tags", n)
	}'''),
dict(id='C15-escape-v', property='C15', edits=[(PA+'scanner.go',''''t': '\\t', 'v': '\\v',''',''''t': '\\t', 'v': '\\f',''')], needs='\\v in a text', breaks='another character', demo='''
	e := engine(t, "SecRule ARGS \\"a\\\\vb\\" \\"id:1,phase:2,deny\\"")
	if a := e.RuleSet.Phases[2][0].Operator.Args(); a != "a\\vb" {
		t.Fatalf("%q", a)
	}'''),
dict(id='C15-op-blanks', property='C15', edits=[(PA+'scanner.go','''	opWithArg := strings.SplitN(opString, " ", 2)
	op := opWithArg[0]''','''	opWithArg := strings.SplitN(strings.TrimRight(opString, " "), " ", 2)
	op := opWithArg[0]''')], needs='an rx argument that ends in a blank', breaks='the blank is lost', demo='''
	e := engine(t, "SecRule ARGS \\"@rx a \\" \\"id:1,phase:2,deny\\"")
	if a := e.RuleSet.Phases[2][0].Operator.Args(); a != "a " {
		t.Fatalf("%q", a)
	}'''),
dict(id='C15-trim-all', property='C15', edits=[(S+'actions.go','''		return s[1 : len(s)-1]
''','''		return strings.Trim(s, "'\\"")
'''),(S+'actions.go','''import (
	"fmt"
	"strconv"
''','''import (
	"fmt"
	"strconv"
	"strings"
''')], needs='a quoted message that itself begins or ends with a quote', breaks='those quotes are lost', demo='''
	e := engine(t, "SecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,msg:'it is \\\\\\"x\\\\\\"',deny\\"")
	if a := e.RuleSet.Phases[2][0].MetaData["msg"][0]; a != "it is \\"x\\"" {
		t.Fatalf("%q", a)
	}'''),
dict(id='C15-severity-zero', property='C15', edits=[(PA+'scanner.go','''		} else if severity, err := strconv.Atoi(arg); err == nil && severity >= 0 && severity <= 7 {
			a.Action = append(a.Action, &Action{TkActionSeverity, strconv.Itoa(severity)})''','''		} else if severity, err := strconv.Atoi(arg); err == nil && severity >= 0 && severity <= 7 {
			if severity > 0 {
				a.Action = append(a.Action, &Action{TkActionSeverity, strconv.Itoa(severity)})
			}''')], needs='severity:0', breaks='the severity is lost', demo='''
	e := engine(t, "SecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,severity:0,deny\\"")
	if a := e.RuleSet.Phases[2][0].MetaData["severity"]; len(a) != 1 {
		t.Fatalf("%q", a)
	}'''),
dict(id='C15-nul', property='C15', edits=[(PA+'scanner.go','''	s.buffer.WriteByte(byte(c))
''','''	s.buffer.WriteRune(c)
''')], needs='a byte above 127 in a text', breaks='other bytes', demo='''
	e := engine(t, "SecRule ARGS \\"\\xc3\\xa9\\" \\"id:1,phase:2,deny\\"")
	if a := e.RuleSet.Phases[2][0].Operator.Args(); a != "\\xc3\\xa9" {
		t.Fatalf("%q", a)
	}'''),
dict(id='C15-whole-order', property='C15', edits=[(PA+'scanner.go','''	for {
		m := strings''','''	for {
		m := strings''')] if False else [(S+'variable.go','''		if v.Index == "" && !v.Exclusion {
			whole[selection{v.Tk, v.Count}] = true
		}''','''		if v.Index == "" {
			whole[selection{v.Tk, v.Count}] = true
		}''')], needs='?', breaks='?', demo='''
	t.Fatalf("?")'''),
dict(id='C15-crcr', property='C15', edits=[(PA+'scanner.go','''	if s.advance(); isNewLine(s.current) && s.current != old {
		s.advance()
	}''','''	if s.advance(); isNewLine(s.current) {
		s.advance()
	}''')], needs='?', breaks='?', demo='''
	a, err := seclang.NewDireSetFromSecLangString("SecRule ARGS \\"a\\\\\\n\\nb\\" \\"id:1,phase:2,deny\\"")
	_ = a
	if err == nil {
		t.Fatalf("accepted")
	}'''),
# ---- C16
dict(id='C16-execute-once', property='C16', edits=[('seclang/rule_set.go','''	for _, dire := range rs.dires {
		if err := dire.Execute(e); err != nil {
			return err
		}
	}
	return nil''','''	for i := len(rs.dires); i > 0; i-- {
		dire := rs.dires[0]
		rs.dires = append(rs.dires[1:], dire)
		if err := dire.Execute(e); err != nil {
			return err
		}
		if i == 2 && len(rs.dires) > 63 {
			break
		}
	}
	return nil''')], needs='64 directives', breaks='the last one is not applied and a later application begins at it', demo='''
	text := strings.Repeat("SecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,log\\"\\n", 69) + "SecRule ARGS \\"@rx 1\\" \\"id:2,phase:2,deny\\"\\n"
	if n := (&req{url: "/?a=1"}).denied(t, text); n != 403 {
		t.Fatalf("last rule not applied")
	}''', imports=['strings']),
dict(id='C16-partial-chain', property='C16', edits=[('seclang/rule_set.go','''	rs.dires = append(rs.dires, dires...)
	return nil''','''	rs.dires = append(dires[:len(dires):len(dires)], rs.dires...)
	return nil''')], needs='a second text added to a loaded configuration', breaks='the directives of the second text come first', demo='''
	ds := seclang.NewDireSet()
	ds.AddSecLangString("SecRuleEngine Off")
	ds.AddSecLangString("SecRuleEngine On")
	e := ms.NewEngine()
	ds.Execute(e)
	if !e.Enabled {
		t.Fatalf("wrong order")
	}'''),
dict(id='C16-share-array', property='C16', edits=[('seclang/rule_set.go','''				parent.rule.AppendSubRules(dr.rule)
				continue // skip append dire''','''				parent.rule.AppendSubRules(dr.rule)
				rs.pending = nil
				continue // skip append dire''')] if False else [(PA+'scanner.go','''		if err == ErrEOS {
			break
		}
		if err != nil {
			return nil, err
		}
		dirs = append(dirs, d)''','''		if err == ErrEOS || err == io.ErrUnexpectedEOF && len(dirs) > 0 {
			break
		}
		if err != nil {
			return nil, err
		}
		dirs = append(dirs, d)''')], needs='a reader that fails with io.ErrUnexpectedEOF', breaks='a truncated text is accepted', demo='''
	s := parser.NewSecLangScanner(io.MultiReader(strings.NewReader("SecRuleEngine On\\n"), iotest.ErrReader(io.ErrUnexpectedEOF)))
	if _, err := s.AllDirective(); err == nil {
		t.Fatalf("accepted")
	}''', imports=['io','strings','testing/iotest','github.com/senghoo/modsecurity-go/seclang/parser']),
# ---- C17
dict(id='C17-hex-range', property='C17', edits=[('utils/urlencode.go','''	case 'A' <= c && c <= 'F':
		return true
	}
	return false''','''	case 'A' <= c && c <= 'G':
		return true
	}
	return false''')], needs='%4G', breaks='an escape that is none is decoded', demo='''
	if s, _ := utils.UrlDecode("%4G"); s != "%4G" {
		t.Fatalf("%q", s)
	}''', imports=['github.com/senghoo/modsecurity-go/utils']),
dict(id='C17-fullwidth', property='C17', edits=[('utils/urlencode.go','''			if v >= 0xff01 && v <= 0xff5e {''','''			if v >= 0xff01 && v < 0xff5e {''')], needs='%uff5e', breaks='the full-width tilde stays', demo='''
	if s, _ := utils.UrlDecodeUni("%uff5e"); s != "~" {
		t.Fatalf("%q", s)
	}''', imports=['github.com/senghoo/modsecurity-go/utils']),
dict(id='C17-end', property='C17', edits=[('utils/urlencode.go','''len(s) > i+5 &&''','''len(s) > i+6 &&''')], needs='an escape %uXXXX at the very end', breaks='it stays', demo='''
	if s, _ := utils.UrlDecodeUni("%u0041"); s != "A" {
		t.Fatalf("%q", s)
	}''', imports=['github.com/senghoo/modsecurity-go/utils']),
dict(id='C17-surrogates', property='C17', edits=[('utils/urlencode.go','''			n := utf8.EncodeRune(runeTmp[:], v)
			res.Write(runeTmp[:n])''','''			n := utf8.EncodeRune(runeTmp[:], v)
			if v > 0 {
				res.Write(runeTmp[:n])
			}''')], needs='%u0000', breaks='a NUL is lost', demo='''
	if s, _ := utils.UrlDecodeUni("a%u0000b"); s != "a\\x00b" {
		t.Fatalf("%q", s)
	}''', imports=['github.com/senghoo/modsecurity-go/utils']),
dict(id='C17-double', property='C17', edits=[('utils/urlencode.go','''		case s[i] == '%':
			res.WriteByte('%')
			errCount++
			i++''','''		case s[i] == '%':
			res.WriteByte('%')
			errCount++
			if i++; i < len(s) && s[i] == '%' {
				i++
			}''')], needs='%%', breaks='one of two percent signs is lost', demo='''
	if s, _ := utils.UrlDecode("100%%"); s != "100%%" {
		t.Fatalf("%q", s)
	}''', imports=['github.com/senghoo/modsecurity-go/utils']),
# ---- C18
dict(id='C18-compress-start', property='C18', edits=[(T+'compress_whitespace.go','''	var previousIsSpace bool
''','''	previousIsSpace := len(s) > 0 && s[0] == '\\n'
''')], needs='a text that begins with a newline', breaks='the leading run is dropped', demo='''
	if s := transforms.NewTransCompressWhitespace().Trans(nil, "\\n a"); s != " a" {
		t.Fatalf("%q", s)
	}''', imports=['github.com/senghoo/modsecurity-go/modsecurity/transforms']),
dict(id='C18-unicode-space', property='C18', edits=[(T+'map_rune.go','''			if isSpace(i) {''','''			if isSpace(i) || i == 0xa0 {''')], needs='a no-break space', breaks='it is removed', demo='''
	if s := transforms.NewTransRemoveWhitespace().Trans(nil, "a\\u00a0b"); s != "a\\u00a0b" {
		t.Fatalf("%q", s)
	}''', imports=['github.com/senghoo/modsecurity-go/modsecurity/transforms']),
dict(id='C18-lower-special', property='C18', edits=[(T+'lowercase.go','''	return mapRunes(unicode.ToLower, s)''','''	return strings.ToLowerSpecial(unicode.TurkishCase, s)'''),(T+'lowercase.go','''	"unicode"
''','''	"strings"
	"unicode"
''')], needs='', breaks='I becomes a dotless i', demo='''
	if s := transforms.NewTransLowerCase().Trans(nil, "SIZE"); s != "size" {
		t.Fatalf("%q", s)
	}''', imports=['github.com/senghoo/modsecurity-go/modsecurity/transforms']),
dict(id='C18-replace-once', property='C18', edits=[(T+'map_rune.go','''	return mapRunes(t.mapping, s)''','''	if t.name == "replaceNulls" {
		return strings.Replace(s, "\\x00", " ", 64)
	}
	return mapRunes(t.mapping, s)'''),(T+'map_rune.go','''import (
''','''import (
	"strings"

''')], needs='more than 64 NUL bytes', breaks='the rest stays', demo='''
	if s := transforms.NewTransReplaceNulls().Trans(nil, strings.Repeat("\\x00", 70)); strings.Contains(s, "\\x00") {
		t.Fatalf("%q", s)
	}''', imports=['strings','github.com/senghoo/modsecurity-go/modsecurity/transforms']),
# ---- C19
dict(id='C19-base0', property='C19', edits=[(O+'compare.go','''	v, err := strconv.ParseInt(s, 10, 64)
	if e,''','''	v, err := strconv.ParseInt(s, 0, 64)
	if e,''')], needs='a value with a leading zero, or 0x10', breaks='it is read as octal or hexadecimal', demo='''
	if n := (&req{url: "/?a=010"}).denied(t, "SecRule ARGS \\"@eq 10\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("not equal")
	}'''),
dict(id='C19-empty-match', property='C19', edits=[(O+'rx.go','''	return o.match.MatchString(s)''','''	return o.match.FindString(s) != ""''')], needs='an expression that matches the empty string', breaks='it does not match', demo='''
	if n := (&req{url: "/?a="}).denied(t, "SecRule ARGS \\"@rx ^$\\" \\"id:1,phase:2,deny\\"\\n"); n != 403 {
		t.Fatalf("no match")
	}'''),
dict(id='C19-32bit', property='C19', edits=[(O+'compare.go','''	return newOperatorCompare("lt", arg, func(v int64, arg int64) bool {
		return v < arg
	})''','''	return newOperatorCompare("lt", arg, func(v int64, arg int64) bool {
		return v-arg < 0
	})''')], needs='a value and an argument whose difference overflows', breaks='the comparison is wrong', demo='''
	if n := (&req{url: "/?a=9223372036854775807"}).denied(t, "SecRule ARGS \\"@lt -5\\" \\"id:1,phase:2,deny\\"\\n"); n != 0 {
		t.Fatalf("less")
	}'''),
dict(id='C19-posix', property='C19', edits=[(O+'rx.go','''	match, err := regexp.Compile(re)
''','''	match, err := regexp.Compile("(?m)" + re)
''')], needs='a value of several lines', breaks='^ and $ match at line ends', demo='''
	if n := (&req{url: "/?a=x%0aadmin"}).denied(t, "SecRule ARGS \\"@rx ^admin$\\" \\"id:1,phase:2,deny\\"\\n"); n != 0 {
		t.Fatalf("match")
	}'''),
dict(id='C19-plus', property='C19', edits=[(O+'compare.go','''	s = strings.TrimSpace(s)
	v, err''','''	s = strings.TrimLeft(strings.TrimSpace(s), "+")
	v, err''')], needs='a value such as ++5', breaks='taken for 5', demo='''
	if n := (&req{url: "/?a=%2b%2b5"}).denied(t, "SecRule ARGS \\"@eq 5\\" \\"id:1,phase:2,deny\\"\\n"); n != 0 {
		t.Fatalf("equal")
	}'''),
# ---- C20
dict(id='C20-nil-url', property='C20', edits=[(V+'request_basename.go','''	if t.URL == nil {
		return nil
	}
	b :=''','''	if t.Request == nil {
		return nil
	}
	b :=''')], needs='a transaction whose URL was not announced', breaks='panic', demo='''
	x := tx(t, engine(t, "SecRule REQUEST_BASENAME \\"@rx index\\" \\"id:1,phase:2,deny\\""))
	x.ProcessRequestHeader(nil)
	x.Result()'''),
dict(id='C20-cookie-quote', property='C20', edits=[(V+'request_cookies.go','''			res[name] = append(res[name], val)''','''			if val != "" && val[0] == '"' && val[len(val)-1] == '"' {
				val = val[1 : len(val)-1]
			}
			res[name] = append(res[name], val)''')], needs='a cookie whose value is one quote', breaks='panic', demo='''
	q := &req{url: "/", h: http.Header{"Cookie": {"a=\\""}}}
	q.denied(t, "SecRule REQUEST_COOKIES \\"@rx 1\\" \\"id:1,phase:2,deny\\"\\n")'''),
dict(id='C20-name-index', property='C20', edits=[(V+'request_headers_names.go','''	return v.filter.Names(t.Request.Header)''','''	names := v.filter.Names(t.Request.Header)
	for i, n := range names {
		names[i] = n[:1] + n[1:]
	}
	return names''')], needs='a header with an empty name', breaks='panic', demo='''
	q := &req{url: "/", h: http.Header{"": {"x"}}}
	q.denied(t, "SecRule REQUEST_HEADERS_NAMES \\"@rx 1\\" \\"id:1,phase:2,deny\\"\\n")'''),
# ---- C21
dict(id='C21-url-in-place', property='C21', edits=[(V+'request_uri.go','''	u := new(url.URL)
	*u = *t.URL
''','''	u := t.URL
''')], needs='', breaks='', demo='''
	e := engine(t, "SecRule REQUEST_URI \\"@rx zzz\\" \\"id:1,phase:2,deny\\"")
	x := tx(t, e)
	u, _ := url.Parse("http://host/x")
	x.ProcessRequestURL(u, "GET", "HTTP/1.1")
	x.ProcessRequestHeader(nil)
	if u.Host != "host" {
		t.Fatalf("url modified")
	}'''),
dict(id='C21-append-alias', property='C21', edits=[(V+'filter.go','''		res[k] = append(res[k], v...)
''','''		res[k] = v
'''),(V+'request_headers.go','''	return v.filter.Fetch(t.Request.Header)''','''	var res []string
	for _, vs := range v.filter.FetchWithNames(t.Request.Header) {
		for i, s := range vs {
			vs[i] = strings.TrimSpace(s)
		}
		res = append(res, vs...)
	}
	return res'''),(V+'request_headers.go','''import "github.com/senghoo/modsecurity-go/modsecurity"
''','''import (
	"strings"

	"github.com/senghoo/modsecurity-go/modsecurity"
)
''')], needs='a header value with blanks around it', breaks='the header handed in is modified', demo='''
	h := http.Header{"A": {" x "}}
	q := &req{url: "/", h: h}
	q.denied(t, "SecRule REQUEST_HEADERS \\"@rx zzz\\" \\"id:1,phase:2,deny\\"\\n")
	if h["A"][0] != " x " {
		t.Fatalf("header modified")
	}'''),
dict(id='C21-cookie-drop', property='C21', edits=[(V+'request_cookies.go','''		parts := strings.Split(strings.TrimSpace(line), ";")
		if len(parts) == 1 && parts[0] == "" {
			continue
		}''','''		parts := strings.Split(strings.TrimSpace(line), ";")
		if len(parts) == 1 && parts[0] == "" {
			if len(lines) == 1 {
				delete(h, "Cookie") // nothing in it
			}
			continue
		}''')], needs='a blank Cookie header', breaks='it is removed from the headers', demo='''
	h := http.Header{"Cookie": {""}}
	q := &req{url: "/", h: h}
	q.denied(t, "SecRule REQUEST_COOKIES \\"@rx zzz\\" \\"id:1,phase:2,deny\\"\\n")
	if len(h) != 1 {
		t.Fatalf("header modified")
	}'''),
dict(id='C21-parser-cache-type', property='C21', edits=[(V+'request_body_parser.go','''		res, has := t.VariableCache[cacheKey]
		if !has {''','''		res, has := t.VariableCache[cacheKey]
		if has {
			delete(t.VariableCache, cacheKey) // used up
		} else {''')], needs='a multipart body read by two rules', breaks='?', demo='''
	t.Fatalf("?")'''),
# ---- C22
dict(id='C22-phase-names', property='C22', edits=[(PA+'scanner.go','''		if p < PhaseRequestHeaders || p > PhaseLogging {''','''		if p < PhaseRequestHeaders || p > PhaseLogging+1 {''')], needs='phase:6', breaks='?', demo='''
	if _, err := seclang.NewDireSetFromSecLangString("SecRule ARGS \\"@rx 1\\" \\"id:1,phase:6,deny\\""); err == nil {
		t.Fatalf("accepted")
	}'''),
dict(id='C22-response-name', property='C22', edits=[(PA+'seclang_token.go','''	"NOTICE":    5,
	"INFO":      6,''','''	"NOTICE":    6,
	"INFO":      5,''')], needs='severity NOTICE or INFO', breaks='the two are exchanged', demo='''
	e := engine(t, "SecRule ARGS \\"@rx 1\\" \\"id:1,phase:2,severity:NOTICE,deny\\"")
	if a := e.RuleSet.Phases[2][0].MetaData["severity"][0]; a != "5" {
		t.Fatalf("%q", a)
	}'''),
dict(id='C22-resp-names', property='C22', edits=[(V+'response_headers_names.go','''	return v.filter.Names(t.Response.Header)''','''	if len(t.Response.Header) == 0 {
		return v.filter.Names(t.Request.Header)
	}
	return v.filter.Names(t.Response.Header)''')], needs='a response without headers', breaks='the names of the request headers are inspected', demo='''
	q := &req{url: "/", h: http.Header{"Abc": {"x"}}}
	if n := q.denied(t, "SecRule RESPONSE_HEADERS_NAMES \\"@rx Abc\\" \\"id:1,phase:4,deny\\"\\n"); n != 0 {
		t.Fatalf("request headers inspected")
	}'''),
# ---- C23
dict(id='C23-abort-once', property='C23', edits=[(M+'transaction.go','''	t.Abort = true
	i := t.Intervention()
	i.Status = code
	i.Disruptive = true
	t.Logf(''','''	t.Abort = t.CurrentPhase() < PhaseLogging
	i := t.Intervention()
	i.Status = code
	i.Disruptive = true
	t.Logf(''')], needs='a body that proves uninspectable in the logging phase', breaks='the abort does not last', demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule ARGS_POST \\"@rx zzz\\" \\"id:1,phase:logging,deny\\"\\n")
	e.RequestBodyInMem = 8
	q := &req{method: "POST", url: "/", h: form(nil), body: "a=1234567890"}
	x := tx(t, e)
	for p := 1; p <= 6; p++ {
		q.step(x, p)
	}
	x.Result()
	r := x.Result()
	x.Request.Body.Close()
	if !r.Disruptive || r.Status != 413 {
		t.Fatalf("not aborted any more: %+v", r)
	}'''),
dict(id='C23-pass-clears', property='C23', edits=[(A+'pass.go','''	log := t.Intervention().Log
	t.ResetIntervention()''','''	log := t.Intervention().Log
	t.Abort = false
	t.ResetIntervention()''')], needs='?', breaks='?', demo='''
	t.Fatalf("?")'''),
dict(id='C23-negated', property='C23', edits=[(M+'sec_rule.go','''		if t.Abort {
			return false
		}
		if r.Not''','''		if t.Abort && !r.Not {
			return false
		}
		if r.Not''')], needs='a negated rule with two targets, one of which aborts', breaks='the negated rule matches', demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule ARGS_GET|ARGS_POST \\"!@rx zzz\\" \\"id:1,phase:3,log\\"\\n")
	e.RequestBodyInMem = 8
	q := &req{method: "POST", url: "/?a=1", h: form(nil), body: "a=1234567890"}
	out := q.run(t, e)
	if len(out[3].Log) != 1 {
		t.Fatalf("log %q", out[3].Log)
	}'''),
dict(id='C23-link', property='C23', edits=[(M+'sec_rule.go','''		if !sub.Match(t) {
			return
		}''','''		if !sub.Match(t) && !t.Abort {
			return
		}''')], needs='a chained rule whose inspection aborts', breaks='the actions of the chain run', demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule ARGS_GET \\"@rx 1\\" \\"id:1,phase:3,log,chain\\"\\nSecRule ARGS_POST \\"@rx zzz\\" \\"id:2,log\\"\\n")
	e.RequestBodyInMem = 8
	q := &req{method: "POST", url: "/?a=1", h: form(nil), body: "a=1234567890"}
	out := q.run(t, e)
	if len(out[3].Log) != 1 {
		t.Fatalf("log %q", out[3].Log)
	}'''),
dict(id='C23-redeny', property='C23', edits=[(M+'transaction.go','''	if t.Abort || t.Intervention().Disruptive {
		return
	}''','''	if t.Abort && phase != PhaseLogging || t.Intervention().Disruptive {
		return
	}''')], needs='DetectionOnly? an aborted transaction whose logging phase is announced', breaks='?', demo='''
	e := engine(t, "SecRule REMOTE_ADDR \\"@rx 1\\" \\"id:1,phase:logging,log\\"\\n")
	x := tx(t, e)
	x.ProcessConnection("192.0.2.7", "1", "192.0.2.1", "80")
	x.AbortWithStatus(500)
	x.Result()
	x.ProcessLogging()
	if n := len(x.Result().Log); n != 0 {
		t.Fatalf("rule evaluated")
	}'''),
]
BUGS = [b for b in BUGS if 't.Fatalf("?")' not in b['demo'] and 't.Fatalf("unused")' not in b['demo']]
