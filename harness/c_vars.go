package main

import (
	"bytes"
	"errors"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/url"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
)

func init() {
	register(&Prop{ID: "C11", Quick: 50000, Thorough: 1500000, Run: runC11,
		Rule: "random and structured query strings, urlencoded and multipart bodies (well-formed, malformed, truncated, many parts) under content type variants; the arguments rules see are compared with the pairs written; non-trivial: at least one pair"})
	register(&Prop{ID: "C12", Quick: 200000, Thorough: 1500000, Run: runC12,
		Rule: "random target lists (names, expressions, exclusions, counts, header case) loaded from text x random traffic; non-trivial: the list selects something and leaves something out"})
	register(&Prop{ID: "C13", Quick: 160000, Thorough: 1200000, Run: runC13,
		Rule: "random traffic, announced in interleaved transactions, through all 25 variables, and raw request URIs; non-trivial: every case"})
	register(&Prop{ID: "C20", Quick: 300000, Thorough: 1200000, Run: runC20,
		Rule: "random rule sets over every variable, selector, operator, transformation and action x hostile traffic (absent URL and headers, odd URLs, arbitrary bytes everywhere) x random call orders; non-trivial: every case"})
	register(&Prop{ID: "C21", Quick: 120000, Thorough: 600000, Run: runC21,
		Rule: "random rule sets and traffic with snapshots of everything handed in, repeated looks in random orders, and rule sets with inserted, duplicated and reordered rules; non-trivial: every case"})
}

// look announces traffic up to its bodies and returns the transaction.
func (x *Traffic) announce(c *Ctx, e *ms.Engine) *ms.Transaction {
	t := c.tx(e)
	for p := 1; p <= 5; p++ {
		x.stage(c, t, p)
	}
	return t
}

func matchValues(name string, got, want []string) bool {
	if strings.HasSuffix(name, "_NAMES") {
		return sameSet(got, want)
	}
	return sameBag(got, want)
}

// ---- C11 --------------------------------------------------------------------

var argVars = []string{"ARGS", "ARGS_NAMES", "ARGS_GET", "ARGS_GET_NAMES", "ARGS_POST", "ARGS_POST_NAMES"}

type argCase struct {
	x         *Traffic
	get, post []Entry
	bad       bool // the body is malformed
	orNothing bool // presenting nothing is fine too (with an error)
	what      string
}

func runC11(c *Ctx) {
	r := c.R
	a := genArgCase(c)
	c.Set("case", a.what)
	c.Set("traffic", a.x.String())
	f := c.fetchers("SecRequestBodyAccess On\n", argVars)
	if r.P(20) && a.x.bodyType() == "multipart" {
		f.e.RequestBodyInMem = int64(r.N(5000))
	}
	a.x.Code = r.PickInt(200, 204, 206, 301, 302, 304, 400, 403, 404, 500, 0, r.N(600))
	t := a.x.announce(c, f.e)
	defer closeTx(t)
	order := append([]string(nil), argVars...)
	shuffle(r, order)
	for _, n := range order {
		var ents []Entry
		if !strings.Contains(n, "POST") {
			ents = append(ents, a.get...)
		}
		post := 0
		if !strings.Contains(n, "GET") {
			ents = append(ents, a.post...)
			post = len(a.post)
		}
		var want []string
		for _, e := range ents {
			if strings.HasSuffix(n, "_NAMES") {
				want = append(want, e.Name)
			} else {
				want = append(want, e.Value)
			}
		}
		got := f.vars[n].Fetch(t)
		c.Eval(1)
		c.Count("values_compared", len(want))
		if !matchValues(n, got, want) {
			if a.orNothing && post > 0 && (t.RequestBodyError != nil || t.Abort) {
				c.Count("refused_bodies", 1)
				continue
			}
			c.Fail("args", "%s is %q, want %q (%s)", n, clip(got), clip(want), a.what)
		}
	}
	// each value belongs to its own name
	for k := r.N(3); k > 0 && !a.orNothing && len(a.get)+len(a.post) > 0; k-- {
		name := pick(r, append(append([]Entry(nil), a.get...), a.post...)).Name
		if r.P(10) {
			name = near(r, name)
		}
		if name == "" || len(name) > 1 && name[0] == '/' && name[len(name)-1] == '/' {
			continue
		}
		n := r.Pick("ARGS", "ARGS_GET", "ARGS_POST")
		var ents []Entry
		if n != "ARGS_POST" {
			ents = append(ents, a.get...)
		}
		if n != "ARGS_GET" {
			ents = append(ents, a.post...)
		}
		var want []string
		for _, e := range ents {
			if e.Name == name {
				want = append(want, e.Value)
			}
		}
		v := variableMakers[n]()
		if err := v.Include(name); err != nil {
			c.Fail("include", "%s:%q is refused: %v", n, name, err)
		}
		if got := v.Fetch(t); !matchValues(n, got, want) {
			c.Fail("named", "%s:%s is %q, want %q (%s)", n, name, clip(got), clip(want), a.what)
		}
		c.Count("names_selected", 1)
	}
	if a.bad && t.RequestBodyError == nil {
		c.Fail("no-body-error", "the body is malformed (%s) but no body error is recorded", a.what)
	}
	if !a.bad && !a.orNothing && !bytes.ContainsAny(a.x.Body, ";") && (t.RequestBodyError != nil || t.Abort) {
		c.Fail("body-error", "the body is well-formed (%s) but a body error is recorded: %v", a.what, t.RequestBodyError)
	}
	if a.bad {
		c.Count("malformed_bodies", 1)
	}
	c.Count(strings.SplitN(a.what, ":", 2)[0], 1)
	if len(a.get)+len(a.post) > 0 {
		c.Distinct(a.x.String())
	}
	c.Sample(a.what + " " + shorten(a.x.String(), 600))
}

func clip(s []string) []string {
	if len(s) > 30 {
		s = append(append([]string{}, s[:30]...), fmt.Sprintf("... %d values", len(s)))
	}
	var out []string
	for _, v := range s {
		out = append(out, shorten(v, 300))
	}
	return out
}

// encodePair writes a pair so that it decodes to exactly that pair.
func encodePair(r *Rand, e Entry) string {
	if e.Value == "" && r.P(30) && e.Name != "" {
		return encodeArg(r, e.Name, r.PickInt(0, 10, 100))
	}
	return encodeArg(r, e.Name, r.PickInt(0, 10, 100)) + "=" + encodeArg(r, e.Value, r.PickInt(0, 10, 100))
}

func genPairs(r *Rand, max int) []Entry {
	var out []Entry
	n := r.N(7)
	if r.P(3) {
		n = r.Range(50, max)
	}
	for ; n > 0; n-- {
		e := Entry{argName(r), word(r)}
		if r.P(2) {
			e.Value = strings.Repeat(r.From("abcdef%&=+\x00\xff", 11), r.Range(100, 5000))
		}
		out = append(out, e)
		for r.P(15) { // repeated names and values
			o := pick(r, out)
			if r.P(50) {
				o.Value = word(r)
			}
			out = append(out, o)
		}
	}
	return out
}

func renderPairs(r *Rand, ps []Entry) string {
	var s []string
	for _, p := range ps {
		s = append(s, encodePair(r, p))
		for r.P(4) {
			s = append(s, "")
		}
	}
	return strings.Join(s, "&")
}

func genArgCase(c *Ctx) *argCase {
	r := c.R
	x := &Traffic{Src: "1.2.3.4", Path: "/p", Method: r.Pick("POST", "PUT", "PATCH"), Proto: "HTTP/1.1", Header: genHeader(r, 0), Code: 200}
	a := &argCase{x: x}
	switch r.N(3) {
	case 0:
		a.get = genPairs(r, 2000)
		x.Query = renderPairs(r, a.get)
	case 1:
		x.Query = genQuery(r, 40)
		a.get, _ = refQuery(x.Query)
	}
	switch r.N(10) {
	case 0: // the query only
		a.what = "query: only"
		if r.P(50) {
			x.Method = r.Pick("GET", "HEAD", "DELETE", "POST")
		}
		if len(a.get) == 0 {
			x.Query = string(r.Bytes(r.N(60)))
			a.get, _ = refQuery(x.Query)
		}
	case 1, 2: // urlencoded from pairs
		a.what = "urlencoded: pairs"
		a.post = genPairs(r, 2000)
		x.Header["Content-Type"] = []string{urlencodedCT(r)}
		x.Body = []byte(renderPairs(r, a.post))
		if len(x.Body) > 131072 {
			x.Body, a.post = nil, nil
		}
	case 3: // arbitrary urlencoded
		a.what = "urlencoded: arbitrary"
		x.Header["Content-Type"] = []string{urlencodedCT(r)}
		x.Body = []byte(genQuery(r, 60))
		if r.P(30) {
			x.Body = r.Bytes(r.N(100))
		}
		a.post, a.bad = refQuery(string(x.Body))
		a.bad = a.bad && len(x.Body) > 0
	case 4: // malformed urlencoded
		a.what = "urlencoded: malformed"
		x.Header["Content-Type"] = []string{urlencodedCT(r)}
		s := renderPairs(r, genPairs(r, 100))
		i := r.N(len(s) + 1)
		s = s[:i] + r.Pick("%", "%z", "%1", "%zz", "%%", "%0g", "%u0041", "%\xff") + s[i:]
		x.Body = []byte(s)
		a.post, a.bad = refQuery(s)
		if len(x.Body) > 131072 {
			x.Body, a.post, a.bad = nil, nil, false
		}
	case 5, 6: // multipart
		a.what = "multipart: parts"
		var ct string
		x.Body, ct, a.post = genMultipart(r, 5000, 140000)
		x.Header["Content-Type"] = []string{ct}
	case 7: // broken multipart
		var ct string
		x.Body, ct, _ = genMultipart(r, 5000)
		x.Header["Content-Type"] = []string{ct}
		a.bad = true
		_, params := splitCT(ct)
		switch r.N(4) {
		case 0, 1:
			end := bytes.LastIndex(x.Body, []byte("--"+params+"--"))
			cut := r.Range(1, end+len(params)+3)
			if r.P(40) {
				cut = end + r.N(len(params)+4)
				if cut == 0 {
					cut = 1
				}
			}
			x.Body = x.Body[:cut]
			a.what = fmt.Sprintf("multipart: truncated to %d bytes", cut)
		case 2:
			x.Header["Content-Type"] = []string{r.Pick("multipart/form-data", "multipart/form-data; boundary=", "multipart/form-data; boundary=\"\"", "multipart/mixed; charset=x")}
			a.what = "multipart: no boundary"
		default:
			x.Header["Content-Type"] = []string{"multipart/form-data; boundary=" + params + "x"}
			if r.P(50) {
				x.Header["Content-Type"] = []string{"multipart/form-data; boundary=other" + params}
			}
			a.what = "multipart: other boundary"
		}
	case 8: // many parts: all or a refusal
		n := r.Range(5, 60)
		if c.I%8 == 0 {
			n = r.Range(980, 1100)
		}
		a.what = fmt.Sprintf("multipart: %d parts", n)
		a.orNothing = n >= 980
		var b bytes.Buffer
		for i := 0; i < n; i++ {
			e := Entry{fmt.Sprint("n", r.N(n)), fmt.Sprint(i)}
			a.post = append(a.post, e)
			fmt.Fprintf(&b, "--BB\r\nContent-Disposition: form-data; name=\"%s\"\r\n\r\n%s\r\n", e.Name, e.Value)
		}
		b.WriteString("--BB--\r\n")
		x.Body = b.Bytes()
		x.Header["Content-Type"] = []string{"multipart/form-data; boundary=BB"}
	case 9: // a body of another type presents nothing
		a.what = "other: type"
		var ct string
		if r.P(50) {
			x.Body, ct, _ = genMultipart(r, 5000)
			_, b := splitCT(ct)
			ct = otherType(r) + r.Pick("; boundary=\"", "; charset=utf-8; boundary=\"") + b + "\""
		} else {
			x.Body, ct = []byte(renderPairs(r, genPairs(r, 100))), otherType(r)
			if r.P(20) {
				ct += r.Pick("; charset=utf-8", ";", "; boundary=a", "; x=application/x-www-form-urlencoded", "; x=multipart/form-data")
			}
		}
		delete(x.Header, "Content-Type")
		if r.P(90) {
			x.Header["Content-Type"] = []string{ct}
		}
		if len(x.Body) > 131072 {
			x.Body = nil
		}
	}
	return a
}

// otherType is a content type that is neither a urlencoded nor a multipart form.
func otherType(r *Rand) string {
	return r.Pick("application/json", "application/xml", "text/xml", "text/plain", "message/multipart", "application/multipart", "mixed/multipart", "text/multipart", "multi/part", "message/rfc822", "multipar/form-data",
		"application/form-data", "application/x-www-form", "application/www-form-urlencoded", "x-www-form-urlencoded/application", "text/x-www-form-urlencoded", "application/octet-stream", "image/png", "a/b", "m/m")
}

// splitCT finds the boundary of a content type made by genMultipart.
func splitCT(ct string) (string, string) {
	i := strings.Index(strings.ToLower(ct), "boundary=")
	b := ct[i+len("boundary="):]
	if strings.HasPrefix(b, "\"") {
		return ct[:i], b[1 : 1+strings.Index(b[1:], "\"")]
	}
	if j := strings.IndexAny(b, "; "); j >= 0 {
		b = b[:j]
	}
	return ct[:i], b
}

// ---- C12 --------------------------------------------------------------------

func runC12(c *Ctx) {
	r := c.R
	var rules []*Rule
	for i := r.Range(1, 4); i > 0; i-- {
		var vars []string
		names := r.P(35)
		for _, v := range collVars {
			if names || !strings.HasSuffix(v, "_NAMES") {
				vars = append(vars, v)
			}
		}
		if r.P(50) {
			vars = []string{pick(r, vars)}
		}
		u := &Rule{ID: i, Phase: 2, Op: "rx", Arg: "^$", Sels: genSels(r, vars, r.PickInt(1, 2, 3, 6, 10))}
		rules = append(rules, u)
	}
	if r.P(2) { // many selections of one collection
		u := pick(r, rules)
		s := Sel{Var: pick(r, collVars), Excl: r.P(40)}
		u.Sels = nil
		for i := bigN(r, 150); i > 0; i-- {
			s.Key = fmt.Sprint("k", i)
			if r.P(10) {
				s.Key = "/^" + s.Key + "$/"
			}
			u.Sels = append(u.Sels, s)
		}
		c.Max("selections", len(u.Sels))
	}
	text := rulesText(rules)
	c.Set("rules", text)
	e := c.load("SecRequestBodyAccess On\nSecResponseBodyAccess On\n" + text)
	loaded := map[int]*ms.SecRule{}
	for _, sr := range e.RuleSet.Phases[2] {
		loaded[sr.Id] = sr
	}
	e.RuleSet = ms.NewSecRuleSet()
	for rep := 0; rep < 3; rep++ {
		e.Enable(anyMode(r))
		x := genTraffic(r, &tprofile{wild: 15, maxLen: 50000, noURL: 2})
		for _, u := range rules { // names that are selected
			for n := r.N(3); n > 0; n-- {
				aim(r, x, []*Rule{u})
			}
		}
		c.Set("traffic", x.String())
		t := x.announce(c, e)
		v := viewOf(e)
		for _, u := range rules {
			sr := loaded[u.ID]
			if sr == nil {
				c.Fail("not-installed", "rule %d is not installed", u.ID)
			}
			var got []string
			for _, vv := range sr.Variables {
				got = append(got, vv.Fetch(t)...)
			}
			want := refSelect(u.Sels, func(n string) ([]Entry, bool) { return x.ref(n, v) })
			ok := sameBag(got, want)
			for _, s := range u.Sels {
				if !ok && strings.HasPrefix(s.Var, "ARGS") && strings.HasSuffix(s.Var, "_NAMES") {
					ok = sameSet(got, want)
				}
			}
			c.Eval(1)
			c.Count("values_selected", len(want))
			if !ok {
				c.Fail("selected", "%s selects %q, want %q", u.targets(), clip(got), clip(want))
			}
			var bare []Sel
			for _, s := range u.Sels {
				bare = append(bare, Sel{Var: s.Var})
			}
			all := refSelect(bare, func(n string) ([]Entry, bool) { return x.ref(n, v) })
			if len(want) > 0 && len(all) > len(want) {
				c.Distinct(u.targets(), x.String())
			}
		}
		closeTx(t)
	}
	c.Sample(text)
}

// ---- C13 --------------------------------------------------------------------

func runC13(c *Ctx) {
	r := c.R
	f := c.fetchers("SecRequestBodyAccess On\nSecResponseBodyAccess On\n", allVars)
	v := viewOf(f.e)
	if c.I%8 == 0 {
		c13RawURI(c, f)
		return
	}
	n := r.Range(1, 3)
	var xs []*Traffic
	var ts []*ms.Transaction
	for i := 0; i < n; i++ {
		x := genTraffic(r, &tprofile{wild: 25, maxLen: 50000, noURL: 2})
		if r.P(30) && !x.NoURL { // a raw path that decodes to the path
			x.RawPath = rawPath(r, x.Path)
		}
		if i > 0 && r.P(30) { // nearly the same traffic
			y := *xs[0]
			x = &y
			switch r.N(4) {
			case 0:
				x.Src = "203.0.113.77"
			case 1:
				x.RHeader = genHeader(r, 0)
			case 2:
				x.Code++
			case 3:
				x.Query = genQuery(r, 0)
			}
		}
		xs = append(xs, x)
		ts = append(ts, c.tx(f.e))
	}
	if r.P(20) { // nothing but what was announced: no response yet
		c.Count("partial", 1)
	}
	for p := 1; p <= 5; p++ {
		for i, x := range xs {
			switch r.N(40) { // whatever else becomes of the transaction
			case 0:
				ts[i].JumpToPhase(r.Range(1, 6))
				c.Count("skipped_ahead", 1)
			case 1:
				ts[i].Intervention().Disruptive = true
				c.Count("intercepted", 1)
			case 2:
				ts[i].AbortWithStatus(500)
				c.Count("aborted", 1)
			}
			x.stage(c, ts[i], p)
			for k := r.N(3); k > 0; k-- { // looks in between
				name := pick(r, allVars)
				if visibleFrom(name) <= p {
					c13Check(c, f, name, x, ts[i], v)
				}
			}
		}
	}
	for i, x := range xs {
		order := append([]string(nil), allVars...)
		shuffle(r, order)
		for _, name := range order {
			c13Check(c, f, name, x, ts[i], v)
		}
		c.Distinct(x.String())
		closeTx(ts[i])
	}
	c.Sample(shorten(xs[0].String(), 800))
}

func c13Check(c *Ctx, f *fetchers, name string, x *Traffic, t *ms.Transaction, v view) {
	got := f.vars[name].Fetch(t)
	want := refSelect([]Sel{{Var: name}}, func(s string) ([]Entry, bool) { return x.ref(s, v) })
	c.Eval(1)
	c.Count("values_compared", len(want))
	ok := sameBag(got, want)
	if strings.HasPrefix(name, "ARGS") {
		ok = matchValues(name, got, want)
	}
	if !ok {
		c.Set("traffic", x.String())
		c.Fail("variable", "%s is %q, want %q", name, clip(got), clip(want))
	}
}

// rawPath is an encoding of a path.
func rawPath(r *Rand, p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		ch := p[i]
		safe := ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || strings.IndexByte("-_.~/!$&'()*+,;=:@", ch) >= 0
		if ch == '/' && i == 0 || safe && r.P(80) {
			b.WriteByte(ch)
		} else if r.P(50) {
			fmt.Fprintf(&b, "%%%02X", ch)
		} else {
			fmt.Fprintf(&b, "%%%02x", ch)
		}
	}
	return b.String()
}

// c13RawURI: the request line's URI comes back as it was written.
func c13RawURI(c *Ctx, f *fetchers) {
	r := c.R
	raw := rawPath(r, genPath(r))
	q := r.From("abcxyz019-_.~!$&'()*+,;=:@/?%", r.N(30))
	if r.P(70) && q != "" {
		raw += "?" + q
	} else {
		q = ""
		if r.P(30) { // an empty query is written too
			raw += "?"
		}
	}
	u, err := url.ParseRequestURI(r.Pick("", "http://h.example", "https://u@h.example:8443") + raw)
	if err != nil {
		return
	}
	c.Set("uri", raw)
	t := c.tx(f.e)
	defer closeTx(t)
	t.ProcessConnection("1.1.1.1", "1", "2.2.2.2", "2")
	t.ProcessRequestURL(u, "GET", "HTTP/1.1")
	t.ProcessRequestHeader(nil)
	one := func(name, want string) {
		c.Eval(1)
		if got := f.vars[name].Fetch(t); !sameBag(got, []string{want}) {
			c.Fail("raw-uri", "%s of %q is %q, want %q", name, raw, got, want)
		}
	}
	one("REQUEST_URI", raw)
	one("QUERY_STRING", q)
	path := raw
	if i := strings.IndexByte(raw, '?'); i >= 0 {
		path = raw[:i]
	}
	dec := strings.Replace(path, "+", "%2B", -1)
	one("REQUEST_FILENAME", refDecode(dec))
	one("REQUEST_BASENAME", refBasename(refDecode(dec)))
	c.Count("raw_uris", 1)
	c.Distinct(raw)
}

// ---- C20 --------------------------------------------------------------------

func hostileHeader(r *Rand) http.Header {
	switch r.N(6) {
	case 0:
		return nil
	case 1:
		return http.Header{"": nil, "Content-Type": {}, "Cookie": nil, "X": {""}}
	}
	h := genHeader(r, 40)
	if r.P(60) {
		genCookies(r, h)
	}
	if r.P(40) {
		h["Cookie"] = append(h["Cookie"], r.Pick(";", "=", "=;=", ";;;", string(r.Bytes(r.N(30))), strings.Repeat("a=b;", 1000), "\x00=\x00", " ", "a", "=v"))
	}
	if r.P(70) {
		ct := r.Pick(urlencodedCT(r), "multipart/form-data; boundary=x", "multipart/form-data", "multipart/", "multipart", "multipart/form-data; boundary="+strings.Repeat("b", r.N(200)),
			"multipart/form-data; boundary=\"", "multipart/mixed; boundary=\x00", ";", "", "/", "a/b;;;", string(r.Bytes(r.N(20))), "multipart/form-data; boundary=x; boundary=y", "application/json", strings.Repeat("a", 5000))
		h["Content-Type"] = []string{ct}
	}
	if r.P(30) {
		h["Content-Length"] = []string{r.Pick("", "-1", "9999999999999999999999", "x", "1e3")}
	}
	return h
}

func hostileURL(r *Rand) *url.URL {
	switch r.N(7) {
	case 0:
		return nil
	case 1:
		return &url.URL{}
	case 2:
		return &url.URL{Opaque: word(r), RawQuery: genQuery(r, 60)}
	case 3:
		return &url.URL{Scheme: word(r), User: url.UserPassword(word(r), word(r)), Host: word(r), Path: word(r), RawPath: word(r), RawQuery: string(r.Bytes(r.N(50))), Fragment: word(r), ForceQuery: r.P(50)}
	case 4:
		return &url.URL{Path: r.Pick("", "*", "//", "///", "\\", "\\\\/", "/\x00", string(r.Bytes(r.N(30))), strings.Repeat("/", 3000), strings.Repeat("../", 500))}
	}
	return &url.URL{Path: genPath(r), RawQuery: genQuery(r, 50)}
}

func hostileBody(r *Rand) []byte {
	switch r.N(6) {
	case 0:
		return nil
	case 1:
		return r.Bytes(r.N(200))
	case 2:
		return []byte(genQuery(r, 60))
	case 3:
		return []byte("--x\r\n" + r.Pick("Content-Disposition: form-data; name=\"a\"", "Content-Disposition: ;;;", "Content-Disposition: form-data; name", ":", "", "A: b\r\n c", "Content-Disposition: form-data; name=a; name=b; filename=\"\\\"",
			"Content-Disposition: form-data; name=\"q\"\r\nContent-Transfer-Encoding: quoted-printable", "Content-Type: multipart/mixed; boundary=x\r\nContent-Disposition: form-data; name=z") + "\r\n\r\n" + word(r) + r.Pick("\r\n--x--", "\r\n--x", "", "\r\n--x\r\n", "\n--x--\n"))
	case 4:
		b, _, _ := genMultipart(r, 3000)
		if len(b) > 0 {
			for n := r.N(6); n > 0; n-- {
				b[r.N(len(b))] = byte(r.u64())
			}
		}
		return b
	}
	return []byte(strings.Repeat(r.Pick("a=b&", "%", "=", "&", "\x00", "--x\r\n", "\r\n"), r.N(3000)))
}

// genAnyRules makes rules with every action over every variable, in any phase.
func genAnyRules(r *Rand, n int) []*Rule {
	var rules []*Rule
	id := 1
	related := r.P(30)
	for ; n > 0; n-- {
		mk := func() *Rule {
			u := genRealRule(r, id, 5)
			if related && len(rules) > 0 && r.P(70) {
				u = kin(r, pick(r, rules), id, 5)
				u.Acts, u.Links = nil, nil
			}
			id++
			u.Phase = r.Range(1, 5)
			for k := r.N(4); k > 0; k-- {
				u.Acts = append(u.Acts, r.act())
			}
			return u
		}
		u := mk()
		if r.P(20) {
			for k := r.Range(1, 3); k > 0; k-- {
				l := mk()
				if r.P(70) {
					l.Phase = 0
				}
				u.Links = append(u.Links, l)
			}
		}
		rules = append(rules, u)
	}
	return rules
}

func (r *Rand) act() Act {
	switch r.N(9) {
	case 0:
		return Act{"deny", ""}
	case 1:
		return Act{"block", ""}
	case 2:
		return Act{"pass", ""}
	case 3:
		return Act{"allow", r.Pick("", "phase", "request")}
	case 4:
		return Act{"skip", r.Pick("", "1", "2", "7")}
	case 5:
		return Act{"status", r.Pick("404", "99", "600", "302")}
	case 6:
		return Act{"msg", r.Pick("m", "%{ARGS}", "a b", "%s %d %n")}
	case 7:
		return Act{"logdata", "x"}
	}
	return Act{"log", ""}
}

func runC20(c *Ctx) {
	r := c.R
	rules := genAnyRules(r, r.Range(1, 10))
	text := "SecRuleEngine " + r.Pick("On", "On", "On", "DetectionOnly", "Off") + "\n" + bodyAccessText(r) + rulesText(rules)
	c.Set("rules", text)
	e := c.load(text)
	if r.P(40) {
		bodyLimits(r, e)
	}
	for i, sr := range e.RuleSet.Phases[ms.PhaseResponseBody] { // also the logging phase
		if r.P(20) {
			rest := append([]*ms.SecRule(nil), e.RuleSet.Phases[ms.PhaseResponseBody][:i]...)
			e.RuleSet.Phases[ms.PhaseResponseBody] = append(rest, e.RuleSet.Phases[ms.PhaseResponseBody][i+1:]...)
			sr.Phase = ms.PhaseLogging
			e.RuleSet.AddRules(sr)
			break
		}
	}
	var hist []string
	t := c.tx(e)
	step := func(k int) {
		switch k {
		case 0:
			s := word(r)
			hist = append(hist, fmt.Sprintf("ProcessConnection(%q)", s))
			t.ProcessConnection(s, word(r), word(r), word(r))
		case 1:
			u, m, p := hostileURL(r), r.Pick("GET", "POST", "PUT", "PATCH", "", word(r)), word(r)
			hist = append(hist, fmt.Sprintf("ProcessRequestURL(%#v, %q, %q)", u, m, p))
			c.Set("calls", hist)
			t.ProcessRequestURL(u, m, p)
		case 2:
			h := hostileHeader(r)
			hist = append(hist, fmt.Sprintf("ProcessRequestHeader(%q)", h))
			c.Set("calls", hist)
			t.ProcessRequestHeader(h)
		case 3:
			b := hostileBody(r)
			hist = append(hist, fmt.Sprintf("AppendRequestBody(%s)", short(b)))
			c.Set("calls", hist)
			t.AppendRequestBody(b)
		case 4:
			hist = append(hist, "ProcessRequestBody()")
			c.Set("calls", hist)
			t.ProcessRequestBody()
		case 5:
			code, h := r.PickInt(0, -1, 200, 99999, 1<<40), hostileHeader(r)
			hist = append(hist, fmt.Sprintf("ProcessResponseHeaders(%d, %q)", code, h))
			c.Set("calls", hist)
			t.ProcessResponseHeaders(code, word(r), h)
		case 6:
			b := hostileBody(r)
			hist = append(hist, fmt.Sprintf("AppendResponseBody(%s)", short(b)))
			c.Set("calls", hist)
			t.AppendResponseBody(b)
		case 7:
			hist = append(hist, "ProcessResponseBody()")
			c.Set("calls", hist)
			t.ProcessResponseBody()
		case 8:
			hist = append(hist, "ProcessLogging()")
			c.Set("calls", hist)
			t.ProcessLogging()
		case 9:
			hist = append(hist, "Result()")
			c.Set("calls", hist)
			if t.Result() == nil {
				c.Fail("no-result", "Result returned nothing")
			}
		case 10:
			p := r.PickInt(-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 100)
			hist = append(hist, fmt.Sprintf("ProcessPhase(%d)", p))
			c.Set("calls", hist)
			t.ProcessPhase(p)
		case 11: // what actions and programs may also call
			code := r.PickInt(0, -1, 200, 403, 99, 600, 1<<40, pick(r, dict.ints))
			k := r.N(14)
			hist = append(hist, fmt.Sprintf("other call %d (%d)", k, code))
			c.Set("calls", hist)
			switch k {
			case 0:
				t.AbortWithStatus(code)
			case 1:
				t.AbortWithError(code, errors.New(word(r)))
			case 2:
				t.Logf("%s %d", word(r), code)
			case 3:
				t.JumpToPhase(r.Range(-2, 9))
			case 4:
				t.NextPhase()
			case 5:
				t.JumpTo(r.PickInt(0, 1, 2, 100))
			case 6:
				t.CurrentSecRule()
				t.CurrentPhaseRules()
				t.CurrentRule()
				t.NextRule()
			case 7:
				t.ResetIntervention()
			case 8:
				t.Intervention().Copy()
			case 9:
				b := t.Request.Body
				if r.P(50) {
					b = t.Response.Body
				}
				b.Seek(int64(r.Range(-5, 50)), r.N(3))
				b.Read(make([]byte, r.N(50)))
				b.Len()
			case 10:
				t.Request.Body.WriteTo(ioutil.Discard)
				t.Response.Body.Bytes()
			case 11:
				e.Enable(r.PickInt(ms.StatusOn, ms.StatusOff, ms.StatusDect))
			case 12:
				e.RequestBodyAccess, e.ResponseBodyAccess = r.P(50), r.P(50)
			case 13:
				if r.P(30) {
					t.Request.Body.Close()
				}
				e.RuleSet.ExecuteDefaultActions(t)
			}
		}
		c.Eval(1)
		c.Count("calls", 1)
	}
	if r.P(50) { // in order, with some left out
		for k := 0; k <= 9; k++ {
			if r.P(90) {
				step(k)
			}
			if r.P(5) {
				step(11)
			}
		}
	} else {
		for n := r.Range(3, 20); n > 0; n-- {
			step(r.N(12))
		}
	}
	if t.Result() == nil {
		c.Fail("no-result", "no result can be collected at the end")
	}
	if t.Abort {
		c.Count("aborted", 1)
	}
	closeTx(t)
	c.Distinct(text, hist)
	c.Sample(map[string]interface{}{"rules": shorten(text, 800), "calls": shorten(fmt.Sprint(hist), 800)})
}

// ---- C21 --------------------------------------------------------------------

func cloneHeader(h http.Header) http.Header {
	if h == nil {
		return nil
	}
	return h.Clone()
}

func sameHeader(a, b http.Header) bool {
	if len(a) != len(b) || (a == nil) != (b == nil) {
		return false
	}
	for k, vs := range a {
		ws, ok := b[k]
		if !ok || !sameList(vs, ws) {
			return false
		}
	}
	return true
}

func runC21(c *Ctx) {
	switch c.I % 3 {
	case 0:
		c21Looks(c)
	case 1:
		c21Untouched(c)
	default:
		c21Meta(c)
	}
}

func c21Traffic(c *Ctx) *Traffic {
	r := c.R
	x := genTraffic(r, &tprofile{wild: 30, maxLen: 100000, bigs: []int{3000}, noURL: 2})
	if r.P(4) {
		x.Path = ""
	}
	if r.P(15) && len(x.Body) > 0 { // broken bodies as well
		x.Body = x.Body[:r.N(len(x.Body))]
	}
	return x
}

// c21Looks fetches variables (with selectors) again and again in random orders.
func c21Looks(c *Ctx) {
	r := c.R
	var rules []*Rule
	for i, v := range allVars {
		rules = append(rules, &Rule{ID: i + 1, Phase: 2, Op: "rx", Arg: "^$", Sels: []Sel{{Var: v}}})
	}
	for i := 0; i < 6; i++ {
		rules = append(rules, &Rule{ID: 100 + i, Phase: 2, Op: "rx", Arg: "^$", Sels: genSels(r, collVars, 3)})
	}
	text := rulesText(rules)
	c.Set("rules", text)
	e := c.load("SecRequestBodyAccess On\nSecResponseBodyAccess On\n" + text)
	loaded := e.RuleSet.Phases[2]
	e.RuleSet = ms.NewSecRuleSet()
	e.Enable(anyMode(r))
	x := c21Traffic(c)
	c.Set("traffic", x.String())
	first := map[int][]string{}
	for rep := 0; rep < 2; rep++ {
		t := x.announce(c, e)
		pos := [2]int64{}
		if r.P(50) { // the application reads in between
			pos[0], _ = t.Request.Body.Seek(int64(r.N(len(x.Body)+1)), 0)
			pos[1], _ = t.Response.Body.Seek(int64(r.N(len(x.RBody)+1)), 0)
		}
		for n := 0; n < 60; n++ {
			sr := pick(r, loaded)
			var got []string
			for _, v := range sr.Variables {
				got = append(got, v.Fetch(t)...)
			}
			c.Eval(1)
			c.Count("looks", 1)
			if w, ok := first[sr.Id]; !ok {
				first[sr.Id] = got
			} else if !sameBag(got, w) {
				c.Fail("look-differs", "rule %s sees %q, earlier %q", ruleOf(rules, sr.Id).targets(), clip(got), clip(w))
			}
		}
		p0, _ := t.Request.Body.Seek(0, 1)
		p1, _ := t.Response.Body.Seek(0, 1)
		if !t.Abort && (p0 != pos[0] || p1 != pos[1]) {
			c.Fail("read-position", "inspection moved the read positions of the bodies from %v to %d, %d", pos, p0, p1)
		}
		for _, m := range newBodies(c, t, "") {
			m.want = x.Body
			if strings.HasPrefix(m.name, "response") {
				m.want = x.RBody
			}
			m.readAll()
		}
		closeTx(t)
	}
	c.Distinct(x.String(), text)
}

func ruleOf(rules []*Rule, id int) *Rule {
	for _, u := range rules {
		if u.ID == id {
			return u
		}
	}
	return &Rule{}
}

// c21Untouched takes snapshots of everything handed to the transaction.
func c21Untouched(c *Ctx) {
	r := c.R
	rules := genAnyRules(r, r.Range(2, 12))
	text := bodyAccessText(r) + rulesText(rules)
	c.Set("rules", text)
	e := c.load(text)
	e.Enable(anyMode(r))
	x := c21Traffic(c)
	if r.P(20) {
		x.Src = r.Pick("fe80::1%eth0", "::FFFF:192.0.2.1", "[::1]", " 192.0.2.1", "192.0.2.1:80", "010.0.0.1", "")
	}
	c.Set("traffic", x.String())
	dump := dumpEngine(e)
	u := x.url()
	var uc url.URL
	if u != nil {
		if r.P(20) {
			u.User = url.UserPassword("u", "p")
		}
		uc = *u
	}
	h, rh := cloneHeader(x.Header), cloneHeader(x.RHeader)
	for rep := 0; rep < 2; rep++ { // the same objects twice
		t := c.tx(e)
		req, res := append([]byte(nil), x.Body...), append([]byte(nil), x.RBody...)
		check := func(after string) {
			c.Eval(1)
			if u != nil && *u != uc {
				c.Fail("url-changed", "after %s the URL is %#v, was %#v", after, *u, uc)
			}
			if !sameHeader(x.Header, h) {
				c.Fail("header-changed", "after %s the request headers are %q, were %q", after, x.Header, h)
			}
			if !sameHeader(x.RHeader, rh) {
				c.Fail("header-changed", "after %s the response headers are %q, were %q", after, x.RHeader, rh)
			}
			if !bytes.Equal(req, x.Body) || !bytes.Equal(res, x.RBody) {
				c.Fail("chunk-changed", "after %s an appended chunk was modified", after)
			}
			if t.SrcIp != x.Src || t.SrcPort != x.SrcPort || t.DstIp != x.Dst || t.DstPort != x.DstPort {
				c.Fail("connection-changed", "after %s the connection is %q, was %q %q %q %q", after, *t.NetInfo, x.Src, x.SrcPort, x.Dst, x.DstPort)
			}
			if u != nil && t.URL != nil && (t.Method != x.Method || t.Request.Proto != x.Proto) {
				c.Fail("request-changed", "after %s the request is %q %q, was %q %q", after, t.Method, t.Request.Proto, x.Method, x.Proto)
			}
			if t.Response.Header != nil && (t.Response.Code != x.Code || t.Response.Proto != x.RProto) {
				c.Fail("response-changed", "after %s the response is %d %q, was %d %q", after, t.Response.Code, t.Response.Proto, x.Code, x.RProto)
			}
			if t.Request.Body.Len() > 0 && t.URL != u {
				c.Fail("url-changed", "after %s the transaction has another URL", after)
			}
		}
		t.ProcessConnection(x.Src, x.SrcPort, x.Dst, x.DstPort)
		check("the connection")
		if u != nil {
			t.ProcessRequestURL(u, x.Method, x.Proto)
		}
		t.ProcessRequestHeader(x.Header)
		check("the request headers")
		t.AppendRequestBody(req)
		t.ProcessRequestBody()
		check("the request body")
		t.ProcessResponseHeaders(x.Code, x.RProto, x.RHeader)
		check("the response headers")
		t.AppendResponseBody(res)
		t.ProcessResponseBody()
		check("the response body")
		t.ProcessLogging()
		t.Result()
		check("logging")
		for _, m := range newBodies(c, t, "") {
			m.want = x.Body
			if strings.HasPrefix(m.name, "response") {
				m.want = x.RBody
			}
			m.readAll()
		}
		closeTx(t)
	}
	if d := dumpEngine(e); d != dump {
		c.Fail("rules-changed", "the rules are %s, were %s", d, dump)
	}
	c.Distinct(text, x.String())
	c.Sample(shorten(text, 600))
}

// c21Meta compares which rules match in variants of one rule set.
func c21Meta(c *Ctx) {
	r := c.R
	var rules []*Rule
	for i := r.Range(1, 6); i > 0; i-- {
		u := genRealRule(r, i, 5)
		u.Acts = []Act{{"log", ""}}
		rules = append(rules, u)
	}
	x := c21Traffic(c)
	aim(r, x, rules)
	c.Set("traffic", x.String())
	head := bodyAccessText(r)
	mode := r.PickInt(ms.StatusOn, ms.StatusOn, ms.StatusDect)
	run := func(list []*Rule, what string) map[int]int {
		text := head + rulesText(list)
		c.Set("rules "+what, text)
		e := c.load(text)
		e.Enable(mode)
		hits := map[int]int{}
		for _, rs := range e.RuleSet.Phases {
			for _, sr := range rs {
				id := sr.Id
				sr.AppendActions(&scriptAct{"probe", ms.ActionGroupNonDisruptive, func(*ms.Transaction) { hits[id]++ }})
			}
		}
		t := c.tx(e)
		x.play(c, t, r.P(50))
		closeTx(t)
		c.Eval(1)
		return hits
	}
	base := run(rules, "base")
	for k := 0; k < 3; k++ {
		list := append([]*Rule(nil), rules...)
		copies := map[int]int{}
		what := ""
		if r.P(60) {
			what += "inserted "
			for n := r.Range(1, 4); n > 0; n-- {
				u := genRealRule(r, 1000+n, 5)
				u.Op, u.Arg, u.Not = "rx", "^no such value at all$", false
				u.Acts = []Act{{"deny", ""}}
				i := r.N(len(list) + 1)
				list = append(list[:i:i], append([]*Rule{u}, list[i:]...)...)
			}
		}
		if r.P(60) {
			what += "duplicated "
			u := pick(r, rules)
			copies[u.ID]++
			i := r.N(len(list) + 1)
			list = append(list[:i:i], append([]*Rule{u}, list[i:]...)...)
		}
		if r.P(60) || what == "" {
			what += "shuffled"
			shuffle(r, list)
		}
		got := run(list, "variant")
		for _, u := range rules {
			want := 0
			if base[u.ID] > 0 {
				want = 1 + copies[u.ID]
				c.Count("matches", 1)
			}
			if got[u.ID] != want {
				c.Fail("verdict-changed", "rule %d matched %d times in the base set and %d times in the variant (%s, %d copies)", u.ID, base[u.ID], got[u.ID], what, 1+copies[u.ID])
			}
		}
	}
	c.Distinct(head+rulesText(rules), x.String())
}
