package main

import (
	"bytes"
	"fmt"
	"math"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
)

// Traffic is one request and response with what rules must see of them.
type Traffic struct {
	Src, SrcPort, Dst, DstPort string
	NoURL                      bool
	Path, RawPath, Query       string
	Host, User                 string // of the URL, for absolute forms
	Method, Proto              string
	Header                     http.Header
	Body                       []byte
	Post                       []Entry // entries of the body, nil if none
	PostBad                    bool    // the body is malformed
	Code                       int
	RProto                     string
	RHeader                    http.Header
	RBody                      []byte
	Cut                        int // seed of the chunking (C07)
}

func (x *Traffic) url() *url.URL {
	if x.NoURL {
		return nil
	}
	u := &url.URL{Path: x.Path, RawPath: x.RawPath, RawQuery: x.Query}
	if x.Host != "" {
		u.Scheme = "http"
		u.Host = x.Host
		if i := strings.IndexByte(x.User, ':'); i >= 0 {
			u.User = url.UserPassword(x.User[:i], x.User[i+1:])
		} else if x.User != "" {
			u.User = url.User(x.User)
		}
	}
	return u
}

func (x *Traffic) String() string {
	return fmt.Sprintf("src=%s:%s url=%q host=%q user=%q query=%q %s %s header=%q body=%s response=%d %s header=%q body=%s",
		x.Src, x.SrcPort, x.Path, x.Host, x.User, x.Query, x.Method, x.Proto, x.Header, short(x.Body), x.Code, x.RProto, x.RHeader, short(x.RBody))
}

func short(b []byte) string {
	if len(b) > 3000 {
		return fmt.Sprintf("%q...(%d bytes)", b[:3000], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// chunks cuts a body.
func chunks(r *Rand, b []byte) [][]byte {
	var out [][]byte
	switch r.N(4) {
	case 0:
		return [][]byte{b}
	case 1: // many small ones
		for len(b) > 0 {
			n := r.Range(1, 1+len(b)/20)
			out = append(out, b[:n])
			b = b[n:]
		}
		return out
	}
	for len(b) > 0 && len(out) < 12 {
		n := r.N(len(b) + 1)
		out = append(out, b[:n])
		b = b[n:]
	}
	if len(b) > 0 {
		out = append(out, b)
	}
	return out
}

func (x *Traffic) appendRequestBody(c *Ctx, t *ms.Transaction) {
	for _, p := range chunks(c.R, x.Body) {
		q := append([]byte(nil), p...)
		if err := t.AppendRequestBody(q); err != nil {
			c.Fail("append", "appending %d bytes to the request body failed: %v", len(p), err)
		}
		for i := range q { // the caller may reuse its buffer
			q[i] ^= 0x55
		}
	}
}

func (x *Traffic) appendResponseBody(c *Ctx, t *ms.Transaction) {
	for _, p := range chunks(c.R, x.RBody) {
		q := append([]byte(nil), p...)
		if err := t.AppendResponseBody(q); err != nil {
			c.Fail("append", "appending %d bytes to the response body failed: %v", len(p), err)
		}
		for i := range q {
			q[i] ^= 0x55
		}
	}
}

func (x *Traffic) stage(c *Ctx, t *ms.Transaction, phase int) {
	switch phase {
	case 1:
		t.ProcessConnection(x.Src, x.SrcPort, x.Dst, x.DstPort)
	case 2:
		if !x.NoURL {
			t.ProcessRequestURL(x.url(), x.Method, x.Proto)
		}
		t.ProcessRequestHeader(x.Header)
	case 3:
		x.appendRequestBody(c, t)
		t.ProcessRequestBody()
	case 4:
		t.ProcessResponseHeaders(x.Code, x.RProto, x.RHeader)
	case 5:
		x.appendResponseBody(c, t)
		t.ProcessResponseBody()
	case 6:
		t.ProcessLogging()
	}
}

// play runs the whole transaction and returns the result of each phase.
func (x *Traffic) play(c *Ctx, t *ms.Transaction, collect bool) []*ms.Intervention {
	var out []*ms.Intervention
	for p := 1; p <= 6; p++ {
		x.stage(c, t, p)
		if collect {
			out = append(out, t.Result())
		}
	}
	if !collect {
		out = append(out, t.Result())
	}
	return out
}

func closeTx(t *ms.Transaction) {
	t.Request.Body.Close()
	t.Response.Body.Close()
}

// view is the part of an engine's settings that decides what rules see.
type view struct {
	reqBody, resBody bool
	inMem            int
}

func viewOf(e *ms.Engine) view {
	return view{e.RequestBodyAccess, e.ResponseBodyAccess, int(e.RequestBodyInMem)}
}

const urlencodedType = "application/x-www-form-urlencoded"

func (x *Traffic) hasBody(v view) bool {
	return v.reqBody && len(x.Body) > 0 && (x.Method == "POST" || x.Method == "PUT" || x.Method == "PATCH") && len(x.Header["Content-Type"]) > 0
}

func (x *Traffic) bodyType() string {
	if len(x.Header["Content-Type"]) == 0 {
		return ""
	}
	mt := refMediaType(x.Header["Content-Type"][0])
	if strings.HasPrefix(mt, "multipart/") {
		return "multipart"
	}
	if mt == urlencodedType {
		return "urlencoded"
	}
	return ""
}

func headerEntries(h http.Header) (out []Entry) {
	for k, vs := range h {
		for _, v := range vs {
			out = append(out, Entry{k, v})
		}
	}
	return
}

func headerNames(h http.Header) (out []Entry) {
	for k := range h {
		out = append(out, Entry{k, k})
	}
	return
}

func distinctNames(es []Entry) (out []Entry) {
	seen := map[string]bool{}
	for _, e := range es {
		if !seen[e.Name] {
			seen[e.Name] = true
			out = append(out, e)
		}
	}
	return
}

var allVars = []string{"ARGS", "ARGS_NAMES", "ARGS_GET", "ARGS_GET_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "QUERY_STRING", "REMOTE_ADDR",
	"REQUEST_BASENAME", "REQUEST_BODY", "REQUEST_COOKIES", "REQUEST_COOKIES_NAMES", "REQUEST_FILENAME", "REQUEST_HEADERS",
	"REQUEST_HEADERS_NAMES", "REQUEST_METHOD", "REQUEST_PROTOCOL", "REQUEST_URI", "RESPONSE_BODY", "RESPONSE_CONTENT_LENGTH",
	"RESPONSE_CONTENT_TYPE", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES", "RESPONSE_PROTOCOL", "RESPONSE_STATUS"}

var collVars = []string{"ARGS", "ARGS_NAMES", "ARGS_GET", "ARGS_GET_NAMES", "ARGS_POST", "ARGS_POST_NAMES", "REQUEST_COOKIES", "REQUEST_COOKIES_NAMES",
	"REQUEST_HEADERS", "REQUEST_HEADERS_NAMES", "RESPONSE_HEADERS", "RESPONSE_HEADERS_NAMES"}

func isColl(v string) bool {
	for _, c := range collVars {
		if c == v {
			return true
		}
	}
	return false
}

func isBodyVar(v string) bool {
	return v == "REQUEST_BODY" || v == "ARGS" || v == "ARGS_NAMES" || v == "ARGS_POST" || v == "ARGS_POST_NAMES"
}

// visibleFrom is the phase from which a variable is fully announced.
func visibleFrom(v string) int {
	switch {
	case v == "REMOTE_ADDR":
		return 1
	case isBodyVar(v):
		return 3
	case v == "RESPONSE_BODY":
		return 5
	case strings.HasPrefix(v, "RESPONSE_"):
		return 4
	}
	return 2
}

// ref gives the entries of a variable for complete traffic; names says the
// variable is a collection of names. The body must not exceed the limit.
func (x *Traffic) ref(name string, v view) (ents []Entry, names bool) {
	one := func(s string) []Entry { return []Entry{{"", s}} }
	get := func() []Entry {
		if x.NoURL {
			return nil
		}
		e, _ := refQuery(x.Query)
		return e
	}
	post := func() []Entry {
		if !x.hasBody(v) {
			return nil
		}
		switch x.bodyType() {
		case "urlencoded":
			e, _ := refQuery(string(x.Body))
			return e
		case "multipart":
			return x.Post
		}
		return nil
	}
	first := func(h http.Header, k, d string) string {
		if vs := h[k]; len(vs) > 0 && vs[0] != "" {
			return vs[0]
		}
		return d
	}
	switch name {
	case "ARGS":
		return append(append([]Entry{}, get()...), post()...), false
	case "ARGS_NAMES":
		return append(distinctNames(get()), distinctNames(post())...), true
	case "ARGS_GET":
		return get(), false
	case "ARGS_GET_NAMES":
		return distinctNames(get()), true
	case "ARGS_POST":
		return post(), false
	case "ARGS_POST_NAMES":
		return distinctNames(post()), true
	case "QUERY_STRING":
		if x.NoURL {
			return nil, false
		}
		return one(x.Query), false
	case "REMOTE_ADDR":
		return one(x.Src), false
	case "REQUEST_BASENAME":
		if x.NoURL {
			return nil, false
		}
		return one(refBasename(x.Path)), false
	case "REQUEST_BODY":
		if !x.hasBody(v) || x.bodyType() != "urlencoded" {
			return nil, false
		}
		return one(string(x.Body)), false
	case "REQUEST_COOKIES":
		return refCookies(x.Header["Cookie"]), false
	case "REQUEST_COOKIES_NAMES":
		return distinctNames(refCookies(x.Header["Cookie"])), true
	case "REQUEST_FILENAME":
		if x.NoURL {
			return nil, false
		}
		return one(x.Path), false
	case "REQUEST_HEADERS":
		return headerEntries(x.Header), false
	case "REQUEST_HEADERS_NAMES":
		return headerNames(x.Header), true
	case "REQUEST_METHOD":
		return one(x.Method), false
	case "REQUEST_PROTOCOL":
		return one(x.Proto), false
	case "REQUEST_URI":
		if x.NoURL {
			return nil, false
		}
		u := x.url()
		s := u.EscapedPath()
		if x.Query != "" {
			s += "?" + x.Query
		}
		return one(s), false
	case "RESPONSE_BODY":
		if !v.resBody || len(x.RBody) == 0 {
			return nil, false
		}
		return one(string(x.RBody)), false
	case "RESPONSE_CONTENT_LENGTH":
		return one(first(x.RHeader, "Content-Length", "0")), false
	case "RESPONSE_CONTENT_TYPE":
		return one(refMediaType(first(x.RHeader, "Content-Type", "application/octet-stream"))), false
	case "RESPONSE_HEADERS":
		return headerEntries(x.RHeader), false
	case "RESPONSE_HEADERS_NAMES":
		return headerNames(x.RHeader), true
	case "RESPONSE_PROTOCOL":
		return one(x.RProto), false
	case "RESPONSE_STATUS":
		return one(strconv.Itoa(x.Code)), false
	}
	panic("no such variable " + name)
}

// ---- generation -----------------------------------------------------------

// word makes a value of a request: plain words, literals of the code, special bytes, long runs.
func word(r *Rand) string {
	// words that resemble each other closely
	if n := len(r.last); n > 0 && r.P(3) || n > 20 && r.P(25) {
		r.last = alike(r, r.last)
		return r.last
	}
	r.last = newWord(r)
	return r.last
}

// alike is a word of the same length that differs in few places.
func alike(r *Rand, s string) string {
	b := []byte(s)
	for k := r.PickInt(1, 1, 1, 2, 3); k > 0; k-- {
		i := r.PickInt(0, len(b)-1, len(b)-1, r.N(len(b)), r.N(len(b)))
		switch c := b[i]; {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			b[i] = r.Pick(string(rune(c^0x20)), "x", "1", "abcdefgh"[r.N(8):])[0]
		default:
			b[i] = "019 -ax"[r.N(7)]
		}
	}
	return string(b)
}

func newWord(r *Rand) string {
	switch r.N(12) {
	case 0:
		return ""
	case 1, 2, 3, 4:
		return r.From("abcXYZ019", r.Range(1, 6))
	case 5:
		return pick(r, dict.strs)
	case 6:
		return strconv.Itoa(pick(r, dict.ints))
	case 7:
		return r.From("ab \t+%&=;,.:/\\'\"<>()[]{}|$^*?!@#~`-_\x00\x7f\x80\xc3\xa9\xff", r.Range(1, 8))
	case 8:
		return string(r.Bytes(r.Range(1, 6)))
	case 9:
		return r.Pick("é", "ＡＢ", "Straße", "日本", "\u2028", "İ", "\x00", "a\x00b", " x ", "\r\n", "%41", "%u0041", "+", "1", "0", "-1", "10", "<script>", "select * from", "' or 1=1 --")
	case 10:
		return pick(r, dict.strs) + r.From("abz", r.N(3))
	}
	if r.P(20) {
		return strings.Repeat(r.From("abcdefgh", 3), r.Range(10, 400))
	}
	return r.From("abcdefghijklmnopqrstuvwxyz", r.Range(3, 30))
}

var argNames = []string{"a", "b", "ab", "A", "id", "user", "a1", "a2", "b1", "x-y", "q", "ID", "Id", "aa", "a/b", "a//b", "/a", "b/", "//", "a[]", "b[0]", "a.b", "a:b"}

// longName gives names of all lengths of which many begin or end alike.
func longName(r *Rand) string {
	s := strings.Repeat("n", r.PickInt(15, 31, 32, 63, 64, 70, 127, 130, 255, 256, 300))
	switch r.N(4) {
	case 0:
		return r.Pick("a", "b") + s
	case 1:
		i := r.N(len(s))
		return s[:i] + r.Pick("a", "b") + s[i:]
	}
	return s + r.Pick("a", "b", "")
}

// near is a name that resembles another.
func near(r *Rand, s string) string {
	if len(s) < 2 {
		return s + r.Pick("x", "-", s)
	}
	switch r.N(8) {
	case 0:
		return "X-" + s
	case 1:
		if t := strings.TrimPrefix(s, "X-"); t != s {
			return t
		}
		return s[1:]
	case 2:
		return s[:len(s)-1]
	case 3:
		return s + s
	case 4:
		return s + r.Pick("x", "s", "-", "_", "1", "[]")
	case 5:
		return strings.Replace(s, "-", "_", -1)
	case 6:
		return strings.Replace(s, "-", "", -1)
	}
	return r.Pick("x", "_", "-", "1", "$", "@") + s
}

func argName(r *Rand) string {
	if r.P(6) {
		return near(r, pick(r, argNames))
	}
	switch r.N(8) {
	case 0:
		return word(r)
	case 1:
		return pick(r, dict.names)
	}
	return pick(r, argNames)
}

// encodeArg percent-encodes what must be encoded and, at random, more.
func encodeArg(r *Rand, s string, pct int) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == ' ' && r.P(50):
			b.WriteByte('+')
		case strings.IndexByte("&=%+", c) >= 0 || c < 33 || r.P(pct):
			if r.P(50) {
				fmt.Fprintf(&b, "%%%02x", c)
			} else {
				fmt.Fprintf(&b, "%%%02X", c)
			}
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

// genQuery renders pairs; sometimes raw bytes that look like a query.
func genQuery(r *Rand, wild int) string {
	if r.P(wild) {
		switch r.N(3) {
		case 0:
			return r.From("a=&%+;0Fzb", r.N(40))
		case 1:
			return string(r.Bytes(r.N(40)))
		}
	}
	n := r.N(6)
	if r.P(4) {
		n = r.Range(20, 300)
	}
	var ps []string
	long := r.P(5)
	for i := 0; i < n; i++ {
		name := argName(r)
		if long && r.P(70) {
			name = longName(r)
		}
		p := encodeArg(r, name, r.PickInt(0, 5, 100))
		if !r.P(8) {
			p += "=" + encodeArg(r, word(r), r.PickInt(0, 5, 100))
		}
		if r.P(wild) {
			i := r.N(len(p) + 1)
			p = p[:i] + r.Pick("%", "%z", "%1", ";", "=", "%%", "%u0041", "+", "&", "%zz") + p[i:]
		}
		ps = append(ps, p)
		for r.P(8) {
			ps = append(ps, pick(r, ps))
		}
	}
	return strings.Join(ps, "&")
}

var hdrNames = []string{"User-Agent", "Accept", "Host", "X-A", "X-B", "X-Forwarded-For", "Referer", "Accept-Language", "Authorization", "X-Ab"}

func genHeader(r *Rand, wild int) http.Header {
	h := http.Header{}
	n, long := r.N(6), r.P(3)
	many := r.N(200) == 0
	if many {
		n = bigN(r, 400)
	}
	for ; n > 0; n-- {
		k := pick(r, hdrNames)
		if many && r.P(70) {
			k = "X-N" + strconv.Itoa(n)
		} else if long && r.P(70) {
			k = http.CanonicalHeaderKey("X-" + longName(r))
		}
		if r.P(10) {
			k = http.CanonicalHeaderKey(pick(r, dict.names))
		}
		if r.P(8) {
			k = http.CanonicalHeaderKey(near(r, k))
		}
		if k == "Content-Type" || k == "Cookie" || k == "Content-Length" {
			continue
		}
		if r.P(wild) { // a map that does not come from net/http
			k = r.Pick(strings.ToLower(k), strings.ToUpper(k), "x-lower", "X_Under", "x y", "")
		}
		if k2 := http.CanonicalHeaderKey(k); k2 == "Cookie" || k2 == "Content-Type" || k2 == "Content-Length" {
			continue
		}
		for m := r.Range(1, 2); m > 0; m-- {
			h[k] = append(h[k], word(r))
		}
		for r.P(6) { // once more
			h[k] = append(h[k], pick(r, h[k]))
		}
	}
	return h
}

func cookieValue(r *Rand) string {
	s := strings.Map(func(c rune) rune {
		if c == ';' || c < 32 {
			return 'x'
		}
		return c
	}, word(r))
	return strings.TrimSpace(strings.Trim(s, " \t"))
}

func genCookies(r *Rand, h http.Header) {
	many := r.N(200) == 0
	for l := r.N(3); l > 0; l-- {
		var ps []string
		n := r.N(5)
		if many && r.P(70) {
			n = bigN(r, 700)
		}
		long := r.P(3)
		for ; n > 0; n-- {
			name := strings.Replace(cookieValue(r), "=", "", -1)
			if r.P(70) || many {
				name = pick(r, argNames)
			}
			if many && r.P(50) {
				name = "c" + strconv.Itoa(n)
			} else if long && r.P(70) {
				name = longName(r)
			}
			p := name
			if !r.P(10) {
				p += "=" + cookieValue(r)
			}
			ps = append(ps, p)
			for r.P(8) {
				ps = append(ps, pick(r, ps))
			}
		}
		line := strings.Join(ps, r.Pick("; ", ";", " ; ", ";  "))
		if r.P(10) {
			line += r.Pick(";", "; ", ";;", " ")
		}
		h["Cookie"] = append(h["Cookie"], line)
		for r.P(10) {
			h["Cookie"] = append(h["Cookie"], pick(r, h["Cookie"]))
		}
	}
}

func genPath(r *Rand) string {
	var b strings.Builder
	n := r.Range(1, 4)
	for i := 0; i < n; i++ {
		b.WriteByte('/')
		if r.P(10) {
			b.WriteString(r.Pick("/", "\\", "\\\\"))
		}
		switch {
		case r.P(60):
			b.WriteString(r.From("abcXYZ.-_019", r.Range(1, 8)))
		case r.P(50):
			b.WriteString(word(r))
		}
	}
	if r.P(20) {
		b.WriteString(r.Pick("/", "//", "\\", "/."))
	}
	s := b.String()
	return s
}

// genUrlencoded gives a body; at most max bytes.
func genUrlencoded(r *Rand, wild, max int) []byte {
	q := genQuery(r, wild)
	if r.P(5) {
		q += "&long=" + strings.Repeat("x", r.Size(max, max, 4096, 512, 32768, 131072))
	}
	if len(q) > max {
		q = q[:max]
	}
	return []byte(q)
}

type part struct {
	Name, File, Value string
	HasFile           bool
}

func quoteDisp(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '"' || s[i] == '\\' {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func partName(r *Rand) string {
	b := []byte(argName(r))
	for i, c := range b {
		if c < 32 || c == 127 {
			b[i] = '_'
		}
	}
	if len(b) == 0 {
		return "e"
	}
	return string(b)
}

// genMultipart builds a body with known parts. ctype is the content type.
func genMultipart(r *Rand, bigs ...int) (body []byte, ctype string, ents []Entry) {
	boundary := r.From("abcdefghijklmnopqrstuvwxyzABC0123456789", r.Range(1, 40))
	if r.P(30) {
		boundary = "----WebKitFormBoundary" + boundary
	}
	if len(boundary) > 70 {
		boundary = boundary[:70]
	}
	var b bytes.Buffer
	if r.P(10) {
		b.WriteString("preamble\r\n")
	}
	n := r.Range(1, 5)
	if r.P(5) {
		n = r.Range(10, 60)
	}
	for i := 0; i < n; i++ {
		p := part{Name: partName(r), Value: word(r)}
		if len(ents) > 0 && r.P(20) { // a name again, perhaps with the same value
			if e := pick(r, ents); r.P(50) {
				p.Name = e.Name
			} else if len(e.Value) < 1000 {
				p.Name, p.Value = e.Name, e.Value
			}
		}
		if r.P(12) && len(bigs) > 0 {
			p.Value = strings.Repeat(r.From("abcdefg\r\n-", 7), 1+pick(r, bigs)/7)
		}
		for strings.Contains(p.Value, "--"+boundary) {
			p.Value = strings.Replace(p.Value, "--"+boundary, "", -1)
		}
		if len(boundary) < 6 { // keep values from containing the delimiter
			p.Value = strings.Replace(p.Value, "--", "", -1)
		}
		b.WriteString("--" + boundary + "\r\n")
		params := []string{"name=\"" + quoteDisp(p.Name) + "\""}
		if isToken(p.Name) && r.P(15) {
			params[0] = "name=" + p.Name
		}
		if r.P(20) {
			p.HasFile = true
			params = append(params, "filename=\""+r.Pick("f.txt", "a b.bin", "x", "q;r=\\\"s")+"\"")
			shuffle(r, params)
		}
		disp := r.Pick("Content-Disposition", "Content-Disposition", "content-disposition", "CONTENT-DISPOSITION") + r.Pick(": ", ": ", ":") + "form-data; " + strings.Join(params, r.Pick("; ", ";"))
		hs := []string{disp}
		if r.P(40) {
			hs = append(hs, r.Pick("Content-Type: text/plain", "Content-Type: text/plain; charset=utf-8", "X-Other: 1", "Content-Type: application/octet-stream"))
		}
		shuffle(r, hs)
		b.WriteString(strings.Join(hs, "\r\n") + "\r\n\r\n" + p.Value + "\r\n")
		if !p.HasFile {
			ents = append(ents, Entry{p.Name, p.Value})
		}
	}
	b.WriteString("--" + boundary + "--")
	if r.P(80) {
		b.WriteString("\r\n")
		if r.P(10) {
			b.WriteString("epilogue\r\n")
		}
	}
	ctype = r.Pick("multipart/form-data", "multipart/form-data", "Multipart/Form-Data", "multipart/mixed")
	bd := "boundary=" + boundary
	if r.P(30) {
		bd = "boundary=\"" + boundary + "\""
	}
	ps := []string{bd}
	if r.P(25) {
		ps = append(ps, ctParams(r)...)
		shuffle(r, ps)
	}
	ctype += r.Pick("; ", ";", " ; ") + strings.Join(ps, "; ")
	return b.Bytes(), ctype, ents
}

// ctParams makes well-formed parameters of a content type, each name once.
func ctParams(r *Rand) (ps []string) {
	all := []string{
		"charset=" + r.Pick("utf-8", "UTF-8", "\"utf-8\"", "iso-8859-1", "ISO-8859-15", "us-ascii", "utf-16", "windows-1252", "gb2312", "utf-7", "x", isoToken(r)),
		r.Pick("x", "q", "version", "type", "name", "filename", "start", "format", "level") + "=" + r.Pick("y", "0.5", "1", "\"a b\"", "\"a;b=c\"", "\"\"", isoToken(r)),
		isoToken(r) + "=" + isoToken(r),
	}
	shuffle(r, all)
	return all[:r.Range(1, 2)]
}

func isoToken(r *Rand) string {
	if r.P(40) {
		return "z" + strings.ToLower(strings.Replace(pick(r, dict.names), "boundary", "", -1))
	}
	return "y" + r.From("abcdefg-_.019", r.Range(1, 8))
}

func urlencodedCT(r *Rand) string {
	if r.P(25) {
		ps := ctParams(r)
		if r.P(30) {
			ps = append(ps, "boundary="+r.Pick("x", "\"\"", "a"))
			shuffle(r, ps)
		}
		return r.Pick(urlencodedType, "Application/x-www-form-URLENCODED") + r.Pick("; ", ";", " ; ", ";\t") + strings.Join(ps, r.Pick("; ", ";"))
	}
	return r.Pick(urlencodedType, urlencodedType, "Application/X-WWW-Form-Urlencoded", urlencodedType+"; charset=utf-8", urlencodedType+";charset=UTF-8", urlencodedType+" ; a=b",
		urlencodedType+"; charset=a; charset=b", urlencodedType+";", urlencodedType+"; boundary", urlencodedType+"; =", "APPLICATION/X-WWW-FORM-URLENCODED", urlencodedType+"; charset=\"utf-8\"")
}

type tprofile struct {
	wild   int
	maxLen int
	bigs   []int // sizes of large multipart values
	noURL  int   // percent
}

// genAddr gives a client address, in any notation.
func genAddr(r *Rand) string {
	switch r.N(8) {
	case 0:
		return word(r)
	case 1: // notations that another form is equivalent to
		return r.Pick("::ffff:198.51.100.7", "2001:DB8::1", "2001:0db8:0000:0000:0000:0000:0000:0001", "0:0:0:0:0:0:0:1", "010.000.000.255", "127.1", "[::1]", "fe80::1%eth0", "198.51.100.7:80", " 127.0.0.1", "127.0.0.1 ", "::FFFF:c633:6407", "localhost", "LOCALHOST", "", "unix:@", "2130706433", "0x7f.1", "::", "0.0.0.0", "example.org.")
	case 2:
		return fmt.Sprintf("%d.%d.%d.%d", r.N(256), r.N(256), r.N(256), r.N(256))
	case 3:
		return fmt.Sprintf("%x:%x::%04x", r.N(65536), r.N(65536), r.N(65536))
	}
	return r.Pick("127.0.0.1", "198.51.100.7", "::1", "2001:db8::1", "10.0.0.255")
}

// genTraffic makes traffic whose body does not exceed maxLen.
func genTraffic(r *Rand, p *tprofile) *Traffic {
	x := &Traffic{
		Src: genAddr(r), SrcPort: strconv.Itoa(r.N(65536)),
		Dst: r.Pick("192.0.2.1", "203.0.113.9"), DstPort: r.Pick("80", "443"),
		Path: genPath(r), Query: genQuery(r, p.wild),
		Method: r.Pick("GET", "POST", "POST", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "post", word(r)),
		Proto:  r.Pick("HTTP/1.1", "HTTP/1.0", "HTTP/2.0", word(r)),
		Header: genHeader(r, p.wild),
		Code:   r.PickInt(200, 404, 500, 301, 204, 304, 302, 403, 0, 100, 599, 1000, r.N(1000), r.PickInt(-1, -200, 65536, 65736, 1<<31, 1<<40+200, math.MinInt64, 99999, pick(r, dict.ints))), RProto: r.Pick("HTTP/1.1", "HTTP/1.0", "HTTP/2.0", word(r)),
		RHeader: genHeader(r, p.wild),
	}
	if r.P(p.noURL) {
		x.NoURL = true
		x.Method, x.Proto = "", ""
	} else if r.P(10) {
		x.Host = "www.example.org"
		if r.P(15) {
			x.Path = ""
		}
	}
	if r.P(3) && !x.NoURL { // a path that does not begin with a slash
		x.Host, x.Path = "", r.Pick("*", "index", "a/b", "a\\b", "a/", "x/y.z/", "", strings.ToLower(pick(r, dict.names)))
	}
	if x.Host != "" && r.P(40) {
		x.User = r.Pick("u", "user:pw", "user:", ":pw", "@", "a@b:c/d")
	}
	genCookies(r, x.Header)
	for k := r.N(4) * r.N(2); k > 0; k-- { // something is missing
		switch r.N(8) {
		case 0:
			x.RHeader = http.Header{}
		case 1:
			x.Header = http.Header{}
		case 2:
			x.RProto = ""
		case 3:
			x.Query = ""
		case 4:
			x.Src = ""
		case 5:
			x.Code = 0
		case 6:
			x.Proto = ""
		case 7:
			delete(x.Header, "Cookie")
		}
	}
	if x.Method == "POST" || x.Method == "PUT" || x.Method == "PATCH" || r.P(20) {
		switch r.N(5) {
		case 0, 1:
			x.Header["Content-Type"] = []string{urlencodedCT(r)}
			x.Body = genUrlencoded(r, p.wild, p.maxLen)
		case 2, 3:
			body, ct, ents := genMultipart(r, p.bigs...)
			x.Header["Content-Type"] = []string{ct}
			x.Body, x.Post = body, ents
		case 4:
			if r.P(50) {
				x.Header["Content-Type"] = []string{r.Pick("text/plain", "application/json", "application/octet-stream", "text/html; charset=x")}
			}
			x.Body = []byte(genQuery(r, p.wild))
		}
		if _, bad := refQuery(string(x.Body)); bad && x.bodyType() == "urlencoded" {
			x.PostBad = true
		}
	}
	if r.P(70) && (len(x.RHeader) > 0 || r.P(50)) {
		x.RHeader["Content-Type"] = []string{r.Pick("text/html", "Text/HTML; charset=utf-8", "application/json;charset=x", "IMAGE/png", "text/plain; a=1; a=2", "text/xml;;", " text/css ", "text", "text/;x=y", "a/b/c; d", "APPLICATION/X-"+strings.ToUpper(pick(r, dict.names)), "application/problem+json; charset=utf-8", "Application/Vnd.Api+JSON", "application/vnd."+strings.ToLower(strings.Repeat(r.From("abcdef.+-", 9), r.Range(5, 40)))+"+xml; charset=utf-8")}
	}
	if r.P(60) && (len(x.RHeader) > 0 || r.P(50)) {
		x.RHeader["Content-Length"] = []string{r.Pick("0", "12", "007", "x", "99999999999999999999", strconv.Itoa(pick(r, dict.sizes)), r.Pick("00", "+5", "-1", "-0", "12 ", "1,2", "12, 12", "0x10", "1e3", "00012", "4294967296", "9223372036854775808", strconv.Itoa(pick(r, dict.ints)), word(r)))}
	}
	if r.P(60) {
		x.RBody = []byte(word(r) + word(r))
		if r.P(5) {
			x.RBody = []byte(strings.Repeat("r", r.Size(500000, 131072, 4096, 524228)))
		}
	}
	return x
}
