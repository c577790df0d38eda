exec(open('/verif/tools/specs/spec5.py').read().split('BUGS = [')[0])
BUGS = [
dict(id='C15-op-arg-blank', property='C15', edits=[(PA+'scanner.go','		res.Argument = opWithArg[1]','		res.Argument = strings.TrimLeft(opWithArg[1], " ")')], needs='an operator argument that begins with a blank', breaks='the blank is lost', demo='''
	if (&req{url: "/?a=xb"}).denied(t, "SecRule ARGS \\"@rx  b\\" \\"id:1,phase:2,deny\\"\\n") != 0 {
		t.Fatalf("matches without the blank")
	}'''),
dict(id='C15-bare-rx-at', property='C15', edits=[(PA+'scanner.go','''	if opString[0] != '@' {
		res.Tk = TkOpRx
		res.Argument = opString''','''	if opString[0] != '@' {
		res.Tk = TkOpRx
		res.Argument = strings.TrimRight(opString, " \\t")''')], needs='a bare expression that ends with a blank', breaks='the blank is lost', demo='''
	if (&req{url: "/?a=xb"}).denied(t, "SecRule ARGS \\"b \\" \\"id:1,phase:2,deny\\"\\n") != 0 {
		t.Fatalf("matches without the blank")
	}'''),
dict(id='C11-one-byte', property='C11', edits=[(V+'request_body_parser.go','	if !t.Engine.RequestBodyAccess || t.Request.Body.Len() == 0 {','	if !t.Engine.RequestBodyAccess || t.Request.Body.Len() < 2 {')], needs='a body of a single byte', breaks='its argument is missing', demo='''
	e := engine(t, "SecRequestBodyAccess On\\nSecRule &ARGS_POST \\"@eq 1\\" \\"id:1,phase:3,deny\\"\\n")
	x := tx(t, e)
	x.ProcessConnection("192.0.2.1", "1", "192.0.2.2", "80")
	u, _ := url.Parse("/")
	x.ProcessRequestURL(u, "POST", "HTTP/1.1")
	x.Request.Method = "POST"
	x.ProcessRequestHeader(http.Header{"Content-Type": {"application/x-www-form-urlencoded"}})
	x.AppendRequestBody([]byte("a"))
	x.ProcessRequestBody()
	if !x.Result().Disruptive {
		t.Fatalf("not seen")
	}'''),
]
BUGS=[b for b in BUGS if b['needs']!='nothing']
