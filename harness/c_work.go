package main

import (
	"fmt"
	"net/http"
	"net/url"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
	"github.com/senghoo/modsecurity-go/seclang"
)

func init() {
	register(&Prop{ID: "C25", Quick: 1320, Thorough: 12000, Run: runC25, Procs: 1, Workers: 6,
		Rule: "one kind of large input per case, at sizes 4 times apart up to a few hundred kilobytes; processor time and allocation of the largest are compared with those of the size 16 times smaller, a suspicion is measured again five times; non-trivial: the largest size took long enough to measure"})
}

// job is a piece of work on an input of about n bytes, prepared beforehand.
type job func(n int) func()

func rep(s string, n int) string {
	if n < len(s) {
		return s
	}
	return strings.Repeat(s, n/len(s))
}

func numbered(n int, f string) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, f, i)
	}
	return b.String()
}

// spent is the work done by f.
type spent struct {
	cpu   time.Duration
	alloc uint64
}

func measure(f func()) spent {
	var m0, m1 runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m0)
	runtime.LockOSThread()
	t0 := threadTime()
	f()
	t1 := threadTime()
	runtime.UnlockOSThread()
	runtime.ReadMemStats(&m1)
	return spent{t1 - t0, m1.TotalAlloc - m0.TotalAlloc}
}

func threadTime() time.Duration {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0) // of this thread
	return time.Duration(ts.Nano())
}

func least(a, b spent) spent {
	if b.cpu < a.cpu {
		a.cpu = b.cpu
	}
	if b.alloc < a.alloc {
		a.alloc = b.alloc
	}
	return a
}

const (
	workStep   = 16
	workFactor = 90 // 16 if proportional, 256 if quadratic
)

func runC25(c *Ctx) {
	r := c.R
	debug.SetGCPercent(-1) // collections are no part of the work
	defer debug.SetGCPercent(100)
	name, j := c25Job(c)
	c.Set("job", name)
	sizes := []int{r.Range(900, 1100)}
	for len(sizes) < 5 || c.Tier == "thorough" && len(sizes) < 6 {
		sizes = append(sizes, sizes[len(sizes)-1]*4)
	}
	costs := make([]spent, len(sizes))
	for i, n := range sizes {
		f := j(n)
		costs[i] = measure(f)
		for k := 0; k < 2 && costs[i].cpu < 100*time.Millisecond; k++ {
			costs[i] = least(costs[i], measure(j(n)))
		}
		c.Eval(1)
		if i < 2 {
			continue
		}
		bad := func() string {
			a, b := costs[i-2], costs[i]
			if b.cpu > 30*time.Millisecond && b.cpu > workFactor*(a.cpu+20*time.Microsecond) {
				return fmt.Sprintf("%v of processor time against %v", b.cpu, a.cpu)
			}
			if b.alloc > 4<<20 && b.alloc > workFactor*(a.alloc+20000) {
				return fmt.Sprintf("%d bytes allocated against %d", b.alloc, a.alloc)
			}
			return ""
		}
		for k := 0; k < 5 && bad() != ""; k++ {
			c.Count("suspicions", 1)
			costs[i] = least(costs[i], measure(j(n)))
			costs[i-2] = measure(j(sizes[i-2])) // the smaller one must not be flattered
			for l := 0; l < 3; l++ {
				if s := measure(j(sizes[i-2])); s.cpu > costs[i-2].cpu {
					costs[i-2].cpu = s.cpu
				}
			}
		}
		if what := bad(); what != "" {
			c.Fail("work", "%s: an input of %d bytes takes %s for one of %d bytes", name, n, what, sizes[i-2])
		}
	}
	last := costs[len(costs)-1]
	c.Count("jobs_"+strings.SplitN(name, " ", 2)[0], 1)
	c.Max("cpu_us", int(last.cpu/time.Microsecond))
	if last.cpu > 500*time.Microsecond {
		c.Distinct(name)
	}
	if c.verbose {
		fmt.Println(name, sizes, costs)
	}
	c.Sample(fmt.Sprintf("%s: %v", name, costs))
}

func c25Rules() string {
	var b strings.Builder
	id := 1
	add := func(t string) {
		fmt.Fprintf(&b, "SecRule \"%s\" \"@rx zzz$\" \"id:%d,phase:5,log\"\n", t, id)
		id++
	}
	for _, v := range allVars {
		add(v)
		if isColl(v) {
			add(v + ":zzz")
			add(v + ":/^zz.$/")
			add("!" + v + ":zzz")
			if !strings.HasSuffix(v, "_NAMES") {
				add("&" + v)
			}
		}
	}
	return b.String()
}

// turn goes through the kinds of one job in turn.
func turn[T any](c *Ctx, s []T) T { return s[(c.I/22)%len(s)] }

// c25Job picks what is large and what is done with it.
func c25Job(c *Ctx) (string, job) {
	r := c.R
	pickUnit := func(us ...string) string { return turn(c, us) }
	traffic := func(text string, fill func(x *Traffic, n int)) job {
		return func(n int) func() {
			x := &Traffic{Src: "1.1.1.1", SrcPort: "1", Path: "/", Method: "POST", Proto: "HTTP/1.1", Header: http.Header{}, RHeader: http.Header{}, Code: 200, RProto: "HTTP/1.1"}
			fill(x, n)
			e := c.load("SecRequestBodyAccess On\nSecResponseBodyAccess On\n" + text)
			e.RequestBodyInMem, e.RequestBody, e.ResponseBody = 1<<28, 1<<28, 1<<28
			t := c.tx(e)
			u := &url.URL{Path: x.Path, RawQuery: x.Query}
			return func() {
				t.ProcessConnection("1.1.1.1", "1", "1.1.1.2", "80")
				t.ProcessRequestURL(u, x.Method, x.Proto)
				t.ProcessRequestHeader(x.Header)
				t.AppendRequestBody(x.Body)
				t.ProcessRequestBody()
				t.ProcessResponseHeaders(x.Code, x.RProto, x.RHeader)
				t.AppendResponseBody(x.RBody)
				t.ProcessResponseBody()
				t.ProcessLogging()
				t.Result()
				closeTx(t)
			}
		}
	}
	all := c25Rules()
	one := func() string { // a single rule
		ls := strings.Split(strings.TrimSpace(all), "\n")
		s := pick(r, ls)
		if r.P(40) {
			s = strings.Replace(s, ",log", ",t:"+pick(r, transNames)+",log", 1)
		}
		return s + "\n"
	}
	rules := one()
	if r.P(60) {
		rules = all
	}
	pairs := []string{"a=1&", "a=&", "&", "=&", "a&", "%", "%41", "%4", "+", "a=%41%42&", "%zz=%zz&", ";", "a=b;", "%00", "\x00", "é", "a", "==", "%u0041", "\\", "a=1&b=2&"}
	units := []string{"/", "a/", "../", "\\", "%41", "%", "a", ".", "//a", " ", "\t", "\x00", " \n", "é", "\xff", "A", "+", "%uFF41", "1", "0", "a1", ";", "=", "-", "\"", "'", ","}
	switch k := c.I % 22; k {
	case 0:
		u := turn(c, pairs)
		return "query of " + u, traffic(rules, func(x *Traffic, n int) { x.Query = rep(u, n) })
	case 1:
		return "query of distinct names", traffic(rules, func(x *Traffic, n int) { x.Query = numbered(n, "n%d=v&") })
	case 2:
		u := turn(c, pairs)
		return "body of " + u, traffic(rules, func(x *Traffic, n int) {
			x.Header["Content-Type"] = []string{urlencodedType}
			x.Body = []byte(rep(u, n))
		})
	case 3:
		return "body of distinct names", traffic(rules, func(x *Traffic, n int) {
			x.Header["Content-Type"] = []string{urlencodedType}
			x.Body = []byte(numbered(n, "n%d=v&"))
		})
	case 4:
		u := pickUnit("a=b; ", "a=b;", ";", "=;", "a", "a=b", " ", "a=b ; ", "==", ",", "\"a\"=", "a; ")
		return "cookie of " + u, traffic(rules, func(x *Traffic, n int) { x.Header["Cookie"] = []string{rep(u, n)} })
	case 5:
		many := r.P(50)
		return fmt.Sprintf("cookies of distinct names, many headers %v", many), traffic(rules, func(x *Traffic, n int) {
			s := numbered(n, "n%d=v; ")
			x.Header["Cookie"] = []string{s}
			if many {
				x.Header["Cookie"] = strings.Split(s, "; ")
			}
		})
	case 6:
		resp := r.P(50)
		return fmt.Sprintf("headers of distinct names, response %v", resp), traffic(rules, func(x *Traffic, n int) {
			h := x.Header
			if resp {
				h = x.RHeader
			}
			for i := 0; i < n/20; i++ {
				h[fmt.Sprintf("X-N%d", i)] = []string{"v"}
			}
		})
	case 7:
		return "headers of one name", traffic(rules, func(x *Traffic, n int) {
			for i := 0; i < n/10; i++ {
				x.Header["X-A"] = append(x.Header["X-A"], "v")
				x.RHeader["X-A"] = append(x.RHeader["X-A"], "v")
			}
		})
	case 8:
		u := turn(c, units)
		return "header value of " + u, traffic(rules, func(x *Traffic, n int) {
			h := r.Pick("X-A", "Content-Type", "Content-Length")
			x.Header["X-A"] = []string{rep(u, n)}
			x.RHeader[h] = []string{r.Pick("", "text/html; a=") + rep(u, n)}
		})
	case 9:
		u := pickUnit("; a=b", ";", " ", "a", "; a=\"b\"", "; a", "\"", "/", "=")
		return "request content type of " + u, traffic(rules, func(x *Traffic, n int) {
			x.Header["Content-Type"] = []string{r.Pick(urlencodedType, "multipart/form-data; boundary=x") + rep(u, n)}
			x.Body = []byte("a=b")
		})
	case 10:
		u := turn(c, units)
		return "path of " + u, traffic(rules, func(x *Traffic, n int) { x.Path = "/" + rep(u, n) })
	case 11:
		return "multipart of many parts", traffic(rules, func(x *Traffic, n int) {
			x.Header["Content-Type"] = []string{"multipart/form-data; boundary=xyz"}
			m := n / 100
			if m > 900 { // what the library accepts
				m = 900
			}
			var b strings.Builder
			for i := 0; i < m; i++ {
				fmt.Fprintf(&b, "--xyz\r\nContent-Disposition: form-data; name=\"n%d\"\r\n\r\nvalue\r\n", i)
			}
			x.Body = []byte(b.String() + "--xyz--\r\n")
		})
	case 12:
		u := pickUnit("a", "-", "\r\n", "\r\n--", "\r\n--x", "\r\n--xy", "--xyz", "\n", "\r", "\x00", "\r\n--xyzz")
		where := r.N(4)
		return fmt.Sprintf("multipart of %q at %d", u, where), traffic(rules, func(x *Traffic, n int) {
			x.Header["Content-Type"] = []string{"multipart/form-data; boundary=xyz"}
			parts := []string{"", "", "", ""}
			parts[where] = rep(u, n)
			x.Body = []byte(parts[0] + "--xyz\r\nContent-Disposition: form-data; name=\"a" + strings.Replace(strings.Replace(parts[1], "\r", "", -1), "\n", "", -1) + "\"\r\n\r\n" + parts[2] + "\r\n--xyz--\r\n" + parts[3])
		})
	case 13:
		res := r.P(50)
		u := turn(c, units)
		return fmt.Sprintf("body text of %s, response %v", u, res), traffic(rules, func(x *Traffic, n int) {
			if res {
				x.RBody = []byte(rep(u, n))
			} else {
				x.Body = []byte(rep(u, n))
			}
		})
	case 14: // transformations and operators on one value
		u := turn(c, units)
		tr := turn(c, transNames)
		op := r.Pick("@rx ^(a|b)*$", "@rx (a*)*b", "@rx x*y", "@eq 1", "@gt -1", "@rx .*.*.*=", "@rx ^\\s+$", "@le 5", "@rx (?i)A{1,20}$")
		return "t:" + tr + " " + op + " on " + u, traffic(fmt.Sprintf("SecRule ARGS_GET:a \"%s\" \"id:1,phase:2,t:%s,t:%s,log\"\n", strings.Replace(op, "\\", "\\\\", -1), tr, pick(r, transNames)), func(x *Traffic, n int) {
			x.Query = "a=" + url.QueryEscape(rep(u, n))
		})
	case 15, 16: // many rules
		kinds := []string{
			"SecRule ARGS_GET:a \"@rx b\" \"id:%d,phase:2,log\"\n", "SecRule REMOTE_ADDR \"@rx 1\" \"id:%d,phase:1,log\"\n", "SecRule REMOTE_ADDR \"@rx 1\" \"id:%d,phase:1,skip:1\"\n",
			"SecRule REMOTE_ADDR \"@rx 1\" \"id:%d,phase:1,skip\"\n", "SecRule REMOTE_ADDR \"@rx 2\" \"id:%d,phase:1,deny\"\n", "SecRule ARGS \"@rx 1\" \"id:%d,phase:3,status:400,log,pass\"\n",
			"SecRule REMOTE_ADDR \"@rx 1\" \"id:%d,phase:1,chain,log\"\nSecRule REMOTE_ADDR \"@rx 1\" \"log\"\n", "SecRule REQUEST_METHOD \"@rx 1\" \"id:%d,phase:4,msg:'a b',tag:'x',log\"\n",
			"SecRule REQUEST_HEADERS:a|REQUEST_COOKIES \"@eq 0\" \"id:%d,phase:2,t:lowercase,log\"\n", "SecRuleEngine On\n# %d\n"}
		s := turn(c, kinds[:len(kinds)-1])
		if k == 15 && (c.I/22)%2 == 0 {
			return c25Built(c)
		}
		if k == 15 {
			return "running rules like " + s, func(n int) func() {
				e := c.load(numbered(n, s))
				return func() {
					t := c.tx(e)
					x := &Traffic{Src: "1.1.1.1", Path: "/", Query: "a=1&b=2", Method: "GET", Proto: "HTTP/1.1", Header: http.Header{"Cookie": {"a=b"}}, RHeader: http.Header{}, RProto: "HTTP/1.1"}
					x.play(c, t, true)
					closeTx(t)
				}
			}
		}
		if r.P(50) {
			return "loading rules like " + s, c25Load(c, func(n int) string { return numbered(n, s) })
		}
		short := "SecRule ARGS a \"id:%d\"\n"
		if r.P(50) {
			short = "SecRule ARGS a id:1\n"
		}
		api := r.P(30)
		return fmt.Sprintf("applying rules like %s, one by one %v", short, api), func(n int) func() {
			text := short
			if strings.Contains(short, "%d") {
				text = numbered(n, short)
			} else {
				text = rep(short, n)
			}
			ds, err := seclang.NewDireSetFromSecLangString(text)
			if err != nil {
				c.Fail("refused", "%v", err)
			}
			if !api {
				return func() {
					e := c.newEngine()
					for i := 0; i < 4; i++ {
						ds.Execute(e)
					}
				}
			}
			var u []*ms.SecRule
			for i := 0; i < n/4; i++ {
				u = append(u, &ms.SecRule{Id: i, Phase: 1 + i%5})
			}
			return func() {
				e := c.newEngine()
				for _, x := range u {
					e.AddSecRule(x)
				}
			}
		}
	case 17: // one long rule
		type form struct{ pre, unit, post string }
		f := turn(c, []form{
			{"SecRule \"ARGS", "|ARGS:a", "\" \"@rx a\" \"id:1\"\n"}, {"SecRule \"ARGS:a", "|!ARGS:b", "\" \"@rx a\" \"id:1\"\n"}, {"SecRule \"ARGS", "|ARGS:/a/", "\" \"@rx a\" \"id:1\"\n"},
			{"SecRule \"ARGS:", "a", "\" \"@rx a\" \"id:1\"\n"}, {"SecRule \"&ARGS", "|&ARGS:a", "\" \"@eq 1\" \"id:1\"\n"}, {"SecRule ARGS \"@rx a", "b", "\" \"id:1\"\n"}, {"SecRule ARGS \"@rx a", "|b", "\" \"id:1\"\n"},
			{"SecRule ARGS \"@rx a\" \"id:1", ",t:lowercase", "\"\n"}, {"SecRule ARGS \"@rx a\" \"id:1", ",log", "\"\n"}, {"SecRule ARGS \"@rx a\" \"id:1", ",msg:'a, b'", "\"\n"}, {"SecRule ARGS \"@rx a\" \"id:1,msg:'", "a, b:", "'\"\n"},
			{"SecRule ARGS \"@rx a\" \"id:1", ",tag:a", "\"\n"}, {"SecRule ARGS \"@rx a\" \"id:1", ", ", "log\"\n"}, {"SecRule ARGS \"@rx a\" \"id:1,msg:'", "\\\\'", "'\"\n"}, {"SecRule ARGS \"@rx a\" \"id:1,\\\n", "log,\\\n", "deny\"\n"},
			{"SecRule ARGS \"@rx a\" \"id:1,msg:", "'a' ", "'\"\n"}, {"SecRule ARGS \"@rx a\" \"id:", "1", "\"\n"}, {"SecRule ARGS ", "\\\n", "\"@rx a\" \"id:1\"\n"}, {"SecRule ARGS ", " ", "\"@rx a\" \"id:1\"\n"},
			{"SecRule ", "\t", "ARGS \"@rx a\" \"id:1\"\n"}, {"", "\n", "SecRuleEngine On"}, {"", "\r\n", ""}, {"Sec", "x", ""}, {"SecRule ARGS \"", "\\\"", "\" \"id:1\"\n"}, {"SecRule ARGS \"@rx a\" \"id:1,msg:'", "'", "\"\n"},
			{"SecRule ARGS \"@rx a\" \"id:1,chain\"\n", "SecRule ARGS \"@rx a\" \"chain\"\n", "SecRule ARGS \"@rx a\" \"log\"\n"}, {"SecRule ARGS '", "a\\'", "' \"id:1\""}, {"SecRule ARGS \"@rx a\" \"id:1,msg:\"", "\\\\", "\"\"\n"}, {"", "\\\n", ""}, {"", "\\", ""}, {"\"", "a", ""},
		})
		return fmt.Sprintf("loading %s %q... %q", f.pre, f.unit, f.post), c25Load(c, func(n int) string { return f.pre + rep(f.unit, n) + f.post })
	case 18: // a text cut off, many times the same soup
		u := pick(r, soup) + pick(r, soup)
		if strings.TrimSpace(u) == "" {
			u = "a"
		}
		pre := r.Pick("", "SecRule ", "SecRule ARGS ", "SecRule ARGS \"", "SecRule ARGS \"@rx a\" \"", "SecRule ARGS \"@rx a\" \"id:1,msg:'")
		return fmt.Sprintf("loading %s %q...", pre, u), c25Load(c, func(n int) string { return pre + rep(u, n) })
	case 19: // a body in small pieces
		res, size, spill := r.P(50), r.PickInt(1, 7, 64), r.P(30)
		if spill {
			size = 64
		}
		return fmt.Sprintf("body in chunks of %d, response %v, spilled %v", size, res, spill), func(n int) func() {
			e := c.load("SecRequestBodyAccess On\nSecResponseBodyAccess On\nSecRule REQUEST_BODY|RESPONSE_BODY \"@rx zzz\" \"id:1,phase:5,log\"\n")
			e.RequestBodyInMem, e.RequestBody, e.ResponseBody = 1<<28, 1<<28, 1<<28
			if spill {
				e.RequestBodyInMem = 10
			}
			p := []byte(strings.Repeat("a", size))
			return func() {
				t := c.tx(e)
				t.ProcessConnection("1.1.1.1", "1", "1.1.1.2", "80")
				t.ProcessRequestHeader(nil)
				f := t.AppendRequestBody
				if res {
					f = t.AppendResponseBody
				}
				for i := 0; i < n; i += size {
					f(p)
				}
				t.ProcessRequestBody()
				t.ProcessResponseHeaders(200, "HTTP/1.1", nil)
				t.ProcessResponseBody()
				b := make([]byte, size)
				for {
					if k, err := t.Request.Body.Read(b); k == 0 || err != nil {
						break
					}
				}
				closeTx(t)
			}
		}
	case 20: // many transactions on one engine
		return "transactions on one engine", func(n int) func() {
			e := c.load(all)
			return func() {
				for i := 0; i < n/1000+1; i++ {
					t := c.tx(e)
					x := &Traffic{Src: "1.1.1.1", Path: "/", Query: fmt.Sprintf("a%d=1", i), Method: "GET", Proto: "HTTP/1.1", Header: http.Header{}, RHeader: http.Header{}, RProto: "HTTP/1.1"}
					x.play(c, t, true)
					closeTx(t)
				}
			}
		}
	}
	// log entries of one transaction
	return "log entries and results of one transaction", func(n int) func() {
		e := c.load("SecRule REMOTE_ADDR \"@rx 1\" \"id:1,phase:1,log\"\n")
		return func() {
			t := c.tx(e)
			for i := 0; i < n/10; i++ {
				t.Logf("entry %d", i)
				if i%100 == 99 {
					t.Result()
				}
			}
			closeTx(t)
		}
	}
}

// c25Built runs very many small things that no text has to be read for.
func c25Built(c *Ctx) (string, job) {
	shape := []string{"rules that do not match", "rules that match", "rules that skip the next", "links of a chain", "variables of a rule", "actions of a rule", "transformations of a rule", "rules of all phases", "rules of which the last denies", "sub rules of a rule that does not match", "rules added one by one"}[(c.I/44)%11]
	return "many " + shape, func(n int) func() {
		n /= 2
		if c.R.P(50) {
			n *= 2
		}
		e := c.newEngine()
		v := &scriptVar{"V", func(*ms.Transaction) []string { return []string{"v"} }}
		yes := &scriptOp{func(*ms.Transaction, string) bool { return true }}
		no := &scriptOp{func(*ms.Transaction, string) bool { return false }}
		nop := &scriptAct{"nop", ms.ActionGroupNonDisruptive, func(*ms.Transaction) {}}
		mk := func(id int, op ms.Operator) *ms.SecRule {
			u := ms.NewSecRule()
			u.Id, u.Phase = id, 2
			u.AppendVariables(v)
			u.SetOperator(op)
			u.AppendActions(nop)
			return u
		}
		var rules []*ms.SecRule
		for i := 1; i <= n; i++ {
			op := yes
			switch shape {
			case "rules that do not match", "rules of which the last denies":
				op = no
			}
			switch shape {
			case "links of a chain", "sub rules of a rule that does not match", "variables of a rule", "actions of a rule", "transformations of a rule":
				if len(rules) == 0 {
					if shape[0] == 's' {
						op = no
					}
					rules = append(rules, mk(i, op))
					continue
				}
				u := rules[0]
				switch shape[0] {
				case 'l', 's':
					u.AppendSubRules(mk(i, op))
				case 'v':
					u.AppendVariables(v)
				case 'a':
					u.AppendActions(nop)
				case 't':
					u.AppendTrans(transMakers[transNames[i%len(transNames)]]())
				}
				continue
			}
			u := mk(i, op)
			switch shape {
			case "rules that skip the next":
				if i%2 == 0 {
					u.AppendActions(actions.NewActionSkip())
				}
			case "rules of all phases":
				u.Phase = 1 + i%6
			case "rules of which the last denies":
				if i == n {
					u = mk(i, yes)
					u.AppendActions(actions.NewActionDeny())
				}
			}
			rules = append(rules, u)
		}
		add := func() { e.RuleSet.AddRules(rules...) }
		if shape == "rules added one by one" {
			add = func() {
				for _, u := range rules {
					e.AddSecRule(u)
				}
			}
		} else {
			add()
			add = nil
		}
		return func() {
			if add != nil {
				add()
			}
			t := c.tx(e)
			x := &Traffic{Src: "1.1.1.1", Path: "/", Query: "a=1&b=2", Method: "GET", Proto: "HTTP/1.1", Header: http.Header{}, RHeader: http.Header{}, RProto: "HTTP/1.1"}
			x.play(c, t, true)
			closeTx(t)
		}
	}
}

func c25Load(c *Ctx, f func(n int) string) job {
	return func(n int) func() {
		text := f(n)
		return func() {
			ds := seclang.NewDireSet()
			if ds.AddSecLangString(text) == nil {
				ds.Execute(ms.NewEngine())
			}
		}
	}
}
