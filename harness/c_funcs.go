package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/operators"
	"github.com/senghoo/modsecurity-go/modsecurity/transforms"
)

func init() {
	register(&Prop{ID: "C17", Quick: 1200, Thorough: 24000, Run: runC17, Init: initFuncs,
		Rule: "urlDecode and urlDecodeUni on every string up to length 6 (7 in the thorough tier) over an alphabet of 15 bytes, every %XY, every %uXXXX in every letter case and several contexts, every truncation, and long random strings; non-trivial: the string holds an escape or +"})
	register(&Prop{ID: "C18", Quick: 1200, Thorough: 24000, Run: runC18, Init: initFuncs,
		Rule: "all text transformations on every string up to length 4 (5) over 20 bytes, every code point alone and in context, every pair of bytes, broken encodings and long random strings, applied once and twice; non-trivial: some transformation changes the string"})
	register(&Prop{ID: "C19", Quick: 300000, Thorough: 1200000, Run: runC19, Init: initFuncs,
		Rule: "every pair of interesting values and arguments for every comparison, random integers of any size and notation, random expressions against an independent matcher and the standard library, and arguments that must be refused; non-trivial: a comparison with an integer value, an expression that matches"})
}

// ftrans holds transformations by name: built by hand and taken from a loaded rule.
var ftrans map[string][]ms.Trans
var ftx *ms.Transaction

var transMakers = map[string]func() ms.Trans{
	"none": transforms.NewTransNone, "lowercase": transforms.NewTransLowerCase,
	"urlDecode": transforms.NewTransUrlDecode, "urlDecodeUni": transforms.NewTransUrlDecodeUni,
	"compressWhitespace": transforms.NewTransCompressWhitespace, "removeWhitespace": transforms.NewTransRemoveWhitespace,
	"replaceNulls": transforms.NewTransReplaceNulls, "removeNulls": transforms.NewTransRemoveNulls,
}

func initFuncs(c *Ctx) {
	ftrans = map[string][]ms.Trans{}
	for n, f := range transMakers {
		ftrans[n] = append(ftrans[n], f())
	}
	e := c.newEngine()
	ds, _ := newSet()
	for i, n := range transNames {
		if err := ds.AddSecLangString(fmt.Sprintf("SecRule ARGS \"@rx a\" \"id:%d,phase:1,t:%s\"\n", i+1, n)); err != nil {
			return // C15 and C22 report it
		}
	}
	if ds.Execute(e) != nil {
		return
	}
	for _, rs := range e.RuleSet.Phases {
		for _, r := range rs {
			if len(r.Trans) == 1 && r.Id >= 1 && r.Id <= len(transNames) {
				n := transNames[r.Id-1]
				ftrans[n] = append(ftrans[n], r.Trans[0])
			}
		}
	}
	ftx, _ = e.NewTransaction()
}

func applyTrans(n string, which int, s string) string {
	ts := ftrans[n]
	return ts[which%len(ts)].Trans(ftx, s)
}

// nth returns the n-th string of exactly l characters over an alphabet.
func nth(alphabet []string, n, l int) string {
	var b strings.Builder
	for i := 0; i < l; i++ {
		b.WriteString(alphabet[n%len(alphabet)])
		n /= len(alphabet)
	}
	return b.String()
}

func pow(b, e int) int {
	r := 1
	for ; e > 0; e-- {
		r *= b
	}
	return r
}

// each walks this case's share of 0..n-1; the first `cases` cases divide all of it among them.
func (c *Ctx) each(n int, f func(int)) {
	total := c.P.cases(c.Tier) / 3
	if c.I >= total {
		return
	}
	for i := c.I; i < n; i += total {
		f(i)
	}
}

// ---- C17 ----------------------------------------------------------------

// decodeRef is a second reference, independent of the one in model.go.
func decodeRef(s string, uni bool) string {
	out := make([]byte, 0, len(s))
	hex := func(b string) int {
		n := 0
		for i := 0; i < len(b); i++ {
			d := strings.IndexByte("0123456789abcdef", b[i]|0x20)
			if d < 0 || b[i]|0x20 == b[i] && b[i] < '0' || b[i] < '0' {
				return -1
			}
			n = n*16 + d
		}
		return n
	}
	for len(s) > 0 {
		if s[0] == '+' {
			out = append(out, ' ')
			s = s[1:]
			continue
		}
		if s[0] == '%' {
			if len(s) >= 3 {
				if n := hex(s[1:3]); n >= 0 {
					out = append(out, byte(n))
					s = s[3:]
					continue
				}
			}
			if uni && len(s) >= 6 && (s[1] == 'u' || s[1] == 'U') {
				if n := hex(s[2:6]); n >= 0 {
					switch {
					case n >= 0xff01 && n <= 0xff5e:
						n -= 0xfee0
					case n>>11 == 0x1b:
						n = 0xfffd
					}
					switch {
					case n < 0x80:
						out = append(out, byte(n))
					case n < 0x800:
						out = append(out, byte(0xc0|n>>6), byte(0x80|n&0x3f))
					default:
						out = append(out, byte(0xe0|n>>12), byte(0x80|n>>6&0x3f), byte(0x80|n&0x3f))
					}
					s = s[6:]
					continue
				}
			}
		}
		out = append(out, s[0])
		s = s[1:]
	}
	return string(out)
}

func c17One(c *Ctx, s string, which int) {
	for k, n := range [2]string{"urlDecode", "urlDecodeUni"} {
		want := decodeRef(s, k == 1)
		if got := applyTrans(n, which, s); got != want {
			c.Set("input", s)
			c.Fail(n, "%s(%q) is %q, must be %q", n, clipStr(s), clipStr(got), clipStr(want))
		}
		if want != s {
			c.Count("decoded_"+n, 1)
		}
	}
}

func clipStr(s string) string {
	if len(s) > 300 {
		return s[:300] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

var c17Alphabet = strings.Split("% + u U 0 a A f F 9 g z - \xff", " ")

func runC17(c *Ctx) {
	r := c.R
	alpha := append([]string{" "}, c17Alphabet...)
	max := 6
	if c.Tier == "thorough" {
		max = 7
	}
	for l := 0; l <= max; l++ {
		c.each(pow(len(alpha), l), func(i int) {
			c17One(c, nth(alpha, i, l), i>>1)
			c.Count("exhaustive_strings", 1)
		})
	}
	// every two bytes after a percent sign
	c.each(1<<16, func(i int) {
		xy := string([]byte{byte(i >> 8), byte(i)})
		for _, s := range []string{"%" + xy, "a%" + xy + "b", "%" + xy + xy, "%%" + xy, "%2" + xy, "%u" + xy, "%u00" + xy + "x", "%U0" + xy + "0"} {
			c17One(c, s, i)
		}
		c.Count("percent_pairs", 1)
	})
	// every %uXXXX
	c.each(1<<16, func(i int) {
		for _, f := range []string{"%%u%04x", "%%u%04X", "%%U%04x", "%%U%04X"} {
			s := fmt.Sprintf(f, i)
			mixed := []byte(s)
			for k := 2; k < 6; k++ {
				if r.P(50) {
					mixed[k] = strings.ToUpper(s)[k]
				} else {
					mixed[k] = strings.ToLower(s)[k]
				}
			}
			c17One(c, s, i)
			c17One(c, "x"+s+"9", i)
			c17One(c, string(mixed)+s, i)
			c17One(c, "%"+s, i)
			c17One(c, s[:3+i%3], i)
		}
		c.Count("u_escapes", 1)
	})
	if c.I < c.P.cases(c.Tier)/3 {
		c.Distinct("exhaustive", c.I)
		return
	}
	// long strings of the same, where every position is a place to go wrong
	if c.I%8 == 0 {
		us := []string{"%", "%4", "%u", "%41", "%u0041", "%U00e9", "a", "+", "%zz", "%u12", "\xff", "%%41", "a%", "\x00", "%C3%A9"}
		u := us[c.I/8%len(us)]
		n := (1<<uint(r.PickInt(12, 14, 16, 17, 18, 18, 20)) + r.Range(-9, 9)) / len(u)
		c17One(c, strings.Repeat(u, n)+r.Pick("", "b", "%", "%4", "%u004"), c.I)
		c.Max("bytes_of_a_string", n*len(u))
	}
	// random long strings, round trips and sizes around the literals of the code
	for k := 0; k < 60; k++ {
		var b strings.Builder
		n := r.Range(1, 40)
		if r.P(3) {
			n = r.Range(500, 9000)
		}
		if r.P(10) {
			b.WriteString(strings.Repeat(r.Pick("a", "%41", "+", "%", "\xff"), pick(r, dict.sizes)%70000))
		}
		for i := 0; i < n; i++ {
			switch r.N(9) {
			case 0, 1:
				fmt.Fprintf(&b, "%%%02x", r.N(256))
			case 2:
				fmt.Fprintf(&b, "%%%c%04X", "uU"[r.N(2)], r.N(1<<16))
			case 3:
				b.WriteString(r.Pick("%", "%%", "%u", "%U", "+", "%2", "%u00", "%u00e", "%zz", "%uzzzz", "%25", "%2B", "%2525"))
			case 4:
				b.Write(r.Bytes(1))
			case 5:
				b.WriteString(word(r))
			default:
				b.WriteString(r.From("abcu0123456789ABCDEF %+", 1))
			}
		}
		s := b.String()
		c17One(c, s, k)
		c.Max("input_bytes", len(s))
		if strings.ContainsAny(s, "%+") {
			c.Distinct(clipStr(s))
		}
		// percent-encoding is inverted, once
		plain := s
		var enc strings.Builder
		for i := 0; i < len(plain); i++ {
			switch {
			case plain[i] == ' ' && r.P(50):
				enc.WriteByte('+')
			case r.P(50):
				fmt.Fprintf(&enc, "%%%02x", plain[i])
			default:
				fmt.Fprintf(&enc, "%%%02X", plain[i])
			}
		}
		for _, t := range []string{"urlDecode", "urlDecodeUni"} {
			if got := applyTrans(t, k, enc.String()); got != plain {
				c.Set("input", enc.String())
				c.Fail("roundtrip", "%s does not invert percent-encoding: %q becomes %q", t, clipStr(plain), clipStr(got))
			}
			c.Count("roundtrips", 1)
		}
		if a, b := refDecode(s), decodeRef(s, false); a != b {
			panic(fmt.Sprintf("references disagree on %q: %q %q", s, a, b))
		}
		if len(s) < 2000 {
			if a, b := refDecodeUni(s), decodeRef(s, true); a != b {
				panic(fmt.Sprintf("uni references disagree on %q: %q %q", s, a, b))
			}
		}
	}
	c.Eval(60)
	c.Sample(map[string]string{"input": "%41%u0042%uff43+%zz", "urlDecode": applyTrans("urlDecode", 0, "%41%u0042%uff43+%zz"), "urlDecodeUni": applyTrans("urlDecodeUni", 0, "%41%u0042%uff43+%zz")})
}

// ---- C18 ----------------------------------------------------------------

var textTrans = []string{"none", "lowercase", "compressWhitespace", "removeWhitespace", "replaceNulls", "removeNulls"}

func c18One(c *Ctx, s string, which int) {
	for _, n := range textTrans {
		want := refTrans(n, s)
		got := applyTrans(n, which, s)
		if got != want {
			c.Set("input", s)
			c.Fail(n, "%s(%q) is %q, must be %q", n, clipStr(s), clipStr(got), clipStr(want))
		}
		if want != s {
			c.Count("changed_by_"+n, 1)
			if twice := applyTrans(n, which, got); twice != got {
				c.Set("input", s)
				c.Fail(n+"-idempotence", "%s of %q is %q, applied again %q", n, clipStr(s), clipStr(got), clipStr(twice))
			}
		}
	}
}

var c18Alphabet = []string{" ", "\t", "\n", "\v", "\f", "\r", "\x00", "a", "A", "Z", "0", "\xff", "\xc3", "\xa9", "\xa0", "\xc2", "\x85", "\xe2", "\x80", "\xa8"}

func runC18(c *Ctx) {
	r := c.R
	max := 4
	if c.Tier == "thorough" {
		max = 5
	}
	for l := 0; l <= max; l++ {
		c.each(pow(len(c18Alphabet), l), func(i int) {
			c18One(c, nth(c18Alphabet, i, l), i>>1)
			c.Count("exhaustive_strings", 1)
		})
	}
	c.each(1<<16, func(i int) {
		c18One(c, string([]byte{byte(i >> 8), byte(i)}), i)
		c18One(c, string([]byte{'A', byte(i >> 8), byte(i), ' ', ' '}), i)
		c.Count("byte_pairs", 1)
	})
	c.each(unicode.MaxRune+1, func(i int) {
		if i >= 0xd800 && i < 0xe000 {
			s := string([]byte{byte(0xe0 | i>>12), byte(0x80 | i>>6&0x3f), byte(0x80 | i&0x3f)})
			c18One(c, "X"+s+" ", i)
			return
		}
		s := string(rune(i))
		c18One(c, s, i)
		if i%4 == 0 || i < 0x3000 {
			c18One(c, "A "+s+s+"\x00B  "+s[:len(s)-1]+"C", i)
		}
		c.Count("code_points", 1)
	})
	if c.I < c.P.cases(c.Tier)/3 {
		c.Distinct("exhaustive", c.I)
		return
	}
	// long strings of the same, where every position is a place to go wrong
	if c.I%8 == 0 {
		us := []string{" ", "A", "\x00", "\xff", "É", "\t \n", "a ", "\x00 ", "a\x00", "\xc3", "İ", "日", " \xff"}
		u := us[c.I/8%len(us)]
		n := (1<<uint(r.PickInt(12, 14, 16, 17, 18, 18, 20)) + r.Range(-9, 9)) / len(u)
		c18One(c, strings.Repeat(u, n)+r.Pick("", "b", " ", "\xc3", "\x00"), c.I)
		c.Max("bytes_of_a_string", n*len(u))
	}
	for k := 0; k < 60; k++ {
		var b strings.Builder
		n := r.Range(0, 30)
		if r.P(3) {
			n = r.Range(500, 9000)
		}
		if r.P(10) {
			b.WriteString(strings.Repeat(r.Pick("a", " ", "\x00", "A", "\xff", "é", "\t\t"), pick(r, dict.sizes)%70000))
		}
		for i := 0; i < n; i++ {
			switch r.N(7) {
			case 0:
				b.WriteString(strings.Repeat(r.From(asciiSpace, 1), r.Range(1, 4)))
			case 1:
				b.WriteString(r.From(asciiSpace+"\x00", r.Range(1, 5)))
			case 2:
				b.WriteRune(rune(r.N(unicode.MaxRune + 1)))
			case 3:
				b.Write(r.Bytes(r.Range(1, 3)))
			case 4:
				b.WriteString(word(r))
			case 5:
				x := []byte(string(rune(r.N(unicode.MaxRune + 1))))
				b.Write(x[:r.N(len(x))])
			default:
				b.WriteString(r.From("abcXYZ\x00 ", 2))
			}
		}
		s := b.String()
		c18One(c, s, k)
		c.Max("input_bytes", len(s))
		if !utf8.ValidString(s) {
			c.Count("invalid_utf8_inputs", 1)
		}
		if refTrans("removeWhitespace", s) != s || refTrans("lowercase", s) != s {
			c.Distinct(clipStr(s))
		}
	}
	c.Eval(60)
	c.Sample(map[string]string{"input": "A \t\x00B\xffC", "compressWhitespace": fmt.Sprintf("%q", applyTrans("compressWhitespace", 0, "A \t\x00B\xffC")), "lowercase": fmt.Sprintf("%q", applyTrans("lowercase", 0, "A \t\x00B\xffC"))})
}

// ---- C19 ----------------------------------------------------------------

var intTexts = []string{"", "0", "-0", "+0", "00", "1", "+1", "-1", "01", "007", "2", "5", "9", "10", "-10", "100", "99", "127", "128", "255", "256", "65535", "65536",
	"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740992", "9007199254740993", "9007199254740994",
	"999999999999999999", "9223372036854775806", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "-9223372036854775807",
	"18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103232", "-18446744073709551616", "100000000000000000000000", "-100000000000000000000000",
	"000000000000000000000000000000000005", "-00000000000000000000000000000000000005", "0000000000000000000000000000",
	" 5", "5 ", " 5 ", "\t5\n", "\r\n5", " -5 ", "5\x00", "\x005", "- 5", "5 5", "--5", "+-5", "++5", "-", "+", "0x10", "0X1f", "0b1", "0o7", "1e3", "1E3", "1.0", "1.5", ".5", "5.", "1_000", "1,000",
	"abc", "5a", "a5", "５", "٣", "NaN", "Inf", "-Inf", "true", "99999999999999999999a", "9223372036854775808x", "-9223372036854775809.0", "9223372036854775807 1", "1e400", "0x8000000000000000", "0x7fffffffffffffff0"}

var cmpArgTexts = []string{"0", "-0", "+0", "1", "-1", "+1", "5", "-5", "05", "10", "100", "255", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "9007199254740992", "9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775806", "-9223372036854775807", " 5 ", "\t1"}

var badInts = []string{"", " ", "abc", "1.5", "0x1", "1 2", "5a", "a5", "--1", "+-1", "-", "+", "1e3", "1_0", "1,0", "５", ".", "5.", "@", "\x00", "1\x00", "true", "0b1", "- 1"}

var badRes = []string{"(", ")", "[", "a(b", "*", "+a", "?", "a**", "[z-a]", "(?P<n", "\\", "(?z)", "[[:foo:]]", "a{2,1}", "(?<!a)b", "\\8", "(a", "[a", "x{1001}", "\\pQ", "(?=a)", "(((("}

func runC19(c *Ctx) {
	total := c.P.cases(c.Tier) / 3
	if c.I < total {
		n := len(intTexts) * len(cmpArgTexts)
		for i := c.I; i < n; i += total {
			c19Compare(c, cmpArgTexts[i%len(cmpArgTexts)], []string{intTexts[i/len(cmpArgTexts)]}, i)
			c.Count("table_pairs", 1)
		}
		m := len(badInts) * len(cmpOps)
		for i := c.I; i < m; i += total {
			c19Refuse(c, cmpOps[i%len(cmpOps)], badInts[i/len(cmpOps)], i)
		}
		for i := c.I; i < len(badRes); i += total {
			c19Refuse(c, "rx", badRes[i], i)
		}
	}
	switch c.I % 3 {
	case 0:
		c19Random(c)
	case 1:
		c19Rx(c)
	case 2:
		c19Interleaved(c)
	}
}

// operator builds one by hand or through the loader.
func (c *Ctx) operator(name, arg string, i int) ms.Operator {
	if i%2 == 0 || strings.ContainsAny(arg, "\t\n\r") || strings.ContainsAny(arg, "\\\"") {
		return mkOp(c, name, arg)
	}
	e := c.load("SecRule ARGS \"@" + name + " " + arg + "\" \"id:1,phase:1\"\n")
	for _, rs := range e.RuleSet.Phases {
		if len(rs) == 1 {
			return rs[0].Operator
		}
	}
	c.Fail("loaded", "the rule @%s %s was accepted but is not installed", name, arg)
	return nil
}

func c19Compare(c *Ctx, arg string, values []string, i int) {
	for _, op := range cmpOps {
		o := c.operator(op, arg, i)
		if o.Name() != op {
			c.Fail("name", "operator %s calls itself %s", op, o.Name())
		}
		for _, v := range values {
			if vagueInt(v) {
				continue
			}
			want := refOp(op, strings.TrimSpace(arg), v)
			if got := o.Match(ftx, v); got != want {
				c.Set("value", v)
				c.Fail(op, "@%s %s on %q gives %v, must be %v", op, arg, clipStr(v), got, want)
			}
			c.Count("comparisons", 1)
			if want {
				c.Count("comparisons_true_"+op, 1)
			}
			if refInt(v).Sign() != 0 {
				c.Distinct(op, arg, v)
			}
			if !refInt(v).IsInt64() {
				c.Count("comparisons_beyond_64_bits", 1)
			}
		}
	}
	c.Eval(len(values))
}

func c19Refuse(c *Ctx, op, arg string, i int) {
	var err error
	var o ms.Operator
	switch op {
	case "rx":
		o, err = operators.NewOperatorRx(arg)
	case "eq":
		o, err = operators.NewOperatorEq(arg)
	case "ge":
		o, err = operators.NewOperatorGe(arg)
	case "gt":
		o, err = operators.NewOperatorGt(arg)
	case "le":
		o, err = operators.NewOperatorLe(arg)
	case "lt":
		o, err = operators.NewOperatorLt(arg)
	}
	if err == nil {
		c.Fail("accepted", "@%s with argument %q was accepted (%v)", op, arg, o)
	}
	ds, _ := newSet()
	text := "SecRule ARGS " + quoteSec("@"+op+" "+arg, '"') + " \"id:1,phase:1\"\n"
	if arg == "" {
		text = "SecRule ARGS \"@" + op + "\" \"id:1,phase:1\"\n"
	}
	if err := ds.AddSecLangString(text); err == nil {
		c.Set("rules", text)
		c.Fail("accepted", "a rule with operator @%s and argument %q was accepted", op, arg)
	}
	c.Count("refused_arguments", 1)
	c.Distinct("refuse", op, arg)
}

// intText writes an integer of any size in some notation, or something that is none.
func intText(r *Rand) string {
	var s string
	switch r.N(8) {
	case 0:
		return pick(r, intTexts)
	case 1:
		s = strconv.FormatInt(int64(r.u64()), 10)
	case 2:
		s = strconv.FormatUint(r.u64(), 10)
	case 3:
		s = r.From("0123456789", r.Range(17, 40))
	case 4:
		s = strconv.FormatInt(int64(1)<<uint(r.N(63))+int64(r.Range(-1, 1)), 10)
	case 5:
		s = strconv.Itoa(pick(r, dict.ints))
	default:
		s = strconv.Itoa(r.Range(-20, 20))
	}
	if s[0] != '-' {
		if r.P(20) {
			s = strings.Repeat("0", r.N(30)) + s
		}
		if r.P(40) {
			s = r.Pick("-", "-", "-", "+") + s
		}
	}
	if r.P(20) {
		s = r.From(asciiSpace, r.N(3)) + s + r.From(asciiSpace, r.N(3))
	}
	if r.P(6) {
		i := r.N(len(s) + 1)
		s = s[:i] + r.From("a.x_, e-+\x00", 1) + s[i:]
	}
	return s
}

func c19Random(c *Ctx) {
	r := c.R
	n := int64(r.u64())
	if r.P(60) {
		n >>= uint(r.N(64))
	}
	if r.P(20) {
		n = int64(pick(r, dict.ints))
	}
	arg := strconv.FormatInt(n, 10)
	var vs []string
	for k := 0; k < 12; k++ {
		vs = append(vs, intText(r))
	}
	for d := int64(-1); d <= 1; d++ {
		vs = append(vs, strconv.FormatInt(n+d, 10))
	}
	vs = append(vs, arg+"0", " "+arg+"\n", arg+"x", word(r), arg, "0"+arg)
	c19Compare(c, arg, vs, c.I/3)
	c.Sample(map[string]interface{}{"argument": arg, "values": fmt.Sprintf("%.200q", vs)})
}

// c19Interleaved checks that verdicts do not depend on earlier ones.
func c19Interleaved(c *Ctx) {
	r := c.R
	type oper struct {
		o         ms.Operator
		name, arg string
	}
	var ops []oper
	for k := r.Range(2, 5); k > 0; k-- {
		if r.P(50) {
			a := genRx(r)
			ops = append(ops, oper{mkOp(c, "rx", a), "rx", a})
		} else {
			n, a := pick(r, cmpOps), strconv.Itoa(r.Range(-3, 6))
			ops = append(ops, oper{mkOp(c, n, a), n, a})
		}
	}
	var vals []string
	for k := r.Range(2, 6); k > 0; k-- {
		if r.P(50) {
			vals = append(vals, word(r))
		} else {
			vals = append(vals, intText(r))
		}
	}
	for k := 0; k < 40; k++ {
		o, v := pick(r, ops), pick(r, vals)
		if o.name != "rx" && vagueInt(v) {
			continue
		}
		want := refOp(o.name, o.arg, v)
		if got := o.o.Match(ftx, v); got != want {
			c.Set("value", v)
			c.Fail("interleaved-"+o.name, "@%s %s on %q gives %v after other evaluations, must be %v", o.name, o.arg, clipStr(v), got, want)
		}
		if o.name == "rx" && want {
			c.Distinct("rx", o.arg, clipStr(v))
		}
	}
	c.Count("interleaved_evaluations", 40)
	c.Eval(40)
}

// ---- an independent matcher for a subset of regular expressions ----------

type rnode struct {
	kind byte // l literal, . any, [ class, * + ? repeat, c concatenation, | alternatives, ^ $ anchors
	r    rune
	set  []rune
	neg  bool
	sub  []*rnode
}

func genNode(r *Rand, d int) *rnode {
	k := r.N(12)
	if d <= 0 && k >= 5 {
		k = r.N(5)
	}
	switch k {
	case 0, 1, 2:
		return &rnode{kind: 'l', r: pick(r, []rune("aabbcé0 \n"))}
	case 3:
		return &rnode{kind: '.'}
	case 4:
		n := &rnode{kind: '[', neg: r.P(30)}
		for i := r.Range(1, 3); i > 0; i-- {
			n.set = append(n.set, pick(r, []rune("abcé0")))
		}
		return n
	case 5:
		return &rnode{kind: pick(r, []byte("*+?")), sub: []*rnode{genNode(r, d-1)}}
	case 6, 7, 8:
		n := &rnode{kind: 'c'}
		for i := r.N(4); i > 0; i-- {
			n.sub = append(n.sub, genNode(r, d-1))
		}
		return n
	case 9, 10:
		n := &rnode{kind: '|'}
		for i := r.Range(2, 3); i > 0; i-- {
			n.sub = append(n.sub, genNode(r, d-1))
		}
		return n
	}
	return &rnode{kind: pick(r, []byte("^$"))}
}

func (n *rnode) String() string {
	switch n.kind {
	case 'l':
		return string(n.r)
	case '.':
		return "."
	case '[':
		s := string(n.set)
		if n.neg {
			s = "^" + s
		}
		return "[" + s + "]"
	case '*', '+', '?':
		return "(?:" + n.sub[0].String() + ")" + string(n.kind)
	case '^', '$':
		return string(n.kind)
	case 'c':
		s := ""
		for _, x := range n.sub {
			s += x.String()
		}
		return "(" + s + ")"
	}
	var ss []string
	for _, x := range n.sub {
		ss = append(ss, x.String())
	}
	return "(?:" + strings.Join(ss, "|") + ")"
}

// ends lists where a match of n that starts at i can end.
func (n *rnode) ends(s []rune, i int, memo map[[2]interface{}]map[int]bool) map[int]bool {
	key := [2]interface{}{n, i}
	if m, ok := memo[key]; ok {
		return m
	}
	out := map[int]bool{}
	one := func(ok bool) {
		if ok {
			out[i+1] = true
		}
	}
	switch n.kind {
	case 'l':
		one(i < len(s) && s[i] == n.r)
	case '.':
		one(i < len(s) && s[i] != '\n')
	case '[':
		if i < len(s) {
			in := false
			for _, x := range n.set {
				in = in || x == s[i]
			}
			one(in != n.neg)
		}
	case '^':
		if i == 0 {
			out[i] = true
		}
	case '$':
		if i == len(s) {
			out[i] = true
		}
	case '?':
		out[i] = true
		for e := range n.sub[0].ends(s, i, memo) {
			out[e] = true
		}
	case '*', '+':
		todo := []int{i}
		if n.kind == '*' {
			out[i] = true
		}
		seen := map[int]bool{i: true}
		for len(todo) > 0 {
			j := todo[0]
			todo = todo[1:]
			for e := range n.sub[0].ends(s, j, memo) {
				out[e] = true
				if !seen[e] {
					seen[e] = true
					todo = append(todo, e)
				}
			}
		}
	case 'c':
		out[i] = true
		for _, x := range n.sub {
			next := map[int]bool{}
			for j := range out {
				for e := range x.ends(s, j, memo) {
					next[e] = true
				}
			}
			out = next
		}
	case '|':
		for _, x := range n.sub {
			for e := range x.ends(s, i, memo) {
				out[e] = true
			}
		}
	}
	memo[key] = out
	return out
}

func (n *rnode) matches(v string) bool {
	s := []rune(v)
	memo := map[[2]interface{}]map[int]bool{}
	for i := 0; i <= len(s); i++ {
		if len(n.ends(s, i, memo)) > 0 {
			return true
		}
	}
	return false
}

func c19Rx(c *Ctx) {
	r := c.R
	n := genNode(r, 3)
	re := n.String()
	if r.P(15) { // a long expression; what is added matches nothing below
		re = "(?:" + re + ")|" + strings.Repeat("q", bigN(r, 900)) + r.Pick("", "x*", "[q]")
	}
	o := c.operator("rx", re, c.I/3)
	for k := 0; k < 12; k++ {
		var b strings.Builder
		for i := r.N(7); i > 0; i-- {
			b.WriteRune(pick(r, []rune("aaabbbcé0 \nZ")))
		}
		v := b.String()
		if r.P(10) {
			v = strings.Repeat("zZ", pick(r, dict.sizes)%70000) + v
		}
		want := compiled(re).MatchString(v)
		if len(v) < 400 {
			if own := n.matches(v); own != want {
				panic(fmt.Sprintf("matchers disagree on %q and %q: %v %v", re, v, own, want))
			}
			c.Count("rx_independent_verdicts", 1)
		}
		if got := o.Match(ftx, v); got != want {
			c.Set("value", v)
			c.Set("expression", re)
			c.Fail("rx", "@rx %s on %q gives %v, must be %v", re, clipStr(v), got, want)
		}
		if want {
			c.Count("rx_matches", 1)
			c.Distinct("rx", re, clipStr(v))
		} else {
			c.Count("rx_non_matches", 1)
		}
	}
	// arbitrary expressions and bytes against the standard library
	re = genRx(r)
	o = mkOp(c, "rx", re)
	for k := 0; k < 8; k++ {
		v := word(r)
		if r.P(30) {
			v += string(r.Bytes(r.N(9)))
		}
		if got, want := o.Match(ftx, v), compiled(re).MatchString(v); got != want {
			c.Set("value", v)
			c.Fail("rx", "@rx %s on %q gives %v, must be %v", re, clipStr(v), got, want)
		}
	}
	c.Eval(20)
}
