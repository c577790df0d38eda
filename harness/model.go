package main

import (
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Reference functions, written from the property texts.

var reEsc = regexp.MustCompile(`(?s)%[0-9a-fA-F]{2}|\+`)
var reUni = regexp.MustCompile(`(?s)%[uU][0-9a-fA-F]{4}|%[0-9a-fA-F]{2}|\+`)
var reBad = regexp.MustCompile(`(?s)%(?:[0-9a-fA-F]{2})?`)

// latin maps bytes to runes one to one so that regexp works bytewise.
func latin(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		b.WriteRune(rune(s[i]))
	}
	return b.String()
}

func unlatin(s string) string {
	b := make([]byte, 0, len(s))
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

func refDecode(s string) string {
	if strings.IndexByte(s, '%') < 0 {
		return strings.Replace(s, "+", " ", -1)
	}
	return unlatin(reEsc.ReplaceAllStringFunc(latin(s), func(m string) string {
		if m == "+" {
			return " "
		}
		n, _ := strconv.ParseUint(m[1:], 16, 8)
		return string(rune(n))
	}))
}

func malformedEscape(s string) bool {
	for _, m := range reBad.FindAllString(latin(s), -1) {
		if m == "%" {
			return true
		}
	}
	return false
}

func refDecodeUni(s string) string {
	return unlatin(reUni.ReplaceAllStringFunc(latin(s), func(m string) string {
		if m == "+" {
			return " "
		}
		if len(m) == 3 {
			n, _ := strconv.ParseUint(m[1:], 16, 8)
			return string(rune(n))
		}
		n, _ := strconv.ParseUint(m[2:], 16, 32)
		if n >= 0xFF01 && n <= 0xFF5E {
			n = n - 0xFF01 + '!'
		}
		if n >= 0xD800 && n <= 0xDFFF {
			n = 0xFFFD
		}
		return latin(string([]rune{rune(n)}))
	}))
}

const asciiSpace = " \t\n\v\f\r"

// splitUTF8 cuts a string into characters; a byte that is not part of a valid one stands alone.
func splitUTF8(s string) []string {
	var out []string
	for len(s) > 0 {
		_, n := utf8.DecodeRuneInString(s)
		out = append(out, s[:n])
		s = s[n:]
	}
	return out
}

func refTrans(name, s string) string {
	switch name {
	case "none":
		return s
	case "urlDecode":
		return refDecode(s)
	case "urlDecodeUni":
		return refDecodeUni(s)
	case "removeNulls":
		return strings.Replace(s, "\x00", "", -1)
	case "replaceNulls":
		return strings.Replace(s, "\x00", " ", -1)
	case "removeWhitespace":
		return strings.Join(fieldsASCII(s), "")
	case "compressWhitespace":
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			if strings.IndexByte(asciiSpace, s[i]) >= 0 {
				if i == 0 || strings.IndexByte(asciiSpace, s[i-1]) < 0 {
					b.WriteByte(' ')
				}
				continue
			}
			b.WriteByte(s[i])
		}
		return b.String()
	case "lowercase":
		var b strings.Builder
		for _, c := range splitUTF8(s) {
			r, n := utf8.DecodeRuneInString(c)
			if r == utf8.RuneError && n == 1 {
				b.WriteString(c)
			} else {
				b.WriteRune(unicode.ToLower(r))
			}
		}
		return b.String()
	}
	panic("no such transformation " + name)
}

func fieldsASCII(s string) []string {
	var out []string
	start := -1
	for i := 0; i < len(s); i++ {
		sp := strings.IndexByte(asciiSpace, s[i]) >= 0
		if !sp && start < 0 {
			start = i
		}
		if sp && start >= 0 {
			out = append(out, s[start:i])
			start = -1
		}
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

var transNames = []string{"none", "lowercase", "urlDecode", "urlDecodeUni", "compressWhitespace", "removeWhitespace", "replaceNulls", "removeNulls"}
var cmpOps = []string{"eq", "ge", "gt", "le", "lt"}

var reInt = regexp.MustCompile(`^[+-]?[0-9]+$`)

func refInt(s string) *big.Int {
	s = strings.Trim(s, asciiSpace)
	if !reInt.MatchString(s) {
		return new(big.Int)
	}
	n, _ := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
	return n
}

func refOp(op, arg, v string) bool {
	if op == "rx" {
		return compiled(arg).FindStringIndex(v) != nil
	}
	a := refInt(arg)
	c := refInt(v).Cmp(a)
	switch op {
	case "eq":
		return c == 0
	case "ge":
		return c >= 0
	case "gt":
		return c > 0
	case "le":
		return c <= 0
	case "lt":
		return c < 0
	}
	panic("no such operator " + op)
}

var reCache = map[string]*regexp.Regexp{}

func compiled(re string) *regexp.Regexp {
	if r := reCache[re]; r != nil {
		return r
	}
	if len(reCache) > 5000 {
		reCache = map[string]*regexp.Regexp{}
	}
	r := regexp.MustCompile(re)
	reCache[re] = r
	return r
}

// Entry is one name and value of a collection.
type Entry struct{ Name, Value string }

func refQuery(q string) (out []Entry, malformed bool) {
	for _, p := range strings.Split(q, "&") {
		if p == "" {
			continue
		}
		n, v := p, ""
		if i := strings.IndexByte(p, '='); i >= 0 {
			n, v = p[:i], p[i+1:]
		}
		malformed = malformed || malformedEscape(p)
		out = append(out, Entry{refDecode(n), refDecode(v)})
	}
	return
}

func refCookies(lines []string) (out []Entry) {
	for _, l := range lines {
		for _, p := range strings.Split(l, ";") {
			p = strings.Trim(p, " \t")
			if p == "" {
				continue
			}
			n, v := p, ""
			if i := strings.IndexByte(p, '='); i >= 0 {
				n, v = p[:i], p[i+1:]
			}
			out = append(out, Entry{n, v})
		}
	}
	return
}

func refBasename(p string) string {
	last := "/"
	for _, s := range regexp.MustCompile(`[/\\]+`).Split(p, -1) {
		if s != "" {
			last = s
		}
	}
	return last
}

func refMediaType(ct string) string {
	return strings.ToLower(strings.Trim(strings.SplitN(ct, ";", 2)[0], " \t"))
}

// refSelect picks the values a target list designates out of the collections.
// names says that a collection is one of names; get returns its entries.
func refSelect(sels []Sel, get func(string) (ents []Entry, names bool)) []string {
	var out []string
	done := map[string]bool{}
	for _, s := range sels {
		if done[s.Var] {
			continue
		}
		done[s.Var] = true
		ents, names := get(s.Var)
		fold := strings.Contains(s.Var, "_HEADERS")
		hit := func(key, name string) bool {
			if len(key) >= 2 && key[0] == '/' && key[len(key)-1] == '/' {
				re := key[1 : len(key)-1]
				if fold {
					re = "(?i)" + re
				}
				return compiled(re).MatchString(name)
			}
			if fold {
				return strings.EqualFold(key, name)
			}
			return key == name
		}
		var incl, excl, cincl []Sel
		for _, o := range sels {
			if o.Var != s.Var {
				continue
			}
			switch {
			case o.Excl:
				excl = append(excl, o)
			case o.Count:
				cincl = append(cincl, o)
			default:
				incl = append(incl, o)
			}
		}
		choose := func(incl, excl []Sel, dflt bool) []Entry {
			var res []Entry
			for _, e := range ents {
				in := dflt
				for _, o := range incl {
					in = in || o.Key == "" || hit(o.Key, e.Name)
				}
				for _, o := range excl {
					if hit(o.Key, e.Name) {
						in = false
					}
				}
				if in {
					res = append(res, e)
				}
			}
			return res
		}
		if len(incl) > 0 || len(excl) > 0 {
			for _, e := range choose(incl, excl, len(incl) == 0) {
				if names {
					out = append(out, e.Name)
				} else {
					out = append(out, e.Value)
				}
			}
		}
		if len(cincl) > 0 {
			out = append(out, strconv.Itoa(len(choose(cincl, nil, false))))
		}
	}
	return out
}

func sorted(s []string) []string {
	o := append([]string{}, s...)
	sort.Strings(o)
	return o
}

func uniq(s []string) []string {
	o := sorted(s)
	k := 0
	for i, v := range o {
		if i == 0 || v != o[k-1] {
			o[k] = v
			k++
		}
	}
	return o[:k]
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameBag(a, b []string) bool { return sameList(sorted(a), sorted(b)) }
func sameSet(a, b []string) bool { return sameList(uniq(a), uniq(b)) }
