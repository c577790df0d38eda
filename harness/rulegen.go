package main

import (
	"strconv"
	"strings"
)

// Random rules over the real variables.

var keyRes = []string{"/^a/", "/a$/", "/./", "/^[ab]+$/", "/^a1$/", "/x-[a-z]/", "/(?i)^id$/", "/^$/", "/b/", "/[0-9]/", "/^.{2}$/", "/^(a.*)?$/", "/(?i)x-/", "/agent/",
	"/(a)/", "/^(b)/", "/(i)(d)/", "/(?P<n>a)b/", "/^a*$/", "/b?/", "/[^a]/", "/^[A-Z]/", "//", "/(a)(1)/", "/^([ab])([12])/", "/q/", "/.*/", "/^.$/", "/a/b/", "/a//b/", "//a/", "/^/", "/$/", "///", "/b//", "/^//$/", "/[/]/", "/=/", "/%/"}

func genKey(r *Rand, v string) string {
	if r.P(28) {
		return pick(r, keyRes)
	}
	if r.P(10) { // an expression made of a name
		k := pick(r, argNames)
		if strings.Contains(v, "_HEADERS") {
			k = r.Pick(pick(r, hdrNames), strings.ToLower(pick(r, hdrNames)))
		}
		if r.P(30) {
			k = near(r, k)
		}
		if i := r.N(len(k) + 1); r.P(40) {
			k = k[i:] + r.Pick("", ".*", ".?", "+", "{1}")
		}
		k = strings.TrimLeft(strings.NewReplacer("|", "", ",", "", "\\", "", "$", "", "[", "", "]", "").Replace(k), "+{?*")
		return "/" + r.Pick("", "^", "(?i)") + k + r.Pick("", "$") + "/"
	}
	var k string
	switch {
	case r.P(4):
		k = longName(r)
		if strings.Contains(v, "_HEADERS") {
			k = "X-" + k
		}
	case strings.Contains(v, "_HEADERS"):
		k = pick(r, hdrNames)
		if r.P(40) {
			k = r.Pick(strings.ToLower(k), strings.ToUpper(k), "cookie", "Content-Type", "content-length")
		}
	default:
		for k = "//"; k[0] == '/'; {
			k = pick(r, argNames)
		}
	}
	if r.P(6) {
		k = pick(r, dict.names)
	}
	if r.P(8) {
		k = strings.Trim(near(r, k), "/[]$@")
	}
	return k
}

// genSels makes a target list of the documented kinds.
func genSels(r *Rand, vars []string, max int) []Sel {
	var out []Sel
	counted := map[string]int{} // 1 counted, 2 with exclusion
	for n := r.Range(1, max); n > 0; n-- {
		v := pick(r, vars)
		if r.P(40) && len(out) > 0 {
			v = pick(r, out).Var
		}
		s := Sel{Var: v}
		if isColl(v) && r.P(65) {
			s.Key = genKey(r, v)
		}
		switch {
		case isColl(v) && s.Key != "" && r.P(30):
			if counted[v] == 1 {
				continue
			}
			s.Excl = true
			counted[v] = 2
		case r.P(15) && !strings.HasSuffix(v, "_NAMES"):
			if counted[v] == 2 {
				continue
			}
			s.Count = true
			counted[v] = 1
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		out = append(out, Sel{Var: pick(r, vars)})
	}
	return out
}

// litRe matches a text literally without backslashes.
func litRe(s string) string {
	var b strings.Builder
	for _, c := range s {
		if strings.ContainsRune(`.+*?()|{}$^[`, c) {
			if c == '^' {
				b.WriteString("[\\^]")
			} else {
				b.WriteString("[" + string(c) + "]")
			}
		} else if c == '\\' {
			b.WriteString("\\\\")
		} else if c == 0xFFFD {
			b.WriteString(".")
		} else {
			b.WriteRune(c)
		}
	}
	return b.String()
}

var rxPool = []string{"", ".", "a", "^a", "a$", "^$", "[0-9]+", "(?i)select", "^.{3,8}$", "x|y|z", "a.*b", "[^a-z]", "\\d+", "\\s", "\\bor\\b", "(?s)^.*$", "[\\x80-\\xff]", "\\x00", "^/", "%", "<script", "=", "^[A-Z]+$", "[[:space:]]"}

func genRx(r *Rand) string {
	switch r.N(5) {
	case 0, 1:
		return pick(r, rxPool)
	case 2:
		return litRe(word(r))
	}
	s := litRe(r.From("abcdeXYZ019", r.Range(1, 2)))
	switch r.N(3) {
	case 0:
		s = "^" + s
	case 1:
		s += "$"
	}
	return s
}

func genCmpArg(r *Rand) string {
	switch r.N(4) {
	case 0:
		return strconv.Itoa(r.Range(-3, 6))
	case 1:
		return strconv.Itoa(pick(r, dict.ints))
	}
	return strconv.Itoa(r.Range(0, 3))
}

func genTransList(r *Rand) []string {
	var ts []string
	for r.P(45) && len(ts) < 6 {
		ts = append(ts, pick(r, transNames))
	}
	return ts
}

func minPhase(sels []Sel) int {
	p := 1
	for _, s := range sels {
		if q := visibleFrom(s.Var); q > p {
			p = q
		}
	}
	return p
}

// genRealRule makes a rule without actions, in a phase in which its targets are known.
func genRealRule(r *Rand, id int, maxPhase int) *Rule {
	var vars []string
	for _, v := range allVars {
		if visibleFrom(v) <= maxPhase {
			vars = append(vars, v)
		}
	}
	u := &Rule{ID: id, Sels: genSels(r, vars, 5), Trans: genTransList(r), Not: r.P(25)}
	if r.P(60) {
		u.Op, u.Arg = "rx", genRx(r)
	} else {
		u.Op, u.Arg = pick(r, cmpOps), genCmpArg(r)
	}
	u.Phase = r.Range(minPhase(u.Sels), maxPhase)
	return u
}

// refMatch evaluates a rule on complete traffic. vague is set when the verdict
// hangs on something the properties leave open: whether white space around an
// integer includes that beyond ASCII.
func refMatch(u *Rule, x *Traffic, v view) (hit bool, values []string, vague bool) {
	vals := refSelect(u.Sels, func(n string) ([]Entry, bool) { return x.ref(n, v) })
	for _, s := range vals {
		for _, t := range u.Trans {
			s = refTrans(t, s)
		}
		values = append(values, s)
		vague = vague || u.Op != "rx" && vagueInt(s)
		if refOp(u.Op, u.Arg, s) != u.Not {
			hit = true
		}
	}
	return
}

func vagueInt(s string) bool { return strings.TrimSpace(s) != strings.Trim(s, asciiSpace) }
