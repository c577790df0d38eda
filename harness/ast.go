package main

import (
	"fmt"
	"strings"
)

// Sel is one entry of a target list.
type Sel struct {
	Var   string
	Key   string // name or /expression/, "" for none
	Count bool
	Excl  bool
}

func (s Sel) String() string {
	t := s.Var
	if s.Key != "" {
		t += ":" + s.Key
	}
	if s.Count {
		t = "&" + t
	}
	if s.Excl {
		t = "!" + t
	}
	return t
}

// Act is one action other than id, phase, chain and transformations.
type Act struct {
	Name string
	Arg  string
}

// Rule is a rule as the generators mean it.
type Rule struct {
	ID    int
	Phase int // 0: none given
	Sels  []Sel
	Op    string // rx, eq, ...
	Arg   string
	Not   bool
	Trans []string
	Acts  []Act
	Links []*Rule // chained rules
}

// quoteSec writes a string so that the scanner reads it back between q quotes.
func quoteSec(s string, q byte) string {
	var b strings.Builder
	b.WriteByte(q)
	b.WriteString(escapeSec(s, q))
	b.WriteByte(q)
	return b.String()
}

func escapeSec(s string, q byte) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case q, '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case '\n':
			b.WriteString("\\n")
		case '\r':
			b.WriteString("\\r")
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func (r *Rule) targets() string {
	var s []string
	for _, x := range r.Sels {
		s = append(s, x.String())
	}
	return strings.Join(s, "|")
}

func (r *Rule) operator() string {
	s := "@" + r.Op + " " + r.Arg
	if r.Not {
		s = "!" + s
	}
	return s
}

func actText(a Act) string {
	switch {
	case a.Arg == "":
		return a.Name
	case len(a.Arg) > 1 && (a.Arg[0] == '\'' || a.Arg[0] == '"') && a.Arg[len(a.Arg)-1] == a.Arg[0]:
		return a.Name + ":" + a.Arg
	case strings.ContainsAny(a.Arg, " ,'\"\n\t:;") || a.Name == "msg" || a.Name == "tag" || a.Name == "logdata":
		return a.Name + ":'" + a.Arg + "'"
	}
	return a.Name + ":" + a.Arg
}

func (r *Rule) actions(chain bool) []string {
	var s []string
	if r.ID != 0 {
		s = append(s, fmt.Sprintf("id:%d", r.ID))
	}
	if r.Phase != 0 {
		if r.Phase == 6 {
			s = append(s, "phase:logging")
		} else {
			s = append(s, fmt.Sprintf("phase:%d", r.Phase))
		}
	}
	for _, t := range r.Trans {
		s = append(s, "t:"+t)
	}
	if chain {
		s = append(s, "chain")
	}
	for _, a := range r.Acts {
		s = append(s, actText(a))
	}
	if len(s) == 0 {
		s = append(s, "t:none")
	}
	return s
}

// text renders a rule (with its links) canonically.
func (r *Rule) text() string {
	var b strings.Builder
	all := append([]*Rule{r}, r.Links...)
	for i, l := range all {
		b.WriteString("SecRule ")
		b.WriteString(quoteSec(l.targets(), '"'))
		b.WriteString(" ")
		b.WriteString(quoteSec(l.operator(), '"'))
		b.WriteString(" ")
		b.WriteString(quoteSec(strings.Join(l.actions(i < len(all)-1), ","), '"'))
		b.WriteString("\n")
	}
	return b.String()
}

func rulesText(rs []*Rule) string {
	var b strings.Builder
	for _, r := range rs {
		b.WriteString(r.text())
	}
	return b.String()
}
