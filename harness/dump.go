package main

import (
	"fmt"
	"sort"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/seclang"
)

func newSet() (*seclang.DireSet, error) { return seclang.NewDireSet(), nil }

// dumpRule describes a rule by what its public interface shows.
func dumpRule(r *ms.SecRule) string {
	var b strings.Builder
	var vs []string
	for _, v := range r.Variables {
		vs = append(vs, fmt.Sprintf("%s<%T>", v.Name(), v))
	}
	sort.Strings(vs)
	fmt.Fprintf(&b, "{id %d phase %d vars %v not %v op %s %q trans [", r.Id, r.Phase, vs, r.Not, r.Operator.Name(), r.Operator.Args())
	for _, t := range r.Trans {
		b.WriteString(t.Name() + " ")
	}
	b.WriteString("] acts [")
	for _, a := range r.Actions {
		fmt.Fprintf(&b, "%s(%s) ", a.Name(), a.Value())
	}
	b.WriteString("] meta ")
	var ks []string
	for k := range r.MetaData {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%q ", k, r.MetaData[k])
	}
	for _, s := range r.SubRules {
		b.WriteString("sub " + dumpRule(s))
	}
	b.WriteString("}")
	return b.String()
}

// dumpEngine describes the settings and rules of an engine.
func dumpEngine(e *ms.Engine) string {
	var b strings.Builder
	fmt.Fprintf(&b, "enabled=%v detect=%v req=%v res=%v", e.Enabled, e.DetectionOnly, e.RequestBodyAccess, e.ResponseBodyAccess)
	var ps []int
	for p := range e.RuleSet.Phases {
		ps = append(ps, p)
	}
	sort.Ints(ps)
	for _, p := range ps {
		for _, r := range e.RuleSet.Phases[p] {
			fmt.Fprintf(&b, "\n%d: %s", p, dumpRule(r))
		}
	}
	return b.String()
}

// dump loads a text into a fresh engine and describes it.
func (c *Ctx) dump(text string) string { return dumpEngine(c.load(text)) }
