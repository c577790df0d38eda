package main

import (
	"fmt"
	"strings"

	ms "github.com/senghoo/modsecurity-go/modsecurity"
	"github.com/senghoo/modsecurity-go/modsecurity/actions"
)

// Few cases, but large ones: phases of tens of thousands of rules, thousands
// of log entries between two collections, thousands of interceptions in turn.

// manyRules runs phases of very many rules, with skips of every size.
func manyRules(c *Ctx) {
	r := c.R
	e := c.newEngine()
	want := map[int][]int{}
	var ran []int
	total := 0
	for p := 1; p <= 6; p++ {
		n := r.N(3)
		if r.P(40) {
			n = bigN(r, 70000)
		}
		skip := 0
		quiet := r.P(50)
		for i := 0; i < n; i++ {
			id := p*1000000 + i
			sr := ms.NewSecRule()
			sr.Id, sr.Phase = id, p
			hit := r.P(3) && !quiet || i == 0
			sr.AppendVariables(&scriptVar{"PROBE", func(t *ms.Transaction) []string {
				ran = append(ran, id)
				return []string{"v"}
			}})
			sr.SetOperator(&scriptOp{func(*ms.Transaction, string) bool { return hit }})
			k := 0
			if hit && r.P(50) {
				k = r.PickInt(1, 2, r.N(100)+1, bigN(r, 70000))
				a, err := actions.NewActionSkipCount(fmt.Sprint(k))
				if err != nil {
					c.Fail("skip", "skip:%d is refused: %v", k, err)
				}
				sr.AppendActions(a)
			}
			e.AddSecRule(sr)
			total++
			if skip > 0 {
				skip--
				continue
			}
			want[p] = append(want[p], id)
			skip = k
		}
	}
	t := c.tx(e)
	defer closeTx(t)
	for p := 1; p <= 6; p++ {
		ran = ran[:0]
		t.ProcessPhase(p)
		for i := 0; i < len(ran) || i < len(want[p]); i++ {
			if i >= len(ran) || i >= len(want[p]) || ran[i] != want[p][i] {
				c.Fail("many-rules", "phase %d of %d rules: evaluation %d of %d is of rule %v, must be %v (of %d)", p, len(e.RuleSet.Phases[p]), i, len(ran), at(ran, i), at(want[p], i), len(want[p]))
			}
		}
		c.Eval(len(ran) + 1)
	}
	c.Max("rules_of_a_transaction", total)
	c.Distinct(fmt.Sprint("many", c.I))
}

func at(s []int, i int) interface{} {
	if i < len(s) {
		return s[i]
	}
	return "none"
}

// manyLogs collects after very many log entries and interceptions.
func manyLogs(c *Ctx) {
	r := c.R
	e := c.newEngine()
	nrules := r.PickInt(0, 3, bigN(r, 20000))
	for i := 0; i < nrules; i++ {
		sr := ms.NewSecRule()
		sr.Id, sr.Phase = i, r.Range(1, 6)
		sr.AppendVariables(&scriptVar{"PROBE", func(t *ms.Transaction) []string { return []string{"v"} }})
		sr.SetOperator(&scriptOp{func(*ms.Transaction, string) bool { return true }})
		sr.AppendActions(&scriptAct{"vmon", ms.ActionGroupNonDisruptive, func(t *ms.Transaction) { t.Logf("entry %d", i) }})
		e.AddSecRule(sr)
	}
	t := c.tx(e)
	defer closeTx(t)
	var owed []string
	most := 0
	collect := func() {
		got := t.Result()
		if got.Disruptive {
			c.Fail("many-disruptive", "nothing denied, but the result is disruptive")
		}
		if len(got.Log) != len(owed) {
			c.Fail("many-logs", "%d entries were produced since the last collection, %d are delivered", len(owed), len(got.Log))
		}
		for i, s := range owed {
			if !strings.HasSuffix(got.Log[i], s) {
				c.Fail("many-logs", "entry %d of %d is %q, must end in %q", i, len(owed), got.Log[i], s)
			}
		}
		most = max(most, len(owed))
		c.Eval(len(owed) + 1)
		owed = nil
	}
	for p := 1; p <= 6; p++ {
		if r.P(50) {
			for n := r.PickInt(1, 10, bigN(r, 40000)); n > 0; n-- {
				owed = append(owed, fmt.Sprint("call ", n))
				t.Logf("call %d", n)
			}
		}
		t.ProcessPhase(p)
		for _, sr := range e.RuleSet.Phases[p] {
			owed = append(owed, fmt.Sprint("entry ", sr.Id))
		}
		if r.P(30) {
			collect()
		}
	}
	collect()
	collect()
	c.Max("entries_collected", most)
	c.Distinct(fmt.Sprint("many", c.I))
}
