package main

import (
	ms "github.com/senghoo/modsecurity-go/modsecurity"
)

// Event is one observation of a probe.
type Event struct {
	Kind string // eval, act, match, trans
	Rule int    // rule id of the link
	Idx  int    // index of the action in the link (-1 default actions)
	Name string
}

// Recorder collects the events of one transaction (sequential use).
type Recorder struct {
	ev []Event
}

func (r *Recorder) add(e Event) { r.ev = append(r.ev, e) }

func (r *Recorder) take() []Event {
	e := r.ev
	r.ev = nil
	return e
}

// scriptVar is a variable whose values are given by a script.
type scriptVar struct {
	name string
	f    func(*ms.Transaction) []string
}

func (v *scriptVar) Name() string                     { return v.name }
func (v *scriptVar) Include(string) error             { return nil }
func (v *scriptVar) Exclude(string) error             { return nil }
func (v *scriptVar) Fetch(t *ms.Transaction) []string { return v.f(t) }

// recVar wraps a variable and reports what it returned.
type recVar struct {
	ms.Variable
	f func(*ms.Transaction, []string)
}

func (v *recVar) Fetch(t *ms.Transaction) []string {
	r := v.Variable.Fetch(t)
	v.f(t, r)
	return r
}

// scriptOp matches by a function.
type scriptOp struct {
	f func(*ms.Transaction, string) bool
}

func (o *scriptOp) Name() string                           { return "probe" }
func (o *scriptOp) Args() string                           { return "" }
func (o *scriptOp) Match(t *ms.Transaction, s string) bool { return o.f(t, s) }

// recOp wraps an operator and reports its calls.
type recOp struct {
	ms.Operator
	f func(*ms.Transaction, string, bool)
}

func (o *recOp) Match(t *ms.Transaction, s string) bool {
	r := o.Operator.Match(t, s)
	o.f(t, s, r)
	return r
}

type scriptTrans struct {
	name string
	f    func(string) string
}

func (x *scriptTrans) Name() string                             { return x.name }
func (x *scriptTrans) Trans(t *ms.Transaction, s string) string { return x.f(s) }

// recAct wraps an action and reports that it ran, before it runs.
type recAct struct {
	ms.Action
	f func(*ms.Transaction)
}

func (a *recAct) Do(t *ms.Transaction) {
	a.f(t)
	a.Action.Do(t)
}

// scriptAct is an action of the harness.
type scriptAct struct {
	name  string
	group int
	f     func(*ms.Transaction)
}

func (a *scriptAct) Name() string         { return a.name }
func (a *scriptAct) Value() string        { return "" }
func (a *scriptAct) ActionGroup() int     { return a.group }
func (a *scriptAct) Do(t *ms.Transaction) { a.f(t) }

// allLinks lists a rule and its sub rules, in order.
func allLinks(r *ms.SecRule) []*ms.SecRule {
	out := []*ms.SecRule{r}
	for _, s := range r.SubRules {
		out = append(out, allLinks(s)...)
	}
	return out
}
