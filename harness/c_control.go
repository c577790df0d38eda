package main

func init() {
	all := []int{1, 2, 3, 4, 5, 6}
	register(&Prop{ID: "C03", Quick: 100000, Thorough: 600000,
		Rule: "random rule sets (plain rules and chains, skip with and without argument, 6 phases) x random call histories (omitted, repeated, out-of-order phases); non-trivial: at least two rules",
		Run: func(c *Ctx) {
			if c.I%2500 == 77 {
				manyRules(c)
				return
			}
			runControl(c, &profile{phases: all, maxRules: 6, chain: 15, maxLinks: 3, acts: []string{"skip", "skip", "log"}, actPct: 45, match: 50, weird: true, collect: 10, drop: 10})
		}})
	register(&Prop{ID: "C04", Quick: 100000, Thorough: 600000,
		Rule: "random rule sets with allow (all arguments, all phases, also in chains and several per transaction) x random continuations; non-trivial: at least two rules",
		Run: func(c *Ctx) {
			runControl(c, &profile{phases: all, maxRules: 4, chain: 15, maxLinks: 2, acts: []string{"allow", "allow", "log"}, actPct: 30, match: 40, weird: true, collect: 20, drop: 5})
		}})
	register(&Prop{ID: "C05", Quick: 100000, Thorough: 600000,
		Rule: "random rule sets with deny, status, block (random default actions), pass, log x random interleavings of phases and result collection; non-trivial: at least two rules",
		Run: func(c *Ctx) {
			if c.I%2500 == 77 {
				manyLogs(c)
				return
			}
			runControl(c, &profile{phases: all, maxRules: 4, chain: 20, maxLinks: 3, acts: []string{"deny", "status", "status", "block", "pass", "log", "log"}, actPct: 45, match: 40, collect: 45, defaults: true, drop: 5})
		}})
	register(&Prop{ID: "C06", Quick: 100000, Thorough: 600000,
		Rule: "random rule sets with disruptive and other actions x random sequences of mode settings (directives and calls, also between phases) x aborts, real oversized-body aborts in every mode, body-access directives set repeatedly on live engines; non-trivial: at least two rules",
		Run: func(c *Ctx) {
			switch c.I % 5 {
			case 0:
				realAbort(c)
				return
			case 1:
				accessSwitch(c)
				return
			}
			runControl(c, &profile{phases: all, maxRules: 4, chain: 15, maxLinks: 2, acts: []string{"deny", "status", "block", "pass", "log", "allow", "skip"}, actPct: 45, match: 50, collect: 40, defaults: true, modes: true, aborts: true, bodyAborts: true, drop: 5})
		}})
	register(&Prop{ID: "C23", Quick: 100000, Thorough: 600000,
		Rule: "random rule sets x aborts by call or by a probe inspection at every rule position and chain link (negated or not) x random continuations, and real oversized-body aborts by every body variable; non-trivial: at least two rules",
		Run: func(c *Ctx) {
			if c.I%4 == 0 {
				realAbort(c)
				return
			}
			runControl(c, &profile{phases: all, maxRules: 4, chain: 35, maxLinks: 3, acts: []string{"log", "deny", "status", "pass"}, actPct: 20, match: 60, collect: 40, aborts: true, bodyAborts: true, weird: true, modes: c.R.P(25), drop: 5})
		}})
}
