package main

import (
	"fmt"
	"strings"

	"github.com/mozilla/crlite/go/storage"
	sim "github.com/mozilla/crlite/go/verifsim"
)

// stdLogs: two logs whose entries share issuers, bins and one serial. With all
// of A ingested up to 5 the cutoff is exactly the timestamp of A[2].
func (e *env) stdLogs() {
	b := e.base
	I1, I2 := issuerID(1), issuerID(2)
	E1, E2 := e.at(1000), e.at(2000)
	e.addLog("alpha", 0x11, 3600, []*entry{
		mk(b+0*hour, I1, E1, 0x01),
		mk(b+hour/2, I1, E2, 0x00, 0x80, 0x02),
		mk(b+1*hour, I2, E1, 0x03),
		mk(b+hour+1, I1, E1, 0x04),
		mk(b+2*hour, I1, E1, 0x05),
		mk(b+3*hour, I2, E1, 0x06),
		mk(b+4*hour, I1, E2, 0x07),
		mk(b+6*hour, I1, E1, 0x08),
	})
	e.addLog("beta", 0x22, 7200, []*entry{
		mk(b+0*hour, I2, E1, 0x03),
		mk(b+2*hour, I1, E1, 0x01),
		mk(b+3*hour, I2, E1, 0x0a),
		mk(b+5*hour, I2, E1, 0x0b),
	})
}

func writesOnly(p *sim.Proc, kind, desc string, faults []string) []string {
	return faults
}

type histOpt struct {
	commitsBefore int
	sched, intra  bool
	crash, power  bool
	faults        bool
	scan          string
	faultsOn      string // process name prefix
	fetch2        bool
	crashF        bool
	reads         bool // failing reads, too
	budget        map[string]int
	total         int
	thorough      bool
}

// commitScenario: history of fetches and complete commits, then one commit
// racing with ingestion under the explorer, then recovery.
func commitScenario(name string, o histOpt) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: o.budget, Total: o.total, Thorough: o.thorough, Run: func(x *sim.Exec) {
		e := newEnv(x, "c")
		defer e.done()
		e.stdLogs()
		e.w.Redis.ScanMode = o.scan
		up := map[string]uint64{"alpha": 3, "beta": 2}
		f := e.spawn("F0", func(p *sim.Proc) { e.fetcher(p, up, 2) })
		if !e.w.RunAll(f) || f.Err != nil {
			x.Fail("C03-setup", "initial ingestion failed: %v", f.Err)
			return
		}
		for i := 0; i < o.commitsBefore; i++ {
			c := e.spawn(fmt.Sprintf("C0.%d", i), func(p *sim.Proc) { e.committer(p, true) })
			e.w.RunAll(c)
			if c.Err != nil {
				x.Fail("C03-setup", "undisturbed commit failed: %v", c.Err)
				return
			}
			e.final("after undisturbed commit")
			up = map[string]uint64{"alpha": 5, "beta": 3}
			f = e.spawn("F0b", func(p *sim.Proc) { e.fetcher(p, up, 5) })
			e.w.RunAll(f)
		}
		// the explored phase
		e.w.Sched, e.w.Intra, e.w.Power, e.w.YieldReads = o.sched, o.intra, o.power, o.reads
		if o.faults {
			e.w.FaultFilter = func(p *sim.Proc, kind, desc string, faults []string) []string {
				if !strings.HasPrefix(p.Name, o.faultsOn) || strings.HasPrefix(desc, "start") {
					return nil
				}
				return faults
			}
		}
		up2 := map[string]uint64{"alpha": 6, "beta": 3}
		c := e.spawn("C1", func(p *sim.Proc) { e.committer(p, false) })
		procs := []*sim.Proc{c}
		if o.fetch2 {
			f2 := e.spawn("F1", func(p *sim.Proc) {
				_, db, err := e.open(true)
				if err != nil {
					p.Err = err
					return
				}
				e.fetchOn(p, db, up2, 3)
			})
			procs = append(procs, f2)
			if o.crashF {
				e.w.CrashProcs[f2] = true
			}
		}
		if o.crash {
			e.w.CrashProcs[c] = true
		}
		if !e.w.RunAll(procs...) && !x.Failed() {
			x.Fail("C03-stuck", "commit or ingestion never finished")
		}
		if c.Err == nil && !c.Dead() && !c.Exited && !o.fetch2 {
			e.final("after the commit reported success")
		}
		x.Outcome = e.outcome()
		up3 := map[string]uint64{"alpha": 8, "beta": 4}
		e.recoverAndCheck(up3, 4)
		// a further undisturbed commit must also work
		c3 := e.spawn("C3", func(p *sim.Proc) { e.committer(p, true) })
		e.w.RunAll(c3)
		if c3.Err != nil {
			x.Fail("C03-wedged", "the commit after recovery fails: %v", c3.Err)
		}
		e.final("after the commit after recovery")
		x.Outcome += " || " + e.outcome()
	}}
}

func commitScenarios() []*sim.Scenario {
	b := func(kv ...any) map[string]int {
		m := map[string]int{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1].(int)
		}
		return m
	}
	n := 2
	if sim.Thorough() {
		n = 3
	}
	s := []*sim.Scenario{
		commitScenario("first-commit-crash", histOpt{crash: true, power: true, faults: true, faultsOn: "C1", intra: true, budget: b("crash", 1, "fault", 1, "intra", 1), total: 2}),
		commitScenario("second-commit-crash", histOpt{commitsBefore: 1, crash: true, power: true, faults: true, faultsOn: "C1", intra: true, budget: b("crash", 1, "fault", 1, "intra", 1), total: 2}),
		commitScenario("commit-vs-fetch", histOpt{commitsBefore: 1, sched: true, fetch2: true, budget: b("preempt", n), total: n}),
		commitScenario("first-commit-vs-fetch", histOpt{sched: true, fetch2: true, budget: b("preempt", n), total: n}),
		commitScenario("commit-vs-fetch-crash", histOpt{commitsBefore: 1, sched: true, fetch2: true, crash: true, crashF: true, budget: b("preempt", 1, "crash", 1), total: 2}),
		commitScenario("commit-vs-fetch-fault", histOpt{commitsBefore: 1, sched: true, fetch2: true, faults: true, faultsOn: "", budget: b("preempt", 1, "fault", 1), total: 2}),
		commitScenario("third-commit-paged-scan", histOpt{commitsBefore: 2, scan: "dup", sched: true, fetch2: true, crash: true, faults: true, faultsOn: "C1", budget: b("preempt", 1, "crash", 1, "fault", 1), total: 1}),
		commitScenario("commit-two-faults", histOpt{commitsBefore: 1, reads: true, faults: true, faultsOn: "C1", budget: b("fault", 2), total: 2}),
	}
	if sim.Thorough() {
		s = append(s,
			commitScenario("commit-vs-fetch-crash-deep", histOpt{commitsBefore: 1, sched: true, fetch2: true, crash: true, power: true, budget: b("preempt", 2, "crash", 1), total: 3}),
			commitScenario("crash-fault-deep", histOpt{commitsBefore: 1, crash: true, faults: true, faultsOn: "C1", intra: true, budget: b("crash", 1, "fault", 2, "intra", 1), total: 3}),
		)
	}
	return s
}

// bigScenarios: sizes beyond the internal batch limits, default schedule.
func bigScenarios() []*sim.Scenario {
	mkS := func(name string, nbins, perBin int, scan string, faultPos bool) *sim.Scenario {
		bud := map[string]int{}
		if faultPos {
			bud["fault"] = 1
		}
		return &sim.Scenario{Name: name, Bubble: true, Budget: bud, Run: func(x *sim.Exec) {
			e := newEnv(x, "b")
			defer e.done()
			e.w.Redis.ScanMode = scan
			e.w.MaxSteps = 200000
			e.w.NoStates = true
			e.w.After = nil
			e.w.Redis.Quiet = func(args []string) bool {
				return strings.EqualFold(args[0], "sadd") || strings.EqualFold(args[0], "expireat")
			}
			var es []*entry
			for i := 0; i < nbins; i++ {
				for j := 0; j < perBin; j++ {
					es = append(es, mk(e.base, issuerID(1), e.at(float64(1000+i)), byte(j>>8), byte(j), 1))
				}
			}
			// a last, later entry moves the cutoff past all the others
			es = append(es, mk(e.base+2*hour, issuerID(2), e.at(1000), 0x77))
			e.addLog("alpha", 0x11, 3600, es)
			f := e.spawn("F0", func(p *sim.Proc) { e.fetcher(p, map[string]uint64{"alpha": uint64(len(es))}, uint64(len(es))) })
			if !e.w.RunAll(f) {
				x.Fail("C03-stuck", "ingestion never finished")
			}
			if faultPos {
				// one failing step at the edges of the big commit
				n := map[string]int{}
				e.w.FaultFilter = func(p *sim.Proc, kind, desc string, faults []string) []string {
					if !strings.HasPrefix(p.Name, "C1") {
						return nil
					}
					// the first steps, and those around the batch limit
					op := strings.SplitN(desc, " ", 2)[0]
					if op == "srem" || op == "rename" && strings.Contains(desc, "serials::") {
						n[op]++
						if k := n[op]; k <= 2 || k == nbins-1 || k == nbins || k == 1000 || k == 1001 {
							return faults[:1]
						}
					}
					return nil
				}
			}
			c := e.spawn("C1", func(p *sim.Proc) { e.committer(p, true) })
			if !e.w.RunAll(c) {
				x.Fail("C03-stuck", "commit never finished")
			}
			e.w.FaultFilter = nil
			e.invariants("big commit")
			faulted := false
			for _, p := range x.C.Points {
				faulted = faulted || p.Pick > 0
			}
			if c.Err != nil && !faulted {
				x.Fail("C03-wedged", "undisturbed commit failed: %v", c.Err)
			}
			if c.Err == nil {
				e.final("after big commit")
			}
			if !faulted && scan == "" {
				// everything covered has left the cache
				if n := len(e.w.Redis.Keys("serials::")); n != 1 {
					x.Fail("C02-covered-kept-in-cache", "%d bins still cached after a complete commit", n)
				}
			}
			x.Outcome = e.outcome()
			e.recoverAndCheck(map[string]uint64{"alpha": uint64(len(es))}, 10)
			e.invariants("recovered")
		}}
	}
	_ = storage.EPOCH_KEY
	return []*sim.Scenario{
		mkS("bin-of-1023", 1, 1023, "", true),
		mkS("bin-of-1024", 1, 1024, "", true),
		mkS("bin-of-1025", 1, 1025, "", true),
		mkS("bin-of-2050", 1, 2050, "", true),
		mkS("bin-of-300-paged", 1, 300, "dup", false),
		mkS("bins-1000", 1000, 1, "", true),
		mkS("bins-1001", 1001, 1, "", true),
		mkS("bins-2003", 2003, 1, "", false),
	}
}
