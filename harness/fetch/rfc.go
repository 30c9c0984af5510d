package main

import (
	"fmt"
	sim "github.com/mozilla/crlite/go/verifsim"
	"strings"
	"syscall"
	"time"
)

// mixed makes n entries of every kind, one every hour from ten days ago.
func mixed(n int) []spec {
	var r []spec
	for i := 0; i < n; i++ {
		// timestamps are out of order, but by less than the merge delay
		jitter := []time.Duration{0, 30, -15, 20}[i%4] * time.Minute
		s := spec{kind: "cert", ca: "A", serial: []byte{0x10, byte(i >> 8), byte(i)}, notAfter: base.AddDate(0, 3, i%200), ts: base.Add(-240*time.Hour + time.Duration(i)*20*time.Minute + jitter)}
		switch i % 5 {
		case 1:
			s.kind = "precert"
			s.ca = "B"
		case 2:
			s.kind = "psc"
		case 3:
			s.ca = "B"
		case 4:
			s.serial = []byte{0x00, 0x80 + byte(i>>8), byte(i)}
		}
		r = append(r, s)
	}
	return r
}

func b(kv ...any) map[string]int {
	m := map[string]int{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1].(int)
	}
	return m
}

func pick(quick, thorough int) int {
	if sim.Thorough() {
		return thorough
	}
	return quick
}

// chooseInt offers values as a free choice.
func chooseInt(x *sim.Exec, label string, vals ...int) int {
	var d []string
	for _, v := range vals {
		d = append(d, fmt.Sprint(v))
	}
	return vals[x.C.ChooseN(label, "", d...)]
}

func upTo(lo, hi int) []int {
	var r []int
	for i := lo; i <= hi; i++ {
		r = append(r, i)
	}
	return r
}

// until drives the world for at most d.
func (e *env) until(d time.Duration, stop func() bool) bool {
	old := e.w.Horizon
	e.w.Horizon = d
	defer func() { e.w.Horizon = old }()
	return e.w.Run(stop)
}

func (e *env) allComplete() bool {
	for _, l := range e.logs {
		if !e.complete(l) {
			return false
		}
	}
	return true
}

// converge restarts the ingester with everything working and demands that all
// of every log is ingested.
func (e *env) converge(batch int, key string) {
	if e.x.Failed() {
		return
	}
	e.faultsFor = nil
	e.w.FaultFilter = nil
	e.w.CrashProcs = nil
	e.w.Redis.Reject = nil
	for _, p := range e.w.Procs() {
		if !p.Finished() {
			e.w.Kill(p, false)
		}
	}
	e.fetch(runOpt{forever: true, batch: batch})
	if !e.until(3*24*time.Hour, func() bool { return e.x.Failed() || e.allComplete() }) && !e.x.Failed() {
		e.x.Fail(key, "three days after everything worked again progress is only %s", e.stateString())
	}
}

// transient are the answers an honest log may give.
func transient(l *ctLog, kind string) []string {
	common := []string{"conn", "500", "garbage", "trunc", "hang"}
	switch kind {
	case "get-sth", "checkpoint":
		if kind == "checkpoint" {
			return append(common, "cp-stale")
		}
		return append(common, "sth-stale")
	case "get-sth-consistency":
		return append(common, "429")
	case "get-entries":
		return append(common, "429", "only-one", "half", "none")
	case "data", "tile", "issuer":
		return append(common, "429", "404")
	}
	return nil
}

// tampered are the ways a dishonest log or network may answer.
func tampered(l *ctLog, kind string) []string {
	var r []string
	switch kind {
	case "get-sth":
		r = []string{"sth-ts", "sth-size", "sth-smaller", "sth-sig", "sth-root", "sth-otherkey"}
	case "get-sth-consistency":
		r = []string{"proof-drop", "proof-drop-last", "proof-extra", "proof-reverse", "proof-empty"}
		for i := 0; i < 4; i++ {
			r = append(r, fmt.Sprintf("proof-flip%d", i), fmt.Sprintf("proof-short%d", i))
		}
	case "checkpoint":
		r = []string{"cp-otherkey", "cp-ts", "cp-size", "cp-root", "cp-nosig"}
	case "data":
		r = []string{"cut", "long"}
		for _, k := range []string{"ts", "serial", "other", "cut", "drop"} {
			for j := 0; j < 6; j++ {
				r = append(r, fmt.Sprintf("alter-%s-%d", k, j))
			}
		}
	case "tile":
		r = []string{"cut", "long"}
		for j := 0; j < 6; j++ {
			r = append(r, fmt.Sprintf("hash-%d", j))
		}
	case "issuer":
		r = []string{"issuer-other", "issuer-garbage", "issuer-empty", "cut", "long"}
	case "get-entries":
		r = []string{"skip-first", "repeat", "swap", "reverse", "extra"}
		for _, k := range []string{"ts", "body", "serial", "other", "tls", "type", "ext", "empty", "chain"} {
			for j := 0; j < 4; j++ {
				r = append(r, fmt.Sprintf("alter-%s-%d", k, j))
			}
		}
	}
	return r
}

// undecodable answers hold entries that cannot be decoded.
func undecodable(l *ctLog, kind string) []string {
	var r []string
	if kind == "get-entries" {
		for _, k := range []string{"tls", "empty", "chain"} {
			for j := 0; j < 8; j++ {
				r = append(r, fmt.Sprintf("alter-%s-%d", k, j))
			}
		}
	}
	return r
}

// only keeps faults on requests of the given kinds.
func only(f func(*ctLog, string) []string, kinds ...string) func(*ctLog, string) []string {
	return func(l *ctLog, kind string) []string {
		for _, k := range kinds {
			if strings.HasSuffix(kind, k) {
				return f(l, kind)
			}
		}
		return nil
	}
}

type logMaker func(specs []spec) *ctLog

func rfcLog(specs []spec) *ctLog { return newLog("rfc", 1, false, 3600, specs) }

func sizesScenario(name string, mk logMaker, sizes, batches []int, minSize int, both bool) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Run: func(x *sim.Exec) {
		n := chooseInt(x, "size", sizes...)
		batch := chooseInt(x, "batch", batches...)
		forever := true
		if both {
			forever = x.C.ChooseN("mode", "", "one-shot", "forever") == 1
		}
		l := mk(mixed(n))
		e := newEnv(x, l)
		defer e.done()
		e.w.NoStates = true
		if forever {
			e.fetch(runOpt{forever: true, batch: batch})
			e.until(2*24*time.Hour, func() bool { return x.Failed() || e.complete(l) })
			e.until(time.Hour, func() bool { return x.Failed() })
		} else {
			for i := 0; i < n+4 && !x.Failed(); i++ {
				p := e.fetch(runOpt{batch: batch})
				if !e.w.RunAll(p) {
					x.Fail("C12-stuck", "a one-shot run never ended")
					break
				}
				time.Sleep(11 * time.Minute)
			}
		}
		if n >= minSize && !x.Failed() && !e.complete(l) {
			x.Fail(l.pre("incomplete"), "size %d batch %d: the log was available all along but progress is only %s", n, batch, e.stateString())
		}
		x.Outcome = fmt.Sprint(n, batch, forever, e.stateString())
	}}
}

// answersScenario: the requests that the ingester makes meet the given faults.
func answersScenario(name string, mk logMaker, sizes, batches []int, faults func(*ctLog, string) []string, budget int, restart bool) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: b("fault", budget), Total: budget, Run: func(x *sim.Exec) {
		n := chooseInt(x, "size", sizes...)
		batch := chooseInt(x, "batch", batches...)
		l := mk(mixed(n))
		e := newEnv(x, l)
		defer e.done()
		e.w.NoStates = true
		e.faultsFor = faults
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, f []string) []string {
			if kind == "http" {
				return f
			}
			return nil
		}
		e.noStored = restart && !l.tiled // entries of an altered batch may be recorded, but never as progress
		p := e.fetch(runOpt{forever: true, batch: batch})
		stop := func() bool { return x.Failed() || e.complete(l) }
		if !restart {
			if !e.until(3*24*time.Hour, stop) && !x.Failed() {
				x.Fail(l.pre("incomplete"), "size %d batch %d: after a temporary failure progress is only %s", n, batch, e.stateString())
			}
		} else {
			e.until(2*time.Hour, stop)
			x.Outcome = e.stateString()
			if !e.complete(l) {
				p.Signal(syscall.SIGTERM)
				if !e.until(time.Hour, p.Finished) && !x.Failed() {
					x.Fail("C12-stuck", "the ingester did not stop")
				}
				if p.Panic != nil {
					x.Fail("C12-crash", "the ingester crashed: %v", p.Panic)
				}
				e.converge(batch, l.pre("incomplete"))
			}
		}
		x.Outcome += fmt.Sprint(n, batch, e.stateString(), time.Since(base)/time.Minute)
	}}
}

// restartScenario: the ingester is stopped (SIGTERM) or killed at any point,
// any number of times within the budget.
func restartScenario(name string, mk logMaker, sizes, batches []int, budget int) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: b("crash", budget, "fault", budget), Total: budget, Run: func(x *sim.Exec) {
		n := chooseInt(x, "size", sizes...)
		batch := chooseInt(x, "batch", batches...)
		l := mk(mixed(n))
		e := newEnv(x, l)
		defer e.done()
		e.w.NoStates = true
		var p *sim.Proc
		e.w.Events = map[string]func(){"EVterm": func() { p.Signal(syscall.SIGTERM) }}
		termed := false
		e.w.FaultFilter = func(q *sim.Proc, kind, desc string, f []string) []string {
			if q == p && !termed {
				return []string{"EVterm"}
			}
			return nil
		}
		for i := 0; i <= budget && !x.Failed() && !e.complete(l); i++ {
			termed = false
			e.w.Events["EVterm"] = func() { termed = true; p.Signal(syscall.SIGTERM) }
			p = e.fetch(runOpt{forever: true, batch: batch})
			e.w.CrashProcs = map[*sim.Proc]bool{p: true}
			e.until(2*24*time.Hour, func() bool { return x.Failed() || p.Finished() || e.complete(l) })
			if x.Failed() {
				return
			}
			if !p.Finished() && termed && !e.complete(l) {
				x.Fail("C12-stuck", "the ingester did not stop within two days of SIGTERM")
				return
			}
			if p.Panic != nil {
				x.Fail("C12-crash", "the ingester crashed: %v", p.Panic)
				return
			}
			x.Outcome += e.stateString() + fmt.Sprint(p.ExitCode, termed)
			if p.Finished() && termed && p.Exited && p.ExitCode != 0 {
				x.Fail("C12-exit", "stopped by SIGTERM the ingester exited with %d", p.ExitCode)
			}
		}
		e.converge(batch, l.pre("incomplete"))
	}}
}

// growthScenario: the log grows by a chosen amount before each tree head.
func growthScenario(name string, mk logMaker, start, grow, batches []int, polls int) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Run: func(x *sim.Exec) {
		n0 := chooseInt(x, "start", start...)
		batch := chooseInt(x, "batch", batches...)
		total := n0
		var by []int
		for i := 0; i < polls; i++ {
			by = append(by, chooseInt(x, fmt.Sprintf("growth %d", i+1), grow...))
			total += by[i]
		}
		all := mixed(total)
		l := mk(all[:n0])
		e := newEnv(x, l)
		defer e.done()
		e.w.NoStates = true
		k := 0
		first := true
		e.onRequest = func(l *ctLog, kind string) {
			if kind != "get-sth" && kind != "checkpoint" {
				return
			}
			if first {
				first = false
				return
			}
			if k < len(by) {
				for j := 0; j < by[k]; j++ {
					// the timestamps are up to the merge delay old
					s := all[len(l.entries)]
					s.ts = time.Now().Add(-time.Duration(j%3) * 25 * time.Minute)
					l.add(s)
				}
				l.size += uint64(by[k])
				k++
			}
		}
		e.fetch(runOpt{forever: true, batch: batch})
		if !e.until(4*24*time.Hour, func() bool { return x.Failed() || k == len(by) && e.complete(l) }) && !x.Failed() && (l.tiled || total > 3) && total > 0 {
			x.Fail(l.pre("incomplete"), "start %d growth %v batch %d: the log was available all along but progress is only %s", n0, by, batch, e.stateString())
		}
		e.until(time.Hour, func() bool { return x.Failed() })
		x.Outcome = fmt.Sprint(n0, by, batch, e.stateString())
	}}
}

// outage makes Redis refuse writes, or everything, for a time.
func (e *env) outage(d time.Duration, all bool) {
	end := time.Now().Add(d)
	e.w.Redis.Reject = func(p *sim.Proc, args []string) string {
		if time.Now().After(end) || !all && sim.ReadOnly(args[0]) {
			return ""
		}
		if all {
			return "-LOADING Redis is loading the dataset in memory\r\n"
		}
		return "-OOM command not allowed when used memory > 'maxmemory'.\r\n"
	}
}

// redisScenario: Redis commands of the ingester fail or are slow.
func redisScenario(name string, mk logMaker, sizes, batches []int, budget int) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: b("fault", budget), Total: budget, Run: func(x *sim.Exec) {
		n := chooseInt(x, "size", sizes...)
		batch := chooseInt(x, "batch", batches...)
		l := mk(mixed(n))
		e := newEnv(x, l)
		defer e.done()
		e.w.NoStates = true
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, f []string) []string {
			if kind == "redis" {
				return append([]string{"PAUSE3m", "PAUSE40m", "EVfull1m", "EVfull30m", "EVdown30m"}, f...)
			}
			return nil
		}
		e.w.Events = map[string]func(){"EVfull1m": func() { e.outage(time.Minute, false) }, "EVfull30m": func() { e.outage(30*time.Minute, false) }, "EVdown30m": func() { e.outage(30*time.Minute, true) }}
		p := e.fetch(runOpt{forever: true, batch: batch})
		e.until(8*time.Hour, func() bool { return x.Failed() || p.Finished() || e.complete(l) })
		x.Outcome = fmt.Sprint(n, batch, e.stateString(), time.Since(base)/time.Minute)
		if !e.complete(l) {
			e.converge(batch, l.pre("incomplete"))
		}
	}}
}

// as reports progress violations under another property.
func as(prop string, mk logMaker) logMaker {
	return func(specs []spec) *ctLog {
		l := mk(specs)
		l.prop = prop
		return l
	}
}

func tiledLog(specs []spec) *ctLog { return newLog("tiled", 2, true, 3600, specs) }

func scenarios(prop string) []*sim.Scenario {
	switch prop {
	case "C29":
		return followScenarios()
	case "C28":
		return healthScenarios()
	case "C08":
		return []*sim.Scenario{
			answersScenario("tamper-entries", rfcLog, upTo(4, pick(8, 14)), []int{2, 4, 8}, only(tampered, "get-entries"), 1, true),
			answersScenario("tamper-entries-twice", rfcLog, []int{5}, []int{2, 4}, only(tampered, "get-entries"), 2, true),
			answersScenario("tamper-proofs", rfcLog, upTo(4, pick(9, 20)), []int{2, 3, 4, 8}, only(tampered, "consistency"), 1, true),
			answersScenario("tamper-heads", rfcLog, upTo(4, pick(7, 12)), []int{2, 4}, only(tampered, "get-sth"), pick(1, 2), true),
			answersScenario("tamper-two", rfcLog, []int{6}, []int{4}, tampered, pick(2, 3), true),
			sizesScenario("honest-sizes", as("C08", rfcLog), upTo(0, pick(17, 40)), []int{1, 2, 3, 4, 5, 7, 8, 16}, 4, false),
		}
	case "C09":
		return []*sim.Scenario{
			sizesScenario("sizes", rfcLog, upTo(0, pick(12, 40)), []int{1, 2, 3, 4, 8, 16}, 4, true),
			answersScenario("answers", rfcLog, []int{5, 9}, []int{2, 4}, transient, pick(2, 3), false),
			restartScenario("restarts", rfcLog, []int{7}, []int{2, 4}, pick(2, 3)),
			growthScenario("growth", rfcLog, []int{0, 1, 4, 7}, []int{0, 1, 2, 5}, []int{1, 2, 4}, pick(3, 5)),
			answersScenario("undecodable", rfcLog, []int{5, 9}, []int{2, 4, 8}, undecodable, pick(1, 2), true),
			redisScenario("redis", rfcLog, []int{7}, []int{2, 4}, pick(1, 2)),
			mixScenario("restart-answers", rfcLog, []int{6}, []int{2, 4}, pick(2, 3)),
		}
	case "C10":
		return []*sim.Scenario{
			sizesScenario("sizes", tiledLog, upTo(0, 6), []int{1, 2, 3, 4, 8}, 1, true),
			sizesScenario("tile-sizes", tiledLog, []int{255, 256, 257, 258, 300, 511, 512, 513}, []int{100, 256, 1000}, 0, true),
			answersScenario("answers", tiledLog, []int{1, 2, 5}, []int{2, 4}, transient, pick(2, 3), false),
			answersScenario("answers-tiles", tiledLog, []int{257}, []int{64, 300}, transient, pick(1, 2), false),
			answersScenario("tamper", tiledLog, []int{1, 2, 5}, []int{2, 4}, tampered, pick(2, 3), true),
			answersScenario("tamper-tiles", tiledLog, []int{257}, []int{64, 300}, tampered, pick(1, 2), true),
			restartScenario("restarts", tiledLog, []int{5}, []int{2, 4}, pick(2, 3)),
			growthScenario("growth", tiledLog, []int{0, 1, 3}, []int{0, 1, 2, 5}, []int{1, 2, 4}, pick(3, 5)),
			growthScenario("growth-tiles", tiledLog, []int{253, 256}, []int{0, 1, 3, 4}, []int{64, 1000}, pick(2, 3)),
			redisScenario("redis", tiledLog, []int{5}, []int{2, 4}, pick(1, 2)),
			mixScenario("restart-answers", tiledLog, []int{4}, []int{2, 4}, pick(2, 3)),
		}
	case "C11":
		return kindScenarios()
	case "C12":
		return runScenarios()
	}
	return nil
}

// mixScenario: answers fail and the ingester is killed, in any combination
// within the budget, twice.
func mixScenario(name string, mk logMaker, sizes, batches []int, budget int) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: b("crash", budget, "fault", budget), Total: budget, Run: func(x *sim.Exec) {
		n := chooseInt(x, "size", sizes...)
		batch := chooseInt(x, "batch", batches...)
		l := mk(mixed(n))
		e := newEnv(x, l)
		defer e.done()
		e.w.NoStates = true
		e.faultsFor = func(l *ctLog, kind string) []string {
			f := transient(l, kind)
			if len(f) > 0 {
				f = append([]string{"conn", "garbage"}, f[5:]...)
			}
			return f
		}
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, f []string) []string {
			if kind == "http" {
				return f
			}
			if kind == "redis" {
				return []string{"DROPPED-REPLY", "PAUSE40m"}
			}
			return nil
		}
		for i := 0; i < budget && !x.Failed() && !e.complete(l); i++ {
			p := e.fetch(runOpt{forever: true, batch: batch})
			e.w.CrashProcs = map[*sim.Proc]bool{p: true}
			e.until(12*time.Hour, func() bool { return x.Failed() || p.Finished() || e.complete(l) })
			if p.Panic != nil {
				x.Fail("C12-crash", "the ingester crashed: %v", p.Panic)
				return
			}
			x.Outcome += e.stateString() + fmt.Sprint(p.Finished())
			if !p.Finished() && !e.complete(l) {
				e.w.Kill(p, false)
			}
		}
		e.converge(batch, l.pre("incomplete"))
	}}
}
