package main

// C12: runs, enrolment, shutdown.

import (
	"fmt"
	"strings"
	"syscall"
	"time"

	sim "github.com/mozilla/crlite/go/verifsim"
)

func someLogs(n int, size int) []*ctLog {
	var r []*ctLog
	for i := 0; i < n; i++ {
		r = append(r, newLog([]string{"one", "two", "three"}[i], 11+i, i == 1, 3600, mixed(size+i)))
		r[i].prop = "C12"
	}
	return r
}

// pace chooses which of a run's operations go first when nothing else decides:
// in order of arrival; or the writer's, the downloaders', or those of the main
// thread that waits for both.
func (e *env) pace() {
	orders := []map[string]int{nil, {"redis": 1, "http": 2, "sync": 3}, {"http": 1, "redis": 2, "sync": 3}, {"sync": 1, "redis": 2, "http": 2}}
	if o := orders[e.x.C.ChooseN("first", "", "any", "writer", "downloaders", "main")]; o != nil {
		e.w.InProc = func(kind, desc string) int { return o[kind] }
	}
}

// oneShot: a one-shot run over several logs, with every order of the wait
// groups' operations, Redis commands and requests within the budget.
func oneShot(name string, nlogs int, settings bool, intra int) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: b("intra", intra), Total: intra, Run: func(x *sim.Exec) {
		logs := someLogs(nlogs, 4)
		e := newEnv(x, logs...)
		defer e.done()
		e.w.NoStates = true
		e.w.SyncPoints = true
		e.w.Intra = true
		e.pace()
		var bad []int
		if settings {
			bad = []int{0, 1, 2}
		} else {
			bad = []int{0, 1, 2, 3}
		}
		// what else is in the list
		extra := chooseInt(x, "also", bad...)
		var list []map[string]any
		for _, l := range logs {
			list = append(list, l.metadata(true))
		}
		switch extra {
		case 1: // a log that cannot be reached
			d := newLog("down", 20, false, 3600, mixed(5))
			d.down = true
			list = append([]map[string]any{d.metadata(true)}, list...)
		case 2: // a log that is not enrolled
			d := newLog("off", 21, false, 3600, mixed(5))
			e.logs = append(e.logs, d)
			list = append(list, d.metadata(false))
		case 3: // a log whose key is unusable
			d := newLog("keyless", 22, true, 3600, mixed(5))
			m := d.metadata(true)
			m["key"] = "bm9uc2Vuc2U="
			list = append([]map[string]any{m}, list...)
		}
		opt := runOpt{batch: 64, settings: settings, local: list}
		if settings {
			e.settings = func() *reply { return jsonReply(map[string]any{"data": list}) }
		}
		p := e.fetch(opt)
		if !e.until(24*time.Hour, p.Finished) && !x.Failed() {
			x.Fail("C12-stuck", "the one-shot run never ended")
			return
		}
		if x.Failed() {
			return
		}
		if p.Panic != nil {
			x.Fail("C12-crash", "the ingester crashed: %v", p.Panic)
			return
		}
		if p.ExitCode != 0 {
			x.Fail("C12-exit", "the one-shot run exited with %d", p.ExitCode)
			return
		}
		x.Outcome = fmt.Sprint(extra, e.stateString())
		for _, l := range logs {
			if !e.complete(l) {
				x.Fail("C12-early-exit", "the one-shot run ended successfully with %s", e.stateString())
				return
			}
		}
		for _, l := range e.logs {
			if l.name == "off" && l.requests > 0 {
				x.Fail("C12-not-enrolled", "a log that is not enrolled was contacted")
			}
		}
	}}
}

// shutdown: a run over several logs is told to stop before any operation.
func shutdown(name string, nlogs, size, batch int, forever bool, intra int) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: b("fault", 1, "intra", intra), Total: 1 + intra, Run: func(x *sim.Exec) {
		logs := someLogs(nlogs, size)
		e := newEnv(x, logs...)
		defer e.done()
		e.w.NoStates = true
		e.w.SyncPoints = true
		e.w.Intra = intra > 0
		e.pace()
		termed := false
		var p *sim.Proc
		e.w.Events = map[string]func(){"EVterm": func() { termed = true; p.Signal(syscall.SIGTERM) }}
		e.w.FaultFilter = func(q *sim.Proc, kind, desc string, f []string) []string {
			if !termed && q.CatchesSignals() {
				return []string{"EVterm"}
			}
			return nil
		}
		p = e.fetch(runOpt{batch: batch, forever: forever})
		e.until(24*time.Hour, func() bool { return x.Failed() || p.Finished() || e.allComplete() })
		if x.Failed() {
			return
		}
		if termed && !p.Finished() && !e.until(24*time.Hour, p.Finished) {
			x.Fail("C12-stuck", "the ingester did not stop within a day of SIGTERM")
			return
		}
		if p.Panic != nil {
			x.Fail("C12-crash", "the ingester crashed: %v", p.Panic)
			return
		}
		x.Outcome = fmt.Sprint(termed, p.ExitCode, e.stateString())
		if p.Finished() && p.ExitCode != 0 {
			x.Fail("C12-exit", "the ingester exited with %d", p.ExitCode)
			return
		}
		e.converge(batch, "C12-gap")
	}}
}

// enrolment: the Remote Settings list changes at every update.
func enrolment(name string, updates int, busy bool) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Run: func(x *sim.Exec) {
		logs := someLogs(2, 4)
		if busy {
			logs = logs[:1]
		}
		e := newEnv(x, logs...)
		defer e.done()
		e.w.NoStates = true
		const interval = 400 * time.Second
		// the list at each update: for every log enrolled, not enrolled or absent
		status := make([]string, len(logs)) // at the last update
		enrolled := map[string]bool{}
		since := map[string]time.Time{} // when the enrolment last changed
		polls := 0
		e.settings = func() *reply {
			if polls < updates {
				switch x.C.ChooseN(fmt.Sprintf("update %d", polls), "", "list", "500", "garbage", "empty") {
				case 1:
					polls++
					return &reply{status: 500, body: []byte("no")}
				case 2:
					polls++
					return ok([]byte("[]"))
				case 3:
					polls++
					return ok([]byte("{}"))
				}
				for i, l := range logs {
					status[i] = []string{"on", "off", "absent"}[x.C.ChooseN(l.name, "", "on", "off", "absent")]
				}
			}
			polls++
			list := []map[string]any{}
			for i, l := range logs {
				switch status[i] {
				case "on":
					list = append(list, l.metadata(true))
					if !enrolled[l.name] {
						since[l.name] = time.Now()
					}
					enrolled[l.name] = true
				case "off":
					list = append(list, l.metadata(false))
					if enrolled[l.name] {
						since[l.name] = time.Now()
					}
					enrolled[l.name] = false
				}
			}
			return jsonReply(map[string]any{"data": list})
		}
		count := map[string]int{}
		stuck := busy
		e.faultsFor = nil
		e.onRequest = func(l *ctLog, kind string) {
			if l == nil || x.Failed() {
				return
			}
			if kind == "get-sth" || kind == "checkpoint" {
				count[l.name]++
			}
			if !enrolled[l.name] && (since[l.name].IsZero() || !stuck && time.Since(since[l.name]) > 30*time.Minute) {
				x.Fail("C12-not-enrolled", "%s was contacted %s after it was removed", l.name, time.Since(since[l.name]))
			}
		}
		if busy {
			// the log answers get-entries with 429 until the updates are over
			e.force = func(l *ctLog, kind string) string {
				if stuck && kind == "get-entries" {
					return "429"
				}
				return ""
			}
		}
		e.fetch(runOpt{forever: true, batch: 64, settings: true, interval: int(interval / time.Second)})
		e.until(time.Duration(updates)*interval+time.Minute, func() bool { return x.Failed() })
		stuck = false
		for n := range since {
			since[n] = time.Now()
		}
		e.until(2*time.Hour, func() bool { return x.Failed() })
		if x.Failed() {
			return
		}
		// now everything is idle: count how often each log is polled
		clear(count)
		const hours = 5
		e.until(hours*time.Hour, func() bool { return x.Failed() })
		if x.Failed() {
			return
		}
		var out []string
		for _, l := range logs {
			n := count[l.name]
			switch {
			case !enrolled[l.name] && n > 0:
				x.Fail("C12-not-enrolled", "%s is not enrolled but is still polled", l.name)
			case enrolled[l.name] && n < hours*4:
				x.Fail("C12-not-synced", "%s is enrolled but was polled only %d times in %d hours", l.name, n, hours)
			case enrolled[l.name] && n > hours*9:
				x.Fail("C12-twice", "%s was polled %d times in %d hours: more than one worker is on it", l.name, n, hours)
			case enrolled[l.name] && !e.complete(l):
				x.Fail("C12-not-synced", "%s is enrolled but progress is %s", l.name, e.stateString())
			}
			out = append(out, fmt.Sprint(l.name, enrolled[l.name], n/(hours*3)))
		}
		x.Outcome = strings.Join(out, " ") + fmt.Sprint(status) + e.stateString()
	}}
}

// oneShotAnswers: requests and Redis commands of one-shot runs fail. A run that
// ends successfully has recorded every log that it could reach throughout.
func oneShotAnswers(name string, nlogs, budget int) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: b("fault", budget), Total: budget, Run: func(x *sim.Exec) {
		logs := someLogs(nlogs, 4)
		e := newEnv(x, logs...)
		defer e.done()
		e.w.NoStates = true
		e.w.SyncPoints = true
		e.pace()
		failed := map[*ctLog]bool{}
		redisFailed := false
		e.faultsFor = transient
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, f []string) []string {
			switch kind {
			case "http":
				return f
			case "redis":
				return append([]string{"PAUSE40m"}, f...)
			}
			return nil
		}
		e.onFault = func(l *ctLog, fault string) { failed[l] = true }
		e.w.OnFault = func(p *sim.Proc, kind, fault string) {
			redisFailed = redisFailed || kind == "redis" && !strings.HasPrefix(fault, "PAUSE")
		}
		p := e.fetch(runOpt{batch: 4})
		if !e.until(48*time.Hour, p.Finished) && !x.Failed() {
			x.Fail("C12-stuck", "the one-shot run never ended")
			return
		}
		if p.Panic != nil {
			x.Fail("C12-crash", "the ingester crashed: %v", p.Panic)
			return
		}
		x.Outcome = fmt.Sprint(p.ExitCode, redisFailed, e.stateString())
		if x.Failed() || redisFailed {
			return
		}
		if p.ExitCode != 0 {
			x.Fail("C12-exit", "the one-shot run exited with %d", p.ExitCode)
			return
		}
		for _, l := range logs {
			if !failed[l] && !e.complete(l) {
				x.Fail("C12-early-exit", "the one-shot run ended successfully with %s", e.stateString())
				return
			}
		}
	}}
}

// badList: the list has an unusable log beside good ones.
func badList(name string) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Run: func(x *sim.Exec) {
		logs := someLogs(2, 4)
		e := newEnv(x, logs...)
		defer e.done()
		e.w.NoStates = true
		d := newLog("bad", 20, false, 3600, mixed(5))
		forever := x.C.ChooseN("mode", "", "one-shot", "forever") == 1
		settings := x.C.ChooseN("from", "", "local", "settings") == 1
		d.tiled = x.C.ChooseN("kind", "", "rfc", "tiled") == 1
		m := d.metadata(true)
		cases := []struct{ k, v string }{{"key", "bm9uc2Vuc2U="}, {"key", "***"}, {"key", ""}, {"url", ""}, {"url", "::"}, {"url", "bad.example"}, {"url", "http://\u007f/"}, {"logID", ""}, {"logID", "***"},
			{"logID", "AAAA"}, {"url", "https://bad.example"}, {"down", ""}}
		var names []string
		for _, c := range cases {
			names = append(names, c.k+"="+c.v)
		}
		c := cases[x.C.ChooseN("fault", "", names...)]
		if c.k == "down" {
			d.down = true
		} else {
			m[c.k] = c.v
		}
		list := []map[string]any{m}
		at := x.C.ChooseN("place", "", "first", "last")
		for _, l := range logs {
			list = append(list, l.metadata(true))
		}
		if at == 1 {
			list = append(list[1:], list[0])
		}
		opt := runOpt{batch: 64, settings: settings, local: list, forever: forever}
		if settings {
			e.settings = func() *reply { return jsonReply(map[string]any{"data": list}) }
		}
		p := e.fetch(opt)
		e.until(24*time.Hour, func() bool { return x.Failed() || p.Finished() || e.allComplete() })
		if x.Failed() {
			return
		}
		if p.Panic != nil {
			x.Fail("C12-crash", "the ingester crashed: %v", p.Panic)
			return
		}
		x.Outcome = fmt.Sprint(p.ExitCode, e.stateString())
		if !forever && !e.until(24*time.Hour, p.Finished) {
			x.Fail("C12-stuck", "the one-shot run never ended")
			return
		}
		if !e.allComplete() {
			x.Fail("C12-not-synced", "beside an unusable log (%s=%s) progress is only %s", c.k, c.v, e.stateString())
		}
	}}
}

func runScenarios() []*sim.Scenario {
	return []*sim.Scenario{
		oneShot("one-shot-1", 1, false, pick(3, 4)),
		oneShot("one-shot-3", 3, false, pick(1, 2)),
		oneShot("one-shot-settings", 2, true, pick(2, 3)),
		oneShotAnswers("one-shot-answers", 2, pick(1, 2)),
		shutdown("stop-one-shot", 2, 4, 4, false, pick(1, 2)),
		shutdown("stop-forever", 2, 4, 4, true, pick(1, 2)),
		enrolment("enrolment", pick(3, 4), false),
		enrolment("enrolment-busy", pick(4, 5), true),
		badList("bad-list"),
	}
}
