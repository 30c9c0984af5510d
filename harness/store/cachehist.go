package main

// C04: histories of ingestion, restarts, commits and cache loss.

import (
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"
	sim "github.com/mozilla/crlite/go/verifsim"
)

func (e *env) histLogs() {
	b := e.base
	I1, I2 := issuerID(1), issuerID(2)
	E1, E2 := e.at(1000), e.at(2000)
	var a, c []*entry
	for i := 0; i < 16; i++ {
		iss, exp := I1, E1
		if i%3 == 1 {
			iss = I2
		}
		if i%4 == 3 {
			exp = E2
		}
		a = append(a, mk(b+uint64(i)*hour/2, iss, exp, 0x10, byte(i)))
		if i < 8 {
			c = append(c, mk(b+uint64(i)*hour, iss, E1, 0x20, byte(i)))
		}
	}
	e.addLog("alpha", 0x11, 3600, a)
	e.addLog("beta", 0x22, 7200, c)
}

// cachedStates lists the log states in the cache.
func (e *env) cachedStates() []string {
	var r []string
	for _, k := range e.w.Redis.Keys("log::") {
		v, _ := e.w.Redis.Get(k)
		var s types.CTLogState
		fatalIf(json.Unmarshal([]byte(v), &s))
		r = append(r, canonState(s))
	}
	sort.Strings(r)
	return r
}

func (e *env) diskStates() []string {
	var r []string
	for _, s := range e.readDisk().logs {
		r = append(r, canonState(s))
	}
	sort.Strings(r)
	return r
}

// cacheRewound: the cache has just been replaced; work out what that lost.
func (e *env) cacheRewound() {
	e.wipes++
	d := e.readDisk()
	for _, l := range e.logs {
		for _, en := range l.entries {
			if e.stored[en] && !onDisk(d, en) && !e.inCache(en) {
				e.lost[en] = true
				if (!d.hasLogs || e.commits == 0) && e.busy[l.name] > 0 {
					e.lossEarly[en] = true
				}
			}
		}
	}
}

// positionsReset: a restart resumes from the coverage in storage. Entries it
// skips that were lost with the cache, and were not covered, stay lost.
func (e *env) positionsReset() {
	for _, s := range e.readDisk().logs {
		l := e.logByID(s.LogID)
		if l == nil {
			continue
		}
		for _, en := range l.entries {
			if e.lost[en] && en.idx >= s.MinEntry && en.idx <= s.MaxEntry && en.ts > cutoff(s) {
				e.lossOK[en] = true
			}
		}
	}
}

func (e *env) filesDigest() string {
	f := e.w.Files("")
	var n []string
	for k := range f {
		n = append(n, k)
	}
	sort.Strings(n)
	var p []string
	for _, k := range n {
		if strings.HasPrefix(k[strings.LastIndex(k, "/")+1:], ".") {
			continue // temporary files
		}
		p = append(p, k, f[k])
	}
	return fmt.Sprintf("%x", sim.Hash(p...))
}

// batch ingests n more entries of every log on a running ingester. A log
// without saved progress starts at its current head.
func (e *env) batch(p *sim.Proc, db *storage.CertDatabase, n uint64) {
	for _, l := range e.logs {
		u, _ := url.Parse(l.url)
		e.busy[l.name]++
		st, err := db.GetLogState(u)
		if err != nil {
			p.Err = err
			return
		}
		upto := st.MaxEntry + 1 + n
		if st.LastUpdateTime.IsZero() {
			upto = e.head[l.name] + n
			if e.startAtHead {
				e.ingestFrom(p, db, l, st, e.head[l.name], min(upto, uint64(len(l.entries))), n)
				e.head[l.name] = max(e.head[l.name], upto)
				e.busy[l.name]--
				continue
			}
		}
		upto = min(upto, uint64(len(l.entries)))
		e.ingest(p, db, l, st, upto, n)
		e.head[l.name] = max(e.head[l.name], upto)
		e.busy[l.name]--
	}
}

type hist struct {
	e             *env
	ing           *storage.CertDatabase
	ingProc       *sim.Proc
	snap0         *sim.Snapshot
	snapPrev      *sim.Snapshot
	storageN      int // commits that reached storage
	cacheN        int // commits the cache remembers, -1: unknown
	snap0N, prevN int
	op            int
	killedAt      int // the operation at which the last commit was killed, if none completed since
	prevAt        int // the operation at which snapPrev was taken
}

// run executes f on the ingester's process or a new one.
func (h *hist) on(name string, f func(p *sim.Proc)) *sim.Proc {
	p := h.e.spawn(name, f)
	if !h.e.w.RunAll(p) && !h.e.x.Failed() {
		h.e.x.Fail("C04-stuck", "%s never finished", name)
	}
	return p
}

func (h *hist) agree() bool   { return h.cacheN == h.storageN }
func (h *hist) unknown() bool { return h.cacheN < 0 } // a commit died half-way

func (h *hist) restart() {
	e := h.e
	before, agreed := e.w.Redis.Dump(), h.agree()
	want := e.diskStates()
	files := e.filesDigest()
	p := h.on("F", func(p *sim.Proc) {
		_, db, err := e.open(true)
		if err == nil {
			err = db.EnsureCacheIsConsistent()
		}
		if err == nil {
			e.positionsReset()
		}
		h.ing, p.Err = db, err
	})
	if p.Err != nil {
		e.x.Fail("C04-restart-failed", "restart failed: %v", p.Err)
		return
	}
	if h.unknown() && e.w.Redis.Dump() == before {
		// taken to agree
	} else if agreed {
		if e.w.Redis.Dump() != before {
			e.x.Fail("C04-agreeing-cache-reset", "a restart changed a cache that agrees with storage (%d commits)", h.storageN)
		}
	} else {
		got := e.cachedStates()
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			e.x.Fail("C04-not-reset", "after a restart with a cache that disagrees with storage (%d vs %d commits) the cached log states are\n%s\nbut storage has\n%s", h.cacheN, h.storageN, strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
	}
	if e.filesDigest() != files {
		e.x.Fail("C04-restart-touched-storage", "restarting the ingester changed storage")
	}
	h.cacheN = h.storageN
	h.on("I", func(p *sim.Proc) { e.batch(p, h.ing, 2) })
}

func (h *hist) more() {
	e := h.e
	p := h.on("I", func(p *sim.Proc) { e.batch(p, h.ing, 1) })
	if p.Err != nil {
		e.x.Logf("I: %v", p.Err)
	}
}

func (h *hist) commit(killAt string) {
	e := h.e
	files, agreed := e.filesDigest(), h.agree()
	h.snapPrev, h.prevN, h.prevAt = e.w.Redis.Save(), h.cacheN, h.op
	p := e.spawn("C", func(p *sim.Proc) { e.committer(p, true) })
	if killAt != "" {
		fired := false
		e.w.Before = func(q *sim.Proc, desc string) bool {
			if q == p && !fired && strings.Contains(desc, killAt) {
				fired = true
				return true
			}
			return false
		}
	}
	if !e.w.RunAll(p) && !e.x.Failed() {
		e.x.Fail("C04-stuck", "commit never finished")
	}
	e.w.Before = nil
	if p.Dead() {
		h.storageN++
		h.cacheN = -1
		h.killedAt = h.op
		// the lock lapses
		h.on("T", func(p *sim.Proc) { time.Sleep(5 * time.Hour) })
		return
	}
	if h.unknown() && p.Err == nil {
		h.cacheN, agreed = h.storageN, true
	}
	if agreed {
		if p.Err != nil {
			e.x.Fail("C04-commit-refused", "a commit with agreeing cache and storage fails: %v", p.Err)
			return
		}
		h.storageN++
		h.cacheN++
		h.killedAt = 0
		if a, b := strings.Join(e.cachedStates(), "\n"), strings.Join(e.diskStates(), "\n"); a != b {
			e.x.Fail("C04-coverage-differs", "after a commit storage covers\n%s\nbut the saved progress is\n%s", b, a)
		}
		return
	}
	if e.filesDigest() != files {
		e.x.Fail("C04-commit-not-refused", "a commit changed storage although the cache (%d commits) disagrees with it (%d)", h.cacheN, h.storageN)
	} else if p.Err == nil {
		e.x.Fail("C04-commit-not-refused", "a commit succeeded although the cache (%d commits) disagrees with storage (%d)", h.cacheN, h.storageN)
	}
}

// rolledBack: an older cache after a commit that died between publishing the
// coverage and the epoch cannot be told from the right one.
func (h *hist) rolledBack(at int) {
	if at <= h.killedAt && h.killedAt > 0 {
		h.cacheN = -1
	}
}

func cacheHistory(depth int) *sim.Scenario {
	ops := []string{"restart", "ingest", "commit", "wipe", "rollback-first", "rollback-prev", "commit-killed-mid-epoch"}
	return &sim.Scenario{Name: fmt.Sprintf("histories-%d", depth), Bubble: true, Run: func(x *sim.Exec) {
		e := newEnv(x, "h")
		defer e.done()
		e.histLogs()
		e.startAtHead = true
		e.strict = true
		e.coveredKey = "C04-covered-not-stored"
		h := &hist{e: e}
		h.restart()
		h.snap0, h.snapPrev = e.w.Redis.Save(), e.w.Redis.Save()
		for i := 0; i < depth && !x.Failed(); i++ {
			alts := make([]sim.Alt, len(ops))
			for j, o := range ops {
				alts[j] = sim.Alt{Desc: o}
			}
			op := ops[x.C.Choose(fmt.Sprintf("operation %d", i), alts)]
			x.Logf("--- %s (storage %d commits, cache %d)", op, h.storageN, h.cacheN)
			h.do(op)
		}
		if !x.Failed() {
			// the documented remedy always works
			h.restart()
			h.commit("")
		}
		x.Outcome = e.outcome()
	}}
}

func (h *hist) do(op string) {
	e := h.e
	h.op++
	switch op {
	case "restart":
		h.restart()
	case "ingest":
		h.more()
	case "commit":
		h.commit("")
	case "commit-killed-mid-epoch":
		if !h.agree() {
			h.commit("")
			return
		}
		h.commit("-> epoch")
	case "wipe":
		e.w.Redis.Wipe()
		h.cacheN = 0
		e.cacheRewound()
	case "rollback-first":
		e.w.Redis.Load(h.snap0)
		h.cacheN = h.snap0N
		h.rolledBack(0)
		e.cacheRewound()
	case "rollback-prev":
		e.w.Redis.Load(h.snapPrev)
		h.cacheN = h.prevN
		h.rolledBack(h.prevAt)
		e.cacheRewound()
	}
	e.invariants(op)
}

// lossDuring: the cache is lost, or a process dies or fails, at any step of a
// commit or restart.
func lossDuring(name string, commits int, what string, o histOpt) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: o.budget, Total: o.total, Thorough: o.thorough, Run: func(x *sim.Exec) {
		e := newEnv(x, "l")
		defer e.done()
		e.histLogs()
		e.startAtHead = true
		e.strict = true
		e.coveredKey = "C04-covered-not-stored"
		h := &hist{e: e}
		h.restart()
		for i := 0; i < commits; i++ {
			h.commit("")
			h.more()
			h.more()
		}
		lossAt := false
		e.w.Events = map[string]func(){"EVWIPE": func() {
			e.w.Redis.Wipe()
			lossAt = true
			if e.commits == 0 {
				e.regressKey = "cache-lost-before-first-commit"
			}
			e.cacheRewound()
		}}
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, faults []string) []string {
			if o.faults {
				if kind == "redis" && !strings.HasPrefix(desc, "multi") && !strings.HasPrefix(desc, "exec") {
					faults = append([]string{"STICKY"}, faults...)
				}
				return append([]string{"EVWIPE"}, faults...)
			}
			return []string{"EVWIPE"}
		}
		progress := func() map[string]uint64 {
			m := map[string]uint64{}
			for _, k := range e.w.Redis.Keys("log::") {
				v, _ := e.w.Redis.Get(k)
				var s types.CTLogState
				fatalIf(json.Unmarshal([]byte(v), &s))
				m[s.LogID] = s.MaxEntry
			}
			return m
		}
		had := progress()
		var ps []*sim.Proc
		restartProc := func() *sim.Proc {
			return e.spawn("F", func(p *sim.Proc) {
				_, db, err := e.open(true)
				if err == nil {
					err = db.EnsureCacheIsConsistent()
				}
				p.Err = err
				if err == nil {
					e.positionsReset()
					h.ing = db
					e.batch(p, db, 1)
				}
			})
		}
		e.w.Power = o.power
		e.w.Sched = o.sched
		if strings.Contains(what, "commit") {
			c := e.spawn("C", func(p *sim.Proc) { e.committer(p, false) })
			ps = append(ps, c)
			if o.crash {
				e.w.CrashProcs[c] = true
			}
		}
		if strings.Contains(what, "wiped") {
			e.w.Redis.Wipe()
			e.cacheRewound()
			lossAt = true
		}
		var f *sim.Proc
		if strings.Contains(what, "restart") {
			f = restartProc()
			ps = append(ps, f)
			if o.crash {
				e.w.CrashProcs[f] = true
			}
		}
		if strings.Contains(what, "ingest") {
			db := h.ing
			ps = append(ps, e.spawn("I", func(p *sim.Proc) { e.batch(p, db, 1) }))
		}
		if !e.w.RunAll(ps...) && !x.Failed() {
			x.Fail("C04-stuck", "never finished")
		}
		e.w.FaultFilter, e.w.Events, e.w.Sched, e.w.Sticky = nil, nil, false, nil
		e.w.CrashProcs = map[*sim.Proc]bool{}
		x.Outcome = fmt.Sprint(lossAt, " ", e.outcome())
		if !lossAt && (what == "restart" || !anyFault(x)) {
			// cache and storage agreed all along
			now := progress()
			for id, n := range had {
				if m, ok := now[id]; !ok || m < n {
					x.Fail("C04-agreeing-cache-reset", "a cache that agrees with storage was reset: log %s went from entry %d back to %d", id, n, m)
				}
			}
		}
		if x.Failed() {
			return
		}
		// without a restart: a commit either is refused or leaves coverage intact
		c := e.spawn("C2", func(p *sim.Proc) { e.committer(p, true) })
		e.w.RunAll(c)
		if f != nil && f.Err == nil && !f.Dead() && !f.Exited && c.Err != nil && !lossAt && !anyFault(x) {
			x.Fail("C04-commit-refused", "a commit after a successful restart fails: %v", c.Err)
		}
		x.Outcome += fmt.Sprint(" C2:", c.Err != nil)
		// the remedy: restart, ingest, commit
		for i := 0; i < 2 && !x.Failed(); i++ {
			f := restartProc()
			e.w.RunAll(f)
			if f.Err != nil {
				x.Fail("C04-restart-failed", "restart fails: %v", f.Err)
			}
			h.on("I", func(p *sim.Proc) { e.batch(p, h.ing, 4) })
			c := e.spawn("C3", func(p *sim.Proc) { e.committer(p, true) })
			e.w.RunAll(c)
			if c.Err != nil {
				x.Fail("C04-commit-refused", "the commit after a restart fails: %v", c.Err)
			}
			if a, b := strings.Join(e.cachedStates(), "\n"), strings.Join(e.diskStates(), "\n"); a != b {
				x.Fail("C04-coverage-differs", "after a commit storage covers\n%s\nbut the saved progress is\n%s", b, a)
			}
		}
		x.Outcome += " || " + e.outcome()
	}}
}

func anyFault(x *sim.Exec) bool {
	for _, p := range x.C.Points {
		if c := p.Alts[p.Pick].Class; c == "fault" || c == "crash" {
			return true
		}
	}
	return false
}

func cacheScenarios() []*sim.Scenario {
	b := func(kv ...any) map[string]int {
		m := map[string]int{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1].(int)
		}
		return m
	}
	d := 5
	if sim.Thorough() {
		d = 6
	}
	s := []*sim.Scenario{cacheHistory(d)}
	for c := 0; c <= 2; c++ {
		n := fmt.Sprint(c)
		s = append(s,
			lossDuring("commit-"+n, c, "commit", histOpt{faults: true, crash: true, budget: b("fault", 1, "crash", 1), total: 1}),
			lossDuring("restart-"+n, c, "restart", histOpt{faults: true, crash: true, budget: b("fault", 1, "crash", 1), total: 1}),
			lossDuring("wiped-restart-"+n, c, "wiped restart", histOpt{faults: true, crash: true, budget: b("fault", 1, "crash", 1), total: 1}),
			lossDuring("commit-restart-"+n, c, "commit restart", histOpt{sched: true, crash: true, budget: b("preempt", 2, "crash", 1), total: 2}),
			lossDuring("commit-ingest-"+n, c, "commit ingest", histOpt{sched: true, budget: b("preempt", 1, "fault", 1), total: 2, thorough: c != 1}),
			lossDuring("commit-restart-faults-"+n, c, "commit restart", histOpt{sched: true, crash: true, faults: true, budget: b("preempt", 2, "crash", 1, "fault", 1), total: 2, thorough: true}),
		)
	}
	return s
}
