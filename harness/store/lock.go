package main

// C05: the commit lock.

import (
	"fmt"
	"strings"
	"time"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"
	sim "github.com/mozilla/crlite/go/verifsim"
)

const lockKey = "lock::commit"

// lockMon watches the lock itself and everything done in its name.
type lockMon struct {
	e            *env
	value        string
	owner        *sim.Proc
	since        time.Time
	lapses       time.Time
	ttl          bool
	last         string
	over         map[*sim.Proc]bool
	releasing    map[*sim.Proc]string // token a process is releasing
	granted      map[string]*sim.Proc // tokens handed out
	refused      map[*sim.Proc]string // process that must not change anything, and why
	ver          [2]uint64
	inconsistent bool
	dump         string
}

func newLockMon(e *env) *lockMon {
	m := &lockMon{e: e, releasing: map[*sim.Proc]string{}, granted: map[string]*sim.Proc{}, refused: map[*sim.Proc]string{}, over: map[*sim.Proc]bool{}}
	m.last = m.resetState()
	m.ver = e.w.Version()
	e.w.Redis.OnCommand = func(p *sim.Proc, args []string) { m.command(p, fmt.Sprint(p.Name, ": ", args[0])) }
	e.w.After = m.after
	return m
}

func (m *lockMon) current() string {
	v, _ := m.e.w.Redis.Get(lockKey)
	return v
}

// others is the cache content without the lock.
func (m *lockMon) others() string { return m.e.w.Redis.Others(lockKey) }

// command runs right after a command took effect, before its reply.
func (m *lockMon) command(p *sim.Proc, step string) {
	e := m.e
	if e.x.Failed() {
		return
	}
	cur := m.current()
	now := time.Now()
	if cur != m.value {
		old := m.value
		if old != "" && now.Before(m.lapses) {
			switch {
			case cur != "":
				e.x.Fail("C05-displaced", "after %q: the lock was given to another process while %s holds it", step, m.owner.Name)
			case p != m.owner || m.releasing[p] != old && p.Tag != "reset":
				e.x.Fail("C05-stolen", "after %q: the lock held by %s was removed", step, m.owner.Name)
			}
		}
		m.value, m.owner, m.since = cur, p, now
		if cur != "" {
			t, ok := e.w.Redis.TTL(lockKey)
			m.lapses = now.Add(t)
			if !ok {
				e.x.Fail("C05-never-lapses", "after %q: the lock has no expiry", step)
			} else if t > 24*time.Hour || t < time.Hour {
				e.x.Fail("C05-expiry", "after %q: the lock lapses after %s", step, t)
			}
		}
	}
	if s := m.resetState(); s != m.last {
		if p.Tag == "reset" && (m.owner != p || m.current() == "") {
			e.x.Fail("C05-acted-without-lock", "after %q: %s reset the cache without holding the lock", step, p.Name)
		}
		m.last = s
	}
	m.changed(p, step)
}

func (m *lockMon) changed(p *sim.Proc, step string) {
	v := m.e.w.Version()
	if v == m.ver {
		return
	}
	d := m.others()
	if why, ok := m.refused[p]; ok && p != nil && (d != m.dump || v[0] != m.ver[0]) {
		m.e.x.Fail("C05-acted-without-lock", "after %q: %s changed the cache or storage although %s", step, p.Name, why)
	}
	m.dump, m.ver = d, v
}

// after runs once the process has reached its next operation.
func (m *lockMon) after(step string) {
	p := m.e.w.Actor
	if p == nil || m.e.x.Failed() {
		return
	}
	m.changed(p, step)
	if m.over[p] {
		delete(m.refused, p)
		delete(m.over, p)
	}
}

func (m *lockMon) holds(tok string) bool { return tok != "" && m.current() == tok }

type lockActor struct {
	m     *lockMon
	p     *sim.Proc
	cache *storage.RedisCache
	db    *storage.CertDatabase
	tok   string
	old   string
}

func (a *lockActor) open(ro bool) bool {
	var err error
	a.cache, a.db, err = a.m.e.openT(ro, 10*time.Hour)
	if err != nil {
		a.m.e.x.Logf("%s: open: %v", a.p.Name, err)
		return false
	}
	return true
}

func (a *lockActor) acquire() bool {
	t, err := a.cache.AcquireCommitLock()
	if err != nil || t == nil {
		return false
	}
	x := a.m.e.x
	if q := a.m.granted[*t]; q != nil {
		x.Fail("C05-token-reused", "%s and %s were given the same token", q.Name, a.p.Name)
	}
	if *t == "" {
		x.Fail("C05-token-reused", "%s was given an empty token", a.p.Name)
	}
	a.m.granted[*t] = a.p
	if a.m.owner == nil || a.m.owner != a.p && a.m.value == *t || a.m.value != *t && time.Now().Before(a.m.lapses) {
		x.Fail("C05-phantom", "%s was given a token but the lock is %q", a.p.Name, a.m.value)
	}
	a.old, a.tok = a.tok, *t
	return true
}

func (a *lockActor) has(tok string) {
	before := a.m.holds(tok)
	r, err := a.cache.HasCommitLock(tok)
	after := a.m.holds(tok)
	if err == nil && r != before && r != after {
		a.m.e.x.Fail("C05-has-wrong", "%s: HasCommitLock is %v but the process %s the lock", a.p.Name, r, map[bool]string{true: "holds", false: "does not hold"}[before])
	}
	if err != nil && r {
		a.m.e.x.Fail("C05-has-wrong", "%s: HasCommitLock says true on error", a.p.Name)
	}
}

func (a *lockActor) release(tok string) {
	a.m.releasing[a.p] = tok
	a.cache.ReleaseCommitLock(tok)
	delete(a.m.releasing, a.p)
}

// refusedCall runs an operation that must fail and change nothing unless tok
// holds the lock when it begins.
func (a *lockActor) refusedCall(what, why string, must bool, f func() error) {
	if must {
		a.m.changed(nil, "")
		a.m.refused[a.p] = why
	}
	err := f()
	if must {
		a.m.over[a.p] = true
	}
	if must && err == nil {
		a.m.e.x.Fail("C05-not-refused", "%s: %s succeeded although %s", a.p.Name, what, why)
	}
}

func (a *lockActor) commit(tok string) {
	a.refusedCall("commit", "it does not hold the lock", !a.m.holds(tok), func() error { return a.db.Commit(tok) })
}

var lockScripts = []string{"use", "commit", "late-use", "reacquire", "abandon", "forge", "commit-unlocked", "commit-late", "commit-readonly", "reset", "restore"}

func (e *env) runLockScript(m *lockMon, p *sim.Proc, script string) {
	a := &lockActor{m: m, p: p}
	if !a.open(script == "commit-readonly" || script == "reset") {
		return
	}
	switch script {
	case "use":
		if a.acquire() {
			a.has(a.tok)
			a.release(a.tok)
			a.has(a.tok)
		}
	case "commit":
		if a.acquire() {
			a.commit(a.tok)
			a.release(a.tok)
		}
	case "late-use":
		if a.acquire() {
			time.Sleep(5 * time.Hour)
			a.has(a.tok)
			a.release(a.tok)
		}
	case "reacquire":
		if a.acquire() {
			time.Sleep(5 * time.Hour)
			if a.acquire() {
				a.has(a.tok)
				a.release(a.old)
				a.has(a.tok)
			}
		}
	case "abandon":
		a.acquire()
	case "forge":
		for _, t := range []string{"", "x", "nil"} {
			a.has(t)
			a.release(t)
		}
	case "commit-unlocked":
		for _, t := range []string{"", "x"} {
			a.commit(t)
		}
		if a.acquire() {
			a.release(a.tok)
			a.commit(a.tok)
		}
	case "commit-late":
		if a.acquire() {
			time.Sleep(5 * time.Hour)
			a.commit(a.tok)
			a.release(a.tok)
		}
	case "commit-readonly":
		if a.acquire() {
			a.refusedCall("commit", "storage is read-only", true, func() error { return a.db.Commit(a.tok) })
			a.release(a.tok)
		}
	case "reset":
		// the cache disagrees with storage, so that a reset is called for;
		// command() checks that it is done by the holder
		_ = a.db.EnsureCacheIsConsistent()
	case "restore":
		held := m.current()
		before := m.owner
		err := a.cache.Restore(7, []types.CTLogState{})
		if err == nil && held != "" && m.current() == held && before != p {
			e.x.Fail("C05-not-refused", "the cache was reset while %s holds the lock", before.Name)
		}
	}
}

func (m *lockMon) resetState() string {
	s, _ := m.e.w.Redis.Get("epoch")
	for _, k := range m.e.w.Redis.Keys("log::") {
		v, _ := m.e.w.Redis.Get(k)
		s += k + v
	}
	return s
}

// lockScenario: n processes running the given scripts.
func lockScenario(name string, scripts [][]string, pause bool, budget map[string]int, total int, crash, lossy, thorough bool) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: budget, Total: total, Thorough: thorough, Run: func(x *sim.Exec) {
		e := newEnv(x, "k")
		defer e.done()
		e.stdLogs()
		f := e.spawn("F0", func(p *sim.Proc) { e.fetcher(p, map[string]uint64{"alpha": 5, "beta": 3}, 5) })
		e.w.RunAll(f)
		c := e.spawn("C0", func(p *sim.Proc) { e.committer(p, true) })
		e.w.RunAll(c)
		if c.Err != nil {
			x.Fail("C05-setup", "undisturbed commit failed: %v", c.Err)
			return
		}
		m := newLockMon(e)
		m.dump = m.others()
		var picks []string
		for i, s := range scripts {
			k := 0
			if len(s) > 1 {
				k = x.C.ChooseN(fmt.Sprintf("script %d", i), "", s...)
			}
			picks = append(picks, s[k])
		}
		for _, s := range picks {
			if s == "reset" {
				e.w.Redis.Exec([]string{"set", "epoch", "9"})
				m.inconsistent = true
				m.dump, m.ver, m.last = m.others(), e.w.Version(), m.resetState()
			}
		}
		e.w.Sched = true
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, faults []string) []string {
			if strings.HasPrefix(desc, "start") || kind != "redis" {
				return nil
			}
			var r []string
			if pause && p.Tag != "reset" {
				r = append(r, "PAUSE5h")
			}
			if lossy {
				r = append(r, faults...)
			}
			return r
		}
		var ps []*sim.Proc
		for i, s := range picks {
			p := e.spawn(fmt.Sprintf("P%d", i), func(p *sim.Proc) { e.runLockScript(m, p, s) })
			ps = append(ps, p)
			if crash {
				e.w.CrashProcs[p] = true
			}
			if s == "reset" || s == "restore" {
				p.Tag = "reset" // a holder is not stalled past the expiry in the middle of a reset
			}
		}
		if !e.w.RunAll(ps...) && !x.Failed() {
			x.Fail("C05-stuck", "never finished")
		}
		x.Outcome = fmt.Sprint(picks, m.value != "", time.Since(time.UnixMilli(int64(e.base))).Round(time.Hour), len(m.granted))
		e.w.FaultFilter, e.w.Sched = nil, false
		e.w.CrashProcs = map[*sim.Proc]bool{}
		// whatever happened, the lock can be had again after its expiry
		t0 := time.Now()
		l := e.spawn("L", func(p *sim.Proc) {
			a := &lockActor{m: m, p: p}
			if !a.open(false) {
				return
			}
			for time.Since(t0) < 25*time.Hour {
				if a.acquire() {
					a.has(a.tok)
					a.release(a.tok)
					a.has(a.tok)
					return
				}
				time.Sleep(20 * time.Minute)
			}
			x.Fail("C05-never-lapses", "the lock cannot be acquired any more")
		})
		if !e.w.RunAll(l) && !x.Failed() {
			x.Fail("C05-stuck", "the lock cannot be acquired any more")
		}
		if m.current() != "" && !x.Failed() {
			x.Fail("C05-not-released", "the lock is still held after its holder released it")
		}
	}}
}

func lockScenarios() []*sim.Scenario {
	b := func(kv ...any) map[string]int {
		m := map[string]int{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1].(int)
		}
		return m
	}
	var l []*sim.Scenario
	all := lockScripts
	short := []string{"use", "late-use", "abandon", "forge", "restore"}
	three := []string{"use", "late-use", "abandon"}
	l = append(l,
		lockScenario("single", [][]string{all}, true, b("fault", 2, "crash", 1), 2, true, true, false),
		lockScenario("pairs", [][]string{all, all}, true, b("preempt", 2, "fault", 1), 2, false, false, false),
		lockScenario("pairs-lossy", [][]string{short, short}, true, b("preempt", 1, "fault", 1, "crash", 1), 2, true, true, false),
		lockScenario("triples", [][]string{three, three, three}, true, b("preempt", 2, "fault", 1), 2, false, false, false),
		lockScenario("pairs-lossy-deep", [][]string{all, short}, true, b("preempt", 2, "fault", 2, "crash", 1), 2, true, true, true),
		lockScenario("pairs-deep", [][]string{all, all}, true, b("preempt", 3, "fault", 1), 3, false, false, true),
		lockScenario("triples-deep", [][]string{short, short, short}, true, b("preempt", 3, "fault", 1), 3, false, false, true),
	)
	return l
}
