package main

// C07: RedisCache against a reference model, and the simulated server against
// a real one.

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"
	sim "github.com/mozilla/crlite/go/verifsim"
)

// refCache is the reference model.
type refCache struct {
	sets  map[string]map[string]bool
	exp   map[string]time.Time
	logs  map[string]string // normalised name -> canonical state
	old   map[string]string // old-style records
	epoch uint64
}

func newRef() *refCache {
	return &refCache{sets: map[string]map[string]bool{}, exp: map[string]time.Time{}, logs: map[string]string{}, old: map[string]string{}}
}

func (r *refCache) clone() *refCache {
	c := newRef()
	for k, s := range r.sets {
		m := map[string]bool{}
		for e := range s {
			m[e] = true
		}
		c.sets[k] = m
	}
	for k, v := range r.exp {
		c.exp[k] = v
	}
	for k, v := range r.logs {
		c.logs[k] = v
	}
	for k, v := range r.old {
		c.old[k] = v
	}
	c.epoch = r.epoch
	return c
}

func (r *refCache) tick() {
	for k, t := range r.exp {
		if !time.Now().Before(t) {
			delete(r.exp, k)
			delete(r.sets, k)
		}
	}
}

func (r *refCache) add(k, v string) bool {
	if r.sets[k] == nil {
		r.sets[k] = map[string]bool{}
	}
	n := !r.sets[k][v]
	r.sets[k][v] = true
	return n
}

func (r *refCache) expire(k string, t time.Time) {
	if r.sets[k] != nil {
		r.exp[k] = t.Truncate(time.Second)
	}
	r.tick()
}

func (r *refCache) rem(k string, vs []string) {
	for _, v := range vs {
		delete(r.sets[k], v)
	}
	if len(r.sets[k]) == 0 {
		delete(r.sets, k)
		delete(r.exp, k)
	}
}

func (r *refCache) render() string {
	r.tick()
	var l []string
	for k, s := range r.sets {
		l = append(l, fmt.Sprintf("set %s %q exp %v", k, sorted(s), r.exp[k].Unix()))
	}
	for k, v := range r.logs {
		l = append(l, "log "+k+" "+v)
	}
	for k, v := range r.old {
		l = append(l, "old "+k+" "+v)
	}
	l = append(l, fmt.Sprint("epoch ", r.epoch))
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func sorted(m map[string]bool) []string {
	r := []string{}
	for e := range m {
		r = append(r, e)
	}
	sort.Strings(r)
	return r
}

func fullState(s types.CTLogState) string {
	s.LastUpdateTime = s.LastUpdateTime.UTC()
	b, err := json.Marshal(s)
	fatalIf(err)
	return string(b)
}

// ops on the cache: apply to the model, run for real.
type cacheOp struct {
	name  string
	model func(r *refCache) string // expected result
	real  func(c *cacheWorld) (string, error)
	noErr bool // has no way of reporting errors
}

type cacheWorld struct {
	e     *env
	cache *storage.RedisCache
	db    *storage.CertDatabase
}

var cKeys = []string{"serials::2030-01-01-05::I1", "serials::2030-01-02::I2"}

func logState(host string, max uint64) types.CTLogState {
	return types.CTLogState{LogID: "id-" + host, MMD: 86400, ShortURL: host, MinEntry: 3, MaxEntry: max, MinTimestamp: 5, MaxTimestamp: 1 << 50, LastUpdateTime: time.Date(2020, 5, 6, 7, 8, 9, 123456789, time.UTC)}
}

func collect(f func(c chan<- string) error) ([]string, error) {
	ch := make(chan string)
	done := make(chan error, 1)
	go func() { done <- f(ch) }()
	m := map[string]bool{}
	for s := range ch {
		m[s] = true
	}
	err := <-done
	return sorted(m), err
}

func many(n int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = fmt.Sprintf("m%05d", i)
	}
	return r
}

func setOps() []cacheOp {
	var ops []cacheOp
	K, K2 := cKeys[0], cKeys[1]
	late, soon := time.Date(2030, 1, 1, 5, 0, 0, 0, time.UTC), time.Date(2000, 1, 1, 1, 0, 0, 0, time.UTC)
	past := time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC)
	vals := []string{"a", "b\x00\xff\r\n"}
	for _, v := range vals {
		ops = append(ops, cacheOp{name: fmt.Sprintf("insert %q", v),
			model: func(r *refCache) string { return fmt.Sprint(r.add(K, v)) },
			real:  func(c *cacheWorld) (string, error) { b, err := c.cache.SetInsert(K, v); return fmt.Sprint(b), err }})
	}
	mkMany := func(name string, items []storage.SetMemberWithExpiry) cacheOp {
		return cacheOp{name: name,
			model: func(r *refCache) string {
				for _, it := range items {
					r.add(it.Key, it.Value)
					r.expire(it.Key, it.Expiry)
				}
				return ""
			},
			real: func(c *cacheWorld) (string, error) { return "", c.cache.SetInsertMany(items) }}
	}
	it := func(k, v string, t time.Time) storage.SetMemberWithExpiry {
		return storage.SetMemberWithExpiry{Key: k, Value: v, Expiry: t}
	}
	ops = append(ops,
		mkMany("insert-many", []storage.SetMemberWithExpiry{it(K, "a", late), it(K2, "b", late), it(K, "c", late), it(K2, "b", late)}),
		mkMany("insert-many-soon", []storage.SetMemberWithExpiry{it(K2, "d", soon)}),
		mkMany("insert-many-past", []storage.SetMemberWithExpiry{it(K2, "e", past)}),
		cacheOp{name: "insert-many-none", model: func(r *refCache) string { return "" }, real: func(c *cacheWorld) (string, error) { return "", c.cache.SetInsertMany(nil) }},
	)
	for _, l := range [][]string{{}, {"a"}, {"zz", "b\x00\xff\r\n"}, {"a", "b", "c", "d", "b\x00\xff\r\n"}} {
		ops = append(ops, cacheOp{name: fmt.Sprintf("remove %q", l),
			model: func(r *refCache) string { r.rem(K, l); return "" },
			real:  func(c *cacheWorld) (string, error) { return "", c.cache.SetRemove(K, l) }})
	}
	ops = append(ops,
		cacheOp{name: "expire-at", model: func(r *refCache) string { r.expire(K, soon); return "" }, real: func(c *cacheWorld) (string, error) { return "", c.cache.ExpireAt(K, soon) }},
		cacheOp{name: "wait 1h", model: func(r *refCache) string { r.tick(); return "" }, real: func(c *cacheWorld) (string, error) { time.Sleep(time.Hour); return "", nil }},
	)
	return ops
}

func (c *cacheWorld) plant(key, val string) { c.e.w.Redis.Exec([]string{"set", key, val}) }

func logOps() []cacheOp {
	var ops []cacheOp
	store := func(host string, max uint64) {
		s := logState(host, max)
		n := strings.TrimRight(host, "/")
		ops = append(ops, cacheOp{name: fmt.Sprintf("store-log %s %d", host, max),
			model: func(r *refCache) string { r.logs[n] = fullState(s); return "" },
			real:  func(c *cacheWorld) (string, error) { return "", c.cache.StoreLogState(&s) }})
	}
	store("a.example/ct", 7)
	store("a.example/ct/", 8)
	store("a.example", 9)
	store("b.example:8080/x/y", 1<<40)
	for _, h := range []string{"a.example/ct", "a.example", "b.example:8080/x/y"} {
		s := logState(h+"/", 5)
		s.LogID = "old"
		b, err := json.Marshal(s)
		fatalIf(err)
		ops = append(ops, cacheOp{name: "old-record " + h,
			model: func(r *refCache) string { r.old[h] = fullState(s); return "" },
			real:  func(c *cacheWorld) (string, error) { c.plant("log::"+h+"/", string(b)); return "", nil }})
		for _, slash := range []string{"", "/"} {
			md := types.CTLogMetadata{URL: "https://" + h + slash}
			ops = append(ops, cacheOp{name: "migrate " + h + slash,
				model: func(r *refCache) string {
					if o, ok := r.old[h]; ok {
						if _, have := r.logs[h]; !have {
							r.logs[h] = o
						}
						delete(r.old, h)
					}
					return ""
				},
				real: func(c *cacheWorld) (string, error) { return "", c.cache.Migrate(&md) }})
			if h == "b.example:8080/x/y" {
				break
			}
		}
	}
	return ops
}

func epochOps() []cacheOp {
	restore := func(n uint64, states ...types.CTLogState) cacheOp {
		return cacheOp{name: fmt.Sprintf("restore %d (%d logs)", n, len(states)),
			model: func(r *refCache) string {
				r.epoch = n
				r.logs, r.old = map[string]string{}, map[string]string{}
				for _, s := range states {
					r.logs[strings.TrimRight(s.ShortURL, "/")] = fullState(s)
				}
				return ""
			},
			real: func(c *cacheWorld) (string, error) { return "", c.cache.Restore(n, states) }}
	}
	return []cacheOp{
		{name: "next-epoch", model: func(r *refCache) string { r.epoch++; return "" }, real: func(c *cacheWorld) (string, error) { return "", c.cache.NextEpoch() }},
		{name: "get-epoch", model: func(r *refCache) string { return fmt.Sprint(r.epoch) }, real: func(c *cacheWorld) (string, error) { n, err := c.cache.GetEpoch(); return fmt.Sprint(n), err }},
		restore(0), restore(5, logState("a.example/ct", 50), logState("c.example", 60)), restore(1<<40, logState("a.example/ct/", 70)),
	}
}

// observe compares every observer with the model.
func (c *cacheWorld) observe(r *refCache, when string) bool {
	x := c.e.x
	r.tick()
	bad := func(what string, got, want any) bool {
		x.Fail("C07-"+strings.SplitN(what, " ", 2)[0], "%s: %s is %v, the model says %v", when, what, got, want)
		return false
	}
	for _, k := range cKeys {
		want := sorted(r.sets[k])
		l, err := c.cache.SetList(k)
		sort.Strings(l)
		if err != nil || strings.Join(l, "\x01") != strings.Join(want, "\x01") {
			return bad("list "+k, fmt.Sprintf("%q %v", l, err), fmt.Sprintf("%q", want))
		}
		l, err = collect(func(ch chan<- string) error { return c.cache.SetToChan(k, ch) })
		if err != nil || strings.Join(l, "\x01") != strings.Join(want, "\x01") {
			return bad("scan "+k, fmt.Sprintf("%q %v", l, err), fmt.Sprintf("%q", want))
		}
		n, err := c.cache.SetCardinality(k)
		if err != nil || n != len(want) {
			return bad("cardinality "+k, fmt.Sprint(n, err), len(want))
		}
		for _, v := range []string{"a", "b", "zz", "b\x00\xff\r\n"} {
			b, err := c.cache.SetContains(k, v)
			if err != nil || b != r.sets[k][v] {
				return bad(fmt.Sprintf("contains %q", v), fmt.Sprint(b, err), r.sets[k][v])
			}
		}
		b, err := c.cache.Exists(k)
		if err != nil || b != (len(want) > 0) {
			return bad("exists "+k, fmt.Sprint(b, err), len(want) > 0)
		}
		// no expiry may be lost or invented
		t, has := c.e.w.Redis.TTL(k)
		wt, whas := r.exp[k]
		if has != whas || has && !time.Now().Add(t).Equal(wt) {
			return bad("expiry "+k, fmt.Sprint(t, has), fmt.Sprint(wt, whas))
		}
	}
	keys, err := collect(func(ch chan<- string) error { return c.cache.KeysToChan("serials::*", ch) })
	var want []string
	for _, k := range cKeys {
		if len(r.sets[k]) > 0 {
			want = append(want, k)
		}
	}
	sort.Strings(want)
	if err != nil || strings.Join(keys, "|") != strings.Join(want, "|") {
		return bad("keys serials", fmt.Sprint(keys, err), want)
	}
	for _, h := range []string{"a.example/ct", "a.example", "b.example:8080/x/y", "c.example"} {
		for _, u := range []string{h, h + "/", h + "//"} {
			s, err := c.cache.LoadLogState(u)
			w, ok := r.logs[h]
			switch {
			case !ok && (err == nil || s != nil):
				return bad("load-log "+u, "a record", "none")
			case ok && (err != nil || s == nil):
				return bad("load-log "+u, fmt.Sprint(err), w)
			case ok && fullState(*s) != w:
				return bad("load-log "+u, fullState(*s), w)
			}
		}
	}
	all, err := c.cache.LoadAllLogStates()
	have := map[string]bool{}
	for _, s := range all {
		have[fullState(s)] = true
	}
	ws := map[string]bool{}
	for _, v := range r.logs {
		ws[v] = true
	}
	for _, v := range r.old {
		ws[v] = true
	}
	if err != nil || strings.Join(sorted(have), "\n") != strings.Join(sorted(ws), "\n") {
		return bad("load-all-logs", fmt.Sprint(sorted(have), err), sorted(ws))
	}
	ep, err := c.cache.GetEpoch()
	if err != nil || ep != r.epoch {
		return bad("epoch", fmt.Sprint(ep, err), r.epoch)
	}
	return true
}

// state renders the server's state in the model's terms.
func (c *cacheWorld) state() string {
	r := newRef()
	R := c.e.w.Redis
	for _, k := range R.Keys("serials::") {
		m := map[string]bool{}
		for _, v := range R.Members(k) {
			m[v] = true
		}
		r.sets[k] = m
		if t, ok := R.TTL(k); ok {
			r.exp[k] = time.Now().Add(t)
		}
	}
	for _, k := range R.Keys("log::") {
		v, _ := R.Get(k)
		var s types.CTLogState
		fatalIf(json.Unmarshal([]byte(v), &s))
		n := strings.TrimPrefix(k, "log::")
		if strings.HasSuffix(n, "/") {
			r.old[strings.TrimRight(n, "/")] = fullState(s)
		} else {
			r.logs[n] = fullState(s)
		}
	}
	if v, ok := R.Get("epoch"); ok {
		fmt.Sscan(v, &r.epoch)
	}
	return r.render()
}

func newCacheWorld(x *sim.Exec, scan string) (*cacheWorld, *env) {
	e := newEnv(x, "m")
	e.w.After = nil
	e.w.NoStates = true
	e.w.MaxSteps = 1 << 30
	e.w.Redis.ScanMode = scan
	e.w.Redis.Quiet = func([]string) bool { return true }
	c := &cacheWorld{e: e}
	p := e.spawn("P", func(p *sim.Proc) {
		var err error
		c.cache, c.db, err = e.openT(true, 10*time.Hour)
		fatalIf(err)
	})
	e.w.RunAll(p)
	return c, e
}

// do runs f as a process.
func (c *cacheWorld) do(f func()) bool {
	p := c.e.spawn("P", func(p *sim.Proc) { f() })
	return c.e.w.RunAll(p)
}

// sequences runs every sequence of up to depth operations.
func sequences(name string, ops []cacheOp, depth int, thorough bool) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Thorough: thorough, Run: func(x *sim.Exec) {
		scan := ""
		if x.C.ChooseN("scans", "", "whole", "paged") == 1 {
			scan = "dup"
		}
		var pick []cacheOp
		for i := 0; i < depth; i++ {
			n := []string{}
			for _, o := range ops {
				n = append(n, o.name)
			}
			pick = append(pick, ops[x.C.ChooseN("op", "", n...)])
		}
		c, e := newCacheWorld(x, scan)
		defer e.done()
		r := newRef()
		if !c.do(func() {
			for i, o := range pick {
				r.tick()
				want := o.model(r)
				got, err := o.real(c)
				x.Steps++
				x.Logf("%s -> %q %v", o.name, got, err)
				if err != nil {
					x.Fail("C07-error", "%s fails: %v", o.name, err)
					return
				}
				if got != want {
					x.Fail("C07-result", "%s returns %q, the model says %q", o.name, got, want)
					return
				}
				if i == depth-1 || i == 0 {
					if !c.observe(r, "after "+o.name) {
						return
					}
				}
			}
		}) && !x.Failed() {
			x.Fail("C07-stuck", "the operations never finished")
		}
		x.Outcome = r.render()
	}}
}

// faulty: one operation in a given state with failing commands.
func faulty(name string, total int, thorough bool) *sim.Scenario {
	type named struct {
		n string
		f []string
	}
	base := []string{"insert-many", "store-log a.example 9"}
	states := []named{{"empty", nil}, {"filled", base}, {"old", append(base[:1:1], "old-record a.example/ct")}, {"both", append(base[:1:1], "old-record a.example/ct", "store-log a.example/ct 7")}}
	all := append(append(setOps(), logOps()...), epochOps()...)
	byName := map[string]cacheOp{}
	for _, o := range all {
		byName[o.name] = o
	}
	// observers are operations too
	obs := []cacheOp{
		{name: "list", model: func(r *refCache) string { return fmt.Sprintf("%q", sorted(r.sets[cKeys[0]])) }, real: func(c *cacheWorld) (string, error) {
			l, err := c.cache.SetList(cKeys[0])
			sort.Strings(l)
			return fmt.Sprintf("%q", append([]string{}, l...)), err
		}},
		{name: "scan", model: func(r *refCache) string { return fmt.Sprintf("%q", sorted(r.sets[cKeys[0]])) }, real: func(c *cacheWorld) (string, error) {
			l, err := collect(func(ch chan<- string) error { return c.cache.SetToChan(cKeys[0], ch) })
			return fmt.Sprintf("%q", l), err
		}},
		{name: "keys", model: func(r *refCache) string {
			m := map[string]bool{}
			for k := range r.sets {
				m[k] = true
			}
			return fmt.Sprintf("%q", sorted(m))
		}, real: func(c *cacheWorld) (string, error) {
			l, err := collect(func(ch chan<- string) error { return c.cache.KeysToChan("serials::*", ch) })
			return fmt.Sprintf("%q", l), err
		}},
		{name: "cardinality", model: func(r *refCache) string { return fmt.Sprint(len(r.sets[cKeys[0]])) }, real: func(c *cacheWorld) (string, error) {
			n, err := c.cache.SetCardinality(cKeys[0])
			return fmt.Sprint(n), err
		}},
		{name: "contains", model: func(r *refCache) string { return fmt.Sprint(r.sets[cKeys[0]]["a"]) }, real: func(c *cacheWorld) (string, error) {
			b, err := c.cache.SetContains(cKeys[0], "a")
			return fmt.Sprint(b), err
		}},
		{name: "exists", model: func(r *refCache) string { return fmt.Sprint(len(r.sets[cKeys[0]]) > 0) }, real: func(c *cacheWorld) (string, error) {
			b, err := c.cache.Exists(cKeys[0])
			return fmt.Sprint(b), err
		}},
		{name: "load-log", model: func(r *refCache) string { return r.logs["a.example"] }, real: func(c *cacheWorld) (string, error) {
			u, _ := url.Parse("https://a.example")
			s, err := c.db.GetLogState(u)
			if err != nil {
				return "", err
			}
			if s.LastUpdateTime.IsZero() {
				return "", nil
			}
			return fullState(*s), nil
		}},
		{name: "has-lock", model: func(r *refCache) string { return "false" }, real: func(c *cacheWorld) (string, error) {
			b, err := c.cache.HasCommitLock("nobody")
			return fmt.Sprint(b), err
		}},
	}
	all = append(all, obs...)
	return &sim.Scenario{Name: name, Bubble: true, Thorough: thorough, Budget: map[string]int{"fault": total}, Total: total, Run: func(x *sim.Exec) {
		scan := ""
		if x.C.ChooseN("scans", "", "whole", "paged") == 1 {
			scan = "dup"
		}
		sn := []string{}
		for _, s := range states {
			sn = append(sn, s.n)
		}
		st := states[x.C.ChooseN("state", "", sn...)]
		on := []string{}
		for _, o := range all {
			on = append(on, o.name)
		}
		o := all[x.C.ChooseN("op", "", on...)]
		c, e := newCacheWorld(x, scan)
		defer e.done()
		r := newRef()
		c.do(func() {
			for _, n := range st.f {
				b := byName[n]
				b.model(r)
				_, err := b.real(c)
				fatalIf(err)
			}
		})
		before := r.clone()
		want := o.model(r)
		e.w.Redis.Quiet = nil
		dropped := false
		isMigrate := strings.HasPrefix(o.name, "migrate")
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, faults []string) []string {
			if strings.HasPrefix(desc, "start") {
				return nil
			}
			if isMigrate && strings.HasPrefix(desc, "del ") || strings.HasPrefix(desc, "eval") {
				dropped = true // cleaning up is best effort
			}
			switch strings.SplitN(desc, " ", 2)[0] {
			case "sadd", "set", "incr":
				return append([]string{"OOM"}, faults...)
			}
			return faults
		}
		var got string
		var err error
		if !c.do(func() { got, err = o.real(c) }) && !x.Failed() {
			x.Fail("C07-stuck", "%s never returned", o.name)
			return
		}
		e.w.FaultFilter = nil
		e.w.Redis.Quiet = func([]string) bool { return true }
		hard := false // a command was refused
		for _, p := range x.C.Points {
			if d := p.Alts[p.Pick]; d.Class == "fault" && (strings.Contains(d.Desc, "ERR") || strings.Contains(d.Desc, "OOM")) {
				hard = true
			}
		}
		x.Logf("%s -> %q %v", o.name, got, err)
		x.Outcome = fmt.Sprint(o.name, st.n, err != nil, hard)
		after := c.state()
		if hard && err == nil && !dropped {
			x.Fail("C07-swallowed", "%s reports success although the server refused a command", o.name)
			return
		}
		if err == nil && !hard {
			if got != want && o.name[:min(6, len(o.name))] != "insert" {
				x.Fail("C07-result", "%s returns %q, the model says %q", o.name, got, want)
			}
			if strings.HasPrefix(o.name, "next-epoch") && anyFault(x) {
				return // INCR repeated after a lost reply; the epochs then disagree and ct-fetch resets
			}
			if after != r.render() {
				x.Fail("C07-state", "after %s the server has\n%s\nthe model says\n%s", o.name, after, r.render())
			}
			return
		}
		if err == nil && after != r.render() && !isMigrate && !strings.HasPrefix(o.name, "restore") {
			x.Fail("C07-state", "after %s the server has\n%s\nthe model says\n%s", o.name, after, r.render())
			return
		}
		// an interrupted migration keeps the progress and can be repeated
		if isMigrate {
			h := strings.TrimRight(strings.TrimPrefix(o.name, "migrate "), "/")
			u, _ := url.Parse("https://" + h + "/")
			var s *types.CTLogState
			var e2 error
			c.do(func() {
				if _, e2 = o.real(c); e2 == nil {
					s, e2 = c.cache.LoadLogState(u.Host + u.Path)
				}
			})
			w, ok := r.logs[h]
			switch {
			case ok && (e2 != nil || fullState(*s) != w):
				x.Fail("C07-migrate-lost", "after an interrupted and repeated %s the log's record is %v (%v), want %s", o.name, s, e2, w)
			case !ok && e2 == nil:
				x.Fail("C07-migrate-invented", "after %s the log has a record", o.name)
			}
			if a := c.state(); a != r.render() {
				x.Fail("C07-state", "after an interrupted and repeated %s the server has\n%s\nthe model says\n%s", o.name, a, r.render())
			}
			return
		}
		// whatever was reported, single-command operations happened or did not
		if !strings.HasPrefix(o.name, "insert-many") && !strings.HasPrefix(o.name, "next-epoch") {
			if b, a := before.render(), r.render(); after != a && after != b {
				x.Fail("C07-half-done", "after a failed %s the server has\n%s\nneither\n%s\nnor\n%s", o.name, after, b, a)
			}
		}
	}}
}

// batches: removals and scans around the batch limits.
func batches() *sim.Scenario {
	sizes := []int{1, 2, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 5000}
	return &sim.Scenario{Name: "batches", Bubble: true, Budget: map[string]int{"fault": 1}, Run: func(x *sim.Exec) {
		n := sizes[x.C.ChooseN("members", "", "1", "2", "1023", "1024", "1025", "2047", "2048", "2049", "3000", "5000")]
		keep := x.C.ChooseN("kept", "", "none", "one more", "not removed: first and last")
		c, e := newCacheWorld(x, "")
		defer e.done()
		r := newRef()
		K := cKeys[0]
		var items []storage.SetMemberWithExpiry
		exp := time.Date(2030, 1, 1, 5, 0, 0, 0, time.UTC)
		ms := many(n)
		for _, v := range ms {
			r.add(K, v)
			items = append(items, storage.SetMemberWithExpiry{Key: K, Value: v, Expiry: exp})
		}
		if keep == 1 {
			r.add(K, "extra")
			items = append(items, storage.SetMemberWithExpiry{Key: K, Value: "extra", Expiry: exp})
		}
		r.expire(K, exp)
		rm := ms
		if keep == 2 {
			rm = ms[1 : len(ms)-min(1, len(ms)-1)]
		}
		c.do(func() {
			fatalIf(c.cache.SetInsertMany(items))
			if s := c.state(); s != r.render() {
				x.Fail("C07-state", "after inserting %d members at once the server has %d", len(items), len(e.w.Redis.Members(K)))
			}
			l, err := collect(func(ch chan<- string) error { return c.cache.SetToChan(K, ch) })
			if err != nil || strings.Join(l, "|") != strings.Join(sorted(r.sets[K]), "|") {
				x.Fail("C07-scan", "a scan of %d members gives %d (%v)", len(items), len(l), err)
			}
		})
		e.w.Redis.Quiet = nil
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, faults []string) []string {
			if strings.HasPrefix(desc, "srem") {
				return faults
			}
			return nil
		}
		var err error
		c.do(func() { err = c.cache.SetRemove(K, rm) })
		e.w.FaultFilter = nil
		r.rem(K, rm)
		ok := c.state() == r.render()
		x.Outcome = fmt.Sprint(n, keep, err != nil, len(e.w.Redis.Members(K)))
		if err == nil && !ok {
			x.Fail("C07-state", "removing %d of %d members leaves %d, want %d", len(rm), len(items), len(e.w.Redis.Members(K)), len(r.sets[K]))
		}
		if err == nil {
			return
		}
		// repeating a failed removal completes it
		c.do(func() { err = c.cache.SetRemove(K, rm) })
		if err != nil || c.state() != r.render() {
			x.Fail("C07-state", "repeating a failed removal leaves %d members, want %d (%v)", len(e.w.Redis.Members(K)), len(r.sets[K]), err)
		}
	}}
}

var errNoServer = errors.New("no redis-server")

func modelScenarios() []*sim.Scenario {
	d := 3
	all := append(append(setOps(), logOps()...), epochOps()...)
	return []*sim.Scenario{
		sequences("sets-4", setOps(), 4, false),
		sequences("logs-3", append(logOps(), epochOps()...), d, false),
		sequences("all-3", all, 3, true),
		sequences("logs-4", append(logOps(), epochOps()...), 4, true),
		sequences("sets-5", setOps(), 5, true),
		faulty("faults", 1, false),
		faulty("faults-2", 2, true),
		batches(),
		conformance(3, false),
		conformance(4, true),
	}
}
