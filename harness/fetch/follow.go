package main

// C29: every log is followed, whatever befalls the others, at a bearable rate.

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	sim "github.com/mozilla/crlite/go/verifsim"
)

// asked is a request that a log received.
type asked struct {
	at    time.Time
	kind  string
	path  string
	fault string
	state string // the log's saved progress
}

// visits watches how a log is asked and how far it is followed.
type visits struct {
	l        *ctLog
	reqs     []asked
	limited  int           // how often in a row entries were refused with 429
	wait     time.Duration // the last pause after that
	badFor   func(kind string) string
	trouble  bool      // its own answers are, or may be, at fault
	since    time.Time // it has been followable since
	fatal    bool      // it has shown something that cannot be verified
	progress int       // entries recorded so far
}

type follow struct {
	e       *env
	polling time.Duration
	batch   int
	v       map[*ctLog]*visits
	p       *sim.Proc
	full    time.Time // the cache accepted nothing until then
	late    time.Duration
	max     int // requests in a row
	slack   map[*ctLog]time.Duration
}

func newFollow(e *env, polling time.Duration, batch int) *follow {
	f := &follow{e: e, polling: polling, batch: batch, v: map[*ctLog]*visits{}, slack: map[*ctLog]time.Duration{}}
	for _, l := range e.logs {
		f.v[l] = &visits{l: l, since: time.Now()}
	}
	e.onAsk = f.request
	return f
}

func (f *follow) start(o runOpt) {
	o.forever, o.batch, o.polling = true, f.batch, int(f.polling/time.Second)
	f.p = f.e.fetch(o)
}

// request judges the pace of the requests to a log.
func (f *follow) request(l *ctLog, kind, path, fault string) {
	x := f.e.x
	if l == nil || x.Failed() {
		return
	}
	v, now := f.v[l], time.Now()
	st := ""
	if s, found := f.e.state(l); found {
		st = fmt.Sprint(s.MinEntry, s.MaxEntry)
	}
	r := asked{now, kind, path, fault, st}
	defer func() { v.reqs = append(v.reqs, r) }()
	say := func() string {
		from := max(0, len(v.reqs)-5)
		var s []string
		for _, q := range append(append([]asked(nil), v.reqs[from:]...), r) {
			s = append(s, fmt.Sprintf("%s %s %s", q.at.Sub(base).Round(time.Second/10), q.path, q.fault))
		}
		return fmt.Sprintf("polling delay %s, %s; requests: %s", f.polling, f.e.stateString(), strings.Join(s, "; "))
	}
	if len(v.reqs) > 0 {
		last := v.reqs[len(v.reqs)-1]
		gap := now.Sub(last.at)
		if last.kind == "get-entries" && last.fault == "429" && kind == "get-entries" {
			want := max(4*time.Second, min(v.wait*3/2, 9*time.Minute))
			if gap < want {
				x.Fail("C29-rate-limit", "%s: asked again %s after it limited the rate, having waited %s before (%s)", l.name, gap, v.wait, say())
				return
			}
			if gap > 15*time.Minute {
				x.Fail("C29-forgotten", "%s: asked again only %s after it limited the rate (%s)", l.name, gap, say())
				return
			}
			v.wait = gap
		} else if last.kind != "get-entries" || last.fault != "429" {
			v.wait = 0
			// a client of tiled logs tries a request again a few times
			again := l.tiled && kind != "checkpoint" || l.tiled && path == last.path
			if failure[last.fault] && !again && gap < f.polling*4/10 {
				x.Fail("C29-insists", "%s: asked again %s after a failure (%s)", l.name, gap, say())
				return
			}
		}
	}
	// rounds that bring nothing
	if kind == "get-sth" || kind == "checkpoint" {
		for i := len(v.reqs) - 1; i >= 0; i-- {
			q := v.reqs[i]
			if now.Sub(q.at) >= f.polling*4/10 || q.state != st || time.Now().Before(f.full.Add(time.Minute)) {
				break
			}
			if q.kind == kind && !(l.tiled && q.fault != "") {
				x.Fail("C29-restless", "%s: its tree head was fetched %s after the last time although nothing was recorded meanwhile (%s)", l.name, now.Sub(q.at), say())
				return
			}
		}
	}
	// the same request again and again
	n := 0
	for i := len(v.reqs) - 1; i >= 0 && now.Sub(v.reqs[i].at) < f.polling*4/10; i-- {
		if v.reqs[i].path == path && v.reqs[i].state == st {
			n++
		}
	}
	f.max = max(f.max, n)
	if limit := 5; n > limit && !(kind == "get-entries" && v.reqs[len(v.reqs)-1].fault == "429") {
		x.Fail("C29-hammers", "%s: the same request %d times within %s (%s)", l.name, n+1, f.polling*4/10, say())
	}
}

// failure are the answers that end a round.
var failure = map[string]bool{"conn": true, "500": true, "404": true, "garbage": true, "trunc": true, "hang": true, "none": true}

// due is how long a log may lag behind.
func (f *follow) due(l *ctLog) time.Duration { return 3*f.polling + 15*time.Minute + f.slack[l] }

// look judges how far the logs are followed.
func (f *follow) look() {
	x, now := f.e.x, time.Now()
	if x.Failed() {
		return
	}
	if f.p.Finished() {
		x.Fail("C29-ended", "the ingester ended with status %d %v", f.p.ExitCode, f.p.Panic)
		return
	}
	for _, l := range f.e.logs {
		v := f.v[l]
		if v.trouble || v.fatal || !l.tiled && l.size < 4 || l.size == 0 {
			v.since = now
			continue
		}
		since := v.since
		if f.full.After(since) {
			since = f.full
		}
		if now.Sub(since) <= f.due(l) {
			continue
		}
		s, found := f.e.state(l)
		if !found || s.MinEntry != 0 {
			x.Fail("C29-behind", "%s of %d entries has been available for %s (polling delay %s, batch %d) but progress is %s", l.name, l.size, now.Sub(since), f.polling, f.batch, f.e.stateString())
			return
		}
		// every entry that has been in the log for long
		if lag := now.Add(-f.due(l)); f.grown(l, lag) > s.MaxEntry+1 {
			x.Fail("C29-behind", "%s has had %d entries for %s (polling delay %s, batch %d) but progress is %s", l.name, f.grown(l, lag), f.due(l), f.polling, f.batch, f.e.stateString())
			return
		}
		if newest := time.UnixMilli(int64(s.MaxTimestamp)); now.Sub(newest) > f.due(l) && l.size == f.grown(l, now.Add(-f.due(l))) {
			x.Fail("C29-coverage", "%s has had no new entries for %s, but its coverage ends %s ago (%s)", l.name, f.due(l), now.Sub(newest), f.e.stateString())
			return
		}
	}
}

// grown is the size of a log at a moment.
func (f *follow) grown(l *ctLog, at time.Time) uint64 {
	n := uint64(0)
	for _, g := range l.growth {
		if !g.at.After(at) {
			n = g.size
		}
	}
	return n
}

func (f *follow) grow(l *ctLog, n int) {
	l.size = min(l.size+uint64(n), uint64(len(l.entries)))
	l.growth = append(l.growth, growth{time.Now(), l.size})
}

func (f *follow) watch(d time.Duration, also func()) {
	end, every := time.Now().Add(d), f.polling/4
	for time.Now().Before(end) && !f.e.x.Failed() && !f.p.Finished() {
		f.e.until(every, func() bool { return f.e.x.Failed() || f.p.Finished() })
		if also != nil {
			also()
		}
		f.look()
	}
	f.look()
}

func followLog(name string, n int, tiled bool, size, all int) *ctLog {
	l := newLog(name, n, tiled, 3600, mixed(all))
	l.prop = "progress" // judged elsewhere
	l.size = uint64(size)
	l.growth = []growth{{base.Add(-time.Hour), l.size}}
	return l
}

// a dim is a parameter of a scenario and its values.
type dim struct {
	name string
	vals []string
}

var pollings = dim{"polling", []string{"15m", "1m"}}

func ints(name string, vals ...int) dim {
	d := dim{name: name}
	for _, v := range vals {
		d.vals = append(d.vals, fmt.Sprint(v))
	}
	return d
}

type chosen struct {
	pick map[string]int
	val  map[string]string
}

func (c chosen) int(name string) int {
	n, err := strconv.Atoi(c.val[name])
	if err != nil {
		panic(err)
	}
	return n
}

func (c chosen) duration(name string) time.Duration {
	d, err := time.ParseDuration(c.val[name])
	if err != nil {
		panic(err)
	}
	return d
}

// chooseAll chooses values for all parameters at once (so that the shards get equal parts).
func chooseAll(x *sim.Exec, dims ...dim) chosen {
	all := []chosen{{}}
	desc := []string{""}
	for _, d := range dims {
		var next []chosen
		var nextDesc []string
		for i, c := range all {
			for k, v := range d.vals {
				n := chosen{map[string]int{d.name: k}, map[string]string{d.name: v}}
				for a, b := range c.pick {
					n.pick[a], n.val[a] = b, c.val[a]
				}
				next = append(next, n)
				nextDesc = append(nextDesc, desc[i]+d.name+" "+v+", ")
			}
		}
		all, desc = next, nextDesc
	}
	return all[x.C.ChooseN("parameters", "", desc...)]
}

// following: a log of some size that grows in steps.
func following(name string, sizes, batches, steps []int, n int, tiled bool) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Run: func(x *sim.Exec) {
		dims := []dim{pollings, ints("size", sizes...), ints("batch", batches...), {"it grows", []string{"quickly", "slowly"}}}
		for i := 0; i < n; i++ {
			dims = append(dims, ints(fmt.Sprintf("growth %d", i+1), steps...))
		}
		p := chooseAll(x, dims...)
		polling := p.duration("polling")
		size, batch := p.int("size"), p.int("batch")
		every := []time.Duration{polling * 3 / 10, polling * 23 / 10}[p.pick["it grows"]]
		var by []int
		total := size
		for i := 0; i < n; i++ {
			by = append(by, p.int(fmt.Sprintf("growth %d", i+1)))
			total += by[i]
		}
		l := followLog("one", 11, tiled, size, total)
		e := newEnv(x, l)
		defer e.done()
		e.w.NoStates = true
		f := newFollow(e, polling, batch)
		f.start(runOpt{})
		next := time.Now().Add(every)
		f.watch(time.Duration(n)*every+2*f.due(l), func() {
			for len(by) > 0 && !time.Now().Before(next) {
				f.grow(l, by[0])
				by, next = by[1:], next.Add(every)
			}
		})
		x.Outcome = fmt.Sprint(polling, batch, e.stateString(), len(f.v[l].reqs), f.max)
	}}
}

// steadily: logs that never stop growing, with or without much to catch up on.
func steadily(name string) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Run: func(x *sim.Exec) {
		p := chooseAll(x, pollings, ints("size", 4, 9, 40), ints("batch", 4, 16),
			ints("it grows every so many tenths of a polling delay", 3, 7, 10, 13, 25), ints("by", 1, 2), dim{"log", []string{"rfc", "tiled"}})
		polling := p.duration("polling")
		size, batch := p.int("size"), p.int("batch")
		every := polling * time.Duration(p.int("it grows every so many tenths of a polling delay")) / 10
		by := p.int("by")
		tiled := p.pick["log"] == 1
		d := 3 * (3*polling + 15*time.Minute)
		l := followLog("one", 11, tiled, size, size+by*(1+int(d/every)))
		e := newEnv(x, l)
		defer e.done()
		e.w.NoStates = true
		f := newFollow(e, polling, batch)
		f.start(runOpt{})
		next := time.Now().Add(every)
		f.watch(d, func() {
			for !time.Now().Before(next) {
				f.grow(l, by)
				next = next.Add(every)
			}
		})
		x.Outcome = fmt.Sprint(polling, batch, e.stateString(), len(f.v[l].reqs), f.max)
	}}
}

// many: as many logs as there are in reality.
func many(name string) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Run: func(x *sim.Exec) {
		ways := []string{"", "hang", "conn", "429"}
		p := chooseAll(x, pollings, ints("logs", 12, 40), ints("batch", 4, 64), dim{"all but one", []string{"well", "hang", "unreachable", "limit the rate"}})
		polling := p.duration("polling")
		n, batch := p.int("logs"), p.int("batch")
		ill := ways[p.pick["all but one"]]
		var logs []*ctLog
		for i := 0; i < n; i++ {
			logs = append(logs, followLog(fmt.Sprint("log", i), 11+i, i%3 == 1, 6, 14))
		}
		e := newEnv(x, logs...)
		defer e.done()
		e.w.NoStates = true
		f := newFollow(e, polling, batch)
		if ill != "" {
			for _, l := range logs[:n-1] {
				f.v[l].fatal = true
			}
			e.force = func(l *ctLog, kind string) string {
				if l == logs[n-1] {
					return ""
				}
				return ill
			}
		}
		f.start(runOpt{})
		grown := 0
		f.watch(8*polling+2*f.due(logs[0]), func() {
			grown++
			if grown%4 == 0 && grown <= 32 {
				for _, l := range logs {
					f.grow(l, 1)
				}
			}
		})
		x.Outcome = fmt.Sprint(polling, batch, n, ill, e.stateString(), f.max)
	}}
}

// ill are the answers of a log in trouble.
func ill(l *ctLog, kind string) []string {
	r := []string{"conn", "500", "429", "404", "garbage", "trunc", "hang"}
	if kind == "get-entries" {
		r = append(r, "none", "only-one")
	}
	return r
}

// both an RFC 6962 log and a tiled one; the first is the one in trouble.
func pair(tiled bool, size, all int) []*ctLog {
	return []*ctLog{followLog("ill", 11, tiled, size, all), followLog("well", 12, !tiled, size, all)}
}

// troubled: from any request on, some of the answers of a log are bad for a time;
// the other is followed all along.
func troubled(name string, budget int, thorough bool) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Thorough: thorough, Budget: b("fault", budget), Total: budget, Run: func(x *sim.Exec) {
		p := chooseAll(x, pollings, ints("batch", 2, 64), dim{"in trouble", []string{"rfc", "tiled"}})
		polling := p.duration("polling")
		batch := p.int("batch")
		logs := pair(p.pick["in trouble"] == 1, 7, 12)
		e := newEnv(x, logs...)
		defer e.done()
		e.w.NoStates = true
		f := newFollow(e, polling, batch)
		bad, until, alone, kindOf := "", time.Time{}, false, ""
		e.faultsFor = func(l *ctLog, kind string) []string {
			if l != logs[0] || bad != "" && !time.Now().After(until) || time.Since(base) > 3*polling {
				return nil
			}
			return ill(l, kind)
		}
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, fs []string) []string {
			if kind == "http" {
				return fs
			}
			return nil
		}
		e.force = func(l *ctLog, kind string) string {
			if l != logs[0] || bad == "" || time.Now().After(until) || alone && kind != kindOf {
				return ""
			}
			if (bad == "none" || bad == "only-one") && kind != "get-entries" {
				return ""
			}
			return bad
		}
		e.onFault = func(l *ctLog, fault string) {
			f.v[l].trouble = true
			if bad != "" && !time.Now().After(until) {
				return
			}
			bad, kindOf, alone = fault, e.asking, false
			switch x.C.ChooseN("this lasts", "", "for one request", "half an hour", "six polling delays", "six polling delays, for such requests") {
			case 0:
				until = time.Now().Add(-1)
			case 1:
				until = time.Now().Add(30 * time.Minute)
			case 3:
				alone = true
				fallthrough
			case 2:
				until = time.Now().Add(6 * polling)
			}
			// the retries of a client of tiled logs, and the growing pauses after rate limiting
			f.slack[l] = 15 * time.Minute
		}
		f.start(runOpt{})
		grown := 0
		f.watch(15*polling+f.due(logs[1])+45*time.Minute, func() {
			if bad != "" && time.Now().After(until) {
				f.v[logs[0]].trouble = false
			}
			grown++
			if grown%6 == 0 && grown <= 30 {
				f.grow(logs[0], 1)
				f.grow(logs[1], 1)
			}
		})
		x.Outcome = fmt.Sprint(polling, batch, bad, e.stateString(), f.max)
	}}
}

// neighbours: one log is out of order for good.
func neighbours(name string) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Run: func(x *sim.Exec) {
		ways := []string{"nothing", "conn", "500", "429", "404", "garbage", "trunc", "hang", "none", "bad-head", "bad-proof", "bad-data", "bad-issuer", "slow", "bad-key", "bad-url"}
		p := chooseAll(x, pollings, ints("batch", 2, 64), dim{"in trouble", []string{"rfc", "tiled"}}, ints("size", 4, 7),
			dim{"order of the list", []string{"ill first", "well first"}}, dim{"trouble", ways}, dim{"of", []string{"every request", "heads", "proofs", "entries", "issuers"}})
		polling := p.duration("polling")
		batch := p.int("batch")
		logs := pair(p.pick["in trouble"] == 1, p.int("size"), 12)
		logs[1].size = 7
		order := p.pick["order of the list"]
		way := ways[p.pick["trouble"]]
		on := []string{"", "get-sth checkpoint", "get-sth-consistency tile", "get-entries data", "issuer"}[p.pick["of"]]
		e := newEnv(x, logs...)
		defer e.done()
		e.w.NoStates = true
		e.noStored = true
		f := newFollow(e, polling, batch)
		v := f.v[logs[0]]
		v.fatal = way != "nothing"
		e.force = func(l *ctLog, kind string) string {
			if l != logs[0] || on != "" && !strings.Contains(" "+on+" ", " "+kind+" ") && !strings.Contains(" "+on+" ", " "+strings.TrimPrefix(kind, "ct/v1/")+" ") {
				return ""
			}
			switch way {
			case "nothing", "bad-key", "bad-url":
				return ""
			case "none":
				if kind != "get-entries" {
					return ""
				}
			case "bad-head":
				return map[string]string{"get-sth": "sth-sig", "checkpoint": "cp-root"}[kind]
			case "bad-proof":
				return map[string]string{"get-sth-consistency": "proof-flip0", "tile": "hash-0"}[kind]
			case "bad-data":
				return map[string]string{"get-entries": "alter-ts-0", "data": "alter-ts-0"}[kind]
			case "bad-issuer":
				return map[string]string{"issuer": "issuer-garbage"}[kind]
			}
			return way
		}
		var list []map[string]any
		for _, l := range logs {
			m := l.metadata(true)
			if l == logs[0] && way == "bad-key" {
				m["key"] = "AAAA"
			}
			if l == logs[0] && way == "bad-url" {
				m["url"] = "https://nobody.example:bad/"
			}
			list = append(list, m)
		}
		if order == 1 {
			list[0], list[1] = list[1], list[0]
		}
		f.start(runOpt{local: list})
		grown := 0
		f.watch(12*polling+3*f.due(logs[1]), func() {
			grown++
			if grown%5 == 0 && grown <= 25 {
				f.grow(logs[0], 1)
				f.grow(logs[1], 1)
			}
		})
		x.Outcome = fmt.Sprint(polling, batch, way, on, e.stateString(), f.max)
	}}
}

// refused: the cache refuses writes from any command on, for a time.
func refused(name string) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: b("fault", 1), Total: 1, Run: func(x *sim.Exec) {
		p := chooseAll(x, pollings, ints("batch", 2, 64), dim{"in trouble", []string{"rfc", "tiled"}})
		polling := p.duration("polling")
		batch := p.int("batch")
		logs := pair(p.pick["in trouble"] == 1, 7, 12)
		e := newEnv(x, logs...)
		defer e.done()
		e.w.NoStates = true
		f := newFollow(e, polling, batch)
		out := func(d time.Duration) func() {
			return func() { e.outage(d, false); f.full = time.Now().Add(d) }
		}
		e.w.Events = map[string]func(){"EVfull1m": out(time.Minute), "EVfull40m": out(40 * time.Minute), "EVfull100m": out(100 * time.Minute)}
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, fs []string) []string {
			if kind == "redis" && time.Since(base) < 4*polling {
				return []string{"EVfull1m", "EVfull40m", "EVfull100m"}
			}
			return nil
		}
		f.start(runOpt{})
		grown := 0
		f.watch(8*polling+f.due(logs[1])+100*time.Minute, func() {
			grown++
			if grown%6 == 0 && grown <= 30 {
				f.grow(logs[0], 1)
				f.grow(logs[1], 1)
			}
		})
		x.Outcome = fmt.Sprint(polling, batch, e.stateString(), f.max)
	}}
}

func followScenarios() []*sim.Scenario {
	return []*sim.Scenario{
		following("following", []int{0, 1, 3, 4, 5, 8, 9, 17}, []int{2, 4, 64}, []int{0, 1, 3, 9}, pick(2, 3), false),
		following("following-tiled", []int{0, 1, 4, 9}, []int{2, 4, 64}, []int{0, 1, 3, 9}, pick(2, 3), true),
		following("following-tiles", []int{254, 255, 256, 257}, []int{64, 1000}, []int{0, 1, 3}, pick(2, 3), true),
		troubled("troubled", 1, false),
		neighbours("neighbours"),
		refused("refused"),
		steadily("steadily"),
		many("many"),
		troubled("troubled-twice", 2, true),
	}
}
