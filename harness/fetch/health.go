package main

// C28: what /health says.

import (
	"bufio"
	"fmt"
	"io"
	"net/http"
	"testing/synctest"
	"time"

	sim "github.com/mozilla/crlite/go/verifsim"
)

// health watches what the ingester's endpoint says and what it should say.
type health struct {
	e       *env
	p       *sim.Proc
	polling time.Duration
	l       *sim.Listener
	started time.Time

	heads     map[*ctLog]int
	lastKind  map[*ctLog]string
	finished  map[*ctLog]bool // its downloader may have ended
	lastAny   time.Time       // the last request to a log or accepted write
	lastRound time.Time       // when a log's next round started
	lastDone  time.Time       // when progress was last saved
	refused   time.Time       // when a command was last refused
	goodSince time.Time       // nothing has been wrong since; zero: something is
	spoiled   bool            // a downloader may have ended for good
	seen      map[int]int
	askNow    bool
	written   [2]uint64
}

func newHealth(e *env, polling time.Duration) *health {
	h := &health{e: e, polling: polling, heads: map[*ctLog]int{}, lastKind: map[*ctLog]string{}, finished: map[*ctLog]bool{}, seen: map[int]int{}}
	e.w.Listen = func(p *sim.Proc, address string, l *sim.Listener) { h.l = l }
	e.onRequest = func(l *ctLog, kind string) {
		if l == nil {
			return
		}
		h.lastAny = time.Now()
		h.lastKind[l] = kind
		if kind == "get-sth" || kind == "checkpoint" {
			h.heads[l]++
			// a round that waited for a refused write ended earlier
			if h.heads[l] > 1 && (h.refused.IsZero() || time.Since(h.refused) > 31*time.Second) {
				h.lastRound = time.Now()
			}
		}
	}
	h.written = e.w.Version()
	old := e.w.After
	e.w.After = func(step string) {
		old(step)
		if v := e.w.Version(); v != h.written {
			h.written = v
			h.lastAny = time.Now()
			for _, l := range e.logs {
				if s, found := e.state(l); found && s.LastUpdateTime.Equal(time.Now()) {
					h.lastDone = time.Now()
				}
			}
		}
	}
	return h
}

func (h *health) start(o runOpt) {
	h.p = h.e.fetch(o)
	h.started = time.Now()
	h.goodSince = time.Now()
}

// ask sends one request; 0 means that there was no answer.
func (h *health) ask() (int, http.Header) {
	if h.l == nil {
		return 0, nil
	}
	type answer struct {
		code int
		hdr  http.Header
	}
	got := make(chan answer, 1)
	go func() {
		c, err := h.l.Dial()
		if err != nil {
			got <- answer{}
			return
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(20 * time.Second))
		if _, err = io.WriteString(c, "GET /health HTTP/1.1\r\nHost: ct-fetch\r\nConnection: close\r\n\r\n"); err != nil {
			got <- answer{}
			return
		}
		r, err := http.ReadResponse(bufio.NewReader(c), nil)
		if err != nil {
			got <- answer{}
			return
		}
		_, err = io.Copy(io.Discard, r.Body)
		if err != nil {
			got <- answer{}
			return
		}
		got <- answer{r.StatusCode, r.Header}
	}()
	synctest.Wait()
	if len(got) == 0 {
		// a prober waits for a second
		h.e.until(time.Second, func() bool { return len(got) > 0 || h.p.Finished() })
	}
	select {
	case a := <-got:
		return a.code, a.hdr
	default:
	}
	return 0, nil
}

// probe asks and judges the answer.
func (h *health) probe(when string) {
	x := h.e.x
	if x.Failed() || h.p.Finished() {
		return
	}
	code, hdr := h.ask()
	if x.Failed() || h.p.Finished() {
		return
	}
	now := time.Now()
	h.seen[code]++
	story := func() string {
		since := func(t time.Time) string {
			if t.IsZero() {
				return "never"
			}
			return now.Sub(t).String() + " ago"
		}
		return fmt.Sprintf("%s, %s after the start with a polling delay of %s: last request to a log or accepted write %s, last round begun %s, progress saved %s, untroubled since %s; %s",
			when, now.Sub(h.started), h.polling, since(h.lastAny), since(h.lastRound), since(h.lastDone), since(h.goodSince), h.e.stateString())
	}
	switch code {
	case 200, 500:
	case 503:
		if hdr.Get("Retry-After") == "" {
			x.Fail("C28-no-retry-after", "503 without Retry-After (%s)", story())
			return
		}
	case 0:
		if h.l == nil {
			if now.Sub(h.started) < time.Minute {
				return
			}
			x.Fail("C28-not-listening", "the ingester does not listen (%s)", story())
			return
		}
		x.Fail("C28-no-answer", "no answer (%s)", story())
		return
	default:
		x.Fail("C28-other", "status %d (%s)", code, story())
		return
	}
	touched := false
	for _, n := range h.heads {
		touched = touched || n > 0
	}
	if !touched && code != 503 {
		x.Fail("C28-nothing-done", "%d although no log has been contacted yet (%s)", code, story())
		return
	}
	if (!h.lastRound.IsZero() || !h.spoiled && !h.goodSince.IsZero() && !h.lastDone.IsZero() && now.Sub(h.lastDone) > time.Second) && code == 503 {
		x.Fail("C28-starting", "503 although rounds have been finished (%s)", story())
		return
	}
	// a round that began ends the one before
	if last := h.lastRound; !last.IsZero() && now.Sub(last) <= 2*h.polling && code != 200 {
		x.Fail("C28-unhealthy", "%d although a round was finished within twice the polling delay (%s)", code, story())
		return
	}
	if !h.goodSince.IsZero() && !h.spoiled && now.Sub(h.goodSince) > h.polling*16/10+time.Minute && code != 200 {
		x.Fail("C28-unhealthy", "%d although nothing has been wrong (%s)", code, story())
		return
	}
	if !h.lastAny.IsZero() {
		slack := time.Minute
		for _, k := range h.lastKind {
			if k == "get-sth" || k == "checkpoint" {
				// its downloader may be sleeping
				slack = h.polling*15/10 + time.Minute
			}
		}
		if now.Sub(h.lastAny) > 2*h.polling+slack && code == 200 {
			x.Fail("C28-healthy", "200 although nothing has been done for more than twice the polling delay (%s)", story())
			return
		}
	}
}

// watch lets time pass, asking all along.
func (h *health) watch(what string, d, every time.Duration, also func()) {
	end := time.Now().Add(d)
	for time.Now().Before(end) && !h.e.x.Failed() && !h.p.Finished() {
		h.e.until(every, func() bool { return h.e.x.Failed() || h.p.Finished() || h.askNow })
		h.askNow = false
		if also != nil {
			also()
		}
		h.probe(what)
	}
}

func healthLogs(x *sim.Exec, n, later int) []*ctLog {
	var r []*ctLog
	kinds := [][]bool{{false}, {true}, {false, true}}[x.C.ChooseN("logs", "", "rfc", "tiled", "both")]
	for i, tiled := range kinds {
		l := newLog([]string{"one", "two"}[i], 11+i, tiled, 3600, mixed(n+later))
		l.prop = "progress" // progress is judged elsewhere
		l.size = uint64(n)
		r = append(r, l)
	}
	return r
}

func pollingChoice(x *sim.Exec) time.Duration {
	return []time.Duration{15 * time.Minute, time.Minute}[x.C.ChooseN("polling", "", "15m", "1m")]
}

// grower makes the logs grow as chosen.
func grower(x *sim.Exec, e *env, polling time.Duration) func() {
	every := []time.Duration{0, polling, 3 * polling}[x.C.ChooseN("growth", "", "none", "every-round", "every-third")]
	next := time.Now().Add(every)
	return func() {
		if every == 0 || time.Now().Before(next) {
			return
		}
		next = next.Add(every)
		for _, l := range e.logs {
			if l.size < uint64(len(l.entries)) {
				l.size++
			}
		}
	}
}

// healthOutage: Redis refuses writes, or everything, from any command on, for a
// time.
func healthOutage(name string, size, later int, thorough bool) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Thorough: thorough, Budget: b("fault", 1), Total: 1, Run: func(x *sim.Exec) {
		polling := pollingChoice(x)
		logs := healthLogs(x, size, later)
		e := newEnv(x, logs...)
		defer e.done()
		e.w.NoStates = true
		h := newHealth(e, polling)
		grow := grower(x, e, polling)
		var until time.Time
		event := func(times10 int, all bool) func() {
			return func() {
				d := polling * time.Duration(times10) / 10
				e.outage(d, all)
				refuse := e.w.Redis.Reject
				e.w.Redis.Reject = func(p *sim.Proc, args []string) string {
					r := refuse(p, args)
					if r != "" {
						h.refused = time.Now()
					}
					return r
				}
				until = time.Now().Add(d)
				h.goodSince = time.Time{}
				h.spoiled = h.spoiled || all
			}
		}
		e.w.Events = map[string]func(){"EVfull-short": event(5, false), "EVfull-2": event(20, false), "EVfull-long": event(60, false), "EVdown": event(5, true), "EVdown-long": event(60, true)}
		started := false
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, f []string) []string {
			if kind == "redis" && started && len(h.heads) > 0 {
				return []string{"EVfull-short", "EVfull-2", "EVfull-long", "EVdown", "EVdown-long"}
			}
			return nil
		}
		started = true
		h.start(runOpt{forever: true, batch: 2, polling: int(polling / time.Second)})
		h.watch("running", 16*polling, polling/8, func() {
			grow()
			if !until.IsZero() && time.Now().After(until) && h.goodSince.IsZero() {
				h.goodSince = time.Now()
			}
		})
		x.Outcome = fmt.Sprint(polling, h.seen, e.stateString(), h.p.Finished())
	}}
}

// healthAnswers: requests fail; the ingester may lose a log, or all.
func healthAnswers(name string, budget int) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: b("fault", budget), Total: budget, Run: func(x *sim.Exec) {
		polling := pollingChoice(x)
		logs := healthLogs(x, 4, 2)
		e := newEnv(x, logs...)
		defer e.done()
		e.w.NoStates = true
		h := newHealth(e, polling)
		grow := grower(x, e, polling)
		e.settings = func() *reply {
			var list []map[string]any
			for _, l := range logs {
				list = append(list, l.metadata(true))
			}
			return jsonReply(map[string]any{"data": list})
		}
		e.faultsFor = func(l *ctLog, kind string) []string {
			if l == nil {
				return nil
			}
			if kind == "get-sth" || kind == "checkpoint" {
				return []string{"500", "hang"}
			}
			return []string{"conn", "404", "hang"}
		}
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, f []string) []string {
			if kind == "http" {
				return f
			}
			return nil
		}
		e.onFault = func(l *ctLog, fault string) { h.spoiled = true; h.goodSince = time.Time{} }
		h.start(runOpt{forever: true, batch: 4, polling: int(polling / time.Second), settings: true})
		h.watch("running", 10*polling, polling/4, grow)
		x.Outcome = fmt.Sprint(polling, h.seen, e.stateString(), h.p.Finished())
	}}
}

// healthStarting: the list of logs comes late, changes, or goes away.
func healthStarting(name string, updates int) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Run: func(x *sim.Exec) {
		polling := 5 * time.Minute
		logs := healthLogs(x, 4, 0)
		e := newEnv(x, logs...)
		defer e.done()
		e.w.NoStates = true
		h := newHealth(e, polling)
		n := 0
		enrolled := false
		e.settings = func() *reply {
			list := []map[string]any{}
			if n < updates {
				n++
				switch x.C.ChooseN(fmt.Sprintf("update %d", n), "", "list", "500", "empty", "off", "slow") {
				case 4:
					h.askNow = true
					return &reply{status: 500, body: []byte("no"), delay: time.Hour}
				case 1:
					return &reply{status: 500, body: []byte("no")}
				case 2:
					if enrolled {
						h.goodSince = time.Time{}
					}
					enrolled = false
					return jsonReply(map[string]any{"data": list})
				case 3:
					for _, l := range logs {
						list = append(list, l.metadata(false))
					}
					if enrolled {
						h.goodSince = time.Time{}
					}
					enrolled = false
					return jsonReply(map[string]any{"data": list})
				}
			}
			for _, l := range logs {
				list = append(list, l.metadata(true))
			}
			if !enrolled {
				h.goodSince = time.Now()
			}
			enrolled = true
			return jsonReply(map[string]any{"data": list})
		}
		h.start(runOpt{forever: true, batch: 64, polling: int(polling / time.Second), settings: true, interval: int(4 * polling / time.Second)})
		h.goodSince = time.Time{}
		h.watch("running", time.Duration(updates+2)*4*polling, polling/5, nil)
		x.Outcome = fmt.Sprint(h.seen, e.stateString())
	}}
}

func healthScenarios() []*sim.Scenario {
	return []*sim.Scenario{
		healthOutage("outage", 4, 4, false),
		healthAnswers("answers", pick(1, 2)),
		healthStarting("starting", pick(4, 5)),
		healthOutage("outage-longer", 7, 6, true),
	}
}
