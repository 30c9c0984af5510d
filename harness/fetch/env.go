// Harness for ct-fetch: the real command runs as a simulated process against
// fake logs, a fake Remote Settings server and the simulated Redis.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	types "github.com/mozilla/crlite/go"
	ctfetch "github.com/mozilla/crlite/go/verifcmd/ctfetch"
	sim "github.com/mozilla/crlite/go/verifsim"
)

func init() {
	flag.Set("logtostderr", "true")
	flag.Set("stderrthreshold", "FATAL")
}

func fatalIf(err error) {
	if err != nil {
		panic(err)
	}
}

type env struct {
	x        *sim.Exec
	w        *sim.World
	root     string
	logs     []*ctLog
	settings func() *reply // Remote Settings answer
	saved    map[string]types.CTLogState
	ever     map[string]bool
	versions uint64
	cards    map[string]int
	runs     int
	// faultsFor lists the faults offered for a request.
	faultsFor func(l *ctLog, what string) []string
	resetOK   bool // the cache is being reset from storage: progress may go back
	active    map[*ctLog]int
	maxActive map[*ctLog]int
	reqLog    []string
	keep      bool
	noStored  bool
	prefix    string // property prefix for keys of progress violations
	onFault   func(l *ctLog, fault string)
	onRequest func(l *ctLog, what string)
	onAsk     func(l *ctLog, what, path, fault string)
	asking    string // the kind of the request being answered
	force     func(l *ctLog, what string) string // a fault that happens in any case
}

func newEnv(x *sim.Exec, logs ...*ctLog) *env {
	root := sim.Scratch("f")
	w := sim.NewWorld(x, root)
	w.Redis = sim.NewRedis()
	e := &env{x: x, w: w, root: root, logs: logs, saved: map[string]types.CTLogState{}, ever: map[string]bool{}, cards: map[string]int{}, active: map[*ctLog]int{}, maxActive: map[*ctLog]int{}}
	w.HTTP = e.http
	w.After = func(step string) { e.check(step) }
	w.Redis.Quiet = func(args []string) bool { return false }
	w.Horizon = 14 * 24 * time.Hour
	w.FIFO = true
	for _, l := range logs {
		if l.tiled {
			e.prefix = "C10"
		}
	}
	return e
}

func (e *env) done() {
	e.w.Close()
	os.RemoveAll(e.root)
}

func (e *env) logAt(host string) *ctLog {
	for _, l := range e.logs {
		if l.host() == host {
			return l
		}
	}
	return nil
}

// what is the kind of a request.
func what(l *ctLog, req *http.Request) string {
	p := strings.TrimPrefix(req.URL.Path, "/2000/")
	p = strings.TrimPrefix(p, "ct/v1/")
	switch {
	case strings.HasPrefix(p, "issuer/"):
		return "issuer"
	case strings.HasPrefix(p, "tile/data/"):
		return "data"
	case strings.HasPrefix(p, "tile/"):
		return "tile"
	}
	return p
}

func (e *env) http(p *sim.Proc, req *http.Request) (*http.Response, error) {
	l := e.logAt(req.URL.Host)
	desc := "GET " + req.URL.Host + strings.TrimPrefix(req.URL.Path, "/2000")
	if req.URL.RawQuery != "" {
		desc += "?" + req.URL.RawQuery
	}
	kind := "settings"
	if l != nil {
		kind = what(l, req)
	}
	if i := strings.Index(desc, "issuer/"); i >= 0 {
		desc = desc[:i+15]
	}
	var faults []string
	if e.faultsFor != nil {
		faults = e.faultsFor(l, kind)
	}
	fault := p.YieldFaults("http", desc, faults)
	if e.force != nil && fault == "" {
		fault = e.force(l, kind)
	}
	e.asking = kind
	if fault != "" && e.onFault != nil {
		e.onFault(l, fault)
	}
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	if e.onRequest != nil {
		e.onRequest(l, kind)
	}
	if e.onAsk != nil {
		e.onAsk(l, kind, strings.TrimPrefix(req.URL.RequestURI(), "/2000"), fault)
	}
	var r *reply
	switch fault {
	case "conn":
		return nil, errors.New("connection refused")
	case "500", "503", "404", "429", "400":
		r = &reply{body: []byte("no")}
		fmt.Sscanf(fault, "%d", &r.status)
	case "garbage":
		r = ok([]byte("<html>not what you asked for</html>"))
	case "slow":
		r = l.serve(req, "")
		r.delay = 8 * time.Second
	case "hang":
		<-req.Context().Done()
		return nil, req.Context().Err()
	default:
		switch {
		case l == nil && strings.HasPrefix(req.URL.Host, "settings"):
			if !strings.HasSuffix(req.URL.Path, "/buckets/security-state/collections/ct-logs/records") || req.URL.Scheme != "https" {
				r = &reply{status: 404}
			} else {
				r = e.settings()
			}
		case l == nil || l.down:
			return nil, errors.New("no such host")
		default:
			r = l.serve(req, fault)
		}
	}
	if r.err != nil {
		return nil, r.err
	}
	if r.delay > 0 {
		select {
		case <-time.After(r.delay):
		case <-req.Context().Done():
			return nil, req.Context().Err()
		}
	}
	var body io.Reader = bytes.NewReader(r.body)
	if fault == "trunc" {
		body = io.MultiReader(bytes.NewReader(r.body[:len(r.body)/2]), errReader{})
	}
	h := r.hdr
	if h == nil {
		h = http.Header{}
	}
	return &http.Response{Status: fmt.Sprintf("%d %s", r.status, http.StatusText(r.status)), StatusCode: r.status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(body), ContentLength: int64(len(r.body)), Request: req}, nil
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

type runOpt struct {
	forever  bool
	batch    int
	polling  int
	settings bool
	expired  bool
	local    []map[string]any
	interval int // seconds between Remote Settings updates
}

// fetch starts a ct-fetch process.
func (e *env) fetch(o runOpt) *sim.Proc {
	e.runs++
	vars := map[string]string{"certPath": filepath.Join(e.root, "db"), "redisHost": "127.0.0.1:6379", "redisTimeout": "5s", "healthAddr": "127.0.0.1:0",
		"pollingDelay": "600", "remoteSettingsUpdateInterval": "3600", "statsRefreshPeriod": "10000h"}
	if o.polling > 0 {
		vars["pollingDelay"] = fmt.Sprint(o.polling)
	}
	if o.batch > 0 {
		vars["batchSize"] = fmt.Sprint(o.batch)
	}
	if o.forever {
		vars["runForever"] = "true"
	}
	if o.expired {
		vars["logExpiredEntries"] = "true"
	}
	if o.interval > 0 {
		vars["remoteSettingsUpdateInterval"] = fmt.Sprint(o.interval)
	}
	if o.settings {
		vars["remoteSettingsURL"] = "https://settings.example/v1/"
	} else {
		list := o.local
		if list == nil {
			for _, l := range e.logs {
				list = append(list, l.metadata(true))
			}
		}
		b, err := json.Marshal(list)
		fatalIf(err)
		vars["ctLogMetadata"] = string(b)
	}
	fatalIf(os.MkdirAll(filepath.Join(e.root, "db"), 0755))
	return e.w.Spawn(fmt.Sprintf("fetch%d", e.runs), func(p *sim.Proc) {
		sim.RunCommand([]string{"ct-fetch"}, vars, ctfetch.Main)
	})
}

// state reads a log's saved progress from Redis.
func (e *env) state(l *ctLog) (types.CTLogState, bool) {
	var s types.CTLogState
	v, found := e.w.Redis.Get("log::" + l.short())
	if !found {
		return s, false
	}
	if err := json.Unmarshal([]byte(v), &s); err != nil {
		e.x.Fail(e.key("unreadable"), "progress of %s unreadable: %q", l.name, v)
		return s, false
	}
	if s.LastUpdateTime.IsZero() {
		return s, false
	}
	return s, true
}

func (e *env) key(k string) string { return "progress-" + k }

func (l *ctLog) pre(k string) string {
	if l.prop != "" {
		return l.prop + "-" + k
	}
	if l.tiled {
		return "C10-" + k
	}
	return "C09-" + k
}

// check holds after every step.
func (e *env) check(step string) {
	if e.x.Failed() {
		return
	}
	v := e.w.Version()[1]
	if v == e.versions {
		return
	}
	e.versions = v
	now := time.Now()
	for _, l := range e.logs {
		s, found := e.state(l)
		old, had := e.saved[l.name]
		if !found {
			if had && !e.resetOK {
				e.x.Fail(l.pre("lost-progress"), "after %q: %s's progress (%d-%d) is gone", step, l.name, old.MinEntry, old.MaxEntry)
			}
			continue
		}
		if had && s == old {
			continue
		}
		e.saved[l.name] = s
		if l.badHead != "" {
			k := "C08-tree-head"
			if l.tiled {
				k = "C10-tree-head"
			}
			e.x.Fail(k, "after %q: %s's progress %d-%d was saved although the last tree head was not the log's (%s)", step, l.name, s.MinEntry, s.MaxEntry, l.badHead)
			if e.x.Failed() {
				return
			}
		}
		if s.MinEntry > s.MaxEntry || s.MaxEntry >= uint64(len(l.entries)) {
			e.x.Fail(l.pre("range"), "after %q: %s's progress is %d-%d but the log has %d entries", step, l.name, s.MinEntry, s.MaxEntry, len(l.entries))
			return
		}
		if s.LogID != base64.StdEncoding.EncodeToString(l.id[:]) || s.MMD != l.mmd {
			e.x.Fail(l.pre("identity"), "after %q: %s's progress is labelled %s with merge delay %d", step, l.name, s.LogID, s.MMD)
			if e.x.Failed() {
				return
			}
		}
		if had && !e.resetOK && (s.MinEntry > old.MinEntry || s.MaxEntry < old.MaxEntry) {
			e.x.Fail(l.pre("shrank"), "after %q: %s's progress went from %d-%d to %d-%d", step, l.name, old.MinEntry, old.MaxEntry, s.MinEntry, s.MaxEntry)
			if e.x.Failed() {
				return
			}
		}
		if had && !e.resetOK && s.MaxTimestamp < old.MaxTimestamp {
			e.x.Fail(l.pre("time-shrank"), "after %q: %s's newest timestamp went from %d to %d", step, l.name, old.MaxTimestamp, s.MaxTimestamp)
			if e.x.Failed() {
				return
			}
		}
		var newest uint64
		for i := s.MinEntry; i <= s.MaxEntry; i++ {
			en := l.entries[i]
			if en.ms > newest {
				newest = en.ms
			}
			if en.ms < s.MinTimestamp {
				e.x.Fail(l.pre("min-timestamp"), "after %q: %s's progress says the oldest timestamp is %d but entry %d has %d", step, l.name, s.MinTimestamp, i, en.ms)
				if e.x.Failed() {
					return
				}
			}
			if had && old.MinEntry <= i && i <= old.MaxEntry {
				// accepted before
			} else if !l.tiled && !l.proven[i] {
				e.x.Fail("C08-unproven", "after %q: %s's progress %d-%d includes entry %d, whose place in the consistency proof held a wrong hash", step, l.name, s.MinEntry, s.MaxEntry, i)
				if e.x.Failed() {
					return
				}
			} else if !l.delivered[i] {
				k := "C08-unverified"
				if l.tiled {
					k = "C10-unverified"
				}
				e.x.Fail(k, "after %q: %s's progress %d-%d includes entry %d, which was never delivered unaltered", step, l.name, s.MinEntry, s.MaxEntry, i)
				if e.x.Failed() {
					return
				}
			}
			if en.key != "" && en.binEnd.After(now) && !e.w.Redis.Has(en.key, en.member) {
				e.x.Fail(l.pre("not-stored"), "after %q: %s's progress %d-%d includes entry %d (%s serial %x), which is not stored", step, l.name, s.MinEntry, s.MaxEntry, i, en.kind, en.serial)
				if e.x.Failed() {
					return
				}
			}
		}
		for i := s.MaxEntry + 1; i < uint64(len(l.entries)); i++ {
			if l.entries[i].ms+l.mmd*1000 <= s.MaxTimestamp {
				e.x.Fail(l.pre("coverage"), "after %q: %s's progress %d-%d with newest timestamp %d claims to cover entry %d of %d", step, l.name, s.MinEntry, s.MaxEntry, s.MaxTimestamp, i, l.entries[i].ms)
				if e.x.Failed() {
					return
				}
			}
		}
		if s.MaxTimestamp > newest {
			// only the log's signed word that nothing older will follow
			// justifies more
			good := false
			for h := range l.headOK {
				if h[0] <= s.MaxEntry+1 && s.MaxTimestamp == h[1] {
					good = true
				}
			}
			if !good {
				e.x.Fail(l.pre("timestamp"), "after %q: %s's newest timestamp is %d; its entries %d-%d reach %d and no signed tree head of that size has that time", step, l.name, s.MaxTimestamp, s.MinEntry, s.MaxEntry, newest)
				if e.x.Failed() {
					return
				}
			}
		}
	}
	// nothing recorded that is in no log
	if e.noStored {
		return
	}
	for _, k := range e.w.Redis.Keys("serials::") {
		if n := e.w.Redis.Card(k); n == e.cards[k] {
			continue
		} else {
			e.cards[k] = n
		}
		for _, m := range e.w.Redis.Members(k) {
			good := false
			for _, l := range e.logs {
				good = good || l.members[k+m]
			}
			if !good {
				e.x.Fail("C11-invented", "after %q: %q holds %x, which is no entry of a log", step, k, m)
				if e.x.Failed() {
					return
				}
			}
		}
	}
}

// settle runs ct-fetch until nothing is left to fetch or the time is up.
func (e *env) complete(l *ctLog) bool {
	s, found := e.state(l)
	return found && s.MinEntry == 0 && s.MaxEntry == l.size-1
}

func (e *env) stateString() string {
	var parts []string
	for _, l := range e.logs {
		s, found := e.state(l)
		if !found {
			parts = append(parts, l.name+":none")
			continue
		}
		parts = append(parts, fmt.Sprintf("%s:%d-%d@%d", l.name, s.MinEntry, s.MaxEntry, int64(s.MaxTimestamp)-base.UnixMilli()))
	}
	sort.Strings(parts)
	return strings.Join(parts, " ")
}

var _ = syscall.SIGTERM
