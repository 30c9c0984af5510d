// Harness for the storage properties C01-C07: real CertDatabase and RedisCache
// code against the simulated Redis and a scratch directory.
package main

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"
	sim "github.com/mozilla/crlite/go/verifsim"
)

func init() {
	flag.Set("logtostderr", "true")
	flag.Set("stderrthreshold", "FATAL")
}

func fatalIf(err error) {
	if err != nil {
		panic(err)
	}
}

// An entry of a CT log.
type entry struct {
	log    *logDef
	idx    uint64
	ts     uint64 // ms
	issuer string
	exp    string // hour label
	serial []byte
}

func (e *entry) String() string {
	return fmt.Sprintf("%s[%d] ts=%d issuer=%.6s exp=%s serial=%x", e.log.name, e.idx, e.ts, e.issuer, e.exp, e.serial)
}

type logDef struct {
	name    string
	id      [32]byte
	url     string
	mmd     uint64 // seconds
	entries []*entry
}

func (l *logDef) short() string {
	u, _ := url.Parse(l.url)
	return u.Host + strings.TrimRight(u.Path, "/")
}

func issuerID(n int) string {
	b := make([]byte, 32)
	for i := range b {
		b[i] = byte(n*37 + i)
	}
	return base64.URLEncoding.EncodeToString(b)
}

const hour = uint64(3600 * 1000)

// env is one execution's world and ground truth.
type env struct {
	x           *sim.Exec
	w           *sim.World
	root        string
	logs        []*logDef
	base        uint64
	stored      map[*entry]bool // Store acknowledged
	offered     map[*entry]bool // Store attempted
	saved       map[string]bool // every log state ever saved (canonical)
	savedMax    map[string]uint64
	lost        map[*entry]bool // lost with the cache, not stored again since
	lossOK      map[*entry]bool // lost while storage already claimed its index
	lossEarly   map[*entry]bool // lost between Store and SaveLogState before the first commit
	busy        map[string]int  // ingesters between reading and saving a log's state
	wipes       int
	head        map[string]uint64
	startAtHead bool // a log without progress starts at its head
	strict      bool // coverage in storage may only widen
	diskMin     map[string]uint64
	lastFS      map[string]string
	diskMax     map[string]uint64
	checks      int
	commits     int
	cacheLost   bool
	noDiskOrder bool
	disk        diskState
	diskAt      uint64
	coveredKey  string
	regressKey  string
	lastKey     string
}

func newEnv(x *sim.Exec, name string) *env {
	root := sim.Scratch(name)
	w := sim.NewWorld(x, root)
	w.Redis = sim.NewRedis()
	e := &env{coveredKey: "C01-covered-not-stored", regressKey: "C04-coverage-regressed", x: x, w: w, root: root, base: uint64(time.Now().UnixMilli()), stored: map[*entry]bool{}, offered: map[*entry]bool{},
		saved: map[string]bool{}, savedMax: map[string]uint64{}, lossOK: map[*entry]bool{}, diskMax: map[string]uint64{},
		lost: map[*entry]bool{}, head: map[string]uint64{}, lossEarly: map[*entry]bool{}, busy: map[string]int{}, diskMin: map[string]uint64{}}
	w.After = func(step string) { e.invariants(step) }
	return e
}

func (e *env) done() {
	e.w.Close()
	os.RemoveAll(e.root)
}

func label(t time.Time) string { return t.UTC().Format("2006-01-02-15") }

// addLog creates a log whose entries appear every stepMs.
func (e *env) addLog(name string, idByte byte, mmd uint64, specs []*entry) *logDef {
	l := &logDef{name: name, url: "https://" + name + ".example/ct/", mmd: mmd}
	for i := range l.id {
		l.id[i] = idByte
	}
	for i, s := range specs {
		s.log = l
		s.idx = uint64(i)
		l.entries = append(l.entries, s)
	}
	e.logs = append(e.logs, l)
	return l
}

func (e *env) at(h float64) string {
	return label(time.UnixMilli(int64(e.base)).Add(time.Duration(h * float64(time.Hour))))
}

func mk(ts uint64, issuer string, exp string, serial ...byte) *entry {
	return &entry{ts: ts, issuer: issuer, exp: exp, serial: serial}
}

func canonState(s types.CTLogState) string {
	s.LastUpdateTime = time.Time{}
	b, _ := json.Marshal(s)
	return string(b)
}

// parseLabel mirrors the documented bin formats independently.
func parseLabel(s string) (start, end time.Time, ok bool) {
	if len(s) == 13 {
		t, err := time.Parse("2006-01-02-15", s)
		return t, t.Add(time.Hour), err == nil
	}
	t, err := time.Parse("2006-01-02", s)
	return t, t.Add(24 * time.Hour), err == nil
}

// live: the bin starts in the future, so neither cache nor storage may drop it.
func live(exp string, now time.Time) bool {
	s, _, _ := parseLabel(exp)
	return now.Before(s)
}

// cutoff is the documented coverage cutoff.
func cutoff(s types.CTLogState) uint64 {
	if s.MaxTimestamp >= s.MMD*1000 {
		return s.MaxTimestamp - s.MMD*1000
	}
	return 0
}

type diskState struct {
	logs     []types.CTLogState
	hasLogs  bool
	serials  map[string]map[string]bool // "exp|issuer" -> hex serial
	epoch    string
	bad      string
	badEpoch string
}

// readDisk parses the storage directory independently of the code under test.
func (e *env) readDisk() diskState {
	v := e.w.Version()[0]
	if e.diskAt != v+1 {
		e.disk, e.diskAt = e.parseDisk(), v+1
	}
	return e.disk
}

func (e *env) parseDisk() diskState {
	d := diskState{serials: map[string]map[string]bool{}}
	files := e.w.Files("")
	for name, content := range files {
		base := filepath.Base(name)
		dir := filepath.Dir(name)
		switch {
		case name == "ct-logs.json":
			d.hasLogs = true
			if err := json.Unmarshal([]byte(content), &d.logs); err != nil {
				d.bad = fmt.Sprintf("ct-logs.json unreadable: %v (%d bytes)", err, len(content))
			}
		case name == "epoch":
			d.epoch = content
			var n uint64
			if _, err := fmt.Sscanf(content, "%d\n", &n); err != nil {
				d.badEpoch = fmt.Sprintf("epoch file unreadable: %q", content)
			}
		case strings.HasPrefix(base, "serials::") && strings.HasPrefix(dir, "serials/issuer::"):
			parts := strings.Split(base, "::")
			if len(parts) != 3 || dir != "serials/issuer::"+parts[2] {
				d.bad = "misplaced serial file " + name
				continue
			}
			start, _, ok := parseLabel(parts[1])
			lines := strings.Split(content, "\n")
			if !ok || len(lines) < 2 || lines[0] != fmt.Sprintf("@%016x", start.Unix()) || lines[len(lines)-1] != "" {
				d.bad = fmt.Sprintf("serial file %s malformed: %.60q", name, content)
				continue
			}
			m := map[string]bool{}
			for _, l := range lines[1 : len(lines)-1] {
				if _, err := hex.DecodeString(l); err != nil {
					d.bad = fmt.Sprintf("serial file %s has bad line %q", name, l)
				}
				m[l] = true
			}
			d.serials[parts[1]+"|"+parts[2]] = m
		}
	}
	return d
}

func (e *env) member(en *entry) (key, val string) {
	b := make([]byte, 40)
	binary.LittleEndian.PutUint64(b, en.ts)
	copy(b[8:], en.log.id[:])
	return "serials::" + en.exp + "::" + en.issuer, string(b) + string(en.serial)
}

func (e *env) inCache(en *entry) bool {
	k, v := e.member(en)
	for _, m := range e.w.Redis.Members(k) {
		if m == v {
			return true
		}
	}
	return false
}

func onDisk(d diskState, en *entry) bool {
	return d.serials[en.exp+"|"+en.issuer][hex.EncodeToString(en.serial)]
}

func (e *env) logByID(id string) *logDef {
	for _, l := range e.logs {
		if base64.StdEncoding.EncodeToString(l.id[:]) == id {
			return l
		}
	}
	return nil
}

// invariants holds at every instant.
func (e *env) invariants(step string) {
	if e.x.Failed() {
		return
	}
	key := fmt.Sprint(e.w.Version(), len(e.stored), len(e.saved), len(e.lost), len(e.lossOK), len(e.offered))
	if key == e.lastKey {
		return
	}
	e.lastKey = key
	e.checks++
	d := e.readDisk()
	now := time.Now()
	if d.bad != "" {
		e.x.Fail("C01-unreadable", "after %q: %s", step, d.bad)
		return
	}
	if d.badEpoch != "" {
		e.x.Fail("C04-epoch-unreadable", "after %q: %s", step, d.badEpoch)
	}
	for _, s := range d.logs {
		l := e.logByID(s.LogID)
		if l == nil {
			e.x.Fail("C01-unknown-log", "after %q: ct-logs.json names unknown log %q", step, s.LogID)
			return
		}
		if !e.saved[canonState(s)] {
			e.x.Fail("C01-invented-coverage", "after %q: ct-logs.json holds a state that was never saved: %s", step, canonState(s))
			return
		}
		if s.MaxEntry < e.diskMax[l.name] && !e.noDiskOrder {
			e.x.Fail(e.regressKey, "after %q: coverage of %s went back from %d to %d", step, l.name, e.diskMax[l.name], s.MaxEntry)
			return
		}
		if lo, ok := e.diskMin[l.name]; ok && s.MinEntry > lo && e.strict {
			e.x.Fail(e.regressKey, "after %q: coverage of %s used to start at %d and now at %d", step, l.name, lo, s.MinEntry)
			return
		}
		e.diskMin[l.name] = s.MinEntry
		e.diskMax[l.name] = s.MaxEntry
		cut := cutoff(s)
		for _, en := range l.entries {
			if en.ts <= cut && en.idx >= s.MinEntry && live(en.exp, now) && !onDisk(d, en) {
				key := e.coveredKey
				if e.lossEarly[en] {
					key = "cache-lost-before-first-commit"
				} else if e.lossOK[en] {
					key = "uncovered-serials-lost-with-cache"
				}
				e.x.Fail(key, "after %q: ct-logs.json covers %s up to %d but %s is not in storage", step, l.name, cut, en)
				if e.x.Failed() {
					return
				}
			}
		}
	}
	if e.strict {
		for n := range e.diskMin {
			found := false
			for _, s := range d.logs {
				if l := e.logByID(s.LogID); l != nil && l.name == n {
					found = true
				}
			}
			if !found {
				e.x.Fail(e.regressKey, "after %q: storage no longer covers %s", step, n)
				return
			}
		}
	}
	// nothing recorded may vanish
	for _, l := range e.logs {
		for _, en := range l.entries {
			if e.stored[en] && live(en.exp, now) && !e.lost[en] && !onDisk(d, en) && !e.inCache(en) {
				e.x.Fail("C02-lost", "after %q: %s was stored but is neither in cache nor in storage", step, en)
				return
			}
		}
	}
	// nothing may be recorded that was never offered
	for k, set := range d.serials {
		for s := range set {
			ok := false
			for _, l := range e.logs {
				for _, en := range l.entries {
					if e.offered[en] && en.exp+"|"+en.issuer == k && hex.EncodeToString(en.serial) == s {
						ok = true
					}
				}
			}
			if !ok {
				e.x.Fail("C02-invented", "after %q: serial %s under %s was never stored", step, s, k)
				return
			}
		}
	}
}

// final: after a successful commit with nothing running, storage is complete.
func (e *env) final(what string) {
	if e.x.Failed() {
		return
	}
	d := e.readDisk()
	now := time.Now()
	if !d.hasLogs {
		e.x.Fail("C03-incomplete", "%s: no coverage metadata after a successful commit", what)
		return
	}
	for _, l := range e.logs {
		v, ok := e.w.Redis.Get("log::" + l.short())
		if !ok {
			continue
		}
		var s types.CTLogState
		fatalIf(json.Unmarshal([]byte(v), &s))
		found := false
		for _, ds := range d.logs {
			if canonState(ds) == canonState(s) {
				found = true
			}
		}
		if !found {
			e.x.Fail("C03-incomplete", "%s: saved progress %s is not in ct-logs.json", what, canonState(s))
			return
		}
		cut := cutoff(s)
		for _, en := range l.entries {
			if !live(en.exp, now) {
				continue
			}
			if e.stored[en] && !e.lost[en] {
				if en.ts <= cut {
					if !onDisk(d, en) {
						e.x.Fail("C03-incomplete", "%s: covered %s is not in storage", what, en)
						return
					}
				} else if !e.inCache(en) {
					e.x.Fail("C02-uncovered-left-cache", "%s: uncovered %s is not in the cache", what, en)
					return
				}
			}
			if en.ts > cut && e.inCache(en) && onDisk(d, en) && !e.duplicateOnDisk(en) {
				e.x.Fail("C02-uncovered-in-storage", "%s: uncovered %s is in storage", what, en)
				return
			}
		}
	}
}

// duplicateOnDisk: another covered entry accounts for the same serial.
func (e *env) duplicateOnDisk(en *entry) bool {
	for _, l := range e.logs {
		for _, o := range l.entries {
			if o != en && o.exp == en.exp && o.issuer == en.issuer && string(o.serial) == string(en.serial) {
				return true
			}
		}
	}
	return false
}

// ---- simulated processes ---------------------------------------------------

func (e *env) open(ro bool) (*storage.RedisCache, *storage.CertDatabase, error) {
	return e.openT(ro, 5*time.Second)
}

func (e *env) openT(ro bool, timeout time.Duration) (*storage.RedisCache, *storage.CertDatabase, error) {
	c, err := storage.NewRedisCache("sim:6379", timeout)
	if err != nil {
		return nil, nil, err
	}
	db, err := storage.NewCertDatabase(c, e.root, ro)
	return c, &db, err
}

// fetcher follows ct-fetch's protocol: make the cache consistent, then per
// batch store the serials and save the log state.
func (e *env) fetcher(p *sim.Proc, upto map[string]uint64, batch uint64) {
	var db *storage.CertDatabase
	for i := 0; ; i++ {
		var err error
		_, db, err = e.open(true)
		if err == nil {
			err = db.EnsureCacheIsConsistent()
		}
		if err == nil {
			break
		}
		e.x.Logf("%s: start failed: %v", p.Name, err)
		if i > 8 {
			p.Err = err
			return
		}
		time.Sleep(time.Hour)
	}
	e.fetchOn(p, db, upto, batch)
}

// fetchOn runs batches on an already started ingester.
func (e *env) fetchOn(p *sim.Proc, db *storage.CertDatabase, upto map[string]uint64, batch uint64) {
	for _, l := range e.logs {
		u, _ := url.Parse(l.url)
		st, err := db.GetLogState(u)
		for i := 0; err != nil && i < 10; i++ {
			time.Sleep(15 * time.Second)
			st, err = db.GetLogState(u)
		}
		if err != nil {
			e.x.Logf("%s: GetLogState(%s): %v", p.Name, l.name, err)
			continue
		}
		e.ingest(p, db, l, st, upto[l.name], batch)
	}
}

func (e *env) ingest(p *sim.Proc, db *storage.CertDatabase, l *logDef, st *types.CTLogState, upto, batch uint64) {
	next := uint64(0)
	if !st.LastUpdateTime.IsZero() {
		next = st.MaxEntry + 1
	}
	e.ingestFrom(p, db, l, st, next, upto, batch)
}

func (e *env) ingestFrom(p *sim.Proc, db *storage.CertDatabase, l *logDef, st *types.CTLogState, next, upto, batch uint64) {
	for next < upto {
		end := next + batch
		if end > upto {
			end = upto
		}
		var items []storage.SetMemberWithExpiry
		for _, en := range l.entries[next:end] {
			x, err := types.NewExpDate(en.exp)
			fatalIf(err)
			iss := types.NewIssuerFromString(en.issuer)
			items = append(items, db.GetSerialCacheKey(x, iss).NewMember(en.ts, l.id, types.NewSerialFromBytes(en.serial)))
			e.offered[en] = true
		}
		ns := *st
		ns.LogID = base64.StdEncoding.EncodeToString(l.id[:])
		ns.MMD = l.mmd
		ns.ShortURL = l.short()
		if st.LastUpdateTime.IsZero() {
			ns.MinEntry = next
			ns.MinTimestamp = l.entries[next].ts
		}
		ns.MaxEntry = end - 1
		for _, en := range l.entries[next:end] {
			if en.ts > ns.MaxTimestamp {
				ns.MaxTimestamp = en.ts
			}
		}
		ns.LastUpdateTime = time.Now()
		for try := 0; ; try++ {
			wipes := e.wipes
			err := db.Store(items)
			if err == nil {
				d := e.readDisk()
				for _, en := range l.entries[next:end] {
					e.stored[en] = true
					delete(e.lossOK, en)
					delete(e.lost, en)
					delete(e.lossEarly, en)
					if wipes != e.wipes && !e.inCache(en) && !onDisk(d, en) {
						// the cache was lost while it was being stored
						e.lost[en] = true
						e.lossEarly[en] = !d.hasLogs
						e.lossOK[en] = d.hasLogs
					}
				}
				e.saved[canonState(ns)] = true
				err = db.SaveLogState(&ns)
			}
			if err == nil {
				break
			}
			e.x.Logf("%s: %v", p.Name, err)
			if try > 6 {
				p.Err = err
				return
			}
			time.Sleep(15 * time.Second)
		}
		st = &ns
		next = end
	}
}

// committer follows aggregate-known's protocol.
func (e *env) committer(p *sim.Proc, patient bool) {
	var cache *storage.RedisCache
	var db *storage.CertDatabase
	var tok *string
	for i := 0; ; i++ {
		var err error
		if cache == nil {
			cache, db, err = e.open(false)
			if err != nil {
				cache = nil
			}
		}
		if err == nil {
			tok, err = cache.AcquireCommitLock()
			if err == nil && tok != nil {
				break
			}
		}
		if !patient || i > 30 {
			p.Err = fmt.Errorf("no lock: %v", err)
			return
		}
		time.Sleep(30 * time.Minute)
	}
	p.Err = db.Commit(*tok)
	if p.Err != nil {
		e.x.Logf("%s: Commit: %v", p.Name, p.Err)
	} else {
		e.commits++
	}
	cache.ReleaseCommitLock(*tok)
}

func (e *env) spawn(name string, f func(p *sim.Proc)) *sim.Proc { return e.w.Spawn(name, f) }

// recover: the documented procedure after trouble: restart ct-fetch, then commit.
func (e *env) recoverAndCheck(upto map[string]uint64, batch uint64) {
	if e.x.Failed() {
		return
	}
	e.w.Sched, e.w.Intra = false, false
	e.w.CrashProcs = map[*sim.Proc]bool{}
	e.w.FaultFilter = nil
	f := e.spawn("F2", func(p *sim.Proc) { e.fetcher(p, upto, batch) })
	if !e.w.RunAll(f) && !e.x.Failed() {
		e.x.Fail("C03-wedged", "the restarted ingester never finished")
	}
	if f.Err != nil {
		e.x.Fail("C03-wedged", "the restarted ingester fails: %v", f.Err)
	}
	c := e.spawn("C2", func(p *sim.Proc) { e.committer(p, true) })
	if !e.w.RunAll(c) && !e.x.Failed() {
		e.x.Fail("C03-wedged", "the recovery commit never finished")
	}
	if c.Exited {
		e.x.Fail("C03-wedged", "the recovery commit exited with %d", c.ExitCode)
	}
	if c.Err != nil {
		e.x.Fail("C03-wedged", "the recovery commit fails: %v", c.Err)
	}
	e.final("after recovery")
}

// outcome summarises what ended up where.
func (e *env) outcome() string {
	d := e.readDisk()
	nd, nc := 0, 0
	for _, m := range d.serials {
		nd += len(m)
	}
	for _, k := range e.w.Redis.Keys("serials::") {
		nc += len(e.w.Redis.Members(k))
	}
	ep, _ := e.w.Redis.Get("epoch")
	var ls []string
	for _, s := range d.logs {
		ls = append(ls, fmt.Sprintf("%.6s:%d", s.ShortURL, s.MaxEntry))
	}
	sort.Strings(ls)
	return fmt.Sprintf("disk=%d cache=%d epoch=%s/%s logs=%v t=%s", nd, nc, ep, strings.TrimSpace(d.epoch), ls, time.Since(time.UnixMilli(int64(e.base))).Round(time.Hour))
}
