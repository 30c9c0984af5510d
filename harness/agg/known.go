package main

// C13: the known-certificates output.

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	types "github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"
	aggknown "github.com/mozilla/crlite/go/verifcmd/aggknown"
	pki "github.com/mozilla/crlite/go/verifpki"
	sim "github.com/mozilla/crlite/go/verifsim"
)

const knownMMD = 3600 // s

// kEntry is an entry of the (only) log.
type kEntry struct {
	idx    uint64
	ts     uint64 // ms
	issuer string // name
	exp    string
	serial []byte
}

// kState is what storage and cache hold before the run.
type kState struct {
	e        *env
	entries  []kEntry
	covered  uint64 // entries in storage: the first ones
	progress uint64 // entries in the cache: those before it
	bins     map[string]map[string]map[string]bool
}

var kLogID = strings.Repeat("\x5a", 32)

func issuerOf(name string) string { _, k := ca(name); return k.IssuerID() }

func binName(t time.Time, day bool) string {
	if day {
		return t.UTC().Format("2006-01-02")
	}
	return t.UTC().Format("2006-01-02-15")
}

func binStart(s string) time.Time {
	for _, f := range []string{"2006-01-02-15", "2006-01-02"} {
		if t, err := time.Parse(f, s); err == nil {
			return t
		}
	}
	panic(s)
}

func binEnd(s string) time.Time {
	if len(s) == 13 {
		return binStart(s).Add(time.Hour)
	}
	return binStart(s).Add(24 * time.Hour)
}

// bin content as storage has it.
func binFile(exp string, serials map[string]bool) string {
	s := fmt.Sprintf("@%016x\n", binStart(exp).Unix())
	var l []string
	for x := range serials {
		l = append(l, x)
	}
	sort.Strings(l)
	for _, x := range l {
		s += x + "\n"
	}
	return s
}

func (k *kState) store(name, exp string, serials ...string) {
	id := issuerOf(name)
	if k.bins[id] == nil {
		k.bins[id] = map[string]map[string]bool{}
	}
	if exp == "" {
		return
	}
	if k.bins[id][exp] == nil {
		k.bins[id][exp] = map[string]bool{}
	}
	for _, s := range serials {
		k.bins[id][exp][s] = true
	}
}

func (k *kState) log(upto uint64) types.CTLogState {
	s := types.CTLogState{LogID: base64.StdEncoding.EncodeToString([]byte(kLogID)), MMD: knownMMD, ShortURL: "log.example/x", MaxEntry: upto - 1, LastUpdateTime: base}
	for _, en := range k.entries[:upto] {
		if s.MinTimestamp == 0 || en.ts < s.MinTimestamp {
			s.MinTimestamp = en.ts
		}
		if en.ts > s.MaxTimestamp {
			s.MaxTimestamp = en.ts
		}
	}
	return s
}

// write lays out storage and cache. Entries before k.covered whose time is at
// most the cutoff of that state are in storage, all others in the cache.
func (k *kState) write() {
	e := k.e
	e.w.Redis = sim.NewRedis()
	cut := uint64(0)
	if k.covered > 0 {
		st := k.log(k.covered)
		cut = st.MaxTimestamp - st.MMD*1000
		j, _ := json.Marshal([]types.CTLogState{st})
		e.put("data/ct-logs.json", append(j, '\n'), base)
	}
	for _, en := range k.entries[:k.progress] {
		if en.idx < k.covered && en.ts <= cut {
			k.store(en.issuer, en.exp, hex.EncodeToString(en.serial))
		} else {
			b := make([]byte, 8)
			binary.LittleEndian.PutUint64(b, en.ts)
			e.w.Redis.Exec([]string{"SADD", "serials::" + en.exp + "::" + issuerOf(en.issuer), string(b) + kLogID + string(en.serial)})
		}
	}
	if k.progress > 0 {
		j, _ := json.Marshal(k.log(k.progress))
		e.w.Redis.Exec([]string{"SET", "log::log.example/x", string(j)})
	}
	fatalIf(os.MkdirAll(e.path("data/serials"), 0o755))
	for id, bins := range k.bins {
		fatalIf(os.MkdirAll(e.path("data/serials/issuer::"+id), 0o755))
		for exp, s := range bins {
			e.put("data/serials/issuer::"+id+"/serials::"+exp+"::"+id, []byte(binFile(exp, s)), base)
		}
	}
	if k.covered > 0 || len(k.bins) > 0 {
		e.put("data/epoch", []byte("1\n"), base)
		e.w.Redis.Exec([]string{"SET", "epoch", "2"})
	}
	e.w.Touch()
}

func enrolledFile(names ...string) []byte {
	l := []enrolledIssuer{}
	for _, n := range names {
		l = append(l, enrolledIssuer{UniqueID: n, PubKeyHash: issuerOf(n), Subject: "CN=" + n, Pem: pki.PEM(mustCA(n))})
	}
	j, _ := json.Marshal(l)
	return j
}

func (e *env) known(threads string) *sim.Proc {
	return e.w.Spawn("aggregate-known", func(p *sim.Proc) {
		sim.RunCommand([]string{"aggregate-known", "-enrolledpath", e.path("enrolled.json"), "-knownpath", e.path("known"), "-ctlogspath", e.path("ct-logs.json")},
			map[string]string{"statsRefreshPeriod": "10000h", "numThreads": threads, "certPath": e.path("data"), "redisHost": "sim:6379", "redisTimeout": "5s"}, aggknown.Main)
	})
}

// parseBins reads "@date" sections. bad describes what cannot be read.
func parseBins(content string) (m map[int64]map[string]bool, bad string) {
	m = map[int64]map[string]bool{}
	if content == "" {
		return
	}
	if !strings.HasSuffix(content, "\n") {
		return m, "does not end with a line"
	}
	var cur map[string]bool
	for _, l := range strings.Split(strings.TrimSuffix(content, "\n"), "\n") {
		if strings.HasPrefix(l, "@") {
			var t int64
			if _, err := fmt.Sscanf(l, "@%016x", &t); err != nil || l != fmt.Sprintf("@%016x", t) {
				return m, fmt.Sprintf("has the date %q", l)
			}
			if m[t] == nil {
				m[t] = map[string]bool{}
			}
			cur = m[t]
			continue
		}
		if b, err := hex.DecodeString(l); err != nil || len(b) == 0 || cur == nil {
			return m, fmt.Sprintf("has the line %q", l)
		}
		cur[l] = true
	}
	return
}

// judgeKnown compares the output of a successful run with storage.
func (k *kState) judge(when string, began time.Time, names ...string) {
	e, x := k.e, k.e.x
	fail := func(key, f string, a ...any) {
		x.Fail(key, "%s: the run ended successfully but %s", when, fmt.Sprintf(f, a...))
	}
	now := time.Now()
	files := e.w.Files("")
	var logs []types.CTLogState
	if err := json.Unmarshal([]byte(files["ct-logs.json"]), &logs); err != nil {
		fail("C13-coverage", "its coverage metadata is unreadable: %q", short(files["ct-logs.json"]))
		return
	}
	var stored []types.CTLogState
	json.Unmarshal([]byte(files["data/ct-logs.json"]), &stored)
	a, _ := json.Marshal(logs)
	b, _ := json.Marshal(stored)
	if string(a) != string(b) && len(logs)+len(stored) > 0 {
		fail("C13-coverage", "its coverage metadata is %s while storage has %s", a, b)
		return
	}
	// storage -> issuer -> date -> serials
	disk := map[string]map[int64]map[string]bool{} // unexpired when the run began
	must := map[string]map[int64]map[string]bool{} // and still when it ended
	add := func(to map[string]map[int64]map[string]bool, id string, t int64, m map[string]bool) {
		if to[id] == nil {
			to[id] = map[int64]map[string]bool{}
		}
		if to[id][t] == nil { // an hour and a day may start together
			to[id][t] = map[string]bool{}
		}
		for s := range m {
			to[id][t][s] = true
		}
	}
	for f, c := range files {
		if strings.HasPrefix(f, "data/serials/issuer::") {
			p := strings.Split(filepath.Base(f), "::")
			if len(p) != 3 || p[0] != "serials" {
				continue
			}
			m, bad := parseBins(c)
			t := binStart(p[1]).Unix()
			if bad != "" || len(m) != 1 || m[t] == nil {
				fail("C13-storage", "the bin %s in storage %s", f, bad)
				return
			}
			if !binEnd(p[1]).After(began) {
				continue // expired
			}
			add(disk, p[2], t, m[t])
			if binEnd(p[1]).After(now) {
				add(must, p[2], t, m[t])
			}
		}
	}
	enrolled := map[string]string{}
	for _, n := range names {
		enrolled[issuerOf(n)] = n
	}
	got := map[string]map[int64]map[string]bool{}
	for f, c := range files {
		if d, id := filepath.Split(f); d == "known/" {
			if enrolled[id] == "" {
				fail("C13-not-enrolled", "there is output for %.8s, which is not enrolled", id)
				return
			}
			m, bad := parseBins(c)
			if bad != "" {
				fail("C13-output", "the output for %s %s", enrolled[id], bad)
				return
			}
			got[id] = m
		}
	}
	for id, n := range enrolled {
		for t, s := range must[id] {
			for v := range s {
				if !got[id][t][v] {
					fail("C13-output", "the output for %s has [%s] under %s, storage has [%s]", n, listed(got[id][t]), time.Unix(t, 0).UTC().Format(time.RFC3339), listed(s))
					return
				}
			}
		}
		for t, g := range got[id] {
			for v := range g {
				if !disk[id][t][v] {
					fail("C13-output", "the output for %s has [%s] under %s, storage has [%s] unexpired", n, listed(g), time.Unix(t, 0).UTC().Format(time.RFC3339), listed(disk[id][t]))
					return
				}
			}
		}
	}
	// what the coverage promises is there
	for _, l := range logs {
		for _, en := range k.entries {
			id := issuerOf(en.issuer)
			if en.idx < l.MinEntry || en.ts > l.MaxTimestamp-l.MMD*1000 || l.MaxTimestamp < l.MMD*1000 || enrolled[id] == "" || !binEnd(en.exp).After(now) {
				continue
			}
			if !got[id][binStart(en.exp).Unix()][hex.EncodeToString(en.serial)] {
				fail("C13-covered", "the covered entry %d (%s, %s) is not in the output", en.idx, en.issuer, en.exp)
				return
			}
		}
	}
}

func (k *kState) end(p *sim.Proc) bool {
	if !k.e.w.RunAll(p) {
		k.e.x.Fail("C13-stuck", "aggregate-known never ended")
		return false
	}
	if p.Panic != nil {
		k.e.x.Fail("panic", "%v", p.Panic)
		return false
	}
	return true
}

// clear makes way for a new run.
func (k *kState) clear() {
	fatalIf(os.RemoveAll(k.e.path("known")))
	os.Remove(k.e.path("ct-logs.json"))
	k.e.w.Touch()
}

func newKnown(x *sim.Exec) *kState {
	e := newEnv(x)
	e.w.HTTP = nil
	return &kState{e: e, bins: map[string]map[string]map[string]bool{}}
}

func (k *kState) add(age time.Duration, issuer, exp string, serial ...byte) {
	k.entries = append(k.entries, kEntry{uint64(len(k.entries)), uint64(base.Add(-age).UnixMilli()), issuer, exp, serial})
}

// contents: what each issuer has in storage and cache.
var knownForms = []struct {
	name string
	set  func(k *kState, n string, b byte)
}{
	{"nothing", func(k *kState, n string, b byte) {}},
	{"an empty directory", func(k *kState, n string, b byte) { k.store(n, "") }},
	{"a bin", func(k *kState, n string, b byte) { k.store(n, "2000-05-01-03", "01", "00ff") }},
	{"two bins", func(k *kState, n string, b byte) {
		k.store(n, "2000-05-01-03", "01")
		k.store(n, "2000-05-01-04", "01", "02")
	}},
	{"a day bin and an hour bin of that day", func(k *kState, n string, b byte) {
		k.store(n, "2000-05-01", "01", "03")
		k.store(n, "2000-05-01-04", "01", "02")
	}},
	{"an expired bin", func(k *kState, n string, b byte) { k.store(n, "1999-12-30-03", "0a") }},
	{"an expired bin and another", func(k *kState, n string, b byte) {
		k.store(n, "1999-12-30-03", "0a")
		k.store(n, "2000-01-02-03", "0b")
	}},
	{"a bin about to expire", func(k *kState, n string, b byte) { k.store(n, "2000-01-01-00", "0a"); k.store(n, "2000-01-01", "0c"); k.store(n, "2000-01-01-23", "0d") }},
	{"covered entries in the cache", func(k *kState, n string, b byte) { k.add(3*time.Hour, n, "2000-06-01-07", 0x10, b) }},
	{"uncovered entries in the cache", func(k *kState, n string, b byte) { k.add(0, n, "2000-06-01-07", 0x11, b) }},
	{"a bin and covered and uncovered entries for it", func(k *kState, n string, b byte) {
		k.store(n, "2000-06-01-07", "01")
		k.add(4*time.Hour, n, "2000-06-01-07", 0x10, b)
		k.add(3*time.Hour, n, "2000-06-01-07", 1)
		k.add(0, n, "2000-06-01-07", 0x11, b)
	}},
	{"expired entries in the cache", func(k *kState, n string, b byte) { k.add(3*time.Hour, n, "1999-06-01-07", 0x10, b) }},
	{"a serial of 200 bytes", func(k *kState, n string, b byte) { k.store(n, "2000-05-01-03", strings.Repeat("7f", 200)) }},
	{"a large bin", func(k *kState, n string, b byte) {
		for i := 0; i < 700; i++ {
			k.store(n, "2000-05-01-03", fmt.Sprintf("10%04x", i))
		}
		k.store(n, "2000-05-02-03", "01")
	}},
	{"an empty bin", func(k *kState, n string, b byte) { k.store(n, "2000-05-01-03") }},
}

// knownAgain: the output directory holds the files of an earlier run.
func knownAgain() *sim.Scenario {
	return &sim.Scenario{Name: "again", Bubble: true, Run: func(x *sim.Exec) {
		k := newKnown(x)
		defer k.e.done()
		var names []string
		for _, f := range knownForms {
			names = append(names, f.name)
		}
		knownForms[x.C.ChooseN("A", "", names...)].set(k, "A", 1)
		k.store("A", "2000-08-01-03", "0f") // the file of an issuer without unexpired certificates is left alone
		k.store("B", "2000-05-01-03", "01", "02")
		k.add(5*time.Hour, "X", "2000-06-01-08", 0x77)
		k.add(0, "X", "2000-06-01-08", 0x79)
		k.progress = uint64(len(k.entries))
		k.write()
		k.e.put("enrolled.json", enrolledFile("A", "B"), base)
		long := "@0000000038f00000\n" + strings.Repeat("0badc0de\n", 400)
		for _, n := range []string{"A", "B"} {
			switch x.C.ChooseN("earlier output for "+n, "", "none", "longer", "shorter", "cut off") {
			case 1:
				k.e.put("known/"+issuerOf(n), []byte(long), base)
			case 2:
				k.e.put("known/"+issuerOf(n), []byte("@0000000038f00000\n"), base)
			case 3:
				k.e.put("known/"+issuerOf(n), []byte(long[:100]), base)
			}
		}
		if x.C.ChooseN("earlier coverage", "", "none", "longer") == 1 {
			k.e.put("ct-logs.json", []byte("["+strings.Repeat("{},", 100)+"{}]\n"), base)
		}
		p := k.e.known("2")
		if !k.end(p) {
			return
		}
		if p.ExitCode != 0 {
			x.Fail("C13-failed", "an undisturbed run failed (%d)", p.ExitCode)
			return
		}
		k.judge("over an earlier run", base, "A", "B")
		x.Outcome = fmt.Sprint(len(k.e.w.Files("known")))
	}}
}

func knownContents() *sim.Scenario {
	return &sim.Scenario{Name: "contents", Bubble: true, Run: func(x *sim.Exec) {
		k := newKnown(x)
		defer k.e.done()
		var names []string
		for _, f := range knownForms {
			names = append(names, f.name)
		}
		knownForms[x.C.ChooseN("A", "", names...)].set(k, "A", 1)
		knownForms[x.C.ChooseN("B", "", names...)].set(k, "B", 2)
		sets := [][]string{{"A", "B", "C"}, {"A"}, {"B", "C"}, {}, {"C"}}
		en := sets[x.C.ChooseN("enrolled", "", "A B C", "A", "B C", "none", "C")]
		threads := []string{"1", "2", "5"}[x.C.ChooseN("threads", "", "1", "2", "5")]
		// something covers
		k.add(5*time.Hour, "X", "2000-06-01-08", 0x77)
		k.add(time.Hour, "X", "2000-06-01-08", 0x78)
		k.add(0, "X", "2000-06-01-08", 0x79)
		k.progress = uint64(len(k.entries))
		k.write()
		k.e.put("enrolled.json", enrolledFile(en...), base)
		time.Sleep([]time.Duration{0, 30 * time.Minute, time.Hour - 2*time.Millisecond, 24*time.Hour - 2*time.Millisecond}[x.C.ChooseN("instant", "", "on the hour", "in the hour", "the end of the hour", "the end of the day")])
		began := time.Now()
		p := k.e.known(threads)
		if !k.end(p) {
			return
		}
		if p.ExitCode != 0 {
			x.Fail("C13-failed", "an undisturbed run failed (%d)", p.ExitCode)
			return
		}
		k.judge("undisturbed", began, en...)
		x.Outcome = fmt.Sprint(len(k.e.w.Files("known")))
	}}
}

// knownSizes: small and large bins, in storage and in the cache, and many of them.
func knownSizes() *sim.Scenario {
	return &sim.Scenario{Name: "sizes", Bubble: true, Run: func(x *sim.Exec) {
		stored, cached, bins := []int{0, 1, 4095, 4097, 20000}, []int{0, 1, 1023, 1025, 5000}, []int{1, 40, 1000, 1001, 2001}
		if sim.Thorough() {
			stored, cached, bins = append(stored, 70000), append(cached, 20000), append(bins, 3000)
		}
		var ks [][3]int
		var descs []string
		for _, a := range stored {
			for _, b := range cached {
				for _, c := range bins {
					ks = append(ks, [3]int{a, b, c})
					descs = append(descs, fmt.Sprintf("%d serials in storage, %d in the cache, %d bins", a, b, c))
				}
			}
		}
		n := ks[x.C.ChooseN("sizes", "", descs...)]
		k := newKnown(x)
		defer k.e.done()
		k.e.w.NoStates = true
		bin := func(i int) string {
			return base.Add(time.Duration(4000+(i%n[2])) * time.Hour).UTC().Format("2006-01-02-15")
		}
		for i := 0; i < n[0]; i++ {
			k.store("A", bin(i), fmt.Sprintf("10%06x", i))
		}
		for i := 0; i < n[1]; i++ {
			k.add(5*time.Hour, "A", bin(i), 0x20, byte(i>>8), byte(i))
		}
		k.add(5*time.Hour, "X", "2000-06-01-08", 0x77)
		k.covered = uint64(len(k.entries))
		k.add(0, "A", bin(0), 0x79)
		k.progress = uint64(len(k.entries))
		k.write()
		k.e.put("enrolled.json", enrolledFile("A", "B"), base)
		began := time.Now()
		p := k.e.known("2")
		if !k.end(p) {
			return
		}
		if p.ExitCode != 0 {
			x.Fail("C13-failed", "an undisturbed run failed (%d)", p.ExitCode)
			return
		}
		k.judge("undisturbed", began, "A", "B")
		x.Outcome = fmt.Sprint(n)
	}}
}

// standard is a state with work left for every step of the run.
func (k *kState) standard() {
	A, B := "2000-06-01-07", "2000-06-02-08"
	k.add(9*time.Hour, "A", A, 1)
	k.add(8*time.Hour, "X", A, 1)
	k.add(8*time.Hour, "B", B, 2)
	k.add(7*time.Hour, "A", B, 0, 0x83)
	k.covered = 4
	k.add(6*time.Hour, "A", A, 4)
	k.add(5*time.Hour, "B", "2000-06-03-09", 5)
	k.add(4*time.Hour, "B", B, 6)
	k.add(0, "A", A, 7)
	k.progress = 8
	k.store("A", "1999-12-31-01", "0e")
	k.write()
	k.e.put("enrolled.json", enrolledFile("A", "B", "C"), base)
}

func knownDisturbed(name, threads string, budget map[string]int, total int, set func(k *kState)) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: budget, Total: total, Run: func(x *sim.Exec) {
		k := newKnown(x)
		e := k.e
		defer e.done()
		k.standard()
		disturbed, signalled, clean := "", false, false
		polls := 0
		e.w.OnFault = func(_ *sim.Proc, kind, f string) { disturbed += kind + " " + f + "; " }
		e.w.Events = map[string]func(){}
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, f []string) []string {
			if clean || p.Name != "aggregate-known" {
				return nil
			}
			if strings.HasPrefix(desc, "set lock::commit") {
				if polls++; polls > 4 { // waiting for a lapsed lock
					return nil
				}
			}
			if len(p.SigChans) > 0 && !signalled {
				f = append(append([]string(nil), f...), "EVsigterm")
			}
			return f
		}
		set(k)
		start := func() *sim.Proc {
			p := e.known(threads)
			e.w.Events["EVsigterm"] = func() { signalled = true; p.Signal(syscall.SIGTERM) }
			return p
		}
		began := time.Now()
		p := start()
		e.w.CrashProcs = map[*sim.Proc]bool{}
		if budget["crash"] > 0 {
			e.w.CrashProcs[p] = true
		}
		if !k.end(p) {
			return
		}
		if !(p.Dead() && !p.Exited) {
			if p.ExitCode == 0 {
				k.judge("first run ("+disturbed+")", began, "A", "B", "C")
				if signalled {
					x.Outcome += "sig"
				}
			} else if disturbed == "" {
				x.Fail("C13-failed", "an undisturbed run failed (%d)", p.ExitCode)
			}
		}
		x.Outcome += fmt.Sprint(p.ExitCode)
		if x.Failed() || p.ExitCode == 0 && !p.Dead() {
			return
		}
		// a new run in new directories, once the lock has lapsed
		clean = true
		e.w.CrashProcs = nil
		if x.C.ChooseN("new run", "", "at once", "later") == 1 {
			time.Sleep(5 * time.Hour)
		}
		k.clear()
		began = time.Now()
		p = start()
		if !k.end(p) {
			return
		}
		if p.ExitCode == 0 {
			k.judge("new run", began, "A", "B", "C")
			return
		}
		// the documented recovery: the downloader makes the cache consistent
		time.Sleep(5 * time.Hour)
		fp := e.w.Spawn("ct-fetch", func(p *sim.Proc) {
			c, err := storage.NewRedisCache("sim:6379", 5*time.Second)
			fatalIf(err)
			db, err := storage.NewCertDatabase(c, e.path("data"), true)
			fatalIf(err)
			p.Err = db.EnsureCacheIsConsistent()
		})
		if !k.end(fp) {
			return
		}
		k.clear()
		began = time.Now()
		p = start()
		if !k.end(p) {
			return
		}
		if p.ExitCode == 0 && fp.Err == nil {
			k.judge("after recovery", began, "A", "B", "C")
		} else {
			x.Fail("C13-failed", "an undisturbed run failed (%d %v) after one with %s", p.ExitCode, fp.Err, disturbed)
		}
	}}
}

// knownIngest: a downloader stores further entries meanwhile.
func knownIngest(budget map[string]int) *sim.Scenario {
	return &sim.Scenario{Name: "ingesting", Bubble: true, Budget: budget, Run: func(x *sim.Exec) {
		k := newKnown(x)
		e := k.e
		defer e.done()
		k.standard()
		k.add(0, "B", "2000-06-02-08", 0x21)
		k.add(-3*time.Hour, "A", "2000-06-01-07", 0x22)
		k.add(-4*time.Hour, "A", "2000-07-01-07", 0x23)
		e.w.Sched = true
		from := k.progress
		began := time.Now()
		kp := e.known("2")
		ip := e.w.Spawn("ct-fetch", func(p *sim.Proc) {
			c, err := storage.NewRedisCache("sim:6379", 5*time.Second)
			if err != nil {
				return
			}
			db, err := storage.NewCertDatabase(c, e.path("data"), true)
			if err != nil {
				return
			}
			for next := from; next < uint64(len(k.entries)); next++ {
				en := k.entries[next]
				d, err := types.NewExpDate(en.exp)
				fatalIf(err)
				var id [32]byte
				copy(id[:], kLogID)
				m := db.GetSerialCacheKey(d, types.NewIssuerFromString(issuerOf(en.issuer))).NewMember(en.ts, id, types.NewSerialFromBytes(en.serial))
				if err := db.Store([]storage.SetMemberWithExpiry{m}); err != nil {
					p.Err = err
					return
				}
				s := k.log(next + 1)
				if err := db.SaveLogState(&s); err != nil {
					p.Err = err
					return
				}
			}
		})
		if !e.w.RunAll(kp, ip) {
			x.Fail("C13-stuck", "aggregate-known or the ingester never ended")
			return
		}
		if kp.Panic != nil || ip.Panic != nil || ip.Err != nil {
			x.Fail("panic", "%v %v %v", kp.Panic, ip.Panic, ip.Err)
			return
		}
		if kp.ExitCode != 0 {
			x.Fail("C13-failed", "an undisturbed run failed (%d)", kp.ExitCode)
			return
		}
		k.judge("while ingesting", began, "A", "B", "C")
		x.Outcome = e.w.Files("")["ct-logs.json"]
	}}
}

// knownLock: another process commits at the same time.
func knownLock(budget map[string]int) *sim.Scenario {
	return &sim.Scenario{Name: "lock", Bubble: true, Budget: budget, Run: func(x *sim.Exec) {
		k := newKnown(x)
		e := k.e
		defer e.done()
		k.standard()
		hold := []time.Duration{0, 10 * time.Minute, 14 * time.Minute, 40 * time.Minute, -1}[x.C.ChooseN("held for", "", "no time", "10m", "14m", "40m", "ever")]
		other := e.w.Spawn("commit", func(p *sim.Proc) {
			c, err := storage.NewRedisCache("sim:6379", 5*time.Second)
			fatalIf(err)
			db, err := storage.NewCertDatabase(c, e.path("data"), false)
			fatalIf(err)
			tok, err := c.AcquireCommitLock()
			if err != nil || tok == nil {
				return
			}
			if hold > 0 {
				time.Sleep(hold)
			}
			if hold < 0 {
				return
			}
			p.Err = db.Commit(*tok)
			c.ReleaseCommitLock(*tok)
		})
		if hold != 0 {
			e.w.Run(func() bool { return e.w.Redis.Keys("lock") != nil || other.Finished() })
		}
		e.w.Sched = true
		began := time.Now()
		p := e.known("1")
		if !e.w.RunAll(p, other) {
			x.Fail("C13-stuck", "aggregate-known never ended")
			return
		}
		if p.Panic != nil || other.Panic != nil {
			x.Fail("panic", "%v %v", p.Panic, other.Panic)
			return
		}
		switch {
		case p.ExitCode == 0:
			k.judge("beside another commit", began, "A", "B", "C")
		case hold >= 0 && hold < 15*time.Minute:
			x.Fail("C13-failed", "the run failed (%d) though the lock was released after %v", p.ExitCode, hold)
		}
		x.Outcome = fmt.Sprint(p.ExitCode, other.Err != nil)
	}}
}

func knownScenarios() []*sim.Scenario {
	pick := func(q, t int) int {
		if sim.Thorough() {
			return t
		}
		return q
	}
	return []*sim.Scenario{
		knownContents(),
		knownSizes(),
		knownAgain(),
		knownDisturbed("faults", "1", map[string]int{"fault": 2}, 0, func(k *kState) { k.e.w.YieldReads = true }),
		knownDisturbed("crashes", "1", map[string]int{"crash": 1, "fault": 1}, 0, func(k *kState) { k.e.w.Power = true }),
		knownDisturbed("schedules", "3", map[string]int{"intra": pick(2, 3), "fault": 1}, pick(2, 3), func(k *kState) { k.e.w.Intra, k.e.w.SyncPoints, k.e.w.YieldReads = true, true, true }),
		knownIngest(map[string]int{"preempt": pick(2, 3)}),
		knownLock(map[string]int{"preempt": pick(2, 3)}),
	}
}
