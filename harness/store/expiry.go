package main

// C06: expiry bins.

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"
	pki "github.com/mozilla/crlite/go/verifpki"
	sim "github.com/mozilla/crlite/go/verifsim"
)

// ---- labels of certificates ------------------------------------------------

var expInstants = func() []time.Time {
	var r []time.Time
	for _, d := range []string{
		"2000-01-02T00:00:00Z", "2000-02-28T23:00:00Z", "2000-02-29T23:00:00Z", "2001-02-28T23:00:00Z", "2024-06-30T12:00:00Z", "2024-12-31T23:00:00Z",
		"2025-03-30T01:00:00Z", "2025-10-26T01:00:00Z", "2049-12-31T23:00:00Z", "2050-01-01T00:00:00Z", "9999-12-31T23:00:00Z", "1999-12-31T23:00:00Z"} {
		t, err := time.Parse(time.RFC3339, d)
		fatalIf(err)
		for _, o := range []time.Duration{0, time.Second, time.Minute, 29*time.Minute + 59*time.Second, 30 * time.Minute, 59*time.Minute + 59*time.Second} {
			r = append(r, t.Add(o))
		}
	}
	return r
}()

var expZones = []int{0, 60, -60, 330, 345, -210, 840, -720, 1, -1, 59}

var localZones = []int{0, 330, -480}

func setLocal(min int) {
	if min == 0 {
		time.Local = time.UTC
	} else {
		time.Local = time.FixedZone("L", min*60)
	}
}

// labelScenario checks every certificate bin on the grid.
func labelScenario() *sim.Scenario {
	return &sim.Scenario{Name: "labels", Run: func(x *sim.Exec) {
		lz := localZones[x.C.ChooseN("local zone", "", "utc", "+5:30", "-8:00")]
		di := x.C.ChooseN("instant", "", names(len(expInstants))...)
		setLocal(lz)
		defer setLocal(0)
		in := expInstants[di]
		want := in.UTC().Format("2006-01-02-15")
		binStart := in.UTC().Truncate(time.Hour)
		check := func(what string, id string) {
			x.Steps++
			if id != want {
				x.Fail("C06-label", "%s of %s is %s, want %s", what, in.Format(time.RFC3339), id, want)
			}
		}
		// sub-second precision and zones
		for _, ns := range []time.Duration{0, 1, time.Millisecond, 999999999} {
			for _, z := range append([]int{}, expZones...) {
				t := in.Add(ns).In(time.FixedZone("Z", z*60))
				d := types.NewExpDateFromTime(t)
				check(fmt.Sprintf("bin (zone %+d min, +%dns)", z, ns), d.ID())
				if d.Unix() != binStart.Unix() {
					x.Fail("C06-label", "bin of %s begins at %d, want %d", t, d.Unix(), binStart.Unix())
				}
				if e := d.ExpireTime(); e.Before(binStart) || e.After(binStart.Add(time.Hour)) {
					x.Fail("C06-label", "cache expiry of %s is %s", t, e)
				}
			}
			check("bin (local)", types.NewExpDateFromTime(in.Add(ns).In(time.Local)).ID())
		}
		// the bin read back from its label
		for _, f := range []struct {
			label string
			start time.Time
			dur   time.Duration
		}{{want, binStart, time.Hour}, {want[:10], binStart.Truncate(24 * time.Hour), 24 * time.Hour}} {
			d, err := types.NewExpDate(f.label)
			if err != nil {
				x.Fail("C06-label", "label %s cannot be read back: %v", f.label, err)
				return
			}
			if d.ID() != f.label || d.Unix() != f.start.Unix() {
				x.Fail("C06-label", "label %s read back as %s beginning %d", f.label, d.ID(), d.Unix())
			}
			end := f.start.Add(f.dur)
			for _, o := range []time.Duration{-48 * time.Hour, -24 * time.Hour, -time.Hour - time.Millisecond, -time.Hour, -time.Second, -time.Millisecond, 0, time.Millisecond, time.Second, time.Hour, 24 * time.Hour} {
				for _, z := range []int{0, 345, -210} {
					at := end.Add(o).In(time.FixedZone("Z", z*60))
					x.Steps++
					if got, want := d.IsExpiredAt(at), o >= 0; got != want {
						x.Fail("C06-expired-at", "bin %s is expired at %s: %v, want %v", f.label, at, got, want)
					}
				}
			}
		}
		// certificates with every encoding of NotAfter
		for _, z := range expZones {
			l := in.In(time.FixedZone("Z", z*60))
			suffix := "Z"
			if z != 0 {
				suffix = l.Format("-0700")
			}
			var encs [][]byte
			if l.Year() >= 1950 && l.Year() < 2050 {
				encs = append(encs, pki.UTCTime(l.Format("060102150405")+suffix))
				if l.Second() == 0 {
					encs = append(encs, pki.UTCTime(l.Format("0601021504")+suffix))
				}
			}
			if l.Year() <= 9999 {
				encs = append(encs, pki.GenTime(l.Format("20060102150405")+suffix))
			}
			for _, enc := range encs {
				der := pki.Cert{Serial: []byte{1}, Issuer: "CA", Subject: "S", NotBefore: pki.UTCTime("990101000000Z"), NotAfter: enc, SPKI: pkiKey.SPKI, Sign: pkiKey}.DER()
				c, err := types.ParseCertificate(der)
				if c == nil {
					if z == 0 && err != nil && len(enc) > 13 {
						x.Fail("C06-parse", "a certificate with NotAfter %q is not accepted: %v", enc[2:], err)
					}
					continue
				}
				parsed++
				if z != 0 {
					parsedZone++
				}
				it := labelDB().PrepareSetMember(c, c, 5, [32]byte{})
				p := strings.Split(it.Key, "::")
				check(fmt.Sprintf("bin of a certificate with NotAfter %q", enc[2:]), p[1])
			}
		}
		x.Outcome = fmt.Sprint(want, parsed > 0, parsedZone > 0)
	}}
}

var parsed, parsedZone int

func labelDB() *storage.CertDatabase {
	if labels == nil {
		db, err := storage.NewCertDatabase(nil, sim.Scratch("labels"), true)
		fatalIf(err)
		labels = &db
	}
	return labels
}

var labels *storage.CertDatabase

func idB64(id [32]byte) string { return base64.StdEncoding.EncodeToString(id[:]) }

var pkiKey = pki.NewKey(1)

func names(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprint(i))
	}
	return r
}

// ---- commits around bin boundaries -----------------------------------------

type binDef struct {
	label string
	dur   time.Duration
}

func (b binDef) end() time.Time {
	s, e, ok := parseLabel(b.label)
	if !ok {
		panic(b.label)
	}
	_ = s
	return e
}

var expBins = []binDef{
	{"2000-01-10-05", time.Hour}, {"2000-01-10-06", time.Hour}, {"2000-01-10-23", time.Hour}, {"2000-01-11-00", time.Hour}, {"2000-01-10", 24 * time.Hour}, {"2000-01-11", 24 * time.Hour},
	{"2000-02-28-23", time.Hour}, {"2000-02-29", 24 * time.Hour}, {"2000-02-29-23", time.Hour}, {"2000-12-31", 24 * time.Hour}, {"2000-12-31-23", time.Hour}, {"2001-01-01-00", time.Hour},
}

var expOffsets = []time.Duration{-25 * time.Hour, -24 * time.Hour, -time.Hour - time.Millisecond, -time.Hour, -time.Hour + time.Millisecond, -time.Second, -time.Millisecond, 0, time.Millisecond, time.Hour - time.Millisecond, time.Hour}

func (e *env) writeBin(label, issuer string, serials ...string) {
	dir := filepath.Join(e.root, "serials", "issuer::"+issuer)
	fatalIf(os.MkdirAll(dir, 0o755))
	s, _, _ := parseLabel(label)
	fatalIf(os.WriteFile(filepath.Join(dir, "serials::"+label+"::"+issuer), []byte(fmt.Sprintf("@%016x\n", s.Unix())+strings.Join(serials, "\n")+"\n"), 0o644))
	e.w.Touch()
}

// expiryScenario: every bin in storage, in the cache or both; commits at every
// offset from the end of one of them.
func expiryScenario(name string, bins, commits int) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Run: func(x *sim.Exec) {
		e := newEnv(x, "x")
		defer e.done()
		e.w.After = nil
		e.w.NoStates = true
		lz := 0
		if bins > 0 {
			lz = x.C.ChooseN("local zone", "", "utc", "+5:30", "-8:00")
		}
		setLocal(localZones[lz])
		defer setLocal(0)
		where := x.C.ChooseN("bins are", "", "stored", "cached", "both", "alternating")
		nb := len(expBins)
		if commits > 1 {
			nb = 6
		}
		var at []time.Time
		for i := 0; i < commits; i++ {
			b := expBins[x.C.ChooseN("bin", "", names(nb)...)]
			at = append(at, b.end().Add(expOffsets[x.C.ChooseN("offset", "", names(len(expOffsets))...)]))
		}
		sort.Slice(at, func(i, j int) bool { return at[i].Before(at[j]) })
		e.stdLogs()
		// entries of the first log that are covered, and later ones that are not
		fatalIf(os.MkdirAll(filepath.Join(e.root, "serials"), 0o755))
		st := types.CTLogState{LogID: idB64(e.logs[0].id), ShortURL: e.logs[0].short(), MaxEntry: 9, MaxTimestamp: e.base + 10*hour, MMD: 3600, LastUpdateTime: time.Now()}
		// (clients are started late: their timers make the passage of time expensive)
		if d := time.Until(at[0]) - time.Second; d > 0 {
			time.Sleep(d)
		}
		p := e.spawn("I", func(p *sim.Proc) {
			_, db, err := e.open(true)
			fatalIf(err)
			fatalIf(db.EnsureCacheIsConsistent())
			fatalIf(db.SaveLogState(&st))
		})
		e.w.RunAll(p)
		type want struct {
			bin    binDef
			issuer string
			vals   map[string]bool
		}
		var all []*want
		I1, I2, I3 := issuerID(1), issuerID(2), issuerID(3)
		for i, b := range expBins {
			for k, iss := range []string{I1, I2, I3} {
				if k == 2 && i != 4 {
					continue // an issuer with a single bin
				}
				w := &want{b, iss, map[string]bool{}}
				stored := where == 0 || where == 2 || where == 3 && (i+k)%2 == 0
				cached := where == 1 || where == 2 || where == 3 && (i+k)%2 == 1
				if stored {
					e.writeBin(b.label, iss, fmt.Sprintf("0a%02x", i), "7f")
					w.vals[fmt.Sprintf("0a%02x", i)], w.vals["7f"] = true, true
				}
				if cached {
					// no expiry on the key: only the commit decides
					key := "serials::" + b.label + "::" + iss
					cov := mk(e.base, iss, b.label, 0x0b, byte(i))
					cov.log = e.logs[0]
					late := mk(e.base+20*hour, iss, b.label, 0x0c, byte(i))
					late.log = e.logs[0]
					_, v1 := e.member(cov)
					_, v2 := e.member(late)
					e.w.Redis.Exec([]string{"sadd", key, v1, v2, "\x00\x8d" + string([]byte{byte(i)})})
					w.vals[fmt.Sprintf("0b%02x", i)] = true
					w.vals[fmt.Sprintf("008d%02x", i)] = true
				}
				all = append(all, w)
			}
		}
		// unrelated files
		junk := map[string]string{"README": "hello", "serials/notes": "n", "serials/issuer::" + I1 + "/notes": "n", "serials/issuer::" + I1 + "/serials::soon::" + I1: "n",
			"serials/issuer::" + I1 + "/serials::1999-01-01": "n", "serials/other/serials::1999-01-01::x": "n", "serials/other::y/serials::1999-01-01-00::x": "n", "1999-01-01": "n", "serials/1999-01-01-00": "n",
			// an issuer with a single bin; a nested directory; an issuer directory with nothing of ours
			"serials/issuer::" + I3 + "/.notes": "n", "serials/issuer::" + I2 + "/old/serials::1999-01-01-00::" + I2: "n", "serials/issuer::foreign/notes": "n"}
		for f, c := range junk {
			fatalIf(os.MkdirAll(filepath.Dir(filepath.Join(e.root, f)), 0o755))
			fatalIf(os.WriteFile(filepath.Join(e.root, f), []byte(c), 0o644))
		}
		fatalIf(os.MkdirAll(filepath.Join(e.root, "empty"), 0o755))
		e.w.Touch()
		for n, t := range at {
			if d := time.Until(t); d > 0 {
				time.Sleep(d)
			}
			c := e.spawn(fmt.Sprintf("C%d", n), func(p *sim.Proc) { e.committer(p, true) })
			if !e.w.RunAll(c) {
				x.Fail("C06-stuck", "commit never finished")
				return
			}
			if c.Err != nil {
				x.Fail("C06-commit", "commit at %s failed: %v", t, c.Err)
				return
			}
			d := e.parseDiskLoose()
			live := 0
			for _, w := range all {
				got, ok := d[w.bin.label+"|"+w.issuer]
				gone := !t.Before(w.bin.end())
				if gone {
					if ok {
						x.Fail("C06-not-removed", "bin %s of %.6s is still in storage after a commit at %s", w.bin.label, w.issuer, t.UTC().Format(time.RFC3339Nano))
					}
					continue
				}
				live++
				if !ok && len(w.vals) > 0 {
					x.Fail("C06-removed-early", "bin %s of %.6s is not in storage after a commit at %s", w.bin.label, w.issuer, t.UTC().Format(time.RFC3339Nano))
					return
				}
				for s := range w.vals {
					if !got[s] {
						x.Fail("C06-removed-early", "serial %s of bin %s is not in storage after a commit at %s", s, w.bin.label, t.UTC().Format(time.RFC3339Nano))
						return
					}
				}
				for s := range got {
					if !w.vals[s] {
						x.Fail("C06-invented", "serial %s appeared in bin %s", s, w.bin.label)
					}
				}
			}
			files := e.w.Files("")
			for f, c := range junk {
				if files[f] != c {
					x.Fail("C06-unrelated", "file %s was changed by a commit at %s", f, t.UTC().Format(time.RFC3339Nano))
				}
			}
			if _, err := os.Stat(filepath.Join(e.root, "empty")); err != nil {
				x.Fail("C06-unrelated", "an unrelated directory was removed")
			}
			x.Outcome += fmt.Sprint(" live=", live)
		}
		x.Outcome = fmt.Sprint(where, x.Outcome)
	}}
}

// parseDiskLoose reads the serial files, whatever else is there.
func (e *env) parseDiskLoose() map[string]map[string]bool {
	r := map[string]map[string]bool{}
	for f, c := range e.w.Files("serials") {
		base := filepath.Base(f)
		parts := strings.Split(base, "::")
		if len(parts) != 3 || parts[0] != "serials" {
			continue
		}
		if _, _, ok := parseLabel(parts[1]); !ok || !strings.HasSuffix(filepath.Dir(f), "issuer::"+parts[2]) {
			continue
		}
		m := map[string]bool{}
		for _, l := range strings.Split(strings.TrimSuffix(c, "\n"), "\n")[1:] {
			if _, err := hex.DecodeString(l); err != nil {
				e.x.Fail("C06-unreadable", "%s has a bad line %q", f, l)
			}
			m[l] = true
		}
		r[parts[1]+"|"+parts[2]] = m
	}
	return r
}

func expiryScenarios() []*sim.Scenario {
	s := []*sim.Scenario{labelScenario(), expiryScenario("commit-times", 1, 1)}
	two := expiryScenario("commit-time-pairs", 0, 2)

	return append(s, two)
}
