package main

// C11: what is recorded for every kind of entry.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"
	"time"

	types "github.com/mozilla/crlite/go"
	commitcmd "github.com/mozilla/crlite/go/verifcmd/commit"
	pki "github.com/mozilla/crlite/go/verifpki"
	sim "github.com/mozilla/crlite/go/verifsim"
)

// commit runs the commit command and reads persistent storage back.
func (e *env) commit() (map[string]bool, error) {
	vars := map[string]string{"certPath": filepath.Join(e.root, "db"), "redisHost": "127.0.0.1:6379", "redisTimeout": "5s", "statsRefreshPeriod": "10000h"}
	p := e.w.Spawn("commit", func(p *sim.Proc) { sim.RunCommand([]string{"commit"}, vars, commitcmd.Main) })
	if !e.w.RunAll(p) {
		return nil, fmt.Errorf("the commit never ended")
	}
	if p.Panic != nil || p.ExitCode != 0 {
		return nil, fmt.Errorf("the commit failed (%d %v)", p.ExitCode, p.Panic)
	}
	got := map[string]bool{}
	for name, content := range e.w.Files("db") {
		base := filepath.Base(name)
		if !strings.HasPrefix(base, "serials::") {
			continue
		}
		if strings.HasSuffix(filepath.Dir(name), "issuer::"+strings.Split(base, "::")[2]) {
			for i, line := range strings.Split(strings.TrimSpace(content), "\n") {
				if i == 0 {
					continue
				}
				got[base+"/"+line] = true
			}
		}
	}
	return got, nil
}

var (
	serialForms = [][]byte{{1}, {0x7f}, {0, 0x80}, {0}, {0x80}, {0xff, 0x01}, {0, 0, 1}, append([]byte{0x7f}, make([]byte, 19)...), append([]byte{0}, make([]byte, 20)...),
		append([]byte{0x10}, make([]byte, 38)...)}
	kinds     = []string{"cert", "precert", "psc"}
	caForms   = []string{"", "zc", "nf", "eku", "eku-both"}
	certForms = []string{"", "zc", "nf"}
)

func hexes(s [][]byte) []string {
	var r []string
	for _, v := range s {
		r = append(r, hex.EncodeToString(v))
	}
	return r
}

type timeForm struct {
	enc []byte
	at  time.Time
}

func timeForms() []timeForm {
	at := time.Date(2000, 4, 1, 12, 34, 56, 0, time.UTC)
	return []timeForm{
		{nil, at},
		{pki.GenTime("20000401123456Z"), at},
		{pki.UTCTime("000401003456+0530"), time.Date(2000, 3, 31, 19, 4, 56, 0, time.UTC)},
		{pki.UTCTime("0004011234Z"), at.Truncate(time.Minute)},
		{pki.GenTime("20000331233000-0045"), time.Date(2000, 4, 1, 0, 15, 0, 0, time.UTC)},
		{nil, time.Date(2000, 4, 1, 0, 0, 0, 0, time.UTC)},
		{nil, time.Date(2000, 4, 1, 23, 59, 59, 0, time.UTC)},
		{nil, time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)},
	}
}

// oneOf: a log whose entry at a chosen place is of a chosen form; the others
// are plain.
func oneOf(name string, choose func(x *sim.Exec, s *spec), commit bool) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Run: func(x *sim.Exec) {
		tiled := x.C.ChooseN("log", "", "rfc", "tiled") == 1
		s := spec{kind: "cert", ca: "A", serial: []byte{0x55, 0xaa}, notAfter: time.Date(2000, 4, 1, 12, 34, 56, 0, time.UTC)}
		place := chooseInt(x, "place", 0, 2, 4)
		choose(x, &s)
		specs := mixed(5)
		s.ts = specs[place].ts
		specs[place] = s
		mk := rfcLog
		if tiled {
			mk = tiledLog
		}
		l := as("C11", mk)(specs)
		e := newEnv(x, l)
		defer e.done()
		e.w.NoStates = true
		e.w.Horizon = 400 * 24 * time.Hour
		p := e.fetch(runOpt{forever: true, batch: 2})
		if !e.until(24*time.Hour, func() bool { return x.Failed() || e.complete(l) }) && !x.Failed() {
			x.Fail("C11-refused", "the log was not ingested: %s", e.stateString())
		}
		if x.Failed() {
			return
		}
		x.Outcome = e.stateString()
		if !commit {
			return
		}
		// two more hours bring the whole log below the cutoff
		e.until(3*time.Hour, func() bool { return x.Failed() })
		e.w.Kill(p, false)
		got, err := e.commit()
		if err != nil {
			x.Fail("C11-commit", "%v", err)
			return
		}
		want := map[string]bool{}
		for _, en := range l.entries {
			if en.key != "" {
				want[en.key+"/"+hex.EncodeToString(en.serial)] = true
			}
		}
		for k := range want {
			if !got[k] {
				x.Fail("C11-lost", "persistent storage lacks %s", k)
				return
			}
		}
		for k := range got {
			if !want[k] {
				x.Fail("C11-invented", "persistent storage has %s, which is no entry of a log", k)
				return
			}
		}
		var logs []types.CTLogState
		for name, content := range e.w.Files("db") {
			if name == "db/ct-logs.json" || name == "ct-logs.json" {
				if err := json.Unmarshal([]byte(content), &logs); err != nil {
					x.Fail("C11-commit", "ct-logs.json: %v", err)
					return
				}
			}
		}
		if len(logs) != 1 || logs[0].MinEntry != 0 || logs[0].MaxEntry != 4 {
			x.Fail("C11-coverage", "the published coverage is %v", logs)
		}
	}}
}

func kindScenarios() []*sim.Scenario {
	pickKind := func(x *sim.Exec, s *spec) { s.kind = kinds[x.C.ChooseN("kind", "", kinds...)] }
	pickCA := func(x *sim.Exec, s *spec) {
		if s.kind != "psc" {
			s.ca = []string{"A", "B"}[x.C.ChooseN("ca", "", "A", "B")]
		}
	}
	return []*sim.Scenario{
		oneOf("forms", func(x *sim.Exec, s *spec) {
			pickKind(x, s)
			pickCA(x, s)
			s.form = certForms[x.C.ChooseN("form", "", "plain", "zc", "nf")]
			s.caForm = caForms[x.C.ChooseN("issuer form", "", "plain", "zc", "nf", "eku", "eku-both")]
			s.chainPad = x.C.ChooseN("chain", "", "short", "long") == 1
		}, true),
		oneOf("serials", func(x *sim.Exec, s *spec) {
			pickKind(x, s)
			s.serial = serialForms[x.C.ChooseN("serial", "", hexes(serialForms)...)]
			f := []string{"", "nf"}
			if !nonMinimal(s.serial) {
				f = certForms
			}
			s.form = f[x.C.ChooseN("form", "", f...)]
		}, true),
		oneOf("times", func(x *sim.Exec, s *spec) {
			pickKind(x, s)
			t := timeForms()
			i := x.C.ChooseN("not after", "", numbers(len(t))...)
			s.notAfter, s.enc = t[i].at, t[i].enc
			s.form = certForms[x.C.ChooseN("form", "", certForms...)]
		}, true),
		oneOf("skipped", func(x *sim.Exec, s *spec) {
			switch x.C.ChooseN("what", "", "root", "expired", "expired precert", "expires now") {
			case 0:
				s.kind = "root"
			case 1:
				s.notAfter = base.Add(-time.Hour)
			case 2:
				s.kind, s.notAfter = "precert", base.AddDate(-1, 0, 0)
			case 3:
				s.notAfter = base
			}
			s.form = certForms[x.C.ChooseN("form", "", certForms...)]
		}, false),
		twins("twins"),
	}
}

// twins: two entries that agree in everything but one respect, in one or two
// logs, are both recorded.
func twins(name string) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Run: func(x *sim.Exec) {
		differ := x.C.ChooseN("differ", "", "serial", "issuer", "hour", "timestamp", "nothing", "kind", "issuer key", "issuer name")
		two := x.C.ChooseN("logs", "", "one", "rfc+tiled", "tiled+rfc") // which
		place := x.C.ChooseN("place", "", "adjacent", "apart")
		a := spec{kind: "cert", ca: "A", serial: []byte{0x55}, notAfter: time.Date(2000, 4, 1, 12, 34, 56, 0, time.UTC)}
		c := a
		switch differ {
		case 0:
			c.serial = []byte{0, 0x55}
			c.form = "nf"
		case 1:
			c.ca = "B"
		case 2:
			c.notAfter = c.notAfter.Add(time.Hour)
		case 5:
			c.kind = "precert"
		case 6:
			a.caForm, c.caForm, c.ca = "one-name", "one-name", "B"
		case 7:
			c.caForm = "renamed"
		}
		s1, s2 := mixed(6), mixed(6)
		put := func(l []spec, i int, s spec) {
			s.ts = l[i].ts
			l[i] = s
		}
		at := []int{2, 4}[place]
		var logs []*ctLog
		put(s1, 1, a)
		if two == 0 {
			put(s1, at, c)
			if differ != 3 {
				s1[at].ts = s1[1].ts
			}
			logs = []*ctLog{rfcLog(s1)}
		} else {
			put(s2, at, c)
			if differ != 3 {
				s2[at].ts = s1[1].ts
			}
			logs = []*ctLog{rfcLog(s1), tiledLog(s2)}
			if two == 2 {
				logs = []*ctLog{tiledLog(s1), rfcLog(s2)}
			}
		}
		for _, l := range logs {
			l.prop = "C11"
		}
		e := newEnv(x, logs...)
		defer e.done()
		e.w.NoStates = true
		p := e.fetch(runOpt{forever: true, batch: 2})
		if !e.until(24*time.Hour, func() bool { return x.Failed() || e.allComplete() }) && !x.Failed() {
			x.Fail("C11-refused", "the logs were not ingested: %s", e.stateString())
		}
		e.until(3*time.Hour, func() bool { return x.Failed() })
		if x.Failed() {
			return
		}
		e.w.Kill(p, false)
		got, err := e.commit()
		if err != nil {
			x.Fail("C11-commit", "%v", err)
			return
		}
		for _, l := range logs {
			for _, en := range l.entries {
				if k := en.key + "/" + hex.EncodeToString(en.serial); !got[k] {
					x.Fail("C11-lost", "persistent storage lacks %s of %s", k, l.name)
					return
				}
			}
		}
		x.Outcome = fmt.Sprint(len(got), e.stateString())
	}}
}

func nonMinimal(s []byte) bool { return len(s) > 1 && s[0] == 0 && s[1] < 0x80 }

func numbers(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprint(i))
	}
	return r
}
