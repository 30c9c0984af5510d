package main

// C15: downloads.

import (
	"context"
	"fmt"
	"net/url"
	"os"
	"strings"
	"time"

	"github.com/mozilla/crlite/go/downloader"
	sim "github.com/mozilla/crlite/go/verifsim"
)

var valid = map[string]string{
	"first release, short one":                            "old",
	"The second release, 32 bytes :-)":                    "v1",
	"Third release, of the same size.":                    "v2",
	"The fourth release is rather longer than the others": "v3",
	"5th is short": "v4",
}

func version(v string) string {
	for c, n := range valid {
		if n == v {
			return c
		}
	}
	panic(v)
}

type verifier struct{}

func (verifier) IsValid(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	if _, ok := valid[string(b)]; !ok {
		return fmt.Errorf("%q is not valid", b)
	}
	return nil
}

type auditor struct{}

func (auditor) FailedDownload(downloader.DownloadIdentifier, *url.URL, *downloader.DownloadTracer, error) {
}
func (auditor) FailedVerifyUrl(downloader.DownloadIdentifier, *url.URL, *downloader.DownloadTracer, error) {
}
func (auditor) FailedVerifyPath(downloader.DownloadIdentifier, *url.URL, string, error) {}

type ident string

func (i ident) ID() string { return string(i) }

type dlRun struct {
	p    *sim.Proc
	ok   bool
	err  error
	over bool
}

const fileURL = "http://crl.example/a.crl"

func (e *env) download(retries uint, cancel bool) *dlRun {
	r := &dlRun{}
	u, _ := url.Parse(fileURL)
	r.p = e.w.Spawn("D", func(p *sim.Proc) {
		ctx, stop := context.WithCancel(context.Background())
		defer stop()
		if cancel {
			e.w.Events = map[string]func(){"EVcancel": stop}
		}
		r.ok, r.err = downloader.DownloadAndVerifyFileSync(ctx, verifier{}, auditor{}, ident("x"), *u, e.path("final"), retries, 300*time.Second)
		r.over = true
	})
	return r
}

// histories: several runs while the file on the server changes.
func histories(name string, runs int, budget map[string]int, total int, power bool) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: budget, Total: total, Run: func(x *sim.Exec) {
		e := newEnv(x)
		defer e.done()
		e.w.Power = power
		initial := []string{"", "old", "bad", "empty"}[x.C.ChooseN("on disk", "", "nothing", "old", "bad", "empty")]
		dated := x.C.ChooseN("dates", "", "dated", "undated") == 0
		ranges := x.C.ChooseN("ranges", "", "no", "yes") == 1
		may := map[string]bool{} // contents the file may have
		switch initial {
		case "":
			may["-"] = true
		case "old":
			e.put("final", []byte(version("old")), base.Add(-48*time.Hour))
			may[version("old")] = true
		case "bad":
			e.put("final", []byte("damaged"), base.Add(-48*time.Hour))
			may["damaged"] = true
		case "empty":
			e.put("final", nil, base.Add(-48*time.Hour))
			may[""] = true
		}
		now := func() string {
			b, ok := e.get("final")
			if !ok {
				return "-"
			}
			return string(b)
		}
		disturbed := false
		clean := false
		e.onFault = func(string) { disturbed = true }
		e.w.OnFault = func(*sim.Proc, string, string) { disturbed = true }
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, f []string) []string {
			if clean {
				return nil
			}
			if len(e.w.Events) > 0 && (kind == "http" || kind == "fs") {
				f = append(append([]string(nil), f...), "EVcancel")
			}
			return f
		}
		e.webFaults = func(m, u string) []string {
			if u != fileURL {
				return nil
			}
			if m == "HEAD" {
				return headFaults
			}
			return getFaults
		}
		check := func(step string) {
			c := now()
			if !may[c] {
				x.Fail("C15-content", "after %q the file holds %q, which is neither its previous content nor a version the server sent", step, c)
			}
		}
		e.w.After = check
		var out []string
		leftover := false // a run was kept from clearing up
		for i := 0; i < runs; i++ {
			v, when := "v1", base.Add(-24*time.Hour)
			if i > 0 {
				if i == runs-1 && runs > 2 {
					// the last run asks for what the one before did, or again another
					if x.C.ChooseN("then", "", "same", "changed") == 1 {
						v = "v1"
						when = time.Now()
						e.pages[fileURL] = &page{body: []byte(version(v)), lastMod: when, ranges: ranges}
					} else {
						v = ""
					}
				} else {
					k := x.C.ChooseN("server", "", "same", "newer", "newer, longer", "newer, shorter", "newer, dated as before")
					v = []string{"v1", "v2", "v3", "v4", "v2"}[k]
					if k > 0 && k < 4 {
						when = time.Now()
					}
				}
			}
			if v != "" {
				e.pages[fileURL] = &page{body: []byte(version(v)), lastMod: when, ranges: ranges}
			}
			pg := e.pages[fileURL]
			if !dated {
				pg.lastMod = time.Time{}
			}
			may[string(pg.body)] = true
			clean = i == runs-1
			before := now()
			d0 := disturbed
			disturbed = false
			r := e.download(1, !clean)
			e.w.CrashProcs = nil
			if !clean {
				e.w.CrashProcs = map[*sim.Proc]bool{r.p: true}
			}
			if !e.w.RunAll(r.p) {
				x.Fail("C15-stuck", "the download never ended")
				return
			}
			e.w.Events = nil
			if x.Failed() {
				return
			}
			if r.p.Panic != nil {
				x.Fail("panic", "%v", r.p.Panic)
				return
			}
			c := now()
			if !r.over {
				out = append(out, "crash")
			} else {
				_, good := valid[c]
				if r.ok != good {
					x.Fail("C15-report", "the run reported %v (%v) but the file holds %q", r.ok, r.err, c)
					return
				}
				if !disturbed && !leftover && c != string(pg.body) {
					x.Fail("C15-not-updated", "an undisturbed run left %q (the server has %q)", c, pg.body)
					return
				}
				if !disturbed && !r.ok {
					x.Fail("C15-unusable", "an undisturbed run could not provide the file: %v", r.err)
					return
				}
				out = append(out, fmt.Sprint(valid[c], r.ok, r.err == nil))
			}
			disturbed = disturbed || d0
			files := e.w.Files("")
			_, has := files["final"]
			leftover = len(files) > 1 || len(files) == 1 && !has
			// what was replaced can no longer come back
			if c != before {
				for k := range may {
					if k != c && k != string(pg.body) {
						delete(may, k)
					}
				}
			}
			time.Sleep(time.Hour)
		}
		x.Outcome = strings.Join(out, ";")
	}}
}

func downloadScenarios() []*sim.Scenario {
	pick := func(q, t int) int {
		if sim.Thorough() {
			return t
		}
		return q
	}
	return []*sim.Scenario{
		urlsScenario(),
		histories("faults", 2, map[string]int{"fault": pick(2, 3)}, 0, false),
		histories("crashes", 3, map[string]int{"fault": 1, "crash": pick(1, 2)}, pick(2, 3), true),
	}
}
