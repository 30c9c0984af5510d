package main

// C27: the audit report.

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"sort"
	"strings"
	"time"

	pki "github.com/mozilla/crlite/go/verifpki"
	sim "github.com/mozilla/crlite/go/verifsim"
)

const (
	aDown  = "Failed Download"
	aProc  = "Failed Process Local"
	aVer   = "Failed Verify"
	aEmpty = "Empty Revocation List"
	aOld   = "Not Fresh, Warning"
	aExp   = "Expired, Allowed"
	aValid = "Valid, Processed"
	aDP    = "Wrong distribution point"
)

var oidIDP = pki.OID(2, 5, 29, 28)

// idp is an issuing distribution point extension with these URLs.
func idp(urls ...string) []byte {
	var n [][]byte
	for _, u := range urls {
		n = append(n, pki.T(0x86, []byte(u)))
	}
	return pki.Ext(oidIDP, true, pki.Seq(pki.T(0xa0, pki.T(0xa0, n...))))
}

// audited is what the report must say of one URL of one issuer: the kinds of
// its entries, "a|b" for either, a leading "?" for one that may be missing.
type audited struct {
	kinds []string
	n     int    // revocations
	file  []byte // what is processed
}

// judgeAudit compares the report of a successful run. issuer name -> URL. After
// a local failure (loose) other problems than those offered may be reported,
// but nothing may be left out.
func (e *env) judgeAudit(want map[string]map[string]audited, began time.Time, loose bool) bool {
	x := e.x
	b, found := e.get("audit.json")
	if !found {
		x.Fail("C27-missing", "the run ended successfully without a report")
		return false
	}
	var rep struct {
		Entries []struct {
			Timestamp                        time.Time
			Url, Issuer, IssuerSubject, Kind string
			NumRevocations                   int
			SHA256Sum                        string
		}
	}
	if err := json.Unmarshal(b, &rep); err != nil {
		x.Fail("C27-unreadable", "the report is not JSON: %v", err)
		return false
	}
	got := map[string][]string{}
	for _, en := range rep.Entries {
		name := ""
		for n := range want {
			if issuerOf(n) == en.Issuer {
				name = n
			}
		}
		if name == "" {
			x.Fail("C27-invented", "the report speaks of an issuer %q", en.Issuer)
			return false
		}
		w, has := want[name][en.Url]
		if !has {
			x.Fail("C27-invented", "the report says %q of %q, which is not a CRL of %s", en.Kind, en.Url, name)
			return false
		}
		if !strings.Contains(en.IssuerSubject, name) {
			x.Fail("C27-subject", "the issuer %s is named %q", name, en.IssuerSubject)
			return false
		}
		if en.Timestamp.Before(began.Add(-time.Second)) || en.Timestamp.After(time.Now()) {
			x.Fail("C27-time", "an entry is of %v, the run of %v to %v", en.Timestamp, began, time.Now())
			return false
		}
		if en.Kind == aValid {
			s := sha256.Sum256(w.file)
			if en.NumRevocations != w.n || en.SHA256Sum != hex.EncodeToString(s[:]) {
				x.Fail("C27-processed", "%s of %s is reported with %d revocations and hash %.8s, the file that must be used has %d and %.8x", en.Url, name, en.NumRevocations, en.SHA256Sum, w.n, s)
				return false
			}
		}
		got[name+" "+en.Url] = append(got[name+" "+en.Url], en.Kind)
	}
	reported := map[string]bool{} // a problem of an issuer
	for n, urls := range want {
		for u, w := range urls {
			if loose {
				bad, good := 0, 0
				for _, k := range got[n+" "+u] {
					switch k {
					case aDown, aVer, aProc:
						bad++
					case aValid, aEmpty:
						good++
					}
				}
				if bad+good == 0 || good > 1 {
					x.Fail("C27-left-out", "of %s the report says %q", u, got[n+" "+u])
					return false
				}
				if good == 0 {
					reported[n] = true
				}
				continue
			}
			g := append([]string(nil), got[n+" "+u]...)
			sort.Strings(g)
			missing := ""
			for _, k := range w.kinds {
				opt := strings.HasPrefix(k, "?")
				hit := -1
				for i, v := range g {
					for _, a := range strings.Split(strings.TrimPrefix(k, "?"), "|") {
						if v == a {
							hit = i
						}
					}
				}
				if hit >= 0 {
					g = append(g[:hit], g[hit+1:]...)
				} else if !opt {
					missing = k
				}
			}
			if missing != "" || len(g) > 0 {
				x.Fail("C27-entries", "of %s the report says %q, want %q", u, got[n+" "+u], w.kinds)
				return false
			}
		}
	}
	// the lists agree
	lists, bad := e.lists()
	if bad != "" {
		x.Fail("C27-list", "%s", bad)
		return false
	}
	for n, urls := range want {
		ok := true
		for _, w := range urls {
			ok = ok && w.file != nil
		}
		if loose {
			ok = !reported[n]
		}
		if _, has := lists[issuerOf(n)]; has != ok {
			x.Fail("C27-list", "the issuer %s has a list: %v, its CRLs are all reported as usable: %v", n, has, ok)
			return false
		}
	}
	return true
}

// auditOffer is what a URL answers and what the report must say of it.
type auditOffer struct {
	name  string
	make  func(c pki.CRL, own, other string) *page
	kinds []string // problems with what is offered
	used  bool
	count int // entries
	dp    bool // its distribution point is wrong, if that counts
}

func dpd(c pki.CRL, urls ...string) pki.CRL {
	c.Exts = append(append([][]byte(nil), c.Exts...), idp(urls...))
	return c
}

var auditOffers = func() []auditOffer {
	own := func(f func(c pki.CRL) *page) func(pki.CRL, string, string) *page {
		return func(c pki.CRL, o, _ string) *page { return f(dpd(c, o)) }
	}
	l := []auditOffer{
		{"good", own(func(c pki.CRL) *page { return ok(c) }), nil, true, 2, false},
		{"empty list", own(func(c pki.CRL) *page { c.Entries, c.NoList = nil, true; return ok(c) }), []string{aEmpty}, true, 0, false},
		{"expired", own(func(c pki.CRL) *page { c.This, c.Next = older, pki.UTCTime("991225000000Z"); return ok(c) }), []string{"?" + aExp}, true, 2, false},
		{"old file", own(func(c pki.CRL) *page { return &page{body: c.DER(), lastMod: base.Add(-400 * time.Hour)} }), []string{aOld}, true, 2, false},
		{"no date", own(func(c pki.CRL) *page { return &page{body: c.DER()} }), nil, true, 2, false},
		{"no distribution point", func(c pki.CRL, o, _ string) *page { return ok(c) }, nil, true, 2, true},
		{"both points", func(c pki.CRL, o, other string) *page { return ok(dpd(c, o, other)) }, nil, true, 2, true},
		{"the other's point first", func(c pki.CRL, o, other string) *page { return ok(dpd(c, other, o)) }, nil, true, 2, true},
		{"the other's point", func(c pki.CRL, o, other string) *page { return ok(dpd(c, other)) }, nil, true, 2, true},
		{"a foreign point", func(c pki.CRL, o, other string) *page { return ok(dpd(c, "http://mirror.example/1")) }, nil, true, 2, true},
		{"a foreign point and its own", func(c pki.CRL, o, other string) *page { return ok(dpd(c, "http://mirror.example/1", o)) }, nil, true, 2, false},
		{"404", func(c pki.CRL, o, other string) *page { return nil }, []string{aDown}, false, 0, false},
		{"500", func(c pki.CRL, o, other string) *page { return &page{status: 500} }, []string{aDown}, false, 0, false},
		{"empty body", func(c pki.CRL, o, other string) *page { return &page{} }, []string{aDown + "|" + aVer}, false, 0, false},
		{"html", func(c pki.CRL, o, other string) *page { return ok2([]byte("<html>hello</html>")) }, []string{aVer}, false, 0, false},
		{"bad signature", own(func(c pki.CRL) *page { c.BreakSig = true; return ok(c) }), []string{aVer}, false, 0, false},
		{"another key", own(func(c pki.CRL) *page { _, c.Sign = ca("B"); return ok(c) }), []string{aVer}, false, 0, false},
		{"truncated", own(func(c pki.CRL) *page { d := c.DER(); return ok2(d[:len(d)-10]) }), []string{aVer}, false, 0, false},
		{"repeated reason", own(func(c pki.CRL) *page { return ok(with(c, pki.Reason(1), pki.Reason(1))) }), []string{aProc, "?" + aDP}, false, -1, false},
		{"reason of a wrong type", own(func(c pki.CRL) *page {
			return ok(with(c, pki.Ext(pki.OIDReason, false, pki.Int([]byte{1}))))
		}), []string{aProc, "?" + aDP}, false, -1, false},
	}
	return l
}()

func auditOfferNames() (r []string) {
	for _, o := range auditOffers {
		r = append(r, o.name)
	}
	return
}

// apply arranges the offer for a URL and returns what must be reported; old is
// the usable file of an earlier run.
func (e *env) offer(o auditOffer, c pki.CRL, u, other string, partitioned bool, old []byte, oldCount int) audited {
	delete(e.pages, u)
	pg := o.make(c, u, other)
	if pg != nil {
		e.pages[u] = pg
	}
	a := audited{kinds: append([]string(nil), o.kinds...)}
	switch {
	case o.used:
		a.file, a.n = pg.body, o.count
		if o.count > 0 {
			a.kinds = append(a.kinds, aValid)
		}
		if o.dp && partitioned {
			a.kinds = append(a.kinds, aDP)
		}
	case o.count == 0 && old != nil: // refused, the earlier file stays
		a.file, a.n = old, oldCount
		a.kinds = append(a.kinds, aValid)
	}
	return a
}

func auditEntries(name string) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Run: func(x *sim.Exec) {
		e := newEnv(x)
		defer e.done()
		earlier := x.C.ChooseN("earlier", "", "none", "an earlier run", "an earlier run, damaged since")
		how := x.C.ChooseN("disclosed as", "", "full", "full and partition", "partitions")
		a, b := crlURL("A", 0), crlURL("A", 1)
		urls := []string{a, b}
		r := row{pem: pki.PEM(mustCA("A"))}
		switch how {
		case 0:
			r.full, urls = a, urls[:1]
		case 1:
			r.full, r.parts = a, jsonList(b)
		case 2:
			r.parts = jsonList(a, b)
		}
		rep := func() {
			e.put("ccadb.csv", report(rootRow(), r, row{pem: pki.PEM(mustCA("B")), full: crlURL("B", 0)}), time.Now())
		}
		rep()
		cB := crl("B", ent([]byte{0x3b}))
		e.pages[crlURL("B", 0)] = ok(cB)
		var olds [][]byte
		if earlier > 0 {
			for i, u := range urls {
				c := crl("A", ent([]byte{0x01, byte(i)}), ent([]byte{0x11, 0x55}), ent([]byte{0x12}))
				c.This = older
				d := dpd(c, u).DER()
				olds = append(olds, d)
				e.pages[u] = &page{body: d, lastMod: base.Add(-240 * time.Hour)}
			}
			p := e.aggregate(nil)
			if !e.ended(p) || p.ExitCode != 0 {
				x.Fail("C27-failed", "the earlier run failed (%d)", p.ExitCode)
				return
			}
			fatalIf(os.RemoveAll(e.path("revoked")))
			os.Remove(e.path("enrolled.json"))
			if x.C.ChooseN("earlier report", "", "gone", "still there") == 0 {
				os.Remove(e.path("audit.json"))
			}
			e.w.Touch()
			time.Sleep(30 * time.Hour)
			if earlier == 2 { // the first file
				for f, c := range e.w.Files("") {
					if strings.HasPrefix(f, "crls/") && c == string(olds[0]) {
						e.put(f, []byte(c[:len(c)-3]), time.Now())
					}
				}
				olds[0] = nil
			}
			rep()
		}
		want := map[string]map[string]audited{"A": {}, "B": {crlURL("B", 0): {kinds: []string{aValid}, n: 1, file: e.pages[crlURL("B", 0)].body}}}
		for i, u := range urls {
			o := auditOffers[x.C.ChooseN(fmt.Sprint("offer ", i), "", auditOfferNames()...)]
			var old []byte
			if earlier > 0 {
				old = olds[i]
			}
			c := crl("A", ent([]byte{0x22, byte(i)}, pki.Reason(4)), ent([]byte{0, 0x99}))
			want["A"][u] = e.offer(o, c, u, []string{b, a}[i], how > 0, old, 3)
		}
		began := time.Now()
		p := e.aggregate(nil)
		if !e.ended(p) {
			return
		}
		if p.ExitCode != 0 {
			x.Fail("C27-failed", "the run failed (%d)", p.ExitCode)
			return
		}
		if e.judgeAudit(want, began, false) {
			x.Outcome = fmt.Sprint(len(want["A"][a].kinds), want["A"][a].file != nil, want["A"][b].file != nil)
		}
	}}
}

// auditRetries: requests that fail for a while.
func auditRetries() *sim.Scenario {
	return &sim.Scenario{Name: "retries", Bubble: true, Run: func(x *sim.Exec) {
		e := newEnv(x)
		defer e.done()
		a, b := crlURL("A", 0), crlURL("A", 1)
		earlier := x.C.ChooseN("earlier", "", "none", "an earlier run") == 1
		e.put("ccadb.csv", report(rootRow(), row{pem: pki.PEM(mustCA("A")), parts: jsonList(a, b)}), time.Now())
		c := map[string]pki.CRL{a: dpd(crl("A", ent([]byte{1})), a), b: dpd(crl("A", ent([]byte{2}), ent([]byte{3})), b)}
		olds := map[string][]byte{}
		if earlier {
			for _, u := range []string{a, b} {
				o := c[u]
				o.This, o.Entries = older, []pki.CRLEntry{ent([]byte{4}), ent([]byte{5}), ent([]byte{6})}
				olds[u] = o.DER()
				e.pages[u] = &page{body: olds[u], lastMod: base.Add(-240 * time.Hour)}
			}
			p := e.aggregate(nil)
			if !e.ended(p) || p.ExitCode != 0 {
				x.Fail("C27-failed", "the earlier run failed (%d)", p.ExitCode)
				return
			}
			fatalIf(os.RemoveAll(e.path("revoked")))
			e.w.Touch()
			time.Sleep(30 * time.Hour)
			e.put("ccadb.csv", report(rootRow(), row{pem: pki.PEM(mustCA("A")), parts: jsonList(a, b)}), time.Now())
		}
		left, how := map[string]int{}, map[string]int{}
		for _, u := range []string{a, b} {
			e.pages[u] = ok(c[u])
			left[u] = x.C.ChooseN("failing requests", "", "0", "1", "2", "3", "4", "5", "9")
			if left[u] > 0 {
				how[u] = x.C.ChooseN("which fail with", "", "connection", "503", "cut off", "rubbish")
			}
		}
		served, rubbish := map[string]bool{}, map[string]bool{}
		e.w.HTTP = func(p *sim.Proc, req *http.Request) (*http.Response, error) {
			u := req.URL.String()
			if req.Method != "GET" {
				return e.http(p, req)
			}
			if left[u] == 0 {
				served[u] = true
				return e.http(p, req)
			}
			left[u]--
			switch how[u] {
			case 0:
				e.http(p, req)
				return nil, errors.New("connection reset")
			case 1:
				r, err := e.http(p, req)
				if r != nil {
					r.StatusCode, r.Status, r.Body = 503, "503 Busy", io.NopCloser(strings.NewReader("busy"))
				}
				return r, err
			case 2:
				r, err := e.http(p, req)
				if r != nil {
					r.Body = io.NopCloser(io.MultiReader(io.LimitReader(r.Body, 30), errReader{io.ErrUnexpectedEOF}))
				}
				return r, err
			}
			r, err := e.http(p, req)
			if r != nil {
				rubbish[u] = true
				b := "<html>later</html>"
				r.ContentLength = int64(len(b))
				r.Header.Set("Content-Length", fmt.Sprint(len(b)))
				r.Body = io.NopCloser(strings.NewReader(b))
			}
			return r, err
		}
		began := time.Now()
		p := e.aggregate(nil)
		if !e.ended(p) {
			return
		}
		if p.ExitCode != 0 {
			x.Fail("C27-failed", "the run failed (%d)", p.ExitCode)
			return
		}
		want := map[string]audited{}
		for _, u := range []string{a, b} {
			w := audited{}
			switch {
			case served[u]:
				w = audited{[]string{aValid}, len(c[u].Entries), e.pages[u].body}
			case earlier:
				w = audited{[]string{aValid}, 3, olds[u]}
			}
			if !served[u] {
				k := aDown
				if rubbish[u] {
					k = aVer
				}
				w.kinds = append(w.kinds, k)
			}
			want[u] = w
		}
		if e.judgeAudit(map[string]map[string]audited{"A": want}, began, false) {
			x.Outcome = fmt.Sprint(served[a], served[b])
		}
	}}
}

// auditSchedules: orders of the workers.
func auditSchedules(name string, budget map[string]int, total int, mode string) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: budget, Total: total, Run: func(x *sim.Exec) {
		e := newEnv(x)
		defer e.done()
		mixes := [][]string{{"good", "404", "no distribution point", "empty list"}, {"html", "good", "good", "repeated reason"}, {"good", "the other's point", "old file", "good"}}
		mix := mixes[x.C.ChooseN("mix", "", "missing", "damaged", "mixed up")]
		names := []string{"A", "B"}
		rows, want := []row{rootRow()}, map[string]map[string]audited{}
		k := 0
		for _, n := range names {
			us := []string{crlURL(n, 0), crlURL(n, 1)}
			rows = append(rows, row{pem: pki.PEM(mustCA(n)), parts: jsonList(us...)})
			want[n] = map[string]audited{}
			for i, u := range us {
				for _, o := range auditOffers {
					if o.name == mix[k] {
						want[n][u] = e.offer(o, crl(n, ent([]byte{0x22, byte(i)}, pki.Reason(4)), ent([]byte{0, 0x99})), u, us[1-i], true, nil, 0)
					}
				}
				k++
			}
		}
		e.put("ccadb.csv", report(rows...), time.Now())
		if x.C.ChooseN("earlier report", "", "none", "longer") == 1 {
			e.put("audit.json", []byte(`{"Entries":[`+strings.Repeat(`{"Kind":"Valid, Processed"},`, 200)+`{}]}`+"\n"), base)
		}
		disturbed, local, lost := false, false, false
		e.w.OnFault = func(*sim.Proc, string, string) { disturbed = true }
		switch mode {
		case "local":
			e.w.FaultFilter = func(p *sim.Proc, kind, desc string, f []string) []string {
				if kind == "http" {
					return nil
				}
				return f
			}
			e.w.After = func(d string) {
				if disturbed && !local {
					local, lost = true, strings.Contains(d, "audit.json")
				}
			}
		case "web":
			e.webFaults = func(m, u string) []string {
				if m == "HEAD" {
					return []string{"conn"}
				}
				return []string{"conn", "500", "cut"}
			}
			e.w.FaultFilter = func(p *sim.Proc, kind, desc string, f []string) []string {
				if kind != "http" {
					return nil
				}
				return f
			}
		case "orders":
			e.w.Intra = true
			e.w.FaultFilter = func(*sim.Proc, string, string, []string) []string { return nil }
		}
		began := time.Now()
		p := e.aggregate(map[string]string{"numThreads": []string{"3", "1"}[x.C.ChooseN("workers", "", "3", "1")]})
		if !e.ended(p) {
			return
		}
		if p.ExitCode != 0 {
			if !disturbed {
				x.Fail("C27-failed", "an undisturbed run failed (%d)", p.ExitCode)
			}
			return
		}
		if lost { // only warned about
			x.Outcome = "report lost"
			return
		}
		if e.judgeAudit(want, began, local) {
			x.Outcome = fmt.Sprint(disturbed)
		}
	}}
}

func auditScenarios() []*sim.Scenario {
	n := 2
	if sim.Thorough() {
		n = 3
	}
	return []*sim.Scenario{
		auditEntries("entries"),
		auditRetries(),
		auditSchedules("schedules", map[string]int{"intra": n}, n, "orders"),
		auditSchedules("failing-requests", map[string]int{"fault": n}, n, "web"),
		auditSchedules("local-failures", map[string]int{"fault": n - 1}, n - 1, "local"),
	}
}
