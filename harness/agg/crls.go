package main

// C14: revoked lists. C15: files of different URLs.

import (
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	aggcrls "github.com/mozilla/crlite/go/verifcmd/aggcrls"
	pki "github.com/mozilla/crlite/go/verifpki"
	sim "github.com/mozilla/crlite/go/verifsim"
)

var (
	fresh    = pki.UTCTime("000101000000Z")
	older    = pki.UTCTime("991220000000Z")
	next     = pki.UTCTime("000110000000Z")
	revokedT = pki.UTCTime("991101000000Z")
)

func ent(serial []byte, exts ...[]byte) pki.CRLEntry {
	return pki.CRLEntry{Serial: serial, Date: revokedT, Exts: exts}
}

// item is a (reason, serial) pair in the form the list has it.
func item(reason int, serial []byte) string {
	return fmt.Sprintf("%02x", reason) + hex.EncodeToString(serial)
}

func crl(name string, entries ...pki.CRLEntry) pki.CRL {
	_, k := ca(name)
	return pki.CRL{Issuer: name, This: fresh, Next: next, Entries: entries, NoList: len(entries) == 0, Sign: k,
		Exts: [][]byte{pki.Ext(pki.OIDCRLNumber, false, pki.Int([]byte{7}))}}
}

// aggregate runs aggregate-crls.
func (e *env) aggregate(extra map[string]string) *sim.Proc {
	vars := map[string]string{"statsRefreshPeriod": "10000h", "numThreads": "2"}
	for k, v := range extra {
		vars[k] = v
	}
	return e.w.Spawn("aggregate-crls", func(p *sim.Proc) {
		sim.RunCommand([]string{"aggregate-crls", "-crlpath", e.path("crls"), "-revokedpath", e.path("revoked"), "-enrolledpath", e.path("enrolled.json"),
			"-auditpath", e.path("audit.json"), "-ccadb", e.path("ccadb.csv")}, vars, aggcrls.Main)
	})
}

// lists reads the revoked lists: issuer -> items. bad describes an unreadable one.
func (e *env) lists() (map[string]map[string]bool, string) {
	r := map[string]map[string]bool{}
	for name, content := range e.w.Files("") {
		d, b := filepath.Split(name)
		if d != "revoked/" {
			continue
		}
		m := map[string]bool{}
		r[b] = m
		if content == "" {
			continue
		}
		if !strings.HasSuffix(content, "\n") {
			return r, fmt.Sprintf("the list of %.8s does not end with a line", b)
		}
		for _, l := range strings.Split(strings.TrimSuffix(content, "\n"), "\n") {
			if v, err := hex.DecodeString(l); err != nil || len(v) < 1 || hex.EncodeToString(v) != l {
				return r, fmt.Sprintf("the list of %.8s has the line %q", b, l)
			}
			m[l] = true
		}
	}
	return r, ""
}

type enrolledIssuer struct {
	UniqueID            string `json:"uniqueID"`
	PubKeyHash          string `json:"pubKeyHash"`
	Subject             string `json:"subject"`
	Pem                 string `json:"pem"`
	UsesPartitionedCrls bool   `json:"usesPartitionedCrls"`
}

func (e *env) enrolled() ([]enrolledIssuer, error) {
	b, ok := e.get("enrolled.json")
	if !ok {
		return nil, fmt.Errorf("no enrolled list")
	}
	var l []enrolledIssuer
	err := json.Unmarshal(b, &l)
	return l, err
}

func (e *env) enrolledIDs() string {
	l, err := e.enrolled()
	if err != nil {
		return err.Error()
	}
	var ids []string
	for _, i := range l {
		ids = append(ids, i.PubKeyHash)
	}
	sort.Strings(ids)
	return strings.Join(ids, " ")
}

func idsOf(names ...string) string {
	var ids []string
	for _, n := range names {
		_, k := ca(n)
		ids = append(ids, k.IssuerID())
	}
	sort.Strings(ids)
	return strings.Join(ids, " ")
}

func listed(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// ended checks that the process ended with the given code.
func (e *env) ended(p *sim.Proc) bool {
	if !e.w.RunAll(p) {
		e.x.Fail("C14-stuck", "aggregate-crls never ended")
		return false
	}
	if p.Panic != nil {
		e.x.Fail("panic", "%v", p.Panic)
		return false
	}
	return !e.x.Failed()
}

// ---- what one CRL URL offers ---------------------------------------------------

type offer struct {
	name  string
	page  func(c pki.CRL, other pki.CRL) *page
	good  bool // the answer is used
	lists bool // and its entries can be listed
}

func ok(c pki.CRL) *page { return &page{body: c.DER(), lastMod: base.Add(-time.Hour)} }

var offers = []offer{
	{"good", func(c, o pki.CRL) *page { return ok(c) }, true, true},
	{"404", func(c, o pki.CRL) *page { return nil }, false, false},
	{"500", func(c, o pki.CRL) *page { return &page{status: 500} }, false, false},
	{"empty body", func(c, o pki.CRL) *page { return &page{} }, false, false},
	{"html", func(c, o pki.CRL) *page { return &page{body: []byte("<html>hello</html>")} }, false, false},
	{"bad signature", func(c, o pki.CRL) *page { c.BreakSig = true; return ok(c) }, false, false},
	{"another CA's", func(c, o pki.CRL) *page { return ok(o) }, false, false},
	{"same name, another key", func(c, o pki.CRL) *page { c.Sign = o.Sign; return ok(c) }, false, false},
	{"altered", func(c, o pki.CRL) *page {
		d := c.DER()
		i := strings.Index(string(d), string(c.Entries[0].Serial))
		d[i] ^= 1
		return ok2(d)
	}, false, false},
	{"truncated", func(c, o pki.CRL) *page { d := c.DER(); return ok2(d[:len(d)-10]) }, false, false},
	{"trailing", func(c, o pki.CRL) *page { return ok2(append(c.DER(), 0, 0)) }, false, false},
	{"expired", func(c, o pki.CRL) *page { c.This, c.Next = older, pki.UTCTime("991225000000Z"); return ok(c) }, true, true},
	{"no next update", func(c, o pki.CRL) *page { c.Next = nil; return ok(c) }, true, true},
	{"repeated reason", func(c, o pki.CRL) *page { return ok(with(c, pki.Reason(1), pki.Reason(1))) }, true, false},
	{"reason of a wrong type", func(c, o pki.CRL) *page {
		return ok(with(c, pki.Ext(pki.OIDReason, false, pki.Int([]byte{1}))))
	}, true, false},
	{"reason too large", func(c, o pki.CRL) *page {
		return ok(with(c, pki.Ext(pki.OIDReason, false, pki.T(0x0a, []byte{1, 1}))))
	}, true, false},
	{"redirect", func(c, o pki.CRL) *page { return &page{to: "http://mirror.example/x"} }, true, true},
}

func ok2(b []byte) *page { return &page{body: b, lastMod: base.Add(-time.Hour)} }

// with appends an entry with the given extensions.
func with(c pki.CRL, exts ...[]byte) pki.CRL {
	c.Entries = append(append([]pki.CRLEntry(nil), c.Entries...), ent([]byte{0x7a, 0x7a}, exts...))
	return c
}

func offerNames() []string {
	var r []string
	for _, o := range offers {
		r = append(r, o.name)
	}
	return r
}

// setCRL arranges what a URL of an issuer offers and what is on disk for it
// (through an earlier run), and returns the items to expect; nil: none.
func expectItems(c pki.CRL) map[string]bool {
	m := map[string]bool{}
	for i, en := range c.Entries {
		_ = i
		r := 0
		if len(en.Exts) == 1 {
			r = int(en.Exts[0][len(en.Exts[0])-1])
		}
		m[item(r, en.Serial)] = true
	}
	return m
}

func crlURL(name string, i int) string {
	return fmt.Sprintf("http://crl.%s.example/%d.crl", strings.ToLower(name), i)
}

// offersScenario: every pair of offers for the two CRLs of one issuer, with and
// without earlier files.
func offersScenario(name string) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Run: func(x *sim.Exec) {
		e := newEnv(x)
		defer e.done()
		earlier := x.C.ChooseN("earlier", "", "none", "an earlier run", "an earlier run, damaged since") // whether files exist
		parts := x.C.ChooseN("disclosed as", "", "full and partitions", "partitions")
		o1 := x.C.ChooseN("first", "", offerNames()...)
		o2 := x.C.ChooseN("second", "", offerNames()...)
		a, b := crlURL("A", 0), crlURL("A", 1)
		r := row{pem: pki.PEM(mustCA("A")), full: a, parts: jsonList(b)}
		if parts == 1 {
			r = row{pem: pki.PEM(mustCA("A")), parts: jsonList(a, b)}
		}
		c := crlURL("B", 0)
		e.put("ccadb.csv", report(rootRow(), r, row{pem: pki.PEM(mustCA("B")), full: c}), time.Now())
		cB := crl("B", ent([]byte{0x3b}))
		cs := []pki.CRL{crl("A", ent([]byte{0x11, 0x55}), ent([]byte{0, 0x99}, pki.Reason(1))), crl("A", ent([]byte{0x22, 0x66}, pki.Reason(4)), ent([]byte{0x11, 0x55}))}
		e.pages[c] = ok(cB)
		olds := []pki.CRL{crl("A", ent([]byte{0x01}), ent([]byte{0x11, 0x55})), crl("A", ent([]byte{0x02}))}
		if earlier > 0 {
			for i, u := range []string{a, b} {
				o := olds[i]
				o.This = older
				e.pages[u] = &page{body: o.DER(), lastMod: base.Add(-240 * time.Hour)}
			}
			p := e.aggregate(nil)
			if !e.ended(p) || p.ExitCode != 0 {
				x.Fail("C14-failed", "the earlier run failed (%d)", p.ExitCode)
				return
			}
			fatalIf(os.RemoveAll(e.path("revoked")))
			fatalIf(os.RemoveAll(e.path("enrolled.json")))
			e.w.Touch()
			if earlier == 2 {
				// the first file is damaged
				for f, c := range e.w.Files("") {
					if o := olds[0]; strings.HasPrefix(f, "crls/") && strings.Contains(c, string(o.Entries[0].Encode())) && strings.Contains(c, string(o.Entries[1].Encode())) {
						e.put(f, []byte(c[:len(c)-3]), time.Now())
					}
				}
			}
			time.Sleep(30 * time.Hour)
			e.put("ccadb.csv", report(rootRow(), r, row{pem: pki.PEM(mustCA("B")), full: c}), time.Now())
		}
		want := map[string]bool{}
		fail := false
		for i, u := range []string{a, b} {
			o := offers[[]int{o1, o2}[i]]
			pg := o.page(cs[i], cB)
			delete(e.pages, u)
			if pg != nil {
				e.pages[u] = pg
				if pg.to != "" {
					pg.to += fmt.Sprint(i)
					e.pages[pg.to] = ok(cs[i])
				}
			}
			switch {
			case o.good && o.lists:
				for k := range expectItems(cs[i]) {
					want[k] = true
				}
			case !o.good && (earlier == 1 || earlier == 2 && i == 1):
				for k := range expectItems(olds[i]) {
					want[k] = true
				}
			default:
				fail = true
			}
		}
		p := e.aggregate(nil)
		if !e.ended(p) {
			return
		}
		if p.ExitCode != 0 {
			x.Fail("C14-failed", "the run failed (%d)", p.ExitCode)
			return
		}
		got, bad := e.lists()
		if bad != "" {
			x.Fail("C14-list", "%s", bad)
			return
		}
		_, kA := ca("A")
		_, kB := ca("B")
		if g := listed(got[kB.IssuerID()]); g != "003b" {
			x.Fail("C14-other-issuer", "the list of an unaffected issuer is %q", g)
			return
		}
		g, has := got[kA.IssuerID()]
		switch {
		case fail && has:
			x.Fail("C14-partial", "a list (%s) was written though a CRL of the issuer is unusable", listed(g))
		case !fail && !has:
			x.Fail("C14-missing", "no list was written, want %s", listed(want))
		case !fail && listed(g) != listed(want):
			x.Fail("C14-items", "the list is %s, want %s", listed(g), listed(want))
		case len(got) > 2:
			x.Fail("C14-invented", "there are %d lists", len(got))
		}
		if g, w := e.enrolledIDs(), idsOf("A", "B"); g != w {
			x.Fail("C14-enrolled", "the enrolled list is %s, want %s", g, w)
		}
		x.Outcome = fmt.Sprint(fail, listed(g))
	}}
}

func mustCA(n string) []byte { d, _ := ca(n); return d }

// disturbed: schedules, failing operations, signals and crashes.
func disturbedScenario(name string, threads string, budget map[string]int, total int, set func(e *env)) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: budget, Total: total, Run: func(x *sim.Exec) {
		e := newEnv(x)
		defer e.done()
		names := []string{"A", "B"}
		big := 400 // more than one buffer of the writer
		urls := map[string][]string{"A": {crlURL("A", 0), crlURL("A", 1)}, "B": {crlURL("B", 0)}}
		date := time.Now()
		ccadb := func() {
			e.put("ccadb.csv", report(rootRow(), row{pem: pki.PEM(mustCA("A")), full: urls["A"][0], parts: jsonList(urls["A"][1])}, row{pem: pki.PEM(mustCA("B")), full: urls["B"][0]}), time.Now())
		}
		ccadb()
		// contents of the URLs: version 0 and 1
		items := map[string][2]map[string]bool{}
		body := map[string][2][]byte{}
		for _, n := range names {
			for i, u := range urls[n] {
				var its [2]map[string]bool
				var bs [2][]byte
				for v := 0; v < 2; v++ {
					var es []pki.CRLEntry
					for k := 0; k < 3; k++ {
						es = append(es, ent([]byte{byte(i + 1), byte(v), byte(k)}))
					}
					if n == "A" && i == 1 {
						for k := 0; k < big; k++ {
							es = append(es, ent([]byte{0x30, byte(k >> 8), byte(k), byte(v)}))
						}
					}
					c := cachedCRL(n, v, es)
					bs[v] = c
					its[v] = expectItems(pki.CRL{Entries: es})
				}
				items[u], body[u] = its, bs
				e.pages[u] = &page{body: bs[0], lastMod: date.Add(-time.Hour)}
			}
		}
		p := e.aggregate(nil)
		if !e.ended(p) || p.ExitCode != 0 {
			x.Fail("C14-failed", "the first run failed")
			return
		}
		fatalIf(os.RemoveAll(e.path("revoked")))
		fatalIf(os.Remove(e.path("enrolled.json")))
		e.w.Touch()
		time.Sleep(24 * time.Hour)
		ccadb()
		for _, n := range names {
			for _, u := range urls[n] {
				e.pages[u] = &page{body: body[u][1], lastMod: time.Now().Add(-time.Hour)}
			}
		}
		disturbed := ""
		signalled := false
		e.w.OnFault = func(_ *sim.Proc, kind, f string) { disturbed = kind + " " + f }
		e.w.Events = map[string]func(){}
		clean := false
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, f []string) []string {
			if clean {
				return nil
			}
			if len(p.SigChans) > 0 && !signalled {
				f = append(append([]string(nil), f...), "EVsigterm")
			}
			return f
		}
		set(e)
		start := func() *sim.Proc {
			p := e.aggregate(map[string]string{"numThreads": threads})
			e.w.Events["EVsigterm"] = func() { signalled = true; p.Signal(syscall.SIGTERM) }
			return p
		}
		p = start()
		if e.w.CrashProcs == nil {
			e.w.CrashProcs = map[*sim.Proc]bool{}
		}
		if budget["crash"] > 0 {
			e.w.CrashProcs[p] = true
		}
		if !e.ended(p) {
			return
		}
		if p.Exited || p.Finished() && !p.Dead() {
		}
		judge := func(p *sim.Proc, must bool) {
			if !must && p.ExitCode != 0 {
				x.Outcome += " failed"
				return
			}
			if p.ExitCode != 0 {
				x.Fail("C14-failed", "an undisturbed run failed (%d)", p.ExitCode)
				return
			}
			got, bad := e.lists()
			if bad != "" {
				x.Fail("C14-list", "the run ended successfully but %s", bad)
				return
			}
			for _, n := range names {
				_, k := ca(n)
				g, has := got[k.IssuerID()]
				if !has && !must && unreadable(x.Log, k.IssuerID()) {
					x.Outcome += n + "-"
					continue
				}
				if !has {
					x.Fail("C14-missing", "the run ended successfully without a list for %s, all of whose CRLs are at hand (%s)", n, disturbed)
					return
				}
				// each CRL in one of its versions
				match := false
				for v := 0; v < 1<<len(urls[n]); v++ {
					w := map[string]bool{}
					newest := true
					for i, u := range urls[n] {
						newest = newest && v>>i&1 == 1
						for k := range items[u][v>>i&1] {
							w[k] = true
						}
					}
					if listed(w) == listed(g) && (newest || !must && disturbed != "") {
						match = true
						x.Outcome += fmt.Sprint(n, v)
					}
				}
				if !match {
					x.Fail("C14-items", "the run ended successfully but the list of %s has %d items and is not the union of its CRLs (%s)", n, len(g), disturbed)
					return
				}
			}
			if g, w := e.enrolledIDs(), idsOf(names...); g != w {
				x.Fail("C14-enrolled", "the run ended successfully with the enrolled list %s, want %s", g, w)
			}
		}
		dead := p.Dead() && !p.Exited
		if !dead {
			judge(p, disturbed == "")
		}
		if x.Failed() || budget["crash"] == 0 && disturbed == "" {
			return
		}
		// a new run, in new output directories, comes out right
		clean = true
		e.w.CrashProcs = nil
		fatalIf(os.RemoveAll(e.path("revoked")))
		os.Remove(e.path("enrolled.json"))
		e.w.Touch()
		p = start()
		if !e.ended(p) {
			return
		}
		judge(p, true)
	}}
}

var crlCache = map[string][]byte{}

func cachedCRL(n string, v int, es []pki.CRLEntry) []byte {
	key := fmt.Sprint(n, v, len(es), es[0].Serial)
	if crlCache[key] == nil {
		c := crl(n, es...)
		if v == 0 {
			c.This = older
		}
		crlCache[key] = c.DER()
	}
	return crlCache[key]
}

func crlScenarios() []*sim.Scenario {
	pick := func(q, t int) int {
		if sim.Thorough() {
			return t
		}
		return q
	}
	noHTTP := func(e *env) {}
	http := func(e *env) {
		e.webFaults = func(m, u string) []string {
			if m == "HEAD" {
				return []string{"conn"}
			}
			return getFaults
		}
	}
	return []*sim.Scenario{
		offersScenario("offers"),
		pemScenario(),
		sizesScenario(),
		disturbedScenario("faults", "1", map[string]int{"fault": pick(1, 2)}, 0, noHTTP),
		disturbedScenario("reads", "1", map[string]int{"fault": pick(2, 3)}, 0, func(e *env) {
			e.w.YieldReads = true
			filter := e.w.FaultFilter
			e.w.FaultFilter = func(p *sim.Proc, kind, desc string, f []string) []string {
				if !strings.HasPrefix(desc, "read ") {
					return nil
				}
				return filter(p, kind, desc, f)
			}
		}),
		disturbedScenario("crashes", "1", map[string]int{"crash": 1, "fault": pick(0, 1)}, 0, noHTTP),
		disturbedScenario("network", "1", map[string]int{"fault": pick(1, 2)}, 0, http),
		disturbedScenario("schedules", "2", map[string]int{"fault": 1, "intra": pick(1, 2)}, pick(2, 3), func(e *env) { e.w.Intra = true }),
	}
}

// unreadable: a file that belongs to the issuer could not be read.
func unreadable(log []string, id string) bool {
	for _, l := range log {
		if strings.Contains(l, ": read ") && strings.Contains(l, "EIO") && strings.Contains(l, id) {
			return true
		}
	}
	return false
}

// pemScenario: CRLs as PEM.
func pemScenario() *sim.Scenario {
	return &sim.Scenario{Name: "pem", Bubble: true, Run: func(x *sim.Exec) {
		e := newEnv(x)
		defer e.done()
		c := crl("A", ent([]byte{0x11, 0x55}), ent([]byte{0, 0x99}, pki.Reason(1)))
		if x.C.ChooseN("signature", "", "good", "bad") == 1 {
			c.BreakSig = true
		}
		u := crlURL("A", 0)
		r := row{pem: pki.PEM(mustCA("A")), full: u}
		if x.C.ChooseN("disclosed as", "", "full", "partition") == 1 {
			r.full, r.parts = "", jsonList(u)
		}
		e.put("ccadb.csv", report(rootRow(), r), time.Now())
		e.pages[u] = ok2(pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: c.DER()}))
		p := e.aggregate(nil)
		if !e.ended(p) {
			return
		}
		got, bad := e.lists()
		_, k := ca("A")
		g, has := got[k.IssuerID()]
		if p.ExitCode != 0 || bad != "" || has != !c.BreakSig || has && listed(g) != listed(expectItems(c)) {
			x.Fail("C14-items", "exit %d %s, list %v %s", p.ExitCode, bad, has, listed(g))
		}
		x.Outcome = fmt.Sprint(has)
	}}
}

// sizesScenario: short and long CRLs.
func sizesScenario() *sim.Scenario {
	return &sim.Scenario{Name: "sizes", Bubble: true, Run: func(x *sim.Exec) {
		sizes := []int{0, 1, 1000, 16383, 16384, 16385, 40000}
		if sim.Thorough() {
			sizes = append(sizes, 65537, 131073, 300000)
		}
		var descs []string
		for _, a := range sizes {
			for _, b := range sizes {
				descs = append(descs, fmt.Sprintf("%d and %d entries", a, b))
			}
		}
		k := x.C.ChooseN("CRLs of", "", descs...)
		n := []int{sizes[k/len(sizes)], sizes[k%len(sizes)]}
		e := newEnv(x)
		defer e.done()
		e.w.NoStates = true
		want := map[string]bool{}
		urls := []string{crlURL("A", 0), crlURL("A", 1)}
		for i, u := range urls {
			var es []pki.CRLEntry
			for j := 0; j < n[i]; j++ {
				sn := []byte{byte(1 + i), byte(j >> 16), byte(j >> 8), byte(j)}
				if j%3 == 0 {
					sn = append(sn, make([]byte, j%16)...)
				}
				if r := j % 7; r == 0 {
					es = append(es, ent(sn))
					want[item(0, sn)] = true
				} else {
					es = append(es, ent(sn, pki.Reason(r)))
					want[item(r, sn)] = true
				}
			}
			e.pages[u] = ok(crl("A", es...))
		}
		e.put("ccadb.csv", report(rootRow(), row{pem: pki.PEM(mustCA("A")), full: urls[0], parts: jsonList(urls[1])}), time.Now())
		p := e.aggregate(nil)
		if !e.ended(p) {
			return
		}
		if p.ExitCode != 0 {
			x.Fail("C14-failed", "the run failed (%d)", p.ExitCode)
			return
		}
		got, bad := e.lists()
		if bad != "" {
			x.Fail("C14-list", "%s", bad)
			return
		}
		_, kA := ca("A")
		g, has := got[kA.IssuerID()]
		if !has || len(got) != 1 {
			x.Fail("C14-missing", "there are %d lists", len(got))
			return
		}
		missing, more := 0, 0
		for i := range want {
			if !g[i] {
				missing++
			}
		}
		for i := range g {
			if !want[i] {
				more++
			}
		}
		if missing+more > 0 {
			x.Fail("C14-items", "the list lacks %d of %d entries and has %d others", missing, len(want), more)
		}
		x.Outcome = fmt.Sprint(n, len(g))
	}}
}
