package main

// C15: files of different URLs.

import (
	"fmt"
	"net/url"
	"os"
	"strings"
	"time"

	pki "github.com/mozilla/crlite/go/verifpki"
	sim "github.com/mozilla/crlite/go/verifsim"
)

var crlURLs = []string{
	"http://h.example/a.crl", "http://h.example/A.crl", "http://h.example/a.CRL", "http://h.example/a", "http://h.example/a.crl/", "http://h.example/a.crl?",
	"http://h.example/d/a.crl", "http://h.example/d%2Fa.crl", "http://h.example/d-a.crl", "http://h-d.example/a.crl", "http://h.example:8080/a.crl", "https://h.example/a.crl",
	"http://h.example/a.crl?x=1&y=2", "http://h.example/a.crl?y=2&x=1", "http://h.example/a.crl?x=2&y=1", "http://h.example/a.crl?x=1&x=2", "http://h.example/a.crl?x=2&x=1",
	"http://h.example/a.crl?x=1%26y=2", "http://h.example/a.crl-x=1",
	"http://h.example/a.crl?x=1;y=2", "http://h.example/a.crl?x=2;y=1", "http://h.example/a.crl?%zz", "http://h.example/a.crl?z%z", "http://h.example/a.crl?x=1&%zz", "http://h.example/a.crl?x=1",
	"http://h.example/a.crl?x=a+b", "http://h.example/a.crl?x=a%2Bb", "http://h.example/a.crl?x=ab", "http://h.example/a.crl?x", "http://h.example/a.crl?X=1",
	"http://h.example/a%2Ecrl", "http://h.example/a b.crl", "http://h.example/ab.crl", "http://h.example/a:b.crl", "http://h.example/a*b.crl", "http://h.example/..", "http://h.example/.", "http://h.example/", "http://h.example",
	"http://h.example/a.crl#x", "http://h.example/%E4.crl", "http://h.example/ä.crl", "http://h.example/a.crl.tmp", "http://h.example/a.crl?.tmp",
}

// requestOf is what a server sees; equal requests have equal answers.
func requestOf(s string) (request, class string) {
	u, err := url.Parse(s)
	fatalIf(err)
	u.Fragment = ""
	request = u.String()
	if q, err := url.ParseQuery(u.RawQuery); err == nil {
		u.RawQuery = q.Encode()
	}
	// "?" and "x" vs "x=" are the same query
	u.ForceQuery = false
	if u.Path == "" {
		u.Path = "/"
	}
	return request, u.String()
}

func urlsScenario() *sim.Scenario {
	return &sim.Scenario{Name: "urls", Bubble: true, Run: func(x *sim.Exec) {
		e := newEnv(x)
		defer e.done()
		a := x.C.ChooseN("first", "", crlURLs...)
		b := x.C.ChooseN("second", "", crlURLs...)
		order := x.C.ChooseN("then", "", "the server is down", "the first is gone", "the second is gone", "the first is renewed")
		ra, ca1 := requestOf(crlURLs[a])
		rb, cb1 := requestOf(crlURLs[b])
		r := row{pem: pki.PEM(mustCA("A")), parts: jsonList(crlURLs[a], crlURLs[b])}
		e.put("ccadb.csv", report(rootRow(), r), time.Now())
		pa := crl("A", ent([]byte{0x11}))
		pb := crl("A", ent([]byte{0x22}))
		if ca1 == cb1 {
			pb = pa
		}
		e.pages[ra], e.pages[rb] = ok(pa), ok(pb)
		_, k := ca("A")
		want := map[string]bool{}
		check := func(when string, cs ...pki.CRL) bool {
			p := e.aggregate(map[string]string{"numThreads": "1"})
			if !e.w.RunAll(p) || p.Panic != nil || p.ExitCode != 0 {
				x.Fail("C15-urls", "%s: aggregate-crls failed (%d %v)", when, p.ExitCode, p.Panic)
				return false
			}
			want = map[string]bool{}
			for _, c := range cs {
				for i := range expectItems(c) {
					want[i] = true
				}
			}
			got, bad := e.lists()
			if bad != "" || listed(got[k.IssuerID()]) != listed(want) {
				x.Fail("C15-urls", "%s: the list of %s and %s is %q, want %q %s", when, crlURLs[a], crlURLs[b], listed(got[k.IssuerID()]), listed(want), bad)
				return false
			}
			fatalIf(os.RemoveAll(e.path("revoked")))
			fatalIf(os.RemoveAll(e.path("enrolled.json")))
			return true
		}
		if !check("first run", pa, pb) {
			return
		}
		time.Sleep(30 * time.Hour)
		e.put("ccadb.csv", report(rootRow(), r), time.Now())
		down := &page{status: 503}
		switch order {
		case 0:
			e.pages[ra], e.pages[rb] = down, down
		case 1:
			e.pages[ra] = down
		case 2:
			e.pages[rb] = down
		case 3:
			pa = crl("A", ent([]byte{0x33}), ent([]byte{0x34}))
			n := &page{body: pa.DER(), lastMod: time.Now().Add(-time.Hour)}
			e.pages[ra] = n
			if ca1 == cb1 {
				pb = pa
				e.pages[rb] = n
			}
		}
		if !check("second run", pa, pb) {
			return
		}
		x.Outcome = fmt.Sprint(strings.Contains(listed(want), " "))
	}}
}
