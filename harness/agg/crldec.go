package main

// C17: decoding of CRLs.

import (
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	types "github.com/mozilla/crlite/go"
	pki "github.com/mozilla/crlite/go/verifpki"
	sim "github.com/mozilla/crlite/go/verifsim"
)

// judgement of a CRL: its items in order, or unusable.
type verdict struct {
	items  []string
	reject bool
	either bool // it may be refused, but not misread
	defect string
}

var crlSerials = [][]byte{{1}, {0x7f}, {0, 0x80}, {0x80}, {0xff}, {0xff, 0x01}, {0}, {0, 0, 1}, {0, 1}, append([]byte{0x7f}, make([]byte, 19)...), append([]byte{0, 0xff}, make([]byte, 19)...),
	append([]byte{0x10}, make([]byte, 38)...), []byte(strings.Repeat("\x11", 127)), []byte(strings.Repeat("\x22", 128)), []byte(strings.Repeat("\x33", 300))}

func notMinimal(i int) bool { return i == 7 || i == 8 } // {0,0,1}, {0,1}

func enumerated(b ...byte) []byte { return pki.T(0x0a, b) }

// reasonForm is the content of the reason extension and what it means.
type reasonForm struct {
	name   string
	exts   [][]byte // nil: no extensions field
	reason int
	reject bool
	either bool
}

func reasonExt(v []byte) []byte { return pki.Ext(pki.OIDReason, false, v) }

var invalidity = pki.Ext(pki.OID(2, 5, 29, 24), false, pki.GenTime("19991231000000Z"))

func reasonForms() []reasonForm {
	r := []reasonForm{{name: "no extensions"}, {name: "empty extensions", exts: [][]byte{}, either: true}, {name: "another extension", exts: [][]byte{invalidity}},
		{name: "unknown extension", exts: [][]byte{pki.Ext(pki.OID(1, 2, 3), false, enumerated(4))}}}
	for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 126, 127} {
		r = append(r, reasonForm{name: fmt.Sprint("reason ", n), exts: [][]byte{reasonExt(enumerated(byte(n)))}, reason: n, either: n > 10})
	}
	for _, n := range []int{128, 200, 255} {
		r = append(r, reasonForm{name: fmt.Sprint("reason ", n), exts: [][]byte{reasonExt(enumerated(0, byte(n)))}, reason: n, either: true})
	}
	one := reasonExt(enumerated(1))
	oid := pki.OIDReason
	r = append(r,
		reasonForm{name: "critical", exts: [][]byte{pki.Ext(oid, true, enumerated(3))}, reason: 3},
		reasonForm{name: "explicitly not critical", exts: [][]byte{pki.Seq(oid, pki.Bool(false), pki.Octets(enumerated(3)))}, reason: 3, either: true},
		reasonForm{name: "after another", exts: [][]byte{invalidity, one}, reason: 1},
		reasonForm{name: "before another", exts: [][]byte{one, invalidity}, reason: 1},
		reasonForm{name: "between others", exts: [][]byte{pki.Ext(pki.OID(1, 2, 3), false, []byte{5, 0}), one, invalidity}, reason: 1},
		reasonForm{name: "a similar identifier", exts: [][]byte{pki.Ext(pki.OID(2, 5, 29, 21, 1), false, enumerated(4))}},
		reasonForm{name: "a prefix of the identifier", exts: [][]byte{pki.Ext(pki.OID(2, 5, 29), false, enumerated(4))}},
	)
	for _, b := range []struct {
		name string
		exts [][]byte
	}{
		{"repeated", [][]byte{one, one}},
		{"repeated, another value", [][]byte{one, reasonExt(enumerated(4))}},
		{"repeated around another", [][]byte{one, invalidity, one}},
		{"repeated as unspecified", [][]byte{one, reasonExt(enumerated(0))}},
		{"repeated unspecified", [][]byte{reasonExt(enumerated(0)), reasonExt(enumerated(0))}},
		{"thrice", [][]byte{one, one, one}},
		{"an integer", [][]byte{reasonExt(pki.Int([]byte{1}))}},
		{"an octet string", [][]byte{reasonExt(pki.Octets([]byte{1}))}},
		{"a boolean", [][]byte{reasonExt(pki.Bool(true))}},
		{"null", [][]byte{reasonExt([]byte{5, 0})}},
		{"nothing", [][]byte{reasonExt(nil)}},
		{"no content", [][]byte{reasonExt(enumerated())}},
		{"bare", [][]byte{reasonExt([]byte{1})}},
		{"cut short", [][]byte{reasonExt([]byte{0x0a, 1})}},
		{"wrapped", [][]byte{reasonExt(pki.Seq(enumerated(1)))}},
		{"trailing byte", [][]byte{reasonExt(append(enumerated(1), 0))}},
		{"two values", [][]byte{reasonExt(append(enumerated(1), enumerated(4)...))}},
		{"negative", [][]byte{reasonExt(enumerated(0xff))}},
		{"-127", [][]byte{reasonExt(enumerated(0x81))}},
		{"256", [][]byte{reasonExt(enumerated(1, 0))}},
		{"257", [][]byte{reasonExt(enumerated(1, 1))}},
		{"65537", [][]byte{reasonExt(enumerated(1, 0, 1))}},
		{"2^32+1", [][]byte{reasonExt(enumerated(1, 0, 0, 0, 1))}},
		{"2^64+1", [][]byte{reasonExt(enumerated(1, 0, 0, 0, 0, 0, 0, 0, 1))}},
		{"padded", [][]byte{reasonExt(enumerated(0, 1))}},
		{"padded much", [][]byte{reasonExt(enumerated(0, 0, 0, 0, 0, 1))}},
	} {
		r = append(r, reasonForm{name: b.name, exts: b.exts, reject: true})
	}
	return r
}

// crlCase runs aggregate-crls on one CRL of the issuer D.
func (e *env) crlCase(x *sim.Exec, der []byte, v verdict) {
	u := crlURL("D", 0)
	e.put("ccadb.csv", report(rootRow(), row{pem: pki.PEM(mustCA("D")), full: u}), time.Now())
	e.pages[u] = ok2(der)
	p := e.aggregate(map[string]string{"numThreads": "1"})
	if !e.w.RunAll(p) || p.Panic != nil || p.ExitCode != 0 {
		x.Fail("C17-failed", "aggregate-crls failed (%d %v)", p.ExitCode, p.Panic)
		return
	}
	_, k := ca("D")
	got, has := e.w.Files("")["revoked/"+k.IssuerID()]
	want := ""
	for _, i := range v.items {
		want += i + "\n"
	}
	// order does not matter
	sorted := func(s string) string {
		m := map[string]bool{}
		for _, l := range strings.Split(s, "\n") {
			m[l] = true
		}
		return listed(m)
	}
	switch {
	case v.reject && has:
		key := "C17-accepted"
		if v.defect != "" {
			key = "C17-structure-" + strings.ReplaceAll(strings.ReplaceAll(v.defect, ",", ""), " ", "-") + "-" + strings.ReplaceAll(strings.TrimSpace(short(got)), "\n", "+")
		}
		x.Fail(key, "a list (%q) was made from a malformed CRL", short(got))
	case !v.reject && !has && !v.either:
		x.Fail("C17-refused", "no list was made, want %q", short(want))
	case !v.reject && has && (sorted(got) != sorted(want)):
		x.Fail("C17-items", "the list is %q, want %q", short(got), short(want))
	}
	x.Outcome = fmt.Sprint(has, len(v.items))
}

func short(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

var dates = [][]byte{pki.UTCTime("991101000000Z"), pki.GenTime("19991101000000Z"), pki.UTCTime("991101053000+0530"), pki.UTCTime("9911010000Z"), pki.GenTime("19991101000000.5Z")}

func decScenarios() []*sim.Scenario {
	forms := reasonForms()
	var formNames []string
	for _, f := range forms {
		formNames = append(formNames, f.name)
	}
	_, kD := ca("D")
	shell := func(es []pki.CRLEntry) pki.CRL {
		return pki.CRL{Issuer: "D", This: fresh, Next: next, Entries: es, NoList: len(es) == 0, Sign: kD, Exts: [][]byte{pki.Ext(pki.OIDCRLNumber, false, pki.Int([]byte{7}))}}
	}
	run := func(name string, f func(x *sim.Exec) ([]byte, verdict)) *sim.Scenario {
		return &sim.Scenario{Name: name, Bubble: true, Run: func(x *sim.Exec) {
			e := newEnv(x)
			defer e.done()
			der, v := f(x)
			e.crlCase(x, der, v)
		}}
	}
	plain := []pki.CRLEntry{ent([]byte{0x41}), ent([]byte{0x42}, pki.Reason(4)), ent([]byte{0x43})}
	plainItems := []string{"0041", "0442", "0043"}
	return []*sim.Scenario{
		// every reason form at every place, with every serial form
		run("reasons", func(x *sim.Exec) ([]byte, verdict) {
			f := forms[x.C.ChooseN("reason", "", formNames...)]
			place := x.C.ChooseN("place", "", "only", "first", "last")
			s := crlSerials[x.C.ChooseN("serial", "", numbersN(3)...)]
			odd := ent(s, f.exts...)
			if f.exts != nil && len(f.exts) == 0 {
				odd.Exts = [][]byte{}
			}
			v := verdict{reject: f.reject, either: f.either}
			it := item(f.reason, s)
			var es []pki.CRLEntry
			switch place {
			case 0:
				es, v.items = []pki.CRLEntry{odd}, []string{it}
			case 1:
				es, v.items = append([]pki.CRLEntry{odd}, plain...), append([]string{it}, plainItems...)
			case 2:
				es, v.items = append(append([]pki.CRLEntry{}, plain...), odd), append(append([]string{}, plainItems...), it)
			}
			return shell(es).DER(), v
		}),
		run("serials", func(x *sim.Exec) ([]byte, verdict) {
			i := x.C.ChooseN("serial", "", numbersN(len(crlSerials))...)
			j := x.C.ChooseN("then", "", numbersN(len(crlSerials))...)
			var es []pki.CRLEntry
			v := verdict{}
			for k, n := range []int{i, j} {
				s := crlSerials[n]
				v.either = v.either || notMinimal(n)
				es = append(es, ent(s, pki.Reason(k)))
				v.items = append(v.items, item(k, s))
			}
			return shell(es).DER(), v
		}),
		// the same serial in several entries, and forms of the CRL around them
		run("shapes", func(x *sim.Exec) ([]byte, verdict) {
			c := shell(nil)
			v := verdict{}
			n := x.C.ChooseN("entries", "", "absent", "none", "one", "two", "the same serial, two reasons", "many")
			switch n {
			case 1:
				c.NoList, c.Entries = false, nil
				v.either = true
			case 2:
				c.NoList, c.Entries, v.items = false, plain[1:2], plainItems[1:2]
			case 3:
				c.NoList, c.Entries, v.items = false, plain[:2], plainItems[:2]
			case 4:
				c.NoList, c.Entries, v.items = false, []pki.CRLEntry{plain[0], ent([]byte{0x41}, pki.Reason(1))}, []string{"0041", "0141"}
			case 5:
				c.NoList = false
				for i := 0; i < 300; i++ {
					s := []byte{0x44, byte(i >> 8), byte(i)}
					c.Entries = append(c.Entries, ent(s))
					v.items = append(v.items, item(0, s))
				}
			}
			switch x.C.ChooseN("next update", "", "utc", "absent", "generalized") {
			case 1:
				c.Next = nil
			case 2:
				c.Next = pki.GenTime("20600101000000Z")
			}
			switch x.C.ChooseN("extensions", "", "number", "none", "distribution point", "delta") {
			case 1:
				c.Exts = nil
			case 2:
				c.Exts = append(c.Exts, pki.Ext(pki.OID(2, 5, 29, 28), true, pki.Seq(pki.T(0xa0, pki.T(0xa0, pki.T(0x86, []byte(crlURL("D", 0))))))))
			case 3:
				c.Exts = append(c.Exts, pki.Ext(pki.OID(2, 5, 29, 27), true, pki.Int([]byte{1})))
				v.either = true
			}
			if x.C.ChooseN("version", "", "2", "1") == 1 {
				c.V1 = true
				v.either = v.either || c.Exts != nil
				for _, e := range c.Entries {
					v.either = v.either || e.Exts != nil
				}
			}
			d := dates[x.C.ChooseN("dates", "", numbersN(len(dates))...)]
			es := append([]pki.CRLEntry(nil), c.Entries...)
			for i := range es {
				es[i].Date = d
			}
			c.Entries = es
			if len(d) != 15 && d[0] != 0x18 || string(d) == string(dates[4]) {
				v.either = true
			}
			return c.DER(), v
		}),
		// malformed structures, properly signed
		run("malformed", func(x *sim.Exec) ([]byte, verdict) {
			sign := func(tbs []byte) []byte { return pki.Seq(tbs, pki.AlgID(), pki.Bits(kD.Sign256(tbs))) }
			list := func(tag byte) []byte {
				var b [][]byte
				for _, e := range plain {
					b = append(b, e.Encode())
				}
				return pki.T(tag, b...)
			}
			head := [][]byte{pki.Int([]byte{1}), pki.AlgID(), pki.Name("D"), fresh, next}
			tail := pki.T(0xa0, pki.Seq(pki.Ext(pki.OIDCRLNumber, false, pki.Int([]byte{7}))))
			make := func(parts ...[]byte) []byte { return sign(pki.Seq(append(append([][]byte{}, head...), parts...)...)) }
			mal := []struct {
				name string
				der  []byte
			}{
				{"", make(list(0x30), tail)},
				{"a set of entries", make(list(0x31), tail)},
				{"entries after a null", make([]byte{5, 0}, list(0x30), tail)},
				{"a third date", make(next, list(0x30), tail)},
				{"entries in a context tag", make(list(0xa1), tail)},
				{"entries after the extensions", make(tail, list(0x30))},
				{"two lists", make(list(0x30), list(0x30), tail)},
				{"an empty list, then a list", make(pki.Seq(), list(0x30), tail)},
				{"an entry without date", make(pki.Seq(pki.Seq(pki.Int([]byte{1}))), tail)},
				{"an entry without serial", make(pki.Seq(pki.Seq(revokedT)), tail)},
				{"an empty entry", make(pki.Seq(pki.Seq()), tail)},
				{"serial after the date", make(pki.Seq(pki.Seq(revokedT, pki.Int([]byte{1}))), tail)},
				{"an octet string serial", make(pki.Seq(pki.Seq(pki.Octets([]byte{1}), revokedT)), tail)},
				{"an entry that is a set", make(pki.Seq(pki.T(0x31, pki.Int([]byte{1}), revokedT)), tail)},
				{"a stray integer among entries", make(pki.Seq(plain[0].Encode(), pki.Int([]byte{9}), plain[1].Encode()), tail)},
				{"an empty serial", make(pki.Seq(pki.Seq(pki.Int(nil), revokedT)), tail)},
				{"a cut list", make(append([]byte{0x30, byte(len(list(0x30)) + 3)}, list(0x30)[2:]...))},
				{"an entry with a null for extensions", make(pki.Seq(pki.Seq(pki.Int([]byte{1}), revokedT, []byte{5, 0})), tail)},
				{"an entry with something after its extensions", make(pki.Seq(pki.Seq(pki.Int([]byte{1}), revokedT, pki.Seq(invalidity), pki.Seq(pki.Reason(1)))), tail)},
				{"an entry with its reason outside the extensions", make(pki.Seq(pki.Seq(pki.Int([]byte{1}), revokedT, pki.Reason(1))), tail)},
				{"an entry with tagged extensions", make(pki.Seq(pki.Seq(pki.Int([]byte{1}), revokedT, pki.T(0xa0, pki.Seq(pki.Reason(1))))), tail)},
				{"no dates", sign(pki.Seq(head[0], head[1], head[2], list(0x30)))},
			}
			var names []string
			for _, m := range mal {
				names = append(names, m.name)
			}
			m := mal[x.C.ChooseN("defect", "", names...)]
			if m.name == "" {
				return m.der, verdict{items: plainItems}
			}
			return m.der, verdict{reject: true, defect: m.name}
		}),
		directScenario(forms, formNames),
	}
}

func numbersN(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprint(i))
	}
	return r
}

// directScenario: the decoder itself on pairs of entry forms.
func directScenario(forms []reasonForm, formNames []string) *sim.Scenario {
	return &sim.Scenario{Name: "decoder", Run: func(x *sim.Exec) {
		a := x.C.ChooseN("first", "", formNames...)
		s := x.C.ChooseN("serial", "", numbersN(len(crlSerials))...)
		for b := range forms {
			for _, until := range [][]byte{nil, next} {
				x.Steps++
				f, g := forms[a], forms[b]
				s2 := crlSerials[(s+b)%len(crlSerials)]
				c := pki.CRL{Issuer: "D", This: fresh, Next: until, Entries: []pki.CRLEntry{ent(crlSerials[s], f.exts...), ent(s2, g.exts...)}}
				tbs := c.TBS()
				l, err := types.DecodeRawTBSCertList(tbs)
				reject := f.reject || g.reject
				var got []string
				if err == nil {
					for _, r := range l.RevokedCertificates {
						sr, e := r.SerialAndReason()
						if e != nil {
							err = e
							break
						}
						got = append(got, item(int(sr.Reason), []byte(sr.Serial.BinaryString())))
						if sr.Serial.HexString() != hex.EncodeToString([]byte(sr.Serial.BinaryString())) {
							x.Fail("C17-items", "serial %x has the text %s", []byte(sr.Serial.BinaryString()), sr.Serial.HexString())
						}
					}
				}
				want := []string{item(f.reason, crlSerials[s]), item(g.reason, s2)}
				switch {
				case reject && err == nil:
					x.Fail("C17-accepted", "%s / %s: decoded as %v", f.name, g.name, got)
				case !reject && err != nil && !f.either && !g.either && !notMinimal(s) && !notMinimal((s+b)%len(crlSerials)):
					x.Fail("C17-refused", "%s / %s: %v", f.name, g.name, err)
				case !reject && err == nil && strings.Join(got, " ") != strings.Join(want, " "):
					x.Fail("C17-items", "%s / %s: decoded as %v, want %v", f.name, g.name, got, want)
				}
			}
		}
		x.Outcome = forms[a].name
	}}
}
