package main

// C16: the enrolled issuers.

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	types "github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/rootprogram"
	pki "github.com/mozilla/crlite/go/verifpki"
	sim "github.com/mozilla/crlite/go/verifsim"
)

// node is a certificate of a graph.
type node struct {
	subject, issuer string // names; the key of a name is keyNamed(name)
	variant         string
	ids             bool // has key identifiers
	root            bool
	revoked         string // as disclosed; default "Not Revoked"
	absent          bool   // not in the report
	full, parts     string
	urls            []string // what full and parts encode
	partitioned     bool
	n               int // distinguishes certificates that are otherwise equal
}

var nodeVariants = []string{"fine", "expired", "client only", "not a CA", "revoked", "not yet valid", "parent revoked", "no cert sign", "unlisted", "bad signature", "any usage", "server and client", "no basic constraints", "path length 0"}

var namedKeys = map[string]*pki.Key{}

func keyNamed(n string) *pki.Key {
	k := namedKeys[n]
	if k == nil {
		h := 7
		for _, c := range n {
			h = (h*31 + int(c)) % 9000
		}
		k = pki.NewKey(6000 + h)
		namedKeys[n] = k
	}
	return k
}

func keyID(n string) []byte {
	h := sha256.Sum256(keyNamed(n).SPKI)
	return h[:20]
}

var (
	clientAuth = pki.OID(1, 3, 6, 1, 5, 5, 7, 3, 2)
	anyUsage   = pki.OID(2, 5, 29, 37, 0)
	derCache   = map[string][]byte{}
)

func (n *node) der() []byte {
	key := fmt.Sprint(n.subject, "|", n.issuer, "|", n.variant, "|", n.ids, n.n)
	if d := derCache[key]; d != nil {
		return d
	}
	h := sha256.Sum256([]byte(key))
	c := pki.Cert{Serial: append([]byte{1}, h[:6]...), Issuer: n.issuer, Subject: n.subject, NotBefore: early, NotAfter: late, SPKI: keyNamed(n.subject).SPKI, Sign: keyNamed(n.issuer)}
	basic := pki.Ext(pki.OIDBasic, true, pki.Seq(pki.Bool(true)))
	usage := pki.Ext(pki.OIDKeyUsage, true, []byte{3, 2, 1, 6})
	eku := func(o ...[]byte) []byte { return pki.Ext(pki.OIDEKU, false, pki.Seq(o...)) }
	var extra [][]byte
	switch n.variant {
	case "expired":
		c.NotAfter = gone
	case "not yet valid":
		c.NotBefore = pki.GenTime("20900101000000Z")
	case "client only":
		extra = append(extra, eku(clientAuth))
	case "any usage":
		extra = append(extra, eku(anyUsage))
	case "server and client":
		extra = append(extra, eku(clientAuth, pki.OIDServerAuth))
	case "not a CA":
		basic = pki.Ext(pki.OIDBasic, true, pki.Seq())
	case "no basic constraints":
		basic = nil
	case "no cert sign":
		usage = pki.Ext(pki.OIDKeyUsage, true, []byte{3, 2, 7, 0x80})
	case "path length 0":
		basic = pki.Ext(pki.OIDBasic, true, pki.Seq(pki.Bool(true), pki.Int([]byte{0})))
	case "bad signature":
		c.BreakSig = true
	}
	if basic != nil {
		c.Exts = append(c.Exts, basic)
	}
	c.Exts = append(append(c.Exts, usage), extra...)
	if n.ids {
		c.Exts = append(c.Exts, pki.Ext(pki.OIDSKI, false, pki.Octets(keyID(n.subject))), pki.Ext(pki.OIDAKI, false, pki.Seq(pki.T(0x80, keyID(n.issuer)))))
	}
	d := c.DER()
	derCache[key] = d
	return d
}

func (n *node) row() row {
	r := row{pem: pki.PEM(n.der()), full: n.full, parts: n.parts, revoked: n.revoked}
	if n.root {
		r.kind = "Root Certificate"
	}
	switch n.variant {
	case "revoked":
		r.revoked = "Revoked"
	case "parent revoked":
		r.revoked = "Parent Cert Revoked"
	}
	return r
}

func (n *node) listed() bool {
	return !n.absent && n.variant != "unlisted" && n.variant != "revoked" && n.variant != "parent revoked"
}
func (n *node) current() bool { return n.variant != "expired" && n.variant != "not yet valid" }
func (n *node) serverAuth() bool {
	return n.variant != "client only"
}

// mayIssue is whether the certificate may issue others, and whether that is
// certain.
func (n *node) mayIssue() (may, sure bool) {
	switch n.variant {
	case "not a CA", "no cert sign", "no basic constraints":
		return n.root, false // a root is trusted as it is
	case "path length 0":
		return true, false
	}
	return true, true
}

// justify says whether c must and whether it may be enrolled, by trying every
// path to a root.
func justify(g []*node, c *node) (must, may bool) {
	if !c.listed() || c.root || !c.current() || !c.serverAuth() {
		return
	}
	sureLeaf := true
	switch c.variant {
	case "not a CA", "no cert sign", "no basic constraints":
		sureLeaf = false // it issues nothing that needs a filter
	}
	var walk func(at *node, path []*node, sure bool)
	walk = func(at *node, path []*node, sure bool) {
		if at.variant == "bad signature" {
			return
		}
		for _, p := range g {
			if p.subject != at.issuer || !p.listed() || !p.current() || !p.serverAuth() {
				continue
			}
			m, s := p.mayIssue()
			if !m {
				continue
			}
			if p.root {
				may = true
				if sure && s {
					must = true
				}
				continue
			}
			again := false
			for _, q := range path {
				again = again || q.subject == p.subject
			}
			if !again {
				walk(p, append(append([]*node(nil), path...), p), sure && s)
			}
		}
	}
	walk(c, []*node{c}, sureLeaf)
	return
}

// outcome of loading a report.
type enrolment struct {
	err    error
	panic  any
	issued map[string]bool
	crls   map[string]map[string]bool
	part   map[string]bool
	names  map[string]string
	certs  map[string][]byte
	all    map[string]map[string]bool // all certificates of each issuer as saved (hex)
	mi     *rootprogram.MozIssuers
}

func load(path string) (r enrolment) {
	defer func() { r.panic = recover() }()
	r.mi = rootprogram.NewMozillaIssuers()
	if r.err = r.mi.LoadFromDisk(path); r.err != nil {
		return
	}
	r.fill()
	return
}

func (r *enrolment) fill() {
	r.issued, r.crls, r.part, r.names, r.certs = map[string]bool{}, map[string]map[string]bool{}, map[string]bool{}, map[string]string{}, map[string][]byte{}
	for _, i := range r.mi.GetIssuers() {
		id := i.ID()
		r.issued[id] = true
		if !r.mi.IsIssuerInProgram(types.NewIssuerFromString(id)) {
			panic("listed issuer not in program: " + id)
		}
		p, err := r.mi.GetUsesPartitionedCrlsForIssuer(i)
		fatalIf(err)
		r.part[id] = p
		s, err := r.mi.GetSubjectForIssuer(i)
		fatalIf(err)
		r.names[id] = s
		c, err := r.mi.GetCertificateForIssuer(i)
		fatalIf(err)
		r.certs[id] = c.Raw
	}
	for id, m := range r.mi.CrlMap {
		r.crls[id] = map[string]bool{}
		for u, v := range m {
			if v {
				r.crls[id][u] = true
			}
		}
	}
}

func keysOf[V any](m map[string]V) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// judge compares what was enrolled with what the graph justifies.
func judge(x *sim.Exec, key string, g []*node, r enrolment) bool {
	if r.panic != nil || r.err != nil {
		x.Fail(key+"-refused", "a well-formed report was refused: %v %v", r.err, r.panic)
		return false
	}
	type want struct {
		must, may   bool
		urls, extra map[string]bool
		part, partM bool
		certs       map[string]bool
	}
	byID := map[string]*want{}
	for _, c := range g {
		must, may := justify(g, c)
		if !may {
			continue
		}
		id := keyNamed(c.subject).IssuerID()
		w := byID[id]
		if w == nil {
			w = &want{urls: map[string]bool{}, extra: map[string]bool{}, certs: map[string]bool{}}
			byID[id] = w
		}
		w.must, w.may = w.must || must, true
		for _, u := range c.urls {
			w.extra[u] = true
			if must {
				w.urls[u] = true
			}
		}
		w.partM = w.partM || c.partitioned
		w.part = w.part || c.partitioned && must
		w.certs[string(c.der())] = true
	}
	who := func(id string) string {
		for _, c := range g {
			if keyNamed(c.subject).IssuerID() == id {
				return c.subject
			}
		}
		return id
	}
	for id, w := range byID {
		if w.must && !r.issued[id] {
			x.Fail(key+"-missing", "%s is not enrolled although a valid chain leads to an included root", who(id))
			return false
		}
	}
	for id := range r.issued {
		w := byID[id]
		if w == nil {
			x.Fail(key+"-extra", "%s is enrolled although nothing in the report justifies it", who(id))
			return false
		}
		for u := range w.urls {
			if !r.crls[id][u] {
				x.Fail(key+"-crls", "the CRLs of %s are [%s]: %s is missing", who(id), keysOf(r.crls[id]), u)
				return false
			}
		}
		for u := range r.crls[id] {
			if !w.extra[u] {
				x.Fail(key+"-crls", "the CRLs of %s are [%s]: %s is not disclosed by a justified certificate", who(id), keysOf(r.crls[id]), u)
				return false
			}
		}
		if r.part[id] && !w.partM || !r.part[id] && w.part {
			x.Fail(key+"-partitioned", "%s: uses partitioned CRLs = %v", who(id), r.part[id])
			return false
		}
		if !w.certs[string(r.certs[id])] {
			x.Fail(key+"-cert", "%s is represented by a certificate that is not justified", who(id))
			return false
		}
		if r.names[id] != "CN="+who(id) {
			x.Fail(key+"-name", "%s has the name %q", who(id), r.names[id])
			return false
		}
	}
	for id := range r.crls {
		if !r.issued[id] {
			x.Fail(key+"-crls", "CRLs [%s] are listed for %s, which is not enrolled", keysOf(r.crls[id]), who(id))
			return false
		}
	}
	return true
}

func writeReport(rows []row) string {
	f := filepath.Join(sim.Scratch("ccadb"), "report.csv")
	fatalIf(os.WriteFile(f, report(rows...), 0o644))
	return f
}

func outcome(r enrolment) string {
	var l []string
	for i := range r.issued {
		l = append(l, i[:4]+fmt.Sprint(len(r.crls[i]), r.part[i]))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// order of the rows: as given, reversed, rotated.
func ordered(g []*node, how int) (rows []row) {
	n := len(g)
	for i := range g {
		j := i
		switch {
		case how == 1:
			j = n - 1 - i
		case how > 1:
			j = (i + how - 1) % n
		}
		if g[j].absent || g[j].variant == "unlisted" {
			continue
		}
		rows = append(rows, g[j].row())
	}
	return
}

func url1(s string, i int) string {
	return fmt.Sprintf("http://%s.example/%d.crl", strings.ToLower(s), i)
}

func (n *node) disclose(i int) *node {
	u := url1(n.subject, i)
	n.full, n.urls = u, []string{u}
	return n
}

func run16(x *sim.Exec, key string, g []*node, rows []row) {
	f := writeReport(rows)
	defer os.RemoveAll(filepath.Dir(f))
	r := load(f)
	if judge(x, key, g, r) {
		x.Outcome = outcome(r)
	}
}

// graphs: three intermediates below each other in every way.
func graphsScenario() *sim.Scenario {
	return &sim.Scenario{Name: "graphs", Run: func(x *sim.Exec) {
		names := []string{"A", "B", "C"}
		var g []*node
		roots := x.C.ChooseN("roots", "", "one", "expired", "another is revoked", "with key identifiers", "another is absent")
		switch roots {
		case 0:
			g = append(g, &node{subject: "R1", issuer: "R1", root: true, variant: "fine"}, &node{subject: "R2", issuer: "R2", root: true, variant: "expired"})
		case 1:
			g = append(g, &node{subject: "R1", issuer: "R1", root: true, variant: "expired"}, &node{subject: "R2", issuer: "R2", root: true, variant: "fine"})
		case 2:
			g = append(g, &node{subject: "R1", issuer: "R1", root: true, variant: "fine"}, &node{subject: "R2", issuer: "R2", root: true, variant: "revoked"})
		case 3:
			g = append(g, &node{subject: "R1", issuer: "R1", root: true, variant: "fine", ids: true}, &node{subject: "R2", issuer: "R2", root: true, variant: "not yet valid", ids: true})
		case 4:
			g = append(g, &node{subject: "R1", issuer: "R1", root: true, variant: "fine"}, &node{subject: "R2", issuer: "R2", root: true, variant: "fine", absent: true})
		}
		ids := g[0].ids
		for i, s := range names {
			vs := nodeVariants
			if !sim.Thorough() {
				switch i {
				case 1:
					vs = vs[:10]
				case 2:
					vs = vs[:4]
				}
				if roots > 0 {
					vs = vs[:4]
				}
			}
			parents := []string{"R1", names[(i+1)%3], names[(i+2)%3], "R2", s}
			p := parents[x.C.ChooseN(s+" issued by", "", parents...)]
			v := vs[x.C.ChooseN(s, "", vs...)]
			g = append(g, (&node{subject: s, issuer: p, variant: v, ids: ids}).disclose(i))
		}
		order := 0
		if roots == 0 || sim.Thorough() {
			order = x.C.ChooseN("order", "", "down", "up")
		}
		run16(x, "C16", g, ordered(g, order))
	}}
}

// chains: long ones, whole or broken somewhere.
func chainsScenario() *sim.Scenario {
	return &sim.Scenario{Name: "chains", Run: func(x *sim.Exec) {
		const longest = 10 // the library accepts no longer ones
		var descs []string
		var ks [][3]int
		for n := 1; n <= longest; n++ {
			for at := 0; at <= n; at++ {
				for order := 0; order < 2; order++ {
					ks = append(ks, [3]int{n, at, order})
					descs = append(descs, fmt.Sprintf("length %d, unusable at %d, order %d", n, at, order))
				}
			}
		}
		k := ks[x.C.ChooseN("chain", "", descs...)]
		g := []*node{{subject: "R1", issuer: "R1", root: true, variant: "fine"}}
		parent := "R1"
		for i := 1; i <= k[0]; i++ {
			c := &node{subject: fmt.Sprint("L", i), issuer: parent, variant: "fine"}
			if i == k[1] {
				c.variant = "expired"
			}
			parent = c.subject
			g = append(g, c.disclose(i))
		}
		run16(x, "C16", g, ordered(g, k[2]))
	}}
}

// cross: several certificates for the same name and key.
func crossScenario() *sim.Scenario {
	return &sim.Scenario{Name: "cross", Run: func(x *sim.Exec) {
		g := []*node{{subject: "R1", issuer: "R1", root: true, variant: "fine"}, {subject: "R2", issuer: "R2", root: true, variant: "fine", absent: true}}
		subjects := []string{"A", "A", "B", "C"}
		vs := []string{"fine", "expired", "client only"}
		if sim.Thorough() {
			vs = append(vs, "revoked", "path length 0")
		}
		ids := x.C.ChooseN("identifiers", "", "no", "yes") == 1
		g[0].ids, g[1].ids = ids, ids
		for i, s := range subjects {
			parents := []string{"R1", "R2"}
			for _, o := range []string{"A", "B", "C"} {
				if o != s {
					parents = append(parents, o)
				}
			}
			c := &node{subject: s, ids: ids, n: i, issuer: parents[x.C.ChooseN(fmt.Sprint(s, i, " issued by"), "", parents...)]}
			c.variant = vs[x.C.ChooseN(fmt.Sprint(s, i), "", vs...)]
			u := url1(s, i)
			c.urls = []string{u}
			if i == 1 {
				c.parts, c.partitioned = jsonList(u), true
			} else {
				c.full = u
			}
			g = append(g, c)
		}
		run16(x, "C16", g, ordered(g, x.C.ChooseN("order", "", "down", "up")))
	}}
}

// keys: the same key under several certificates, each disclosing CRLs or not.
func keysScenario() *sim.Scenario {
	return &sim.Scenario{Name: "keys", Run: func(x *sim.Exec) {
		g := []*node{{subject: "R1", issuer: "R1", root: true, variant: "fine"}, {subject: "R2", issuer: "R2", root: true, variant: "fine", absent: true}}
		for i := 0; i < 3; i++ {
			c := &node{subject: "A", issuer: "R1", variant: "fine", n: i}
			switch x.C.ChooseN(fmt.Sprint("certificate ", i), "", "fine", "expired", "of an absent root", "revoked") {
			case 1:
				c.variant = "expired"
			case 2:
				c.issuer = "R2"
			case 3:
				c.variant = "revoked"
			}
			own, shared := url1("A", i), url1("A", 9)
			switch x.C.ChooseN(fmt.Sprint("discloses ", i), "", "full", "parts", "nothing", "both", "shared full", "shared part and own") {
			case 0:
				c.full, c.urls = own, []string{own}
			case 1:
				c.parts, c.urls, c.partitioned = jsonList(own, own+"2"), []string{own, own + "2"}, true
			case 3:
				c.full, c.parts, c.urls, c.partitioned = own, jsonList(own+"2"), []string{own, own + "2"}, true
			case 4:
				c.full, c.urls = shared, []string{shared}
			case 5:
				c.parts, c.urls, c.partitioned = jsonList(shared, own), []string{own, shared}, true
			}
			g = append(g, c)
		}
		g = append(g, (&node{subject: "B", issuer: "R1", variant: "fine"}).disclose(0))
		f := writeReport(ordered(g, 0))
		defer os.RemoveAll(filepath.Dir(f))
		seeds := 4
		if sim.Thorough() {
			seeds = 16
		}
		first := ""
		for s := 0; s < seeds; s++ {
			sim.MapSeed(uint64(s) * 0x9e3779b97f4a7c15)
			r := load(f)
			if !judge(x, "C16", g, r) {
				return
			}
			o := outcome(r)
			if s > 0 && o != first {
				x.Fail("C16-order", "the same report gives %q or %q", first, o)
				return
			}
			first = o
		}
		x.Outcome = first
	}}
}

// ---- rows -------------------------------------------------------------------

type oddRow struct {
	name string
	row  func(g *node) []row
	// effect on the issuer X of the row: must it, may it be enrolled
	must, may bool
	refuse    bool // the report as a whole may be refused
}

func oddRows() []oddRow {
	pemOf := func(n *node) string { return pki.PEM(n.der()) }
	with := func(f func(r *row, n *node)) func(*node) []row {
		return func(n *node) []row {
			r := n.row()
			f(&r, n)
			return []row{r}
		}
	}
	block := func(kind string, b []byte) string {
		return "-----BEGIN " + kind + "-----\n" + base64.StdEncoding.EncodeToString(b) + "\n-----END " + kind + "-----"
	}
	l := []oddRow{
		{name: "fine", row: with(func(*row, *node) {}), must: true, may: true},
		{name: "no certificate", row: with(func(r *row, n *node) { r.pem = "" })},
		{name: "not PEM", row: with(func(r *row, n *node) { r.pem = "hello" })},
		{name: "cut PEM", row: with(func(r *row, n *node) { r.pem = r.pem[:len(r.pem)/2] })},
		{name: "PEM of another type", row: with(func(r *row, n *node) { r.pem = block("X509 CRL", n.der()) })},
		{name: "trusted certificate", row: with(func(r *row, n *node) { r.pem = block("TRUSTED CERTIFICATE", n.der()) })},
		{name: "bad base64", row: with(func(r *row, n *node) { r.pem = strings.Replace(r.pem, "M", "*", 1) })},
		{name: "cut certificate", row: with(func(r *row, n *node) { d := n.der(); r.pem = block("CERTIFICATE", d[:len(d)-3]) })},
		{name: "followed by a byte", row: with(func(r *row, n *node) { r.pem = block("CERTIFICATE", append(append([]byte(nil), n.der()...), 0)) }), may: true},
		{name: "empty block", row: with(func(r *row, n *node) { r.pem = block("CERTIFICATE", nil) })},
		{name: "quoted", row: with(func(r *row, n *node) { r.pem = "'" + strings.TrimSpace(r.pem) + "'" }), may: true},
		{name: "CRLF", row: with(func(r *row, n *node) { r.pem = strings.ReplaceAll(r.pem, "\n", "\r\n") }), must: true, may: true},
		{name: "text before", row: with(func(r *row, n *node) { r.pem = "subject=X\n" + r.pem }), must: true, may: true},
		{name: "two certificates", row: with(func(r *row, n *node) { r.pem = r.pem + pemOf(&node{subject: "Y", issuer: "R1", variant: "fine"}) }), must: true, may: true},
		{name: "a certificate and rubbish", row: with(func(r *row, n *node) { r.pem += "rubbish" }), must: true, may: true},
		{name: "status with a space", row: with(func(r *row, n *node) { r.revoked = "Not Revoked " }), may: true},
		{name: "status in capitals", row: with(func(r *row, n *node) { r.revoked = "NOT REVOKED" }), may: true},
		{name: "unknown status", row: with(func(r *row, n *node) { r.revoked = "Unknown" })},
		{name: "revoked", row: with(func(r *row, n *node) { r.revoked = "Revoked" })},
		{name: "parent revoked", row: with(func(r *row, n *node) { r.revoked = "Parent Cert Revoked" })},
		{name: "root below a root", row: with(func(r *row, n *node) { r.kind = "Root Certificate" })},
		{name: "unknown type", row: with(func(r *row, n *node) { r.kind = "Leaf Certificate" })},
		{name: "type in capitals", row: with(func(r *row, n *node) { r.kind = "INTERMEDIATE CERTIFICATE" }), may: true},
		{name: "twice", row: func(n *node) []row { return []row{n.row(), n.row()} }, must: true, may: true},
		{name: "twice, the second revoked", row: func(n *node) []row {
			r := n.row()
			r.revoked = "Revoked"
			return []row{n.row(), r}
		}, may: true},
		{name: "twice, the first revoked", row: func(n *node) []row {
			r := n.row()
			r.revoked = "Revoked"
			return []row{r, n.row()}
		}, may: true},
		{name: "twice, the first in a wrong type", row: func(n *node) []row {
			r := n.row()
			r.kind = "Other"
			return []row{r, n.row()}
		}, must: true, may: true},
		{name: "root and intermediate", row: func(n *node) []row {
			r := n.row()
			r.kind = "Root Certificate"
			return []row{r, n.row()}
		}, must: true, may: true},
	}
	return l
}

// oddCerts are certificates with unusual but acceptable or broken encodings.
func oddCerts() []struct {
	name      string
	der       []byte
	must, may bool
} {
	type oc = struct {
		name      string
		der       []byte
		must, may bool
	}
	mk := func(f func(c *pki.Cert)) []byte {
		c := pki.Cert{Serial: []byte{1, 2, 3}, Issuer: "R1", Subject: "X", NotBefore: early, NotAfter: late, SPKI: keyNamed("X").SPKI, Sign: keyNamed("R1"), Exts: pki.CAExts()}
		f(&c)
		return c.DER()
	}
	return []oc{
		{"plain", mk(func(c *pki.Cert) {}), true, true},
		{"negative serial", mk(func(c *pki.Cert) { c.Serial = []byte{0x80} }), false, true},
		{"serial zero", mk(func(c *pki.Cert) { c.Serial = []byte{0} }), false, true},
		{"serial not minimal", mk(func(c *pki.Cert) { c.Serial = []byte{0, 1} }), false, true},
		{"long serial", mk(func(c *pki.Cert) { c.Serial = bytes.Repeat([]byte{0x11}, 30) }), false, true},
		{"version 1", mk(func(c *pki.Cert) { c.NoVersion, c.Exts = true, nil }), false, true},
		{"no extensions", mk(func(c *pki.Cert) { c.Exts = nil }), false, true},
		{"unknown extension", mk(func(c *pki.Cert) { c.Exts = append(c.Exts, pki.Ext(pki.OID(1, 2, 3), false, []byte{5, 0})) }), true, true},
		{"unknown critical extension", mk(func(c *pki.Cert) { c.Exts = append(c.Exts, pki.Ext(pki.OID(1, 2, 3), true, []byte{5, 0})) }), false, true},
		{"repeated extension", mk(func(c *pki.Cert) { c.Exts = append(c.Exts, c.Exts[1]) }), false, true},
		{"critical subject key identifier", mk(func(c *pki.Cert) { c.Exts = append(c.Exts, pki.Ext(pki.OIDSKI, true, pki.Octets(keyID("X")))) }), false, true},
		{"empty authority key identifier", mk(func(c *pki.Cert) { c.Exts = append(c.Exts, pki.Ext(pki.OIDAKI, false, pki.Seq())) }), true, true},
		{"foreign authority key identifier", mk(func(c *pki.Cert) {
			c.Exts = append(c.Exts, pki.Ext(pki.OIDAKI, false, pki.Seq(pki.T(0x80, []byte{1, 2, 3}))))
		}), false, true},
		{"GeneralizedTime before 2050", mk(func(c *pki.Cert) { c.NotAfter = pki.GenTime("20400101000000Z") }), false, true},
		{"UTCTime without seconds", mk(func(c *pki.Cert) { c.NotBefore = pki.UTCTime("9001010000Z") }), false, true},
		{"time zone", mk(func(c *pki.Cert) { c.NotBefore = pki.UTCTime("900101000000+0100") }), false, true},
		{"never valid", mk(func(c *pki.Cert) { c.NotBefore, c.NotAfter = late, early }), false, false},
		{"malformed date", mk(func(c *pki.Cert) { c.NotAfter = pki.UTCTime("not a date!!!") }), false, false},
		{"bad key", mk(func(c *pki.Cert) { c.SPKI = pki.Seq(pki.Seq(pki.OID(1, 2, 840, 113549, 1, 1, 1)), pki.Bits([]byte{1})) }), false, true},
		{"empty basic constraints", mk(func(c *pki.Cert) { c.Exts[0] = pki.Ext(pki.OIDBasic, true, nil) }), false, true},
		{"basic constraints with explicit false", mk(func(c *pki.Cert) { c.Exts[0] = pki.Ext(pki.OIDBasic, true, pki.Seq(pki.Bool(false))) }), false, true},
		{"name of the wrong issuer", mk(func(c *pki.Cert) { c.Issuer = "R3" }), false, false},
		{"signed by the wrong key", mk(func(c *pki.Cert) { c.Sign = keyNamed("R3") }), false, false},
	}
}

// malformed reports as a whole: refused, or the good rows still count.
func mangled(b []byte) map[string][]byte {
	s := string(b)
	lines := strings.SplitAfterN(s, "\n", 2)
	return map[string][]byte{
		"as is":             b,
		"empty":             nil,
		"header only":       []byte(lines[0]),
		"no header":         []byte(lines[1]),
		"no PEM column":     []byte(strings.Replace(s, "X.509_Certificate_PEM", "PEM", 1)),
		"no status column":  []byte(strings.Replace(s, "Revocation_Status__c", "Revocation", 1)),
		"no CRL column":     []byte(strings.Replace(s, "Full_CRL_Issued_By_This_CA", "CRL", 1)),
		"an error page":     []byte("<html>oops, \"try\" later</html>"),
		"a short row":       append(append([]byte(nil), b...), "x,y\n"...),
		"a long row":        append(append([]byte(nil), b...), "x,y,z,x,y,z,x,y\n"...),
		"an empty line":     append(append([]byte(nil), b...), "\n\n"...),
		"a stray quote":     append(append([]byte(nil), b...), "x,a\"b,c,d,e,f\n"...),
		"an open quote":     append(append([]byte(nil), b...), "x,\"b,c,d,e,f\n"...),
		"cut in a row":      b[:len(b)-40],
		"no final newline":  bytes.TrimRight(b, "\n"),
		"CRLF":              []byte(strings.ReplaceAll(s, "\n", "\r\n")),
		"byte order mark":   append([]byte("\xef\xbb\xbf"), b...),
		"another column":    []byte(strings.Replace(strings.ReplaceAll(s, "row ", "x,row "), "Certificate_Name", "New,Certificate_Name", 1)),
		"columns renamed":   []byte(strings.Replace(s, "Certificate_Name", "RecordType.Name2", 1)),
		"nulls in the name": []byte(strings.ReplaceAll(s, "row ", "row\x00\xff")),
	}
}

func rowsScenario() *sim.Scenario {
	return &sim.Scenario{Name: "rows", Run: func(x *sim.Exec) {
		r1 := &node{subject: "R1", issuer: "R1", root: true, variant: "fine"}
		good := (&node{subject: "G", issuer: "R1", variant: "fine"}).disclose(0)
		below := (&node{subject: "H", issuer: "X", variant: "fine"}).disclose(0)
		odd := (&node{subject: "X", issuer: "R1", variant: "fine"}).disclose(0)
		gid, xid, hid := keyNamed("G").IssuerID(), keyNamed("X").IssuerID(), keyNamed("H").IssuerID()
		type item struct {
			rows      []row
			must, may bool
			what      string
		}
		var mid item
		kind := x.C.ChooseN("kind", "", "rows", "certificates", "reports")
		switch kind {
		case 0:
			l := oddRows()
			var names []string
			for _, o := range l {
				names = append(names, o.name)
			}
			o := l[x.C.ChooseN("row", "", names...)]
			mid = item{o.row(odd), o.must, o.may, o.name}
		case 1:
			l := oddCerts()
			var names []string
			for _, o := range l {
				names = append(names, o.name)
			}
			o := l[x.C.ChooseN("certificate", "", names...)]
			r := odd.row()
			r.pem = pki.PEM(o.der)
			mid = item{[]row{r}, o.must, o.may, o.name}
		case 2:
			mid = item{[]row{odd.row()}, true, true, "fine"}
		}
		place := x.C.ChooseN("place", "", "between", "first", "last")
		var rows []row
		switch place {
		case 0:
			rows = append(append([]row{r1.row(), good.row()}, mid.rows...), below.row())
		case 1:
			rows = append(append([]row{}, mid.rows...), below.row(), good.row(), r1.row())
		case 2:
			rows = append([]row{below.row(), r1.row(), good.row()}, mid.rows...)
		}
		b := report(rows...)
		refusable := false
		if kind == 2 {
			m := mangled(b)
			var l []string
			for k := range m {
				l = append(l, k)
			}
			sort.Strings(l)
			n := l[x.C.ChooseN("report", "", l...)]
			b = m[n]
			mid.what = n
			refusable = n != "as is" && n != "no final newline" && n != "CRLF" && n != "another column" && n != "nulls in the name" && n != "columns renamed" && n != "an empty line"
			if n == "header only" {
				mid.must = false
				refusable = true
			}
		}
		f := filepath.Join(sim.Scratch("ccadb"), "report.csv")
		defer os.RemoveAll(filepath.Dir(f))
		fatalIf(os.WriteFile(f, b, 0o644))
		r := load(f)
		if r.panic != nil {
			x.Fail("C16-panic", "%s: %v", mid.what, r.panic)
			return
		}
		if r.err != nil {
			if !refusable {
				x.Fail("C16-refused", "%s: the report was refused: %v", mid.what, r.err)
			}
			x.Outcome = "refused"
			return
		}
		if !refusable || kind == 2 && mid.what != "header only" {
			if !r.issued[gid] || !r.crls[gid][url1("G", 0)] {
				x.Fail("C16-dropped", "%s: another issuer was dropped or lost its CRL", mid.what)
			}
			if mid.must && (!r.issued[xid] || !r.crls[xid][url1("X", 0)]) {
				x.Fail("C16-missing", "%s: the issuer is not enrolled", mid.what)
			}
			if mid.must && !r.issued[hid] {
				x.Fail("C16-missing", "%s: the issuer below is not enrolled", mid.what)
			}
		}
		if !mid.may && r.issued[xid] {
			x.Fail("C16-extra", "%s: the issuer is enrolled", mid.what)
		}
		if !mid.may && r.issued[hid] && mid.what != "root below a root" {
			x.Fail("C16-extra", "%s: the issuer below is enrolled", mid.what)
		}
		for id := range r.issued {
			if id != gid && id != xid && id != hid {
				x.Fail("C16-extra", "%s: unknown issuer %s", mid.what, id)
			}
			for u := range r.crls[id] {
				if u != url1(map[string]string{gid: "G", xid: "X", hid: "H"}[id], 0) {
					x.Fail("C16-crls", "%s: %s has the CRL %s", mid.what, id, u)
				}
			}
		}
		x.Outcome = fmt.Sprint(r.issued[xid], r.issued[hid])
	}}
}

// ---- disclosure -------------------------------------------------------------

// urls and what they must become: themselves, or ignored.
var disclosed = []struct {
	url    string
	fine   bool // must be used as it is
	ignore bool // must not be used
}{
	{"http://a.example/1.crl", true, false},
	{"https://a.example/1.crl", true, false},
	{"http://a.example/a,b.crl", true, false},
	{"http://a.example/?cmd=crl&issuer=CN=X,O=Y", true, false},
	{"http://a.example/%2C%20.crl", true, false},
	{"http://a.example/(1).crl", true, false},
	{"http://a.example:8080/1.crl", true, false},
	{"http://a.example/1.crl?x=[1]", true, false},
	{"ldap://a.example/cn=x", false, true},
	{"ldap:///cn=x,dc=y?certificateRevocationList", false, true},
	{"ftp://a.example/1.crl", false, true},
	{"/relative.crl", false, true},
	{"a.example/1.crl", false, true},
	{"http://a.example\\1.crl", false, true},
	{"http://[::1/1.crl", false, true},
	{"http://a.example/%zz.crl", false, true},
	{"revoked", false, true},
	{"file:///etc/passwd", false, true},
}

func jsonText(urls []string, form int) string {
	var b bytes.Buffer
	switch form {
	case 0:
		b.WriteString(jsonList(urls...))
	case 1: // as other tools write it
		j, _ := json.Marshal(urls)
		b.Write(j)
	case 2: // escaped slashes, as PHP and Java write it
		j, _ := json.Marshal(urls)
		b.WriteString(strings.ReplaceAll(string(j), "/", `\/`))
	case 3: // indented
		j, _ := json.MarshalIndent(urls, " ", "\t")
		b.WriteString("\r\n" + string(j) + "\n")
	case 4: // escapes
		b.WriteString("[")
		for i, u := range urls {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(`"`)
			for _, c := range u {
				fmt.Fprintf(&b, "\\u%04x", c)
			}
			b.WriteString(`"`)
		}
		b.WriteString("]")
	case 5: // loose: not quoted
		b.WriteString("[" + strings.Join(urls, ", ") + "]")
	case 6: // loose, trailing comma
		b.WriteString("[\n" + strings.Join(urls, ",\n") + ",\n]")
	case 7: // loose: quoted, trailing comma
		b.WriteString(`["` + strings.Join(urls, `", "`) + `",]`)
	}
	return b.String()
}

func disclosureScenario() *sim.Scenario {
	return &sim.Scenario{Name: "disclosure", Run: func(x *sim.Exec) {
		var labels []string
		for _, d := range disclosed {
			labels = append(labels, d.url)
		}
		labels = append(labels, "none")
		form := x.C.ChooseN("form", "", "list", "JSON", "escaped slashes", "indented", "escapes", "unquoted", "unquoted, trailing comma", "quoted, trailing comma")
		a := x.C.ChooseN("first", "", labels...)
		b := x.C.ChooseN("second", "", labels...)
		fl := x.C.ChooseN("full", "", append([]string{"", `"http://f.example/"`, " http://f.example/ "}, labels[:len(labels)-1]...)...)
		var urls []string
		want, may := map[string]bool{}, map[string]bool{}
		add := func(i int) {
			d := disclosed[i]
			if d.fine {
				want[d.url] = true
			}
			if !d.ignore {
				may[d.url] = true
			}
		}
		loose := form >= 5 || form == 0 && (disclosedHas(a, "\\") || disclosedHas(b, "\\"))
		for _, i := range []int{a, b} {
			if i < len(disclosed) {
				if loose && strings.ContainsAny(disclosed[i].url, ",[]") || form >= 5 && disclosedHas(i, "\\") {
					return // no meaning without quotes
				}
				urls = append(urls, disclosed[i].url)
				add(i)
			}
		}
		partitioned := len(urls) > 0
		full := ""
		switch {
		case fl == 1 || fl == 2:
			full = labels0(fl)
			want["http://f.example/"], may["http://f.example/"] = true, true
		case fl > 2:
			full = disclosed[fl-3].url
			add(fl - 3)
		}
		if len(urls) == 0 && form == 7 {
			return
		}
		parts := jsonText(urls, form)
		if len(urls) == 0 && form == 0 {
			parts = ""
		}
		r1 := &node{subject: "R1", issuer: "R1", root: true, variant: "fine"}
		A := &node{subject: "A", issuer: "R1", variant: "fine"}
		B := (&node{subject: "B", issuer: "R1", variant: "fine"}).disclose(0)
		ra := A.row()
		ra.full, ra.parts = full, parts
		f := writeReport([]row{r1.row(), ra, B.row()})
		defer os.RemoveAll(filepath.Dir(f))
		r := load(f)
		if r.panic != nil || r.err != nil {
			x.Fail("C16-refused", "the report was refused: %v %v", r.err, r.panic)
			return
		}
		id, bid := keyNamed("A").IssuerID(), keyNamed("B").IssuerID()
		if !r.issued[id] || !r.issued[bid] || len(r.crls[bid]) != 1 {
			x.Fail("C16-dropped", "full %q, partitioned %q: an issuer was dropped", full, parts)
			return
		}
		for u := range want {
			if !r.crls[id][u] {
				x.Fail("C16-crls", "full %q, partitioned %q: decoded to [%s], %s is missing", full, parts, keysOf(r.crls[id]), u)
				return
			}
		}
		for u := range r.crls[id] {
			if !may[u] {
				x.Fail("C16-crls", "full %q, partitioned %q: decoded to [%s]: %s is not one of them", full, parts, keysOf(r.crls[id]), u)
				return
			}
		}
		if r.part[id] != partitioned {
			x.Fail("C16-partitioned", "full %q, partitioned %q: uses partitioned CRLs = %v", full, parts, r.part[id])
			return
		}
		x.Outcome = fmt.Sprint(len(r.crls[id]), r.part[id])
	}}
}

func labels0(i int) string { return []string{"", `"http://f.example/"`, " http://f.example/ "}[i] }

// ---- saving and downloading -------------------------------------------------

// savedIssuers reads an enrolled list independently.
func savedIssuers(b []byte) (map[string]string, error) {
	var l []map[string]any
	if err := json.Unmarshal(b, &l); err != nil {
		return nil, err
	}
	r := map[string]string{}
	for _, m := range l {
		p, _ := m["pem"].(string)
		r[p] = fmt.Sprint(m["pubKeyHash"], m["uniqueID"], m["subject"], m["usesPartitionedCrls"])
	}
	if len(r) != len(l) {
		return nil, fmt.Errorf("repeated certificates")
	}
	return r, nil
}

func savedEntry(n *node, partitioned bool) string {
	spki := keyNamed(n.subject).SPKI
	u := sha256.Sum256(append(append([]byte(nil), pki.Name(n.subject)...), spki...))
	return fmt.Sprint(keyNamed(n.subject).IssuerID(), base64.URLEncoding.EncodeToString(u[:]), "CN="+n.subject, partitioned)
}

func saveScenario(faults int) *sim.Scenario {
	return &sim.Scenario{Name: "save", Bubble: true, Budget: map[string]int{"fault": faults, "crash": 1}, Total: faults, Run: func(x *sim.Exec) {
		e := newEnv(x)
		defer e.done()
		g := []*node{{subject: "R1", issuer: "R1", root: true, variant: "fine"}}
		n := x.C.ChooseN("issuers", "", "two", "none", "one", "many")
		part := map[string]bool{}
		for i := 0; i < []int{2, 0, 1, 40}[n]; i++ {
			c := (&node{subject: fmt.Sprint("S", i), issuer: "R1", variant: "fine"}).disclose(i)
			if i%2 == 1 {
				c.full, c.parts, c.partitioned = "", jsonList(c.urls...), true
				part[c.subject] = true
			}
			g = append(g, c)
			if i == 0 { // a second certificate for the same key
				d := (&node{subject: c.subject, issuer: "R1", variant: "fine", n: 1}).disclose(7)
				g = append(g, d)
			}
		}
		old := x.C.ChooseN("before", "", "nothing", "a longer list") == 1
		if old {
			e.put("enrolled.json", []byte(strings.Repeat(`[{"uniqueID":"x"}]`, 9000)), time.Now().Add(-time.Hour))
		}
		e.put("ccadb.csv", report(ordered(g, 0)...), time.Now())
		var err error
		over := false
		p := e.w.Spawn("S", func(p *sim.Proc) {
			mi := rootprogram.NewMozillaIssuers()
			if err = mi.LoadFromDisk(e.path("ccadb.csv")); err == nil {
				err = mi.SaveIssuersList(e.path("enrolled.json"))
			}
			over = true
		})
		disturbed := false
		e.w.OnFault = func(*sim.Proc, string, string) { disturbed = true }
		e.w.CrashProcs = map[*sim.Proc]bool{p: true}
		if !e.w.RunAll(p) || p.Panic != nil {
			x.Fail("C16-save", "saving did not end: %v", p.Panic)
			return
		}
		if over && err != nil && !disturbed {
			x.Fail("C16-save", "saving failed: %v", err)
			return
		}
		if !over || err != nil {
			x.Outcome = "failed"
			return
		}
		b, _ := e.get("enrolled.json")
		got, jerr := savedIssuers(b)
		want := map[string]string{}
		for _, c := range g[1:] {
			want[strings.TrimSpace(pki.PEM(c.der()))] = savedEntry(c, part[c.subject])
		}
		if jerr != nil || len(got) != len(want) {
			x.Fail("C16-save", "saving succeeded but the list holds %d of %d certificates (%v)", len(got), len(want), jerr)
			return
		}
		for k, v := range want {
			if got[k] != v {
				x.Fail("C16-save", "the list holds %q for %q", got[k], v)
				return
			}
		}
		// read it back
		var rerr error
		r := enrolment{}
		done := false
		q := e.w.Spawn("L", func(p *sim.Proc) {
			r.mi = rootprogram.NewMozillaIssuers()
			rerr = r.mi.LoadEnrolledIssuers(e.path("enrolled.json"))
			done = true
		})
		disturbed = false
		if !e.w.RunAll(q) || q.Panic != nil {
			x.Fail("C16-save", "loading did not end: %v", q.Panic)
			return
		}
		if !done || rerr != nil {
			if !disturbed && done {
				x.Fail("C16-save", "what was saved cannot be loaded: %v", rerr)
			}
			x.Outcome = "unread"
			return
		}
		r.fill()
		ids := map[string]*node{}
		for _, c := range g[1:] {
			ids[keyNamed(c.subject).IssuerID()] = c
		}
		if keysOf(ids) != keysOf(r.issued) {
			x.Fail("C16-save", "the list changes when it is saved and loaded")
			return
		}
		for id, c := range ids {
			if r.part[id] != part[c.subject] || r.names[id] != "CN="+c.subject {
				x.Fail("C16-save", "%s changes when it is saved and loaded", c.subject)
				return
			}
		}
		x.Outcome = fmt.Sprint(len(got), len(b))
	}}
}

// obtain: the report is downloaded when needed.
func obtainScenario(name string, runs int, budget map[string]int, total int, power bool) *sim.Scenario {
	return &sim.Scenario{Name: name, Bubble: true, Budget: budget, Total: total, Run: func(x *sim.Exec) {
		e := newEnv(x)
		defer e.done()
		e.w.Power = power
		const reportURL = "http://ccadb.example/report"
		// a version is three issuers, two of which differ from version to version
		version := func(v int) (g []*node) {
			g = append(g, &node{subject: "R1", issuer: "R1", root: true, variant: "fine"})
			for _, s := range []string{"G", fmt.Sprint("V", v), fmt.Sprint("W", v)} {
				g = append(g, (&node{subject: s, issuer: "R1", variant: "fine"}).disclose(v))
			}
			return
		}
		body := func(v int) []byte { return report(ordered(version(v), 0)...) }
		disk := x.C.ChooseN("on disk", "", "nothing", "a fresh report", "an old report", "a damaged report")
		dated := x.C.ChooseN("dates", "", "undated", "dated") == 1
		may := map[int]bool{}
		age := time.Hour
		if disk == 2 {
			age = 30 * time.Hour
		}
		switch disk {
		case 1, 2:
			e.put("ccadb.csv", body(0), time.Now().Add(-age))
			may[0] = true
		case 3:
			e.put("ccadb.csv", body(0)[:700], time.Now().Add(-age))
		}
		disturbed, clean := false, false
		e.onFault = func(string) { disturbed = true }
		e.w.OnFault = func(*sim.Proc, string, string) { disturbed = true }
		e.w.FaultFilter = func(p *sim.Proc, kind, desc string, f []string) []string {
			if clean {
				return nil
			}
			return f
		}
		e.webFaults = func(m, u string) []string {
			if m == "HEAD" {
				return []string{"conn"}
			}
			return []string{"conn", "500", "cut", "cut row", "stall", "wrong"}
		}
		var out []string
		for i := 0; i < runs; i++ {
			last := i == runs-1
			if i > 0 {
				time.Sleep([]time.Duration{time.Hour, 13 * time.Hour}[x.C.ChooseN("later", "", "an hour", "13 hours")])
			}
			if i == 0 || x.C.ChooseN("report", "", "same", "another") == 1 {
				may[i+1] = true
				e.pages[reportURL] = &page{body: body(i + 1), ranges: true}
				if dated {
					e.pages[reportURL].lastMod = time.Now()
				}
			}
			clean = last
			d0 := disturbed
			disturbed = false
			r := enrolment{}
			over := false
			p := e.w.Spawn("S", func(p *sim.Proc) {
				r.mi = rootprogram.NewMozillaIssuers()
				r.mi.DiskPath = e.path("ccadb.csv")
				r.mi.ReportUrl = reportURL
				r.err = r.mi.Load()
				over = true
			})
			e.w.CrashProcs = nil
			if !clean {
				e.w.CrashProcs = map[*sim.Proc]bool{p: true}
			}
			if !e.w.RunAll(p) || p.Panic != nil {
				x.Fail("C16-obtain", "loading did not end: %v", p.Panic)
				return
			}
			if !over {
				out = append(out, "crash")
			} else if r.err != nil {
				if !disturbed {
					x.Fail("C16-obtain", "an undisturbed run could not load the report: %v", r.err)
					return
				}
				out = append(out, "failed")
			} else {
				r.fill()
				found := -1
				for v := range may {
					g := version(v)
					same := len(r.issued) == 3
					for _, n := range g[1:] {
						id := keyNamed(n.subject).IssuerID()
						same = same && r.issued[id] && r.crls[id][n.urls[0]] && len(r.crls[id]) == 1
					}
					if same {
						found = v
					}
				}
				if found < 0 {
					x.Fail("C16-obtain", "run %d used part of a report: %d issuers", i+1, len(r.issued))
					return
				}
				out = append(out, fmt.Sprint("v", found))
			}
			disturbed = disturbed || d0
		}
		x.Outcome = strings.Join(out, ";")
	}}
}

func issuerScenarios() []*sim.Scenario {
	n := 1
	if sim.Thorough() {
		n = 2
	}
	return []*sim.Scenario{graphsScenario(), chainsScenario(), crossScenario(), keysScenario(), rowsScenario(), disclosureScenario(), saveScenario(n),
		obtainScenario("obtain", 2, map[string]int{"fault": 2, "crash": 1}, 2+n-1, true)}
}

func disclosedHas(i int, s string) bool {
	return i < len(disclosed) && strings.Contains(disclosed[i].url, s)
}
