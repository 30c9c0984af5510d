package main

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	pki "github.com/mozilla/crlite/go/verifpki"
)

// base is when every bubble starts.
var base = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

func ms(t time.Time) uint64 { return uint64(t.UnixMilli()) }

var (
	keyA   = pki.NewKey(1)
	keyB   = pki.NewKey(2)
	keyPSC = pki.NewKey(3)
	keyEE  = pki.NewKey(9)

	farPast   = pki.Time(base.AddDate(-5, 0, 0))
	farFuture = pki.Time(base.AddDate(20, 0, 0))

	caA = pki.Cert{Serial: []byte{1}, Issuer: "CA A", Subject: "CA A", NotBefore: farPast, NotAfter: farFuture, SPKI: keyA.SPKI, Exts: pki.CAExts(), Sign: keyA}.DER()
	caB = pki.Cert{Serial: []byte{2}, Issuer: "CA B", Subject: "CA B", NotBefore: farPast, NotAfter: farFuture, SPKI: keyB.SPKI, Exts: pki.CAExts(), Sign: keyB}.DER()
	// a precertificate signing certificate of CA A
	psc = pki.Cert{Serial: []byte{3}, Issuer: "CA A", Subject: "PSC of A", NotBefore: farPast, NotAfter: farFuture, SPKI: keyPSC.SPKI,
		Exts: append(pki.CAExts(), pki.Ext(pki.OIDEKU, false, pki.Seq(pki.OIDCTEKU))), Sign: keyA}.DER()
)

var (
	// extensions that only the second parser accepts, and that the first one
	// complains about
	extZC = pki.Ext(pki.OIDKeyUsage, false, append(pki.Bits([]byte{1}), 0))
	extNF = pki.Ext(pki.OID(2, 5, 29, 17), false, pki.Seq(pki.T(0x87, []byte{1, 2, 3})))
	// certificates of the same authorities in other forms
	otherForms = map[string][]byte{}
)

// authority is a CA certificate of A, B or the precertificate signer of A.
func authority(who, form string) []byte {
	if form == "" {
		return map[string][]byte{"A": caA, "B": caB, "PSC": psc}[who]
	}
	k := who + form
	if d := otherForms[k]; d != nil {
		return d
	}
	c := pki.Cert{Serial: []byte{0x21}, Issuer: "Root", Subject: "CA " + who, NotBefore: farPast, NotAfter: farFuture, Exts: pki.CAExts(), Sign: pki.NewKey(8)}
	switch who {
	case "A":
		c.SPKI = keyA.SPKI
	case "B":
		c.SPKI = keyB.SPKI
	case "PSC":
		c.SPKI, c.Subject, c.Issuer, c.Sign = keyPSC.SPKI, "PSC of A", "CA A", keyA
		c.Exts = append(c.Exts, pki.Ext(pki.OIDEKU, false, pki.Seq(pki.OIDCTEKU)))
	}
	switch form {
	case "zc":
		c.Exts = append(c.Exts, pki.Ext(pki.OID(2, 5, 29, 31), false, append(pki.Seq(), 0)))
	case "nf":
		c.Exts = append(c.Exts, extNF)
	case "eku":
		if who == "PSC" {
			break
		}
		c.Exts = append(c.Exts, pki.Ext(pki.OIDEKU, false, pki.Seq(pki.OIDServerAuth)))
	case "eku-both":
		if who != "PSC" {
			break
		}
		c.Exts = append(pki.CAExts(), pki.Ext(pki.OIDEKU, false, pki.Seq(pki.OIDServerAuth, pki.OIDCTEKU)))
	case "one-name":
		// both authorities have one name, and their certificates one issuer and serial
		c.Subject = "CA X"
	case "renamed":
		c.Subject = "CA X of " + who
	}
	otherForms[k] = c.DER()
	return otherForms[k]
}

var rootCert = pki.Cert{Serial: []byte{0x31}, Issuer: "Root", Subject: "Root", NotBefore: farPast, NotAfter: farFuture, SPKI: pki.NewKey(8).SPKI, Exts: pki.CAExts(), Sign: pki.NewKey(8)}.DER()

// spec describes one log entry.
type spec struct {
	kind     string // cert, precert, psc (precert by signing certificate), root
	ca       string // A or B
	serial   []byte
	notAfter time.Time
	enc      []byte // encoded NotAfter, if unusual
	ts       time.Time
	mutate   func(c *pki.Cert)
	form     string  // plain; zc: only the second parser reads it; nf: the first parser complains
	caForm   string  // the same for the issuing certificate, and other
	chainPad bool    // the chain goes on to a root
	by       *signer // another authority than A and B
}

// signer is an authority.
type signer struct {
	name string
	key  *pki.Key
	der  []byte
}

type ctEntry struct {
	spec
	idx   uint64
	ms    uint64
	leaf  []byte // MerkleTreeLeaf
	extra []byte
	tile  []byte // TileLeaf
	hash  [32]byte
	// what must be recorded: set key and member; empty when nothing must be.
	key, member string
	binEnd      time.Time
}

type ctLog struct {
	name    string
	url     string
	key     *pki.Key
	id      [32]byte
	mmd     uint64
	tiled   bool
	noKey   bool
	entries []*ctEntry
	nodes   map[[2]uint64][32]byte
	issuers map[string][]byte // hex fingerprint -> certificate

	members  map[string]bool // set keys followed by members
	size     uint64          // current tree size
	sthExtra uint64          // ms added to the tree head timestamp
	down     bool

	delivered map[uint64]bool // entries delivered unaltered (RFC 6962: when last delivered)
	proven    map[uint64]bool // entries below a true hash of the last proof about them
	badHead   string          // why the last tree head served was not the log's own
	headOK    map[[2]uint64]bool
	requests  int
	growth    []growth
	prop      string // the property that progress violations are reported under
}

// growth is a moment at which a log grew.
type growth struct {
	at   time.Time
	size uint64
}

func u24(b []byte) []byte {
	return append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
}
func u16(b []byte) []byte { return append([]byte{byte(len(b) >> 8), byte(len(b))}, b...) }
func u64(v uint64) []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, v); return b }
func cat(p ...[]byte) []byte {
	var r []byte
	for _, x := range p {
		r = append(r, x...)
	}
	return r
}

var certCache = map[string][]byte{}

func (s *spec) cert(poison bool) (der, tbs []byte) {
	c := pki.Cert{Serial: s.serial, Subject: "ee.example", NotBefore: farPast, NotAfter: s.enc, SPKI: keyEE.SPKI}
	if s.enc == nil {
		c.NotAfter = pki.Time(s.notAfter)
	}
	key := keyA
	c.Issuer = "CA A"
	if s.ca == "B" {
		key = keyB
		c.Issuer = "CA B"
	}
	if s.by != nil {
		c.Issuer, key = s.by.name, s.by.key
	}
	switch s.caForm {
	case "one-name":
		c.Issuer = "CA X"
	case "renamed":
		c.Issuer = "CA X of " + s.ca
	}
	switch s.form {
	case "zc":
		c.Exts = append(c.Exts, extZC)
	case "nf":
		c.Exts = append(c.Exts, extNF)
	}
	if s.mutate != nil {
		s.mutate(&c)
	}
	tbs = c.TBS()
	if poison {
		c.Exts = append(append([][]byte(nil), c.Exts...), pki.Ext(pki.OIDPoison, true, []byte{5, 0}))
		if s.kind == "psc" {
			c.Issuer = "PSC of A"
			key = keyPSC
		}
	}
	c.Sign = key
	k := fmt.Sprintf("%x %s", c.TBS(), c.Issuer)
	if d, ok := certCache[k]; ok {
		return d, tbs
	}
	der = c.DER()
	certCache[k] = der
	return der, tbs
}

func label(t time.Time) string { return t.UTC().Format("2006-01-02-15") }

// newLog builds a log of the given entries.
func newLog(name string, n int, tiled bool, mmd uint64, specs []spec) *ctLog {
	l := &ctLog{name: name, key: pki.NewKey(100 + n), tiled: tiled, mmd: mmd,
		nodes: map[[2]uint64][32]byte{}, issuers: map[string][]byte{}, members: map[string]bool{}, delivered: map[uint64]bool{}, proven: map[uint64]bool{}, headOK: map[[2]uint64]bool{}}
	l.id = sha256.Sum256(l.key.SPKI)
	l.url = "https://" + name + ".example/2000/"
	for i := range specs {
		l.add(specs[i])
	}
	l.size = uint64(len(l.entries))
	return l
}

// add appends an entry (the tree size is unchanged).
func (l *ctLog) add(s spec) {
	fp := func(der []byte) []byte {
		h := sha256.Sum256(der)
		l.issuers[hex.EncodeToString(h[:])] = der
		return h[:]
	}
	i := len(l.entries)
	e := &ctEntry{spec: s, idx: uint64(i), ms: ms(s.ts)}
	issuerCert, issuerKey := authority("A", s.caForm), keyA
	if s.ca == "B" {
		issuerCert, issuerKey = authority("B", s.caForm), keyB
	}
	if s.by != nil {
		issuerCert, issuerKey = s.by.der, s.by.key
	}
	var rest [][]byte
	if s.chainPad {
		rest = [][]byte{rootCert}
	}
	ext := []byte{}
	if l.tiled {
		ext = cat([]byte{0, 0, 5, 0}, []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)})
	}
	ikh := sha256.Sum256(issuerKey.SPKI)
	switch s.kind {
	case "cert", "root":
		der, _ := s.cert(false)
		e.leaf = cat([]byte{0, 0}, u64(e.ms), []byte{0, 0}, u24(der), u16(ext))
		chain := append([][]byte{issuerCert}, rest...)
		if s.kind == "root" {
			chain = nil
		}
		e.extra = u24(certList(chain))
		e.tile = cat(u64(e.ms), []byte{0, 0}, u24(der), u16(ext), u16(fps(fp, chain)))
	case "precert", "psc":
		der, tbs := s.cert(true)
		chain := append([][]byte{issuerCert}, rest...)
		if s.kind == "psc" {
			chain = append([][]byte{authority("PSC", s.caForm), authority("A", s.caForm)}, rest...)
			if s.caForm == "eku-both" || s.caForm == "eku" {
				chain[1] = caA
			}
		}
		e.leaf = cat([]byte{0, 0}, u64(e.ms), []byte{0, 1}, ikh[:], u24(tbs), u16(ext))
		e.extra = cat(u24(der), u24(certList(chain)))
		e.tile = cat(u64(e.ms), []byte{0, 1}, ikh[:], u24(tbs), u16(ext), u24(der), u16(fps(fp, chain)))
	default:
		panic(s.kind)
	}
	e.hash = leafHash(e.leaf)
	if s.kind != "root" {
		e.key = "serials::" + label(s.notAfter) + "::" + issuerKey.IssuerID()
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], e.ms)
		e.member = string(b[:]) + string(l.id[:]) + string(s.serial)
		e.binEnd = s.notAfter.UTC().Truncate(time.Hour)
	}
	l.members[e.key+e.member] = true
	l.entries = append(l.entries, e)
}

func certList(chain [][]byte) []byte {
	var r []byte
	for _, c := range chain {
		r = append(r, u24(c)...)
	}
	return r
}

func fps(fp func([]byte) []byte, chain [][]byte) []byte {
	var r []byte
	for _, c := range chain {
		r = append(r, fp(c)...)
	}
	return r
}

// short is the name under which progress is kept.
func (l *ctLog) short() string {
	u, _ := url.Parse(l.url)
	return u.Host + strings.TrimRight(u.Path, "/")
}

func (l *ctLog) host() string { u, _ := url.Parse(l.url); return u.Host }

func (l *ctLog) metadata(enrolled bool) map[string]any {
	m := map[string]any{"crlite_enrolled": enrolled, "description": l.name, "logID": base64.StdEncoding.EncodeToString(l.id[:]),
		"mmd": l.mmd, "url": l.url, "tiled": l.tiled}
	if !l.noKey {
		m["key"] = base64.StdEncoding.EncodeToString(l.key.SPKI)
	}
	return m
}

// headTime is the timestamp of the tree head of the given size: when the log
// last grew, or now when it is idle.
func (l *ctLog) headTime() uint64 { return ms(time.Now()) + l.sthExtra }

// stale is an older tree head: that before the last entry was merged.
func (l *ctLog) stale(size, ts uint64) (uint64, uint64) {
	if size == 0 {
		return size, ts
	}
	size--
	ts = l.entries[size].ms
	for i := uint64(0); i < size; i++ {
		ts = max(ts, l.entries[i].ms)
	}
	return size, ts
}

func treeHeadInput(ts, size uint64, root [32]byte) []byte {
	return cat([]byte{0, 1}, u64(ts), u64(size), root[:])
}

type reply struct {
	status int
	body   []byte
	err    error
	cut    bool // the body ends with an error
	hdr    http.Header
	delay  time.Duration // how long the answer takes
}

func ok(b []byte) *reply { return &reply{status: 200, body: b} }

func jsonReply(v any) *reply {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return ok(b)
}

// serve answers a request; fault alters the answer.
func (l *ctLog) serve(req *http.Request, fault string) *reply {
	l.requests++
	path := strings.TrimPrefix(req.URL.Path, "/2000/")
	if l.tiled {
		return l.serveTiled(path, fault)
	}
	q := func(k string) uint64 { v, _ := strconv.ParseUint(req.URL.Query().Get(k), 10, 64); return v }
	switch path {
	case "ct/v1/get-sth":
		size, ts := l.size, l.headTime()
		root := l.mth(0, size)
		sig := cat([]byte{4, 3}, u16(l.key.Sign256(treeHeadInput(ts, size, root))))
		switch fault {
		case "sth-ts":
			ts += 30 * 24 * 3600 * 1000
		case "sth-size":
			size++
		case "sth-smaller":
			size--
		case "sth-stale":
			// an honest, older tree head
			size, ts = l.stale(size, ts)
			root = l.mth(0, size)
			sig = cat([]byte{4, 3}, u16(l.key.Sign256(treeHeadInput(ts, size, root))))
		case "sth-sig":
			sig[len(sig)-1] ^= 1
		case "sth-root":
			root[0] ^= 1
		case "sth-otherkey":
			ts += 30 * 24 * 3600 * 1000
			sig = cat([]byte{4, 3}, u16(pki.NewKey(77).Sign256(treeHeadInput(ts, size, root))))
		}
		l.badHead = fault
		if fault == "" || fault == "sth-stale" {
			l.headOK[[2]uint64{size, ts}] = true
			l.badHead = ""
		}
		return jsonReply(map[string]any{"tree_size": size, "timestamp": ts, "sha256_root_hash": root[:], "tree_head_signature": sig})
	case "ct/v1/get-sth-consistency":
		m, n := q("first"), q("second")
		if m > n || n > l.size {
			return &reply{status: 400, body: []byte("bad range")}
		}
		p := l.consistency(m, n)
		out := [][]byte{}
		for i := range p {
			out = append(out, append([]byte(nil), p[i][:]...))
		}
		switch {
		case strings.HasPrefix(fault, "proof-flip"):
			if i, _ := strconv.Atoi(fault[10:]); i < len(out) {
				out[i][7] ^= 0x40
			}
		case strings.HasPrefix(fault, "proof-short"):
			if i, _ := strconv.Atoi(fault[11:]); i < len(out) {
				out[i] = out[i][:31]
			}
		case fault == "proof-drop" && len(out) > 0:
			out = out[1:]
		case fault == "proof-drop-last" && len(out) > 0:
			out = out[:len(out)-1]
		case fault == "proof-extra":
			out = append(out, make([]byte, 32))
		case fault == "proof-reverse":
			for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
				out[i], out[j] = out[j], out[i]
			}
		case fault == "proof-empty":
			out = [][]byte{}
		}
		for j, r := range proofRanges(m, 0, n, true) {
			for i := r[0]; i < r[1]; i++ {
				l.proven[i] = len(out) == len(p) && string(out[j]) == string(p[j][:])
			}
		}
		return jsonReply(map[string]any{"consistency": out})
	case "ct/v1/get-entries":
		return l.serveEntries(q("start"), q("end"), fault)
	}
	return &reply{status: 404}
}

type wireEntry struct {
	Leaf  []byte `json:"leaf_input"`
	Extra []byte `json:"extra_data"`
}

func (l *ctLog) serveEntries(start, end uint64, fault string) *reply {
	if start > end || start >= l.size {
		return &reply{status: 400, body: []byte("bad range")}
	}
	if end >= l.size {
		end = l.size - 1
	}
	asked := end
	switch fault {
	case "only-one":
		end = start
	case "half":
		end = start + (end-start)/2
	}
	var idx []uint64
	for i := start; i <= end; i++ {
		idx = append(idx, i)
	}
	honest := true
	switch {
	case fault == "extra" && end+1 < l.size:
		idx = append(idx, end+1)
	case fault == "extra":
		idx = append(idx, end)
	case fault == "none":
		idx = nil
	case fault == "skip-first":
		idx = idx[1:]
	case fault == "repeat":
		idx = append(idx[:1:1], idx...)
	case fault == "swap" && len(idx) > 1:
		idx[0], idx[1] = idx[1], idx[0]
		honest = false
	case fault == "reverse":
		for i, j := 0, len(idx)-1; i < j; i, j = i+1, j-1 {
			idx[i], idx[j] = idx[j], idx[i]
		}
	}
	out := []wireEntry{}
	for j, i := range idx {
		e := l.entries[i]
		out = append(out, wireEntry{e.leaf, e.extra})
		k := start + uint64(j)
		if k <= asked {
			l.delivered[k] = honest && i == k && !(strings.HasPrefix(fault, "alter-") && strings.HasSuffix(fault, fmt.Sprintf("-%d", j)))
		}
	}
	// alter-KIND-J changes the J-th entry returned
	if strings.HasPrefix(fault, "alter-") {
		p := strings.Split(fault, "-")
		j, _ := strconv.Atoi(p[2])
		if j < len(out) {
			i := idx[j]
			e := l.entries[i]
			leaf := append([]byte(nil), e.leaf...)
			switch p[1] {
			case "ts":
				leaf[9] ^= 1
			case "body":
				leaf[len(leaf)-40] ^= 1
			case "serial":
				k := strings.Index(string(leaf), string(pki.Int(e.serial)))
				leaf[k+2] ^= 0x20
			case "other":
				leaf = append([]byte(nil), l.entries[(i+1)%l.size].leaf...)
			case "tls":
				leaf = leaf[:len(leaf)-3]
			case "type":
				leaf[1] = 1
			case "ext":
				leaf = cat(leaf[:len(leaf)-2], u16([]byte{1}))
			case "empty":
				leaf = nil
			case "chain":
				// the rest of the entry cannot be decoded
				out[j].Extra = e.extra[:len(e.extra)-1]
			}
			out[j].Leaf = leaf
			if p[1] == "other" {
				out[j].Extra = l.entries[(i+1)%l.size].extra
			}
		}
	}
	return jsonReply(map[string]any{"entries": out})
}
