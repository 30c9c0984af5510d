// Package verifpki builds certificates and CRLs byte by byte, independently of
// the parsers and encoders under test.
package verifpki

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/pem"
	"io"
	"math/big"
	"time"
)

// T encodes a TLV.
func T(tag byte, parts ...[]byte) []byte {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	var h []byte
	switch {
	case n < 0x80:
		h = []byte{tag, byte(n)}
	case n < 0x100:
		h = []byte{tag, 0x81, byte(n)}
	case n < 0x10000:
		h = []byte{tag, 0x82, byte(n >> 8), byte(n)}
	default:
		h = []byte{tag, 0x83, byte(n >> 16), byte(n >> 8), byte(n)}
	}
	for _, p := range parts {
		h = append(h, p...)
	}
	return h
}

func Seq(p ...[]byte) []byte    { return T(0x30, p...) }
func Set(p ...[]byte) []byte    { return T(0x31, p...) }
func Int(raw []byte) []byte     { return T(0x02, raw) }
func Octets(p ...[]byte) []byte { return T(0x04, p...) }
func Bits(b []byte) []byte      { return T(0x03, []byte{0}, b) }
func Bool(v bool) []byte {
	if v {
		return []byte{1, 1, 0xff}
	}
	return []byte{1, 1, 0}
}
func UTCTime(s string) []byte { return T(0x17, []byte(s)) }
func GenTime(s string) []byte { return T(0x18, []byte(s)) }

// Time encodes a time the way RFC 5280 asks for.
func Time(t time.Time) []byte {
	t = t.UTC()
	if t.Year() < 2050 {
		return UTCTime(t.Format("060102150405Z"))
	}
	return GenTime(t.Format("20060102150405Z"))
}

func OID(n ...int) []byte {
	out := []byte{byte(n[0]*40 + n[1])}
	for _, v := range n[2:] {
		var b []byte
		b = append(b, byte(v&0x7f))
		for v >>= 7; v > 0; v >>= 7 {
			b = append([]byte{byte(v&0x7f) | 0x80}, b...)
		}
		out = append(out, b...)
	}
	return T(0x06, out)
}

// Name is a name with the one common name.
func Name(cn string) []byte {
	return Seq(Set(Seq(OID(2, 5, 4, 3), T(0x0c, []byte(cn)))))
}

func Ext(oid []byte, critical bool, value []byte) []byte {
	if critical {
		return Seq(oid, Bool(true), Octets(value))
	}
	return Seq(oid, Octets(value))
}

var (
	oidECDSASHA256 = OID(1, 2, 840, 10045, 4, 3, 2)
	OIDBasic       = OID(2, 5, 29, 19)
	OIDKeyUsage    = OID(2, 5, 29, 15)
	OIDEKU         = OID(2, 5, 29, 37)
	OIDAKI         = OID(2, 5, 29, 35)
	OIDSKI         = OID(2, 5, 29, 14)
	OIDCRLNumber   = OID(2, 5, 29, 20)
	OIDReason      = OID(2, 5, 29, 21)
	OIDPoison      = OID(1, 3, 6, 1, 4, 1, 11129, 2, 4, 3)
	OIDCTEKU       = OID(1, 3, 6, 1, 4, 1, 11129, 2, 4, 4)
	OIDServerAuth  = OID(1, 3, 6, 1, 5, 5, 7, 3, 1)
)

// Key is a deterministic P-256 key.
type Key struct {
	*ecdsa.PrivateKey
	SPKI []byte
}

func NewKey(n int) *Key {
	c := elliptic.P256()
	h := sha256.Sum256([]byte{'k', byte(n), byte(n >> 8)})
	d := new(big.Int).SetBytes(h[:])
	d.Mod(d, new(big.Int).Sub(c.Params().N, big.NewInt(1)))
	d.Add(d, big.NewInt(1))
	k := &ecdsa.PrivateKey{D: d}
	k.Curve = c
	k.X, k.Y = c.ScalarBaseMult(d.Bytes())
	spki, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
	if err != nil {
		panic(err)
	}
	return &Key{k, spki}
}

// IssuerID is the identifier CRLite uses for an issuing key.
func (k *Key) IssuerID() string {
	h := sha256.Sum256(k.SPKI)
	return base64.URLEncoding.EncodeToString(h[:])
}

type detRand struct{ s [32]byte }

func (d *detRand) Read(b []byte) (int, error) {
	for i := range b {
		if i%32 == 0 {
			d.s = sha256.Sum256(d.s[:])
		}
		b[i] = d.s[i%32]
	}
	return len(b), nil
}

var _ io.Reader = (*detRand)(nil)

// Sign signs with SHA-256.
func (k *Key) Sign256(msg []byte) []byte {
	h := sha256.Sum256(msg)
	s, err := k.Sign(&detRand{h}, h[:], crypto.SHA256)
	if err != nil {
		panic(err)
	}
	return s
}

// Cert describes a certificate.
type Cert struct {
	Serial    []byte // content octets of the INTEGER
	Issuer    string
	Subject   string
	NotBefore []byte // encoded time
	NotAfter  []byte
	SPKI      []byte
	Exts      [][]byte
	Sign      *Key
	BreakSig  bool
	NoVersion bool
}

func AlgID() []byte { return Seq(oidECDSASHA256) }

func (c Cert) TBS() []byte {
	parts := [][]byte{}
	if !c.NoVersion {
		parts = append(parts, T(0xa0, Int([]byte{2})))
	}
	parts = append(parts, Int(c.Serial), AlgID(), Name(c.Issuer), Seq(c.NotBefore, c.NotAfter), Name(c.Subject), c.SPKI)
	if len(c.Exts) > 0 {
		parts = append(parts, T(0xa3, Seq(c.Exts...)))
	}
	return Seq(parts...)
}

func (c Cert) DER() []byte {
	tbs := c.TBS()
	sig := c.Sign.Sign256(tbs)
	if c.BreakSig {
		sig[len(sig)-1] ^= 1
	}
	return Seq(tbs, AlgID(), Bits(sig))
}

func CAExts() [][]byte {
	return [][]byte{
		Ext(OIDBasic, true, Seq(Bool(true))),
		Ext(OIDKeyUsage, true, []byte{3, 2, 1, 6}),
	}
}

func PEM(der []byte) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
}

// CRLEntry is a revoked certificate.
type CRLEntry struct {
	Serial []byte
	Date   []byte
	Exts   [][]byte // nil: no extensions field
	Raw    []byte   // if set, the whole entry
}

func (e CRLEntry) Encode() []byte {
	if e.Raw != nil {
		return e.Raw
	}
	if e.Exts == nil {
		return Seq(Int(e.Serial), e.Date)
	}
	return Seq(Int(e.Serial), e.Date, Seq(e.Exts...))
}

// Reason is a reason code extension.
func Reason(n int) []byte { return Ext(OIDReason, false, T(0x0a, []byte{byte(n)})) }

// CRL describes a certificate revocation list.
type CRL struct {
	Issuer     string
	This, Next []byte // Next nil: absent
	Entries    []CRLEntry
	NoList     bool // omit revokedCertificates
	Exts       [][]byte
	Sign       *Key
	BreakSig   bool
	V1         bool
}

func (c CRL) TBS() []byte {
	var parts [][]byte
	if !c.V1 {
		parts = append(parts, Int([]byte{1}))
	}
	parts = append(parts, AlgID(), Name(c.Issuer), c.This)
	if c.Next != nil {
		parts = append(parts, c.Next)
	}
	if !c.NoList {
		var l [][]byte
		for _, e := range c.Entries {
			l = append(l, e.Encode())
		}
		parts = append(parts, Seq(l...))
	}
	if c.Exts != nil {
		parts = append(parts, T(0xa0, Seq(c.Exts...)))
	}
	return Seq(parts...)
}

func (c CRL) DER() []byte {
	tbs := c.TBS()
	sig := c.Sign.Sign256(tbs)
	if c.BreakSig {
		sig[len(sig)-1] ^= 1
	}
	return Seq(tbs, AlgID(), Bits(sig))
}
