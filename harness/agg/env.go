// Harness for the generation step: aggregate-crls, aggregate-known, the
// downloader, the CCADB report and the CRL decoder, run as simulated processes.
package main

import (
	"bytes"
	"encoding/csv"
	"errors"
	"flag"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	pki "github.com/mozilla/crlite/go/verifpki"
	sim "github.com/mozilla/crlite/go/verifsim"
)

func init() {
	flag.Set("logtostderr", "true")
	flag.Set("stderrthreshold", "FATAL")
}

func fatalIf(err error) {
	if err != nil {
		panic(err)
	}
}

var base = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// page is what a URL answers with.
type page struct {
	body    []byte
	lastMod time.Time // zero: not announced
	ranges  bool      // resumption offered
	status  int       // if not 200
	to      string    // redirect
}

type env struct {
	x     *sim.Exec
	w     *sim.World
	root  string
	pages map[string]*page
	// webFaults are offered for requests.
	webFaults func(method, url string) []string
	wrong     []byte // what a confused server sends
	requests  int
	served    map[string]bool // complete bodies sent with success
	onFault   func(f string)
}

func newEnv(x *sim.Exec) *env {
	root := sim.Scratch("agg")
	e := &env{x: x, root: root, w: sim.NewWorld(x, root), pages: map[string]*page{}, served: map[string]bool{}, wrong: []byte("<html>maintenance</html>")}
	e.w.Mtimes = true
	e.w.NoStates = true
	e.w.HTTP = e.http
	e.w.Horizon = 400 * 24 * time.Hour
	return e
}

func (e *env) done() {
	e.w.Close()
	os.RemoveAll(e.root)
}

func (e *env) path(name string) string { return filepath.Join(e.root, name) }

// put writes a file of the given date.
func (e *env) put(name string, content []byte, date time.Time) {
	f := e.path(name)
	fatalIf(os.MkdirAll(filepath.Dir(f), 0o755))
	fatalIf(os.WriteFile(f, content, 0o644))
	fatalIf(os.Chtimes(f, date, date))
	e.w.Touch()
}

func (e *env) get(name string) ([]byte, bool) {
	b, err := os.ReadFile(e.path(name))
	return b, err == nil
}

type errReader struct{ err error }

func (r errReader) Read([]byte) (int, error) { return 0, r.err }

// stall never delivers anything until the request is abandoned.
type stall struct{ req *http.Request }

func (s stall) Read([]byte) (int, error) {
	<-s.req.Context().Done()
	return 0, s.req.Context().Err()
}

var getFaults = []string{"conn", "404", "500", "cut", "stall", "wrong", "empty", "short", "206", "206tail", "redirect", "loop", "slow"}
var headFaults = []string{"conn", "404", "no-date", "no-length", "bigger", "ranges", "newer"}

func (e *env) http(p *sim.Proc, req *http.Request) (*http.Response, error) {
	u := *req.URL
	u.Fragment = ""
	url := u.String()
	var faults []string
	if e.webFaults != nil {
		faults = e.webFaults(req.Method, url)
	}
	e.requests++
	fault := p.YieldFaults("http", req.Method+" "+url, faults)
	if fault != "" && e.onFault != nil {
		e.onFault(fault)
	}
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	h := http.Header{}
	r := &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Request: req}
	finish := func(body io.Reader) (*http.Response, error) {
		r.Status = fmt.Sprintf("%d %s", r.StatusCode, http.StatusText(r.StatusCode))
		if body == nil {
			body = bytes.NewReader(nil)
		}
		r.Body = io.NopCloser(body)
		return r, nil
	}
	pg := e.pages[url]
	if pg == nil {
		r.StatusCode = 404
		return finish(strings.NewReader("not found"))
	}
	if pg.to != "" {
		r.StatusCode = 302
		h.Set("Location", pg.to)
		return finish(nil)
	}
	if pg.status != 0 {
		r.StatusCode = pg.status
		return finish(strings.NewReader("sorry"))
	}
	if !pg.lastMod.IsZero() {
		h.Set("Last-Modified", pg.lastMod.UTC().Format(http.TimeFormat))
	}
	if pg.ranges {
		h.Set("Accept-Ranges", "bytes")
	}
	body := pg.body
	length := len(body)
	if req.Method == "HEAD" {
		switch fault {
		case "conn":
			return nil, errors.New("connection refused")
		case "404":
			r.StatusCode = 404
			h.Del("Last-Modified")
		case "no-date":
			h.Del("Last-Modified")
		case "no-length":
			length = -1
		case "bigger":
			length++
		case "ranges":
			h.Set("Accept-Ranges", "bytes")
			length++
		case "newer":
			h.Set("Last-Modified", time.Now().Add(24*time.Hour).UTC().Format(http.TimeFormat))
		}
		if length >= 0 {
			h.Set("Content-Length", fmt.Sprint(length))
		}
		r.ContentLength = int64(length)
		return finish(nil)
	}
	var rd io.Reader
	switch fault {
	case "conn":
		return nil, errors.New("connection reset")
	case "404", "500":
		fmt.Sscan(fault, &r.StatusCode)
		body = []byte("sorry")
	case "cut row": // at the end of a row
		n := bytes.LastIndex(body[:len(body)*3/4], []byte("\nrow ")) + 1
		rd = io.MultiReader(bytes.NewReader(body[:n]), errReader{io.ErrUnexpectedEOF})
	case "cut":
		rd = io.MultiReader(bytes.NewReader(body[:len(body)/2]), errReader{io.ErrUnexpectedEOF})
	case "stall":
		rd = io.MultiReader(bytes.NewReader(body[:len(body)/2]), stall{req})
	case "slow":
		select {
		case <-req.Context().Done():
			return nil, req.Context().Err()
		case <-time.After(200 * time.Second):
		}
	case "wrong":
		body = e.wrong
	case "empty":
		body = nil
	case "short":
		body = body[:len(body)/2]
	case "206":
		r.StatusCode = 206
	case "206tail":
		r.StatusCode = 206
		body = body[len(body)/2:]
	case "redirect":
		r.StatusCode = 302
		alt := "http://elsewhere.example/" + fmt.Sprint(len(e.pages))
		cp := *pg
		e.pages[alt] = &cp
		h.Set("Location", alt)
		body = nil
	case "loop":
		r.StatusCode = 302
		h.Set("Location", url)
		body = nil
	}
	if rd == nil {
		if r.StatusCode == 200 {
			e.served[string(body)] = true
		}
		rd = bytes.NewReader(body)
	}
	r.ContentLength = int64(len(body))
	h.Set("Content-Length", fmt.Sprint(len(body)))
	return finish(rd)
}

// ---- certificates -----------------------------------------------------------

var (
	early  = pki.UTCTime("800101000000Z")
	late   = pki.GenTime("21000101000000Z")
	gone   = pki.UTCTime("990101000000Z")
	soon   = pki.UTCTime("300101000000Z")
	rootK  = pki.NewKey(40)
	root   = caCert("Root", "Root", rootK, rootK)
	certs  = map[string][]byte{}
	keyOf  = map[string]*pki.Key{}
	serial = byte(1)
)

func caCert(subject, issuer string, key, sign *pki.Key) []byte {
	serial++
	return pki.Cert{Serial: []byte{1, serial}, Issuer: issuer, Subject: subject, NotBefore: early, NotAfter: late, SPKI: key.SPKI, Exts: pki.CAExts(), Sign: sign}.DER()
}

// ca is an intermediate directly below the root.
func ca(name string) ([]byte, *pki.Key) {
	if certs[name] == nil {
		h := 0
		for _, c := range name {
			h = h*31 + int(c)
		}
		keyOf[name] = pki.NewKey(50 + h%5000)
		certs[name] = caCert(name, "Root", keyOf[name], rootK)
	}
	return certs[name], keyOf[name]
}

// ---- CCADB reports ----------------------------------------------------------

type row struct {
	pem     string
	kind    string // default Intermediate Certificate
	revoked string // default Not Revoked
	full    string
	parts   string
	short   bool
}

var columns = []string{"Certificate_Name", "X.509_Certificate_PEM", "RecordType.Name", "Revocation_Status__c", "Full_CRL_Issued_By_This_CA", "JSON_Array_of_Partitioned_CRLs"}

func report(rows ...row) []byte {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.Write(columns)
	for i, r := range rows {
		if r.kind == "" {
			r.kind = "Intermediate Certificate"
		}
		if r.revoked == "" {
			r.revoked = "Not Revoked"
		}
		w.Write([]string{fmt.Sprint("row ", i), r.pem, r.kind, r.revoked, r.full, r.parts})
	}
	w.Flush()
	return b.Bytes()
}

func rootRow() row { return row{pem: pki.PEM(root), kind: "Root Certificate"} }

// jsonList is a list of URLs as disclosed in CCADB.
func jsonList(urls ...string) string {
	return `["` + strings.Join(urls, `", "`) + `"]`
}
