// The Go part of the whole system: ct-fetch, aggregate-crls and aggregate-known
// run one after the other in one closed world, as often as the history on
// standard input says. One line of JSON per history, one line of answer.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/csv"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	aggcrls "github.com/mozilla/crlite/go/verifcmd/aggcrls"
	aggknown "github.com/mozilla/crlite/go/verifcmd/aggknown"
	commit "github.com/mozilla/crlite/go/verifcmd/commit"
	ctfetch "github.com/mozilla/crlite/go/verifcmd/ctfetch"
	pki "github.com/mozilla/crlite/go/verifpki"
	sim "github.com/mozilla/crlite/go/verifsim"
)

type jCA struct {
	Name, Subject string
	Key           int
}

type jLog struct {
	Name  string
	Tiled bool
	MMD   uint64
}

type jEntry struct {
	CA       string
	Serial   string // hex
	Kind     string
	TS       int64 // ms since the start
	NotAfter string
}

type jRow struct {
	CA, Revoked, Full string
	Parts             []string
	Copies            int // certificates of the key
}

type jCRL struct {
	URL, CA, Sign string
	Entries       []struct {
		Serial string
		Reason int // -1: no reason extension
	}
	Bad string
}

type jStep struct {
	At       float64 // hours
	Grow     map[string][]jEntry
	Settings []map[string]any
	Report   []jRow
	CCADB    string // where the report is kept
	CRLs     []jCRL
}

// jHistory begins a history; the requests that follow are of it.
type jHistory struct {
	Info bool
	CAs  []jCA
	Logs []jLog
	Root string // files below are dated by the simulated clock
}

// jRequest is one of: the next step of the world, a program to run (and to kill
// before its nth operation), the loss of the cache, the end.
type jRequest struct {
	Step *jStep
	Run  []string
	Kill int
	Lose bool
	Wait float64 // hours
}

type jAnswer struct {
	Problem string
	CAs     map[string]map[string]string `json:",omitempty"`
	Logs    map[string]map[string]string `json:",omitempty"`
	Exit    int
	Ops     int // operations of the program
}

const killed = 137

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

var rootKey = pki.NewKey(40)

func caCert(c jCA, nth byte) []byte {
	return pki.Cert{Serial: []byte{1 + nth, byte(c.Key)}, Issuer: "Root", Subject: c.Subject, NotBefore: farPast, NotAfter: pki.GenTime("21000101000000Z"), SPKI: pki.NewKey(c.Key).SPKI, Exts: pki.CAExts(), Sign: rootKey}.DER()
}

var theRoot = pki.Cert{Serial: []byte{9}, Issuer: "Root", Subject: "Root", NotBefore: farPast, NotAfter: pki.GenTime("21000101000000Z"), SPKI: rootKey.SPKI, Exts: pki.CAExts(), Sign: rootKey}.DER()

var signers = map[string]*signer{}

func signerOf(c jCA) *signer {
	k := fmt.Sprint(c)
	if signers[k] == nil {
		signers[k] = &signer{c.Subject, pki.NewKey(c.Key), caCert(c, 0)}
	}
	return signers[k]
}

func reportCSV(h jHistory, rows []jRow) []byte {
	var b strings.Builder
	w := csv.NewWriter(&b)
	w.Write([]string{"Certificate_Name", "X.509_Certificate_PEM", "RecordType.Name", "Revocation_Status__c", "Full_CRL_Issued_By_This_CA", "JSON_Array_of_Partitioned_CRLs"})
	w.Write([]string{"root", pki.PEM(theRoot), "Root Certificate", "Not Revoked", "", ""})
	for _, r := range rows {
		parts := ""
		if len(r.Parts) > 0 {
			parts = `["` + strings.Join(r.Parts, `", "`) + `"]`
		}
		if r.Revoked == "" {
			r.Revoked = "Not Revoked"
		}
		for _, c := range h.CAs {
			if c.Name == r.CA {
				for i := 0; i <= r.Copies; i++ {
					w.Write([]string{r.CA, pki.PEM(caCert(c, byte(i))), "Intermediate Certificate", r.Revoked, r.Full, parts})
				}
			}
		}
	}
	w.Flush()
	return []byte(b.String())
}

func crlBytes(h jHistory, c jCRL, now time.Time) []byte {
	var s *signer
	for _, k := range h.CAs {
		if k.Name == c.CA {
			s = signerOf(k)
		}
	}
	l := pki.CRL{Issuer: s.name, This: pki.Time(now.Add(-time.Hour)), Next: pki.Time(now.Add(10 * 24 * time.Hour)), NoList: len(c.Entries) == 0, Sign: s.key,
		Exts: [][]byte{pki.Ext(pki.OIDCRLNumber, false, pki.Int([]byte{7}))}}
	for _, e := range c.Entries {
		en := pki.CRLEntry{Serial: must(hex.DecodeString(e.Serial)), Date: pki.Time(now.Add(-2 * time.Hour))}
		if e.Reason >= 0 {
			en.Exts = [][]byte{pki.Reason(e.Reason)}
		}
		l.Entries = append(l.Entries, en)
	}
	switch c.Bad {
	case "signature":
		l.BreakSig = true
	case "expired":
		l.Next = pki.Time(now.Add(-time.Minute))
	case "garbage":
		return []byte("<html>")
	}
	return l.DER()
}

// conversation is with the explorer, by lines of JSON.
type conversation struct {
	in  *bufio.Reader
	out *bufio.Writer
}

func (c *conversation) hear(v any) bool {
	line, err := c.in.ReadBytes('\n')
	if err != nil {
		os.Exit(0)
	}
	if err := json.Unmarshal(line, v); err != nil {
		panic(err)
	}
	return true
}

func (c *conversation) say(a jAnswer) {
	c.out.Write(append(must(json.Marshal(a)), '\n'))
	c.out.Flush()
}

// plain drops the options about where the program's own log goes.
func plain(args []string) (out []string) {
	for i := 0; i < len(args); i++ {
		name, _, set := strings.Cut(strings.TrimLeft(args[i], "-"), "=")
		if strings.HasPrefix(args[i], "-") {
			switch name {
			case "alsologtostderr", "logtostderr":
				continue
			case "stderrthreshold", "log_dir", "v", "vmodule", "log_backtrace_at":
				if !set {
					i++
				}
				continue
			}
		}
		out = append(out, args[i])
	}
	return out
}

func run(h jHistory, x *sim.Exec, c *conversation) {
	var a jAnswer
	a.CAs, a.Logs = map[string]map[string]string{}, map[string]map[string]string{}
	cas := map[string]*signer{}
	for _, c := range h.CAs {
		cas[c.Name] = signerOf(c)
		a.CAs[c.Name] = map[string]string{"spki": hex.EncodeToString(cas[c.Name].key.SPKI), "der": hex.EncodeToString(cas[c.Name].der)}
	}
	var logs []*ctLog
	byName := map[string]*ctLog{}
	for i, l := range h.Logs {
		n := newLog(l.Name, i, l.Tiled, l.MMD, nil)
		logs = append(logs, n)
		byName[l.Name] = n
		a.Logs[l.Name] = map[string]string{"id": hex.EncodeToString(n.id[:]), "key": base64.StdEncoding.EncodeToString(n.key.SPKI), "url": n.url}
	}
	c.say(a)
	if h.Info {
		return
	}
	e := newEnv(x, logs...)
	defer e.done()
	e.w.NoStates, e.w.Mtimes, e.w.Root = true, true, h.Root
	e.w.After = nil
	os.RemoveAll(e.root)
	e.root = filepath.Join(h.Root, "sim")
	pages := map[string][]byte{}
	e.w.HTTP = func(p *sim.Proc, req *http.Request) (*http.Response, error) {
		if !strings.HasPrefix(req.URL.Host, "crl.") {
			return e.http(p, req)
		}
		p.YieldFaults("http", req.Method+" "+req.URL.String(), nil)
		if err := req.Context().Err(); err != nil {
			return nil, err
		}
		b, found := pages[req.URL.String()]
		r := &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: req, Header: http.Header{"Last-Modified": {time.Now().Add(-time.Minute).UTC().Format(http.TimeFormat)}}}
		if !found {
			r.StatusCode, r.Status, b = 404, "404 Not Found", []byte("no")
		}
		r.ContentLength = int64(len(b))
		r.Header.Set("Content-Length", fmt.Sprint(len(b)))
		if req.Method == "HEAD" {
			b = nil
		}
		r.Body = io.NopCloser(strings.NewReader(string(b)))
		return r, nil
	}
	start := time.Now()
	ops, limit, died := 0, 0, false
	e.w.Before = func(p *sim.Proc, desc string) bool {
		ops++
		died = died || ops == limit
		return ops == limit
	}
	end := func(p *sim.Proc) int {
		if !e.w.RunAll(p) {
			panic(errors.New(p.Name + " never ended"))
		}
		if p.Panic != nil {
			panic(fmt.Errorf("%s: %v", p.Name, p.Panic))
		}
		if died {
			return killed
		}
		return p.ExitCode
	}
	vars := map[string]string{"statsRefreshPeriod": "10000h", "numThreads": "2", "certPath": filepath.Join(e.root, "db"), "redisHost": "127.0.0.1:6379", "redisTimeout": "5s"}
	mains := map[string]func(){"aggregate-crls": aggcrls.Main, "aggregate-known": aggknown.Main, "commit": commit.Main}
	for {
		var q jRequest
		c.hear(&q)
		a := jAnswer{}
		ops, limit, died = 0, q.Kill, false
		if len(q.Run) > 0 {
			e.w.Touch()
			if q.Run[0] == "ct-fetch" {
				a.Exit = end(e.fetch(runOpt{settings: true, batch: 4096}))
			} else {
				f := mains[q.Run[0]]
				if f == nil {
					panic("there is no " + q.Run[0])
				}
				a.Exit = end(e.w.Spawn(q.Run[0], func(p *sim.Proc) { sim.RunCommand(plain(q.Run), vars, f) }))
			}
			a.Ops = ops
			c.say(a)
			continue
		}
		if q.Wait > 0 {
			time.Sleep(time.Duration(q.Wait * float64(time.Hour)))
			c.say(a)
			continue
		}
		if q.Lose {
			e.w.Redis.Wipe()
			c.say(a)
			continue
		}
		s := q.Step
		if s == nil {
			c.say(a)
			return
		}
		if d := time.Until(start.Add(time.Duration(s.At * float64(time.Hour)))); d > 0 {
			time.Sleep(d)
		}
		for n, es := range s.Grow {
			l := byName[n]
			for _, en := range es {
				na := must(time.Parse("2006-01-02T15:04:05Z", en.NotAfter))
				l.add(spec{kind: en.Kind, ca: "A", by: cas[en.CA], serial: must(hex.DecodeString(en.Serial)), notAfter: na, ts: base.Add(time.Duration(en.TS) * time.Millisecond)})
			}
			l.size = uint64(len(l.entries))
		}
		e.settings = func() *reply { return jsonReply(map[string]any{"data": s.Settings}) }
		for u := range pages {
			delete(pages, u)
		}
		for _, c := range s.CRLs {
			if c.Bad != "absent" {
				pages[c.URL] = crlBytes(h, c, time.Now())
			}
		}
		if err := os.WriteFile(s.CCADB, reportCSV(h, s.Report), 0o644); err != nil {
			panic(err)
		}
		os.Chtimes(s.CCADB, time.Now(), time.Now())
		c.say(a)
	}
}

var _ = ctfetch.Main

func main() {
	sim.Accept = func(string) bool { return false }
	c := &conversation{bufio.NewReaderSize(os.Stdin, 1<<20), bufio.NewWriter(os.Stdout)}
	for {
		var h jHistory
		c.hear(&h)
		problem := ""
		x := sim.RunOne(&sim.Scenario{Name: "e2e", Bubble: true, Run: func(x *sim.Exec) {
			defer func() {
				if r := recover(); r != nil {
					problem = fmt.Sprint(r)
				}
			}()
			run(h, x, c)
		}}, nil)
		if problem == "" {
			problem = x.Violation
		}
		if problem != "" {
			// the answer to the request that was being dealt with; the explorer starts another process
			c.say(jAnswer{Problem: problem})
			return
		}
	}
}
