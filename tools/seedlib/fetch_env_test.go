package main_test

// Fake logs on the loopback network, a private redis-server and the ct-fetch
// binary built from the working tree.

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	types "github.com/mozilla/crlite/go"
)

var binOnce sync.Once
var binDir string

func program(t *testing.T, name string) string {
	binOnce.Do(func() {
		binDir, _ = os.MkdirTemp("", "bin")
		for _, n := range []string{"ct-fetch", "commit"} {
			if out, err := exec.Command("go", "build", "-o", filepath.Join(binDir, n), "github.com/mozilla/crlite/go/cmd/"+n).CombinedOutput(); err != nil {
				t.Fatalf("build: %v\n%s", err, out)
			}
		}
	})
	return filepath.Join(binDir, name)
}

func plain(n int) []spec {
	var r []spec
	for i := 0; i < n; i++ {
		r = append(r, spec{kind: []string{"cert", "precert"}[i%2], ca: "A", serial: []byte{1, byte(i + 1)}, notAfter: base.AddDate(1, 0, 0), ts: base.Add(time.Duration(i-1000) * time.Minute)})
	}
	return r
}

// fakeLog serves a log; alter chooses the fault for a request ("" is honest).
func fakeLog(t *testing.T, name string, n int, tiled bool, specs []spec, alter func(kind string, nth int) string) *ctLog {
	l := newLog(name, n, tiled, 3600, specs)
	var mu sync.Mutex
	count := map[string]int{}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		p := strings.TrimPrefix(strings.TrimPrefix(req.URL.Path, "/2000/"), "ct/v1/")
		kind := p
		if i := strings.LastIndex(p, "/"); i >= 0 {
			kind = strings.Split(p, "/")[0]
			if strings.HasPrefix(p, "tile/data") {
				kind = "data"
			}
		}
		fault := ""
		if alter != nil {
			fault = alter(kind, count[kind])
		}
		count[kind]++
		if fault == "500" || fault == "404" || fault == "429" {
			code := 500
			fmt.Sscan(fault, &code)
			http.Error(w, "no", code)
			return
		}
		r := l.serve(req, fault)
		w.WriteHeader(r.status)
		w.Write(r.body)
	}))
	t.Cleanup(srv.Close)
	l.url = srv.URL + "/2000/"
	return l
}

type run struct {
	cmd *exec.Cmd
	out *strings.Builder
}

func start(t *testing.T, name string, vars map[string]string) *run {
	cmd := exec.Command(program(t, name), "-logtostderr")
	r := &run{cmd, &strings.Builder{}}
	cmd.Stdout, cmd.Stderr = r.out, r.out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "TMPDIR=" + t.TempDir()}
	for k, v := range vars {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	return r
}

func (r *run) wait(t *testing.T, d time.Duration) {
	done := make(chan error, 1)
	go func() { done <- r.cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			t.Logf("run: %v", err)
		}
	case <-time.After(d):
		r.cmd.Process.Kill()
		<-done
	}
}

// fetch runs ct-fetch for at most d.
func fetch(t *testing.T, p *proxy, dir string, batch int, forever bool, d time.Duration, logs ...*ctLog) string {
	var list []map[string]any
	for _, l := range logs {
		list = append(list, l.metadata(true))
	}
	b, _ := json.Marshal(list)
	vars := map[string]string{"certPath": dir, "redisHost": p.Addr, "redisTimeout": "5s", "healthAddr": "127.0.0.1:0", "pollingDelay": "1", "batchSize": fmt.Sprint(batch), "ctLogMetadata": string(b), "statsRefreshPeriod": "10000h"}
	if forever {
		vars["runForever"] = "true"
	}
	r := start(t, "ct-fetch", vars)
	r.wait(t, d)
	return r.out.String()
}

func state(t *testing.T, p *proxy, l *ctLog) *types.CTLogState {
	rep := p.do("get", "log::"+l.short())
	i := strings.Index(rep, "{")
	if i < 0 {
		return nil
	}
	var s types.CTLogState
	if err := json.Unmarshal([]byte(rep[i:]), &s); err != nil {
		t.Fatal(err)
	}
	return &s
}

func setState(t *testing.T, p *proxy, l *ctLog, s *types.CTLogState) {
	b, _ := json.Marshal(s)
	p.do("set", "log::"+l.short(), string(b))
}

func has(p *proxy, e *ctEntry) bool { return strings.HasPrefix(p.do("sismember", e.key, e.member), ":1") }

// gap returns the first entry in the saved range that is not stored.
func gap(t *testing.T, p *proxy, l *ctLog) string {
	s := state(t, p, l)
	if s == nil {
		return ""
	}
	for i := s.MinEntry; i <= s.MaxEntry && i < uint64(len(l.entries)); i++ {
		if e := l.entries[i]; e.key != "" && !has(p, e) {
			return fmt.Sprintf("progress %d-%d but entry %d is not stored", s.MinEntry, s.MaxEntry, i)
		}
	}
	return ""
}

func need(t *testing.T, p *proxy, l *ctLog, min, max uint64, out string) {
	s := state(t, p, l)
	if s == nil || s.MinEntry != min || s.MaxEntry != max {
		t.Fatalf("progress is %v, not %d-%d\n%s", s, min, max, out)
	}
	if g := gap(t, p, l); g != "" {
		t.Fatalf("%s\n%s", g, out)
	}
}

var _ = json.Marshal
