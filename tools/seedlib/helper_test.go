package storage_test

// A private redis-server behind a proxy that sees every command.

import (
	"bufio"
	"encoding/base64"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	types "github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/storage"
)

type proxy struct {
	Addr string
	// Before may answer a command itself ("" forwards it, "drop" cuts the connection).
	Before func(args []string) string
	// After sees and may replace the reply.
	After func(args []string, reply string) string
	back  string
}

func readReply(br *bufio.Reader) (string, error) {
	l, err := br.ReadString('\n')
	if err != nil {
		return "", err
	}
	n, _ := strconv.Atoi(strings.TrimSpace(l[1:]))
	switch l[0] {
	case '$':
		if n >= 0 {
			b := make([]byte, n+2)
			_, err = io.ReadFull(br, b)
			l += string(b)
		}
	case '*':
		for i := 0; i < n && err == nil; i++ {
			var s string
			s, err = readReply(br)
			l += s
		}
	}
	return l, err
}

func readArgs(br *bufio.Reader) ([]string, error) {
	l, err := br.ReadString('\n')
	if err != nil {
		return nil, err
	}
	n, _ := strconv.Atoi(strings.TrimSpace(l[1:]))
	var args []string
	for i := 0; i < n; i++ {
		l, err := br.ReadString('\n')
		if err != nil {
			return nil, err
		}
		k, _ := strconv.Atoi(strings.TrimSpace(l[1:]))
		b := make([]byte, k+2)
		if _, err := io.ReadFull(br, b); err != nil {
			return nil, err
		}
		args = append(args, string(b[:k]))
	}
	return args, nil
}

func send(w io.Writer, args []string) {
	var b strings.Builder
	fmt.Fprintf(&b, "*%d\r\n", len(args))
	for _, a := range args {
		fmt.Fprintf(&b, "$%d\r\n%s\r\n", len(a), a)
	}
	io.WriteString(w, b.String())
}

func startRedis(t *testing.T) *proxy {
	dir := t.TempDir()
	sock := filepath.Join(dir, "s")
	cmd := exec.Command("redis-server", "--port", "0", "--unixsocket", sock, "--save", "", "--appendonly", "no", "--dir", dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { cmd.Process.Kill(); cmd.Wait() })
	for i := 0; ; i++ {
		c, err := net.Dial("unix", sock)
		if err == nil {
			c.Close()
			break
		}
		if i > 400 {
			t.Fatal("redis-server did not start")
		}
		time.Sleep(25 * time.Millisecond)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { l.Close() })
	p := &proxy{Addr: l.Addr().String(), back: sock}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go p.serve(c)
		}
	}()
	return p
}

func (p *proxy) serve(c net.Conn) {
	defer c.Close()
	b, err := net.Dial("unix", p.back)
	if err != nil {
		return
	}
	defer b.Close()
	cr, br := bufio.NewReader(c), bufio.NewReader(b)
	for {
		args, err := readArgs(cr)
		if err != nil {
			return
		}
		args[0] = strings.ToLower(args[0])
		rep := ""
		if p.Before != nil {
			rep = p.Before(args)
		}
		if rep == "drop" {
			return
		}
		if rep == "" {
			send(b, args)
			if rep, err = readReply(br); err != nil {
				return
			}
		}
		if p.After != nil {
			rep = p.After(args, rep)
		}
		io.WriteString(c, rep)
	}
}

// do runs a command on the server directly.
func (p *proxy) do(args ...string) string {
	b, err := net.Dial("unix", p.back)
	if err != nil {
		return err.Error()
	}
	defer b.Close()
	send(b, args)
	s, _ := readReply(bufio.NewReader(b))
	return s
}

func (p *proxy) cache(t *testing.T) *storage.RedisCache {
	c, err := storage.NewRedisCache(p.Addr, 10*time.Second)
	if err != nil {
		t.Fatal(err)
	}
	return c
}

var (
	logID   = [32]byte{1, 2, 3}
	issuerA = types.NewIssuerFromString("issuerA")
	issuerB = types.NewIssuerFromString("issuerB")
	future  = mustExp("2090-01-01-05")
)

func mustExp(s string) types.ExpDate {
	e, err := types.NewExpDate(s)
	if err != nil {
		panic(err)
	}
	return e
}

// ingest stores one serial at time ts (ms) and then the log state up to it.
func ingest(t *testing.T, db *storage.CertDatabase, iss types.Issuer, exp types.ExpDate, serial string, ts, progress uint64) {
	m := db.GetSerialCacheKey(exp, iss).NewMember(ts, logID, types.NewSerialFromHex(serial))
	if err := db.Store([]storage.SetMemberWithExpiry{m}); err != nil {
		t.Fatal(err)
	}
	saveLog(t, db, progress)
}

func saveLog(t *testing.T, db *storage.CertDatabase, progress uint64) {
	if err := db.SaveLogState(&types.CTLogState{LogID: base64.StdEncoding.EncodeToString(logID[:]), MMD: 1, ShortURL: "log.example/ct",
		MaxEntry: progress, MaxTimestamp: progress}); err != nil {
		t.Fatal(err)
	}
}

func commit(t *testing.T, db *storage.CertDatabase, c storage.RemoteCache) error {
	tok, err := c.AcquireCommitLock()
	if err != nil || tok == nil {
		t.Fatalf("no lock: %v", err)
	}
	defer c.ReleaseCommitLock(*tok)
	return db.Commit(*tok)
}

func newDB(t *testing.T, c storage.RemoteCache, dir string) *storage.CertDatabase {
	db, err := storage.NewCertDatabase(c, dir, false)
	if err != nil {
		t.Fatal(err)
	}
	return &db
}

func stored(t *testing.T, db *storage.CertDatabase, iss types.Issuer, exp types.ExpDate) map[string]bool {
	l, err := db.ReadSerialsFromStorage(exp, iss)
	if err != nil {
		t.Fatal(err)
	}
	m := map[string]bool{}
	for _, s := range l {
		m[s.HexString()] = true
	}
	return m
}

// coverage is the published MaxTimestamp, 0 if none.
func coverage(t *testing.T, db *storage.CertDatabase) uint64 {
	l, err := db.GetCTLogsFromStorage()
	if os.IsNotExist(err) {
		return 0
	}
	if err != nil {
		t.Fatal(err)
	}
	if len(l) != 1 {
		return 0
	}
	return l[0].MaxTimestamp
}

func members(p *proxy, exp types.ExpDate, iss types.Issuer) string {
	return p.do("smembers", "serials::"+exp.ID()+"::"+iss.ID())
}

// writeBin puts a serial file in place through a commit of a far bin, renamed.
func writeBin(t *testing.T, dir string, iss types.Issuer, exp types.ExpDate, serial string) string {
	d := filepath.Join(dir, "serials", "issuer::"+iss.ID())
	if err := os.MkdirAll(d, 0755); err != nil {
		t.Fatal(err)
	}
	f, err := os.Create(filepath.Join(d, "serials::"+exp.ID()+"::"+iss.ID()))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	if err := storage.WriteSerialList(f, exp, iss, []types.Serial{types.NewSerialFromHex(serial)}); err != nil {
		t.Fatal(err)
	}
	return d
}
