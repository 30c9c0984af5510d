package main

// The simulated Redis server against a real one: every sequence of commands.

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	sim "github.com/mozilla/crlite/go/verifsim"
)

type realRedis struct {
	c  net.Conn
	br *bufio.Reader
}

var (
	realServer *realRedis
	realErr    error
)

func startReal() (*realRedis, error) {
	if realServer != nil || realErr != nil {
		return realServer, realErr
	}
	realServer, realErr = launchReal()
	return realServer, realErr
}

func launchReal() (*realRedis, error) {
	hook := net.VerifDial
	net.VerifDial = nil
	defer func() { net.VerifDial = hook }()
	bin, err := exec.LookPath("redis-server")
	if err != nil {
		return nil, errNoServer
	}
	dir := sim.Scratch("redis")
	sock := filepath.Join(dir, "s")
	cmd := exec.Command(bin, "--port", "0", "--unixsocket", sock, "--save", "", "--appendonly", "no", "--dir", dir)
	if os.Getenv("VERIF_DEBUG") != "" {
		cmd.Stdout, cmd.Stderr = os.Stderr, os.Stderr
	}
	in, err := cmd.StdinPipe()
	_ = in
	if err != nil {
		return nil, err
	}
	cmd.SysProcAttr = deathSignal()
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	for i := 0; i < 200; i++ {
		c, err := net.Dial("unix", sock)
		if err == nil {
			return &realRedis{c, bufio.NewReader(c)}, nil
		}
		time.Sleep(25 * time.Millisecond)
	}
	return nil, fmt.Errorf("redis-server did not start")
}

func (r *realRedis) do(args []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "*%d\r\n", len(args))
	for _, a := range args {
		fmt.Fprintf(&b, "$%d\r\n%s\r\n", len(a), a)
	}
	_, err := io.WriteString(r.c, b.String())
	fatalIf(err)
	return r.reply()
}

func (r *realRedis) reply() string {
	l, err := r.br.ReadString('\n')
	fatalIf(err)
	n, _ := strconv.Atoi(strings.TrimSpace(l[1:]))
	switch l[0] {
	case '$':
		if n < 0 {
			return l
		}
		b := make([]byte, n+2)
		_, err := io.ReadFull(r.br, b)
		fatalIf(err)
		return l + string(b)
	case '*':
		s := l
		for i := 0; i < n; i++ {
			s += r.reply()
		}
		return s
	}
	return l
}

// normal makes replies comparable: order of set replies, scan cursors and
// error texts beyond their code.
func normal(cmd, rep string) string {
	if strings.HasPrefix(rep, "-") {
		return strings.SplitN(rep, " ", 2)[0]
	}
	switch cmd {
	case "exec":
		p := strings.Split(rep, "\r\n")
		for i := range p {
			if strings.HasPrefix(p[i], "-") {
				p[i] = strings.SplitN(p[i], " ", 2)[0]
			}
		}
		sort.Strings(p)
		return strings.Join(p, "|")
	case "smembers", "keys", "scan", "sscan":
		p := strings.Split(rep, "\r\n")
		sort.Strings(p)
		return strings.Join(p, "|")
	}
	return rep
}

var conformCmds = func() [][]string {
	far := strconv.FormatInt(time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC).Unix(), 10)
	l := []string{
		"sadd S a b", "sadd S a", "sadd K x", "srem S a", "srem S a b zz", "srem K a", "sismember S a", "scard S", "scard K", "smembers S", "smembers K",
		"exists S", "exists K", "expireat S " + far, "expireat S 1", "expireat K 1", "ttl S", "get K", "get S", "set K v", "set K w nx", "set K w ex 14400 nx",
		"set K w px 1000000 nx", "incr E", "incr K", "del K", "del S E", "keys *", "keys log::*", "set log::a/b {}", "scan 0 match * count 1000", "sscan S 0", "setnx K q",
		"MULTI", "EXEC", "WATCH K", "DISCARD", "sadd S", "get", "persist S", "type S", "mget K E", "pexpire S 100000000", "expire K 0",
	}
	var r [][]string
	for _, s := range l {
		r = append(r, strings.Fields(s))
	}
	script := "\nif redis.call(\"get\", KEYS[1]) == ARGV[1] then\n\treturn redis.call(\"del\", KEYS[1])\nend\nreturn 0\n"
	r = append(r, []string{"eval", script, "1", "K", "w"}, []string{"eval", script, "1", "K", "v"})
	return r
}()

func conformance(depth int, thorough bool) *sim.Scenario {
	return &sim.Scenario{Name: fmt.Sprintf("server-conformance-%d", depth), Thorough: thorough, Run: func(x *sim.Exec) {
		var n []string
		for _, c := range conformCmds {
			n = append(n, strings.Join(c[:min(len(c), 2)], " "))
		}
		first := x.C.ChooseN("first", "", n...)
		second := x.C.ChooseN("second", "", n...)
		real, err := startReal()
		if err != nil {
			x.Outcome = err.Error()
			return
		}
		var rec func(seq []int)
		count := 0
		rec = func(seq []int) {
			if len(seq) < depth {
				for i := range conformCmds {
					rec(append(seq[:len(seq):len(seq)], i))
				}
				return
			}
			fake := sim.NewServer()
			real.do([]string{"discard"})
			real.do([]string{"unwatch"})
			real.do([]string{"flushall"})
			for k, i := range seq {
				c := conformCmds[i]
				a, b := normal(strings.ToLower(c[0]), fake(c)), normal(strings.ToLower(c[0]), real.do(c))
				x.Steps++
				if a != b && !(c[0] == "ttl" && strings.HasPrefix(a, ":") && len(a) == len(b)) {
					var t []string
					for _, j := range seq[:k+1] {
						t = append(t, strings.Join(conformCmds[j], " "))
					}
					x.Fail("harness-conformance", "the simulated Redis answers %q, the real one %q: %s", a, b, strings.Join(t, "; "))
					fmt.Fprintf(os.Stderr, "CONFORM %q fake %q real %q\n", t, a, b)
					return
				}
			}
			count++
		}
		rec([]int{first, second})
		x.Outcome = fmt.Sprint(first, count)
	}}
}
