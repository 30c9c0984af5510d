package verifsim

// redis.go: a small in-process Redis. It speaks RESP over an in-memory
// connection, executes one command at a time, and parks before each so that
// the controller owns order, faults and cut-offs. Compared with a real
// redis-server command by command in the C07 check.

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"path"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"
)

// Redis is the server state.
type Redis struct {
	mu   sync.Mutex
	Str  map[string]string
	Set  map[string]map[string]bool
	Exp  map[string]time.Time
	cur  map[string]string
	ncur int
	// ScanMode: "" one page; "dup" pages of one element, each repeated on the
	// next page, preceded by an empty page.
	ScanMode string
	// Down makes every connection attempt fail.
	Down bool
	// Log of executed commands (harness use).
	OnCommand func(p *Proc, args []string)
	// Reject may answer a command with an error instead of executing it.
	Reject func(p *Proc, args []string) string
	// Quiet commands are executed without parking.
	Quiet   func(args []string) bool
	Now     func() time.Time
	gen     uint64
	dump    string
	dumpGen uint64
}

// ReadOnly tells whether a command only reads.
func ReadOnly(cmd string) bool {
	switch strings.ToLower(cmd) {
	case "multi", "watch", "unwatch", "discard", "del", "srem":
		return true // not refused when memory is full
	}
	return readCmds[strings.ToLower(cmd)]
}

var readCmds = map[string]bool{"ping": true, "info": true, "sismember": true, "scard": true, "smembers": true, "exists": true, "ttl": true, "pttl": true,
	"type": true, "get": true, "mget": true, "keys": true, "scan": true, "sscan": true, "dbsize": true}

func (r *Redis) version() uint64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.expire()
	return r.gen
}

// NewRedis returns an empty server.
func NewRedis() *Redis {
	return &Redis{Str: map[string]string{}, Set: map[string]map[string]bool{}, Exp: map[string]time.Time{}, cur: map[string]string{}, Now: time.Now}
}

// Wipe loses everything.
func (r *Redis) Wipe() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.gen++
	r.Str = map[string]string{}
	r.Set = map[string]map[string]bool{}
	r.Exp = map[string]time.Time{}
}

// Snapshot is a saved server state.
type Snapshot struct {
	str map[string]string
	set map[string]map[string]bool
	exp map[string]time.Time
}

// Save copies the state.
func (r *Redis) Save() *Snapshot {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.expire()
	return (&Snapshot{r.Str, r.Set, r.Exp}).copy()
}

func (s *Snapshot) copy() *Snapshot {
	c := &Snapshot{map[string]string{}, map[string]map[string]bool{}, map[string]time.Time{}}
	for k, v := range s.str {
		c.str[k] = v
	}
	for k, v := range s.set {
		c.set[k] = map[string]bool{}
		for e := range v {
			c.set[k][e] = true
		}
	}
	for k, v := range s.exp {
		c.exp[k] = v
	}
	return c
}

// Load replaces the state.
func (r *Redis) Load(s *Snapshot) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.gen++
	c := s.copy()
	r.Str, r.Set, r.Exp = c.str, c.set, c.exp
}

// Dump is a canonical rendering of the state.
func (r *Redis) Dump() string {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.expire()
	if r.dumpGen == r.gen && r.dump != "" {
		return r.dump
	}
	var l []string
	for k, v := range r.Str {
		if k == "lock::commit" {
			v = "held"
		}
		l = append(l, fmt.Sprintf("%q=%q", k, v))
	}
	for k, s := range r.Set {
		var m []string
		for e := range s {
			m = append(m, e)
		}
		sort.Strings(m)
		l = append(l, fmt.Sprintf("%q={%q} exp=%d", k, m, r.Exp[k].Unix()))
	}
	sort.Strings(l)
	r.dump, r.dumpGen = fmt.Sprintf("%016x", Hash(l...)), r.gen
	return r.dump
}

// Members returns the elements of a set.
// Others is a rendering of everything but one key.
func (r *Redis) Others(key string) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.expire()
	var l []string
	for k, v := range r.Str {
		if k != key {
			l = append(l, fmt.Sprintf("%q=%q exp=%d", k, v, r.Exp[k].Unix()))
		}
	}
	for k, s := range r.Set {
		var m []string
		for e := range s {
			m = append(m, e)
		}
		sort.Strings(m)
		l = append(l, fmt.Sprintf("%q={%q} exp=%d", k, m, r.Exp[k].Unix()))
	}
	sort.Strings(l)
	return fmt.Sprintf("%016x", Hash(l...))
}

func (r *Redis) Members(key string) []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.expire()
	var m []string
	for e := range r.Set[key] {
		m = append(m, e)
	}
	sort.Strings(m)
	return m
}

// Has reports whether a set has a member.
func (r *Redis) Has(key, member string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.expire()
	return r.Set[key][member]
}

// Card is the size of a set.
func (r *Redis) Card(key string) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.expire()
	return len(r.Set[key])
}

// Keys lists keys with a prefix.
func (r *Redis) Keys(prefix string) []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.expire()
	var m []string
	for k := range r.Set {
		if strings.HasPrefix(k, prefix) {
			m = append(m, k)
		}
	}
	for k := range r.Str {
		if strings.HasPrefix(k, prefix) {
			m = append(m, k)
		}
	}
	sort.Strings(m)
	return m
}

// Get returns a string value.
func (r *Redis) Get(key string) (string, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.expire()
	v, ok := r.Str[key]
	return v, ok
}

var compareAndDelete = regexp.MustCompile(`^if redis\.call\(["']get["'], ?KEYS\[1\]\) == ARGV\[1\] then return redis\.call\(["']del["'], ?KEYS\[1\]\)( end return 0| else return 0 end)$`)

// TTL returns how long a key has left.
func (r *Redis) TTL(key string) (time.Duration, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.expire()
	t, ok := r.Exp[key]
	return t.Sub(r.Now()), ok
}

func (r *Redis) expire() {
	now := r.Now()
	for k, t := range r.Exp {
		if !now.Before(t) {
			r.gen++
			delete(r.Exp, k)
			delete(r.Str, k)
			delete(r.Set, k)
		}
	}
}

func (r *Redis) exists(k string) bool {
	_, a := r.Str[k]
	_, b := r.Set[k]
	return a || b
}

func (r *Redis) del(k string) bool {
	e := r.exists(k)
	delete(r.Str, k)
	delete(r.Set, k)
	delete(r.Exp, k)
	return e
}

const wrongType = "-WRONGTYPE Operation against a key holding the wrong kind of value\r\n"

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }
func integer(n int) string { return fmt.Sprintf(":%d\r\n", n) }
func array(l []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "*%d\r\n", len(l))
	for _, e := range l {
		b.WriteString(bulk(e))
	}
	return b.String()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

var arity = map[string]int{"ping": -1, "info": -1, "sadd": -3, "srem": -3, "sismember": 3, "scard": 2, "smembers": 2, "exists": -2, "del": -2, "unlink": -2,
	"expireat": -3, "pexpireat": -3, "expire": -3, "pexpire": -3, "persist": 2, "ttl": 2, "pttl": 2, "type": 2, "get": 2, "eval": -3, "evalsha": -3, "mget": -2,
	"setnx": 3, "getset": 3, "rename": 3, "set": -3, "incr": 2, "decr": 2, "incrby": 3, "keys": 2, "scan": -2, "sscan": -3, "dbsize": 1,
	"multi": 1, "exec": 1, "discard": 1, "watch": -2, "unwatch": 1}

// badArity is the error reply for a call with too few or too many arguments.
func badArity(args []string) string {
	cmd := strings.ToLower(args[0])
	if n, ok := arity[cmd]; ok && (n > 0 && len(args) != n || n < 0 && len(args) < -n) {
		return fmt.Sprintf("-ERR wrong number of arguments for '%s' command\r\n", cmd)
	}
	return ""
}

// Exec runs one command and returns the raw RESP reply.
func (r *Redis) Exec(args []string) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.expire()
	cmd := strings.ToLower(args[0])
	if e := badArity(args); e != "" {
		return e
	}
	if !readCmds[cmd] {
		r.gen++
	}
	argc := func(n int) bool { return len(args) == n }
	bad := fmt.Sprintf("-ERR wrong number of arguments for '%s' command\r\n", cmd)
	setOf := func(k string) (map[string]bool, bool) {
		if _, s := r.Str[k]; s {
			return nil, false
		}
		return r.Set[k], true
	}
	switch cmd {
	case "ping":
		return "+PONG\r\n"
	case "info":
		return bulk("# Memory\r\nused_memory:1000\r\nmaxmemory_policy:noeviction\r\n")
	case "sadd":
		if len(args) < 3 {
			return bad
		}
		s, ok := setOf(args[1])
		if !ok {
			return wrongType
		}
		if s == nil {
			s = map[string]bool{}
			r.Set[args[1]] = s
		}
		n := 0
		for _, e := range args[2:] {
			if !s[e] {
				s[e] = true
				n++
			}
		}
		return integer(n)
	case "srem":
		if len(args) < 3 {
			return bad
		}
		s, ok := setOf(args[1])
		if !ok {
			return wrongType
		}
		n := 0
		for _, e := range args[2:] {
			if s[e] {
				delete(s, e)
				n++
			}
		}
		if s != nil && len(s) == 0 {
			r.del(args[1])
		}
		return integer(n)
	case "sismember":
		if !argc(3) {
			return bad
		}
		s, ok := setOf(args[1])
		if !ok {
			return wrongType
		}
		return integer(b2i(s[args[2]]))
	case "scard":
		s, ok := setOf(args[1])
		if !ok {
			return wrongType
		}
		return integer(len(s))
	case "smembers":
		s, ok := setOf(args[1])
		if !ok {
			return wrongType
		}
		var l []string
		for e := range s {
			l = append(l, e)
		}
		sort.Strings(l)
		return array(l)
	case "exists":
		n := 0
		for _, k := range args[1:] {
			n += b2i(r.exists(k))
		}
		return integer(n)
	case "del", "unlink":
		n := 0
		for _, k := range args[1:] {
			n += b2i(r.del(k))
		}
		return integer(n)
	case "expireat", "pexpireat":
		if !argc(3) {
			return bad
		}
		t, err := strconv.ParseInt(args[2], 10, 64)
		if err != nil {
			return "-ERR value is not an integer or out of range\r\n"
		}
		if !r.exists(args[1]) {
			return integer(0)
		}
		if cmd == "expireat" {
			r.Exp[args[1]] = time.Unix(t, 0)
		} else {
			r.Exp[args[1]] = time.UnixMilli(t)
		}
		r.expire()
		return integer(1)
	case "expire", "pexpire":
		t, err := strconv.ParseInt(args[2], 10, 64)
		if err != nil {
			return "-ERR value is not an integer or out of range\r\n"
		}
		if !r.exists(args[1]) {
			return integer(0)
		}
		d := time.Duration(t) * time.Second
		if cmd == "pexpire" {
			d = time.Duration(t) * time.Millisecond
		}
		r.Exp[args[1]] = r.Now().Add(d)
		r.expire()
		return integer(1)
	case "persist":
		_, ok := r.Exp[args[1]]
		delete(r.Exp, args[1])
		return integer(b2i(ok))
	case "ttl", "pttl":
		if !r.exists(args[1]) {
			return integer(-2)
		}
		t, ok := r.Exp[args[1]]
		if !ok {
			return integer(-1)
		}
		d := t.Sub(r.Now())
		if cmd == "ttl" {
			return integer(int((d + 500*time.Millisecond) / time.Second))
		}
		return integer(int(d / time.Millisecond))
	case "type":
		if _, ok := r.Str[args[1]]; ok {
			return "+string\r\n"
		}
		if _, ok := r.Set[args[1]]; ok {
			return "+set\r\n"
		}
		return "+none\r\n"
	case "get":
		if _, ok := r.Set[args[1]]; ok {
			return wrongType
		}
		v, ok := r.Str[args[1]]
		if !ok {
			return "$-1\r\n"
		}
		return bulk(v)
	case "eval":
		// the one script in use: delete a key if it has a given value
		if !compareAndDelete.MatchString(strings.Join(strings.Fields(args[1]), " ")) || len(args) != 5 || args[2] != "1" {
			panic("simulated Redis: unknown script: " + args[1])
		}
		if _, isSet := r.Set[args[3]]; isSet {
			return wrongType
		}
		if v, ok := r.Str[args[3]]; ok && v == args[4] {
			return integer(b2i(r.del(args[3])))
		}
		return integer(0)
	case "evalsha":
		return "-NOSCRIPT No matching script. Please use EVAL.\r\n"
	case "mget":
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(args)-1)
		for _, k := range args[1:] {
			if v, ok := r.Str[k]; ok {
				b.WriteString(bulk(v))
			} else {
				b.WriteString("$-1\r\n")
			}
		}
		return b.String()
	case "setnx":
		if r.exists(args[1]) {
			return integer(0)
		}
		r.Str[args[1]] = args[2]
		return integer(1)
	case "getset":
		if _, ok := r.Set[args[1]]; ok {
			return wrongType
		}
		v, ok := r.Str[args[1]]
		r.del(args[1])
		r.Str[args[1]] = args[2]
		if !ok {
			return "$-1\r\n"
		}
		return bulk(v)
	case "rename":
		if !r.exists(args[1]) {
			return "-ERR no such key\r\n"
		}
		if args[1] == args[2] {
			return "+OK\r\n"
		}
		v, isStr := r.Str[args[1]]
		s := r.Set[args[1]]
		e, hasE := r.Exp[args[1]]
		r.del(args[1])
		r.del(args[2])
		if isStr {
			r.Str[args[2]] = v
		} else {
			r.Set[args[2]] = s
		}
		if hasE {
			r.Exp[args[2]] = e
		}
		return "+OK\r\n"
	case "set":
		k, v := args[1], args[2]
		nx, xx := false, false
		var exp time.Time
		for i := 3; i < len(args); i++ {
			switch strings.ToLower(args[i]) {
			case "nx":
				nx = true
			case "xx":
				xx = true
			case "ex", "px":
				if i+1 >= len(args) {
					return "-ERR syntax error\r\n"
				}
				n, err := strconv.ParseInt(args[i+1], 10, 64)
				if err != nil || n <= 0 {
					return "-ERR invalid expire time in 'set' command\r\n"
				}
				u := time.Second
				if strings.ToLower(args[i]) == "px" {
					u = time.Millisecond
				}
				exp = r.Now().Add(time.Duration(n) * u)
				i++
			default:
				return "-ERR syntax error\r\n"
			}
		}
		if nx && r.exists(k) || xx && !r.exists(k) {
			return "$-1\r\n"
		}
		r.del(k)
		r.Str[k] = v
		if !exp.IsZero() {
			r.Exp[k] = exp
		}
		return "+OK\r\n"
	case "incr", "incrby", "decr":
		if _, ok := r.Set[args[1]]; ok {
			return wrongType
		}
		n, d := int64(0), int64(1)
		if v, ok := r.Str[args[1]]; ok {
			var err error
			n, err = strconv.ParseInt(v, 10, 64)
			if err != nil {
				return "-ERR value is not an integer or out of range\r\n"
			}
		}
		if cmd == "incrby" {
			d, _ = strconv.ParseInt(args[2], 10, 64)
		} else if cmd == "decr" {
			d = -1
		}
		r.Str[args[1]] = strconv.FormatInt(n+d, 10)
		return fmt.Sprintf(":%d\r\n", n+d)
	case "keys":
		l := r.match(args[1])
		return array(l)
	case "scan":
		return r.scan(args[1], r.match("*"), args[2:])
	case "sscan":
		s, ok := setOf(args[1])
		if !ok {
			return wrongType
		}
		var l []string
		for e := range s {
			l = append(l, e)
		}
		sort.Strings(l)
		return r.scan(args[2], l, args[3:])
	case "dbsize":
		return integer(len(r.match("*")))
	case "flushall", "flushdb":
		r.Str = map[string]string{}
		r.Set = map[string]map[string]bool{}
		r.Exp = map[string]time.Time{}
		return "+OK\r\n"
	}
	return fmt.Sprintf("-ERR unknown command '%s'\r\n", args[0])
}

func (r *Redis) match(pat string) []string {
	var l []string
	add := func(k string) {
		if globMatch(pat, k) {
			l = append(l, k)
		}
	}
	for k := range r.Str {
		add(k)
	}
	for k := range r.Set {
		add(k)
	}
	sort.Strings(l)
	return l
}

// globMatch is Redis-style: '*' also matches '/'.
func globMatch(pat, s string) bool {
	if pat == "*" {
		return true
	}
	ok, _ := path.Match(strings.ReplaceAll(pat, "/", "\x01"), strings.ReplaceAll(s, "/", "\x01"))
	return ok
}

func (r *Redis) scan(cursor string, all []string, opts []string) string {
	pat, count := "*", 10
	for i := 0; i+1 < len(opts); i += 2 {
		switch strings.ToLower(opts[i]) {
		case "match":
			pat = opts[i+1]
		case "count":
			count, _ = strconv.Atoi(opts[i+1])
			if count < 1 {
				return "-ERR syntax error\r\n"
			}
		}
	}
	filter := func(l []string) []string {
		o := []string{}
		for _, e := range l {
			if globMatch(pat, e) {
				o = append(o, e)
			}
		}
		return o
	}
	if r.ScanMode == "" {
		return "*2\r\n" + bulk("0") + array(filter(all))
	}
	last := ""
	var page []string
	next := "0"
	newCursor := func(pos string) string {
		r.ncur++
		c := strconv.Itoa(r.ncur)
		r.cur[c] = pos
		return c
	}
	if cursor == "0" {
		// an empty first page
		return "*2\r\n" + bulk(newCursor("")) + array(nil)
	}
	last = r.cur[cursor]
	prev := ""
	found := ""
	for _, e := range all {
		if e <= last {
			prev = e
			continue
		}
		found = e
		break
	}
	if prev != "" && prev == last {
		page = append(page, prev)
	}
	if found != "" {
		page = append(page, found)
		next = newCursor(found)
	}
	return "*2\r\n" + bulk(next) + array(filter(page))
}

// ---- connections ---------------------------------------------------------

type half struct {
	mu     sync.Mutex
	buf    bytes.Buffer
	closed bool
	ready  chan struct{}
}

func newHalf() *half { return &half{ready: make(chan struct{}, 1)} }

func (h *half) write(b []byte) (int, error) {
	h.mu.Lock()
	if h.closed {
		h.mu.Unlock()
		return 0, io.ErrClosedPipe
	}
	n, _ := h.buf.Write(b)
	h.mu.Unlock()
	select {
	case h.ready <- struct{}{}:
	default:
	}
	return n, nil
}

func (h *half) close() {
	h.mu.Lock()
	h.closed = true
	h.mu.Unlock()
	select {
	case h.ready <- struct{}{}:
	default:
	}
}

func (h *half) read(b []byte, deadline time.Time) (int, error) {
	for {
		h.mu.Lock()
		if h.buf.Len() > 0 {
			n, _ := h.buf.Read(b)
			h.mu.Unlock()
			return n, nil
		}
		closed := h.closed
		h.mu.Unlock()
		if closed {
			return 0, io.EOF
		}
		if deadline.IsZero() {
			<-h.ready
			continue
		}
		d := time.Until(deadline)
		if d <= 0 {
			return 0, os.ErrDeadlineExceeded
		}
		t := time.NewTimer(d)
		select {
		case <-h.ready:
		case <-t.C:
		}
		t.Stop()
	}
}

type simConn struct {
	in, out *half
	mu      sync.Mutex
	rd      time.Time
}

type simAddr struct{}

func (simAddr) Network() string { return "sim" }
func (simAddr) String() string  { return "sim" }

func (c *simConn) Read(b []byte) (int, error) {
	c.mu.Lock()
	d := c.rd
	c.mu.Unlock()
	return c.in.read(b, d)
}
func (c *simConn) Write(b []byte) (int, error) { return c.out.write(b) }
func (c *simConn) Close() error                { c.in.close(); c.out.close(); return nil }
func (c *simConn) LocalAddr() net.Addr         { return simAddr{} }
func (c *simConn) RemoteAddr() net.Addr        { return simAddr{} }
func (c *simConn) SetDeadline(t time.Time) error {
	c.mu.Lock()
	c.rd = t
	c.mu.Unlock()
	return nil
}
func (c *simConn) SetReadDeadline(t time.Time) error  { return c.SetDeadline(t) }
func (c *simConn) SetWriteDeadline(t time.Time) error { return nil }

type srvConn struct {
	p      *Proc
	client *simConn
	server *simConn
}

func (s *srvConn) kill() { s.client.Close() }

func (w *World) dial(p *Proc) (net.Conn, error) {
	if p.dead != 0 {
		runtime.Goexit()
	}
	if w.Redis.Down {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: fmt.Errorf("connection refused")}
	}
	a, b := newHalf(), newHalf()
	c := &srvConn{p: p, client: &simConn{in: a, out: b}, server: &simConn{in: b, out: a}}
	p.conns = append(p.conns, c)
	go func() {
		runtime.VerifSetLabel(unsafe.Pointer(nil))
		w.serve(c)
	}()
	return c.client, nil
}

func readCommand(br *bufio.Reader) ([]string, error) {
	line, err := br.ReadString('\n')
	if err != nil {
		return nil, err
	}
	if line[0] != '*' {
		return nil, fmt.Errorf("bad request %q", line)
	}
	n, err := strconv.Atoi(strings.TrimSpace(line[1:]))
	if err != nil {
		return nil, err
	}
	args := make([]string, n)
	for i := range args {
		line, err = br.ReadString('\n')
		if err != nil {
			return nil, err
		}
		l, err := strconv.Atoi(strings.TrimSpace(line[1:]))
		if err != nil {
			return nil, err
		}
		b := make([]byte, l+2)
		if _, err = io.ReadFull(br, b); err != nil {
			return nil, err
		}
		args[i] = string(b[:l])
	}
	return args, nil
}

func short(args []string) string {
	var b strings.Builder
	for i, a := range args {
		if i > 0 {
			b.WriteByte(' ')
		}
		if strings.HasPrefix(a, "{") {
			if len(a) > 60 {
				a = fmt.Sprintf("json:%x", Hash(a)&0xffffff)
			}
			b.WriteString(a)
			continue
		}
		q := strconv.Quote(a)
		q = q[1 : len(q)-1]
		if len(q) > 70 {
			q = fmt.Sprintf("%s..%x", q[:24], Hash(a)&0xffffff)
		}
		b.WriteString(q)
		if i > 8 {
			fmt.Fprintf(&b, " +%d", len(args)-i)
			break
		}
	}
	return b.String()
}

// txState is a connection's transaction state.
type txState struct {
	multi   bool
	dirty   bool // a command was refused while queueing
	queue   [][]string
	watched map[string]string
}

// snapshot identifies the value under a key.
func (r *Redis) snapshot(k string) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.expire()
	if v, ok := r.Str[k]; ok {
		return "s" + v
	}
	var m []string
	for e := range r.Set[k] {
		m = append(m, e)
	}
	sort.Strings(m)
	return fmt.Sprintf("%q", m)
}

func (t *txState) do(r *Redis, cmd string, args []string) string {
	if e := badArity(args); e != "" {
		t.dirty = true
		return e
	}
	switch cmd {
	case "watch":
		if t.multi {
			return "-ERR WATCH inside MULTI is not allowed\r\n"
		}
		if t.watched == nil {
			t.watched = map[string]string{}
		}
		for _, k := range args[1:] {
			if _, ok := t.watched[k]; ok {
				continue
			}
			t.watched[k] = r.snapshot(k)
		}
		return "+OK\r\n"
	case "unwatch":
		t.watched = nil
		return "+OK\r\n"
	case "multi":
		if t.multi {
			return "-ERR MULTI calls can not be nested\r\n"
		}
		t.multi, t.dirty = true, false
		t.queue = nil
		return "+OK\r\n"
	case "discard":
		if !t.multi {
			return "-ERR DISCARD without MULTI\r\n"
		}
		t.multi, t.queue, t.watched = false, nil, nil
		return "+OK\r\n"
	case "exec":
		if !t.multi {
			return "-ERR EXEC without MULTI\r\n"
		}
		q, wd := t.queue, t.watched
		t.multi, t.queue, t.watched = false, nil, nil
		if t.dirty {
			return "-EXECABORT Transaction discarded because of previous errors.\r\n"
		}
		for k, v := range wd {
			if r.snapshot(k) != v {
				return "*-1\r\n"
			}
		}
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(q))
		for _, a := range q {
			b.WriteString(r.Exec(a))
		}
		return b.String()
	}
	if t.multi {
		t.queue = append(t.queue, args)
		return "+QUEUED\r\n"
	}
	return r.Exec(args)
}

func (w *World) serve(c *srvConn) {
	defer c.server.Close()
	br := bufio.NewReader(c.server)
	tx := &txState{}
	for {
		args, err := readCommand(br)
		if err != nil {
			return
		}
		cmd := strings.ToLower(args[0])
		if !(cmd == "ping" || cmd == "info") && (w.Redis.Quiet == nil || !w.Redis.Quiet(args)) {
			sa := append([]string(nil), args...)
			if len(sa) > 2 && strings.HasPrefix(sa[1], "lock::") {
				sa[2] = "<token>"
			}
			if cmd == "eval" && len(sa) > 4 {
				sa[1], sa[4] = "<script>", "<token>"
			}
			if cmd == "srem" || cmd == "sadd" {
				sort.Strings(sa[2:])
			}
			faults := []string{"ERR", "DROP", "DROPPED-REPLY"}
			if cmd == "multi" || cmd == "exec" {
				faults = faults[1:]
			}
			stickyKey := cmd
			if len(args) > 1 {
				stickyKey += " " + args[1]
			}
			if w.Sticky[stickyKey] {
				tx.dirty = true
				c.server.Write([]byte("-ERR injected lasting failure\r\n"))
				continue
			}
			a := w.park(c.p, "redis", short(sa), faults)
			switch a.kind {
			case "kill":
				return
			case "fail":
				tx.dirty = true
				switch a.fault {
				case "STICKY":
					if w.Sticky == nil {
						w.Sticky = map[string]bool{}
					}
					w.Sticky[stickyKey] = true
					fallthrough
				case "ERR":
					c.server.Write([]byte("-ERR injected failure\r\n"))
					continue
				case "OOM":
					c.server.Write([]byte("-OOM command not allowed when used memory > 'maxmemory'.\r\n"))
					continue
				case "DROP":
					return
				case "DROPPED-REPLY":
					tx.do(w.Redis, cmd, args)
					if w.Redis.OnCommand != nil {
						w.Redis.OnCommand(c.p, args)
					}
					return
				}
			}
		}
		if w.Redis.Reject != nil {
			if rep := w.Redis.Reject(c.p, args); rep != "" {
				tx.dirty = true
				c.server.Write([]byte(rep))
				continue
			}
		}
		rep := tx.do(w.Redis, cmd, args)
		if w.Redis.OnCommand != nil {
			w.Redis.OnCommand(c.p, args)
		}
		if _, err := c.server.Write([]byte(rep)); err != nil {
			return
		}
	}
}

// NewServer returns a lone simulated server for one connection, on real time.
func NewServer() func(args []string) string {
	r, t := NewRedis(), &txState{}
	return func(args []string) string { return t.do(r, strings.ToLower(args[0]), args) }
}
