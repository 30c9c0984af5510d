package verifsim

// world.go: the controlled world. Simulated processes run real code; every
// file-system operation, Redis command and HTTP request they make parks here
// and is released, failed or cut off by the controller. Between releases the
// controller waits (synctest.Wait) until nothing else can run, so an execution
// is a deterministic function of the choices made. Time is virtual.

import (
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io/fs"
	"net"
	"net/http"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"
	"unsafe"
)

// Proc is one simulated process.
type Proc struct {
	dead      uint32 // first field: read by the instrumented runtime
	W         *World
	Name      string
	Main      chan struct{} // closed when the main function returned, exited or died
	Exited    bool
	ExitCode  int
	Panic     any
	Err       error  // for harness use
	Tag       string // for harness use
	conns     []*srvConn
	listeners []*Listener
	SigChans  []chan<- os.Signal
	done      bool
	start     bool
}

// Dead reports that the process was killed or exited.
func (p *Proc) Dead() bool { return p.dead != 0 }

// Finished reports that the main function is over.
func (p *Proc) Finished() bool {
	p.W.mu.Lock()
	defer p.W.mu.Unlock()
	return p.done
}

type action struct {
	kind  string // go, kill, fail
	fault string
}

type parked struct {
	p      *Proc
	kind   string
	desc   string
	seq    int
	age    int // step at which it arrived
	faults []string
	resume chan action

	notBefore time.Time // paused until then
}

// World is one closed system.
type World struct {
	X    *Exec
	C    *Chooser
	Root string // scratch directory: file-system operations below it are controlled

	mu      sync.Mutex
	pending []*parked
	wake    chan struct{}
	seq     int
	procs   []*Proc
	last    *Proc
	closed  bool

	Redis *Redis
	HTTP  func(p *Proc, req *http.Request) (*http.Response, error)

	// Sched: whether to explore process interleavings (class "preempt").
	Sched bool
	// Intra: whether to explore the order of operations pending in one process.
	Intra bool
	// CrashProcs: processes the explorer may kill before any operation
	// (class "crash"); "kill" keeps page-cache contents, "power" drops unsynced data.
	CrashProcs map[*Proc]bool
	Power      bool
	// FaultFilter decides which of an operation's faults are offered.
	FaultFilter func(p *Proc, kind, desc string, faults []string) []string
	// OnFault is told of every fault that happens.
	OnFault func(p *Proc, kind, fault string)
	// Before, if set, may order a process killed before an operation.
	Before func(p *Proc, desc string) bool
	// Sticky: Redis commands (name and first argument) that fail until cleared; set by the "STICKY" fault.
	Sticky map[string]bool
	// Events: environment events offered as faults ("EV..."): run before the operation.
	Events map[string]func()
	// SyncPoints makes WaitGroup operations of the commands under test scheduling points.
	SyncPoints bool
	// FIFO lets operations pending in one process go in order of arrival.
	FIFO bool
	// InProc orders the operations pending in one process (smaller first).
	InProc func(kind, desc string) int
	// Mtimes dates the files that processes write by the simulated clock.
	Mtimes bool
	// Focus, if set, restricts choice points to operations it accepts.
	Focus func(p *Proc, kind, desc string) bool
	// Actor performed the current step.
	Actor *Proc
	// After is called after every step.
	After func(step string)
	// YieldReads: whether read-only opens are scheduling points.
	YieldReads bool
	// HTTPYield: whether HTTP requests are scheduling points (default true)
	OnKill func(p *Proc, power bool)

	fsGen       uint64
	filesGen    uint64
	filesSub    string
	filesCache  map[string]string
	fsDigest    uint64
	fsDigestGen uint64

	dirty    map[uint64]int64 // inode -> synced length
	Horizon  time.Duration
	Listen   func(p *Proc, address string, l *Listener) // told where a process accepts connections; nil: it cannot
	start    time.Time
	Trace    bool
	MaxSteps int
	NoStates bool
}

var active *World

var hookOnce sync.Once

func curProc() *Proc { return (*Proc)(runtime.VerifLabel()) }

// InstallHooks routes the instrumented standard library to the active world.
func InstallHooks() {
	hookOnce.Do(func() {
		os.VerifFS = func(op *os.VerifOp) error {
			p := curProc()
			if p == nil {
				return nil
			}
			return p.W.fsOp(p, op)
		}
		os.VerifFSDone = func(op *os.VerifOp, f *os.File, err error) {
			// files are dated by the simulated clock
			p := curProc()
			if p == nil || !p.W.Mtimes || err != nil || f == nil || !strings.HasPrefix(op.Path, p.W.Root) {
				return
			}
			if op.Kind == "write" || op.Kind == "open" && op.Flag&(os.O_CREATE|os.O_TRUNC) != 0 {
				if st, err := f.Stat(); err == nil && op.Kind == "open" && op.Flag&os.O_TRUNC == 0 && st.Size() > 0 {
					return
				}
				now := syscall.NsecToTimeval(time.Now().UnixNano())
				syscall.Futimes(int(f.Fd()), []syscall.Timeval{now, now})
			}
		}
		os.VerifExit = func(code int) {
			p := curProc()
			if p == nil {
				return
			}
			p.W.exit(p, code)
		}
		syscall.VerifAbort = func(sig syscall.Signal) {
			if p := curProc(); p != nil {
				p.W.exit(p, 2)
			}
		}
		signal.VerifNotify = func(c chan<- os.Signal, sig ...os.Signal) {
			if p := curProc(); p != nil {
				p.SigChans = append(p.SigChans, c)
			}
		}
		net.VerifDial = func(network, address string) (net.Conn, error) {
			p := curProc()
			if p == nil || p.W.Redis == nil {
				return nil, errors.New("verifsim: no network")
			}
			return p.W.dial(p)
		}
		net.VerifListen = func(network, address string) (net.Listener, error, bool) {
			p := curProc()
			if p == nil {
				return nil, nil, false
			}
			if p.W.Listen == nil || p.dead != 0 {
				return nil, errors.New("verifsim: no listening"), true
			}
			l := &Listener{p: p, conns: make(chan net.Conn), closed: make(chan struct{})}
			p.listeners = append(p.listeners, l)
			p.W.Listen(p, address, l)
			return l, nil, true
		}
		sync.VerifWG = func(wg *sync.WaitGroup, delta int, wait bool) {
			p := curProc()
			if p == nil || !p.W.SyncPoints || p.dead != 0 || delta < 0 {
				return
			}
			caller := commandFrame()
			if caller == "" {
				return
			}
			desc := "wg.Add "
			if wait {
				desc = "wg.Wait "
			}
			if a := p.W.park(p, "sync", desc+caller, nil); a.kind == "kill" {
				runtime.Goexit()
			}
		}
		sync.VerifUnlocked = unlocked
		sync.VerifLockWait = lockWait
		http.VerifRoundTrip = func(t *http.Transport, req *http.Request) (*http.Response, error) {
			p := curProc()
			if p == nil || p.W.HTTP == nil {
				return nil, errors.New("verifsim: no HTTP")
			}
			return p.W.HTTP(p, req)
		}
	})
}

// commandFrame names the function of a command under test that is calling into
// the standard library directly.
func commandFrame() string {
	var pcs [4]uintptr
	n := runtime.Callers(4, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if i := strings.Index(f.Function, "crlite/go/verifcmd/"); i >= 0 {
			return f.Function[i+len("crlite/go/verifcmd/"):]
		}
		if !strings.HasPrefix(f.Function, "sync.") || !more {
			return ""
		}
	}
}

// NewWorld must be called inside the bubble.
func NewWorld(x *Exec, root string) *World {
	InstallHooks()
	w := &World{X: x, C: x.C, Root: root, wake: make(chan struct{}, 1), dirty: map[uint64]int64{}, CrashProcs: map[*Proc]bool{},
		Horizon: 48 * time.Hour, start: time.Now(), MaxSteps: 20000}
	active = w
	clear(lockers)
	return w
}

// Spawn starts a simulated process.
func (w *World) Spawn(name string, f func(p *Proc)) *Proc {
	p := &Proc{W: w, Name: name, Main: make(chan struct{})}
	w.mu.Lock()
	w.procs = append(w.procs, p)
	w.mu.Unlock()
	go func() {
		runtime.VerifSetLabel(unsafe.Pointer(p))
		ok := false
		defer func() {
			if r := recover(); r != nil {
				p.Panic = r
				ok = true
			}
			_ = ok
			w.mu.Lock()
			p.done = true
			w.mu.Unlock()
			close(p.Main)
			w.signal()
		}()
		p.Yield("start", "start")
		f(p)
		ok = true
	}()
	return p
}

// Procs lists the processes spawned so far.
func (w *World) Procs() []*Proc {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]*Proc(nil), w.procs...)
}

func (w *World) signal() {
	select {
	case w.wake <- struct{}{}:
	default:
	}
}

func (w *World) exit(p *Proc, code int) {
	w.mu.Lock()
	if p.dead == 0 {
		p.dead = 1
		p.Exited = true
		p.ExitCode = code
		w.X.Logf("%s: exit(%d)", p.Name, code)
	}
	w.mu.Unlock()
	w.killPending(p)
	// the main goroutine may be blocked elsewhere: mark the process done
	w.mu.Lock()
	if !p.done {
		p.done = true
	}
	w.mu.Unlock()
	w.signal()
	runtime.Goexit()
}

func (w *World) killPending(p *Proc) {
	w.mu.Lock()
	var rest []*parked
	var dead []*parked
	for _, q := range w.pending {
		if q.p == p {
			dead = append(dead, q)
		} else {
			rest = append(rest, q)
		}
	}
	w.pending = rest
	w.mu.Unlock()
	for _, q := range dead {
		q.resume <- action{kind: "kill"}
	}
	for _, c := range p.conns {
		c.kill()
	}
	for _, l := range p.listeners {
		l.kill()
	}
	unlocked(nil)
}

// Kill ends a process abruptly.
func (w *World) Kill(p *Proc, power bool) {
	w.mu.Lock()
	p.dead = 1
	p.done = true
	w.mu.Unlock()
	w.X.Logf("%s: KILLED power=%v", p.Name, power)
	w.killPending(p)
	synctest.Wait()
	if power {
		w.powerLoss()
	}
	if w.OnKill != nil {
		w.OnKill(p, power)
	}
}

// park blocks the calling goroutine until the controller releases it. It does
// not return if the process was killed.
func (w *World) park(p *Proc, kind, desc string, faults []string) action {
	w.mu.Lock()
	if p.dead != 0 {
		w.mu.Unlock()
		return action{kind: "kill"}
	}
	w.seq++
	q := &parked{p: p, kind: kind, desc: desc, seq: w.seq, age: w.X.Steps, faults: faults, resume: make(chan action, 1)}
	w.pending = append(w.pending, q)
	w.mu.Unlock()
	w.signal()
	return <-q.resume
}

// Yield is an explicit scheduling point for harness code.
func (p *Proc) Yield(kind, desc string) string {
	a := p.W.park(p, kind, desc, nil)
	if a.kind == "kill" {
		runtime.Goexit()
	}
	return a.fault
}

// YieldFaults is Yield with faults the controller may choose.
func (p *Proc) YieldFaults(kind, desc string, faults []string) string {
	a := p.W.park(p, kind, desc, faults)
	if a.kind == "kill" {
		runtime.Goexit()
	}
	return a.fault
}

var errByName = map[string]error{"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES}

var tmpName = regexp.MustCompile(`(\.[A-Za-z0-9_:.=\-]*?)([0-9]{4,})$`)

// Norm makes a path stable: relative to the root, temporary names collapsed.
func (w *World) Norm(path string) string {
	if r, err := filepath.Rel(w.Root, path); err == nil && !strings.HasPrefix(r, "..") {
		path = r
	}
	d, b := filepath.Split(path)
	if strings.HasPrefix(b, ".") {
		b = tmpName.ReplaceAllString(b, "$1#")
	}
	return d + b
}

func (w *World) fsOp(p *Proc, op *os.VerifOp) error {
	path := op.Path
	if op.Kind == "rename" || op.Kind == "link" || op.Kind == "symlink" {
		path = op.Path2
	}
	if !strings.HasPrefix(path, w.Root) {
		if p.dead != 0 {
			return syscall.EIO
		}
		return nil
	}
	kind, faults := op.Kind, []string{"EIO"}
	switch op.Kind {
	case "open":
		if op.Flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) == 0 {
			if !w.YieldReads {
				if p.dead != 0 {
					runtime.Goexit()
				}
				return nil
			}
			kind = "read"
		}
	case "write":
		faults = []string{"ENOSPC", "ENOSPC-partial"}
	}
	desc := kind + " " + w.Norm(op.Path)
	if op.Path2 != "" {
		desc += " -> " + w.Norm(op.Path2)
	}
	if op.Kind == "write" {
		s := sha256.Sum256(op.Data)
		desc += fmt.Sprintf(" len=%d %s", len(op.Data), hex.EncodeToString(s[:3]))
	}
	a := w.park(p, "fs", desc, faults)
	if kind != "read" {
		w.fsGen++
	}
	switch a.kind {
	case "kill":
		runtime.Goexit()
	case "fail":
		if a.fault == "ENOSPC-partial" {
			op.Limit = len(op.Data) / 2
			w.markDirty(op.File)
			return syscall.ENOSPC
		}
		if e := errByName[a.fault]; e != nil {
			return e
		}
		return syscall.EIO
	}
	switch op.Kind {
	case "write", "truncate":
		w.markDirty(op.File)
	case "sync":
		if op.File != nil {
			if ino, ok := inode(op.File); ok {
				delete(w.dirty, ino)
			}
		}
	case "open":
		if op.Flag&os.O_TRUNC != 0 {
			if st, err := os.Lstat(op.Path); err == nil {
				if s, ok := st.Sys().(*syscall.Stat_t); ok {
					w.dirty[s.Ino] = 0
				}
			}
		}
	}
	return nil
}

func inode(f *os.File) (uint64, bool) {
	if f == nil {
		return 0, false
	}
	st, err := f.Stat()
	if err != nil {
		return 0, false
	}
	s, ok := st.Sys().(*syscall.Stat_t)
	if !ok {
		return 0, false
	}
	return s.Ino, true
}

func (w *World) markDirty(f *os.File) {
	ino, ok := inode(f)
	if !ok {
		return
	}
	if _, d := w.dirty[ino]; !d {
		st, _ := f.Stat()
		w.dirty[ino] = st.Size()
	}
}

// powerLoss drops data that was never synced: each dirty file loses everything
// beyond its last synced length.
func (w *World) powerLoss() {
	w.fsGen++
	filepath.WalkDir(w.Root, func(path string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return nil
		}
		info, err := d.Info()
		if err != nil {
			return nil
		}
		if s, ok := info.Sys().(*syscall.Stat_t); ok {
			if n, dirty := w.dirty[s.Ino]; dirty && info.Size() > n {
				os.Truncate(path, n)
				w.X.Logf("power loss: %s truncated to %d of %d", w.Norm(path), n, info.Size())
			}
		}
		return nil
	})
	w.dirty = map[uint64]int64{}
}

// Files returns the content of every regular file below the root.
func (w *World) Files(sub string) map[string]string {
	if w.filesCache != nil && w.filesGen == w.fsGen && w.filesSub == sub {
		return w.filesCache
	}
	m := map[string]string{}
	w.filesCache, w.filesGen, w.filesSub = m, w.fsGen, sub
	base := filepath.Join(w.Root, sub)
	filepath.WalkDir(base, func(path string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return nil
		}
		b, err := os.ReadFile(path)
		if err == nil {
			r, _ := filepath.Rel(base, path)
			m[r] = string(b)
		}
		return nil
	})
	return m
}

// Touch tells the world that the harness changed files itself.
func (w *World) Touch() { w.fsGen++ }

// Version changes whenever files or the Redis state may have changed.
func (w *World) Version() [2]uint64 {
	v := [2]uint64{w.fsGen}
	if w.Redis != nil {
		v[1] = w.Redis.version()
	}
	return v
}

// Digest summarises the visible state.
func (w *World) Digest() uint64 {
	var parts []string
	if w.Redis != nil {
		parts = append(parts, w.Redis.Dump())
	}
	if w.fsDigest == 0 || w.fsDigestGen != w.fsGen {
		files := w.Files("")
		var names, fp []string
		for n := range files {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			fp = append(fp, w.Norm(filepath.Join(w.Root, n)), files[n])
		}
		w.fsDigest, w.fsDigestGen = Hash(fp...), w.fsGen
	}
	parts = append(parts, fmt.Sprint(w.fsDigest))
	for _, p := range w.procs {
		parts = append(parts, fmt.Sprintf("%s %v %v", p.Name, p.done, p.dead))
	}
	var pend []string
	for _, q := range w.pending {
		pend = append(pend, q.p.Name+q.desc)
	}
	sort.Strings(pend)
	parts = append(parts, pend...)
	return Hash(parts...)
}

var errStuck = errors.New("stuck")

// Run drives the world until stop() holds or nothing more can happen before
// the horizon. It reports false in the latter case.
func (w *World) Run(stop func() bool) bool {
	t0 := time.Now()
	for {
		synctest.Wait()
		if stop() {
			return true
		}
		if w.X.Failed() {
			return false
		}
		if w.X.Steps > w.MaxSteps {
			w.X.Logf("step limit reached")
			return false
		}
		w.mu.Lock()
		n := 0
		var next time.Time
		for _, q := range w.pending {
			if q.notBefore.After(time.Now()) {
				if next.IsZero() || q.notBefore.Before(next) {
					next = q.notBefore
				}
				continue
			}
			n++
		}
		w.mu.Unlock()
		if n == 0 {
			left := w.Horizon - time.Since(t0)
			if !next.IsZero() && time.Until(next) < left {
				left = time.Until(next)
			}
			if left <= 0 {
				return false
			}
			tm := time.NewTimer(left)
			select {
			case <-w.wake:
			case <-tm.C:
			}
			tm.Stop()
			continue
		}
		w.step()
	}
}

// RunAll drives the world until the given processes have finished.
func (w *World) RunAll(ps ...*Proc) bool {
	return w.Run(func() bool {
		for _, p := range ps {
			if !p.Finished() {
				return false
			}
		}
		return true
	})
}

func (w *World) step() {
	w.mu.Lock()
	var ps []*parked
	for _, q := range w.pending {
		if !q.notBefore.After(time.Now()) {
			ps = append(ps, q)
		}
	}
	w.mu.Unlock()
	last := w.last
	sort.SliceStable(ps, func(i, j int) bool {
		a, b := ps[i], ps[j]
		if (a.p == last) != (b.p == last) {
			return a.p == last
		}
		if a.p != b.p {
			return w.procIndex(a.p) < w.procIndex(b.p)
		}
		if w.InProc != nil {
			if x, y := w.InProc(a.kind, a.desc), w.InProc(b.kind, b.desc); x != y {
				return x < y
			}
		}
		if w.FIFO && a.age != b.age {
			return a.age < b.age
		}
		if a.desc != b.desc {
			return a.desc < b.desc
		}
		return a.seq < b.seq
	})
	var alts []Alt
	type opt struct {
		q     *parked
		act   action
		crash bool
		power bool
	}
	var opts []opt
	seen := map[*Proc]bool{}
	for i, q := range ps {
		class := ""
		if i > 0 {
			if q.p == ps[0].p {
				if !w.Intra {
					continue
				}
				class = "intra"
			} else {
				if !w.Sched {
					continue
				}
				if seen[q.p] {
					continue // other processes: their first operation only
				}
				class = "preempt"
				if ps[0].p != last {
					class = "" // the running process is blocked or done
				}
			}
		}
		seen[q.p] = true
		alts = append(alts, Alt{class, q.p.Name + ": " + q.desc})
		opts = append(opts, opt{q: q, act: action{kind: "go"}})
	}
	q0 := ps[0]
	if w.Before != nil && w.Before(q0.p, q0.desc) {
		w.X.Steps++
		w.last = q0.p
		w.Kill(q0.p, false)
		if w.After != nil {
			w.After("crash")
		}
		w.record()
		return
	}
	if w.Focus == nil || w.Focus(q0.p, q0.kind, q0.desc) {
		faults := q0.faults
		if w.FaultFilter != nil {
			faults = w.FaultFilter(q0.p, q0.kind, q0.desc, faults)
		} else {
			faults = nil
		}
		for _, f := range faults {
			alts = append(alts, Alt{"fault", q0.p.Name + ": " + q0.desc + " !" + f})
			opts = append(opts, opt{q: q0, act: action{kind: "fail", fault: f}})
		}
		if w.CrashProcs[q0.p] {
			alts = append(alts, Alt{"crash", q0.p.Name + ": kill before " + q0.desc})
			opts = append(opts, opt{q: q0, crash: true})
			if w.Power {
				alts = append(alts, Alt{"crash", q0.p.Name + ": power loss before " + q0.desc})
				opts = append(opts, opt{q: q0, crash: true, power: true})
			}
		}
	} else if len(opts) > 1 {
		opts = opts[:1]
		alts = alts[:1]
	}
	pick := w.C.Choose(q0.p.Name+": "+q0.desc, alts)
	o := opts[pick]
	w.X.Steps++
	if o.act.fault != "" && w.OnFault != nil {
		w.OnFault(o.q.p, o.q.kind, o.act.fault)
	}
	if o.crash {
		w.last = o.q.p
		w.Kill(o.q.p, o.power)
		if w.After != nil {
			w.After("crash")
		}
		w.record()
		return
	}
	w.mu.Lock()
	for i, q := range w.pending {
		if q == o.q {
			w.pending = append(w.pending[:i], w.pending[i+1:]...)
			break
		}
	}
	w.mu.Unlock()
	w.last = o.q.p
	if strings.HasPrefix(o.act.fault, "PAUSE") {
		// the process (and its command) is delayed while the others go on
		d, err := time.ParseDuration(strings.TrimPrefix(o.act.fault, "PAUSE"))
		if err != nil {
			panic(err)
		}
		w.X.Logf("%s: paused %v before %s", o.q.p.Name, d, o.q.desc)
		o.act = action{kind: "go"}
		w.mu.Lock()
		o.q.notBefore = time.Now().Add(d)
		w.pending = append(w.pending, o.q)
		w.mu.Unlock()
		w.record()
		return
	}
	if ev := w.Events[o.act.fault]; ev != nil {
		// something happens to the environment before the operation
		w.X.Logf("EVENT %s before %s: %s", o.act.fault, o.q.p.Name, o.q.desc)
		ev()
		w.mu.Lock()
		w.pending = append(w.pending, o.q)
		w.mu.Unlock()
		if w.After != nil {
			w.After(o.act.fault)
		}
		w.record()
		return
	}
	if o.act.kind == "fail" {
		w.X.Logf("%s: %s !%s", o.q.p.Name, o.q.desc, o.act.fault)
	} else {
		w.X.Logf("%s: %s", o.q.p.Name, o.q.desc)
	}
	w.Actor = o.q.p
	o.q.resume <- o.act
	synctest.Wait()
	if w.After != nil {
		w.After(o.q.desc)
	}
	w.record()
}

func (w *World) record() {
	if w.NoStates {
		return
	}
	w.X.States = append(w.X.States, w.Digest())
}

func (w *World) procIndex(p *Proc) int {
	for i, q := range w.procs {
		if q == p {
			return i
		}
	}
	return -1
}

// Close kills whatever is left so that the bubble can end.
func (w *World) Close() {
	w.mu.Lock()
	w.closed = true
	ps := append([]*Proc(nil), w.procs...)
	for _, p := range ps {
		p.dead = 1
	}
	w.mu.Unlock()
	for _, p := range ps {
		w.killPending(p)
	}
	synctest.Wait()
	// goroutines waiting on tickers notice that they are dead when they wake
	time.Sleep(2 * time.Minute)
	synctest.Wait()
	// goroutines that never end keep the world: let it hold little
	w.mu.Lock()
	defer w.mu.Unlock()
	w.X, w.C = &Exec{C: &Chooser{}}, &Chooser{}
	w.pending, w.procs, w.last, w.Actor = nil, nil, nil, nil
	w.filesCache, w.Redis, w.HTTP, w.dirty = nil, nil, nil, nil
	w.FaultFilter, w.OnFault, w.Before, w.After, w.Events, w.OnKill, w.Focus, w.InProc, w.CrashProcs = nil, nil, nil, nil, nil, nil, nil, nil, nil
}

// Signal delivers a signal to a process.
func (p *Proc) Signal(s os.Signal) {
	for _, c := range p.SigChans {
		func() {
			defer func() { recover() }()
			select {
			case c <- s:
			default:
			}
		}()
	}
}

// As runs f as (part of) process p on the calling goroutine.
func (p *Proc) As(f func()) {
	old := runtime.VerifLabel()
	runtime.VerifSetLabel(unsafe.Pointer(p))
	defer runtime.VerifSetLabel(old)
	f()
}

// Scratch returns a fresh directory, on tmpfs when there is one.
func Scratch(name string) string {
	base := "/dev/shm"
	if st, err := os.Stat(base); err != nil || !st.IsDir() {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "vsim-"+name+"-")
	if err != nil {
		d, err = os.MkdirTemp("", "vsim-"+name+"-")
		if err != nil {
			panic(err)
		}
	}
	return d
}

// CatchesSignals reports that the process has installed a signal handler.
func (p *Proc) CatchesSignals() bool { return len(p.SigChans) > 0 }

// Goroutines waiting for a mutex block on a channel, so that the bubble counts
// as idle while the mutex's holder is suspended at a scheduling point.
var (
	lockSpin atomic.Int32
	lockers  = map[unsafe.Pointer][]chan struct{}{}
)

func lockWait(m unsafe.Pointer, try func() bool) bool {
	p := curProc()
	if p == nil {
		return false
	}
	for i := 0; i < 20; i++ {
		runtime.Gosched()
		if try() {
			return true
		}
	}
	sync.VerifLockWaiters.Add(1)
	defer sync.VerifLockWaiters.Add(-1)
	for {
		c := make(chan struct{})
		for !lockSpin.CompareAndSwap(0, 1) {
			runtime.Gosched()
		}
		lockers[m] = append(lockers[m], c)
		lockSpin.Store(0)
		if try() {
			return true
		}
		if p.dead == 0 {
			<-c
		}
		if p.dead != 0 {
			runtime.Goexit()
		}
		if try() {
			return true
		}
	}
}

// unlocked wakes the goroutines that wait for a mutex (or for any).
func unlocked(m unsafe.Pointer) {
	for !lockSpin.CompareAndSwap(0, 1) {
		runtime.Gosched()
	}
	var wake []chan struct{}
	for k, cs := range lockers {
		if m == nil || k == m {
			wake = append(wake, cs...)
			delete(lockers, k)
		}
	}
	lockSpin.Store(0)
	for _, c := range wake {
		close(c)
	}
}
