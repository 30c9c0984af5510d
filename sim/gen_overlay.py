#!/usr/bin/env python3
"""Generate the build overlay used by every Go check.

Usage: gen_overlay.py OUTDIR [virtual=/real ...]

Writes OUTDIR/overlay.json. The overlay
  * instruments the Go standard library (os, os/signal, net, net/http,
    runtime) with hook variables that are nil / zero by default, so
    that harnesses own file-system operations, process exit, signals, HTTP
    round trips, Redis connections and every source of runtime randomness;
  * adds the simulator package as github.com/mozilla/crlite/go/verifsim;
  * adds any further "virtual=/real" file mappings given on the command line.
The code under test in /repo is compiled as it stands in the working tree.
"""
import json, os, re, subprocess, sys

out = os.path.abspath(sys.argv[1])
os.makedirs(out, exist_ok=True)
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
here = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
repl = {}


def patch(path, edits, tag):
    src = open(path).read()
    for old, new in edits:
        assert src.count(old) >= 1, f"anchor not found in {path}: {old!r}"
        src = src.replace(old, new, 1)
    dst = os.path.join(out, tag)
    open(dst, "w").write(src)
    repl[path] = dst


def add(path, text, tag):
    dst = os.path.join(out, tag)
    open(dst, "w").write(text)
    repl[path] = dst


S = goroot + "/src/"

# ---- os ----------------------------------------------------------------
add(S + "os/verif_hook.go", '''package os

// VerifOp describes one file-system operation about to be performed.
type VerifOp struct {
	Kind  string // open write sync truncate rename remove removeall mkdir link symlink chmod chtimes close
	Path  string
	Path2 string
	Flag  int
	Data  []byte
	Size  int64
	File  *File
	// Limit: when >= 0 and the hook returns an error from a write, this many
	// bytes are still written (a short write).
	Limit int
}

var VerifFS func(op *VerifOp) error
var VerifFSDone func(op *VerifOp, f *File, err error)
var VerifExit func(code int)

func verifErr(op, path string, e error) error {
	return &PathError{Op: op, Path: path, Err: e}
}
''', "os_verif_hook.go")

patch(S + "os/file.go", [
    ('''func (f *File) ReadFrom(r io.Reader) (n int64, err error) {
	if err := f.checkValid("write"); err != nil {
		return 0, err
	}
''', '''func (f *File) ReadFrom(r io.Reader) (n int64, err error) {
	if err := f.checkValid("write"); err != nil {
		return 0, err
	}
	if VerifFS != nil {
		return genericReadFrom(f, r)
	}
'''),
    ('''func (f *File) Write(b []byte) (n int, err error) {
	if err := f.checkValid("write"); err != nil {
		return 0, err
	}
''', '''func (f *File) Write(b []byte) (n int, err error) {
	if err := f.checkValid("write"); err != nil {
		return 0, err
	}
	if VerifFS != nil {
		vop := &VerifOp{Kind: "write", Path: f.name, Data: b, File: f, Limit: -1}
		if e := VerifFS(vop); e != nil {
			if vop.Limit > 0 && vop.Limit <= len(b) {
				n, _ = f.write(b[:vop.Limit])
			}
			return n, f.wrapErr("write", e)
		}
		if VerifFSDone != nil {
			defer func() { VerifFSDone(vop, f, err) }()
		}
	}
'''),
    ('''func (f *File) WriteAt(b []byte, off int64) (n int, err error) {
	if err := f.checkValid("write"); err != nil {
		return 0, err
	}
''', '''func (f *File) WriteAt(b []byte, off int64) (n int, err error) {
	if err := f.checkValid("write"); err != nil {
		return 0, err
	}
	if VerifFS != nil {
		if e := VerifFS(&VerifOp{Kind: "write", Path: f.name, Data: b, File: f, Limit: -1}); e != nil {
			return 0, f.wrapErr("write", e)
		}
	}
'''),
    ('''func Mkdir(name string, perm FileMode) error {
''', '''func Mkdir(name string, perm FileMode) error {
	if VerifFS != nil {
		if e := VerifFS(&VerifOp{Kind: "mkdir", Path: name, Limit: -1}); e != nil {
			return verifErr("mkdir", name, e)
		}
	}
'''),
    ('''	testlog.Open(name)
	f, err := openFileNolog(name, flag, perm)
	if err != nil {
		return nil, err
	}
	f.appendMode = flag&O_APPEND != 0
''', '''	testlog.Open(name)
	var vop *VerifOp
	if VerifFS != nil {
		vop = &VerifOp{Kind: "open", Path: name, Flag: flag, Limit: -1}
		if e := VerifFS(vop); e != nil {
			return nil, verifErr("open", name, e)
		}
	}
	f, err := openFileNolog(name, flag, perm)
	if vop != nil && VerifFSDone != nil {
		VerifFSDone(vop, f, err)
	}
	if err != nil {
		return nil, err
	}
	f.appendMode = flag&O_APPEND != 0
'''),
    ('''func Rename(oldpath, newpath string) error {
''', '''func Rename(oldpath, newpath string) error {
	if VerifFS != nil {
		vop := &VerifOp{Kind: "rename", Path: oldpath, Path2: newpath, Limit: -1}
		if e := VerifFS(vop); e != nil {
			return &LinkError{"rename", oldpath, newpath, e}
		}
		e := rename(oldpath, newpath)
		if VerifFSDone != nil {
			VerifFSDone(vop, nil, e)
		}
		return e
	}
'''),
], "os_file.go")

patch(S + "os/file_unix.go", [
    ('''func Truncate(name string, size int64) error {
''', '''func Truncate(name string, size int64) error {
	if VerifFS != nil {
		if e := VerifFS(&VerifOp{Kind: "truncate", Path: name, Size: size, Limit: -1}); e != nil {
			return verifErr("truncate", name, e)
		}
	}
'''),
    ('''func Remove(name string) error {
''', '''func Remove(name string) error {
	if VerifFS != nil {
		if e := VerifFS(&VerifOp{Kind: "remove", Path: name, Limit: -1}); e != nil {
			return verifErr("remove", name, e)
		}
	}
'''),
    ('''func Link(oldname, newname string) error {
''', '''func Link(oldname, newname string) error {
	if VerifFS != nil {
		if e := VerifFS(&VerifOp{Kind: "link", Path: oldname, Path2: newname, Limit: -1}); e != nil {
			return &LinkError{"link", oldname, newname, e}
		}
	}
'''),
    ('''func Symlink(oldname, newname string) error {
''', '''func Symlink(oldname, newname string) error {
	if VerifFS != nil {
		if e := VerifFS(&VerifOp{Kind: "symlink", Path: oldname, Path2: newname, Limit: -1}); e != nil {
			return &LinkError{"symlink", oldname, newname, e}
		}
	}
'''),
], "os_file_unix.go")

patch(S + "os/file_posix.go", [
    ('''func (f *File) Truncate(size int64) error {
	if err := f.checkValid("truncate"); err != nil {
		return err
	}
''', '''func (f *File) Truncate(size int64) error {
	if err := f.checkValid("truncate"); err != nil {
		return err
	}
	if VerifFS != nil {
		if e := VerifFS(&VerifOp{Kind: "truncate", Path: f.name, Size: size, File: f, Limit: -1}); e != nil {
			return f.wrapErr("truncate", e)
		}
	}
'''),
    ('''func (f *File) Sync() error {
	if err := f.checkValid("sync"); err != nil {
		return err
	}
''', '''func (f *File) Sync() error {
	if err := f.checkValid("sync"); err != nil {
		return err
	}
	if VerifFS != nil {
		if e := VerifFS(&VerifOp{Kind: "sync", Path: f.name, File: f, Limit: -1}); e != nil {
			return f.wrapErr("sync", e)
		}
	}
'''),
    ('''func Chtimes(name string, atime time.Time, mtime time.Time) error {
''', '''func Chtimes(name string, atime time.Time, mtime time.Time) error {
	if VerifFS != nil {
		if e := VerifFS(&VerifOp{Kind: "chtimes", Path: name, Limit: -1}); e != nil {
			return verifErr("chtimes", name, e)
		}
	}
'''),
], "os_file_posix.go")

patch(S + "os/path.go", [
    ('''func RemoveAll(path string) error {
''', '''func RemoveAll(path string) error {
	if VerifFS != nil {
		if e := VerifFS(&VerifOp{Kind: "removeall", Path: path, Limit: -1}); e != nil {
			return verifErr("removeall", path, e)
		}
	}
'''),
], "os_path.go")

patch(S + "os/proc.go", [
    ('''func Exit(code int) {
''', '''func Exit(code int) {
	if VerifExit != nil {
		VerifExit(code)
	}
'''),
], "os_proc.go")

patch(S + "os/signal/signal.go", [
    ('''func Notify(c chan<- os.Signal, sig ...os.Signal) {
''', '''// VerifNotify, when set, replaces Notify.
var VerifNotify func(c chan<- os.Signal, sig ...os.Signal)

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if VerifNotify != nil {
		VerifNotify(c, sig...)
		return
	}
'''),
], "os_signal.go")

# ---- syscall: abort --------------------------------------------------------
patch(S + "syscall/zsyscall_linux_amd64.go", [
    ('''func Tgkill(tgid int, tid int, sig Signal) (err error) {
''', '''// VerifAbort, when set, sees signals the process sends itself.
var VerifAbort func(sig Signal)

func Tgkill(tgid int, tid int, sig Signal) (err error) {
	if VerifAbort != nil {
		VerifAbort(sig)
	}
'''),
], "syscall_z.go")

# ---- net/http ------------------------------------------------------------
patch(S + "net/http/roundtrip.go", [
    ('''func (t *Transport) RoundTrip(req *Request) (*Response, error) {
''', '''// VerifRoundTrip, when set, answers every request made through a Transport.
var VerifRoundTrip func(t *Transport, req *Request) (*Response, error)

func (t *Transport) RoundTrip(req *Request) (*Response, error) {
	if VerifRoundTrip != nil {
		return VerifRoundTrip(t, req)
	}
'''),
], "net_http_roundtrip.go")

# ---- math/rand: deterministic, apart from the runtime's own use of randomness ----
RAND = '''// VerifState is the state of the deterministic generator (0: not deterministic).
var VerifState uint64

func runtime_rand() uint64 {
	if VerifState != 0 {
		VerifState += 0x9e3779b97f4a7c15
		z := VerifState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	return verif_runtime_rand()
}

//go:linkname verif_runtime_rand runtime.rand
func verif_runtime_rand() uint64
'''
patch(S + "math/rand/rand.go", [('''//go:linkname runtime_rand runtime.rand
func runtime_rand() uint64
''', RAND)], "math_rand.go")
patch(S + "math/rand/v2/rand.go", [('''//go:linkname runtime_rand runtime.rand
func runtime_rand() uint64
''', RAND)], "math_rand_v2.go")

# ---- os/user: a home directory ----------------------------------------------
patch(S + "os/user/lookup.go", [
    ("""func Current() (*User, error) {
""", """func Current() (*User, error) {
	if VerifHome != "" {
		return &User{Uid: "0", Gid: "0", Username: "verif", HomeDir: VerifHome}, nil
	}
"""),
    ("""// Current returns""", """// VerifHome replaces the home directory.
var VerifHome string

// Current returns"""),
], "os_user_lookup.go")

# ---- runtime: determinism -------------------------------------------------
patch(S + "runtime/rand.go", [
    ('''func rand() uint64 {
''', '''func rand() uint64 {
	if VerifDet {
		VerifRandState += 0x9e3779b97f4a7c15
		z := VerifRandState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
'''),
    ('''func maps_rand() uint64 {
''', '''func maps_rand() uint64 {
	if VerifDet {
		return VerifMapSeed
	}
'''),
    ('''	globalRand.state.Init(*seed)
''', '''	clear(seed[:]) // verif: fixed hash keys
	globalRand.state.Init(*seed)
'''),
    ('''// bootstrapRand returns''', '''// VerifDet makes rand() and map iteration deterministic and select prefer its
// last ready case in source order (VerifSelect = 0) or its first.
var VerifDet bool
var VerifRandState uint64
var VerifMapSeed uint64
var VerifSelect uint32

// bootstrapRand returns'''),
], "runtime_rand.go")
patch(S + "runtime/select.go", [
    ('''		j := cheaprandn(uint32(norder + 1))
''', '''		var j uint32
		if VerifDet {
			if VerifSelect == 0 {
				j = uint32(norder)
			}
		} else {
			j = cheaprandn(uint32(norder + 1))
		}
'''),
    ('''	return casi, recvOK

sclose:
''', '''	verifCheckDead()
	return casi, recvOK

sclose:
'''),
], "runtime_select.go")
add(S + "runtime/verif_label.go", '''package runtime

import "unsafe"

// VerifSetLabel and VerifLabel give each goroutine (and those it starts) an owner.
func VerifSetLabel(p unsafe.Pointer) { getg().verifOwner = p }
func VerifLabel() unsafe.Pointer     { return getg().verifOwner }

// verifCheckDead ends the goroutine when its owner is marked dead (first field != 0).
func verifCheckDead() {
	if o := getg().verifOwner; o != nil && *(*uint32)(o) != 0 {
		Goexit()
	}
}
''', "runtime_verif_label.go")
patch(S + "runtime/chan.go", [
    ('''func makechan(t *chantype, size int) *hchan {
''', '''func makechan(t *chantype, size int) *hchan {
	if VerifDet && size > 1<<20 {
		size = 1 << 16 // enormous buffers are never filled in a bounded execution
	}
'''),
    ('''	mysg.c = nil
	releaseSudog(mysg)
	return true, success
''', '''	mysg.c = nil
	releaseSudog(mysg)
	verifCheckDead()
	return true, success
'''),
], "runtime_chan.go")
patch(S + "runtime/runtime2.go", [
    ('''	valgrindStackID uintptr
}
''', '''	valgrindStackID uintptr

	verifOwner unsafe.Pointer
}
'''),
], "runtime2.go")
patch(S + "runtime/proc.go", [
    ('''			newg.labels = mp.curg.labels
''', '''			newg.labels = mp.curg.labels
			newg.verifOwner = mp.curg.verifOwner
'''),
    ('''	gp.labels = nil
''', '''	gp.labels = nil
	gp.verifOwner = nil
'''),
], "runtime_proc.go")

# ---- sync: pools must not carry objects from one execution to another -------
patch(S + "sync/pool.go", [
    ('''func poolCleanup() {
''', '''// VerifClearPools empties every pool.
func VerifClearPools() {
	poolCleanup()
	poolCleanup()
}

func poolCleanup() {
'''),
], "sync_pool.go")

# ---- sync: wait groups as scheduling points ----------------------------------
patch(S + "sync/waitgroup.go", [
    ("""func (wg *WaitGroup) Add(delta int) {
""", """func (wg *WaitGroup) Add(delta int) {
	if VerifWG != nil {
		VerifWG(wg, delta, false)
	}
"""),
    ("""func (wg *WaitGroup) Wait() {
""", """func (wg *WaitGroup) Wait() {
	if VerifWG != nil {
		VerifWG(wg, 0, true)
	}
"""),
    ("""// Add adds delta,""", """// VerifWG, when set, is called at the start of Add and Wait.
var VerifWG func(wg *WaitGroup, delta int, wait bool)

// Add adds delta,"""),
], "sync_waitgroup.go")

# ---- sync: a goroutine that waits for a mutex must not hold up the simulator ----
# (its holder may be suspended at a scheduling point). VerifLockWait blocks until
# try succeeds, and VerifUnlocked is called after each unlock while any waits.
patch(S + "sync/mutex.go", [
    ("""func (m *Mutex) Lock() {
""", """func (m *Mutex) Lock() {
	if VerifLockWait != nil {
		if m.mu.TryLock() || VerifLockWait(unsafe.Pointer(m), m.mu.TryLock) {
			return
		}
	}
"""),
    ("""	m.mu.Unlock()
""", """	m.mu.Unlock()
	if VerifLockWaiters.Load() != 0 {
		VerifUnlocked(unsafe.Pointer(m))
	}
"""),
    ("""import (
""", """import (
	"sync/atomic"
	"unsafe"
"""),
    ("""// A Locker represents""", """var VerifLockWait func(m unsafe.Pointer, try func() bool) bool
var VerifLockWaiters atomic.Int32
var VerifUnlocked func(m unsafe.Pointer)

// A Locker represents"""),
], "sync_mutex.go")
patch(S + "sync/rwmutex.go", [
    ("""func (rw *RWMutex) RLock() {
""", """func (rw *RWMutex) RLock() {
	if VerifLockWait != nil {
		if rw.TryRLock() || VerifLockWait(unsafe.Pointer(rw), rw.TryRLock) {
			return
		}
	}
"""),
    ("""		rw.rUnlockSlow(r)
	}
""", """		rw.rUnlockSlow(r)
	}
	if VerifLockWaiters.Load() != 0 {
		VerifUnlocked(unsafe.Pointer(rw))
	}
"""),
    ("""func (rw *RWMutex) Lock() {
""", """func (rw *RWMutex) Lock() {
	if VerifLockWait != nil {
		if rw.TryLock() || VerifLockWait(unsafe.Pointer(rw), rw.TryLock) {
			return
		}
	}
"""),
    # (a failed TryLock releases rw.w, whose address is rw's: it must wake nobody)
    ("""	if !rw.readerCount.CompareAndSwap(0, -rwmutexMaxReaders) {
		rw.w.Unlock()
""", """	if !rw.readerCount.CompareAndSwap(0, -rwmutexMaxReaders) {
		rw.w.mu.Unlock()
"""),
    ("""	// Allow other writers to proceed.
	rw.w.Unlock()
""", """	// Allow other writers to proceed.
	rw.w.Unlock()
	if VerifLockWaiters.Load() != 0 {
		VerifUnlocked(unsafe.Pointer(rw))
	}
"""),
], "sync_rwmutex.go")

# ---- flag: packages linked into one harness may declare the same flag ----------
patch(S + "flag/flag.go", [
    ("""	_, alreadythere := f.formal[name]
	if alreadythere {
""", """	old, alreadythere := f.formal[name]
	if alreadythere && f == CommandLine {
		flag.Value = verifBoth{old.Value, value}
		alreadythere = false
	}
	if alreadythere {
"""),
    ("""// Var defines a flag with""", """// verifBoth sets two variables that share a flag name.
type verifBoth struct{ a, b Value }

func (v verifBoth) String() string {
	if v.b == nil {
		return ""
	}
	return v.b.String()
}
func (v verifBoth) Set(s string) error {
	if e := v.a.Set(s); e != nil {
		return e
	}
	return v.b.Set(s)
}
func (v verifBoth) IsBoolFlag() bool {
	b, ok := v.b.(boolFlag)
	return ok && b.IsBoolFlag()
}

// Var defines a flag with"""),
], "flag_flag.go")

# ---- net: connections -------------------------------------------------------
patch(S + "net/dial.go", [
    ('''func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
''', '''// VerifDial, when set, replaces every Dialer connection.
var VerifDial func(network, address string) (Conn, error)

func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if VerifDial != nil {
		return VerifDial(network, address)
	}
'''),
    ('''func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
''', '''// VerifListen, when set, is asked first by every listener.
var VerifListen func(network, address string) (Listener, error, bool)

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	if VerifListen != nil {
		if l, e, ok := VerifListen(network, address); ok {
			return l, e
		}
	}
'''),
], "net_dial.go")

# ---- simulator package ------------------------------------------------------
simdir = os.path.join(here, "verifsim")
for n in sorted(os.listdir(simdir)):
    if n.endswith(".go"):
        repl[f"{REPO}/go/verifsim/{n}"] = os.path.join(simdir, n)
repl[f"{REPO}/go/verifpki/pki.go"] = os.path.join(here, "pki", "pki.go")
def command(name, d):
    """Offer command d of the repository as package verifcmd/NAME with Main()."""
    found = False
    for n in sorted(os.listdir(d)):
        if not n.endswith(".go") or n.endswith("_test.go"):
            continue
        src = open(os.path.join(d, n)).read()
        src = re.sub(r"(?m)^package main\b", "package " + name, src, count=1)
        src, k = re.subn(r"(?m)^func main\(\)", "func Main()", src)
        found |= k > 0
        dst = os.path.join(out, f"cmd_{name}_{n}")
        open(dst, "w").write(src)
        repl[f"{REPO}/go/verifcmd/{name}/{n}"] = dst
    assert found, f"no main function in {d}"


for a in sys.argv[2:]:
    k, v = a.split("=", 1)
    if k.startswith("@"):
        command(k[1:], os.path.join(REPO, "go", v))
    else:
        repl[k] = os.path.abspath(v)
json.dump({"Replace": repl}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
