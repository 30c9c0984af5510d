// Package verifsim is the simulator and explorer behind the checks in /verif.
//
// explore.go: deviation-bounded exhaustive exploration. One execution is a
// deterministic function of a list of choices; choice 0 is the default at every
// point. The explorer runs the all-default execution, then every execution that
// deviates from it within the stated budgets (so many preemptions, faults,
// crashes), replaying from scratch each time.
package verifsim

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

// A Point is one place where an execution could have gone differently.
type Point struct {
	Label string
	Pick  int
	Alts  []Alt
}

// An Alt is one alternative; Class names the budget it is charged to ("" = free).
type Alt struct {
	Class string
	Desc  string
}

// Chooser replays a prefix of choices, then takes choice 0.
type Chooser struct {
	prefix []int
	Points []Point
	// Diverged is set when a prefix did not fit the execution being replayed.
	Diverged string
}

// Choose returns the index of the alternative to take.
func (c *Chooser) Choose(label string, alts []Alt) int {
	if len(alts) <= 1 {
		return 0
	}
	i := len(c.Points)
	pick := 0
	if i < len(c.prefix) {
		pick = c.prefix[i]
		if pick >= len(alts) {
			c.Diverged = fmt.Sprintf("point %d (%s): choice %d of %d", i, label, pick, len(alts))
			pick = 0
		}
	}
	c.Points = append(c.Points, Point{label, pick, alts})
	return pick
}

// ChooseN is Choose over n unlabelled alternatives of the same class.
func (c *Chooser) ChooseN(label, class string, descs ...string) int {
	alts := make([]Alt, len(descs))
	for i, d := range descs {
		alts[i] = Alt{class, d}
	}
	alts[0].Class = ""
	return c.Choose(label, alts)
}

func (c *Chooser) picks() []int {
	r := make([]int, len(c.Points))
	for i, p := range c.Points {
		r[i] = p.Pick
	}
	return r
}

// Exec is what one execution reports back.
type Exec struct {
	C *Chooser
	// Violation is empty when the property held.
	Violation string
	// Key identifies the violation for the known-findings list.
	Key string
	// Known lists the keys of known findings met in this execution.
	Known []string
	// Outcome is a short description of what was observed, for distinct counts.
	Outcome string
	// Trivial executions are not counted as non-trivial.
	Trivial bool
	// Log is a human-readable trace.
	Log []string
	// Steps and States: transitions taken and state hashes seen.
	Steps  int
	States []uint64
}

func (x *Exec) Logf(f string, a ...any) {
	if len(x.Log) < 4000 {
		x.Log = append(x.Log, fmt.Sprintf(f, a...))
	}
}

// Accept, when set, decides which violation keys belong to the property checked.
var Accept func(key string) bool

// Fail records the first violation.
func (x *Exec) Fail(key, f string, a ...any) {
	if Accept != nil && !Accept(key) {
		return
	}
	if knownKeys[key] != "" {
		for _, k := range x.Known {
			if k == key {
				return
			}
		}
		x.Known = append(x.Known, key)
		return
	}
	if x.Violation == "" {
		x.Violation = fmt.Sprintf(f, a...)
		x.Key = key
		x.Logf("VIOLATION %s: %s", key, x.Violation)
	}
}

// Failed reports whether a violation has been recorded.
func (x *Exec) Failed() bool { return x.Violation != "" }

// Scenario is one closed driver.
type Scenario struct {
	Name string
	// Budget bounds the deviations per class; Total bounds their sum (0 = no bound).
	Budget map[string]int
	Total  int
	// Bubble runs each execution inside a synctest bubble.
	Bubble bool
	Run    func(x *Exec)
	// Thorough scenarios run only in the thorough tier.
	Thorough bool
}

type stats struct {
	Scenario    string
	Execs       int
	Nontrivial  int
	Steps       int
	Points      int
	MaxPoints   int
	Outcomes    map[string]int
	States      []uint64
	Known       map[string]int
	Viols       []violation
	Unstable    []string
	Capped      bool
	Diverged    int
	Samples     []string
	statesSet   map[uint64]struct{}
	WallSeconds float64
}

type violation struct {
	Scenario string
	Prefix   []int
	Key      string
	Msg      string
	Log      []string
}

type node struct {
	prefix []int
	spent  map[string]int
	total  int
	depth  int
}

var (
	curFile   *os.File
	deadline  time.Time
	execStart atomic.Int64
	startWall = time.Now()
	knownKeys = map[string]string{}
	// MapSeeds is how many map iteration orders each scenario is run under.
	mapSeed uint64
)

// RunOne executes one scenario on one prefix.
func RunOne(s *Scenario, prefix []int) *Exec {
	x := &Exec{C: &Chooser{prefix: prefix}}
	if curFile != nil {
		b, _ := json.Marshal(violation{Scenario: s.Name, Prefix: prefix})
		b = append(b, '\n')
		curFile.Truncate(0)
		curFile.WriteAt(b, 0)
	}
	execStart.Store(time.Now().UnixNano())
	sync.VerifClearPools()
	runtime.VerifRandState = 1
	mrand.VerifState, mrand2.VerifState = 1, 1
	runtime.VerifMapSeed = mapSeed
	runtime.VerifDet = true
	if s.Bubble {
		func() {
			defer func() {
				if r := recover(); r != nil {
					msg := fmt.Sprint(r)
					if !strings.Contains(msg, "blocked goroutines remain") {
						x.Fail("panic", "panic: %v", r)
					}
				}
			}()
			synctest.Run(func() { s.Run(x) })
		}()
	} else {
		s.Run(x)
	}
	runtime.VerifDet = false
	execStart.Store(0)
	return x
}

func exploreScenario(s *Scenario, shard, shards int) *stats {
	st := &stats{Scenario: s.Name, Outcomes: map[string]int{}, Known: map[string]int{}, statesSet: map[uint64]struct{}{}}
	t0 := time.Now()
	counter := 0
	maxDev := s.Total
	if maxDev == 0 {
		for _, b := range s.Budget {
			maxDev += b
		}
	}
	shardDepth := 1
	if maxDev >= 2 {
		shardDepth = 2
	}
	stack := []node{{spent: map[string]int{}}}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if n.depth == shardDepth {
			counter++
			if counter%shards != shard {
				continue
			}
		}
		if !deadline.IsZero() && time.Now().After(deadline) {
			st.Capped = true
			break
		}
		x := RunOne(s, n.prefix)
		if os.Getenv("VERIF_DETCHECK") != "" {
			y := RunOne(s, n.prefix)
			for i := range x.Log {
				if i >= len(y.Log) || x.Log[i] != y.Log[i] {
					fmt.Fprintf(os.Stderr, "DETCHECK %s %v: log differs at %d\n%s\n---\n%s\n", s.Name, n.prefix, i, strings.Join(x.Log[max(0, i-25):min(len(x.Log), i+3)], "\n"), strings.Join(y.Log[min(i, len(y.Log)):min(len(y.Log), i+3)], "\n"))
					break
				}
			}
			for i := range x.States {
				if i >= len(y.States) || x.States[i] != y.States[i] {
					fmt.Fprintf(os.Stderr, "DETCHECK %s %v: state %d of %d/%d differs\n%s\n", s.Name, n.prefix, i, len(x.States), len(y.States), strings.Join(tailOf(x.Log[:min(len(x.Log), i+3)], 6), "\n"))
					break
				}
			}
		}
		count := n.depth >= shardDepth || shard == 0
		if x.C.Diverged != "" {
			st.Diverged++
			if count {
				st.Unstable = append(st.Unstable, fmt.Sprintf("%v: %s", n.prefix, x.C.Diverged))
			}
			continue
		}
		if count {
			st.Execs++
			if !x.Trivial {
				st.Nontrivial++
			}
			st.Steps += x.Steps
			st.Points += len(x.C.Points)
			if len(x.C.Points) > st.MaxPoints {
				st.MaxPoints = len(x.C.Points)
			}
			st.Outcomes[x.Outcome]++
			for _, h := range x.States {
				st.statesSet[h] = struct{}{}
			}
			for _, k := range x.Known {
				st.Known[k]++
			}
			if len(st.Samples) < 2 || (len(st.Samples) < 4 && n.depth > 0) {
				st.Samples = append(st.Samples, describe(s, x))
			}
		}
		if x.Violation != "" {
			if !count && shard != 0 {
				continue
			}
			// confirm by replay
			same := 0
			for i := 0; i < 3; i++ {
				y := RunOne(s, x.C.picks())
				if y.Violation != "" && y.Key == x.Key && y.C.Diverged == "" {
					same++
				}
			}
			if same < 3 {
				st.Unstable = append(st.Unstable, fmt.Sprintf("%v: %s (reproduced %d/3)", n.prefix, x.Violation, same))
				continue
			}
			st.Viols = append(st.Viols, violation{s.Name, x.C.picks(), x.Key, x.Violation, x.Log})
			if len(st.Viols) >= 3 && os.Getenv("VERIF_SURVEY") == "" {
				st.Capped = true
				break
			}
			continue
		}
		picks := x.C.picks()
		for i := len(x.C.Points) - 1; i >= len(n.prefix); i-- {
			p := x.C.Points[i]
			for alt := len(p.Alts) - 1; alt >= 1; alt-- {
				a := p.Alts[alt]
				spent, total := n.spent, n.total
				if a.Class != "" {
					if n.spent[a.Class]+1 > s.Budget[a.Class] {
						continue
					}
					total++
					if s.Total > 0 && total > s.Total {
						continue
					}
					spent = map[string]int{}
					for k, v := range n.spent {
						spent[k] = v
					}
					spent[a.Class]++
				}
				np := make([]int, i+1)
				copy(np, picks[:i])
				np[i] = alt
				stack = append(stack, node{np, spent, total, n.depth + 1})
			}
		}
	}
	for h := range st.statesSet {
		st.States = append(st.States, h)
	}
	st.WallSeconds = time.Since(t0).Seconds()
	return st
}

func describe(s *Scenario, x *Exec) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s", s.Name)
	for _, p := range x.C.Points {
		if p.Pick != 0 {
			fmt.Fprintf(&b, "; at <%s> take <%s>", p.Label, p.Alts[p.Pick].Desc)
		}
	}
	fmt.Fprintf(&b, " => %s", x.Outcome)
	r := b.String()
	if len(r) > 700 {
		r = r[:700]
	}
	return r
}

// Check is what a harness binary runs.
type Check struct {
	Property  string
	Level     string // evidence level
	Rule      string
	Scenarios []*Scenario
	// Parallel shards; default 8.
	Shards      int
	Assumptions []string
	Extra       func() map[string]any
}

// VerifDir is where evidence and known findings live.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Tier is quick or thorough.
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// Thorough reports the tier.
func Thorough() bool { return Tier() == "thorough" }

func loadKnown(prop string) {
	b, err := os.ReadFile(filepath.Join(VerifDir(), "known_findings.txt"))
	if err != nil {
		return
	}
	// known: property=<id> key=<key> <what fails>
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.SplitN(line, " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			knownKeys[f[2][4:]] = f[3]
		}
	}
}

// Main explores every scenario, writes the evidence file and returns the exit code.
func (c *Check) Main() int {
	loadKnown(c.Property)
	var scen []*Scenario
	only := os.Getenv("VERIF_SCENARIO")
	for _, s := range c.Scenarios {
		if s.Thorough && !Thorough() {
			continue
		}
		if only != "" && s.Name != only {
			continue
		}
		scen = append(scen, s)
	}
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		return c.replay(f)
	}
	if sh := os.Getenv("VERIF_SHARD"); sh != "" {
		c.runShard(scen, sh)
		return 0
	}
	return c.parent(scen)
}

func (c *Check) find(name string) *Scenario {
	for _, s := range c.Scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func (c *Check) replay(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	s := c.find(v.Scenario)
	if s == nil {
		fmt.Println("no such scenario:", v.Scenario)
		return 2
	}
	go watchdog()
	x := RunOne(s, v.Prefix)
	if os.Getenv("VERIF_QUIET") == "" {
		for _, l := range x.Log {
			fmt.Println(l)
		}
		for i, p := range x.C.Points {
			if p.Pick != 0 {
				fmt.Printf("choice %d at <%s>: <%s>\n", i, p.Label, p.Alts[p.Pick].Desc)
			}
		}
		fmt.Println("outcome:", x.Outcome, "diverged:", x.C.Diverged, "steps:", x.Steps)
	}
	if x.Violation != "" {
		fmt.Println("reproduced:", x.Key, x.Violation)
		return 1
	}
	return 0
}

// watchdog ends the process when one execution takes very long or very much memory in real terms.
func watchdog() {
	for {
		time.Sleep(time.Second)
		t := execStart.Load()
		if t == 0 {
			continue
		}
		d := time.Since(time.Unix(0, t))
		if d > 60*time.Second || d > 5*time.Second && rss() > 3200<<20 {
			fmt.Fprintf(os.Stderr, "WATCHDOG: execution stuck: %s, %d MB\n", d.Round(time.Second), rss()>>20)
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			os.Stderr.Write(buf)
			os.Exit(97)
		}
	}
}

func rss() int64 {
	b, _ := os.ReadFile("/proc/self/statm")
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func (c *Check) runShard(scen []*Scenario, sh string) {
	parts := strings.Split(sh, "/")
	k, _ := strconv.Atoi(parts[0])
	n, _ := strconv.Atoi(parts[1])
	out := os.Getenv("VERIF_SHARD_OUT")
	curFile, _ = os.Create(out + ".cur")
	if d := os.Getenv("VERIF_DEADLINE"); d != "" {
		u, _ := strconv.ParseInt(d, 10, 64)
		deadline = time.Unix(u, 0)
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		go func() {
			for {
				time.Sleep(5 * time.Second)
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				fmt.Fprintf(os.Stderr, "MEM heap=%dMB sys=%dMB goroutines=%d\n", m.HeapAlloc>>20, m.Sys>>20, runtime.NumGoroutine())
			}
		}()
	}
	go watchdog()
	if pf := os.Getenv("VERIF_PROFILE"); pf != "" && k == 0 {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if pf := os.Getenv("VERIF_HEAP"); pf != "" && k == 0 {
		defer func() {
			f, _ := os.Create(pf)
			pprof.Lookup("heap").WriteTo(f, 0)
			f.Close()
			g, _ := os.Create(pf + ".g")
			pprof.Lookup("goroutine").WriteTo(g, 1)
			g.Close()
		}()
	}
	var all []*stats
	for _, s := range scen {
		all = append(all, exploreScenario(s, k, n))
		b, _ := json.Marshal(all)
		os.WriteFile(out+".tmp", b, 0644)
		os.Rename(out+".tmp", out)
	}
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func (c *Check) parent(scen []*Scenario) int {
	shards := c.Shards
	if shards == 0 {
		shards = 8
	}
	shards = envInt("VERIF_SHARDS", shards)
	budget := envInt("VERIF_BUDGET", 300)
	if Thorough() {
		budget = envInt("VERIF_BUDGET", 780)
	}
	tmp, err := os.MkdirTemp("", "vsim")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	dl := fmt.Sprint(startWall.Add(time.Duration(budget) * time.Second).Unix())
	type res struct {
		st   []*stats
		err  error
		tail string
		cur  *violation
	}
	results := make([]res, shards)
	done := make(chan int, shards)
	for k := 0; k < shards; k++ {
		go func(k int) {
			defer func() { done <- k }()
			out := filepath.Join(tmp, fmt.Sprintf("s%d.json", k))
			cmd := exec.Command(os.Args[0], os.Args[1:]...)
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SHARD=%d/%d", k, shards), "VERIF_SHARD_OUT="+out, "VERIF_DEADLINE="+dl)
			if os.Getenv("GOMAXPROCS") == "" {
				cmd.Env = append(cmd.Env, "GOMAXPROCS=1", "GOGC=400", "GOMEMLIMIT=2500MiB")
			}
			errf, _ := os.Create(out + ".err")
			cmd.Stderr = errf
			cmd.Stdout = errf
			err := cmd.Run()
			errf.Close()
			r := &results[k]
			r.err = err
			if b, e := os.ReadFile(out); e == nil {
				json.Unmarshal(b, &r.st)
			}
			if err != nil {
				b, _ := os.ReadFile(out + ".err")
				r.tail = panicPart(string(b))
				if cb, e := os.ReadFile(out + ".cur"); e == nil {
					var v violation
					if json.Unmarshal(cb, &v) == nil {
						r.cur = &v
					}
				}
			}
		}(k)
	}
	for i := 0; i < shards; i++ {
		<-done
	}
	// merge
	byName := map[string]*stats{}
	var order []string
	stateSet := map[uint64]struct{}{}
	var viols []violation
	var unstable []string
	known := map[string]int{}
	complete := true
	stuckTried := map[string]bool{}
	notes := []string{}
	for k, r := range results {
		for _, s := range r.st {
			m := byName[s.Scenario]
			if m == nil {
				m = &stats{Scenario: s.Scenario, Outcomes: map[string]int{}}
				byName[s.Scenario] = m
				order = append(order, s.Scenario)
			}
			m.Execs += s.Execs
			m.Nontrivial += s.Nontrivial
			m.Steps += s.Steps
			m.Points += s.Points
			if s.MaxPoints > m.MaxPoints {
				m.MaxPoints = s.MaxPoints
			}
			for o, n := range s.Outcomes {
				m.Outcomes[o] += n
			}
			for _, h := range s.States {
				stateSet[h] = struct{}{}
			}
			for kk, n := range s.Known {
				known[kk] += n
			}
			m.Capped = m.Capped || s.Capped
			m.Diverged += s.Diverged
			viols = append(viols, s.Viols...)
			unstable = append(unstable, s.Unstable...)
			if len(m.Samples) < 4 {
				m.Samples = append(m.Samples, s.Samples...)
			}
			if s.WallSeconds > m.WallSeconds {
				m.WallSeconds = s.WallSeconds
			}
		}
		if r.err != nil {
			complete = false
			notes = append(notes, fmt.Sprintf("shard %d ended with %v: %s", k, r.err, r.tail))
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Println(notes[len(notes)-1])
			}
			if r.cur != nil && (strings.Contains(r.tail, "panic:") || strings.Contains(r.tail, "fatal error:")) {
				if c.confirmPanic(tmp, *r.cur) {
					v := *r.cur
					v.Key = "panic"
					v.Msg = "the code under test crashed: " + firstLines(r.tail, 12)
					if knownKeys["panic"] != "" {
						known["panic"]++
					} else {
						viols = append(viols, v)
					}
				}
			}
			if len(viols) == 0 && r.cur != nil && strings.HasPrefix(r.tail, "WATCHDOG") && !stuckTried[fmt.Sprint(*r.cur)] && len(stuckTried) < 2 {
				// an execution that does not come to an end: once more, alone
				stuckTried[fmt.Sprint(*r.cur)] = true
				if c.confirmStuck(tmp, *r.cur) {
					v := *r.cur
					v.Key = "stuck"
					v.Msg = "the code under test does not come to an end (endless computation, real deadlock or unlimited memory): " + firstLines(r.tail, 1)
					v.Log = strings.Split(r.tail, "\n")
					viols = append(viols, v)
				}
			}
			if len(viols) == 0 && r.cur != nil {
				fmt.Printf("NOTE: shard %d stopped early in %s %v: %s\n", k, r.cur.Scenario, r.cur.Prefix, firstLines(r.tail, 6))
			}
		}
	}
	execs, nontriv, steps, points, outs := 0, 0, 0, 0, 0
	per := []map[string]any{}
	var samples []any
	for _, name := range order {
		m := byName[name]
		execs += m.Execs
		nontriv += m.Nontrivial
		steps += m.Steps
		points += m.Points
		outs += len(m.Outcomes)
		complete = complete && !m.Capped && m.Diverged == 0
		s := c.find(name)
		per = append(per, map[string]any{"scenario": name, "executions": m.Execs, "steps": m.Steps, "max_choice_points": m.MaxPoints,
			"distinct_outcomes": len(m.Outcomes), "budget": s.Budget, "total_budget": s.Total, "completed": !m.Capped, "diverged": m.Diverged, "wall_s": round1(m.WallSeconds)})
		for i, sm := range m.Samples {
			if i < 2 && len(samples) < 16 {
				samples = append(samples, sm)
			}
		}
	}
	if len(order) < len(scen) {
		complete = false
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"evaluations": execs, "distinct_nontrivial": outs, "rule": c.Rule, "samples": samples,
		"states": len(stateSet), "transitions": steps, "traces_validated_against_impl": execs,
		"nontrivial_executions": nontriv, "choice_points": points, "scenarios": per, "exhaustive": complete,
		"known_findings_met": known,
	}
	if len(unstable) > 0 {
		if len(unstable) > 5 {
			unstable = unstable[:5]
		}
		cov["unstable"] = unstable
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if c.Extra != nil {
		for k, v := range c.Extra() {
			cov[k] = v
		}
	}
	if len(stateSet) == 0 {
		cov["states"] = outs
	}
	ev := map[string]any{"property": c.Property, "tier": Tier(), "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": round1(time.Since(startWall).Seconds()), "violations": len(viols)}
	evdir := filepath.Join(VerifDir(), "evidence")
	os.MkdirAll(evdir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, c.Property+".json"), append(b, '\n'), 0644)
	ks := make([]string, 0, len(knownKeys))
	for k := range knownKeys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (met in %d executions)\n", c.Property, k, knownKeys[k], known[k])
	}
	fmt.Printf("%s %s: %d executions, %d steps, %d states, %d distinct outcomes, exhaustive=%v, %.1fs\n", c.Property, Tier(), execs, steps, len(stateSet), outs, complete, time.Since(startWall).Seconds())
	for _, p := range per {
		fmt.Printf("  %v\n", p)
	}
	for _, u := range unstable {
		fmt.Println("  unstable:", u)
	}
	if os.Getenv("VERIF_SURVEY") != "" {
		sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].Prefix) < len(viols[j].Prefix) })
		first, n := map[string]violation{}, map[string]int{}
		for _, v := range viols {
			k := v.Scenario + " " + v.Key
			if n[k] == 0 {
				first[k] = v
			}
			n[k]++
		}
		for k, v := range first {
			fmt.Printf("SURVEY %s: %d\n", k, n[k])
			for _, l := range tailOf(v.Log, envInt("VERIF_SURVEY", 1)) {
				fmt.Println("     ", l)
			}
		}
	}
	if len(viols) > 0 {
		sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].Prefix) < len(viols[j].Prefix) })
		v := viols[0]
		path := filepath.Join(evdir, c.Property+".replay.json")
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
		fmt.Printf("%s [%s] %s\n", v.Scenario, v.Key, v.Msg)
		for _, l := range tailOf(v.Log, 40) {
			fmt.Println("   ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, path)
		return 1
	}
	if execs == 0 {
		fmt.Println("nothing was explored")
		for _, n := range notes {
			fmt.Println(firstLines(n, 20))
		}
		return 2
	}
	return 0
}

func (c *Check) confirmPanic(tmp string, v violation) bool {
	f := filepath.Join(tmp, "panic.json")
	b, _ := json.Marshal(v)
	os.WriteFile(f, b, 0644)
	for i := 0; i < 3; i++ {
		cmd := exec.Command(os.Args[0], os.Args[1:]...)
		cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f, "VERIF_QUIET=1")
		if os.Getenv("GOMAXPROCS") == "" {
			cmd.Env = append(cmd.Env, "GOMAXPROCS=1")
		}
		kill := time.AfterFunc(90*time.Second, func() {
			if cmd.Process != nil {
				cmd.Process.Kill()
			}
		})
		out, err := cmd.CombinedOutput()
		kill.Stop()
		if err == nil || !(strings.Contains(string(out), "panic:") || strings.Contains(string(out), "fatal error:")) {
			return false
		}
	}
	return true
}

// confirmStuck runs the execution once more, with nothing else running.
func (c *Check) confirmStuck(tmp string, v violation) bool {
	f := filepath.Join(tmp, "stuck.json")
	b, _ := json.Marshal(v)
	os.WriteFile(f, b, 0644)
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f, "VERIF_QUIET=1")
	if os.Getenv("GOMAXPROCS") == "" {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=1", "GOMEMLIMIT=2500MiB")
	}
	kill := time.AfterFunc(180*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	defer kill.Stop()
	cmd.Run()
	return cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 97
}

func panicPart(s string) string {
	for _, m := range []string{"panic:", "fatal error:", "WATCHDOG"} {
		if i := strings.Index(s, m); i >= 0 {
			s = s[i:]
			if len(s) > 6000 {
				s = s[:6000]
			}
			return s
		}
	}
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func tailOf(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

func round1(f float64) float64 { return float64(int(f*10)) / 10 }

// Hash is a 64-bit digest of strings.
func Hash(parts ...string) uint64 {
	h := sha256.New()
	for _, p := range parts {
		var l [8]byte
		binary.LittleEndian.PutUint64(l[:], uint64(len(p)))
		h.Write(l[:])
		h.Write([]byte(p))
	}
	s := h.Sum(nil)
	return binary.LittleEndian.Uint64(s)
}

// MapSeed changes the order of map iterations from here on.
func MapSeed(n uint64) { runtime.VerifMapSeed = mapSeed + n }
