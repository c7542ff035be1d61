// Package mon is the run-time monitoring framework: it runs generated cases
// against the real code, collects what the monitors observed, and records
// verdicts.
package mon

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

// Scenario is one family of generated cases that decides (part of) a property.
type Scenario struct {
	Prop     string
	Name     string
	Quick    int  // number of cases per quick run
	Thorough int  // number of cases per thorough run
	Virtual  bool // run in a synctest bubble (virtual time)
	Fn       func(*Case)
}

var scenarios []Scenario

// Reg registers a scenario.
func Reg(prop, name string, quick, thorough int, fn func(*Case)) {
	scenarios = append(scenarios, Scenario{Prop: prop, Name: name, Quick: quick, Thorough: thorough, Fn: fn})
}

// RegV registers a scenario that runs in virtual time.
func RegV(prop, name string, quick, thorough int, fn func(*Case)) {
	scenarios = append(scenarios, Scenario{Prop: prop, Name: name, Quick: quick, Thorough: thorough, Virtual: true, Fn: fn})
}

// Case is one execution of the code under a generated workload.
type Case struct {
	T        *testing.T
	R        *rand.Rand
	Scen     string
	Idx      int
	Thorough bool

	mu       sync.Mutex
	fails    []Failure
	inconcl  []string
	ctr      map[string]int64
	fp       uint64
	fpN      int
	nontriv  bool
	sample   string
	notes    []string
	cleanups []func()
}

// Failure is one observed violation.
type Failure struct {
	Key string // stable kind of failure
	Msg string
}

// Failf records a violation. key names the clause that was violated.
func (c *Case) Failf(key, format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.fails) < 8 {
		m := fmt.Sprintf(format, args...)
		if len(m) > 4000 {
			m = m[:4000] + "...(cut)"
		}
		c.fails = append(c.fails, Failure{key, m})
	}
}

// Failed reports whether a violation was recorded.
func (c *Case) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.fails) > 0
}

// Inconclusive records that the case could not be decided.
func (c *Case) Inconclusive(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.inconcl) < 4 {
		c.inconcl = append(c.inconcl, fmt.Sprintf(format, args...))
	}
}

// Count adds n to a counter of observed events.
func (c *Case) Count(key string, n int) {
	c.mu.Lock()
	c.ctr[key] += int64(n)
	c.mu.Unlock()
}

// Mark makes v part of the case's fingerprint and marks it non-trivial.
func (c *Case) Mark(v ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, v...)
	c.mu.Lock()
	c.fp = c.fp*1099511628211 ^ h.Sum64()
	c.fpN++
	c.nontriv = true
	c.mu.Unlock()
}

// Note appends a line to the case's event log, kept for witnesses.
func (c *Case) Note(format string, args ...any) {
	c.mu.Lock()
	if len(c.notes) < 400 {
		c.notes = append(c.notes, fmt.Sprintf(format, args...))
	}
	c.mu.Unlock()
}

// Sample sets a readable description of the case for the evidence.
func (c *Case) Sample(format string, args ...any) {
	c.mu.Lock()
	if c.sample == "" {
		c.sample = fmt.Sprintf(format, args...)
		if len(c.sample) > 600 {
			c.sample = c.sample[:600] + "..."
		}
	}
	c.mu.Unlock()
}

// Cleanup runs f after the case.
func (c *Case) Cleanup(f func()) { c.cleanups = append(c.cleanups, f) }

// Scratch returns a fresh scratch directory removed after the case.
func (c *Case) Scratch() string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "case")
	if err != nil {
		panic("harness: " + err.Error())
	}
	c.Cleanup(func() { os.RemoveAll(d) })
	return d
}

// ---------------------------------------------------------------------------

type scenResult struct {
	Name     string           `json:"name"`
	Evals    int              `json:"evals"`
	Nontriv  int              `json:"nontrivial"`
	FPs      []string         `json:"fps"`
	Counters map[string]int64 `json:"counters"`
	Samples  []string         `json:"samples"`
	Wall     float64          `json:"wall_s"`
}

type failOut struct {
	Scen  string   `json:"scen"`
	Idx   int      `json:"idx"`
	Key   string   `json:"key"`
	Msg   string   `json:"msg"`
	Notes []string `json:"notes,omitempty"`
}

type output struct {
	Prop         string       `json:"prop"`
	Scens        []scenResult `json:"scens"`
	Fails        []failOut    `json:"fails"`
	Inconclusive []failOut    `json:"inconclusive"`
	Done         bool         `json:"done"`
}

var (
	curCase    atomic.Value // string
	curStart   atomic.Int64
	curCPU     atomic.Int64
	crumb      *os.File
	watchStop  = make(chan struct{})
	stuckNotes atomic.Value
)

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// slowLog names the cases that take seconds of processor time, for tuning.
var slowLog = os.Getenv("VERIF_SLOWLOG")

func setCrumb(s string) {
	if slowLog != "" {
		if d, prev := cpuNow()-curCPU.Load(), curCase.Load(); d > 2e9 && prev != nil {
			if f, err := os.OpenFile(slowLog, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
				fmt.Fprintf(f, "%v cpu %.1fs wall %.1fs\n", prev, float64(d)/1e9, float64(time.Now().UnixNano()-curStart.Load())/1e9)
				f.Close()
			}
		}
	}
	curCase.Store(s)
	curCPU.Store(cpuNow())
	curStart.Store(time.Now().UnixNano())
	if crumb != nil {
		b := make([]byte, 120)
		for i := range b {
			b[i] = ' '
		}
		copy(b, s)
		b[119] = '\n'
		crumb.WriteAt(b, 0)
	}
}

func envInt(k string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return def
}

func caseSeed(seed int, prop, scen string, idx int) int64 {
	h := fnv.New64a()
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:], uint64(seed))
	binary.LittleEndian.PutUint64(b[8:], uint64(idx))
	h.Write(b[:])
	h.Write([]byte(prop + "/" + scen))
	return int64(h.Sum64())
}

// Seed is VERIF_SEED.
var Seed = envInt("VERIF_SEED", 1)

// Thorough is set in thorough runs.
var Thorough = os.Getenv("VERIF_TIER") == "thorough"

// Main runs the cases selected by the environment: VERIF_PROP, VERIF_SHARD,
// VERIF_SHARDS, VERIF_REPLAY (scenario:index), VERIF_OUT.
func Main(t *testing.T) {
	RunChild()
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("VERIF_PROP not set")
	}
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	maxFail := envInt("VERIF_MAXFAIL", 3)
	outPath := os.Getenv("VERIF_OUT")
	if p := os.Getenv("VERIF_CRUMB"); p != "" {
		f, err := os.Create(p)
		if err != nil {
			t.Fatal(err)
		}
		crumb = f
	}
	var rScen string
	rIdx := -1
	if r := os.Getenv("VERIF_REPLAY"); r != "" {
		i := strings.LastIndex(r, ":")
		rScen = r[:i]
		rIdx, _ = strconv.Atoi(r[i+1:])
	}
	repeat := envInt("VERIF_REPEAT", 1)
	go watchdog()

	out := output{Prop: prop, Fails: []failOut{}, Inconclusive: []failOut{}}
	save := func() {
		b, err := json.Marshal(out)
		if err != nil {
			t.Fatal(err)
		}
		if outPath != "" {
			if err := os.WriteFile(outPath, b, 0o644); err != nil {
				t.Fatal(err)
			}
		}
	}
	nfail := 0
	for _, s := range scenarios {
		if s.Prop != prop || (rIdx >= 0 && s.Name != rScen) {
			continue
		}
		n := s.Quick
		if Thorough {
			n = s.Thorough
		}
		res := scenResult{Name: s.Name, Counters: map[string]int64{}}
		fps := map[uint64]bool{}
		start := time.Now()
		for i := 0; i < n; i++ {
			if rIdx >= 0 {
				if i != rIdx {
					continue
				}
			} else if i%shards != shard {
				continue
			}
			for k := 0; k < repeat; k++ {
				c := runCase(t, s, i)
				res.Evals++
				if c.nontriv {
					res.Nontriv++
					fps[c.fp] = true
				}
				for k, v := range c.ctr {
					res.Counters[k] += v
				}
				if c.sample != "" && len(res.Samples) < 2 {
					res.Samples = append(res.Samples, fmt.Sprintf("%s:%d %s", s.Name, i, c.sample))
				}
				for _, f := range c.fails {
					fo := failOut{Scen: s.Name, Idx: i, Key: f.Key, Msg: f.Msg}
					if len(out.Fails) < 20 {
						fo.Notes = c.notes
						out.Fails = append(out.Fails, fo)
					}
				}
				for _, m := range c.inconcl {
					out.Inconclusive = append(out.Inconclusive, failOut{Scen: s.Name, Idx: i, Msg: m})
				}
				if len(c.fails) > 0 {
					nfail++
					save()
				}
			}
			if nfail >= maxFail {
				break
			}
		}
		for fp := range fps {
			res.FPs = append(res.FPs, strconv.FormatUint(fp, 36))
		}
		sort.Strings(res.FPs)
		res.Wall = time.Since(start).Seconds()
		out.Scens = append(out.Scens, res)
		if nfail >= maxFail {
			break
		}
	}
	setCrumb("done")
	out.Done = true
	save()
}

func runCase(t *testing.T, s Scenario, i int) *Case {
	seed := caseSeed(Seed, s.Prop, s.Name, i)
	c := &Case{T: t, R: rand.New(rand.NewSource(seed)), Scen: s.Name, Idx: i, Thorough: Thorough, ctr: map[string]int64{}}
	setCrumb(fmt.Sprintf("%s:%d", s.Name, i))
	body := func() {
		defer func() {
			for j := len(c.cleanups) - 1; j >= 0; j-- {
				c.cleanups[j]()
			}
		}()
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if PanicInAppdash(st) {
					c.Failf("panic", "panic: %v\n%s", r, trim(st))
				} else {
					c.Inconclusive("harness panic: %v\n%s", r, trim(st))
				}
			}
		}()
		s.Fn(c)
	}
	if s.Virtual {
		// A race report in the bubble makes synctest.Test end its goroutine.
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					d := dumpAll()
					own := ""
					for _, g := range ParseDump(d) {
						if strings.Contains(g.Stack, "sourcegraph.com/sourcegraph/appdash") {
							own += "goroutine " + g.ID + " [" + g.State + "]\n" + g.Stack + "\n"
						}
					}
					if own != "" {
						c.Failf("deadlock", "in virtual time: %v\n%s", r, trim(own))
					} else {
						c.Inconclusive("bubble: %v\n%s", r, trim(d))
					}
				}
			}()
			synctest.Test(t, func(t *testing.T) { body() })
		}()
		<-done
	} else {
		body()
	}
	return c
}

func trim(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

// PanicInAppdash reports whether the panicking part of a stack passes through
// the code under test.
func PanicInAppdash(stack string) bool {
	return strings.Contains(stack, "sourcegraph.com/sourcegraph/appdash")
}

// ---------------------------------------------------------------------------
// Watchdog and quiescence.

var (
	stuckWall = time.Duration(envInt("VERIF_STUCK_S", 45)) * time.Second
	dumpPath  = os.Getenv("VERIF_DUMP")
)

func dumpAll() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

// G is a parsed goroutine of a dump.
type G struct {
	ID, State, Stack string
}

// ParseDump parses a runtime.Stack dump.
func ParseDump(d string) []G {
	var gs []G
	for _, blk := range strings.Split(d, "\n\n") {
		if !strings.HasPrefix(blk, "goroutine ") {
			continue
		}
		nl := strings.IndexByte(blk, '\n')
		if nl < 0 {
			continue
		}
		hdr := blk[:nl]
		l, r := strings.IndexByte(hdr, '['), strings.LastIndexByte(hdr, ']')
		if l < 0 || r < l {
			continue
		}
		st := hdr[l+1 : r]
		if k := strings.IndexByte(st, ','); k >= 0 {
			st = st[:k]
		}
		if k := strings.Index(st, " ("); k >= 0 {
			st = st[:k]
		}
		gs = append(gs, G{ID: strings.Fields(hdr)[1], State: st, Stack: blk[nl+1:]})
	}
	return gs
}

func isActive(st string) bool {
	switch st {
	case "running", "runnable", "syscall", "sleep", "copystack", "preempted", "waiting":
		return true
	}
	return false
}

// watchdog classifies a case that does not end.
func watchdog() {
	for {
		time.Sleep(time.Second)
		cs, _ := curCase.Load().(string)
		if cs == "" || cs == "done" {
			continue
		}
		start := curStart.Load()
		if time.Now().UnixNano()-start < int64(stuckWall) {
			continue
		}
		// Sample the process several times.
		var dumps [][]G
		var last string
		cpu0 := cpuNow()
		for i := 0; i < 5; i++ {
			last = dumpAll()
			dumps = append(dumps, ParseDump(last))
			time.Sleep(1500 * time.Millisecond)
		}
		if curStart.Load() != start {
			continue
		}
		cpu := cpuNow() - cpu0
		verdict := "inconclusive"
		// Deadlock: nothing in the process is active, the same goroutines are blocked in all samples, and
		// at least one is blocked inside the code under test on a lock or channel.
		dead := true
		var blocked map[string]bool
		for _, d := range dumps {
			cur := map[string]bool{}
			for _, g := range d {
				if strings.Contains(g.Stack, "mon.watchdog") {
					continue
				}
				if isActive(g.State) {
					dead = false
				}
				if strings.Contains(g.Stack, "sourcegraph.com/sourcegraph/appdash") && !isActive(g.State) && g.State != "IO wait" {
					cur[g.ID+topAppdash(g.Stack)] = true
				}
			}
			if blocked == nil {
				blocked = cur
			} else {
				for k := range blocked {
					if !cur[k] {
						delete(blocked, k)
					}
				}
			}
		}
		if dead && len(blocked) > 0 {
			verdict = "deadlock"
		}
		// Livelock: one goroutine is busy inside the code under test in every sample, and the case has burned
		// far more processor time than any case needs.
		busy := map[string]int{}
		for _, d := range dumps {
			for _, g := range d {
				if (g.State == "running" || g.State == "runnable") && strings.Contains(g.Stack, "sourcegraph.com/sourcegraph/appdash") {
					busy[g.ID]++
				}
			}
		}
		for _, n := range busy {
			if n == len(dumps) && cpu > int64(3*time.Second) && cpuNow()-curCPU.Load() > int64(90*time.Second) {
				verdict = "livelock"
			}
		}
		if verdict == "inconclusive" && time.Now().UnixNano()-start < int64(4*stuckWall) {
			continue
		}
		if dumpPath != "" {
			os.WriteFile(dumpPath, []byte(verdict+"\n"+cs+"\n"+last), 0o644)
		}
		os.Exit(97)
	}
}

func topAppdash(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "sourcegraph.com/sourcegraph/appdash") {
			return l
		}
	}
	return ""
}

// Await polls cond. If cond stays false, the verdict depends on the state of
// the process and not on the clock: when nothing is left that could make cond
// true (no runnable goroutine, no processor time used over several samples) it
// returns "stuck"; if the process is still busy after the watchdog time it
// returns "unknown".
func Await(cond func() bool) string {
	t0 := time.Now()
	d := 200 * time.Microsecond
	quiet := 0
	for {
		if cond() {
			return "ok"
		}
		time.Sleep(d)
		if d < 20*time.Millisecond {
			d *= 2
		}
		if time.Since(t0) > 4*time.Second {
			if processQuiet() {
				quiet++
			} else {
				quiet = 0
			}
			if quiet >= 8 {
				if cond() {
					return "ok"
				}
				return "stuck"
			}
			time.Sleep(150 * time.Millisecond)
		}
		if time.Since(t0) > 40*time.Second {
			return "unknown"
		}
	}
}

// AwaitOr fails the case when cond can no longer become true.
func (c *Case) AwaitOr(key, what string, cond func() bool) bool {
	switch Await(cond) {
	case "ok":
		return true
	case "stuck":
		c.Failf(key, "%s never happens: the process is idle and the condition is still false\n%s", what, appdashGs())
	default:
		c.Inconclusive("gave up waiting: %s", what)
	}
	return false
}

func appdashGs() string {
	var b strings.Builder
	for _, g := range ParseDump(dumpAll()) {
		if strings.Contains(g.Stack, "sourcegraph.com/sourcegraph/appdash") && b.Len() < 2500 {
			fmt.Fprintf(&b, "goroutine %s [%s] %s\n", g.ID, g.State, topAppdash(g.Stack))
		}
	}
	return b.String()
}

// processQuiet reports whether no goroutine but the caller's, the watchdog's
// and sleeping monitors' is active.
func processQuiet() bool {
	cpu := cpuNow()
	gs := ParseDump(dumpAll())
	n := 0
	for _, g := range gs {
		if strings.Contains(g.Stack, "mon.watchdog") || strings.Contains(g.Stack, "mon.processQuiet") {
			continue
		}
		if g.State == "running" || g.State == "runnable" || g.State == "syscall" {
			n++
		}
	}
	time.Sleep(100 * time.Millisecond)
	_ = cpu
	return n == 0
}

// ---------------------------------------------------------------------------
// Child processes, for workloads that are killed or limited.

var children = map[string]func(args []string){}

// RegChild registers a child process body.
func RegChild(name string, f func(args []string)) { children[name] = f }

// RunChild runs the child body this process was started for, if any.
func RunChild() {
	if n := os.Getenv("VERIF_CHILD"); n != "" {
		children[n](strings.Split(os.Getenv("VERIF_CHILD_ARGS"), "\x1f"))
		os.Exit(0)
	}
}

// Child prepares a child process in its own process group.
func Child(name string, args ...string) *exec.Cmd {
	cmd := exec.Command(os.Args[0], "-test.run", "^TestProp$", "-test.timeout", "0")
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_CRUMB=") && !strings.HasPrefix(e, "VERIF_OUT=") && !strings.HasPrefix(e, "VERIF_DUMP=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "VERIF_CHILD="+name, "VERIF_CHILD_ARGS="+strings.Join(args, "\x1f"))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd
}

// CPU is the processor time this process has used, in nanoseconds.
func CPU() int64 { return cpuNow() }

// Beat tells the watchdog that the current case makes progress.
func Beat() {
	if cs, ok := curCase.Load().(string); ok {
		setCrumb(cs)
	}
}
