// Package main is the storetheindex runtime monitor. It is laid into /repo by
// `go build -overlay` and drives the real packages under generated workloads.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	logging "github.com/ipfs/go-log/v2"
)

// shared is what all cases of one check run have in common.
type shared struct {
	Prop     string
	Thorough bool
	Seed     int64
	Scratch  string

	mu         sync.Mutex
	evals      int64
	distinct   map[string]struct{}
	samples    []string
	counters   map[string]int64
	violations []Violation
	seenViol   map[string]int
	inconcl    []string
	only       string // replay: run only cases with this name
	started    time.Time
	running    []string // names of the cases in progress
	atEnd      []func()
}

// Ctx carries the configuration of one check run and collects what its
// monitors observed. Each case has its own Ctx over the same shared state.
type Ctx struct {
	*shared
	curCase string
}

type Violation struct {
	Key    string `json:"key"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
}

type result struct {
	Property     string           `json:"property"`
	Seed         int64            `json:"seed"`
	Evaluations  int64            `json:"evaluations"`
	Distinct     int              `json:"distinct"`
	Samples      []string         `json:"samples"`
	Counters     map[string]int64 `json:"counters"`
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Rule         string           `json:"rule"`
	Assumptions  []string         `json:"assumptions"`
	Complete     bool             `json:"complete"`
}

type check struct {
	run    func(*Ctx)
	rule   string
	assume []string
}

var checks = map[string]check{}

func register(id, rule string, run func(*Ctx), assume ...string) {
	checks[id] = check{run: run, rule: rule, assume: assume}
}

// Violate records a violation; key identifies the kind of failure.
func (c *Ctx) Violate(key, format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.seenViol[key]++
	if c.seenViol[key] > 3 {
		return
	}
	d := fmt.Sprintf(format, args...)
	c.violations = append(c.violations, Violation{Key: key, Case: c.curCase, Detail: d})
	if !strings.HasPrefix(key, "known:") {
		atomic.StoreInt32(&failedFlag, 1)
	}
	fmt.Printf("MONITOR %s [%s] case=%s: %s\n", c.Prop, key, c.curCase, d)
}

// failedFlag is set once a violation has been recorded; waits end early then.
var failedFlag int32

// Failed says whether any violation has been recorded (checks stop early).
func (c *Ctx) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, v := range c.violations {
		if !strings.HasPrefix(v.Key, "known:") {
			return true
		}
	}
	return false
}

func (c *Ctx) Inconclusive(format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.inconcl = append(c.inconcl, fmt.Sprintf(format, args...))
}

// Eval counts n oracle evaluations.
func (c *Ctx) Eval(n int) { atomic.AddInt64(&c.evals, int64(n)) }

// Seen records a distinct non-trivial state, interleaving or input class.
func (c *Ctx) Seen(s string) {
	c.mu.Lock()
	c.distinct[s] = struct{}{}
	c.mu.Unlock()
}

func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

func (c *Ctx) Sample(format string, args ...interface{}) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, fmt.Sprintf(format, args...))
	}
	c.mu.Unlock()
}

// Rng returns a generator determined by the seed and the given labels.
func (c *Ctx) Rng(labels ...interface{}) *rand.Rand {
	h := uint64(1469598103934665603)
	for _, b := range []byte(fmt.Sprint(c.Prop, "/", c.Seed, "/", labels)) {
		h ^= uint64(b)
		h *= 1099511628211
	}
	return rand.New(rand.NewSource(int64(h >> 1)))
}

// N picks the quick or thorough amount of work.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Run runs one named case, unless it is to be skipped.
func (c *Ctx) Run(name string, f func(c *Ctx)) {
	if c.only != "" && c.only != name {
		return
	}
	if c.Failed() {
		return
	}
	cc := &Ctx{shared: c.shared, curCase: name}
	c.mu.Lock()
	c.counters["cases"]++
	c.running = append(c.running, name)
	c.mu.Unlock()
	defer func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		for i, n := range c.running {
			if n == name {
				c.running = append(c.running[:i], c.running[i+1:]...)
				break
			}
		}
	}()
	if verbose {
		fmt.Printf("%7.2fs CASE %s\n", time.Since(c.started).Seconds(), name)
	}
	if verbose {
		t := time.AfterFunc(15*time.Second, func() {
			buf := make([]byte, 8<<20)
			fmt.Printf("SLOW CASE %s\n%s\n", name, buf[:runtime.Stack(buf, true)])
		})
		defer t.Stop()
	}
	f(cc)
	if verbose {
		fmt.Printf("%7.2fs done %s\n", time.Since(c.started).Seconds(), name)
	}
}

// RunN runs cases prefix-0 .. prefix-(n-1) on several goroutines.
func (c *Ctx) RunN(prefix string, n, workers int, f func(c *Ctx, i int)) {
	parallel(n, workers, func(i int) {
		c.Run(fmt.Sprintf("%s-%d", prefix, i), func(cc *Ctx) { f(cc, i) })
	})
}

// parallel runs f over 0..n-1 on several goroutines.
func parallel(n, workers int, f func(i int)) {
	var wg sync.WaitGroup
	var next int64 = -1
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

var verbose bool

// ---------------------------------------------------------------- progress

// activity is advanced by every monitored operation (store, index, publisher,
// request); waiting code uses it to tell "slow" from "stuck".
var activity int64

// quiet, set before anything is started, turns activity tracking off: the
// counter would order all goroutines in the eyes of the race detector.
var quiet bool

func tick() {
	if !quiet {
		atomic.AddInt64(&activity, 1)
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// stallWindow is how long everything must be idle before a pending operation
// is declared stuck.
const stallWindow = 15 * time.Second
const hardCap = 300 * time.Second

type waitResult int

const (
	waitOK waitResult = iota
	waitStuck
	waitUnknown
)

// await waits for cond. It reports waitStuck only when the process has been
// quiescent (no monitored operation, negligible CPU use, yet timers served on
// time) for a whole stall window, i.e. nothing is left that could make cond
// true; running out of wall time is waitUnknown, never a verdict.
func await(cond func() bool) waitResult {
	if cond() {
		return waitOK
	}
	start := time.Now()
	pause := 200 * time.Microsecond
	lastAct := atomic.LoadInt64(&activity)
	winStart := time.Now()
	winCPU := cpuTime()
	ticks := 0
	dumped := false
	for {
		time.Sleep(pause)
		if cond() {
			return waitOK
		}
		if pause < 20*time.Millisecond {
			pause += pause / 2
		}
		ticks++
		if verbose && !dumped && time.Since(start) > 10*time.Second {
			dumped = true
			fmt.Printf("waiting for %s:\n%s\n", time.Since(start), repoStacks())
		}
		if a := atomic.LoadInt64(&activity); a != lastAct {
			lastAct, winStart, winCPU, ticks = a, time.Now(), cpuTime(), 0
		}
		if w := time.Since(winStart); w >= stallWindow {
			used := cpuTime() - winCPU
			// Served at least a third of the expected wake-ups, and used
			// less than 15% of one core.
			if ticks > int(stallWindow/(60*time.Millisecond)) && used < w*15/100 {
				if cond() {
					return waitOK
				}
				return waitStuck
			}
			winStart, winCPU, ticks = time.Now(), cpuTime(), 0
		}
		if time.Since(start) > hardCap || atomic.LoadInt32(&failedFlag) == 1 {
			return waitUnknown
		}
	}
}

// settle waits until no monitored operation has happened for a while. It
// decides nothing; it only lets background work finish.
func settle() {
	start := time.Now()
	last, since := atomic.LoadInt64(&activity), time.Now()
	for time.Since(since) < 30*time.Millisecond && time.Since(start) < 2*time.Second {
		time.Sleep(3 * time.Millisecond)
		if a := atomic.LoadInt64(&activity); a != last {
			last, since = a, time.Now()
		}
	}
}

// upTo waits for cond, but not longer than d. It decides nothing.
func upTo(d time.Duration, cond func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(500 * time.Microsecond) {
		if cond() {
			return true
		}
	}
	return cond()
}

// Await is await with reporting: it returns false and records a violation (if
// stuck) or an inconclusive result (if out of time).
func (c *Ctx) Await(key, what string, cond func() bool) bool {
	switch await(cond) {
	case waitOK:
		return true
	case waitStuck:
		c.Violate(key, "stuck: %s (process quiescent for %s)\n%s", what, stallWindow, repoStacks())
	default:
		if !c.Failed() {
			c.Inconclusive("timed out: %s", what)
		}
	}
	return false
}

// repoStacks returns the goroutine stacks that involve repository code.
func repoStacks() string {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "storetheindex/internal/ingest.") || strings.Contains(g, "storetheindex/internal/registry.") ||
			strings.Contains(g, "storetheindex/server") || strings.Contains(g, "storetheindex/api") || strings.Contains(g, "go-legs.") {
			idle := false
			for _, b := range []string{"idleHandlerCleaner", "Subscriber).watch(", "metricsUpdater(", "autoSync(", "runPollCheck(", "Registry).run("} {
				idle = idle || strings.Contains(g, b)
			}
			if idle || strings.Contains(g, "[chan receive") && (strings.Contains(g, "distributeEvents(") || strings.Contains(g, "runIngesterLoop(")) ||
				strings.Contains(g, "[select") && strings.Contains(g, "ingestWorker(") && !strings.Contains(g, "ingestWorkerLogic") {
				continue
			}
			if len(g) > 2500 {
				g = g[:900] + "..."
			}
			out = append(out, g)
		}
	}
	sort.Strings(out)
	if len(out) > 14 {
		out = out[:14]
	}
	return strings.Join(out, "\n\n")
}

// hangWindow is how long everything must be idle before a case that waits
// inside a call to the code under test is declared stuck.
const hangWindow = 60 * time.Second

var ending sync.Mutex

// watchdog notices a case that hangs in a call to the code under test, as
// opposed to one of the awaited conditions, and ends the run then. It also
// ends a run that does not finish although a violation has been recorded.
func (c *Ctx) watchdog(end func()) {
	last, winStart, winCPU, ticks := atomic.LoadInt64(&activity), time.Now(), cpuTime(), 0
	var failed time.Time
	for {
		time.Sleep(50 * time.Millisecond)
		ticks++
		if c.Failed() {
			if failed.IsZero() {
				failed = time.Now()
			}
			if time.Since(failed) > hangWindow {
				end()
			}
		}
		if a := atomic.LoadInt64(&activity); a != last {
			last, winStart, winCPU, ticks = a, time.Now(), cpuTime(), 0
		}
		if w := time.Since(winStart); w >= hangWindow {
			used := cpuTime() - winCPU
			if ticks > int(hangWindow/(150*time.Millisecond)) && used < w*15/100 && !procs[c.Prop] {
				if st := stuckCalls(); st != "" {
					c.mu.Lock()
					cases := append([]string(nil), c.running...)
					c.mu.Unlock()
					name := ""
					if len(cases) == 1 {
						name = cases[0]
					}
					(&Ctx{shared: c.shared, curCase: name}).Violate("hang", "stuck: a call to the indexer does not return (process quiescent for %s, cases in progress %v)\n%s", hangWindow, cases, st)
					end()
				}
			}
			winStart, winCPU, ticks = time.Now(), cpuTime(), 0
		}
	}
}

// procs are the checks that wait for other processes.
var procs = map[string]bool{"P23": true, "P24": true, "P26": true}

// stuckCalls returns the stacks of goroutines of the monitor that are inside a
// call to the code under test.
func stuckCalls() string {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		repo := strings.Index(g, "\ngithub.com/filecoin-project/storetheindex/")
		mon := strings.Index(g, "\nmain.")
		if repo < 0 || mon < repo || !strings.Contains(g, "\nmain.(*Ctx).Run(") {
			continue
		}
		if len(g) > 2500 {
			g = g[:2500] + "..."
		}
		out = append(out, g)
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "\n\n")
}

// ---------------------------------------------------------------- main

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	out := flag.String("out", "", "result file")
	only := flag.String("case", "", "run only this case")
	scratch := flag.String("scratch", "", "scratch directory")
	flag.BoolVar(&verbose, "v", false, "verbose")
	lvl := flag.String("log", "panic", "log level of the code under test")
	flag.Parse()
	if *lvl == "panic" {
		logging.SetupLogging(logging.Config{Stderr: false, Stdout: false, Level: logging.LevelFatal})
	} else {
		_ = logging.SetLogLevel("*", *lvl)
	}
	ck, ok := checks[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	if *scratch == "" {
		d, err := os.MkdirTemp("", "verifmon")
		must(err)
		*scratch = d
	}
	c := &Ctx{shared: &shared{Prop: *prop, Thorough: *tier == "thorough", Seed: *seed, Scratch: *scratch, only: *only,
		distinct: map[string]struct{}{}, counters: map[string]int64{}, seenViol: map[string]int{}, started: time.Now()}}
	write := func(complete bool) {
		c.mu.Lock()
		defer c.mu.Unlock()
		r := result{Property: c.Prop, Seed: c.Seed, Evaluations: atomic.LoadInt64(&c.evals), Distinct: len(c.distinct),
			Samples: c.samples, Counters: c.counters, Violations: c.violations, Inconclusive: c.inconcl, Rule: ck.rule,
			Assumptions: ck.assume, Complete: complete}
		b, err := json.MarshalIndent(r, "", " ")
		must(err)
		if *out != "" {
			must(os.WriteFile(*out, b, 0o644))
		} else {
			fmt.Println(string(b))
		}
	}
	write(false)
	end := func() {
		ending.Lock() // never unlocked: only one end
		for _, f := range c.atEnd {
			f()
		}
		write(true)
		os.Exit(0)
	}
	go c.watchdog(end)
	ck.run(c)
	end()
}

func must(err error) {
	if err != nil {
		panic("verifmon harness: " + err.Error())
	}
}
