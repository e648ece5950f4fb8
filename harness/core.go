package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Property is one registered check: Run is called once per case index; the
// whole case (models, rows, schedules of calls) is a function of
// (seed, property, case index) only.
type Property struct {
	ID       string
	Level    string
	Rule     string
	Quick    int // number of cases in the quick tier
	Thorough int
	Shards   int
	Procs    int // GOMAXPROCS of a worker (0: 2)
	NoLimit  bool
	MemGB    uint64   // address space of a worker in GB (5 if zero)
	Need     []string // event counters that have to be non-zero, else the run is inconclusive
	Assume   []string
	Run      func(c *C)
}

var registry = map[string]*Property{}

func register(p *Property) { registry[p.ID] = p }

// C is the context of one case.
type C struct {
	P    *Property
	Idx  int
	R    *Rng
	Tier string
	w    *worker
	// dump holds the inputs of the case, for the replay file
	dump map[string]interface{}
}

type stopCase struct{}

// Violation is what a monitor reports.
type Violation struct {
	Case  int                    `json:"case"`
	Key   string                 `json:"key"`
	Msg   string                 `json:"msg"`
	Dump  map[string]interface{} `json:"dump,omitempty"`
	Stack string                 `json:"stack,omitempty"`
}

func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Fail reports a violation and abandons the case.
func (c *C) Fail(format string, args ...interface{}) {
	c.FailKey("", format, args...)
}

// FailKey reports a violation that carries an identifying key (used to match
// the committed list of known findings).
func (c *C) FailKey(key, format string, args ...interface{}) {
	v := Violation{Case: c.Idx, Key: key, Msg: fmt.Sprintf(format, args...), Dump: c.dump}
	c.w.violate(v)
	panic(stopCase{})
}

// Count adds to an event counter reported in the evidence.
func (c *C) Count(name string, n int) { c.w.counts[name] += int64(n) }

// Eval counts one evaluation; when nontrivial it is fingerprinted.
func (c *C) Eval(fp uint64, nontrivial bool) {
	c.w.evals++
	if nontrivial && len(c.w.fps) < 400000 {
		c.w.fps[fp] = struct{}{}
	}
}

func (c *C) Sample(format string, args ...interface{}) {
	if len(c.w.samples) < 2 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.w.samples = append(c.w.samples, fmt.Sprintf("case %d: %s", c.Idx, s))
	}
}

// Dump records an input of the case for the replay file.
func (c *C) Dump(k string, v interface{}) {
	if b, ok := v.([]byte); ok {
		v = fmt.Sprintf("%q", trunc(string(b), 20000))
	}
	if s, ok := v.(string); ok {
		v = trunc(s, 20000)
	}
	if f, ok := v.([]float64); ok {
		v = fmt.Sprintf("%v", f)
		v = trunc(v.(string), 20000)
	}
	c.dump[k] = v
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// Try runs f and reports whether it panicked; a panic that never entered the
// library is a defect of the harness and is re-raised.
func (c *C) Try(f func()) (msg string, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				panic(r)
			}
			st := string(debug.Stack())
			if !strings.Contains(st, "dmitryikh/leaves") {
				panic(fmt.Sprintf("harness panic: %v\n%s", r, st))
			}
			msg = fmt.Sprintf("%v at %s", r, libFrame(st))
			panicked = true
		}
	}()
	f()
	return
}

func libFrame(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "dmitryikh/leaves") && strings.Contains(l, "(") {
			return strings.TrimSpace(l)
		}
	}
	return "?"
}

type report struct {
	Done    bool             `json:"done"`
	Evals   int64            `json:"evals"`
	Counts  map[string]int64 `json:"counts"`
	Fps     []uint64         `json:"fps"`
	Samples []string         `json:"samples"`
	Cases   int64            `json:"cases"`
}

type worker struct {
	p       *Property
	out     *os.File
	mu      sync.Mutex
	evals   int64
	cases   int64
	counts  map[string]int64
	fps     map[uint64]struct{}
	samples []string
	viol    int
	// watchdog state
	cur      int64 // current case, -1 idle
	curStart int64 // process cpu (ns) when the case began
	curWall  int64
}

func (w *worker) line(tag string, v interface{}) {
	b, _ := json.Marshal(v)
	w.mu.Lock()
	fmt.Fprintf(w.out, "%s %s\n", tag, b)
	w.mu.Unlock()
}

func (w *worker) violate(v Violation) {
	w.viol++
	w.line("V", v)
}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

const (
	caseCPUBudget = int64(100 * time.Second)
	exitHang      = 67
	exitHarness   = 70
)

// watchdog decides two kinds of hang, neither by wall-clock alone: a case that
// burns more than caseCPUBudget of CPU time, and a case in which no goroutine
// with a library frame can run (all blocked on each other).
func (w *worker) watchdog() {
	lastCPU := int64(0)
	idle := 0
	lastCase := int64(-1)
	for {
		time.Sleep(500 * time.Millisecond)
		cur := atomic.LoadInt64(&w.cur)
		if cur < 0 {
			idle = 0
			continue
		}
		now := cpuNow()
		if now-atomic.LoadInt64(&w.curStart) > caseCPUBudget {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "HANG: case %d used more than %d s of CPU time\n%s\n", cur, caseCPUBudget/1e9, buf[:n])
			os.Exit(exitHang)
		}
		if cur != lastCase || now-lastCPU > int64(20*time.Millisecond) {
			idle = 0
		} else {
			idle++
		}
		lastCase, lastCPU = cur, now
		if idle >= 20 {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			if allLibBlocked(string(buf[:n])) {
				fmt.Fprintf(os.Stderr, "HANG: case %d: every goroutine inside the library is blocked\n%s\n", cur, buf[:n])
				os.Exit(exitHang)
			}
			idle = 0
		}
	}
}

// allLibBlocked: at least one goroutine is inside the library, and every such
// goroutine waits on a channel, mutex or wait group.
func allLibBlocked(dump string) bool {
	seen := false
	for _, g := range strings.Split(dump, "\n\n") {
		if !strings.Contains(g, "dmitryikh/leaves") {
			continue
		}
		head := g
		if i := strings.Index(g, "\n"); i >= 0 {
			head = g[:i]
		}
		seen = true
		ok := false
		for _, st := range []string{"chan send", "chan receive", "semacquire", "sync.WaitGroup.Wait", "sync.Mutex.Lock", "sync.RWMutex", "select", "sync.Cond.Wait"} {
			if strings.Contains(head, st) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return seen
}

func (w *worker) runCase(seed uint64, tier string, idx int) {
	c := &C{P: w.p, Idx: idx, Tier: tier, w: w, dump: map[string]interface{}{}}
	c.R = newRng(seed, hashStr(w.p.ID), uint64(idx))
	atomic.StoreInt64(&w.curStart, cpuNow())
	atomic.StoreInt64(&w.cur, int64(idx))
	defer atomic.StoreInt64(&w.cur, -1)
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(stopCase); ok {
			return
		}
		st := string(debug.Stack())
		if strings.Contains(st, "dmitryikh/leaves") {
			w.violate(Violation{Case: idx, Msg: fmt.Sprintf("panic inside the library: %v", r), Dump: c.dump, Stack: trunc(st, 6000)})
			return
		}
		fmt.Fprintf(os.Stderr, "HARNESS-ERROR case %d: %v\n%s\n", idx, r, st)
		os.Exit(exitHarness)
	}()
	w.p.Run(c)
	w.cases++
}

func workerMain(p *Property, seed uint64, tier string, shard, nshards, ncases, only int, outPath string) {
	out, err := os.Create(outPath)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR", err)
		os.Exit(exitHarness)
	}
	w := &worker{p: p, out: out, counts: map[string]int64{}, fps: map[uint64]struct{}{}, cur: -1}
	procs := p.Procs
	if procs == 0 {
		procs = 2
	}
	runtime.GOMAXPROCS(procs)
	if !p.NoLimit && !raceEnabled {
		gb := p.MemGB
		if gb == 0 {
			gb = 5
		}
		lim := syscall.Rlimit{Cur: gb << 30, Max: gb << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	go w.watchdog()
	bw := bufio.NewWriter(out)
	_ = bw
	for i := shard; i < ncases; i += nshards {
		if only >= 0 && i != only {
			continue
		}
		w.mu.Lock()
		fmt.Fprintf(w.out, "S %d\n", i)
		w.mu.Unlock()
		w.runCase(seed, tier, i)
		if w.viol >= 3 {
			break
		}
	}
	rep := report{Done: true, Evals: w.evals, Counts: w.counts, Samples: w.samples, Cases: w.cases}
	for k := range w.fps {
		rep.Fps = append(rep.Fps, k)
	}
	sort.Slice(rep.Fps, func(i, j int) bool { return rep.Fps[i] < rep.Fps[j] })
	w.line("R", rep)
	out.Close()
}
