// Package harness runs the real aceld/zinx code under hostile workloads while
// monitors (trace checkers, reference models, the Go race detector) decide the
// properties listed in /verif/properties.jsonl.
package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
)

// Violation is one observed refutation of a property, with its witness.
type Violation struct {
	Sig  string `json:"sig"`            // stable short identification (kind of failure)
	Msg  string `json:"msg"`            // witness
	Soft bool   `json:"soft,omitempty"` // needs confirmation by re-running (bounded-progress verdicts)
}

// Report is what one child process hands back to the driver.
type Report struct {
	Evaluations  int64            `json:"evaluations"`
	Events       int64            `json:"events"`
	Cases        []uint64         `json:"cases"`
	Counters     map[string]int64 `json:"counters"`
	Samples      []interface{}    `json:"samples"`
	Violations   []Violation      `json:"violations"`
	Inconclusive string           `json:"inconclusive,omitempty"`
	Done         bool             `json:"done"`
}

// Params are the knobs of one scenario run.
type Params map[string]string

func (p Params) Int(k string, def int) int {
	if v, ok := p[k]; ok {
		n, err := strconv.Atoi(v)
		if err == nil {
			return n
		}
	}
	return def
}
func (p Params) Str(k, def string) string {
	if v, ok := p[k]; ok {
		return v
	}
	return def
}
func (p Params) Bool(k string) bool { return p[k] == "1" || p[k] == "true" }

// With returns a copy of p with one more key.
func (p Params) With(kv ...string) Params {
	q := Params{}
	for k, v := range p {
		q[k] = v
	}
	for i := 0; i+1 < len(kv); i += 2 {
		q[kv[i]] = kv[i+1]
	}
	return q
}

// Ctx is handed to a scenario.
type Ctx struct {
	T    *testing.T
	Seed int64
	Rng  *rand.Rand
	P    Params
	Tier string
	Port int // base of a port range private to this child
	Dir  string

	MakeServer func(...znet.Option) ziface.IServer // instead of znet.NewServer

	mu    sync.Mutex
	rep   Report
	cases map[uint64]struct{}
	out   string
	nviol int
	bad   int32
	ended bool

	events int64
	evals  int64
}

// Thorough says whether the deep tier runs.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks an amount by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Event counts n monitored events.
func (c *Ctx) Event(n int) { atomic.AddInt64(&c.events, int64(n)) }

// Eval counts one evaluated case; key identifies it (distinct keys are counted).
func (c *Ctx) Eval(key string) {
	atomic.AddInt64(&c.evals, 1)
	if key == "" {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	v := h.Sum64()
	c.mu.Lock()
	c.cases[v] = struct{}{}
	if len(c.rep.Samples) < 2 {
		c.rep.Samples = append(c.rep.Samples, key)
	}
	c.mu.Unlock()
}

// Count adds to a named counter shown in the evidence.
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.rep.Counters[name] += n
	c.mu.Unlock()
}

// Sample keeps a few written-out cases.
func (c *Ctx) Sample(v interface{}) {
	c.mu.Lock()
	if len(c.rep.Samples) < 5 {
		c.rep.Samples = append(c.rep.Samples, v)
	}
	c.mu.Unlock()
}

// Violate records a refutation.
func (c *Ctx) Violate(sig, format string, a ...interface{}) {
	c.violate(false, sig, format, a...)
}

// Stall records a bounded-progress violation: the driver re-runs it before believing it.
func (c *Ctx) Stall(sig, format string, a ...interface{}) {
	c.violate(true, sig, format, a...)
}

func (c *Ctx) violate(soft bool, sig, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	c.mu.Lock()
	c.nviol++
	atomic.StoreInt32(&c.bad, 1)
	if len(c.rep.Violations) < 8 {
		c.rep.Violations = append(c.rep.Violations, Violation{Sig: sig, Msg: msg, Soft: soft})
	}
	c.mu.Unlock()
}

// Violations says how many violations were recorded so far.
func (c *Ctx) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nviol
}

// watch ends a run some time after its first violation: what follows adds nothing, and
// waiting for what is broken anyway takes long.
func (c *Ctx) watch() {
	for atomic.LoadInt32(&c.bad) == 0 {
		time.Sleep(300 * time.Millisecond)
	}
	time.Sleep(10 * time.Second)
	c.Finish()
}

// Inconclusive marks the run as giving no verdict.
func (c *Ctx) Inconclusive(format string, a ...interface{}) {
	c.mu.Lock()
	if c.rep.Inconclusive == "" {
		c.rep.Inconclusive = fmt.Sprintf(format, a...)
	}
	c.mu.Unlock()
}

// flush writes the report; done says the scenario ran to its end.
func (c *Ctx) flush(done bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rep.Done = done
	c.rep.Evaluations = atomic.LoadInt64(&c.evals)
	c.rep.Events = atomic.LoadInt64(&c.events)
	c.rep.Cases = c.rep.Cases[:0]
	for k := range c.cases {
		c.rep.Cases = append(c.rep.Cases, k)
	}
	b, err := json.Marshal(&c.rep)
	if err != nil {
		fmt.Fprintln(os.Stderr, "report:", err)
		return
	}
	tmp := c.out + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err == nil {
		os.Rename(tmp, c.out)
	}
}

// Finish writes the report and ends the child process. Scenarios whose
// goroutines never end (time wheels, daemons, bubbles) call it themselves.
func (c *Ctx) Finish() {
	c.flush(true)
	os.Exit(0)
}

// WaitCount waits until n reaches want, as long as it keeps growing (slow is not stuck).
func WaitCount(limit time.Duration, want int64, n func() int64) bool {
	last := n()
	for i := 0; i < 4; i++ {
		if WaitFor(limit, func() bool { return n() >= want }) {
			return true
		}
		now := n()
		if now == last {
			return false
		}
		last = now
	}
	return false
}

// Waiter polls cond until it holds or the (generous) limit passes.
func WaitFor(limit time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(limit)
	d := 200 * time.Microsecond
	for {
		if cond() {
			return true
		}
		if time.Now().After(deadline) {
			return cond()
		}
		time.Sleep(d)
		if d < 20*time.Millisecond {
			d += d / 2
		}
	}
}

// StallLimit bounds every real-time wait for progress. A violation based on it
// is only reported after it recurred on re-runs.
const StallLimit = 25 * time.Second

// Stacks returns the goroutine stacks, those inside zinx first (for stall witnesses).
func Stacks() string {
	var z, o []string
	for _, g := range strings.Split(rawStacks(), "\n\n") {
		if strings.Contains(g, "github.com/aceld/zinx/") {
			z = append(z, g)
		} else {
			o = append(o, g)
		}
	}
	return strings.Join(append(z, o...), "\n\n")
}

func rawStacks() string {
	b := make([]byte, 4<<20)
	return string(b[:runtime.Stack(b, true)])
}

// Job is one child process to run.
type Job struct {
	Scenario string        `json:"scenario"`
	Params   Params        `json:"params"`
	Seed     int64         `json:"seed"`
	Timeout  time.Duration `json:"timeout"`
}

// Check describes how one property is decided.
type Check struct {
	Property    string
	Jobs        func(tier string, seed int64) []Job
	Parallel    int
	Rule        string
	Level       string
	Assumptions []string
	MinEvals    int64 // fewer evaluations than this is "observed nothing"
	// RaceOK: races in zinx code do not count for this property (never used to quiet a check that is right)
	RaceOK bool
	// CrashSig: a child that dies with zinx frames on the crashing goroutine violates the property
	NoCrash bool
}

var checks = map[string]*Check{}
var scenarios = map[string]func(*Ctx){}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	if c.Parallel == 0 {
		c.Parallel = 4
	}
	checks[c.Property] = c
}
func scenario(name string, f func(*Ctx)) { scenarios[name] = f }

// spread makes n jobs of one scenario with different seeds.
func spread(name string, p Params, seed int64, n int, timeout time.Duration) []Job {
	var js []Job
	for i := 0; i < n; i++ {
		js = append(js, Job{Scenario: name, Params: p, Seed: seed*1000003 + int64(i)*7919 + int64(len(name)), Timeout: timeout})
	}
	return js
}

func byTier(tier string, q, t int) int {
	if tier == "thorough" {
		return t
	}
	return q
}

func itoa(i int) string { return strconv.Itoa(i) }
