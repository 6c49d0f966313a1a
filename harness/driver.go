package harness

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// jobResult is what one child produced.
type jobResult struct {
	job     Job
	rep     Report
	ok      bool // a complete report came back
	viol    []Violation
	races   int // race blocks attributed to zinx
	raceAll int
	errText string // harness-side trouble
	wall    time.Duration
	stderr  string
}

type driver struct {
	id, tier string
	seed     int64
	check    *Check
	root     string // /verif
	scratch  string
	exe      string
	portIdx  int
	mu       sync.Mutex
}

// Drive decides one property: it runs the child processes, gathers what their
// monitors saw, and turns it into a verdict, an evidence file and an exit code.
func Drive() int {
	d := &driver{id: os.Getenv("VERIF_PROPERTY"), tier: os.Getenv("VERIF_TIER"), root: os.Getenv("VERIF_ROOT")}
	if d.tier != "thorough" {
		d.tier = "quick"
	}
	if d.root == "" {
		d.root = "/verif"
	}
	d.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if d.seed == 0 {
		d.seed = 1
	}
	d.check = checks[d.id]
	if d.check == nil {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println("no check for property", d.id, "; have", strings.Join(ids, " "))
		return 2
	}
	var err error
	d.exe, err = os.Executable()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	d.scratch, err = os.MkdirTemp("", "verif-"+d.id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(d.scratch)

	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		return d.replay(rp)
	}

	start := time.Now()
	jobs := d.check.Jobs(d.tier, d.seed)
	if f := os.Getenv("VERIF_JOBS"); f != "" { // debugging aid: only scenarios whose key contains f
		var k []Job
		for _, j := range jobs {
			if strings.Contains(jobKey(j), f) {
				k = append(k, j)
			}
		}
		jobs = k
	}
	results := d.runAll(jobs, d.check.Parallel, 3)

	known := loadKnown(filepath.Join(d.root, "known_findings.txt"), d.id)

	// Hard verdicts first.
	hard, soft := d.split(results, known)
	notes := []string{}
	if len(hard) == 0 && len(soft) > 0 {
		// A bounded-progress verdict only counts when it recurs in a further,
		// otherwise idle, run of the same job.
		bySig := map[string]*jobResult{}
		var order []string
		for _, s := range soft {
			k := jobKey(s.job)
			if bySig[k] == nil {
				bySig[k] = s
				order = append(order, k)
			}
		}
		if len(order) > 2 {
			order = order[:2]
		}
		for _, k := range order {
			s := bySig[k]
			var again []Job
			for i := 0; i < 4; i++ {
				again = append(again, s.job)
			}
			fmt.Printf("confirming a stall in %s: %s\n", k, firstLine(s.viol[0].Msg))
			res := d.runAll(again, 2, 1)
			h2, s2 := d.split(res, known)
			if len(h2) > 0 {
				hard = append(hard, h2...)
				break
			}
			if len(s2) > 0 {
				hard = append(hard, s2[0])
				break
			}
			notes = append(notes, fmt.Sprintf("stall in %s did not recur in %d re-runs: %s", k, len(again), firstLine(s.viol[0].Msg)))
		}
	}

	// Known findings that showed up again.
	knownSeen := map[string]string{}
	for _, r := range results {
		for _, v := range r.viol {
			if k := known.match(v); k != "" {
				knownSeen[k] = v.Sig
			}
		}
	}
	for k := range knownSeen {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.id, k)
	}

	var errs []string
	for _, r := range results {
		if r.errText != "" {
			errs = append(errs, jobKey(r.job)+": "+r.errText)
		}
	}

	evals, distinct := d.writeEvidence(jobs, results, hard, notes, errs, start)

	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if len(hard) > 0 {
		rp := d.writeReplay(hard)
		for i, h := range hard {
			if i >= 3 {
				break
			}
			for _, v := range h.viol {
				if known.match(v) == "" {
					fmt.Printf("  %s [%s] %s\n", jobKey(h.job), v.Sig, clip(v.Msg, 1500))
					break
				}
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.id, rp)
		return 1
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Println("ERROR", clip(e, 3000))
		}
		return 2
	}
	if evals < d.check.MinEvals || distinct == 0 {
		fmt.Printf("ERROR observed too little: %d evaluations, %d distinct (need %d)\n", evals, distinct, d.check.MinEvals)
		return 2
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs\n", d.id, d.tier, evals, distinct, time.Since(start).Seconds())
	return 0
}

func jobKey(j Job) string {
	b, _ := json.Marshal(j.Params)
	return fmt.Sprintf("%s%s#%d", j.Scenario, b, j.Seed)
}

func (d *driver) split(rs []*jobResult, known knownSet) (hard, soft []*jobResult) {
	for _, r := range rs {
		h, s := false, false
		for _, v := range r.viol {
			if known.match(v) != "" {
				continue
			}
			if v.Soft {
				s = true
			} else {
				h = true
			}
		}
		if h {
			hard = append(hard, r)
		} else if s {
			soft = append(soft, r)
		}
	}
	return
}

// runAll starts no further job after a violation, or after stalls in as many jobs as given:
// they are confirmed then.
func (d *driver) runAll(jobs []Job, par int, stalls int) []*jobResult {
	if par < 1 {
		par = 1
	}
	known := loadKnown(filepath.Join(d.root, "known_findings.txt"), d.id)
	res := make([]*jobResult, len(jobs))
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	var stop bool
	var mu sync.Mutex
	for i := range jobs {
		sem <- struct{}{}
		mu.Lock()
		s := stop
		mu.Unlock()
		if s {
			<-sem
			break
		}
		wg.Add(1)
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			r := d.runOne(jobs[i])
			if r.errText != "" && len(r.viol) == 0 {
				// harness-side trouble (a port taken, ...): once more
				r2 := d.runOne(jobs[i])
				if r2.errText == "" || len(r2.viol) > 0 {
					r = r2
				}
			}
			mu.Lock()
			res[i] = r
			soft := false
			for _, v := range r.viol {
				if known.match(v) != "" {
					continue
				}
				if v.Soft {
					soft = true
				} else {
					stop = true
				}
			}
			if soft {
				if stalls--; stalls <= 0 {
					stop = true
				}
			}
			mu.Unlock()
		}(i)
	}
	wg.Wait()
	var out []*jobResult
	for _, r := range res {
		if r != nil {
			out = append(out, r)
		}
	}
	return out
}

func (d *driver) runOne(j Job) *jobResult {
	r := &jobResult{job: j}
	d.mu.Lock()
	idx := d.portIdx
	d.portIdx++
	d.mu.Unlock()
	dir := filepath.Join(d.scratch, fmt.Sprintf("job%d", idx))
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "report.json")
	work := filepath.Join(dir, "work")
	os.MkdirAll(work, 0o755)
	pj, _ := json.Marshal(j.Params)
	timeout := j.Timeout
	if timeout == 0 {
		timeout = 120 * time.Second
	}
	if d.tier == "quick" && timeout > 150*time.Second {
		timeout = 150 * time.Second
	}
	args := []string{"-test.run", "^TestChild$", "-test.timeout", "0"}
	exe := d.exe
	if p := os.Getenv("VERIF_PLAIN"); p != "" && j.Params.Bool("plain") {
		exe = p // without the race detector
	}
	cmd := exec.Command(exe, args...)
	cmd.Dir = work
	raceLog := filepath.Join(dir, "race")
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "VERIF_") || strings.HasPrefix(e, "GORACE=") || strings.HasPrefix(e, "ZINX") {
			continue
		}
		env = append(env, e)
	}
	env = append(env,
		"VERIF_SCENARIO="+j.Scenario,
		"VERIF_CHILD_SEED="+strconv.FormatInt(j.Seed, 10),
		"VERIF_PORT="+strconv.Itoa(10000+(idx%400)*50),
		"VERIF_PARAMS="+string(pj),
		"VERIF_TIER="+d.tier,
		"VERIF_DIR="+work,
		"VERIF_OUT="+out,
		"VERIF_VERBOSE="+os.Getenv("VERIF_VERBOSE"),
		"GORACE=log_path="+raceLog+" halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=50",
	)
	cmd.Env = env
	var errb tailBuffer
	cmd.Stderr = &errb
	cmd.Stdout = &errb
	if os.Getenv("VERIF_VERBOSE") != "" {
		cmd.Stderr, cmd.Stdout = os.Stderr, os.Stderr
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	t0 := time.Now()
	if err := cmd.Start(); err != nil {
		r.errText = err.Error()
		return r
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	timedOut := false
	select {
	case werr = <-done:
	case <-time.After(timeout):
		timedOut = true
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case werr = <-done:
		case <-time.After(10 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			werr = <-done
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	r.wall = time.Since(t0)
	if os.Getenv("VERIF_TIMES") != "" {
		fmt.Printf("%6.1fs %s\n", r.wall.Seconds(), jobKey(j))
	}
	r.stderr = errb.String()

	if b, err := os.ReadFile(out); err == nil {
		if json.Unmarshal(b, &r.rep) == nil && r.rep.Done {
			r.ok = true
		}
	}
	r.viol = append(r.viol, r.rep.Violations...)

	// Race reports.
	logs, _ := filepath.Glob(raceLog + ".*")
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		blocks := raceBlocks(string(b))
		r.raceAll += len(blocks)
		for _, bl := range blocks {
			if sig := zinxRace(bl); sig != "" {
				r.races++
				if r.races <= 4 {
					r.viol = append(r.viol, Violation{Sig: "data-race " + sig, Msg: clip(bl, 3500)})
				}
			}
		}
	}
	switch {
	case timedOut:
		r.viol = append(r.viol, Violation{Sig: "hang", Soft: true, Msg: "the scenario did not end within " + timeout.String() + "\n" + clip(r.stderr, 3500)})
	case !r.ok:
		sig, msg, zinx := crashOf(r.stderr)
		if zinx {
			r.viol = append(r.viol, Violation{Sig: "crash " + sig, Msg: msg})
		} else {
			r.errText = fmt.Sprintf("child ended without a report (%v) %s\n%s", werr, sig, tail(r.stderr, 3000))
		}
	case r.rep.Inconclusive != "":
		r.errText = "inconclusive: " + r.rep.Inconclusive
	}
	return r
}

// ---------------------------------------------------------------- race logs

func raceBlocks(s string) []string {
	var out []string
	for _, p := range strings.Split(s, "==================") {
		if strings.Contains(p, "WARNING: DATA RACE") {
			out = append(out, strings.TrimSpace(p))
		}
	}
	return out
}

var accessRe = regexp.MustCompile(`^(Read|Write|Previous read|Previous write|Atomic read|Atomic write|Previous atomic read|Previous atomic write) (at|of) `)

// zinxRace returns a signature when at least one of the two access stacks first
// leaves the standard library inside zinx, "" otherwise.
func zinxRace(block string) string {
	var fr []string
	zinx := false
	sc := bufio.NewScanner(strings.NewReader(block))
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	in := false
	found := false
	for sc.Scan() {
		ln := sc.Text()
		if accessRe.MatchString(ln) {
			in, found = true, false
			continue
		}
		if ln == "" || strings.HasPrefix(ln, "Goroutine ") {
			in = false
			continue
		}
		if !in || found {
			continue
		}
		if strings.HasPrefix(ln, "  ") && !strings.HasPrefix(ln, "      ") {
			fn := strings.TrimSpace(ln)
			if i := strings.LastIndex(fn, "("); i > 0 && strings.HasSuffix(fn, ")") {
				fn = fn[:i]
			}
			if isStd(fn) {
				continue
			}
			found = true
			if strings.HasPrefix(fn, "github.com/aceld/zinx") {
				zinx = true
			}
			fr = append(fr, shortFn(fn))
		}
	}
	if !zinx {
		return ""
	}
	sort.Strings(fr)
	return strings.Join(fr, " | ")
}

func isStd(fn string) bool {
	p := fn
	if i := strings.Index(p, "/"); i >= 0 {
		p = p[:i]
		return !strings.Contains(p, ".") && p != "verif"
	}
	if i := strings.Index(p, "."); i >= 0 {
		p = p[:i]
	}
	switch p {
	case "main", "command-line-arguments", "verif":
		return false
	}
	return true
}

func shortFn(fn string) string {
	fn = strings.TrimPrefix(fn, "github.com/aceld/zinx/")
	return fn
}

// ------------------------------------------------------------------ crashes

// crashOf finds the crashing goroutine in a Go crash dump and says whether zinx
// code is on its stack: it crashed itself, let a panic of the user's code through,
// or handed the user's (or a library's) code something that made it crash.
func crashOf(s string) (sig, msg string, zinx bool) {
	i := -1
	for _, m := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack exceeds"} {
		if k := indexLineStart(s, m); k >= 0 && (i < 0 || k < i) {
			i = k
		}
	}
	if i < 0 {
		return "", "", false
	}
	rest := s[i:]
	sig = firstLine(rest)
	g := indexLineStart(rest, "goroutine ")
	if g < 0 {
		return sig, clip(rest, 3000), false
	}
	stack := rest[g:]
	if e := strings.Index(stack, "\n\n"); e >= 0 {
		stack = stack[:e]
	}
	first := true
	for _, ln := range strings.Split(stack, "\n")[1:] {
		if strings.HasPrefix(ln, "\t") || ln == "" || strings.HasPrefix(ln, "created by") {
			continue
		}
		fn := ln
		if k := strings.LastIndex(fn, "("); k > 0 {
			fn = fn[:k]
		}
		if strings.HasPrefix(fn, "panic") || isStd(fn) {
			continue
		}
		if first {
			sig = sig + " in " + shortFn(fn)
			first = false
		}
		if strings.HasPrefix(fn, "github.com/aceld/zinx") {
			zinx = true
			break
		}
	}
	return sig, clip(sig+"\n"+stack, 3500), zinx
}

func indexLineStart(s, pat string) int {
	if strings.HasPrefix(s, pat) {
		return 0
	}
	if k := strings.Index(s, "\n"+pat); k >= 0 {
		return k + 1
	}
	return -1
}

// ------------------------------------------------------------ known findings

type knownSet []struct{ sig, text string }

// The file's lines: "known: property=<id> sig=<text up to ;>; <what fails>" and
// "fixed: ..." (the latter suppress nothing).
func loadKnown(path, id string) knownSet {
	var ks knownSet
	b, err := os.ReadFile(path)
	if err != nil {
		return ks
	}
	for _, ln := range strings.Split(string(b), "\n") {
		p := "known: property=" + id + " sig="
		if !strings.HasPrefix(ln, p) {
			continue
		}
		r := ln[len(p):]
		k := strings.Index(r, ";")
		if k <= 0 {
			continue
		}
		ks = append(ks, struct{ sig, text string }{strings.TrimSpace(r[:k]), strings.TrimSpace(r[k+1:])})
	}
	return ks
}

func (k knownSet) match(v Violation) string {
	for _, e := range k {
		if v.Sig == e.sig {
			return e.text
		}
	}
	return ""
}

// ------------------------------------------------------------------- output

func (d *driver) writeReplay(hard []*jobResult) string {
	dir := filepath.Join(d.root, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, d.id+".json")
	type one struct {
		Job        Job         `json:"job"`
		Violations []Violation `json:"violations"`
	}
	var all struct {
		Property string `json:"property"`
		Tier     string `json:"tier"`
		How      string `json:"how"`
		Runs     []one  `json:"runs"`
	}
	all.Property, all.Tier = d.id, d.tier
	all.How = "bash /verif/run.sh " + d.id + " --replay " + p
	for _, h := range hard {
		all.Runs = append(all.Runs, one{h.job, h.viol})
		if len(all.Runs) >= 4 {
			break
		}
	}
	b, _ := json.MarshalIndent(&all, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func (d *driver) replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var all struct {
		Tier string
		Runs []struct{ Job Job }
	}
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Println(err)
		return 2
	}
	d.tier = all.Tier
	bad := 0
	for _, r := range all.Runs {
		res := d.runOne(r.Job)
		fmt.Println("replayed", jobKey(r.Job), "violations:", len(res.viol), res.errText)
		for _, v := range res.viol {
			bad++
			fmt.Printf("  [%s] %s\n", v.Sig, v.Msg)
		}
	}
	if bad > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.id, path)
		return 1
	}
	return 0
}

func (d *driver) writeEvidence(jobs []Job, rs []*jobResult, hard []*jobResult, notes, errs []string, start time.Time) (int64, int) {
	var evals, events int64
	cases := map[uint64]struct{}{}
	counters := map[string]int64{}
	var samples []interface{}
	races, raceAll := 0, 0
	scen := map[string]int{}
	wall := map[string]float64{}
	for _, r := range rs {
		evals += r.rep.Evaluations
		events += r.rep.Events
		for _, c := range r.rep.Cases {
			cases[c] = struct{}{}
		}
		for k, v := range r.rep.Counters {
			counters[k] += v
		}
		if len(samples) < 6 && len(r.rep.Samples) > 0 {
			samples = append(samples, map[string]interface{}{"job": jobKey(r.job), "case": r.rep.Samples[0]})
		}
		races += r.races
		raceAll += r.raceAll
		scen[r.job.Scenario]++
		if w := r.wall.Seconds(); w > wall[r.job.Scenario] {
			wall[r.job.Scenario] = w
		}
	}
	if samples == nil {
		samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": d.id, "tier": d.tier, "seed": d.seed, "level": d.check.Level,
		"coverage": map[string]interface{}{
			"evaluations":                  evals,
			"distinct_nontrivial":          len(cases),
			"rule":                         d.check.Rule,
			"samples":                      samples,
			"monitored_events":             events,
			"counters":                     counters,
			"child_processes":              len(rs),
			"planned_processes":            len(jobs),
			"scenarios":                    scen,
			"longest_process_s":            wall,
			"race_detector":                raceEnabled,
			"race_reports_in_zinx":         races,
			"race_reports_elsewhere":       raceAll - races,
			"unconfirmed_stalls_and_notes": notes,
			"errors":                       errs,
		},
		"assumptions": append([]string{"the Go race detector, runtime and standard library are trusted", "loopback sockets stand in for the network"}, d.check.Assumptions...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(hard),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(d.root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(d.root, "evidence", d.id+".json"), b, 0o644)
	return evals, len(cases)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}
func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// tailBuffer keeps the first and the last part of a stream.
type tailBuffer struct {
	mu   sync.Mutex
	head bytes.Buffer
	last []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if t.head.Len() < 1<<18 {
		k := 1<<18 - t.head.Len()
		if k > len(p) {
			k = len(p)
		}
		t.head.Write(p[:k])
		p = p[k:]
	}
	t.last = append(t.last, p...)
	if len(t.last) > 1<<20 {
		t.last = append([]byte(nil), t.last[len(t.last)-1<<19:]...)
	}
	return n, nil
}
func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.head.String() + string(t.last)
}
