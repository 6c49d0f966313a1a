package harness

import (
	"archive/zip"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aceld/zinx/zlog"
	"github.com/aceld/zinx/zutils"
)

// C19: the log file writer loses, tears and duplicates no line.

func logLine(src, seq int, n int) string {
	s := fmt.Sprintf("line src=%d seq=%d len=%d ", src, seq, n)
	return s + strings.Repeat(string(rune('a'+(src*7+seq)%26)), n) + " end\n"
}

// readLogDir gives the lines of all files a writer left for path, by file in name order
// (the current file last), and the names.
func readLogDir(dir, base string, skip func(string) bool) (files [][]string, names []string, err error) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil, err
	}
	var ns []string
	for _, e := range es {
		if !e.IsDir() && e.Name() != base && !(skip != nil && skip(e.Name())) {
			ns = append(ns, e.Name())
		}
	}
	sort.Strings(ns)
	if _, e := os.Stat(filepath.Join(dir, base)); e == nil {
		ns = append(ns, base)
	}
	for _, n := range ns {
		p := filepath.Join(dir, n)
		var b []byte
		if strings.HasSuffix(n, ".zip") {
			z, err := zip.OpenReader(p)
			if err != nil {
				return nil, nil, fmt.Errorf("%s: %w", n, err)
			}
			for _, f := range z.File {
				r, err := f.Open()
				if err != nil {
					return nil, nil, fmt.Errorf("%s: %w", n, err)
				}
				x, err := io.ReadAll(r)
				if err != nil {
					return nil, nil, fmt.Errorf("%s: %w", n, err)
				}
				b = append(b, x...)
			}
			z.Close()
		} else if b, err = os.ReadFile(p); err != nil {
			return nil, nil, err
		}
		if len(b) > 0 && b[len(b)-1] != '\n' {
			return nil, nil, fmt.Errorf("%s ends in the middle of a line: %q", n, clipB(b[max(0, len(b)-80):]))
		}
		files = append(files, strings.SplitAfter(string(b), "\n"))
		names = append(names, n)
	}
	return
}

// checkLines compares what is in the files with what was written.
func checkLines(c *Ctx, what string, files [][]string, written []int, lens [][]int, header bool, inOrder bool) int {
	next := make([]int, len(written))
	seen := make([]map[int]bool, len(written))
	for i := range seen {
		seen[i] = map[int]bool{}
	}
	total := 0
	for fi, f := range files {
		last := make([]int, len(written))
		for i := range last {
			last[i] = -1
		}
		for _, ln := range f {
			if ln == "" {
				continue
			}
			k := strings.Index(ln, "line src=")
			if k < 0 || !header && k != 0 {
				c.Violate("torn", "%s: file %d has a line that was never written: %q", what, fi, clipB([]byte(ln)))
				return total
			}
			var src, seq, n int
			if _, err := fmt.Sscanf(ln[k:], "line src=%d seq=%d len=%d ", &src, &seq, &n); err != nil || src >= len(written) || seq >= written[src] || n != lens[src][seq] || ln[k:] != logLine(src, seq, n) {
				c.Violate("torn", "%s: file %d has a damaged line: %q", what, fi, clipB([]byte(ln)))
				return total
			}
			if seen[src][seq] {
				c.Violate("twice", "%s: line %d of writer %d is there twice", what, seq, src)
				return total
			}
			seen[src][seq] = true
			if seq <= last[src] {
				c.Violate("order", "%s: in file %d, line %d of writer %d comes after its line %d", what, fi, seq, src, last[src])
				return total
			}
			last[src] = seq
			if inOrder && seq != next[src] {
				c.Violate("order", "%s: line %d of writer %d where %d was expected (file %d)", what, seq, src, next[src], fi)
				return total
			}
			next[src] = seq + 1
			total++
		}
	}
	for src, n := range written {
		if len(seen[src]) != n {
			miss := -1
			for i := 0; i < n; i++ {
				if !seen[src][i] {
					miss = i
					break
				}
			}
			c.Violate("lost", "%s: %d of %d lines of writer %d are in the %d files; the first missing is %d", what, len(seen[src]), n, src, len(files), miss)
		}
	}
	return total
}

type lineSink interface {
	io.Writer
	Close() error
	SetMaxSize(int64)
	SetMaxAge(int)
}

// scenC19: writers, rotation by size, reconfiguration and closing at once.
func scenC19(c *Ctx) {
	r0 := c.Rng
	chaos(0)
	os.Stderr = devNull() // a writer that cannot write complains there
	for round := 0; round < c.N(25, 200) && c.Violations() == 0; round++ {
		dir, err := os.MkdirTemp(c.Dir, "log")
		if err != nil {
			c.Inconclusive("%v", err)
			return
		}
		base := []string{"app.log", "app", "a.b.log", "x.txt"}[r0.Intn(4)]
		w := zutils.New(filepath.Join(dir, "sub", base))
		closing := r0.Intn(3)    // 0: only at the end
		limit := int64(64 << 20) // the largest size ever set
		if r0.Intn(3) > 0 {
			limit = int64(200 + r0.Intn(50000))
			w.SetMaxSize(limit)
		}
		tiny := r0.Intn(4) == 0
		if tiny {
			limit = int64(1 + r0.Intn(300))
			w.SetMaxSize(limit)
		}
		fixed := tiny || r0.Intn(2) == 0
		begin := time.Now()
		procs := 1 + r0.Intn(6)
		written := make([]int, procs)
		lens := make([][]int, procs)
		var wg sync.WaitGroup
		var alive int32 = int32(procs)
		total := c.N(600, 3000)
		if tiny {
			total = 150
		}
		for p := 0; p < procs; p++ {
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer atomic.AddInt32(&alive, -1)
				r := rand.New(rand.NewSource(seed))
				for i := 0; i < total/procs; i++ {
					n := r.Intn(120)
					if r.Intn(40) == 0 {
						n = 4000 + r.Intn(9000) // longer than the writer's buffer
					}
					ln := []byte(logLine(p, i, n))
					m, err := w.Write(ln)
					if err != nil || m != len(ln) {
						c.Violate("write", "writing a line gave %d, %v", m, err)
						return
					}
					for k := range ln { // the caller may use its buffer again
						ln[k] = '!'
					}
					written[p]++
					lens[p] = append(lens[p], n)
					if r.Intn(30) == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		for k := 0; k < closing; k++ {
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for atomic.LoadInt32(&alive) > 0 {
					switch r.Intn(6) {
					case 0:
						if !fixed {
							w.SetMaxSize(int64(100 + r.Intn(60000)))
						}
					case 1:
						w.SetMaxAge(1 + r.Intn(40))
					default:
						if err := w.Close(); err != nil {
							c.Violate("close", "closing gave %v", err)
						}
					}
					time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				}
			}()
		}
		wg.Wait()
		if round%3 == 0 { // closed after every line, each of which fills a file
			w.SetMaxSize(1)
			for i := 0; i < 40; i++ {
				io.WriteString(w, logLine(0, written[0], 5))
				written[0]++
				lens[0] = append(lens[0], 5)
				w.Close()
			}
			closing += 10
		}
		if err := w.Close(); err != nil {
			c.Violate("close", "closing gave %v", err)
		}
		w.Close() // again: nothing to do
		what := fmt.Sprintf("%s, %d writers, %d closers", base, procs, closing)
		files, names, err := readLogDir(filepath.Join(dir, "sub"), base, nil)
		if err != nil {
			c.Violate("files", "%s: %v", what, err)
			return
		}
		n := checkLines(c, what, files, written, lens, false, closing == 0)
		if closing > 0 && !fixed {
			limit = max(limit, 60100)
		}
		for i, f := range files {
			var size int64
			lines := 0
			for _, ln := range f {
				size += int64(len(ln))
				if ln != "" {
					lines++
				}
			}
			if size > limit && lines > 1 {
				c.Violate("size", "%s: the file %s has %d bytes in %d lines, the largest size set was %d", what, names[i], size, lines, limit)
				return
			}
			// what the writer's buffer holds may count twice, and the next line did not fit
			if closing == 0 && lines > 0 && i < len(files)-1 && size < limit-4096-13200 && time.Now().YearDay() == begin.YearDay() {
				c.Violate("begun", "%s: the file %s was ended with %d bytes in %d lines, the size set was %d", what, names[i], size, lines, limit)
				return
			}
		}
		c.Event(n)
		c.Count("lines", int64(n))
		c.Count("files", int64(len(names)))
		c.Eval(fmt.Sprintf("%s/%d", what, len(names)))
		os.RemoveAll(dir)
	}
}

func devNull() *os.File {
	f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return os.Stderr
	}
	return f
}

// scenC19V: days pass in virtual time; rotation by date and retention.
func scenC19V(c *Ctx) {
	r := c.Rng
	chaos(0)
	zone := time.FixedZone("T", (r.Intn(27)-12)*3600)
	if r.Intn(2) == 0 { // west of Greenwich
		zone = time.FixedZone("W", -(1+r.Intn(12))*3600)
	}
	time.Local = zone
	synctest.Test(c.T, func(*testing.T) {
		c19Gap(c)
		c19Days(c, r, zone)
		c.Finish() // the writers' daemons never end
	})
}

// c19Gap: a file of an earlier date is found at start; what is written today goes into another one.
func c19Gap(c *Ctx) {
	now := time.Now()
	for _, at := range []time.Time{now.AddDate(0, 0, -1), now.AddDate(0, -1, 0), now.AddDate(-1, 0, 0), now.AddDate(-10, 0, 0), now} {
		dir, err := os.MkdirTemp(c.Dir, "gap")
		if err != nil {
			c.Inconclusive("%v", err)
			return
		}
		path := filepath.Join(dir, "app.log")
		os.WriteFile(path, []byte(logLine(0, 0, 7)), 0o644)
		os.Chtimes(path, at, at)
		w := zutils.New(path)
		w.SetMaxAge(0)
		io.WriteString(w, logLine(0, 1, 9))
		w.Close()
		got, _ := os.ReadFile(path)
		want := logLine(0, 1, 9)
		if at.Equal(now) {
			want = logLine(0, 0, 7) + want
		}
		if string(got) != want {
			c.Violate("gap", "a file last written at %v was there at %v; with a line written then it holds %q, expected %q", at, now, clipB(got), want)
		}
		if files, _, err := readLogDir(dir, "app.log", func(string) bool { return false }); err != nil || !at.Equal(now) && len(files) != 2 {
			c.Violate("gap", "a file last written at %v was there at %v; %d files with lines are left, expected 2 (%v)", at, now, len(files), err)
		}
		c.Count("gaps", 1)
		os.RemoveAll(dir)
	}
}

func c19Days(c *Ctx, r *rand.Rand, zone *time.Location) {
	{
		for round := 0; round < c.N(2, 12) && c.Violations() == 0; round++ {
			dir, err := os.MkdirTemp(c.Dir, "days")
			if err != nil {
				c.Inconclusive("%v", err)
				return
			}
			maxAge := 1 + r.Intn(12)
			keepAll := r.Intn(4) == 0
			time.Sleep(time.Duration(r.Intn(86400)) * time.Second)
			w := zutils.New(filepath.Join(dir, "app.log"))
			if keepAll {
				w.SetMaxAge(0)
			} else {
				w.SetMaxAge(maxAge)
			}
			// files that are none of its business
			old := time.Now().AddDate(0, 0, -400).Format("2006-01-02-150405.000000")
			decoys := []string{"notes.txt", "app2." + old + ".zip", "app." + old + ".zip.bak", "other." + old + ".log", "app." + old[:10] + ".zip", "xapp." + old + ".zip", "app-" + old + ".zip"}
			for _, d := range decoys {
				os.WriteFile(filepath.Join(dir, d), []byte("keep me\n"), 0o644)
			}
			os.Mkdir(filepath.Join(dir, "app."+old+".zip"), 0o755) // not even a file
			isDecoy := func(n string) bool {
				for _, d := range decoys {
					if d == n {
						return true
					}
				}
				return false
			}
			type wrote struct {
				at  time.Time
				seq int
			}
			var lines []wrote
			var lens []int
			days := 5 + r.Intn(26)
			end := time.Now().AddDate(0, 0, days)
			for time.Now().Before(end) {
				for k := r.Intn(4); k >= 0; k-- {
					n := r.Intn(60)
					if _, err := io.WriteString(w, logLine(0, len(lines), n)); err != nil {
						c.Violate("write", "%v", err)
						return
					}
					lines = append(lines, wrote{time.Now(), len(lines)})
					lens = append(lens, n)
				}
				synctest.Wait()
				if r.Intn(8) == 0 { // the program ends and begins again later
					w.Close()
					os.Chtimes(filepath.Join(dir, "app.log"), time.Now(), time.Now())
					if r.Intn(2) == 0 {
						w = zutils.New(filepath.Join(dir, "app.log"))
						if keepAll {
							w.SetMaxAge(0)
						} else {
							w.SetMaxAge(maxAge)
						}
					}
					c.Count("reopened", 1)
				}
				d := time.Duration(r.Intn(40000)) * time.Second
				if r.Intn(6) == 0 {
					d = time.Duration(r.Intn(6)) * 24 * time.Hour
				}
				if r.Intn(3) == 0 { // just around midnight
					n := time.Now()
					d = time.Date(n.Year(), n.Month(), n.Day()+1, 0, 0, 0, 0, n.Location()).Sub(n) + time.Duration(r.Intn(3)-1)*time.Second
				}
				time.Sleep(max(d, time.Millisecond))
			}
			if r.Intn(2) == 0 { // the last thing that happens is a change of date
				n := time.Now()
				to := time.Date(n.Year(), n.Month(), n.Day()+1, 0, 0, 1, 0, n.Location())
				if !keepAll && r.Intn(4) > 0 { // when a file is almost old enough
					day := ""
					for _, l := range lines {
						f := l.at
						if f.Format("2006-01-02") == day {
							continue
						}
						day = f.Format("2006-01-02")
						g := time.Date(f.Year(), f.Month(), f.Day()+maxAge, 0, 0, 1, 0, n.Location())
						if tod := f.Hour()*3600 + f.Minute()*60 + f.Second(); g.After(n) && tod > 1 && tod < 6*3600 {
							to = g
							break
						}
					}
				}
				time.Sleep(to.Sub(n))
				io.WriteString(w, logLine(0, len(lines), 5))
				lines = append(lines, wrote{time.Now(), len(lines)})
				lens = append(lens, 5)
				synctest.Wait()
			}
			w.Close()
			what := fmt.Sprintf("%d days, retention %d (off: %v), zone %v", days, maxAge, keepAll, zone)
			files, names, err := readLogDir(dir, "app.log", isDecoy)
			if err != nil {
				c.Violate("files", "%s: %v", what, err)
				return
			}
			for _, d := range decoys {
				if b, err := os.ReadFile(filepath.Join(dir, d)); err != nil || string(b) != "keep me\n" {
					c.Violate("decoy", "%s: the file %s, which is not a log file of the writer, is gone or changed (%v)", what, d, err)
				}
			}
			if _, err := os.Stat(filepath.Join(dir, "app."+old+".zip")); err != nil {
				c.Violate("decoy", "%s: a directory is gone (%v)", what, err)
			}
			// each file holds lines of one day only; what is missing lay in files begun before the limit
			seen := map[int]bool{}
			for fi, f := range files {
				day := ""
				for _, ln := range f {
					if ln == "" {
						continue
					}
					var src, seq, n int
					if _, err := fmt.Sscanf(ln, "line src=%d seq=%d len=%d ", &src, &seq, &n); err != nil || seq >= len(lines) || n != lens[seq] || ln != logLine(0, seq, n) {
						c.Violate("torn", "%s: damaged line %q", what, clipB([]byte(ln)))
						return
					}
					if seen[seq] {
						c.Violate("twice", "%s: line %d is there twice", what, seq)
					}
					seen[seq] = true
					d := lines[seq].at.Format("2006-01-02")
					if day != "" && d != day {
						c.Violate("days", "%s: %s holds lines of %s and of %s", what, names[fi], day, d)
						return
					}
					day = d
				}
			}
			lastClean := lines[len(lines)-1].at // the last day change was seen at the latest then
			for i, l := range lines {
				if seen[i] {
					continue
				}
				// it may be gone only if the first line of its day was beyond the limit
				first := l.at
				for k := i; k >= 0 && lines[k].at.Format("2006-01-02") == l.at.Format("2006-01-02"); k-- {
					first = lines[k].at
				}
				if keepAll || !first.Before(lastClean.AddDate(0, 0, -maxAge)) {
					c.Violate("retention", "%s: line %d of %v is gone at %v, its file was begun at %v", what, i, l.at, lastClean, first)
					return
				}
			}
			if !keepAll { // and files far beyond the limit are removed
				for i, l := range lines {
					if seen[i] && l.at.Before(lastClean.AddDate(0, 0, -maxAge-12)) {
						c.Violate("kept", "%s: line %d of %v is still there at %v", what, i, l.at, lastClean)
						break
					}
				}
			}
			c.Event(len(lines))
			c.Count("days", int64(days))
			c.Count("lines", int64(len(lines)))
			c.Eval(what)
			os.RemoveAll(dir)
		}
	}
}

// scenC19Log: the same through a logger, in real time, with the file changed meanwhile.
func scenC19Log(c *Ctx) {
	r0 := c.Rng
	chaos(0)
	os.Stderr = devNull()
	for round := 0; round < c.N(12, 80) && c.Violations() == 0; round++ {
		dir, err := os.MkdirTemp(c.Dir, "zlog")
		if err != nil {
			c.Inconclusive("%v", err)
			return
		}
		lg := zlog.NewZinxLog([]string{"", "pre"}[r0.Intn(2)], []int{0, zlog.BitDefault, zlog.BitDate | zlog.BitMicroSeconds | zlog.BitLongFile}[r0.Intn(3)])
		nfiles := 1 + r0.Intn(3)
		lg.SetLogFile(dir, "l0.log")
		if r0.Intn(2) == 0 {
			lg.SetMaxSize(int64(500 + r0.Intn(8000)))
		}
		lg.SetCons(r0.Intn(2) == 0)
		procs := 1 + r0.Intn(6)
		written := make([]int, procs)
		lens := make([][]int, procs)
		var wg sync.WaitGroup
		for p := 0; p < procs; p++ {
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for i := 0; i < 200; i++ {
					n := r.Intn(120)
					lg.Infof("%s", logLine(p, i, n))
					written[p]++
					lens[p] = append(lens[p], n)
				}
			}()
		}
		for k := 1; k < nfiles; k++ {
			time.Sleep(time.Duration(r0.Intn(3000)) * time.Microsecond)
			lg.SetLogFile(dir, fmt.Sprintf("l%d.log", k))
		}
		wg.Wait()
		zlog.CleanZinxLog(lg)
		var all [][]string
		for k := 0; k < nfiles; k++ {
			base := fmt.Sprintf("l%d.log", k)
			files, _, err := readLogDir(dir, base, func(n string) bool { return !strings.HasPrefix(n, fmt.Sprintf("l%d.", k)) })
			if err != nil {
				c.Violate("files", "%v", err)
				return
			}
			all = append(all, files...)
		}
		n := checkLines(c, fmt.Sprintf("logger with %d files, %d callers", nfiles, procs), all, written, lens, true, true)
		c.Event(n)
		c.Count("lines", int64(n))
		c.Eval(fmt.Sprintf("logger/%d/%d/%d", nfiles, procs, len(all)))
		os.RemoveAll(dir)
	}
}

func init() {
	scenario("c19", scenC19)
	scenario("c19.v", scenC19V)
	scenario("c19.log", scenC19Log)
	register(&Check{
		Property: "C19",
		Jobs: func(tier string, seed int64) []Job {
			k := byTier(tier, 1, 5)
			js := spread("c19", Params{}, seed, 5*k, 400*time.Second)
			js = append(js, spread("c19.v", Params{}, seed, byTier(tier, 11, 40), 400*time.Second)...)
			return append(js, spread("c19.log", Params{}, seed, 2*k, 400*time.Second)...)
		},
		Parallel: 7,
		MinEvals: 60,
		Rule:     "one evaluation = one life of a log file: concurrent writers with rotation by size, reconfiguration and closing, or days of virtual time with rotation by date and retention among foreign files, or a logger switching files; all files it leaves are read back and compared line by line; distinct = (kind, writers, closers, files left, days, limits)",
	})
}
