package harness

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zlog"
)

// C20: log lines are whole, filtered by level and seen by the hook.

var defaultLog = zlog.Ins() // before the harness puts its own in

var levelNames = []string{"[DEBUG]", "[INFO]", "[WARN]", "[ERROR]", "[PANIC]", "[FATAL]"}

// headRe is the documented header for a prefix, flags, level and place of call.
func headRe(prefix string, flag, level int, file string, line int) string {
	s := ""
	if prefix != "" {
		s += regexp.QuoteMeta("<" + prefix + ">")
	}
	if flag&(zlog.BitDate|zlog.BitTime|zlog.BitMicroSeconds) == 0 {
		return s
	}
	if flag&zlog.BitDate != 0 {
		s += `\d{4}/\d\d/\d\d `
	}
	if flag&zlog.BitMicroSeconds != 0 {
		s += `\d\d:\d\d:\d\d\.\d{6} `
	} else if flag&zlog.BitTime != 0 {
		s += `\d\d:\d\d:\d\d `
	}
	if flag&zlog.BitLevel != 0 {
		s += regexp.QuoteMeta(levelNames[level])
	}
	if flag&(zlog.BitShortFile|zlog.BitLongFile) != 0 {
		if flag&zlog.BitShortFile != 0 {
			file = filepath.Base(file)
		}
		s += regexp.QuoteMeta(fmt.Sprintf("%s:%d: ", file, line))
	}
	return s
}

// capture redirects what goes to the console into a file for the rest of the process.
func capture(c *Ctx) string {
	p := filepath.Join(c.Dir, "stderr.txt")
	f, err := os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		c.Inconclusive("%v", err)
		c.Finish()
	}
	os.Stderr = f
	return p
}

var _ ziface.ILogger = defaultLog

// scenC20Seq: a random sequence of settings and calls by one caller; the output must be
// exactly the lines a reference formatter gives.
func scenC20Seq(c *Ctx) {
	r := c.Rng
	chaos(0)
	console := capture(c)
	os.Stdout = devNull() // the variants with a context print it
	self := callsFile()
	c20Stack(c, console)
	for round := 0; round < c.N(60, 900) && c.Violations() == 0; round++ {
		global := r.Intn(3) == 0
		prefix, flag, level := "", zlog.BitDefault, 0
		var l *zlog.ZinxLoggerCore
		apis := globalAPIs()
		if global {
			l = zlog.StdZinxLog
			l.SetPrefix("")
			l.ResetFlags(flag)
			l.SetLogLevel(0)
		} else {
			prefix = []string{"", "zinx", "a b<>"}[r.Intn(3)]
			flag = r.Intn(64)
			l = zlog.NewZinxLog(prefix, flag)
			apis = coreAPIs(l)
		}
		var want []string // patterns, one per line
		var hooked []string
		var hookWant []string
		hookOn := false
		toFile := !global && r.Intn(3) == 0
		dir := ""
		if toFile {
			dir, _ = os.MkdirTemp(c.Dir, "f")
			l.SetLogFile(dir, "x.log")
		}
		before, _ := os.Stat(console)
		desc := ""
		var texts []string
		for op := 0; op < 60; op++ {
			switch k := r.Intn(12); {
			case k == 0:
				prefix = []string{"", "p1", "second", "%d"}[r.Intn(4)]
				if global {
					zlog.SetPrefix(prefix)
				} else {
					l.SetPrefix(prefix)
				}
			case k == 1:
				flag = r.Intn(64)
				if global {
					zlog.ResetFlags(flag)
				} else {
					l.ResetFlags(flag)
				}
			case k == 2:
				add := 1 << r.Intn(6)
				flag |= add
				if global {
					zlog.AddFlag(add)
				} else {
					l.AddFlag(add)
				}
				if l.Flags() != flag {
					c.Violate("flags", "flags are %d after setting %d", l.Flags(), flag)
				}
			case k == 3:
				level = r.Intn(6) // a level of 5 still lets only fatal ones through
				if global {
					zlog.SetLogLevel(level)
				} else {
					l.SetLogLevel(level)
				}
			case k == 4 && !global:
				hookOn = r.Intn(3) > 0
				if hookOn {
					l.SetLogHook(func(b []byte) { hooked = append(hooked, string(b)) })
				} else {
					l.SetLogHook(nil)
				}
			default:
				a := apis[r.Intn(len(apis))]
				txt := fmt.Sprintf("text %d.%d", round, op)
				if r.Intn(5) == 0 {
					txt += "\n"
				}
				if r.Intn(12) == 0 {
					txt = ""
				}
				if r.Intn(10) == 0 {
					txt += strings.Repeat("long ", 3000)
					if r.Intn(60) == 0 {
						txt += strings.Repeat("longer  ", 200000)
					}
				}
				out := txt
				var line int
				if a.format {
					if r.Intn(2) == 0 {
						line = a.call("%s|%d", txt, op)
						out = fmt.Sprintf("%s|%d", txt, op)
					} else {
						line = a.call("%s", txt)
					}
				} else {
					line = a.call("", txt, op)
					out = fmt.Sprintln(txt, op)
				}
				if !strings.HasSuffix(out, "\n") {
					out += "\n"
				}
				if a.level >= level {
					pat := "^" + headRe(prefix, flag, a.level, self, line) + regexp.QuoteMeta(out) + "$"
					want = append(want, pat)
					texts = append(texts, a.name)
					if hookOn {
						hookWant = append(hookWant, pat)
					}
				}
				c.Event(1)
			}
		}
		desc = fmt.Sprintf("global=%v file=%v", global, toFile)
		zlog.CleanZinxLog(l)
		var got []byte
		if toFile {
			got, _ = os.ReadFile(filepath.Join(dir, "x.log"))
			os.RemoveAll(dir)
			if after, _ := os.Stat(console); after.Size() != before.Size() {
				c.Violate("console", "%s: a logger with a file wrote to the console, too", desc)
			}
		} else {
			all, _ := os.ReadFile(console)
			got = all[before.Size():]
		}
		rest := string(got)
		for i, p := range want {
			re := regexp.MustCompile(strings.TrimSuffix(p, "$"))
			m := re.FindStringIndex(rest)
			if m == nil {
				c.Violate("line", "%s: line %d of %d (%s) should match %q, the output goes on with %q", desc, i, len(want), texts[i], clip(p, 300), clip(rest, 300))
				break
			}
			rest = rest[m[1]:]
		}
		if c.Violations() == 0 && rest != "" {
			c.Violate("extra", "%s: more output than calls at or above the level: %q", desc, clip(rest, 300))
		}
		if len(hooked) != len(hookWant) {
			c.Violate("hook", "%s: the hook saw %d lines, %d were written while it was set", desc, len(hooked), len(hookWant))
		} else {
			for i, h := range hooked {
				if !regexp.MustCompile(hookWant[i]).MatchString(h) {
					c.Violate("hook", "%s: the hook saw %q for %q", desc, clip(h, 300), clip(hookWant[i], 300))
					break
				}
			}
		}
		c.Count("lines", int64(len(want)))
		c.Eval(fmt.Sprintf("seq/%s/%d/%d", desc, len(want), len(hookWant)))
	}
}

// c20Stack: the call that logs where it was called from.
func c20Stack(c *Ctx, console string) {
	var hooked []string
	l := zlog.NewZinxLog("st", zlog.BitDefault)
	l.SetLogHook(func(b []byte) { hooked = append(hooked, string(b)) })
	before, _ := os.Stat(console)
	txt := fmt.Sprintf("where is %d", c.Seed)
	l.Stack(txt)
	all, _ := os.ReadFile(console)
	got := string(all[before.Size():])
	if !strings.Contains(got, txt+"\n") || !strings.Contains(got, "c20Stack") || !strings.HasSuffix(got, "\n") || len(hooked) != 1 || hooked[0] != got {
		c.Violate("stack", "Stack(%q) wrote %q (the hook saw %d writes), expected the text and the caller's stack", txt, clip(got, 400), len(hooked))
	}
	c.Eval("stack")
}

// scenC20Conc: many callers and reconfigurations at once.
func scenC20Conc(c *Ctx) {
	r0 := c.Rng
	chaos(0)
	console := capture(c)
	lineRe := regexp.MustCompile(`^(<(p\d|)>)?(\d{4}/\d\d/\d\d )?(\d\d:\d\d:\d\d(\.\d{6})? )?(\[(DEBUG|INFO|WARN|ERROR)\])?((\S*/)?p_c20\.calls\.go:\d+: )?L src=(\d+) seq=(\d+) level=(\d) (x*) end$`)
	for round := 0; round < c.N(10, 80) && c.Violations() == 0; round++ {
		global := r0.Intn(3) == 0
		l := zlog.StdZinxLog
		if !global {
			l = zlog.NewZinxLog("", zlog.BitDefault)
		}
		apis := coreAPIs(l)
		if global {
			apis = globalAPIs()
		}
		l.SetLogLevel(0)
		cons := !global && r0.Intn(4) == 0
		toFile := cons || !global && r0.Intn(3) == 0
		dir := ""
		if toFile {
			dir, _ = os.MkdirTemp(c.Dir, "f")
			l.SetLogFile(dir, "x.log")
			l.SetCons(cons)
		}
		before, _ := os.Stat(console)
		var hmu sync.Mutex
		var hooked []string
		mkHook := func() func([]byte) {
			return func(b []byte) {
				s := string(b)
				hmu.Lock()
				hooked = append(hooked, s)
				hmu.Unlock()
			}
		}
		l.SetLogHook(mkHook())
		procs := 2 + r0.Intn(7)
		per := c.N(150, 400)
		must := make([]int32, procs*per) // 1: the line has to be there, 0: it must not, 2: either
		changing := r0.Intn(2) == 0
		var minLevel int32
		if !changing {
			minLevel = int32(r0.Intn(5))
			l.SetLogLevel(int(minLevel))
		}
		var alive = int32(procs)
		var wg sync.WaitGroup
		for p := 0; p < procs; p++ {
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer atomic.AddInt32(&alive, -1)
				r := rand.New(rand.NewSource(seed))
				for i := 0; i < per; i++ {
					a := apis[r.Intn(len(apis))]
					for a.level > 3 || strings.HasSuffix(a.name, "FX") {
						a = apis[r.Intn(len(apis))]
					}
					txt := fmt.Sprintf("L src=%d seq=%d level=%d %s end", p, i, a.level, strings.Repeat("x", r.Intn(200)))
					if r.Intn(40) == 0 {
						txt = fmt.Sprintf("L src=%d seq=%d level=%d %s end", p, i, a.level, strings.Repeat("x", 5000+r.Intn(9000)))
					}
					switch {
					case changing:
						must[p*per+i] = 2
					case int32(a.level) >= minLevel:
						must[p*per+i] = 1
					}
					if a.format {
						a.call("%s", txt)
					} else {
						a.call("", txt)
					}
					c.Event(1)
				}
			}()
		}
		if changing {
			seed := r0.Int63()
			for g := 0; g < 2; g++ {
				seed += int64(g)
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := rand.New(rand.NewSource(seed))
					for atomic.LoadInt32(&alive) > 0 {
						switch r.Intn(7) {
						case 0:
							l.SetPrefix([]string{"", "p1", "p2"}[r.Intn(3)])
						case 1:
							l.ResetFlags(r.Intn(64))
						case 2:
							l.AddFlag(1 << r.Intn(6))
						case 3:
							l.SetLogLevel(r.Intn(5))
						case 4:
							l.SetLogHook(mkHook())
						case 5:
							l.Flags()
						case 6:
							l.SetMaxAge(3 + r.Intn(10))
							l.SetMaxSize(1 << 30)
						}
						time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
					}
				}()
			}
		}
		wg.Wait()
		zlog.CleanZinxLog(l)
		what := fmt.Sprintf("global=%v file=%v console=%v callers=%d reconfigured=%v", global, toFile, cons, procs, changing)
		all, _ := os.ReadFile(console)
		outs := []string{string(all[before.Size():])}
		if toFile {
			b, _ := os.ReadFile(filepath.Join(dir, "x.log"))
			if !cons && outs[0] != "" {
				c.Violate("console", "%s: a logger with a file wrote to the console, too", what)
			}
			if cons && outs[0] != string(b) {
				c.Violate("console", "%s: console (%d bytes) and file (%d bytes) differ", what, len(outs[0]), len(b))
			}
			outs = []string{string(b)}
			os.RemoveAll(dir)
		}
		out := outs[0]
		if out != strings.Join(hooked, "") {
			c.Violate("hook", "%s: the hooks saw %d lines that are not what was written", what, len(hooked))
		}
		seen := make([]int, procs*per)
		last := make([]int, procs)
		for i := range last {
			last[i] = -1
		}
		for _, ln := range strings.Split(out, "\n") {
			if ln == "" {
				continue
			}
			m := lineRe.FindStringSubmatch(ln)
			if m == nil {
				c.Violate("mixed", "%s: damaged line %q", what, clip(ln, 300))
				break
			}
			var src, seq, lv int
			fmt.Sscan(m[10], &src)
			fmt.Sscan(m[11], &seq)
			fmt.Sscan(m[12], &lv)
			if src >= procs || seq >= per {
				c.Violate("mixed", "%s: a line never written: %q", what, clip(ln, 300))
				break
			}
			if m[7] != "" && "["+m[7]+"]" != levelNames[lv] {
				c.Violate("level", "%s: a line of level %s is marked [%s]", what, levelNames[lv], m[7])
				break
			}
			seen[src*per+seq]++
			if seq <= last[src] {
				c.Violate("order", "%s: line %d of caller %d after its line %d", what, seq, src, last[src])
				break
			}
			last[src] = seq
		}
		if c.Violations() == 0 {
			for i, n := range seen {
				if n > 1 || must[i] == 1 && n != 1 || must[i] == 0 && n != 0 {
					c.Violate("count", "%s: line %d of caller %d is there %d times, expected %v (level %d)", what, i%per, i/per, n, must[i] == 1, minLevel)
					break
				}
			}
		}
		c.Count("lines", int64(len(hooked)))
		c.Eval(fmt.Sprintf("conc/%s/%d", what, minLevel))
		if global {
			l.ResetFlags(zlog.BitDefault)
			l.SetPrefix("")
			l.SetLogHook(nil)
			l.SetLogLevel(0)
		}
	}
}

func init() {
	scenario("c20.seq", scenC20Seq)
	scenario("c20.conc", scenC20Conc)
	register(&Check{
		Property: "C20",
		Jobs: func(tier string, seed int64) []Job {
			k := byTier(tier, 1, 6)
			js := spread("c20.seq", Params{}, seed, 4*k, 300*time.Second)
			return append(js, spread("c20.conc", Params{}, seed, 4*k, 300*time.Second)...)
		},
		Parallel: 8,
		MinEvals: 100,
		Rule:     "one evaluation = one logger's life: a random sequence of settings and calls whose console or file output and hook must equal a reference formatter's line by line, or many callers with settings changing at once, whose output must be whole lines, each as often as its level allows, and what the hook saw; distinct = (kind, sink, callers, lines, level)",
	})
}
