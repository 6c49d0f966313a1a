package harness

import (
	"fmt"
	"math/rand"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aceld/zinx/ztimer"
)

// C17: timers fire exactly once, not early, and not after cancellation.

type tmr struct {
	due      time.Time
	id       uint32
	fired    int32
	at       int64 // UnixNano of the first firing
	canceled int64 // UnixNano when CancelTimer had returned, 0: not cancelled
	made     time.Time
	kind     string
}

type tmrBook struct {
	c     *Ctx
	ts    *ztimer.TimerScheduler
	mu    sync.Mutex
	all   []*tmr
	ids   map[uint32]*tmr
	late  time.Duration
	soft  bool
	hold  chan struct{}
	extra func(*tmr, *rand.Rand)
}

// early is how much before its due time a timer may fire: the documented 100 ms, and
// one because due times are kept in whole milliseconds.
const tmrEarly = 101 * time.Millisecond

func (b *tmrBook) add(r *rand.Rand, delay time.Duration) *tmr {
	t := &tmr{made: time.Now()}
	t.due = t.made.Add(delay)
	how := r.Intn(8)
	var df *ztimer.DelayFunc
	mark := &struct{ x int }{r.Int()}
	args := []interface{}{t, mark, r.Intn(100)}
	want := args[2]
	df = ztimer.NewDelayFunc(func(v ...interface{}) {
		now := time.Now()
		if atomic.AddInt32(&t.fired, 1) == 1 {
			atomic.StoreInt64(&t.at, now.UnixNano())
		}
		if len(v) != 3 || v[0] != interface{}(t) || v[1] != interface{}(mark) || v[2] != want {
			b.c.Violate("args", "a timer's function was called with %v, given were %v", v, args)
		}
		b.c.Event(1)
		switch how {
		case 0:
			panic("planned")
		case 1:
			var m map[int]int
			m[1] = 1
		case 2:
			<-b.hold // a function that takes for ever
		case 3:
			if b.extra != nil {
				b.extra(t, r)
			}
		}
	}, args)
	var err error
	if r.Intn(2) == 0 {
		t.kind = "at"
		t.id, err = b.ts.CreateTimerAt(df, t.due.UnixNano())
	} else {
		t.kind = "after"
		t.id, err = b.ts.CreateTimerAfter(df, delay)
		if x := time.Now().Add(delay); !b.soft && !x.Equal(t.due) {
			t.due = x
		}
	}
	if err != nil {
		b.c.Violate("create", "creating a timer of %v failed: %v", delay, err)
	}
	b.mu.Lock()
	if o := b.ids[t.id]; o != nil {
		b.c.Violate("id-twice", "two timers have the id %d", t.id)
	}
	b.ids[t.id] = t
	b.all = append(b.all, t)
	b.mu.Unlock()
	return t
}

func (b *tmrBook) cancel(t *tmr) {
	b.ts.CancelTimer(t.id)
	atomic.CompareAndSwapInt64(&t.canceled, 0, time.Now().UnixNano())
}

// judge is called when everything due should have fired.
func (b *tmrBook) judge(now time.Time) {
	b.mu.Lock()
	defer b.mu.Unlock()
	var fired, canceled int64
	for _, t := range b.all {
		n, at, cn := atomic.LoadInt32(&t.fired), atomic.LoadInt64(&t.at), atomic.LoadInt64(&t.canceled)
		delay := t.due.Sub(t.made)
		early := t.due.Add(-tmrEarly)
		if n > 1 {
			b.c.Violate("twice", "a timer of %v fired %d times", delay, n)
		}
		if n > 0 {
			fired++
			if f := time.Unix(0, at); f.Before(early) {
				b.c.Violate("early", "a timer of %v (%s) fired after %v", delay, t.kind, f.Sub(t.made))
			} else if d := f.Sub(t.due); d > b.late {
				if !(t.due.Before(t.made) && f.Sub(t.made) < b.late) { // due in the past: at once
					b.bad("late", "a timer of %v (%s) fired %v after it was due", delay, t.kind, d)
				}
			}
		}
		switch {
		case cn != 0 && time.Unix(0, cn).Before(early):
			canceled++
			if n > 0 {
				b.c.Violate("canceled", "a timer of %v was cancelled %v before it was due and fired", delay, t.due.Sub(time.Unix(0, cn)))
			}
		case cn != 0: // cancelled around its due time: either
		case n == 0 && now.Sub(t.due) > b.late && now.Sub(t.made) > b.late:
			b.bad("lost", "a timer of %v (%s) has not fired %v after it was due", delay, t.kind, now.Sub(t.due))
		case n > 0 && false:
		}
	}
	b.c.Count("timers", int64(len(b.all)))
	b.c.Count("fired", fired)
	b.c.Count("cancelled_in_time", canceled)
}

func (b *tmrBook) bad(sig, f string, a ...interface{}) {
	if b.soft {
		b.c.Stall(sig, f, a...)
	} else {
		b.c.Violate(sig, f, a...)
	}
}

func tmrDelay(r *rand.Rand, horizon time.Duration) time.Duration {
	for {
		var d time.Duration
		switch r.Intn(8) {
		case 0:
			d = -time.Duration(r.Intn(5000)) * time.Millisecond
		case 1:
			d = time.Duration(r.Intn(1500)) * time.Millisecond
		case 2:
			d = time.Duration(r.Intn(90_000)) * time.Millisecond
		case 3: // around the wheels' borders
			base := []time.Duration{time.Second, time.Minute, time.Hour, 60 * time.Minute, 12 * time.Hour, 13 * time.Hour}[r.Intn(6)]
			d = base*time.Duration(1+r.Intn(3)) + time.Duration(r.Intn(2400)-1200)*time.Millisecond
		case 4:
			d = time.Duration(r.Intn(4)) * []time.Duration{time.Second, time.Minute, time.Hour}[r.Intn(3)]
		case 5:
			d = time.Duration(r.Int63n(int64(time.Hour)))
		default:
			d = time.Duration(r.Int63n(int64(horizon)))
		}
		if d < horizon {
			return d
		}
	}
}

// scenC17V: virtual time, so that hours pass at once and lateness is exact.
func scenC17V(c *Ctx) {
	r0 := c.Rng
	chaos(0)
	debug.SetGCPercent(800)
	horizon := time.Duration(c.P.Int("minutes", 10)) * time.Minute
	n := c.P.Int("n", 400)
	synctest.Test(c.T, func(*testing.T) {
		hold := make(chan struct{})
		b := &tmrBook{c: c, ids: map[uint32]*tmr{}, late: 200 * time.Millisecond, hold: hold}
		// the wheels' phase differs from the schedulers'
		if c.P.Bool("manual") {
			b.ts = ztimer.NewTimerScheduler()
			b.ts.Start()
			go func() {
				for df := range b.ts.GetTriggerChan() {
					go df.Call()
				}
			}()
		} else {
			b.ts = ztimer.NewAutoExecTimerScheduler()
		}
		start := time.Now()
		b.extra = func(t *tmr, r *rand.Rand) { // a timer made, and one cancelled, by a timer
			if time.Since(start) < horizon {
				q := rand.New(rand.NewSource(int64(t.id)))
				t2 := b.add(q, tmrDelay(q, horizon/2))
				if q.Intn(2) == 0 {
					b.cancel(t2)
				}
			}
		}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				var mine []*tmr
				for i := 0; i < n/4; i++ {
					d := tmrDelay(r, horizon)
					if r.Intn(10) == 0 { // several in one slot
						for k := 0; k < 12; k++ {
							mine = append(mine, b.add(r, d+time.Duration(r.Intn(40))*time.Millisecond))
						}
					}
					t := b.add(r, d)
					mine = append(mine, t)
					c.Eval(fmt.Sprintf("v/%v/%v/%d", d.Round(time.Second), time.Since(start).Round(100*time.Millisecond)%time.Minute, len(mine)%3))
					if r.Intn(4) == 0 {
						x := mine[r.Intn(len(mine))]
						b.cancel(x)
					}
					if r.Intn(3) == 0 { // cancelled at some moment of its life, also while moving between wheels
						t := t
						at := time.Duration(r.Int63n(int64(d.Abs()) + 1000))
						if r.Intn(2) == 0 {
							at = at.Truncate(time.Second) + time.Duration(r.Intn(3)-1)*time.Millisecond
						}
						go func() {
							time.Sleep(at)
							b.cancel(t)
						}()
					}
					if r.Intn(8) == 0 {
						b.ts.CancelTimer(uint32(1<<30 + r.Intn(1000))) // one that is not there
					}
					if r.Intn(3) == 0 {
						time.Sleep(time.Duration(r.Intn(3000)) * time.Millisecond)
					}
				}
			}()
		}
		// a crowd due in one slot
		wg.Add(1)
		burst := r0.Int63()
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(burst))
			d := tmrDelay(r, horizon)
			for i := 0; i < 8000+r.Intn(4000); i++ {
				b.add(r, d)
			}
			c.Count("crowds", 1)
			c.Eval(fmt.Sprintf("crowd/%v", d))
		}()
		wg.Wait()
		end := time.Now().Add(horizon*3/2 + 5*time.Second)
		time.Sleep(time.Until(end))
		b.judge(time.Now())
		// plain timers, without a scheduler
		for i := 0; i < 60; i++ {
			d := tmrDelay(r0, 10*time.Second)
			begin := time.Now()
			due := begin.Add(d)
			ch := make(chan time.Time, 2)
			f := ztimer.NewDelayFunc(func(v ...interface{}) { ch <- time.Now(); panic(v[0]) }, []interface{}{"planned"})
			if i%2 == 0 {
				ztimer.NewTimerAfter(f, d).Run()
			} else {
				ztimer.NewTimerAt(f, due.UnixNano()).Run()
			}
			time.Sleep(d.Abs() + time.Second)
			synctest.Wait()
			if len(ch) != 1 {
				c.Violate("plain", "a plain timer of %v fired %d times", d, len(ch))
			} else if at := <-ch; d > 0 && (at.Before(due.Add(-2*time.Millisecond)) || at.After(due.Add(100*time.Millisecond))) {
				c.Violate("plain-time", "a plain timer of %v fired after %v", d, at.Sub(begin))
			}
			c.Eval(fmt.Sprintf("plain/%v", d))
		}
		c.Finish() // the wheels never end
	})
}

// scenC17R: real time, real contention.
func scenC17R(c *Ctx) {
	r0 := c.Rng
	chaos(r0.Intn(3))
	hold := make(chan struct{})
	var books []*tmrBook
	var wg sync.WaitGroup
	for k := 0; k < 3; k++ {
		b := &tmrBook{c: c, ids: map[uint32]*tmr{}, late: 5 * time.Second, soft: true, hold: hold, ts: ztimer.NewAutoExecTimerScheduler()}
		books = append(books, b)
		for g := 0; g < 6; g++ {
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				var mine []*tmr
				for i := 0; i < 250; i++ {
					d := time.Duration(r.Intn(2600)) * time.Millisecond
					if r.Intn(8) == 0 {
						d = -d
					}
					mine = append(mine, b.add(r, d))
					if r.Intn(3) == 0 {
						b.cancel(mine[r.Intn(len(mine))])
					}
					if r.Intn(10) == 0 {
						time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
					}
					c.Eval(fmt.Sprintf("r/%v/%d", d, i%5))
				}
			}()
		}
	}
	wg.Wait()
	time.Sleep(3200 * time.Millisecond)
	WaitFor(StallLimit, func() bool {
		for _, b := range books {
			b.mu.Lock()
			for _, t := range b.all {
				if atomic.LoadInt32(&t.fired) == 0 && atomic.LoadInt64(&t.canceled) == 0 {
					b.mu.Unlock()
					return false
				}
			}
			b.mu.Unlock()
		}
		return true
	})
	time.Sleep(200 * time.Millisecond)
	for _, b := range books {
		b.judge(time.Now().Add(time.Minute))
	}
	c.Finish()
}

func init() {
	scenario("c17.v", scenC17V)
	scenario("c17.r", scenC17R)
	register(&Check{
		Property: "C17",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			th := tier == "thorough"
			k := 1
			if th {
				k = 4
			}
			js = append(js, spread("c17.v", Params{"minutes": "3", "n": "1200"}, seed, 2*k, 300*time.Second)...)
			js = append(js, spread("c17.v", Params{"minutes": "80", "n": "1200"}, seed, 2*k, 300*time.Second)...)
			js = append(js, spread("c17.v", Params{"minutes": "150", "n": "1000", "manual": "1"}, seed, k, 300*time.Second)...)
			js = append(js, spread("c17.v", Params{"minutes": "850", "n": "1000"}, seed, k, 600*time.Second)...)
			js = append(js, spread("c17.r", Params{}, seed, 3*k, 120*time.Second)...)
			if th {
				js = append(js, spread("c17.v", Params{"minutes": "1600", "n": "3000"}, seed, 4, 1500*time.Second)...)
			}
			return js
		},
		Parallel: 8,
		MinEvals: 2000,
		Rule:     "one evaluation = one timer created under load, judged by the number, time and arguments of its calls and by its cancellation; in virtual time (exact) or real time; distinct = (delay, phase, load)",
	})
}
