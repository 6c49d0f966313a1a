package harness

import (
	"fmt"
	"math"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aceld/zinx/zutils"
)

// C18: generated identifiers are unique and increasing.

// idLayout is the documented layout: milliseconds, 10 bits of generator, 12 bits of sequence.
func idLayout(id int64) (ms, worker, seq int64) { return id >> 22, id >> 12 & 1023, id & 4095 }

func scenC18(c *Ctx) {
	r0 := c.Rng
	chaos(0)
	// which numbers are accepted
	for _, n := range []int64{-1, -1 << 62, math.MinInt64, 1024, 1025, 4096, 1 << 40, math.MaxInt64, -1024} {
		if w, err := zutils.NewIDWorker(n); err == nil {
			c.Violate("accepted", "generator number %d was accepted", n)
		} else if w != nil {
			c.Violate("accepted", "generator number %d gave an error and a generator", n)
		}
		c.Eval(fmt.Sprintf("refuse/%d", n))
	}
	for n := int64(0); n < 1024; n++ {
		w, err := zutils.NewIDWorker(n)
		if err != nil {
			c.Violate("refused", "generator number %d was refused: %v", n, err)
			continue
		}
		id, err := w.NextID()
		if _, k, _ := idLayout(id); err != nil || k != n || id <= 0 {
			c.Violate("layout", "generator %d: first identifier %d says generator %d (%v)", n, id, k, err)
		}
	}
	rounds := c.N(20, 400)
	var backwards int64
	// as fast as they come, so that a millisecond's 4096 are used up
	for round := 0; round < c.N(8, 60) && c.Violations() == 0; round++ {
		w, err := zutils.NewIDWorker(int64(r0.Intn(1024)))
		if err != nil {
			break
		}
		ids := make([]int64, 60000)
		for i := range ids {
			ids[i], err = w.NextID()
			if err != nil {
				backwards++
			}
		}
		var full int64
		for i, id := range ids {
			if id&4095 == 4095 {
				full++
			}
			if i > 0 && id != 0 && id <= ids[i-1] {
				c.Violate("order", "identifier %d followed %d", id, ids[i-1])
				break
			}
		}
		c.Count("milliseconds_used_up", full)
		c.Count("identifiers", int64(len(ids)))
		c.Eval(fmt.Sprintf("burst/%d", round))
	}
	for round := 0; round < rounds && c.Violations() == 0; round++ {
		gens := 1 + r0.Intn(3)
		base := int64(r0.Intn(1024))
		all := make([][]int64, 0, 32)
		var mu sync.Mutex
		var wg sync.WaitGroup
		procs := []int{1, 2, 4, 8, 16}[r0.Intn(5)]
		per := 40000 / procs
		t0 := time.Now().UnixMilli()
		used := map[int64]bool{}
		for g := 0; g < gens; g++ {
			num := (base + int64(g)*(1+int64(r0.Intn(300)))) % 1024
			if used[num] {
				continue
			}
			used[num] = true
			w, err := zutils.NewIDWorker(num)
			if err != nil {
				c.Violate("refused", "generator number %d was refused: %v", num, err)
				return
			}
			var last int64 // ids drawn before this one began are smaller
			for p := 0; p < procs; p++ {
				seed := r0.Int63()
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := rand.New(rand.NewSource(seed))
					ids := make([]int64, 0, per)
					for i := 0; i < per; i++ {
						floor := atomic.LoadInt64(&last)
						id, err := w.NextID()
						if err != nil { // the real clock went back: refused, which is right
							atomic.AddInt64(&backwards, 1)
							continue
						}
						if id <= floor {
							c.Violate("order", "identifier %d was drawn after %d had been returned (generator %d, %d callers)", id, floor, num, procs)
							return
						}
						for {
							o := atomic.LoadInt64(&last)
							if id <= o || atomic.CompareAndSwapInt64(&last, o, id) {
								break
							}
						}
						if ms, k, _ := idLayout(id); k != num || ms < t0-5000 || ms > time.Now().UnixMilli()+5000 {
							c.Violate("layout", "generator %d drew %d: generator %d, time %d (now %d)", num, id, k, ms, time.Now().UnixMilli())
							return
						}
						ids = append(ids, id)
						if i%512 == 0 && r.Intn(4) == 0 {
							time.Sleep(time.Duration(r.Intn(900)) * time.Microsecond)
						}
					}
					mu.Lock()
					all = append(all, ids)
					mu.Unlock()
				}()
			}
		}
		wg.Wait()
		t1 := time.Now().UnixMilli()
		seen := make(map[int64]struct{}, 60000)
		var full int64
		for _, ids := range all {
			for _, id := range ids {
				if _, dup := seen[id]; dup {
					ms, k, s := idLayout(id)
					c.Violate("twice", "identifier %d (time %d, generator %d, sequence %d) was returned twice (%d callers, %d generators)", id, ms, k, s, procs, gens)
					return
				}
				seen[id] = struct{}{}
				if id&4095 == 4095 {
					full++
				}
				if ms := id >> 22; ms < t0 || ms > t1 {
					atomic.AddInt64(&backwards, 1) // only the clock could do that
				}
			}
		}
		c.Event(len(seen))
		c.Count("identifiers", int64(len(seen)))
		c.Count("milliseconds_used_up", full)
		c.Eval(fmt.Sprintf("real/%d/%d/%d/%d", gens, base, procs, round))
	}
	c.Count("clock_errors", backwards)
}

// scenC18V: virtual time stands still between draws, so the sequence within a
// millisecond is known exactly.
func scenC18V(c *Ctx) {
	r0 := c.Rng
	chaos(0)
	for round := 0; round < c.N(30, 300) && c.Violations() == 0; round++ {
		seed := r0.Int63()
		synctest.Test(c.T, func(*testing.T) {
			r := rand.New(rand.NewSource(seed))
			num := int64(r.Intn(1024))
			w, err := zutils.NewIDWorker(num)
			if err != nil {
				c.Violate("refused", "%v", err)
				return
			}
			var prev int64
			total := 0
			for step := 0; step < 12; step++ {
				n := []int{1, 2, 100, 4095, 4096, 1000 + r.Intn(3000)}[r.Intn(6)]
				procs := 1 + r.Intn(6)
				ids := make([]int64, n)
				var next int64 = -1
				var wg sync.WaitGroup
				for p := 0; p < procs; p++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for {
							i := atomic.AddInt64(&next, 1)
							if i >= int64(n) {
								return
							}
							id, err := w.NextID()
							if err != nil {
								c.Violate("error", "no identifier although the clock did not go back: %v", err)
								return
							}
							ids[i] = id
						}
					}()
				}
				wg.Wait()
				now := time.Now().UnixMilli()
				got := map[int64]bool{}
				lo, hi := int64(math.MaxInt64), int64(0)
				for _, id := range ids {
					ms, k, _ := idLayout(id)
					if k != num || ms != now || id <= prev || got[id] {
						c.Violate("virtual", "at millisecond %d generator %d drew %d (time %d, generator %d, drawn before: %v, last %d)", now, num, id, ms, k, got[id], prev)
						return
					}
					got[id] = true
					lo, hi = min(lo, id), max(hi, id)
				}
				prev = hi
				total += n
				_ = lo
				c.Event(n)
				time.Sleep(time.Duration(1+r.Intn(3)) * time.Millisecond)
				if r.Intn(4) == 0 {
					time.Sleep(time.Duration(r.Intn(1000)) * time.Hour)
				}
			}
			c.Count("identifiers", int64(total))
			c.Eval(fmt.Sprintf("virtual/%d/%x", num, seed))
		})
	}
}

// scenC18B: the clock goes back, by a millisecond up to days, and forward again. Every
// bubble's clock begins at the same date, so a generator that moves from one bubble to
// the next sees its clock go back. It may refuse or go on with larger identifiers;
// it must not repeat one or go down.
func scenC18B(c *Ctx) {
	r0 := c.Rng
	chaos(0)
	for round := 0; round < c.N(100, 2000) && c.Violations() == 0; round++ {
		r := rand.New(rand.NewSource(r0.Int63()))
		num := int64(r.Intn(1024))
		w, err := zutils.NewIDWorker(num)
		if err != nil {
			c.Violate("refused", "%v", err)
			return
		}
		seen := map[int64]bool{}
		var last, refused int64
		var latest time.Time
		for leap := 0; leap < 3; leap++ {
			synctest.Test(c.T, func(*testing.T) {
				// how far this bubble gets before the first draw: the step back is what is left
				if leap == 0 {
					time.Sleep(time.Duration(r.Intn(2000)) * time.Millisecond)
				} else {
					back := []time.Duration{0, time.Millisecond, 2 * time.Millisecond, 3 * time.Millisecond, 5 * time.Millisecond, 6 * time.Millisecond, 11 * time.Millisecond,
						100 * time.Millisecond, time.Second, time.Duration(r.Intn(20)) * time.Millisecond, time.Hour}[r.Intn(11)]
					if d := time.Until(latest.Add(-back)); d > 0 {
						time.Sleep(d)
					}
				}
				for step := 0; step < 16; step++ {
					if time.Now().UnixMilli() == latest.UnixMilli() {
						time.Sleep(time.Millisecond) // what is left of that millisecond's 4096 is not kept here
					}
					for i := []int{1, 1, 2, 5, 1, 2, 40, 4095, 4096}[r.Intn(9)]; i > 0; i-- {
						behind := !latest.IsZero() && time.Now().Before(latest.Truncate(time.Millisecond))
						id, err := w.NextID()
						c.Event(1)
						if err != nil {
							refused++
							if !behind {
								c.Violate("error", "no identifier although the clock is not behind the last one's: %v", err)
								return
							}
							break
						}
						if seen[id] {
							c.Violate("back-twice", "identifier %d was returned again after the clock had gone back", id)
							return
						}
						if id <= last {
							c.Violate("back-order", "identifier %d followed %d after the clock had gone back", id, last)
							return
						}
						if _, k, _ := idLayout(id); k != num {
							c.Violate("layout", "generator %d drew %d, which says generator %d", num, id, k)
							return
						}
						seen[id], last = true, id
						if n := time.Now(); n.After(latest) {
							latest = n
						}
					}
					time.Sleep(time.Duration(1+r.Intn(2)) * time.Millisecond)
				}
			})
			if c.Violations() > 0 {
				return
			}
		}
		c.Count("identifiers", int64(len(seen)))
		c.Count("refused_clock_back", refused)
		c.Eval(fmt.Sprintf("back/%d/%d", num, round))
	}
}

func init() {
	scenario("c18.b", scenC18B)
	scenario("c18", scenC18)
	scenario("c18.v", scenC18V)
	register(&Check{
		Property: "C18",
		Jobs: func(tier string, seed int64) []Job {
			k := byTier(tier, 1, 6)
			js := spread("c18", Params{}, seed, 3*k, 300*time.Second)
			js = append(js, spread("c18", Params{"plain": "1"}, seed, 3*k, 300*time.Second)...)
			js = append(js, spread("c18.b", Params{}, seed, 2*k, 300*time.Second)...)
			return append(js, spread("c18.v", Params{}, seed, 2*k, 300*time.Second)...)
		},
		Parallel: 3,
		MinEvals: 60,
		Rule:     "one evaluation = one round of concurrent draws from one to three generators, all compared for uniqueness, order and layout (milliseconds whose 4096 identifiers were used up are counted), or one sequence of draws with the clock under control, standing still or going back; distinct = (generators, callers, round)",
	})
}
