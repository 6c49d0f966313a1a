package harness

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zasync_op"
)

// C22: asynchronous operations of one key run once, in order, one at a time.

// opKey is the monitor of one key. Its plain fields are only touched by operations of the
// key, which zinx promises to run one after the other: the race detector checks that this
// includes their memory effects.
type opKey struct {
	key      int
	plain    int
	last     map[int]int // submitter -> its last operation that ran
	maxStart int64
	maxWho   string
	inside   int32
	ran      int64
	accepted int64
}

type c22op struct {
	who, seq   int
	start, end int64
	runs       int32
}

type c22 struct {
	c     *Ctx
	clock int64
	what  string
	nap   func()
}

func (x *c22) tick() int64 { return atomic.AddInt64(&x.clock, 1) }

func (x *c22) submit(k *opKey, who, seq int, then func()) {
	o := &c22op{who: who, seq: seq, end: math.MaxInt64}
	o.start = x.tick()
	atomic.AddInt64(&k.accepted, 1)
	zasync_op.Process(k.key, func() {
		if n := atomic.AddInt32(&k.inside, 1); n != 1 {
			x.c.Violate("overlap", "%s: %d operations of key %d run at once", x.what, n, k.key)
		}
		if n := atomic.AddInt32(&o.runs, 1); n != 1 {
			x.c.Violate("twice", "%s: an operation of key %d ran %d times", x.what, k.key, n)
		}
		k.plain++
		if l, ok := k.last[o.who]; ok && o.seq <= l {
			x.c.Violate("order", "%s: key %d: operation %d of submitter %d ran after its operation %d", x.what, k.key, o.seq, o.who, l)
		}
		k.last[o.who] = o.seq
		if e := atomic.LoadInt64(&o.end); e < k.maxStart {
			x.c.Violate("real-order", "%s: key %d: operation %d of submitter %d was handed in before %s and ran after it", x.what, k.key, o.seq, o.who, k.maxWho)
		}
		if o.start > k.maxStart {
			k.maxStart, k.maxWho = o.start, fmt.Sprintf("%d of %d", o.seq, o.who)
		}
		x.c.Event(1)
		x.nap()
		atomic.AddInt32(&k.inside, -1)
		atomic.AddInt64(&k.ran, 1) // before the panic, which ends the operation
		if then != nil {
			then()
		}
	})
	atomic.StoreInt64(&o.end, x.tick())
}

func c22Keys(r *rand.Rand) []int {
	base := r.Intn(1 << 20)
	n := 1 + r.Intn(12)
	seen := map[int]bool{}
	var ks []int
	add := func(k int) {
		if !seen[k] {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	for i := 0; i < n; i++ {
		switch r.Intn(8) {
		case 0:
			add(-(base + i))
		case 1:
			add(base + i + 2048*r.Intn(5))
		case 2:
			add([]int{math.MinInt, math.MaxInt, math.MinInt + 1, math.MinInt32, math.MaxInt32, 0, -1, 2047, 2048, -2048}[r.Intn(10)])
		default:
			add(base + i)
		}
	}
	return ks
}

func scenC22(c *Ctx) {
	r0 := c.Rng
	for round := 0; round < c.N(120, 600) && c.Violations() == 0; round++ {
		ks := c22Keys(r0)
		subs, per := 1+r0.Intn(10), 20+r0.Intn(140) // fewer than a queue holds: nested operations must not wait
		every := r0.Intn(8)                         // panics
		x := &c22{c: c, nap: napper(c, 3, 200*time.Microsecond)}
		x.what = fmt.Sprintf("keys=%d submitters=%d each=%d panics=1/%d", len(ks), subs, per, every)
		keys := make([]*opKey, len(ks))
		for i, k := range ks {
			keys[i] = &opKey{key: k, last: map[int]int{}}
		}
		var wg sync.WaitGroup
		gate := make(chan struct{})
		var panics, nested int64
		for s := 0; s < subs; s++ {
			s := s
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				<-gate // the first operation of a key is handed in by many at once
				for i := 0; i < per; i++ {
					k := keys[r.Intn(len(keys))]
					if i == 0 {
						k = keys[0]
					}
					var then func()
					switch {
					case every > 0 && r.Intn(every) == 0:
						kind := r.Uint32()
						atomic.AddInt64(&panics, 1)
						then = func() { blowUp(kind) }
					case r.Intn(20) == 0: // an operation that hands in another one
						j := keys[r.Intn(len(keys))]
						id, seq := 1000+s, i
						then = func() { x.submit(j, id, seq, nil) }
						if j.key != k.key { // two operations of different keys hand in to j in no fixed order
							id = 1000000 + s*10000 + i
						}
						atomic.AddInt64(&nested, 1)
					}
					x.submit(k, s, i, then)
					if r.Intn(30) == 0 {
						runtime.Gosched()
					}
					if r.Intn(50) == 0 {
						zasync_op.Process(k.key, nil) // nothing to do
					}
				}
			}()
		}
		close(gate)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(StallLimit):
			c.Stall("stuck", "%s: submitters do not come to an end; %s", x.what, Stacks())
			return
		}
		for _, k := range keys {
			if !WaitFor(StallLimit, func() bool {
				a := atomic.LoadInt64(&k.accepted)
				return atomic.LoadInt64(&k.ran) == a && atomic.LoadInt64(&k.accepted) == a
			}) {
				c.Stall("lost", "%s: key %d: %d of %d operations ran", x.what, k.key, atomic.LoadInt64(&k.ran), atomic.LoadInt64(&k.accepted))
				return
			}
		}
		c.Count("panics", panics)
		c.Count("nested", nested)
		for i := 0; i < subs; i++ {
			c.Eval(fmt.Sprintf("mix/%d/%d/%d/%d", len(ks), subs, per, every))
		}
	}
	if atomic.LoadInt64(&c.events) < 5000 {
		c.Inconclusive("only %d operations observed", c.events)
	}
}

// scenC22Block: keys whose operation waits hold up only themselves.
func scenC22Block(c *Ctx) {
	r := c.Rng
	for round := 0; round < c.N(60, 200) && c.Violations() == 0; round++ {
		base := r.Intn(2000) + 2048*r.Intn(3)
		nb, nf := 1+r.Intn(10), 1+r.Intn(30)
		x := &c22{c: c, nap: func() {}, what: fmt.Sprintf("blocked=%d free=%d", nb, nf)}
		gate := make(chan struct{})
		var blocked, free []*opKey
		for i := 0; i < nb; i++ {
			k := &opKey{key: base + 2*i, last: map[int]int{}}
			blocked = append(blocked, k)
			for j := 0; j < 1+r.Intn(50); j++ {
				x.submit(k, 0, j, func() { <-gate })
			}
		}
		want := 20 + r.Intn(100)
		for i := 0; i < nf; i++ {
			key := base + 2*i + 1
			if i >= nb {
				key = base + 2*nb + i
			}
			if (base+2*nb+nf)/2048 != base/2048 {
				key = base + 2*i + 1 // no two keys share a worker, also around a multiple of 2048
			}
			if r.Intn(2) == 0 && key != 0 {
				key = -key
			}
			free = append(free, &opKey{key: key, last: map[int]int{}})
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			for j := 0; j < want; j++ {
				for _, k := range free {
					then := func() {}
					if j%9 == 8 {
						then = func() { panic("planned") }
					}
					x.submit(k, 0, j, then)
				}
			}
		}()
		ok := WaitFor(StallLimit, func() bool {
			for _, k := range free {
				if atomic.LoadInt64(&k.ran) < int64(want) {
					return false
				}
			}
			return true
		})
		if !ok {
			c.Stall("held-up", "%s: operations of free keys wait for those of blocked keys; %s", x.what, Stacks())
			return
		}
		<-done
		for _, k := range blocked {
			if g := atomic.LoadInt64(&k.ran); g > 1 {
				c.Violate("overtook", "%s: key %d: %d operations ran while the first one waits", x.what, k.key, g)
			}
		}
		close(gate)
		for _, k := range blocked {
			if !WaitFor(StallLimit, func() bool { return atomic.LoadInt64(&k.ran) == atomic.LoadInt64(&k.accepted) }) {
				c.Stall("lost", "%s: key %d: %d of %d operations ran", x.what, k.key, atomic.LoadInt64(&k.ran), atomic.LoadInt64(&k.accepted))
				return
			}
		}
		c.Count("blocked_keys", int64(nb))
		c.Eval(fmt.Sprintf("block/%d/%d/%d", nb, nf, base%2048))
	}
}

// scenC22Deep: more operations than the queue holds.
func scenC22Deep(c *Ctx) {
	r := c.Rng
	for round := 0; round < c.N(15, 60) && c.Violations() == 0; round++ {
		x := &c22{c: c, nap: func() {}}
		k := &opKey{key: r.Intn(1 << 30), last: map[int]int{}}
		gate := make(chan struct{})
		n := 5000 + r.Intn(3000)
		x.what = fmt.Sprintf("deep=%d", n)
		x.submit(k, 0, 0, func() { <-gate })
		var wg sync.WaitGroup
		for s := 1; s <= 3; s++ {
			s := s
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n/3; i++ {
					x.submit(k, s, i, nil)
				}
			}()
		}
		time.Sleep(time.Duration(5+r.Intn(30)) * time.Millisecond) // let the queue fill
		if g := atomic.LoadInt64(&k.ran); g > 1 {
			c.Violate("overtook", "key %d: %d operations ran while the first one waits", k.key, g)
		}
		c.Count("deep_waiting", atomic.LoadInt64(&k.accepted))
		close(gate)
		want := int64(n/3*3 + 1)
		if !WaitFor(StallLimit, func() bool { return atomic.LoadInt64(&k.ran) == want }) {
			c.Stall("lost", "%s: %d of %d operations ran", x.what, atomic.LoadInt64(&k.ran), want)
			return
		}
		wg.Wait()
		c.Eval(fmt.Sprintf("deep/%d/%d", n, round))
	}
}

func init() {
	scenario("c22.mix", scenC22)
	scenario("c22.block", scenC22Block)
	scenario("c22.deep", scenC22Deep)
	register(&Check{
		Property: "C22",
		Jobs: func(tier string, seed int64) []Job {
			j := spread("c22.mix", nil, seed, byTier(tier, 4, 16), 4*time.Minute)
			j = append(j, spread("c22.block", nil, seed, byTier(tier, 2, 8), 3*time.Minute)...)
			return append(j, spread("c22.deep", nil, seed, byTier(tier, 1, 4), 3*time.Minute)...)
		},
		Parallel: 7,
		Rule:     "one evaluation = one submitter's operations on random keys (negative, extreme, colliding; panicking and nested operations), each run checked for once, per-key order by submitter and by real time, and mutual exclusion, or one round with blocked keys, or one with more operations than a queue holds; distinct = (keys, submitters, operations, panic rate)",
	})
}
