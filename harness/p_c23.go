package harness

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zasync_op"
	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
)

// C23: an asynchronous result's callback runs exactly once, with the result, where the
// connection's messages are handled.

type c23 struct {
	c       *Ctx
	what    string
	serial  bool
	inside  sync.Map // connection -> *c23conn
	handled int64
	called  int64
	want    int64
	nap     func()
	sched   func()
}

// c23conn: its plain field is touched by the handlers and callbacks of one connection only,
// so the race detector checks that these are not concurrent.
type c23conn struct {
	n     int32
	plain int
	conn  ziface.IConnection
}

func (x *c23) of(k ziface.IConnection) *c23conn {
	v, ok := x.inside.Load(k)
	if !ok {
		v, _ = x.inside.LoadOrStore(k, &c23conn{conn: k})
	}
	return v.(*c23conn)
}

func (x *c23) enter(k *c23conn, what string) func() {
	if !x.serial {
		return func() {}
	}
	if n := atomic.AddInt32(&k.n, 1); n != 1 {
		x.c.Violate("overlap", "%s: a %s runs while another handler or callback of its connection does", x.what, what)
	}
	k.plain++
	return func() { k.plain++; atomic.AddInt32(&k.n, -1) }
}

type c23val struct{ msg, i int }

// one result: setters and registrars in one of many orders
func (x *c23) result(k ziface.IConnection, msg int, r *rand.Rand) {
	own := x.of(k)
	res := zasync_op.NewAsyncOpResult(k)
	atomic.AddInt64(&x.want, 1)
	var calls, done int32
	nset, nreg := 1, 1
	plan := r.Intn(8)
	if plan >= 4 {
		nset, nreg = 1+r.Intn(3), 1+r.Intn(3)
	}
	vals := make([]*c23val, nset)
	for i := range vals {
		vals[i] = &c23val{msg, i}
	}
	var firstSet, firstReg int32 = -1, -1 // known first, if the order is certain
	blow := r.Intn(9) == 0
	nilVal := r.Intn(6) == 0
	reg := func(i int) {
		res.OnComplete(func() {
			defer x.enter(own, "callback")()
			x.c.Event(1)
			if n := atomic.AddInt32(&calls, 1); n != 1 {
				x.c.Violate("twice", "%s: plan %d: the callback of one result ran %d times", x.what, plan, n)
			} else {
				defer atomic.AddInt64(&x.called, 1)
			}
			if atomic.AddInt32(&done, 0) < 0 {
				return
			}
			if f := atomic.LoadInt32(&firstReg); f >= 0 && int(f) != i {
				x.c.Violate("other-callback", "%s: plan %d: callback %d ran, %d was registered first", x.what, plan, i, f)
			}
			v := res.GetReturnedObj()
			if nilVal {
				if v != nil {
					x.c.Violate("value", "%s: plan %d: the callback finds %v, nil was set", x.what, plan, v)
				}
				return
			}
			p, ok := v.(*c23val)
			if !ok || p.msg != msg || p != vals[p.i] {
				x.c.Violate("value", "%s: plan %d: the callback finds %v, which nobody set", x.what, plan, v)
			} else if f := atomic.LoadInt32(&firstSet); f >= 0 && p.i != int(f) {
				x.c.Violate("other-value", "%s: plan %d: the callback finds value %d, %d was set first", x.what, plan, p.i, f)
			}
			x.nap()
			if v2 := res.GetReturnedObj(); v2 != v {
				x.c.Violate("value-changed", "%s: plan %d: the result was %v, now %v", x.what, plan, v, v2)
			}
			if blow {
				blowUp(uint32(msg))
			}
		})
	}
	set := func(i int) {
		if nilVal {
			res.SetReturnedObj(nil)
			return
		}
		res.SetReturnedObj(vals[i])
	}
	key := r.Intn(300)
	async := func(f func()) {
		if r.Intn(2) == 0 {
			zasync_op.Process(key, f)
		} else {
			go f()
		}
	}
	switch plan {
	case 0: // as documented: the operation sets, then the handler registers
		async(func() { set(0) })
		x.sched()
		reg(0)
	case 1:
		reg(0)
		async(func() { x.nap(); set(0) })
	case 2: // all in the handler
		set(0)
		reg(0)
	case 3:
		reg(0)
		set(0)
	case 4: // in order, more than one of each, elsewhere
		firstSet, firstReg = 0, 0
		async(func() {
			for i := 0; i < nset; i++ {
				set(i)
			}
			for i := 0; i < nreg; i++ {
				reg(i)
			}
		})
	case 5:
		firstSet, firstReg = 0, 0
		for i := 0; i < nreg; i++ {
			reg(i)
		}
		async(func() {
			for i := 0; i < nset; i++ {
				set(i)
			}
		})
	default: // all at once
		gate := make(chan struct{})
		for i := 0; i < nset; i++ {
			i := i
			go func() { <-gate; set(i) }()
		}
		for i := 0; i < nreg; i++ {
			i := i
			go func() { <-gate; reg(i) }()
		}
		close(gate)
	}
}

// late: connections end while results are being completed: no callback twice, nobody panics.
func (x *c23) late(s *Srv, mode string, open *sync.Map) {
	r := x.c.Rng
	for i := 0; i < x.c.N(30, 200) && x.c.Violations() == 0; i++ {
		var w *Wire
		if mode == "ws" {
			w = s.DialAdmitted(open)
		} else {
			w = s.MustDial()
		}
		if w == nil {
			return
		}
		if mode == "kcp" {
			w.Write(tlv(9999, body(1, 1, 20)))
		}
		var v interface{}
		if !WaitFor(StallLimit, func() (ok bool) { v, ok = open.Load(w.Key()); return }) {
			x.c.Stall("start", "%s: a connection did not start", x.what)
			return
		}
		k := v.(ziface.IConnection)
		time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
		own := x.of(k)
		n := 20 + r.Intn(60)
		calls := make([]int32, n)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for j := 0; j < n; j++ {
			j := j
			res := zasync_op.NewAsyncOpResult(k)
			cb := func() {
				defer x.enter(own, "callback")()
				if m := atomic.AddInt32(&calls[j], 1); m != 1 {
					x.c.Violate("twice", "%s: the callback of a result ran %d times", x.what, m)
				}
				if res.GetReturnedObj() != j {
					x.c.Violate("value", "%s: the callback finds %v, expected %d", x.what, res.GetReturnedObj(), j)
				}
				x.c.Event(1)
			}
			wg.Add(2)
			go func() { defer wg.Done(); <-gate; res.SetReturnedObj(j) }()
			go func() { defer wg.Done(); <-gate; res.OnComplete(cb) }()
		}
		wait := time.Duration(r.Intn(300)) * time.Microsecond
		close(gate)
		time.Sleep(wait)
		if mode == "kcp" || r.Intn(2) == 0 {
			k.Stop()
		}
		w.Close()
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(StallLimit):
			x.c.Stall("late-stuck", "%s: completing a result of an ended connection does not return; %s", x.what, Stacks())
			return
		}
		x.c.Count("late_results", int64(n))
		x.c.Eval(fmt.Sprintf("late/%s/%d", x.what, i))
	}
}

func scenC23(c *Ctx) {
	mode := c.P.Str("mode", "tcp")
	wm := c.P.Str("wm", zconf.WorkerModeHash)
	r0 := c.Rng
	chaos(r0.Intn(3))
	size := c.P.Int("pool", 1+r0.Intn(3))
	qlen := []uint32{1, 4, 64, 1024}[r0.Intn(4)]
	slices := r0.Intn(2) == 0
	x := &c23{c: c, nap: napper(c, 30, 300*time.Microsecond), sched: napper(c, 300, 60*time.Microsecond)}
	x.serial = size > 0
	x.what = fmt.Sprintf("%s/%s/pool=%d/queue=%d/slices=%v", mode, wm, size, qlen, slices)
	var seedN int64 = r0.Int63()
	handler := func(q ziface.IRequest) {
		k := q.GetConnection()
		defer x.enter(x.of(k), "handler")()
		_, seq, ok := parseBody(q.GetData())
		if !ok {
			c.Violate("damaged", "%s: message %x", x.what, clipB(q.GetData()))
			return
		}
		if seq%3 != 2 { // others are ordinary messages
			x.result(k, int(seq), rand.New(rand.NewSource(seedN+int64(seq)*7919)))
		}
		x.nap()
		atomic.AddInt64(&x.handled, 1)
	}
	var hooks int64
	var lateOver int32
	var open sync.Map
	lanes := 5
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.WorkerMode, g.WorkerPoolSize, g.MaxWorkerTaskLen = wm, uint32(size), qlen
		g.MaxConn = lanes
		if mode == "kcp" {
			g.MaxConn = 400
		}
		g.RouterSlicesMode = slices
		g.RequestPoolMode = r0.Intn(2) == 0
	}, func(s ziface.IServer) {
		for i := uint32(0); i < c04IDs; i++ {
			if slices {
				s.AddRouterSlices(msgIDOf(i), handler)
			} else {
				s.AddRouter(msgIDOf(i), onlyMain(handler))
			}
		}
		s.SetOnConnStart(func(k ziface.IConnection) {
			if n := atomic.AddInt64(&hooks, 1); n%3 != 0 && !atomic.CompareAndSwapInt32(&lateOver, 0, 0) {
				x.result(k, int(n), rand.New(rand.NewSource(seedN-n)))
			}
			open.LoadOrStore(portOf(k.RemoteAddrString()), k)
		})
	}).Start()
	var sent int64
	var src uint32
	x.late(s, mode, &open)
	atomic.StoreInt32(&lateOver, 1) // from here on connections stay open until all is over
	for gen := 0; gen < c.N(4, 25) && c.Violations() == 0; gen++ {
		var wires []*Wire
		var wg sync.WaitGroup
		for l := 0; l < lanes; l++ {
			var w *Wire
			if mode == "ws" {
				w = s.DialAdmitted(&open)
			} else {
				w = s.MustDial()
			}
			if w == nil {
				return
			}
			wires = append(wires, w)
			src++
			me, seed := src, r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				n := 30 + r.Intn(150)
				stream, _ := peerStream(r, me, n, false)
				atomic.AddInt64(&sent, int64(n))
				if err := feed(r, w, stream, r.Intn(4)); err != nil {
					c.Stall("write", "%s: %v", x.what, err)
				}
			}()
		}
		wg.Wait()
		if !WaitFor(StallLimit, func() bool { return atomic.LoadInt64(&x.handled) == atomic.LoadInt64(&sent) }) {
			c.Stall("handled", "%s: %d of %d messages handled; %s", x.what, atomic.LoadInt64(&x.handled), sent, Stacks())
			return
		}
		if !WaitFor(StallLimit, func() bool { return atomic.LoadInt64(&x.called) == atomic.LoadInt64(&x.want) }) {
			c.Stall("never", "%s: %d of %d callbacks ran; %s", x.what, atomic.LoadInt64(&x.called), atomic.LoadInt64(&x.want), Stacks())
			return
		}
		time.Sleep(5 * time.Millisecond) // a second call would come now
		for _, w := range wires {
			if v, ok := open.Load(w.Key()); ok && v.(ziface.IConnection).Context().Err() != nil {
				c.Violate("closed", "%s: a connection was closed", x.what)
			}
			w.Close()
			if v, ok := open.Load(w.Key()); ok && mode == "kcp" {
				v.(ziface.IConnection).Stop()
			}
		}
		for i := 0; i < 20; i++ {
			c.Eval(fmt.Sprintf("%s/%d/%d", x.what, gen, i))
		}
	}
	c.Count("results", x.want)
	c.Count("callbacks", atomic.LoadInt64(&x.called))
	c.Count("messages", sent)
	chaos(0)
}

func init() {
	scenario("c23", scenC23)
	register(&Check{
		Property: "C23",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			n := byTier(tier, 2, 8)
			for i, m := range []string{"tcp", "ws", "kcp"} {
				for k, wm := range []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind} {
					js = append(js, spread("c23", Params{"mode": m, "wm": wm}, seed+int64(10*i+k), n, 180*time.Second)...)
				}
			}
			return append(js, spread("c23", Params{"mode": "tcp", "pool": "0"}, seed, n, 180*time.Second)...)
		},
		Parallel: 6,
		MinEvals: 300,
		Rule:     "one evaluation = a twentieth of one generation of connections whose handlers start asynchronous results in eight orders of setting and registering (in the handler, in asynchronous workers, from several goroutines at once) between ordinary messages, or one connection that ends while its results are being completed; distinct = (transport, worker mode, pool, queue length, router style, generation)",
	})
}
