package harness

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
)

// C15: a panicking handler stops neither its worker nor its connection.

func blowUp(x uint32) {
	switch x % 6 {
	case 0:
		panic("planned")
	case 1:
		panic(errors.New("planned"))
	case 2:
		var p *inConn
		_ = p.raw[3]
	case 3:
		var a []int
		_ = a[x%2]
	case 4:
		var m map[string]int
		m["x"] = 1
	default:
		panic(struct{ a, b int }{1, 2})
	}
}

type c15 struct {
	m      *inMon
	peer   func(q ziface.IRequest) (uint32, bool)
	nap    func()
	funcs  int64
	funcOK int64
	panics int64
	every  uint32
}

func (x *c15) plan(q ziface.IRequest) (seq uint32, step int) {
	_, seq, _ = parseBody(q.GetData())
	if k := seq % x.every; k < 3 {
		return seq, int(k)
	}
	return seq, -1
}

func (x *c15) at(step int) func(ziface.IRequest) {
	return func(q ziface.IRequest) {
		seq, p := x.plan(q)
		if step == 0 && p == 0 || step == 1 && p != 0 { // observed once per message
			if peer, ok := x.peer(q); ok {
				x.m.handle(q, peer, x.nap)
			}
			if seq%7 == 0 { // something for this connection's worker that fails, too
				k := q.GetConnection()
				if k != nil && k.GetMsgHandler() != nil && atomic.LoadInt64(&x.funcs) >= 0 {
					atomic.AddInt64(&x.funcs, 1)
					go k.GetMsgHandler().SendMsgToTaskQueue(znet.NewFuncRequest(k, func() {
						atomic.AddInt64(&x.funcOK, 1)
						blowUp(seq)
					}))
				}
			}
		}
		if step == p {
			atomic.AddInt64(&x.panics, 1)
			blowUp(seq / x.every)
		}
	}
}

func scenC15(c *Ctx) {
	mode := c.P.Str("mode", "tcp")
	wm := c.P.Str("wm", zconf.WorkerModeHash)
	slices, pool := c.P.Bool("slices"), c.P.Bool("reqpool")
	side := c.P.Str("side", "server")
	r0 := c.Rng
	chaos(r0.Intn(3))
	size := c.P.Int("pool", 1+r0.Intn(3))
	if side == "client" {
		size = 0
	}
	recovery := r0.Intn(2) == 0
	m := &inMon{c: c, ordered: size > 0, serial: size > 0, what: fmt.Sprintf("%s/%s/%s/pool=%d/slices=%v/reqpool=%v/recovery=%v", side, mode, wm, size, slices, pool, recovery)}
	x := &c15{m: m, nap: napper(c, 20, 800*time.Microsecond), every: uint32(4 + r0.Intn(6))}
	if r0.Intn(4) == 0 {
		x.every = 3 // every message fails
	}
	if size == 0 || wm == zconf.WorkerModeDynamicBind { // an extra worker ends with its connection: nothing may be handed to it from outside around then
		x.funcs = -1 << 40
	}
	var total int64
	if side == "client" {
		rs := c.RawServer(mode)
		zconf.GlobalObject.RequestPoolMode = pool
		cl := rs.Client()
		x.peer = func(ziface.IRequest) (uint32, bool) { return 1, true }
		for i := uint32(0); i < c04IDs; i++ {
			cl.AddRouter(msgIDOf(i), &stepRouter{x.at(0), x.at(1), x.at(2)})
		}
		cl.Start()
		select {
		case w := <-rs.C:
			n := c.N(400, 3000)
			stream, _ := peerStream(r0, 1, n, true)
			feed(r0, w, stream, 2)
			k := m.get(1)
			if !WaitCount(StallLimit, int64(n), func() int64 { return atomic.LoadInt64(&k.handled) }) {
				c.Stall("lost", "%s: %d of %d messages handled", m.what, atomic.LoadInt64(&k.handled), n)
			}
			total = int64(n)
			for i := 0; i < 50; i++ {
				c.Eval(fmt.Sprintf("%s/%d", m.what, i))
			}
		case <-time.After(StallLimit):
			c.Stall("connect", "client did not connect")
		}
		c.Count("panics", x.panics)
		return
	}
	var peers, open sync.Map
	x.peer = func(q ziface.IRequest) (uint32, bool) {
		key := portOf(q.GetConnection().RemoteAddrString())
		v, ok := peers.Load(key)
		if !ok && !WaitFor(StallLimit, func() bool { v, ok = peers.Load(key); return ok }) {
			return 0, false
		}
		return v.(uint32), true
	}
	lanes := 5
	gens := c.N(6, 40)
	builtin := slices && recovery && r0.Intn(2) == 0
	if builtin { // comes with the recovery
		c.MakeServer = znet.NewDefaultRouterSlicesServer
	}
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.WorkerMode, g.WorkerPoolSize = wm, uint32(size)
		g.MaxConn = lanes
		if mode == "kcp" {
			g.MaxConn = 300
		}
		g.MaxWorkerTaskLen = []uint32{1, 8, 256}[r0.Intn(3)]
		g.RouterSlicesMode, g.RequestPoolMode = slices, pool
	}, func(s ziface.IServer) {
		if slices && recovery && !builtin {
			s.Use(znet.RouterRecovery)
		}
		for i := uint32(0); i < c04IDs; i++ {
			if slices {
				s.AddRouterSlices(msgIDOf(i), x.at(0), func(q ziface.IRequest) {
					if i%2 == 0 {
						q.RouterSlicesNext()
					}
				}, x.at(1), x.at(2))
			} else {
				s.AddRouter(msgIDOf(i), &stepRouter{x.at(0), x.at(1), x.at(2)})
			}
		}
		s.SetOnConnStart(func(k ziface.IConnection) { open.LoadOrStore(portOf(k.RemoteAddrString()), k) })
	}).Start()
	var src uint32
	var wg sync.WaitGroup
	for l := 0; l < lanes; l++ {
		seed := r0.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			for g := 0; g < gens && c.Violations() == 0; g++ {
				me := atomic.AddUint32(&src, 1)
				n := 10 + r.Intn(60)
				stream, _ := peerStream(r, me, n, false)
				var w *Wire
				if mode == "ws" { // turns peers away while the previous connections are still going
					w = s.DialAdmitted(&open)
				} else {
					w = s.MustDial()
				}
				peers.Store(w.Key(), me)
				if err := feed(r, w, stream, r.Intn(4)); err != nil {
					c.Stall("write", "%s: %v", m.what, err)
				}
				k := m.get(me)
				if !WaitCount(StallLimit, int64(n), func() int64 { return atomic.LoadInt64(&k.handled) }) {
					c.Stall("lost", "%s: %d of %d messages handled after %d panics\n%s", m.what, atomic.LoadInt64(&k.handled), n, atomic.LoadInt64(&x.panics), clip(Stacks(), 2000))
				}
				if v, ok := open.Load(w.Key()); ok && v.(ziface.IConnection).Context().Err() != nil {
					c.Violate("closed", "%s: a panicking handler closed its connection", m.what)
				}
				// the peer sees the connection open, too
				if mode == "tcp" {
					w.Deadline(2 * time.Millisecond)
					var b [1]byte
					if _, err := w.Read(b[:]); err != nil && !isTimeout(err) {
						c.Violate("closed", "%s: the peer's connection was closed after a handler panicked: %v", m.what, err)
					}
				}
				if f := atomic.LoadInt64(&x.funcs); f > 0 && !WaitFor(StallLimit, func() bool { return atomic.LoadInt64(&x.funcOK) >= f }) {
					c.Stall("functions", "%s: %d of %d functions handed to workers ran", m.what, atomic.LoadInt64(&x.funcOK), f)
				}
				w.Close()
				if mode == "kcp" {
					if v, ok := open.Load(w.Key()); ok {
						v.(ziface.IConnection).Stop()
					}
				}
				atomic.AddInt64(&total, int64(n))
				c.Eval(fmt.Sprintf("%s/%d/%d", m.what, n, x.every))
			}
		}()
	}
	wg.Wait()
	c.Count("panics", atomic.LoadInt64(&x.panics))
	c.Count("panicking_functions", atomic.LoadInt64(&x.funcOK))
	c.Count("messages", total)
	chaos(0)
}

func init() {
	scenario("c15", scenC15)
	register(&Check{
		Property: "C15",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			n := byTier(tier, 1, 6)
			i := 0
			for _, m := range []string{"tcp", "ws", "kcp", "tls"} {
				for _, wm := range []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind} {
					for _, sl := range []string{"0", "1"} {
						i++
						if m != "tcp" && tier != "thorough" && i%2 == 0 {
							continue
						}
						js = append(js, spread("c15", Params{"mode": m, "wm": wm, "slices": sl, "reqpool": itoa(i / 2 % 2)}, seed+int64(i), n, 180*time.Second)...)
					}
				}
			}
			for _, sl := range []string{"0", "1"} {
				js = append(js, spread("c15", Params{"mode": "tcp", "pool": "0", "slices": sl, "reqpool": "1"}, seed, n, 180*time.Second)...)
			}
			for _, m := range []string{"tcp", "ws"} {
				js = append(js, spread("c15", Params{"side": "client", "mode": m}, seed, n, 180*time.Second)...)
			}
			return js
		},
		Parallel: 6,
		MinEvals: 300,
		Rule:     "one evaluation = one connection whose handlers panic (six ways, at any step, also functions run by its worker) between ordinary messages, all of which must be handled once, in order, on a connection that stays open; distinct = (side, transport, worker mode, pool, router style, reuse, recovery, messages, panic rate)",
	})
}
