package harness

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
)

// C05: in the Bind and DynamicBind worker modes a blocked handler of one connection
// never holds up another connection, for up to MaxConn connections, whatever came before.

type barrier struct {
	mu      sync.Mutex
	n       int
	arrived map[uint32]bool
	done    chan struct{}
}

func scenC05(c *Ctx) {
	mode := c.P.Str("mode", "tcp")
	wm := c.P.Str("wm", zconf.WorkerModeBind)
	chaos(c.Rng.Intn(4))
	r0 := c.Rng
	lanes := 3 + r0.Intn(8)
	maxConn := lanes
	rounds := c.N(24, 150)
	if mode == "kcp" { // room for the sessions of peers that are gone, ended after every round
		maxConn = lanes*8 + 10
	}
	size := 1 + r0.Intn(lanes)
	taskLen := []uint32{1, 4, 64}[r0.Intn(3)]
	beat := r0.Intn(2) == 0
	what := fmt.Sprintf("%s/%s/maxconn=%d/pool=%d/queue=%d/heartbeat=%v", mode, wm, lanes, size, taskLen, beat)
	var cur atomic.Value // *barrier
	var quick int64
	var open sync.Map
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.WorkerMode, g.MaxConn, g.WorkerPoolSize, g.MaxWorkerTaskLen = wm, maxConn, uint32(size), taskLen
		g.RouterSlicesMode = c.P.Bool("slices")
		g.RequestPoolMode = c.P.Bool("reqpool")
		g.HeartbeatMax = 3600
	}, func(s ziface.IServer) {
		block := func(q ziface.IRequest) {
			lane, _, ok := parseBody(q.GetData())
			if !ok {
				c.Violate("damaged", "%s: damaged message", what)
				return
			}
			b := cur.Load().(*barrier)
			b.mu.Lock()
			b.arrived[lane] = true
			if len(b.arrived) == b.n {
				close(b.done)
			}
			b.mu.Unlock()
			c.Event(1)
			select {
			case <-b.done:
			case <-time.After(StallLimit):
			}
		}
		fast := func(q ziface.IRequest) {
			if n := atomic.AddInt64(&quick, 1); n%17 == 0 {
				time.Sleep(300 * time.Microsecond)
			}
			c.Event(1)
		}
		if c.P.Bool("slices") {
			s.AddRouterSlices(1, block)
			s.AddRouterSlices(2, fast)
		} else {
			s.AddRouter(1, &funcRouter{f: block})
			s.AddRouter(2, &funcRouter{f: fast})
		}
		if beat {
			s.StartHeartBeat(150 * time.Millisecond)
		}
		s.SetOnConnStart(func(k ziface.IConnection) { open.LoadOrStore(portOf(k.RemoteAddrString()), k) })
	}).Start()
	stop := func(w *Wire) {
		w.Close()
		if mode == "kcp" {
			var v interface{}
			WaitFor(2*time.Second, func() bool { var ok bool; v, ok = open.Load(w.Key()); return ok })
			if v != nil {
				v.(ziface.IConnection).Stop()
			}
		}
	}
	kept := make([]*Wire, lanes) // connections that live through several rounds
	for round := 0; round < rounds && c.Violations() == 0; round++ {
		b := &barrier{n: lanes, arrived: map[uint32]bool{}, done: make(chan struct{})}
		cur.Store(b)
		var wg sync.WaitGroup
		for l := 0; l < lanes; l++ {
			seed := r0.Int63()
			l, lane := l, uint32(l+1)
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				// churn: connections that come and go, some with messages still queued
				for k := r.Intn(4); k > 0 && kept[l] == nil; k-- {
					w := s.DialAdmitted(&open)
					var buf []byte
					for j := r.Intn(40); j >= 0; j-- {
						buf = append(buf, tlv(2, body(lane, uint32(j), 12+r.Intn(30)))...)
					}
					w.Write(buf)
					switch r.Intn(3) {
					case 0:
						time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
					case 1:
						if v, ok := open.Load(w.Key()); ok {
							v.(ziface.IConnection).Stop()
						}
					}
					if r.Intn(4) == 0 {
						w.Reset()
					}
					stop(w)
				}
				w := kept[l]
				if w == nil {
					w = s.DialAdmitted(&open)
				} else {
					c.Count("kept_connections", 1)
				}
				kept[l] = nil
				if r.Intn(3) == 0 {
					kept[l] = w
				} else {
					defer stop(w)
				}
				var buf []byte
				for j := r.Intn(5); j > 0; j-- {
					buf = append(buf, tlv(2, body(lane, uint32(j), 20))...)
				}
				buf = append(buf, tlv(1, body(lane, 0, 20))...)
				w.Write(buf)
				select {
				case <-b.done:
				case <-time.After(StallLimit - 2*time.Second):
					b.mu.Lock()
					n := len(b.arrived)
					b.mu.Unlock()
					c.Stall("held-up", "%s: round %d: %d connections are open and each has a message whose handler waits for the others, but only %d handlers run\n%s", what, round, lanes, n, clip(Stacks(), 2000))
				}
			}()
		}
		wg.Wait()
		if mode == "kcp" { // end the sessions nobody holds any more
			keep := map[string]bool{}
			for _, w := range kept {
				if w != nil {
					keep[w.Key()] = true
				}
			}
			if !WaitFor(StallLimit, func() bool {
				n := 0
				s.S.GetConnMgr().Range(func(_ uint64, k ziface.IConnection, _ interface{}) error {
					if !keep[portOf(k.RemoteAddrString())] {
						n++
						go k.Stop()
					}
					return nil
				}, nil)
				return n == 0
			}) {
				c.Stall("not-closed", "%s: connections remain after Stop\n%s", what, clip(Stacks(), 2000))
			}
		}
		c.Eval(fmt.Sprintf("%s/%d", what, round))
		c.Count("barriers", 1)
	}
	c.Count("quick_messages", atomic.LoadInt64(&quick))
	c.Sample(map[string]interface{}{"config": what, "rounds": rounds})
	chaos(0)
}

func init() {
	scenario("c05", scenC05)
	register(&Check{
		Property: "C05",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			i := 0
			for _, m := range []string{"tcp", "ws", "kcp", "tls"} {
				for _, wm := range []string{zconf.WorkerModeBind, zconf.WorkerModeDynamicBind} {
					n := 3
					if m == "kcp" || m == "tls" {
						n = 2
					}
					js = append(js, spread("c05", Params{"mode": m, "wm": wm, "slices": itoa(i % 2), "reqpool": itoa(i / 2 % 2)}, seed+int64(i), byTier(tier, n, 20), 240*time.Second)...)
					i++
				}
			}
			return js
		},
		Parallel:    7,
		MinEvals:    40,
		Rule:        "one evaluation = one barrier round: after random connection churn, MaxConn connections are open and the handler of each waits until all the others' handlers run; distinct = (transport, worker mode, MaxConn, pool size, queue length, round)",
		Assumptions: []string{"a stall verdict means 23 s without progress, confirmed by re-running the same job"},
	})
}
