package harness

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
)

// C08: never more than MaxConn connections, and a closed one always makes room.

func scenC08(c *Ctx) {
	mode, wm := c.P.Str("mode", "tcp"), c.P.Str("wm", zconf.WorkerModeHash)
	r0 := c.Rng
	max := 1 + r0.Intn(9)
	what := fmt.Sprintf("%s/%s/maxconn=%d", mode, wm, max)
	var live, peak, started int64
	var open sync.Map
	chaos(1 + r0.Intn(3))
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.MaxConn, g.WorkerMode, g.WorkerPoolSize = max, wm, uint32(1+r0.Intn(max))
		g.MaxWorkerTaskLen = 4
	}, func(s ziface.IServer) {
		s.AddRouter(1, &funcRouter{f: func(q ziface.IRequest) {}})
		s.AddRouter(2, &funcRouter{f: func(q ziface.IRequest) { q.GetConnection().Stop() }})
		s.SetOnConnStart(func(k ziface.IConnection) {
			n := atomic.AddInt64(&live, 1)
			atomic.AddInt64(&started, 1)
			for {
				p := atomic.LoadInt64(&peak)
				if n <= p || atomic.CompareAndSwapInt64(&peak, p, n) {
					break
				}
			}
			if n > int64(max) {
				c.Violate("too-many", "%s: %d connections are open at the same time", what, n)
			}
			open.LoadOrStore(portOf(k.RemoteAddrString()), k)
			c.Event(1)
		})
		s.SetOnConnStop(func(k ziface.IConnection) { atomic.AddInt64(&live, -1); c.Event(1) })
	}).Start()
	dial := func(r *rand.Rand) (*Wire, error) {
		if mode == "both" && r.Intn(2) == 0 {
			return dialWS(s.Ws)
		}
		return s.Dial()
	}
	more := dial
	if mode == "tls" { // its handshake would wait for a place
		more = func(*rand.Rand) (*Wire, error) { return dialTCP(s.Port) }
	}
	rounds := c.N(5, 40)
	for round := 0; round < rounds && c.Violations() == 0; round++ {
		chaos(1 + r0.Intn(3))
		// storm: more peers than places, coming and going
		var wg sync.WaitGroup
		lanes := max + 2 + r0.Intn(8)
		if mode == "kcp" {
			lanes = max
		}
		for l := 0; l < lanes; l++ {
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for i := 0; i < 6; i++ {
					w, err := dial(r)
					if err != nil {
						time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
						continue
					}
					if r.Intn(3) > 0 || mode == "kcp" {
						w.Write(tlv(1, body(1, 1, 20)))
					}
					time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
					var k ziface.IConnection
					if mode == "kcp" {
						WaitFor(2*time.Second, func() bool { _, ok := open.Load(w.Key()); return ok })
					}
					if v, ok := open.Load(w.Key()); ok {
						k = v.(ziface.IConnection)
					}
					switch x := r.Intn(5); {
					case mode == "kcp" && k != nil:
						k.Stop()
					case x == 0 && k != nil:
						k.Stop()
						k.Stop()
					case x == 1:
						w.Write(tlv(2, body(1, 1, 20)))
						time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
					case x == 2:
						w.Reset()
					}
					w.Close()
				}
			}()
		}
		wg.Wait()
		// burst: all at once on an empty server, held open together
		if mode != "kcp" {
			WaitFor(StallLimit, func() bool { return s.S.GetConnMgr().Len() == 0 })
			gate := make(chan struct{})
			hold := make(chan struct{})
			var bg, dg sync.WaitGroup
			for l := 0; l < lanes+4; l++ {
				seed := r0.Int63()
				bg.Add(1)
				dg.Add(1)
				go func() {
					defer bg.Done()
					r := rand.New(rand.NewSource(seed))
					<-gate
					w, err := dial(r)
					dg.Done()
					<-hold
					if err == nil {
						w.Close()
					}
				}()
			}
			close(gate)
			if mode != "tls" { // a TLS peer waits for its turn in the handshake
				dg.Wait()
			}
			WaitFor(100*time.Millisecond, func() bool { return atomic.LoadInt64(&live) >= int64(max) })
			time.Sleep(20 * time.Millisecond)
			close(hold)
			bg.Wait()
		}
		// every place is free again: exactly max fit, all at once
		if mode == "kcp" { // sessions of late datagrams
			time.Sleep(30 * time.Millisecond)
			s.S.GetConnMgr().ClearConn()
		}
		var ws []*Wire
		for i := 0; i < max && c.Violations() == 0; i++ {
			if mode == "kcp" {
				w := s.MustDial()
				w.Write(tlv(1, body(1, 1, 20)))
				ok := false
				dl := time.Now().Add(StallLimit)
				for !ok && time.Now().Before(dl) {
					ok = WaitFor(500*time.Millisecond, func() bool { _, k := open.Load(w.Key()); return k })
					if !ok { // places taken by sessions nobody holds any more
						s.S.GetConnMgr().Range(func(_ uint64, k ziface.IConnection, _ interface{}) error {
							key := portOf(k.RemoteAddrString())
							mine := false
							for _, x := range ws {
								mine = mine || x.Key() == key
							}
							if !mine && key != w.Key() {
								k.Stop()
							}
							return nil
						}, nil)
					}
				}
				if !ok {
					c.Stall("no-place", "%s: only %d of %d connections fit after the storm", what, i, max)
				}
				ws = append(ws, w)
				continue
			}
			ws = append(ws, s.DialAdmitted(&open))
		}
		if c.Violations() == 0 && mode != "kcp" && atomic.LoadInt64(&live) != int64(max) {
			c.Stall("count", "%s: %d peers hold a connection, %d are open", what, max, atomic.LoadInt64(&live))
		}
		if n := s.S.GetConnMgr().Len(); c.Violations() == 0 && mode != "kcp" && n != max {
			if !WaitFor(StallLimit, func() bool { return s.S.GetConnMgr().Len() == max }) {
				c.Stall("registry-count", "%s: %d peers hold a connection, the registry counts %d", what, max, n)
			}
		}
		// one more must wait (or be turned away)
		x, err := more(r0)
		if err == nil {
			x.Write(tlv(1, body(1, 1, 20)))
			time.Sleep(25 * time.Millisecond)
			if _, in := open.Load(x.Key()); in && atomic.LoadInt64(&live) > int64(max) {
				c.Violate("too-many", "%s: a further peer was admitted to a full server", what)
			}
		}
		for _, w := range ws {
			if mode == "kcp" {
				if v, ok := open.Load(w.Key()); ok {
					v.(ziface.IConnection).Stop()
				}
			}
			w.Close()
		}
		// with TCP it waits in line and gets its turn
		if err == nil && (mode == "tcp") && c.Violations() == 0 {
			if !WaitFor(StallLimit, func() bool { _, in := open.Load(x.Key()); return in }) {
				c.Stall("never-admitted", "%s: a waiting peer was not admitted after places became free", what)
			}
			c.Count("waiting_peers_admitted", 1)
		}
		if err == nil {
			x.Close()
			if v, ok := open.Load(x.Key()); ok && mode == "kcp" {
				v.(ziface.IConnection).Stop()
			}
		}
		c.Eval(fmt.Sprintf("%s/%d/%d", what, lanes, round))
	}
	if mode == "both" && c.Violations() == 0 {
		c08Siege(c, s, what, max, &open)
	}
	c.Count("connections", started)
	if peak == int64(max) {
		c.Count("runs_that_reached_maxconn", 1)
	}
	c.Sample(map[string]interface{}{"config": what, "connections": started, "peak": peak})
	chaos(0)
}

// c08Siege turns away many peers of a full server; it must not hold that against those who come
// when there is room again.
func c08Siege(c *Ctx, s *Srv, what string, max int, open *sync.Map) {
	var held []*Wire
	for i := 0; i < max && c.Violations() == 0; i++ {
		held = append(held, s.DialAdmitted(open))
	}
	var away []net.Conn
	for i := 0; i < 24; i++ {
		nc, err := net.DialTimeout("tcp4", fmt.Sprintf("127.0.0.1:%d", s.Ws), StallLimit)
		if err != nil {
			continue
		}
		fmt.Fprintf(nc, "GET %s HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n", zconf.GlobalObject.WsPath)
		away = append(away, nc)
	}
	time.Sleep(1500 * time.Millisecond) // the listeners wait a second at most before they look again
	for _, w := range held {
		w.Close()
	}
	for _, dialAt := range []func() (*Wire, error){func() (*Wire, error) { return dialTCP(s.Port) }, func() (*Wire, error) { return dialWS(s.Ws) }} {
		if c.Violations() > 0 {
			break
		}
		var w *Wire
		got := make(chan struct{})
		go func() {
			defer close(got)
			WaitFor(StallLimit, func() bool {
				x, err := dialAt()
				if err != nil { // full still
					return false
				}
				w = x
				return WaitFor(StallLimit, func() bool { _, in := open.Load(x.Key()); return in })
			})
		}()
		select {
		case <-got:
		case <-time.After(StallLimit + time.Second):
		}
		if w == nil {
			c.Stall("no-place", "%s: no peer gets in after %d were turned away from the full server", what, len(away))
			return
		}
		if _, in := open.Load(w.Key()); !in {
			c.Stall("no-place", "%s: no peer gets in after %d were turned away from the full server\n%s", what, len(away), clip(Stacks(), 2000))
			return
		}
		c.Eval(fmt.Sprintf("%s/siege/%s", what, w.kind))
		w.Close()
	}
	for _, nc := range away {
		nc.Close()
	}
}

func init() {
	scenario("c08", scenC08)
	register(&Check{
		Property: "C08",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			i := 0
			for _, m := range []string{"tcp", "ws", "both", "tls", "kcp"} {
				n := 4
				if m == "ws" || m == "both" {
					n = 6
				}
				for k := 0; k < n; k++ {
					wm := []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind}[i%3]
					js = append(js, spread("c08", Params{"mode": m, "wm": wm}, seed+int64(i), byTier(tier, 1, 6), 240*time.Second)...)
					i++
				}
			}
			return js
		},
		Parallel: 7,
		MinEvals: 30,
		Rule:     "one evaluation = one round: a storm of more peers than MaxConn coming and going in all ways while hooks count open connections and samplers read the registry, then exactly MaxConn peers must fit, one more must not, and a waiting TCP peer must get its turn; distinct = (transport, worker mode, MaxConn, peers, round)",
	})
}
