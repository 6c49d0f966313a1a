package harness

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/signal"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
)

// C24: stopping a server stops everything it serves.

// c24Server is a further server of this child, on ports of its own: the configuration is
// set once per child, the ports are fields of the server.
func (c *Ctx) c24Server(mode string, n int) *Srv {
	z := znet.NewServer().(*znet.Server)
	s := &Srv{S: z, Mode: mode, c: c, Path: fmt.Sprintf("/r%d", n)}
	switch mode {
	case "tcp", "tls":
		s.Port = c.NextPort()
	case "ws":
		s.Ws = c.NextPort()
	case "both":
		s.Port, s.Ws = c.NextPort(), c.NextPort()
	case "kcp":
		s.Kcp = c.NextPort()
	}
	z.Port, z.WsPort, z.KcpPort, z.WsPath = s.Port, s.Ws, s.Kcp, s.Path
	return s
}

// anyDial connects to one of the server's transports.
func (s *Srv) anyDial(r *rand.Rand) (*Wire, error) {
	if s.Mode == "both" && r.Intn(2) == 0 {
		return dialWSAt(s.Ws, s.Path)
	}
	return s.Dial()
}

func (s *Srv) anyListening() bool {
	switch s.Mode {
	case "both":
		return tcpListening(s.Port) || tcpListening(s.Ws)
	}
	return s.listening()
}

// freePorts reports whether the server's ports can be listened on by others.
func (s *Srv) freePorts() error {
	for _, p := range []int{s.Port, s.Ws} {
		if p != 0 {
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
			if err != nil {
				return err
			}
			l.Close()
		}
	}
	if s.Kcp != 0 {
		u, err := net.ListenPacket("udp", fmt.Sprintf("127.0.0.1:%d", s.Kcp))
		if err != nil {
			return err
		}
		u.Close()
	}
	return nil
}

func scenC24(c *Ctx) {
	mode, wm, max := c.P.Str("mode", "tcp"), c.P.Str("wm", zconf.WorkerModeHash), c.P.Int("max", 300)
	c.Configure(mode, func(g *zconf.Config) {
		g.WorkerMode, g.WorkerPoolSize, g.MaxConn = wm, uint32(c.P.Int("pool", 4)), max
		g.MaxWorkerTaskLen, g.MaxMsgChanLen = 16, 8
		g.IOReadBuffSize = 512
		g.MaxPacketSize = 1 << 20
	})
	froms := []string{"outside", "handler", "start-hook", "stop-hook", "outside", "at-once"}
	var ends []func()
	for round := 0; round < c.N(12, 20) && c.Violations() == 0; round++ {
		chaos(c.Rng.Intn(4))
		ends = append(ends, c24Round(c, mode, wm, max, froms[(round+int(c.Seed))%len(froms)], round))
	}
	chaos(0)
	for _, f := range ends { // also later nothing may have come back
		f()
	}
	// nothing goes on serving: no listening, accepting or starting of connections is left running
	left := func() (l []string) {
		for _, g := range strings.Split(rawStacks(), "\n\n") {
			body, _, _ := strings.Cut(g, "created by")
			if strings.Contains(body, "zinx/znet.(*Server).") {
				l = append(l, g)
			}
		}
		return
	}
	if c.Violations() == 0 && !WaitFor(StallLimit, func() bool { return len(left()) == 0 }) {
		if l := left(); len(l) > 0 {
			c.Stall("still-running", "%s/%s: %d goroutines of stopped servers are still at work:\n%s", mode, wm, len(l), clip(strings.Join(l, "\n\n"), 2500))
		}
	}
}

func c24Round(c *Ctx, mode, wm string, max int, from string, round int) func() {
	r0 := c.Rng
	what := fmt.Sprintf("%s/%s/max=%d/stopped from %s", mode, wm, max, from)
	s := c.c24Server(mode, round)
	m := &lifeMon{c: c, what: what, srv: s, byKey: func(k ziface.IConnection) string { return portOf(k.RemoteAddrString()) }}
	stopped := make(chan struct{})
	var once sync.Once
	var called int32
	stop := func() { // Stop is called once, from wherever the round has it
		once.Do(func() {
			atomic.StoreInt32(&called, 1)
			s.S.Stop()
			c.Event(1)
			if err := s.freePorts(); err != nil {
				c.Violate("port-now", "%s: a port is still held when Stop returns: %v", what, err)
			}
			close(stopped)
		})
	}
	var armed int32
	arm := func(where string) {
		if where == from && atomic.CompareAndSwapInt32(&armed, 1, 2) {
			stop()
		}
	}
	s.S.SetOnConnStart(func(k ziface.IConnection) { m.onStart(k); arm("start-hook") })
	s.S.SetOnConnStop(func(k ziface.IConnection) { m.onStop(k); arm("stop-hook") })
	s.S.AddRouter(1, &funcRouter{f: func(q ziface.IRequest) { // echo
		arm("handler")
		q.GetConnection().SendMsg(1, q.GetData())
		c.Event(1)
	}})
	s.S.AddRouter(2, &funcRouter{f: func(q ziface.IRequest) { // busy
		time.Sleep(30 * time.Millisecond)
		arm("handler")
	}})
	s.S.AddRouter(3, &funcRouter{f: func(q ziface.IRequest) { // more than the peer reads
		k := q.GetConnection()
		go func() {
			for k.SendMsg(5, make([]byte, 60000)) == nil {
			}
		}()
		go func() {
			for i := 0; i < 200 && k.IsAlive(); i++ {
				k.SendBuffMsg(5, make([]byte, 3000))
			}
		}()
	}})
	var quit int32
	var wg sync.WaitGroup
	var wmu sync.Mutex
	var wires []*Wire
	if from == "at-once" { // before it even listens
		s.S.Start()
		if d := r0.Intn(3); d > 0 {
			time.Sleep(time.Duration(r0.Intn(1500*d)) * time.Microsecond)
		}
	} else {
		s.Start()
	}
	peer := func(kind int, seed int64) {
		defer wg.Done()
		r := rand.New(rand.NewSource(seed))
		if kind == 5 { // keeps connecting
			for atomic.LoadInt32(&quit) == 0 {
				w, err := s.anyDial(r)
				if err != nil {
					time.Sleep(time.Millisecond)
					continue
				}
				w.Write(tlv(1, body(5, 0, 20)))
				wmu.Lock()
				wires = append(wires, w)
				wmu.Unlock()
				if mode == "kcp" || r.Intn(3) > 0 {
					time.Sleep(time.Duration(r.Intn(4)) * time.Millisecond)
				}
				if r.Intn(4) == 0 {
					w.Reset()
				}
			}
			return
		}
		w, err := s.anyDial(r)
		if err != nil {
			return
		}
		wmu.Lock()
		wires = append(wires, w)
		wmu.Unlock()
		switch kind {
		case 0: // idle
			w.Write(tlv(1, body(0, 0, 12)))
		case 1, 2: // chatter
			go func() {
				b := make([]byte, 4096)
				for {
					if _, err := w.Read(b); err != nil {
						return
					}
				}
			}()
			for i := uint32(0); atomic.LoadInt32(&quit) == 0; i++ {
				if _, err := w.Write(tlv(1, body(1, i, 12+r.Intn(300)))); err != nil {
					return
				}
				if i%16 == 0 {
					time.Sleep(time.Millisecond)
				}
			}
		case 3: // keeps the handlers busy
			for i := uint32(0); i < 6 && atomic.LoadInt32(&quit) == 0; i++ {
				w.Write(tlv(2, body(2, i, 12)))
			}
		case 4: // does not read
			w.Write(tlv(3, body(3, 0, 12)))
		}
	}
	for i := 0; i < 24; i++ {
		wg.Add(1)
		kind := i % 6
		if kind == 5 && i/6 > 1 {
			kind = 1
		}
		go peer(kind, r0.Int63())
	}
	if from != "at-once" {
		if mode != "kcp" {
			WaitFor(time.Second, func() bool { return atomic.LoadInt64(&m.all) > 3 })
		}
		time.Sleep(time.Duration(r0.Intn(60000)) * time.Microsecond)
	}
	atomic.StoreInt32(&armed, 1)
	if from == "outside" || from == "at-once" {
		go stop()
	} else if !WaitFor(300*time.Millisecond, func() bool { return atomic.LoadInt32(&called) == 1 }) {
		go stop() // nothing of that kind happened any more
	}
	select {
	case <-stopped:
	case <-time.After(StallLimit):
		c.Stall("stop-hangs", "%s: Stop did not return within %s\n%s", what, StallLimit, clip(Stacks(), 3500))
		c.Finish()
	}
	if from == "at-once" { // it may come to listen only now, but not stay
		time.Sleep(20 * time.Millisecond)
	}
	if !WaitFor(StallLimit, func() bool { return !s.anyListening() }) {
		c.Stall("port-held", "%s: still listening after Stop has returned\n%s", what, clip(Stacks(), 2500))
	}
	// the storm goes on for a moment against the stopped server
	time.Sleep(time.Duration(5+r0.Intn(20)) * time.Millisecond)
	atomic.StoreInt32(&quit, 1)
	if mode == "kcp" { // a write to the gone server would wait
		wmu.Lock()
		for _, w := range wires {
			w.Close()
		}
		wmu.Unlock()
	}
	wg.Wait()
	for i := 0; i < 4 && mode != "kcp" && c.Violations() == 0; i++ {
		if w, err := s.anyDial(r0); err == nil {
			c.Violate("accepts", "%s: a connection was accepted after the server had stopped", what)
			w.Close()
		}
	}
	var rerr error
	if c.Violations() == 0 && !WaitFor(StallLimit, func() bool { rerr = s.freePorts(); return rerr == nil }) {
		c.Stall("port-held", "%s: the port can not be used again after Stop: %v", what, rerr)
	}
	settled := func() {
		m.all_.Range(func(_, v interface{}) bool {
			if c.Violations() == 0 {
				m.over(v.(*life), "server stopped")
			}
			return true
		})
		if c.Violations() == 0 && !WaitFor(StallLimit, func() bool { return s.S.GetConnMgr().Len() == 0 }) {
			c.Stall("registry", "%s: %d connections still registered after the server has stopped\n%s", what, s.S.GetConnMgr().Len(), clip(Stacks(), 2500))
		}
		m.final()
	}
	settled()
	if mode != "kcp" { // KCP has no end-of-connection to see
		left := time.Now().Add(StallLimit)
		for _, w := range wires {
			w.Deadline(time.Until(left) + time.Second)
			b := make([]byte, 1<<16)
			for {
				if _, err := w.Read(b); err != nil {
					if isTimeout(err) && c.Violations() == 0 {
						c.Stall("peer-open", "%s: a peer's connection is still open after the server has stopped\n%s", what, clip(Stacks(), 2500))
					}
					break
				}
			}
			w.Close()
		}
	} else {
		for _, w := range wires {
			w.Close()
		}
	}
	c.Eval(fmt.Sprintf("%s/%d", what, len(wires)))
	c.Count("connections", m.all)
	c.Sample(map[string]interface{}{"round": what, "peers": len(wires), "served": m.all})
	return func() {
		if c.Violations() == 0 {
			settled()
		}
	}
}

// scenC24Serve: Serve serves until the process is told to end, and is then over; what
// it served ends with Stop.
func scenC24Serve(c *Ctx) {
	mode := c.P.Str("mode", "tcp")
	sigs := make(chan os.Signal, 64) // keeps this child alive
	signal.Notify(sigs, syscall.SIGINT, syscall.SIGTERM)
	c.Configure(mode, func(g *zconf.Config) { g.WorkerPoolSize = 2 })
	for round := 0; round < c.N(3, 12) && c.Violations() == 0; round++ {
		sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[(round+int(c.Seed))%2]
		what := fmt.Sprintf("%s: Serve ended by %v", mode, sig)
		s := c.c24Server(mode, round)
		m := &lifeMon{c: c, what: what, srv: s, byKey: func(k ziface.IConnection) string { return portOf(k.RemoteAddrString()) }}
		s.S.SetOnConnStart(func(k ziface.IConnection) { m.onStart(k) })
		s.S.SetOnConnStop(func(k ziface.IConnection) { m.onStop(k) })
		s.S.AddRouter(1, &funcRouter{f: func(q ziface.IRequest) { q.GetConnection().SendMsg(1, q.GetData()) }})
		back := make(chan struct{})
		go func() {
			s.S.Serve()
			close(back)
		}()
		s.WaitListen()
		var wires []*Wire
		talk := func() {
			w, err := s.anyDial(c.Rng)
			if err != nil {
				c.Stall("not-served", "%s: no connection to a serving server: %v", what, err)
				return
			}
			wires = append(wires, w)
			for i := uint32(0); i < 5; i++ {
				w.Write(tlv(1, body(1, i, 40)))
				b := make([]byte, 8+40)
				w.Deadline(StallLimit)
				if _, err := io.ReadFull(w, b); err != nil {
					c.Stall("not-served", "%s: no answer from a serving server: %v\n%s", what, err, clip(Stacks(), 2500))
					return
				}
				c.Event(1)
			}
		}
		for i := 0; i < 3 && c.Violations() == 0; i++ {
			talk()
			select {
			case <-back:
				c.Violate("serve-returned", "%s: Serve has returned although nobody told it to end", what)
			case <-time.After(time.Duration(100+c.Rng.Intn(200)) * time.Millisecond):
			}
		}
		if c.Violations() > 0 {
			return
		}
		end := time.Now().Add(StallLimit)
		for over := false; !over; {
			syscall.Kill(os.Getpid(), sig)
			select {
			case <-back:
				over = true
			case <-time.After(100 * time.Millisecond):
				if time.Now().After(end) {
					c.Stall("serve-hangs", "%s: Serve has not returned\n%s", what, clip(Stacks(), 2500))
					return
				}
			}
		}
		done := make(chan struct{})
		go func() { s.S.Stop(); close(done) }()
		select {
		case <-done:
		case <-time.After(StallLimit):
			c.Stall("stop-hangs", "%s: Stop did not return within %s\n%s", what, StallLimit, clip(Stacks(), 3500))
			return
		}
		if err := s.freePorts(); err != nil {
			c.Violate("port-now", "%s: a port is still held when Stop returns: %v", what, err)
		}
		m.all_.Range(func(_, v interface{}) bool {
			if c.Violations() == 0 {
				m.over(v.(*life), "server stopped")
			}
			return true
		})
		m.final()
		for _, w := range wires {
			w.Close()
		}
		c.Eval(fmt.Sprintf("serve/%s/%v", mode, sig))
		c.Sample(map[string]interface{}{"round": what, "connections": m.all})
	}
}

func init() {
	scenario("c24.stop", scenC24)
	scenario("c24.serve", scenC24Serve)
	register(&Check{
		Property: "C24",
		Jobs: func(tier string, seed int64) []Job {
			var j []Job
			n := byTier(tier, 1, 4)
			for i, mode := range []string{"tcp", "ws", "kcp", "tls", "both"} {
				wm := []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind}
				for k := 0; k < byTier(tier, 2, 3); k++ {
					j = append(j, spread("c24.stop", Params{"mode": mode, "wm": wm[(i+k)%3]}, seed+int64(k), n, 4*time.Minute)...)
				}
			}
			for _, mode := range []string{"tcp", "ws", "both", "kcp"} { // full, with peers waiting
				j = append(j, spread("c24.stop", Params{"mode": mode, "max": "6"}, seed, n, 4*time.Minute)...)
			}
			for _, mode := range []string{"tcp", "ws", "both", "kcp", "tls"} {
				j = append(j, spread("c24.serve", Params{"mode": mode}, seed, byTier(tier, 1, 3), 4*time.Minute)...)
			}
			return j
		},
		Parallel: 7,
		MinEvals: 100,
		Rule:     "one evaluation = one server of its own ports, loaded with idle, chatting, busy, not reading and constantly connecting peers, stopped at a random moment from outside, a handler or a hook: sockets, ports, hooks, registry and every peer's end observed; distinct = (transport, worker mode, limit, where it is stopped from, number of peers)",
	})
}
