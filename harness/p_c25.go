package harness

import (
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/gorilla/websocket"
)

// C25: a client connects, restarts and stops cleanly at any moment.

// cliSrv is a scripted server: it may answer late, drop or refuse a connection, or be absent.
type cliSrv struct {
	c    *Ctx
	mode string
	port int
	// script says what happens to the n-th connection: "serve", "late", "drop", "refuse"
	script func(n int) string

	mu     sync.Mutex
	l      net.Listener
	n      int
	open   map[net.Conn]bool
	hb     int64
	served int64
	cur    *Wire
}

func (s *cliSrv) up() {
	l, err := net.Listen("tcp4", fmt.Sprintf("127.0.0.1:%d", s.port))
	if err != nil {
		s.c.Inconclusive("listen: %v", err)
		s.c.Finish()
	}
	s.mu.Lock()
	s.l = l
	s.mu.Unlock()
	var tc *tls.Config
	if s.mode == "tls" {
		cf, kf := s.c.cert()
		crt, e := tls.LoadX509KeyPair(cf, kf)
		if e != nil {
			panic(e)
		}
		tc = &tls.Config{Certificates: []tls.Certificate{crt}}
	}
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	go func() {
		for {
			k, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			n := s.n
			s.n++
			s.open[k] = true
			s.mu.Unlock()
			what := s.script(n)
			go func() {
				defer func() {
					k.Close()
					s.mu.Lock()
					delete(s.open, k)
					s.mu.Unlock()
				}()
				if what == "late" {
					time.Sleep(time.Duration(1+n%7*5) * time.Millisecond)
				}
				if what == "drop" {
					return
				}
				switch s.mode {
				case "ws":
					done := make(chan struct{})
					ol := &oneListener{k: k, done: done}
					hs := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
						defer close(done)
						if what == "refuse" {
							w.WriteHeader(403)
							return
						}
						ws, err := up.Upgrade(w, r, nil)
						if err != nil {
							return
						}
						s.serve(&Wire{kind: "ws", ws: ws})
					})}
					hs.ConnState = func(_ net.Conn, st http.ConnState) {
						if st == http.StateClosed {
							ol.once.Do(func() { close(ol.gone) })
						}
					}
					ol.gone = make(chan struct{})
					go hs.Serve(ol)
					select {
					case <-done:
						time.Sleep(20 * time.Millisecond) // the refusal is on its way
					case <-ol.gone:
					}
					hs.Close()
				case "tls":
					t := tls.Server(k, tc)
					if t.Handshake() == nil {
						s.serve(&Wire{kind: "tls", nc: t})
					}
				default:
					s.serve(&Wire{kind: "tcp", nc: k})
				}
			}()
		}
	}()
}

// oneListener hands out one connection.
type oneListener struct {
	k    net.Conn
	mu   sync.Mutex
	out  bool
	done chan struct{}
	gone chan struct{}
	once sync.Once
}

func (o *oneListener) Accept() (net.Conn, error) {
	o.mu.Lock()
	first := !o.out
	o.out = true
	o.mu.Unlock()
	if first {
		return o.k, nil
	}
	select {
	case <-o.done:
	case <-o.gone:
	}
	return nil, net.ErrClosed
}
func (o *oneListener) Close() error   { return nil }
func (o *oneListener) Addr() net.Addr { return o.k.LocalAddr() }

func (s *cliSrv) serve(w *Wire) {
	s.mu.Lock()
	s.cur = w
	s.mu.Unlock()
	fr := NewFrameReader(w)
	for {
		f, err := fr.Next(1 << 20)
		if err != nil {
			return
		}
		switch f.ID {
		case ziface.HeartBeatDefaultMsgID:
			atomic.AddInt64(&s.hb, 1)
		case 9: // the peer asks to be dropped
			return
		default:
			atomic.AddInt64(&s.served, 1)
			w.Write(tlv(f.ID, f.Data))
		}
	}
}

func (s *cliSrv) drop() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for k := range s.open {
		k.Close()
	}
}

func (s *cliSrv) down() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.l != nil {
		s.l.Close()
		s.l = nil
	}
}

func (s *cliSrv) conns() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.open)
}

func (s *cliSrv) client() ziface.IClient {
	switch s.mode {
	case "ws":
		return znet.NewWsClient("127.0.0.1", s.port)
	case "tls":
		return znet.NewTLSClient("127.0.0.1", s.port)
	}
	return znet.NewClient("127.0.0.1", s.port)
}

type cliRun struct {
	c       *Ctx
	what    string
	s       *cliSrv
	m       *lifeMon
	cl      ziface.IClient
	started chan ziface.IConnection
	ended   chan ziface.IConnection
	got     int64 // echoes handled
	onStart func(ziface.IConnection)
	onStop  func(ziface.IConnection)
	onMsg   func(ziface.IConnection)
	seq     uint32
}

func (x *cliRun) wait(what string, cond func() bool) bool {
	if x.c.Violations() > 0 {
		return false
	}
	if !WaitFor(StallLimit, cond) {
		x.c.Stall("never-"+what, "%s: %s did not happen within %s\n%s", x.what, what, StallLimit, clip(Stacks(), 3500))
		return false
	}
	return true
}

func (x *cliRun) up(hook string) ziface.IConnection {
	select {
	case k := <-x.started:
		return k
	case <-time.After(StallLimit):
		x.c.Stall("never-connected", "%s: %s: no start hook within %s\n%s", x.what, hook, StallLimit, clip(Stacks(), 3500))
		return nil
	}
}

func (x *cliRun) gone(why string) bool {
	select {
	case <-x.ended:
		return true
	case <-time.After(StallLimit):
		x.c.Stall("never-ended", "%s: %s: no stop hook within %s\n%s", x.what, why, StallLimit, clip(Stacks(), 3500))
		return false
	}
}

// works has some messages echoed over the current connection.
func (x *cliRun) works(k ziface.IConnection, hb bool) {
	if x.cl.Conn() != k {
		x.c.Violate("conn", "%s: Conn() is not the connection the start hook was called for", x.what)
	}
	want := atomic.LoadInt64(&x.got)
	h0 := atomic.LoadInt64(&x.s.hb)
	for i := 0; i < 3; i++ {
		x.seq++
		if err := k.SendMsg(1, body(77, x.seq, 12+int(x.seq)%900)); err != nil {
			x.c.Violate("send", "%s: a connected client can not send: %v", x.what, err)
			return
		}
		want++
	}
	x.wait("echo over the connection", func() bool { return atomic.LoadInt64(&x.got) >= want })
	if n := atomic.LoadInt64(&x.got); n > want {
		x.c.Violate("echo-twice", "%s: %d echoes handled, %d sent", x.what, n, want)
	}
	if hb {
		x.wait("heartbeat", func() bool { return atomic.LoadInt64(&x.s.hb) > h0 })
	}
}

// stopIt calls Stop, once or from several goroutines, and waits for it to return.
func (x *cliRun) stopIt(r *rand.Rand) {
	n := 1 + r.Intn(3)*r.Intn(2)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); x.cl.Stop(); x.c.Event(1) }()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(StallLimit):
		x.c.Stall("stop-hangs", "%s: Stop did not return within %s\n%s", x.what, StallLimit, clip(Stacks(), 3500))
		x.c.Finish()
	}
}

// over: after the last Stop nothing is left.
func (x *cliRun) over(base int) {
	x.m.all_.Range(func(_, v interface{}) bool {
		if x.c.Violations() == 0 {
			x.m.over(v.(*life), "client stopped")
		}
		return true
	})
	x.wait("end of every connection at the server", func() bool { return x.s.conns() == 0 })
	left := 0
	if x.c.Violations() == 0 && !WaitFor(StallLimit, func() bool { left = zinxGoroutines(); return left <= base }) {
		x.c.Stall("goroutines", "%s: %d goroutines of the stopped client are left\n%s", x.what, left-base, clip(Stacks(), 3500))
	}
	x.m.final()
	// a connection that was never started needs no hooks, a started one has both
	x.m.all_.Range(func(_, v interface{}) bool {
		l := v.(*life)
		if atomic.LoadInt32(&l.start) != atomic.LoadInt32(&l.stop) {
			x.c.Violate("hooks", "%s: start hook %d times, stop hook %d times", x.what, l.start, l.stop)
		}
		return true
	})
}

func scenC25(c *Ctx) {
	mode, hb := c.P.Str("mode", "tcp"), c.P.Bool("hb")
	r0 := c.Rng
	c.Configure("tcp", func(g *zconf.Config) { g.MaxMsgChanLen, g.HeartbeatMax, g.WorkerMode = 8, 60, c.P.Str("wm", "") })
	base := zinxGoroutines()
	kinds := []string{"serve", "early", "reconnect", "absent", "again", "storm", "from-handler", "from-start-hook", "from-stop-hook", "refused", "unread-error"}
	for round := 0; round < c.N(8, 60)*len(kinds) && c.Violations() == 0; round++ {
		chaos(r0.Intn(4))
		kind := kinds[round%len(kinds)]
		r := rand.New(rand.NewSource(r0.Int63()))
		s := &cliSrv{c: c, mode: mode, port: c.c25Port(), script: func(int) string { return "serve" }, open: map[net.Conn]bool{}}
		x := &cliRun{c: c, what: fmt.Sprintf("%s/hb=%v/%s", mode, hb, kind), s: s,
			started: make(chan ziface.IConnection, 64), ended: make(chan ziface.IConnection, 64)}
		x.m = &lifeMon{c: c, what: x.what, byKey: func(k ziface.IConnection) string { return fmt.Sprintf("%p", k) }}
		cl := s.client()
		x.cl = cl
		cl.SetOnConnStart(func(k ziface.IConnection) {
			x.m.onStart(k)
			if x.onStart != nil {
				x.onStart(k)
			}
			x.started <- k
		})
		cl.SetOnConnStop(func(k ziface.IConnection) {
			x.m.onStop(k)
			if x.onStop != nil {
				x.onStop(k)
			}
			x.ended <- k
		})
		cl.AddRouter(1, &funcRouter{f: func(q ziface.IRequest) {
			if src, _, ok := parseBody(q.GetData()); !ok || src != 77 || q.GetMsgID() != 1 {
				c.Violate("echo", "%s: the client's handler got %d bytes that were not sent", x.what, len(q.GetData()))
			}
			atomic.AddInt64(&x.got, 1)
			c.Event(1)
			if x.onMsg != nil {
				x.onMsg(q.GetConnection())
			}
		}})
		if hb {
			cl.StartHeartBeat(15 * time.Millisecond)
		}
		x.round(kind, hb, r)
		if c.Violations() == 0 {
			x.over(base)
		}
		s.down()
		c.Eval(fmt.Sprintf("%s/%d/%d", x.what, s.n, atomic.LoadInt64(&x.got)))
	}
	chaos(0)
}

// c25Port reuses a few ports: a child has 45.
func (c *Ctx) c25Port() int {
	portMu.Lock()
	p := c25Ports
	portMu.Unlock()
	if p == 0 {
		p = c.NextPort()
		portMu.Lock()
		c25Ports = p
		portMu.Unlock()
	}
	return p
}

var c25Ports int

func (x *cliRun) round(kind string, hb bool, r *rand.Rand) {
	c, s, cl := x.c, x.s, x.cl
	rs := rand.New(rand.NewSource(r.Int63())) // the server's
	nap := func(us int) {
		if us = r.Intn(us + 1); us > us/8 {
			time.Sleep(time.Duration(us) * time.Microsecond)
		}
	}
	switch kind {
	case "serve":
		s.up()
		cl.Start()
		if k := x.up("start"); k != nil {
			x.works(k, hb)
		}
		x.stopIt(r)
		x.gone("stop")
		x.stopIt(r) // once more
	case "early": // at any moment of connecting
		s.script = func(int) string { return []string{"serve", "late"}[rs.Intn(2)] }
		s.up()
		for i := 0; i < 6 && c.Violations() == 0; i++ {
			if i == 0 {
				cl.Start()
			} else {
				cl.Restart()
			}
			nap(2500)
			x.stopIt(r)
		}
	case "reconnect": // the peer drops it, the hook or the user restarts
		s.up()
		times := 2 + r.Intn(4)
		fromHook := r.Intn(2) == 0
		var done int32
		if fromHook {
			n := 0
			x.onStop = func(ziface.IConnection) {
				if n++; n < times {
					cl.Restart()
				} else {
					atomic.StoreInt32(&done, 1)
				}
			}
		}
		cl.Start()
		for i := 0; i < times && c.Violations() == 0; i++ {
			k := x.up("restart")
			if k == nil {
				return
			}
			x.works(k, hb)
			if len(x.started) > 0 {
				c.Violate("connected-twice", "%s: one start or restart gave more than one connection", x.what)
			}
			if r.Intn(2) == 0 {
				s.drop()
			} else {
				k.SendMsg(9, nil)
			}
			if !x.gone("peer closed") {
				return
			}
			if !fromHook && i+1 < times {
				cl.Restart()
			}
		}
		x.stopIt(r)
	case "absent", "refused":
		refusing := kind == "refused" && s.mode != "tcp"
		if refusing {
			var n int32
			s.script = func(int) string {
				if atomic.AddInt32(&n, 1) == 1 {
					if s.mode == "ws" && rs.Intn(2) == 0 {
						return "refuse"
					}
					return "drop"
				}
				return "serve"
			}
			s.up()
		}
		nap(1000)
		cl.Start()
		nap(3000)
		select {
		case err, ok := <-cl.GetErrChan():
			if !ok || err == nil {
				c.Violate("no-error", "%s: the failed attempt is reported as %v, %v", x.what, err, ok)
			}
			c.Event(1)
		case <-time.After(StallLimit):
			c.Stall("not-reported", "%s: a failed attempt to connect was not reported within %s\n%s", x.what, StallLimit, clip(Stacks(), 3000))
		}
		if len(x.started) > 0 {
			c.Violate("started", "%s: start hook without a connection", x.what)
		}
		if !refusing {
			s.up()
		}
		cl.Restart()
		if k := x.up("restart after a failed attempt"); k != nil {
			x.works(k, hb)
		}
		x.stopIt(r)
		x.gone("stop")
		select {
		case err, ok := <-cl.GetErrChan():
			if ok {
				c.Violate("late-error", "%s: error %v after the client had connected", x.what, err)
			}
		case <-time.After(StallLimit):
			c.Stall("errchan-open", "%s: the stopped client's error channel is still open", x.what)
		}
	case "unread-error":
		cl.Start()
		nap(3000)
		if r.Intn(2) == 0 {
			cl.Restart()
			nap(1000)
		}
		x.stopIt(r)
	case "again": // stopped and restarted
		s.up()
		cl.Start()
		for i := 0; i < 3 && c.Violations() == 0; i++ {
			k := x.up("start")
			if k == nil {
				return
			}
			x.works(k, hb)
			x.stopIt(r)
			if i < 2 {
				if r.Intn(2) == 0 {
					x.gone("stop")
					cl.Restart()
				} else {
					cl.Restart()
					x.gone("stop")
				}
			} else {
				x.gone("stop")
			}
		}
		nap(2000)
		if len(x.started) > 0 {
			c.Violate("connected-twice", "%s: more connections than starts", x.what)
		}
	case "storm":
		s.script = func(int) string {
			return []string{"serve", "serve", "late", "drop", "refuse"}[rs.Intn(5)]
		}
		s.up()
		var quit int32
		var wg sync.WaitGroup
		for g := 0; g < 3; g++ {
			q := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for atomic.LoadInt32(&quit) == 0 {
					time.Sleep(time.Duration(q.Intn(3000)) * time.Microsecond)
					cl.Stop()
					cl.Conn()
					c.Event(1)
				}
			}()
		}
		q := rand.New(rand.NewSource(r.Int63()))
		for i := 0; i < 12; i++ {
			if i == 0 {
				cl.Start()
			} else {
				cl.Restart()
			}
			time.Sleep(time.Duration(q.Intn(4000)) * time.Microsecond)
			if k := cl.Conn(); k != nil {
				k.SendMsg(1, body(77, uint32(i), 40))
			}
			cl.Stop() // no two connections at a time
		}
		atomic.StoreInt32(&quit, 1)
		wg.Wait()
		x.stopIt(r)
	case "from-handler", "from-start-hook", "from-stop-hook":
		s.up()
		var back int32
		f := func(ziface.IConnection) { cl.Stop(); atomic.StoreInt32(&back, 1) }
		switch kind {
		case "from-handler":
			x.onMsg = f
		case "from-start-hook":
			x.onStart = f
		default:
			x.onStop = f
		}
		cl.Start()
		k := x.up("start")
		if k == nil {
			return
		}
		switch kind {
		case "from-handler":
			k.SendMsg(1, body(77, 1, 30))
		case "from-stop-hook":
			x.works(k, hb)
			s.drop()
		}
		x.gone(kind)
		x.wait("return of Stop", func() bool { return atomic.LoadInt32(&back) == 1 })
	}
}

func init() {
	scenario("c25.client", scenC25)
	register(&Check{
		Property: "C25",
		Jobs: func(tier string, seed int64) []Job {
			var j []Job
			wm := []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind}
			for i, mode := range []string{"tcp", "tls", "ws"} {
				for k, hb := range []string{"0", "1"} {
					j = append(j, spread("c25.client", Params{"mode": mode, "hb": hb, "wm": wm[(i+k)%3]}, seed, byTier(tier, 1, 4), 4*time.Minute)...)
				}
			}
			return j
		},
		Parallel: 6,
		MinEvals: 300,
		Rule:     "one evaluation = one client taken through one history of start, restart, stop, drops, refusals and absent or late servers: hooks, echoes, errors, the server's sockets and the goroutines left observed; distinct = (transport, heartbeat, kind of history, connections the server saw, echoes)",
	})
}
