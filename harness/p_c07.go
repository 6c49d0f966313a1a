package harness

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
)

// C07: connection lifecycle, whatever ends the connection.

type lifeCB struct {
	must    bool // registered while the connection was open, not removed
	removed bool
	n       int32
}

type life struct {
	k        ziface.IConnection
	start    int32
	started  int32
	stop     int32
	handled  int32
	cbs      []*lifeCB
	prepared chan struct{}
	lateMu   sync.Mutex
	late     []*lifeCB // registered and removed by another goroutine until the end
}

// busy keeps adding and removing close callbacks while the connection lives and ends.
func (m *lifeMon) busy(l *life, x uint64) {
	k := l.k
	r := rand.New(rand.NewSource(int64(x)))
	for i := 0; i < 4000; i++ {
		over := k.Context().Err() != nil
		cb := &lifeCB{}
		key := fmt.Sprint("late", i)
		k.AddCloseCallback(l, key, func() { atomic.AddInt32(&cb.n, 1); m.c.Event(1) })
		cb.must = k.Context().Err() == nil
		if r.Intn(3) > 0 {
			cb.must = false
			k.RemoveCloseCallback(l, key)
			cb.removed = k.Context().Err() == nil
		}
		l.lateMu.Lock()
		l.late = append(l.late, cb)
		l.lateMu.Unlock()
		if over {
			return
		}
		switch {
		case i < 50:
			runtime.Gosched()
		default:
			time.Sleep(time.Duration(50+r.Intn(400)) * time.Microsecond)
		}
	}
}

type lifeMon struct {
	c     *Ctx
	what  string
	all_  sync.Map // connection -> *life
	lives sync.Map // peer port -> *life, the first connection from there
	byKey func(k ziface.IConnection) string
	srv   *Srv
	plan  sync.Map // peer port -> cause, known before the server sees the connection (not for every transport)
	all   int64
}

func (m *lifeMon) of(k ziface.IConnection) *life {
	var key interface{} = k.GetConnID()
	if m.srv == nil { // clients number nothing
		key = m.byKey(k)
	}
	v, ok := m.all_.Load(key)
	if !ok {
		v, _ = m.all_.LoadOrStore(key, &life{k: k, prepared: make(chan struct{})})
		// KCP: a late datagram of a closed peer may open a further session from the same port
		m.lives.LoadOrStore(m.byKey(k), v)
	}
	return v.(*life)
}

func (m *lifeMon) onStart(k ziface.IConnection) {
	l := m.of(k)
	if n := atomic.AddInt32(&l.start, 1); n != 1 {
		m.c.Violate("start-twice", "%s: the start hook ran %d times for one connection", m.what, n)
		return
	}
	atomic.AddInt64(&m.all, 1)
	if atomic.LoadInt32(&l.stop) != 0 {
		m.c.Violate("stop-before-start", "%s: stop hook ran before the start hook", m.what)
	}
	k.SetProperty("life", m.byKey(k))
	// close callbacks: same key for different handlers, same handler with different keys, some removed again
	for i := 0; i < 6; i++ {
		cb := &lifeCB{}
		h, key := fmt.Sprint("h", i%3), i/3
		k.AddCloseCallback(h, key, func() { atomic.AddInt32(&cb.n, 1); m.c.Event(1) })
		cb.must = k.Context().Err() == nil
		l.cbs = append(l.cbs, cb)
	}
	for _, i := range []int{int(k.GetConnID()) % 6, int(k.GetConnID()/6) % 6} {
		open := k.Context().Err() == nil
		k.RemoveCloseCallback(fmt.Sprint("h", i%3), i/3)
		if open && k.Context().Err() == nil {
			l.cbs[i].removed = true
		}
		l.cbs[i].must = false
	}
	// more come and go, the last one among them
	x := uint64(atomic.LoadInt64(&m.all))*0x9E3779B97F4A7C15 ^ k.GetConnID()
	names := map[int][2]interface{}{}
	for i := range l.cbs {
		names[i] = [2]interface{}{fmt.Sprint("h", i%3), i / 3}
	}
	for step := int(x>>20) % 6; step > 0; step-- {
		x = x*6364136223846793005 + 1442695040888963407
		i := len(l.cbs) - 1
		if x>>40%3 == 0 {
			i = int(x>>33) % len(l.cbs)
		}
		if x>>50%4 != 0 && !l.cbs[i].removed {
			open := k.Context().Err() == nil
			k.RemoveCloseCallback(names[i][0], names[i][1])
			if open && k.Context().Err() == nil {
				l.cbs[i].removed = true
			}
			l.cbs[i].must = false
		}
		if x>>55%3 != 0 {
			cb := &lifeCB{}
			names[len(l.cbs)] = [2]interface{}{fmt.Sprint("h", step), fmt.Sprint("k", len(l.cbs))}
			n := names[len(l.cbs)]
			k.AddCloseCallback(n[0], n[1], func() { atomic.AddInt32(&cb.n, 1); m.c.Event(1) })
			cb.must = k.Context().Err() == nil
			l.cbs = append(l.cbs, cb)
		}
	}
	if x>>17%3 == 0 {
		go m.busy(l, x)
	}
	close(l.prepared)
	runtime.Gosched()
	atomic.StoreInt32(&l.started, 1)
	m.c.Event(1)
}

func (m *lifeMon) onStop(k ziface.IConnection) {
	l := m.of(k)
	if n := atomic.AddInt32(&l.stop, 1); n != 1 {
		m.c.Violate("stop-twice", "%s: the stop hook ran %d times for one connection", m.what, n)
	}
	if atomic.LoadInt32(&l.started) != 1 {
		m.c.Violate("stop-before-start", "%s: stop hook ran before the start hook had returned", m.what)
	}
	if k.Context().Err() == nil {
		m.c.Violate("context-open", "%s: the connection's context is not done in the stop hook", m.what)
	}
	if v, err := k.GetProperty("life"); err != nil || v != m.byKey(k) {
		m.c.Violate("property-lost", "%s: stop hook sees property %v, %v", m.what, v, err)
	}
	m.c.Event(1)
}

// over waits until everything a closing must bring about has happened.
func (m *lifeMon) over(l *life, cause string) {
	k := l.k
	step := "stop hook"
	ok := WaitFor(StallLimit, func() bool {
		if atomic.LoadInt32(&l.stop) == 0 {
			step = "stop hook not called"
			return false
		}
		if k.Context().Err() == nil {
			step = "context not done"
			return false
		}
		if m.srv != nil {
			if _, err := m.srv.S.GetConnMgr().Get(k.GetConnID()); err == nil {
				step = "still registered"
				return false
			}
		}
		for i, cb := range l.cbs {
			if cb.must && atomic.LoadInt32(&cb.n) == 0 {
				step = fmt.Sprintf("close callback %d not called", i)
				return false
			}
		}
		l.lateMu.Lock()
		defer l.lateMu.Unlock()
		for i, cb := range l.late {
			if cb.must && atomic.LoadInt32(&cb.n) == 0 {
				step = fmt.Sprintf("close callback %d of those registered meanwhile not called", i)
				return false
			}
		}
		return true
	})
	if !ok {
		m.c.Stall("not-closed", "%s: %s: %s\n%s", m.what, cause, step, clip(Stacks(), 3000))
	}
}

func (m *lifeMon) final() {
	time.Sleep(20 * time.Millisecond)
	m.all_.Range(func(_, v interface{}) bool {
		l := v.(*life)
		if n := atomic.LoadInt32(&l.stop); n > 1 {
			m.c.Violate("stop-twice", "%s: stop hook ran %d times", m.what, n)
		}
		if atomic.LoadInt32(&l.start) != 1 {
			return true
		}
		for i, cb := range l.cbs {
			n := atomic.LoadInt32(&cb.n)
			if n > 1 {
				m.c.Violate("callback-twice", "%s: close callback %d ran %d times", m.what, i, n)
			}
			if n > 0 && cb.removed {
				m.c.Violate("removed-callback-ran", "%s: close callback %d ran although it had been removed", m.what, i)
			}
		}
		l.lateMu.Lock()
		defer l.lateMu.Unlock()
		for i, cb := range l.late {
			n := atomic.LoadInt32(&cb.n)
			if n > 1 {
				m.c.Violate("callback-twice", "%s: close callback %d of those registered meanwhile ran %d times", m.what, i, n)
			}
			if n > 0 && cb.removed {
				m.c.Violate("removed-callback-ran", "%s: close callback %d of those registered meanwhile ran although it had been removed", m.what, i)
			}
		}
		m.c.Count("callbacks_meanwhile", int64(len(l.late)))
		return true
	})
}

// adjTLV decodes TLV frames whose length field is 2 more than the payload's length, so
// that a length of 0 or 1 is impossible and ends the connection.
type adjTLV struct{}

func (adjTLV) GetLengthField() *ziface.LengthField {
	return &ziface.LengthField{MaxFrameLength: 1 << 24, LengthFieldOffset: 4, LengthFieldLength: 4, LengthAdjustment: -2}
}
func (adjTLV) Intercept(ch ziface.IChain) ziface.IcResp {
	m := ch.GetIMessage()
	if m == nil || len(m.GetData()) < 8 {
		return ch.ProceedWithIMessage(m, nil)
	}
	d := m.GetData()
	m.SetMsgID(binary.BigEndian.Uint32(d))
	m.SetData(d[8:])
	m.SetDataLen(uint32(len(d) - 8))
	return ch.ProceedWithIMessage(m, nil)
}

func tlv2(id uint32, data []byte) []byte {
	b := tlv(id, data)
	binary.BigEndian.PutUint32(b[4:], uint32(len(data)+2))
	return b
}

// zinxGoroutines counts goroutines that run or were started by zinx code.
func zinxGoroutines() int {
	n := 0
	for _, g := range strings.Split(rawStacks(), "\n\n") {
		if strings.Contains(g, "github.com/aceld/zinx/") {
			n++
		}
	}
	return n
}

func scenC07(c *Ctx) {
	mode, wm, hb := c.P.Str("mode", "tcp"), c.P.Str("wm", zconf.WorkerModeHash), c.P.Bool("hb")
	r0 := c.Rng
	m := &lifeMon{c: c, what: fmt.Sprintf("%s/%s/hb=%v", mode, wm, hb), byKey: func(k ziface.IConnection) string { return portOf(k.RemoteAddrString()) }}
	var hookStop sync.Map
	m.srv = &Srv{}
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.WorkerMode, g.MaxConn, g.WorkerPoolSize = wm, 400, 4
		g.MaxMsgChanLen = 8
		g.HeartbeatMax = 1
		g.IOReadBuffSize = 512
	}, func(s ziface.IServer) {
		s.SetOnConnStart(func(k ziface.IConnection) {
			m.onStart(k)
			if k.GetConnID()%7 == 3 && hb == false {
				hookStop.Store(m.byKey(k), true)
				k.Stop()
			}
		})
		s.SetOnConnStop(m.onStop)
		s.SetDecoder(adjTLV{})
		s.AddRouter(1, &funcRouter{f: func(q ziface.IRequest) { // any message
			l := m.of(q.GetConnection())
			if atomic.LoadInt32(&l.started) != 1 {
				c.Violate("handled-before-start", "%s: a message was handled before the start hook had returned", m.what)
			}
			atomic.AddInt32(&l.handled, 1)
			c.Event(1)
		}})
		s.AddRouter(2, &funcRouter{f: func(q ziface.IRequest) { q.GetConnection().Stop() }})
		s.AddRouter(3, &funcRouter{f: func(q ziface.IRequest) { // keep sending to a peer that does not read
			k := q.GetConnection()
			go func() {
				for k.SendMsg(5, make([]byte, 60000)) == nil {
				}
			}()
		}})
		if hb {
			s.StartHeartBeat(150 * time.Millisecond)
		}
	}).Start()
	m.srv = s
	time.Sleep(20 * time.Millisecond)
	base := zinxGoroutines()

	causes := []string{"peer-close", "peer-reset", "stop", "stop-many", "handler", "malformed", "stalled", "early"}
	if mode == "kcp" {
		causes = []string{"stop", "stop-many", "handler", "malformed", "early"}
	}
	if hb {
		causes = append(causes, "silent", "silent-stalled")
	}
	rounds := c.N(3, 25)
	if !hb {
		rounds *= 4
	}
	var wg sync.WaitGroup
	for round := 0; round < rounds && c.Violations() < 4; round++ {
		chaos(r0.Intn(4))
		for _, cause := range causes {
			for rep := 0; rep < 3; rep++ {
				cause := cause
				seed := r0.Int63()
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := rand.New(rand.NewSource(seed))
					m.one(s, cause, r, &hookStop)
				}()
			}
		}
		wg.Wait()
	}
	// everything at once
	var ws []*Wire
	for i := 0; i < 12; i++ {
		w := s.MustDial()
		w.Write(tlv2(1, body(1, 1, 12)))
		ws = append(ws, w)
	}
	WaitFor(3*time.Second, func() bool {
		n := 0
		for _, w := range ws {
			if _, ok := m.lives.Load(w.Key()); ok {
				n++
			}
		}
		return n == len(ws)
	})
	s.S.GetConnMgr().ClearConn()
	for _, w := range ws {
		if v, ok := m.lives.Load(w.Key()); ok {
			m.over(v.(*life), "clear-all")
		}
		w.Close()
	}
	m.final()
	chaos(0)
	if mode == "kcp" {
		// sessions opened by late datagrams
		s.S.GetConnMgr().ClearConn()
	}
	if !WaitFor(StallLimit, func() bool { return s.S.GetConnMgr().Len() == 0 }) {
		c.Stall("registry", "%s: %d connections still registered after all were closed", m.what, s.S.GetConnMgr().Len())
	}
	left := 0
	if c.Violations() == 0 && !WaitFor(StallLimit, func() bool { left = zinxGoroutines(); return left <= base }) {
		c.Stall("goroutines", "%s: %d zinx goroutines with no connection before, %d after %d connections have come and gone\n%s", m.what, base, left, m.all, clip(Stacks(), 3500))
	}
	c.Count("connections", m.all)
	c.Sample(map[string]interface{}{"config": m.what, "causes": causes, "connections": m.all})
}

func (m *lifeMon) one(s *Srv, cause string, r *rand.Rand, hookStop *sync.Map) {
	w := s.MustDial()
	defer w.Close()
	// what the peer writes first (KCP servers see a peer only then)
	for i := r.Intn(6); i >= 0; i-- {
		w.Write(tlv2(1, body(uint32(i), 0, 12+r.Intn(50))))
	}
	var l *life
	if cause == "early" {
		// as soon as it can be reached at all, maybe before it started
		deadline := time.Now().Add(time.Second)
		for l == nil && time.Now().Before(deadline) {
			s.S.GetConnMgr().Range(func(_ uint64, k ziface.IConnection, _ interface{}) error {
				if k != nil && m.byKey(k) == w.Key() {
					l = m.of(k)
				}
				return nil
			}, nil)
		}
		if l == nil {
			return
		}
		l.k.Stop()
	} else if !WaitFor(StallLimit, func() bool {
		v, ok := m.lives.Load(w.Key())
		if ok {
			l = v.(*life)
		}
		return ok
	}) {
		m.c.Stall("never-started", "%s: %s: no start hook", m.what, cause)
		return
	}
	select {
	case <-l.prepared:
	case <-time.After(StallLimit):
		m.c.Stall("never-started", "%s: %s: no start hook", m.what, cause)
		return
	}
	if r.Intn(3) > 0 {
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
	}
	peerSeesEnd := true
	switch cause {
	case "peer-close":
		w.Close()
		peerSeesEnd = false
	case "peer-reset":
		w.Reset()
		peerSeesEnd = false
	case "stop":
		l.k.Stop()
	case "stop-many":
		for i := 0; i < 4; i++ {
			go l.k.Stop()
		}
	case "handler":
		w.Write(tlv2(2, body(0, 0, 20)))
	case "malformed":
		w.Write([]byte{0, 0, 0, 1, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8})
	case "stalled":
		w.Write(tlv2(3, body(0, 0, 20)))
		time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
		l.k.Stop()
		peerSeesEnd = false
	case "silent-stalled":
		w.Write(tlv2(3, body(0, 0, 20)))
		peerSeesEnd = false
	case "silent":
	}
	m.over(l, cause)
	if peerSeesEnd && w.kind != "kcp" {
		w.Deadline(StallLimit)
		buf := make([]byte, 4096)
		for {
			_, err := w.Read(buf)
			if err == nil {
				continue
			}
			if ne, ok := err.(interface{ Timeout() bool }); ok && ne.Timeout() {
				m.c.Stall("socket-open", "%s: %s: the peer's socket is still open after the connection was closed", m.what, cause)
			}
			break
		}
	}
	_, hook := hookStop.Load(w.Key())
	m.c.Eval(fmt.Sprintf("%s/%s/hook=%v/%d", m.what, cause, hook, atomic.LoadInt32(&l.handled)))
}

// scenC07Client: the same for the client's connection.
func scenC07Client(c *Ctx) {
	mode := c.P.Str("mode", "tcp")
	r0 := c.Rng
	c.Configure(mode, func(g *zconf.Config) { g.HeartbeatMax = 1; g.MaxMsgChanLen = 8 })
	raw := c.RawServer(mode)
	m := &lifeMon{c: c, what: "client/" + mode, byKey: func(k ziface.IConnection) string { return fmt.Sprintf("%p", k) }}
	base := zinxGoroutines()
	rounds := c.N(5, 40)
	for round := 0; round < rounds && c.Violations() < 4; round++ {
		chaos(r0.Intn(4))
		for _, cause := range []string{"peer-close", "peer-reset", "stop", "client-stop", "stop-many", "handler", "hook", "malformed", "silent", "stalled"} {
			cl := raw.Client()
			ch := make(chan ziface.IConnection, 4)
			cl.SetOnConnStart(func(k ziface.IConnection) {
				m.onStart(k)
				if cause == "hook" {
					k.Stop()
				}
				ch <- k
			})
			cl.SetOnConnStop(m.onStop)
			cl.SetDecoder(adjTLV{})
			cl.AddRouter(1, &funcRouter{f: func(q ziface.IRequest) {
				if atomic.LoadInt32(&m.of(q.GetConnection()).started) != 1 {
					c.Violate("handled-before-start", "%s: a message was handled before the start hook had returned", m.what)
				}
				c.Event(1)
			}})
			cl.AddRouter(2, &funcRouter{f: func(q ziface.IRequest) { q.GetConnection().Stop() }})
			hb := cause == "silent" || r0.Intn(3) == 0
			if hb {
				cl.StartHeartBeat(150 * time.Millisecond)
			}
			cl.Start()
			var k ziface.IConnection
			var w *Wire
			select {
			case k = <-ch:
				w = <-raw.C
			case <-time.After(StallLimit):
				c.Stall("never-started", "%s: no start hook", m.what)
				return
			}
			w.Write(tlv2(1, body(1, 1, 30)))
			if r0.Intn(2) == 0 {
				time.Sleep(time.Duration(r0.Intn(3000)) * time.Microsecond)
			}
			sees := true
			switch cause {
			case "peer-close":
				w.Close()
				sees = false
			case "peer-reset":
				w.Reset()
				sees = false
			case "stop":
				k.Stop()
			case "client-stop":
				cl.Stop()
			case "stop-many":
				for i := 0; i < 3; i++ {
					go k.Stop()
				}
				cl.Stop()
			case "handler":
				w.Write(tlv2(2, body(1, 1, 30)))
			case "malformed":
				w.Write([]byte{0, 0, 0, 1, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8})
			case "stalled":
				go func() {
					for k.SendMsg(5, make([]byte, 60000)) == nil {
					}
				}()
				time.Sleep(time.Duration(r0.Intn(30)) * time.Millisecond)
				k.Stop()
				sees = false
			}
			m.over(m.of(k), cause)
			if sees {
				w.Deadline(StallLimit)
				buf := make([]byte, 4096)
				for {
					_, err := w.Read(buf)
					if err == nil {
						continue
					}
					if ne, ok := err.(interface{ Timeout() bool }); ok && ne.Timeout() {
						c.Stall("socket-open", "%s: %s: the peer's socket is still open", m.what, cause)
					}
					break
				}
			}
			w.Close()
			cl.Stop()
			c.Eval(fmt.Sprintf("%s/%s/hb=%v", m.what, cause, hb))
		}
	}
	m.final()
	left := 0
	if c.Violations() == 0 && !WaitFor(StallLimit, func() bool { left = zinxGoroutines(); return left <= base }) {
		c.Stall("goroutines", "%s: %d zinx goroutines before, %d after all clients were stopped\n%s", m.what, base, left, clip(Stacks(), 3500))
	}
	c.Count("client_connections", m.all)
	chaos(0)
}

func init() {
	scenario("c07", scenC07)
	scenario("c07.client", scenC07Client)
	register(&Check{
		Property: "C07",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			n := byTier(tier, 1, 8)
			i := 0
			for _, m := range []string{"tcp", "ws", "kcp", "tls"} {
				for _, wm := range []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind} {
					i++
					js = append(js, spread("c07", Params{"mode": m, "wm": wm, "hb": itoa(i % 2)}, seed+int64(i), n, 240*time.Second)...)
					if m == "tcp" || m == "ws" {
						js = append(js, spread("c07", Params{"mode": m, "wm": wm, "hb": itoa((i + 1) % 2)}, seed+int64(50+i), n, 240*time.Second)...)
					}
				}
			}
			for _, m := range []string{"tcp", "ws", "tls"} {
				js = append(js, spread("c07.client", Params{"mode": m}, seed, n, 240*time.Second)...)
			}
			return js
		},
		Parallel: 7,
		MinEvals: 200,
		Rule:     "one evaluation = one connection ended by one cause (peer close or reset, one or many Stop calls, Stop in a handler, in the start hook or before the start, malformed input, stalled peer, silent peer under heartbeat, client stop), with start/stop hooks, close callbacks, context, registry, properties, peer socket and goroutines observed; distinct = (side, transport, worker mode, heartbeat, cause, hook stop, messages handled)",
	})
}
