package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
)

// C04: what a peer sends is handled exactly once, in order, one at a time, intact.

// inConn is the monitor of one server-side connection.
type inConn struct {
	src     uint32
	busy    int32
	next    uint32 // next expected sequence number (ordered mode)
	seen    map[uint32]int
	mu      sync.Mutex
	raw     []byte
	handled int64
}

type inMon struct {
	c       *Ctx
	ordered bool
	serial  bool
	what    string
	conns   sync.Map // peer number -> *inConn
	maxPar  int32
	par     int32
}

func (m *inMon) get(src uint32) *inConn {
	v, ok := m.conns.Load(src)
	if !ok {
		v, _ = m.conns.LoadOrStore(src, &inConn{src: src, seen: map[uint32]int{}})
	}
	return v.(*inConn)
}

// handle observes one handler invocation; peer says which peer the connection belongs to.
func (m *inMon) handle(q ziface.IRequest, peer uint32, nap func()) {
	k := m.get(peer)
	if m.serial && !atomic.CompareAndSwapInt32(&k.busy, 0, 1) {
		m.c.Violate("overlap", "%s: two handlers of one connection at the same time", m.what)
	}
	p := atomic.AddInt32(&m.par, 1)
	for {
		o := atomic.LoadInt32(&m.maxPar)
		if p <= o || atomic.CompareAndSwapInt32(&m.maxPar, o, p) {
			break
		}
	}
	d := q.GetData()
	id := q.GetMsgID()
	src, seq, ok := parseBody(d)
	switch {
	case !ok:
		m.c.Violate("damaged", "%s: handler got a payload nobody sent: id %d, %d bytes %x", m.what, id, len(d), clipB(d))
	case src != peer:
		m.c.Violate("foreign", "%s: message %d of peer %d handled on the connection of peer %d", m.what, seq, src, peer)
	case id != msgIDOf(seq):
		m.c.Violate("wrong-id", "%s: message %d of peer %d handled as id %d, was sent as %d", m.what, seq, src, id, msgIDOf(seq))
	}
	if nap != nil {
		nap()
	}
	if ok {
		if _, s2, ok2 := parseBody(q.GetData()); !ok2 || s2 != seq || q.GetMsgID() != id {
			m.c.Violate("changed-while-handled", "%s: message %d of peer %d changed while its handler ran", m.what, seq, src)
		}
		k.mu.Lock()
		k.seen[seq]++
		if k.seen[seq] > 1 {
			m.c.Violate("twice", "%s: message %d of peer %d handled %d times", m.what, seq, src, k.seen[seq])
		}
		if m.ordered && seq != k.next {
			m.c.Violate("order", "%s: message %d of peer %d handled when %d was due", m.what, seq, src, k.next)
		}
		k.next = seq + 1
		k.mu.Unlock()
	}
	atomic.AddInt32(&m.par, -1)
	if m.serial {
		atomic.StoreInt32(&k.busy, 0)
	}
	atomic.AddInt64(&k.handled, 1)
	m.c.Event(1)
}

const c04IDs = 5

func msgIDOf(seq uint32) uint32 { return 10 + seq%c04IDs*7 }

// napper makes handlers take a random short while.
func napper(c *Ctx, permille int, max time.Duration) func() {
	var n uint64
	return func() {
		x := atomic.AddUint64(&n, 1) * 0x9E3779B97F4A7C15
		x ^= x >> 29
		if int(x%1000) < permille {
			time.Sleep(time.Duration(x>>10) % max)
		}
	}
}

func peerStream(r *rand.Rand, src uint32, n int, big bool) (stream []byte, ends []int) {
	for s := 0; s < n; s++ {
		size := 12 + r.Intn(60)
		switch r.Intn(12) {
		case 0:
			size = 12
		case 1:
			size = 300 + r.Intn(1200)
		case 2:
			if big {
				size = 3000 + r.Intn(5000)
			}
		}
		stream = append(stream, tlv(msgIDOf(uint32(s)), body(src, uint32(s), size))...)
		ends = append(ends, len(stream))
	}
	return
}

// feed writes the stream cut at random.
func feed(r *rand.Rand, w *Wire, stream []byte, style int) error {
	pos := 0
	for pos < len(stream) {
		k := len(stream) - pos
		switch style {
		case 0:
		case 1:
			k = 1 + r.Intn(40)
		case 2:
			k = 1 + r.Intn(2000)
		default:
			k = 1 + r.Intn(9)
			if r.Intn(3) == 0 {
				k = 1 + r.Intn(4000)
			}
		}
		if pos+k > len(stream) {
			k = len(stream) - pos
		}
		if _, err := w.Write(stream[pos : pos+k]); err != nil {
			return err
		}
		pos += k
		if r.Intn(60) == 0 {
			time.Sleep(time.Duration(r.Intn(900)) * time.Microsecond)
		}
	}
	return nil
}

func scenC04(c *Ctx) {
	mode := c.P.Str("mode", "tcp")
	wm := c.P.Str("wm", zconf.WorkerModeHash)
	slices, pool := c.P.Bool("slices"), c.P.Bool("reqpool")
	chaos(c.Rng.Intn(4))
	r0 := c.Rng
	lanes := 6 + r0.Intn(8)
	gens := c.N(5, 40)
	readBuf := []int{1, 7, 64, 1024, 8192}[r0.Intn(5)]
	maxConn := lanes
	if mode == "kcp" { // KCP knows no end of a session: a late datagram may open a new one
		maxConn = lanes*gens + 20
	}
	size := c.P.Int("pool", 1+r0.Intn(4))
	m := &inMon{c: c, ordered: size > 0, serial: size > 0, what: fmt.Sprintf("%s/%s/pool=%d/slices=%v/reqpool=%v", mode, wm, size, slices, pool)}
	nap := napper(c, r0.Intn(60), time.Duration(1+r0.Intn(2500))*time.Microsecond)
	var peers sync.Map // port -> number
	var open sync.Map  // port -> connection
	handler := func(q ziface.IRequest) {
		key := portOf(q.GetConnection().RemoteAddrString())
		v, ok := peers.Load(key)
		if !ok && !WaitFor(StallLimit, func() bool { v, ok = peers.Load(key); return ok }) {
			c.Violate("foreign", "%s: a message is handled on a connection nobody opened (%s)", m.what, key)
			return
		}
		m.handle(q, v.(uint32), nap)
	}
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.WorkerMode = wm
		g.MaxConn = maxConn
		g.WorkerPoolSize = uint32(size)
		g.MaxWorkerTaskLen = []uint32{1, 2, 16, 1024}[r0.Intn(4)]
		g.IOReadBuffSize = uint32(readBuf)
		g.RouterSlicesMode = slices
		g.RequestPoolMode = pool
	}, func(s ziface.IServer) {
		for i := uint32(0); i < c04IDs; i++ {
			if slices {
				s.AddRouterSlices(msgIDOf(i), func(q ziface.IRequest) { q.RouterSlicesNext() }, handler)
			} else {
				s.AddRouter(msgIDOf(i), &funcRouter{f: handler})
			}
		}
		s.SetOnConnStart(func(k ziface.IConnection) { open.LoadOrStore(portOf(k.RemoteAddrString()), k) })
	}).Start()

	var src uint32
	var wg sync.WaitGroup
	total := int64(0)
	for lane := 0; lane < lanes; lane++ {
		seed := r0.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			for g := 0; g < gens && c.Violations() < 4; g++ {
				me := atomic.AddUint32(&src, 1)
				n := 1 + r.Intn(70)
				stream, _ := peerStream(r, me, n, mode != "kcp" && readBuf > 50)
				w := s.MustDial()
				peers.Store(w.Key(), me)
				err := feed(r, w, stream, r.Intn(4))
				if err != nil {
					c.Stall("write", "%s: peer could not write: %v", m.what, err)
					w.Close()
					continue
				}
				k := m.get(me)
				early := r.Intn(2) == 0
				if early && mode != "kcp" {
					closeOrderly(w)
				}
				if !WaitCount(StallLimit, int64(n), func() int64 { return atomic.LoadInt64(&k.handled) }) {
					c.Stall("lost", "%s: %d of %d messages handled (peer closed before the wait: %v)\n%s", m.what, atomic.LoadInt64(&k.handled), n, early, clip(Stacks(), 2500))
				}
				w.Close()
				if mode == "kcp" {
					if v, ok := open.Load(w.Key()); ok {
						v.(ziface.IConnection).Stop()
					}
				}
				atomic.AddInt64(&total, int64(n))
				c.Eval(fmt.Sprintf("%s/%d/%v", m.what, n, early))
			}
		}()
	}
	wg.Wait()
	time.Sleep(30 * time.Millisecond) // surplus handlings
	m.conns.Range(func(_, v interface{}) bool {
		k := v.(*inConn)
		k.mu.Lock()
		for s, n := range k.seen {
			if n != 1 {
				c.Violate("twice", "%s: message %d handled %d times", m.what, s, n)
			}
		}
		k.mu.Unlock()
		return true
	})
	c.Count("messages_"+mode, total)
	c.Count("connections", int64(src))
	c.Count("max_concurrent_handlers", int64(atomic.LoadInt32(&m.maxPar)))
	c.Sample(map[string]interface{}{"config": m.what, "connections": src, "messages": total, "max_concurrent_handlers": m.maxPar})
	chaos(0)
}

// closeOrderly ends the stream without dropping what was written.
func closeOrderly(w *Wire) {
	w.Close()
}

// scenC04Raw: without a decoder, the concatenation of what the handlers get is the stream.
func scenC04Raw(c *Ctx) {
	mode := c.P.Str("mode", "tcp")
	wm := c.P.Str("wm", zconf.WorkerModeHash)
	slices, pool := c.P.Bool("slices"), c.P.Bool("reqpool")
	chaos(c.Rng.Intn(4))
	r0 := c.Rng
	what := fmt.Sprintf("raw/%s/%s/slices=%v/reqpool=%v", mode, wm, slices, pool)
	nap := napper(c, 30+r0.Intn(60), time.Duration(1+r0.Intn(1500))*time.Microsecond)
	var conns sync.Map // port -> *inConn
	get := func(key string) *inConn {
		v, _ := conns.LoadOrStore(key, &inConn{})
		return v.(*inConn)
	}
	handler := func(q ziface.IRequest) {
		k := get(portOf(q.GetConnection().RemoteAddrString()))
		if !atomic.CompareAndSwapInt32(&k.busy, 0, 1) {
			c.Violate("overlap", "%s: two handlers of one connection at the same time", what)
		}
		nap()
		k.mu.Lock()
		k.raw = append(k.raw, q.GetData()...)
		k.mu.Unlock()
		atomic.StoreInt32(&k.busy, 0)
		c.Event(1)
	}
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.WorkerMode, g.MaxConn = wm, 8
		if mode == "kcp" {
			g.MaxConn = 300
		}
		g.WorkerPoolSize = uint32(1 + r0.Intn(4))
		g.MaxWorkerTaskLen = []uint32{1, 16, 1024}[r0.Intn(3)]
		g.IOReadBuffSize = []uint32{16, 64, 1024, 4096}[r0.Intn(4)]
		g.RouterSlicesMode, g.RequestPoolMode = slices, pool
	}, func(s ziface.IServer) {
		s.SetDecoder(nil)
		if slices {
			s.AddRouterSlices(0, handler)
		} else {
			s.AddRouter(0, &funcRouter{f: handler})
		}
	}).Start()
	gens := c.N(4, 30)
	var wg sync.WaitGroup
	for lane := 0; lane < 8; lane++ {
		seed := r0.Int63()
		lane := lane
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			for g := 0; g < gens && c.Violations() < 4; g++ {
				stream := body(uint32(lane+1), uint32(g), 12+r.Intn(20000))
				w := s.MustDial()
				k := get(w.Key())
				if err := feed(r, w, stream, 2+r.Intn(2)); err != nil {
					c.Stall("write", "%s: %v", what, err)
				}
				if mode != "kcp" && r.Intn(2) == 0 {
					closeOrderly(w)
				}
				n := func() int { k.mu.Lock(); defer k.mu.Unlock(); return len(k.raw) }
				if !WaitCount(StallLimit, int64(len(stream)), func() int64 { return int64(n()) }) {
					c.Stall("lost", "%s: %d of %d bytes handled", what, n(), len(stream))
				}
				w.Close()
				k.mu.Lock()
				if len(k.raw) >= len(stream) && !bytes.Equal(k.raw, stream) {
					at := 0
					for at < len(stream) && k.raw[at] == stream[at] {
						at++
					}
					c.Violate("damaged", "%s: handlers got %d bytes, peer sent %d; first difference at %d", what, len(k.raw), len(stream), at)
				}
				k.mu.Unlock()
				c.Eval(fmt.Sprintf("%s/%d", what, len(stream)))
			}
		}()
	}
	wg.Wait()
	chaos(0)
}

// scenC04Client: the client side handles what a server pushes exactly once, intact.
func scenC04Client(c *Ctx) {
	mode := c.P.Str("mode", "tcp")
	pool := c.P.Bool("reqpool")
	chaos(c.Rng.Intn(4))
	r0 := c.Rng
	per := c.N(150, 1500)
	nc := 4
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.RequestPoolMode = pool
		g.MaxConn = 50
		g.IOReadBuffSize = []uint32{7, 64, 1024}[r0.Intn(3)]
		g.WorkerMode = []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind}[r0.Intn(3)]
	}, func(s ziface.IServer) {
		s.AddRouter(1, &funcRouter{f: func(q ziface.IRequest) {
			src, n, ok := parseBody(q.GetData())
			if !ok {
				c.Violate("damaged", "hello damaged")
				return
			}
			r := rand.New(rand.NewSource(int64(src)))
			for i := uint32(0); i < n; i++ {
				if err := q.GetConnection().SendMsg(msgIDOf(i), body(src, i, 12+r.Intn(500))); err != nil {
					c.Stall("send", "server could not send: %v", err)
					return
				}
			}
		}})
	}).Start()
	m := &inMon{c: c, what: fmt.Sprintf("client/%s/reqpool=%v", mode, pool)}
	nap := napper(c, 40, time.Millisecond)
	var wg sync.WaitGroup
	for i := 1; i <= nc; i++ {
		src := uint32(i)
		wg.Add(1)
		go func() {
			defer wg.Done()
			cl := s.Client()
			for j := uint32(0); j < c04IDs; j++ {
				cl.AddRouter(msgIDOf(j), &funcRouter{f: func(q ziface.IRequest) { m.handle(q, src, nap) }})
			}
			started := make(chan ziface.IConnection, 1)
			cl.SetOnConnStart(func(k ziface.IConnection) { started <- k })
			cl.Start()
			select {
			case k := <-started:
				if err := k.SendMsg(1, body(src, uint32(per), 20)); err != nil {
					c.Stall("send", "client could not send: %v", err)
				}
			case <-time.After(StallLimit):
				c.Stall("connect", "client did not connect")
			}
			k := m.get(src)
			if !WaitCount(StallLimit, int64(per), func() int64 { return atomic.LoadInt64(&k.handled) }) {
				c.Stall("lost", "%s: client handled %d of %d messages", m.what, atomic.LoadInt64(&k.handled), per)
			}
			time.Sleep(10 * time.Millisecond)
			if n := atomic.LoadInt64(&k.handled); n > int64(per) {
				c.Violate("surplus", "%s: client handled %d messages, %d were sent", m.what, n, per)
			}
			c.Eval(fmt.Sprintf("%s/%d", m.what, src))
			cl.Stop()
		}()
	}
	wg.Wait()
	c.Count("client_messages", int64(nc*per))
	chaos(0)
}

// scenC04Slow: a handler that takes its time holds messages up, and costs none.
func scenC04Slow(c *Ctx) {
	mode := c.P.Str("mode", "tcp")
	wm := c.P.Str("wm", zconf.WorkerModeHash)
	r0 := c.Rng
	pool := c.P.Bool("reqpool")
	slow := time.Duration(c.N(6000, 35000)) * time.Millisecond
	m := &inMon{c: c, ordered: true, serial: true, what: fmt.Sprintf("slow/%s/%s/reqpool=%v", mode, wm, pool)}
	var peers sync.Map
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.WorkerMode, g.MaxConn, g.WorkerPoolSize = wm, 12, uint32(1+r0.Intn(2))
		g.MaxWorkerTaskLen = []uint32{1, 3}[r0.Intn(2)]
		g.RequestPoolMode = pool
		g.HeartbeatMax = 3600
	}, func(s ziface.IServer) {
		h := &funcRouter{f: func(q ziface.IRequest) {
			var v interface{}
			if !WaitFor(StallLimit, func() bool { var ok bool; v, ok = peers.Load(portOf(q.GetConnection().RemoteAddrString())); return ok }) {
				return
			}
			m.handle(q, v.(uint32), func() {
				if _, seq, _ := parseBody(q.GetData()); seq == 2 {
					time.Sleep(slow)
				}
			})
		}}
		for i := uint32(0); i < c04IDs; i++ {
			s.AddRouter(msgIDOf(i), h)
		}
	}).Start()
	var wg sync.WaitGroup
	lanes := 1
	if wm != zconf.WorkerModeHash { // with a shared worker the pauses would add up
		lanes = 4
	}
	for l := 1; l <= lanes; l++ {
		me := uint32(l)
		seed := r0.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			n := 30 + r.Intn(60)
			stream, _ := peerStream(r, me, n, false)
			w := s.MustDial()
			defer w.Close()
			peers.Store(w.Key(), me)
			if err := feed(r, w, stream, r.Intn(3)); err != nil {
				c.Stall("write", "%s: peer could not write: %v", m.what, err)
				return
			}
			k := m.get(me)
			if !WaitFor(slow+StallLimit, func() bool { return atomic.LoadInt64(&k.handled) >= int64(n) }) {
				c.Stall("lost", "%s: %d of %d messages handled", m.what, atomic.LoadInt64(&k.handled), n)
			}
			c.Eval(fmt.Sprintf("%s/%d", m.what, n))
			c.Count("held_up_messages", int64(n-2))
		}()
	}
	wg.Wait()
}

var _ znet.Option

func init() {
	scenario("c04.slow", scenC04Slow)
	scenario("c04.in", scenC04)
	scenario("c04.raw", scenC04Raw)
	scenario("c04.client", scenC04Client)
	register(&Check{
		Property: "C04",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			n := byTier(tier, 1, 6)
			i := 0
			for _, m := range []string{"tcp", "ws", "kcp", "tls"} {
				for _, wm := range []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind} {
					p := Params{"mode": m, "wm": wm, "slices": itoa(i % 2), "reqpool": itoa((i / 2) % 2)}
					i++
					if m == "tls" && tier != "thorough" && wm != zconf.WorkerModeHash {
						continue
					}
					js = append(js, spread("c04.in", p, seed+int64(i), n, 180*time.Second)...)
					if m == "tcp" {
						q := p.With("slices", itoa((i+1)%2), "reqpool", itoa((i/2+1)%2))
						js = append(js, spread("c04.in", q, seed+100+int64(i), n, 180*time.Second)...)
					}
				}
				js = append(js, spread("c04.raw", Params{"mode": m, "wm": []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind, ""}[i%4], "slices": itoa(i % 2), "reqpool": "1"}, seed, n, 180*time.Second)...)
				js = append(js, spread("c04.in", Params{"mode": m, "pool": "0", "reqpool": itoa(i % 2)}, seed, n, 180*time.Second)...)
			}
			js = append(js, spread("c04.raw", Params{"mode": "tcp", "reqpool": "0"}, seed, n, 180*time.Second)...)
			for k, wm := range []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind, zconf.WorkerModeHash} {
				js = append(js, spread("c04.slow", Params{"mode": []string{"tcp", "ws", "tls", "kcp"}[(k+int(seed))%4], "wm": wm, "reqpool": itoa(k % 2)}, seed, n, 180*time.Second)...)
			}
			for _, m := range []string{"tcp", "ws", "tls"} {
				js = append(js, spread("c04.client", Params{"mode": m, "reqpool": itoa(len(m) % 2)}, seed, n, 180*time.Second)...)
			}
			return js
		},
		Parallel: 7,
		MinEvals: 300,
		Rule:     "one evaluation = one peer connection (real transport, random cuts and pauses, some closing right after the last byte) whose self-describing messages are all observed at the handlers: exactly once, in order, never two at a time, intact; distinct = (transport, worker mode, pool size, router mode, request pool, number of messages, closing style)",
	})
}
