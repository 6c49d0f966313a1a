package harness

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
)

// C16: heartbeat ends silent connections and never active ones.

func onlyMain(f func(ziface.IRequest)) *stepRouter {
	nop := func(ziface.IRequest) {}
	return &stepRouter{nop, f, nop}
}

// hbConn watches one connection under heartbeat.
type hbConn struct {
	mu     sync.Mutex
	born   time.Time   // before the connection existed
	writes []time.Time // start of each write of the peer (whole messages, in order)
	seen   int         // messages handled
	dead   time.Time   // first verdict
	deads  int
	ended  chan struct{} // the stop hook has run
	conn   ziface.IConnection
}

func newHB() *hbConn { return &hbConn{born: time.Now(), ended: make(chan struct{})} }

func (h *hbConn) wrote() {
	h.mu.Lock()
	h.writes = append(h.writes, time.Now())
	h.mu.Unlock()
}
func (h *hbConn) handled() {
	h.mu.Lock()
	h.seen++
	h.mu.Unlock()
}

// verdict is called when zinx takes the connection for dead, which is right only if
// nothing was received for max: every message handled by now was received after its
// write began.
func (h *hbConn) verdict(c *Ctx, what string, max time.Duration, open bool) {
	t := time.Now()
	h.mu.Lock()
	defer h.mu.Unlock()
	h.deads++
	if h.dead.IsZero() {
		h.dead = t
	}
	if !open {
		return // over already, nothing to be judged
	}
	last := h.born
	if h.seen > 0 && h.seen <= len(h.writes) {
		last = h.writes[h.seen-1]
	}
	if d := t.Sub(last); d < max {
		c.Violate("early", "%s: taken for dead %v after data was sent that had been handled, the maximum silence is %v", what, d, max)
	}
}

func scenC16(c *Ctx) {
	mode := c.P.Str("mode", "tcp")
	side := c.P.Str("side", "server")
	slices := c.P.Bool("slices")
	big := c.P.Bool("big")
	r0 := c.Rng
	chaos(r0.Intn(3))
	maxSec := c.P.Int("max", 1)
	max := time.Duration(maxSec) * time.Second
	interval := time.Duration([]int{40, 90, 200, 450, 1300}[c.P.Int("iv", r0.Intn(5))]) * time.Millisecond
	custom := c.P.Bool("custom")
	ownDead := custom && c.P.Str("dead", "own") == "own"
	what := fmt.Sprintf("%s/%s/max=%v/every=%v/custom=%v/slices=%v", side, mode, max, interval, custom, slices)

	var byPort, byConn sync.Map
	find := func(k ziface.IConnection) *hbConn {
		if v, ok := byConn.Load(k); ok {
			return v.(*hbConn)
		}
		return nil
	}
	hbID := ziface.HeartBeatDefaultMsgID
	var routed int64
	opt := &ziface.HeartBeatOption{}
	wantMsg := func(string) []byte { return nil } // unknown for the default
	if custom {
		hbID = uint32(50000+r0.Intn(1000)) + []uint32{0, 1 << 16, 1 << 24, 1 << 31}[r0.Intn(4)]
		if r0.Intn(4) == 0 {
			hbID = 0
		}
		pad := 0
		if big {
			pad = 300 << 10
		}
		empty := c.P.Bool("empty")
		mk := func(port string) []byte {
			if empty { // a beat needs no content
				return []byte{}
			}
			return append([]byte("beat for "+port+" "), bytes.Repeat([]byte{'#'}, pad)...)
		}
		wantMsg = mk
		opt.MakeMsg = func(k ziface.IConnection) []byte {
			if side == "client" {
				return mk("server")
			}
			return mk(portOf(k.RemoteAddrString()))
		}
		if ownDead {
			opt.OnRemoteNotAlive = func(k ziface.IConnection) {
				if h := find(k); h != nil {
					h.verdict(c, what, max, k.Context().Err() == nil)
				} else if mode != "kcp" { // which has ghost sessions
					c.Violate("foreign", "%s: a connection that never started was taken for dead", what)
				}
				k.Stop()
			}
		}
		opt.HeartBeatMsgID = hbID
		if slices {
			opt.RouterSlices = []ziface.RouterHandler{func(q ziface.IRequest) { atomic.AddInt64(&routed, 1) }}
		} else {
			opt.Router = onlyMain(func(q ziface.IRequest) { atomic.AddInt64(&routed, 1) })
		}
	}
	onStart := func(k ziface.IConnection) {
		if side == "client" {
			h := newHB()
			h.conn = k
			byConn.Store(k, h)
			return
		}
		h := newHB()
		h.conn = k
		if _, dup := byPort.LoadOrStore(portOf(k.RemoteAddrString()), h); dup {
			return // a ghost session of KCP
		}
		byConn.Store(k, h)
	}
	onStop := func(k ziface.IConnection) {
		if h := find(k); h != nil {
			if !ownDead {
				h.mu.Lock()
				h.dead = time.Now()
				h.mu.Unlock()
			}
			close(h.ended)
		}
	}
	handler := func(q ziface.IRequest) {
		if h := find(q.GetConnection()); h != nil {
			h.handled()
		}
	}

	// one peer's script; w is the peer's end
	kinds := []string{"silent", "active", "trickle", "burst-then-silent", "not-reading", "text", "beats"}
	run := func(r *rand.Rand, w *Wire, h *hbConn, kind string, port string) {
		wr := func(id uint32, n int) error {
			h.wrote()
			_, err := w.Write(tlv(id, body(1, 1, n)))
			return err
		}
		begin := time.Now()
		var beats, other int64
		var firstBeat atomic.Int64
		readerDone := make(chan error, 1)
		if kind != "not-reading" {
			go func() {
				fr := NewFrameReader(w)
				for {
					f, err := fr.Next(1 << 20)
					if err != nil {
						if errors.Is(err, errBadFrame) {
							c.Violate("frame", "%s: %v", what, err)
						}
						readerDone <- err
						return
					}
					if f.ID != hbID {
						atomic.AddInt64(&other, 1)
						c.Violate("beat-id", "%s: a message with id %d arrived, heartbeats have %d", what, f.ID, hbID)
						continue
					}
					if want := wantMsg(port); want != nil && !bytes.Equal(f.Data, want) {
						c.Violate("beat-data", "%s: heartbeat for %s is %q, not what the user's function made (%q)", what, port, clipB(f.Data), clipB(want))
					}
					firstBeat.CompareAndSwap(0, int64(time.Since(begin)))
					n := atomic.AddInt64(&beats, 1)
					// never more than one per interval since the connection began
					if lim := int64(time.Since(h.born)/interval) + 2; n > lim {
						c.Violate("too-many-beats", "%s: %d heartbeats within %v", what, n, time.Since(h.born))
					}
					c.Event(1)
				}
			}()
		}
		life := time.Duration(0) // how long the peer kept the connection busy
		last := h.born
		switch kind {
		case "active", "beats", "text":
			w.allText = kind == "text" // over WebSocket, text messages are data, too
			until := begin.Add(max*2 + time.Duration(r.Intn(1000))*time.Millisecond)
			for time.Now().Before(until) {
				last = time.Now()
				id := uint32(1)
				if kind == "beats" { // the peer's own heartbeats are data like any other
					if _, err := w.Write(tlv(hbID, []byte("pong"))); err != nil {
						break
					}
				} else if kind == "text" {
					h.wrote()
					if _, err := w.Write(tlv(id, bytes.Repeat([]byte("x"), 20+r.Intn(60)))); err != nil {
						break
					}
				} else if err := wr(id, 20+r.Intn(60)); err != nil {
					break
				}
				time.Sleep(max/8 + time.Duration(r.Int63n(int64(max/4))))
			}
			life = time.Since(begin)
		case "trickle": // one long message, byte by byte: it is never complete, but data keeps arriving
			m := tlv(1, body(1, 1, 4000))
			until := begin.Add(max*2 + time.Duration(r.Intn(1000))*time.Millisecond)
			for i := 0; time.Now().Before(until); i++ {
				last = time.Now()
				if _, err := w.Write(m[i%len(m) : i%len(m)+1]); err != nil {
					break
				}
				time.Sleep(max/8 + time.Duration(r.Int63n(int64(max/4))))
			}
			life = time.Since(begin)
		case "burst-then-silent":
			for i := 0; i < 5; i++ {
				last = time.Now()
				wr(1, 30)
				time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
			}
		default:
			if mode == "kcp" { // the server learns of it by data only
				last = time.Now()
				wr(1, 30)
			}
		}
		busy := life > 0
		if busy {
			select {
			case <-h.ended:
				if time.Since(last) < max { // it ended while data was arriving
					c.Stall("active-ended", "%s: a connection with data at least every %v was ended (%s)", what, 3*max/8, kind)
					return
				}
			default:
			}
			if n := atomic.LoadInt64(&beats); kind != "not-reading" && n < int64(life/interval)/4 {
				c.Stall("few-beats", "%s: %d heartbeats in %v (%s)", what, n, life, kind)
			}
			if f := time.Duration(firstBeat.Load()); f != 0 && f < interval-begin.Sub(h.born) {
				c.Violate("beat-early", "%s: first heartbeat after %v", what, f)
			}
		}
		// from here on the peer is silent
		select {
		case <-h.ended:
		case <-time.After(max + interval + StallLimit):
			c.Stall("not-ended", "%s: nothing was received for %v and the connection is still open (%s)\n%s", what, time.Since(last), kind, clip(Stacks(), 3000))
			return
		}
		h.mu.Lock()
		dead, deads := h.dead, h.deads
		h.mu.Unlock()
		d := dead.Sub(last)
		if !ownDead && d < max && !busy { // the stop hook is the only sign
			early := c.Stall // what was sent last may not have been received yet
			if last == h.born {
				early = c.Violate
			}
			early("early", "%s: ended %v after data was sent, the maximum silence is %v (%s)", what, d, max, kind)
		}
		if ownDead && deads == 0 {
			c.Violate("no-handler", "%s: a silent connection was ended without the user's handler (%s)", what, kind)
		}
		if d > max+interval+interval/2+3*time.Second {
			c.Stall("late", "%s: taken for dead %v after the last data (%s)", what, d, kind)
		}
		// the heartbeats stop with the connection, and the peer sees the end
		if kind != "not-reading" && mode != "kcp" {
			select {
			case <-readerDone:
			case <-time.After(StallLimit):
				c.Stall("peer-open", "%s: the connection was ended, the peer's side stays open (%s)", what, kind)
			}
		}
		n0 := atomic.LoadInt64(&beats)
		c.Count("beats", n0)
		c.Count("deaths", 1)
		c.Eval(fmt.Sprintf("%s/%s", what, kind))
		w.Close()
	}

	var wg sync.WaitGroup
	gens := c.N(1, 3)
	if side == "client" {
		zconf.GlobalObject.HeartbeatMax = maxSec
		for i := 0; i < 6; i++ {
			rs := c.RawServer(mode)
			cl := rs.Client()
			if custom {
				cl.StartHeartBeatWithOption(interval, opt)
			} else {
				cl.StartHeartBeat(interval)
			}
			cl.AddRouter(1, onlyMain(handler))
			started := make(chan *hbConn, 1)
			cl.SetOnConnStart(func(k ziface.IConnection) {
				onStart(k)
				started <- find(k)
			})
			cl.SetOnConnStop(onStop)
			go cl.Start()
			seed := r0.Int63()
			kind := kinds[i%len(kinds)]
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				select {
				case w := <-rs.C:
					var h *hbConn
					select {
					case h = <-started:
					case <-time.After(StallLimit):
						c.Stall("not-started", "%s: client connection not started", what)
						return
					}
					run(r, w, h, kind, "server")
				case <-time.After(StallLimit):
					c.Stall("connect", "%s: client did not connect", what)
				}
			}()
		}
		wg.Wait()
		chaos(0)
		return
	}
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.HeartbeatMax = maxSec
		g.MaxConn = 500
		g.RouterSlicesMode = slices
		g.WorkerPoolSize = 4
	}, func(s ziface.IServer) {
		if custom {
			s.StartHeartBeatWithOption(interval, opt)
		} else {
			s.StartHeartBeat(interval)
		}
		if slices {
			s.AddRouterSlices(1, handler)
		} else {
			s.AddRouter(1, onlyMain(handler))
		}
		s.SetOnConnStart(onStart)
		s.SetOnConnStop(onStop)
	}).Start()
	peers := 14
	for i := 0; i < peers; i++ {
		seed := r0.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			for g := 0; g < gens && c.Violations() == 0; g++ {
				kind := kinds[(i+g)%len(kinds)]
				w := s.MustDial()
				if mode == "kcp" {
					w.Write(tlv(2, nil)) // shows itself
				}
				var h *hbConn
				if !WaitFor(StallLimit, func() bool {
					v, ok := byPort.Load(w.Key())
					if ok {
						h = v.(*hbConn)
					}
					return ok
				}) {
					c.Stall("not-started", "%s: a peer's connection did not start", what)
					return
				}
				run(r, w, h, kind, w.Key())
			}
		}()
	}
	wg.Wait()
	if custom && mode != "kcp" && atomic.LoadInt64(&routed) == 0 {
		c.Stall("not-routed", "%s: no heartbeat message of a peer reached the user's router", what)
	}
	c.Count("peer_beats_routed", atomic.LoadInt64(&routed))
	chaos(0)
}

// ------------------------------------------------------------ virtual time

// hbFake is a connection with a scripted life, for the checker alone.
type hbFake struct {
	ziface.IConnection
	ctx    context.Context
	cancel context.CancelFunc
	alive  func() bool
	send   func(id uint32, b []byte) error
	hc     ziface.IHeartbeatChecker
	id     uint64
}

func (f *hbFake) IsAlive() bool                           { return f.alive() }
func (f *hbFake) SendMsg(id uint32, b []byte) error       { return f.send(id, b) }
func (f *hbFake) SetHeartBeat(h ziface.IHeartbeatChecker) { f.hc = h }
func (f *hbFake) GetConnID() uint64                       { return f.id }
func (f *hbFake) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(1, 2, 3, 4), Port: int(f.id)}
}
func (f *hbFake) LocalAddr() net.Addr      { return &net.TCPAddr{IP: net.IPv4(5, 6, 7, 8), Port: 1} }
func (f *hbFake) RemoteAddrString() string { return f.RemoteAddr().String() }
func (f *hbFake) LocalAddrString() string  { return f.LocalAddr().String() }
func (f *hbFake) Stop()                    { f.cancel() }
func (f *hbFake) Context() context.Context { return f.ctx }

// scenC16V: the checker against a scripted connection, in virtual time, where the
// monitor knows to the nanosecond when it has to act.
func scenC16V(c *Ctx) {
	r0 := c.Rng
	chaos(0)
	for round := 0; round < c.N(60, 800) && c.Violations() == 0; round++ {
		seed := r0.Int63()
		synctest.Test(c.T, func(*testing.T) {
			r := rand.New(rand.NewSource(seed))
			interval := time.Duration(1+r.Intn(40)) * 50 * time.Millisecond
			n := 1 + r.Intn(5)
			proto := znet.NewHeartbeatChecker(interval)
			how := r.Intn(4)
			hbID := ziface.HeartBeatDefaultMsgID
			type st struct {
				f                   *hbFake
				mu                  sync.Mutex
				beats, deads        []time.Duration
				diesAt, stallAt, up time.Duration
			}
			conns := make([]*st, n)
			t0 := time.Now()
			var find = func(k ziface.IConnection) *st {
				if f, ok := k.(*hbFake); ok && f.id < uint64(n) {
					return conns[f.id]
				}
				return nil
			}
			if how&1 != 0 {
				proto.SetHeartbeatMsgFunc(func(k ziface.IConnection) []byte { return []byte(fmt.Sprint("hb", k.GetConnID())) })
				hbID = []uint32{777, 0, 1 << 31}[r.Intn(3)]
				proto.BindRouter(hbID, onlyMain(func(ziface.IRequest) {}))
			}
			if how&2 != 0 {
				proto.SetHeartbeatFunc(func(k ziface.IConnection) error {
					return k.SendMsg(hbID, []byte(fmt.Sprint("fn", k.GetConnID())))
				})
			}
			proto.SetOnRemoteNotAlive(func(k ziface.IConnection) {
				s := find(k)
				if s == nil {
					c.Violate("v-foreign", "not-alive handler called for another connection")
					return
				}
				s.mu.Lock()
				s.deads = append(s.deads, time.Since(t0))
				s.mu.Unlock()
				k.Stop()
			})
			for i := range conns {
				s := &st{diesAt: time.Duration(r.Intn(60)) * interval / 2, up: time.Duration(20+r.Intn(20))*interval + interval/3}
				if r.Intn(3) == 0 {
					s.stallAt = time.Duration(1+r.Intn(20)) * interval / 2 // from then on the peer does not read
				}
				f := &hbFake{id: uint64(i)}
				f.ctx, f.cancel = context.WithCancel(context.Background())
				f.alive = func() bool { return f.ctx.Err() == nil && time.Since(t0) < s.diesAt+interval/4 }
				f.send = func(id uint32, b []byte) error {
					want := ""
					if how&2 != 0 {
						want = fmt.Sprint("fn", f.id)
					} else if how&1 != 0 {
						want = fmt.Sprint("hb", f.id)
					}
					if id != hbID || want != "" && string(b) != want || len(b) == 0 {
						c.Violate("v-beat", "heartbeat id %d data %q, configured is id %d data %q", id, b, hbID, want)
					}
					s.mu.Lock()
					s.beats = append(s.beats, time.Since(t0))
					s.mu.Unlock()
					if s.stallAt > 0 && time.Since(t0) >= s.stallAt {
						<-f.ctx.Done()
						return errors.New("closed")
					}
					return nil
				}
				s.f = f
				conns[i] = s
				h := proto.Clone()
				h.BindConn(f)
				if f.hc != h {
					c.Violate("v-bind", "binding did not give the connection its checker")
				}
				h.Start()
				go func() { // what the connection does when it ends
					select {
					case <-f.ctx.Done():
					case <-time.After(s.up):
						f.cancel()
					}
					h.Stop()
				}()
			}
			time.Sleep(60 * interval)
			synctest.Wait()
			for i, s := range conns {
				s.mu.Lock()
				// ticks are at k*interval; it is dead from diesAt+interval/4 on
				limit := s.diesAt + interval/4
				deadTick := (limit + interval - 1) / interval * interval
				if deadTick == 0 {
					deadTick = interval
				}
				var wantBeats []time.Duration
				for t := interval; t < deadTick && t < s.up; t += interval {
					wantBeats = append(wantBeats, t)
					if s.stallAt > 0 && t >= s.stallAt {
						break
					}
				}
				if fmt.Sprint(s.beats) != fmt.Sprint(wantBeats) {
					c.Violate("v-beats", "interval %v, dead from %v, closed at %v, peer stuck from %v: heartbeats at %v, expected at %v (connection %d of %d)", interval, limit, s.up, s.stallAt, s.beats, wantBeats, i, n)
				}
				if deadTick < s.up {
					if len(s.deads) != 1 || s.deads[0] != deadTick {
						c.Violate("v-dead", "interval %v, silent from %v, peer stuck from %v: taken for dead at %v, expected at %v", interval, limit, s.stallAt, s.deads, deadTick)
					}
				} else if deadTick > s.up && len(s.deads) != 0 {
					c.Violate("v-dead-after-end", "ended at %v, taken for dead at %v", s.up, s.deads)
				}
				c.Event(len(s.beats) + len(s.deads))
				s.mu.Unlock()
			}
			c.Eval(fmt.Sprintf("virtual/%v/%d/%d/%x", interval, n, how, seed))
		})
	}
}

func init() {
	scenario("c16", scenC16)
	scenario("c16.v", scenC16V)
	register(&Check{
		Property: "C16",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			n := byTier(tier, 1, 8)
			i := 0
			for _, m := range []string{"tcp", "ws", "kcp", "tls"} {
				for _, cu := range []string{"0", "1"} {
					for _, iv := range []string{"0", "2", "3"} {
						i++
						js = append(js, spread("c16", Params{"mode": m, "custom": cu, "iv": iv, "slices": itoa(i % 2), "max": itoa(1 + i%3/2)}, seed+int64(i), n, 180*time.Second)...)
					}
				}
				js = append(js, spread("c16", Params{"mode": m, "custom": "1", "iv": "1", "big": "1", "dead": []string{"own", "default"}[i%2]}, seed, n, 180*time.Second)...)
			}
			js = append(js, spread("c16", Params{"mode": []string{"tcp", "ws", "kcp", "tls"}[seed&3], "custom": "1", "iv": "2", "empty": "1"}, seed, byTier(tier, 1, 4), 180*time.Second)...)
			for _, m := range []string{"tcp", "ws", "tls"} {
				for _, cu := range []string{"0", "1"} {
					js = append(js, spread("c16", Params{"side": "client", "mode": m, "custom": cu, "big": cu}, seed, n, 180*time.Second)...)
				}
			}
			js = append(js, spread("c16.v", Params{}, seed, byTier(tier, 2, 6), 180*time.Second)...)
			return js
		},
		Parallel: 16,
		MinEvals: 150,
		Rule:     "one evaluation = one connection under heartbeat whose peer is silent, active, trickling, bursty, answering or not reading, judged by the times of data and of the verdict; or one set of scripted connections under the checker in virtual time; distinct = (side, transport, maximum, interval, options, peer behaviour)",
	})
}
