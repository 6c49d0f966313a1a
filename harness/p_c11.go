package harness

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
)

// C11: a handler sees only its own request, also when request objects are reused.

// stepRouter runs one function per step.
type stepRouter struct{ pre, main, post func(ziface.IRequest) }

func (s *stepRouter) PreHandle(q ziface.IRequest)  { s.pre(q) }
func (s *stepRouter) Handle(q ziface.IRequest)     { s.main(q) }
func (s *stepRouter) PostHandle(q ziface.IRequest) { s.post(q) }

var _ ziface.IRouter = &stepRouter{}

type reqMark struct{ src, seq uint32 }

// markDecoder decodes TLV and answers for the odd messages only.
type markDecoder struct{}

func (markDecoder) GetLengthField() *ziface.LengthField {
	return &ziface.LengthField{Order: binary.BigEndian, MaxFrameLength: 1 << 20, LengthFieldOffset: 4, LengthFieldLength: 4}
}
func (markDecoder) Intercept(ch ziface.IChain) ziface.IcResp {
	m := ch.GetIMessage()
	if m == nil || len(m.GetData()) < 8 {
		return ch.Proceed(ch.Request())
	}
	d := m.GetData()
	m.SetMsgID(binary.BigEndian.Uint32(d))
	v := append([]byte(nil), d[8:]...)
	m.SetData(v)
	m.SetDataLen(uint32(len(v)))
	src, seq, ok := parseBody(v)
	if ok && seq%2 == 1 {
		return ch.ProceedWithIMessage(m, reqMark{src, seq})
	}
	return ch.Proceed(ch.Request())
}

type c11Mon struct {
	c      *Ctx
	what   string
	slices bool
	conn   func(src uint32) string // peer -> expected remote port ("" unknown)
	steps  sync.Map                // src<<32|seq -> *int32
	done   int64
	copies int64
	copied int64
	nap    func()
}

func (m *c11Mon) flag(src, seq uint32) *int32 {
	v, _ := m.steps.LoadOrStore(uint64(src)<<32|uint64(seq), new(int32))
	return v.(*int32)
}

func c11Plan(seq uint32) string {
	switch {
	case seq%7 == 3:
		return "abort"
	case seq%11 == 5:
		return "panic"
	case seq%13 == 1:
		return "goto"
	}
	return ""
}

// look checks everything a handler can see; step 1 is the first.
func (m *c11Mon) look(q ziface.IRequest, step int) (src, seq uint32, ok bool) {
	d := q.GetData()
	src, seq, ok = parseBody(d)
	bad := func(sig, f string, a ...interface{}) {
		m.c.Violate(sig, "%s: message %d of peer %d at step %d: %s", m.what, seq, src, step, fmt.Sprintf(f, a...))
	}
	if !ok {
		bad("data", "data nobody sent: %x", clipB(d))
		return
	}
	if q.GetMsgID() != msgIDOf(seq) {
		bad("id", "identifier %d, was sent as %d", q.GetMsgID(), msgIDOf(seq))
	}
	if msg := q.GetMessage(); msg == nil || msg.GetMsgID() != msgIDOf(seq) || string(msg.GetData()) != string(d) {
		bad("message", "the message object is another message")
	}
	if k := q.GetConnection(); k == nil {
		bad("conn", "no connection")
	} else if want := m.conn(src); want != "" && portOf(k.RemoteAddrString()) != want {
		bad("conn", "connection to %s, it came over %s", k.RemoteAddrString(), want)
	}
	resp := q.GetResponse()
	if seq%2 == 1 {
		if resp != interface{}(reqMark{src, seq}) {
			bad("response", "response %v, the chain gave %v", resp, reqMark{src, seq})
		}
	} else if resp != nil {
		bad("response", "response %v, the chain gave none", resp)
	}
	if v, has := q.Get("late"); has {
		bad("left-over", "value stored by another message: %v", v)
	}
	v, has := q.Get("own")
	if step == 1 && has {
		bad("left-over", "value stored by another message: %v", v)
	}
	if step > 1 && (!has || v != interface{}(reqMark{src, seq})) {
		bad("stored", "stored value %v (%v), stored before was %v", v, has, reqMark{src, seq})
	}
	m.c.Event(1)
	return
}

func (m *c11Mon) first(q ziface.IRequest) {
	src, seq, ok := m.look(q, 1)
	if !ok {
		return
	}
	f := m.flag(src, seq)
	if old := atomic.LoadInt32(f); old != 0 {
		m.c.Violate("steps", "%s: message %d of peer %d: first step after steps %b", m.what, seq, src, old)
	}
	atomic.StoreInt32(f, 1)
	q.Set("own", reqMark{src, seq})
	m.nap()
	m.look(q, 2)
	switch c11Plan(seq) {
	case "abort":
		atomic.AddInt64(&m.done, 1)
		q.Abort()
		return
	case "goto":
		if !m.slices {
			q.Goto(znet.POST_HANDLE)
		}
	}
	if m.slices && seq%3 == 0 {
		q.RouterSlicesNext()
	}
}

func (m *c11Mon) second(q ziface.IRequest) {
	src, seq, ok := m.look(q, 2)
	if !ok {
		return
	}
	f := m.flag(src, seq)
	if old := atomic.LoadInt32(f); old != 1 || !m.slices && c11Plan(seq) == "goto" || c11Plan(seq) == "abort" {
		m.c.Violate("steps", "%s: message %d of peer %d (%s): second step after steps %b", m.what, seq, src, c11Plan(seq), old)
	}
	atomic.StoreInt32(f, 3)
	if seq%5 == 2 {
		q.Set("late2", int(seq))
		// helpers of the handler use the stored values at the same time
		var helpers sync.WaitGroup
		for i := 0; i < 2 && seq%2 == 0; i++ {
			i := i
			helpers.Add(1)
			go func() {
				defer helpers.Done()
				for j := 0; j < 6; j++ {
					k := "helper" + itoa(i*10+j)
					q.Set(k, j)
					if v, _ := q.Get(k); v != interface{}(j) {
						m.c.Violate("stored", "%s: value %v stored by a helper of message %d of peer %d is %v", m.what, j, seq, src, v)
					}
				}
			}()
		}
		cp := q.Copy()
		helpers.Wait()
		atomic.AddInt64(&m.copies, 1)
		q.Set("late2", -1)
		go m.watchCopy(cp, src, seq)
	}
	m.nap()
	m.look(q, 2)
	if c11Plan(seq) == "panic" {
		atomic.AddInt64(&m.done, 1)
		panic("planned")
	}
}

func (m *c11Mon) third(q ziface.IRequest) {
	src, seq, ok := m.look(q, 3)
	if !ok {
		return
	}
	f := m.flag(src, seq)
	want := int32(3)
	if !m.slices && c11Plan(seq) == "goto" {
		want = 1
	}
	if old := atomic.LoadInt32(f); old != want {
		m.c.Violate("steps", "%s: message %d of peer %d (%s): third step after steps %b", m.what, seq, src, c11Plan(seq), old)
	}
	atomic.StoreInt32(f, 7)
	atomic.AddInt64(&m.done, 1)
	q.Set("late", reqMark{src, seq}) // must not be seen by anyone
	if seq%2 == 0 {                  // nor may this, in particular not by copies
		q.GetMessage().SetMsgID(4000000000)
		q.GetMessage().SetData([]byte("gone"))
	}
}

// watchCopy keeps looking at a copy while the original is handled on and reused.
func (m *c11Mon) watchCopy(cp ziface.IRequest, src, seq uint32) {
	defer atomic.AddInt64(&m.copied, 1)
	if cp == nil {
		m.c.Violate("copy", "%s: no copy", m.what)
		return
	}
	for i := 0; i < 4; i++ {
		s2, q2, ok := parseBody(cp.GetData())
		own, _ := cp.Get("own")
		late, _ := cp.Get("late2")
		_, foreign := cp.Get("late")
		var resp interface{} = cp.GetResponse()
		var want interface{}
		if seq%2 == 1 {
			want = reqMark{src, seq}
		}
		if !ok || s2 != src || q2 != seq || cp.GetMsgID() != msgIDOf(seq) || own != interface{}(reqMark{src, seq}) || late != interface{}(int(seq)) || foreign || resp != want {
			m.c.Violate("copy", "%s: copy of message %d of peer %d, look %d: data of %d/%d (%v), id %d, stored %v %v, later value seen %v, response %v instead of %v", m.what, seq, src, i, s2, q2, ok, cp.GetMsgID(), own, late, foreign, resp, want)
			return
		}
		cp.Set("mine", i)
		if v, _ := cp.Get("mine"); v != interface{}(i) {
			m.c.Violate("copy", "%s: a value stored in a copy is not found", m.what)
		}
		m.c.Event(1)
		time.Sleep(time.Duration(i*300) * time.Microsecond)
	}
}

func (m *c11Mon) routes(slices bool, add func(id uint32, r ziface.IRouter), addS func(id uint32, h ...ziface.RouterHandler)) {
	for i := uint32(0); i < c04IDs; i++ {
		if slices {
			addS(msgIDOf(i), m.first, m.second, m.third)
		} else {
			add(msgIDOf(i), &stepRouter{m.first, m.second, m.third})
		}
	}
}

func scenC11(c *Ctx) {
	mode := c.P.Str("mode", "tcp")
	slices, pool := c.P.Bool("slices"), c.P.Bool("reqpool")
	wm := c.P.Str("wm", "")
	chaos(c.Rng.Intn(3))
	r0 := c.Rng
	size := c.P.Int("pool", 1+r0.Intn(4))
	side := c.P.Str("side", "server")
	what := fmt.Sprintf("%s/%s/%s/pool=%d/slices=%v/reqpool=%v", side, mode, wm, size, slices, pool)
	var ports sync.Map
	m := &c11Mon{c: c, what: what, slices: slices, nap: napper(c, 20+r0.Intn(60), time.Duration(1+r0.Intn(900))*time.Microsecond),
		conn: func(src uint32) string {
			v, ok := ports.Load(src)
			if !ok {
				return ""
			}
			return v.(string)
		}}
	lanes, gens := 6, c.N(14, 80)
	var total int64
	stream := func(r *rand.Rand, me uint32, n int) []byte {
		var b []byte
		for s := 0; s < n; s++ {
			if r.Intn(12) == 0 { // nobody handles this one
				b = append(b, tlv(999, body(me, 1, 12+r.Intn(40)))...)
			}
			b = append(b, tlv(msgIDOf(uint32(s)), body(me, uint32(s), 12+r.Intn(120)))...)
		}
		return b
	}
	finish := func(upto int64, who string) {
		if !WaitCount(StallLimit, upto, func() int64 { return atomic.LoadInt64(&m.done) }) {
			c.Stall("unhandled", "%s: %s: %d of %d messages handled to their end", what, who, atomic.LoadInt64(&m.done), upto)
		}
		if !WaitFor(StallLimit, func() bool { return atomic.LoadInt64(&m.copied) >= atomic.LoadInt64(&m.copies) }) {
			c.Stall("copies", "%s: copies unfinished", what)
		}
	}
	if side == "server" {
		s := c.NewSrv(mode, func(g *zconf.Config) {
			g.WorkerMode, g.WorkerPoolSize = wm, uint32(size)
			g.MaxConn = 400
			g.MaxWorkerTaskLen = []uint32{1, 16, 256}[r0.Intn(3)]
			g.RouterSlicesMode, g.RequestPoolMode = slices, pool
		}, func(s ziface.IServer) {
			s.SetDecoder(markDecoder{})
			m.routes(slices, s.AddRouter, func(id uint32, h ...ziface.RouterHandler) { s.AddRouterSlices(id, h...) })
		}).Start()
		var src uint32
		var wg sync.WaitGroup
		for l := 0; l < lanes; l++ {
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for g := 0; g < gens && c.Violations() == 0; g++ {
					me := atomic.AddUint32(&src, 1)
					w := s.MustDial()
					ports.Store(me, w.Key())
					n := 20 + r.Intn(80)
					if err := feed(r, w, stream(r, me, n), r.Intn(4)); err != nil {
						c.Stall("write", "%s: %v", what, err)
					}
					atomic.AddInt64(&total, int64(n))
					if mode == "kcp" || r.Intn(2) == 0 {
						last := m.flag(me, uint32(n-1))
						if !WaitFor(StallLimit, func() bool { return atomic.LoadInt32(last) != 0 }) {
							c.Stall("unhandled", "%s: the last of %d messages of an open connection was not handled", what, n)
							return
						}
					}
					if mode != "kcp" {
						w.Close()
					}
					c.Eval(fmt.Sprintf("%s/%d", what, n))
				}
			}()
		}
		wg.Wait()
		finish(atomic.LoadInt64(&total), "server")
	} else {
		rs := c.RawServer(mode)
		zconf.GlobalObject.RequestPoolMode = pool
		zconf.GlobalObject.RouterSlicesMode = false
		for g := 0; g < c.N(10, 40) && c.Violations() == 0; g++ {
			me := uint32(g + 1)
			cl := rs.Client()
			cl.SetDecoder(markDecoder{})
			m.routes(false, cl.AddRouter, nil)
			ports.Store(me, fmt.Sprint(rs.Port))
			cl.Start()
			var w *Wire
			select {
			case w = <-rs.C:
			case <-time.After(StallLimit):
				c.Stall("connect", "client did not connect")
				return
			}
			n := 200
			total += int64(n)
			feed(r0, w, stream(r0, me, n), r0.Intn(4))
			finish(total, "client")
			cl.Stop()
			w.Close()
			c.Eval(fmt.Sprintf("%s/%d", what, g))
		}
	}
	c.Count("requests", total)
	c.Count("copies_watched", atomic.LoadInt64(&m.copied))
	chaos(0)
}

func init() {
	scenario("c11", scenC11)
	register(&Check{
		Property: "C11",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			n := byTier(tier, 1, 8)
			i := 0
			for _, m := range []string{"tcp", "ws", "tls", "kcp"} {
				for _, pool := range []string{"1", "0"} {
					for _, sl := range []string{"0", "1"} {
						if pool == "0" && m != "tcp" && tier != "thorough" {
							continue
						}
						wm := []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind}[i%3]
						js = append(js, spread("c11", Params{"mode": m, "wm": wm, "slices": sl, "reqpool": pool}, seed+int64(i), n, 180*time.Second)...)
						if m == "tcp" {
							js = append(js, spread("c11", Params{"mode": m, "pool": "0", "slices": sl, "reqpool": pool}, seed+int64(i), n, 180*time.Second)...)
						}
						i++
					}
				}
			}
			for _, m := range []string{"tcp", "ws", "tls"} {
				js = append(js, spread("c11", Params{"side": "client", "mode": m, "reqpool": "1"}, seed, n, 180*time.Second)...)
			}
			return js
		},
		Parallel: 6,
		MinEvals: 200,
		Rule:     "one evaluation = one connection's stream of self-describing messages; every handler step checks identifier, data, connection, response and stored values for anything foreign or left over, and copies are watched while the originals are reused; distinct = (side, transport, worker mode, pool, router style, reuse, messages)",
	})
}
