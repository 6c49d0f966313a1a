package harness

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/zdecoder"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zpack"
)

// C13: the interceptor chain.

// What interceptor i does to message (src, seq): a pure function, so that the reference can compute it.
func icAct(salt, i int, src, seq uint32) string {
	x := uint32(salt)*2654435761 + uint32(i)*40503 + src*97 + seq*2246822519
	x ^= x >> 15
	x *= 2246822519
	x ^= x >> 13
	switch x % 16 {
	case 0:
		return "drop"
	case 1:
		return "string" // passes something that is no request
	case 2, 3:
		return "response"
	case 4, 5:
		return "data"
	case 6:
		return "id"
	case 7:
		return "nilresponse"
	case 8:
		return "nilmessage"
	default:
		return "pass"
	}
}

type icResp struct {
	i        int
	src, seq uint32
}

func icNewID(id uint32) uint32 { return msgIDOf((id-10)/7 + 1) }

const icAlien = "not a request"

type testIC struct {
	i, salt, n int
	m          *icMon
}

type icMon struct {
	c    *Ctx
	what string
	salt int
	n    int
	raw  bool // no decoder: a WebSocket message is a message
	t    *traces
	lost int64
}

func (ic *testIC) Intercept(ch ziface.IChain) ziface.IcResp {
	m := ic.m
	req := ch.Request()
	if s, ok := req.(string); ok {
		if s[:len(icAlien)] != icAlien {
			m.c.Violate("alien", "%s: interceptor %d got %q", m.what, ic.i, s)
		}
		if ch.GetIMessage() != nil {
			m.c.Violate("alien", "%s: a message where none was passed on", m.what)
		}
		var src, seq uint32
		fmt.Sscanf(s[len(icAlien):], "%d %d", &src, &seq)
		m.note(src, seq, fmt.Sprintf("i%d:alien", ic.i))
		if icAct(ic.salt, ic.i, src, seq) == "response" { // there is no request to put it into
			m.back(ic.i, src, seq, ch.ProceedWithIMessage(zpack.NewMsgPackage(1, nil), icResp{ic.i, src, seq}))
		} else {
			m.back(ic.i, src, seq, ch.Proceed(req))
		}
		return icResp{ic.i, src, seq}
	}
	msg := ch.GetIMessage()
	if msg == nil {
		m.c.Violate("no-message", "%s: interceptor %d got no message (%T)", m.what, ic.i, req)
		return ch.Proceed(req)
	}
	src, seq, ok := parseBody(msg.GetData())
	if !ok {
		m.c.Violate("undecoded", "%s: interceptor %d sees data nobody sent (not decoded before, or damaged): id %d %x", m.what, ic.i, msg.GetMsgID(), clipB(msg.GetData()))
		return ch.Proceed(req)
	}
	q, isReq := req.(ziface.IRequest)
	if !isReq {
		m.c.Violate("no-request", "%s: interceptor %d got a %T", m.what, ic.i, req)
		return nil
	}
	m.note(src, seq, fmt.Sprintf("i%d:%d:%d:%s", ic.i, msg.GetMsgID(), len(msg.GetData()), respName(q.GetResponse())))
	var ret ziface.IcResp
	switch icAct(ic.salt, ic.i, src, seq) {
	case "drop":
		return icResp{ic.i, src, seq}
	case "string":
		ret = ch.Proceed(fmt.Sprintf("%s%d %d", icAlien, src, seq))
	case "response":
		ret = ch.ProceedWithIMessage(msg, icResp{ic.i, src, seq})
	case "nilresponse":
		ret = ch.ProceedWithIMessage(msg, nil)
	case "nilmessage": // nothing to pass on but what came
		ret = ch.ProceedWithIMessage(nil, icResp{ic.i, src, seq})
	case "data":
		d := body(src, seq, len(msg.GetData())+3)
		msg.SetData(d)
		msg.SetDataLen(uint32(len(d)))
		ret = ch.Proceed(req)
	case "id":
		msg.SetMsgID(icNewID(msg.GetMsgID()))
		ret = ch.Proceed(req)
	default:
		ret = ch.Proceed(req)
	}
	m.back(ic.i, src, seq, ret)
	return icResp{ic.i, src, seq}
}

// back checks what comes back from the interceptors after i.
func (m *icMon) back(i int, src, seq uint32, ret ziface.IcResp) {
	if i+1 < m.n && ret != ziface.IcResp(icResp{i + 1, src, seq}) {
		m.c.Violate("returned", "%s: interceptor %d got %v back for message %d of %d, interceptor %d returned %v", m.what, i, ret, seq, src, i+1, icResp{i + 1, src, seq})
	}
}

func (m *icMon) note(src, seq uint32, ev string) {
	v, _ := m.t.m.LoadOrStore(uint64(src)<<32|uint64(seq), &trace{})
	x := v.(*trace)
	x.mu.Lock()
	x.ev = append(x.ev, ev)
	x.mu.Unlock()
	atomic.AddInt64(&m.t.n, 1)
	m.c.Event(1)
}

func respName(r interface{}) string {
	switch x := r.(type) {
	case nil:
		return "none"
	case icResp:
		return fmt.Sprintf("r%d/%d/%d", x.i, x.src, x.seq)
	case zdecoder.TLVDecoder:
		s, q, _ := parseBody(x.Value)
		return fmt.Sprintf("tlv%d/%d/%d", x.Tag, s, q)
	}
	return fmt.Sprintf("%T", r)
}

func (m *icMon) expect(src, seq uint32, size int) (ev string, n int64) {
	id := msgIDOf(seq)
	resp := fmt.Sprintf("tlv%d/%d/%d", id, src, seq)
	if m.raw {
		id, resp = 0, "none"
	}
	add := func(s string) {
		if ev != "" {
			ev += " "
		}
		ev += s
		n++
	}
	alien := false
	for i := 0; i < m.n; i++ {
		if alien {
			add(fmt.Sprintf("i%d:alien", i))
			continue
		}
		add(fmt.Sprintf("i%d:%d:%d:%s", i, id, size, resp))
		switch icAct(m.salt, i, src, seq) {
		case "drop":
			return
		case "string":
			alien = true
		case "response":
			resp = fmt.Sprintf("r%d/%d/%d", i, src, seq)
		case "data":
			size += 3
		case "id":
			id = icNewID(id)
		}
	}
	if !alien {
		add(fmt.Sprintf("h%d:%d:%s", id, size, resp))
	}
	return
}

func (m *icMon) handler(q ziface.IRequest) {
	src, seq, ok := parseBody(q.GetData())
	if !ok {
		m.c.Violate("data", "%s: handler got data nobody passed on: %x", m.what, clipB(q.GetData()))
		return
	}
	m.note(src, seq, fmt.Sprintf("h%d:%d:%s", q.GetMsgID(), len(q.GetData()), respName(q.GetResponse())))
}

func scenC13(c *Ctx) {
	r0 := c.Rng
	chaos(r0.Intn(3))
	mode := c.P.Str("mode", "tcp")
	side := c.P.Str("side", "server")
	slices := c.P.Bool("slices")
	raw := c.P.Bool("raw")
	n := r0.Intn(7)
	if r0.Intn(5) == 0 {
		n = 7 + r0.Intn(30)
	}
	pool := r0.Intn(4)
	m := &icMon{c: c, raw: raw, salt: r0.Intn(1 << 20), n: n, t: &traces{}, what: fmt.Sprintf("%s/%s/%d interceptors/pool=%d/slices=%v/raw=%v", side, mode, n, pool, slices, raw)}
	sizes := sync.Map{}
	var wantN int64
	per := c.N(150, 1200)
	stream := func(r *rand.Rand, w *Wire, src uint32) error {
		var b []byte
		for s := uint32(0); s < uint32(per); s++ {
			d := body(src, s, 12+r.Intn(80))
			sizes.Store(uint64(src)<<32|uint64(s), len(d))
			_, k := m.expect(src, s, len(d))
			atomic.AddInt64(&wantN, k)
			if raw {
				if _, err := w.Write(d); err != nil {
					return err
				}
				continue
			}
			b = append(b, tlv(msgIDOf(s), d)...)
		}
		if raw {
			return nil
		}
		return feed(r, w, b, r.Intn(4))
	}
	var peers uint32
	if side == "server" {
		s := c.NewSrv(mode, func(g *zconf.Config) {
			g.WorkerPoolSize, g.MaxConn = uint32(pool), 100
			g.RouterSlicesMode = slices
			g.RequestPoolMode = r0.Intn(2) == 0
		}, func(s ziface.IServer) {
			if raw {
				s.SetDecoder(nil)
				if slices {
					s.AddRouterSlices(0, m.handler)
				} else {
					s.AddRouter(0, &funcRouter{f: m.handler})
				}
			}
			for i := 0; i < n; i++ {
				s.AddInterceptor(&testIC{i, m.salt, n, m})
			}
			for i := uint32(0); i <= c04IDs+8; i++ {
				if slices {
					s.AddRouterSlices(10+i*7, m.handler)
				} else {
					s.AddRouter(10+i*7, &funcRouter{f: m.handler})
				}
			}
		}).Start()
		var wg sync.WaitGroup
		for l := 0; l < 5; l++ {
			seed := r0.Int63()
			src := atomic.AddUint32(&peers, 1)
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				w := s.MustDial()
				if err := stream(r, w, src); err != nil {
					c.Stall("write", "%v", err)
				}
			}()
		}
		wg.Wait()
	} else {
		rs := c.RawServer(mode)
		zconf.GlobalObject.RequestPoolMode = r0.Intn(2) == 0
		for k := 0; k < 3; k++ {
			cl := rs.Client()
			if raw {
				cl.SetDecoder(nil)
				cl.AddRouter(0, &funcRouter{f: m.handler})
			}
			for i := 0; i < n; i++ {
				cl.AddInterceptor(&testIC{i, m.salt, n, m})
			}
			for i := uint32(0); i <= c04IDs+8; i++ {
				cl.AddRouter(10+i*7, &funcRouter{f: m.handler})
			}
			cl.Start()
			select {
			case w := <-rs.C:
				peers++
				stream(r0, w, peers)
			case <-time.After(StallLimit):
				c.Stall("connect", "client did not connect")
				return
			}
		}
	}
	if !WaitCount(StallLimit, wantN, func() int64 { return atomic.LoadInt64(&m.t.n) }) {
		c.Stall("missing", "%s: %d visits of interceptors and handlers, expected %d", m.what, atomic.LoadInt64(&m.t.n), atomic.LoadInt64(&wantN))
	}
	time.Sleep(10 * time.Millisecond)
	for src := uint32(1); src <= peers && c.Violations() == 0; src++ {
		for seq := uint32(0); seq < uint32(per); seq++ {
			sz, _ := sizes.Load(uint64(src)<<32 | uint64(seq))
			want, _ := m.expect(src, seq, sz.(int))
			got := m.t.get(src, seq)
			if want != got {
				c.Violate("chain", "%s: message %d of peer %d\n visited:  %s\n expected: %s", m.what, seq, src, got, want)
				break
			}
			acts := ""
			for i := 0; i < n; i++ {
				acts += icAct(m.salt, i, src, seq)[:1]
			}
			c.Eval(fmt.Sprintf("%s/%s", m.what, acts))
		}
	}
	chaos(0)
}

func init() {
	scenario("c13", scenC13)
	register(&Check{
		Property: "C13",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			n := byTier(tier, 5, 25)
			for i, m := range []string{"tcp", "ws", "tls", "kcp"} {
				k := n
				if m == "tcp" {
					k = 2 * n
				}
				js = append(js, spread("c13", Params{"mode": m, "slices": itoa(i % 2)}, seed, k, 120*time.Second)...)
			}
			js = append(js, spread("c13", Params{"mode": "tcp", "slices": "1"}, seed+7, n, 120*time.Second)...)
			for _, m := range []string{"tcp", "ws", "tls"} {
				js = append(js, spread("c13", Params{"side": "client", "mode": m}, seed, n, 120*time.Second)...)
			}
			js = append(js, spread("c13", Params{"mode": "ws", "raw": "1"}, seed+11, n, 120*time.Second)...)
			js = append(js, spread("c13", Params{"mode": "ws", "raw": "1", "slices": "1"}, seed+13, n, 120*time.Second)...)
			js = append(js, spread("c13", Params{"mode": "ws", "raw": "1", "side": "client"}, seed+17, n, 120*time.Second)...)
			return js
		},
		Parallel: 6,
		MinEvals: 1000,
		Rule:     "one evaluation = one message whose visits to all interceptors (pass, modify, drop, respond, replace) and its handler are compared with a reference run of the chain; distinct = (side, transport, chain length, pool, router style, actions)",
	})
}
