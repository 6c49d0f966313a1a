package harness

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
)

// C06: what the application sends reaches the peer intact, at most once, in the order
// of each sender, and all of it if the connection stays open.

var sendAPIs = []string{"SendMsg", "SendBuffMsg", "SendToQueue", "Send"}

func sendBy(k ziface.IConnection, api string, id uint32, data []byte) error {
	switch api {
	case "SendMsg":
		defer scribble(data) // the caller's again
		return k.SendMsg(id, data)
	case "SendBuffMsg":
		defer scribble(data) // packed into a message of its own
		return k.SendBuffMsg(id, data)
	case "SendToQueue":
		return k.SendToQueue(tlv(id, data))
	default:
		b := tlv(id, data)
		defer scribble(b)
		return k.Send(b)
	}
}

func scribble(b []byte) {
	for i := range b {
		b[i] = 0xEE
	}
}

const (
	stNone = iota
	stOK
	stErr
	stErrClosing
)

type sender struct {
	api    string
	src    uint32
	state  []int32 // per sequence number
	sent   int32   // calls begun
	slowMs int64
}

type outRun struct {
	c       *Ctx
	what    string
	k       ziface.IConnection
	w       *Wire
	senders []*sender
	closing int32 // set before anything closes the connection
	mu      sync.Mutex
	got     map[uint32][]uint32 // src -> sequence numbers in arrival order
	n       int64
	readEnd chan error
}

// read is the peer: it decodes and checks whatever arrives.
func (o *outRun) read(pause func(), gate chan struct{}) {
	fr := NewFrameReader(o.w)
	if gate != nil {
		<-gate
	}
	for {
		f, err := fr.Next(1 << 20)
		if atomic.SwapInt64(&o.w.text, 0) > 0 {
			o.c.Violate("text-message", "%s: bytes that are no UTF-8 came in a WebSocket text message, which a peer has to refuse", o.what)
		}
		if err != nil {
			if errors.Is(err, errBadFrame) {
				o.c.Violate("torn-frame", "%s: after %d frames the peer decodes %v", o.what, atomic.LoadInt64(&o.n), err)
			}
			o.readEnd <- err
			return
		}
		if f.ID == 9999 { // hello
			continue
		}
		src, seq, ok := parseBody(f.Data)
		if !ok || f.ID != 100+src {
			o.c.Violate("torn-frame", "%s: frame %d at the peer is damaged: id %d, %d bytes %x", o.what, atomic.LoadInt64(&o.n), f.ID, len(f.Data), clipB(f.Data))
			o.readEnd <- errBadFrame
			return
		}
		o.mu.Lock()
		o.got[src] = append(o.got[src], seq)
		o.mu.Unlock()
		atomic.AddInt64(&o.n, 1)
		o.c.Event(1)
		if pause != nil {
			pause()
		}
	}
}

func (o *outRun) send(s *sender, seed int64, n int, pace int, big int) {
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < n; i++ {
		size := 12 + r.Intn(100)
		switch r.Intn(10) {
		case 0:
			size = 12
		case 1:
			size = 12 + r.Intn(big)
		}
		atomic.StoreInt32(&s.sent, int32(i+1))
		t0 := time.Now()
		err := sendBy(o.k, s.api, 100+s.src, body(s.src, uint32(i), size))
		d := time.Since(t0).Milliseconds()
		if d > s.slowMs {
			s.slowMs = d
		}
		st := int32(stOK)
		if err != nil {
			st = stErr
			if atomic.LoadInt32(&o.closing) != 0 {
				st = stErrClosing
			}
		}
		atomic.StoreInt32(&s.state[i], st)
		if pace > 0 && r.Intn(pace) == 0 {
			time.Sleep(time.Duration(r.Intn(1200)) * time.Microsecond)
		}
	}
}

func (o *outRun) accepted() (n int64) {
	for _, s := range o.senders {
		for i := range s.state {
			if atomic.LoadInt32(&s.state[i]) == stOK {
				n++
			}
		}
	}
	return
}

// judge compares what arrived with what was sent; open says that the connection was never closed.
func (o *outRun) judge(open bool) {
	o.mu.Lock()
	defer o.mu.Unlock()
	for _, s := range o.senders {
		got := o.got[s.src]
		last := -1
		seen := map[uint32]bool{}
		for _, q := range got {
			if int(q) >= len(s.state) || int32(q) >= atomic.LoadInt32(&s.sent) {
				o.c.Violate("unsent", "%s: peer got message %d of %s sender %d that was not sent yet", o.what, q, s.api, s.src)
				return
			}
			if seen[q] {
				o.c.Violate("twice", "%s: peer got message %d of %s sender %d twice", o.what, q, s.api, s.src)
				return
			}
			seen[q] = true
			if int(q) < last {
				o.c.Violate("order", "%s: peer got message %d of %s sender %d after %d", o.what, q, s.api, s.src, last)
				return
			}
			last = int(q)
			if atomic.LoadInt32(&s.state[q]) == stErr {
				o.c.Violate("error-but-delivered", "%s: %s reported an error for message %d of sender %d on an open connection, but the peer got it", o.what, s.api, q, s.src)
				return
			}
		}
		for i := range s.state {
			if atomic.LoadInt32(&s.state[i]) != stOK || seen[uint32(i)] {
				continue
			}
			if open {
				o.c.Stall("lost", "%s: message %d of %s sender %d was accepted but never arrived (%d arrived of this sender)", o.what, i, s.api, s.src, len(got))
				return
			}
			if i < last {
				o.c.Violate("gap", "%s: message %d of %s sender %d was accepted and did not arrive although %d, sent later, did", o.what, i, s.api, s.src, last)
				return
			}
		}
		o.c.Eval(fmt.Sprintf("%s/%s/%d/%d", o.what, s.api, len(s.state), len(got)))
	}
}

// pair makes one zinx connection and its raw peer.
type pairSrc struct {
	c    *Ctx
	mode string
	side string
	srv  *Srv
	open sync.Map
	raw  *RawServer
	gone sync.Map
}

func newPairSrc(c *Ctx, mode, side string, cfg func(g *zconf.Config)) *pairSrc {
	p := &pairSrc{c: c, mode: mode, side: side}
	if side == "server" {
		p.srv = c.NewSrv(mode, func(g *zconf.Config) {
			g.MaxConn = 5000
			cfg(g)
		}, func(s ziface.IServer) {
			s.AddRouter(9999, &funcRouter{f: func(ziface.IRequest) {}})
			s.SetOnConnStart(func(k ziface.IConnection) { p.open.LoadOrStore(portOf(k.RemoteAddrString()), k) })
			s.SetOnConnStop(func(k ziface.IConnection) { p.gone.Store(k.GetConnID(), true) })
		}).Start()
	} else {
		c.Configure(mode, cfg)
		p.raw = c.RawServer(mode)
	}
	return p
}

func (p *pairSrc) pair() (ziface.IConnection, *Wire, func()) {
	if p.side == "server" {
		w := p.srv.MustDial()
		if p.mode == "kcp" {
			w.Write(tlv(9999, body(0, 0, 12)))
		}
		var k ziface.IConnection
		if !WaitFor(StallLimit, func() bool {
			v, ok := p.open.Load(w.Key())
			if ok {
				k = v.(ziface.IConnection)
			}
			return ok
		}) {
			p.c.Stall("no-connection", "%s: connection never started", p.mode)
			p.c.Finish()
		}
		return k, w, func() { k.Stop(); w.Close() }
	}
	cl := p.raw.Client()
	ch := make(chan ziface.IConnection, 1)
	cl.SetOnConnStart(func(k ziface.IConnection) { ch <- k })
	cl.Start()
	select {
	case k := <-ch:
		w := <-p.raw.C
		return k, w, func() { cl.Stop(); w.Close() }
	case <-time.After(StallLimit):
		p.c.Stall("no-connection", "%s client never connected", p.mode)
		p.c.Finish()
	}
	return nil, nil, nil
}

func scenC06(c *Ctx) {
	mode, side, kind := c.P.Str("mode", "tcp"), c.P.Str("side", "server"), c.P.Str("kind", "open")
	r := c.Rng
	queue := []uint32{1, 2, 8, 1024}[r.Intn(4)]
	if kind == "stalled" {
		queue = []uint32{1, 8}[r.Intn(2)]
	}
	p := newPairSrc(c, mode, side, func(g *zconf.Config) {
		g.MaxMsgChanLen = queue
		g.RequestPoolMode = r.Intn(2) == 0
	})
	rounds := c.N(6, 60)
	if kind == "closing" {
		rounds = c.N(14, 140)
	}
	for round := 0; round < rounds && c.Violations() < 3; round++ {
		chaos(r.Intn(4))
		k, w, done := p.pair()
		o := &outRun{c: c, k: k, w: w, got: map[uint32][]uint32{}, readEnd: make(chan error, 1),
			what: fmt.Sprintf("%s/%s/%s/queue=%d", mode, side, kind, queue)}
		ns := 1 + r.Intn(6)
		n := 40 + r.Intn(150)
		big := []int{200, 3000, 20000, 70000}[r.Intn(4)]
		if mode == "kcp" {
			big = 2500
		}
		pace := r.Intn(12)
		for i := 0; i < ns; i++ {
			api := sendAPIs[r.Intn(len(sendAPIs))]
			if i == 0 {
				api = sendAPIs[round%len(sendAPIs)]
			}
			if kind == "stalled" {
				api = []string{"SendBuffMsg", "SendToQueue"}[r.Intn(2)]
			}
			o.senders = append(o.senders, &sender{api: api, src: uint32(i + 1), state: make([]int32, n)})
		}
		var gate chan struct{}
		var pause func()
		if r.Intn(2) == 0 {
			pause = napper(c, 40, 2*time.Millisecond)
		}
		if kind == "stalled" {
			gate = make(chan struct{})
		}
		go o.read(pause, gate)
		var wg sync.WaitGroup
		for _, s := range o.senders {
			s := s
			seed := r.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				if kind == "stalled" {
					// until the queue refuses: with a peer that does not read, it has to
					o.stall(s, seed)
					return
				}
				o.send(s, seed, n, pace, big)
			}()
		}
		switch kind {
		case "open":
			wg.Wait()
			WaitFor(StallLimit, func() bool { return atomic.LoadInt64(&o.n) >= o.accepted() || c.Violations() > 0 })
			time.Sleep(3 * time.Millisecond)
			o.judge(true)
			if pause == nil && round < 3 { // the queue of a peer that reads has room again and again
				refused := 0
				for i := 0; i < 60; i++ {
					if sendBy(k, []string{"SendBuffMsg", "SendToQueue"}[i%2], 9999, body(9999, 0, 12)) != nil {
						refused++
					}
					time.Sleep(500 * time.Microsecond)
				}
				c.Count("queued_to_idle_peer", 60)
				if refused > 20 && c.Violations() == 0 {
					c.Stall("refuses", "%s: %d of 60 queued sends were refused one after another although the peer reads and the queue is empty", o.what, refused)
				}
			}
			done()
		case "stalled":
			ok := make(chan struct{})
			go func() { wg.Wait(); close(ok) }()
			select {
			case <-ok:
			case <-time.After(StallLimit):
				c.Stall("queue-never-refuses", "%s: a queued send neither returned nor failed within %s while the peer does not read\n%s", o.what, StallLimit, clip(Stacks(), 3000))
			}
			close(gate)
			if c.Violations() == 0 {
				WaitFor(StallLimit, func() bool { return atomic.LoadInt64(&o.n) >= o.accepted() || c.Violations() > 0 })
				time.Sleep(3 * time.Millisecond)
				o.judge(true)
			}
			done()
		case "closing":
			time.Sleep(time.Duration(r.Intn(25000)) * time.Microsecond)
			atomic.StoreInt32(&o.closing, 1)
			how := r.Intn(3)
			switch how {
			case 0:
				k.Stop()
			case 1:
				if mode == "kcp" {
					k.Stop()
				} else {
					w.Close()
				}
			default:
				go k.Stop()
				k.Stop()
			}
			ok := make(chan struct{})
			go func() { wg.Wait(); close(ok) }()
			select {
			case <-ok:
			case <-time.After(StallLimit):
				c.Stall("send-never-returns", "%s: a send call on a closed connection did not return within %s\n%s", o.what, StallLimit, clip(Stacks(), 3000))
			}
			// once the connection is gone, every way to send fails
			if side == "server" && WaitFor(StallLimit, func() bool { _, e := p.srv.S.GetConnMgr().Get(k.GetConnID()); return e != nil }) {
				for _, api := range sendAPIs {
					if err := sendBy(k, api, 1, body(0, 0, 20)); err == nil {
						c.Violate("accepted-after-close", "%s: %s reports success after the connection was closed and removed", o.what, api)
					}
				}
			}
			w.Deadline(200 * time.Millisecond)
			select {
			case err := <-o.readEnd:
				if err != nil && err != io.EOF {
					c.Count("cut_streams", 1)
				}
			case <-time.After(StallLimit):
			}
			w.Close()
			o.judge(false)
			done()
		}
		c.Count("frames_"+kind, atomic.LoadInt64(&o.n))
		for _, s := range o.senders {
			for i := range s.state {
				if st := atomic.LoadInt32(&s.state[i]); st == stErr {
					c.Count("refused_sends", 1)
				}
			}
		}
		if round == 0 {
			c.Sample(map[string]interface{}{"config": o.what, "senders": ns, "each": n, "arrived": o.n})
		}
	}
	chaos(0)
}

func (o *outRun) stall(s *sender, seed int64) {
	s.state = make([]int32, 4000)
	fails := 0
	for i := range s.state {
		atomic.StoreInt32(&s.sent, int32(i+1))
		err := sendBy(o.k, s.api, 100+s.src, body(s.src, uint32(i), 4000))
		if err != nil {
			atomic.StoreInt32(&s.state[i], stErr)
			if fails++; fails >= 4 {
				return
			}
		} else {
			fails = 0
			atomic.StoreInt32(&s.state[i], stOK)
		}
	}
	o.c.Violate("queue-unbounded", "%s: %d queued messages of 4000 bytes were accepted for a peer that reads nothing (queue length %d)", o.what, len(s.state), zconf.GlobalObject.MaxMsgChanLen)
}

func init() {
	scenario("c06", scenC06)
	register(&Check{
		Property: "C06",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			n := byTier(tier, 4, 16)
			for _, m := range []string{"tcp", "tls", "ws", "kcp"} {
				for _, side := range []string{"server", "client"} {
					if side == "client" && m == "kcp" {
						continue
					}
					for _, kind := range []string{"open", "closing", "stalled"} {
						if kind == "stalled" && (m == "ws" || side == "client" && m == "tls") {
							continue
						}
						js = append(js, spread("c06", Params{"mode": m, "side": side, "kind": kind}, seed, n, 240*time.Second)...)
					}
				}
			}
			return js
		},
		Parallel: 7,
		MinEvals: 200,
		Rule:     "one evaluation = one sending goroutine (fixed call: SendMsg, SendBuffMsg, SendToQueue or Send) competing with others on one real connection, its accepted and refused messages compared with what the peer decoded; distinct = (transport, side, open/closing/stalled peer, queue length, call, sent, arrived)",
	})
}
