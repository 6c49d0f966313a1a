package harness

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/zdecoder"
	"github.com/aceld/zinx/ziface"
	"github.com/gorilla/websocket"
)

// C14: hostile input harms only the connection it arrives on.

// frameBy encodes a witness message for the server's decoder; what the handler gets as
// data contains the body in all cases.
func frameBy(dec string, b []byte) []byte {
	switch dec {
	case "ltv":
		return ltv(1, b)
	case "htlv":
		return htlv(0xA2, 1, b)
	case "adj":
		return tlv2(1, b)
	}
	return tlv(1, b)
}

func hostileBytes(r *rand.Rand, dec string) (string, []byte) {
	random := func(n int) []byte { b := make([]byte, n); r.Read(b); return b }
	good := func() []byte { return frameBy(dec, body(0, uint32(r.Intn(100)), 12+r.Intn(60))) }
	switch k := r.Intn(12); k {
	case 0:
		return "random", random(1 + r.Intn(3000))
	case 1:
		g := good()
		return "truncated", g[:r.Intn(len(g))]
	case 2: // good frames around one flipped byte
		var b []byte
		for i := 0; i < 4; i++ {
			b = append(b, good()...)
		}
		for i := 0; i < 1+r.Intn(4); i++ {
			b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
		}
		return "flipped", b
	case 3:
		h := make([]byte, 8)
		binary.BigEndian.PutUint32(h[r.Intn(5):], 0xFFFFFFFF)
		return "huge-length", append(h, random(r.Intn(200))...)
	case 4:
		return "zeros", make([]byte, 1+r.Intn(4000))
	case 5:
		b := make([]byte, 1+r.Intn(4000))
		for i := range b {
			b[i] = 0xFF
		}
		return "ones", b
	case 6:
		return "http", []byte("GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\n")
	case 7: // lengths just around the smallest
		var b []byte
		for i := 0; i < 50; i++ {
			h := make([]byte, 8)
			binary.BigEndian.PutUint32(h[4:], uint32(r.Intn(3)))
			b = append(b, h...)
			b = append(b, random(r.Intn(4))...)
		}
		return "tiny-lengths", b
	case 8: // unknown message ids
		var b []byte
		for i := 0; i < 20; i++ {
			switch dec {
			case "ltv":
				b = append(b, ltv(r.Uint32(), random(r.Intn(50)))...)
			case "htlv":
				b = append(b, htlv(byte(r.Intn(256)), byte(2+r.Intn(254)), random(r.Intn(200)))...)
			default:
				b = append(b, tlv(r.Uint32(), random(r.Intn(50)))...)
			}
		}
		return "unknown-ids", b
	case 9: // length fields with the sign bit and others
		var b []byte
		for i := 0; i < 6; i++ {
			h := make([]byte, 8)
			binary.BigEndian.PutUint32(h[4*r.Intn(2):], []uint32{0x80000000, 0x7FFFFFFF, 0xFFFFFFF8, 0xFFFFFFF7, 1 << 20}[r.Intn(5)])
			b = append(b, h...)
		}
		return "extreme-lengths", append(b, random(300)...)
	case 10:
		return "good-then-random", append(good(), random(500)...)
	default:
		var b []byte
		for len(b) < 60000 {
			b = append(b, random(1000)...)
		}
		return "flood", b
	}
}

// lingering hostile connections stay, silent, until the end of the scenario
type lingerers struct {
	mu sync.Mutex
	l  []net.Conn
}

func (x *lingerers) keep(nc net.Conn) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.l) >= 12 {
		return false
	}
	x.l = append(x.l, nc)
	return true
}

// attack opens one hostile connection and does one thing to it.
func attack(c *Ctx, r *rand.Rand, s *Srv, dec string, stay *lingerers) string {
	if r.Intn(3) == 0 { // below the transport
		switch s.Mode {
		case "tls", "ws", "tcp", "both":
			port := s.Port
			if s.Mode == "ws" {
				port = s.Ws
			}
			nc, err := net.DialTimeout("tcp4", fmt.Sprintf("127.0.0.1:%d", port), StallLimit)
			if err != nil {
				return "dial"
			}
			_, b := hostileBytes(r, dec)
			switch r.Intn(4) {
			case 0: // connect only
			case 1:
				if s.Mode == "ws" {
					b = []byte("GET /nowhere HTTP/1.1\r\nHost: a\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: x\r\nSec-WebSocket-Protocol: " + string(make([]byte, 3)) + "a,,b\r\n\r\n")
				}
				if s.Mode == "tls" {
					b = append([]byte{0x16, 3, 1, byte(r.Intn(256)), byte(r.Intn(256))}, b...)
				}
				nc.Write(b)
			default:
				if s.Mode == "ws" { // a real upgrade, then garbage instead of frames
					nc.Write([]byte(fmt.Sprintf("GET / HTTP/1.1\r\nHost: a\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Protocol: p%d\r\n\r\n", r.Intn(5))))
					time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
				}
				nc.Write(b)
			}
			if r.Intn(3) == 0 && stay.keep(nc) {
				return "below-stays"
			}
			time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
			if r.Intn(2) == 0 {
				nc.(*net.TCPConn).SetLinger(0)
			}
			nc.Close()
			return "below"
		case "kcp":
			nc, err := net.Dial("udp4", fmt.Sprintf("127.0.0.1:%d", s.Kcp))
			if err != nil {
				return "dial"
			}
			for i := 0; i < 3; i++ {
				_, b := hostileBytes(r, dec)
				if len(b) > 1400 {
					b = b[:1400]
				}
				nc.Write(b)
			}
			nc.Close()
			return "datagrams"
		}
	}
	var w *Wire
	var err error
	if s.Mode == "both" && r.Intn(2) == 0 {
		w, err = dialWS(s.Ws)
	} else {
		w, err = s.Dial()
	}
	if err != nil {
		return "dial"
	}
	name, b := hostileBytes(r, dec)
	if w.ws != nil && r.Intn(3) == 0 { // websocket frames of other kinds
		switch r.Intn(6) {
		case 0:
			w.ws.WriteMessage(websocket.TextMessage, b)
		case 1:
			w.ws.WriteControl(websocket.PingMessage, b[:min(len(b), 100)], time.Now().Add(time.Second))
		case 2:
			w.ws.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1000+r.Intn(16), "x"), time.Now().Add(time.Second))
		case 3:
			w.ws.WriteMessage(websocket.BinaryMessage, nil)
		case 4: // a message in pieces, never finished
			if ww, e := w.ws.NextWriter(websocket.BinaryMessage); e == nil {
				for i := 0; i < 5; i++ {
					ww.Write(make([]byte, 5000))
				}
			}
		default:
			w.ws.UnderlyingConn().Write(b)
		}
		name += "-ws"
	} else {
		feed(r, w, b, r.Intn(4))
	}
	if r.Intn(2) == 0 {
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
	}
	switch r.Intn(3) {
	case 0:
		w.Reset()
	case 1:
		w.Close()
	default:
		go func() { time.Sleep(40 * time.Millisecond); w.Close() }()
	}
	return name
}

// witness exchanges messages and checks every answer.
type witness struct {
	w   *Wire
	fr  *FrameReader
	src uint32
	seq uint32
}

func (x *witness) ask(c *Ctx, dec, what string, size int) bool {
	x.seq++
	if _, err := x.w.Write(frameBy(dec, body(x.src, x.seq, size))); err != nil {
		c.Stall("witness-write", "%s: a well-behaved connection cannot send after %d exchanges: %v", what, x.seq-1, err)
		return false
	}
	x.w.Deadline(StallLimit)
	f, err := x.fr.Next(1 << 20)
	if err != nil {
		c.Stall("witness-lost", "%s: a well-behaved connection got no answer to message %d: %v\n%s", what, x.seq, err, clip(Stacks(), 2000))
		return false
	}
	if src, seq, ok := parseBody(f.Data); !ok || src != x.src || seq != x.seq {
		c.Violate("witness-wrong", "%s: a well-behaved connection (%d) sent message %d and was answered %d/%d (intact %v)", what, x.src, x.seq, src, seq, ok)
		return false
	}
	c.Event(1)
	return true
}

func scenC14(c *Ctx) {
	mode := c.P.Str("mode", "tcp")
	dec := c.P.Str("dec", "tlv")
	r0 := c.Rng
	chaos(r0.Intn(3))
	slices := r0.Intn(2) == 0
	kcpWriteLimit = 2 * time.Second
	what := fmt.Sprintf("%s/%s", mode, dec)
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.MaxConn = 20000
		g.WorkerPoolSize = uint32(r0.Intn(4))
		g.MaxWorkerTaskLen = []uint32{1, 64}[r0.Intn(2)]
		g.WorkerMode = zconf.WorkerModeHash
		g.RouterSlicesMode = slices
		g.RequestPoolMode = r0.Intn(2) == 0
	}, func(s ziface.IServer) {
		switch dec {
		case "ltv":
			s.SetDecoder(zdecoder.NewLTV_Little_Decoder())
		case "htlv":
			s.SetDecoder(zdecoder.NewHTLVCRCDecoder())
		case "adj":
			s.SetDecoder(adjTLV{})
		}
		echo := func(q ziface.IRequest) {
			d := q.GetData()
			if dec == "htlv" && len(d) >= 5 {
				d = d[3 : len(d)-2]
			}
			q.GetConnection().SendMsg(1, append([]byte(nil), d...))
		}
		if slices {
			s.AddRouterSlices(1, echo)
		} else {
			s.AddRouter(1, &funcRouter{f: echo})
		}
	}).Start()
	var src uint32 = 1000
	open := func() *witness {
		var w *Wire
		n := atomic.AddUint32(&src, 1)
		if mode == "both" && n%2 == 0 {
			var err error
			if w, err = dialWS(s.Ws); err != nil {
				c.Stall("witness-dial", "%s: a well-behaved peer cannot connect: %v", what, err)
				c.Finish()
			}
		} else {
			w = s.MustDial()
		}
		return &witness{w: w, fr: NewFrameReader(w), src: n}
	}
	var ws []*witness
	for i := 0; i < 4; i++ {
		ws = append(ws, open())
	}
	var stop int32
	var stay lingerers
	var wg, wl sync.WaitGroup
	var asked int64
	for _, x := range ws {
		x := x
		seed := r0.Int63()
		wl.Add(1)
		go func() {
			defer wl.Done()
			r := rand.New(rand.NewSource(seed))
			for atomic.LoadInt32(&stop) == 0 && c.Violations() == 0 {
				if !x.ask(c, dec, what, 12+r.Intn(200)) {
					return
				}
				atomic.AddInt64(&asked, 1)
				time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
			}
			x.ask(c, dec, what, 40)
		}()
	}
	for l := 0; l < 4; l++ {
		seed := r0.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			for i := 0; i < c.N(70, 600) && c.Violations() == 0; i++ {
				kind := attack(c, r, s, dec, &stay)
				c.Eval(fmt.Sprintf("%s/%s/%d", what, kind, r.Intn(4)))
				c.Count("attack_"+kind, 1)
			}
		}()
	}
	wl.Add(1)
	go func() { // well-behaved peers keep coming
		defer wl.Done()
		for atomic.LoadInt32(&stop) == 0 && c.Violations() == 0 {
			x := open()
			for i := 0; i < 3; i++ {
				if !x.ask(c, dec, what+" (new connection meanwhile)", 50) {
					return
				}
			}
			x.w.Close()
			c.Count("newcomers", 1)
			time.Sleep(3 * time.Millisecond)
		}
	}()
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	wl.Wait()
	if c.Violations() == 0 {
		for i := 0; i < 3; i++ {
			x := open()
			x.ask(c, dec, what+" (new connection afterwards)", 50)
			x.w.Close()
		}
	}
	for _, nc := range stay.l {
		nc.Close()
	}
	c.Count("lingering", int64(len(stay.l)))
	c.Count("witness_exchanges", asked)
	chaos(0)
}

func init() {
	scenario("c14", scenC14)
	register(&Check{
		Property: "C14",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			n := byTier(tier, 1, 8)
			for _, m := range []string{"tcp", "tls", "ws", "kcp", "both"} {
				for _, d := range []string{"tlv", "ltv", "htlv", "adj"} {
					js = append(js, spread("c14", Params{"mode": m, "dec": d}, seed, n, 200*time.Second)...)
				}
			}
			return js
		},
		Parallel: 6,
		MinEvals: 500,
		Rule:     "one evaluation = one hostile connection (random, truncated, flipped, extreme or flooding bytes; malformed transport handshakes, WebSocket frames and datagrams; all closing styles) while witness connections exchange checked messages, and new ones must be served afterwards; distinct = (transport, decoder, attack kind)",
	})
}
