package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/zdecoder"
	"github.com/aceld/zinx/ziface"
)

// C03: HTLV+CRC frames. Independent CRC (bitwise Modbus) as the reference.

func crcRef(b []byte) [2]byte {
	crc := uint16(0xFFFF)
	for _, x := range b {
		crc ^= uint16(x)
		for i := 0; i < 8; i++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0xA001
			} else {
				crc >>= 1
			}
		}
	}
	return [2]byte{byte(crc), byte(crc >> 8)}
}

func htlv(head, fn byte, body []byte) []byte {
	b := append([]byte{head, fn, byte(len(body))}, body...)
	k := crcRef(b)
	return append(b, k[0], k[1])
}

func htlvValid(f []byte) bool {
	if len(f) < 5 || len(f) != int(f[2])+5 {
		return false
	}
	k := crcRef(f[:len(f)-2])
	return f[len(f)-2] == k[0] && f[len(f)-1] == k[1]
}

func scenC03Crc(c *Ctx) {
	r := c.Rng
	n := c.N(30000, 400000)
	for i := 0; i < n && c.Violations() < 5; i++ {
		b := make([]byte, r.Intn(300))
		r.Read(b)
		k := crcRef(b)
		if got := zdecoder.GetCrC(b); !bytes.Equal(got, k[:]) {
			c.Violate("crc", "checksum of %x is %x, reference %x", clipB(b), got, k)
		}
		if !zdecoder.CheckCRC(b, k[:]) {
			c.Violate("crc-refused", "right checksum refused for %x", clipB(b))
		}
		bad := []byte{k[0], k[1]}
		bad[r.Intn(2)] ^= byte(1 << uint(r.Intn(8)))
		if zdecoder.CheckCRC(b, bad) {
			c.Violate("crc-accepted", "wrong checksum %x accepted for %x", bad, clipB(b))
		}
		if zdecoder.CheckCRC(b, k[:r.Intn(2)]) {
			c.Violate("crc-accepted", "cut checksum accepted")
		}
		c.Event(3)
		c.Eval(fmt.Sprintf("crc/%d/%d", len(b), i%97))
	}
}

func scenC03Net(c *Ctx) {
	mode := c.P.Str("mode", "tcp")
	kcpWriteLimit = 2 * time.Second
	type rec struct {
		fn    byte
		frame []byte
		body  []byte
	}
	var mu sync.Mutex
	got := map[uint64][]rec{}
	var ids, stopped sync.Map
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.WorkerPoolSize = 3
		g.IOReadBuffSize = []uint32{3, 64, 1024}[c.Rng.Intn(3)]
	}, func(s ziface.IServer) {
		s.SetDecoder(zdecoder.NewHTLVCRCDecoder())
		for fn := 0; fn < 256; fn++ {
			s.AddRouter(uint32(fn), &funcRouter{f: func(q ziface.IRequest) {
				h, ok := q.GetResponse().(zdecoder.HtlvCrcDecoder)
				if !ok {
					c.Violate("no-decoded", "handler for %d got no decoded frame: %T, data %x", q.GetMsgID(), q.GetResponse(), clipB(q.GetData()))
					return
				}
				if h.Funcode != byte(q.GetMsgID()) || q.GetMsgID() > 255 {
					c.Violate("misrouted", "function code %d handled as message %d", h.Funcode, q.GetMsgID())
				}
				if int(h.Length) != len(h.Body) {
					c.Violate("length", "length %d, body of %d", h.Length, len(h.Body))
				}
				r := rec{h.Funcode, append([]byte(nil), q.GetData()...), append([]byte(nil), h.Body...)}
				mu.Lock()
				got[q.GetConnection().GetConnID()] = append(got[q.GetConnection().GetConnID()], r)
				mu.Unlock()
				c.Event(1)
			}})
		}
		s.SetOnConnStart(func(k ziface.IConnection) { ids.LoadOrStore(portOf(k.RemoteAddrString()), k.GetConnID()) })
		s.SetOnConnStop(func(k ziface.IConnection) { stopped.Store(k.GetConnID(), true) })
	}).Start()
	n := c.N(60, 600)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := 0; i < n && c.Violations() < 5; i++ {
		i := i
		seed := c.Rng.Int63()
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			r := rand.New(rand.NewSource(seed))
			var stream []byte
			k := 1 + r.Intn(12)
			corruptAt := -1
			if i%3 != 0 {
				corruptAt = r.Intn(k)
			}
			kind := ""
			for j := 0; j < k; j++ {
				size := r.Intn(256)
				switch r.Intn(6) {
				case 0:
					size = 255
				case 1:
					size = 0
				case 2:
					size = 250 + r.Intn(6)
				}
				b := make([]byte, size)
				r.Read(b)
				f := htlv(byte(r.Intn(256)), byte(r.Intn(256)), b)
				if j == corruptAt {
					switch r.Intn(5) {
					case 0: // one bit anywhere but the length
						p := r.Intn(len(f))
						if p == 2 {
							p = 1
						}
						f[p] ^= 1 << uint(r.Intn(8))
						kind = "bit"
					case 1: // the checksum
						f[len(f)-1-r.Intn(2)] ^= byte(1 + r.Intn(255))
						kind = "crc"
					case 2: // bytes swapped
						a, b := len(f)-2, len(f)-1
						f[a], f[b] = f[b], f[a]
						kind = "swap"
					case 3:
						f[2] ^= byte(1 + r.Intn(255))
						kind = "len"
					default:
						f[len(f)-2], f[len(f)-1] = 0, 0
						kind = "zero"
					}
				}
				stream = append(stream, f...)
			}
			frames, ends, _ := frameModel(ziface.LengthField{MaxFrameLength: 260, LengthFieldOffset: 2, LengthFieldLength: 1, LengthAdjustment: 2}, stream)
			firstBad := len(frames)
			for j, f := range frames {
				if !htlvValid(f) {
					firstBad = j
					break
				}
			}
			w := s.MustDial()
			defer w.Close()
			ks, _ := cuts(r, len(stream), ends)
			if len(ks) > 200 {
				ks = []int{len(stream)}
			}
			pos := 0
			for _, k := range ks {
				if _, err := w.Write(stream[pos : pos+k]); err != nil {
					break
				}
				pos += k
			}
			var id uint64
			if !WaitFor(StallLimit, func() bool {
				v, ok := ids.Load(w.Key())
				if ok {
					id = v.(uint64)
				}
				return ok
			}) {
				c.Stall("no-connection", "connection never started")
				return
			}
			count := func() int { mu.Lock(); defer mu.Unlock(); return len(got[id]) }
			if !WaitCount(StallLimit, int64(firstBad), func() int64 { return int64(count()) }) {
				c.Stall("valid-not-handled", "%s: %d of %d valid frames handled; stream %x", mode, count(), firstBad, clipB(stream))
				return
			}
			if firstBad < len(frames) {
				WaitFor(60*time.Millisecond, func() bool { _, ok := stopped.Load(id); return ok })
				time.Sleep(5 * time.Millisecond)
			}
			mu.Lock()
			g := append([]rec(nil), got[id]...)
			mu.Unlock()
			// whatever was handled is a subsequence of the valid frames, with nothing of the valid prefix missing
			at := 0
			for j, x := range g {
				for at < len(frames) && !(htlvValid(frames[at]) && bytes.Equal(frames[at], x.frame)) {
					if at < firstBad {
						break
					}
					at++
				}
				if at >= len(frames) || !bytes.Equal(frames[at], x.frame) {
					c.Violate("invalid-handled", "%s/%s: handled frame %d = %x, not a valid frame of the stream here (first corrupt one: %d of %d)", mode, kind, j, clipB(x.frame), firstBad, len(frames))
					break
				}
				if x.fn != x.frame[1] || !bytes.Equal(x.body, x.frame[3:len(x.frame)-2]) {
					c.Violate("wrong-body", "%s: frame %x decoded to function %d body %x", mode, clipB(x.frame), x.fn, clipB(x.body))
					break
				}
				at++
			}
			c.Eval(fmt.Sprintf("%s/%s/%d/%d", mode, kind, k, firstBad))
			c.Count("valid_frames", int64(firstBad))
			if firstBad < len(frames) {
				c.Count("corrupt_streams", 1)
			}
			if i == 0 {
				c.Sample(map[string]interface{}{"mode": mode, "kind": kind, "frames": len(frames), "first_corrupt": firstBad})
			}
		}()
	}
	wg.Wait()
}

func init() {
	scenario("c03.crc", scenC03Crc)
	scenario("c03.net", scenC03Net)
	register(&Check{
		Property: "C03",
		Jobs: func(tier string, seed int64) []Job {
			js := spread("c03.crc", nil, seed, byTier(tier, 1, 4), 300*time.Second)
			for _, m := range []string{"tcp", "ws", "kcp"} {
				js = append(js, spread("c03.net", Params{"mode": m}, seed, byTier(tier, 2, 10), 180*time.Second)...)
			}
			return js
		},
		Parallel: 7,
		MinEvals: 1000,
		Rule:     "one evaluation = one checksum compared with a bitwise reference, or one stream of HTLV+CRC frames (bodies 0..255, optionally one frame with a flipped bit, byte, length or checksum) sent to a real server whose handled frames are compared with the reference decoding; distinct = (transport, corruption kind, frames, first corrupt frame)",
	})
}
