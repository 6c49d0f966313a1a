package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zinterceptor"
	"github.com/aceld/zinx/znet"
)

// C01: framing does not depend on how the bytes were cut into reads.

// frameModel is the reference: which frames a byte stream holds for a length
// field description, and where each ends. bad >= 0: offset at which a frame
// with a malformed length starts.
func frameModel(lf ziface.LengthField, s []byte) (frames [][]byte, ends []int, bad int) {
	order := lf.Order
	if order == nil {
		order = binary.BigEndian
	}
	end := lf.LengthFieldOffset + lf.LengthFieldLength
	pos := 0
	for {
		if len(s)-pos < end {
			return frames, ends, -1
		}
		f := s[pos+lf.LengthFieldOffset : pos+end]
		var v uint64
		for i := range f {
			b := f[i]
			if order == binary.LittleEndian {
				b = f[len(f)-1-i]
			}
			v = v<<8 | uint64(b)
		}
		n := int64(v)
		if n < 0 {
			return frames, ends, pos
		}
		n += int64(lf.LengthAdjustment) + int64(end)
		if n < int64(end) {
			return frames, ends, pos
		}
		if uint64(n) > lf.MaxFrameLength { // skipped in full
			if int64(len(s)-pos) < n {
				return frames, ends, -1
			}
			pos += int(n)
			continue
		}
		if n < int64(lf.InitialBytesToStrip) {
			return frames, ends, pos
		}
		if int64(len(s)-pos) < n {
			return frames, ends, -1
		}
		frames = append(frames, s[pos+lf.InitialBytesToStrip:pos+int(n)])
		pos += int(n)
		ends = append(ends, pos)
	}
}

func putLen(lf ziface.LengthField, dst []byte, v uint64) {
	n := lf.LengthFieldLength
	for i := 0; i < n; i++ {
		b := byte(v >> (8 * uint(n-1-i)))
		if lf.Order == binary.LittleEndian {
			dst[lf.LengthFieldOffset+n-1-i] = b
		} else {
			dst[lf.LengthFieldOffset+i] = b
		}
	}
}

// frameGen makes a random length field and a stream for it.
type frameCase struct {
	lf     ziface.LengthField
	stream []byte
	kinds  string
}

func genFrameCase(r *rand.Rand, big bool) frameCase {
	var lf ziface.LengthField
	switch r.Intn(4) {
	case 0: // the built-in TLV layout
		lf = ziface.LengthField{MaxFrameLength: 1<<32 + 7, LengthFieldOffset: 4, LengthFieldLength: 4}
	case 1: // the built-in LTV layout
		lf = ziface.LengthField{MaxFrameLength: 1<<32 + 7, LengthFieldLength: 4, LengthAdjustment: 4, Order: binary.LittleEndian}
	default:
		lf.LengthFieldLength = []int{1, 2, 3, 4, 8}[r.Intn(5)]
		lf.LengthFieldOffset = r.Intn(7)
		switch r.Intn(3) {
		case 0:
			lf.Order = binary.LittleEndian
		case 1:
			lf.Order = binary.BigEndian
		}
		end := lf.LengthFieldOffset + lf.LengthFieldLength
		switch r.Intn(3) {
		case 0:
			lf.LengthAdjustment = r.Intn(9)
		case 1:
			lf.LengthAdjustment = -r.Intn(end + 1)
		}
		lf.MaxFrameLength = uint64(end + 8 + r.Intn(300))
		if big && lf.LengthFieldLength > 1 && r.Intn(3) == 0 {
			lf.MaxFrameLength = uint64(33000 + r.Intn(40000))
		}
		switch r.Intn(3) {
		case 0:
			lf.InitialBytesToStrip = end
		case 1:
			lf.InitialBytesToStrip = r.Intn(end + 4)
		}
	}
	end := lf.LengthFieldOffset + lf.LengthFieldLength
	maxVal := uint64(1)<<(8*uint(min(lf.LengthFieldLength, 7))) - 1
	var s []byte
	kinds := ""
	n := 1 + r.Intn(14)
	crowd := r.Intn(40) == 0
	if crowd { // many tiny frames behind each other
		n = 70 + r.Intn(600)
	}
	add := func(total int, val uint64, k string) {
		f := make([]byte, total)
		r.Read(f)
		if total >= end {
			putLen(lf, f, val)
		}
		s = append(s, f...)
		kinds += k
	}
	// value for a frame of the given total size; ok if representable
	val := func(total int) (uint64, bool) {
		v := int64(total) - int64(lf.LengthAdjustment) - int64(end)
		return uint64(v), v >= 0 && uint64(v) <= maxVal
	}
	lo := end
	if lf.LengthAdjustment > 0 {
		lo = end + lf.LengthAdjustment
	}
	if lf.InitialBytesToStrip > lo {
		lo = lf.InitialBytesToStrip
	}
	for i := 0; i < n; i++ {
		if crowd && r.Intn(40) != 0 {
			t := lo + r.Intn(3)
			if v, ok := val(t); ok && uint64(t) <= lf.MaxFrameLength {
				if i < 8 {
					add(t, v, "c")
				} else {
					add(t, v, "")
				}
			}
			continue
		}
		switch k := r.Intn(10); {
		case k < 2: // smallest
			if v, ok := val(lo); ok {
				add(lo, v, "s")
			}
		case k < 7:
			t := lo + r.Intn(60)
			if r.Intn(12) == 0 {
				t = lo + r.Intn(3000)
			}
			if big && r.Intn(30) == 0 {
				t = lo + 20000 + r.Intn(60000)
			}
			if v, ok := val(t); ok && uint64(t) <= lf.MaxFrameLength {
				add(t, v, "f")
			}
		case k < 8: // exactly the maximum
			t := int(lf.MaxFrameLength)
			if lf.MaxFrameLength < 1<<16 {
				if v, ok := val(t); ok {
					add(t, v, "m")
				}
			}
		default: // too long
			if lf.MaxFrameLength < 1<<16 {
				t := int(lf.MaxFrameLength) + 1 + r.Intn(4)
				if r.Intn(2) == 0 {
					t += r.Intn(2000)
				}
				if v, ok := val(t); ok {
					add(t, v, "O")
				}
			}
		}
	}
	if r.Intn(6) == 0 { // a malformed length, followed by innocent bytes
		switch {
		case lf.LengthFieldLength == 8 && r.Intn(2) == 0:
			add(end+r.Intn(40), 1<<63|uint64(r.Int63()), "N")
		case lf.LengthAdjustment < 0:
			add(end+r.Intn(40), uint64(r.Intn(-lf.LengthAdjustment)), "B")
		case lf.InitialBytesToStrip > end+lf.LengthAdjustment && lf.LengthAdjustment >= 0:
			add(end+r.Intn(40), 0, "S")
		}
		t := lo + 5
		if v, ok := val(t); ok && uint64(t) <= lf.MaxFrameLength {
			add(t, v, "f")
		}
	} else if r.Intn(3) == 0 && lf.LengthFieldLength > 1 {
		// a declared length far beyond what follows, whose low bytes alone look harmless
		bits := 8 * uint(lf.LengthFieldLength)
		if bits == 64 {
			bits = 63
		}
		v := uint64(lo) + uint64(r.Intn(40))
		hi := uint64(1) << (bits - 1)
		if r.Intn(2) == 0 {
			hi = 1 << (15 + uint(r.Intn(int(bits)-15)))
		}
		v |= hi
		f := make([]byte, 300+r.Intn(300))
		r.Read(f)
		putLen(lf, f, v)
		s = append(s, f...)
		kinds += "H"
	} else if r.Intn(3) == 0 { // an unfinished tail
		t := lo + 1 + r.Intn(60)
		if v, ok := val(t); ok {
			f := make([]byte, t)
			r.Read(f)
			putLen(lf, f, v)
			s = append(s, f[:r.Intn(t)]...)
			kinds += "t"
		}
	}
	return frameCase{lf, s, kinds}
}

// cuts splits n bytes into pieces in one of several styles.
func cuts(r *rand.Rand, n int, ends []int) (out []int, style string) {
	switch r.Intn(5) {
	case 0:
		return []int{n}, "whole"
	case 1:
		if n <= 4000 {
			for i := 0; i < n; i++ {
				out = append(out, 1)
			}
			return out, "bytes"
		}
		fallthrough
	case 2:
		m := 1 + r.Intn(64)
		for left := n; left > 0; {
			k := r.Intn(m + 1) // 0 is an empty read
			if k > left {
				k = left
			}
			out = append(out, k)
			left -= k
		}
		return out, "random"
	case 3: // around the frame boundaries
		pos := 0
		for _, e := range ends {
			t := e + r.Intn(5) - 2
			if t <= pos || t > n {
				continue
			}
			out = append(out, t-pos)
			pos = t
		}
		if pos < n {
			out = append(out, n-pos)
		}
		return out, "edges"
	default: // fixed read buffer
		b := []int{2, 3, 7, 16, 64, 512, 1024}[r.Intn(7)]
		for left := n; left > 0; {
			k := b
			if k > left {
				k = left
			}
			out = append(out, k)
			left -= k
		}
		return out, "fixed"
	}
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// watchCPU ends the child with a violation when one case burns CPU without end.
type watchCPU struct {
	mu    sync.Mutex
	name  string
	start time.Time
	cpu   time.Duration
}

func (c *Ctx) newWatch(limit time.Duration) *watchCPU {
	w := &watchCPU{}
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			w.mu.Lock()
			bad := w.name != "" && time.Since(w.start) > limit && cpuTime()-w.cpu > limit*3/4
			n := w.name
			w.mu.Unlock()
			if bad {
				c.Violate("no-termination", "still computing after %v: %s", limit, n)
				c.Finish()
			}
		}
	}()
	return w
}
func (w *watchCPU) begin(name string) {
	w.mu.Lock()
	w.name, w.start, w.cpu = name, time.Now(), cpuTime()
	w.mu.Unlock()
}
func (w *watchCPU) end() { w.mu.Lock(); w.name = ""; w.mu.Unlock() }

func lfString(lf ziface.LengthField) string {
	o := "nil"
	if lf.Order != nil {
		o = lf.Order.String()
	}
	return fmt.Sprintf("{order=%s max=%d off=%d len=%d adj=%d strip=%d}", o, lf.MaxFrameLength, lf.LengthFieldOffset, lf.LengthFieldLength, lf.LengthAdjustment, lf.InitialBytesToStrip)
}

func runDecoder(lf ziface.LengthField, s []byte, ks []int) (got [][]byte, after []int, panicked interface{}, at int) {
	d := zinterceptor.NewFrameDecoder(lf)
	buf := make([]byte, 0)
	pos := 0
	for _, k := range ks {
		if cap(buf) < k {
			buf = make([]byte, k)
		}
		buf = buf[:k]
		copy(buf, s[pos:pos+k])
		var out [][]byte
		func() {
			defer func() {
				if e := recover(); e != nil {
					panicked = e
				}
			}()
			out = d.Decode(buf)
		}()
		pos += k
		for i := range buf { // the caller reuses its read buffer
			buf[i] = 0xEE
		}
		if panicked != nil {
			return got, after, panicked, pos
		}
		for i := range out { // what a user appends to a frame stays with that frame
			_ = append(out[i], 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD)
		}
		got = append(got, out...)
		after = append(after, len(got))
	}
	return got, after, nil, pos
}

func scenC01Decode(c *Ctx) {
	debug.SetGCPercent(400)
	w := c.newWatch(6 * time.Second)
	n := c.N(6000, 60000)
	for i := 0; i < n && c.Violations() < 5; i++ {
		fc := genFrameCase(c.Rng, c.Thorough() || i%16 == 0)
		want, ends, bad := frameModel(fc.lf, fc.stream)
		for rep := 0; rep < 3; rep++ {
			ks, style := cuts(c.Rng, len(fc.stream), ends)
			desc := fmt.Sprintf("%s kinds=%s cut=%s", lfString(fc.lf), fc.kinds, style)
			w.begin(desc)
			got, after, pv, at := runDecoder(fc.lf, fc.stream, ks)
			w.end()
			c.Event(len(got) + len(ks))
			if pv != nil && bad < 0 {
				c.Violate("panic-on-wellformed", "%s: decoder panicked after %d of %d bytes: %v; stream %x cuts %v", desc, at, len(fc.stream), pv, clipB(fc.stream), clipI(ks))
			}
			if pv != nil && bad >= 0 && at <= bad {
				c.Violate("panic-early", "%s: panicked at %d before the malformed frame at %d: %v", desc, at, bad, pv)
			}
			// everything returned is what the reference says, in order
			for k := range got {
				if k >= len(want) {
					c.Violate("extra-frame", "%s: frame %d returned but the stream holds only %d; got %x; stream %x cuts %v", desc, k, len(want), clipB(got[k]), clipB(fc.stream), clipI(ks))
					break
				}
				if !bytes.Equal(got[k], want[k]) {
					c.Violate("wrong-frame", "%s: frame %d is %x, expected %x; stream %x cuts %v", desc, k, clipB(got[k]), clipB(want[k]), clipB(fc.stream), clipI(ks))
					break
				}
			}
			// and it is returned by the call that supplied its last byte
			pos := 0
			for j, m := range after {
				pos += ks[j]
				done := 0
				for done < len(ends) && ends[done] <= pos {
					done++
				}
				if m < done {
					c.Violate("late-frame", "%s: after %d bytes %d frames returned, the stream holds %d; stream %x cuts %v", desc, pos, m, done, clipB(fc.stream), clipI(ks))
					break
				}
			}
			c.Eval(fmt.Sprintf("%d/%d/%v/%d/%d/%s/%s", fc.lf.LengthFieldLength, fc.lf.LengthFieldOffset, fc.lf.Order == binary.LittleEndian, fc.lf.LengthAdjustment, fc.lf.InitialBytesToStrip, fc.kinds, style))
			if bad >= 0 {
				c.Count("malformed_streams", 1)
			}
		}
		c.Count("frames_expected", int64(len(want)))
		if i < 2 {
			c.Sample(map[string]interface{}{"length_field": lfString(fc.lf), "kinds": fc.kinds, "bytes": len(fc.stream), "frames": len(want)})
		}
	}
}

func clipB(b []byte) []byte {
	if len(b) > 160 {
		return b[:160]
	}
	return b
}
func clipI(b []int) []int {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

// scenC01Huge: frames over the maximum by megabytes are skipped to the byte,
// and what follows is framed as if they had never been there.
func scenC01Huge(c *Ctx) {
	debug.SetGCPercent(100)
	w := c.newWatch(60 * time.Second)
	n := c.N(6, 24)
	for i := 0; i < n; i++ {
		r := c.Rng
		lf := ziface.LengthField{MaxFrameLength: uint64(64 + r.Intn(5000)), LengthFieldOffset: r.Intn(5), LengthFieldLength: []int{4, 8}[r.Intn(2)]}
		if r.Intn(2) == 0 {
			lf.Order = binary.LittleEndian
		}
		end := lf.LengthFieldOffset + lf.LengthFieldLength
		if r.Intn(2) == 0 {
			lf.InitialBytesToStrip = r.Intn(end + 1)
		}
		size := int64(1)<<24 + r.Int63n(1<<24)
		switch {
		case i%3 == 1:
			size = int64(1)<<24 + 1 + 2*r.Int63n(1000)
		case i == n-1: // past what 31 and 32 bits count
			size = int64(1)<<31 + r.Int63n(1<<20)
			if c.Thorough() {
				size = int64(1)<<32 + r.Int63n(1<<20)
				lf.LengthFieldLength = 8
				end = lf.LengthFieldOffset + lf.LengthFieldLength
			}
		}
		frame := func(total int, fill byte) []byte {
			f := bytes.Repeat([]byte{fill}, total)
			putLen(lf, f, uint64(total-end))
			return f
		}
		f1, f2 := frame(end+r.Intn(40), 0x11), frame(end+1+r.Intn(40), 0x22)
		if i%2 == 0 && i < n-1 { // neighbours of megabytes that are within the maximum
			lf.MaxFrameLength = uint64(1<<20 + r.Intn(7<<20))
			f1, f2 = frame(int(lf.MaxFrameLength)-r.Intn(2)*r.Intn(1<<19), 0x11), frame(1<<20+r.Intn(int(lf.MaxFrameLength)-1<<20+1), 0x22)
		}
		head := make([]byte, end)
		putLen(lf, head, uint64(size)-uint64(end))
		desc := fmt.Sprintf("%s: a frame of %d bytes between two small ones", lfString(lf), size)
		d := zinterceptor.NewFrameDecoder(lf)
		var got [][]byte
		var early bool
		feed := func(b []byte) {
			got = append(got, d.Decode(b)...)
		}
		blk := make([]byte, 1<<16+r.Intn(1<<20))
		for k := range blk {
			blk[k] = byte(k * 7)
		}
		w.begin(desc)
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Violate("panic-on-wellformed", "%s: %v", desc, e)
				}
			}()
			feed(append(append([]byte(nil), f1...), head...))
			left := size - int64(end)
			if i%3 == 1 && r.Intn(3) != 0 { // all of it at once
				feed(append(bytes.Repeat([]byte{0x77}, int(left)), f2...))
				return
			}
			for left > int64(len(blk)) {
				feed(blk)
				left -= int64(len(blk))
			}
			early = len(got) > 1
			if r.Intn(2) == 0 {
				feed(append(append([]byte(nil), blk[:left]...), f2...))
			} else {
				feed(blk[:left])
				step := 1 + len(f2)/40
				for k := 0; k < len(f2); k += step {
					e := k + step
					if e > len(f2) {
						e = len(f2)
					}
					feed(f2[k:e])
				}
			}
		}()
		w.end()
		if early || len(got) != 2 || !bytes.Equal(got[0], f1[lf.InitialBytesToStrip:]) || !bytes.Equal(got[1], f2[lf.InitialBytesToStrip:]) {
			c.Violate("skip", "%s: %d frames returned (more than one before the long one had ended: %v), expected exactly the two small ones", desc, len(got), early)
		}
		c.Event(3)
		c.Count("bytes_skipped", size)
		c.Eval(fmt.Sprintf("huge/%s/%d", lfString(lf), size>>20))
	}
}

// customDecoder hands every frame to message 1.
type customDecoder struct{ lf ziface.LengthField }

func (d *customDecoder) GetLengthField() *ziface.LengthField { l := d.lf; return &l }
func (d *customDecoder) Intercept(ch ziface.IChain) ziface.IcResp {
	m := ch.GetIMessage()
	if m != nil {
		m.SetMsgID(1)
	}
	return ch.ProceedWithIMessage(m, nil)
}

type funcRouter struct {
	znet.BaseRouter
	f func(ziface.IRequest)
}

func (r *funcRouter) Handle(q ziface.IRequest) { r.f(q) }

// scenC01Net: the same through real connections, whose reads cut the stream.
func scenC01Net(c *Ctx) {
	mode := c.P.Str("mode", "tcp")
	rounds := c.N(14, 120)
	fcs := []frameCase{}
	// one length field per server: build a stream set for one field
	base := genFrameCase(c.Rng, false)
	for tries := 0; len(fcs) < rounds && tries < 2000000; tries++ {
		fc := genFrameCase(c.Rng, false)
		if lfString(fc.lf) == lfString(base.lf) && len(fc.stream) > 0 {
			fcs = append(fcs, fc)
		}
		if tries%20000 == 19999 && len(fcs) < rounds/2 {
			base = genFrameCase(c.Rng, false)
			fcs = nil
		}
	}
	var mu sync.Mutex
	got := map[uint64][][]byte{}
	var closed sync.Map
	var ids sync.Map // remote addr -> conn id
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.IOReadBuffSize = []uint32{1, 2, 5, 13, 64, 1024, 4096}[c.Rng.Intn(7)]
		g.WorkerPoolSize = uint32(c.Rng.Intn(3) + 1)
	}, func(s ziface.IServer) {
		s.SetDecoder(&customDecoder{base.lf})
		s.AddRouter(1, &funcRouter{f: func(q ziface.IRequest) {
			d := append([]byte(nil), q.GetData()...)
			mu.Lock()
			got[q.GetConnection().GetConnID()] = append(got[q.GetConnection().GetConnID()], d)
			mu.Unlock()
			c.Event(1)
		}})
		s.SetOnConnStart(func(k ziface.IConnection) { ids.Store(portOf(k.RemoteAddrString()), k.GetConnID()) })
		s.SetOnConnStop(func(k ziface.IConnection) { closed.Store(k.GetConnID(), true) })
	}).Start()
	var wg sync.WaitGroup
	var id64 int64
	sem := make(chan struct{}, 6)
	for i, fc := range fcs {
		i, fc := i, fc
		seed := c.Rng.Int63()
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			r := rand.New(rand.NewSource(seed))
			want, ends, bad := frameModel(fc.lf, fc.stream)
			ks, style := cuts(r, len(fc.stream), ends)
			if len(ks) > 300 {
				ks, style = []int{len(fc.stream)}, "whole"
			}
			w := s.MustDial()
			defer w.Close()
			pos := 0
			for _, k := range ks {
				if k == 0 && mode != "ws" {
					continue
				}
				if _, err := w.Write(fc.stream[pos : pos+k]); err != nil {
					break
				}
				pos += k
				if r.Intn(20) == 0 {
					time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
				}
			}
			desc := fmt.Sprintf("%s %s kinds=%s cut=%s", mode, lfString(fc.lf), fc.kinds, style)
			var id uint64
			if !WaitFor(StallLimit, func() bool {
				v, ok := ids.Load(w.Key())
				if ok {
					id = v.(uint64)
				}
				return ok
			}) {
				c.Stall("no-connection", "%s: the connection never started", desc)
				return
			}
			count := func() int { mu.Lock(); defer mu.Unlock(); return len(got[id]) }
			if bad < 0 {
				if !WaitCount(StallLimit, int64(len(want)), func() int64 { return int64(count()) }) {
					c.Stall("missing-frames", "%s: %d of %d frames handled; stream %x", desc, count(), len(want), clipB(fc.stream))
				}
				if v, ok := closed.Load(id); ok {
					_ = v
					c.Violate("closed-on-wellformed", "%s: the server closed a connection whose stream is well formed; stream %x", desc, clipB(fc.stream))
				}
			} else {
				if !WaitFor(StallLimit, func() bool { _, ok := closed.Load(id); return ok }) {
					c.Stall("malformed-not-rejected", "%s: malformed frame at %d, connection still open; stream %x", desc, bad, clipB(fc.stream))
				}
			}
			if i%3 == 0 {
				time.Sleep(20 * time.Millisecond) // leave room for surplus frames
			}
			mu.Lock()
			g := got[id]
			for k := range g {
				if k >= len(want) || !bytes.Equal(g[k], want[k]) {
					c.Violate("wrong-frame", "%s: handled frame %d is %x (stream holds %d frames)", desc, k, clipB(g[k]), len(want))
					break
				}
			}
			mu.Unlock()
			c.Eval(fmt.Sprintf("net/%s/%s/%s/%s", mode, lfString(fc.lf), fc.kinds, style))
			atomic.AddInt64(&id64, 1)
			c.Count("net_streams_"+mode, 1)
		}()
	}
	wg.Wait()
}

func init() {
	scenario("c01.decode", scenC01Decode)
	scenario("c01.net", scenC01Net)
	scenario("c01.huge", scenC01Huge)
	register(&Check{
		Property: "C01",
		Jobs: func(tier string, seed int64) []Job {
			js := spread("c01.decode", nil, seed, byTier(tier, 3, 16), 300*time.Second)
			js = append(js, spread("c01.huge", nil, seed, byTier(tier, 1, 4), 300*time.Second)...)
			for _, m := range []string{"tcp", "ws", "kcp", "tls"} {
				js = append(js, spread("c01.net", Params{"mode": m}, seed, byTier(tier, 4, 24), 180*time.Second)...)
			}
			return js
		},
		Parallel: 7,
		MinEvals: 2000,
		Rule:     "one evaluation = one generated byte stream (valid, smallest, maximal, oversize, malformed and unfinished frames for a random length-field layout) cut in one way and fed to a real frame decoder or a real server connection; distinct = (layout, frame-kind string, cut style)",
	})
}
