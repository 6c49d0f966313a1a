package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sync"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/zdecoder"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zpack"
)

// C02: built-in codecs. A message packed on one side arrives as the same ID and
// payload on the other, in the documented layout; oversize headers are refused.

func codecOf(name string) (ziface.IDataPack, func() ziface.IDecoder, func(uint32, []byte) []byte) {
	if name == "ltv" {
		return zpack.Factory().NewPack(ziface.ZinxDataPackOld), zdecoder.NewLTV_Little_Decoder, ltv
	}
	return zpack.Factory().NewPack(ziface.ZinxDataPack), zdecoder.NewTLVDecoder, tlv
}

func scenC02Codec(c *Ctx) {
	r := c.Rng
	ids := []uint32{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x01020304, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
	n := c.N(20000, 300000)
	for i := 0; i < n && c.Violations() < 5; i++ {
		name := []string{"tlv", "ltv"}[r.Intn(2)]
		p, _, ref := codecOf(name)
		id := ids[r.Intn(len(ids))]
		if r.Intn(2) == 0 {
			id = r.Uint32()
		}
		size := r.Intn(64)
		switch r.Intn(8) {
		case 0:
			size = 0
		case 1:
			size = r.Intn(5000)
		case 2:
			size = []int{255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537}[r.Intn(9)]
		}
		data := make([]byte, size)
		r.Read(data)
		keep := append([]byte(nil), data...)
		b, err := p.Pack(zpack.NewMsgPackage(id, data))
		c.Event(1)
		if err != nil {
			c.Violate("pack-error", "%s: packing id=%#x len=%d: %v", name, id, size, err)
			continue
		}
		if !bytes.Equal(b, ref(id, data)) {
			c.Violate("layout", "%s: id=%#x len=%d packed as %x", name, id, size, clipB(b))
			continue
		}
		if !bytes.Equal(keep, data) {
			c.Violate("payload-changed", "%s: packing changed the payload", name)
		}
		if p.GetHeadLen() != 8 {
			c.Violate("head-len", "%s: head length %d", name, p.GetHeadLen())
		}
		// the header alone, under several limits
		lim := []uint32{0, uint32(size), uint32(size) + 1, uint32(size) - 1, 4096, 0xffffffff, 1}[r.Intn(7)]
		zconf.GlobalObject.MaxPacketSize = lim
		in := b[:8]
		if r.Intn(2) == 0 {
			in = b
		}
		m, err := p.Unpack(in)
		over := lim > 0 && uint32(size) > lim
		switch {
		case over && err == nil:
			c.Violate("limit-ignored", "%s: header of %d bytes accepted with a limit of %d", name, size, lim)
		case !over && err != nil:
			c.Violate("refused", "%s: header of %d bytes refused with a limit of %d: %v", name, size, lim, err)
		case err == nil && (m.GetMsgID() != id || m.GetDataLen() != uint32(size)):
			c.Violate("unpack", "%s: id=%#x len=%d came back as id=%#x len=%d", name, id, size, m.GetMsgID(), m.GetDataLen())
		}
		// a header announcing anything
		if r.Intn(3) == 0 {
			h := make([]byte, 8)
			r.Read(h)
			var hid, hl uint32
			if name == "ltv" {
				hl, hid = binary.LittleEndian.Uint32(h), binary.LittleEndian.Uint32(h[4:])
			} else {
				hid, hl = binary.BigEndian.Uint32(h), binary.BigEndian.Uint32(h[4:])
			}
			m, err := p.Unpack(h)
			if over := lim > 0 && hl > lim; over != (err != nil) {
				c.Violate("limit", "%s: header announcing %d with limit %d: err=%v", name, hl, lim, err)
			} else if err == nil && (m.GetMsgID() != hid || m.GetDataLen() != hl) {
				c.Violate("unpack", "%s: header %x read as id=%#x len=%d", name, h, m.GetMsgID(), m.GetDataLen())
			}
		}
		// too short to be a header
		if r.Intn(4) == 0 {
			k := r.Intn(8)
			if _, err := p.Unpack(b[:k]); err == nil {
				c.Violate("short-header", "%s: %d bytes accepted as a header", name, k)
			}
		}
		c.Eval(fmt.Sprintf("%s/%d/%d/%v", name, id>>16, size, over))
		if i < 1 {
			c.Sample(map[string]interface{}{"codec": name, "id": id, "len": size, "limit": lim})
		}
	}
}

// scenC02Net: a real client and a real server exchange messages both ways.
func scenC02Net(c *Ctx) {
	r := c.Rng
	codec, mode := c.P.Str("codec", "tlv"), c.P.Str("mode", "tcp")
	pack, dec, _ := codecOf(codec)
	ids := []uint32{0, 1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304}
	for len(ids) < 24 {
		id := r.Uint32()
		if id != ziface.HeartBeatDefaultMsgID {
			ids = append(ids, id)
		}
	}
	type msg struct {
		id   uint32
		data []byte
	}
	n := c.N(250, 3000)
	var mu sync.Mutex
	atSrv, atCli := map[uint32]msg{}, map[uint32]msg{} // by sequence number (in the payload, if it has room) else counted
	var tinySrv, tinyCli = map[uint32]int{}, map[uint32]int{}
	var nSrv, nCli int
	record := func(where string, m map[uint32]msg, tiny map[uint32]int, cnt *int, q ziface.IRequest) {
		d := append([]byte(nil), q.GetData()...)
		mu.Lock()
		defer mu.Unlock()
		*cnt++
		c.Event(1)
		if q.GetMessage().GetDataLen() != uint32(len(d)) {
			c.Violate("datalen", "%s: data length %d, payload %d", where, q.GetMessage().GetDataLen(), len(d))
		}
		if len(d) < 12 {
			tiny[q.GetMsgID()<<4|uint32(len(d))]++
			return
		}
		_, seq, ok := parseBody(d)
		if !ok {
			c.Violate("corrupt", "%s: payload damaged: id=%#x len=%d %x", where, q.GetMsgID(), len(d), clipB(d))
			return
		}
		if o, dup := m[seq]; dup {
			c.Violate("duplicate", "%s: message %d came twice (ids %#x %#x)", where, seq, o.id, q.GetMsgID())
		}
		m[seq] = msg{q.GetMsgID(), d}
	}
	var opts []znet.Option
	var copts []znet.ClientOption
	if r.Intn(2) == 0 {
		opts, copts = []znet.Option{znet.WithPacket(pack)}, []znet.ClientOption{znet.WithPacketClient(pack), znet.WithNameClient("codec")}
	}
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.WorkerPoolSize = 4
		g.IOReadBuffSize = []uint32{16, 512, 4096}[r.Intn(3)]
	}, func(s ziface.IServer) {
		if opts == nil {
			s.SetPacket(pack)
		}
		s.SetDecoder(dec())
		for _, id := range uniq(ids) {
			s.AddRouter(id, &funcRouter{f: func(q ziface.IRequest) {
				record("server", atSrv, tinySrv, &nSrv, q)
				if err := q.GetConnection().SendMsg(q.GetMsgID(), q.GetData()); err != nil {
					c.Violate("send", "echo failed: %v", err)
				}
			}})
		}
	}, opts...).Start()
	cl := s.Client(copts...)
	if copts == nil {
		cl.SetPacket(pack)
	}
	cl.SetDecoder(dec())
	for _, id := range uniq(ids) {
		cl.AddRouter(id, &funcRouter{f: func(q ziface.IRequest) { record("client", atCli, tinyCli, &nCli, q) }})
	}
	up := make(chan struct{})
	cl.SetOnConnStart(func(ziface.IConnection) { close(up) })
	cl.Start()
	select {
	case <-up:
	case err := <-cl.GetErrChan():
		c.Inconclusive("client: %v", err)
		return
	case <-time.After(StallLimit):
		c.Stall("no-connection", "client never connected")
		return
	}
	sent := map[uint32]msg{}
	tiny := map[uint32]int{}
	for i := 0; i < n; i++ {
		id := ids[r.Intn(len(ids))]
		size := 12 + r.Intn(200)
		switch r.Intn(10) {
		case 0:
			size = r.Intn(12)
		case 1:
			size = 4000 + r.Intn(300)
		case 2:
			size = []int{1016, 1024, 65528, 65536, 100000}[r.Intn(5)]
		}
		var d []byte
		if size < 12 {
			d = bytes.Repeat([]byte{byte(id)}, size)
			tiny[id<<4|uint32(size)]++
		} else {
			d = body(7, uint32(i), size)
			sent[uint32(i)] = msg{id, d}
		}
		if err := cl.Conn().SendMsg(id, d); err != nil {
			c.Violate("send", "client send %d: %v", i, err)
			return
		}
		c.Eval(fmt.Sprintf("net/%s/%s/%d/%d", mode, codec, id, size))
	}
	if !WaitFor(StallLimit, func() bool { mu.Lock(); defer mu.Unlock(); return nSrv >= n && nCli >= n }) {
		c.Stall("lost", "%s %s: %d sent, %d reached the server, %d came back", mode, codec, n, nSrv, nCli)
		return
	}
	time.Sleep(30 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if nSrv != n || nCli != n {
		c.Violate("count", "%d sent, %d at the server, %d back at the client", n, nSrv, nCli)
	}
	for seq, m := range sent {
		if g, ok := atSrv[seq]; !ok || g.id != m.id || !bytes.Equal(g.data, m.data) {
			c.Violate("server-differs", "message %d id=%#x len=%d: server saw id=%#x len=%d (seen=%v)", seq, m.id, len(m.data), g.id, len(g.data), ok)
			break
		}
		if g, ok := atCli[seq]; !ok || g.id != m.id || !bytes.Equal(g.data, m.data) {
			c.Violate("client-differs", "message %d id=%#x len=%d: client saw id=%#x len=%d (seen=%v)", seq, m.id, len(m.data), g.id, len(g.data), ok)
			break
		}
	}
	for k, v := range tiny {
		if tinySrv[k] != v || tinyCli[k] != v {
			c.Violate("tiny", "id&len %#x: %d sent, %d at the server, %d back", k, v, tinySrv[k], tinyCli[k])
		}
	}
	c.Sample(map[string]interface{}{"mode": mode, "codec": codec, "messages": n, "ids": len(ids)})
}

func uniq(v []uint32) []uint32 {
	seen := map[uint32]bool{}
	var out []uint32
	for _, x := range v {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

// Client makes a real zinx client for the server.
func (s *Srv) Client(opts ...znet.ClientOption) ziface.IClient {
	switch s.Mode {
	case "tls":
		return znet.NewTLSClient("127.0.0.1", s.Port, opts...)
	case "ws":
		return znet.NewWsClient("127.0.0.1", s.Ws, opts...)
	}
	return znet.NewClient("127.0.0.1", s.Port, opts...)
}

func init() {
	scenario("c02.codec", scenC02Codec)
	scenario("c02.net", scenC02Net)
	register(&Check{
		Property: "C02",
		Jobs: func(tier string, seed int64) []Job {
			js := spread("c02.codec", nil, seed, byTier(tier, 2, 8), 300*time.Second)
			for _, m := range []string{"tcp", "ws", "tls"} {
				for _, k := range []string{"tlv", "ltv"} {
					js = append(js, spread("c02.net", Params{"mode": m, "codec": k}, seed, byTier(tier, 1, 6), 180*time.Second)...)
				}
			}
			return js
		},
		Parallel: 7,
		MinEvals: 5000,
		Rule:     "one evaluation = one message (random/extreme ID, length, size limit) packed, compared with an independent reference layout and unpacked, or sent client->server->client through real sockets with payloads compared; distinct = (codec, ID class, length, limit exceeded) or (transport, codec, ID, length)",
	})
}
