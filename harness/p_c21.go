package harness

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znotify"
)

// C21: notifications reach exactly the registered connections.

type noteSent struct {
	buff bool
	msg  uint32
	data string
}

// noteConn is a stand-in connection that records what is sent on it.
type noteConn struct {
	ziface.IConnection
	n    uint64
	cid  uint64 // connections of different servers may have the same
	fail bool
	mu   sync.Mutex
	got  []noteSent
	each func(noteSent)
}

var errNote = errors.New("planned send failure")

func (f *noteConn) put(s noteSent) error {
	f.mu.Lock()
	f.got = append(f.got, s)
	f.mu.Unlock()
	if f.each != nil {
		f.each(s)
	}
	if f.fail {
		return errNote
	}
	return nil
}
func (f *noteConn) take() []noteSent {
	f.mu.Lock()
	defer f.mu.Unlock()
	g := f.got
	f.got = nil
	return g
}
func (f *noteConn) SendMsg(id uint32, d []byte) error { return f.put(noteSent{false, id, string(d)}) }
func (f *noteConn) SendBuffMsg(id uint32, d []byte) error {
	return f.put(noteSent{true, id, string(d)})
}
func (f *noteConn) GetConnID() uint64        { return f.cid }
func (f *noteConn) GetConnIdStr() string     { return strconv.FormatUint(f.cid, 10) }
func (f *noteConn) RemoteAddrString() string { return "stand-in" }
func (f *noteConn) LocalAddrString() string  { return "stand-in" }
func (f *noteConn) GetName() string          { return "stand-in" }
func (f *noteConn) IsAlive() bool            { return true }

// scenC21Model: any sequence of calls, compared with a map.
func scenC21Model(c *Ctx) {
	r := c.Rng
	for round := 0; round < c.N(400, 4000) && c.Violations() == 0; round++ {
		n := znotify.NewZNotify()
		other := znotify.NewZNotify() // not affected by the first
		bystander := &noteConn{n: 1}
		other.SetNotifyID(1, bystander)
		model := map[uint64]*noteConn{}
		var all []*noteConn
		fresh := func() *noteConn {
			k := &noteConn{n: uint64(len(all) + 1), cid: uint64(r.Intn(4)), fail: r.Intn(5) == 0}
			all = append(all, k)
			return k
		}
		nIDs := 1 + r.Intn(100)
		hist := ""
		kinds := map[string]int{}
		for op := 0; op < 60+r.Intn(120) && c.Violations() == 0; op++ {
			id := randID(r, nIDs)
			want := map[*noteConn]int{}
			msg := r.Uint32()
			data := make([]byte, r.Intn(60))
			r.Read(data)
			buff := r.Intn(2) == 0
			var what string
			switch k := r.Intn(10); {
			case k < 4:
				var f *noteConn
				if len(all) > 0 && r.Intn(8) == 0 {
					f = all[r.Intn(len(all))] // one connection under several identifiers
				} else {
					f = fresh()
				}
				what = fmt.Sprintf("set %d->#%d;", id, f.n)
				n.SetNotifyID(id, f)
				model[id] = f
				kinds["set"]++
			case k < 5:
				what = fmt.Sprintf("del %d;", id)
				n.DelNotifyByID(id)
				delete(model, id)
				kinds["del"]++
			case k < 8:
				what = fmt.Sprintf("notify %d buff=%v;", id, buff)
				var err error
				if buff {
					err = n.NotifyBuffToConnByID(id, msg, data)
				} else {
					err = n.NotifyToConnByID(id, msg, data)
				}
				f, ok := model[id]
				if ok {
					want[f]++
				}
				if bad := !ok || f.fail; bad != (err != nil) {
					c.Violate("result", "%s gave error %v; registered=%v, the connection fails=%v; after %s", what, err, ok, ok && f.fail, hist)
				}
				kinds["one"]++
			default:
				what = fmt.Sprintf("notifyAll buff=%v;", buff)
				if buff {
					n.NotifyBuffAll(msg, data)
				} else {
					n.NotifyAll(msg, data)
				}
				for _, f := range model {
					want[f]++
				}
				kinds["all"]++
			}
			hist = clipTail(hist, what)
			for _, f := range all {
				got := f.take()
				if len(got) != want[f] {
					c.Violate("count", "%s: connection #%d was sent %d messages, expected %d; after %s", what, f.n, len(got), want[f], hist)
				}
				for _, s := range got {
					c.Event(1)
					if s != (noteSent{buff, msg, string(data)}) {
						c.Violate("content", "%s: connection #%d was sent buff=%v id=%d %x, expected buff=%v id=%d %x", what, f.n, s.buff, s.msg, s.data, buff, msg, data)
					}
				}
			}
			if len(bystander.take()) > 0 {
				c.Violate("bystander", "%s reached a connection of another notifier", what)
			}
			// what it knows
			q := randID(r, nIDs)
			f, ok := model[q]
			g, err := n.GetNotifyByID(q)
			if n.HasIdConn(q) != ok || (err == nil) != ok || ok && g != ziface.IConnection(f) {
				c.Violate("lookup", "identifier %d: has=%v get=%v,%v; registered=%v; after %s", q, n.HasIdConn(q), g, err, ok, hist)
			}
			if n.ConnNums() != len(model) {
				c.Violate("nums", "%d connections, %d registered; after %s", n.ConnNums(), len(model), hist)
			}
		}
		for k, v := range kinds {
			c.Count("model_"+k, int64(v))
		}
		c.Eval(fmt.Sprintf("model/%d/%v", nIDs, kinds))
	}
}

// scenC21Conc: notifiers while others register and remove.
func scenC21Conc(c *Ctx) {
	r0 := c.Rng
	chaos(r0.Intn(3))
	for round := 0; round < c.N(40, 200) && c.Violations() == 0; round++ {
		n := znotify.NewZNotify()
		var clock int64
		tick := func() int64 { return atomic.AddInt64(&clock, 1) }
		nStable, owners, notifiers := 1+r0.Intn(40), 1+r0.Intn(4), 1+r0.Intn(4)
		var reached int64
		type span struct {
			id                                 uint64
			setStart, setEnd, delStart, delEnd int64
			mu                                 sync.Mutex
			seen                               map[uint32]int
			conn                               *noteConn
		}
		mk := func(id uint64, fail bool) *span {
			s := &span{id: id, seen: map[uint32]int{}, delEnd: 1 << 60, delStart: 1 << 60}
			s.conn = &noteConn{n: id, fail: fail}
			s.conn.each = func(x noteSent) {
				atomic.AddInt64(&reached, 1)
				s.mu.Lock()
				s.seen[x.msg]++
				s.mu.Unlock()
				if len(x.data) != 28 {
					c.Violate("content", "message %d arrived with %d bytes", x.msg, len(x.data))
					return
				}
				start, target := int64(binary.BigEndian.Uint64([]byte(x.data))), binary.BigEndian.Uint64([]byte(x.data[8:]))
				if binary.BigEndian.Uint32([]byte(x.data[16:])) != x.msg || (x.data[20] == 1) != x.buff {
					c.Violate("content", "message %d (buff=%v) arrived with another one's content %x", x.msg, x.buff, x.data)
				}
				if x.data[21] == 1 && target != id {
					c.Violate("stranger", "a notification for %d reached the connection registered under %d", target, id)
				}
				if e := atomic.LoadInt64(&s.delEnd); start > e {
					c.Violate("after-removal", "a notification that began after %d was removed still reached it", id)
				}
			}
			return s
		}
		stable := map[uint64]*span{}
		for i := 0; i < nStable; i++ {
			id := uint64(i) * 7
			s := mk(id, i%5 == 4)
			s.setStart = tick()
			n.SetNotifyID(id, s.conn)
			s.setEnd = tick()
			stable[id] = s
		}
		var spans []*span
		var spanMu sync.Mutex
		type note struct {
			msg        uint32
			start, end int64
			one        bool
			id         uint64
		}
		var notes []note
		var stop int32
		var wg, ow sync.WaitGroup
		for o := 0; o < owners; o++ {
			o := o
			seed := r0.Int63()
			ow.Add(1)
			go func() {
				defer ow.Done()
				r := rand.New(rand.NewSource(seed))
				for g := 0; atomic.LoadInt32(&stop) == 0 && g < 3000; g++ {
					id := uint64(100000 + o*1000 + r.Intn(40))
					s := mk(id, r.Intn(4) == 0)
					s.setStart = tick()
					n.SetNotifyID(id, s.conn)
					s.setEnd = tick()
					if r.Intn(2) == 0 {
						time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
					}
					if k, err := n.GetNotifyByID(id); err != nil || k != ziface.IConnection(s.conn) || !n.HasIdConn(id) {
						c.Violate("own-lookup", "the identifier %d, registered and not removed, is not found (%v)", id, err)
					}
					s.delStart = tick()
					n.DelNotifyByID(id)
					if n.HasIdConn(id) {
						c.Violate("own-lookup", "the identifier %d is still there after its removal", id)
					}
					atomic.StoreInt64(&s.delEnd, tick())
					spanMu.Lock()
					spans = append(spans, s)
					spanMu.Unlock()
				}
			}()
		}
		var num uint32
		for w := 0; w < notifiers; w++ {
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for i := 0; i < 120; i++ {
					x := note{msg: atomic.AddUint32(&num, 1), one: r.Intn(3) == 0, id: uint64(r.Intn(nStable)) * 7}
					buff := r.Intn(2) == 0
					d := make([]byte, 28)
					binary.BigEndian.PutUint64(d[8:], x.id)
					binary.BigEndian.PutUint32(d[16:], x.msg)
					if buff {
						d[20] = 1
					}
					if x.one {
						d[21] = 1
					}
					x.start = tick()
					binary.BigEndian.PutUint64(d, uint64(x.start))
					var err error
					switch {
					case x.one && buff:
						err = n.NotifyBuffToConnByID(x.id, x.msg, d)
					case x.one:
						err = n.NotifyToConnByID(x.id, x.msg, d)
					case buff:
						n.NotifyBuffAll(x.msg, d)
					default:
						n.NotifyAll(x.msg, d)
					}
					x.end = tick()
					if x.one && (err != nil) != stable[x.id].conn.fail {
						c.Violate("result", "notifying %d gave %v, its connection fails: %v", x.id, err, stable[x.id].conn.fail)
					}
					spanMu.Lock()
					notes = append(notes, x)
					spanMu.Unlock()
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); atomic.StoreInt32(&stop, 1); ow.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(StallLimit):
			c.Stall("stuck", "notifiers and registrations do not come to an end; %s", Stacks())
			return
		}
		overlap := 0
		for _, x := range notes {
			for id, s := range stable {
				want := 1
				if x.one && id != x.id {
					want = 0
				}
				if s.seen[x.msg] != want {
					c.Violate("stable-count", "notification %d (by identifier=%v %d) reached the connection registered all along under %d %d times", x.msg, x.one, x.id, id, s.seen[x.msg])
				}
			}
			for _, s := range spans {
				got := s.seen[x.msg]
				switch {
				case got > 1 || got > 0 && x.one:
					c.Violate("churn-count", "notification %d reached the connection under %d %d times", x.msg, s.id, got)
				case got == 0 && !x.one && s.setEnd < x.start && s.delStart > x.end:
					c.Violate("churn-lost", "notification %d did not reach the connection registered under %d throughout", x.msg, s.id)
				case got > 0 && s.setStart > x.end:
					c.Violate("churn-early", "notification %d reached a connection registered after it", x.msg)
				}
				if got > 0 {
					overlap++
				}
			}
		}
		if n.ConnNums() != nStable {
			c.Violate("nums", "%d registered at the end, counted %d", nStable, n.ConnNums())
		}
		c.Event(int(reached))
		c.Count("conc_notes", int64(len(notes)))
		c.Count("conc_churned", int64(len(spans)))
		c.Count("conc_reached_churned", int64(overlap))
		c.Eval(fmt.Sprintf("conc/%d/%d/%d/%d", nStable, owners, notifiers, round))
	}
	chaos(0)
}

// scenC21Real: identifiers on real connections, some of which end while notifications go out.
func scenC21Real(c *Ctx) {
	mode := c.P.Str("mode", "tcp")
	r0 := c.Rng
	chaos(r0.Intn(3))
	n := znotify.NewZNotify()
	var users sync.Map // port -> connection
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.MaxConn = 2000
		g.WorkerPoolSize = 3
		g.MaxMsgChanLen = 1024
	}, nil)
	var base uint32
	login := func(q ziface.IRequest) {
		src, seq, ok := parseBody(q.GetData())
		if !ok {
			return
		}
		n.SetNotifyID(uint64(src)<<32|uint64(seq), q.GetConnection())
		users.Store(uint64(src)<<32|uint64(seq), q.GetConnection())
	}
	s.S.AddRouter(1, onlyMain(login))
	s.Start()
	for round := 0; round < c.N(14, 60) && c.Violations() == 0; round++ {
		base++
		nc := 6 + r0.Intn(10)
		idOf := func(i int) uint64 { return uint64(base)<<32 | uint64(i) }
		type peer struct {
			w      *Wire
			leaves bool
			mu     sync.Mutex
			got    map[uint32]int
			last   uint32
			done   chan struct{}
		}
		peers := make([]*peer, nc)
		for i := range peers {
			w := s.MustDial()
			if w == nil {
				return
			}
			p := &peer{w: w, leaves: i%3 == 2, got: map[uint32]int{}, done: make(chan struct{})}
			peers[i] = p
			w.Write(tlv(1, body(base, uint32(i), 24)))
			if !WaitFor(StallLimit, func() bool { _, ok := users.Load(idOf(i)); return ok }) {
				c.Stall("login", "%s: a peer's message was not handled", mode)
				return
			}
			i := i
			go func() {
				defer close(p.done)
				fr := NewFrameReader(w)
				for {
					w.Deadline(StallLimit)
					f, err := fr.Next(1 << 16)
					if err != nil {
						return
					}
					src, seq, ok := parseBody(f.Data)
					if !ok || src != f.ID {
						c.Violate("damaged", "%s: peer %d got id %d %x", mode, i, f.ID, clipB(f.Data))
						return
					}
					c.Event(1)
					p.mu.Lock()
					p.got[seq]++
					if src == 50 { // by direct sends of one notifier: in order
						if seq <= p.last {
							c.Violate("order", "%s: peer %d got direct notification %d after %d", mode, i, seq, p.last)
						}
						p.last = seq
					}
					p.mu.Unlock()
				}
			}()
		}
		total := uint32(40 + r0.Intn(40))
		leaveAt := 1 + uint32(r0.Intn(int(total)-1))
		type want struct {
			to    int // -1: all
			exact bool
			none  bool
		}
		wants := map[uint32]want{}
		for q := uint32(1); q <= total; q++ {
			if q == leaveAt {
				for i, p := range peers {
					if p.leaves {
						switch {
						case i%2 == 0 || mode == "kcp":
							k, _ := users.Load(idOf(i))
							k.(ziface.IConnection).Stop()
						default:
							p.w.Close()
						}
						if r0.Intn(2) == 0 {
							n.DelNotifyByID(idOf(i))
						}
					}
				}
			}
			to := -1
			if r0.Intn(3) == 0 {
				to = r0.Intn(nc)
			}
			size := 20 + r0.Intn(300)
			direct := r0.Intn(2) == 0
			var err error
			switch {
			case direct && to < 0:
				n.NotifyAll(50, body(50, q, size))
			case direct:
				err = n.NotifyToConnByID(idOf(to), 50, body(50, q, size))
			case to < 0:
				n.NotifyBuffAll(51, body(51, q, size))
			default:
				err = n.NotifyBuffToConnByID(idOf(to), 51, body(51, q, size))
			}
			// a queued notification to all may time out on one connection without a word
			wants[q] = want{to, (direct || to >= 0) && err == nil, err != nil}
			if err != nil && to >= 0 && direct && !peers[to].leaves {
				c.Violate("error-open", "%s: notifying the open connection of peer %d gave %v", mode, to, err)
			}
		}
		have := func(p *peer, q uint32) int { p.mu.Lock(); defer p.mu.Unlock(); return p.got[q] }
		for i, p := range peers {
			if p.leaves {
				continue
			}
			for q, w := range wants {
				if w.exact && (w.to < 0 || w.to == i) && !WaitFor(StallLimit, func() bool { return have(p, q) > 0 }) {
					c.Stall("lost", "%s: notification %d did not reach peer %d", mode, q, i)
					return
				}
			}
		}
		for i, p := range peers {
			n.DelNotifyByID(idOf(i))
			k, _ := users.Load(idOf(i))
			k.(ziface.IConnection).Stop()
			if mode == "kcp" {
				time.Sleep(2 * time.Millisecond)
			}
			p.w.Close()
			<-p.done
			for q, w := range wants {
				g := have(p, q)
				if g > 1 || g > 0 && (w.to >= 0 && w.to != i || w.none) {
					c.Violate("count", "%s: notification %d (to %d, refused=%v) reached peer %d %d times", mode, q, w.to, w.none, i, g)
				}
			}
		}
		if n.ConnNums() != 0 {
			c.Violate("nums", "%s: all identifiers removed, %d counted", mode, n.ConnNums())
		}
		c.Count("real_notes", int64(total))
		c.Eval(fmt.Sprintf("real/%s/%d/%d/%d", mode, nc, total, leaveAt))
	}
	chaos(0)
}

func init() {
	scenario("c21.model", scenC21Model)
	scenario("c21.conc", scenC21Conc)
	scenario("c21.real", scenC21Real)
	register(&Check{
		Property: "C21",
		Jobs: func(tier string, seed int64) []Job {
			j := spread("c21.model", nil, seed, byTier(tier, 2, 8), 3*time.Minute)
			j = append(j, spread("c21.conc", nil, seed, byTier(tier, 3, 12), 4*time.Minute)...)
			for _, m := range []string{"tcp", "ws", "kcp", "tls"} {
				j = append(j, spread("c21.real", Params{"mode": m}, seed, byTier(tier, 2, 5), 4*time.Minute)...)
			}
			return j
		},
		Parallel: 6,
		Rule:     "one evaluation = one notifier's life: a random sequence of registrations, removals and notifications compared call by call with a map, or concurrent notifiers and owners whose deliveries are checked against registration intervals, or a round of real connections some of which end meanwhile; distinct = (kind, identifiers, call counts, peers)",
	})
}
