package harness

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
)

// C09: the connection registry knows exactly the open connections.

// fakeConn is a stand-in connection that only has an identity.
type fakeConn struct {
	ziface.IConnection
	id     uint64
	stops  int32
	onStop func(*fakeConn)
}

func (f *fakeConn) GetConnID() uint64        { return f.id }
func (f *fakeConn) GetConnIdStr() string     { return strconv.FormatUint(f.id, 10) }
func (f *fakeConn) GetName() string          { return "fake" }
func (f *fakeConn) RemoteAddrString() string { return "fake" }
func (f *fakeConn) LocalAddrString() string  { return "fake" }
func (f *fakeConn) Stop() {
	atomic.AddInt32(&f.stops, 1)
	if f.onStop != nil {
		f.onStop(f)
	}
}

func randID(r *rand.Rand, small int) uint64 {
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(small)) << 32
	case 1:
		return ^uint64(0) - uint64(r.Intn(small))
	case 2: // those below, with another bit set
		return uint64(r.Intn(small*4)) | 1<<uint(r.Intn(64))
	default:
		return uint64(r.Intn(small * 4))
	}
}

func sameU64(a, b []uint64) bool {
	sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return fmt.Sprint(a) == fmt.Sprint(b)
}

// scenC09Model: any sequence of calls, compared with a map.
func scenC09Model(c *Ctx) {
	r := c.Rng
	chaos(0)
	c.Configure("tcp", nil)
	for round := 0; round < c.N(60, 1200) && c.Violations() == 0; round++ {
		m := znet.NewServer().GetConnMgr()
		model := map[uint64]*fakeConn{}
		nIDs := 1 + r.Intn(120)
		hist := ""
		if r.Intn(3) == 0 { // a large population
			nIDs = 100 + r.Intn(900)
			for i := 0; i < nIDs/2; i++ {
				f := &fakeConn{id: randID(r, nIDs)}
				m.Add(f)
				model[f.id] = f
			}
		}
		for op := 0; op < 150+r.Intn(150) && c.Violations() == 0; op++ {
			id := randID(r, nIDs)
			kind := r.Intn(12)
			switch {
			case kind < 4:
				f := &fakeConn{id: id}
				m.Add(f)
				model[id] = f
				hist = clipTail(hist, fmt.Sprintf("add %d;", id))
			case kind < 6:
				if f, ok := model[id]; ok || r.Intn(2) == 0 {
					if !ok {
						f = &fakeConn{id: id}
					}
					m.Remove(f)
					delete(model, id)
					hist = clipTail(hist, fmt.Sprintf("remove %d;", id))
				}
			case kind == 6:
				sentinel := errors.New("no")
				var failing uint64
				var anyFail bool
				for k := range model {
					if r.Intn(3) == 0 {
						failing, anyFail = k, true
					}
					break
				}
				args := &struct{ x int }{op}
				seen := map[uint64]int{}
				two := r.Intn(2) == 0
				visit := func(id uint64, k ziface.IConnection, a interface{}) error {
					seen[id]++
					if a != interface{}(args) {
						c.Violate("range-args", "range callback got args %v, was given %v (after %s)", a, args, hist)
					}
					if f := model[id]; f == nil || k != ziface.IConnection(f) {
						c.Violate("range-conn", "range callback got id %d with a connection that is not registered under it (after %s)", id, hist)
					}
					if anyFail && id == failing {
						return sentinel
					}
					return nil
				}
				var err error
				if two {
					err = m.Range2(func(s string, k ziface.IConnection, a interface{}) error {
						id, e := strconv.ParseUint(s, 10, 64)
						if e != nil {
							c.Violate("range-id", "range gave the id %q", s)
						}
						return visit(id, k, a)
					}, args)
				} else {
					err = m.Range(visit, args)
				}
				for k := range model {
					if seen[k] != 1 {
						c.Violate("range-visits", "range (second form %v) visited connection %d %d times, %d of %d connections seen, one callback failing: %v (after %s)", two, k, seen[k], len(seen), len(model), anyFail, hist)
						break
					}
				}
				if anyFail != (err != nil) || anyFail && !errors.Is(err, sentinel) {
					c.Violate("range-error", "a range (second form %v) with a failing callback: %v, returned %v (after %s)", two, anyFail, err, hist)
				}
				c.Event(len(seen))
			case kind == 7 && r.Intn(8) == 0:
				var stopped int32
				selfRemove := r.Intn(2) == 0
				for _, f := range model {
					f.onStop = func(f *fakeConn) {
						atomic.AddInt32(&stopped, 1)
						if selfRemove {
							m.Remove(f) // what real connections do
						}
					}
				}
				m.ClearConn()
				n := int32(len(model))
				WaitFor(StallLimit, func() bool { return atomic.LoadInt32(&stopped) >= n })
				for k, f := range model {
					if atomic.LoadInt32(&f.stops) != 1 {
						c.Violate("clear", "clearing stopped connection %d %d times (of %d connections)", k, f.stops, n)
						break
					}
				}
				for _, f := range model {
					m.Remove(f)
				}
				model = map[uint64]*fakeConn{}
				hist = clipTail(hist, "clear;")
			}
			// after every step
			if n := m.Len(); n != len(model) {
				c.Violate("len", "count is %d, %d are registered (after %s)", n, len(model), hist)
			}
			probe := randID(r, nIDs)
			for _, q := range []uint64{id, probe} {
				f, ok := model[q]
				k, err := m.Get(q)
				k2, err2 := m.Get2(strconv.FormatUint(q, 10))
				if ok && (err != nil || err2 != nil || k != ziface.IConnection(f) || k2 != ziface.IConnection(f)) {
					c.Violate("get", "id %d is registered, lookups gave %v/%v, right connection %v/%v (after %s)", q, err, err2, k == ziface.IConnection(f), k2 == ziface.IConnection(f), hist)
				}
				if !ok && (err == nil || err2 == nil) {
					c.Violate("get-missing", "id %d is not registered, but lookups gave errors %v, %v (after %s)", q, err, err2, hist)
				}
			}
			if op%10 == 0 {
				var want, got2 []uint64
				for k := range model {
					want = append(want, k)
				}
				got := m.GetAllConnID()
				for _, s := range m.GetAllConnIdStr() {
					v, _ := strconv.ParseUint(s, 10, 64)
					got2 = append(got2, v)
				}
				if !sameU64(got, want) || !sameU64(got2, want) {
					c.Violate("list", "listed %v and %v, registered are %v (after %s)", got, got2, want, hist)
				}
			}
			c.Event(1)
		}
		c.Eval(fmt.Sprintf("model/%d/%d/%x", nIDs, len(model), c.Seed+int64(round)))
	}
	c.Sample(map[string]interface{}{"kind": "model", "seed": c.Seed})
}

func clipTail(s, add string) string {
	s += add
	if len(s) > 400 {
		s = "..." + s[len(s)-380:]
	}
	return s
}

// scenC09Churn: readers while owners add and remove.
func scenC09Churn(c *Ctx) {
	r0 := c.Rng
	chaos(r0.Intn(3))
	c.Configure("tcp", nil)
	for round := 0; round < c.N(8, 30) && c.Violations() == 0; round++ {
		m := znet.NewServer().GetConnMgr()
		stable := map[uint64]*fakeConn{}
		for i := 0; i < 40; i++ {
			f := &fakeConn{id: uint64(1000000 + i*7)}
			stable[f.id] = f
			m.Add(f)
		}
		const owners, readers, per = 6, 4, 40
		var alive int32 = owners
		var wg sync.WaitGroup
		n := c.N(800, 4000)
		for o := 0; o < owners; o++ {
			o := o
			seed := r0.Int63()
			wg.Add(1)
			go func() { // owns the ids o*per .. o*per+per-1, so its own view is exact
				defer wg.Done()
				defer atomic.AddInt32(&alive, -1)
				r := rand.New(rand.NewSource(seed))
				mine := map[uint64]*fakeConn{}
				for i := 0; i < n; i++ {
					id := uint64(o*per + r.Intn(per))
					if f, ok := mine[id]; ok && r.Intn(2) == 0 {
						m.Remove(f)
						delete(mine, id)
					} else {
						f := &fakeConn{id: id}
						m.Add(f)
						mine[id] = f
					}
					q := uint64(o*per + r.Intn(per))
					k, err := m.Get(q)
					if f, ok := mine[q]; ok != (err == nil) || ok && k != ziface.IConnection(f) {
						c.Violate("churn-get", "the only goroutine using id %d: registered %v, lookup error %v", q, ok, err)
						return
					}
					c.Event(1)
				}
				for _, f := range mine {
					m.Remove(f)
				}
			}()
		}
		for o := 0; o < readers; o++ {
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for atomic.LoadInt32(&alive) > 0 && c.Violations() == 0 {
					seen := map[uint64]int{}
					how := r.Intn(4)
					switch how {
					case 0:
						m.Range(func(id uint64, k ziface.IConnection, _ interface{}) error {
							seen[id]++
							if k == nil || k.GetConnID() != id {
								c.Violate("churn-range", "range gave id %d with another connection", id)
							}
							return nil
						}, nil)
					case 1:
						m.Range2(func(s string, k ziface.IConnection, _ interface{}) error {
							id, _ := strconv.ParseUint(s, 10, 64)
							seen[id]++
							return nil
						}, nil)
					case 2:
						for _, id := range m.GetAllConnID() {
							seen[id]++
						}
					default:
						for _, s := range m.GetAllConnIdStr() {
							id, _ := strconv.ParseUint(s, 10, 64)
							seen[id]++
						}
					}
					for id := range stable {
						if seen[id] != 1 {
							c.Violate("churn-stable", "a connection that was registered all the time appeared %d times (way %d)", seen[id], how)
							return
						}
					}
					for id, k := range seen {
						if k != 1 {
							c.Violate("churn-twice", "id %d listed %d times", id, k)
							return
						}
						if _, ok := stable[id]; !ok && id >= owners*per {
							c.Violate("churn-phantom", "id %d was never registered", id)
							return
						}
					}
					for id, f := range stable {
						if k, err := m.Get(id); err != nil || k != ziface.IConnection(f) {
							c.Violate("churn-get", "stable id %d: %v", id, err)
						}
						break
					}
					c.Event(len(seen))
				}
			}()
		}
		wg.Wait()
		if m.Len() != len(stable) {
			c.Violate("len", "after the churn the count is %d, %d are registered", m.Len(), len(stable))
		}
		c.Eval(fmt.Sprintf("churn/%x/%d", c.Seed, round))
	}
	chaos(0)
}

// scenC09Real: real connections over several transports of one server.
func scenC09Real(c *Ctx) {
	mode := c.P.Str("mode", "both")
	r0 := c.Rng
	chaos(r0.Intn(3))
	var ids sync.Map // id -> port
	var open sync.Map
	var total, dialled int64
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.MaxConn = 1000
		g.WorkerPoolSize = 3
		g.WorkerMode = []string{zconf.WorkerModeHash, zconf.WorkerModeDynamicBind}[r0.Intn(2)]
	}, nil)
	s.S.SetOnConnStart(func(k ziface.IConnection) {
		atomic.AddInt64(&total, 1)
		if o, dup := ids.LoadOrStore(k.GetConnID(), portOf(k.RemoteAddrString())); dup {
			c.Violate("id-twice", "%s: connections of peers %v and %v have the same id %d", mode, o, portOf(k.RemoteAddrString()), k.GetConnID())
		}
		if strconv.FormatUint(k.GetConnID(), 10) != k.GetConnIdStr() {
			c.Violate("id-string", "id %d has the string form %q", k.GetConnID(), k.GetConnIdStr())
		}
		open.LoadOrStore(portOf(k.RemoteAddrString()), k)
	})
	s.Start()
	dial := func(i int) (*Wire, error) {
		switch mode {
		case "both":
			if i%2 == 0 {
				return dialWS(s.Ws)
			}
			return dialTCP(s.Port)
		}
		return s.Dial()
	}
	for round := 0; round < c.N(14, 80) && c.Violations() == 0; round++ {
		n := 8 + r0.Intn(12)
		wires := make([]*Wire, n)
		var wg sync.WaitGroup
		for i := range wires {
			i := i
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for j := r.Intn(4); j > 0; j-- { // come and go
					if w, err := dial(i + j); err == nil {
						atomic.AddInt64(&dialled, 1)
						time.Sleep(time.Duration(r.Intn(600)) * time.Microsecond)
						if mode == "kcp" {
							w.Write(tlv(999, body(1, 1, 20)))
							WaitFor(5*time.Second, func() bool { _, ok := open.Load(w.Key()); return ok })
							if v, ok := open.Load(w.Key()); ok {
								v.(ziface.IConnection).Stop()
							}
						}
						w.Close()
					}
				}
				w, err := dial(i)
				if err != nil {
					c.Inconclusive("dial: %v", err)
					return
				}
				atomic.AddInt64(&dialled, 1)
				if mode == "kcp" {
					w.Write(tlv(999, body(1, 1, 20)))
				}
				wires[i] = w
			}()
		}
		wg.Wait()
		for _, w := range wires {
			if w == nil {
				return
			}
			if !WaitFor(StallLimit, func() bool { _, ok := open.Load(w.Key()); return ok }) {
				c.Stall("not-started", "%s: a peer's connection did not start", mode)
				return
			}
		}
		live := func(w *Wire) ziface.IConnection { v, _ := open.Load(w.Key()); return v.(ziface.IConnection) }
		m := s.S.GetConnMgr()
		// a peer that has gone again may still be waiting to be accepted
		settled := mode != "kcp" && WaitFor(10*time.Second, func() bool { return atomic.LoadInt64(&total) == atomic.LoadInt64(&dialled) })
		if settled {
			if !WaitFor(StallLimit, func() bool { return m.Len() == n }) {
				c.Stall("len-real", "%s: %d connections are open, the registry counts %d for %s", mode, n, m.Len(), StallLimit)
			}
		}
		for _, w := range wires {
			k := live(w)
			g, err := m.Get(k.GetConnID())
			g2, err2 := m.Get2(k.GetConnIdStr())
			if err != nil || err2 != nil || g != k || g2 != k {
				c.Violate("get-real", "%s: the open connection %d is not found in the registry (%v, %v)", mode, k.GetConnID(), err, err2)
			}
		}
		for _, w := range wires {
			c.c09Self(mode, s, live(w), w)
		}
		// a broadcast over a range reaches every peer once
		var visits sync.Map
		err := m.Range(func(id uint64, k ziface.IConnection, a interface{}) error {
			v, _ := visits.LoadOrStore(id, new(int64))
			atomic.AddInt64(v.(*int64), 1)
			if k.GetConnID() != id {
				c.Violate("range-real", "range gave id %d with connection %d", id, k.GetConnID())
			}
			return k.SendMsg(7, a.([]byte))
		}, body(7, uint32(round), 40))
		sent := 0
		visits.Range(func(id, v any) bool {
			sent++
			if k := atomic.LoadInt64(v.(*int64)); k != 1 {
				c.Violate("range-twice", "%s: the range visited connection %d %d times", mode, id, k)
			}
			return true
		})
		for _, w := range wires {
			if _, ok := visits.Load(live(w).GetConnID()); !ok {
				c.Violate("range-missed", "%s: the range did not visit the open connection %d", mode, live(w).GetConnID())
			}
		}
		if settled {
			c.Count("settled_broadcasts", 1)
			if sent != n || err != nil {
				c.Violate("broadcast", "%s: %d open connections, the range visited %d, error %v", mode, n, sent, err)
			}
		}
		for i, w := range wires {
			w.Deadline(StallLimit)
			f, err := NewFrameReader(w).Next(1 << 16)
			if err != nil {
				c.Stall("broadcast-lost", "%s: peer %d got no broadcast: %v", mode, i, err)
				continue
			}
			if _, seq, ok := parseBody(f.Data); !ok || seq != uint32(round) || f.ID != 7 {
				c.Violate("broadcast-damaged", "%s: peer %d got id %d %x", mode, i, f.ID, clipB(f.Data))
			}
			c.Event(1)
		}
		if round%2 == 0 && mode != "kcp" {
			m.ClearConn()
			for i, w := range wires {
				w.Deadline(StallLimit)
				var b [64]byte
				if _, err := w.Read(b[:]); err == nil || isTimeout(err) {
					c.Stall("clear-real", "%s: connection of peer %d is still open after clearing (%v)", mode, i, err)
				}
			}
			if !WaitFor(StallLimit, func() bool { return m.Len() == 0 }) {
				c.Stall("clear-len", "%s: %d connections registered after clearing", mode, m.Len())
			}
		}
		for _, w := range wires {
			k := live(w)
			if mode == "kcp" {
				k.Stop()
			}
			w.Close()
			if !WaitFor(StallLimit, func() bool { _, err := m.Get(k.GetConnID()); return err != nil }) {
				c.Stall("still-registered", "%s: the closed connection %d is still registered", mode, k.GetConnID())
			}
			c.c09Self(mode+" after its end", s, k, w)
		}
		c.Eval(fmt.Sprintf("real/%s/%d/%d", mode, n, round))
	}
	c.Count("real_connections", atomic.LoadInt64(&total))
	chaos(0)
}

// c09Self: what a connection says of itself, against what its peer knows.
func (c *Ctx) c09Self(what string, s *Srv, k ziface.IConnection, w *Wire) {
	type pair struct{ name, got, want string }
	for _, p := range []pair{
		{"RemoteAddrString", k.RemoteAddrString(), w.local()},
		{"RemoteAddr", k.RemoteAddr().String(), w.local()},
		{"LocalAddrString", k.LocalAddrString(), w.remote()},
		{"LocalAddr", k.LocalAddr().String(), w.remote()},
	} {
		if w.kind == "kcp" {
			p.got, p.want = portOf(p.got), portOf(p.want)
		}
		if p.got != p.want {
			c.Violate("self-address", "%s: a connection's %s is %s, its peer's view of it is %s", what, p.name, p.got, p.want)
		}
	}
	if k.GetName() != s.S.ServerName() || k.GetMsgHandler() != s.S.GetMsgHandler() || strconv.FormatUint(k.GetConnID(), 10) != k.GetConnIdStr() {
		c.Violate("self", "%s: connection %d says %q, name %q", what, k.GetConnID(), k.GetConnIdStr(), k.GetName())
	}
	if ws := k.GetWsConn(); (ws != nil) != (w.ws != nil) || (w.ws == nil) != (k.GetConnection() != nil) {
		c.Violate("self-transport", "%s: connection %d gives the WebSocket connection %v and the connection %v", what, k.GetConnID(), ws != nil, k.GetConnection() != nil)
	}
}

func isTimeout(err error) bool {
	t, ok := err.(interface{ Timeout() bool })
	return ok && t.Timeout()
}

func init() {
	scenario("c09.model", scenC09Model)
	scenario("c09.churn", scenC09Churn)
	scenario("c09.real", scenC09Real)
	register(&Check{
		Property: "C09",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			js = append(js, spread("c09.model", Params{}, seed, byTier(tier, 4, 12), 120*time.Second)...)
			js = append(js, spread("c09.churn", Params{}, seed, byTier(tier, 3, 12), 120*time.Second)...)
			for _, m := range []string{"both", "tcp", "ws", "kcp", "tls"} {
				js = append(js, spread("c09.real", Params{"mode": m}, seed, byTier(tier, 2, 8), 180*time.Second)...)
			}
			return js
		},
		Parallel: 7,
		MinEvals: 100,
		Rule:     "one evaluation = one registry history: a random sequence of calls compared step by step with a map, or a churn of owners with concurrent ranges and listings that must contain every stable entry exactly once, or a round of real connections over one or two transports; distinct = (kind, size, seed/round)",
	})
}
