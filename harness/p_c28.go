package harness

import (
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
)

// C28: connection properties behave like a map, also under concurrent use and as the connection ends.

// propOps lets several goroutines use the properties of one connection and records what they saw.
func propOps(r *rand.Rand, k ziface.IConnection, clock, vals *int64, keys []string, cl, per int) (h []porcupine.Operation) {
	for i := 0; i < per; i++ {
		in := kvIn{key: keys[r.Intn(len(keys))], val: int(atomic.AddInt64(vals, 1))}
		in.op = []string{"get", "get", "set", "set", "remove"}[r.Intn(5)]
		var out kvOut
		t0 := atomic.AddInt64(clock, 1)
		switch in.op {
		case "get":
			v, err := k.GetProperty(in.key)
			out.ok = err == nil
			if n, ok := v.(int); ok {
				out.val = n
			} else if v == nil && err == nil {
				out.val = -1
			} else if err == nil {
				out.val = -2
			}
		case "set":
			if r.Intn(8) == 0 { // nil is a value, too
				in.val = -1
				k.SetProperty(in.key, nil)
			} else {
				k.SetProperty(in.key, in.val)
			}
		case "remove":
			k.RemoveProperty(in.key)
		}
		t1 := atomic.AddInt64(clock, 1)
		h = append(h, porcupine.Operation{ClientId: cl, Input: in, Output: out, Call: t0, Return: t1})
		if r.Intn(8) == 0 {
			runtime.Gosched()
		}
	}
	return
}

func scenC28(c *Ctx) {
	mode, side := c.P.Str("mode", "tcp"), c.P.Str("side", "server")
	r0 := c.Rng
	chaos(r0.Intn(3))
	what := mode + "/" + side
	type life struct {
		k       ziface.IConnection
		started *int
		stopped chan struct{}
		cbDone  chan struct{}
		bare    bool  // nobody but the concurrent users sets anything
		removed int32 // we took the start hook's property away
	}
	var lives sync.Map // connection -> *life
	newLife := make(chan *life, 1024)
	var bare int32
	onStart := func(k ziface.IConnection) {
		n := new(int)
		l := &life{k: k, started: n, stopped: make(chan struct{}), cbDone: make(chan struct{}), bare: atomic.LoadInt32(&bare) == 1}
		if v, err := k.GetProperty("start"); err == nil {
			c.Violate("inherited", "%s: a new connection has the property start=%v", what, v)
		}
		if !l.bare {
			k.SetProperty("start", n)
			k.SetProperty("nil", nil)
		}
		k.AddCloseCallback(k, "c28", func() {
			if v, err := k.GetProperty("stop"); err != nil || v != "set" {
				c.Violate("close-callback", "%s: what the stop hook set is not there in a close callback: %v, %v", what, v, err)
			}
			close(l.cbDone)
		})
		lives.Store(k, l)
		newLife <- l
	}
	onStop := func(k ziface.IConnection) {
		v, ok := lives.Load(k)
		if !ok {
			return
		}
		l := v.(*life)
		if p, err := k.GetProperty("start"); !l.bare && (err != nil || p != l.started) {
			c.Violate("stop-hook", "%s: what the start hook set is not there in the stop hook: %v, %v", what, p, err)
		}
		k.SetProperty("stop", "set")
		close(l.stopped)
	}
	handler := func(q ziface.IRequest) {
		k := q.GetConnection()
		v, ok := lives.Load(k)
		if !ok {
			return
		}
		l := v.(*life)
		if l.bare {
			return
		}
		if p, err := k.GetProperty("start"); (err != nil || p != l.started) && atomic.LoadInt32(&l.removed) == 0 {
			c.Violate("handler", "%s: what the start hook set is not there in a handler: %v, %v", what, p, err)
		}
		if p, err := k.GetProperty("nil"); err != nil || p != nil {
			c.Violate("nil", "%s: a property set to nil reads as %v, %v", what, p, err)
		}
		c.Event(1)
	}
	var s *Srv
	var rs *RawServer
	if side == "server" {
		s = c.NewSrv(mode, func(g *zconf.Config) { g.MaxConn = 3000; g.WorkerPoolSize = 2 }, func(s ziface.IServer) {
			s.AddRouter(1, onlyMain(handler))
			s.SetOnConnStart(onStart)
			s.SetOnConnStop(onStop)
		}).Start()
	} else {
		rs = c.RawServer(mode)
	}
	connect := func() (*Wire, ziface.IClient, bool) {
		if side == "server" {
			w := s.MustDial()
			if w == nil {
				return nil, nil, false
			}
			w.Write(tlv(1, body(1, 1, 20)))
			return w, nil, true
		}
		cl := rs.Client()
		cl.AddRouter(1, onlyMain(handler))
		cl.SetOnConnStart(onStart)
		cl.SetOnConnStop(onStop)
		cl.Start()
		select {
		case w := <-rs.C:
			w.Write(tlv(1, body(1, 1, 20)))
			return w, cl, true
		case <-time.After(StallLimit):
			c.Stall("connect", "%s: client did not connect", what)
			return nil, nil, false
		}
	}
	hashes := int64(0)
	for round := 0; round < c.N(200, 1500) && c.Violations() == 0; round++ {
		nc := 1 + r0.Intn(3)
		atomic.StoreInt32(&bare, int32(r0.Intn(2)))
		var ls []*life
		var ws []*Wire
		var cls []ziface.IClient
		for i := 0; i < nc; i++ {
			w, cl, ok := connect()
			if !ok {
				return
			}
			ws, cls = append(ws, w), append(cls, cl)
			select {
			case l := <-newLife:
				ls = append(ls, l)
			case <-time.After(StallLimit):
				c.Stall("start", "%s: no start hook", what)
				return
			}
		}
		end := r0.Intn(3) // 0: not meanwhile, 1: by us, 2: by the peer
		nk := 1 + r0.Intn(4)
		keys := make([]string, nk)
		for i := range keys {
			keys[i] = strings.Repeat("p", i) + fmt.Sprint(i)
		}
		if r0.Intn(3) == 0 {
			keys[0] = ""
		}
		users := 2 + r0.Intn(4)
		per := 30
		var wg sync.WaitGroup
		hs := make([][][]porcupine.Operation, nc)
		gate := make(chan struct{})
		for ci, l := range ls {
			l := l
			var clock, vals int64
			vals = int64(ci) * 1000000 // values of different connections differ
			hs[ci] = make([][]porcupine.Operation, users)
			pc, pv := &clock, &vals
			for u := 0; u < users; u++ {
				ci, u := ci, u
				seed := r0.Int63()
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := rand.New(rand.NewSource(seed))
					<-gate
					hs[ci][u] = propOps(r, l.k, pc, pv, keys, u, per)
				}()
			}
		}
		close(gate)
		finish := func() {
			for i, l := range ls {
				switch {
				case end == 2 && mode != "kcp":
					ws[i].Close()
				case cls[i] != nil && r0.Intn(2) == 0:
					cls[i].Stop()
				default:
					l.k.Stop()
				}
			}
		}
		if end > 0 {
			finish()
		}
		wg.Wait()
		if end == 0 {
			finish()
		}
		for i, l := range ls {
			for _, ch := range []chan struct{}{l.stopped, l.cbDone} {
				select {
				case <-ch:
				case <-time.After(StallLimit):
					c.Stall("stop", "%s: no stop hook or close callback", what)
					return
				}
			}
			// a closed connection still knows its properties
			hs[i] = append(hs[i], nil)
			var clock int64 = 1 << 40
			var vals int64 = 1 << 30
			hs[i][users] = propOps(rand.New(rand.NewSource(r0.Int63())), l.k, &clock, &vals, keys, users, 12)
			if p, err := l.k.GetProperty("start"); !l.bare && (err != nil || p != l.started) {
				c.Violate("after", "%s: a property of a closed connection reads as %v, %v", what, p, err)
			}
			atomic.StoreInt32(&l.removed, 1)
			l.k.RemoveProperty("start")
			if p, err := l.k.GetProperty("start"); err == nil || p != nil {
				c.Violate("after", "%s: a removed property reads as %v, %v", what, p, err)
			}
			ws[i].Close()
			if cls[i] != nil {
				cls[i].Stop()
			}
			lives.Delete(l.k)
			var h []porcupine.Operation
			for _, x := range hs[i] {
				h = append(h, x...)
			}
			c.Event(len(h))
			res := porcupine.CheckOperationsTimeout(kvModel, h, 20*time.Second)
			switch res {
			case porcupine.Illegal:
				c.Violate("not-a-map", "%s: no order of these calls on one connection's properties explains what they returned:\n%s", what, describeHist(h))
			case porcupine.Unknown:
				c.Count("undecided", 1)
			default:
				hashes++
			}
			c.Eval(fmt.Sprintf("%s/%d/%d/%d/%d/%d", what, nk, users, end, nc, round))
		}
	}
	c.Count("linearizable_histories", hashes)
	chaos(0)
}

func init() {
	scenario("c28", scenC28)
	register(&Check{
		Property: "C28",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			for _, m := range []string{"tcp", "ws", "kcp", "tls"} {
				js = append(js, spread("c28", Params{"mode": m}, seed, byTier(tier, 2, 8), 180*time.Second)...)
			}
			for _, m := range []string{"tcp", "ws"} {
				js = append(js, spread("c28", Params{"mode": m, "side": "client"}, seed, byTier(tier, 1, 5), 180*time.Second)...)
			}
			return js
		},
		Parallel: 6,
		MinEvals: 200,
		Rule:     "one evaluation = the recorded history of concurrent property calls on one real connection (also while and after it ends), decided by a linearizability checker, with values of start hook, handler, stop hook and close callback checked; distinct = (transport, side, keys, users, way of ending, connections, round)",
	})
}
