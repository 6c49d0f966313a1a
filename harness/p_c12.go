package harness

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
)

// C12: a message is handled by exactly what is registered for it, in the documented order.

// Traces are kept per message.
type traces struct {
	m sync.Map // src<<32|seq -> *trace
	n int64
}
type trace struct {
	mu sync.Mutex
	ev []string
}

func (t *traces) add(q ziface.IRequest, ev string) {
	src, seq, ok := parseBody(q.GetData())
	if !ok {
		ev = "damaged"
	}
	v, _ := t.m.LoadOrStore(uint64(src)<<32|uint64(seq), &trace{})
	x := v.(*trace)
	x.mu.Lock()
	x.ev = append(x.ev, ev)
	x.mu.Unlock()
	atomic.AddInt64(&t.n, 1)
}
func (t *traces) get(src, seq uint32) string {
	v, ok := t.m.Load(uint64(src)<<32 | uint64(seq))
	if !ok {
		return ""
	}
	x := v.(*trace)
	x.mu.Lock()
	defer x.mu.Unlock()
	return strings.Join(x.ev, " ")
}

// --- handler lists

// hScript is what one handler of a list does.
type hScript struct {
	name  string
	first string // "", "next", "abort", "abort-next", "next-next", "next-abort"
}

func (h hScript) run(t *traces) ziface.RouterHandler {
	return func(q ziface.IRequest) {
		t.add(q, h.name)
		switch h.first {
		case "next":
			q.RouterSlicesNext()
			t.add(q, h.name+"'")
		case "next-next":
			q.RouterSlicesNext()
			q.RouterSlicesNext()
			t.add(q, h.name+"'")
		case "abort":
			q.Abort()
		case "abort-next":
			q.Abort()
			q.RouterSlicesNext()
		case "next-abort":
			q.RouterSlicesNext()
			q.Abort()
			t.add(q, h.name+"'")
		}
	}
}

// expectList says what a list of handlers does: every handler after the current one runs
// when it asks for the next, or when it returns; none after an abort.
func expectList(hs []hScript) string {
	var ev []string
	i, aborted := 0, false
	var rest func()
	rest = func() {
		for i < len(hs) && !aborted {
			h := hs[i]
			i++
			ev = append(ev, h.name)
			switch h.first {
			case "next", "next-next":
				rest()
				ev = append(ev, h.name+"'")
			case "abort", "abort-next":
				aborted = true
			case "next-abort":
				rest()
				aborted = true
				ev = append(ev, h.name+"'")
			}
		}
	}
	rest()
	return strings.Join(ev, " ")
}

func genScripts(r *rand.Rand, pre string, n int, calm bool) []hScript {
	var hs []hScript
	for i := 0; i < n; i++ {
		h := hScript{name: fmt.Sprintf("%s%d", pre, i)}
		if !calm {
			switch r.Intn(14) {
			case 0, 1, 2:
				h.first = "next"
			case 3:
				h.first = "abort"
			case 4:
				h.first = "abort-next"
			case 5:
				h.first = "next-next"
			case 6:
				h.first = "next-abort"
			}
		}
		hs = append(hs, h)
	}
	return hs
}

// arena is the array all handler lists of a program are parts of, as they may be in a user's code.
type arena struct{ f []ziface.RouterHandler }

func (a *arena) funcsOf(hs []hScript, t *traces) []ziface.RouterHandler {
	if len(a.f)+len(hs) > cap(a.f) {
		a.f = make([]ziface.RouterHandler, 0, 64+len(hs))
	}
	from := len(a.f)
	for _, h := range hs {
		a.f = append(a.f, h.run(t))
	}
	return a.f[from:]
}

// done: the lists were handed over, the user fills in others.
func (a *arena) done(t *traces) {
	for i := range a.f {
		a.f[i] = func(q ziface.IRequest) { t.add(q, "not-registered") }
	}
}

func refused(f func()) (yes bool) {
	defer func() {
		if recover() != nil {
			yes = true
		}
	}()
	f()
	return false
}

const endID = 0xFFFFFFF0

// --- router objects

// sScript: what each step does the first time it runs for a message.
type sScript struct {
	id  uint32
	act [3]string // "", "abort", "goto0".."goto2"
}

func expectSteps(s sScript) string {
	var ev []string
	var used [3]bool
	step := 0
	for step < 3 {
		ev = append(ev, fmt.Sprintf("%d.%d", s.id, step))
		a := s.act[step]
		if used[step] {
			a = ""
		}
		used[step] = true
		switch a {
		case "abort":
			step = 3
		case "goto0", "goto1", "goto2":
			step = int(a[4] - '0')
		default:
			step++
		}
	}
	return strings.Join(ev, " ")
}

func (s sScript) router(t *traces) ziface.IRouter {
	do := func(step int) func(ziface.IRequest) {
		return func(q ziface.IRequest) {
			t.add(q, fmt.Sprintf("%d.%d", s.id, step))
			key := fmt.Sprint("ran", step)
			if _, again := q.Get(key); again {
				return
			}
			q.Set(key, true)
			switch a := s.act[step]; a {
			case "abort":
				q.Abort()
			case "goto0", "goto1", "goto2":
				q.Goto([]ziface.HandleStep{znet.PRE_HANDLE, znet.HANDLE, znet.POST_HANDLE}[a[4]-'0'])
			}
		}
	}
	return &stepRouter{do(0), do(1), do(2)}
}

func genSteps(r *rand.Rand, id uint32) sScript {
	s := sScript{id: id}
	for i := range s.act {
		switch r.Intn(8) {
		case 0:
			s.act[i] = "abort"
		case 1:
			s.act[i] = "goto0"
		case 2:
			s.act[i] = "goto1"
		case 3:
			s.act[i] = "goto2"
		}
	}
	return s
}

// program is one set of registrations and what each identifier must do.
type program struct {
	want map[uint32]string
	desc string
}

func randMsgID(r *rand.Rand) uint32 {
	switch r.Intn(5) {
	case 0:
		return uint32(r.Intn(5))
	case 1:
		return 0x80000000 + uint32(r.Intn(5))
	case 2:
		return endID + 1 + uint32(r.Intn(15))
	default:
		return 1000 + uint32(r.Intn(500))
	}
}

// registerSlices makes random registrations on a server in list mode.
func registerSlices(c *Ctx, r *rand.Rand, s ziface.IServer, t *traces) program {
	p := program{want: map[uint32]string{}}
	var global []hScript
	type grp struct {
		g      ziface.IGroupRouterSlices
		lo, hi uint32
		hs     []hScript
	}
	var groups []*grp
	n := 4 + r.Intn(22)
	calm := r.Intn(3) == 0
	big := r.Intn(4) == 0
	var rs ziface.IRouterSlices
	ar := &arena{}
	defer ar.done(t)
	for i := 0; i < n; i++ {
		switch k := r.Intn(10); {
		case k == 0 && len(global) < 5:
			hs := genScripts(r, fmt.Sprintf("u%d.", i), 1+r.Intn(2), calm || r.Intn(3) > 0)
			rs = s.Use(ar.funcsOf(hs, t)...)
			global = append(global, hs...)
			p.desc += fmt.Sprintf("use %d; ", len(hs))
		case k == 1:
			lo := randMsgID(r)
			hi := lo + uint32(r.Intn(100))
			if hi < lo {
				hi = lo
			}
			hs := genScripts(r, fmt.Sprintf("g%d.", i), r.Intn(3), calm || r.Intn(3) > 0)
			var g ziface.IGroupRouterSlices
			if rs != nil && r.Intn(2) == 0 {
				g = rs.Group(lo, hi, ar.funcsOf(hs, t)...)
			} else {
				g = s.Group(lo, hi, ar.funcsOf(hs, t)...)
			}
			groups = append(groups, &grp{g, lo, hi, hs})
			p.desc += fmt.Sprintf("group %d..%d of %d; ", lo, hi, len(hs))
		case k == 2 && len(groups) > 0:
			g := groups[r.Intn(len(groups))]
			if len(g.hs) < 6 {
				hs := genScripts(r, fmt.Sprintf("h%d.", i), 1+r.Intn(2), true)
				g.g.Use(ar.funcsOf(hs, t)...)
				g.hs = append(g.hs, hs...)
				p.desc += "group use; "
			}
		case k <= 5 && len(groups) > 0:
			g := groups[r.Intn(len(groups))]
			id := g.lo + uint32(r.Intn(int(g.hi-g.lo)+1))
			if r.Intn(6) == 0 { // just outside
				id = g.hi + 1
				if r.Intn(2) == 0 {
					id = g.lo - 1
				}
				if id >= g.lo && id <= g.hi {
					continue
				}
				hs := genScripts(r, "x", 1, true)
				if !refused(func() { g.g.AddHandler(id, ar.funcsOf(hs, t)...) }) {
					c.Violate("group-range", "a group %d..%d accepted a handler for %d", g.lo, g.hi, id)
				}
				continue
			}
			hs := genScripts(r, fmt.Sprintf("a%d.", i), 1+r.Intn(3), calm)
			no := refused(func() { g.g.AddHandler(id, ar.funcsOf(hs, t)...) })
			_, dup := p.want[id]
			if dup != no {
				c.Violate("duplicate", "registering %d through a group: registered before %v, refused %v (%s)", id, dup, no, p.desc)
			}
			if !dup {
				p.want[id] = expectList(append(append(append([]hScript{}, global...), g.hs...), hs...))
				p.desc += fmt.Sprintf("group add %d; ", id)
			}
		default:
			id := randMsgID(r)
			nh := r.Intn(5)
			if big && r.Intn(4) == 0 {
				nh = 120 + r.Intn(180)
			}
			hs := genScripts(r, fmt.Sprintf("r%d.", i), nh, calm || nh > 20)
			if nh > 20 && r.Intn(2) == 0 { // deep nesting
				for j := range hs {
					hs[j].first = "next"
				}
			}
			no := refused(func() { s.AddRouterSlices(id, ar.funcsOf(hs, t)...) })
			_, dup := p.want[id]
			if dup != no {
				c.Violate("duplicate", "registering %d: registered before %v, refused %v (%s)", id, dup, no, p.desc)
			}
			if !dup {
				p.want[id] = expectList(append(append([]hScript{}, global...), hs...))
				p.desc += fmt.Sprintf("add %d (%d); ", id, nh)
			}
		}
	}
	return p
}

func registerObjects(c *Ctx, r *rand.Rand, add func(uint32, ziface.IRouter), t *traces) program {
	p := program{want: map[uint32]string{}}
	for i := 0; i < 3+r.Intn(25); i++ {
		id := randMsgID(r)
		s := genSteps(r, id)
		no := refused(func() { add(id, s.router(t)) })
		_, dup := p.want[id]
		if dup != no {
			c.Violate("duplicate", "registering %d: registered before %v, refused %v", id, dup, no)
		}
		if !dup {
			p.want[id] = expectSteps(s)
			p.desc += fmt.Sprintf("%d%v; ", id, s.act)
		}
	}
	return p
}

func scenC12(c *Ctx) {
	r0 := c.Rng
	chaos(r0.Intn(2))
	slices := c.P.Bool("slices")
	side := c.P.Str("side", "server")
	mode := c.P.Str("mode", "tcp")
	wm := []string{zconf.WorkerModeHash, zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind}[r0.Intn(4)]
	for prog := 0; prog < c.N(30, 40) && c.Violations() == 0; prog++ {
		if c.Port%50 > 40 { // the child's port range
			break
		}
		t := &traces{}
		var p program
		var ended int64
		end := func(q ziface.IRequest) { atomic.AddInt64(&ended, 1) }
		pool := r0.Intn(4)
		if wm != zconf.WorkerModeHash {
			pool = 1 + r0.Intn(3)
		}
		what := fmt.Sprintf("%s/%s/slices=%v/pool=%d", side, mode, slices, pool)
		var wires []*Wire
		var stop func()
		if side == "client" {
			rs := c.RawServer(mode)
			if prog == 0 {
				zconf.GlobalObject.RouterSlicesMode = false
				zconf.GlobalObject.RequestPoolMode = r0.Intn(2) == 0
			}
			cl := rs.Client()
			cl.AddRouter(endID, &funcRouter{f: end})
			p = registerObjects(c, r0, cl.AddRouter, t)
			pool = 0
			cl.Start()
			select {
			case w := <-rs.C:
				wires = append(wires, w)
			case <-time.After(StallLimit):
				c.Stall("connect", "client did not connect")
				return
			}
			stop = func() { cl.Stop(); rs.Close() }
		} else {
			s := c.NewSrv(mode, func(g *zconf.Config) {
				if prog == 0 { // read while servers run, so the same for all servers of this process
					g.RouterSlicesMode = slices
					g.RequestPoolMode = r0.Intn(2) == 0
					g.MaxConn = 20
					g.WorkerMode = wm
				}
				g.WorkerPoolSize = uint32(pool)
				if mode == "ws" {
					g.WsPath = fmt.Sprintf("/p%d", prog)
				}
			}, func(s ziface.IServer) {
				if slices {
					s.AddRouterSlices(endID, end)
					p = registerSlices(c, r0, s, t)
				} else {
					s.AddRouter(endID, &funcRouter{f: end})
					p = registerObjects(c, r0, s.AddRouter, t)
				}
				if refused(func() {
					if slices {
						s.AddRouterSlices(endID, end)
					} else {
						s.AddRouter(endID, &funcRouter{f: end})
					}
				}) == false {
					c.Violate("duplicate", "an identifier was registered twice")
				}
			}).Start()
			for i := 0; i < 3; i++ {
				wires = append(wires, s.MustDial())
			}
			stop = s.S.Stop
		}
		type sent struct{ src, seq, id uint32 }
		var all []sent
		var wantN int64
		for i, w := range wires {
			src := uint32(i + 1)
			var ids []uint32
			for id := range p.want {
				ids = append(ids, id)
			}
			var buf []byte
			for seq := uint32(0); seq < 40; seq++ {
				id := randMsgID(r0)
				if len(ids) > 0 && r0.Intn(4) > 0 {
					id = ids[r0.Intn(len(ids))]
				}
				all = append(all, sent{src, seq, id})
				if e := p.want[id]; e != "" {
					wantN += int64(strings.Count(e, " ") + 1)
				}
				buf = append(buf, tlv(id, body(src, seq, 12+r0.Intn(30)))...)
			}
			buf = append(buf, tlv(endID, nil)...)
			w.Write(buf)
		}
		okEnd := WaitFor(StallLimit, func() bool {
			return atomic.LoadInt64(&ended) == int64(len(wires)) && (pool > 0 || atomic.LoadInt64(&t.n) >= wantN)
		})
		if !okEnd && atomic.LoadInt64(&ended) != int64(len(wires)) {
			c.Stall("end-not-handled", "%s: the last messages were not handled: %d of %d (%s)", what, atomic.LoadInt64(&ended), len(wires), clip(p.desc, 800))
		}
		if pool == 0 {
			time.Sleep(5 * time.Millisecond)
		}
		for _, m := range all {
			want, got := p.want[m.id], t.get(m.src, m.seq)
			if want != got {
				c.Violate("wrong-handlers", "%s: message with id %d\n ran:      %s\n expected: %s\n registrations: %s", what, m.id, clip(got, 600), clip(want, 600), clip(p.desc, 900))
				break
			}
			c.Event(1)
			kind := "none"
			if want != "" {
				kind = fmt.Sprint(len(want)/40, strings.Contains(want, "'"), want)
				if len(kind) > 60 {
					kind = kind[:60]
				}
			}
			c.Eval(what + kind)
		}
		for _, w := range wires {
			w.Close()
		}
		stop()
		c.Count("programs", 1)
	}
	chaos(0)
}

func init() {
	scenario("c12", scenC12)
	register(&Check{
		Property: "C12",
		Jobs: func(tier string, seed int64) []Job {
			var js []Job
			n := byTier(tier, 5, 40)
			js = append(js, spread("c12", Params{"slices": "1"}, seed, n, 120*time.Second)...)
			js = append(js, spread("c12", Params{"slices": "0"}, seed, n, 120*time.Second)...)
			js = append(js, spread("c12", Params{"side": "client"}, seed, byTier(tier, 2, 15), 120*time.Second)...)
			return js
		},
		Parallel: 6,
		MinEvals: 1000,
		Rule:     "one evaluation = one message sent to a real server or client with generated registrations (lists, groups, global handlers, router objects; scripts of next/abort/goto), its trace of executed handlers compared with a reference interpreter; distinct = (side, router style, pool, expected trace class)",
	})
}
