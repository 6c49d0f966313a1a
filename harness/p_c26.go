package harness

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zinx_app_demo/mmo_game/core"
	"github.com/aceld/zinx/zinx_app_demo/mmo_game/pb"
	"github.com/golang/protobuf/proto"
)

// C26: area-of-interest queries return exactly the nearby players.

// aoiRef is the area as documented: cnt grids of equal whole width from min on; what the
// division leaves over at the far edge belongs to the last grid.
type aoiRef struct{ minX, maxX, cntX, minY, maxY, cntY int }

func cell(v float32, min, max, cnt int) int {
	w := (max - min) / cnt
	for i := 0; i < cnt-1; i++ {
		if v < float32(min+(i+1)*w) {
			return i
		}
	}
	return cnt - 1
}

func (a aoiRef) grid(x, y float32) (int, int) {
	return cell(x, a.minX, a.maxX, a.cntX), cell(y, a.minY, a.maxY, a.cntY)
}

func near(ax, ay, bx, by int) bool {
	d := func(p, q int) int {
		if p > q {
			return p - q
		}
		return q - p
	}
	return d(ax, bx) <= 1 && d(ay, by) <= 1
}

func c26Area(r *rand.Rand) aoiRef {
	a := aoiRef{cntX: 1 + r.Intn(12), cntY: 1 + r.Intn(12)}
	if r.Intn(3) == 0 {
		a.cntX, a.cntY = 1+r.Intn(3), 1+r.Intn(3)
	}
	if r.Intn(3) == 0 { // far from the origin, on either side
		a.minX, a.minY = r.Intn(2000)-1000, r.Intn(2000)-1000
	} else {
		a.minX, a.minY = r.Intn(300), r.Intn(300)
	}
	a.maxX = a.minX + a.cntX*(1+r.Intn(40)) + r.Intn(a.cntX)
	a.maxY = a.minY + a.cntY*(1+r.Intn(40)) + r.Intn(a.cntY)
	return a
}

func (a aoiRef) pos(r *rand.Rand) (float32, float32) {
	one := func(min, max, cnt int) float32 {
		w := (max - min) / cnt
		switch r.Intn(5) {
		case 0:
			return float32(min)
		case 1:
			return float32(max)
		case 2: // on an edge between grids, or just before it
			e := min + w*r.Intn(cnt+1)
			if e > min && r.Intn(2) == 0 {
				e--
			}
			return float32(e)
		default:
			v := float32(min + r.Intn(max-min+1))
			if min >= 0 && v < float32(max) {
				v += float32(r.Intn(4)) / 4
			}
			return v
		}
	}
	return one(a.minX, a.maxX, a.cntX), one(a.minY, a.maxY, a.cntY)
}

func intSet(v []int) string { sort.Ints(v); return fmt.Sprint(v) }

// scenC26Model: areas, and sequences of adding, moving and removing, against the reference.
func scenC26Model(c *Ctx) {
	r := c.Rng
	for round := 0; round < c.N(150, 2000) && c.Violations() == 0; round++ {
		a := c26Area(r)
		m := core.NewAOIManager(a.minX, a.maxX, a.cntX, a.minY, a.maxY, a.cntY)
		gidOf := map[[2]int]int{}
		cellOf := map[int][2]int{}
		probe := func(x, y float32) int {
			g := m.GetGIDByPos(x, y)
			cx, cy := a.grid(x, y)
			k := [2]int{cx, cy}
			if o, ok := gidOf[k]; ok && o != g {
				c.Violate("grid-of", "%+v: position (%v,%v) is in grid %d, another position of the same cell %v in %d", a, x, y, g, k, o)
			}
			if o, ok := cellOf[g]; ok && o != k {
				c.Violate("grid-of", "%+v: position (%v,%v) of cell %v is in grid %d, like one of cell %v", a, x, y, k, g, o)
			}
			gidOf[k], cellOf[g] = g, k
			return g
		}
		for i := 0; i < a.cntX; i++ {
			for j := 0; j < a.cntY; j++ {
				w, l := (a.maxX-a.minX)/a.cntX, (a.maxY-a.minY)/a.cntY
				probe(float32(a.minX+i*w), float32(a.minY+j*l))
				probe(float32(a.minX+i*w+w-1), float32(a.minY+j*l+l-1))
				probe(float32(a.minX+i*w+r.Intn(w)), float32(a.minY+j*l+r.Intn(l)))
			}
		}
		for k, g := range gidOf { // the touching grids
			var want, got []int
			for k2, g2 := range gidOf {
				if near(k[0], k[1], k2[0], k2[1]) {
					want = append(want, g2)
				}
			}
			for _, x := range m.GetSurroundGrIDsByGID(g) {
				got = append(got, x.GID)
				if x.GID == g {
					w, l := (a.maxX-a.minX)/a.cntX, (a.maxY-a.minY)/a.cntY
					if x.MinX != a.minX+k[0]*w || x.MaxX != a.minX+(k[0]+1)*w || x.MinY != a.minY+k[1]*l || x.MaxY != a.minY+(k[1]+1)*l {
						c.Violate("bounds", "%+v: the grid of cell %v has the bounds %d..%d x %d..%d", a, k, x.MinX, x.MaxX, x.MinY, x.MaxY)
					}
				}
			}
			c.Event(1)
			if intSet(want) != intSet(got) {
				c.Violate("surround", "%+v: the grids around %v are %v, expected %v", a, k, got, want)
			}
		}
		for _, g := range []int{-1, a.cntX * a.cntY, a.cntX*a.cntY + 1 + r.Intn(5)} {
			if s := m.GetSurroundGrIDsByGID(g); len(s) != 0 {
				c.Violate("surround-none", "%+v: the grid %d does not exist and has %d around it", a, g, len(s))
			}
		}
		type who struct {
			x, y float32
			in   bool
		}
		ps := make([]who, 1+r.Intn(40))
		hist := ""
		for op := 0; op < 120 && c.Violations() == 0; op++ {
			i := r.Intn(len(ps))
			p := &ps[i]
			x, y := a.pos(r)
			switch {
			case !p.in:
				hist = clipTail(hist, fmt.Sprintf("add %d (%v,%v);", i, x, y))
				m.AddToGrIDByPos(i, x, y)
				*p = who{x, y, true}
			case r.Intn(3) == 0:
				hist = clipTail(hist, fmt.Sprintf("remove %d;", i))
				if r.Intn(2) == 0 {
					m.RemoveFromGrIDByPos(i, p.x, p.y)
				} else {
					m.RemovePIDFromGrID(i, m.GetGIDByPos(p.x, p.y))
				}
				p.in = false
			default:
				hist = clipTail(hist, fmt.Sprintf("move %d (%v,%v);", i, x, y))
				if o, n := m.GetGIDByPos(p.x, p.y), m.GetGIDByPos(x, y); o != n {
					m.RemovePIDFromGrID(i, o)
					m.AddPIDToGrID(i, n)
				}
				*p = who{x, y, true}
			}
			qx, qy := a.pos(r)
			cx, cy := a.grid(qx, qy)
			var want, here []int
			for j, o := range ps {
				ox, oy := a.grid(o.x, o.y)
				if o.in && near(cx, cy, ox, oy) {
					want = append(want, j)
				}
				if o.in && ox == cx && oy == cy {
					here = append(here, j)
				}
			}
			c.Event(1)
			if got := m.GetPIDsByPos(qx, qy); intSet(want) != intSet(got) {
				c.Violate("query", "%+v: players around (%v,%v): %v, expected %v; after %s", a, qx, qy, got, want, hist)
			}
			if got := m.GetPIDsByGID(probe(qx, qy)); intSet(here) != intSet(got) {
				c.Violate("query-grid", "%+v: players in the grid of (%v,%v): %v, expected %v; after %s", a, qx, qy, got, here, hist)
			}
		}
		c.Eval(fmt.Sprintf("model/%v", a))
	}
}

// scenC26Conc: players move while others query.
func scenC26Conc(c *Ctx) {
	r0 := c.Rng
	for round := 0; round < c.N(15, 150) && c.Violations() == 0; round++ {
		a := c26Area(r0)
		m := core.NewAOIManager(a.minX, a.maxX, a.cntX, a.minY, a.maxY, a.cntY)
		type still struct{ cx, cy int }
		stable := map[int]still{}
		for i := 0; i < 20; i++ {
			x, y := a.pos(r0)
			m.AddToGrIDByPos(1000+i, x, y)
			cx, cy := a.grid(x, y)
			stable[1000+i] = still{cx, cy}
		}
		var stop int32
		var wg, qg sync.WaitGroup
		final := make([][2]int, 6)
		for p := 0; p < 6; p++ {
			p := p
			seed := r0.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				x, y := a.pos(r)
				m.AddToGrIDByPos(p, x, y)
				for i := 0; i < 200; i++ {
					nx, ny := a.pos(r)
					o, n := m.GetGIDByPos(x, y), m.GetGIDByPos(nx, ny)
					if o != n {
						m.RemovePIDFromGrID(p, o)
						m.AddPIDToGrID(p, n)
					}
					x, y = nx, ny
					found := 0
					for _, g := range m.GetPIDsByPos(x, y) {
						if g == p {
							found++
						}
					}
					if found != 1 {
						c.Violate("self", "%+v: a query at its own position finds player %d %d times", a, p, found)
					}
				}
				cx, cy := a.grid(x, y)
				final[p] = [2]int{cx, cy}
			}()
		}
		var queries int64
		for q := 0; q < 3; q++ {
			seed := r0.Int63()
			qg.Add(1)
			go func() {
				defer qg.Done()
				r := rand.New(rand.NewSource(seed))
				for atomic.LoadInt32(&stop) == 0 {
					x, y := a.pos(r)
					cx, cy := a.grid(x, y)
					seen := map[int]int{}
					for _, g := range m.GetPIDsByPos(x, y) {
						seen[g]++
					}
					for id, s := range stable {
						want := 0
						if near(cx, cy, s.cx, s.cy) {
							want = 1
						}
						if seen[id] != want {
							c.Violate("stable", "%+v: a query at (%v,%v) finds the player standing in cell (%d,%d) %d times", a, x, y, s.cx, s.cy, seen[id])
						}
					}
					for id := range seen {
						if id < 0 || id >= 6 && stable[id] == (still{}) && func() bool { _, ok := stable[id]; return !ok }() {
							c.Violate("stranger", "a query finds player %d, who does not exist", id)
						}
					}
					atomic.AddInt64(&queries, 1)
				}
			}()
		}
		wg.Wait()
		atomic.StoreInt32(&stop, 1)
		qg.Wait()
		// everybody is in one grid only
		count := map[int]int{}
		for cx := 0; cx < a.cntX; cx++ {
			for cy := 0; cy < a.cntY; cy++ {
				g := m.GetGIDByPos(float32(a.minX+cx*((a.maxX-a.minX)/a.cntX)), float32(a.minY+cy*((a.maxY-a.minY)/a.cntY)))
				for _, id := range m.GetPIDsByGID(g) {
					count[id]++
					if id < 6 && final[id] != [2]int{cx, cy} {
						c.Violate("left-behind", "%+v: player %d is in cell %v and still listed in (%d,%d)", a, id, final[id], cx, cy)
					}
				}
			}
		}
		for id := 0; id < 6; id++ {
			if count[id] != 1 {
				c.Violate("one-grid", "%+v: player %d is listed in %d grids", a, id, count[id])
			}
		}
		c.Event(int(queries))
		c.Count("concurrent_queries", queries)
		c.Eval(fmt.Sprintf("conc/%v", a))
	}
}

// gameConn is a player's client as a stand-in connection: it follows what it is told.
type gameConn struct {
	ziface.IConnection
	c     *Ctx
	id    int32
	mu    sync.Mutex
	view  map[int32][2]float32
	moved map[int32]int
}

func (g *gameConn) GetConnID() uint64                     { return uint64(g.id) }
func (g *gameConn) RemoteAddrString() string              { return "stand-in" }
func (g *gameConn) SendBuffMsg(id uint32, b []byte) error { return g.SendMsg(id, b) }
func (g *gameConn) SendMsg(id uint32, b []byte) error {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.c.Event(1)
	switch id {
	case 1, 201:
		var m pb.SyncPID
		if err := proto.Unmarshal(b, &m); err != nil {
			g.c.Violate("message", "message %d does not decode: %v", id, err)
		}
		if id == 1 {
			g.id = m.PID
		} else {
			delete(g.view, m.PID)
		}
	case 202:
		var m pb.SyncPlayers
		if err := proto.Unmarshal(b, &m); err != nil {
			g.c.Violate("message", "message %d does not decode: %v", id, err)
		}
		for _, p := range m.Ps {
			g.view[p.PID] = [2]float32{p.P.X, p.P.Z}
		}
	case 200:
		var m pb.BroadCast
		if err := proto.Unmarshal(b, &m); err != nil {
			g.c.Violate("message", "message %d does not decode: %v", id, err)
		}
		if p := m.GetP(); p != nil {
			g.view[m.PID] = [2]float32{p.X, p.Z}
			if m.Tp == 4 {
				g.moved[m.PID]++
			}
		}
	}
	return nil
}

// scenC26World: players join, walk and leave; each client's view, built from the messages it
// gets, must hold exactly the players around it, where they are.
func scenC26World(c *Ctx) {
	a := aoiRef{core.AOI_MIN_X, core.AOI_MAX_X, core.AOI_CNTS_X, core.AOI_MIN_Y, core.AOI_MAX_Y, core.AOI_CNTS_Y}
	r := c.Rng
	synctest.Test(c.T, func(t *testing.T) {
		defer c.Finish()
		type pl struct {
			p    *core.Player
			g    *gameConn
			x, z float32
		}
		for round := 0; round < c.N(8, 60) && c.Violations() == 0; round++ {
			var on []*pl
			hist := ""
			span := 40 + r.Intn(300) // how far apart they walk
			for op := 0; op < 60 && c.Violations() == 0; op++ {
				switch k := r.Intn(10); {
				case len(on) < 3 || k < 2 && len(on) < 12:
					g := &gameConn{c: c, view: map[int32][2]float32{}, moved: map[int32]int{}}
					p := core.NewPlayer(g)
					p.SyncPID()
					p.BroadCastStartPosition()
					core.WorldMgrObj.AddPlayer(p)
					p.SyncSurrounding()
					if g.id != p.PID {
						c.Violate("identity", "the client of player %d was told it is %d", p.PID, g.id)
					}
					on = append(on, &pl{p, g, p.X, p.Z})
					hist = clipTail(hist, fmt.Sprintf("join %d (%v,%v);", p.PID, p.X, p.Z))
				case k < 3:
					i := r.Intn(len(on))
					q := on[i]
					on = append(on[:i], on[i+1:]...)
					q.p.LostConnection()
					hist = clipTail(hist, fmt.Sprintf("leave %d;", q.p.PID))
				default:
					q := on[r.Intn(len(on))]
					step := func(v float32, min, max int) float32 {
						n := v + float32(r.Intn(2*span+1)-span)/4
						if n < float32(min) {
							n = float32(min)
						}
						if n > float32(max) {
							n = float32(max)
						}
						return n
					}
					x, z := step(q.x, a.minX, a.maxX), step(q.z, a.minY, a.maxY)
					for _, o := range on {
						o.g.moved = map[int32]int{}
					}
					q.p.UpdatePos(x, 0, z, float32(r.Intn(360)))
					q.x, q.z = x, z
					hist = clipTail(hist, fmt.Sprintf("move %d (%v,%v);", q.p.PID, x, z))
					for _, o := range on {
						want := 0
						qx, qy := a.grid(q.x, q.z)
						ox, oy := a.grid(o.x, o.z)
						if near(qx, qy, ox, oy) {
							want = 1
						}
						if o.g.moved[q.p.PID] != want {
							c.Violate("move-message", "the client of player %d was told %d times of the move of player %d, expected %d; after %s", o.p.PID, o.g.moved[q.p.PID], q.p.PID, want, hist)
						}
					}
				}
				for _, o := range on {
					ox, oy := a.grid(o.x, o.z)
					var want, got []int
					for _, q := range on {
						qx, qy := a.grid(q.x, q.z)
						if near(ox, oy, qx, qy) {
							want = append(want, int(q.p.PID))
							if v, ok := o.g.view[q.p.PID]; ok && v != [2]float32{q.x, q.z} {
								c.Violate("position", "player %d sees player %d at %v, who is at (%v,%v); after %s", o.p.PID, q.p.PID, v, q.x, q.z, hist)
							}
						}
					}
					for id := range o.g.view {
						got = append(got, int(id))
					}
					if intSet(want) != intSet(got) {
						c.Violate("view", "player %d sees %v, around it are %v; after %s", o.p.PID, got, want, hist)
					}
				}
				if n := len(core.WorldMgrObj.GetAllPlayers()); n != len(on) {
					c.Violate("players", "%d players are on, the world counts %d", len(on), n)
				}
				c.Eval(fmt.Sprintf("world/%d/%d/%d", span, len(on), op))
			}
			for _, q := range on {
				q.p.LostConnection()
			}
			time.Sleep(time.Second)
		}
	})
}

func init() {
	scenario("c26.model", scenC26Model)
	scenario("c26.conc", scenC26Conc)
	scenario("c26.world", scenC26World)
	register(&Check{
		Property: "C26",
		Jobs: func(tier string, seed int64) []Job {
			j := spread("c26.model", nil, seed, byTier(tier, 3, 8), 3*time.Minute)
			j = append(j, spread("c26.conc", nil, seed, byTier(tier, 2, 6), 3*time.Minute)...)
			return append(j, spread("c26.world", nil, seed, byTier(tier, 2, 8), 3*time.Minute)...)
		},
		Parallel: 7,
		MinEvals: 300,
		Rule:     "one evaluation = one generated area (all grids, neighbours and a history of players compared with a geometric reference), or one area under concurrent moves and queries, or one step of a game whose clients' views, built from the messages they get, must equal what is around them; distinct = (kind, area) or (walk width, players, step)",
	})
}
