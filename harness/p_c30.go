package harness

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/aceld/zinx/zinx_app_demo/mmo_game/core"
	"github.com/aceld/zinx/zinx_app_demo/mmo_game/pb"
	"github.com/golang/protobuf/proto"
)

// C30: the game demo, as its own process, tells each player what happens around it.

// gamePos is what a player is told about a position.
type gamePos struct{ x, y, z, v float32 }

func (p gamePos) String() string { return fmt.Sprintf("(%g %g %g %g)", p.x, p.y, p.z, p.v) }

func posOf(p *pb.Position) gamePos {
	return gamePos{p.GetX(), p.GetY(), p.GetZ(), p.GetV()}
}

// gameGrid is the grid of a position, by the documented layout of the demo's area.
func gameGrid(x, z float32) (gx, gy int) {
	w := (core.AOI_MAX_X - core.AOI_MIN_X) / core.AOI_CNTS_X
	h := (core.AOI_MAX_Y - core.AOI_MIN_Y) / core.AOI_CNTS_Y
	return int((x - float32(core.AOI_MIN_X)) / float32(w)), int((z - float32(core.AOI_MIN_Y)) / float32(h))
}

func gameNear(a, b gamePos) bool {
	ax, ay := gameGrid(a.x, a.z)
	bx, by := gameGrid(b.x, b.z)
	return ax-bx <= 1 && bx-ax <= 1 && ay-by <= 1 && by-ay <= 1
}

// gameMsg is one message of the game to a player. from is whom it is about.
type gameMsg struct {
	kind string // pid, pos (came into view), move, talk, gone, list
	from int32
	text string
}

func (m gameMsg) String() string { return fmt.Sprintf("%s %d %s", m.kind, m.from, m.text) }

type gamePlayer struct {
	c    *Ctx
	what string
	nc   net.Conn
	pid  int32
	pos  gamePos // as last told by the player
	seq  int

	mu   sync.Mutex
	got  []gameMsg
	last time.Time
	end  bool
}

func (p *gamePlayer) read() {
	br := bufio.NewReader(p.nc)
	for {
		h := make([]byte, 8)
		if _, err := io.ReadFull(br, h); err != nil {
			break
		}
		n, id := binary.LittleEndian.Uint32(h), binary.LittleEndian.Uint32(h[4:])
		if n > 1<<16 {
			p.c.Violate("frame", "%s: player %d was sent a frame of %d bytes", p.what, p.pid, n)
			break
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(br, b); err != nil {
			break
		}
		m := gameMsg{kind: "unknown", text: fmt.Sprint(id)}
		bad := func(err error) {
			p.c.Violate("content", "%s: player %d was sent a message %d of %x that is not its message: %v", p.what, p.pid, id, clipB(b), err)
		}
		switch id {
		case 1, 201:
			var s pb.SyncPID
			if err := proto.Unmarshal(b, &s); err != nil {
				bad(err)
			}
			m = gameMsg{kind: map[uint32]string{1: "pid", 201: "gone"}[id], from: s.GetPID()}
		case 200:
			var s pb.BroadCast
			if err := proto.Unmarshal(b, &s); err != nil {
				bad(err)
			}
			switch s.GetTp() {
			case 1:
				m = gameMsg{"talk", s.GetPID(), s.GetContent()}
			case 2:
				m = gameMsg{"pos", s.GetPID(), posOf(s.GetP()).String()}
			case 4:
				m = gameMsg{"move", s.GetPID(), posOf(s.GetP()).String()}
			default:
				bad(fmt.Errorf("type %d", s.GetTp()))
			}
		case 202:
			var s pb.SyncPlayers
			if err := proto.Unmarshal(b, &s); err != nil {
				bad(err)
			}
			var l []string
			for _, x := range s.GetPs() {
				if p.pid == 0 || x.GetPID() != p.pid { // about oneself there may be an entry or none
					l = append(l, fmt.Sprint(x.GetPID(), posOf(x.GetP())))
				}
			}
			sort.Strings(l)
			m = gameMsg{kind: "list", text: fmt.Sprint(l)}
		default:
			bad(fmt.Errorf("unknown identifier"))
		}
		p.c.Event(1)
		p.mu.Lock()
		if m.kind == "pid" {
			p.pid = m.from
		}
		p.got = append(p.got, m)
		p.last = time.Now()
		p.mu.Unlock()
	}
	p.mu.Lock()
	p.end = true
	p.mu.Unlock()
}

func (p *gamePlayer) find(f func(gameMsg) bool) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, m := range p.got {
		if f(m) {
			return true
		}
	}
	return false
}

func (p *gamePlayer) send(id uint32, m proto.Message) {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	p.nc.Write(ltv(id, b))
}

func (p *gamePlayer) move(to gamePos) {
	p.pos = to
	p.send(3, &pb.Position{X: to.x, Y: to.y, Z: to.z, V: to.v})
}

type game struct {
	c       *Ctx
	what    string
	port    int
	cmd     *exec.Cmd
	errb    tailBuffer
	exited  chan struct{}
	players []*gamePlayer
	taken   map[int32]bool
}

func (g *game) alive() bool {
	select {
	case <-g.exited:
		return false
	default:
		return true
	}
}

func (g *game) check() bool {
	if !g.alive() {
		time.Sleep(50 * time.Millisecond)
		g.c.Violate("died", "%s: the game's process has ended: %s", g.what, tail(g.errb.String(), 3000))
		return false
	}
	return g.c.Violations() == 0
}

func startGame(c *Ctx, r *rand.Rand, crowd bool) *game {
	exe, _ := os.Executable()
	g := &game{c: c, port: c.NextPort(), exited: make(chan struct{}), taken: map[int32]bool{}}
	mode := []string{"Hash", "Bind"}[r.Intn(2)]
	pool := 1 + r.Intn(10)
	if crowd { // the demo's moves sleep for every player that comes into or out of view
		pool += 10
	}
	if mode == "Bind" {
		pool = 100
	}
	g.what = fmt.Sprintf("%s/%d", mode, pool)
	dir := filepath.Join(c.Dir, fmt.Sprint("game", g.port))
	os.MkdirAll(filepath.Join(dir, "conf"), 0o755)
	b, _ := json.Marshal(map[string]interface{}{"Name": "game", "Host": "127.0.0.1", "TcpPort": g.port, "MaxConn": 100,
		"WorkerPoolSize": pool, "WorkerMode": mode, "Mode": "tcp", "LogDir": "./log", "LogFile": "game.log"})
	os.WriteFile(filepath.Join(dir, "conf", "zinx.json"), b, 0o644)
	g.cmd = exec.Command(filepath.Join(filepath.Dir(exe), "demo.test"))
	g.cmd.Dir = dir
	g.cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "TMPDIR=" + dir, "GOTRACEBACK=all", "GORACE=" + os.Getenv("GORACE")}
	g.cmd.Stdout, g.cmd.Stderr = &g.errb, &g.errb
	g.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := g.cmd.Start(); err != nil {
		c.Inconclusive("demo: %v", err)
		c.Finish()
	}
	go func() { g.cmd.Wait(); close(g.exited) }()
	return g
}

// connect brings in one player and waits for its identifier and first position.
func (g *game) connect() *gamePlayer {
	var nc net.Conn
	var err error
	for t0 := time.Now(); ; time.Sleep(5 * time.Millisecond) { // the first one has to wait until the game listens
		nc, err = net.DialTimeout("tcp4", fmt.Sprintf("127.0.0.1:%d", g.port), StallLimit)
		if err == nil || time.Since(t0) > StallLimit || !g.alive() {
			break
		}
	}
	if err != nil {
		if g.check() {
			g.c.Stall("connect", "%s: %v", g.what, err)
		}
		return nil
	}
	p := &gamePlayer{c: g.c, what: g.what, nc: nc, last: time.Now()}
	go p.read()
	ok := WaitFor(StallLimit, func() bool {
		return !g.alive() || p.find(func(m gameMsg) bool { return m.kind == "list" })
	})
	if !g.check() {
		return nil
	}
	if !ok {
		g.c.Stall("not-received", "%s: a player that logged in has been told %v and not whom it sees", g.what, p.got)
		return nil
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.got) < 2 || p.got[0].kind != "pid" || p.got[1].kind != "pos" || p.got[1].from != p.pid || p.pid == 0 {
		g.c.Violate("login", "%s: a player that logged in was told %v, expected its identifier and then its position first", g.what, p.got)
		return nil
	}
	fmt.Sscanf(p.got[1].text, "(%g %g %g %g)", &p.pos.x, &p.pos.y, &p.pos.z, &p.pos.v)
	gx, gy := gameGrid(p.pos.x, p.pos.z)
	if gx < 0 || gy < 0 || gx >= core.AOI_CNTS_X || gy >= core.AOI_CNTS_Y {
		g.c.Violate("login", "%s: player %d begins outside the area, at %v", g.what, p.pid, p.pos)
	}
	return p
}

func (g *game) near(p *gamePlayer, pos gamePos) (l []*gamePlayer) {
	for _, q := range g.players {
		if q != p && gameNear(q.pos, pos) {
			l = append(l, q)
		}
	}
	return
}

type expect map[*gamePlayer][]gameMsg

// settle waits until each player has been told what it must, and finds it told nothing else
// about others since the step before.
func (g *game) settle(step string, want expect) bool {
	missing := func() (s string) {
		for _, p := range g.players {
			p.mu.Lock()
			have := map[gameMsg]int{}
			for _, m := range p.got {
				have[m]++
			}
			p.mu.Unlock()
			for _, m := range want[p] {
				if have[m]--; have[m] < 0 {
					s = fmt.Sprintf("player %d at %v was not told %v; told %v", p.pid, p.pos, m, p.told())
				}
			}
		}
		return
	}
	ok := WaitFor(StallLimit, func() bool { return !g.alive() || missing() == "" })
	if !g.check() {
		return false
	}
	if !ok {
		g.c.Stall("not-told", "%s: %s: %s", g.what, step, missing())
		return false
	}
	for _, p := range g.players {
		p.mu.Lock()
		left := map[gameMsg]int{}
		for _, m := range want[p] {
			left[m]++
		}
		told := p.got
		p.got = nil
		p.mu.Unlock()
		for _, m := range told {
			if left[m]--; left[m] < 0 && m.from != p.pid { // what it is told about itself does no harm
				g.c.Violate("told-too-much", "%s: %s: player %d at %v was told %q, which it should not (again); told %v, expected %v", g.what, step, p.pid, p.pos, m, told, want[p])
				return false
			}
		}
	}
	return true
}

func (p *gamePlayer) told() []gameMsg {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]gameMsg(nil), p.got...)
}

func (g *game) login() bool {
	p := g.connect()
	if p == nil {
		return false
	}
	if g.taken[p.pid] {
		g.c.Violate("same-pid", "%s: identifier %d was given to a second player", g.what, p.pid)
	}
	g.taken[p.pid] = true
	want := expect{}
	var l []string
	for _, q := range g.near(p, p.pos) {
		want[q] = append(want[q], gameMsg{"pos", p.pid, p.pos.String()})
		l = append(l, fmt.Sprint(q.pid, q.pos))
	}
	sort.Strings(l)
	g.players = append(g.players, p)
	// the list may have been read before the identifier was known: compare without oneself
	p.mu.Lock()
	for i, m := range p.got {
		if m.kind == "list" {
			p.got[i].from = 0
		}
	}
	p.mu.Unlock()
	want[p] = []gameMsg{{"pid", p.pid, ""}, {"pos", p.pid, p.pos.String()}, {"list", 0, fmt.Sprint(l)}}
	return g.settle(fmt.Sprintf("player %d logged in at %v", p.pid, p.pos), want)
}

func (g *game) logout(p *gamePlayer, r *rand.Rand) bool {
	want := expect{}
	for _, q := range g.near(p, p.pos) {
		want[q] = append(want[q], gameMsg{"gone", p.pid, ""})
	}
	for i, q := range g.players {
		if q == p {
			g.players = append(g.players[:i], g.players[i+1:]...)
			break
		}
	}
	if r.Intn(2) == 0 {
		p.nc.(*net.TCPConn).SetLinger(0)
	}
	p.nc.Close()
	ok := g.settle(fmt.Sprintf("player %d at %v left", p.pid, p.pos), want)
	if len(g.near(nil, p.pos)) == 0 { // nobody to tell it: give the game time to notice
		time.Sleep(30 * time.Millisecond)
	} else {
		time.Sleep(5 * time.Millisecond) // it is taken out after they have been told
	}
	return ok
}

func (g *game) walk(p *gamePlayer, to gamePos) bool {
	old := p.pos
	ox, oy := gameGrid(old.x, old.z)
	nx, ny := gameGrid(to.x, to.z)
	want := expect{}
	for _, q := range g.players {
		was, is := gameNear(q.pos, old), q == p || gameNear(q.pos, to)
		switch {
		case q == p:
		case was && !is:
			want[q] = append(want[q], gameMsg{"gone", p.pid, ""})
			want[p] = append(want[p], gameMsg{"gone", q.pid, ""})
		case !was && is:
			want[q] = append(want[q], gameMsg{"pos", p.pid, to.String()})
			want[p] = append(want[p], gameMsg{"pos", q.pid, q.pos.String()})
		}
		if is {
			want[q] = append(want[q], gameMsg{"move", p.pid, to.String()})
		}
	}
	p.move(to)
	return g.settle(fmt.Sprintf("player %d went from %v in grid %d,%d to %v in grid %d,%d", p.pid, old, ox, oy, to, nx, ny), want)
}

// garbage sends what is no message of the game: nobody is told anything, and nobody moves.
func (g *game) garbage(p *gamePlayer, r *rand.Rand) bool {
	good, _ := proto.Marshal(&pb.Position{X: 300, Y: 300, Z: 300, V: 300})
	if r.Intn(2) == 0 {
		good, _ = proto.Marshal(&pb.Talk{Content: "a line that is cut off"})
		p.nc.Write(ltv(2, good[:len(good)-1-r.Intn(4)]))
	} else {
		p.nc.Write(ltv(3, good[:len(good)-1-r.Intn(4)]))
	}
	p.nc.Write(ltv([]uint32{0, 1, 4, 200, 1 << 31}[r.Intn(5)], good)) // nothing the game knows
	return g.settle(fmt.Sprintf("player %d sent garbage", p.pid), nil)
}

func (g *game) talk(p *gamePlayer, text string) bool {
	want := expect{}
	for _, q := range g.players {
		want[q] = append(want[q], gameMsg{"talk", p.pid, text})
	}
	p.send(2, &pb.Talk{Content: text})
	return g.settle(fmt.Sprintf("player %d said %q", p.pid, text), want)
}

// spot is a random position well inside a grid, near the given one or anywhere.
func spot(r *rand.Rand, from gamePos, how int) gamePos {
	w := float32((core.AOI_MAX_X - core.AOI_MIN_X) / core.AOI_CNTS_X)
	h := float32((core.AOI_MAX_Y - core.AOI_MIN_Y) / core.AOI_CNTS_Y)
	gx, gy := gameGrid(from.x, from.z)
	switch how {
	case 0: // in the grid
	case 1: // to one beside it
		gx, gy = gx+r.Intn(3)-1, gy+r.Intn(3)-1
	case 2: // two away
		gx, gy = gx+r.Intn(5)-2, gy+r.Intn(5)-2
	case 3: // the area's edges and corners
		if r.Intn(2) == 0 {
			gx = []int{0, core.AOI_CNTS_X - 1}[r.Intn(2)]
		}
		if r.Intn(2) == 0 || gx != 0 {
			gy = []int{0, core.AOI_CNTS_Y - 1}[r.Intn(2)]
		}
	default:
		gx, gy = r.Intn(core.AOI_CNTS_X), r.Intn(core.AOI_CNTS_Y)
	}
	gx, gy = max(0, min(core.AOI_CNTS_X-1, gx)), max(0, min(core.AOI_CNTS_Y-1, gy))
	return gamePos{
		x: float32(core.AOI_MIN_X) + (float32(gx)+0.125+float32(r.Intn(7))/8*0.9)*w,
		y: float32(r.Intn(50)),
		z: float32(core.AOI_MIN_Y) + (float32(gy)+0.125+float32(r.Intn(7))/8*0.9)*h,
		v: float32(r.Intn(360)),
	}
}

func scenC30(c *Ctx) {
	r := c.Rng
	storm := c.P.Bool("storm")
	g := startGame(c, r, storm)
	defer g.cmd.Process.Kill()
	if storm {
		g.storm(r)
	}
	steps := 0
	step := func() bool {
		steps++
		c.Eval(fmt.Sprintf("%s/%d/%d/%v", g.what, c.Seed, steps, storm))
		n := len(g.players)
		k := r.Intn(20)
		switch {
		case n < 2 || k < 3 && n < 10:
			return g.login()
		case k < 4:
			return g.logout(g.players[r.Intn(n)], r)
		case k == 6 && r.Intn(2) == 0:
			return g.garbage(g.players[r.Intn(n)], r)
		case k < 6:
			return g.talk(g.players[r.Intn(n)], []string{"", "hello", "äöü 世界", string(make([]byte, 300))}[r.Intn(4)]+fmt.Sprint(steps))
		default:
			p := g.players[r.Intn(n)]
			return g.walk(p, spot(r, p.pos, []int{0, 0, 1, 1, 1, 2, 2, 3, 4}[r.Intn(9)]))
		}
	}
	for i := c.N(60, 500); i > 0; i-- {
		if !step() {
			return
		}
	}
	time.Sleep(300 * time.Millisecond)
	g.settle("nothing more happened", nil)
	c.Count("players", int64(len(g.taken)))
	c.Count("steps", int64(steps))
}

// storm lets many players do everything at once. What they see meanwhile is only checked to
// be well formed, but afterwards nothing of it may be left: the steps after it are exact again.
func (g *game) storm(r0 *rand.Rand) {
	c := g.c
	var wg sync.WaitGroup
	var mu sync.Mutex
	var stay []*gamePlayer
	var acts int64
	until := time.Now().Add(time.Duration(c.N(3500, 15000)) * time.Millisecond)
	for i := 0; i < 12; i++ {
		seed := r0.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			p := g.connect()
			far := 0
			for p != nil && time.Now().Before(until) && c.Violations() == 0 {
				atomic.AddInt64(&acts, 1)
				switch k := r.Intn(100); {
				case k < 8:
					if far++; r.Intn(2) == 0 && far < 12 {
						for j := r.Intn(4); j >= 0; j-- { // leaves while it moves
							p.move(spot(r, p.pos, 1))
						}
					}
					if r.Intn(2) == 0 {
						p.nc.(*net.TCPConn).SetLinger(0)
					}
					p.nc.Close()
					p = g.connect()
				case k < 16:
					p.send(2, &pb.Talk{Content: "x"})
				case k < 24 && far < 12:
					far++
					p.move(spot(r, p.pos, 1))
				case k < 26 && far < 8:
					far += 4
					p.move(spot(r, p.pos, 4))
				default:
					p.move(spot(r, p.pos, 0))
				}
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(12)) * time.Millisecond)
				}
			}
			if p == nil {
				return
			}
			// the last position, told apart from all others
			to := spot(r, p.pos, 0)
			to.y = 1000 + float32(r.Intn(1000000))/8
			p.move(to)
			if !WaitFor(2*StallLimit, func() bool {
				return !g.alive() || p.find(func(m gameMsg) bool { return m.kind == "move" && m.from == p.pid && m.text == to.String() })
			}) {
				c.Stall("stuck", "%s: player %d is not told of its own last move to %v", g.what, p.pid, to)
				return
			}
			mu.Lock()
			stay = append(stay, p)
			mu.Unlock()
		}()
	}
	wg.Wait()
	if !g.check() {
		c.Finish()
	}
	// moves of players that have left may still be on their way
	WaitFor(StallLimit, func() bool {
		for _, p := range stay {
			p.mu.Lock()
			d := time.Since(p.last)
			p.mu.Unlock()
			if d < 1500*time.Millisecond {
				return false
			}
		}
		return true
	})
	for _, p := range stay {
		p.mu.Lock()
		p.got = nil
		if p.end {
			c.Violate("cut-off", "%s: player %d was cut off", g.what, p.pid)
		}
		p.mu.Unlock()
		if g.taken[p.pid] {
			c.Violate("same-pid", "%s: identifier %d was given to two players", g.what, p.pid)
		}
		g.taken[p.pid] = true
	}
	g.players = stay
	c.Count("storm_actions", acts)
}

func init() {
	scenario("c30", scenC30)
	register(&Check{
		Property: "C30",
		Jobs: func(tier string, seed int64) []Job {
			js := spread("c30", nil, seed, byTier(tier, 4, 12), 200*time.Second)
			return append(js, spread("c30", Params{"storm": "1"}, seed+50, byTier(tier, 6, 24), 200*time.Second)...)
		},
		Parallel: 8,
		MinEvals: 200,
		Rule:     "one evaluation = one login, move, chat line or departure in a running game server process, after which every connected player's messages are compared with what a model of the area says it must be told; distinct = (configuration, run, step)",
	})
}
