package harness

import (
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	neturl "net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"context"

	"github.com/gorilla/websocket"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
)

// C29: the WebSocket authentication hook decides who gets in, and what it learns stays with its peer.

type c29Key struct{}

type c29Peer struct {
	allowed bool
	asked   int32
	conn    atomic.Value // ziface.IConnection, once started
	handled int32
	stopped int32
}

func scenC29(c *Ctx) {
	r0 := c.Rng
	chaos(r0.Intn(4))
	slices := c.P.Bool("slices")
	lanes := 4 + r0.Intn(5)
	max := 1000
	if c.P.Bool("tight") { // refused peers must not take the places of others
		max = lanes
	}
	both := r0.Intn(3) == 0
	mode := "ws"
	if both {
		mode = "both"
	}
	what := fmt.Sprintf("%s/maxconn=%d/lanes=%d/slices=%v", mode, max, lanes, slices)
	var peers sync.Map // token -> *c29Peer
	var unknown int32
	get := func(tok string) *c29Peer {
		v, ok := peers.Load(tok)
		if !ok {
			return nil
		}
		return v.(*c29Peer)
	}
	tokenOf := func(k ziface.IConnection) string {
		rc, _ := k.Context().Value(znet.WsConnectionHttpReqCtxKey{}).(context.Context)
		if rc == nil {
			return ""
		}
		s, _ := rc.Value(c29Key{}).(string)
		return s
	}
	var live int64
	s := c.NewSrv(mode, func(g *zconf.Config) {
		g.MaxConn, g.RouterSlicesMode = max, slices
		g.WorkerPoolSize = uint32(1 + r0.Intn(4))
		g.WorkerMode = []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind}[r0.Intn(3)]
	}, func(s ziface.IServer) {
		h := func(q ziface.IRequest) {
			k := q.GetConnection()
			tok := tokenOf(k)
			p := get(tok)
			if p == nil {
				c.Violate("context", "%s: what the authentication put into the request is not there in a handler (%q)", what, tok)
				return
			}
			if !p.allowed {
				c.Violate("refused-handled", "%s: a message of a refused peer is handled", what)
			}
			if string(q.GetData()) != tok {
				c.Violate("context", "%s: the connection of %q has the context of %q", what, q.GetData(), tok)
			}
			atomic.AddInt32(&p.handled, 1)
			c.Event(1)
		}
		if slices {
			s.AddRouterSlices(1, h)
		} else {
			s.AddRouter(1, &funcRouter{f: h})
		}
		s.SetOnConnStart(func(k ziface.IConnection) {
			atomic.AddInt64(&live, 1)
			p := get(tokenOf(k))
			switch {
			case p == nil:
				c.Violate("context", "%s: what the authentication put into the request is not there in the start hook", what)
			case !p.allowed:
				c.Violate("refused-started", "%s: a refused peer became a connection", what)
			default:
				p.conn.Store(k)
			}
			c.Event(1)
		})
		s.SetOnConnStop(func(k ziface.IConnection) {
			atomic.AddInt64(&live, -1)
			if p := get(tokenOf(k)); p != nil {
				atomic.AddInt32(&p.stopped, 1)
			} else {
				c.Violate("context", "%s: what the authentication put into the request is not there in the stop hook", what)
			}
			c.Event(1)
		})
		s.SetWebsocketAuth(func(r *http.Request) error {
			tok := r.Header.Get("Token")
			if tok == "" {
				tok = r.URL.Query().Get("token")
			}
			p := get(tok)
			if p == nil {
				atomic.AddInt32(&unknown, 1)
				return errors.New("who?")
			}
			atomic.AddInt32(&p.asked, 1)
			*r = *r.WithContext(context.WithValue(r.Context(), c29Key{}, tok))
			c.Event(1)
			if n := len(tok); n%3 == 0 {
				time.Sleep(time.Duration(n%7) * 300 * time.Microsecond)
			}
			if !p.allowed {
				return errors.New("no")
			}
			return nil
		})
	}).Start()
	rounds := c.N(80, 400)
	patience := StallLimit
	if max == lanes { // may be refused after the upgrade: the place of the last one was not free yet
		patience = 2 * time.Second
	}
	var wg sync.WaitGroup
	var refusals, entries int64
	for l := 0; l < lanes; l++ {
		l := l
		seed := r0.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			for i := 0; i < rounds && c.Violations() < 3; i++ {
				tok := fmt.Sprintf("t%d.%d.%s", l, i, strings.Repeat("x", r.Intn(9)))
				p := &c29Peer{allowed: r.Intn(3) > 0}
				stranger := r.Intn(8) == 0
				if !stranger {
					peers.Store(tok, p)
				} else {
					p.allowed = false
				}
				d := websocket.Dialer{HandshakeTimeout: StallLimit, NetDial: dialFresh}
				hd := http.Header{}
				url := fmt.Sprintf("ws://127.0.0.1:%d/", s.Ws)
				if r.Intn(2) == 0 {
					hd.Set("Token", tok)
				} else {
					url += "?token=" + tok
				}
				offered := map[string]bool{}
				for k := r.Intn(3); k > 0; k-- {
					n := fmt.Sprintf("p%d-%d", l, r.Intn(3))
					if !offered[n] {
						d.Subprotocols = append(d.Subprotocols, n)
						offered[n] = true
					}
				}
				var w *websocket.Conn
				var resp *http.Response
				var err error
				deadline := time.Now().Add(StallLimit)
				for {
					w, resp, err = d.Dial(url, hd)
					if err == nil || resp != nil && resp.StatusCode == 401 || time.Now().After(deadline) {
						break
					}
					time.Sleep(5 * time.Millisecond) // full: asks to come back
				}
				desc := fmt.Sprintf("%s: peer %s", what, tok)
				if !p.allowed {
					switch {
					case err == nil:
						// the upgrade itself is already too much
						c.Violate("refused-upgraded", "%s: was refused by the authentication and yet upgraded", desc)
						w.Close()
					case resp == nil || resp.StatusCode != 401:
						c.Stall("refusal", "%s: was refused, but saw no 401: %v, %v", desc, err, resp)
					}
					atomic.AddInt64(&refusals, 1)
					c.Eval(fmt.Sprintf("%s/refused/%d/%v/%v", what, i, stranger, len(offered)))
					continue
				}
				if err != nil {
					c.Stall("entry", "%s: is allowed and did not get in: %v, %v", desc, err, resp)
					continue
				}
				if sp := w.Subprotocol(); len(offered) > 0 && !offered[sp] {
					c.Violate("subprotocol", "%s: offered %v and got %q", desc, d.Subprotocols, sp)
				}
				wr := &Wire{kind: "ws", ws: w}
				n := 1 + r.Intn(4)
				for j := 0; j < n; j++ {
					wr.Write(tlv(1, []byte(tok)))
				}
				if !WaitFor(patience, func() bool { return p.conn.Load() != nil && atomic.LoadInt32(&p.handled) >= int32(n) }) {
					if max != lanes {
						c.Stall("served", "%s: is allowed, and %d of its %d messages are handled", desc, atomic.LoadInt32(&p.handled), n)
					}
				}
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
				}
				wr.Close()
				if p.conn.Load() != nil && !WaitFor(StallLimit, func() bool { return atomic.LoadInt32(&p.stopped) == 1 }) {
					c.Stall("stop", "%s: its connection does not end", desc)
				}
				if a := atomic.LoadInt32(&p.asked); a < 1 {
					c.Violate("not-asked", "%s: got in and the authentication was not asked", desc)
				}
				atomic.AddInt64(&entries, 1)
				c.Eval(fmt.Sprintf("%s/entered/%d/%d/%v", what, i, n, len(offered)))
			}
		}()
	}
	wg.Wait()
	if c.Violations() == 0 && !WaitFor(StallLimit, func() bool { return s.S.GetConnMgr().Len() == 0 }) {
		c.Stall("left-over", "%s: %d connections remain", what, s.S.GetConnMgr().Len())
	}
	peers.Range(func(k, v interface{}) bool {
		if p := v.(*c29Peer); !p.allowed && p.conn.Load() != nil {
			c.Violate("refused-started", "%s: refused peer %v became a connection", what, k)
		}
		return true
	})
	c.Count("refused", refusals)
	c.Count("entered", entries)
	c.Count("strangers", int64(unknown))
	c.Sample(map[string]interface{}{"config": what, "refused": refusals, "entered": entries})
	chaos(0)
}

// scenC29Cli: zinx's own client, given a URL with what the authentication asks for.
func scenC29Cli(c *Ctx) {
	r0 := c.Rng
	chaos(r0.Intn(4))
	var asked, started, handled sync.Map // token -> *int32
	inc := func(m *sync.Map, k string) int32 {
		v, _ := m.LoadOrStore(k, new(int32))
		return atomic.AddInt32(v.(*int32), 1)
	}
	num := func(m *sync.Map, k string) int32 {
		if v, ok := m.Load(k); ok {
			return atomic.LoadInt32(v.(*int32))
		}
		return 0
	}
	tokenOf := func(k ziface.IConnection) string {
		rc, _ := k.Context().Value(znet.WsConnectionHttpReqCtxKey{}).(context.Context)
		if rc == nil {
			return ""
		}
		s, _ := rc.Value(c29Key{}).(string)
		return s
	}
	s := c.NewSrv("ws", func(g *zconf.Config) { g.MaxConn = 1000 }, func(s ziface.IServer) {
		s.AddRouter(1, &funcRouter{f: func(q ziface.IRequest) {
			if tok := tokenOf(q.GetConnection()); tok != string(q.GetData()) {
				c.Violate("context", "client: the connection of %q has the context of %q", q.GetData(), tok)
			}
			inc(&handled, string(q.GetData()))
			c.Event(1)
		}})
		s.SetOnConnStart(func(k ziface.IConnection) { inc(&started, tokenOf(k)); c.Event(1) })
		s.SetWebsocketAuth(func(r *http.Request) error {
			tok := r.URL.Query().Get("token")
			*r = *r.WithContext(context.WithValue(r.Context(), c29Key{}, tok))
			inc(&asked, tok)
			c.Event(1)
			if !strings.HasPrefix(tok, "yes") || r.URL.Query().Get("also") != "a b&c" {
				return errors.New("no")
			}
			return nil
		})
	}).Start()
	rounds := c.N(30, 150)
	var wg sync.WaitGroup
	for l := 0; l < 4; l++ {
		l := l
		seed := r0.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			for i := 0; i < rounds && c.Violations() < 3; i++ {
				yes := r.Intn(3) > 0
				tok := fmt.Sprintf("%s.%d.%d", map[bool]string{true: "yes", false: "no"}[yes], l, i)
				u := &neturl.URL{Scheme: "ws", Host: fmt.Sprintf("127.0.0.1:%d", s.Ws), Path: "/", RawQuery: neturl.Values{"token": {tok}, "also": {"a b&c"}}.Encode()}
				k := znet.NewWsClient("127.0.0.1", s.Ws, znet.WithUrl(u))
				up := make(chan ziface.IConnection, 8)
				k.SetOnConnStart(func(q ziface.IConnection) {
					select {
					case up <- q:
					default:
					}
				})
				k.Start()
				select {
				case q := <-up:
					if !yes {
						c.Violate("refused-upgraded", "client: a refused client is connected")
						break
					}
					if err := q.SendMsg(1, []byte(tok)); err != nil {
						c.Stall("cli-send", "client: %v", err)
					}
					if !WaitFor(StallLimit, func() bool { return num(&handled, tok) == 1 && num(&started, tok) == 1 }) {
						c.Stall("cli-served", "client %s: allowed, and %d messages are handled, %d connections started", tok, num(&handled, tok), num(&started, tok))
					}
				case err, ok := <-k.GetErrChan():
					if yes {
						c.Stall("cli-entry", "client: the authentication allows it, the attempt failed: %v (asked for this one %d times)", err, num(&asked, tok))
					} else if !ok || err == nil {
						c.Violate("cli-report", "client: a refused attempt was reported as %v", err)
					} else if num(&started, tok) != 0 {
						c.Violate("refused-started", "client: a refused client became a connection")
					}
				case <-time.After(StallLimit):
					c.Stall("cli-nothing", "client (allowed %v): neither connected nor an error", yes)
				}
				if num(&asked, tok) == 0 && c.Violations() == 0 {
					c.Violate("not-asked", "client %s: the authentication was not asked with what its URL says", tok)
				}
				k.Stop()
				c.Eval(fmt.Sprintf("client/%v/%d/%d", yes, l, i))
			}
		}()
	}
	wg.Wait()
	chaos(0)
}

func init() {
	scenario("c29.cli", scenC29Cli)
	scenario("c29", scenC29)
	register(&Check{
		Property: "C29",
		Jobs: func(tier string, seed int64) []Job {
			js := spread("c29", Params{"slices": "0"}, seed, byTier(tier, 3, 12), 180*time.Second)
			js = append(js, spread("c29.cli", Params{}, seed, byTier(tier, 2, 8), 180*time.Second)...)
			js = append(js, spread("c29", Params{"slices": "1"}, seed+50, byTier(tier, 2, 12), 180*time.Second)...)
			return append(js, spread("c29", Params{"tight": "1"}, seed+90, byTier(tier, 3, 12), 180*time.Second)...)
		},
		Parallel: 8,
		MinEvals: 60,
		Rule:     "one evaluation = one peer's upgrade request with its own token (and subprotocols), refused, unknown or allowed, among others at the same time: a refused one must see a 401 and never show in a hook, handler or the registry; an allowed one must be served with the context its own authentication left; distinct = (server configuration, round, outcome, messages, subprotocols)",
	})
}
