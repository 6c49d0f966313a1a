package harness

import (
	"crypto/tls"
	"fmt"
	"net"
	"net/http"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/gorilla/websocket"
)

// RawServer is a plain server that zinx clients connect to.
type RawServer struct {
	Mode   string
	Port   int
	C      chan *Wire
	closer func()
}

func (c *Ctx) RawServer(mode string) *RawServer {
	return c.RawServerAt(mode, c.NextPort())
}

func (c *Ctx) RawServerAt(mode string, port int) *RawServer {
	s := &RawServer{Mode: mode, Port: port, C: make(chan *Wire, 256)}
	addr := fmt.Sprintf("127.0.0.1:%d", s.Port)
	var l net.Listener
	var err error
	if mode == "tls" {
		cf, kf := c.cert()
		crt, e := tls.LoadX509KeyPair(cf, kf)
		if e != nil {
			panic(e)
		}
		l, err = tls.Listen("tcp4", addr, &tls.Config{Certificates: []tls.Certificate{crt}})
	} else {
		l, err = net.Listen("tcp4", addr)
	}
	if err != nil {
		c.Inconclusive("listen: %v", err)
		c.Finish()
	}
	s.closer = func() { l.Close() }
	if mode == "ws" {
		up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
		go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			k, err := up.Upgrade(w, r, nil)
			if err == nil {
				s.C <- &Wire{kind: "ws", ws: k}
			}
		}))
		return s
	}
	go func() {
		for {
			k, err := l.Accept()
			if err != nil {
				return
			}
			if t, ok := k.(*tls.Conn); ok { // the client waits for the handshake
				go func() {
					if t.Handshake() == nil {
						s.C <- &Wire{kind: mode, nc: k}
					}
				}()
				continue
			}
			s.C <- &Wire{kind: mode, nc: k}
		}
	}()
	return s
}

func (s *RawServer) Close() { s.closer() }

// Client is a zinx client that connects to it.
func (s *RawServer) Client(opts ...znet.ClientOption) ziface.IClient {
	switch s.Mode {
	case "ws":
		return znet.NewWsClient("127.0.0.1", s.Port, opts...)
	case "tls":
		return znet.NewTLSClient("127.0.0.1", s.Port, opts...)
	}
	return znet.NewClient("127.0.0.1", s.Port, opts...)
}
