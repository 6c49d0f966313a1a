package harness

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/gorilla/websocket"
	"github.com/xtaci/kcp-go"
)

// ------------------------------------------------------------------- server

// Srv is one real zinx server under observation.
type Srv struct {
	S    ziface.IServer
	Mode string // tcp tls ws kcp both
	Port int    // tcp/tls port
	Ws   int
	Kcp  int
	Path string // of the WebSocket server, "/" if empty
	c    *Ctx
}

var portMu sync.Mutex

// NextPort hands out a free port of the child's private range.
func (c *Ctx) NextPort() int {
	portMu.Lock()
	defer portMu.Unlock()
	for i := 0; i < 45; i++ {
		p := c.Port
		c.Port++
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
		if err != nil {
			continue
		}
		l.Close()
		u, err := net.ListenPacket("udp", fmt.Sprintf("127.0.0.1:%d", p))
		if err != nil {
			continue
		}
		u.Close()
		return p
	}
	c.Inconclusive("no free port")
	c.Finish()
	return 0
}

// Configure sets the global configuration zinx servers read.
func (c *Ctx) Configure(mode string, f func(g *zconf.Config)) {
	g := zconf.GlobalObject
	g.Host = "127.0.0.1"
	g.TCPPort, g.WsPort, g.KcpPort = 0, 0, 0 // only what the mode needs: a child has 45 ports
	if mode == "tcp" || mode == "tls" || mode == "both" {
		g.TCPPort = c.NextPort()
	}
	if mode == "ws" || mode == "both" {
		g.WsPort = c.NextPort()
	}
	if mode == "kcp" {
		g.KcpPort = c.NextPort()
	}
	g.WsPath = "/"
	g.CertFile, g.PrivateKeyFile = "", ""
	switch mode {
	case "tcp":
		g.Mode = zconf.ServerModeTcp
	case "tls":
		g.Mode = zconf.ServerModeTcp
		g.CertFile, g.PrivateKeyFile = c.cert()
	case "ws":
		g.Mode = zconf.ServerModeWebsocket
	case "kcp":
		g.Mode = zconf.ServerModeKcp
	case "both":
		g.Mode = ""
	}
	if f != nil {
		f(g)
	}
}

// NewSrv builds a server in the given transport mode; setup runs before Start.
func (c *Ctx) NewSrv(mode string, f func(g *zconf.Config), setup func(s ziface.IServer), opts ...znet.Option) *Srv {
	c.Configure(mode, f)
	g := zconf.GlobalObject
	make := znet.NewServer
	if c.MakeServer != nil {
		make = c.MakeServer
	}
	s := &Srv{S: make(opts...), Mode: mode, Port: g.TCPPort, Ws: g.WsPort, Kcp: g.KcpPort, c: c}
	if setup != nil {
		setup(s.S)
	}
	return s
}

// Start starts it and waits until its sockets listen.
func (s *Srv) Start() *Srv {
	s.S.Start()
	s.WaitListen()
	return s
}

func (s *Srv) WaitListen() {
	ok := WaitFor(StallLimit, func() bool { return s.listening() })
	if !ok {
		s.c.Stall("not-listening", "a started server (%s) does not listen\n%s", s.Mode, clip(Stacks(), 3000))
		s.c.Finish()
	}
}

func (s *Srv) listening() bool {
	switch s.Mode {
	case "tcp", "tls":
		return tcpListening(s.Port)
	case "ws":
		return tcpListening(s.Ws)
	case "both":
		return tcpListening(s.Port) && tcpListening(s.Ws)
	case "kcp":
		return udpBound(s.Kcp)
	}
	return false
}

func tcpListening(port int) bool {
	return procHas("/proc/net/tcp", port, "0A") || procHas("/proc/net/tcp6", port, "0A")
}
func udpBound(port int) bool {
	return procHas("/proc/net/udp", port, "") || procHas("/proc/net/udp6", port, "")
}
func procHas(file string, port int, st string) bool {
	b, err := os.ReadFile(file)
	if err != nil {
		return false
	}
	want := fmt.Sprintf(":%04X", port)
	for _, ln := range strings.Split(string(b), "\n") {
		f := strings.Fields(ln)
		if len(f) < 4 || !strings.HasSuffix(f[1], want) {
			continue
		}
		if st == "" || f[3] == st {
			return true
		}
	}
	return false
}

func (c *Ctx) cert() (string, string) {
	cf, kf := filepath.Join(c.Dir, "cert.pem"), filepath.Join(c.Dir, "key.pem")
	if _, err := os.Stat(cf); err == nil {
		return cf, kf
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	tpl := x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), DNSNames: []string{"localhost"}}
	der, err := x509.CreateCertificate(crand.Reader, &tpl, &tpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	kb, err := x509.MarshalECPrivateKey(key)
	if err != nil {
		panic(err)
	}
	os.WriteFile(cf, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600)
	os.WriteFile(kf, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}), 0o600)
	return cf, kf
}

// --------------------------------------------------------------------- wire

// Wire is the peer's end of a connection: a plain byte stream whatever the transport.
type Wire struct {
	kind    string
	nc      net.Conn
	ws      *websocket.Conn
	rest    []byte
	wmu     sync.Mutex
	allText bool // text messages only, where the bytes allow it
	sent    int
	text    int64 // text messages received that are no text: a strict peer closes on them (RFC 6455, 8.1)
}

var errRefused = errors.New("refused")

var kcpWriteLimit = 10 * time.Second

// Peers are told apart by their local port, so no port serves twice in one child.
var (
	usedPorts   = map[int]bool{}
	usedPortsMu sync.Mutex
	errPortUsed = errors.New("port served before")
)

func claimPort(p int) bool {
	usedPortsMu.Lock()
	defer usedPortsMu.Unlock()
	if usedPorts[p] {
		return false
	}
	usedPorts[p] = true
	return true
}

func bindFresh(_, _ string, rc syscall.RawConn) error {
	var err error
	e := rc.Control(func(fd uintptr) {
		if err = syscall.Bind(int(fd), &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
			return
		}
		var sa syscall.Sockaddr
		if sa, err = syscall.Getsockname(int(fd)); err != nil {
			return
		}
		if a, ok := sa.(*syscall.SockaddrInet4); ok && !claimPort(a.Port) {
			err = errPortUsed
		}
	})
	if e != nil {
		return e
	}
	return err
}

// dialFresh dials TCP from a local port not used before in this process.
func dialFresh(network, addr string) (net.Conn, error) {
	for {
		d := net.Dialer{Timeout: StallLimit, Control: bindFresh}
		nc, err := d.Dial("tcp4", addr)
		if err != nil && errors.Is(err, errPortUsed) {
			continue
		}
		return nc, err
	}
}

// Dial opens a raw peer connection to the server.
func (s *Srv) Dial() (*Wire, error) {
	switch s.Mode {
	case "tcp", "both":
		return dialTCP(s.Port)
	case "tls":
		return dialTLS(s.Port, StallLimit)
	case "ws":
		return dialWSAt(s.Ws, s.Path)
	case "kcp":
		return dialKCP(s.Kcp)
	}
	return nil, errRefused
}

func dialTLS(port int, limit time.Duration) (*Wire, error) {
	raw, err := dialFresh("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		return nil, err
	}
	nc := tls.Client(raw, &tls.Config{InsecureSkipVerify: true})
	raw.SetDeadline(time.Now().Add(limit))
	if err := nc.Handshake(); err != nil {
		raw.Close()
		return nil, err
	}
	raw.SetDeadline(time.Time{})
	return &Wire{kind: "tls", nc: nc}, nil
}

func dialTCP(port int) (*Wire, error) {
	nc, err := dialFresh("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		return nil, err
	}
	nc.(*net.TCPConn).SetNoDelay(true)
	return &Wire{kind: "tcp", nc: nc}, nil
}

func dialWS(port int) (*Wire, error) { return dialWSAt(port, "/") }

func dialWSAt(port int, path string) (*Wire, error) {
	if path == "" {
		path = "/"
	}
	d := websocket.Dialer{HandshakeTimeout: StallLimit, NetDial: dialFresh}
	w, _, err := d.Dial(fmt.Sprintf("ws://127.0.0.1:%d%s", port, path), nil)
	if err != nil {
		return nil, err
	}
	return &Wire{kind: "ws", ws: w}, nil
}

func dialKCP(port int) (*Wire, error) {
	var pc *net.UDPConn
	for {
		var err error
		if pc, err = net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)}); err != nil {
			return nil, err
		}
		if claimPort(pc.LocalAddr().(*net.UDPAddr).Port) {
			break
		}
		pc.Close()
	}
	u, err := kcp.NewConn(fmt.Sprintf("127.0.0.1:%d", port), nil, 0, 0, pc)
	if err != nil {
		pc.Close()
		return nil, err
	}
	u.SetStreamMode(true)
	u.SetNoDelay(1, 10, 2, 1)
	u.SetWindowSize(128, 128)
	u.SetACKNoDelay(true)
	return &Wire{kind: "kcp", nc: u}, nil
}

// MustDial retries for a while. A server that then still lets nobody in has stalled, unless
// it is this machine that cannot open the connection.
func (s *Srv) MustDial() *Wire {
	var err error
	for i := 0; i < 5; i++ {
		var w *Wire
		w, err = s.Dial()
		if err == nil {
			return w
		}
		if isTimeout(err) && i > 0 {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	if errors.Is(err, syscall.EADDRNOTAVAIL) || errors.Is(err, syscall.EADDRINUSE) || errors.Is(err, syscall.EMFILE) {
		s.c.Inconclusive("dial: %v", err)
	} else {
		s.c.Stall("no-connection", "%s: a peer cannot connect: %v\n%s", s.Mode, err, clip(Stacks(), 2000))
	}
	s.c.Finish()
	return nil
}

// DialAdmitted dials until the server's start hook has seen the connection (open is
// filled by it, keyed by peer port): a WebSocket server turns peers away while it is
// full, and a slot is only free some time after its connection was closed.
func (s *Srv) DialAdmitted(open *sync.Map) *Wire {
	deadline := time.Now().Add(StallLimit)
	for time.Now().Before(deadline) {
		w, err := s.Dial()
		if err != nil {
			time.Sleep(5 * time.Millisecond)
			continue
		}
		if s.Mode == "kcp" { // seen by the server only with the first data
			return w
		}
		limit := StallLimit
		if s.Mode == "ws" {
			limit = 400 * time.Millisecond
		}
		if WaitFor(limit, func() bool { _, ok := open.Load(w.Key()); return ok }) {
			return w
		}
		w.Close()
	}
	s.c.Stall("not-admitted", "%s: no connection was admitted within %s although there should be room\n%s", s.Mode, StallLimit, clip(Stacks(), 2000))
	s.c.Finish()
	return nil
}

func (w *Wire) Write(b []byte) (int, error) {
	w.wmu.Lock()
	defer w.wmu.Unlock()
	if w.ws != nil {
		kind := websocket.BinaryMessage
		if w.sent++; (w.sent%4 == 3 || w.allText) && utf8.Valid(b) { // zinx takes text messages too
			kind = websocket.TextMessage
		}
		if err := w.ws.WriteMessage(kind, b); err != nil {
			return 0, err
		}
		return len(b), nil
	}
	if w.kind == "kcp" {
		// KCP never learns that the other side is gone: a full window would block for ever
		if len(b) == 0 {
			return 0, nil
		}
		w.nc.SetWriteDeadline(time.Now().Add(kcpWriteLimit))
	}
	return w.nc.Write(b)
}

func (w *Wire) Read(p []byte) (int, error) {
	if w.ws != nil {
		for len(w.rest) == 0 {
			kind, m, err := w.ws.ReadMessage()
			if err != nil {
				return 0, err
			}
			if kind == websocket.TextMessage && !utf8.Valid(m) {
				atomic.AddInt64(&w.text, 1)
			}
			w.rest = m
		}
		n := copy(p, w.rest)
		w.rest = w.rest[n:]
		return n, nil
	}
	return w.nc.Read(p)
}

func (w *Wire) Deadline(d time.Duration) {
	t := time.Time{}
	if d > 0 {
		t = time.Now().Add(d)
	}
	if w.ws != nil {
		w.ws.SetReadDeadline(t)
		return
	}
	w.nc.SetReadDeadline(t)
}

// Close closes abruptly for WebSocket (no close frame) and orderly for the others.
func (w *Wire) Close() {
	if w.ws != nil {
		w.ws.Close()
		return
	}
	w.nc.Close()
}

// Reset closes a TCP wire with RST.
func (w *Wire) Reset() {
	if t, ok := w.nc.(*net.TCPConn); ok {
		t.SetLinger(0)
	} else if w.ws != nil {
		if t, ok := w.ws.UnderlyingConn().(*net.TCPConn); ok {
			t.SetLinger(0)
		}
	}
	w.Close()
}

// Key identifies the connection from the peer's side: the local port.
func (w *Wire) Key() string { return portOf(w.local()) }

func (w *Wire) local() string {
	if w.ws != nil {
		return w.ws.LocalAddr().String()
	}
	return w.nc.LocalAddr().String()
}

func (w *Wire) remote() string {
	if w.ws != nil {
		return w.ws.RemoteAddr().String()
	}
	return w.nc.RemoteAddr().String()
}

// portOf is the same key from the server's side (of a remote address).
func portOf(addr string) string { return addr[strings.LastIndex(addr, ":")+1:] }

// ------------------------------------------------------------------- frames

func tlv(id uint32, data []byte) []byte {
	b := make([]byte, 8+len(data))
	binary.BigEndian.PutUint32(b, id)
	binary.BigEndian.PutUint32(b[4:], uint32(len(data)))
	copy(b[8:], data)
	return b
}

func ltv(id uint32, data []byte) []byte {
	b := make([]byte, 8+len(data))
	binary.LittleEndian.PutUint32(b, uint32(len(data)))
	binary.LittleEndian.PutUint32(b[4:], id)
	copy(b[8:], data)
	return b
}

// Frame is one decoded TLV frame.
type Frame struct {
	ID   uint32
	Data []byte
}

// FrameReader decodes TLV frames the way a peer would.
type FrameReader struct{ r *bufio.Reader }

func NewFrameReader(r io.Reader) *FrameReader { return &FrameReader{bufio.NewReaderSize(r, 1<<16)} }

var errBadFrame = errors.New("peer received a frame that was never sent")

func (f *FrameReader) Next(max uint32) (Frame, error) {
	var h [8]byte
	if _, err := io.ReadFull(f.r, h[:]); err != nil {
		return Frame{}, err
	}
	id, n := binary.BigEndian.Uint32(h[:]), binary.BigEndian.Uint32(h[4:])
	if n > max {
		return Frame{}, fmt.Errorf("%w: id=%#x len=%d", errBadFrame, id, n)
	}
	d := make([]byte, n)
	if _, err := io.ReadFull(f.r, d); err != nil {
		return Frame{}, err
	}
	return Frame{id, d}, nil
}

// body makes a self-describing payload: who sent it, its number, and filler that
// both determine, so that any change, mix or tear shows.
func body(src uint32, seq uint32, n int) []byte {
	if n < 12 {
		n = 12
	}
	b := make([]byte, n)
	binary.BigEndian.PutUint32(b, src)
	binary.BigEndian.PutUint32(b[4:], seq)
	binary.BigEndian.PutUint32(b[8:], uint32(n))
	x := src*2654435761 + seq*40503 + uint32(n)
	for i := 12; i < n; i++ {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// parseBody checks a payload made by body.
func parseBody(b []byte) (src, seq uint32, ok bool) {
	if len(b) < 12 {
		return 0, 0, false
	}
	src, seq = binary.BigEndian.Uint32(b), binary.BigEndian.Uint32(b[4:])
	if binary.BigEndian.Uint32(b[8:]) != uint32(len(b)) {
		return src, seq, false
	}
	return src, seq, bytes.Equal(b, body(src, seq, len(b)))
}
