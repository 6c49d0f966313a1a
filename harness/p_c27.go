package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zlog"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zpack"
	"github.com/gorilla/websocket"
	"github.com/xtaci/kcp-go"
)

// C27: configuration. Each case is a process of its own: zinx reads its file as it is loaded.

// confDefaults are the documented defaults.
func confDefaults(cwd string) zconf.Config {
	return zconf.Config{
		Name: "ZinxServerApp", Version: "V1.0", TCPPort: 8999, WsPort: 9000, WsPath: "/", KcpPort: 9001,
		Host: "0.0.0.0", MaxConn: 12000, MaxPacketSize: 4096, WorkerPoolSize: 10, MaxWorkerTaskLen: 1024,
		MaxMsgChanLen: 1024, LogDir: cwd + "/log", HeartbeatMax: 10, IOReadBuffSize: 1024, Mode: "tcp",
		KcpStreamMode: true, KcpNoDelay: 1, KcpInterval: 10, KcpResend: 2, KcpNc: 1, KcpRecvWindow: 32, KcpSendWindow: 32,
	}
}

// probeSpec is what a case does, probeOut what it saw.
type probeSpec struct {
	Object  *zconf.Config // passed to NewUserConfServer, if any
	Slices  bool          // NewUserConfDefaultRouterSlicesServer instead
	Serve   bool
	Out     string
	Ports   []int // that may be used
	LogMore int   // bytes of log to write
	Away    string
}

type probeOut struct {
	First, Last          zconf.Config
	Name                 string
	OldRouter, NewRouter bool // registering a handler of that style works
	Listen               map[string][]string
	Echo                 map[string]string
	HeartbeatMax         time.Duration
	PackOK, PackOver     bool
	Admitted             int
	Stage                string
}

// scenC27Probe runs in the process under observation.
func scenC27Probe(c *Ctx) {
	var sp probeSpec
	b, err := os.ReadFile(os.Getenv("VERIF_PROBE"))
	if err == nil {
		err = json.Unmarshal(b, &sp)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "probe:", err)
		os.Exit(3)
	}
	o := &probeOut{First: *zconf.GlobalObject, Listen: map[string][]string{}, Echo: map[string]string{}}
	save := func(stage string) {
		o.Stage = stage
		b, _ := json.Marshal(o)
		os.WriteFile(sp.Out, b, 0o644)
	}
	save("loaded")
	var s ziface.IServer
	switch {
	case sp.Object == nil:
		s = znet.NewServer()
	case sp.Slices:
		s = znet.NewUserConfDefaultRouterSlicesServer(sp.Object)
	default:
		s = znet.NewUserConfServer(sp.Object)
	}
	o.Last = *zconf.GlobalObject
	o.Name = s.ServerName()
	o.HeartbeatMax = zconf.GlobalObject.HeartbeatMaxDuration()
	try := func(f func()) (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		f()
		return true
	}
	o.OldRouter = try(func() {
		s.AddRouter(1, &funcRouter{f: func(q ziface.IRequest) { q.GetConnection().SendMsg(2, q.GetData()) }})
	})
	o.NewRouter = try(func() {
		s.AddRouterSlices(1, func(q ziface.IRequest) { q.GetConnection().SendMsg(2, q.GetData()) })
	})
	p := zpack.Factory().NewPack(ziface.ZinxDataPack)
	head := func(n uint32) []byte { return tlv(1, make([]byte, n))[:8] }
	_, e1 := p.Unpack(head(zconf.GlobalObject.MaxPacketSize))
	_, e2 := p.Unpack(head(zconf.GlobalObject.MaxPacketSize + 1))
	o.PackOK, o.PackOver = e1 == nil, e2 == nil
	save("built")

	for _, l := range []func(...interface{}){zlog.Debug, zlog.Info, zlog.Warn, zlog.Error} {
		l("probe-marker")
	}
	for n := 0; n < sp.LogMore; n += 100 {
		zlog.Error(strings.Repeat("x", 60))
	}
	if sp.Serve {
		g := zconf.GlobalObject
		s.Start()
		want := 1
		if g.Mode == "" {
			want = 2
		}
		WaitFor(10*time.Second, func() bool { return len(listeners(sp.Ports)) >= want })
		time.Sleep(30 * time.Millisecond)
		o.Listen = listeners(sp.Ports)
		save("serving")
		for k := range o.Listen {
			var port int
			proto := k[:3]
			fmt.Sscanf(k[4:], "%d", &port)
			hows := []string{"tcp", "tls"}
			if proto == "udp" {
				hows = []string{"kcp"}
			} else if port == g.WsPort {
				hows = []string{"ws", "ws-elsewhere"}
			}
			for _, how := range hows {
				limit := 10 * time.Second
				secure := g.CertFile != "" && g.PrivateKeyFile != ""
				if how == "tcp" && secure || how == "tls" && !secure || how == "ws-elsewhere" || g.MaxConn < 4 {
					limit = 400 * time.Millisecond // not expected to work
				}
				o.Echo[how+" "+k[4:]] = echoOnce(how, port, g, limit)
			}
		}
		save("echoed")
		if o.Echo["tcp "+itoa(g.TCPPort)] == "ok" && g.MaxConn < 4 {
			time.Sleep(300 * time.Millisecond) // until the ones above are gone
			var ws []*Wire
			for i := 0; i < g.MaxConn+2; i++ {
				w, err := dialTCP(g.TCPPort)
				if err != nil {
					break
				}
				ws = append(ws, w)
				if try1(w, 700*time.Millisecond) {
					o.Admitted++
				}
			}
			for _, w := range ws {
				w.Close()
			}
		}
	}
	if sp.Away != "" {
		time.Sleep(300 * time.Millisecond)   // old files are removed in the background
		zlog.SetLogFile(sp.Away, "away.log") // flushes
	}
	save("done")
	os.Exit(0)
}

func try1(w *Wire, d time.Duration) bool {
	w.Write(tlv(1, body(4, 1, 20)))
	w.Deadline(d)
	f, err := NewFrameReader(w).Next(1 << 20)
	return err == nil && f.ID == 2
}

func echoOnce(how string, port int, g *zconf.Config, limit time.Duration) string {
	var w *Wire
	var err error
	addr := fmt.Sprintf("127.0.0.1:%d", port)
	switch how {
	case "tcp":
		w, err = dialTCP(port)
	case "tls":
		w, err = dialTLS(port, limit)
	case "ws", "ws-elsewhere":
		path := g.WsPath
		if how != "ws" {
			path = g.WsPath + "elsewhere"
			if g.WsPath == "/" { // everything is below it
				return "err"
			}
		}
		d := websocket.Dialer{HandshakeTimeout: limit}
		var ws *websocket.Conn
		ws, _, err = d.Dial("ws://"+addr+path, nil)
		w = &Wire{kind: "ws", ws: ws}
	case "kcp":
		var u *kcp.UDPSession
		u, err = kcp.DialWithOptions(addr, nil, g.KcpFecDataShards, g.KcpFecParityShards)
		if err == nil {
			u.SetStreamMode(true)
			u.SetNoDelay(1, 10, 2, 1)
			u.SetWindowSize(128, 128)
			w = &Wire{kind: "kcp", nc: u}
		}
	}
	if err != nil {
		return "err"
	}
	defer w.Close()
	if try1(w, limit) {
		return "ok"
	}
	return "err"
}

// listeners of this process's servers among ports: "tcp 30001" -> addresses.
func listeners(ports []int) map[string][]string {
	r := map[string][]string{}
	mine := map[string]bool{} // sockets of other processes are none of our business
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, e := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:[") {
			mine[strings.TrimSuffix(l[8:], "]")] = true
		}
	}
	for _, f := range []string{"tcp", "tcp6", "udp", "udp6"} {
		b, _ := os.ReadFile("/proc/net/" + f)
		for _, ln := range strings.Split(string(b), "\n") {
			x := strings.Fields(ln)
			if len(x) < 10 || !mine[x[9]] || f[:3] == "tcp" && x[3] != "0A" {
				continue
			}
			i := strings.LastIndex(x[1], ":")
			if i < 0 {
				continue
			}
			var port int
			fmt.Sscanf(x[1][i+1:], "%X", &port)
			for _, p := range ports {
				if p == port {
					k := f[:3] + " " + itoa(p)
					r[k] = append(r[k], strings.Trim(x[1][:i], "0"))
				}
			}
		}
	}
	return r
}

// ---- the observer

// genConf makes values for a random subset of the settings.
func genConf(r *rand.Rand, c *Ctx, ports []int, dir, cf, kf string, file bool) (map[string]interface{}, zconf.Config) {
	share := []int{1, 3, 6, 9}[r.Intn(4)]
	set := map[string]interface{}{}
	put := func(k string, v interface{}) {
		if r.Intn(10) < share {
			set[k] = v
		}
	}
	// ports are always given: the defaults may be taken
	p := r.Perm(len(ports))
	set["TCPPort"], set["WsPort"], set["KcpPort"] = ports[p[0]], ports[p[1]], ports[p[2]]
	set["Host"] = []string{"127.0.0.1", "0.0.0.0"}[r.Intn(2)]
	if r.Intn(5) == 0 {
		delete(set, "Host")
	}
	put("WsPath", []string{"/", "/x", "/a/b", "/game"}[r.Intn(4)])
	put("Name", fmt.Sprint("srv", r.Intn(1000)))
	put("Version", fmt.Sprint("V", r.Intn(9)))
	put("MaxPacketSize", 1+r.Intn(100000))
	put("MaxConn", 1+r.Intn(20)*r.Intn(2))
	put("WorkerPoolSize", 1+r.Intn(20))
	if file && r.Intn(8) == 0 {
		set["WorkerPoolSize"] = 0
	}
	put("MaxWorkerTaskLen", 1+r.Intn(60))
	put("WorkerMode", []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind}[r.Intn(3)])
	put("MaxMsgChanLen", 1+r.Intn(60))
	put("IOReadBuffSize", 1+r.Intn(5000))
	modes := []string{"tcp", "websocket", "kcp", ""}
	put("Mode", modes[r.Intn(4)])
	put("RouterSlicesMode", r.Intn(2) == 0)
	put("RequestPoolMode", r.Intn(2) == 0)
	put("HeartbeatMax", 1+r.Intn(100))
	put("LogDir", filepath.Join(dir, "logs", fmt.Sprint("d", r.Intn(3))))
	put("LogFile", fmt.Sprintf("app%d.log", r.Intn(5)))
	put("LogSaveDays", []int{1, 5, 20, 60}[r.Intn(4)])
	put("LogFileSize", 3000+r.Intn(9000))
	put("LogCons", r.Intn(2) == 0)
	put("LogIsolationLevel", r.Intn(4))
	switch r.Intn(8) {
	case 0:
		set["CertFile"], set["PrivateKeyFile"] = cf, kf
	case 1:
		set["CertFile"] = cf
	case 2:
		set["PrivateKeyFile"] = kf
	}
	put("KcpACKNoDelay", r.Intn(2) == 0)
	put("KcpStreamMode", r.Intn(2) == 0)
	put("KcpNoDelay", r.Intn(2))
	put("KcpInterval", 10+r.Intn(30))
	put("KcpResend", r.Intn(3))
	put("KcpNc", r.Intn(2))
	put("KcpSendWindow", 16+r.Intn(100))
	put("KcpRecvWindow", 16+r.Intn(100))
	if r.Intn(6) == 0 {
		set["KcpFecDataShards"], set["KcpFecParityShards"] = 2+r.Intn(5), 1+r.Intn(3)
	}
	b, _ := json.Marshal(set)
	var o zconf.Config
	if err := json.Unmarshal(b, &o); err != nil {
		panic(err)
	}
	return set, o
}

// merge is the reference: what an object adds to the settings so far. In an object a setting
// is given if it is not zero; what has no other way to say "off" (booleans, the log level)
// is taken as it is.
func merge(base zconf.Config, o zconf.Config) zconf.Config {
	bv, ov := reflect.ValueOf(&base).Elem(), reflect.ValueOf(o)
	for i := 0; i < bv.NumField(); i++ {
		if !ov.Field(i).IsZero() {
			bv.Field(i).Set(ov.Field(i))
		}
	}
	return base
}

func scenC27(c *Ctx) {
	r := c.Rng
	exe, err := os.Executable()
	if err != nil {
		c.Inconclusive("%v", err)
		return
	}
	c.Configure("tcp", nil)
	cf, kf := c.cert()
	ports := []int{c.NextPort(), c.NextPort(), c.NextPort(), c.NextPort(), c.NextPort()}
	for n := 0; n < c.N(25, 250) && c.Violations() == 0; n++ {
		dir := filepath.Join(c.Dir, fmt.Sprint("case", n))
		work := filepath.Join(dir, "cwd")
		os.MkdirAll(filepath.Join(work, "conf"), 0o755)
		kind := []string{"file", "object", "both", "broken", "none", "both", "object", "file", "both"}[n%9]
		sp := probeSpec{Out: filepath.Join(dir, "out.json"), Ports: ports, Serve: true, Away: filepath.Join(dir, "away")}
		want := confDefaults(work)
		given := map[string]interface{}{}
		var text []byte
		if kind == "file" || kind == "both" {
			var o zconf.Config
			given, o = genConf(r, c, ports, dir, cf, kf, true)
			if kind == "both" && r.Intn(2) == 0 { // a default that the object has to bring back
				given["KcpStreamMode"], o.KcpStreamMode = false, false
			}
			text, _ = json.MarshalIndent(given, "", " ")
			for k := range given { // a file gives what it names, zero or not
				f := reflect.ValueOf(&want).Elem().FieldByName(k)
				f.Set(reflect.ValueOf(o).FieldByName(k))
			}
		}
		first := want
		if kind == "none" {
			sp.Serve = false
		}
		if kind == "object" || kind == "both" {
			_, o := genConf(r, c, ports, dir, cf, kf, false)
			if kind == "both" && (want.CertFile != "" || want.PrivateKeyFile != "") {
				o.CertFile, o.PrivateKeyFile = want.CertFile, want.PrivateKeyFile
			}
			sp.Object = &o
			want = merge(want, o)
			want.LogIsolationLevel = o.LogIsolationLevel
			want.KcpStreamMode = o.KcpStreamMode
			if kind == "both" { // what an object can not switch off
				o.LogIsolationLevel = 1 + r.Intn(3)
				want.LogIsolationLevel = o.LogIsolationLevel
			}
			sp.Slices = o.RouterSlicesMode && r.Intn(2) == 0
		}
		if want.TCPPort == want.WsPort || want.TCPPort == want.KcpPort || want.WsPort == want.KcpPort {
			continue // only with file and object
		}
		where := ""
		env := []string{}
		switch v := r.Intn(3); {
		case kind == "broken":
			g, _ := genConf(r, c, ports, dir, cf, kf, true)
			b, _ := json.Marshal(g)
			where = filepath.Join(dir, "zinx.json")
			switch r.Intn(5) {
			case 0:
				text = b[:len(b)-1-r.Intn(len(b)/2)]
			case 1:
				g["MaxConn"] = "many"
				text, _ = json.Marshal(g)
			case 2:
				g["Name"] = 5
				text, _ = json.Marshal(g)
			case 3:
				text = append(b, []byte("}")...)
			case 4:
				text = []byte{}
			}
			env = append(env, "ZINX_CONFIG_FILE_PATH="+where)
		case kind == "object" || kind == "none":
			if v == 0 { // named, but not there
				env = append(env, "ZINX_CONFIG_FILE_PATH="+filepath.Join(dir, "missing.json"))
			}
		case v == 0: // the default place
			where = filepath.Join(work, "conf", "zinx.json")
		case v == 1: // relative to the working directory
			where = filepath.Join(work, "my.json")
			env = append(env, "ZINX_CONFIG_FILE_PATH=my.json")
		default:
			where = filepath.Join(dir, "zinx.json")
			env = append(env, "ZINX_CONFIG_FILE_PATH="+where)
		}
		if where != "" {
			os.WriteFile(where, text, 0o644)
		}
		// files of earlier days beside the log
		old := map[int]string{}
		if want.LogFile != "" && kind != "broken" {
			os.MkdirAll(want.LogDir, 0o755)
			base := strings.TrimSuffix(want.LogFile, ".log")
			for _, d := range []int{3, 12, 45} {
				old[d] = filepath.Join(want.LogDir, base+time.Now().AddDate(0, 0, -d).Format(".2006-01-02-150405.000000")+".zip")
				os.WriteFile(old[d], []byte("PK"), 0o644)
			}
			cur := filepath.Join(want.LogDir, want.LogFile)
			os.WriteFile(cur, []byte("of an earlier day\n"), 0o644)
			y := time.Now().AddDate(0, 0, -2)
			os.Chtimes(cur, y, y)
			sp.LogMore = 40000
		}
		spf := filepath.Join(dir, "spec.json")
		b, _ := json.Marshal(sp)
		os.WriteFile(spf, b, 0o644)
		cmd := exec.Command(exe, "-test.run", "^TestChild$", "-test.timeout", "0")
		cmd.Dir = work
		cmd.Env = append(append([]string{}, "PATH="+os.Getenv("PATH"), "HOME="+dir, "TMPDIR="+dir, "VERIF_SCENARIO=c27.probe", "VERIF_VERBOSE=1", "VERIF_PROBE="+spf, "GORACE="+os.Getenv("GORACE")), env...)
		var errb, outb bytes.Buffer
		cmd.Stderr, cmd.Stdout = &errb, &outb
		var once sync.Once
		timer := time.AfterFunc(60*time.Second, func() { once.Do(func() { cmd.Process.Kill() }) })
		rerr := cmd.Run()
		timer.Stop()
		c.Event(1)
		var o probeOut
		ob, _ := os.ReadFile(sp.Out)
		loaded := json.Unmarshal(ob, &o) == nil
		what := fmt.Sprintf("%s %v %s", kind, env, clip(string(text), 700))
		if sp.Object != nil {
			b, _ := json.Marshal(sp.Object)
			what += " object " + clip(string(b), 1500)
		}
		if kind == "broken" {
			if loaded || rerr == nil {
				c.Violate("broken", "a broken configuration file went unreported: %s", what)
			}
			c.Eval(fmt.Sprintf("broken/%d", len(text)%40))
			os.RemoveAll(dir)
			continue
		}
		if !loaded || o.Stage != "done" {
			sig := "died"
			if loaded && rerr != nil && strings.Contains(rerr.Error(), "killed") {
				c.Stall("probe-hangs", "%s: not done after 60 s at stage %q", what, o.Stage)
			} else {
				c.Violate(sig, "%s: the server did not come up (stage %q): %v\n%s", what, o.Stage, rerr, clip(errb.String(), 2500))
			}
			continue
		}
		diff(c, "loaded", what, o.First, first)
		// with a worker for each connection, there are as many as connections
		if want.WorkerMode == zconf.WorkerModeBind {
			want.WorkerPoolSize = uint32(want.MaxConn)
		}
		if sp.Slices {
			want.RouterSlicesMode = true
		}
		diff(c, "effective", what, o.Last, want)
		bad := func(sig, f string, a ...interface{}) { c.Violate(sig, "%s: %s", what, fmt.Sprintf(f, a...)) }
		if o.Name != want.Name {
			bad("name", "the server's name is %q, not %q", o.Name, want.Name)
		}
		if o.OldRouter != !want.RouterSlicesMode || o.NewRouter != want.RouterSlicesMode {
			bad("routers", "RouterSlicesMode is %v; old style works: %v, new style: %v", want.RouterSlicesMode, o.OldRouter, o.NewRouter)
		}
		if o.HeartbeatMax != time.Duration(want.HeartbeatMax)*time.Second {
			bad("heartbeat", "HeartbeatMax %d gives %v", want.HeartbeatMax, o.HeartbeatMax)
		}
		if !o.PackOK || o.PackOver {
			bad("packet-size", "MaxPacketSize %d: a message of that size accepted: %v, a bigger one: %v", want.MaxPacketSize, o.PackOK, o.PackOver)
		}
		if sp.Serve {
			lis := map[string]bool{}
			tcp, ws, kc := "tcp "+itoa(want.TCPPort), "tcp "+itoa(want.WsPort), "udp "+itoa(want.KcpPort)
			switch want.Mode {
			case "tcp":
				lis[tcp] = true
			case "websocket":
				lis[ws] = true
			case "kcp":
				lis[kc] = true
			default:
				lis[tcp], lis[ws] = true, true
			}
			for k := range lis {
				a := o.Listen[k]
				if len(a) == 0 {
					bad("not-listening", "nothing listens on %s: %v", k, o.Listen)
				} else if all := a[0] == ""; all != (want.Host == "0.0.0.0") {
					bad("host", "Host %q, but the address is %v", want.Host, a)
				}
			}
			for k := range o.Listen {
				if !lis[k] {
					bad("listening", "%s listens, mode is %q", k, want.Mode)
				}
			}
			tls := want.CertFile != "" && want.PrivateKeyFile != ""
			exp := map[string]bool{}
			if lis[tcp] {
				exp["tcp "+itoa(want.TCPPort)] = !tls
				exp["tls "+itoa(want.TCPPort)] = tls
			}
			if lis[ws] {
				exp["ws "+itoa(want.WsPort)] = true
				exp["ws-elsewhere "+itoa(want.WsPort)] = false
			}
			if lis[kc] {
				exp["kcp "+itoa(want.KcpPort)] = true
			}
			for k, v := range exp {
				full := want.MaxConn < 4 // the others may still hold the place
				if (o.Echo[k] == "ok") != v && !(v && full) {
					bad("service", "%s: works: %q, expected %v", k, o.Echo[k], v)
				}
			}
			if o.Admitted > want.MaxConn {
				bad("max-conn", "MaxConn %d, %d connections were served at once", want.MaxConn, o.Admitted)
			}
		}
		// the log
		all := errb.String()
		inErr := strings.Count(all, "probe-marker")
		marks := 4 - want.LogIsolationLevel
		if want.LogFile == "" {
			if inErr != marks {
				bad("log-level", "LogIsolationLevel %d, no log file: %d of 4 markers on the console, expected %d", want.LogIsolationLevel, inErr, marks)
			}
		} else {
			lines, names, err := readLogDir(want.LogDir, want.LogFile, func(n string) bool {
				for _, p := range old {
					if filepath.Base(p) == n {
						return true
					}
				}
				return false
			})
			if err != nil {
				bad("log-file", "the log can not be read: %v", err)
			}
			inFile, rolled := 0, len(names)
			for _, f := range lines {
				for _, l := range f {
					inFile += strings.Count(l, "probe-marker")
				}
			}
			if inFile != marks {
				bad("log-level", "LogIsolationLevel %d: %d of 4 markers in the log file %s/%s, expected %d (files %v)", want.LogIsolationLevel, inFile, want.LogDir, want.LogFile, marks, names)
			}
			if (inErr > 0) != (want.LogCons && marks > 0) {
				bad("log-console", "LogCons %v: %d markers on the console", want.LogCons, inErr)
			}
			// the file of the earlier day is one, 40 kB in pieces of at most 12 kB are at least three more
			if small := want.LogFileSize > 0; small && rolled < 4 || !small && rolled > 2 {
				bad("log-size", "LogFileSize %d: 40 kB of log are in %d files %v", want.LogFileSize, rolled, names)
			}
			days := want.LogSaveDays
			if days == 0 {
				days = 31
			}
			for d, p := range old {
				_, err := os.Stat(p)
				if gone := err != nil; gone != (d > days) {
					bad("log-days", "LogSaveDays %d: the log of %d days ago was removed: %v", want.LogSaveDays, d, gone)
				}
			}
		}
		if _, err := os.Stat(filepath.Join(work, "log")); err == nil && kind != "both" && want.LogDir != work+"/log" {
			bad("log-dir", "files appear in the default log directory although LogDir is %s", want.LogDir)
		}
		c.Eval(fmt.Sprintf("%s/%d/%s/%s/%v", kind, len(given), want.Mode, want.WorkerMode, want.LogFile != ""))
		c.Count("probes", 1)
		os.RemoveAll(dir)
	}
}

func diff(c *Ctx, when, what string, got, want zconf.Config) {
	gv, wv := reflect.ValueOf(got), reflect.ValueOf(want)
	for i := 0; i < gv.NumField(); i++ {
		if !reflect.DeepEqual(gv.Field(i).Interface(), wv.Field(i).Interface()) {
			f := gv.Type().Field(i).Name
			c.Violate("setting "+f, "%s: %s is %v, expected %v: %s", when, f, gv.Field(i).Interface(), wv.Field(i).Interface(), what)
		}
	}
}

func init() {
	scenario("c27.conf", scenC27)
	scenario("c27.probe", scenC27Probe)
	register(&Check{
		Property: "C27",
		Jobs: func(tier string, seed int64) []Job {
			return spread("c27.conf", nil, seed, byTier(tier, 6, 8), byTierD(tier, 4*time.Minute, 20*time.Minute))
		},
		Parallel: 6,
		MinEvals: 80,
		Rule:     "one evaluation = one process that loads a generated configuration (file, object, both, none, or a broken file) and serves with it: all settings compared with a reference merge, and name, ports, addresses, transports, limits, log files, levels, rotation and retention observed from outside; distinct = (source, settings given, mode, worker mode, log file)",
	})
}

func byTierD(tier string, q, t time.Duration) time.Duration {
	if tier == "thorough" {
		return t
	}
	return q
}
