From 65c75503b44e9908eaa95aef88523e1313b35cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:10 +0000
Subject: [PATCH 01/41] fix: frame decoder drops oversize frames for good and
 rejects frames shorter than their length field

---
 zinterceptor/framedecoder.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/zinterceptor/framedecoder.go b/zinterceptor/framedecoder.go
index cd3db2b..ebb18f3 100644
--- a/zinterceptor/framedecoder.go
+++ b/zinterceptor/framedecoder.go
@@ -497,6 +497,8 @@ func (d *FrameDecoder) decode(buf []byte) []byte {
 	// Determine if it is in discard mode (判断是否为丢弃模式)
 	if d.discardingTooLongFrame {
 		d.discardingTooLongFrameFunc(in)
+		// The discarded bytes are gone for good (被丢弃的字节不再保留)
+		d.in = in.Bytes()
 	}
 
 	// Determine if the number of readable bytes in the buffer is less than the offset of the length field
@@ -532,12 +534,20 @@ func (d *FrameDecoder) decode(buf []byte) []byte {
 	// So the frameLength calculated in the end is the length of the entire data packet (那说明最后计算出的frameLength就是整个数据包的长度)
 	frameLength += int64(d.LengthAdjustment) + int64(d.LengthFieldEndOffset)
 
+	// A frame can not end before its own length field does, nothing after it could be framed
+	// (数据包不可能在长度字段结束之前结束，否则后续数据无法解析)
+	if frameLength < int64(d.LengthFieldEndOffset) {
+		panic(fmt.Sprintf("Adjusted frame length (%d) is less than LengthFieldEndOffset: %d", frameLength, d.LengthFieldEndOffset))
+	}
+
 	// Discard mode is turned on here (丢弃模式就是在这开启的)
 	// If the data packet length is greater than the maximum length (如果数据包长度大于最大长度)
 	if uint64(frameLength) > d.MaxFrameLength {
 		// It has exceeded the maximum length of a single data frame, and the exceeded part is processed
 		// (已经超过单次数据帧最大长度，对超过的部分进行处理)
 		d.exceededFrameLength(in, frameLength)
+		// The skipped bytes are gone for good (被跳过的字节不再保留)
+		d.in = in.Bytes()
 		return nil
 	}
 
@@ -581,6 +591,7 @@ func (d *FrameDecoder) Decode(buff []byte) [][]byte {
 	resp := make([][]byte, 0)
 
 	for {
+		size := len(d.in)
 		arr := d.decode(d.in)
 
 		if arr != nil {
@@ -591,7 +602,9 @@ func (d *FrameDecoder) Decode(buff []byte) [][]byte {
 			if _size > 0 {
 				d.in = d.in[_size:]
 			}
-		} else {
+		} else if len(d.in) == size {
+			// Nothing was decoded or discarded: wait for more data
+			// (既没有解析出数据包，也没有丢弃数据: 等待更多数据)
 			return resp
 		}
 	}
-- 
2.43.0


From d03e25eb174acc57cdb2f90782f1415e0826c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:07 +0000
Subject: [PATCH 02/41] fix: synchronise the accept delay shared by listeners
 and websocket upgrades

---
 znet/acceptdelay.go | 17 +++++++++++++++--
 znet/server.go      |  6 +++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/znet/acceptdelay.go b/znet/acceptdelay.go
index 7046c38..e3ddf82 100644
--- a/znet/acceptdelay.go
+++ b/znet/acceptdelay.go
@@ -1,6 +1,7 @@
 package znet
 
 import (
+	"sync"
 	"time"
 )
 
@@ -15,6 +16,7 @@ func init() {
 }
 
 type acceptDelay struct {
+	mu       sync.Mutex // shared by all listeners and websocket upgrades
 	duration time.Duration
 }
 
@@ -24,10 +26,21 @@ func (d *acceptDelay) Delay() {
 }
 
 func (d *acceptDelay) Reset() {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	d.duration = 0
 }
 
+// current returns the delay in force
+func (d *acceptDelay) current() time.Duration {
+	d.mu.Lock()
+	defer d.mu.Unlock()
+	return d.duration
+}
+
 func (d *acceptDelay) Up() {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	if d.duration == 0 {
 		d.duration = 5 * time.Millisecond
 		return
@@ -39,7 +52,7 @@ func (d *acceptDelay) Up() {
 }
 
 func (d *acceptDelay) do() {
-	if d.duration > 0 {
-		time.Sleep(d.duration)
+	if duration := d.current(); duration > 0 {
+		time.Sleep(duration)
 	}
 }
diff --git a/znet/server.go b/znet/server.go
index 6152000..70e3c82 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -275,7 +275,7 @@ func (s *Server) ListenTcpConn() {
 			// 3.1 Set the maximum connection control for the server. If it exceeds the maximum connection, wait.
 			// (设置服务器最大连接控制,如果超过最大连接，则等待)
 			if s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
-				zlog.Ins().InfoF("Exceeded the maxConnNum:%d, Wait:%d", zconf.GlobalObject.MaxConn, AcceptDelay.duration)
+				zlog.Ins().InfoF("Exceeded the maxConnNum:%d, Wait:%d", zconf.GlobalObject.MaxConn, AcceptDelay.current())
 				AcceptDelay.Delay()
 				continue
 			}
@@ -319,7 +319,7 @@ func (s *Server) ListenWebsocketConn() {
 		// 1. Check if the server has reached the maximum allowed number of connections
 		// (设置服务器最大连接控制,如果超过最大连接，则等待)
 		if s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
-			zlog.Ins().InfoF("Exceeded the maxConnNum:%d, Wait:%d", zconf.GlobalObject.MaxConn, AcceptDelay.duration)
+			zlog.Ins().InfoF("Exceeded the maxConnNum:%d, Wait:%d", zconf.GlobalObject.MaxConn, AcceptDelay.current())
 			AcceptDelay.Delay()
 			return
 		}
@@ -379,7 +379,7 @@ func (s *Server) ListenKcpConn() {
 			// 2.1 Set the maximum connection control for the server. If it exceeds the maximum connection, wait.
 			// (设置服务器最大连接控制,如果超过最大连接，则等待)
 			if s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
-				zlog.Ins().InfoF("Exceeded the maxConnNum:%d, Wait:%d", zconf.GlobalObject.MaxConn, AcceptDelay.duration)
+				zlog.Ins().InfoF("Exceeded the maxConnNum:%d, Wait:%d", zconf.GlobalObject.MaxConn, AcceptDelay.current())
 				AcceptDelay.Delay()
 				continue
 			}
-- 
2.43.0


From e30d32cfae8309be8fd436fc6435ef315648c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:14 +0000
Subject: [PATCH 03/41] fix: do not share one request's websocket subprotocols
 with all other upgrades

---
 znet/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index 70e3c82..cb56d0f 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -336,12 +336,15 @@ func (s *Server) ListenWebsocketConn() {
 		}
 		// 3. Check if there is a subprotocol specified in the header
 		// (判断 header 里面是有子协议)
+		// The upgrader is shared by all upgrade requests, so the subprotocols go into a copy of it
+		// (upgrader 被所有升级请求共享，因此子协议设置在它的副本上)
+		upgrader := *s.upgrader
 		if len(r.Header.Get("Sec-Websocket-Protocol")) > 0 {
-			s.upgrader.Subprotocols = websocket.Subprotocols(r)
+			upgrader.Subprotocols = websocket.Subprotocols(r)
 		}
 		// 4. Upgrade the connection to a websocket connection
 		// (升级成 websocket 连接)
-		conn, err := s.upgrader.Upgrade(w, r, nil)
+		conn, err := upgrader.Upgrade(w, r, nil)
 		if err != nil {
 			zlog.Ins().ErrorF("new websocket err:%v", err)
 			w.WriteHeader(500)
-- 
2.43.0


From cf693493d47bc3d0599c1377d0b5ee2e069e16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:50 +0000
Subject: [PATCH 04/41] fix: a connection can be stopped, and used, before its
 Start has run

---
 znet/connection.go     |  5 ++++-
 znet/kcp_connection.go |  5 ++++-
 znet/ws_connection.go  | 11 +++++------
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 4973bea..cce58fd 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -135,6 +135,9 @@ func newServerConn(server ziface.IServer, conn net.Conn, connID uint64) ziface.I
 		localAddr:       conn.LocalAddr().String(),
 		remoteAddr:      conn.RemoteAddr().String(),
 	}
+	// Usable as soon as the connection can be reached, so that it may be stopped before it starts
+	// (连接可被访问时即可用，这样连接在启动之前也可以被停止)
+	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	lengthField := server.GetLengthField()
 	if lengthField != nil {
@@ -173,6 +176,7 @@ func newClientConn(client ziface.IClient, conn net.Conn) ziface.IConnection {
 		localAddr:       conn.LocalAddr().String(),
 		remoteAddr:      conn.RemoteAddr().String(),
 	}
+	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	lengthField := client.GetLengthField()
 	if lengthField != nil {
@@ -295,7 +299,6 @@ func (c *Connection) Start() {
 			zlog.Ins().ErrorF("Connection Start() error: %v", err)
 		}
 	}()
-	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index e42183e..0417abc 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -133,6 +133,9 @@ func newKcpServerConn(server ziface.IServer, conn *kcp.UDPSession, connID uint64
 		localAddr:   conn.LocalAddr().String(),
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
+	// Usable as soon as the connection can be reached, so that it may be stopped before it starts
+	// (连接可被访问时即可用，这样连接在启动之前也可以被停止)
+	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	lengthField := server.GetLengthField()
 	if lengthField != nil {
@@ -169,6 +172,7 @@ func newKcpClientConn(client ziface.IClient, conn *kcp.UDPSession) ziface.IConne
 		localAddr:   conn.LocalAddr().String(),
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
+	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	lengthField := client.GetLengthField()
 	if lengthField != nil {
@@ -280,7 +284,6 @@ func (c *KcpConnection) Start() {
 			zlog.Ins().ErrorF("Connection Start() error: %v", err)
 		}
 	}()
-	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 12babfb..faca1f3 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -119,7 +119,6 @@ type WsConnection struct {
 func newWebsocketConn(server ziface.IServer, conn *websocket.Conn, connID uint64, r *http.Request) ziface.IConnection {
 	// Initialize Conn properties (初始化Conn属性)
 	c := &WsConnection{
-		ctx:         context.WithValue(context.Background(), WsConnectionHttpReqCtxKey{}, r.Context()), // websocketAuth可以在上下文中传递特殊的参数或信息;比如鉴权后，设置一些用户信息或房间id
 		conn:        conn,
 		connID:      connID,
 		connIdStr:   strconv.FormatUint(connID, 10),
@@ -130,6 +129,10 @@ func newWebsocketConn(server ziface.IServer, conn *websocket.Conn, connID uint64
 		localAddr:   conn.LocalAddr().String(),
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
+	// Usable as soon as the connection can be reached, so that it may be stopped before it starts
+	// (连接可被访问时即可用，这样连接在启动之前也可以被停止)
+	ctx := context.WithValue(context.Background(), WsConnectionHttpReqCtxKey{}, r.Context()) // websocketAuth可以在上下文中传递特殊的参数或信息;比如鉴权后，设置一些用户信息或房间id
+	c.ctx, c.cancel = context.WithCancel(ctx)
 
 	lengthField := server.GetLengthField()
 	if lengthField != nil {
@@ -165,6 +168,7 @@ func newWsClientConn(client ziface.IClient, conn *websocket.Conn) ziface.IConnec
 		localAddr:   conn.LocalAddr().String(),
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
+	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	lengthField := client.GetLengthField()
 	if lengthField != nil {
@@ -274,11 +278,6 @@ func (c *WsConnection) StartReader() {
 // Start starts the connection and makes it work.
 // (Start 启动连接，让当前连接开始工作)
 func (c *WsConnection) Start() {
-	ctx := c.ctx
-	if ctx == nil {
-		ctx = context.Background()
-	}
-	c.ctx, c.cancel = context.WithCancel(ctx)
 	// Execute the hook method according to the business needs of creating the connection passed in by the user.
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
-- 
2.43.0


From 20b52e28b44e0f2a996fe318f521881d399693a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:56 +0000
Subject: [PATCH 05/41] fix: synchronise the last activity time and set it
 before the heartbeat starts

---
 znet/connection.go     |  9 +++++----
 znet/kcp_connection.go |  9 +++++----
 znet/ws_connection.go  | 10 ++++++----
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index cce58fd..0165883 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -89,7 +89,7 @@ type Connection struct {
 
 	// Last activity time
 	// (最后一次活动时间)
-	lastActivityTime time.Time
+	lastActivityTime atomic.Value // time.Time, written by the reader and read by the heartbeat
 
 	// Framedecoder for solving fragmentation and packet sticking problems
 	// (断粘包解码器)
@@ -306,8 +306,8 @@ func (c *Connection) Start() {
 
 	// Start heartbeating detection
 	if c.hc != nil {
-		c.hc.Start()
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// 占用workerid
@@ -550,11 +550,12 @@ func (c *Connection) IsAlive() bool {
 	// Check the last activity time of the connection. If it's beyond the heartbeat interval,
 	// then the connection is considered dead.
 	// (检查连接最后一次活动时间，如果超过心跳间隔，则认为连接已经死亡)
-	return time.Now().Sub(c.lastActivityTime) < zconf.GlobalObject.HeartbeatMaxDuration()
+	lastActivityTime, _ := c.lastActivityTime.Load().(time.Time)
+	return time.Now().Sub(lastActivityTime) < zconf.GlobalObject.HeartbeatMaxDuration()
 }
 
 func (c *Connection) updateActivity() {
-	c.lastActivityTime = time.Now()
+	c.lastActivityTime.Store(time.Now())
 }
 
 func (c *Connection) SetHeartBeat(checker ziface.IHeartbeatChecker) {
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 0417abc..4bfc9b0 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -90,7 +90,7 @@ type KcpConnection struct {
 
 	// Last activity time
 	// (最后一次活动时间)
-	lastActivityTime time.Time
+	lastActivityTime atomic.Value // time.Time, written by the reader and read by the heartbeat
 
 	// Framedecoder for solving fragmentation and packet sticking problems
 	// (断粘包解码器)
@@ -291,8 +291,8 @@ func (c *KcpConnection) Start() {
 
 	// Start heartbeating detection
 	if c.hc != nil {
-		c.hc.Start()
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// 占用workerid
@@ -556,11 +556,12 @@ func (c *KcpConnection) IsAlive() bool {
 	// Check the last activity time of the connection. If it's beyond the heartbeat interval,
 	// then the connection is considered dead.
 	// (检查连接最后一次活动时间，如果超过心跳间隔，则认为连接已经死亡)
-	return time.Now().Sub(c.lastActivityTime) < zconf.GlobalObject.HeartbeatMaxDuration()
+	lastActivityTime, _ := c.lastActivityTime.Load().(time.Time)
+	return time.Now().Sub(lastActivityTime) < zconf.GlobalObject.HeartbeatMaxDuration()
 }
 
 func (c *KcpConnection) updateActivity() {
-	c.lastActivityTime = time.Now()
+	c.lastActivityTime.Store(time.Now())
 }
 
 func (c *KcpConnection) SetHeartBeat(checker ziface.IHeartbeatChecker) {
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index faca1f3..72b7b59 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -8,6 +8,7 @@ import (
 	"net/http"
 	"strconv"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/aceld/zinx/zconf"
@@ -86,7 +87,7 @@ type WsConnection struct {
 
 	// lastActivityTime is the last time the connection was active.
 	// (最后一次活动时间)
-	lastActivityTime time.Time
+	lastActivityTime atomic.Value // time.Time, written by the reader and read by the heartbeat
 
 	// frameDecoder is the decoder for splitting or splicing data packets.
 	// (断粘包解码器)
@@ -285,8 +286,8 @@ func (c *WsConnection) Start() {
 	// Start the heartbeat check
 	// (启动心跳检测)
 	if c.hc != nil {
-		c.hc.Start()
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// 占用workerid
@@ -566,11 +567,12 @@ func (c *WsConnection) IsAlive() bool {
 	// Check the time duration since the last activity of the connection, if it exceeds the maximum heartbeat interval,
 	// then the connection is considered dead
 	// (检查连接最后一次活动时间，如果超过心跳间隔，则认为连接已经死亡)
-	return time.Now().Sub(c.lastActivityTime) < zconf.GlobalObject.HeartbeatMaxDuration()
+	lastActivityTime, _ := c.lastActivityTime.Load().(time.Time)
+	return time.Now().Sub(lastActivityTime) < zconf.GlobalObject.HeartbeatMaxDuration()
 }
 
 func (c *WsConnection) updateActivity() {
-	c.lastActivityTime = time.Now()
+	c.lastActivityTime.Store(time.Now())
 }
 
 func (c *WsConnection) SetHeartBeat(checker ziface.IHeartbeatChecker) {
-- 
2.43.0


From 3ab44ea64106f86c81ccf91c61960751e7d7a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:26 +0000
Subject: [PATCH 06/41] fix: read the websocket connection's closed state
 without racing its finalizer

---
 znet/ws_connection.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 72b7b59..2c645bf 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -561,7 +561,7 @@ func (c *WsConnection) callOnConnStop() {
 }
 
 func (c *WsConnection) IsAlive() bool {
-	if c.isClosed {
+	if c.ctx.Err() != nil {
 		return false
 	}
 	// Check the time duration since the last activity of the connection, if it exceeds the maximum heartbeat interval,
@@ -596,7 +596,7 @@ func (c *WsConnection) GetMsgHandler() ziface.IMsgHandle {
 }
 
 func (s *WsConnection) AddCloseCallback(handler, key interface{}, f func()) {
-	if s.isClosed {
+	if s.ctx.Err() != nil {
 		return
 	}
 	s.closeCallbackMutex.Lock()
@@ -605,7 +605,7 @@ func (s *WsConnection) AddCloseCallback(handler, key interface{}, f func()) {
 }
 
 func (s *WsConnection) RemoveCloseCallback(handler, key interface{}) {
-	if s.isClosed {
+	if s.ctx.Err() != nil {
 		return
 	}
 	s.closeCallbackMutex.Lock()
-- 
2.43.0


From 8bd4badd702fdf9ee6349b163dca6cdc69b66fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:32 +0000
Subject: [PATCH 07/41] fix: a panic while reading from or starting a websocket
 connection does not end the process

---
 znet/ws_connection.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 2c645bf..c62e952 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -216,6 +216,11 @@ func (c *WsConnection) StartReader() {
 	zlog.Ins().InfoF("[Reader Goroutine is running]")
 	defer zlog.Ins().InfoF("%s [conn Reader exit!]", c.RemoteAddr().String())
 	defer c.Stop()
+	defer func() {
+		if err := recover(); err != nil {
+			zlog.Ins().ErrorF("connID=%d, panic err=%v", c.GetConnID(), err)
+		}
+	}()
 
 	// Create a pack-unpack object. (创建拆包解包的对象)
 	for {
@@ -279,6 +284,12 @@ func (c *WsConnection) StartReader() {
 // Start starts the connection and makes it work.
 // (Start 启动连接，让当前连接开始工作)
 func (c *WsConnection) Start() {
+	defer func() {
+		if err := recover(); err != nil {
+			zlog.Ins().ErrorF("Connection Start() error: %v", err)
+		}
+	}()
+
 	// Execute the hook method according to the business needs of creating the connection passed in by the user.
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
-- 
2.43.0


From 71ee37823e763331dca21f8a06caacab14aab52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:37 +0000
Subject: [PATCH 08/41] fix: without a frame decoder, do not hand the reused
 read buffer to asynchronous handlers

---
 znet/connection.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/znet/connection.go b/znet/connection.go
index 0165883..df07e6c 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -281,7 +281,11 @@ func (c *Connection) StartReader() {
 					c.msgHandler.Execute(req)
 				}
 			} else {
-				msg := zpack.NewMessage(uint32(n), buffer[0:n])
+				// The message outlives this read, the buffer does not
+				// (消息的生命周期长于本次读取，而buffer会被复用)
+				data := make([]byte, n)
+				copy(data, buffer[0:n])
+				msg := zpack.NewMessage(uint32(n), data)
 				// Get the current client's Request data
 				// (得到当前客户端请求的Request数据)
 				req := GetRequest(c, msg)
-- 
2.43.0


From 7a29b2ab1b25ca0d5e71b44d45dd764246e44040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:01 +0000
Subject: [PATCH 09/41] fix: buffered sends create their queue once and never
 use a closed one

---
 znet/connection.go     | 18 +++++-------------
 znet/kcp_connection.go | 27 +++++++--------------------
 2 files changed, 12 insertions(+), 33 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index df07e6c..a934594 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -59,9 +59,9 @@ type Connection struct {
 	// (有缓冲管道，用于读、写两个goroutine之间的消息通信)
 	msgBuffChan chan []byte
 
-	// Go StartWriter Flag
-	// (开始初始化写协程标志)
-	startWriterFlag int32
+	// Creates msgBuffChan and starts the writer once
+	// (只创建一次msgBuffChan并启动写协程)
+	startWriterOnce sync.Once
 
 	// Connection properties
 	// (连接属性)
@@ -128,7 +128,6 @@ func newServerConn(server ziface.IServer, conn net.Conn, connID uint64) ziface.I
 		bufWriter:       bufio.NewWriterSize(conn, 16*1024),
 		connID:          connID,
 		connIdStr:       strconv.FormatUint(connID, 10),
-		startWriterFlag: 0,
 		msgBuffChan:     nil,
 		property:        nil,
 		name:            server.ServerName(),
@@ -169,7 +168,6 @@ func newClientConn(client ziface.IClient, conn net.Conn) ziface.IConnection {
 		bufWriter:       bufio.NewWriterSize(conn, 16*1024),
 		connID:          0,  // client ignore
 		connIdStr:       "", // client ignore
-		startWriterFlag: 0,
 		msgBuffChan:     nil,
 		property:        nil,
 		name:            client.GetName(),
@@ -403,14 +401,14 @@ func (c *Connection) SendBuf(data []byte) error {
 
 func (c *Connection) SendToQueue(data []byte) error {
 
-	if c.msgBuffChan == nil && c.setStartWriterFlag() {
+	c.startWriterOnce.Do(func() {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
 		// Start a Goroutine to write data back to the client
 		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
 		// (开启用于写回客户端数据流程的Goroutine
 		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
 		go c.StartWriter()
-	}
+	})
 
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
@@ -427,8 +425,6 @@ func (c *Connection) SendToQueue(data []byte) error {
 	// Send timeout
 	select {
 	case <-c.ctx.Done():
-		// Close all channels associated with the connection
-		close(c.msgBuffChan)
 		return errors.New("connection closed when send buff msg")
 	case <-idleTimeout.C:
 		return errors.New("send buff msg timeout")
@@ -586,10 +582,6 @@ func (c *Connection) isClosed() bool {
 	return c.ctx == nil || c.ctx.Err() != nil
 }
 
-func (c *Connection) setStartWriterFlag() bool {
-	return atomic.CompareAndSwapInt32(&c.startWriterFlag, 0, 1)
-}
-
 func (s *Connection) AddCloseCallback(handler, key interface{}, f func()) {
 	if s.isClosed() {
 		return
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 4bfc9b0..979d2a2 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -56,6 +56,10 @@ type KcpConnection struct {
 	// (有缓冲管道，用于读、写两个goroutine之间的消息通信)
 	msgBuffChan chan []byte
 
+	// Creates msgBuffChan and starts the writer once
+	// (只创建一次msgBuffChan并启动写协程)
+	startWriterOnce sync.Once
+
 	// Lock for user message reception and transmission
 	// (用户收发消息的Lock)
 	msgLock sync.RWMutex
@@ -371,14 +375,14 @@ func (c *KcpConnection) SendToQueue(data []byte) error {
 	c.msgLock.RLock()
 	defer c.msgLock.RUnlock()
 
-	if c.msgBuffChan == nil {
+	c.startWriterOnce.Do(func() {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
 		// Start a Goroutine to write data back to the client
 		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
 		// (开启用于写回客户端数据流程的Goroutine
 		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
 		go c.StartWriter()
-	}
+	})
 
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
@@ -427,17 +431,6 @@ func (c *KcpConnection) SendBuffMsg(msgID uint32, data []byte) error {
 	if c.isClosed() {
 		return errors.New("connection closed when send buff msg")
 	}
-	if c.msgBuffChan == nil {
-		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
-		// Start a Goroutine to write data back to the client
-		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
-		// (开启用于写回客户端数据流程的Goroutine
-		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
-		go c.StartWriter()
-	}
-
-	idleTimeout := time.NewTimer(5 * time.Millisecond)
-	defer idleTimeout.Stop()
 
 	msg, err := c.packet.Pack(zpack.NewMsgPackage(msgID, data))
 	if err != nil {
@@ -445,13 +438,7 @@ func (c *KcpConnection) SendBuffMsg(msgID uint32, data []byte) error {
 		return errors.New("Pack error msg ")
 	}
 
-	// send timeout
-	select {
-	case <-idleTimeout.C:
-		return errors.New("send buff msg timeout")
-	case c.msgBuffChan <- msg:
-		return nil
-	}
+	return c.SendToQueue(msg)
 }
 
 func (c *KcpConnection) SetProperty(key string, value interface{}) {
-- 
2.43.0


From 24c6277f3f74c82708b7a296b8859d6b71d3b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:01 +0000
Subject: [PATCH 10/41] fix: buffered and direct sends on one TCP connection
 never interleave inside a message

---
 znet/connection.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/znet/connection.go b/znet/connection.go
index a934594..f5bf703 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -391,6 +391,15 @@ func (c *Connection) SendBuf(data []byte) error {
 	if c.isClosed() == true {
 		return errors.New("connection closed when send msg")
 	}
+	// Flush a buffer the data does not fit in as a whole, so that a message is never split over
+	// two writes to the socket, between which a direct Send could get in
+	// (缓冲放不下整条数据时先flush，保证一条消息不会被拆成两次写，避免与直接Send的数据交叉)
+	if len(data) > c.bufWriter.Available() {
+		if err := c.bufWriter.Flush(); err != nil {
+			zlog.Ins().ErrorF("SendMsg err data = %+v, err = %+v", data, err)
+			return err
+		}
+	}
 	_, err := c.bufWriter.Write(data)
 	if err != nil {
 		zlog.Ins().ErrorF("SendMsg err data = %+v, err = %+v", data, err)
-- 
2.43.0


From 351174cb65c349c11001fe0cc43d733ae9f476ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:01 +0000
Subject: [PATCH 11/41] fix: closing a connection does not wait for a peer that
 stopped reading, or for its own heartbeat

---
 znet/connection.go     |  6 +++---
 znet/kcp_connection.go | 11 ++++++-----
 znet/ws_connection.go  | 20 ++++++++++----------
 3 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index f5bf703..ccd277f 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -512,14 +512,14 @@ func (c *Connection) finalizer() {
 	// (如果用户注册了该连接的	关闭回调业务，那么在此刻应该显示调用)
 	c.callOnConnStop()
 
+	// Close the socket connection, this also ends a write that the peer keeps waiting
+	_ = c.conn.Close()
+
 	// Stop the heartbeat detector associated with the connection
 	if c.hc != nil {
 		c.hc.Stop()
 	}
 
-	// Close the socket connection
-	_ = c.conn.Close()
-
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
 		c.connManager.Remove(c)
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 979d2a2..1b930c9 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -488,16 +488,17 @@ func (c *KcpConnection) finalizer() {
 	//(如果用户注册了该连接的	关闭回调业务，那么在此刻应该显示调用)
 	c.callOnConnStop()
 
-	c.msgLock.Lock()
-	defer c.msgLock.Unlock()
+	// Close the socket connection, this also ends a write that the peer keeps waiting
+	_ = c.conn.Close()
 
-	// Stop the heartbeat detector associated with the connection
+	// Stop the heartbeat detector associated with the connection, it may be sending right now
 	if c.hc != nil {
 		c.hc.Stop()
 	}
 
-	// Close the socket connection
-	_ = c.conn.Close()
+	c.msgLock.Lock()
+	defer c.msgLock.Unlock()
+
 
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index c62e952..81ca876 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -510,6 +510,16 @@ func (c *WsConnection) finalizer() {
 	// (如果用户注册了该连接的	关闭回调业务，那么在此刻应该显示调用)
 	c.callOnConnStop()
 
+	// Close the socket connection, this also ends a write that the peer keeps waiting.
+	// (关闭socket连接，这也会结束被对端阻塞的写操作)
+	_ = c.conn.Close()
+
+	// Stop the heartbeat detector bound to the connection, it may be sending right now.
+	// (关闭连接绑定的心跳检测器，它此刻可能正在发送)
+	if c.hc != nil {
+		c.hc.Stop()
+	}
+
 	c.msgLock.Lock()
 	defer c.msgLock.Unlock()
 
@@ -519,16 +529,6 @@ func (c *WsConnection) finalizer() {
 		return
 	}
 
-	// Stop the heartbeat detector bound to the connection.
-	// (关闭连接绑定的心跳检测器)
-	if c.hc != nil {
-		c.hc.Stop()
-	}
-
-	// Close the socket connection.
-	// (关闭socket连接)
-	_ = c.conn.Close()
-
 	// Remove the connection from the connection manager.
 	// (将连接从连接管理器中删除)
 	if c.connManager != nil {
-- 
2.43.0


From 68786d15d57bfec090f945d0693861e45f2e2f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:25 +0000
Subject: [PATCH 12/41] fix: in DynamicBind mode an extra worker is bound to
 one connection only

---
 znet/msghandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 9d11558..a6dba5e 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -194,6 +194,7 @@ func useWorker(conn ziface.IConnection) uint32 {
 		defer mh.extraFreeWorkerMu.Unlock()
 		for workerID := range mh.extraFreeWorkers {
 			zlog.Ins().DebugF("start extra worker, workerID=%d", workerID)
+			delete(mh.extraFreeWorkers, workerID)
 			mh.TaskQueue[workerID] = make(chan ziface.IRequest, zconf.GlobalObject.MaxWorkerTaskLen)
 			go mh.StartOneWorker(int(workerID), mh.TaskQueue[workerID])
 			return workerID
-- 
2.43.0


From edbb752510ff5cff3d5fc9ca66904b0ddc7f814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:25 +0000
Subject: [PATCH 13/41] fix: a client, which runs no workers, does not bind or
 stop one

---
 znet/msghandler.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index a6dba5e..0769e50 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -168,6 +168,12 @@ func useWorker(conn ziface.IConnection) uint32 {
 		return 0
 	}
 
+	// A client runs no workers, there is none to bind
+	// (client没有worker，无需绑定)
+	if mh.WorkerPoolSize == 0 {
+		return 0
+	}
+
 	if zconf.GlobalObject.WorkerMode == zconf.WorkerModeBind {
 		mh.freeWorkerMu.Lock()
 		defer mh.freeWorkerMu.Unlock()
@@ -226,6 +232,10 @@ func freeWorker(conn ziface.IConnection) {
 		return
 	}
 
+	if mh.WorkerPoolSize == 0 {
+		return
+	}
+
 	if zconf.GlobalObject.WorkerMode == zconf.WorkerModeBind {
 		mh.freeWorkerMu.Lock()
 		defer mh.freeWorkerMu.Unlock()
-- 
2.43.0


From 2dc0e8538b1c45c16a56f6c81a1d26302f49cb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:09 +0000
Subject: [PATCH 14/41] fix: log a request before queueing it, and do not wait
 for a full queue once its connection is closed

---
 znet/msghandler.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 0769e50..4f24882 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -310,9 +310,23 @@ func (mh *MsgHandle) AddInterceptor(interceptor ziface.IInterceptor) {
 func (mh *MsgHandle) SendMsgToTaskQueue(request ziface.IRequest) {
 	workerID := request.GetConnection().GetWorkerID()
 	// zlog.Ins().DebugF("Add ConnID=%d request msgID=%d to workerID=%d", request.GetConnection().GetConnID(), request.GetMsgID(), workerID)
-	// Send the request message to the task queue
-	mh.TaskQueue[workerID] <- request
+	// Logged first, the worker recycles the request as soon as it has handled it
 	zlog.Ins().DebugF("SendMsgToTaskQueue-->%s", hex.EncodeToString(request.GetData()))
+	// Send the request message to the task queue
+	if _, ok := request.(ziface.IFuncRequest); ok {
+		mh.TaskQueue[workerID] <- request
+		return
+	}
+	// The reader of a closed connection must not wait for a full queue, it would keep the connection's worker
+	// (已关闭连接的读协程不能因队列已满而一直等待)
+	select {
+	case mh.TaskQueue[workerID] <- request:
+	default:
+		select {
+		case mh.TaskQueue[workerID] <- request:
+		case <-request.GetConnection().Context().Done():
+		}
+	}
 }
 
 // doFuncHandler handles functional requests (执行函数式请求)
-- 
2.43.0


From d5ff188e2f80f3fb9b8f019a4a9b96d85a7e8ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:09 +0000
Subject: [PATCH 15/41] fix: give a worker back only after the connection's
 reader has stopped using it, and before the connection gives up its place

---
 znet/connection.go     | 17 +++++++++++++----
 znet/kcp_connection.go | 18 +++++++++++++-----
 znet/ws_connection.go  | 17 +++++++++++++----
 3 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index ccd277f..7a6496a 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -46,6 +46,10 @@ type Connection struct {
 	// 负责处理该连接的workerid
 	workerID uint32
 
+	// Closed when the reader has exited
+	// (读协程退出时关闭)
+	readerDone chan struct{}
+
 	// The message management module that manages MsgID and the corresponding processing method
 	// (消息管理MsgID和对应处理方法的消息管理模块)
 	msgHandler ziface.IMsgHandle
@@ -317,14 +321,15 @@ func (c *Connection) Start() {
 
 	// Start the Goroutine for reading data from the client
 	// (开启用户从客户端读取数据流程的Goroutine)
-	go c.StartReader()
+	c.readerDone = make(chan struct{})
+	go func() {
+		defer close(c.readerDone)
+		c.StartReader()
+	}()
 
 	select {
 	case <-c.ctx.Done():
 		c.finalizer()
-
-		// 归还workerid
-		freeWorker(c)
 		return
 	}
 }
@@ -520,6 +525,10 @@ func (c *Connection) finalizer() {
 		c.hc.Stop()
 	}
 
+	// 归还workerid: once the reader can not use it any more, and before the connection gives up its place
+	<-c.readerDone
+	freeWorker(c)
+
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
 		c.connManager.Remove(c)
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 1b930c9..766dbb8 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -43,6 +43,10 @@ type KcpConnection struct {
 	// 负责处理该连接的workerid
 	workerID uint32
 
+	// Closed when the reader has exited
+	// (读协程退出时关闭)
+	readerDone chan struct{}
+
 	// The message management module that manages MsgID and the corresponding processing method
 	// (消息管理MsgID和对应处理方法的消息管理模块)
 	msgHandler ziface.IMsgHandle
@@ -304,14 +308,15 @@ func (c *KcpConnection) Start() {
 
 	// Start the Goroutine for reading data from the client
 	// (开启用户从客户端读取数据流程的Goroutine)
-	go c.StartReader()
+	c.readerDone = make(chan struct{})
+	go func() {
+		defer close(c.readerDone)
+		c.StartReader()
+	}()
 
 	select {
 	case <-c.ctx.Done():
 		c.finalizer()
-
-		// 归还workerid
-		freeWorker(c)
 		return
 	}
 }
@@ -496,10 +501,13 @@ func (c *KcpConnection) finalizer() {
 		c.hc.Stop()
 	}
 
+	// 归还workerid: once the reader can not use it any more, and before the connection gives up its place
+	<-c.readerDone
+	freeWorker(c)
+
 	c.msgLock.Lock()
 	defer c.msgLock.Unlock()
 
-
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
 		c.connManager.Remove(c)
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 81ca876..df895b5 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -44,6 +44,10 @@ type WsConnection struct {
 	// 负责处理该连接的workerid
 	workerID uint32
 
+	// Closed when the reader has exited
+	// (读协程退出时关闭)
+	readerDone chan struct{}
+
 	// msgHandler is the message management module for MsgID and the corresponding message handling method.
 	// (消息管理MsgID和对应处理方法的消息管理模块)
 	msgHandler ziface.IMsgHandle
@@ -306,14 +310,15 @@ func (c *WsConnection) Start() {
 
 	// Start the Goroutine for users to read data from the client.
 	// (开启用户从客户端读取数据流程的Goroutine)
-	go c.StartReader()
+	c.readerDone = make(chan struct{})
+	go func() {
+		defer close(c.readerDone)
+		c.StartReader()
+	}()
 
 	select {
 	case <-c.ctx.Done():
 		c.finalizer()
-
-		// 归还workerid
-		freeWorker(c)
 		return
 	}
 }
@@ -520,6 +525,10 @@ func (c *WsConnection) finalizer() {
 		c.hc.Stop()
 	}
 
+	// 归还workerid: once the reader can not use it any more, and before the connection gives up its place
+	<-c.readerDone
+	freeWorker(c)
+
 	c.msgLock.Lock()
 	defer c.msgLock.Unlock()
 
-- 
2.43.0


From 8b5a7136392568e9c3c242d9bd4714f096849a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:27 +0000
Subject: [PATCH 16/41] fix: a route may have more than 127 handlers

---
 znet/request.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/znet/request.go b/znet/request.go
index 6b6e474..5b47f27 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -36,7 +36,7 @@ type Request struct {
 	needNext bool                   // whether to execute the next router function(是否需要执行下一个路由函数)
 	icResp   ziface.IcResp          // response data returned by the interceptors (拦截器返回数据)
 	handlers []ziface.RouterHandler // router function slice(路由函数切片)
-	index    int8                   // router function slice index(路由函数切片索引)
+	index    int                    // router function slice index(路由函数切片索引)
 	keys     map[string]interface{} // keys 路由处理时可能会存取的上下文信息
 }
 
@@ -110,7 +110,7 @@ func (r *Request) Copy() ziface.IRequest {
 		needNext: false,
 		icResp:   nil,
 		handlers: nil,
-		index:    math.MaxInt8,
+		index:    math.MaxInt32,
 	}
 
 	// 复制原本的上下文信息
@@ -213,7 +213,7 @@ func (r *Request) Call() {
 
 func (r *Request) Abort() {
 	if zconf.GlobalObject.RouterSlicesMode {
-		r.index = int8(len(r.handlers))
+		r.index = len(r.handlers)
 	} else {
 		r.stepLock.Lock()
 		r.steps = HANDLE_OVER
@@ -228,7 +228,7 @@ func (r *Request) BindRouterSlices(handlers []ziface.RouterHandler) {
 
 func (r *Request) RouterSlicesNext() {
 	r.index++
-	for r.index < int8(len(r.handlers)) {
+	for r.index < len(r.handlers) {
 		r.handlers[r.index](r)
 		r.index++
 	}
-- 
2.43.0


From 8e9750747e99d572689596831bf70011ef6459ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:27 +0000
Subject: [PATCH 17/41] fix: a recycled request carries no response or route of
 the message before it

---
 znet/request.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/znet/request.go b/znet/request.go
index 5b47f27..b853ee9 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -94,7 +94,9 @@ func (r *Request) Reset(conn ziface.IConnection, msg ziface.IMessage) {
 	r.needNext = true
 	r.index = -1
 	r.keys = nil
-
+	r.icResp = nil
+	r.router = nil
+	r.handlers = nil
 }
 
 // Copy 在执行路由函数的时候可能会出现需要再起一个协程的需求,但是 Request 对象由对象池管理后无法保证新协程中的 Request 参数一致
-- 
2.43.0


From 59806bf4c7bda88296356722de1b039cebdeca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:28 +0000
Subject: [PATCH 18/41] fix: a copied request keeps the decoded data and the
 interceptors' response

---
 znet/request.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/znet/request.go b/znet/request.go
index b853ee9..67e00af 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -122,14 +122,10 @@ func (r *Request) Copy() ziface.IRequest {
 	}
 
 	// 复制一份原本的 icResp
-	copyResp := []ziface.IcResp{r.icResp}
-	newIcResp := make([]ziface.IcResp, 0, 1)
-	copy(newIcResp, copyResp)
-	for _, v := range newIcResp {
-		newRequest.icResp = v
-	}
+	newRequest.icResp = r.icResp
 	// 复制一份原本的 msg 信息
 	newRequest.msg = zpack.NewMessageByMsgId(r.msg.GetMsgID(), r.msg.GetDataLen(), r.msg.GetRawData())
+	newRequest.msg.SetData(r.msg.GetData())
 
 	return newRequest
 }
-- 
2.43.0


From b89b85e43f011d2a1af40b1f47d5269601f6d90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:28 +0000
Subject: [PATCH 19/41] fix: ranging over connections reports a callback's
 error and does not read their internals

---
 znet/connmanager.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/znet/connmanager.go b/znet/connmanager.go
index eb2fce2..e8eb2ce 100644
--- a/znet/connmanager.go
+++ b/znet/connmanager.go
@@ -101,9 +101,11 @@ func (connMgr *ConnManager) Range(cb func(uint64, ziface.IConnection, interface{
 	connMgr.connections.IterCb(func(key string, v interface{}) {
 		conn, _ := v.(ziface.IConnection)
 		connId, _ := strconv.ParseUint(key, 10, 64)
-		err = cb(connId, conn, args)
-		if err != nil {
-			zlog.Ins().InfoF("Range key: %v, v: %v, error: %v", key, v, err)
+		if cbErr := cb(connId, conn, args); cbErr != nil {
+			zlog.Ins().InfoF("Range key: %v, error: %v", key, cbErr)
+			if err == nil {
+				err = cbErr
+			}
 		}
 	})
 
@@ -115,9 +117,11 @@ func (connMgr *ConnManager) Range2(cb func(string, ziface.IConnection, interface
 
 	connMgr.connections.IterCb(func(key string, v interface{}) {
 		conn, _ := v.(ziface.IConnection)
-		err = cb(conn.GetConnIdStr(), conn, args)
-		if err != nil {
-			zlog.Ins().InfoF("Range2 key: %v, v: %v, error: %v", key, v, err)
+		if cbErr := cb(conn.GetConnIdStr(), conn, args); cbErr != nil {
+			zlog.Ins().InfoF("Range2 key: %v, error: %v", key, cbErr)
+			if err == nil {
+				err = cbErr
+			}
 		}
 	})
 
-- 
2.43.0


From 6ac4126619de48d709e069273cb7746e49d61ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:47 +0000
Subject: [PATCH 20/41] fix: a heartbeat that the peer does not read does not
 stop the aliveness check

---
 znet/heartbeat.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/znet/heartbeat.go b/znet/heartbeat.go
index b625b60..f19a2f8 100644
--- a/znet/heartbeat.go
+++ b/znet/heartbeat.go
@@ -2,6 +2,7 @@ package znet
 
 import (
 	"fmt"
+	"sync/atomic"
 	"time"
 
 	"github.com/aceld/zinx/ziface"
@@ -21,6 +22,8 @@ type HeartbeatChecker struct {
 	routerSlices []ziface.RouterHandler //(用户自定义的心跳检测消息业务处理新路由)
 	conn         ziface.IConnection     // Bound connection(绑定的连接)
 
+	beating int32 // 1 while a heartbeat is being sent(正在发送心跳时为1)
+
 	beatFunc ziface.HeartBeatFunc // // User-defined heartbeat sending function(用户自定义心跳发送函数)
 }
 
@@ -145,15 +148,27 @@ func (h *HeartbeatChecker) check() (err error) {
 
 	if !h.conn.IsAlive() {
 		h.onRemoteNotAlive(h.conn)
-	} else {
-		if h.beatFunc != nil {
-			err = h.beatFunc(h.conn)
-		} else {
-			err = h.SendHeartBeatMsg()
-		}
+		return nil
+	}
+
+	// A peer that stopped reading blocks the beat, which must not keep the checker from noticing it
+	// (对端停止读取会阻塞心跳发送，但不能因此影响存活检测)
+	if !atomic.CompareAndSwapInt32(&h.beating, 0, 1) {
+		return nil
 	}
+	go func() {
+		defer atomic.StoreInt32(&h.beating, 0)
+		_ = h.beat()
+	}()
 
-	return err
+	return nil
+}
+
+func (h *HeartbeatChecker) beat() error {
+	if h.beatFunc != nil {
+		return h.beatFunc(h.conn)
+	}
+	return h.SendHeartBeatMsg()
 }
 
 func (h *HeartbeatChecker) BindConn(conn ziface.IConnection) {
-- 
2.43.0


From 14afc5aca6ae4b20985821bd4e235b5870f4fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:22 +0000
Subject: [PATCH 21/41] fix: stopping a server closes all of its listeners,
 whatever the mode, and every connection

---
 znet/server.go | 62 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 9 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index cb56d0f..3c0c90f 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -9,6 +9,7 @@ import (
 	"net/http"
 	"os"
 	"os/signal"
+	"sync"
 	"sync/atomic"
 	"syscall"
 	"time"
@@ -71,6 +72,10 @@ type Server struct {
 	// (异步捕获连接关闭状态)
 	exitChan chan struct{}
 
+	// Listeners that have not exited yet
+	// (尚未退出的监听协程)
+	listeners sync.WaitGroup
+
 	// Decoder for dealing with message fragmentation and reassembly
 	// (断粘包解码器)
 	decoder ziface.IDecoder
@@ -231,6 +236,12 @@ func (s *Server) StartConn(conn ziface.IConnection) {
 		heartBeatChecker.BindConn(conn)
 	}
 
+	// A connection that was being accepted while the server stopped does not outlive it
+	// (服务停止时正在接入的连接不应继续存活)
+	if s.stopping() {
+		conn.Stop()
+	}
+
 	// Start processing business for the current connection
 	conn.Start()
 }
@@ -360,8 +371,13 @@ func (s *Server) ListenWebsocketConn() {
 
 	})
 
-	err := http.ListenAndServe(fmt.Sprintf("%s:%d", s.IP, s.WsPort), nil)
-	if err != nil {
+	httpServer := &http.Server{Addr: fmt.Sprintf("%s:%d", s.IP, s.WsPort)}
+	go func() {
+		<-s.exitChan
+		_ = httpServer.Close()
+	}()
+	err := httpServer.ListenAndServe()
+	if err != nil && err != http.ErrServerClosed {
 		panic(err)
 	}
 }
@@ -390,6 +406,10 @@ func (s *Server) ListenKcpConn() {
 			// (阻塞等待客户端建立连接请求)
 			conn, err := listener.Accept()
 			if err != nil {
+				if s.stopping() {
+					zlog.Ins().ErrorF("KCP listener closed")
+					return
+				}
 				zlog.Ins().ErrorF("Accept KCP err: %v", err)
 				AcceptDelay.Delay()
 				continue
@@ -439,27 +459,51 @@ func (s *Server) Start() {
 	// (开启一个go去做服务端Listener业务)
 	switch zconf.GlobalObject.Mode {
 	case zconf.ServerModeTcp:
-		go s.ListenTcpConn()
+		s.goListen(s.ListenTcpConn)
 	case zconf.ServerModeWebsocket:
-		go s.ListenWebsocketConn()
+		s.goListen(s.ListenWebsocketConn)
 	case zconf.ServerModeKcp:
-		go s.ListenKcpConn()
+		s.goListen(s.ListenKcpConn)
 	default:
-		go s.ListenTcpConn()
-		go s.ListenWebsocketConn()
+		s.goListen(s.ListenTcpConn)
+		s.goListen(s.ListenWebsocketConn)
 	}
 
 }
 
+func (s *Server) goListen(listen func()) {
+	s.listeners.Add(1)
+	go func() {
+		defer s.listeners.Done()
+		listen()
+	}()
+}
+
+// stopping reports whether Stop has been called
+// (是否已调用Stop)
+func (s *Server) stopping() bool {
+	select {
+	case <-s.exitChan:
+		return true
+	default:
+		return false
+	}
+}
+
 // Stop stops the server (停止服务)
 func (s *Server) Stop() {
 	zlog.Ins().InfoF("[STOP] Zinx server , name %s", s.Name)
 
+	// Tell every listener to exit and wait until they have, so that no connection is accepted any more
+	// (通知所有监听协程退出并等待，之后不再接受新的连接)
+	if s.exitChan != nil {
+		close(s.exitChan)
+		s.listeners.Wait()
+	}
+
 	// Clear other connection information or other information that needs to be cleaned up
 	// (将其他需要清理的连接信息或者其他信息 也要一并停止或者清理)
 	s.ConnMgr.ClearConn()
-	s.exitChan <- struct{}{}
-	close(s.exitChan)
 }
 
 // Serve runs the server (运行服务)
-- 
2.43.0


From eb3a28d5d7cf1a78418654734ff0f9a64c3f1571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:22 +0000
Subject: [PATCH 22/41] fix: concurrent websocket upgrades do not exceed
 MaxConn

---
 znet/server.go | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index 3c0c90f..5e541a9 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -94,6 +94,10 @@ type Server struct {
 
 	// connection id
 	cID uint64
+
+	// Makes checking MaxConn and adding a connection one step
+	// (检查MaxConn与添加连接为一个步骤)
+	admitLock sync.Mutex
 }
 
 type KcpConfig struct {
@@ -226,6 +230,20 @@ func NewUserConfDefaultRouterSlicesServer(config *zconf.Config, opts ...Option)
 	return s
 }
 
+// admit creates and registers a connection, or returns nil if the server has MaxConn of them already.
+// Websocket upgrades run concurrently with each other and with the TCP listener, so that the limit
+// holds only if checking it and registering the connection are one step.
+// (检查最大连接数与注册连接必须是一个原子步骤)
+func (s *Server) admit(newConn func(newCid uint64) ziface.IConnection) ziface.IConnection {
+	s.admitLock.Lock()
+	defer s.admitLock.Unlock()
+
+	if s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
+		return nil
+	}
+	return newConn(atomic.AddUint64(&s.cID, 1))
+}
+
 func (s *Server) StartConn(conn ziface.IConnection) {
 	// HeartBeat check
 	if s.hc != nil {
@@ -308,8 +326,14 @@ func (s *Server) ListenTcpConn() {
 
 			// 3.4 Handle the business method for this new connection request. At this time, the handler and conn should be bound.
 			// (处理该新连接请求的 业务 方法， 此时应该有 handler 和 conn是绑定的)
-			newCid := atomic.AddUint64(&s.cID, 1)
-			dealConn := newServerConn(s, conn, newCid)
+			dealConn := s.admit(func(newCid uint64) ziface.IConnection {
+				return newServerConn(s, conn, newCid)
+			})
+			if dealConn == nil {
+				zlog.Ins().InfoF("Exceeded the maxConnNum:%d, refuse %s", zconf.GlobalObject.MaxConn, conn.RemoteAddr())
+				_ = conn.Close()
+				continue
+			}
 
 			go s.StartConn(dealConn)
 
@@ -365,8 +389,14 @@ func (s *Server) ListenWebsocketConn() {
 		AcceptDelay.Reset()
 		// 5. Handle the business logic of the new connection, which should already be bound to a handler and conn
 		// 5. 处理该新连接请求的 业务 方法， 此时应该有 handler 和 conn是绑定的
-		newCid := atomic.AddUint64(&s.cID, 1)
-		wsConn := newWebsocketConn(s, conn, newCid, r)
+		wsConn := s.admit(func(newCid uint64) ziface.IConnection {
+			return newWebsocketConn(s, conn, newCid, r)
+		})
+		if wsConn == nil {
+			zlog.Ins().InfoF("Exceeded the maxConnNum:%d, refuse %s", zconf.GlobalObject.MaxConn, conn.RemoteAddr())
+			_ = conn.Close()
+			return
+		}
 		go s.StartConn(wsConn)
 
 	})
-- 
2.43.0


From e6839a252f40d3627ad09cf4e256cc571a0a19a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:22 +0000
Subject: [PATCH 23/41] fix: a restarted client does not share one heartbeat
 checker between two connections

---
 znet/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/znet/client.go b/znet/client.go
index 123857a..65ffb88 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -181,7 +181,9 @@ func (c *Client) Restart() {
 		if c.hc != nil {
 			// Bind connection and heartbeat detector after connection is successfully established
 			// (创建连接成功，绑定连接与心跳检测器)
-			c.hc.BindConn(connect)
+			// Each connection has a checker of its own: after Restart, the one before may still be running
+			// (每个连接使用各自的心跳检测器)
+			c.hc.Clone().BindConn(connect)
 		}
 
 		// Start connection
-- 
2.43.0


From 8da95e6f9a52f728292bc8c446492608a3209bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:23 +0000
Subject: [PATCH 24/41] fix: stopping a client never blocks or panics, and ends
 a connection attempt under way

---
 znet/client.go | 73 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 12 deletions(-)

diff --git a/znet/client.go b/znet/client.go
index 65ffb88..efedd6e 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -50,6 +50,9 @@ type Client struct {
 	dialer *websocket.Dialer
 	// Error channel
 	ErrChan chan error
+	// Keeps ErrChan open while an error is being reported 上报错误时保证ErrChan未关闭
+	errMux    sync.RWMutex
+	errClosed bool
 }
 
 func NewClient(ip string, port int, opts ...ClientOption) ziface.IClient {
@@ -113,7 +116,12 @@ func NewTLSClient(ip string, port int, opts ...ClientOption) ziface.IClient {
 // Start starts the client, sends requests and establishes a connection.
 // (重新启动客户端，发送请求且建立连接)
 func (c *Client) Restart() {
-	c.exitChan = make(chan struct{})
+	c.connMux.Lock()
+	if c.exitChan == nil {
+		c.exitChan = make(chan struct{})
+	}
+	exit := c.exitChan
+	c.connMux.Unlock()
 
 	go func() {
 
@@ -137,7 +145,7 @@ func (c *Client) Restart() {
 			if err != nil {
 				// connection failed
 				zlog.Ins().ErrorF("WsClient connect to server failed, err:%v", err)
-				c.ErrChan <- err
+				c.reportErr(exit, err)
 				return
 			}
 			// Create Connection object
@@ -157,7 +165,7 @@ func (c *Client) Restart() {
 				conn, err = tls.Dial("tcp", fmt.Sprintf("%v:%v", net.ParseIP(c.Ip), c.Port), config)
 				if err != nil {
 					zlog.Ins().ErrorF("tls client connect to server failed, err:%v", err)
-					c.ErrChan <- err
+					c.reportErr(exit, err)
 					return
 				}
 			} else {
@@ -165,7 +173,7 @@ func (c *Client) Restart() {
 				if err != nil {
 					// connection failed
 					zlog.Ins().ErrorF("client connect to server failed, err:%v", err)
-					c.ErrChan <- err
+					c.reportErr(exit, err)
 					return
 				}
 			}
@@ -173,8 +181,15 @@ func (c *Client) Restart() {
 			connect = newClientConn(c, conn)
 		}
 
-		// Set connection to the client
-		c.setConn(connect)
+		// Set connection to the client, unless it was stopped meanwhile
+		if !c.setConn(exit, connect) {
+			if ws := connect.GetWsConn(); ws != nil {
+				_ = ws.Close()
+			} else {
+				_ = connect.GetConnection().Close()
+			}
+			return
+		}
 
 		zlog.Ins().InfoF("[START] Zinx Client LocalAddr: %s, RemoteAddr: %s\n", connect.LocalAddr(), connect.RemoteAddr())
 		// HeartBeat detection
@@ -190,8 +205,9 @@ func (c *Client) Restart() {
 		go connect.Start()
 
 		select {
-		case <-c.exitChan:
+		case <-exit:
 			zlog.Ins().InfoF("client exit.")
+		case <-connect.Context().Done():
 		}
 	}()
 }
@@ -245,15 +261,42 @@ func (c *Client) StartHeartBeatWithOption(interval time.Duration, option *ziface
 	c.hc = checker
 }
 
+// reportErr hands a connection error to whoever reads ErrChan, until the client is stopped
+// (将连接错误交给ErrChan的读取者，直到client停止)
+func (c *Client) reportErr(exit chan struct{}, err error) {
+	c.errMux.RLock()
+	defer c.errMux.RUnlock()
+	if c.errClosed {
+		return
+	}
+	select {
+	case c.ErrChan <- err:
+	case <-exit:
+	}
+}
+
 func (c *Client) Stop() {
-	con := c.Conn()
+	c.connMux.Lock()
+	con, exit := c.conn, c.exitChan
+	c.exitChan = nil
+	if exit != nil {
+		// Ends a connection attempt that is still under way, too
+		// (同时结束仍在进行的连接)
+		close(exit)
+	}
+	c.connMux.Unlock()
+
 	if con != nil {
 		zlog.Ins().InfoF("[STOP] Zinx Client LocalAddr: %s, RemoteAddr: %s\n", con.LocalAddr(), con.RemoteAddr())
 		con.Stop()
 	}
-	c.exitChan <- struct{}{}
-	close(c.exitChan)
-	close(c.ErrChan)
+
+	c.errMux.Lock()
+	defer c.errMux.Unlock()
+	if !c.errClosed {
+		c.errClosed = true
+		close(c.ErrChan)
+	}
 }
 
 func (c *Client) AddRouter(msgID uint32, router ziface.IRouter) {
@@ -266,10 +309,16 @@ func (c *Client) Conn() ziface.IConnection {
 	return c.conn
 }
 
-func (c *Client) setConn(con ziface.IConnection) {
+func (c *Client) setConn(exit chan struct{}, con ziface.IConnection) bool {
 	c.connMux.Lock()
 	defer c.connMux.Unlock()
+	select {
+	case <-exit:
+		return false
+	default:
+	}
 	c.conn = con
+	return true
 }
 
 func (c *Client) SetOnConnStart(hookFunc func(ziface.IConnection)) {
-- 
2.43.0


From f165fa92a25bf703ea4ffbc2c0d3ee4b71358da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:15 +0000
Subject: [PATCH 25/41] fix: the HTLV+CRC decoder accepts a body of 255 bytes

---
 zdecoder/htlvcrcdecoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zdecoder/htlvcrcdecoder.go b/zdecoder/htlvcrcdecoder.go
index 09e39f0..eeaaa95 100644
--- a/zdecoder/htlvcrcdecoder.go
+++ b/zdecoder/htlvcrcdecoder.go
@@ -16,7 +16,7 @@
 // lengthFieldLength = 1 (len is 1 byte) The length of the length field in bytes
 // lengthAdjustment = 2 (len only represents the length of the Body, the program will only read len bytes and end, but there are still 2 bytes of CRC to read, so it's 2)
 // initialBytesToStrip = 0 (this 0 represents the complete protocol content. If you don't want A2, then it's 1) The number of bytes to strip from the decoding frame for the first time
-// maxFrameLength = 255 + 4 (starting code, function code, CRC) (len is 1 byte, so the maximum length is the maximum value of an unsigned byte plus 4 bytes)
+// maxFrameLength = 255 + 5 (starting code, function code, length, CRC) (len is 1 byte, so the maximum length is the maximum value of an unsigned byte plus 5 bytes)
 
 // [简体中文]
 //
@@ -38,7 +38,7 @@
 //   lengthFieldLength   = 1   (len是1个byte) 长度字段占的字节数
 //   lengthAdjustment    = 2   (len只表示Body长度，程序只会读取len个字节就结束，但是CRC还有2byte没读呢，所以为2)
 //   initialBytesToStrip = 0   (这个0表示完整的协议内容，如果不想要A2，那么这里就是1) 从解码帧中第一次去除的字节数
-//   maxFrameLength      = 255 + 4(起始码、功能码、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
+//   maxFrameLength      = 255 + 5(起始码、功能码、数据长度、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
 
 package zdecoder
 
@@ -79,9 +79,9 @@ func (hcd *HtlvCrcDecoder) GetLengthField() *ziface.LengthField {
 	//   lengthFieldLength   = 1   (len是1个byte) 长度字段占的字节数
 	//   lengthAdjustment    = 2   (len只表示Body长度，程序只会读取len个字节就结束，但是CRC还有2byte没读呢，所以为2)
 	//   initialBytesToStrip = 0   (这个0表示完整的协议内容，如果不想要A2，那么这里就是1) 从解码帧中第一次去除的字节数
-	//   maxFrameLength      = 255 + 4(起始码、功能码、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
+	//   maxFrameLength      = 255 + 5(起始码、功能码、数据长度、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
 	return &ziface.LengthField{
-		MaxFrameLength:      math.MaxUint8 + 4,
+		MaxFrameLength:      math.MaxUint8 + HEADER_SIZE,
 		LengthFieldOffset:   2,
 		LengthFieldLength:   1,
 		LengthAdjustment:    2,
-- 
2.43.0


From a01cd5a531929288d98c0272ad36cfa66059f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:15 +0000
Subject: [PATCH 26/41] fix: an async result's callback sees its value,
 whichever of the two is set first

---
 zasync_op/async_op_result.go | 79 ++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 31 deletions(-)

diff --git a/zasync_op/async_op_result.go b/zasync_op/async_op_result.go
index 27b8284..1748a8c 100644
--- a/zasync_op/async_op_result.go
+++ b/zasync_op/async_op_result.go
@@ -7,13 +7,16 @@
 package zasync_op
 
 import (
-	"sync/atomic"
+	"sync"
 
 	"github.com/aceld/zinx/ziface"
 	"github.com/aceld/zinx/znet"
 )
 
 type AsyncOpResult struct {
+	// Guards the fields below, which the async worker and the business thread both use
+	// (保护以下字段，异步worker和业务线程都会使用)
+	mu sync.Mutex
 	// Player connection (玩家连接)
 	conn ziface.IConnection
 	// Returned object (已返回对象)
@@ -21,61 +24,75 @@ type AsyncOpResult struct {
 	// Completion callback function(完成回调函数)
 	completeFunc func()
 	// Whether the return value has been set(是否已有返回值)
-	hasReturnedObj int32
+	hasReturnedObj bool
 	// Whether the completion callback function has been set(是否已有回调函数)
-	hasCompleteFunc int32
+	hasCompleteFunc bool
 	// Whether the completion function has already been called(是否已经调用过完成函数)
-	completeFuncHasAlreadyBeenCalled int32 // Default value = 0, not yet called (默认值 = 0, 没被调用过)
+	completeFuncHasAlreadyBeenCalled bool
 }
 
 // GetReturnedObj returns the return value (获取返回值)
 func (aor *AsyncOpResult) GetReturnedObj() interface{} {
+	aor.mu.Lock()
+	defer aor.mu.Unlock()
 	return aor.returnedObj
 }
 
 // SetReturnedObj sets the return value(设置返回值)
 func (aor *AsyncOpResult) SetReturnedObj(val interface{}) {
-	if atomic.CompareAndSwapInt32(&aor.hasReturnedObj, 0, 1) {
-		aor.returnedObj = val
-		// **** 防止未调用回调函数问题: 设置处理结果时，直接调用回调函数：1.回调函数未绑定，调用空；2.回调函数已绑定,立马调用 ****
-		// **** Prevent the problem of not calling the completion callback function:
-		// Call the callback function directly when setting the processing result:
-		// 1. If the callback function is not bound, it will be called with nil;
-		// 2. If the callback function is bound, it will be called immediately. ****
-		aor.doComplete()
+	aor.mu.Lock()
+	if aor.hasReturnedObj {
+		aor.mu.Unlock()
+		return
 	}
+	aor.hasReturnedObj = true
+	aor.returnedObj = val
+	aor.mu.Unlock()
+
+	// **** 防止未调用回调函数问题: 设置处理结果时，直接调用回调函数：1.回调函数未绑定，调用空；2.回调函数已绑定,立马调用 ****
+	// **** Prevent the problem of not calling the completion callback function:
+	// Call the callback function directly when setting the processing result:
+	// 1. If the callback function is not bound, it will be called with nil;
+	// 2. If the callback function is bound, it will be called immediately. ****
+	aor.doComplete()
 }
 
 // OnComplete sets the completion callback function(完成回调函数)
 func (aor *AsyncOpResult) OnComplete(val func()) {
-	if atomic.CompareAndSwapInt32(&aor.hasCompleteFunc, 0, 1) {
-		aor.completeFunc = val
-
-		// **** 防止未调用回调函数问题:设置回调函数时，发现已经有处理结果了，直接调用 ****
-		// **** Prevent the problem of not calling the completion callback function:
-		// If a processing result already exists when setting the callback function,
-		// call the callback function directly. ****
-		if atomic.LoadInt32(&aor.hasReturnedObj) == 1 {
-			aor.doComplete()
-		}
+	aor.mu.Lock()
+	if aor.hasCompleteFunc {
+		aor.mu.Unlock()
+		return
 	}
+	aor.hasCompleteFunc = true
+	aor.completeFunc = val
+	aor.mu.Unlock()
+
+	// **** 防止未调用回调函数问题:设置回调函数时，发现已经有处理结果了，直接调用 ****
+	// **** Prevent the problem of not calling the completion callback function:
+	// If a processing result already exists when setting the callback function,
+	// call the callback function directly. ****
+	aor.doComplete()
 }
 
 // doComplete executes the completion callback function, double-checking when setting the processing result and callback function to prevent the possibility of not calling the callback function
 // (执行完成回调,在设置处理结果和回调函数的时候双重检查，杜绝未调用回调函数的可能性)
 func (aor *AsyncOpResult) doComplete() {
-	if aor.completeFunc == nil {
+	aor.mu.Lock()
+	// Prevent re-entry problems (防止可重入问题)
+	if !aor.hasReturnedObj || aor.completeFunc == nil || aor.completeFuncHasAlreadyBeenCalled {
+		aor.mu.Unlock()
 		return
 	}
+	aor.completeFuncHasAlreadyBeenCalled = true
+	completeFunc := aor.completeFunc
+	aor.mu.Unlock()
 
-	// Prevent re-entry problems (防止可重入问题)
-	if atomic.CompareAndSwapInt32(&aor.completeFuncHasAlreadyBeenCalled, 0, 1) {
-		// Prevent cross-thread calling problems,
-		// throw it to the corresponding business thread to execute
-		// (防止跨线程调用问题,扔到所属业务线程里去执行)
-		request := znet.NewFuncRequest(aor.conn, aor.completeFunc)
-		aor.conn.GetMsgHandler().SendMsgToTaskQueue(request)
-	}
+	// Prevent cross-thread calling problems,
+	// throw it to the corresponding business thread to execute
+	// (防止跨线程调用问题,扔到所属业务线程里去执行)
+	request := znet.NewFuncRequest(aor.conn, completeFunc)
+	aor.conn.GetMsgHandler().SendMsgToTaskQueue(request)
 }
 
 // NewAsyncOpResult creates a new asynchronous result(新建异步结果)
-- 
2.43.0


From 124dec2ba6d9c6e307c7d1d9059199b450efdf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:15 +0000
Subject: [PATCH 27/41] fix: closing a log file writer loses no line written
 concurrently

---
 zutils/witer.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index 01efae5..490b10b 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -167,11 +167,14 @@ func (w *Writer) rotate() error {
 
 // 删除旧日志
 func (w *Writer) delete() {
-	if w.maxAge <= 0 {
+	w.mu.Lock()
+	maxAge := w.maxAge
+	w.mu.Unlock()
+	if maxAge <= 0 {
 		return
 	}
 	dir := filepath.Dir(w.fpath)
-	fakeNow := time.Now().AddDate(0, 0, -w.maxAge)
+	fakeNow := time.Now().AddDate(0, 0, -maxAge)
 	dirs, err := os.ReadDir(dir)
 	if err != nil {
 		return
@@ -200,17 +203,14 @@ func (w *Writer) time2name(t time.Time) string {
 }
 
 func (w *Writer) Close() error {
-	w.flush()
-	return w.close()
-}
-
-// close closes the file if it is open.
-func (w *Writer) close() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 	if w.file == nil {
 		return nil
 	}
+	// Flushed in the same step, or lines written in between would be lost
+	// (刷新与关闭为同一步骤，避免丢失期间写入的日志)
+	w.bw.Flush()
 	w.file.Sync()
 	err := w.file.Close()
 	w.file = nil
@@ -220,7 +220,7 @@ func (w *Writer) close() error {
 func (w *Writer) flush() error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
-	if w.bw == nil {
+	if w.file == nil {
 		return nil
 	}
 	return w.bw.Flush()
-- 
2.43.0


From b8e911d4e1a20dc0677ad40a1efce73e3bf75b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:16 +0000
Subject: [PATCH 28/41] fix: a logger may be reconfigured while it is in use

---
 zlog/logger_core.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index 143e64c..3281b48 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -22,6 +22,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/aceld/zinx/zutils"
@@ -81,7 +82,7 @@ type ZinxLoggerCore struct {
 
 	// log isolation level
 	// (日志隔离级别)
-	isolationLevel int
+	isolationLevel int32
 
 	// call stack depth of the function that gets the log file name and code using runtime.Call
 	// (获取日志文件名和代码上述的runtime.Call 的函数调用层数)
@@ -117,6 +118,8 @@ func CleanZinxLog(log *ZinxLoggerCore) {
 }
 
 func (log *ZinxLoggerCore) SetLogHook(f func([]byte)) {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	log.onLogHook = f
 }
 
@@ -240,7 +243,7 @@ func (log *ZinxLoggerCore) OutPut(level int, s string) error {
 }
 
 func (log *ZinxLoggerCore) verifyLogIsolation(logLevel int) bool {
-	return log.isolationLevel > logLevel
+	return int(atomic.LoadInt32(&log.isolationLevel)) > logLevel
 }
 
 func (log *ZinxLoggerCore) Debugf(format string, v ...interface{}) {
@@ -378,6 +381,8 @@ func (log *ZinxLoggerCore) SetPrefix(prefix string) {
 // SetLogFile sets the log file output
 // (设置日志文件输出)
 func (log *ZinxLoggerCore) SetLogFile(fileDir string, fileName string) {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	if log.fw != nil {
 		log.fw.Close()
 	}
@@ -386,31 +391,31 @@ func (log *ZinxLoggerCore) SetLogFile(fileDir string, fileName string) {
 
 // SetMaxAge 最大保留天数
 func (log *ZinxLoggerCore) SetMaxAge(ma int) {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	if log.fw == nil {
 		return
 	}
-	log.mu.Lock()
-	defer log.mu.Unlock()
 	log.fw.SetMaxAge(ma)
 }
 
 // SetMaxSize 单个日志最大容量 单位：字节
 func (log *ZinxLoggerCore) SetMaxSize(ms int64) {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	if log.fw == nil {
 		return
 	}
-	log.mu.Lock()
-	defer log.mu.Unlock()
 	log.fw.SetMaxSize(ms)
 }
 
 // SetCons 同时输出控制台
 func (log *ZinxLoggerCore) SetCons(b bool) {
+	log.mu.Lock()
+	defer log.mu.Unlock()
 	if log.fw == nil {
 		return
 	}
-	log.mu.Lock()
-	defer log.mu.Unlock()
 	log.fw.SetCons(b)
 }
 
@@ -423,7 +428,7 @@ func (log *ZinxLoggerCore) closeFile() {
 }
 
 func (log *ZinxLoggerCore) SetLogLevel(logLevel int) {
-	log.isolationLevel = logLevel
+	atomic.StoreInt32(&log.isolationLevel, int32(logLevel))
 }
 
 // Convert an integer to a fixed-length string, where the width of the string should be greater than 0
-- 
2.43.0


From d25b3355d79cb5da8a0dd21d19d2179a5a088722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:31 +0000
Subject: [PATCH 29/41] fix: every position of the AOI area belongs to a grid

---
 zinx_app_demo/mmo_game/core/aoi.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/zinx_app_demo/mmo_game/core/aoi.go b/zinx_app_demo/mmo_game/core/aoi.go
index 7304f29..d64a99b 100644
--- a/zinx_app_demo/mmo_game/core/aoi.go
+++ b/zinx_app_demo/mmo_game/core/aoi.go
@@ -137,9 +137,24 @@ func (m *AOIManager) GetGIDByPos(x, y float32) int {
 	gx := (int(x) - m.MinX) / m.grIDWIDth()
 	gy := (int(y) - m.MinY) / m.grIDLength()
 
+	// The grids do not reach the far edges exactly, and a position may lie outside of the area
+	// 格子不一定恰好铺满区域，坐标也可能超出区域，此时取最近的格子
+	gx = clamp(gx, m.CntsX-1)
+	gy = clamp(gy, m.CntsY-1)
+
 	return gy*m.CntsX + gx
 }
 
+func clamp(v, max int) int {
+	if v < 0 {
+		return 0
+	}
+	if v > max {
+		return max
+	}
+	return v
+}
+
 // GetPIDsByPos Get all PlayerIDs within the surrounding nine grids by horizontal and vertical coordinates
 // 通过横纵坐标得到周边九宫格内的全部PlayerIDs
 func (m *AOIManager) GetPIDsByPos(x, y float32) (playerIDs []int) {
-- 
2.43.0


From f0b297118ba3954e150640e80fda7ebfa3f01ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:54 +0000
Subject: [PATCH 30/41] fix: a user configuration's log file size, retention
 and console output take effect

---
 zconf/userconf.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/zconf/userconf.go b/zconf/userconf.go
index e1c8bfd..80c0d6e 100644
--- a/zconf/userconf.go
+++ b/zconf/userconf.go
@@ -65,6 +65,25 @@ func UserConfToGlobal(config *Config) {
 		zlog.SetLogFile(GlobalObject.LogDir, GlobalObject.LogFile)
 	}
 
+	if config.LogCons {
+		GlobalObject.LogCons = config.LogCons
+	}
+	if config.LogSaveDays > 0 {
+		GlobalObject.LogSaveDays = config.LogSaveDays
+	}
+	if config.LogFileSize > 0 {
+		GlobalObject.LogFileSize = config.LogFileSize
+	}
+	// These belong to the log file, and a file set just now does not have them yet
+	// (以上为日志文件的配置，需要设置到日志文件上)
+	zlog.SetCons(GlobalObject.LogCons)
+	if GlobalObject.LogSaveDays > 0 {
+		zlog.SetMaxAge(GlobalObject.LogSaveDays)
+	}
+	if GlobalObject.LogFileSize > 0 {
+		zlog.SetMaxSize(GlobalObject.LogFileSize)
+	}
+
 	// Keepalive
 	if config.HeartbeatMax != 0 {
 		GlobalObject.HeartbeatMax = config.HeartbeatMax
-- 
2.43.0


From fe69efbf9781160a63c1ae77e55c7648c01cb0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:09 +0000
Subject: [PATCH 31/41] fix: a client decodes a message once, and before its
 other interceptors see it

---
 znet/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/znet/client.go b/znet/client.go
index efedd6e..76d707c 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -216,9 +216,11 @@ func (c *Client) Restart() {
 // (启动客户端，发送请求且建立连接)
 func (c *Client) Start() {
 
-	// Add the decoder to the interceptor list (将解码器添加到拦截器)
+	// Add the decoder to the head of the interceptors, like the server does, so that messages are decoded
+	// once, and before any other interceptor sees them
+	// (将解码器添加到拦截器头部)
 	if c.decoder != nil {
-		c.msgHandler.AddInterceptor(c.decoder)
+		c.msgHandler.SetHeadInterceptor(c.decoder)
 	}
 
 	c.Restart()
-- 
2.43.0


From db3ce2931d365498fcf5bdfed6e94fd96bb7da57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:34 +0000
Subject: [PATCH 32/41] fix: log retention reads a backup's name as the local
 time it was written in

---
 zutils/witer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index 490b10b..e93b9af 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -196,7 +196,8 @@ func (w *Writer) name2time(name string) (time.Time, error) {
 	name = strings.TrimPrefix(name, filepath.Base(w.fname))
 	name = strings.TrimSuffix(name, w.zipsuffix)
 	// 改为微秒级别的文件后缀，避免1s内大量写入造成多次rotate，而覆盖丢失之前的日志文件
-	return time.Parse(".2006-01-02-150405.000000", name)
+	// The name holds local time (文件名中为本地时间)
+	return time.ParseInLocation(".2006-01-02-150405.000000", name, time.Local)
 }
 func (w *Writer) time2name(t time.Time) string {
 	return t.Format(".2006-01-02-150405.000000")
-- 
2.43.0


From 296043547813e45e26ec53bec9b39a90fa4ed38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:10 +0000
Subject: [PATCH 33/41] fix: a log line with an empty text is ended like any
 other

---
 zlog/logger_core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index 3281b48..867b701 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -223,7 +223,7 @@ func (log *ZinxLoggerCore) OutPut(level int, s string) error {
 	// write log content
 	log.buf.WriteString(s)
 	// add line break
-	if len(s) > 0 && s[len(s)-1] != '\n' {
+	if len(s) == 0 || s[len(s)-1] != '\n' {
 		log.buf.WriteByte('\n')
 	}
 
-- 
2.43.0


From 4924aeabc1f51063e2b074823feeb825d6a4f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:03 +0000
Subject: [PATCH 34/41] fix: a function handed to a connection's worker does
 not wait for room in its queue, nor for a worker that does not exist

---
 znet/msghandler.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 4f24882..289567e 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -313,8 +313,20 @@ func (mh *MsgHandle) SendMsgToTaskQueue(request ziface.IRequest) {
 	// Logged first, the worker recycles the request as soon as it has handled it
 	zlog.Ins().DebugF("SendMsgToTaskQueue-->%s", hex.EncodeToString(request.GetData()))
 	// Send the request message to the task queue
-	if _, ok := request.(ziface.IFuncRequest); ok {
-		mh.TaskQueue[workerID] <- request
+	if f, ok := request.(ziface.IFuncRequest); ok {
+		// Without workers a function runs like a message does
+		// (没有worker时，函数与消息一样直接执行)
+		if mh.WorkerPoolSize == 0 {
+			go mh.doFuncHandler(f, WorkerIDWithoutWorkerPool)
+			return
+		}
+		// The caller may be the worker itself, which must not wait for room in its own queue
+		// (调用者可能就是worker自身，不能等待自己的队列)
+		select {
+		case mh.TaskQueue[workerID] <- request:
+		default:
+			go func() { mh.TaskQueue[workerID] <- request }()
+		}
 		return
 	}
 	// The reader of a closed connection must not wait for a full queue, it would keep the connection's worker
-- 
2.43.0


From a6f49655e273786a790882209c9ea84e2ec4fc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:03 +0000
Subject: [PATCH 35/41] fix: a function handed to a connection's extra worker
 as the connection ends does not panic on a closed queue

---
 znet/msghandler.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 289567e..7d7e668 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -322,10 +322,23 @@ func (mh *MsgHandle) SendMsgToTaskQueue(request ziface.IRequest) {
 		}
 		// The caller may be the worker itself, which must not wait for room in its own queue
 		// (调用者可能就是worker自身，不能等待自己的队列)
+		mh.extraFreeWorkerMu.Lock()
+		taskQueue := mh.TaskQueue[workerID]
+		mh.extraFreeWorkerMu.Unlock()
 		select {
-		case mh.TaskQueue[workerID] <- request:
+		case taskQueue <- request:
 		default:
-			go func() { mh.TaskQueue[workerID] <- request }()
+			var closed <-chan struct{}
+			if zconf.GlobalObject.WorkerMode == zconf.WorkerModeDynamicBind {
+				// An extra worker ends with its connection (临时worker随连接结束)
+				closed = request.GetConnection().Context().Done()
+			}
+			go func() {
+				select {
+				case taskQueue <- request:
+				case <-closed:
+				}
+			}()
 		}
 		return
 	}
@@ -439,9 +452,14 @@ func (mh *MsgHandle) doMsgHandlerSlices(request ziface.IRequest, workerID int) {
 
 func (mh *MsgHandle) StopOneWorker(workerID int) {
 	zlog.Ins().DebugF("stop Worker ID = %d ", workerID)
-	// Stop the worker by closing the corresponding taskQueue
-	// (停止一个Worker，通过关闭对应的taskQueue)
-	close(mh.TaskQueue[workerID])
+	// Stop the worker by a nil request, closing the queue would make a function handed in late panic
+	// (停止一个Worker，通过空请求; 关闭taskQueue会使稍晚提交的函数panic)
+	taskQueue := mh.TaskQueue[workerID]
+	select {
+	case taskQueue <- nil:
+	default:
+		go func() { taskQueue <- nil }()
+	}
 }
 
 // StartOneWorker starts a worker workflow
@@ -455,9 +473,9 @@ func (mh *MsgHandle) StartOneWorker(workerID int, taskQueue chan ziface.IRequest
 		// If there is a message, take out the Request from the queue and execute the bound business method
 		// (有消息则取出队列的Request，并执行绑定的业务方法)
 		case request, ok := <-taskQueue:
-			if !ok {
-				// DynamicBind Mode, destroy current worker by close the taskQueue
-				// (DynamicBind模式下，临时创建的worker, 是通过关闭taskQueue 来销毁当前worker)
+			if !ok || request == nil {
+				// DynamicBind Mode, destroy current worker by a nil request
+				// (DynamicBind模式下，临时创建的worker, 是通过空请求来销毁当前worker)
 				zlog.Ins().ErrorF(" taskQueue is closed, Worker ID = %d quit", workerID)
 				return
 			}
-- 
2.43.0


From 1f737a059df61b4aaf86dea27dfcdfd3e14f35e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 36/41] fix: a connection has its worker before its start hook
 can hand it functions

---
 znet/connection.go     | 6 +++---
 znet/kcp_connection.go | 6 +++---
 znet/ws_connection.go  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 7a6496a..2bfd2a8 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -306,6 +306,9 @@ func (c *Connection) Start() {
 		}
 	}()
 
+	// 占用workerid: before the start hook, which may hand functions to the worker
+	c.workerID = useWorker(c)
+
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
@@ -316,9 +319,6 @@ func (c *Connection) Start() {
 		c.hc.Start()
 	}
 
-	// 占用workerid
-	c.workerID = useWorker(c)
-
 	// Start the Goroutine for reading data from the client
 	// (开启用户从客户端读取数据流程的Goroutine)
 	c.readerDone = make(chan struct{})
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 766dbb8..1c9ba64 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -293,6 +293,9 @@ func (c *KcpConnection) Start() {
 		}
 	}()
 
+	// 占用workerid: before the start hook, which may hand functions to the worker
+	c.workerID = useWorker(c)
+
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
@@ -303,9 +306,6 @@ func (c *KcpConnection) Start() {
 		c.hc.Start()
 	}
 
-	// 占用workerid
-	c.workerID = useWorker(c)
-
 	// Start the Goroutine for reading data from the client
 	// (开启用户从客户端读取数据流程的Goroutine)
 	c.readerDone = make(chan struct{})
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index df895b5..e03641b 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -294,6 +294,9 @@ func (c *WsConnection) Start() {
 		}
 	}()
 
+	// 占用workerid: before the start hook, which may hand functions to the worker
+	c.workerID = useWorker(c)
+
 	// Execute the hook method according to the business needs of creating the connection passed in by the user.
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
@@ -305,9 +308,6 @@ func (c *WsConnection) Start() {
 		c.hc.Start()
 	}
 
-	// 占用workerid
-	c.workerID = useWorker(c)
-
 	// Start the Goroutine for users to read data from the client.
 	// (开启用户从客户端读取数据流程的Goroutine)
 	c.readerDone = make(chan struct{})
-- 
2.43.0


From ae61e7a6f0fc0bddb43f930c76ee77f7e8ad4ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:26 +0000
Subject: [PATCH 37/41] fix: with dynamic workers, a pool larger than MaxConn
 does not panic when the server starts

---
 znet/msghandler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 7d7e668..935f34a 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -80,7 +80,11 @@ func newMsgHandle() *MsgHandle {
 		for i := zconf.GlobalObject.WorkerPoolSize; i < uint32(zconf.GlobalObject.MaxConn); i++ {
 			extraFreeWorkers[i] = struct{}{}
 		}
-		TaskQueueLen = uint32(zconf.GlobalObject.MaxConn)
+		// Every worker of the pool has a queue, also when there are more of them than connections
+		// (工作池里的每个worker都有队列，即使worker数量多于最大连接数)
+		if uint32(zconf.GlobalObject.MaxConn) > TaskQueueLen {
+			TaskQueueLen = uint32(zconf.GlobalObject.MaxConn)
+		}
 	}
 
 	handle := &MsgHandle{
-- 
2.43.0


From 8e484b51e07d293b89897b31eeb8e4bff9257beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:26 +0000
Subject: [PATCH 38/41] fix: a user configuration can switch KCP's stream mode
 on again

---
 zconf/userconf.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zconf/userconf.go b/zconf/userconf.go
index 80c0d6e..016b2db 100644
--- a/zconf/userconf.go
+++ b/zconf/userconf.go
@@ -123,9 +123,7 @@ func UserConfToGlobal(config *Config) {
 		GlobalObject.KcpACKNoDelay = config.KcpACKNoDelay
 	}
 
-	if !config.KcpStreamMode {
-		GlobalObject.KcpStreamMode = config.KcpStreamMode
-	}
+	GlobalObject.KcpStreamMode = config.KcpStreamMode
 
 	if config.KcpNoDelay != 0 {
 		GlobalObject.KcpNoDelay = config.KcpNoDelay
-- 
2.43.0


From f68bfdf3b3ba0cad73974b2deb164dd5ea632aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:21 +0000
Subject: [PATCH 39/41] fix: a log directory in a user configuration takes
 effect on a log file the configuration file names

---
 zconf/userconf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zconf/userconf.go b/zconf/userconf.go
index 016b2db..4f47ef7 100644
--- a/zconf/userconf.go
+++ b/zconf/userconf.go
@@ -62,6 +62,9 @@ func UserConfToGlobal(config *Config) {
 
 	if config.LogFile != "" {
 		GlobalObject.LogFile = config.LogFile
+	}
+	// The log moves with either of them (目录或文件名变化时都需要重新设置日志文件)
+	if (config.LogDir != "" || config.LogFile != "") && GlobalObject.LogFile != "" {
 		zlog.SetLogFile(GlobalObject.LogDir, GlobalObject.LogFile)
 	}
 
-- 
2.43.0


From 761bf85e969936f2e2a33b209313a2521012e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:31 +0000
Subject: [PATCH 40/41] fix: Request.Copy reads the stored values under the
 lock that Set and Get take

---
 znet/request.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/znet/request.go b/znet/request.go
index 67e00af..89597a9 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -117,9 +117,11 @@ func (r *Request) Copy() ziface.IRequest {
 
 	// 复制原本的上下文信息
 	newRequest.keys = make(map[string]interface{})
+	r.stepLock.RLock()
 	for k, v := range r.keys {
 		newRequest.keys[k] = v
 	}
+	r.stepLock.RUnlock()
 
 	// 复制一份原本的 icResp
 	newRequest.icResp = r.icResp
-- 
2.43.0


From 0e03c648386992a7908c2633323e41137c0df8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:36 +0000
Subject: [PATCH 41/41] fix: mmo demo: players that leave break those around
 them

A player could be looked up as nil while it left (panic in the start hook or a
handler of another player, which then was not served any more), and one that
moved while leaving stayed in its new grid for ever. Positions were read and
written without synchronisation.
---
 zinx_app_demo/mmo_game/api/move.go           |  3 +
 zinx_app_demo/mmo_game/api/world_chat.go     |  3 +
 zinx_app_demo/mmo_game/core/player.go        | 94 +++++++++-----------
 zinx_app_demo/mmo_game/core/world_manager.go |  8 +-
 4 files changed, 55 insertions(+), 53 deletions(-)

diff --git a/zinx_app_demo/mmo_game/api/move.go b/zinx_app_demo/mmo_game/api/move.go
index 767514c..35e7137 100644
--- a/zinx_app_demo/mmo_game/api/move.go
+++ b/zinx_app_demo/mmo_game/api/move.go
@@ -40,6 +40,9 @@ func (*MoveApi) Handle(request ziface.IRequest) {
 	// 3. Get the player object based on pID
 	// (3. 根据pID得到player对象)
 	player := core.WorldMgrObj.GetPlayerByPID(pID.(int32))
+	if player == nil { // has left meanwhile (期间已下线)
+		return
+	}
 
 	// 4. Have the player object initiate the broadcast of movement position information
 	// (4. 让player对象发起移动位置信息广播)
diff --git a/zinx_app_demo/mmo_game/api/world_chat.go b/zinx_app_demo/mmo_game/api/world_chat.go
index 5b74666..ee8a018 100644
--- a/zinx_app_demo/mmo_game/api/world_chat.go
+++ b/zinx_app_demo/mmo_game/api/world_chat.go
@@ -38,6 +38,9 @@ func (*WorldChatApi) Handle(request ziface.IRequest) {
 	// 3. Get the player object based on pID
 	// (3. 根据pID得到player对象)
 	player := core.WorldMgrObj.GetPlayerByPID(pID.(int32))
+	if player == nil { // has left meanwhile (期间已下线)
+		return
+	}
 
 	// 4. Have the player object initiate the chat broadcast request
 	// (4. 让player对象发起聊天广播请求)
diff --git a/zinx_app_demo/mmo_game/core/player.go b/zinx_app_demo/mmo_game/core/player.go
index 3736825..dab5e11 100644
--- a/zinx_app_demo/mmo_game/core/player.go
+++ b/zinx_app_demo/mmo_game/core/player.go
@@ -19,6 +19,23 @@ type Player struct {
 	Y    float32            // Height(高度)
 	Z    float32            // Planar y coordinate (Note: not Y)- 平面y坐标 (注意不是Y)
 	V    float32            //  Rotation 0-360 degrees(旋转0-360度)
+
+	posLock sync.RWMutex // Protects the position, which other players' goroutines read(保护坐标，其他玩家的goroutine会读取)
+	left    bool         // The player has left the world and must not enter a grid again(已下线，不能再进入格子)
+}
+
+// position returns the player's current position
+// (获取玩家当前的坐标)
+func (p *Player) position() *pb.Position {
+	p.posLock.RLock()
+	defer p.posLock.RUnlock()
+
+	return &pb.Position{
+		X: p.X,
+		Y: p.Y,
+		Z: p.Z,
+		V: p.V,
+	}
 }
 
 // Player ID Generator
@@ -68,12 +85,7 @@ func (p *Player) BroadCastStartPosition() {
 		PID: p.PID,
 		Tp:  2, //TP:2  represents broadcasting coordinates (广播坐标)
 		Data: &pb.BroadCast_P{
-			P: &pb.Position{
-				X: p.X,
-				Y: p.Y,
-				Z: p.Z,
-				V: p.V,
-			},
+			P: p.position(),
 		},
 	}
 
@@ -85,19 +97,12 @@ func (p *Player) BroadCastStartPosition() {
 // SyncSurrounding Broadcast the player's position to the surrounding players in the same grid
 // 给当前玩家周边的(九宫格内)玩家广播自己的位置，让他们显示自己
 func (p *Player) SyncSurrounding() {
-	//1 Get pIDs of players in the surrounding nine grids based on the player's position
-	// 根据自己的位置，获取周围九宫格内的玩家pID
-	pIDs := WorldMgrObj.AoiMgr.GetPIDsByPos(p.X, p.Z)
-
-	// 2 Get all player objects based on the pIDs
-	// 根据pID得到所有玩家对象
-	players := make([]*Player, 0, len(pIDs))
+	//1 Get the players in the surrounding nine grids based on the player's position
+	// 根据自己的位置，获取周围九宫格内的玩家
+	players := p.GetSurroundingPlayers()
 
 	// 3 Send MsgID:200 message to these players to display themselves in each other's views
 	// 给这些玩家发送MsgID:200消息，让自己出现在对方视野中
-	for _, pID := range pIDs {
-		players = append(players, WorldMgrObj.GetPlayerByPID(int32(pID)))
-	}
 
 	// 3.1 Assemble MsgID200 proto data
 	// 组建MsgID200 proto数据
@@ -105,12 +110,7 @@ func (p *Player) SyncSurrounding() {
 		PID: p.PID,
 		Tp:  2, //TP:2 represents broadcasting coordinates (广播坐标)
 		Data: &pb.BroadCast_P{
-			P: &pb.Position{
-				X: p.X,
-				Y: p.Y,
-				Z: p.Z,
-				V: p.V,
-			},
+			P: p.position(),
 		},
 	}
 
@@ -128,12 +128,7 @@ func (p *Player) SyncSurrounding() {
 	for _, player := range players {
 		p := &pb.Player{
 			PID: player.PID,
-			P: &pb.Position{
-				X: player.X,
-				Y: player.Y,
-				Z: player.Z,
-				V: player.V,
-			},
+			P:   player.position(),
 		}
 		playersData = append(playersData, p)
 	}
@@ -180,6 +175,11 @@ func (p *Player) UpdatePos(x float32, y float32, z float32, v float32) {
 	// Calculate the old grid gID
 	// 触发消失视野和添加视野业务
 	// 计算旧格子gID
+	p.posLock.Lock()
+	if p.left {
+		p.posLock.Unlock()
+		return
+	}
 	oldGID := WorldMgrObj.AoiMgr.GetGIDByPos(p.X, p.Z)
 	// Calculate the new grid gID
 	// 计算新格子gID
@@ -202,7 +202,10 @@ func (p *Player) UpdatePos(x float32, y float32, z float32, v float32) {
 		// 把pID添加到新的aoi格子中去
 		// Add pID to the new aoi grid
 		WorldMgrObj.AoiMgr.AddPIDToGrID(int(p.PID), newGID)
+	}
+	p.posLock.Unlock()
 
+	if oldGID != newGID {
 		_ = p.OnExchangeAoiGrID(oldGID, newGID)
 	}
 
@@ -212,12 +215,7 @@ func (p *Player) UpdatePos(x float32, y float32, z float32, v float32) {
 		PID: p.PID,
 		Tp:  4, //Tp:4  Coordinates information after movement(移动之后的坐标信息)
 		Data: &pb.BroadCast_P{
-			P: &pb.Position{
-				X: p.X,
-				Y: p.Y,
-				Z: p.Z,
-				V: p.V,
-			},
+			P: p.position(),
 		},
 	}
 
@@ -304,12 +302,7 @@ func (p *Player) OnExchangeAoiGrID(oldGID, newGID int) error {
 		PID: p.PID,
 		Tp:  2,
 		Data: &pb.BroadCast_P{
-			P: &pb.Position{
-				X: p.X,
-				Y: p.Y,
-				Z: p.Z,
-				V: p.V,
-			},
+			P: p.position(),
 		},
 	}
 
@@ -329,12 +322,7 @@ func (p *Player) OnExchangeAoiGrID(oldGID, newGID int) error {
 				PID: player.PID,
 				Tp:  2,
 				Data: &pb.BroadCast_P{
-					P: &pb.Position{
-						X: player.X,
-						Y: player.Y,
-						Z: player.Z,
-						V: player.V,
-					},
+					P: player.position(),
 				},
 			}
 
@@ -351,13 +339,16 @@ func (p *Player) OnExchangeAoiGrID(oldGID, newGID int) error {
 func (p *Player) GetSurroundingPlayers() []*Player {
 	// Get all pIDs in the current AOI area
 	// 得到当前AOI区域的所有pID
-	pIDs := WorldMgrObj.AoiMgr.GetPIDsByPos(p.X, p.Z)
+	pos := p.position()
+	pIDs := WorldMgrObj.AoiMgr.GetPIDsByPos(pos.X, pos.Z)
 
-	// Put all players corresponding to pIDs into the Player slice
-	// 将所有pID对应的Player放到Player切片中
+	// Put all players corresponding to pIDs into the Player slice, unless they have left meanwhile
+	// 将所有pID对应的Player放到Player切片中，期间已下线的除外
 	players := make([]*Player, 0, len(pIDs))
 	for _, pID := range pIDs {
-		players = append(players, WorldMgrObj.GetPlayerByPID(int32(pID)))
+		if player := WorldMgrObj.GetPlayerByPID(int32(pID)); player != nil {
+			players = append(players, player)
+		}
 	}
 
 	return players
@@ -384,7 +375,10 @@ func (p *Player) LostConnection() {
 
 	// 4 Remove the current player from AOI in the world manager
 	// 世界管理器将当前玩家从AOI中摘除
+	p.posLock.Lock()
+	p.left = true
 	WorldMgrObj.AoiMgr.RemoveFromGrIDByPos(int(p.PID), p.X, p.Z)
+	p.posLock.Unlock()
 	WorldMgrObj.RemovePlayerByPID(p.PID)
 }
 
diff --git a/zinx_app_demo/mmo_game/core/world_manager.go b/zinx_app_demo/mmo_game/core/world_manager.go
index 7d785fa..ab27242 100644
--- a/zinx_app_demo/mmo_game/core/world_manager.go
+++ b/zinx_app_demo/mmo_game/core/world_manager.go
@@ -81,12 +81,14 @@ func (wm *WorldManager) GetPlayersByGID(gID int) []*Player {
 	// 通过gID获取 对应 格子中的所有pID
 	pIDs := wm.AoiMgr.grIDs[gID].GetPlyerIDs()
 
-	// Get player objects corresponding to pIDs
-	// 通过pID找到对应的player对象
+	// Get player objects corresponding to pIDs, unless they have left meanwhile
+	// 通过pID找到对应的player对象，期间已下线的除外
 	players := make([]*Player, 0, len(pIDs))
 	wm.pLock.RLock()
 	for _, pID := range pIDs {
-		players = append(players, wm.Players[int32(pID)])
+		if player := wm.Players[int32(pID)]; player != nil {
+			players = append(players, player)
+		}
 	}
 	wm.pLock.RUnlock()
 
-- 
2.43.0

