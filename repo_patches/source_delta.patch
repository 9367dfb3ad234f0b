From c3df95c80e751d7eb6e8a77359bceaff5a5de5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:01 +0000
Subject: [PATCH 01/52] fix: HTLV+CRC decoder accepts frames with a 255-byte
 body

A frame is 1+1+1+255+2 = 260 bytes, one more than the configured maximum, so a
full-length body was treated as oversized and wedged the connection's stream.
---
 zdecoder/htlvcrcdecoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zdecoder/htlvcrcdecoder.go b/zdecoder/htlvcrcdecoder.go
index 09e39f0..2036a1f 100644
--- a/zdecoder/htlvcrcdecoder.go
+++ b/zdecoder/htlvcrcdecoder.go
@@ -81,7 +81,7 @@ func (hcd *HtlvCrcDecoder) GetLengthField() *ziface.LengthField {
 	//   initialBytesToStrip = 0   (这个0表示完整的协议内容，如果不想要A2，那么这里就是1) 从解码帧中第一次去除的字节数
 	//   maxFrameLength      = 255 + 4(起始码、功能码、CRC) (len是1个byte，所以最大长度是无符号1个byte的最大值)
 	return &ziface.LengthField{
-		MaxFrameLength:      math.MaxUint8 + 4,
+		MaxFrameLength:      math.MaxUint8 + HEADER_SIZE,
 		LengthFieldOffset:   2,
 		LengthFieldLength:   1,
 		LengthAdjustment:    2,
-- 
2.43.0


From 6b8c3ccc102b2e1c2af672f1d8eb9bb2cf932359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:33 +0000
Subject: [PATCH 02/52] fix: FrameDecoder drops an oversized frame and resumes
 after it

The bytes of a frame above MaxFrameLength were skipped only in a temporary view
of the buffer, so the same bytes were parsed again: the frame wedged the stream,
or was followed by frames cut at the wrong offset.
---
 zinterceptor/framedecoder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zinterceptor/framedecoder.go b/zinterceptor/framedecoder.go
index cd3db2b..1ccacbe 100644
--- a/zinterceptor/framedecoder.go
+++ b/zinterceptor/framedecoder.go
@@ -497,6 +497,8 @@ func (d *FrameDecoder) decode(buf []byte) []byte {
 	// Determine if it is in discard mode (判断是否为丢弃模式)
 	if d.discardingTooLongFrame {
 		d.discardingTooLongFrameFunc(in)
+		// The discarded bytes are consumed (丢弃的字节视为已消费)
+		d.in = buf[len(buf)-in.Len():]
 	}
 
 	// Determine if the number of readable bytes in the buffer is less than the offset of the length field
@@ -538,6 +540,8 @@ func (d *FrameDecoder) decode(buf []byte) []byte {
 		// It has exceeded the maximum length of a single data frame, and the exceeded part is processed
 		// (已经超过单次数据帧最大长度，对超过的部分进行处理)
 		d.exceededFrameLength(in, frameLength)
+		// The discarded bytes are consumed (丢弃的字节视为已消费)
+		d.in = buf[len(buf)-in.Len():]
 		return nil
 	}
 
@@ -581,6 +585,7 @@ func (d *FrameDecoder) Decode(buff []byte) [][]byte {
 	resp := make([][]byte, 0)
 
 	for {
+		size := len(d.in)
 		arr := d.decode(d.in)
 
 		if arr != nil {
@@ -591,8 +596,10 @@ func (d *FrameDecoder) Decode(buff []byte) [][]byte {
 			if _size > 0 {
 				d.in = d.in[_size:]
 			}
-		} else {
+		} else if len(d.in) == size {
 			return resp
 		}
+		// Otherwise an oversized frame was discarded, go on with what follows it
+		// (否则丢弃了一个超长帧，继续解析其后的数据)
 	}
 }
-- 
2.43.0


From c4f38737107184a315c761ac51f8a1c00e746ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:33 +0000
Subject: [PATCH 03/52] fix: FrameDecoder rejects a frame shorter than its
 length field

With a negative LengthAdjustment (length counts the whole frame) a length of 0
gave a frame of 0 bytes: Decode consumed nothing and never returned, appending
empty frames until memory ran out.
---
 zinterceptor/framedecoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zinterceptor/framedecoder.go b/zinterceptor/framedecoder.go
index 1ccacbe..af1eb62 100644
--- a/zinterceptor/framedecoder.go
+++ b/zinterceptor/framedecoder.go
@@ -534,6 +534,12 @@ func (d *FrameDecoder) decode(buf []byte) []byte {
 	// So the frameLength calculated in the end is the length of the entire data packet (那说明最后计算出的frameLength就是整个数据包的长度)
 	frameLength += int64(d.LengthAdjustment) + int64(d.LengthFieldEndOffset)
 
+	// A frame cannot be shorter than its own length field
+	// (数据帧长度不可能小于其长度字段本身)
+	if frameLength < int64(d.LengthFieldEndOffset) {
+		panic(fmt.Sprintf("Adjusted frame length (%d) is less than LengthFieldEndOffset: %d", frameLength, d.LengthFieldEndOffset))
+	}
+
 	// Discard mode is turned on here (丢弃模式就是在这开启的)
 	// If the data packet length is greater than the maximum length (如果数据包长度大于最大长度)
 	if uint64(frameLength) > d.MaxFrameLength {
-- 
2.43.0


From e0a9da1cded6c160f5e06b45855b2dda7a6090d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:33 +0000
Subject: [PATCH 04/52] fix: TCP connection without a frame decoder hands out
 its own copy of the data

The message aliased the read buffer, which the next Read overwrites while the
message may still wait in a worker queue.
---
 znet/connection.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/znet/connection.go b/znet/connection.go
index 4973bea..efd50a7 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -277,7 +277,11 @@ func (c *Connection) StartReader() {
 					c.msgHandler.Execute(req)
 				}
 			} else {
-				msg := zpack.NewMessage(uint32(n), buffer[0:n])
+				// buffer is reused by the next Read while the message may still be waiting for its worker
+				// (buffer会被下一次Read复用，而消息可能还在等待worker处理)
+				data := make([]byte, n)
+				copy(data, buffer[0:n])
+				msg := zpack.NewMessage(uint32(n), data)
 				// Get the current client's Request data
 				// (得到当前客户端请求的Request数据)
 				req := GetRequest(c, msg)
-- 
2.43.0


From 0ff527c2b7f55cc3076270986a546d15f1cc2cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:27 +0000
Subject: [PATCH 05/52] fix: a connection can be stopped before Start has run

Stop on a connection that is already in the connection manager but whose
Start has not run yet dereferenced a nil cancel function.
---
 znet/connection.go     |  7 ++++++-
 znet/kcp_connection.go |  7 ++++++-
 znet/ws_connection.go  | 13 +++++++------
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index efd50a7..a98aac3 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -136,6 +136,10 @@ func newServerConn(server ziface.IServer, conn net.Conn, connID uint64) ziface.I
 		remoteAddr:      conn.RemoteAddr().String(),
 	}
 
+	// The connection can be stopped from now on, also before Start runs
+	// (从此刻起连接即可被停止，即使Start还未执行)
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	lengthField := server.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -174,6 +178,8 @@ func newClientConn(client ziface.IClient, conn net.Conn) ziface.IConnection {
 		remoteAddr:      conn.RemoteAddr().String(),
 	}
 
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	lengthField := client.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -299,7 +305,6 @@ func (c *Connection) Start() {
 			zlog.Ins().ErrorF("Connection Start() error: %v", err)
 		}
 	}()
-	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index e42183e..a4f8709 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -134,6 +134,10 @@ func newKcpServerConn(server ziface.IServer, conn *kcp.UDPSession, connID uint64
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
+	// The connection can be stopped from now on, also before Start runs
+	// (从此刻起连接即可被停止，即使Start还未执行)
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	lengthField := server.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -170,6 +174,8 @@ func newKcpClientConn(client ziface.IClient, conn *kcp.UDPSession) ziface.IConne
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	lengthField := client.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -280,7 +286,6 @@ func (c *KcpConnection) Start() {
 			zlog.Ins().ErrorF("Connection Start() error: %v", err)
 		}
 	}()
-	c.ctx, c.cancel = context.WithCancel(context.Background())
 
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 12babfb..eccd489 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -119,7 +119,6 @@ type WsConnection struct {
 func newWebsocketConn(server ziface.IServer, conn *websocket.Conn, connID uint64, r *http.Request) ziface.IConnection {
 	// Initialize Conn properties (初始化Conn属性)
 	c := &WsConnection{
-		ctx:         context.WithValue(context.Background(), WsConnectionHttpReqCtxKey{}, r.Context()), // websocketAuth可以在上下文中传递特殊的参数或信息;比如鉴权后，设置一些用户信息或房间id
 		conn:        conn,
 		connID:      connID,
 		connIdStr:   strconv.FormatUint(connID, 10),
@@ -131,6 +130,11 @@ func newWebsocketConn(server ziface.IServer, conn *websocket.Conn, connID uint64
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
+	// The connection can be stopped from now on, also before Start runs
+	// (从此刻起连接即可被停止，即使Start还未执行)
+	// websocketAuth可以在上下文中传递特殊的参数或信息;比如鉴权后，设置一些用户信息或房间id
+	c.ctx, c.cancel = context.WithCancel(context.WithValue(context.Background(), WsConnectionHttpReqCtxKey{}, r.Context()))
+
 	lengthField := server.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -166,6 +170,8 @@ func newWsClientConn(client ziface.IClient, conn *websocket.Conn) ziface.IConnec
 		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	lengthField := client.GetLengthField()
 	if lengthField != nil {
 		c.frameDecoder = zinterceptor.NewFrameDecoder(*lengthField)
@@ -274,11 +280,6 @@ func (c *WsConnection) StartReader() {
 // Start starts the connection and makes it work.
 // (Start 启动连接，让当前连接开始工作)
 func (c *WsConnection) Start() {
-	ctx := c.ctx
-	if ctx == nil {
-		ctx = context.Background()
-	}
-	c.ctx, c.cancel = context.WithCancel(ctx)
 	// Execute the hook method according to the business needs of creating the connection passed in by the user.
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
-- 
2.43.0


From 7218eac900291806758b06af5073c3cc280d3677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:55 +0000
Subject: [PATCH 06/52] fix: closing a connection does not wait for a stalled
 peer

The teardown stopped the heartbeat checker (and for WebSocket and KCP took
the send lock) before closing the socket, so a send blocked on a peer that
does not read kept the connection from ever being torn down.
---
 znet/connection.go     |  7 ++++---
 znet/kcp_connection.go | 10 +++++-----
 znet/ws_connection.go  | 17 +++++------------
 3 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index a98aac3..a2ae10a 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -509,14 +509,15 @@ func (c *Connection) finalizer() {
 	// (如果用户注册了该连接的	关闭回调业务，那么在此刻应该显示调用)
 	c.callOnConnStop()
 
+	// Close the socket connection, this also releases a heartbeat blocked on a stalled peer
+	// (关闭socket，同时释放阻塞在对端上的心跳发送)
+	_ = c.conn.Close()
+
 	// Stop the heartbeat detector associated with the connection
 	if c.hc != nil {
 		c.hc.Stop()
 	}
 
-	// Close the socket connection
-	_ = c.conn.Close()
-
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
 		c.connManager.Remove(c)
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index a4f8709..56be8de 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -503,26 +503,26 @@ func (c *KcpConnection) finalizer() {
 	//(如果用户注册了该连接的	关闭回调业务，那么在此刻应该显示调用)
 	c.callOnConnStop()
 
-	c.msgLock.Lock()
-	defer c.msgLock.Unlock()
+	// Close the socket connection, this also releases a writer blocked on a stalled peer
+	// (关闭socket，同时释放阻塞在对端上的写操作)
+	_ = c.conn.Close()
 
 	// Stop the heartbeat detector associated with the connection
 	if c.hc != nil {
 		c.hc.Stop()
 	}
 
-	// Close the socket connection
-	_ = c.conn.Close()
-
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
 		c.connManager.Remove(c)
 	}
 
 	// Close all channels associated with the connection
+	c.msgLock.Lock()
 	if c.msgBuffChan != nil {
 		close(c.msgBuffChan)
 	}
+	c.msgLock.Unlock()
 
 	go func() {
 		defer func() {
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index eccd489..e298168 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -500,14 +500,9 @@ func (c *WsConnection) finalizer() {
 	// (如果用户注册了该连接的	关闭回调业务，那么在此刻应该显示调用)
 	c.callOnConnStop()
 
-	c.msgLock.Lock()
-	defer c.msgLock.Unlock()
-
-	// If the current connection is already closed.
-	// (如果当前连接已经关闭)
-	if c.isClosed == true {
-		return
-	}
+	// Close the socket connection, this also releases a writer blocked on a stalled peer.
+	// (关闭socket连接，同时释放阻塞在对端上的写操作)
+	_ = c.conn.Close()
 
 	// Stop the heartbeat detector bound to the connection.
 	// (关闭连接绑定的心跳检测器)
@@ -515,16 +510,13 @@ func (c *WsConnection) finalizer() {
 		c.hc.Stop()
 	}
 
-	// Close the socket connection.
-	// (关闭socket连接)
-	_ = c.conn.Close()
-
 	// Remove the connection from the connection manager.
 	// (将连接从连接管理器中删除)
 	if c.connManager != nil {
 		c.connManager.Remove(c)
 	}
 
+	c.msgLock.Lock()
 	// Close all channels associated with this connection.
 	// (关闭该连接全部管道)
 	if c.msgBuffChan != nil {
@@ -533,6 +525,7 @@ func (c *WsConnection) finalizer() {
 
 	// Set the flag to indicate that the connection is closed. (设置标志位)
 	c.isClosed = true
+	c.msgLock.Unlock()
 
 	go func() {
 		defer func() {
-- 
2.43.0


From 0c86a868906e95c85916470c93d97bb6169fca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:55 +0000
Subject: [PATCH 07/52] fix: a malformed frame on a WebSocket connection closes
 it instead of crashing the process

---
 znet/ws_connection.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index e298168..4194f33 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -217,6 +217,11 @@ func (c *WsConnection) StartReader() {
 	zlog.Ins().InfoF("[Reader Goroutine is running]")
 	defer zlog.Ins().InfoF("%s [conn Reader exit!]", c.RemoteAddr().String())
 	defer c.Stop()
+	defer func() {
+		if err := recover(); err != nil {
+			zlog.Ins().ErrorF("connID=%d, panic err=%v", c.GetConnID(), err)
+		}
+	}()
 
 	// Create a pack-unpack object. (创建拆包解包的对象)
 	for {
@@ -280,6 +285,12 @@ func (c *WsConnection) StartReader() {
 // Start starts the connection and makes it work.
 // (Start 启动连接，让当前连接开始工作)
 func (c *WsConnection) Start() {
+	defer func() {
+		if err := recover(); err != nil {
+			zlog.Ins().ErrorF("Connection Start() error: %v", err)
+		}
+	}()
+
 	// Execute the hook method according to the business needs of creating the connection passed in by the user.
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
-- 
2.43.0


From 49dc9ca8d3c885fd5e6e2a4ec5b25dfd8e588d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:52 +0000
Subject: [PATCH 08/52] fix: an extra worker of DynamicBind mode is bound to
 one connection at a time

The worker ID was never taken out of the free set, so two connections shared
one worker and the first one to close took the other's worker down with it.
---
 znet/msghandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 9d11558..a6dba5e 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -194,6 +194,7 @@ func useWorker(conn ziface.IConnection) uint32 {
 		defer mh.extraFreeWorkerMu.Unlock()
 		for workerID := range mh.extraFreeWorkers {
 			zlog.Ins().DebugF("start extra worker, workerID=%d", workerID)
+			delete(mh.extraFreeWorkers, workerID)
 			mh.TaskQueue[workerID] = make(chan ziface.IRequest, zconf.GlobalObject.MaxWorkerTaskLen)
 			go mh.StartOneWorker(int(workerID), mh.TaskQueue[workerID])
 			return workerID
-- 
2.43.0


From 2e0ce13ac513a6716151688a18e64de82f6020f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:54 +0000
Subject: [PATCH 09/52] fix: a closed connection gives its worker back before
 it leaves the connection manager

With Bind and DynamicBind a connection accepted in between found no free
worker and shared one with another connection from then on.
---
 znet/connection.go     | 8 +++++---
 znet/kcp_connection.go | 8 +++++---
 znet/ws_connection.go  | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index a2ae10a..8ba8b69 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -326,9 +326,6 @@ func (c *Connection) Start() {
 	select {
 	case <-c.ctx.Done():
 		c.finalizer()
-
-		// 归还workerid
-		freeWorker(c)
 		return
 	}
 }
@@ -518,6 +515,11 @@ func (c *Connection) finalizer() {
 		c.hc.Stop()
 	}
 
+	// Give the worker back before the connection stops counting against MaxConn,
+	// so that the connection taking its place finds a free worker
+	// (归还workerid，先于从连接管理器中移除，保证后来的连接有空闲worker可用)
+	freeWorker(c)
+
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
 		c.connManager.Remove(c)
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 56be8de..cceecb2 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -307,9 +307,6 @@ func (c *KcpConnection) Start() {
 	select {
 	case <-c.ctx.Done():
 		c.finalizer()
-
-		// 归还workerid
-		freeWorker(c)
 		return
 	}
 }
@@ -512,6 +509,11 @@ func (c *KcpConnection) finalizer() {
 		c.hc.Stop()
 	}
 
+	// Give the worker back before the connection stops counting against MaxConn,
+	// so that the connection taking its place finds a free worker
+	// (归还workerid，先于从连接管理器中移除，保证后来的连接有空闲worker可用)
+	freeWorker(c)
+
 	// Remove the connection from the connection manager
 	if c.connManager != nil {
 		c.connManager.Remove(c)
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 4194f33..004958b 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -312,9 +312,6 @@ func (c *WsConnection) Start() {
 	select {
 	case <-c.ctx.Done():
 		c.finalizer()
-
-		// 归还workerid
-		freeWorker(c)
 		return
 	}
 }
@@ -521,6 +518,11 @@ func (c *WsConnection) finalizer() {
 		c.hc.Stop()
 	}
 
+	// Give the worker back before the connection stops counting against MaxConn,
+	// so that the connection taking its place finds a free worker
+	// (归还workerid，先于从连接管理器中移除，保证后来的连接有空闲worker可用)
+	freeWorker(c)
+
 	// Remove the connection from the connection manager.
 	// (将连接从连接管理器中删除)
 	if c.connManager != nil {
-- 
2.43.0


From 65f882b90c28512d05fa799241cbeb8b6e851b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:54 +0000
Subject: [PATCH 10/52] fix: the MaxConn check and adding the connection are
 one step

WebSocket handshakes run concurrently, and a server can listen on TCP and
WebSocket at once: several connections could pass the check together and
exceed the limit.
---
 znet/server.go | 46 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index 6152000..314fbee 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -9,6 +9,7 @@ import (
 	"net/http"
 	"os"
 	"os/signal"
+	"sync"
 	"sync/atomic"
 	"syscall"
 	"time"
@@ -89,6 +90,10 @@ type Server struct {
 
 	// connection id
 	cID uint64
+
+	// Makes checking MaxConn and adding a connection one step
+	// (使检查MaxConn与添加连接成为一个原子步骤)
+	admitLock sync.Mutex
 }
 
 type KcpConfig struct {
@@ -221,6 +226,19 @@ func NewUserConfDefaultRouterSlicesServer(config *zconf.Config, opts ...Option)
 	return s
 }
 
+// admit creates a connection, and with it adds it to the connection manager, unless the server is full.
+// Connections arrive over several listeners and goroutines at once.
+// (在未达到最大连接数时创建连接并加入连接管理器，连接可能同时来自多个监听)
+func (s *Server) admit(create func(connID uint64) ziface.IConnection) (ziface.IConnection, bool) {
+	s.admitLock.Lock()
+	defer s.admitLock.Unlock()
+
+	if s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
+		return nil, false
+	}
+	return create(atomic.AddUint64(&s.cID, 1)), true
+}
+
 func (s *Server) StartConn(conn ziface.IConnection) {
 	// HeartBeat check
 	if s.hc != nil {
@@ -297,8 +315,13 @@ func (s *Server) ListenTcpConn() {
 
 			// 3.4 Handle the business method for this new connection request. At this time, the handler and conn should be bound.
 			// (处理该新连接请求的 业务 方法， 此时应该有 handler 和 conn是绑定的)
-			newCid := atomic.AddUint64(&s.cID, 1)
-			dealConn := newServerConn(s, conn, newCid)
+			dealConn, ok := s.admit(func(newCid uint64) ziface.IConnection {
+				return newServerConn(s, conn, newCid)
+			})
+			if !ok {
+				_ = conn.Close()
+				continue
+			}
 
 			go s.StartConn(dealConn)
 
@@ -351,8 +374,13 @@ func (s *Server) ListenWebsocketConn() {
 		AcceptDelay.Reset()
 		// 5. Handle the business logic of the new connection, which should already be bound to a handler and conn
 		// 5. 处理该新连接请求的 业务 方法， 此时应该有 handler 和 conn是绑定的
-		newCid := atomic.AddUint64(&s.cID, 1)
-		wsConn := newWebsocketConn(s, conn, newCid, r)
+		wsConn, ok := s.admit(func(newCid uint64) ziface.IConnection {
+			return newWebsocketConn(s, conn, newCid, r)
+		})
+		if !ok {
+			_ = conn.Close()
+			return
+		}
 		go s.StartConn(wsConn)
 
 	})
@@ -396,15 +424,19 @@ func (s *Server) ListenKcpConn() {
 
 			// 3.4 Handle the business method for this new connection request. At this time, the handler and conn should be bound.
 			// (处理该新连接请求的 业务 方法， 此时应该有 handler 和 conn 是绑定的)
-			newCid := atomic.AddUint64(&s.cID, 1)
-
 			kcpConn := conn.(*kcp.UDPSession)
 			kcpConn.SetACKNoDelay(s.kcpConfig.KcpACKNoDelay)
 			kcpConn.SetStreamMode(s.kcpConfig.KcpStreamMode)
 			kcpConn.SetNoDelay(s.kcpConfig.KcpNoDelay, s.kcpConfig.KcpInterval, s.kcpConfig.KcpResend, s.kcpConfig.KcpNc)
 			kcpConn.SetWindowSize(s.kcpConfig.KcpSendWindow, s.kcpConfig.KcpRecvWindow)
 
-			dealConn := newKcpServerConn(s, kcpConn, newCid)
+			dealConn, ok := s.admit(func(newCid uint64) ziface.IConnection {
+				return newKcpServerConn(s, kcpConn, newCid)
+			})
+			if !ok {
+				_ = kcpConn.Close()
+				continue
+			}
 
 			go s.StartConn(dealConn)
 		}
-- 
2.43.0


From df28afd6e0a886d9ffcb8371d89d277dbe0fc932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:11 +0000
Subject: [PATCH 11/52] fix: Server.Stop stops the WebSocket and KCP listeners
 and connections being accepted

Stop blocked forever on a WebSocket server, left the WebSocket listener of a
mixed server running, missed connections accepted while it ran, and left the
KCP accept loop retrying on the closed listener.
---
 znet/server.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index 314fbee..f5e26ee 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -94,6 +94,9 @@ type Server struct {
 	// Makes checking MaxConn and adding a connection one step
 	// (使检查MaxConn与添加连接成为一个原子步骤)
 	admitLock sync.Mutex
+
+	// Set by Stop, no connection is admitted from then on (Stop之后不再接纳新连接)
+	stopped bool
 }
 
 type KcpConfig struct {
@@ -226,14 +229,14 @@ func NewUserConfDefaultRouterSlicesServer(config *zconf.Config, opts ...Option)
 	return s
 }
 
-// admit creates a connection, and with it adds it to the connection manager, unless the server is full.
+// admit creates a connection, and with it adds it to the connection manager, unless the server is full or stopped.
 // Connections arrive over several listeners and goroutines at once.
 // (在未达到最大连接数时创建连接并加入连接管理器，连接可能同时来自多个监听)
 func (s *Server) admit(create func(connID uint64) ziface.IConnection) (ziface.IConnection, bool) {
 	s.admitLock.Lock()
 	defer s.admitLock.Unlock()
 
-	if s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
+	if s.stopped || s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
 		return nil, false
 	}
 	return create(atomic.AddUint64(&s.cID, 1)), true
@@ -385,8 +388,13 @@ func (s *Server) ListenWebsocketConn() {
 
 	})
 
-	err := http.ListenAndServe(fmt.Sprintf("%s:%d", s.IP, s.WsPort), nil)
-	if err != nil {
+	server := &http.Server{Addr: fmt.Sprintf("%s:%d", s.IP, s.WsPort)}
+	go func() {
+		<-s.exitChan
+		_ = server.Close()
+	}()
+	err := server.ListenAndServe()
+	if err != nil && !errors.Is(err, http.ErrServerClosed) {
 		panic(err)
 	}
 }
@@ -416,6 +424,11 @@ func (s *Server) ListenKcpConn() {
 			conn, err := listener.Accept()
 			if err != nil {
 				zlog.Ins().ErrorF("Accept KCP err: %v", err)
+				select {
+				case <-s.exitChan:
+					return
+				default:
+				}
 				AcceptDelay.Delay()
 				continue
 			}
@@ -454,6 +467,9 @@ func (s *Server) ListenKcpConn() {
 // (开启网络服务)
 func (s *Server) Start() {
 	s.exitChan = make(chan struct{})
+	s.admitLock.Lock()
+	s.stopped = false
+	s.admitLock.Unlock()
 
 	// Add decoder to interceptors head
 	// (将解码器添加到拦截器最前面)
@@ -484,11 +500,19 @@ func (s *Server) Start() {
 func (s *Server) Stop() {
 	zlog.Ins().InfoF("[STOP] Zinx server , name %s", s.Name)
 
+	// Connections being accepted right now are not to be missed below
+	// (正在接纳的连接也不能遗漏)
+	s.admitLock.Lock()
+	s.stopped = true
+	s.admitLock.Unlock()
+
 	// Clear other connection information or other information that needs to be cleaned up
 	// (将其他需要清理的连接信息或者其他信息 也要一并停止或者清理)
 	s.ConnMgr.ClearConn()
-	s.exitChan <- struct{}{}
-	close(s.exitChan)
+	// All listeners are to see it (通知所有监听)
+	if s.exitChan != nil {
+		close(s.exitChan)
+	}
 }
 
 // Serve runs the server (运行服务)
-- 
2.43.0


From ca339dc7418bce1735c8a995e454b238ea24cdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:26 +0000
Subject: [PATCH 12/52] fix: buffered sends of several goroutines share one
 queue, closed connection or not

Two first senders could find the queue not yet made and time out, and every
sender that met the connection closing closed the queue again.
---
 znet/connection.go | 55 +++++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 8ba8b69..af99f21 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -8,7 +8,6 @@ import (
 	"net"
 	"strconv"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/aceld/zinx/zconf"
@@ -59,9 +58,9 @@ type Connection struct {
 	// (有缓冲管道，用于读、写两个goroutine之间的消息通信)
 	msgBuffChan chan []byte
 
-	// Go StartWriter Flag
-	// (开始初始化写协程标志)
-	startWriterFlag int32
+	// Starts the writer goroutine on the first buffered send
+	// (首次缓冲发送时启动写协程)
+	startWriterOnce sync.Once
 
 	// Connection properties
 	// (连接属性)
@@ -124,16 +123,15 @@ func newServerConn(server ziface.IServer, conn net.Conn, connID uint64) ziface.I
 
 	// Initialize Conn properties
 	c := &Connection{
-		conn:            conn,
-		bufWriter:       bufio.NewWriterSize(conn, 16*1024),
-		connID:          connID,
-		connIdStr:       strconv.FormatUint(connID, 10),
-		startWriterFlag: 0,
-		msgBuffChan:     nil,
-		property:        nil,
-		name:            server.ServerName(),
-		localAddr:       conn.LocalAddr().String(),
-		remoteAddr:      conn.RemoteAddr().String(),
+		conn:        conn,
+		bufWriter:   bufio.NewWriterSize(conn, 16*1024),
+		connID:      connID,
+		connIdStr:   strconv.FormatUint(connID, 10),
+		msgBuffChan: nil,
+		property:    nil,
+		name:        server.ServerName(),
+		localAddr:   conn.LocalAddr().String(),
+		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
 	// The connection can be stopped from now on, also before Start runs
@@ -166,16 +164,15 @@ func newServerConn(server ziface.IServer, conn net.Conn, connID uint64) ziface.I
 // (创建一个Client服务端特性的连接的方法)
 func newClientConn(client ziface.IClient, conn net.Conn) ziface.IConnection {
 	c := &Connection{
-		conn:            conn,
-		bufWriter:       bufio.NewWriterSize(conn, 16*1024),
-		connID:          0,  // client ignore
-		connIdStr:       "", // client ignore
-		startWriterFlag: 0,
-		msgBuffChan:     nil,
-		property:        nil,
-		name:            client.GetName(),
-		localAddr:       conn.LocalAddr().String(),
-		remoteAddr:      conn.RemoteAddr().String(),
+		conn:        conn,
+		bufWriter:   bufio.NewWriterSize(conn, 16*1024),
+		connID:      0,  // client ignore
+		connIdStr:   "", // client ignore
+		msgBuffChan: nil,
+		property:    nil,
+		name:        client.GetName(),
+		localAddr:   conn.LocalAddr().String(),
+		remoteAddr:  conn.RemoteAddr().String(),
 	}
 
 	c.ctx, c.cancel = context.WithCancel(context.Background())
@@ -402,14 +399,14 @@ func (c *Connection) SendBuf(data []byte) error {
 
 func (c *Connection) SendToQueue(data []byte) error {
 
-	if c.msgBuffChan == nil && c.setStartWriterFlag() {
+	c.startWriterOnce.Do(func() {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
 		// Start a Goroutine to write data back to the client
 		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
 		// (开启用于写回客户端数据流程的Goroutine
 		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
 		go c.StartWriter()
-	}
+	})
 
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
@@ -426,8 +423,6 @@ func (c *Connection) SendToQueue(data []byte) error {
 	// Send timeout
 	select {
 	case <-c.ctx.Done():
-		// Close all channels associated with the connection
-		close(c.msgBuffChan)
 		return errors.New("connection closed when send buff msg")
 	case <-idleTimeout.C:
 		return errors.New("send buff msg timeout")
@@ -590,10 +585,6 @@ func (c *Connection) isClosed() bool {
 	return c.ctx == nil || c.ctx.Err() != nil
 }
 
-func (c *Connection) setStartWriterFlag() bool {
-	return atomic.CompareAndSwapInt32(&c.startWriterFlag, 0, 1)
-}
-
 func (s *Connection) AddCloseCallback(handler, key interface{}, f func()) {
 	if s.isClosed() {
 		return
-- 
2.43.0


From 17007347982840998d1e6caf06f84e91c2d4a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:26 +0000
Subject: [PATCH 13/52] fix: a buffered frame is written to the socket whole

When it did not fit the write buffer its first part was flushed alone, and a
concurrent direct send went out in the middle of it.
---
 znet/connection.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/znet/connection.go b/znet/connection.go
index af99f21..8e5b17c 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -389,6 +389,14 @@ func (c *Connection) SendBuf(data []byte) error {
 	if c.isClosed() == true {
 		return errors.New("connection closed when send msg")
 	}
+	// A frame that does not fit must not be written in part, a direct Send would come in between
+	// (放不下的帧不能只写出一部分，否则Send会插入到帧中间)
+	if len(data) > c.bufWriter.Available() {
+		if err := c.bufWriter.Flush(); err != nil {
+			zlog.Ins().ErrorF("SendMsg err data = %+v, err = %+v", data, err)
+			return err
+		}
+	}
 	_, err := c.bufWriter.Write(data)
 	if err != nil {
 		zlog.Ins().ErrorF("SendMsg err data = %+v, err = %+v", data, err)
-- 
2.43.0


From 07b4cb1ae8a26b537b7c4e3b0e84131b31340517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:56 +0000
Subject: [PATCH 14/52] fix: KCP buffered sends share one queue that is never
 closed under them

Concurrent first sends made two queues and two writers, which reordered or
lost messages, and a send racing with the teardown panicked on the closed
queue.
---
 znet/kcp_connection.go | 39 +++++++++------------------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index cceecb2..9a5506d 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -56,6 +56,10 @@ type KcpConnection struct {
 	// (有缓冲管道，用于读、写两个goroutine之间的消息通信)
 	msgBuffChan chan []byte
 
+	// Starts the writer goroutine on the first buffered send
+	// (首次缓冲发送时启动写协程)
+	startWriterOnce sync.Once
+
 	// Lock for user message reception and transmission
 	// (用户收发消息的Lock)
 	msgLock sync.RWMutex
@@ -367,17 +371,14 @@ func (c *KcpConnection) Send(data []byte) error {
 }
 
 func (c *KcpConnection) SendToQueue(data []byte) error {
-	c.msgLock.RLock()
-	defer c.msgLock.RUnlock()
-
-	if c.msgBuffChan == nil {
+	c.startWriterOnce.Do(func() {
 		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
 		// Start a Goroutine to write data back to the client
 		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
 		// (开启用于写回客户端数据流程的Goroutine
 		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
 		go c.StartWriter()
-	}
+	})
 
 	idleTimeout := time.NewTimer(5 * time.Millisecond)
 	defer idleTimeout.Stop()
@@ -393,6 +394,8 @@ func (c *KcpConnection) SendToQueue(data []byte) error {
 
 	// Send timeout
 	select {
+	case <-c.ctx.Done():
+		return errors.New("connection closed when send buff msg")
 	case <-idleTimeout.C:
 		return errors.New("send buff msg timeout")
 	case c.msgBuffChan <- data:
@@ -426,17 +429,6 @@ func (c *KcpConnection) SendBuffMsg(msgID uint32, data []byte) error {
 	if c.isClosed() {
 		return errors.New("connection closed when send buff msg")
 	}
-	if c.msgBuffChan == nil {
-		c.msgBuffChan = make(chan []byte, zconf.GlobalObject.MaxMsgChanLen)
-		// Start a Goroutine to write data back to the client
-		// This method only reads data from the MsgBuffChan without allocating memory or starting a Goroutine
-		// (开启用于写回客户端数据流程的Goroutine
-		// 此方法只读取MsgBuffChan中的数据没调用SendBuffMsg可以分配内存和启用协程)
-		go c.StartWriter()
-	}
-
-	idleTimeout := time.NewTimer(5 * time.Millisecond)
-	defer idleTimeout.Stop()
 
 	msg, err := c.packet.Pack(zpack.NewMsgPackage(msgID, data))
 	if err != nil {
@@ -444,13 +436,7 @@ func (c *KcpConnection) SendBuffMsg(msgID uint32, data []byte) error {
 		return errors.New("Pack error msg ")
 	}
 
-	// send timeout
-	select {
-	case <-idleTimeout.C:
-		return errors.New("send buff msg timeout")
-	case c.msgBuffChan <- msg:
-		return nil
-	}
+	return c.SendToQueue(msg)
 }
 
 func (c *KcpConnection) SetProperty(key string, value interface{}) {
@@ -519,13 +505,6 @@ func (c *KcpConnection) finalizer() {
 		c.connManager.Remove(c)
 	}
 
-	// Close all channels associated with the connection
-	c.msgLock.Lock()
-	if c.msgBuffChan != nil {
-		close(c.msgBuffChan)
-	}
-	c.msgLock.Unlock()
-
 	go func() {
 		defer func() {
 			if err := recover(); err != nil {
-- 
2.43.0


From ff48f28cb8936d755ef459371b904eb303845897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:21 +0000
Subject: [PATCH 15/52] fix: WebSocket buffered sends do not wait for a peer
 that does not read

They took the lock that is held while writing to the socket, so SendBuffMsg
blocked for as long as the peer did not read, and with it the worker.
---
 znet/ws_connection.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 004958b..ea0c356 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -60,6 +60,10 @@ type WsConnection struct {
 	// (用户收发消息的Lock)
 	msgLock sync.Mutex
 
+	// writeLock is held while a message is written to the peer, which may take long; buffered sends do not need it.
+	// (写socket期间持有，可能耗时较长；缓冲发送不需要它)
+	writeLock sync.Mutex
+
 	// property is the connection attribute. (连接属性)
 	property map[string]interface{}
 
@@ -356,9 +360,9 @@ func (c *WsConnection) LocalAddr() net.Addr {
 }
 
 func (c *WsConnection) Send(data []byte) error {
-	c.msgLock.Lock()
-	defer c.msgLock.Unlock()
-	if c.isClosed == true {
+	c.writeLock.Lock()
+	defer c.writeLock.Unlock()
+	if c.ctx.Err() != nil {
 		return errors.New("WsConnection closed when send msg")
 	}
 
@@ -407,9 +411,9 @@ func (c *WsConnection) SendToQueue(data []byte) error {
 // SendMsg directly sends the Message data to the remote TCP client.
 // (直接将Message数据发送数据给远程的TCP客户端)
 func (c *WsConnection) SendMsg(msgID uint32, data []byte) error {
-	c.msgLock.Lock()
-	defer c.msgLock.Unlock()
-	if c.isClosed == true {
+	c.writeLock.Lock()
+	defer c.writeLock.Unlock()
+	if c.ctx.Err() != nil {
 		return errors.New("WsConnection closed when send msg")
 	}
 
-- 
2.43.0


From 310a652196e836ed4f353028c6a40d1dc5e3ab67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:45 +0000
Subject: [PATCH 16/52] fix: sending on a WebSocket connection that is closing
 does not wait for a stalled peer

---
 znet/ws_connection.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index ea0c356..11898c7 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -360,6 +360,11 @@ func (c *WsConnection) LocalAddr() net.Addr {
 }
 
 func (c *WsConnection) Send(data []byte) error {
+	// A closing connection does not wait for a write blocked on a stalled peer
+	// (正在关闭的连接不等待阻塞在对端上的写操作)
+	if c.ctx.Err() != nil {
+		return errors.New("WsConnection closed when send msg")
+	}
 	c.writeLock.Lock()
 	defer c.writeLock.Unlock()
 	if c.ctx.Err() != nil {
@@ -411,6 +416,11 @@ func (c *WsConnection) SendToQueue(data []byte) error {
 // SendMsg directly sends the Message data to the remote TCP client.
 // (直接将Message数据发送数据给远程的TCP客户端)
 func (c *WsConnection) SendMsg(msgID uint32, data []byte) error {
+	// A closing connection does not wait for a write blocked on a stalled peer
+	// (正在关闭的连接不等待阻塞在对端上的写操作)
+	if c.ctx.Err() != nil {
+		return errors.New("WsConnection closed when send msg")
+	}
 	c.writeLock.Lock()
 	defer c.writeLock.Unlock()
 	if c.ctx.Err() != nil {
-- 
2.43.0


From 4565de0964e69e0239e6a31ae180004bcdef3938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:26 +0000
Subject: [PATCH 17/52] fix: DynamicBind mode works with a worker pool larger
 than MaxConn

---
 znet/msghandler.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index a6dba5e..3319138 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -80,7 +80,9 @@ func newMsgHandle() *MsgHandle {
 		for i := zconf.GlobalObject.WorkerPoolSize; i < uint32(zconf.GlobalObject.MaxConn); i++ {
 			extraFreeWorkers[i] = struct{}{}
 		}
-		TaskQueueLen = uint32(zconf.GlobalObject.MaxConn)
+		if TaskQueueLen < uint32(zconf.GlobalObject.MaxConn) {
+			TaskQueueLen = uint32(zconf.GlobalObject.MaxConn)
+		}
 	}
 
 	handle := &MsgHandle{
@@ -134,7 +136,9 @@ func newCliMsgHandle() *MsgHandle {
 		for i := zconf.GlobalObject.WorkerPoolSize; i < uint32(zconf.GlobalObject.MaxConn); i++ {
 			extraFreeWorkers[i] = struct{}{}
 		}
-		TaskQueueLen = uint32(zconf.GlobalObject.MaxConn)
+		if TaskQueueLen < uint32(zconf.GlobalObject.MaxConn) {
+			TaskQueueLen = uint32(zconf.GlobalObject.MaxConn)
+		}
 	}
 
 	handle := &MsgHandle{
-- 
2.43.0


From ff32de5cfb59340ce60b5bb0ce0fcc473b7a2602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:28 +0000
Subject: [PATCH 18/52] fix: the heartbeat check goes on while a heartbeat
 waits for a peer that does not read

---
 znet/heartbeat.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/znet/heartbeat.go b/znet/heartbeat.go
index b625b60..a3dabed 100644
--- a/znet/heartbeat.go
+++ b/znet/heartbeat.go
@@ -11,6 +11,7 @@ import (
 type HeartbeatChecker struct {
 	interval time.Duration //  Heartbeat detection interval(心跳检测时间间隔)
 	quitChan chan bool     // Quit signal(退出信号)
+	beating  chan struct{} // Held while a heartbeat is being sent(正在发送心跳时被占用)
 
 	makeMsg ziface.HeartBeatMsgFunc //User-defined heartbeat message processing method(用户自定义的心跳检测消息处理方法)
 
@@ -56,6 +57,7 @@ func NewHeartbeatChecker(interval time.Duration) ziface.IHeartbeatChecker {
 	heartbeat := &HeartbeatChecker{
 		interval: interval,
 		quitChan: make(chan bool),
+		beating:  make(chan struct{}, 1),
 
 		// Use default heartbeat message generation function and remote connection not alive handling method
 		// (均使用默认的心跳消息生成函数和远程连接不存活时的处理方法)
@@ -122,6 +124,9 @@ func (h *HeartbeatChecker) Start() {
 func (h *HeartbeatChecker) Stop() {
 	zlog.Ins().InfoF("heartbeat checker stop, connID=%+v", h.conn.GetConnID())
 	h.quitChan <- true
+	// Wait for the heartbeat being sent, if any (等待正在发送的心跳)
+	h.beating <- struct{}{}
+	<-h.beating
 }
 
 func (h *HeartbeatChecker) SendHeartBeatMsg() error {
@@ -145,15 +150,28 @@ func (h *HeartbeatChecker) check() (err error) {
 
 	if !h.conn.IsAlive() {
 		h.onRemoteNotAlive(h.conn)
-	} else {
-		if h.beatFunc != nil {
-			err = h.beatFunc(h.conn)
-		} else {
-			err = h.SendHeartBeatMsg()
-		}
+		return nil
+	}
+
+	// Sending blocks while the remote does not read, the checks have to go on meanwhile
+	// (对端不读取数据时发送会阻塞，检测需要继续进行)
+	select {
+	case h.beating <- struct{}{}:
+		go func() {
+			defer func() { <-h.beating }()
+			h.beat()
+		}()
+	default:
 	}
 
-	return err
+	return nil
+}
+
+func (h *HeartbeatChecker) beat() error {
+	if h.beatFunc != nil {
+		return h.beatFunc(h.conn)
+	}
+	return h.SendHeartBeatMsg()
 }
 
 func (h *HeartbeatChecker) BindConn(conn ziface.IConnection) {
@@ -168,6 +186,7 @@ func (h *HeartbeatChecker) Clone() ziface.IHeartbeatChecker {
 	heartbeat := &HeartbeatChecker{
 		interval:         h.interval,
 		quitChan:         make(chan bool),
+		beating:          make(chan struct{}, 1),
 		beatFunc:         h.beatFunc,
 		makeMsg:          h.makeMsg,
 		onRemoteNotAlive: h.onRemoteNotAlive,
-- 
2.43.0


From 4ad75c7132c2bd2fdb52397afcf8f142fdcfc0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:40 +0000
Subject: [PATCH 19/52] fix: a WebSocket ping counts as activity for the
 heartbeat check

---
 znet/ws_connection.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 11898c7..ba74c7e 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -190,6 +190,16 @@ func newWsClientConn(client ziface.IClient, conn *websocket.Conn) ziface.IConnec
 	return c
 }
 
+// watchPing counts a ping of the remote as activity: the websocket library answers it without handing it to the reader
+// (ping帧由websocket库直接应答，不会交给读协程，这里将其计为活动)
+func (c *WsConnection) watchPing() {
+	answer := c.conn.PingHandler()
+	c.conn.SetPingHandler(func(data string) error {
+		c.updateActivity()
+		return answer(data)
+	})
+}
+
 // StartWriter is a Goroutine that sends messages to the client
 // (StartWriter 写消息Goroutine， 用户将数据发送给客户端)
 func (c *WsConnection) StartWriter() {
@@ -227,6 +237,8 @@ func (c *WsConnection) StartReader() {
 		}
 	}()
 
+	c.watchPing()
+
 	// Create a pack-unpack object. (创建拆包解包的对象)
 	for {
 		select {
-- 
2.43.0


From 64c7285caa956d86ca4b2a26bd18855a2a785814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:53 +0000
Subject: [PATCH 20/52] fix: the heartbeat check does not start before the
 connection counts as active

---
 znet/connection.go     | 2 +-
 znet/kcp_connection.go | 2 +-
 znet/ws_connection.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 8e5b17c..70ae217 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -309,8 +309,8 @@ func (c *Connection) Start() {
 
 	// Start heartbeating detection
 	if c.hc != nil {
-		c.hc.Start()
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// 占用workerid
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 9a5506d..9a8b6a9 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -297,8 +297,8 @@ func (c *KcpConnection) Start() {
 
 	// Start heartbeating detection
 	if c.hc != nil {
-		c.hc.Start()
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// 占用workerid
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index ba74c7e..bafc551 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -314,8 +314,8 @@ func (c *WsConnection) Start() {
 	// Start the heartbeat check
 	// (启动心跳检测)
 	if c.hc != nil {
-		c.hc.Start()
 		c.updateActivity()
+		c.hc.Start()
 	}
 
 	// 占用workerid
-- 
2.43.0


From ea2cc1c2796901863af9846015b8d661206ae386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:38 +0000
Subject: [PATCH 21/52] fix: a panic in a heartbeat function does not end the
 process

---
 znet/heartbeat.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/znet/heartbeat.go b/znet/heartbeat.go
index a3dabed..f79c607 100644
--- a/znet/heartbeat.go
+++ b/znet/heartbeat.go
@@ -148,6 +148,8 @@ func (h *HeartbeatChecker) check() (err error) {
 		return nil
 	}
 
+	defer h.recover()
+
 	if !h.conn.IsAlive() {
 		h.onRemoteNotAlive(h.conn)
 		return nil
@@ -159,6 +161,7 @@ func (h *HeartbeatChecker) check() (err error) {
 	case h.beating <- struct{}{}:
 		go func() {
 			defer func() { <-h.beating }()
+			defer h.recover()
 			h.beat()
 		}()
 	default:
@@ -174,6 +177,14 @@ func (h *HeartbeatChecker) beat() error {
 	return h.SendHeartBeatMsg()
 }
 
+// recover keeps a panic of a user-defined heartbeat function from ending the process
+// (防止用户自定义的心跳函数panic导致进程退出)
+func (h *HeartbeatChecker) recover() {
+	if err := recover(); err != nil {
+		zlog.Ins().ErrorF("heartbeat checker panic: %v", err)
+	}
+}
+
 func (h *HeartbeatChecker) BindConn(conn ziface.IConnection) {
 	h.conn = conn
 	conn.SetHeartBeat(h)
-- 
2.43.0


From 553317a46f3df8ddc3d9f9ca61ed0ae36b60d4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:38 +0000
Subject: [PATCH 22/52] fix: a connection whose start or stop hook panics is
 torn down completely

---
 znet/connection.go     | 13 +++++++++++++
 znet/kcp_connection.go | 13 +++++++++++++
 znet/ws_connection.go  | 13 +++++++++++++
 3 files changed, 39 insertions(+)

diff --git a/znet/connection.go b/znet/connection.go
index 70ae217..8f1fbb5 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -543,6 +543,14 @@ func (c *Connection) finalizer() {
 
 func (c *Connection) callOnConnStart() {
 	if c.onConnStart != nil {
+		// A connection whose hook panics is closed, not left behind half started
+		// (hook发生panic的连接将被关闭，而不是遗留一个未完全启动的连接)
+		defer func() {
+			if err := recover(); err != nil {
+				zlog.Ins().ErrorF("connID=%d, OnConnStart panic: %v", c.GetConnID(), err)
+				c.Stop()
+			}
+		}()
 		zlog.Ins().InfoF("ZINX CallOnConnStart....")
 		c.onConnStart(c)
 	}
@@ -550,6 +558,11 @@ func (c *Connection) callOnConnStart() {
 
 func (c *Connection) callOnConnStop() {
 	if c.onConnStop != nil {
+		defer func() {
+			if err := recover(); err != nil {
+				zlog.Ins().ErrorF("connID=%d, OnConnStop panic: %v", c.GetConnID(), err)
+			}
+		}()
 		zlog.Ins().InfoF("ZINX CallOnConnStop....")
 		c.onConnStop(c)
 	}
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 9a8b6a9..47ab325 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -520,6 +520,14 @@ func (c *KcpConnection) finalizer() {
 
 func (c *KcpConnection) callOnConnStart() {
 	if c.onConnStart != nil {
+		// A connection whose hook panics is closed, not left behind half started
+		// (hook发生panic的连接将被关闭，而不是遗留一个未完全启动的连接)
+		defer func() {
+			if err := recover(); err != nil {
+				zlog.Ins().ErrorF("connID=%d, OnConnStart panic: %v", c.GetConnID(), err)
+				c.Stop()
+			}
+		}()
 		zlog.Ins().DebugF("ZINX CallOnConnStart....")
 		c.onConnStart(c)
 	}
@@ -527,6 +535,11 @@ func (c *KcpConnection) callOnConnStart() {
 
 func (c *KcpConnection) callOnConnStop() {
 	if c.onConnStop != nil {
+		defer func() {
+			if err := recover(); err != nil {
+				zlog.Ins().ErrorF("connID=%d, OnConnStop panic: %v", c.GetConnID(), err)
+			}
+		}()
 		zlog.Ins().DebugF("ZINX CallOnConnStop....")
 		c.onConnStop(c)
 	}
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index bafc551..7ec99c8 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -581,6 +581,14 @@ func (c *WsConnection) finalizer() {
 
 func (c *WsConnection) callOnConnStart() {
 	if c.onConnStart != nil {
+		// A connection whose hook panics is closed, not left behind half started
+		// (hook发生panic的连接将被关闭，而不是遗留一个未完全启动的连接)
+		defer func() {
+			if err := recover(); err != nil {
+				zlog.Ins().ErrorF("connID=%d, OnConnStart panic: %v", c.GetConnID(), err)
+				c.Stop()
+			}
+		}()
 		zlog.Ins().InfoF("ZINX CallOnConnStart....")
 		c.onConnStart(c)
 	}
@@ -588,6 +596,11 @@ func (c *WsConnection) callOnConnStart() {
 
 func (c *WsConnection) callOnConnStop() {
 	if c.onConnStop != nil {
+		defer func() {
+			if err := recover(); err != nil {
+				zlog.Ins().ErrorF("connID=%d, OnConnStop panic: %v", c.GetConnID(), err)
+			}
+		}()
 		zlog.Ins().InfoF("ZINX CallOnConnStop....")
 		c.onConnStop(c)
 	}
-- 
2.43.0


From 41a0fef7bffb0c836e5baeebcfe3f7b0c625e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:33 +0000
Subject: [PATCH 23/52] fix: a client can be stopped at any moment and
 restarted after a failed dial

---
 znet/client.go | 84 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 69 insertions(+), 15 deletions(-)

diff --git a/znet/client.go b/znet/client.go
index 123857a..3f7f5f6 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -3,6 +3,7 @@ package znet
 import (
 	"crypto/tls"
 	"fmt"
+	"io"
 	"net"
 	"net/url"
 	"sync"
@@ -50,6 +51,8 @@ type Client struct {
 	dialer *websocket.Dialer
 	// Error channel
 	ErrChan chan error
+	// Stop has closed the error channel (Stop已关闭错误通道)
+	stopped bool
 }
 
 func NewClient(ip string, port int, opts ...ClientOption) ziface.IClient {
@@ -65,7 +68,7 @@ func NewClient(ip string, port int, opts ...ClientOption) ziface.IClient {
 		packet:     zpack.Factory().NewPack(ziface.ZinxDataPack), // Default to using Zinx's TLV packet format(默认使用zinx的TLV封包方式)
 		decoder:    zdecoder.NewTLVDecoder(),                     // Default to using Zinx's TLV decoder(默认使用zinx的TLV解码器)
 		version:    "tcp",
-		ErrChan:    make(chan error),
+		ErrChan:    make(chan error, 1),
 	}
 
 	// Apply Option settings (应用Option设置)
@@ -90,7 +93,7 @@ func NewWsClient(ip string, port int, opts ...ClientOption) ziface.IClient {
 		decoder:    zdecoder.NewTLVDecoder(),                     // Default to using Zinx's TLV decoder(默认使用zinx的TLV解码器)
 		version:    "websocket",
 		dialer:     &websocket.Dialer{},
-		ErrChan:    make(chan error),
+		ErrChan:    make(chan error, 1),
 	}
 
 	// Apply Option settings (应用Option设置)
@@ -113,7 +116,7 @@ func NewTLSClient(ip string, port int, opts ...ClientOption) ziface.IClient {
 // Start starts the client, sends requests and establishes a connection.
 // (重新启动客户端，发送请求且建立连接)
 func (c *Client) Restart() {
-	c.exitChan = make(chan struct{})
+	exitChan := c.begin()
 
 	go func() {
 
@@ -125,6 +128,7 @@ func (c *Client) Restart() {
 
 		// Create a raw socket and get net.Conn (创建原始Socket，得到net.Conn)
 		var connect ziface.IConnection
+		var raw io.Closer
 		switch c.version {
 		case "websocket":
 			wsAddr := fmt.Sprintf("ws://%s:%d", c.Ip, c.Port)
@@ -137,11 +141,11 @@ func (c *Client) Restart() {
 			if err != nil {
 				// connection failed
 				zlog.Ins().ErrorF("WsClient connect to server failed, err:%v", err)
-				c.ErrChan <- err
+				c.reportErr(exitChan, err)
 				return
 			}
 			// Create Connection object
-			connect = newWsClientConn(c, wsConn)
+			connect, raw = newWsClientConn(c, wsConn), wsConn
 
 		default:
 			var conn net.Conn
@@ -157,7 +161,7 @@ func (c *Client) Restart() {
 				conn, err = tls.Dial("tcp", fmt.Sprintf("%v:%v", net.ParseIP(c.Ip), c.Port), config)
 				if err != nil {
 					zlog.Ins().ErrorF("tls client connect to server failed, err:%v", err)
-					c.ErrChan <- err
+					c.reportErr(exitChan, err)
 					return
 				}
 			} else {
@@ -165,16 +169,20 @@ func (c *Client) Restart() {
 				if err != nil {
 					// connection failed
 					zlog.Ins().ErrorF("client connect to server failed, err:%v", err)
-					c.ErrChan <- err
+					c.reportErr(exitChan, err)
 					return
 				}
 			}
 			// Create Connection object
-			connect = newClientConn(c, conn)
+			connect, raw = newClientConn(c, conn), conn
 		}
 
 		// Set connection to the client
-		c.setConn(connect)
+		if !c.setConn(exitChan, connect) {
+			// Stopped while dialing (拨号过程中客户端已停止)
+			_ = raw.Close()
+			return
+		}
 
 		zlog.Ins().InfoF("[START] Zinx Client LocalAddr: %s, RemoteAddr: %s\n", connect.LocalAddr(), connect.RemoteAddr())
 		// HeartBeat detection
@@ -188,7 +196,7 @@ func (c *Client) Restart() {
 		go connect.Start()
 
 		select {
-		case <-c.exitChan:
+		case <-exitChan:
 			zlog.Ins().InfoF("client exit.")
 		}
 	}()
@@ -244,14 +252,53 @@ func (c *Client) StartHeartBeatWithOption(interval time.Duration, option *ziface
 }
 
 func (c *Client) Stop() {
-	con := c.Conn()
+	// The connection, if any, is stopped below. One still being dialed finds the client stopped
+	// (已建立的连接在下面停止，仍在拨号的连接会发现客户端已停止)
+	c.connMux.Lock()
+	con := c.conn
+	if c.exitChan != nil {
+		close(c.exitChan)
+		c.exitChan = nil
+	}
+	if !c.stopped {
+		c.stopped = true
+		close(c.ErrChan)
+	}
+	c.connMux.Unlock()
+
 	if con != nil {
 		zlog.Ins().InfoF("[STOP] Zinx Client LocalAddr: %s, RemoteAddr: %s\n", con.LocalAddr(), con.RemoteAddr())
 		con.Stop()
 	}
-	c.exitChan <- struct{}{}
-	close(c.exitChan)
-	close(c.ErrChan)
+}
+
+// begin returns the exit channel of the client, with new channels if it has been stopped
+// (返回客户端的退出通道，如果客户端已停止则重新创建)
+func (c *Client) begin() chan struct{} {
+	c.connMux.Lock()
+	defer c.connMux.Unlock()
+	if c.stopped {
+		c.stopped = false
+		c.ErrChan = make(chan error, 1)
+	}
+	if c.exitChan == nil {
+		c.exitChan = make(chan struct{})
+	}
+	return c.exitChan
+}
+
+// reportErr reports a failed dial, unless the client has been stopped. It does not wait for a reader
+// (报告连接失败，客户端已停止则忽略，不等待读取者)
+func (c *Client) reportErr(exitChan chan struct{}, err error) {
+	c.connMux.Lock()
+	defer c.connMux.Unlock()
+	if c.exitChan != exitChan {
+		return
+	}
+	select {
+	case c.ErrChan <- err:
+	default:
+	}
 }
 
 func (c *Client) AddRouter(msgID uint32, router ziface.IRouter) {
@@ -264,10 +311,15 @@ func (c *Client) Conn() ziface.IConnection {
 	return c.conn
 }
 
-func (c *Client) setConn(con ziface.IConnection) {
+// setConn sets the connection, unless the client has been stopped (设置连接，客户端已停止则返回false)
+func (c *Client) setConn(exitChan chan struct{}, con ziface.IConnection) bool {
 	c.connMux.Lock()
 	defer c.connMux.Unlock()
+	if c.exitChan != exitChan {
+		return false
+	}
 	c.conn = con
+	return true
 }
 
 func (c *Client) SetOnConnStart(hookFunc func(ziface.IConnection)) {
@@ -313,6 +365,8 @@ func (c *Client) GetLengthField() *ziface.LengthField {
 }
 
 func (c *Client) GetErrChan() chan error {
+	c.connMux.Lock()
+	defer c.connMux.Unlock()
 	return c.ErrChan
 }
 
-- 
2.43.0


From 778567ad17d079ce93ebaa8a1b82432090ef553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:04 +0000
Subject: [PATCH 24/52] fix: a WebSocket server goes on after accept errors

---
 znet/server.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/znet/server.go b/znet/server.go
index f5e26ee..64ca889 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -393,12 +393,34 @@ func (s *Server) ListenWebsocketConn() {
 		<-s.exitChan
 		_ = server.Close()
 	}()
-	err := server.ListenAndServe()
+	listener, err := net.Listen("tcp", server.Addr)
+	if err != nil {
+		panic(err)
+	}
+	err = server.Serve(retryListener{listener})
 	if err != nil && !errors.Is(err, http.ErrServerClosed) {
 		panic(err)
 	}
 }
 
+// retryListener accepts again after an error, as long as the listener is open;
+// http.Server gives up on errors it does not take for temporary.
+// (监听器未关闭时，accept 出错后继续重试)
+type retryListener struct {
+	net.Listener
+}
+
+func (l retryListener) Accept() (net.Conn, error) {
+	for {
+		conn, err := l.Listener.Accept()
+		if err == nil || errors.Is(err, net.ErrClosed) {
+			return conn, err
+		}
+		zlog.Ins().ErrorF("Accept err: %v", err)
+		AcceptDelay.Delay()
+	}
+}
+
 func (s *Server) ListenKcpConn() {
 
 	// 1. Listen to the server address
-- 
2.43.0


From 49387c0cb8257d949ebe5e36297c93d63b122af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:52 +0000
Subject: [PATCH 25/52] fix: an async completion callback sees its result and
 does not block its own worker

---
 zasync_op/async_op_result.go | 97 ++++++++++++++++++++++++------------
 1 file changed, 65 insertions(+), 32 deletions(-)

diff --git a/zasync_op/async_op_result.go b/zasync_op/async_op_result.go
index 27b8284..906bf99 100644
--- a/zasync_op/async_op_result.go
+++ b/zasync_op/async_op_result.go
@@ -7,9 +7,10 @@
 package zasync_op
 
 import (
-	"sync/atomic"
+	"sync"
 
 	"github.com/aceld/zinx/ziface"
+	"github.com/aceld/zinx/zlog"
 	"github.com/aceld/zinx/znet"
 )
 
@@ -21,61 +22,93 @@ type AsyncOpResult struct {
 	// Completion callback function(完成回调函数)
 	completeFunc func()
 	// Whether the return value has been set(是否已有返回值)
-	hasReturnedObj int32
+	hasReturnedObj bool
 	// Whether the completion callback function has been set(是否已有回调函数)
-	hasCompleteFunc int32
+	hasCompleteFunc bool
 	// Whether the completion function has already been called(是否已经调用过完成函数)
-	completeFuncHasAlreadyBeenCalled int32 // Default value = 0, not yet called (默认值 = 0, 没被调用过)
+	completeFuncHasAlreadyBeenCalled bool // Default value = false, not yet called (默认值 = false, 没被调用过)
+	// Protects the fields above, result and callback may be set by different goroutines (保护以上字段)
+	lock sync.Mutex
 }
 
 // GetReturnedObj returns the return value (获取返回值)
 func (aor *AsyncOpResult) GetReturnedObj() interface{} {
+	aor.lock.Lock()
+	defer aor.lock.Unlock()
 	return aor.returnedObj
 }
 
 // SetReturnedObj sets the return value(设置返回值)
 func (aor *AsyncOpResult) SetReturnedObj(val interface{}) {
-	if atomic.CompareAndSwapInt32(&aor.hasReturnedObj, 0, 1) {
-		aor.returnedObj = val
-		// **** 防止未调用回调函数问题: 设置处理结果时，直接调用回调函数：1.回调函数未绑定，调用空；2.回调函数已绑定,立马调用 ****
-		// **** Prevent the problem of not calling the completion callback function:
-		// Call the callback function directly when setting the processing result:
-		// 1. If the callback function is not bound, it will be called with nil;
-		// 2. If the callback function is bound, it will be called immediately. ****
+	aor.lock.Lock()
+	if aor.hasReturnedObj {
+		aor.lock.Unlock()
+		return
+	}
+	aor.hasReturnedObj = true
+	aor.returnedObj = val
+	// **** 防止未调用回调函数问题: 设置处理结果时，直接调用回调函数：1.回调函数未绑定，调用空；2.回调函数已绑定,立马调用 ****
+	// **** Prevent the problem of not calling the completion callback function:
+	// Call the callback function directly when setting the processing result:
+	// 1. If the callback function is not bound, it will be called with nil;
+	// 2. If the callback function is bound, it will be called immediately. ****
+	ready := aor.takeComplete()
+	aor.lock.Unlock()
+
+	if ready {
 		aor.doComplete()
 	}
 }
 
 // OnComplete sets the completion callback function(完成回调函数)
 func (aor *AsyncOpResult) OnComplete(val func()) {
-	if atomic.CompareAndSwapInt32(&aor.hasCompleteFunc, 0, 1) {
-		aor.completeFunc = val
+	aor.lock.Lock()
+	if aor.hasCompleteFunc {
+		aor.lock.Unlock()
+		return
+	}
+	aor.hasCompleteFunc = true
+	aor.completeFunc = val
+	// **** 防止未调用回调函数问题:设置回调函数时，发现已经有处理结果了，直接调用 ****
+	// **** Prevent the problem of not calling the completion callback function:
+	// If a processing result already exists when setting the callback function,
+	// call the callback function directly. ****
+	ready := aor.takeComplete()
+	aor.lock.Unlock()
 
-		// **** 防止未调用回调函数问题:设置回调函数时，发现已经有处理结果了，直接调用 ****
-		// **** Prevent the problem of not calling the completion callback function:
-		// If a processing result already exists when setting the callback function,
-		// call the callback function directly. ****
-		if atomic.LoadInt32(&aor.hasReturnedObj) == 1 {
+	if ready {
+		// OnComplete is usually called on the business thread itself, which must not wait
+		// for room in its own task queue
+		// (OnComplete 通常在业务线程里调用, 不能阻塞等待自己的任务队列)
+		go func() {
+			defer func() {
+				if err := recover(); err != nil {
+					zlog.Ins().ErrorF("async complete panic: %v", err)
+				}
+			}()
 			aor.doComplete()
-		}
+		}()
 	}
 }
 
-// doComplete executes the completion callback function, double-checking when setting the processing result and callback function to prevent the possibility of not calling the callback function
-// (执行完成回调,在设置处理结果和回调函数的时候双重检查，杜绝未调用回调函数的可能性)
-func (aor *AsyncOpResult) doComplete() {
-	if aor.completeFunc == nil {
-		return
+// takeComplete reports, once, that both the result and the callback are there
+// (结果和回调函数都已设置时返回true, 只返回一次)
+func (aor *AsyncOpResult) takeComplete() bool {
+	if !aor.hasReturnedObj || aor.completeFunc == nil || aor.completeFuncHasAlreadyBeenCalled {
+		return false
 	}
+	aor.completeFuncHasAlreadyBeenCalled = true
+	return true
+}
 
-	// Prevent re-entry problems (防止可重入问题)
-	if atomic.CompareAndSwapInt32(&aor.completeFuncHasAlreadyBeenCalled, 0, 1) {
-		// Prevent cross-thread calling problems,
-		// throw it to the corresponding business thread to execute
-		// (防止跨线程调用问题,扔到所属业务线程里去执行)
-		request := znet.NewFuncRequest(aor.conn, aor.completeFunc)
-		aor.conn.GetMsgHandler().SendMsgToTaskQueue(request)
-	}
+// doComplete hands the completion callback function to the business thread
+// (将完成回调交给所属业务线程执行)
+func (aor *AsyncOpResult) doComplete() {
+	// Prevent cross-thread calling problems,
+	// throw it to the corresponding business thread to execute
+	// (防止跨线程调用问题,扔到所属业务线程里去执行)
+	request := znet.NewFuncRequest(aor.conn, aor.completeFunc)
+	aor.conn.GetMsgHandler().SendMsgToTaskQueue(request)
 }
 
 // NewAsyncOpResult creates a new asynchronous result(新建异步结果)
-- 
2.43.0


From 12c917e0cd50b0a23d0324be78a4b8dbbacfdedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:36 +0000
Subject: [PATCH 26/52] fix: the id generator reports a clock that goes back
 while it waits for the next millisecond

---
 zutils/snowflake_uuid.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zutils/snowflake_uuid.go b/zutils/snowflake_uuid.go
index 542c5b5..a200c4c 100644
--- a/zutils/snowflake_uuid.go
+++ b/zutils/snowflake_uuid.go
@@ -56,6 +56,11 @@ func (w *IDWorker) NextID() (int64, error) {
 		w.sequence = (w.sequence + 1) & sequenceMask
 		if w.sequence == 0 {
 			timestamp = w.nextMillisecond(timestamp)
+			if timestamp < w.lastTimestamp {
+				// the sequence of lastTimestamp stays used up
+				w.sequence = sequenceMask
+				return 0, fmt.Errorf("clock moved backwards")
+			}
 		}
 	} else {
 		w.sequence = 0
@@ -67,7 +72,7 @@ func (w *IDWorker) NextID() (int64, error) {
 }
 
 func (w *IDWorker) nextMillisecond(currentTimestamp int64) int64 {
-	for currentTimestamp <= w.lastTimestamp {
+	for currentTimestamp == w.lastTimestamp {
 		currentTimestamp = time.Now().UnixNano() / 1000000
 	}
 	return currentTimestamp
-- 
2.43.0


From 885d65e638d5a0c41005b9e250f8bb3080629593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:32 +0000
Subject: [PATCH 27/52] fix: the copy of a request has its data and interceptor
 response

---
 znet/request.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/znet/request.go b/znet/request.go
index 6b6e474..5be8741 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -120,14 +120,10 @@ func (r *Request) Copy() ziface.IRequest {
 	}
 
 	// 复制一份原本的 icResp
-	copyResp := []ziface.IcResp{r.icResp}
-	newIcResp := make([]ziface.IcResp, 0, 1)
-	copy(newIcResp, copyResp)
-	for _, v := range newIcResp {
-		newRequest.icResp = v
-	}
-	// 复制一份原本的 msg 信息
+	newRequest.icResp = r.icResp
+	// 复制一份原本的 msg 信息, 解码后的数据和原始数据可能不同
 	newRequest.msg = zpack.NewMessageByMsgId(r.msg.GetMsgID(), r.msg.GetDataLen(), r.msg.GetRawData())
+	newRequest.msg.SetData(r.msg.GetData())
 
 	return newRequest
 }
-- 
2.43.0


From ae12e2751178cc86e885fbbc8aaf0933b2b355ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:07 +0000
Subject: [PATCH 28/52] fix: a pooled request starts without the interceptor
 response of an earlier message

---
 znet/request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/znet/request.go b/znet/request.go
index 5be8741..8c07b11 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -94,7 +94,7 @@ func (r *Request) Reset(conn ziface.IConnection, msg ziface.IMessage) {
 	r.needNext = true
 	r.index = -1
 	r.keys = nil
-
+	r.icResp = nil
 }
 
 // Copy 在执行路由函数的时候可能会出现需要再起一个协程的需求,但是 Request 对象由对象池管理后无法保证新协程中的 Request 参数一致
-- 
2.43.0


From 03c6f097579e337d441ff758e202224c8af4b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:25 +0000
Subject: [PATCH 29/52] fix: a broadcast to a peer that does not read does not
 block the notifier

NotifyAll held the lock of a shard of the id map while it wrote to the
connections, so with one stalled peer registering, deleting and (behind the
waiting writer) every lookup and buffered notification blocked too.
---
 znotify/notify.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/znotify/notify.go b/znotify/notify.go
index 51b1107..f1dcade 100644
--- a/znotify/notify.go
+++ b/znotify/notify.go
@@ -76,13 +76,15 @@ func (n *notify) NotifyToConnByID(Id uint64, MsgId uint32, data []byte) error {
 
 func (n *notify) NotifyAll(MsgId uint32, data []byte) error {
 
-	n.connIdMap.IterCb(func(key string, v interface{}) {
+	// Send to a snapshot: a peer that does not read must not hold up the map
+	// (对快照发送：不读取数据的对端不能占住map的锁)
+	for key, v := range n.connIdMap.Items() {
 		conn, _ := v.(ziface.IConnection)
 		err := conn.SendMsg(MsgId, data)
 		if err != nil {
 			zlog.Ins().ErrorF("Notify to %s err:%s \n", key, err)
 		}
-	})
+	}
 
 	return nil
 }
-- 
2.43.0


From c03c1a252ce47db7196c13422ef0d3d70c3f8c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:19 +0000
Subject: [PATCH 30/52] fix: closing the log writer does not lose lines written
 meanwhile

---
 zutils/witer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index 01efae5..3001737 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -200,7 +200,6 @@ func (w *Writer) time2name(t time.Time) string {
 }
 
 func (w *Writer) Close() error {
-	w.flush()
 	return w.close()
 }
 
@@ -211,9 +210,14 @@ func (w *Writer) close() error {
 	if w.file == nil {
 		return nil
 	}
+	// Flush in the same critical section, or lines written in between are lost
+	// (与关闭在同一临界区内刷新，避免丢失其间写入的日志)
+	err := w.bw.Flush()
 	w.file.Sync()
-	err := w.file.Close()
-	w.file = nil
+	if e := w.file.Close(); err == nil {
+		err = e
+	}
+	w.file, w.bw = nil, nil
 	return err
 }
 
-- 
2.43.0


From dea27b1adef81a9193466a04e1486fd77207cf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:19 +0000
Subject: [PATCH 31/52] fix: logging resumes after file-system errors

---
 zutils/witer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index 3001737..170ce05 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -122,6 +122,7 @@ func (w *Writer) Write(p []byte) (n int, err error) {
 	n, err = w.bw.Write(p)
 	w.size += int64(n)
 	if err != nil {
+		w.bw.Reset(w.file) // bufio keeps failing after an error, start over (bufio出错后会一直失败，需重置)
 		return n, err
 	}
 	return
@@ -134,6 +135,7 @@ func (w *Writer) rotate() error {
 		w.bw.Flush()
 		w.file.Sync()
 		w.file.Close()
+		w.file, w.bw = nil, nil // if opening fails below, the next Write tries again (若下面打开失败，下次写入时重试)
 		// 保存
 		fbak := w.fname + w.time2name(w.created)
 		fbakname := fbak + w.fsuffix
@@ -156,6 +158,7 @@ func (w *Writer) rotate() error {
 		w.created = finfo.ModTime()
 	}
 	w.creates = w.created.AppendFormat(nil, time.RFC3339)
+	os.MkdirAll(w.fdir, 0755)
 	fout, err := os.OpenFile(w.fpath, os.O_CREATE|os.O_RDWR|os.O_APPEND, 0666)
 	if err != nil {
 		return err
@@ -227,7 +230,11 @@ func (w *Writer) flush() error {
 	if w.bw == nil {
 		return nil
 	}
-	return w.bw.Flush()
+	err := w.bw.Flush()
+	if err != nil {
+		w.bw.Reset(w.file)
+	}
+	return err
 }
 
 // ZipToFile 压缩至文件
-- 
2.43.0


From 42dc02e51c54848ef50e879a8209a3c62e7d2e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:19 +0000
Subject: [PATCH 32/52] fix: a rotated log is removed only when its archive is
 complete

---
 zutils/witer.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/zutils/witer.go b/zutils/witer.go
index 170ce05..f2a4851 100644
--- a/zutils/witer.go
+++ b/zutils/witer.go
@@ -247,10 +247,13 @@ func ZipToFile(dst, src string) error {
 	if err != nil {
 		return err
 	}
-	defer fw.Close()
 
 	// 执行压缩
-	return Zip(fw, src)
+	err = Zip(fw, src)
+	if e := fw.Close(); err == nil {
+		err = e
+	}
+	return err
 }
 
 // Zip 压缩文件或目录
@@ -269,11 +272,9 @@ func Zip(dst io.Writer, src string) error {
 
 	// 通文件流句柄创建一个ZIP压缩包
 	zw := zip.NewWriter(dst)
-	// 延迟关闭这个压缩包
-	defer zw.Close()
 
 	// 通过filepath封装的Walk来递归处理源路径到压缩文件中
-	return filepath.Walk(src, func(path string, info fs.FileInfo, err error) error {
+	err = filepath.Walk(src, func(path string, info fs.FileInfo, err error) error {
 		// 是否存在异常
 		if err != nil {
 			return err
@@ -328,4 +329,9 @@ func Zip(dst io.Writer, src string) error {
 		// 搞定
 		return nil
 	})
+	// 关闭这个压缩包，目录在此时写入，出错则压缩包不可用
+	if e := zw.Close(); err == nil {
+		err = e
+	}
+	return err
 }
-- 
2.43.0


From 31f8606b83e1f97be7321e648693a2f759bd771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:19 +0000
Subject: [PATCH 33/52] fix: fatal and panic lines reach the log file

---
 zlog/logger_core.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index 143e64c..a28642c 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -304,6 +304,7 @@ func (log *ZinxLoggerCore) Fatalf(format string, v ...interface{}) {
 		return
 	}
 	_ = log.OutPut(LogFatal, fmt.Sprintf(format, v...))
+	log.closeFile() // the file is buffered (文件有缓冲，退出前写入)
 	os.Exit(1)
 }
 
@@ -312,6 +313,7 @@ func (log *ZinxLoggerCore) Fatal(v ...interface{}) {
 		return
 	}
 	_ = log.OutPut(LogFatal, fmt.Sprintln(v...))
+	log.closeFile() // the file is buffered (文件有缓冲，退出前写入)
 	os.Exit(1)
 }
 
@@ -321,6 +323,7 @@ func (log *ZinxLoggerCore) Panicf(format string, v ...interface{}) {
 	}
 	s := fmt.Sprintf(format, v...)
 	_ = log.OutPut(LogPanic, s)
+	log.closeFile() // the file is buffered; a later line opens it again (文件有缓冲，之后的日志会重新打开)
 	panic(s)
 }
 
@@ -330,6 +333,7 @@ func (log *ZinxLoggerCore) Panic(v ...interface{}) {
 	}
 	s := fmt.Sprintln(v...)
 	_ = log.OutPut(LogPanic, s)
+	log.closeFile() // the file is buffered; a later line opens it again (文件有缓冲，之后的日志会重新打开)
 	panic(s)
 }
 
-- 
2.43.0


From 10a3560d65c339db2c4cd4b67a36c29a2d2acc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:19 +0000
Subject: [PATCH 34/52] fix: a restarted client does not share its heartbeat
 checker with the connection before

---
 znet/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/znet/client.go b/znet/client.go
index 3f7f5f6..ec5d4ce 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -189,7 +189,9 @@ func (c *Client) Restart() {
 		if c.hc != nil {
 			// Bind connection and heartbeat detector after connection is successfully established
 			// (创建连接成功，绑定连接与心跳检测器)
-			c.hc.BindConn(connect)
+			// Each connection has its own, the one of the connection before may still be running
+			// (每个连接各自一个，上一个连接的检测器可能仍在运行)
+			c.hc.Clone().BindConn(connect)
 		}
 
 		// Start connection
-- 
2.43.0


From 8b0290aaf339ff3f4b786874ccaba956465a16ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:19 +0000
Subject: [PATCH 35/52] fix: simultaneous WebSocket handshakes negotiate their
 subprotocols separately

---
 znet/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index 64ca889..8d75f66 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -362,12 +362,15 @@ func (s *Server) ListenWebsocketConn() {
 		}
 		// 3. Check if there is a subprotocol specified in the header
 		// (判断 header 里面是有子协议)
+		// A copy, other requests may be upgraded at the same moment
+		// (使用副本，其他请求可能同时在升级)
+		upgrader := *s.upgrader
 		if len(r.Header.Get("Sec-Websocket-Protocol")) > 0 {
-			s.upgrader.Subprotocols = websocket.Subprotocols(r)
+			upgrader.Subprotocols = websocket.Subprotocols(r)
 		}
 		// 4. Upgrade the connection to a websocket connection
 		// (升级成 websocket 连接)
-		conn, err := s.upgrader.Upgrade(w, r, nil)
+		conn, err := upgrader.Upgrade(w, r, nil)
 		if err != nil {
 			zlog.Ins().ErrorF("new websocket err:%v", err)
 			w.WriteHeader(500)
-- 
2.43.0


From e63bff1af4707dcd3fe5709da00d218a9bfc555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:49 +0000
Subject: [PATCH 36/52] fix: a connection without workers neither takes nor
 frees one

---
 znet/msghandler.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 3319138..8ec1fe4 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -172,6 +172,12 @@ func useWorker(conn ziface.IConnection) uint32 {
 		return 0
 	}
 
+	//Compatible with the situation where the client has no worker, and solve the situation divide 0
+	//(兼容client没有worker情况，解决除0的情况)
+	if mh.WorkerPoolSize == 0 {
+		return 0
+	}
+
 	if zconf.GlobalObject.WorkerMode == zconf.WorkerModeBind {
 		mh.freeWorkerMu.Lock()
 		defer mh.freeWorkerMu.Unlock()
@@ -205,18 +211,12 @@ func useWorker(conn ziface.IConnection) uint32 {
 		}
 	}
 
-	//Compatible with the situation where the client has no worker, and solve the situation divide 0
-	//(兼容client没有worker情况，解决除0的情况)
-	if mh.WorkerPoolSize == 0 {
-		workerId = 0
-	} else {
-		// Assign the worker responsible for processing the current connection based on the ConnID
-		// Using a round-robin average allocation rule to get the workerID that needs to process this connection
-		// (根据ConnID来分配当前的连接应该由哪个worker负责处理
-		// 轮询的平均分配法则
-		// 得到需要处理此条连接的workerID)
-		workerId = uint32(conn.GetConnID() % uint64(mh.WorkerPoolSize))
-	}
+	// Assign the worker responsible for processing the current connection based on the ConnID
+	// Using a round-robin average allocation rule to get the workerID that needs to process this connection
+	// (根据ConnID来分配当前的连接应该由哪个worker负责处理
+	// 轮询的平均分配法则
+	// 得到需要处理此条连接的workerID)
+	workerId = uint32(conn.GetConnID() % uint64(mh.WorkerPoolSize))
 
 	return workerId
 }
@@ -230,6 +230,11 @@ func freeWorker(conn ziface.IConnection) {
 		return
 	}
 
+	// Without workers there is none to free (没有worker则无需释放)
+	if mh.WorkerPoolSize == 0 {
+		return
+	}
+
 	if zconf.GlobalObject.WorkerMode == zconf.WorkerModeBind {
 		mh.freeWorkerMu.Lock()
 		defer mh.freeWorkerMu.Unlock()
-- 
2.43.0


From de0c9e5688a0e9257d40c1ac276f60d74fb31bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:06 +0000
Subject: [PATCH 37/52] fix: each WebSocket server has its own handler for its
 path

---
 znet/server.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/znet/server.go b/znet/server.go
index 8d75f66..ede9f4b 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -341,7 +341,10 @@ func (s *Server) ListenTcpConn() {
 
 func (s *Server) ListenWebsocketConn() {
 	zlog.Ins().InfoF("[START] WEBSOCKET Server name: %s,listener at IP: %s, Port %d, Path %s is starting", s.Name, s.IP, s.WsPort, s.WsPath)
-	http.HandleFunc(s.WsPath, func(w http.ResponseWriter, r *http.Request) {
+	// Each server has its own handler for its path, two servers may use the same
+	// (每个服务各自处理自己的路径，多个服务的路径可以相同)
+	mux := http.NewServeMux()
+	mux.HandleFunc(s.WsPath, func(w http.ResponseWriter, r *http.Request) {
 		// 1. Check if the server has reached the maximum allowed number of connections
 		// (设置服务器最大连接控制,如果超过最大连接，则等待)
 		if s.ConnMgr.Len() >= zconf.GlobalObject.MaxConn {
@@ -392,6 +395,16 @@ func (s *Server) ListenWebsocketConn() {
 	})
 
 	server := &http.Server{Addr: fmt.Sprintf("%s:%d", s.IP, s.WsPort)}
+	server.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+		// What else has been registered with package http is served as well
+		// (通过http包注册的其他路径仍然有效)
+		_, own := mux.Handler(r)
+		if h, other := http.DefaultServeMux.Handler(r); len(other) > len(own) {
+			h.ServeHTTP(w, r)
+			return
+		}
+		mux.ServeHTTP(w, r)
+	})
 	go func() {
 		<-s.exitChan
 		_ = server.Close()
-- 
2.43.0


From 01e352b47dc38607fadb306a26b0015ec91170ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:06 +0000
Subject: [PATCH 38/52] fix: stopping a stopped server does nothing

---
 znet/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/znet/server.go b/znet/server.go
index ede9f4b..8b567f2 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -541,8 +541,12 @@ func (s *Server) Stop() {
 	// Connections being accepted right now are not to be missed below
 	// (正在接纳的连接也不能遗漏)
 	s.admitLock.Lock()
+	again := s.stopped
 	s.stopped = true
 	s.admitLock.Unlock()
+	if again {
+		return
+	}
 
 	// Clear other connection information or other information that needs to be cleaned up
 	// (将其他需要清理的连接信息或者其他信息 也要一并停止或者清理)
-- 
2.43.0


From 026fb6e889cab42e701d4c4edacc172893f1d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:06 +0000
Subject: [PATCH 39/52] fix: level and call site of a log line do not depend on
 date and time

---
 zlog/logger_core.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index a28642c..6ab9f29 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -165,31 +165,31 @@ func (log *ZinxLoggerCore) formatHeader(t time.Time, file string, line int, leve
 			}
 			buf.WriteByte(' ')
 		}
+	}
 
-		// Log level flag is set
-		if log.flag&BitLevel != 0 {
-			buf.WriteString(levels[level])
-		}
+	// Log level flag is set
+	if log.flag&BitLevel != 0 {
+		buf.WriteString(levels[level])
+	}
 
-		// Short file name flag or long file name flag is set
-		if log.flag&(BitShortFile|BitLongFile) != 0 {
-			// Short file name flag is set
-			if log.flag&BitShortFile != 0 {
-				short := file
-				for i := len(file) - 1; i > 0; i-- {
-					if file[i] == '/' {
-						// Get the file name after the last '/' character, e.g. "zinx.go" from "/home/go/src/zinx.go"
-						short = file[i+1:]
-						break
-					}
+	// Short file name flag or long file name flag is set
+	if log.flag&(BitShortFile|BitLongFile) != 0 {
+		// Short file name flag is set
+		if log.flag&BitShortFile != 0 {
+			short := file
+			for i := len(file) - 1; i > 0; i-- {
+				if file[i] == '/' {
+					// Get the file name after the last '/' character, e.g. "zinx.go" from "/home/go/src/zinx.go"
+					short = file[i+1:]
+					break
 				}
-				file = short
 			}
-			buf.WriteString(file)
-			buf.WriteByte(':')
-			itoa(buf, line, -1) // line number
-			buf.WriteString(": ")
+			file = short
 		}
+		buf.WriteString(file)
+		buf.WriteByte(':')
+		itoa(buf, line, -1) // line number
+		buf.WriteString(": ")
 	}
 }
 
-- 
2.43.0


From ea36e3fd89e9a82c05e4adfdec9654cdbfdc9386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:06 +0000
Subject: [PATCH 40/52] fix: an empty log line ends with a newline

---
 zlog/logger_core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zlog/logger_core.go b/zlog/logger_core.go
index 6ab9f29..edd377c 100644
--- a/zlog/logger_core.go
+++ b/zlog/logger_core.go
@@ -220,7 +220,7 @@ func (log *ZinxLoggerCore) OutPut(level int, s string) error {
 	// write log content
 	log.buf.WriteString(s)
 	// add line break
-	if len(s) > 0 && s[len(s)-1] != '\n' {
+	if len(s) == 0 || s[len(s)-1] != '\n' {
 		log.buf.WriteByte('\n')
 	}
 
-- 
2.43.0


From a284afc449d645c7370a310e8544633285510216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:06 +0000
Subject: [PATCH 41/52] fix: retention, size and console output of the log from
 a user configuration take effect

---
 zconf/userconf.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/zconf/userconf.go b/zconf/userconf.go
index e1c8bfd..8671123 100644
--- a/zconf/userconf.go
+++ b/zconf/userconf.go
@@ -64,6 +64,26 @@ func UserConfToGlobal(config *Config) {
 		GlobalObject.LogFile = config.LogFile
 		zlog.SetLogFile(GlobalObject.LogDir, GlobalObject.LogFile)
 	}
+	if config.LogSaveDays != 0 {
+		GlobalObject.LogSaveDays = config.LogSaveDays
+	}
+	if config.LogFileSize != 0 {
+		GlobalObject.LogFileSize = config.LogFileSize
+	}
+	if config.LogCons {
+		GlobalObject.LogCons = config.LogCons
+	}
+	// They apply to the log file, a new one has lost them
+	// (以上参数作用于日志文件，新设置的日志文件需要重新设置)
+	if GlobalObject.LogSaveDays > 0 {
+		zlog.SetMaxAge(GlobalObject.LogSaveDays)
+	}
+	if GlobalObject.LogFileSize > 0 {
+		zlog.SetMaxSize(GlobalObject.LogFileSize)
+	}
+	if GlobalObject.LogCons {
+		zlog.SetCons(GlobalObject.LogCons)
+	}
 
 	// Keepalive
 	if config.HeartbeatMax != 0 {
-- 
2.43.0


From eb2c436b786e935ccfd2846f7c44b8fcb94c8b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:06 +0000
Subject: [PATCH 42/52] fix: KcpStreamMode of a user configuration can be set
 again

---
 zconf/userconf.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zconf/userconf.go b/zconf/userconf.go
index 8671123..82a6d30 100644
--- a/zconf/userconf.go
+++ b/zconf/userconf.go
@@ -124,9 +124,7 @@ func UserConfToGlobal(config *Config) {
 		GlobalObject.KcpACKNoDelay = config.KcpACKNoDelay
 	}
 
-	if !config.KcpStreamMode {
-		GlobalObject.KcpStreamMode = config.KcpStreamMode
-	}
+	GlobalObject.KcpStreamMode = config.KcpStreamMode
 
 	if config.KcpNoDelay != 0 {
 		GlobalObject.KcpNoDelay = config.KcpNoDelay
-- 
2.43.0


From f3a62b718a7ec569c8a64609d3a134429eeabc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:07 +0000
Subject: [PATCH 43/52] fix: asynchronous operations begun by the start hook
 complete on the connection's own worker

---
 znet/connection.go     | 6 +++---
 znet/kcp_connection.go | 6 +++---
 znet/ws_connection.go  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/znet/connection.go b/znet/connection.go
index 8f1fbb5..db8ea25 100644
--- a/znet/connection.go
+++ b/znet/connection.go
@@ -303,6 +303,9 @@ func (c *Connection) Start() {
 		}
 	}()
 
+	// 占用workerid, before the hook, which may begin asynchronous operations
+	c.workerID = useWorker(c)
+
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
@@ -313,9 +316,6 @@ func (c *Connection) Start() {
 		c.hc.Start()
 	}
 
-	// 占用workerid
-	c.workerID = useWorker(c)
-
 	// Start the Goroutine for reading data from the client
 	// (开启用户从客户端读取数据流程的Goroutine)
 	go c.StartReader()
diff --git a/znet/kcp_connection.go b/znet/kcp_connection.go
index 47ab325..2395a45 100644
--- a/znet/kcp_connection.go
+++ b/znet/kcp_connection.go
@@ -291,6 +291,9 @@ func (c *KcpConnection) Start() {
 		}
 	}()
 
+	// 占用workerid, before the hook, which may begin asynchronous operations
+	c.workerID = useWorker(c)
+
 	// Execute the hook method for processing business logic when creating a connection
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
@@ -301,9 +304,6 @@ func (c *KcpConnection) Start() {
 		c.hc.Start()
 	}
 
-	// 占用workerid
-	c.workerID = useWorker(c)
-
 	// Start the Goroutine for reading data from the client
 	// (开启用户从客户端读取数据流程的Goroutine)
 	go c.StartReader()
diff --git a/znet/ws_connection.go b/znet/ws_connection.go
index 7ec99c8..fda25ef 100644
--- a/znet/ws_connection.go
+++ b/znet/ws_connection.go
@@ -307,6 +307,9 @@ func (c *WsConnection) Start() {
 		}
 	}()
 
+	// 占用workerid, before the hook, which may begin asynchronous operations
+	c.workerID = useWorker(c)
+
 	// Execute the hook method according to the business needs of creating the connection passed in by the user.
 	// (按照用户传递进来的创建连接时需要处理的业务，执行钩子方法)
 	c.callOnConnStart()
@@ -318,9 +321,6 @@ func (c *WsConnection) Start() {
 		c.hc.Start()
 	}
 
-	// 占用workerid
-	c.workerID = useWorker(c)
-
 	// Start the Goroutine for users to read data from the client.
 	// (开启用户从客户端读取数据流程的Goroutine)
 	go c.StartReader()
-- 
2.43.0


From 60140a1ccc8bdf50cccf4e259794f13ec46f7a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:38 +0000
Subject: [PATCH 44/52] fix: a stopped server can be started again at once

Stop returned before its listeners had closed, a Start right after it
found its ports in use and panicked (or, over KCP, a listener of the
time before never ended).
---
 znet/server.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/znet/server.go b/znet/server.go
index 8b567f2..1a518d8 100644
--- a/znet/server.go
+++ b/znet/server.go
@@ -72,6 +72,10 @@ type Server struct {
 	// (异步捕获连接关闭状态)
 	exitChan chan struct{}
 
+	// The listeners started by the last Start, Stop waits for them to close
+	// (最近一次Start启动的监听，Stop会等待其关闭)
+	listeners *sync.WaitGroup
+
 	// Decoder for dealing with message fragmentation and reassembly
 	// (断粘包解码器)
 	decoder ziface.IDecoder
@@ -438,6 +442,7 @@ func (l retryListener) Accept() (net.Conn, error) {
 }
 
 func (s *Server) ListenKcpConn() {
+	exitChan := s.exitChan
 
 	// 1. Listen to the server address
 	listener, err := kcp.ListenWithOptions(fmt.Sprintf("%s:%d", s.IP, s.KcpPort), nil, s.kcpConfig.KcpFecDataShards, s.kcpConfig.KcpFecParityShards)
@@ -463,7 +468,7 @@ func (s *Server) ListenKcpConn() {
 			if err != nil {
 				zlog.Ins().ErrorF("Accept KCP err: %v", err)
 				select {
-				case <-s.exitChan:
+				case <-exitChan:
 					return
 				default:
 				}
@@ -493,7 +498,7 @@ func (s *Server) ListenKcpConn() {
 		}
 	}()
 	select {
-	case <-s.exitChan:
+	case <-exitChan:
 		err := listener.Close()
 		if err != nil {
 			zlog.Ins().ErrorF("KCP listener close err: %v", err)
@@ -505,8 +510,10 @@ func (s *Server) ListenKcpConn() {
 // (开启网络服务)
 func (s *Server) Start() {
 	s.exitChan = make(chan struct{})
+	listeners := &sync.WaitGroup{}
 	s.admitLock.Lock()
 	s.stopped = false
+	s.listeners = listeners
 	s.admitLock.Unlock()
 
 	// Add decoder to interceptors head
@@ -520,16 +527,23 @@ func (s *Server) Start() {
 
 	// Start a goroutine to handle server listener business
 	// (开启一个go去做服务端Listener业务)
+	listen := func(f func()) {
+		listeners.Add(1)
+		go func() {
+			defer listeners.Done()
+			f()
+		}()
+	}
 	switch zconf.GlobalObject.Mode {
 	case zconf.ServerModeTcp:
-		go s.ListenTcpConn()
+		listen(s.ListenTcpConn)
 	case zconf.ServerModeWebsocket:
-		go s.ListenWebsocketConn()
+		listen(s.ListenWebsocketConn)
 	case zconf.ServerModeKcp:
-		go s.ListenKcpConn()
+		listen(s.ListenKcpConn)
 	default:
-		go s.ListenTcpConn()
-		go s.ListenWebsocketConn()
+		listen(s.ListenTcpConn)
+		listen(s.ListenWebsocketConn)
 	}
 
 }
@@ -543,6 +557,7 @@ func (s *Server) Stop() {
 	s.admitLock.Lock()
 	again := s.stopped
 	s.stopped = true
+	listeners := s.listeners
 	s.admitLock.Unlock()
 	if again {
 		return
@@ -555,6 +570,11 @@ func (s *Server) Stop() {
 	if s.exitChan != nil {
 		close(s.exitChan)
 	}
+	// The ports are free when Stop returns, the server may be started again at once
+	// (Stop返回时端口已释放，可以立即再次启动)
+	if listeners != nil {
+		listeners.Wait()
+	}
 }
 
 // Serve runs the server (运行服务)
-- 
2.43.0


From 79ff264dd63e4e6dede978376b60c4ca1f92629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:38 +0000
Subject: [PATCH 45/52] fix: a client started again does not decode its
 messages twice

Each Start added the decoder to the interceptors once more, so after Stop
and Start the payload of each message was taken for another frame.
---
 znet/client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/znet/client.go b/znet/client.go
index ec5d4ce..8c54995 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -43,6 +43,8 @@ type Client struct {
 	// Disassembly and assembly decoder for resolving sticky and broken packages
 	//断粘包解码器
 	decoder ziface.IDecoder
+	// Start has added the decoder to the interceptors (Start已将解码器添加到拦截器)
+	decoderAdded bool
 	// Heartbeat checker 心跳检测器
 	hc ziface.IHeartbeatChecker
 	// Use TLS 使用TLS
@@ -208,9 +210,10 @@ func (c *Client) Restart() {
 // (启动客户端，发送请求且建立连接)
 func (c *Client) Start() {
 
-	// Add the decoder to the interceptor list (将解码器添加到拦截器)
-	if c.decoder != nil {
+	// Add the decoder to the interceptor list, once (将解码器添加到拦截器，只添加一次)
+	if c.decoder != nil && !c.decoderAdded {
 		c.msgHandler.AddInterceptor(c.decoder)
+		c.decoderAdded = true
 	}
 
 	c.Restart()
-- 
2.43.0


From 12cd4c8a9283b5afe71eb49b6058e9ce934cd624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:38 +0000
Subject: [PATCH 46/52] fix: a client whose server does not answer the
 handshake reports a failure

Without a time limit on the TLS and WebSocket handshake the dialing
goroutine and its socket stayed for ever, also after Stop, and no error
was ever reported.
---
 znet/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/znet/client.go b/znet/client.go
index 8c54995..ff61a2a 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -16,6 +16,10 @@ import (
 	"github.com/gorilla/websocket"
 )
 
+// How long a server may take to answer a TLS or WebSocket handshake
+// (TLS或WebSocket握手的超时时间)
+const handshakeTimeout = 45 * time.Second
+
 type Client struct {
 	// Client Name 客户端的名称
 	Name string
@@ -94,7 +98,7 @@ func NewWsClient(ip string, port int, opts ...ClientOption) ziface.IClient {
 		packet:     zpack.Factory().NewPack(ziface.ZinxDataPack), // Default to using Zinx's TLV packet format(默认使用zinx的TLV封包方式)
 		decoder:    zdecoder.NewTLVDecoder(),                     // Default to using Zinx's TLV decoder(默认使用zinx的TLV解码器)
 		version:    "websocket",
-		dialer:     &websocket.Dialer{},
+		dialer:     &websocket.Dialer{HandshakeTimeout: handshakeTimeout},
 		ErrChan:    make(chan error, 1),
 	}
 
@@ -160,7 +164,7 @@ func (c *Client) Restart() {
 					InsecureSkipVerify: true,
 				}
 
-				conn, err = tls.Dial("tcp", fmt.Sprintf("%v:%v", net.ParseIP(c.Ip), c.Port), config)
+				conn, err = tls.DialWithDialer(&net.Dialer{Timeout: handshakeTimeout}, "tcp", fmt.Sprintf("%v:%v", net.ParseIP(c.Ip), c.Port), config)
 				if err != nil {
 					zlog.Ins().ErrorF("tls client connect to server failed, err:%v", err)
 					c.reportErr(exitChan, err)
-- 
2.43.0


From 70419a56f14d566c249dde4e7e853a89c27c2296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:38 +0000
Subject: [PATCH 47/52] fix: a restarted client leaves no goroutine behind for
 the connection before

The goroutine that had dialed waited for Stop, not for the end of its
connection: each Restart after a lost connection left one more.
---
 znet/client.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/znet/client.go b/znet/client.go
index ff61a2a..5f27f4f 100644
--- a/znet/client.go
+++ b/znet/client.go
@@ -200,13 +200,9 @@ func (c *Client) Restart() {
 			c.hc.Clone().BindConn(connect)
 		}
 
-		// Start connection
-		go connect.Start()
-
-		select {
-		case <-exitChan:
-			zlog.Ins().InfoF("client exit.")
-		}
+		// Start connection, until it ends (启动连接，直到其结束)
+		connect.Start()
+		zlog.Ins().InfoF("client exit.")
 	}()
 }
 
-- 
2.43.0


From 09faeff5fa181e3fdd330f5552ab3c4b3c51778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:38 +0000
Subject: [PATCH 48/52] fix: a server started again does not start its worker
 pool again

Each Start after a Stop made new queues and workers, those of the time
before stayed for ever.
---
 znet/msghandler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/znet/msghandler.go b/znet/msghandler.go
index 8ec1fe4..3c669f1 100644
--- a/znet/msghandler.go
+++ b/znet/msghandler.go
@@ -458,6 +458,10 @@ func (mh *MsgHandle) StartWorkerPool() {
 	// Iterate through the required number of workers and start them one by one
 	// (遍历需要启动worker的数量，依此启动)
 	for i := 0; i < int(mh.WorkerPoolSize); i++ {
+		// Started before, by a server that is started again (已启动过，服务器再次启动)
+		if mh.TaskQueue[i] != nil {
+			continue
+		}
 		// A worker is started
 		// Allocate space for the corresponding task queue for the current worker
 		// (给当前worker对应的任务队列开辟空间)
-- 
2.43.0


From 97a2190f0afe73d06723bcb6ad81df82893eb4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:02 +0000
Subject: [PATCH 49/52] fix: the MMO demo finds the right grid at the edges of
 the map

Beyond the last full grid (x from 405 on) a position fell into the first
grid of the next row, so players saw others at the opposite edge; with
y from 395 on, or off the map, there was no grid and the move panicked.
---
 zinx_app_demo/mmo_game/core/aoi.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/zinx_app_demo/mmo_game/core/aoi.go b/zinx_app_demo/mmo_game/core/aoi.go
index 7304f29..911304e 100644
--- a/zinx_app_demo/mmo_game/core/aoi.go
+++ b/zinx_app_demo/mmo_game/core/aoi.go
@@ -134,12 +134,24 @@ func (m *AOIManager) GetSurroundGrIDsByGID(gID int) (grIDs []*GrID) {
 // GetGIDByPos Get the corresponding grid ID by horizontal and vertical coordinates
 // 通过横纵坐标获取对应的格子ID
 func (m *AOIManager) GetGIDByPos(x, y float32) int {
-	gx := (int(x) - m.MinX) / m.grIDWIDth()
-	gy := (int(y) - m.MinY) / m.grIDLength()
+	gx := clamp((int(x)-m.MinX)/m.grIDWIDth(), m.CntsX-1)
+	gy := clamp((int(y)-m.MinY)/m.grIDLength(), m.CntsY-1)
 
 	return gy*m.CntsX + gx
 }
 
+// clamp What lies beyond the outermost grids belongs to them
+// (超出边界的位置归属最外侧的格子)
+func clamp(v, max int) int {
+	if v < 0 {
+		return 0
+	}
+	if v > max {
+		return max
+	}
+	return v
+}
+
 // GetPIDsByPos Get all PlayerIDs within the surrounding nine grids by horizontal and vertical coordinates
 // 通过横纵坐标得到周边九宫格内的全部PlayerIDs
 func (m *AOIManager) GetPIDsByPos(x, y float32) (playerIDs []int) {
-- 
2.43.0


From 6f2e3fadda29f41374689c5b1f44a710c701c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:02 +0000
Subject: [PATCH 50/52] fix: in the MMO demo a player that is just leaving does
 not fail others

Between leaving the world and leaving its grid a player was found as nil,
and the move or arrival of another one panicked half-way.
---
 zinx_app_demo/mmo_game/core/player.go        | 10 ++++++++--
 zinx_app_demo/mmo_game/core/world_manager.go |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/zinx_app_demo/mmo_game/core/player.go b/zinx_app_demo/mmo_game/core/player.go
index 3736825..fc209f9 100644
--- a/zinx_app_demo/mmo_game/core/player.go
+++ b/zinx_app_demo/mmo_game/core/player.go
@@ -96,7 +96,10 @@ func (p *Player) SyncSurrounding() {
 	// 3 Send MsgID:200 message to these players to display themselves in each other's views
 	// 给这些玩家发送MsgID:200消息，让自己出现在对方视野中
 	for _, pID := range pIDs {
-		players = append(players, WorldMgrObj.GetPlayerByPID(int32(pID)))
+		// One that is just leaving is nil (正在离开的玩家为nil)
+		if player := WorldMgrObj.GetPlayerByPID(int32(pID)); player != nil {
+			players = append(players, player)
+		}
 	}
 
 	// 3.1 Assemble MsgID200 proto data
@@ -357,7 +360,10 @@ func (p *Player) GetSurroundingPlayers() []*Player {
 	// 将所有pID对应的Player放到Player切片中
 	players := make([]*Player, 0, len(pIDs))
 	for _, pID := range pIDs {
-		players = append(players, WorldMgrObj.GetPlayerByPID(int32(pID)))
+		// One that is just leaving is nil (正在离开的玩家为nil)
+		if player := WorldMgrObj.GetPlayerByPID(int32(pID)); player != nil {
+			players = append(players, player)
+		}
 	}
 
 	return players
diff --git a/zinx_app_demo/mmo_game/core/world_manager.go b/zinx_app_demo/mmo_game/core/world_manager.go
index 7d785fa..14e0024 100644
--- a/zinx_app_demo/mmo_game/core/world_manager.go
+++ b/zinx_app_demo/mmo_game/core/world_manager.go
@@ -86,7 +86,10 @@ func (wm *WorldManager) GetPlayersByGID(gID int) []*Player {
 	players := make([]*Player, 0, len(pIDs))
 	wm.pLock.RLock()
 	for _, pID := range pIDs {
-		players = append(players, wm.Players[int32(pID)])
+		// One that is just leaving is not there any more (正在离开的玩家已不存在)
+		if player, ok := wm.Players[int32(pID)]; ok {
+			players = append(players, player)
+		}
 	}
 	wm.pLock.RUnlock()
 
-- 
2.43.0


From 3ddc4cfb2ce0420ad798aa2c01139cbcf479e499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:41 +0000
Subject: [PATCH 51/52] fix: in the MMO demo a player that leaves while it
 moves does not stay in a grid

Its connection could be lost between the change of its position and its
entry into the new grid: it was then listed there for ever.
---
 zinx_app_demo/mmo_game/core/player.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/zinx_app_demo/mmo_game/core/player.go b/zinx_app_demo/mmo_game/core/player.go
index fc209f9..21ae731 100644
--- a/zinx_app_demo/mmo_game/core/player.go
+++ b/zinx_app_demo/mmo_game/core/player.go
@@ -19,6 +19,9 @@ type Player struct {
 	Y    float32            // Height(高度)
 	Z    float32            // Planar y coordinate (Note: not Y)- 平面y坐标 (注意不是Y)
 	V    float32            //  Rotation 0-360 degrees(旋转0-360度)
+
+	posLock sync.Mutex // Protects the change of position and grid(保护位置与格子的变更)
+	offline bool       // The player has logged off(玩家已下线)
 }
 
 // Player ID Generator
@@ -179,6 +182,14 @@ func (p *Player) Talk(content string) {
 // (广播玩家位置移动)
 func (p *Player) UpdatePos(x float32, y float32, z float32, v float32) {
 
+	// One that has logged off must not get into a grid again
+	// 已下线的玩家不能再进入格子
+	p.posLock.Lock()
+	if p.offline {
+		p.posLock.Unlock()
+		return
+	}
+
 	// Trigger visibility change and addition business
 	// Calculate the old grid gID
 	// 触发消失视野和添加视野业务
@@ -205,7 +216,10 @@ func (p *Player) UpdatePos(x float32, y float32, z float32, v float32) {
 		// 把pID添加到新的aoi格子中去
 		// Add pID to the new aoi grid
 		WorldMgrObj.AoiMgr.AddPIDToGrID(int(p.PID), newGID)
+	}
+	p.posLock.Unlock()
 
+	if oldGID != newGID {
 		_ = p.OnExchangeAoiGrID(oldGID, newGID)
 	}
 
@@ -390,7 +404,10 @@ func (p *Player) LostConnection() {
 
 	// 4 Remove the current player from AOI in the world manager
 	// 世界管理器将当前玩家从AOI中摘除
+	p.posLock.Lock()
+	p.offline = true
 	WorldMgrObj.AoiMgr.RemoveFromGrIDByPos(int(p.PID), p.X, p.Z)
+	p.posLock.Unlock()
 	WorldMgrObj.RemovePlayerByPID(p.PID)
 }
 
-- 
2.43.0


From c2b2985dc371329e927195c0e4e5118d264a2e61 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:50:16 +0000
Subject: [PATCH 52/52] fix: a message may have more than 127 handlers, a
 copied request has none

The int8 index of the handlers overflowed: with 128 or more handlers none or
some were run, and going on with the steps of a copy panicked.
---
 znet/request.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/znet/request.go b/znet/request.go
index 8c07b11..f928dff 100644
--- a/znet/request.go
+++ b/znet/request.go
@@ -36,7 +36,7 @@ type Request struct {
 	needNext bool                   // whether to execute the next router function(是否需要执行下一个路由函数)
 	icResp   ziface.IcResp          // response data returned by the interceptors (拦截器返回数据)
 	handlers []ziface.RouterHandler // router function slice(路由函数切片)
-	index    int8                   // router function slice index(路由函数切片索引)
+	index    int                    // router function slice index(路由函数切片索引)
 	keys     map[string]interface{} // keys 路由处理时可能会存取的上下文信息
 }
 
@@ -209,7 +209,7 @@ func (r *Request) Call() {
 
 func (r *Request) Abort() {
 	if zconf.GlobalObject.RouterSlicesMode {
-		r.index = int8(len(r.handlers))
+		r.index = len(r.handlers)
 	} else {
 		r.stepLock.Lock()
 		r.steps = HANDLE_OVER
@@ -224,7 +224,7 @@ func (r *Request) BindRouterSlices(handlers []ziface.RouterHandler) {
 
 func (r *Request) RouterSlicesNext() {
 	r.index++
-	for r.index < int8(len(r.handlers)) {
+	for r.index < len(r.handlers) {
 		r.handlers[r.index](r)
 		r.index++
 	}
-- 
2.43.0

