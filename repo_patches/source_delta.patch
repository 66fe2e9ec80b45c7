From 598f2e8ebffb019a53ce609ca7f016833c6026e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 01/68] fix: BufWriter.WriteByte advanced the buffer by 4 bytes

---
 net/buf_writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/buf_writer.go b/net/buf_writer.go
index 0da728b..3be011e 100644
--- a/net/buf_writer.go
+++ b/net/buf_writer.go
@@ -58,14 +58,14 @@ func (w *BufWriter) Write3Uint32(i, j, k uint32) (err error) {
 }
 
 func (w *BufWriter) WriteByte(i byte) (err error) {
-	if w.wr+4 > len(w.buf) {
+	if w.wr+1 > len(w.buf) {
 		if err = w.Flush(); err != nil {
 			return
 		}
 	}
 
 	w.buf[w.wr] = i
-	w.wr += 4
+	w.wr++
 	return
 }
 
-- 
2.43.0


From 2c4f4afda8159c37622e124454ca159f29b1d297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:16 +0000
Subject: [PATCH 02/68] fix: WriteResponse wrote return code bytes of a ping
 that its length does not count

---
 net/header.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/net/header.go b/net/header.go
index ca974bf..d581cf6 100644
--- a/net/header.go
+++ b/net/header.go
@@ -165,13 +165,13 @@ func (h *HeaderWriter) WriteResponse(res Response) (err error) {
 		return
 	}
 
-	switch h.rc {
-	case RC0byte:
-	case RC1byte:
+	switch retCodeLen {
+	case 0:
+	case 1:
 		if err = h.w.WriteByte(byte(res.Code)); err != nil {
 			return
 		}
-	case RC4byte:
+	case 4:
 		if err = h.w.WriteUint32(uint32(res.Code)); err != nil {
 			return
 		}
-- 
2.43.0


From dff27a5eb7e8547049b73ea73fc0c9efa5ce7ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 03/68] fix: SliceReader.ReadByte read into an empty buffer and
 returned 0

---
 net/slice_reader.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index c833dff..ae5c0e0 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -56,15 +56,8 @@ func (sl *SliceReader) ReadByte() (res byte, err error) {
 		return
 	}
 	var buf []byte
-	var n int
-	if cap(buf) == 0 {
-		buf = make([]byte, len(sl.buf), sl.size)
-	}
-	n, err = sl.read(buf)
-	if n >= 1 {
+	if buf, err = sl.Read(1); err == nil {
 		res = buf[0]
-		sl.buf = buf[1:n]
-		err = nil
 	}
 	return
 }
-- 
2.43.0


From dda0f18c52d2a8a2c446a301cb7fe3a59b9b9bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 04/68] fix: append to a body overwrote following unread bytes
 of the stream

---
 net/slice_reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index ae5c0e0..76165fd 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -16,7 +16,7 @@ type SliceReader struct {
 
 func (sl *SliceReader) Read(n int) (res []byte, err error) {
 	if len(sl.buf) > n {
-		res = sl.buf[:n]
+		res = sl.buf[:n:n]
 		sl.buf = sl.buf[n:]
 		return
 	}
@@ -38,7 +38,7 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		l += nn
 	}
 	if l >= n {
-		res = buf[:n]
+		res = buf[:n:n]
 		sl.buf = buf[n:l]
 		err = nil
 	} else if l > 0 && err == io.EOF {
-- 
2.43.0


From 31d3b6ff96abf3e3e6971f20e09df58027615057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 05/68] fix: server Connection.Respond blocked under its lock
 when the writer was slow or gone

---
 net/server/connection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/server/connection.go b/net/server/connection.go
index 7e99713..e8d4958 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -92,6 +92,7 @@ CodeEnd:
 			case conn.out <- nt.Response(*r):
 				conn.Unlock()
 				return
+			default:
 			}
 		}
 		conn.buf = append(conn.buf, nt.Response(*r))
-- 
2.43.0


From a081a0cca1d305110ed074b4d88ec24b28c4b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 06/68] fix: server connection could close its output channel
 twice

---
 net/server/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index e8d4958..7b2560c 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -144,7 +144,7 @@ func (conn *Connection) controlLoop() {
 				conn.conn.CloseRead()
 			}
 		case inFlyEmpty:
-			close(conn.out)
+			/* writeLoop has already left and will send writeClosed */
 		}
 
 		if conn.state&CsClosed == CsClosed {
-- 
2.43.0


From a8d4781a2675588e05ccb79ca0918e2b2a5cb02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 07/68] fix: server connection reported itself closed twice

---
 net/server/connection.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index 7b2560c..ef6dc56 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -114,7 +114,6 @@ func (conn *Connection) cancelInFly() {
 	for _, req := range reqs {
 		req.Cancel()
 	}
-	conn.Server.connClosed <- conn.Id
 }
 
 func (conn *Connection) closed() {
-- 
2.43.0


From 19ed0e3f458369b66f2481cc1a7cc9f7c3bcbee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 08/68] fix: server readLoop answering pings blocked forever
 after the writer was gone

---
 net/server/connection.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index ef6dc56..1f0e942 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -87,20 +87,24 @@ CodeEnd:
 	if _, ok := conn.inFly[r.Id]; ok {
 		delete(conn.inFly, r.Id)
 
-		if len(conn.buf) == 0 {
-			select {
-			case conn.out <- nt.Response(*r):
-				conn.Unlock()
-				return
-			default:
-			}
-		}
-		conn.buf = append(conn.buf, nt.Response(*r))
-		conn.bufRealCap = cap(conn.buf)
+		conn.enqueue(nt.Response(*r))
 	}
 	conn.Unlock()
 }
 
+// enqueue should be called with conn locked
+func (conn *Connection) enqueue(res nt.Response) {
+	if len(conn.buf) == 0 {
+		select {
+		case conn.out <- res:
+			return
+		default:
+		}
+	}
+	conn.buf = append(conn.buf, res)
+	conn.bufRealCap = cap(conn.buf)
+}
+
 func (conn *Connection) cancelInFly() {
 	conn.Lock()
 	if len(conn.inFly) > 0 {
@@ -177,7 +181,9 @@ func (conn *Connection) readLoop() {
 				Id:  req.Id,
 				Msg: iproto.Ping,
 			}
-			conn.out <- res
+			conn.Lock()
+			conn.enqueue(res)
+			conn.Unlock()
 			continue
 		}
 
-- 
2.43.0


From 9666aaff2d0dbb24e639d5611c0f2390f8a953c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 09/68] fix: configured client DialTimeout was ignored

---
 net/client/connection/connection.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index e69ce0c..01bdfcb 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -101,7 +101,10 @@ func NewConnection(conf *CConf, id uint64) (conn *Connection) {
 const DialTimeout = 5 * time.Second
 
 func (conn *Connection) Loop() {
-	dialer := net.Dialer{Timeout: DialTimeout}
+	dialer := net.Dialer{Timeout: conn.DialTimeout}
+	if dialer.Timeout <= 0 {
+		dialer.Timeout = DialTimeout
+	}
 	conn.State = CsDialing
 	if netconn, err := dialer.Dial(conn.Network, conn.Address); err != nil {
 		conn.ConnErr <- Error{conn, Dial, err}
-- 
2.43.0


From b6050a515179ddc29a85bdf7235bfb4e601eec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 10/68] fix: RunWithConn used an uninitialized reader and
 writer

---
 net/client/connection/connection.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 01bdfcb..d9f8eb9 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -140,6 +140,8 @@ func (conn *Connection) RunWithConn(netconn io.ReadWriteCloser) {
 	default:
 		conn.conn = nt.RwcWrapper{ReadWriteCloser: netconn}
 	}
+	conn.reader.Init(conn.conn, conn.ReadTimeout, conn.RetCodeType)
+	conn.writer.Init(conn.conn, conn.WriteTimeout, conn.RetCodeType)
 	conn.ConnErr <- Error{conn, Dial, nil}
 	go conn.readLoop()
 	go conn.writeLoop()
-- 
2.43.0


From 15dbecb06241834dd948f23b47ac6e10f7ed88e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 11/68] fix: response with unknown or repeated id crashed
 client or broke its accounting

---
 net/client/connection/request_holder.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index d569d42..9936c1a 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -1,7 +1,6 @@
 package connection
 
 import (
-	"log"
 	"sync"
 	"sync/atomic"
 
@@ -69,19 +68,25 @@ func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
 }
 
 func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
-	var ok bool
 	big := fakeId >> rowLogN
 	if h.lastBig != big {
 		h.Lock()
-		if h.last, ok = h.reqs[big]; !ok {
-			h.Unlock()
-			log.Panicf("Map has no RequestRow for %d", fakeId)
+		row, ok := h.reqs[big]
+		h.Unlock()
+		if !ok {
+			/* server answered with id we did not send */
+			return nil
 		}
+		h.last = row
 		h.lastBig = big
-		h.Unlock()
 	}
 
 	reqs := h.last
+	req := &reqs.reqs[fakeId&rowMask]
+	if fakeId == 0 || req.fakeId != fakeId {
+		/* server answered with id we did not send, or answered twice */
+		return nil
+	}
 	reqs.freed++
 	border := big == 0 || big == uint32(iproto.PingRequestId>>8)
 	if reqs.freed == rowN || (reqs.freed == rowN1 && border) {
@@ -90,7 +95,6 @@ func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
 		h.Unlock()
 	}
 
-	req := &reqs.reqs[fakeId&rowMask]
 	req.fakeId = 0
 	ireq = req.Request
 	h.put++
-- 
2.43.0


From 1cc41781999465e37304205fde573e4613ebc3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 12/68] fix: unused preallocated slot kept stopped client
 connection from closing

---
 net/client/connection/connection.go     | 6 ++++++
 net/client/connection/request_holder.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index d9f8eb9..fa2a3b1 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -258,6 +258,12 @@ func (conn *Connection) writeLoop() {
 
 	var req *Request
 
+	defer func() {
+		if req != nil {
+			conn.inFly.putBack(req)
+		}
+	}()
+
 Loop:
 	for {
 		var request *iproto.Request
diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index 9936c1a..183f364 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -101,6 +101,12 @@ func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
 	return
 }
 
+// putBack returns unused req obtained with getNext
+func (h *RequestHolder) putBack(req *Request) {
+	req.fakeId = 0
+	atomic.AddUint64(&h.got, ^uint64(0))
+}
+
 func (h *RequestHolder) getAll() (reqs []*Request) {
 	h.Lock()
 	defer h.Unlock()
-- 
2.43.0


From 6213d4c9ed5526366a0727c9ef120ab5fecbb2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 13/68] fix: connections stopped by client pool were subtracted
 from its counters twice

---
 net/client/server.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/net/client/server.go b/net/client/server.go
index eb5cd3f..52e5c90 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -41,6 +41,7 @@ type Server struct {
 	dialing     int
 	established int
 	dying       int
+	stopping    int /* stopped, but still counted as dialing or established */
 
 	connErr     chan connection.Error
 	actions     chan action
@@ -86,7 +87,7 @@ func (cfg ServerConfig) NewServer() (serv *Server) {
 }
 
 func (serv *Server) fixConnections() {
-	needConn := serv.needConns - (serv.dialing + serv.established)
+	needConn := serv.needConns - (serv.dialing + serv.established - serv.stopping)
 	for ; needConn > 0; needConn-- {
 		serv.curId++
 		conn := connection.NewConnection(&serv.CConf, serv.curId)
@@ -96,14 +97,13 @@ func (serv *Server) fixConnections() {
 	}
 	if needConn < 0 {
 		for _, conn := range serv.connections {
+			if conn.Stopped() {
+				continue
+			}
 			switch conn.State {
-			case connection.CsDialing:
-				conn.Stop()
-				serv.dialing--
-				needConn++
-			case connection.CsConnected:
+			case connection.CsDialing, connection.CsConnected:
 				conn.Stop()
-				serv.established--
+				serv.stopping++
 				needConn++
 			}
 			if needConn == 0 {
@@ -167,6 +167,9 @@ func (serv *Server) onConnError(connErr connection.Error) {
 				log.Panicf("Unknown connection failed %+v", conn)
 			}
 			delete(serv.connections, conn.Id)
+			if conn.Stopped() {
+				serv.stopping--
+			}
 			if serv.established == 0 && serv.Standalone() {
 				serv.AllDisconnected()
 			}
@@ -175,6 +178,9 @@ func (serv *Server) onConnError(connErr connection.Error) {
 		log.Printf("%s: write side closed %v -> %v", serv.conf.Name, conn.LocalAddr(), conn.RemoteAddr())
 		serv.established--
 		serv.dying++
+		if conn.Stopped() {
+			serv.stopping--
+		}
 		if serv.established == 0 && serv.Standalone() {
 			serv.AllDisconnected()
 		}
-- 
2.43.0


From bfe4f1e740d08875d93adadda52153e2eed6d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 14/68] fix: stopped client pool left before its dying
 connections failed their requests

---
 net/client/connection/connection.go | 2 +-
 net/client/server.go                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index fa2a3b1..c32932c 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -252,8 +252,8 @@ func (conn *Connection) writeLoop() {
 				conn.conn.CloseWrite()
 			}
 		}
-		conn.notifyLoop(writeClosed)
 		conn.ConnErr <- Error{conn, Write, err}
+		conn.notifyLoop(writeClosed)
 	}()
 
 	var req *Request
diff --git a/net/client/server.go b/net/client/server.go
index 52e5c90..ac9d8b3 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -134,7 +134,7 @@ func (serv *Server) Loop() {
 			serv.fixConnections()
 		}
 
-		if serv.exiting && serv.established+serv.dialing == 0 {
+		if serv.exiting && len(serv.connections) == 0 {
 			serv.reconnecter.Stop()
 			break
 		}
-- 
2.43.0


From 7201d24f27075b8e4c95fb33c9a1d7c2727b4f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 15/68] fix: SetConnections revived stopped client pool

---
 net/client/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/client/server.go b/net/client/server.go
index ac9d8b3..ff22885 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -144,6 +144,9 @@ func (serv *Server) Loop() {
 func (serv *Server) onAction(action action) {
 	switch action.kind {
 	case setServ:
+		if serv.exiting {
+			break
+		}
 		serv.Connections = action.servs
 		serv.needConns = action.servs
 	}
-- 
2.43.0


From 0794fdcbae85ae2f385986a227c162318569e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 16/68] fix: requests queued in stopped client pool were never
 answered

---
 net/client/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/net/client/server.go b/net/client/server.go
index ff22885..8189b0c 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -139,6 +139,12 @@ func (serv *Server) Loop() {
 			break
 		}
 	}
+
+	if serv.Standalone() {
+		for req := range serv.ReceiveChan() {
+			req.ShutDown()
+		}
+	}
 }
 
 func (serv *Server) onAction(action action) {
-- 
2.43.0


From 7281a41d1abcde950d7ec5d6b3b4c3850319c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 17/68] fix: requests queued in stopped balancer were never
 answered

---
 balancer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/balancer.go b/balancer.go
index f7e3aff..f36434e 100644
--- a/balancer.go
+++ b/balancer.go
@@ -24,4 +24,10 @@ func (b *BalancerPoint) Loop() {
 	for _, ch := range b.children {
 		ch.Stop()
 	}
+
+	if b.Standalone() {
+		for req := range b.ReceiveChan() {
+			req.ShutDown()
+		}
+	}
 }
-- 
2.43.0


From 70a8c44e4d6f6027eddc1c36d9dd89243d337e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 18/68] fix: Stop blocked forever when loop of end point was
 already gone

---
 service.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/service.go b/service.go
index 5fa1b3d..cf4909a 100644
--- a/service.go
+++ b/service.go
@@ -113,7 +113,7 @@ func (s *SimplePoint) RunChild(p EndPoint) {
 
 func (s *SimplePoint) Init(p PointLoop) {
 	s.PointLoop = p
-	s.exit = make(chan bool)
+	s.exit = make(chan bool, 1)
 }
 
 func (s *SimplePoint) ExitChan() <-chan bool {
@@ -152,7 +152,10 @@ func (s *SimplePoint) Stop() {
 		s.b.close()
 	}
 	s.stopped = true
-	s.exit <- true
+	select {
+	case s.exit <- true:
+	default:
+	}
 }
 
 func (s *SimplePoint) Stopped() bool {
-- 
2.43.0


From 1baf9a7c7362143b7f3f07d306a0d2c0bcb1dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 19/68] fix: requests queued in stopped ParallelService were
 never answered

---
 parallel_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_service.go b/parallel_service.go
index 6267c6a..fa8768d 100644
--- a/parallel_service.go
+++ b/parallel_service.go
@@ -97,7 +97,7 @@ Loop:
 		if req, ok = <-serv.ReceiveChan(); !ok {
 			break
 		}
-		req.Respond(RcShutdown, nil)
+		req.ShutDown()
 	}
 }
 
-- 
2.43.0


From 8bf3a61654cfc15b8961395aa0c00d5289daf0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:44 +0000
Subject: [PATCH 20/68] fix: Send to stopped end point panicked or lost request

---
 buffer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/buffer.go b/buffer.go
index a33e3c8..a66ed95 100644
--- a/buffer.go
+++ b/buffer.go
@@ -34,6 +34,7 @@ type bufferRow struct {
 
 type Buffer struct {
 	ch         chan *Request
+	closed     uint32
 	onExit     func()
 	set        chan bool
 	m          sync.Mutex
@@ -82,18 +83,24 @@ func (b *Buffer) push(r *Request) {
 	case b.set <- true:
 	default:
 	}
+	if atomic.LoadUint32(&b.closed) != 0 {
+		/* loop could already be gone */
+		r.ShutDown()
+	}
 }
 
 func (b *Buffer) close() {
+	atomic.StoreUint32(&b.closed, 1)
 	select {
 	case b.set <- true:
 	default:
 	}
-	close(b.set)
 }
 
 func (b *Buffer) loop() {
-	for <-b.set {
+	for {
+		<-b.set
+		closed := atomic.LoadUint32(&b.closed) != 0
 	Tiny:
 		for ; b.head < atomic.LoadUint64(&b.tail); b.head++ {
 			var ok bool
@@ -122,6 +129,9 @@ func (b *Buffer) loop() {
 			case bsFree:
 			}
 		}
+		if closed && b.head == atomic.LoadUint64(&b.tail) {
+			break
+		}
 	}
 	if b.onExit != nil {
 		b.onExit()
-- 
2.43.0


From 4624ad09dbb3a72a75911f0a4f295fa1d7050803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 21/68] fix: Context.Child never succeeded, so Go and friends
 never ran their function

---
 context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/context.go b/context.go
index 80a085e..565f992 100644
--- a/context.go
+++ b/context.go
@@ -214,6 +214,7 @@ func (c *Context) Child() (child *Context, ok bool) {
 	child = &Context{parent: c}
 	rc := CxState(atomic.LoadUint32((*uint32)(&c.State)))
 	if rc == 0 {
+		ok = true
 		c.AddCanceler(child)
 	} else {
 		child.Cancel()
-- 
2.43.0


From ed960a45b4c4ed65d3f0324c61fbd07e0dd83c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 22/68] fix: canceler registered concurrently with Cancel could
 be missed

---
 context.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 565f992..b521080 100644
--- a/context.go
+++ b/context.go
@@ -105,8 +105,12 @@ func (c *Context) AddCanceler(cn Canceler) {
 }
 
 func (c *Context) cancelAll() {
-	for len(c.cancelsm) > 0 || c.cancelsn > 0 {
+	for {
 		c.m.Lock()
+		if c.cancelsn == 0 && len(c.cancelsm) == 0 {
+			c.m.Unlock()
+			return
+		}
 		cancels := make([]Canceler, 0, len(c.cancels)+c.cancelsn)
 		for i := 0; i < len(c.cancels); i++ {
 			if c.cancels[i] != nil {
-- 
2.43.0


From 5e02e0322c0608a70808a57d56267913d22449bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 23/68] fix: MultiRequest.Each raced with Respond for closing
 of the channel

---
 wait_group.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 1a4d011..856e06e 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -126,18 +126,20 @@ func (w *MultiRequest) Each() <-chan *Response {
 		w.gen.Release()
 	}
 	w.setKind(mrChan)
-	w.ch = make(chan *Response, w.r)
+	ch := make(chan *Response, w.r)
 
 	for _, resp := range w.responses {
 		w.requests[resp.Id] = nil
-		w.ch <- resp
+		ch <- resp
 	}
 	w.responses = nil
 	if w.c == w.r {
-		close(w.ch)
+		close(ch)
 	}
+	/* Respond uses w.ch without lock, so publish it when we are done */
+	w.ch = ch
 	w.m.Unlock()
-	return w.ch
+	return ch
 }
 
 func (w *MultiRequest) Results() MultiResponse {
-- 
2.43.0


From 6858b51c54a50dc708ea5968402a6446c9679f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 24/68] fix: completed MultiRequest stayed registered in its
 Context after Each

---
 wait_group.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wait_group.go b/wait_group.go
index 856e06e..3c88395 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -135,6 +135,9 @@ func (w *MultiRequest) Each() <-chan *Response {
 	w.responses = nil
 	if w.c == w.r {
 		close(ch)
+		if w.cx != nil {
+			w.cx.RemoveCanceler(w)
+		}
 	}
 	/* Respond uses w.ch without lock, so publish it when we are done */
 	w.ch = ch
-- 
2.43.0


From f3965fb10a24e408e951177a2f99fb092580331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 25/68] fix: failing of MultiRequest raced with responses and
 dereferenced nil

---
 wait_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 3c88395..5e83f97 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -220,8 +220,8 @@ func (w *MultiRequest) performFailAll() {
 	w.m.Unlock()
 
 	for i := 0; i < r; i++ {
-		if allReqs[i] != nil {
-			w.performFail(allReqs[i])
+		if req := allReqs[i]; req != nil {
+			w.performFail(req)
 		}
 	}
 }
-- 
2.43.0


From b22fd0984131975c5afbc30b97eb10056c0dbd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 26/68] fix: timer loop could miss its wakeup

---
 custom_timer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/custom_timer.go b/custom_timer.go
index 4f60ff7..9d6557d 100644
--- a/custom_timer.go
+++ b/custom_timer.go
@@ -104,7 +104,7 @@ func newHeap(i uint32) *tHeap {
 }
 
 func (h *tHeap) loop() {
-	t := time.AfterFunc(time.Hour, h.c.Signal)
+	t := time.AfterFunc(time.Hour, h.wakeup)
 	h.m.Lock()
 Loop:
 	for {
@@ -134,6 +134,12 @@ Loop:
 	}
 }
 
+func (h *tHeap) wakeup() {
+	h.m.Lock()
+	h.c.Signal()
+	h.m.Unlock()
+}
+
 func (h *tHeap) push(x Expirator, e Epoch) bool {
 	var it *tItem
 	t := x.Timer()
-- 
2.43.0


From 72f9c27a2cd5d230f35f579946085f2020f7bf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 27/68] fix: Writer.Float64sl overlapped elements

---
 marshal/writer_any.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer_any.go b/marshal/writer_any.go
index 775f75f..26a7a8c 100644
--- a/marshal/writer_any.go
+++ b/marshal/writer_any.go
@@ -113,7 +113,7 @@ func (w *Writer) Float32sl(i []float32) {
 func (w *Writer) Float64sl(i []float64) {
 	l := w.ensure(len(i) * 8)
 	for j := 0; j < len(i); j++ {
-		le.PutUint64(w.buf[l+j*4:], math.Float64bits(i[j]))
+		le.PutUint64(w.buf[l+j*8:], math.Float64bits(i[j]))
 	}
 	return
 }
-- 
2.43.0


From 32ef11b2c695c15284da7574896fb17574e22018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 28/68] fix: Writer.IntUint64 wrote four bytes

---
 marshal/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer.go b/marshal/writer.go
index 2b2d4d6..4d6c993 100644
--- a/marshal/writer.go
+++ b/marshal/writer.go
@@ -133,7 +133,7 @@ func (w *Writer) Intvar(i int) {
 }
 
 func (w *Writer) IntUint64(i int) {
-	w.Uint32(uint32(i))
+	w.Uint64(uint64(i))
 }
 
 func (w *Writer) IntUint32(i int) {
-- 
2.43.0


From e9b2266534c2cea506deef9b82c8977653092037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 29/68] fix: size of varint 128 was computed as one byte

---
 marshal/marshal.go | 2 +-
 marshal/writer.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/marshal.go b/marshal/marshal.go
index 355dac9..6282e78 100644
--- a/marshal/marshal.go
+++ b/marshal/marshal.go
@@ -153,7 +153,7 @@ var tfloat64 = reflect.TypeOf(float64(0))
 const gg = 2*1024*1024*1024 - 1
 
 func Varsize(i int) (j int) {
-	for j = 0; i > 1<<7; j++ {
+	for j = 0; i >= 1<<7; j++ {
 		i >>= 7
 	}
 	return j + 1
diff --git a/marshal/writer.go b/marshal/writer.go
index 4d6c993..4cf490c 100644
--- a/marshal/writer.go
+++ b/marshal/writer.go
@@ -79,7 +79,7 @@ func (w *Writer) Int8(i int8) {
 }
 
 func varu64size(i uint64) (j int) {
-	for j = 0; i > 1<<7; j++ {
+	for j = 0; i >= 1<<7; j++ {
 		i >>= 7
 	}
 	return j + 1
-- 
2.43.0


From 06f1e1cd1136604cb10378c020e7ebcb1bb6e3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:25 +0000
Subject: [PATCH 30/68] fix: negative or too big size or count in input
 panicked decoder

---
 marshal/reader.go         |  4 ++--
 marshal/reader_reflect.go | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index b76a066..dbb5d89 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -133,7 +133,7 @@ func (r *Reader) Slice(sz int) (res []byte) {
 	if r.Err != nil {
 		return
 	}
-	if len(r.Body) < sz {
+	if sz < 0 || len(r.Body) < sz {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
@@ -146,7 +146,7 @@ func (r *Reader) String(sz int) (res string) {
 	if r.Err != nil {
 		return
 	}
-	if len(r.Body) < sz {
+	if sz < 0 || len(r.Body) < sz {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index cb770f2..829d495 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -450,6 +450,13 @@ func (t *TReader) WithSize(r *Reader, v reflect.Value, szrd func(*Reader) int) {
 		szrd = (*Reader).IntUint32
 	}
 	sz := szrd(r)
+	if r.Err != nil {
+		return
+	}
+	if sz < 0 || sz > len(r.Body) {
+		r.Err = fmt.Errorf("iproto.Reader: not enough data for size %d", sz)
+		return
+	}
 	if t.AutoSize != nil {
 		t.AutoSize(r, v, sz)
 		return
@@ -527,6 +534,13 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 		cntrd = (*Reader).IntUint32
 	}
 	cnt := cntrd(r)
+	if r.Err != nil {
+		return
+	}
+	if cnt < 0 || t.CntSet != nil && t.Elem != nil && t.Elem.Sz > 0 && cnt > len(r.Body)/t.Elem.Sz {
+		r.Err = fmt.Errorf("iproto.Reader: not enough data for count %d", cnt)
+		return
+	}
 	if t.AutoCount != nil {
 		t.AutoCount(r, v, cnt)
 		return
-- 
2.43.0


From c36c94d7916b87630fa0823e3430a92ecfdf4319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 31/68] fix: reading tail of slice by reflection panicked

---
 marshal/reader.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index dbb5d89..d1903e9 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -239,10 +239,7 @@ func (r *Reader) Uint8slValTail(v reflect.Value) {
 		return
 	}
 	if v.CanAddr() {
-		//l := len(r.Body)
-		//v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
-		p := v.Addr().Interface().(*[]byte)
-		*p = r.Tail()
+		v.SetBytes(r.Tail())
 	} else {
 		r.Uint8slVal(v)
 	}
@@ -254,7 +251,7 @@ func (r *Reader) Uint16slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 2
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint16slVal(v)
 }
@@ -265,7 +262,7 @@ func (r *Reader) Uint32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint32slVal(v)
 }
@@ -276,7 +273,7 @@ func (r *Reader) Uint64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint64slVal(v)
 }
@@ -287,7 +284,7 @@ func (r *Reader) Int8slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body)
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int8slVal(v)
 }
@@ -298,7 +295,7 @@ func (r *Reader) Int16slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 2
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int16slVal(v)
 }
@@ -309,7 +306,7 @@ func (r *Reader) Int32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int32slVal(v)
 }
@@ -320,7 +317,7 @@ func (r *Reader) Int64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int64slVal(v)
 }
@@ -331,7 +328,7 @@ func (r *Reader) Float32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Float32slVal(v)
 }
@@ -342,7 +339,7 @@ func (r *Reader) Float64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Float64slVal(v)
 }
-- 
2.43.0


From 26a1d41d49d540b180d7b3da267cf0a4b116c1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 32/68] fix: tail of pointer was never read

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 829d495..e76717c 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -790,7 +790,7 @@ func (t *TReader) FillPtr() {
 		}
 	}
 	t.Tail = func(r *Reader, v reflect.Value) {
-		if r.Err == nil {
+		if r.Err != nil {
 			return
 		}
 		if len(r.Body) > 0 {
-- 
2.43.0


From d010955922374689a44b1b5d0cb497e918399796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 33/68] fix: count of value behind pointer or interface was not
 read though it is written

---
 marshal/reader_reflect.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index e76717c..988ee80 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -561,6 +561,9 @@ func (t *TReader) fillautotail() {
 	if t.Tail == nil {
 		t.Tail = t.Fixed
 	}
+	if t.Auto != nil {
+		return
+	}
 	if t.CntSet != nil {
 		t.Auto = func(r *Reader, v reflect.Value) {
 			t.WithCount(r, v, (*Reader).IntUint32)
@@ -789,6 +792,11 @@ func (t *TReader) FillPtr() {
 			t.Elem.Fixed(r, v.Elem())
 		}
 	}
+	t.Auto = func(r *Reader, v reflect.Value) {
+		if !v.IsNil() {
+			t.Elem.Auto(r, v.Elem())
+		}
+	}
 	t.Tail = func(r *Reader, v reflect.Value) {
 		if r.Err != nil {
 			return
@@ -855,11 +863,20 @@ func (t *TReader) FillArray() {
 
 	t.Fixed = func(r *Reader, v reflect.Value) {
 		for i := 0; i < t.Cnt; i++ {
-			t.Elem.Auto(r, v.Index(i))
+			t.readElem(r, v.Index(i))
 		}
 	}
 }
 
+func (t *TReader) readElem(r *Reader, v reflect.Value) {
+	if t.Elem.Type.Kind() == reflect.Interface {
+		/* writer doesn't write counts of interface elements */
+		t.Elem.Fixed(r, v)
+	} else {
+		t.Elem.Auto(r, v)
+	}
+}
+
 func (t *TReader) FillSlice() {
 	t.CntSet = func(v reflect.Value, cnt int) error {
 		if v.Len() != cnt {
@@ -938,7 +955,7 @@ func (t *TReader) FillSlice() {
 	t.Fixed = func(r *Reader, v reflect.Value) {
 		l := v.Len()
 		for i := 0; i < l; i++ {
-			t.Elem.Auto(r, v.Index(i))
+			t.readElem(r, v.Index(i))
 		}
 	}
 
@@ -946,7 +963,7 @@ func (t *TReader) FillSlice() {
 		if !v.CanSet() {
 			l := v.Len()
 			for i := 0; i < l; i++ {
-				t.Elem.Auto(r, v.Index(i))
+				t.readElem(r, v.Index(i))
 			}
 			return
 		}
@@ -961,7 +978,7 @@ func (t *TReader) FillSlice() {
 				v.Set(reflect.Append(v, z))
 				c = v.Cap()
 			}
-			t.Elem.Auto(r, v.Index(l-1))
+			t.readElem(r, v.Index(l-1))
 		}
 	}
 }
-- 
2.43.0


From a57f3c3df04bff910bc8fb2999673f3645f7766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 34/68] fix: writing of nil pointer panicked

---
 marshal/writer_reflect.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 9b6cad5..99667b1 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -658,7 +658,9 @@ func (t *TWriter) FillPtr() {
 		}
 	}
 	t.WriteAuto = func(w *Writer, v reflect.Value) {
-		t.Elem.WriteAuto(w, v.Elem())
+		if !v.IsNil() {
+			t.Elem.WriteAuto(w, v.Elem())
+		}
 	}
 }
 
-- 
2.43.0


From 2a72cbaf416e7b3194df1398cfdc519dda4d1a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 35/68] fix: ISetCounter with pointer receiver was not used

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 988ee80..1344de0 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -619,7 +619,7 @@ func (t *TReader) Fill() {
 				return i.(ISetSizer).ISetSize(i, s)
 			}
 		}
-		if rt.Implements(isetcounter) {
+		if p.Implements(isetcounter) {
 			t.CntSet = func(v reflect.Value, s int) error {
 				i := v.Addr().Interface()
 				return i.(ISetCounter).ISetCount(i, s)
-- 
2.43.0


From a0fbc3a542cfabef5655c95fdec8142a87accfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 36/68] fix: wrong precomputed size of struct with field of
 variable size

---
 marshal/reader_reflect.go | 6 ++++--
 marshal/writer_reflect.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 1344de0..fb34fd7 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1104,7 +1104,7 @@ Fields:
 					fr.CntRd = (*Reader).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fr.CntRd = (*Reader).IntUint8
 				case "i16":
@@ -1144,7 +1144,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fr.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fr.Sz
 		}
 
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 99667b1..239da9f 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -770,7 +770,7 @@ Fields:
 					fw.CntWr = (*Writer).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fw.CntWr = (*Writer).IntUint8
 				case "i16":
@@ -810,7 +810,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fw.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fw.Sz
 		}
 
-- 
2.43.0


From 61fd6acf6e69775372d9d89d6b69615580fddabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:10 +0000
Subject: [PATCH 37/68] fix: count of ber array was written but not read

---
 marshal/writer_reflect.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 239da9f..6f576a7 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -823,9 +823,15 @@ Fields:
 			case reflect.Array:
 				switch fld.Type.Elem().Kind() {
 				case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-					fw.TWriter = &TWriter{}
-					*fw.TWriter = *BerSlWriter
-					fw.TWriter.Type = fld.Type
+					fw.TWriter = &TWriter{
+						Type:  fld.Type,
+						Elem:  BerWriter,
+						Write: BerSlWriter.Write,
+						Sz:    -1,
+						SzGet: BerSlWriter.SzGet,
+						Cnt:   fld.Type.Len(),
+					}
+					fw.TWriter.fillauto()
 				default:
 					log.Panicf("Could not apply 'ber' for array [%d]%+v", fld.Type.Len(), fld.Type.Elem())
 				}
-- 
2.43.0


From 38bad098b2932f0ea0f5cd4d18bd799a2e7bc125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 38/68] fix: reading of ber pointer with size or count panicked

---
 marshal/reader_reflect.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index fb34fd7..48b8479 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1190,10 +1190,13 @@ Fields:
 				switch fld.Type.Elem().Kind() {
 				case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 					fr.TReader = &TReader{
-						Elem: BerReader,
+						Type: fld.Type,
+						Elem: &TReader{},
 						Sz:   -1,
 						Cnt:  -1,
 					}
+					*fr.TReader.Elem = *BerReader
+					fr.TReader.Elem.Type = fld.Type.Elem()
 					fr.TReader.FillPtr()
 					fr.TReader.fillautotail()
 				default:
-- 
2.43.0


From 5d0db88f80847cf2a6eaf3ee80ceb1fcca5e3b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 39/68] fix: ReadWithSize ignored wrong size, and did not read
 size of other types

---
 marshal/reader_reflect.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 48b8479..5257255 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -195,53 +195,60 @@ func (r *Reader) ReadValueFixed(val reflect.Value) error {
 	return r.Err
 }
 
+func (r *Reader) sizeIs(sz, should int) bool {
+	if r.Err == nil && sz != should {
+		r.Err = fmt.Errorf("Size doesn't match %d %d", sz, should)
+	}
+	return r.Err == nil
+}
+
 func (r *Reader) ReadWithSize(i interface{}, rs func(*Reader) int) error {
 	if r.Err != nil {
 		return r.Err
 	}
 	switch o := i.(type) {
 	case *int8:
-		if sz := rs(r); sz == 1 {
+		if r.sizeIs(rs(r), 1) {
 			*o = r.Int8()
 		}
 	case *uint8:
-		if sz := rs(r); sz == 1 {
+		if r.sizeIs(rs(r), 1) {
 			*o = r.Uint8()
 		}
 	case *int16:
-		if sz := rs(r); sz == 2 {
+		if r.sizeIs(rs(r), 2) {
 			*o = r.Int16()
 		}
 	case *uint16:
-		if sz := rs(r); sz == 2 {
+		if r.sizeIs(rs(r), 2) {
 			*o = r.Uint16()
 		}
 	case *int32:
-		if sz := rs(r); sz == 4 {
+		if r.sizeIs(rs(r), 4) {
 			*o = r.Int32()
 		}
 	case *uint32:
-		if sz := rs(r); sz == 4 {
+		if r.sizeIs(rs(r), 4) {
 			*o = r.Uint32()
 		}
 	case *int64:
-		if sz := rs(r); sz == 8 {
+		if r.sizeIs(rs(r), 8) {
 			*o = r.Int64()
 		}
 	case *uint64:
-		if sz := rs(r); sz == 8 {
+		if r.sizeIs(rs(r), 8) {
 			*o = r.Uint64()
 		}
 	case *float32:
-		if sz := rs(r); sz == 4 {
+		if r.sizeIs(rs(r), 4) {
 			*o = r.Float32()
 		}
 	case *float64:
-		if sz := rs(r); sz == 8 {
+		if r.sizeIs(rs(r), 8) {
 			*o = r.Float64()
 		}
 	case []byte:
-		if sz := rs(r); sz == len(o) {
+		if r.sizeIs(rs(r), len(o)) {
 			r.Uint8sl(o)
 		}
 	case *[]byte:
@@ -257,11 +264,11 @@ func (r *Reader) ReadWithSize(i interface{}, rs func(*Reader) int) error {
 			val = val.Elem()
 			rt := val.Type()
 			rd := ReaderFor(rt)
-			rd.Auto(r, val)
+			rd.WithSize(r, val, rs)
 		} else {
 			rt := val.Type()
 			rd := ReaderFor(rt)
-			rd.Fixed(r, val)
+			rd.WithSize(r, val, rs)
 		}
 	}
 	return r.Err
-- 
2.43.0


From 953cdba7df1c9498b93e1e08a7fb75056a40e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 40/68] fix: Reader.Read could not read into reflect.Value

---
 marshal/reader_reflect.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 5257255..1581e84 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -160,7 +160,6 @@ func (r *Reader) Read(i interface{}) error {
 		if val, ok = i.(reflect.Value); !ok {
 			val = reflect.ValueOf(i)
 		}
-		val = reflect.ValueOf(i)
 		if val.Kind() == reflect.Ptr {
 			val = val.Elem()
 			rt := val.Type()
-- 
2.43.0


From 44c742273562cfddadff14967382beee8fad18dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 41/68] fix: reading of sized or counted interface field
 panicked

---
 marshal/reader_reflect.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 1581e84..02e1f33 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -423,13 +423,16 @@ func (t *TReader) SetSize(v reflect.Value, sz int) (bool, error) {
 		if sz == 0 {
 			if !v.IsNil() {
 				if v.CanSet() {
-					v.Set(reflect.ValueOf(nil))
+					v.Set(reflect.Zero(t.Type))
 				} else {
 					el := v.Elem()
 					rd := ReaderFor(el.Type())
 					return rd.SetSize(el, sz)
 				}
 			}
+			return true, nil
+		} else if v.IsNil() {
+			return false, fmt.Errorf("Could not read size %d into nil %+v", sz, t.Type)
 		} else {
 			el := v.Elem()
 			rd := ReaderFor(el.Type())
@@ -507,13 +510,16 @@ func (t *TReader) SetCount(v reflect.Value, cnt int) error {
 		if cnt == 0 {
 			if !v.IsNil() {
 				if v.CanSet() {
-					v.Set(reflect.ValueOf(nil))
+					v.Set(reflect.Zero(t.Type))
 				} else {
 					el := v.Elem()
 					rd := ReaderFor(el.Type())
 					return rd.SetCount(el, cnt)
 				}
 			}
+			return nil
+		} else if v.IsNil() {
+			return fmt.Errorf("Could not read count %d into nil %+v", cnt, t.Type)
 		} else {
 			el := v.Elem()
 			rd := ReaderFor(el.Type())
-- 
2.43.0


From f8994d40fec6a16a360f2c1f27de3c614bae6f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 42/68] fix: WriteWithSize of nil wrote no size

---
 marshal/writer_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 6f576a7..76608a9 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -170,7 +170,7 @@ func (w *Writer) WriteTail(i interface{}) {
 func (w *Writer) WriteWithSize(i interface{}, ws func(*Writer, int)) {
 	switch o := i.(type) {
 	case nil:
-		return
+		ws(w, 0)
 	case uint8:
 		ws(w, 1)
 		w.Uint8(o)
-- 
2.43.0


From 6f5cdc27b06d4972e75fa9caf9096d7e482dfb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 43/68] fix: count in input was trusted for allocation before
 checked against body

---
 marshal/reader_reflect.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 02e1f33..6ef0566 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -59,7 +59,7 @@ func (r *Reader) Read(i interface{}) error {
 			*o = r.String(int(count))
 		}
 	case *[]int8:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(count, 1) {
 			*o = make([]int8, count)
 			r.Int8sl(*o)
 		}
@@ -68,42 +68,42 @@ func (r *Reader) Read(i interface{}) error {
 			*o = r.Slice(int(count))
 		}
 	case *[]int16:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(count, 2) {
 			*o = make([]int16, count)
 			r.Int16sl(*o)
 		}
 	case *[]uint16:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(count, 2) {
 			*o = make([]uint16, count)
 			r.Uint16sl(*o)
 		}
 	case *[]int32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(count, 4) {
 			*o = make([]int32, count)
 			r.Int32sl(*o)
 		}
 	case *[]uint32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(count, 4) {
 			*o = make([]uint32, count)
 			r.Uint32sl(*o)
 		}
 	case *[]int64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(count, 8) {
 			*o = make([]int64, count)
 			r.Int64sl(*o)
 		}
 	case *[]uint64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(count, 8) {
 			*o = make([]uint64, count)
 			r.Uint64sl(*o)
 		}
 	case *[]float32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(count, 4) {
 			*o = make([]float32, count)
 			r.Float32sl(*o)
 		}
 	case *[]float64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.enough(count, 8) {
 			*o = make([]float64, count)
 			r.Float64sl(*o)
 		}
@@ -194,6 +194,14 @@ func (r *Reader) ReadValueFixed(val reflect.Value) error {
 	return r.Err
 }
 
+// enough checks count read from input before allocation of count elements
+func (r *Reader) enough(count uint32, size int) bool {
+	if r.Err == nil && int64(count)*int64(size) > int64(len(r.Body)) {
+		r.Err = fmt.Errorf("iproto.Reader: not enough data for count %d", count)
+	}
+	return r.Err == nil
+}
+
 func (r *Reader) sizeIs(sz, should int) bool {
 	if r.Err == nil && sz != should {
 		r.Err = fmt.Errorf("Size doesn't match %d %d", sz, should)
-- 
2.43.0


From 247bddf732cd0386a03b7851528c8b650813c130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 44/68] fix: size which is not multiple of element size
 desynchronized decoder

---
 marshal/reader_reflect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 6ef0566..044f7f4 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -907,6 +907,9 @@ func (t *TReader) FillSlice() {
 	if t.Elem.Sz > 0 {
 		t.SzSet = func(v reflect.Value, sz int) (bool, error) {
 			cnt := sz / t.Elem.Sz
+			if cnt*t.Elem.Sz != sz {
+				return false, fmt.Errorf("Size %d is not multiple of element size %d", sz, t.Elem.Sz)
+			}
 			if v.Len() != cnt {
 				v.Set(reflect.MakeSlice(t.Type, cnt, cnt))
 			}
-- 
2.43.0


From 495fa51cac1af5f2abf48e838701c8136276b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:18 +0000
Subject: [PATCH 45/68] fix: reading tail of slice of nil pointers never ended

---
 marshal/reader_reflect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 044f7f4..0caa003 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1001,7 +1001,11 @@ func (t *TReader) FillSlice() {
 				v.Set(reflect.Append(v, z))
 				c = v.Cap()
 			}
+			left := len(r.Body)
 			t.readElem(r, v.Index(l-1))
+			if len(r.Body) == left && r.Err == nil {
+				r.Err = fmt.Errorf("Could not read tail: element %+v takes no data", t.Elem.Type)
+			}
 		}
 	}
 }
-- 
2.43.0


From e3a7fec976783b642501d85220438c865850eaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:19 +0000
Subject: [PATCH 46/68] fix: count of slice of empty elements was written but
 not read

---
 marshal/reader_reflect.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 0caa003..cb3933b 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -915,8 +915,6 @@ func (t *TReader) FillSlice() {
 			}
 			return true, nil
 		}
-	} else if t.Elem.Sz == 0 {
-		t.Sz = 0
 	}
 	if !t.Elem.Implements {
 		switch t.Elem.Type.Kind() {
-- 
2.43.0


From e765501c185ed8b34710dc6381a0cf91d66896af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:20 +0000
Subject: [PATCH 47/68] fix: FieldReader.Tag was not set

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index cb3933b..b9473e2 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1062,7 +1062,7 @@ Fields:
 		if nosize {
 			log.Panicf("Only last field could be marked as size(no) or cnt(no) %+v", rt)
 		}
-		fr := FieldReader{I: i}
+		fr := FieldReader{I: i, Tag: fld.Tag}
 		ipro := fld.Tag.Get("iproto")
 		var ber bool
 
-- 
2.43.0


From 43086aed7594e017c0705bd499e29946fe4598ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 48/68] fix: reading of pointer to string with count panicked

---
 marshal/reader_reflect.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index b9473e2..509f60d 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -565,6 +565,13 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 		t.AutoCount(r, v, cnt)
 		return
 	}
+	if t.Type.Kind() == reflect.Ptr && t.Elem.AutoCount != nil && cnt > 0 {
+		if v.IsNil() {
+			v.Set(reflect.New(t.Elem.Type))
+		}
+		t.Elem.AutoCount(r, v.Elem(), cnt)
+		return
+	}
 	if err := t.SetCount(v, cnt); err != nil {
 		r.Err = err
 		return
-- 
2.43.0


From 4e152df12588d6d2c780093de3b20ff791e07958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 49/68] fix: ReadFirst and ReadSizedTuple lost error of
 truncated response

---
 sbox/reader.go | 4 +++-
 sbox/result.go | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index 58b2c54..c323686 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -30,7 +30,9 @@ func ReadSizedTuple(r *marshal.Reader, i interface{}) error {
 	sz := r.IntUint32()
 	if r.Err == nil {
 		rd := marshal.Reader{Body: r.Slice(sz + 4)}
-		r.Err = ReadRawTuple(&rd, i)
+		if r.Err == nil {
+			r.Err = ReadRawTuple(&rd, i)
+		}
 	}
 	return r.Err
 }
diff --git a/sbox/result.go b/sbox/result.go
index b90b9ac..1637964 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -35,6 +35,9 @@ Got:
 			err = r[0].Err
 		}
 	}
+	if err == nil {
+		err = r[0].Err
+	}
 	atomic.StorePointer(&readerCache, unsafe.Pointer(r))
 	return
 }
-- 
2.43.0


From c893c428287b547139f597016b3afc5643d83ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 50/68] fix: ReadMany skipped all tuples after malformed one

---
 sbox/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbox/result.go b/sbox/result.go
index 1637964..ae3a677 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -187,7 +187,7 @@ func oneTuple(r *[2]marshal.Reader, v reflect.Value, rd *TReader) error {
 		return r[0].Err
 	}
 	sz := r[0].IntUint32()
-	r[1].Body = r[0].Slice(sz + 4)
+	r[1] = marshal.Reader{Body: r[0].Slice(sz + 4)}
 	if r[0].Err != nil {
 		log.Printf("oneTuple header read error: %s", r[0].Err)
 		return r[0].Err
-- 
2.43.0


From a0899b4fdef9935f5ff708cab588d27e55692a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 51/68] fix: tuple with more fields than destination panicked
 reader

---
 sbox/reader.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index c323686..29969f1 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -88,6 +88,7 @@ type TReader struct {
 
 func (t *TReader) sliceFixed(r *marshal.Reader, v reflect.Value) {
 	if l := r.IntUint32(); l >= v.Len() {
+		l = v.Len()
 		for i := 0; i < l; i++ {
 			t.Reader.Elem.WithSize(r, v.Index(i), (*marshal.Reader).Intvar)
 		}
@@ -97,13 +98,12 @@ func (t *TReader) sliceFixed(r *marshal.Reader, v reflect.Value) {
 }
 
 func (t *TReader) sliceAuto(r *marshal.Reader, v reflect.Value) {
-	l := r.IntUint32()
-	if v.CanSet() {
-		v.Set(reflect.MakeSlice(v.Type(), l, l))
-	} else if l < v.Len() {
-		r.Err = fmt.Errorf("Wrong field count: expect %d, got %d", v.Len(), l)
+	if !v.CanSet() {
+		t.sliceFixed(r, v)
 		return
 	}
+	l := r.IntUint32()
+	v.Set(reflect.MakeSlice(v.Type(), l, l))
 	for i := 0; i < l; i++ {
 		t.Reader.Elem.WithSize(r, v.Index(i), (*marshal.Reader).Intvar)
 	}
-- 
2.43.0


From 39ceb252a314c5742ca1af94656f5c7ec09c7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 52/68] fix: count of tuples or fields in response was trusted
 for allocation

---
 sbox/reader.go | 10 ++++++++++
 sbox/result.go |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/sbox/reader.go b/sbox/reader.go
index 29969f1..b1c55a3 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -103,6 +103,11 @@ func (t *TReader) sliceAuto(r *marshal.Reader, v reflect.Value) {
 		return
 	}
 	l := r.IntUint32()
+	if l > len(r.Body) {
+		/* every field takes at least a byte */
+		r.Err = fmt.Errorf("Wrong field count: not enough data for %d", l)
+		return
+	}
 	v.Set(reflect.MakeSlice(v.Type(), l, l))
 	for i := 0; i < l; i++ {
 		t.Reader.Elem.WithSize(r, v.Index(i), (*marshal.Reader).Intvar)
@@ -234,6 +239,11 @@ func (sw *TReader) structAuto(r *marshal.Reader, v reflect.Value) {
 		return
 	}*/
 	case Tail, TailSplit:
+		if l > len(r.Body) {
+			/* every field takes at least a byte */
+			r.Err = fmt.Errorf("Wrong field count: not enough data for %d", l)
+			return
+		}
 		if l < len(flds)-1 {
 			break
 			/*r.Err = fmt.Errorf("Wrong field count: expect at least %d, got %d", len(flds)-1, l)
diff --git a/sbox/result.go b/sbox/result.go
index ae3a677..15a20c3 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -1,6 +1,7 @@
 package sbox
 
 import (
+	"fmt"
 	"log"
 	"reflect"
 	"sync/atomic"
@@ -154,6 +155,11 @@ func readSlice(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Float32, reflect.Float64, reflect.Struct, reflect.String, reflect.Ptr:
 		rd := reader(tel)
+		if l > len(r[0].Body)/8 {
+			/* every tuple has size and cardinality */
+			r[0].Err = fmt.Errorf("Wrong tuple count: not enough data for %d", l)
+			return 0
+		}
 		v.Set(reflect.MakeSlice(v.Type(), l, l))
 		var i int
 		for ; i < l; i++ {
-- 
2.43.0


From f3184112f743aee00cb281d51d7a943499cb8707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 53/68] fix: sbox tail and tailsplit fields could be neither
 written nor read

---
 sbox/reader.go | 12 ++++++------
 sbox/writer.go | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index b1c55a3..c444956 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -252,7 +252,7 @@ func (sw *TReader) structAuto(r *marshal.Reader, v reflect.Value) {
 		tail := l - len(flds) + 1
 		last := flds[len(flds)-1]
 		if sw.Tail == TailSplit {
-			llast := len(last.Flds)
+			llast := len(last.Elem.Flds)
 			tail /= llast
 		}
 		last.TReader.SetCount(v.Field(last.I), tail)
@@ -277,22 +277,22 @@ func (sw *TReader) structRead(r *marshal.Reader, k int, v reflect.Value) {
 	case NoTail:
 	case Tail:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
 		for i := 0; i < l && n+i < k; i++ {
 			val := fv.Index(i)
-			fs.WithSize(r, val, (*marshal.Reader).Intvar)
+			fs.Elem.WithSize(r, val, (*marshal.Reader).Intvar)
 		}
 	case TailSplit:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
-		fss := fs.TReader.Flds
+		fss := fs.Elem.Flds
 		fl := len(fss)
 		for i := 0; i < l; i++ {
 			str := fv.Index(i)
 			for j := 0; j < fl && n+i*fl+j < k; j++ {
-				fss[i].WithSize(r, str.Field(i), (*marshal.Reader).Intvar)
+				fss[j].WithSize(r, str.Field(fss[j].I), (*marshal.Reader).Intvar)
 			}
 		}
 	}
diff --git a/sbox/writer.go b/sbox/writer.go
index 54a7b48..f2d645c 100644
--- a/sbox/writer.go
+++ b/sbox/writer.go
@@ -175,7 +175,7 @@ func (sw *TWriter) structCnt(v reflect.Value) int {
 		return len(flds) - 1 + v.Field(flds[len(flds)-1].I).Len()
 	case TailSplit:
 		last := flds[len(flds)-1]
-		return len(flds) - 1 + v.Field(last.I).Len()*len(last.TWriter.Flds)
+		return len(flds) - 1 + v.Field(last.I).Len()*len(last.Elem.Flds)
 	}
 	return 0
 }
@@ -195,22 +195,22 @@ func (sw *TWriter) structWriter(w *marshal.Writer, v reflect.Value) {
 	case NoTail:
 	case Tail:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
 		for i := 0; i < l; i++ {
 			val := fv.Index(i)
-			fs.WithSize(w, val, (*marshal.Writer).Intvar)
+			fs.Elem.WithSize(w, val, (*marshal.Writer).Intvar)
 		}
 	case TailSplit:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
-		fss := fs.TWriter.Flds
+		fss := fs.Elem.Flds
 		fl := len(fss)
 		for i := 0; i < l; i++ {
 			str := fv.Index(i)
 			for j := 0; j < fl; j++ {
-				fss[i].WithSize(w, str.Field(i), (*marshal.Writer).Intvar)
+				fss[j].WithSize(w, str.Field(fss[j].I), (*marshal.Writer).Intvar)
 			}
 		}
 	}
-- 
2.43.0


From b11658a23beaa890eebf31be3080d26d1765ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 54/68] fix: select key count differed from number of written
 keys

---
 sbox/select.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sbox/select.go b/sbox/select.go
index 279280d..fc250a2 100644
--- a/sbox/select.go
+++ b/sbox/select.go
@@ -68,7 +68,10 @@ func CountKeys(keys interface{}) int {
 	case []interface{}:
 		sum := 0
 		for _, v := range k {
-			sum += CountKeys(v)
+			/* WriteKeys writes every element as a single tuple */
+			if v != nil {
+				sum++
+			}
 		}
 		return sum
 	default:
-- 
2.43.0


From 3ab092bed816163acf2ac842f019fc143d80ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 55/68] fix: writing of sbox Op without value panicked

---
 sbox/modify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sbox/modify.go b/sbox/modify.go
index 7227f9f..fc28dda 100644
--- a/sbox/modify.go
+++ b/sbox/modify.go
@@ -120,6 +120,8 @@ func (o Op) IWrite(w *marshal.Writer) {
 		w.Write(opmap[o.Op])
 	}
 	switch v := o.Val.(type) {
+	case nil:
+		w.Intvar(0)
 	case uint32:
 		w.Int8(4)
 		w.Uint32(v)
-- 
2.43.0


From 601d98aaf50f175430c3d8466e71b159dddba64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:36 +0000
Subject: [PATCH 56/68] fix: repeated Stop of server blocked forever holding
 its lock

---
 net/server/server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/server/server.go b/net/server/server.go
index 5526b16..e919077 100644
--- a/net/server/server.go
+++ b/net/server/server.go
@@ -65,7 +65,10 @@ func (serv *Server) Run() (err error) {
 func (serv *Server) Stop() {
 	serv.Lock()
 	serv.closing = true
-	serv.stop <- true
+	select {
+	case serv.stop <- true:
+	default:
+	}
 	serv.Unlock()
 	serv.listener.Close()
 }
-- 
2.43.0


From 3e56bf3e76bce9585b2db9994796bc895910c0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:15 +0000
Subject: [PATCH 57/68] fix: timer of completed MultiRequest stayed armed

---
 wait_group.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wait_group.go b/wait_group.go
index 5e83f97..d1b7874 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -134,6 +134,7 @@ func (w *MultiRequest) Each() <-chan *Response {
 	}
 	w.responses = nil
 	if w.c == w.r {
+		w.timer.Stop()
 		close(ch)
 		if w.cx != nil {
 			w.cx.RemoveCanceler(w)
@@ -163,6 +164,7 @@ func (w *MultiRequest) Results() MultiResponse {
 	if atomic.LoadUint32(&w.c) < w.r {
 		w.w.Wait()
 	}
+	w.timer.Stop()
 	res := w.responses
 	w.responses = nil
 	if w.cx != nil {
-- 
2.43.0


From 0daaa31990b717e3dcfee7a673f0ddec24e7057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:45 +0000
Subject: [PATCH 58/68] fix: two workers could take the same pending request
 into work

---
 request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index c4da8a6..dd4ccd8 100644
--- a/request.go
+++ b/request.go
@@ -87,8 +87,8 @@ func (r *Request) SetInFly(mid RequestBookmark) (set bool) {
 		return r.cas(RsPending, RsInFly)
 	} else {
 		r.Lock()
-		if r.state == RsPending {
-			r.state = RsInFly
+		/* SetInFly(nil) does not hold the lock */
+		if r.cas(RsPending, RsInFly) {
 			mid.setReq(r, mid)
 			set = true
 		}
-- 
2.43.0


From 20065791f1d4e05ec2f0426eb99ce032249aa043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:52 +0000
Subject: [PATCH 59/68] fix: only one of several waiters of a context was woken

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index b521080..90cb7a1 100644
--- a/context.go
+++ b/context.go
@@ -72,7 +72,7 @@ func (c *Context) RemoveCanceler(cn Canceler) {
 		delete(c.cancelsm, cn)
 	}
 	if c.cancelsn == 0 && len(c.cancelsm) == 0 {
-		c.childCond.Signal()
+		c.childCond.Broadcast()
 	}
 	c.m.Unlock()
 }
-- 
2.43.0


From 4e50221748f6257429a3896c000cdfa8b280cf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:06 +0000
Subject: [PATCH 60/68] fix: a stream that ended within a frame made the reader
 panic

---
 net/slice_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index 76165fd..224d523 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -43,7 +43,7 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		err = nil
 	} else if l > 0 && err == io.EOF {
 		res = buf[:l]
-		sl.buf = buf[l:]
+		sl.buf = buf[l:l]
 		err = io.ErrUnexpectedEOF
 	}
 	return
-- 
2.43.0


From f4af227d4be1fc83ec530d71b17e3f3c417028fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:04 +0000
Subject: [PATCH 61/68] fix: ids that wrapped around replaced a row with
 outstanding requests

---
 net/client/connection/request_holder.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index 183f364..7656758 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -49,11 +49,18 @@ func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
 		id := atomic.AddUint32(&h.curId, 1)
 		big := id >> rowLogN
 		if h.big != big {
-			h.big = big
-			h.cur = &RequestRow{}
 			h.Lock()
-			h.reqs[big] = h.cur
+			_, busy := h.reqs[big]
+			if !busy {
+				h.big = big
+				h.cur = &RequestRow{}
+				h.reqs[big] = h.cur
+			}
 			h.Unlock()
+			if busy {
+				/* ids wrapped around, and some of the row are still outstanding */
+				continue
+			}
 		}
 		reqs := h.cur
 		if id != 0 && id != uint32(iproto.PingRequestId) {
-- 
2.43.0


From 51b2d3e78e0808c672bdfae091a30e884f26acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:02 +0000
Subject: [PATCH 62/68] fix: a client pool took a connection whose writer was
 done for a surplus one

---
 net/client/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/client/server.go b/net/client/server.go
index 8189b0c..9d8f08f 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -189,6 +189,9 @@ func (serv *Server) onConnError(connErr connection.Error) {
 		serv.dying++
 		if conn.Stopped() {
 			serv.stopping--
+		} else {
+			/* its State may not tell yet, so do not take it for a surplus one */
+			conn.Stop()
 		}
 		if serv.established == 0 && serv.Standalone() {
 			serv.AllDisconnected()
-- 
2.43.0


From 5d7118ffb40021aa0a057905589ad6c92fd43707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:10 +0000
Subject: [PATCH 63/68] fix: ReadTail: keep the first error of a reader

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 509f60d..4cc0352 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -356,7 +356,7 @@ func (r *Reader) ReadTail(i interface{}) error {
 			rd.Fixed(r, val)
 		}
 	}
-	if len(r.Body) != 0 {
+	if r.Err == nil && len(r.Body) != 0 {
 		r.Err = fmt.Errorf("Could not read into %+v whole [% x]", i, was)
 	}
 	return r.Err
-- 
2.43.0


From f7026cf78bd4c4e80abe6338f30cfb0e2ace20b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:12 +0000
Subject: [PATCH 64/68] fix: Reader.Uint64var: no value together with an error

---
 marshal/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index d1903e9..0ab9b35 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -56,11 +56,11 @@ func (r *Reader) Uint64var() (res uint64) {
 			return
 		} else if res > (maxUint64 >> 7) {
 			r.Err = fmt.Errorf("iproto.Reader: varint is too big %x", r)
-			return
+			return 0
 		}
 	}
 	r.Err = fmt.Errorf("iproto.Reader: not enough data for uint64var %x", r)
-	return
+	return 0
 }
 
 func (r *Reader) Intvar() (res int) {
-- 
2.43.0


From 3e7ac31e1b51abc7e278215bf30944b1d8cb738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:09 +0000
Subject: [PATCH 65/68] fix: ReadFirst: a tuple that is not there was reported
 as read

---
 sbox/result.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index 15a20c3..24c6e70 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -30,10 +30,10 @@ Got:
 		sz := r[0].IntUint32()
 		if r[0].Err == nil {
 			r[1].Body = r[0].Slice(sz + 4)
+		}
+		if r[0].Err == nil {
 			err = ReadRawTuple(&r[1], v)
 			read = true
-		} else {
-			err = r[0].Err
 		}
 	}
 	if err == nil {
-- 
2.43.0


From 2993b6eedf50c64594a44729051b0ff9ce11f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:09 +0000
Subject: [PATCH 66/68] fix: ReadMany: a tuple that is not there was read and
 counted

---
 sbox/result.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbox/result.go b/sbox/result.go
index 24c6e70..6aa29c3 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -76,7 +76,9 @@ func readInterface(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
 			reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 			reflect.Float32, reflect.Float64, reflect.Struct, reflect.String, reflect.Ptr:
-			oneTuple(r, el, nil)
+			if l < 1 || oneTuple(r, el, nil) != nil {
+				return 0
+			}
 			return 1
 		}
 	case reflect.Array, reflect.Slice:
-- 
2.43.0


From 785a1c6a900700b4d7e00f6c3cda026cf6401330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:09 +0000
Subject: [PATCH 67/68] fix: ReadMany: elements of a fixed array were read as
 the array

---
 sbox/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbox/result.go b/sbox/result.go
index 6aa29c3..0663228 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -92,7 +92,7 @@ func readFixedArray(r *[2]marshal.Reader, v reflect.Value, l int) int {
 	tel := v.Type().Elem()
 	switch tel.Kind() {
 	case reflect.Slice, reflect.Ptr:
-		rd := reader(v.Type())
+		rd := reader(tel)
 		ln := v.Len()
 		var i int
 		for i = 0; i < l && i < ln; i++ {
-- 
2.43.0


From adb6da4bc5e79ce1d2f6efca23508aa66ac7113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:09 +0000
Subject: [PATCH 68/68] fix: ReadMany: could not read into interfaces, and
 counted elements instead of tuples

---
 sbox/result.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index 0663228..037ecf7 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -179,15 +179,15 @@ func readSlice(r *[2]marshal.Reader, v reflect.Value, l int) int {
 }
 
 func readInterfaceArray(r *[2]marshal.Reader, v reflect.Value, l int) int {
-	var i int
+	read := 0
 	ln := v.Len()
-	for i = 0; i < ln && l > 0; i++ {
-		l -= readInterface(r, v.Index(i), l)
+	for i := 0; i < ln && read < l; i++ {
+		read += readInterface(r, v.Index(i).Elem(), l-read)
 		if r[0].Err != nil {
 			break
 		}
 	}
-	return i
+	return read
 }
 
 func oneTuple(r *[2]marshal.Reader, v reflect.Value, rd *TReader) error {
-- 
2.43.0

