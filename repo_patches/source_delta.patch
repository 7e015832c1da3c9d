From 8bbc1b318dfa30032b8a1f061e5a30f6dea6db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 01/31] fix: fail pending requests once their connection is
 gone

---
 client.go |  1 +
 map.go    | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 85f9b9c..5081e31 100644
--- a/client.go
+++ b/client.go
@@ -516,6 +516,7 @@ func (c *Client) handshake() {
 
 func (c *Client) recvLoop() {
 	defer close(c.readerDone)
+	defer c.requests.close()
 
 	for {
 		buf, err := c.read()
diff --git a/map.go b/map.go
index 58c9c12..4fe6033 100644
--- a/map.go
+++ b/map.go
@@ -3,6 +3,7 @@ package noise
 import (
 	"container/list"
 	"errors"
+	"io"
 	"math"
 	"sync"
 )
@@ -100,6 +101,7 @@ type requestMap struct {
 	sync.Mutex
 	entries map[uint64]chan message
 	nonce   uint64
+	closed  bool
 }
 
 func newRequestMap() *requestMap {
@@ -110,6 +112,10 @@ func (r *requestMap) nextNonce() (<-chan message, uint64, error) {
 	r.Lock()
 	defer r.Unlock()
 
+	if r.closed {
+		return nil, 0, io.EOF
+	}
+
 	if r.nonce == math.MaxUint64 {
 		r.nonce = 0
 	}
@@ -131,8 +137,10 @@ func (r *requestMap) markRequestFailed(nonce uint64) {
 	r.Lock()
 	defer r.Unlock()
 
-	close(r.entries[nonce])
-	delete(r.entries, nonce)
+	if ch, exists := r.entries[nonce]; exists {
+		close(ch)
+		delete(r.entries, nonce)
+	}
 }
 
 func (r *requestMap) findRequest(nonce uint64) chan<- message {
@@ -151,6 +159,8 @@ func (r *requestMap) close() {
 	r.Lock()
 	defer r.Unlock()
 
+	r.closed = true
+
 	for nonce := range r.entries {
 		close(r.entries[nonce])
 		delete(r.entries, nonce)
-- 
2.43.0


From 30e4fb7b4122d2311de753d728c2a8706c3d0f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 02/31] fix: share the responded flag between all copies of a
 HandlerContext

---
 client.go | 3 ++-
 msg.go    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 5081e31..22b7125 100644
--- a/client.go
+++ b/client.go
@@ -9,6 +9,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"go.uber.org/atomic"
 	"go.uber.org/zap"
 	"io"
 	"net"
@@ -546,7 +547,7 @@ func (c *Client) recvLoop() {
 			continue
 		}
 
-		c.node.work <- HandlerContext{client: c, msg: msg}
+		c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}
 
 		for _, protocol := range c.node.protocols {
 			if protocol.OnMessageRecv == nil {
diff --git a/msg.go b/msg.go
index 7d25d28..ca3625e 100644
--- a/msg.go
+++ b/msg.go
@@ -37,7 +37,7 @@ func unmarshalMessage(data []byte) (message, error) {
 type HandlerContext struct {
 	client *Client
 	msg    message
-	sent   atomic.Bool
+	sent   *atomic.Bool
 }
 
 // ID returns the ID of the inbound/outbound peer that sent you the data that is currently being handled.
-- 
2.43.0


From 197b46dc0be1ce3472ceae56179273626c0899f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 03/31] fix: keep workers alive after a handler returned an
 error

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 634410e..64f6d65 100644
--- a/node.go
+++ b/node.go
@@ -189,7 +189,7 @@ func (n *Node) Listen() error {
 						ctx.client.reportError(err)
 						ctx.client.close()
 
-						return
+						break
 					}
 				}
 			}
-- 
2.43.0


From 1fab203a13717642cd7df6c8439e44aaeaaf561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 04/31] fix: close outbound connections whose handshake failed

---
 client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client.go b/client.go
index 22b7125..5c6a895 100644
--- a/client.go
+++ b/client.go
@@ -232,6 +232,11 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 
 	c.handshake()
 
+	if c.Error() != nil {
+		c.close()
+		return
+	}
+
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
-- 
2.43.0


From c2f62427a872409c235b6e935b1b0f46da749e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 05/31] fix: read frames of any size the limit allows into a
 buffer that grows as needed

---
 client.go | 47 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/client.go b/client.go
index 5c6a895..9b46c86 100644
--- a/client.go
+++ b/client.go
@@ -92,8 +92,6 @@ func newClient(node *Node) *Client {
 
 		requests: newRequestMap(),
 
-		readerBuf: make([]byte, 4+node.maxRecvMessageSize),
-
 		ready:      make(chan struct{}),
 		readerDone: make(chan struct{}),
 		writerDone: make(chan struct{}),
@@ -292,25 +290,27 @@ func (c *Client) read() ([]byte, error) {
 		}
 	}
 
-	if _, err := io.ReadFull(c.reader, c.readerBuf[:4]); err != nil {
+	var header [4]byte
+
+	if _, err := io.ReadFull(c.reader, header[:]); err != nil {
 		return nil, err
 	}
 
-	size := binary.BigEndian.Uint32(c.readerBuf[:4])
+	size := binary.BigEndian.Uint32(header[:])
 
 	if c.node.maxRecvMessageSize > 0 && size > c.node.maxRecvMessageSize {
 		return nil, fmt.Errorf("got %d bytes, but limit is set to %d: %w", size, c.node.maxRecvMessageSize, ErrMessageTooLarge)
 	}
 
-	if _, err := io.ReadFull(c.reader, c.readerBuf[4:size+4]); err != nil {
+	if err := c.fill(uint64(size)); err != nil {
 		return nil, err
 	}
 
 	if c.suite == nil {
-		return c.readerBuf[4 : size+4], nil
+		return c.readerBuf[:size], nil
 	}
 
-	buf, err := decryptAEAD(c.suite, c.readerBuf[4:size+4])
+	buf, err := decryptAEAD(c.suite, c.readerBuf[:size])
 	if err != nil {
 		return nil, err
 	}
@@ -318,6 +318,39 @@ func (c *Client) read() ([]byte, error) {
 	return buf, nil
 }
 
+// fill reads size bytes into the head of the read buffer. The buffer only grows along with the bytes that have
+// actually arrived, and not with the size that the peer has announced.
+func (c *Client) fill(size uint64) error {
+	for n := uint64(0); n < size; {
+		end := 2*n + 4096
+		if end < uint64(len(c.readerBuf)) {
+			end = uint64(len(c.readerBuf))
+		}
+
+		if end > size {
+			end = size
+		}
+
+		if end > uint64(len(c.readerBuf)) {
+			grown := make([]byte, end)
+			copy(grown, c.readerBuf[:n])
+			c.readerBuf = grown
+		}
+
+		if _, err := io.ReadFull(c.reader, c.readerBuf[n:end]); err != nil {
+			if err == io.EOF && n > 0 {
+				err = io.ErrUnexpectedEOF
+			}
+
+			return err
+		}
+
+		n = end
+	}
+
+	return nil
+}
+
 func (c *Client) write(data []byte) error {
 	if c.node.idleTimeout > 0 {
 		if err := c.conn.SetWriteDeadline(time.Now().Add(c.node.idleTimeout)); err != nil {
-- 
2.43.0


From 20e732aaead6aad7fd30393861ad166b7e3e149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:47 +0000
Subject: [PATCH 06/31] fix: evict pooled clients without waiting for them
 under the pool's lock

---
 client.go | 4 ++--
 map.go    | 6 +++---
 node.go   | 7 +++++--
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/client.go b/client.go
index 9b46c86..52f5355 100644
--- a/client.go
+++ b/client.go
@@ -209,7 +209,7 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 	c.side = clientSideInbound
 
 	defer func() {
-		c.node.outbound.remove(addr)
+		c.node.outbound.remove(addr, c)
 		close(c.clientDone)
 	}()
 
@@ -255,7 +255,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	c.side = clientSideOutbound
 
 	defer func() {
-		c.node.inbound.remove(addr)
+		c.node.inbound.remove(addr, c)
 		close(c.clientDone)
 	}()
 
diff --git a/map.go b/map.go
index 4fe6033..08516ce 100644
--- a/map.go
+++ b/map.go
@@ -43,7 +43,6 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 			delete(c.entries, evicted)
 
 			e.client.close()
-			e.client.waitUntilClosed()
 		}
 
 		entry.el = c.order.PushFront(addr)
@@ -57,12 +56,13 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 	return entry.client, exists
 }
 
-func (c *clientMap) remove(addr string) {
+// remove removes client from the pool, unless its place under addr was meanwhile given to another client.
+func (c *clientMap) remove(addr string, client *Client) {
 	c.Lock()
 	defer c.Unlock()
 
 	entry, exists := c.entries[addr]
-	if !exists {
+	if !exists || entry.client != client {
 		return
 	}
 
diff --git a/node.go b/node.go
index 64f6d65..c291aa0 100644
--- a/node.go
+++ b/node.go
@@ -226,9 +226,12 @@ func (n *Node) Listen() error {
 			addr := conn.RemoteAddr().String()
 
 			client, exists := n.inbound.get(n, addr)
-			if !exists {
-				go client.inbound(conn, addr)
+			if exists {
+				conn.Close()
+				continue
 			}
+
+			go client.inbound(conn, addr)
 		}
 	}()
 
-- 
2.43.0


From 11963aa3db3737a99d9b27ce61ee89199a04bd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 07/31] fix: dial on behalf of all waiting callers, until the
 connection is closed

The context of the caller that happened to start a dial no longer decides over
other callers, closing a client aborts its dial, and no call closes an
established connection because its own context is done.
---
 client.go | 63 +++++++++++++++++++++++++++++++++++++++++++++----------
 error.go  |  2 ++
 map.go    | 26 +++++++++++++++++++++++
 node.go   | 16 ++++++++++----
 4 files changed, 92 insertions(+), 15 deletions(-)

diff --git a/client.go b/client.go
index 52f5355..23343c2 100644
--- a/client.go
+++ b/client.go
@@ -84,6 +84,11 @@ type Client struct {
 	}
 
 	closeOnce sync.Once
+
+	waiters int // Number of callers waiting for this client to be ready. Guarded by its pool's lock.
+
+	ctx    context.Context
+	cancel context.CancelFunc
 }
 
 func newClient(node *Node) *Client {
@@ -99,6 +104,8 @@ func newClient(node *Node) *Client {
 		clientDone: make(chan struct{}),
 	}
 
+	c.ctx, c.cancel = context.WithCancel(context.Background())
+
 	c.writerCond.L = &sync.Mutex{}
 
 	c.SetLogger(node.logger)
@@ -188,14 +195,44 @@ func (c *Client) close() {
 		c.writerCond.L.Lock()
 		c.writerClosed = true
 		c.writerCond.Signal()
+		conn := c.conn
 		c.writerCond.L.Unlock()
 
-		if c.conn != nil {
-			c.conn.Close()
+		c.cancel()
+
+		if conn != nil {
+			conn.Close()
 		}
 	})
 }
 
+// attach has this client take over conn. Should this client already be closed, conn is closed and false is returned.
+func (c *Client) attach(conn net.Conn) bool {
+	c.writerCond.L.Lock()
+	defer c.writerCond.L.Unlock()
+
+	if c.writerClosed {
+		conn.Close()
+		return false
+	}
+
+	c.reader = bufio.NewReader(conn)
+	c.writer = bufio.NewWriter(conn)
+	c.conn = conn
+
+	return true
+}
+
+// established returns true if this client has completed its handshake and has not failed since.
+func (c *Client) established() bool {
+	select {
+	case <-c.ready:
+		return c.Error() == nil
+	default:
+		return false
+	}
+}
+
 func (c *Client) waitUntilReady() {
 	<-c.ready
 }
@@ -204,7 +241,7 @@ func (c *Client) waitUntilClosed() {
 	<-c.clientDone
 }
 
-func (c *Client) outbound(ctx context.Context, addr string) {
+func (c *Client) outbound(addr string) {
 	c.addr = addr
 	c.side = clientSideInbound
 
@@ -215,7 +252,11 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 
 	var dialer net.Dialer
 
-	conn, err := dialer.DialContext(ctx, "tcp", addr)
+	conn, err := dialer.DialContext(c.ctx, "tcp", addr)
+	if err == nil && !c.attach(conn) {
+		err = errClientClosed
+	}
+
 	if err != nil {
 		c.reportError(err)
 		close(c.ready)
@@ -224,10 +265,6 @@ func (c *Client) outbound(ctx context.Context, addr string) {
 		return
 	}
 
-	c.reader = bufio.NewReader(conn)
-	c.writer = bufio.NewWriter(conn)
-	c.conn = conn
-
 	c.handshake()
 
 	if c.Error() != nil {
@@ -259,9 +296,13 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 		close(c.clientDone)
 	}()
 
-	c.reader = bufio.NewReader(conn)
-	c.writer = bufio.NewWriter(conn)
-	c.conn = conn
+	if !c.attach(conn) {
+		c.reportError(errClientClosed)
+		close(c.ready)
+		close(c.writerDone)
+		close(c.readerDone)
+		return
+	}
 
 	c.handshake()
 
diff --git a/error.go b/error.go
index 53ce4f9..5249ba1 100644
--- a/error.go
+++ b/error.go
@@ -6,4 +6,6 @@ var (
 	// ErrMessageTooLarge is reported by a client when it receives a message from a peer that exceeds the max
 	// receivable message size limit configured on a node.
 	ErrMessageTooLarge = errors.New("msg from peer is too large")
+
+	errClientClosed = errors.New("client is closed")
 )
diff --git a/map.go b/map.go
index 08516ce..9993dac 100644
--- a/map.go
+++ b/map.go
@@ -53,14 +53,40 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 		c.order.MoveToFront(entry.el)
 	}
 
+	entry.client.waiters++
+
 	return entry.client, exists
 }
 
+// leave is to be called by callers of get who no longer wait for client to be ready. Should client not be ready, and
+// should nobody else be waiting for it, it is closed and removed from the pool.
+func (c *clientMap) leave(addr string, client *Client) {
+	c.Lock()
+	defer c.Unlock()
+
+	client.waiters--
+
+	select {
+	case <-client.ready:
+		return
+	default:
+	}
+
+	if client.waiters == 0 {
+		client.close()
+		c.drop(addr, client)
+	}
+}
+
 // remove removes client from the pool, unless its place under addr was meanwhile given to another client.
 func (c *clientMap) remove(addr string, client *Client) {
 	c.Lock()
 	defer c.Unlock()
 
+	c.drop(addr, client)
+}
+
+func (c *clientMap) drop(addr string, client *Client) {
 	entry, exists := c.entries[addr]
 	if !exists || entry.client != client {
 		return
diff --git a/node.go b/node.go
index c291aa0..f2fc145 100644
--- a/node.go
+++ b/node.go
@@ -396,7 +396,7 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 	for i := uint(0); i < n.maxDialAttempts; i++ {
 		client, exists := n.outbound.get(n, addr)
 		if !exists {
-			go client.outbound(ctx, addr)
+			go client.outbound(addr)
 		}
 
 		select {
@@ -410,14 +410,19 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 			err = client.Error()
 		}
 
+		n.outbound.leave(addr, client)
+
 		if err == nil {
 			return client, nil
 		}
 
-		client.close()
-		client.waitUntilClosed()
+		if ctx.Err() != nil {
+			err = fmt.Errorf("failed to dial peer: %w", ctx.Err())
+
+			if client.established() {
+				return nil, err
+			}
 
-		if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
 			for _, protocol := range n.protocols {
 				if protocol.OnPingFailed == nil {
 					continue
@@ -428,6 +433,9 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 
 			return nil, err
 		}
+
+		client.close()
+		n.outbound.remove(addr, client)
 	}
 
 	err = fmt.Errorf("attempted to dial %s several times but failed: %w", addr, err)
-- 
2.43.0


From 6741db7316f28326eab603bcaa219a0e817bd6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 08/31] fix: never send through a connection that is already
 closed

Sending through a closed client is an error, and closed clients are not handed
out any more by the connection pools.
---
 client.go | 48 +++++++++++++++++++++++++++---------------------
 map.go    |  5 +++++
 2 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/client.go b/client.go
index 23343c2..3711727 100644
--- a/client.go
+++ b/client.go
@@ -192,6 +192,8 @@ func (c *Client) reportError(err error) {
 
 func (c *Client) close() {
 	c.closeOnce.Do(func() {
+		c.reportError(errClientClosed)
+
 		c.writerCond.L.Lock()
 		c.writerClosed = true
 		c.writerCond.Signal()
@@ -265,9 +267,7 @@ func (c *Client) outbound(addr string) {
 		return
 	}
 
-	c.handshake()
-
-	if c.Error() != nil {
+	if !c.handshake() {
 		c.close()
 		return
 	}
@@ -304,9 +304,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 		return
 	}
 
-	c.handshake()
-
-	if c.Error() != nil {
+	if !c.handshake() {
 		c.close()
 		return
 	}
@@ -419,9 +417,14 @@ func (c *Client) write(data []byte) error {
 
 func (c *Client) send(nonce uint64, data []byte) error {
 	c.writerCond.L.Lock()
+	defer c.writerCond.L.Unlock()
+
+	if c.writerClosed {
+		return errClientClosed
+	}
+
 	c.writerBuf = append(c.writerBuf, message{nonce: nonce, data: data})
 	c.writerCond.Signal()
-	c.writerCond.L.Unlock()
 
 	return nil
 }
@@ -457,7 +460,8 @@ func (c *Client) request(ctx context.Context, data []byte) (message, error) {
 	return msg, nil
 }
 
-func (c *Client) handshake() {
+// handshake returns true if the handshake completed, and with it that all protocols were told of this peer.
+func (c *Client) handshake() bool {
 	defer close(c.ready)
 
 	// Generate Ed25519 ephemeral keypair to perform a Diffie-Hellman handshake.
@@ -465,7 +469,7 @@ func (c *Client) handshake() {
 	pub, sec, err := GenerateKeys(nil)
 	if err != nil {
 		c.reportError(err)
-		return
+		return false
 	}
 
 	// Send our Ed25519 ephemeral public key and signature of the message '.__noise_handshake'.
@@ -474,7 +478,7 @@ func (c *Client) handshake() {
 
 	if err := c.write(append(pub[:], signature[:]...)); err != nil {
 		c.reportError(fmt.Errorf("failed to send session handshake: %w", err))
-		return
+		return false
 	}
 
 	// Read from our peer their Ed25519 ephemeral public key and signature of the message '.__noise_handshake'.
@@ -482,7 +486,7 @@ func (c *Client) handshake() {
 	data, err := c.read()
 	if err != nil {
 		c.reportError(err)
-		return
+		return false
 	}
 
 	if len(data) != SizePublicKey+SizeSignature {
@@ -491,7 +495,7 @@ func (c *Client) handshake() {
 			len(data),
 		))
 
-		return
+		return false
 	}
 
 	var peerPublicKey PublicKey
@@ -501,7 +505,7 @@ func (c *Client) handshake() {
 
 	if !peerPublicKey.Verify([]byte(".__noise_handshake"), UnmarshalSignature(data[SizePublicKey:SizePublicKey+SizeSignature])) {
 		c.reportError(errors.New("could not verify session handshake"))
-		return
+		return false
 	}
 
 	// Transform all Ed25519 points to Curve25519 points and perform a Diffie-Hellman handshake
@@ -510,7 +514,7 @@ func (c *Client) handshake() {
 	shared, err := ECDH(sec, peerPublicKey)
 	if err != nil {
 		c.reportError(err)
-		return
+		return false
 	}
 
 	// Use the derived shared key from Diffie-Hellman to encrypt/decrypt all future communications
@@ -519,13 +523,13 @@ func (c *Client) handshake() {
 	core, err := aes.NewCipher(shared[:])
 	if err != nil {
 		c.reportError(fmt.Errorf("could not instantiate aes: %w", err))
-		return
+		return false
 	}
 
 	suite, err := cipher.NewGCM(core)
 	if err != nil {
 		c.reportError(fmt.Errorf("could not instantiate aes-gcm: %w", err))
-		return
+		return false
 	}
 
 	c.suite = suite
@@ -538,7 +542,7 @@ func (c *Client) handshake() {
 
 	if err := c.write(buf); err != nil {
 		c.reportError(fmt.Errorf("failed to send session handshake: %w", err))
-		return
+		return false
 	}
 
 	// Read and parse from our peer their overlay ID.
@@ -546,13 +550,13 @@ func (c *Client) handshake() {
 	data, err = c.read()
 	if err != nil {
 		c.reportError(fmt.Errorf("failed to read overlay handshake: %w", err))
-		return
+		return false
 	}
 
 	id, err := UnmarshalID(data)
 	if err != nil {
 		c.reportError(fmt.Errorf("failed to parse peer id while handling overlay handshake: %w", err))
-		return
+		return false
 	}
 
 	// Validate the peers ownership of the overlay ID.
@@ -566,12 +570,12 @@ func (c *Client) handshake() {
 			len(data),
 		))
 
-		return
+		return false
 	}
 
 	if !id.ID.Verify(append(buf, shared...), UnmarshalSignature(data[len(buf):len(buf)+SizeSignature])) {
 		c.reportError(errors.New("overlay handshake signature is malformed"))
-		return
+		return false
 	}
 
 	c.id = id
@@ -592,6 +596,8 @@ func (c *Client) handshake() {
 
 		protocol.OnPeerConnected(c)
 	}
+
+	return true
 }
 
 func (c *Client) recvLoop() {
diff --git a/map.go b/map.go
index 9993dac..506fd69 100644
--- a/map.go
+++ b/map.go
@@ -34,6 +34,11 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 	defer c.Unlock()
 
 	entry, exists := c.entries[addr]
+	if exists && entry.client.Error() != nil { // The connection is already gone.
+		c.drop(addr, entry.client)
+		exists = false
+	}
+
 	if !exists {
 		if uint(len(c.entries)) == n.maxInboundConnections {
 			el := c.order.Back()
-- 
2.43.0


From 7664e3abd013bc90e3b07869a80440b43f8830ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 09/31] fix: have Close always return, after everything of the
 node has stopped

Close no longer hangs right after or without a successful Listen, and closes
outbound connections too. It returns once all connections, workers and the
listener are done; a closed node does not connect or listen again.
---
 client.go |  8 +++++++-
 error.go  |  1 +
 map.go    | 20 +++++++++++++++++++-
 node.go   | 50 +++++++++++++++++++++++++++++++++++++++++++-------
 4 files changed, 70 insertions(+), 9 deletions(-)

diff --git a/client.go b/client.go
index 3711727..8e4edb5 100644
--- a/client.go
+++ b/client.go
@@ -250,6 +250,7 @@ func (c *Client) outbound(addr string) {
 	defer func() {
 		c.node.outbound.remove(addr, c)
 		close(c.clientDone)
+		c.node.outbound.clients.Done()
 	}()
 
 	var dialer net.Dialer
@@ -294,6 +295,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	defer func() {
 		c.node.inbound.remove(addr, c)
 		close(c.clientDone)
+		c.node.inbound.clients.Done()
 	}()
 
 	if !c.attach(conn) {
@@ -632,7 +634,11 @@ func (c *Client) recvLoop() {
 			continue
 		}
 
-		c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}
+		select {
+		case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
+		case <-c.ctx.Done():
+			return
+		}
 
 		for _, protocol := range c.node.protocols {
 			if protocol.OnMessageRecv == nil {
diff --git a/error.go b/error.go
index 5249ba1..8ea221a 100644
--- a/error.go
+++ b/error.go
@@ -8,4 +8,5 @@ var (
 	ErrMessageTooLarge = errors.New("msg from peer is too large")
 
 	errClientClosed = errors.New("client is closed")
+	errNodeClosed   = errors.New("node is closed")
 )
diff --git a/map.go b/map.go
index 506fd69..5595245 100644
--- a/map.go
+++ b/map.go
@@ -19,6 +19,9 @@ type clientMap struct {
 	cap     uint
 	order   *list.List
 	entries map[string]clientMapEntry
+
+	closed  bool
+	clients sync.WaitGroup // All clients whose goroutines are still running.
 }
 
 func newClientMap(cap uint) *clientMap {
@@ -29,10 +32,16 @@ func newClientMap(cap uint) *clientMap {
 	}
 }
 
+// get returns the client under addr, or otherwise a new one which is to be started by the caller. It returns nil if the
+// pool was released.
 func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 	c.Lock()
 	defer c.Unlock()
 
+	if c.closed {
+		return nil, false
+	}
+
 	entry, exists := c.entries[addr]
 	if exists && entry.client.Error() != nil { // The connection is already gone.
 		c.drop(addr, entry.client)
@@ -53,6 +62,8 @@ func (c *clientMap) get(n *Node, addr string) (*Client, bool) {
 		entry.el = c.order.PushFront(addr)
 		entry.client = newClient(n)
 
+		c.clients.Add(1)
+
 		c.entries[addr] = entry
 	} else {
 		c.order.MoveToFront(entry.el)
@@ -101,9 +112,12 @@ func (c *clientMap) drop(addr string, client *Client) {
 	delete(c.entries, addr)
 }
 
+// release closes all clients, and has the pool not create any further ones.
 func (c *clientMap) release() {
 	c.Lock()
 
+	c.closed = true
+
 	entries := c.entries
 	c.entries = make(map[string]clientMapEntry, c.cap)
 	c.order.Init()
@@ -112,10 +126,14 @@ func (c *clientMap) release() {
 
 	for _, e := range entries {
 		e.client.close()
-		e.client.waitUntilClosed()
 	}
 }
 
+// wait pauses until all goroutines of all clients of a released pool are done.
+func (c *clientMap) wait() {
+	c.clients.Wait()
+}
+
 func (c *clientMap) slice() []*Client {
 	c.Lock()
 	defer c.Unlock()
diff --git a/node.go b/node.go
index f2fc145..9ab0cd5 100644
--- a/node.go
+++ b/node.go
@@ -54,6 +54,9 @@ type Node struct {
 	workers sync.WaitGroup
 	work    chan HandlerContext
 
+	lifecycle    sync.Mutex // Keeps Listen and Close apart.
+	started      bool
+	closed       bool
 	listenerDone chan error
 }
 
@@ -107,7 +110,14 @@ func NewNode(opts ...NodeOption) (*Node, error) {
 //
 // Listen must not be called concurrently, and should only ever be called once per node instance.
 func (n *Node) Listen() error {
-	if n.listening.Load() {
+	n.lifecycle.Lock()
+	defer n.lifecycle.Unlock()
+
+	if n.closed {
+		return errNodeClosed
+	}
+
+	if n.started {
 		return errors.New("node is already listening")
 	}
 
@@ -196,16 +206,23 @@ func (n *Node) Listen() error {
 		}()
 	}
 
-	go func() {
-		n.listening.Store(true)
+	n.started = true
+	n.listening.Store(true)
 
+	go func() {
 		defer func() {
+			if n.listening.CAS(true, false) {
+				n.listener.Close()
+			}
+
 			n.inbound.release()
+			n.outbound.release()
+			n.inbound.wait()
+			n.outbound.wait()
 
 			close(n.work)
 			n.workers.Wait()
 
-			n.listening.Store(false)
 			close(n.listenerDone)
 		}()
 
@@ -226,7 +243,7 @@ func (n *Node) Listen() error {
 			addr := conn.RemoteAddr().String()
 
 			client, exists := n.inbound.get(n, addr)
-			if exists {
+			if exists || client == nil {
 				conn.Close()
 				continue
 			}
@@ -377,15 +394,29 @@ func (n *Node) Ping(ctx context.Context, addr string) (*Client, error) {
 // from handling/accepting new incoming peer connections. It returns an error if an error occurs closing the nodes
 // listener. Nodes that are closed should not ever be re-used.
 //
-// Close may be called concurrently.
+// Close may be called concurrently. It waits for all handlers and protocol callbacks that are still running, and so must
+// not be called from within them.
 func (n *Node) Close() error {
+	n.lifecycle.Lock()
+	n.closed = true
+	started := n.started
+	n.lifecycle.Unlock()
+
 	if n.listening.CAS(true, false) {
 		if err := n.listener.Close(); err != nil {
 			return err
 		}
 	}
 
-	<-n.listenerDone
+	n.inbound.release()
+	n.outbound.release()
+	n.inbound.wait()
+	n.outbound.wait()
+
+	if started {
+		for range n.listenerDone {
+		}
+	}
 
 	return nil
 }
@@ -395,6 +426,11 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 
 	for i := uint(0); i < n.maxDialAttempts; i++ {
 		client, exists := n.outbound.get(n, addr)
+		if client == nil {
+			err = errNodeClosed
+			break
+		}
+
 		if !exists {
 			go client.outbound(addr)
 		}
-- 
2.43.0


From 566924adb677d44e90834e136c441ae099ba2731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 10/31] fix: measure the idle timeout from the last read or
 write, and close on write errors

The write deadline was set before waiting for something to write, and so hit
the first write after a pause. Writing did not keep a connection alive, and a
failed writer left its connection open without anyone writing to it.
---
 client.go | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index 8e4edb5..4e11dc5 100644
--- a/client.go
+++ b/client.go
@@ -650,8 +650,17 @@ func (c *Client) recvLoop() {
 	}
 }
 
+func (c *Client) extendDeadline(set func(time.Time) error) error {
+	if c.node.idleTimeout <= 0 {
+		return nil
+	}
+
+	return set(time.Now().Add(c.node.idleTimeout))
+}
+
 func (c *Client) writeLoop() {
 	defer close(c.writerDone)
+	defer c.close()
 
 	header := make([]byte, 4)
 	buf := make([]byte, 0, 1024)
@@ -666,17 +675,6 @@ Write:
 		default:
 		}
 
-		if c.node.idleTimeout > 0 {
-			if err := c.conn.SetWriteDeadline(time.Now().Add(c.node.idleTimeout)); err != nil {
-				if !isEOF(err) {
-					c.Logger().Warn("Got an error setting write deadline.", zap.Error(err))
-				}
-				c.reportError(err)
-
-				break Write
-			}
-		}
-
 		c.writerCond.L.Lock()
 		for len(c.writerBuf) == 0 && !c.writerClosed {
 			c.writerCond.Wait()
@@ -689,6 +687,15 @@ Write:
 			break Write
 		}
 
+		if err := c.extendDeadline(c.conn.SetWriteDeadline); err != nil {
+			if !isEOF(err) {
+				c.Logger().Warn("Got an error setting write deadline.", zap.Error(err))
+			}
+			c.reportError(err)
+
+			break Write
+		}
+
 		for _, msg := range writerBuf {
 			buf = buf[:0]
 			buf = msg.marshal(buf)
@@ -733,6 +740,14 @@ Write:
 			break Write
 		}
 
+		// The connection is not idle as long as messages are written, even if the peer stays silent.
+
+		if err := c.extendDeadline(c.conn.SetReadDeadline); err != nil {
+			c.reportError(err)
+
+			break Write
+		}
+
 		for _, protocol := range c.node.protocols {
 			if protocol.OnMessageSent == nil {
 				continue
-- 
2.43.0


From ad21ee45e2e46b134ac17be3c4aab931fe073a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 11/31] fix: marshal IPv4 hosts of IDs in their 16-byte form

---
 id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id.go b/id.go
index b3c0afa..82f36ee 100644
--- a/id.go
+++ b/id.go
@@ -53,7 +53,7 @@ func (e ID) Marshal() []byte {
 	buf := make([]byte, e.Size())
 
 	copy(buf[:len(e.ID)], e.ID[:])
-	copy(buf[len(e.ID):len(e.ID)+net.IPv6len], e.Host)
+	copy(buf[len(e.ID):len(e.ID)+net.IPv6len], e.Host.To16())
 	binary.BigEndian.PutUint16(buf[len(e.ID)+net.IPv6len:len(e.ID)+net.IPv6len+2], e.Port)
 
 	return buf
-- 
2.43.0


From 22c78bb6da6cad9f79fd9b346f55d629afe7992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 12/31] fix: draw encryption nonces from crypto/rand

---
 aead.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aead.go b/aead.go
index a9699c4..45f9ac4 100644
--- a/aead.go
+++ b/aead.go
@@ -2,8 +2,8 @@ package noise
 
 import (
 	"crypto/cipher"
+	"crypto/rand"
 	"io"
-	"math/rand"
 )
 
 func extendFront(buf []byte, n int) []byte {
-- 
2.43.0


From 67b6126696a81064e12fea1f071a6354039f8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 13/31] fix: refuse handshakes that are reflected back

---
 client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client.go b/client.go
index 4e11dc5..974d3ab 100644
--- a/client.go
+++ b/client.go
@@ -503,6 +503,14 @@ func (c *Client) handshake() bool {
 	var peerPublicKey PublicKey
 	copy(peerPublicKey[:], data[:SizePublicKey])
 
+	// Refuse our own Ed25519 public key, as everything we send in this session would otherwise be valid when reflected
+	// back to us.
+
+	if peerPublicKey == pub {
+		c.reportError(errors.New("session handshake was reflected"))
+		return false
+	}
+
 	// Verify ownership of our peers Ed25519 public key by verifying the signature they sent.
 
 	if !peerPublicKey.Verify([]byte(".__noise_handshake"), UnmarshalSignature(data[SizePublicKey:SizePublicKey+SizeSignature])) {
-- 
2.43.0


From 681ede318e79f3f00d01d102f4b504ddd6b01c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:54 +0000
Subject: [PATCH 14/31] fix: register handlers and protocols safely from
 several goroutines

---
 node.go | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index 9ab0cd5..35bc3b2 100644
--- a/node.go
+++ b/node.go
@@ -51,6 +51,9 @@ type Node struct {
 	protocols []Protocol
 	handlers  []Handler
 
+	registry sync.Mutex // Guards protocols and handlers until the node is sealed.
+	sealed   bool
+
 	workers sync.WaitGroup
 	work    chan HandlerContext
 
@@ -174,7 +177,12 @@ func (n *Node) Listen() error {
 		n.id = NewID(n.publicKey, host, uint16(port))
 	}
 
-	for _, protocol := range n.protocols {
+	for i := 0; ; i++ {
+		protocol, ok := n.registered(i)
+		if !ok {
+			break
+		}
+
 		if protocol.Bind == nil {
 			continue
 		}
@@ -494,7 +502,10 @@ func (n *Node) dialIfNotExists(ctx context.Context, addr string) (*Client, error
 //
 // Bind may be called concurrently.
 func (n *Node) Bind(protocols ...Protocol) {
-	if n.listening.Load() {
+	n.registry.Lock()
+	defer n.registry.Unlock()
+
+	if n.sealed {
 		return
 	}
 
@@ -508,13 +519,30 @@ func (n *Node) Bind(protocols ...Protocol) {
 //
 // Handle may be called concurrently.
 func (n *Node) Handle(handlers ...Handler) {
-	if n.listening.Load() {
+	n.registry.Lock()
+	defer n.registry.Unlock()
+
+	if n.sealed {
 		return
 	}
 
 	n.handlers = append(n.handlers, handlers...)
 }
 
+// registered returns the i'th registered protocol, or otherwise seals the registration of protocols and handlers.
+func (n *Node) registered(i int) (Protocol, bool) {
+	n.registry.Lock()
+	defer n.registry.Unlock()
+
+	if i < len(n.protocols) {
+		return n.protocols[i], true
+	}
+
+	n.sealed = true
+
+	return Protocol{}, false
+}
+
 // Sign uses the nodes private key to sign data and return its cryptographic signature as a slice of bytes.
 func (n *Node) Sign(data []byte) Signature {
 	return n.privateKey.Sign(data)
-- 
2.43.0


From 32ad8bf8fe89bc81074ef80de21d59867089082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 15/31] fix: guard the ID of a client, which is read while its
 handshake runs

---
 client.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/client.go b/client.go
index 974d3ab..fcb00b4 100644
--- a/client.go
+++ b/client.go
@@ -48,7 +48,10 @@ func (c clientSide) String() string {
 type Client struct {
 	node *Node
 
-	id ID
+	id struct {
+		sync.RWMutex
+		ID
+	}
 
 	addr string
 	side clientSide
@@ -118,7 +121,10 @@ func newClient(node *Node) *Client {
 //
 // ID may be called concurrently.
 func (c *Client) ID() ID {
-	return c.id
+	c.id.RLock()
+	defer c.id.RUnlock()
+
+	return c.id.ID
 }
 
 // Logger returns the underlying logger associated to this client. It may optionally be set via (*Client).SetLogger.
@@ -588,7 +594,9 @@ func (c *Client) handshake() bool {
 		return false
 	}
 
-	c.id = id
+	c.id.Lock()
+	c.id.ID = id
+	c.id.Unlock()
 
 	c.SetLogger(c.Logger().With(
 		zap.String("peer_id", id.ID.String()),
-- 
2.43.0


From 84bc490f9301c633d3980f84ff1236d42fc73521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 16/31] fix: encode types that were registered as pointers

---
 codec.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codec.go b/codec.go
index 3d627f2..11da0fb 100644
--- a/codec.go
+++ b/codec.go
@@ -61,11 +61,12 @@ func (c *codec) encode(msg Serializable) ([]byte, error) {
 
 	t := reflect.TypeOf(msg)
 
-	if t.Kind() == reflect.Ptr {
+	opcode, registered := c.ser[t]
+	if !registered && t.Kind() == reflect.Ptr {
 		t = t.Elem()
+		opcode, registered = c.ser[t]
 	}
 
-	opcode, registered := c.ser[t]
 	if !registered {
 		return nil, fmt.Errorf("opcode not registered for message type %+v", t)
 	}
-- 
2.43.0


From ffa3ea9001cb74aaddfb2754c148d0d537d50f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:22 +0000
Subject: [PATCH 17/31] fix: find the closest entries of a routing table in the
 right buckets

---
 kademlia/table.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/kademlia/table.go b/kademlia/table.go
index 1ea256f..0ccdaf4 100644
--- a/kademlia/table.go
+++ b/kademlia/table.go
@@ -176,16 +176,19 @@ func (t *Table) FindClosest(target noise.PublicKey, k int) []noise.ID {
 
 	f(t.entries[idx])
 
-	for i := 1; len(closest) < k && (idx-i >= 0 || idx+i < len(t.entries)); i++ {
-		if idx-i >= 0 {
-			f(t.entries[idx-i])
-		}
+	// Entries of all further buckets share the very same prefix with target, and are closer to target than the entries
+	// of all previous buckets are, which in turn are the farther away the shorter the prefix is.
 
-		if idx+i < len(t.entries) {
-			f(t.entries[idx+i])
+	if len(closest) < k {
+		for i := idx + 1; i < len(t.entries); i++ {
+			f(t.entries[i])
 		}
 	}
 
+	for i := idx - 1; len(closest) < k && i >= 0; i-- {
+		f(t.entries[i])
+	}
+
 	closest = SortByDistance(target, closest)
 
 	if len(closest) > k {
-- 
2.43.0


From 44f6ec0f101eabe61f7345b05bd492ce08e42e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:22 +0000
Subject: [PATCH 18/31] fix: do not report peers as evicted that were never
 admitted

---
 kademlia/protocol.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index c0eb3ad..3840be3 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -144,10 +144,6 @@ func (p *Protocol) Ack(id noise.ID) {
 			zap.String("peer_addr", id.Address),
 		)
 
-		if p.events.OnPeerEvicted != nil {
-			p.events.OnPeerEvicted(id)
-		}
-
 		return
 	}
 }
-- 
2.43.0


From cb8bb6df68bd3867f5e4a496a271f9205ce333c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:22 +0000
Subject: [PATCH 19/31] fix: have Find return its target if it is found

---
 kademlia/iterator.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kademlia/iterator.go b/kademlia/iterator.go
index 9b0f3ca..24ee82c 100644
--- a/kademlia/iterator.go
+++ b/kademlia/iterator.go
@@ -76,7 +76,6 @@ func (it *Iterator) init(target noise.PublicKey) {
 
 	it.visited = map[noise.PublicKey]struct{}{
 		it.node.ID().ID: {},
-		target:          {},
 	}
 
 	it.buckets = make([][]noise.ID, it.numParallelLookups)
-- 
2.43.0


From f74c1580997b62204bef70d179c767f32c95d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:11 +0000
Subject: [PATCH 20/31] fix: call OnMessageRecv for responses as documented

---
 client.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/client.go b/client.go
index fcb00b4..fd3c486 100644
--- a/client.go
+++ b/client.go
@@ -646,14 +646,12 @@ func (c *Client) recvLoop() {
 		if ch := c.requests.findRequest(msg.nonce); ch != nil {
 			ch <- msg
 			close(ch)
-
-			continue
-		}
-
-		select {
-		case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
-		case <-c.ctx.Done():
-			return
+		} else {
+			select {
+			case c.node.work <- HandlerContext{client: c, msg: msg, sent: atomic.NewBool(false)}:
+			case <-c.ctx.Done():
+				return
+			}
 		}
 
 		for _, protocol := range c.node.protocols {
-- 
2.43.0


From fb46dfbfdb28aeb369d415fd379162da94d1fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:11 +0000
Subject: [PATCH 21/31] fix: keep track of gossip of any size

Entries of 64 KB and more are silently not cached, so that large messages were
taken for new ones, and gossiped again, over and over.
---
 gossip/protocol.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index c5ae995..a07235f 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -4,6 +4,7 @@ package gossip
 
 import (
 	"context"
+	"crypto/sha256"
 	"github.com/VictoriaMetrics/fastcache"
 	"github.com/perlin-network/noise"
 	"github.com/perlin-network/noise/kademlia"
@@ -125,5 +126,6 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 }
 
 func (p *Protocol) hash(id noise.ID, data []byte) []byte {
-	return append(id.ID[:], data...)
+	sum := sha256.Sum256(append(id.ID[:], data...)) // Keys have to be small to be kept in the cache.
+	return sum[:]
 }
-- 
2.43.0


From 3f4de00884331f4c3ab20f0f9eb83a26dac37b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:11 +0000
Subject: [PATCH 22/31] fix: check and mark gossip as seen in a single step

Copies of a message handled concurrently could all be reported as new.
---
 gossip/protocol.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index a07235f..6ec1a2b 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -19,6 +19,7 @@ type Protocol struct {
 	events  Events
 
 	seen *fastcache.Cache
+	mark sync.Mutex // Makes checking and marking a message as seen a single step.
 }
 
 // New returns a new instance of a gossip protocol with 32MB of in-memory cache instantiated.
@@ -73,15 +74,14 @@ func (p *Protocol) Push(ctx context.Context, data []byte) {
 		go func() {
 			defer wg.Done()
 
-			if p.seen.Has(key) {
+			if !p.see(key) {
 				return
 			}
 
 			if err := p.node.SendMessage(ctx, id.Address, Message(data)); err != nil {
+				p.seen.Del(key)
 				return
 			}
-
-			p.seen.Set(key, nil)
 		}()
 	}
 
@@ -108,12 +108,10 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 
 	self := p.hash(p.node.ID(), msg)
 
-	if p.seen.Has(self) {
+	if !p.see(self) { // Mark that we already have this data.
 		return nil
 	}
 
-	p.seen.Set(self, nil) // Mark that we already have this data.
-
 	if p.events.OnGossipReceived != nil {
 		if err := p.events.OnGossipReceived(ctx.ID(), msg); err != nil {
 			return err
@@ -125,6 +123,20 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 	return nil
 }
 
+// see marks key as seen, and returns false if it already was.
+func (p *Protocol) see(key []byte) bool {
+	p.mark.Lock()
+	defer p.mark.Unlock()
+
+	if p.seen.Has(key) {
+		return false
+	}
+
+	p.seen.Set(key, nil)
+
+	return true
+}
+
 func (p *Protocol) hash(id noise.ID, data []byte) []byte {
 	sum := sha256.Sum256(append(id.ID[:], data...)) // Keys have to be small to be kept in the cache.
 	return sum[:]
-- 
2.43.0


From faa8a0ce11a322f07c7e10af36f8d61ba9f96438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:38 +0000
Subject: [PATCH 23/31] fix: wait for a client's writer before reporting it as
 disconnected and closed

---
 client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client.go b/client.go
index fd3c486..e43e12a 100644
--- a/client.go
+++ b/client.go
@@ -282,6 +282,7 @@ func (c *Client) outbound(addr string) {
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
+	<-c.writerDone
 
 	c.Logger().Debug("Peer connection closed.")
 
@@ -320,6 +321,7 @@ func (c *Client) inbound(conn net.Conn, addr string) {
 	go c.writeLoop()
 	c.recvLoop()
 	c.close()
+	<-c.writerDone
 
 	for _, protocol := range c.node.protocols {
 		if protocol.OnPeerDisconnected == nil {
-- 
2.43.0


From 8ce8dcb85bcce43c0628dd9d68b41f30b76b826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:44 +0000
Subject: [PATCH 24/31] fix: report a flush even if its connection is closed
 right after it

---
 client.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/client.go b/client.go
index e43e12a..d3b839f 100644
--- a/client.go
+++ b/client.go
@@ -760,8 +760,6 @@ Write:
 
 		if err := c.extendDeadline(c.conn.SetReadDeadline); err != nil {
 			c.reportError(err)
-
-			break Write
 		}
 
 		for _, protocol := range c.node.protocols {
-- 
2.43.0


From 8aec89468e54670d4fc5aa0ab000d95392bfd659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:09 +0000
Subject: [PATCH 25/31] fix: refuse identities whose public key is weak

---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index d3b839f..c01e915 100644
--- a/client.go
+++ b/client.go
@@ -596,6 +596,13 @@ func (c *Client) handshake() bool {
 		return false
 	}
 
+	// Refuse weak identities, for which signatures may be forged by anyone as there is no private key to them.
+
+	if _, err := ECDH(sec, id.ID); err != nil {
+		c.reportError(fmt.Errorf("overlay handshake public key is weak: %w", err))
+		return false
+	}
+
 	c.id.Lock()
 	c.id.ID = id
 	c.id.Unlock()
-- 
2.43.0


From 3b0be5550928418c920d1858dd149ecfbfb9c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:57 +0000
Subject: [PATCH 26/31] fix: do not block handlers while gossip is passed on

Any peer that announced an address that accepts connections, but never
completes the handshake, could otherwise block all workers for good.
---
 gossip/protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gossip/protocol.go b/gossip/protocol.go
index 6ec1a2b..ff46b3e 100644
--- a/gossip/protocol.go
+++ b/gossip/protocol.go
@@ -118,7 +118,7 @@ func (p *Protocol) Handle(ctx noise.HandlerContext) error {
 		}
 	}
 
-	p.Push(context.Background(), msg)
+	go p.Push(context.Background(), msg) // Peers that do not respond must not block handlers of the node.
 
 	return nil
 }
-- 
2.43.0


From 7173509403af042a76b2a502c80af531bcad7a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:58 +0000
Subject: [PATCH 27/31] fix: do not crash a node bound to kademlia that is not
 listening

---
 kademlia/protocol.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index 3840be3..051cb4a 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -79,7 +79,13 @@ func (p *Protocol) Table() *Table {
 // Ack attempts to insert a peer ID into your nodes routing table. If the routing table bucket in which your peer ID
 // was expected to be inserted on is full, the peer ID at the tail of the bucket is pinged. If the ping fails, the
 // peer ID at the tail of the bucket is evicted and your peer ID is inserted to the head of the bucket.
+//
+// There is no routing table yet should the node not have started listening, in which case nothing is inserted.
 func (p *Protocol) Ack(id noise.ID) {
+	if p.table == nil {
+		return
+	}
+
 	for {
 		inserted, err := p.table.Update(id)
 		if err == nil {
@@ -187,6 +193,10 @@ func (p *Protocol) OnPeerConnected(client *noise.Client) {
 
 // OnPingFailed evicts peers that your node has failed to dial.
 func (p *Protocol) OnPingFailed(addr string, err error) {
+	if p.table == nil {
+		return
+	}
+
 	if id, deleted := p.table.DeleteByAddress(addr); deleted {
 		p.logger.Debug("Peer was evicted from routing table by failing to be dialed.", zap.Error(err))
 
-- 
2.43.0


From bfc29a610ce02f7653c048721823494919336612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:47 +0000
Subject: [PATCH 28/31] fix: do not take another peer's answer for that of a
 routing table entry

---
 kademlia/iterator.go |  2 +-
 kademlia/protocol.go | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/kademlia/iterator.go b/kademlia/iterator.go
index 24ee82c..0705b41 100644
--- a/kademlia/iterator.go
+++ b/kademlia/iterator.go
@@ -161,7 +161,7 @@ func (it *Iterator) lookupRequest(id noise.ID, out chan<- []noise.ID) {
 	ctx, cancel := context.WithTimeout(context.Background(), it.lookupTimeout)
 	defer cancel()
 
-	obj, err := it.node.RequestMessage(ctx, id.Address, FindNodeRequest{Target: id.ID})
+	obj, err := request(ctx, it.node, id, FindNodeRequest{Target: id.ID})
 	if err != nil {
 		out <- nil
 		return
diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index 051cb4a..a745165 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -71,6 +71,21 @@ func (p *Protocol) Ping(ctx context.Context, addr string) error {
 	return nil
 }
 
+// request sends req to the address of id and returns the response to it. It returns an error should the peer that is
+// found there not be id, as is the case for a peer which restarted under a different identity.
+func request(ctx context.Context, node *noise.Node, id noise.ID, req noise.Serializable) (noise.Serializable, error) {
+	client, err := node.Ping(ctx, id.Address)
+	if err != nil {
+		return nil, err
+	}
+
+	if peer := client.ID(); peer.ID != id.ID {
+		return nil, fmt.Errorf("expected peer %s at %s, but got %s", id.ID, id.Address, peer.ID)
+	}
+
+	return node.RequestMessage(ctx, id.Address, req)
+}
+
 // Table returns this Kademlia overlay's routing table from your nodes perspective.
 func (p *Protocol) Table() *Table {
 	return p.table
@@ -112,7 +127,7 @@ func (p *Protocol) Ack(id noise.ID) {
 		last := p.table.Last(id.ID)
 
 		ctx, cancel := context.WithTimeout(context.Background(), p.pingTimeout)
-		pong, err := p.node.RequestMessage(ctx, last.Address, Ping{})
+		pong, err := request(ctx, p.node, last, Ping{})
 		cancel()
 
 		if err != nil {
-- 
2.43.0


From 425b564af3e318fbc30c95c3b5dc872192aa1914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:45 +0000
Subject: [PATCH 29/31] fix: let ID and Addr be read while Listen sets them

---
 client.go |  2 +-
 node.go   | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index c01e915..c30a7d4 100644
--- a/client.go
+++ b/client.go
@@ -554,7 +554,7 @@ func (c *Client) handshake() bool {
 
 	// Send to our peer our overlay ID.
 
-	buf := c.node.id.Marshal()
+	buf := c.node.ID().Marshal()
 	signature = c.node.Sign(append(buf, shared...))
 	buf = append(buf, signature[:]...)
 
diff --git a/node.go b/node.go
index 35bc3b2..0fa58ac 100644
--- a/node.go
+++ b/node.go
@@ -28,6 +28,8 @@ type Node struct {
 	port uint16
 	addr string
 
+	identity sync.RWMutex // Guards addr and id while Listen sets them.
+
 	publicKey  PublicKey
 	privateKey PrivateKey
 
@@ -147,8 +149,10 @@ func (n *Node) Listen() error {
 	n.port = uint16(addr.Port)
 
 	if n.addr == "" {
+		n.identity.Lock()
 		n.addr = net.JoinHostPort(normalizeIP(n.host), strconv.FormatUint(uint64(n.port), 10))
 		n.id = NewID(n.publicKey, n.host, n.port)
+		n.identity.Unlock()
 	} else {
 		resolved, err := ResolveAddress(n.addr)
 		if err != nil {
@@ -174,7 +178,9 @@ func (n *Node) Listen() error {
 			return err
 		}
 
+		n.identity.Lock()
 		n.id = NewID(n.publicKey, host, uint16(port))
+		n.identity.Unlock()
 	}
 
 	for i := 0; ; i++ {
@@ -568,6 +574,9 @@ func (n *Node) Outbound() []*Client {
 //
 // Addr may be called concurrently.
 func (n *Node) Addr() string {
+	n.identity.RLock()
+	defer n.identity.RUnlock()
+
 	return n.addr
 }
 
@@ -584,5 +593,8 @@ func (n *Node) Logger() *zap.Logger {
 //
 // ID may be called concurrently.
 func (n *Node) ID() ID {
+	n.identity.RLock()
+	defer n.identity.RUnlock()
+
 	return n.id
 }
-- 
2.43.0


From 09232eac1761aabb2586de765eb5fdb949c74779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:14 +0000
Subject: [PATCH 30/31] fix: types that use the codec of their node while being
 encoded or decoded no longer deadlock

The lock of the codec was held while calling Marshal and decoders. Should these encode or decode nested messages
through the same node, a concurrent RegisterMessage blocked both of them forever.
---
 codec.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/codec.go b/codec.go
index 11da0fb..721f2df 100644
--- a/codec.go
+++ b/codec.go
@@ -56,17 +56,18 @@ func (c *codec) register(ser Serializable, de interface{}) uint16 {
 }
 
 func (c *codec) encode(msg Serializable) ([]byte, error) {
-	c.RLock()
-	defer c.RUnlock()
-
 	t := reflect.TypeOf(msg)
 
+	c.RLock()
+
 	opcode, registered := c.ser[t]
 	if !registered && t.Kind() == reflect.Ptr {
 		t = t.Elem()
 		opcode, registered = c.ser[t]
 	}
 
+	c.RUnlock()
+
 	if !registered {
 		return nil, fmt.Errorf("opcode not registered for message type %+v", t)
 	}
@@ -86,9 +87,9 @@ func (c *codec) decode(data []byte) (Serializable, error) {
 	data = data[2:]
 
 	c.RLock()
-	defer c.RUnlock()
-
 	decoder, registered := c.de[opcode]
+	c.RUnlock()
+
 	if !registered {
 		return nil, fmt.Errorf("opcode %d is not registered", opcode)
 	}
-- 
2.43.0


From e86dd5f4decf50a5891541e1a876af3d6ba2620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:17 +0000
Subject: [PATCH 31/31] fix: a routing table bucket that is emptied while a
 peer is being acknowledged no longer crashes the node

---
 kademlia/protocol.go | 3 +++
 kademlia/table.go    | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/kademlia/protocol.go b/kademlia/protocol.go
index a745165..25ada60 100644
--- a/kademlia/protocol.go
+++ b/kademlia/protocol.go
@@ -125,6 +125,9 @@ func (p *Protocol) Ack(id noise.ID) {
 		}
 
 		last := p.table.Last(id.ID)
+		if last.ID == noise.ZeroPublicKey { // The bucket was emptied in the meantime.
+			continue
+		}
 
 		ctx, cancel := context.WithTimeout(context.Background(), p.pingTimeout)
 		pong, err := request(ctx, p.node, last, Ping{})
diff --git a/kademlia/table.go b/kademlia/table.go
index 0ccdaf4..c805e36 100644
--- a/kademlia/table.go
+++ b/kademlia/table.go
@@ -37,12 +37,17 @@ func (t *Table) Self() noise.ID {
 	return t.self
 }
 
-// Last returns the last id of the bucket where target resides within.
+// Last returns the last id of the bucket where target resides within, or the zero id should the bucket be empty.
 func (t *Table) Last(target noise.PublicKey) noise.ID {
 	t.RLock()
 	defer t.RUnlock()
 
-	return t.entries[t.getBucketIndex(target)].Back().Value.(noise.ID)
+	e := t.entries[t.getBucketIndex(target)].Back()
+	if e == nil {
+		return noise.ID{}
+	}
+
+	return e.Value.(noise.ID)
 }
 
 // Bucket returns all entries of a bucket where target reside within.
-- 
2.43.0

