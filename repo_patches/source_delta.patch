From 04f27eb102cca6acc0d879f7e47cd789b4b3fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 01/37] fix: start even and odd id counters from an even random
 number

'b[0] |= 0x00' leaves the low bit random, so half of the counters handed out
ids of the other side's parity and both sides could generate the same id.
---
 pkg/id/id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/id/id.go b/pkg/id/id.go
index 5367ba2..715bbef 100644
--- a/pkg/id/id.go
+++ b/pkg/id/id.go
@@ -102,6 +102,6 @@ func randomUint32() uint32 {
 	if err != nil {
 		return 0
 	}
-	b[0] |= 0x00 // a random even number
+	b[0] &^= 0x01 // a random even number
 	return (uint32(b[0]) << 0) | (uint32(b[1]) << 8) | (uint32(b[2]) << 16) | (uint32(b[3]) << 24)
 }
-- 
2.43.0


From 04ecc24f65792502144fe5ae57e5a21a4a8006ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 02/37] fix: packet.Decode panicked on request and response
 packets

The embedded message packets were nil; DecodeFromReader allocates them.
---
 packet/decode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packet/decode.go b/packet/decode.go
index 07cc120..f65d95d 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -116,13 +116,17 @@ func Decode(data []byte) (Packet, uint32, error) {
 		return pkt, n, err
 
 	case TypeRequestPacket:
-		pkt := &RequestPacket{}
+		pkt := &RequestPacket{
+			&MessagePacket{},
+		}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
 
 	case TypeResponsePacket:
-		pkt := &ResponsePacket{}
+		pkt := &ResponsePacket{
+			&MessageAckPacket{},
+		}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
-- 
2.43.0


From 635c7a51ffbb4823b39efbe6acaf47c93bfeda83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 03/37] fix: deliver call cancellations to the handler's
 context

The request cancel packet was dropped by the sending stream, could not be
decoded by the receiver (which closed the connection as unsupported would),
and only requests carrying a deadline had a context to cancel.
---
 application/stream.go | 34 +++++++++++++++++++++++-----------
 packet/decode.go      | 12 ++++++++++++
 packet/packet_data.go |  5 ++++-
 3 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index 9940afa..f5fff28 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -231,6 +231,8 @@ func (sm *stream) handleOut(pkt packet.Packet) iodefine.IORet {
 		return sm.handleOutStreamPacket(realPkt)
 	case *packet.RegisterPacket:
 		return sm.handleOutRegisterPacket(realPkt)
+	case *packet.RequestCancelPacket:
+		return sm.handleOutRequestCancelPacket(realPkt)
 	}
 	// unknown packet
 	return iodefine.IOSuccess
@@ -292,7 +294,7 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			streamID:  sm.dg.DialogueID(),
 		}
 	// setup context
-	ctx, cancel := context.Background(), context.CancelFunc(nil)
+	ctx, cancel := context.WithCancel(context.Background())
 	if !pkt.Data.Deadline.IsZero() || !pkt.Data.Context.Deadline.IsZero() {
 		deadline := pkt.Data.Deadline
 		if deadline.IsZero() || (!deadline.IsZero() &&
@@ -300,11 +302,13 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			pkt.Data.Context.Deadline.Before(deadline)) {
 			deadline = pkt.Data.Context.Deadline
 		}
-		ctx, cancel = context.WithDeadline(ctx, deadline)
-		sm.rpcMtx.Lock()
-		sm.rpcCancels[pkt.ID()] = cancel
-		sm.rpcMtx.Unlock()
+		cancel()
+		ctx, cancel = context.WithDeadline(context.Background(), deadline)
 	}
+	// the caller may cancel at any time, with or without a deadline
+	sm.rpcMtx.Lock()
+	sm.rpcCancels[pkt.ID()] = cancel
+	sm.rpcMtx.Unlock()
 	// hijack exist
 	if sm.hijackRPC != nil {
 		if sm.hijackRPC.pattern == nil {
@@ -332,12 +336,10 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	}
 
 	// release the context
-	if cancel != nil {
-		sm.rpcMtx.Lock()
-		delete(sm.rpcCancels, pkt.ID())
-		cancel()
-		sm.rpcMtx.Unlock()
-	}
+	sm.rpcMtx.Lock()
+	delete(sm.rpcCancels, pkt.ID())
+	cancel()
+	sm.rpcMtx.Unlock()
 
 	// no rpc found, return to call error, note that this error is not set to response error
 	err := fmt.Errorf("no such rpc: %s", method)
@@ -473,6 +475,16 @@ func (sm *stream) handleOutRequestPacket(pkt *packet.RequestPacket) iodefine.IOR
 	return iodefine.IOSuccess
 }
 
+func (sm *stream) handleOutRequestCancelPacket(pkt *packet.RequestCancelPacket) iodefine.IORet {
+	err := sm.dg.Write(pkt)
+	if err != nil {
+		sm.log.Debugf("write request cancel packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+		return iodefine.IOErr
+	}
+	return iodefine.IOSuccess
+}
+
 func (sm *stream) handleOutRegisterPacket(pkt *packet.RegisterPacket) iodefine.IORet {
 	err := sm.dg.Write(pkt)
 	if err != nil {
diff --git a/packet/decode.go b/packet/decode.go
index f65d95d..d917355 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -131,6 +131,12 @@ func Decode(data []byte) (Packet, uint32, error) {
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
 
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
+		pkt.PacketHeader = pktHdr
+		n, err = pkt.Decode(data[14:])
+		return pkt, n, err
+
 	default:
 		return nil, 10, ErrUnsupportedPacket
 	}
@@ -254,6 +260,12 @@ func DecodeFromReader(reader io.Reader) (Packet, error) {
 		err = pkt.DecodeFromReader(reader)
 		return pkt, err
 
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
+		pkt.PacketHeader = pktHdr
+		err = pkt.DecodeFromReader(reader)
+		return pkt, err
+
 	default:
 		return nil, ErrUnsupportedPacket
 	}
diff --git a/packet/packet_data.go b/packet/packet_data.go
index c6dca77..79ef8ae 100644
--- a/packet/packet_data.go
+++ b/packet/packet_data.go
@@ -64,6 +64,9 @@ func (pkt *RequestCancelPacket) Decode(data []byte) (uint32, error) {
 	if len(data) < int(pkt.PacketLen) {
 		return 0, ErrIncompletePacket
 	}
+	if pkt.PacketLen < 10 {
+		return 0, ErrIllegalPacket
+	}
 	// session id
 	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
 	// cancel type
@@ -72,7 +75,7 @@ func (pkt *RequestCancelPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *RequestCancelPacket) DecodeFromReader(reader io.Reader) error {
-	if pkt.PacketLen < 8 {
+	if pkt.PacketLen < 10 {
 		return ErrIllegalPacket
 	}
 	data := make([]byte, pkt.PacketLen)
-- 
2.43.0


From 802fca04589f72fc058bddbb25dbe76582418895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:17 +0000
Subject: [PATCH 04/37] fix: reject packets too short for their fixed fields,
 skip unused bodies

---
 packet/decode.go      | 28 ++++++++++++++++++++++++++++
 packet/packet_conn.go | 13 ++++++++++---
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/packet/decode.go b/packet/decode.go
index d917355..56dd11d 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -13,6 +13,28 @@ var (
 	ErrIllegalPacket     = errors.New("illegal packet")
 )
 
+// minPacketLen returns the length of the fixed fields after the header,
+// a packet with less than that can't be decoded
+func minPacketLen(typ Type) uint32 {
+	switch typ {
+	case TypeConnPacket, TypeSessionPacket, TypeRequestCancelPacket:
+		return 10
+	case TypeConnAckPacket:
+		return 9
+	case TypeDisConnAckPacket:
+		return 1
+	case TypeSessionAckPacket:
+		return 18
+	case TypeDismissPacket, TypeDismissAckPacket,
+		TypeMessagePacket, TypeMessageAckPacket,
+		TypeStreamPacket,
+		TypeRequestPacket, TypeResponsePacket,
+		TypeRegisterPacket, TypeRegisterAckPacket:
+		return 8
+	}
+	return 0
+}
+
 func Decode(data []byte) (Packet, uint32, error) {
 	pktHdr := &PacketHeader{}
 	n, err := pktHdr.Decode(data)
@@ -23,6 +45,9 @@ func Decode(data []byte) (Packet, uint32, error) {
 	if uint32(len(data)-14) < pktHdr.PacketLen {
 		return pktHdr, 14, ErrExpectingData
 	}
+	if pktHdr.PacketLen < minPacketLen(pktHdr.Typ) {
+		return nil, 14, ErrIllegalPacket
+	}
 
 	switch pktHdr.Typ {
 	case TypeConnPacket:
@@ -152,6 +177,9 @@ func DecodeFromReader(reader io.Reader) (Packet, error) {
 		return nil, err
 	}
 	//log.Tracef("DecodeFromReader | incoming underlay %s", pktHdr.Typ.String())
+	if pktHdr.PacketLen < minPacketLen(pktHdr.Typ) {
+		return nil, ErrIllegalPacket
+	}
 
 	switch pktHdr.Typ {
 	case TypeConnPacket:
diff --git a/packet/packet_conn.go b/packet/packet_conn.go
index 994087e..684b4c1 100644
--- a/packet/packet_conn.go
+++ b/packet/packet_conn.go
@@ -239,7 +239,7 @@ func (disConnPkt *DisConnPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (disConnPkt *DisConnPacket) DecodeFromReader(reader io.Reader) error {
-	return nil
+	return discard(reader, disConnPkt.PacketLen)
 }
 
 type DisConnAckPacket struct {
@@ -319,7 +319,7 @@ func (hbPkt *HeartbeatPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (hbPkt *HeartbeatPacket) DecodeFromReader(reader io.Reader) error {
-	return nil
+	return discard(reader, hbPkt.PacketLen)
 }
 
 type HeartbeatAckPacket struct {
@@ -335,5 +335,12 @@ func (hbAckPkt *HeartbeatAckPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (hbAckPkt *HeartbeatAckPacket) DecodeFromReader(reader io.Reader) error {
-	return nil
+	return discard(reader, hbAckPkt.PacketLen)
+}
+
+// discard consumes the unused body of a packet, so the next header is read
+// from where it starts
+func discard(reader io.Reader, length uint32) error {
+	_, err := io.CopyN(io.Discard, reader, int64(length))
+	return err
 }
-- 
2.43.0


From b53b100680124accef02330c8ed85eeaf2c9af42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 05/37] fix: register the handshake's wait before sending it
 and keep shared fields at fini

---
 conn/conn_client.go | 11 ++++++-----
 conn/conn_server.go |  3 ---
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 8bd5560..2b80871 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -199,8 +199,13 @@ func (cc *ClientConn) initFSM() {
 
 func (cc *ClientConn) connect() error {
 	pkt := cc.pf.NewConnPacket(cc.clientID, true, cc.heartbeat, cc.meta)
-	cc.writeInCh <- pkt
+	// wait before write, the ack may come or the conn may be closed at any time
 	sync := cc.shub.New(pkt.PacketID, synchub.WithTimeout(10*time.Second))
+	err := cc.Write(pkt)
+	if err != nil {
+		sync.Cancel(true)
+		return err
+	}
 	event := <-sync.C()
 
 	if event.Error != nil {
@@ -377,7 +382,6 @@ func (cc *ClientConn) Close() {
 		}
 		if cc.hbTick != nil {
 			cc.hbTick.Cancel()
-			cc.hbTick = nil
 		}
 
 		cc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
@@ -397,11 +401,9 @@ func (cc *ClientConn) fini() {
 		cc.clientID, remote, string(cc.meta))
 	if cc.hbTick != nil {
 		cc.hbTick.Cancel()
-		cc.hbTick = nil
 	}
 	// collect shub
 	cc.shub.Close()
-	cc.shub = nil
 	// collect net.Conn
 	cc.netconn.Close()
 	cc.connMtx.Lock()
@@ -426,7 +428,6 @@ func (cc *ClientConn) fini() {
 	if !cc.tmrOutside {
 		cc.tmr.Close()
 	}
-	cc.tmr = nil
 	// collect fsm
 	cc.fsm.EmitEvent(ET_FINI)
 	cc.fsm.Close()
diff --git a/conn/conn_server.go b/conn/conn_server.go
index c1b9474..3a80361 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -426,12 +426,10 @@ func (sc *ServerConn) fini() {
 	// cancel the heartbeat
 	if sc.hbTick != nil {
 		sc.hbTick.Cancel()
-		sc.hbTick = nil
 	}
 
 	// collect shub
 	sc.shub.Close()
-	sc.shub = nil
 	// collect net.Conn
 	sc.netconn.Close()
 	// lock protect conn status and input resource
@@ -458,7 +456,6 @@ func (sc *ServerConn) fini() {
 	if !sc.tmrOutside {
 		sc.tmr.Close()
 	}
-	sc.tmr = nil
 	// collect fsm
 	sc.fsm.EmitEvent(ET_FINI)
 	sc.fsm.Close()
-- 
2.43.0


From c78f012ae58e86dff8fa678f49b71d9d9ac0a85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 06/37] fix: a conn's handlePkt could block itself on acks, or
 forever after a write error

---
 conn/conn_base.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 8f4ff4e..fc5a0f9 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -114,10 +114,18 @@ func (bc *baseConn) writePkt() {
 			bc.log.Tracef("conn write down, clientID: %d, packetID: %d, packetType: %s",
 				bc.clientID, pkt.ID(), pkt.Type().String())
 			record := !packet.ConnLayer(pkt)
+			if err != nil {
+				// nothing can be written any more, but handlePkt must not be
+				// blocked before it's noticed by the read side
+				if record && bc.failedCh != nil {
+					bc.failedCh <- pkt
+				}
+				continue
+			}
 			err = bc.dowritePkt(pkt, record)
 			if err != nil {
 				// write to net Conn error, we should close the layer
-				return
+				bc.netconn.Close()
 			}
 		}
 	}
@@ -169,11 +177,13 @@ func (bc *baseConn) handleInDisConnPacket(pkt *packet.DisConnPacket) iodefine.IO
 			err, bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
 		return iodefine.IOErr
 	}
-	retPkt := bc.pf.NewDisConnAckPacket(pkt.PacketID, nil)
-	bc.writeInCh <- retPkt
-	// send our side close while receiving close packet
-	bc.Close()
-	return iodefine.IOSuccess
+	// we are in the only consumer of writeInCh, which may be full
+	ret := bc.handleOutDisConnAckPacket(bc.pf.NewDisConnAckPacket(pkt.PacketID, nil))
+	if ret == iodefine.IOSuccess {
+		// send our side close while receiving close packet
+		go bc.Close()
+	}
+	return ret
 }
 
 func (bc *baseConn) handleInDisConnAckPacket(pkt *packet.DisConnAckPacket) iodefine.IORet {
-- 
2.43.0


From 3b17ae4cbe4ce9f26232fb70b2db25c0ecf8b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 07/37] fix: a conn's fini could deadlock with blocked writers

---
 conn/conn_client.go | 24 ++++++++++++++++++------
 conn/conn_server.go | 22 +++++++++++++++++-----
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 2b80871..873a106 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -203,7 +203,7 @@ func (cc *ClientConn) connect() error {
 	sync := cc.shub.New(pkt.PacketID, synchub.WithTimeout(10*time.Second))
 	err := cc.Write(pkt)
 	if err != nil {
-		sync.Cancel(true)
+		sync.Cancel(false)
 		return err
 	}
 	event := <-sync.C()
@@ -406,15 +406,27 @@ func (cc *ClientConn) fini() {
 	cc.shub.Close()
 	// collect net.Conn
 	cc.netconn.Close()
+	// senders may be blocked on a full channel with the lock held
+	writeInDone := make(chan struct{})
+	writeInCh, readInCh := cc.writeInCh, cc.readInCh
+	go func() {
+		defer close(writeInDone)
+		for pkt := range writeInCh {
+			if cc.failedCh != nil && !packet.ConnLayer(pkt) {
+				cc.failedCh <- pkt
+			}
+		}
+	}()
+	// and readPkt may be blocked too
+	go func() {
+		for range readInCh {
+		}
+	}()
 	cc.connMtx.Lock()
 	cc.connOK = false
 	close(cc.writeInCh)
 	cc.connMtx.Unlock()
-	for pkt := range cc.writeInCh {
-		if cc.failedCh != nil && !packet.ConnLayer(pkt) {
-			cc.failedCh <- pkt
-		}
-	}
+	<-writeInDone
 	// the outside should care about channel status
 	close(cc.readOutCh)
 
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 3a80361..5945448 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -433,16 +433,28 @@ func (sc *ServerConn) fini() {
 	// collect net.Conn
 	sc.netconn.Close()
 	// lock protect conn status and input resource
+	// senders may be blocked on a full channel with the lock held
+	writeInDone := make(chan struct{})
+	writeInCh, readInCh := sc.writeInCh, sc.readInCh
+	go func() {
+		defer close(writeInDone)
+		for pkt := range writeInCh {
+			if sc.failedCh != nil && !packet.ConnLayer(pkt) {
+				sc.failedCh <- pkt
+			}
+		}
+	}()
+	// and readPkt may be blocked too
+	go func() {
+		for range readInCh {
+		}
+	}()
 	sc.connMtx.Lock()
 	sc.connOK = false
 	close(sc.writeInCh)
 	sc.connMtx.Unlock()
 	// writeInCh must be cared since buffer might still has data
-	for pkt := range sc.writeInCh {
-		if sc.failedCh != nil && !packet.ConnLayer(pkt) {
-			sc.failedCh <- pkt
-		}
-	}
+	<-writeInDone
 	// the outside should care about channel status
 	close(sc.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
-- 
2.43.0


From 91844183d5eac1d86cd6ba31776a8b6cd9b0c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 08/37] fix: closing a conn whose peer is gone never ended

---
 conn/conn_base.go   | 7 +++++++
 conn/conn_client.go | 7 +++++++
 conn/conn_server.go | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index fc5a0f9..b71f1bb 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"net"
 	"sync"
+	"time"
 
 	"github.com/jumboframes/armorigo/log"
 	"github.com/jumboframes/armorigo/synchub"
@@ -74,8 +75,14 @@ type baseConn struct {
 
 	connOK  bool
 	connMtx sync.RWMutex
+
+	// closes netconn when the peer doesn't finish the close in time
+	closeTimer *time.Timer
 }
 
+// closeTimeout bounds the close handshake
+const closeTimeout = 10 * time.Second
+
 func (bc *baseConn) Read() (packet.Packet, error) {
 	pkt, ok := <-bc.readOutCh
 	if !ok {
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 873a106..753f517 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -387,6 +387,10 @@ func (cc *ClientConn) Close() {
 		cc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
 			cc.clientID, cc.netconn.RemoteAddr(), string(cc.meta))
 
+		// the peer may never ack
+		netconn := cc.netconn
+		cc.closeTimer = time.AfterFunc(closeTimeout, func() { netconn.Close() })
+
 		pkt := cc.pf.NewDisConnPacket()
 		cc.writeInCh <- pkt
 	})
@@ -426,6 +430,9 @@ func (cc *ClientConn) fini() {
 	cc.connOK = false
 	close(cc.writeInCh)
 	cc.connMtx.Unlock()
+	if cc.closeTimer != nil {
+		cc.closeTimer.Stop()
+	}
 	<-writeInDone
 	// the outside should care about channel status
 	close(cc.readOutCh)
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 5945448..ff13678 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -406,6 +406,10 @@ func (sc *ServerConn) Close() {
 		sc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
 			sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
 
+		// the peer may never ack
+		netconn := sc.netconn
+		sc.closeTimer = time.AfterFunc(closeTimeout, func() { netconn.Close() })
+
 		pkt := sc.pf.NewDisConnPacket()
 		sc.writeInCh <- pkt
 	})
@@ -453,6 +457,9 @@ func (sc *ServerConn) fini() {
 	sc.connOK = false
 	close(sc.writeInCh)
 	sc.connMtx.Unlock()
+	if sc.closeTimer != nil {
+		sc.closeTimer.Stop()
+	}
 	// writeInCh must be cared since buffer might still has data
 	<-writeInDone
 	// the outside should care about channel status
-- 
2.43.0


From 2624de10fc28df8157b8eebe263b13312bcd0cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 09/37] fix: a conn lost during its handshake was reported
 online but never offline

---
 conn/conn_server.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/conn/conn_server.go b/conn/conn_server.go
index ff13678..1ba60d1 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -304,8 +304,7 @@ func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 			sc.log.Warnf("get ID err: %s, clientID: %d, packetID: %d, remote: %s, meta: %s",
 				err, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 			retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, err)
-			sc.writeInCh <- retPkt
-			return iodefine.IOSuccess
+			return sc.handleOutConnAckPacket(retPkt)
 		}
 	} else {
 		// TODO server must use this clientID, we should check if the clientID legal
@@ -319,14 +318,17 @@ func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 				err, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 
 			retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, err)
-			sc.writeInCh <- retPkt
-			return iodefine.IOSuccess
+			return sc.handleOutConnAckPacket(retPkt)
 		}
 	}
 	// the first packet received.
 	sc.shub.Ack(sc.getSyncID(), nil)
 	retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, nil)
-	sc.writeInCh <- retPkt
+	// handle it here, or the conn may end before it's onlined
+	ret := sc.handleOutConnAckPacket(retPkt)
+	if ret != iodefine.IOSuccess {
+		return ret
+	}
 
 	// set the heartbeat
 	sc.heartbeat = pkt.Heartbeat
-- 
2.43.0


From e038346455224028b676b1098446e03fadea28dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 10/37] fix: the opener of a stream lost its meta and ignored
 the peer's refusal

---
 multiplexer/dialogue.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 440ce0e..7f92f5a 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -1,6 +1,7 @@
 package multiplexer
 
 import (
+	"errors"
 	"io"
 	"sync"
 	"time"
@@ -479,8 +480,12 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 		dg.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
+	if pkt.SessionData.Error != "" {
+		// the peer refused
+		dg.shub.Error(pkt.ID(), errors.New(pkt.SessionData.Error))
+		return iodefine.IOErr
+	}
 	dg.dialogueID = pkt.SessionID()
-	dg.meta = pkt.SessionData.Meta
 
 	// the packetID is assigned by SessionPacket, originally from function open,
 	// and open is waiting for the completion.
-- 
2.43.0


From 5cd345cfbf07dbd42544d57f555dcf597b6bb2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 11/37] fix: packets for an ended dialogue could panic or block
 the whole conn

---
 multiplexer/dialogue.go     | 41 ++++++++++++++++++++++++++++---------
 multiplexer/dialogue_mgr.go | 10 ++++-----
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 7f92f5a..c2f6c03 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -76,6 +76,10 @@ type dialogue struct {
 
 	closeOnce   *gsync.Once
 	closeIOOnce *gsync.Once
+
+	// readInCh has several senders, so it's never closed
+	closeCh chan struct{} // closed by closeIO, to end handlePkt
+	finiCh  chan struct{} // closed when handlePkt is done
 }
 
 type DialogueOption func(*dialogue)
@@ -145,6 +149,8 @@ func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogu
 		fsm:          yafsm.NewFSM(yafsm.WithInSeq()),
 		closeOnce:    new(gsync.Once),
 		closeIOOnce:  new(gsync.Once),
+		closeCh:      make(chan struct{}),
+		finiCh:       make(chan struct{}),
 		dialogueOK:   true,
 		readInSize:   32,
 		writeOutSize: 32,
@@ -316,11 +322,7 @@ func (dg *dialogue) open() error {
 	if event.Error != nil {
 		dg.log.Debugf("dialogue open err: %s, clientID: %d, dialogueID: %d",
 			event.Error, dg.cn.ClientID(), dg.dialogueID)
-		dg.mtx.Lock()
-		if dg.dialogueOK {
-			close(dg.readInCh)
-		}
-		dg.mtx.Unlock()
+		dg.closeIO()
 	}
 	return event.Error
 }
@@ -369,10 +371,7 @@ func (dg *dialogue) handlePkt() {
 
 	for {
 		select {
-		case pkt, ok := <-readInCh:
-			if !ok {
-				goto FINI
-			}
+		case pkt := <-readInCh:
 			dg.log.Tracef("dialogue read in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
 			ret := dg.handleIn(pkt)
@@ -384,6 +383,19 @@ func (dg *dialogue) handlePkt() {
 			case iodefine.IOErr:
 				goto FINI
 			}
+		case <-dg.closeCh:
+			// what's delivered before the close
+			for {
+				select {
+				case pkt := <-readInCh:
+					ret := dg.handleIn(pkt)
+					if ret == iodefine.IOClosed || ret == iodefine.IOErr {
+						goto FINI
+					}
+				default:
+					goto FINI
+				}
+			}
 		case pkt, ok := <-writeInCh:
 			if !ok {
 				// BUG! shoud never be here.
@@ -406,6 +418,7 @@ FINI:
 	dg.log.Debugf("dialogue handle pkt done, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
 
+	close(dg.finiCh)
 	// only onlined Dialogue need to be notified
 	if dg.dlgt != nil && dg.onlined {
 		dg.dlgt.DialogueOffline(dg)
@@ -707,10 +720,18 @@ func (dg *dialogue) CloseWait() {
 
 func (dg *dialogue) closeIO() {
 	dg.closeIOOnce.Do(func() {
-		close(dg.readInCh)
+		close(dg.closeCh)
 	})
 }
 
+// deliver hands a packet from the under layer to the dialogue
+func (dg *dialogue) deliver(pkt packet.Packet) {
+	select {
+	case dg.readInCh <- pkt:
+	case <-dg.finiCh:
+	}
+}
+
 func (dg *dialogue) closeWrapper(_ *yafsm.Event) {
 	dg.log.Infof("dialogue triggered close wrapper, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 677ae3c..4c76c2c 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -295,7 +295,7 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		// delete(dm.dialogues, dg.dialogueID)
 		// !mgrOK only happens after dialogueMgr fini, so fini the dialogue
 		dm.mtx.Unlock()
-		dg.fini()
+		dg.closeIO()
 		return nil, ErrOperationOnClosedMultiplexer
 	}
 	// the logic on negotiatingDialogues is tricky, be care of it.
@@ -387,8 +387,8 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		}
 		dm.mtx.Lock()
 		dm.negotiatingDialogues[negotiatingID] = dg
-		dg.readInCh <- pkt
 		dm.mtx.Unlock()
+		dg.deliver(pkt)
 
 	case *packet.SessionAckPacket:
 		dm.mtx.RLock()
@@ -400,9 +400,9 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 			dm.mtx.RUnlock()
 			return
 		}
-		// TODO do we need handle the packet in time? before data or dismiss coming.
-		dg.readInCh <- pkt
 		dm.mtx.RUnlock()
+		// TODO do we need handle the packet in time? before data or dismiss coming.
+		dg.deliver(pkt)
 
 	default:
 		dgPkt, ok := pkt.(packet.SessionAbove)
@@ -426,8 +426,8 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		}
 		dm.log.Tracef("read to dialogue, clientID: %d, dialogueID: %d, packetID: %d, packetType %s",
 			dm.cn.ClientID(), dialogueID, pkt.ID(), pkt.Type().String())
-		dg.readInCh <- pkt
 		dm.mtx.RUnlock()
+		dg.deliver(pkt)
 	}
 }
 
-- 
2.43.0


From 2c58ce74606294b81f389384584b02448ea1b202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 12/37] fix: a dialogue could block itself on acks, after a
 write error or at fini

---
 multiplexer/dialogue.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index c2f6c03..48c5cfe 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -346,7 +346,7 @@ func (dg *dialogue) writePkt() {
 			if err != nil {
 				dg.log.Errorf("dialogue write down err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					err, dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
-				return
+				// go on, or handlePkt may be blocked before the end of conn is noticed
 			}
 		}
 	}
@@ -520,12 +520,14 @@ func (dg *dialogue) handleInDismissPacket(pkt *packet.DismissPacket) iodefine.IO
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 		return iodefine.IOErr
 	}
-	retPkt := dg.pf.NewDismissAckPacket(pkt.ID(),
-		pkt.SessionID(), nil)
-	dg.writeInCh <- retPkt
-	// send out side dismiss while receiving dismiss packet
-	dg.Close()
-	return iodefine.IOSuccess
+	// we are in the only consumer of writeInCh, which may be full
+	ret := dg.handleOutDismissAckPacket(dg.pf.NewDismissAckPacket(pkt.ID(),
+		pkt.SessionID(), nil))
+	if ret == iodefine.IOSuccess {
+		// send out side dismiss while receiving dismiss packet
+		go dg.Close()
+	}
+	return ret
 }
 
 func (dg *dialogue) handleInDimssAckPacket(pkt *packet.DismissAckPacket) iodefine.IORet {
@@ -743,6 +745,17 @@ func (dg *dialogue) fini() {
 	dg.log.Debugf("dialogue finishing, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
 
+	// senders may be blocked on a full channel with the lock held
+	writeInDone := make(chan struct{})
+	writeInCh := dg.writeInCh
+	go func() {
+		defer close(writeInDone)
+		for pkt := range writeInCh {
+			if dg.failedCh != nil && !packet.SessionLayer(pkt) {
+				dg.failedCh <- pkt
+			}
+		}
+	}()
 	dg.mtx.Lock()
 	// TODO should we move dialogueOK=false to Close and CloseWait?
 	dg.dialogueOK = false
@@ -751,13 +764,8 @@ func (dg *dialogue) fini() {
 
 	// collect shub
 	dg.shub.Close()
-	dg.shub = nil
 
-	for pkt := range dg.writeInCh {
-		if dg.failedCh != nil && !packet.SessionLayer(pkt) {
-			dg.failedCh <- pkt
-		}
-	}
+	<-writeInDone
 	// the outside should care about channel status
 	close(dg.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
-- 
2.43.0


From 7b521b04a72b5b4b61ba2274c43731f13095e3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 13/37] fix: streams lost early data, their offline events or
 the whole connection around open, accept and connection end

---
 multiplexer/dialogue.go     |  10 +--
 multiplexer/dialogue_mgr.go | 127 +++++++++++++++++++++---------------
 multiplexer/multiplexer.go  |   1 +
 3 files changed, 79 insertions(+), 59 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 48c5cfe..07db89e 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -587,16 +587,10 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 		err = dg.dlgt.DialogueOnline(dg)
 		if err != nil {
 			pkt.SetError(err)
-			err = dg.fsm.EmitEvent(ET_ERROR)
-			if err != nil {
-				dg.log.Errorf("emit ET_ERROR err: %s, clientID: %d, dialogueID: %d, packetID: %d",
-					err, dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
-				return iodefine.IOErr
-			}
 			dg.writeOutCh <- pkt
-			// to tell peer the dialogue handshake is error, and peer should dismiss the dialogue.
+			// to tell peer the dialogue handshake is error, and end the dialogue.
 			// this situation shouldn't be seen as connected, so don't set onlined.
-			return iodefine.IOSuccess
+			return iodefine.IOErr
 		}
 	}
 	err = dg.fsm.EmitEvent(ET_SESSIONACK)
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 4c76c2c..4239812 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -51,7 +51,10 @@ type dialogueMgr struct {
 	cn conn.Conn
 
 	// close channel
-	closeCh chan struct{}
+	closeCh   chan struct{}
+	closeOnce sync.Once
+	// closed when the mgr is finished
+	finiCh chan struct{}
 
 	// dialogues
 	dialogueIDs     id.IDFactory // set nil in client
@@ -142,6 +145,7 @@ func NewDialogueMgr(cn conn.Conn, mpopts ...MultiplexerOption) (Multiplexer, err
 		dialogues:            make(map[uint64]*dialogue),
 		negotiatingDialogues: make(map[uint64]*dialogue),
 		closeCh:              make(chan struct{}),
+		finiCh:               make(chan struct{}),
 	}
 	// dialogue id counter
 	if dm.cn.Side() == geminio.RecipientSide {
@@ -193,17 +197,21 @@ ERR:
 func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 	dm.log.Debugf("dialogue online, clientID: %d, add dialogueID: %d", dg.ClientID(), dg.DialogueID())
 	dm.mtx.Lock()
-	defer dm.mtx.Unlock()
-
+	// remove from the negotiating dialogues, and add to ready dialogues.
+	delete(dm.negotiatingDialogues, dg.NegotiatingID())
 	if !dm.mgrOK {
+		dm.mtx.Unlock()
 		return ErrOperationOnClosedMultiplexer
 	}
-	// remove from the negotiating dialogues, and add to ready dialogues.
-	_, ok := dm.negotiatingDialogues[dg.NegotiatingID()]
-	if ok {
-		delete(dm.negotiatingDialogues, dg.NegotiatingID())
+	_, exist := dm.dialogues[dg.DialogueID()]
+	if exist {
+		dm.mtx.Unlock()
+		return ErrDialogueExists
 	}
 	dm.dialogues[dg.DialogueID()] = dg.(*dialogue)
+	// the lock mustn't be held while calling outside
+	dm.mtx.Unlock()
+
 	if dm.dlgt != nil {
 		dm.dlgt.DialogueOnline(dg)
 	}
@@ -212,8 +220,10 @@ func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 		dm.dialogueAcceptFn(dg.(Dialogue))
 
 	} else if dm.dialogueAcceptCh != nil {
-		// this must not be blocked, or else the whole system will stop
-		dm.dialogueAcceptCh <- dg.(*dialogue)
+		select {
+		case dm.dialogueAcceptCh <- dg.(*dialogue):
+		case <-dm.finiCh:
+		}
 	}
 	return nil
 }
@@ -224,11 +234,12 @@ func (dm *dialogueMgr) DialogueOffline(dg delegate.DialogueDescriber) error {
 
 	dm.log.Debugf("dialogue offline, clientID: %d, del dialogueID: %d", clientID, dialogueID)
 	dm.mtx.Lock()
-	defer dm.mtx.Unlock()
-
 	_, ok := dm.dialogues[dialogueID]
+	delete(dm.dialogues, dialogueID)
+	// the lock mustn't be held while calling outside
+	dm.mtx.Unlock()
+
 	if ok {
-		delete(dm.dialogues, dialogueID)
 		if dm.dlgt != nil {
 			dm.dlgt.DialogueOffline(dg)
 		}
@@ -240,9 +251,10 @@ func (dm *dialogueMgr) DialogueOffline(dg delegate.DialogueDescriber) error {
 		dm.dialogueClosedFn(dg.(*dialogue))
 
 	} else if dm.dialogueClosedCh != nil {
-		// this must not be blocked, or else the whole system will stop
-		dm.dialogueClosedCh <- dg.(*dialogue)
-
+		select {
+		case dm.dialogueClosedCh <- dg.(*dialogue):
+		case <-dm.finiCh:
+		}
 	}
 	// unsucceed dialogue
 	return ErrDialogueNotFound
@@ -278,6 +290,11 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		return nil, err
 	}
 	dm.mtx.Lock()
+	if !dm.mgrOK {
+		dm.mtx.Unlock()
+		dg.closeIO()
+		return nil, ErrOperationOnClosedMultiplexer
+	}
 	dm.negotiatingDialogues[negotiatingID] = dg
 	dm.mtx.Unlock()
 	// Open take times, shouldn't be locked
@@ -289,18 +306,7 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		dm.mtx.Unlock()
 		return nil, err
 	}
-	dm.mtx.Lock()
-	delete(dm.negotiatingDialogues, negotiatingID)
-	if !dm.mgrOK {
-		// delete(dm.dialogues, dg.dialogueID)
-		// !mgrOK only happens after dialogueMgr fini, so fini the dialogue
-		dm.mtx.Unlock()
-		dg.closeIO()
-		return nil, ErrOperationOnClosedMultiplexer
-	}
-	// the logic on negotiatingDialogues is tricky, be care of it.
-	dm.dialogues[dg.dialogueID] = dg
-	dm.mtx.Unlock()
+	// the dialogue has been moved from negotiatingDialogues to dialogues with the ack
 	return dg, nil
 }
 
@@ -309,11 +315,18 @@ func (dm *dialogueMgr) AcceptDialogue() (Dialogue, error) {
 	if dm.dialogueAcceptCh == nil {
 		return nil, ErrAcceptChNotEnabled
 	}
-	dg, ok := <-dm.dialogueAcceptCh
-	if !ok {
+	select {
+	case dg := <-dm.dialogueAcceptCh:
+		return dg, nil
+	case <-dm.finiCh:
+	}
+	// what's accepted before the end
+	select {
+	case dg := <-dm.dialogueAcceptCh:
+		return dg, nil
+	default:
 		return nil, io.EOF
 	}
-	return dg, nil
 }
 
 // ClosedDialogue blocks until success or end
@@ -321,11 +334,18 @@ func (dm *dialogueMgr) ClosedDialogue() (Dialogue, error) {
 	if dm.dialogueClosedCh == nil {
 		return nil, ErrClosedChNotEnabled
 	}
-	dg, ok := <-dm.dialogueClosedCh
-	if !ok {
+	select {
+	case dg := <-dm.dialogueClosedCh:
+		return dg, nil
+	case <-dm.finiCh:
+	}
+	// what's closed before the end
+	select {
+	case dg := <-dm.dialogueClosedCh:
+		return dg, nil
+	default:
 		return nil, io.EOF
 	}
-	return dg, nil
 }
 
 func (dm *dialogueMgr) ListDialogues() []Dialogue {
@@ -343,7 +363,9 @@ func (dm *dialogueMgr) GetDialogue(clientID, dialogueID uint64) (Dialogue, error
 	if dm.cn.ClientID() != clientID {
 		return nil, errors.New("unfound clientID")
 	}
+	dm.mtx.RLock()
 	dialogue, ok := dm.dialogues[dialogueID]
+	dm.mtx.RUnlock()
 	if !ok {
 		return nil, errors.New("unfound dialgoueID")
 	}
@@ -366,6 +388,9 @@ func (dm *dialogueMgr) readPkt() {
 FINI:
 	// if the dialogue manager got an error, all dialogue must be finished in time
 	dm.fini()
+	// the conn mustn't be blocked by packets nobody reads
+	for range dm.cn.ChannelRead() {
+	}
 }
 
 func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
@@ -391,17 +416,26 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		dg.deliver(pkt)
 
 	case *packet.SessionAckPacket:
-		dm.mtx.RLock()
+		dm.mtx.Lock()
 		dg, ok := dm.negotiatingDialogues[realPkt.NegotiateID()]
 		if !ok {
 			// TODO we must warn the dialogue initiator
 			dm.log.Errorf("clientID: %d, unable to find negotiatingID: %d",
 				dm.cn.ClientID(), realPkt.NegotiateID())
-			dm.mtx.RUnlock()
+			dm.mtx.Unlock()
 			return
 		}
-		dm.mtx.RUnlock()
-		// TODO do we need handle the packet in time? before data or dismiss coming.
+		delete(dm.negotiatingDialogues, realPkt.NegotiateID())
+		if realPkt.SessionData.Error == "" {
+			_, exist := dm.dialogues[realPkt.SessionID()]
+			if exist {
+				realPkt.SetError(ErrDialogueExists)
+			} else {
+				// data or dismiss may come right after the ack
+				dm.dialogues[realPkt.SessionID()] = dg
+			}
+		}
+		dm.mtx.Unlock()
 		dg.deliver(pkt)
 
 	default:
@@ -458,7 +492,7 @@ func (dm *dialogueMgr) Close() {
 	dm.mtx.RUnlock()
 
 	wg.Wait()
-	close(dm.closeCh)
+	dm.closeOnce.Do(func() { close(dm.closeCh) })
 	dm.log.Debugf("dialogue manager closed, clientID: %d", dm.cn.ClientID())
 	return
 }
@@ -472,10 +506,9 @@ func (dm *dialogueMgr) fini() {
 	// collect conn status
 	dm.mgrOK = false
 	// collect all dialogues
-	for id, dg := range dm.dialogues {
-		// cause the dialogue io err
+	for _, dg := range dm.dialogues {
+		// cause the dialogue io err, and DialogueOffline removes it
 		dg.closeIO()
-		delete(dm.dialogues, id)
 	}
 	for id, dg := range dm.negotiatingDialogues {
 		// cause the dialogue io err
@@ -485,20 +518,12 @@ func (dm *dialogueMgr) fini() {
 
 	// collect id
 	dm.dialogueIDs.Close()
-	dm.dialogueIDs = nil
-	// collect channels
-	if !dm.dialogueAcceptChOutside && dm.dialogueAcceptCh != nil {
-		close(dm.dialogueAcceptCh)
-	}
-	if !dm.dialogueClosedChOutside && dm.dialogueClosedCh != nil {
-		close(dm.dialogueClosedCh)
-	}
-	// dm.dialogueAcceptCh, dm.dialogueClosedCh = nil, nil
+	// the channels have senders outside, so they are not closed
+	close(dm.finiCh)
 	// collect timer
 	if dm.tmrOwner == dm {
 		dm.tmr.Close()
 	}
-	dm.tmr = nil
 
 	dm.log.Debugf("dialogue manager finished, clientID: %d", dm.cn.ClientID())
 }
diff --git a/multiplexer/multiplexer.go b/multiplexer/multiplexer.go
index 4506ebe..08d77c4 100644
--- a/multiplexer/multiplexer.go
+++ b/multiplexer/multiplexer.go
@@ -11,6 +11,7 @@ var (
 	ErrOperationOnClosedMultiplexer = errors.New("operation on closed multiplexer")
 	ErrConnNotFound                 = errors.New("conn not found")
 	ErrDialogueNotFound             = errors.New("dialogue not found")
+	ErrDialogueExists               = errors.New("dialogue exists")
 	ErrAcceptChNotEnabled           = errors.New("accept channel not enabled")
 	ErrClosedChNotEnabled           = errors.New("closed channel not enabled")
 )
-- 
2.43.0


From 85d4482835738bf64f8db18b64b6726f2e215c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 14/37] fix: closing a stream took the timer away from every
 other stream of its End

---
 application/end.go    | 1 -
 application/stream.go | 3 ---
 2 files changed, 4 deletions(-)

diff --git a/application/end.go b/application/end.go
index e33df6a..fc2e94f 100644
--- a/application/end.go
+++ b/application/end.go
@@ -247,7 +247,6 @@ func (end *End) fini() {
 	if end.tmrOwner == end {
 		end.tmr.Close()
 	}
-	end.tmr = nil
 	end.log.Debugf("end finished, clientID: %d", end.cn.ClientID())
 }
 
diff --git a/application/stream.go b/application/stream.go
index f5fff28..55a8cca 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -577,9 +577,7 @@ func (sm *stream) fini() {
 	for pkt := range sm.writeInCh {
 		sm.shub.Error(pkt.ID(), io.ErrClosedPipe)
 	}
-	sm.writeInCh = nil
 	sm.shub.Close()
-	sm.shub = nil
 
 	// the outside should care about message and stream channel status
 	close(sm.messageCh)
@@ -589,7 +587,6 @@ func (sm *stream) fini() {
 	if sm.tmrOwner == sm {
 		sm.tmr.Close()
 	}
-	sm.tmr = nil
 
 	if sm.dg.DialogueID() == 1 {
 		// the master stream
-- 
2.43.0


From 07bf424530e6125ec841d0da7d8cd061adc9a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 15/37] fix: a stream's fini could deadlock with blocked
 writers

---
 application/stream.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index 55a8cca..d2b6f1a 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -150,8 +150,7 @@ func (sm *stream) handlePkt() {
 		select {
 		case pkt, ok := <-writeInCh:
 			if !ok {
-				// BUG! shoud never be here.
-				goto FINI
+				return
 			}
 			sm.log.Tracef("stream write in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
@@ -162,12 +161,12 @@ func (sm *stream) handlePkt() {
 			case iodefine.IODiscard:
 				sm.shub.Error(pkt.ID(), io.ErrShortBuffer)
 			case iodefine.IOErr:
-				goto FINI
+				// the dialogue is finished, readPkt will notice it and fini, keep
+				// on until then since senders may be blocked with the lock held
+				sm.shub.Error(pkt.ID(), io.ErrClosedPipe)
 			}
 		}
 	}
-FINI:
-	sm.finiOnce.Do(sm.fini)
 }
 
 func (sm *stream) readPkt() {
-- 
2.43.0


From c032799a6103bc860a7f8f116ba1b6c8fc51dd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 16/37] fix: Close of a stream overtook data written before it

---
 application/stream.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index d2b6f1a..af2726e 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -232,6 +232,8 @@ func (sm *stream) handleOut(pkt packet.Packet) iodefine.IORet {
 		return sm.handleOutRegisterPacket(realPkt)
 	case *packet.RequestCancelPacket:
 		return sm.handleOutRequestCancelPacket(realPkt)
+	case *packet.DismissPacket:
+		return sm.handleOutDismissPacket(realPkt)
 	}
 	// unknown packet
 	return iodefine.IOSuccess
@@ -484,6 +486,13 @@ func (sm *stream) handleOutRequestCancelPacket(pkt *packet.RequestCancelPacket)
 	return iodefine.IOSuccess
 }
 
+// the mark of close, everything written before it has been handed to the dialogue
+func (sm *stream) handleOutDismissPacket(_ *packet.DismissPacket) iodefine.IORet {
+	// dialogue Close will leads to fini and then close the readInCh
+	sm.dg.Close()
+	return iodefine.IOSuccess
+}
+
 func (sm *stream) handleOutRegisterPacket(pkt *packet.RegisterPacket) iodefine.IORet {
 	err := sm.dg.Write(pkt)
 	if err != nil {
@@ -555,8 +564,8 @@ func (sm *stream) Close() error {
 
 		sm.log.Debugf("stream async close, clientID: %d, dialogueID: %d",
 			sm.cn.ClientID(), sm.dg.DialogueID())
-		// diglogue Close will leads to fini and then close the readInCh
-		sm.dg.Close()
+		// the close mustn't overtake what's written before
+		sm.writeInCh <- sm.pf.NewDismissPacket(sm.dg.DialogueID())
 	})
 	return nil
 }
-- 
2.43.0


From f101533aff84b614e1edba5500dfecf31c93ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 17/37] fix: a stream closed while it's opened stayed in
 ListStreams

---
 application/end.go    | 4 ----
 application/stream.go | 2 ++
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/application/end.go b/application/end.go
index fc2e94f..87500c6 100644
--- a/application/end.go
+++ b/application/end.go
@@ -143,7 +143,6 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 		goto ERR
 	}
 	end.stream = newStream(end, cn, dg, end.opts)
-	end.streams.Store(dg.DialogueID(), end.stream)
 
 	// RPCs
 	// pre register local RPCs
@@ -196,7 +195,6 @@ func (end *End) OpenStream(opts ...*options.OpenStreamOptions) (
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	return sm, nil
 }
 
@@ -210,7 +208,6 @@ func (end *End) AcceptStream() (geminio.Stream, error) {
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	return sm, nil
 }
 
@@ -254,7 +251,6 @@ func (end *End) fini() {
 // TODO optimize
 func (end *End) AcceptDialogue(dg multiplexer.Dialogue) {
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	if sm.acceptStreamFunc != nil {
 		sm.acceptStreamFunc(sm)
 	}
diff --git a/application/stream.go b/application/stream.go
index af2726e..2eb7546 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -109,6 +109,8 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		dlWriteChList:     list.New(),
 		writeInCh:         make(chan packet.Packet, 32),
 	}
+	// store it before it starts, since it may be finished and deleted at any time
+	end.streams.Store(dg.DialogueID(), sm)
 	go sm.handlePkt()
 	go sm.readPkt()
 	return sm
-- 
2.43.0


From 0222996d743580b82f68955bc5112010bc41dfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 18/37] fix: Read lost bytes with concurrent readers and
 buffered bytes at the end

---
 application/raw.go    | 63 +++++++++++++------------------------------
 application/stream.go |  4 +--
 2 files changed, 20 insertions(+), 47 deletions(-)

diff --git a/application/raw.go b/application/raw.go
index 55930e9..e4db7f5 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -16,60 +16,47 @@ const (
 
 // geminio.Raw
 func (sm *stream) Read(b []byte) (int, error) {
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
-		return 0, io.EOF
-	}
-	sm.mtx.RUnlock()
+	// one Read at a time, or the cache would be overwritten or read out of order
+	sm.readMtx.Lock()
+	defer sm.readMtx.Unlock()
 
-	sm.cacheMtx.Lock()
-	if sm.cache != nil && len(sm.cache) != 0 {
+	if len(sm.cache) != 0 {
 		n := copy(b, sm.cache)
 		sm.cache = sm.cache[n:]
-		sm.cacheMtx.Unlock()
 		return n, nil
 	}
-	sm.cacheMtx.Unlock()
 
-	if sm.readDeadlineExceeded() {
+	// the check and the wait must see the same deadline
+	sm.dlMtx.Lock()
+	if deadlineExceeded(sm.dlRead) {
+		sm.dlMtx.Unlock()
 		select {
 		case pkt, ok := <-sm.streamCh:
 			if !ok {
 				return 0, io.EOF
 			}
-			sm.cacheMtx.Lock()
 			n := copy(b, pkt.Data)
 			sm.cache = pkt.Data[n:]
-			sm.cacheMtx.Unlock()
 			return n, nil
 		default:
 			return 0, os.ErrDeadlineExceeded
 		}
 	}
-
 	dlCh := make(chan struct{})
-	sm.dlMtx.Lock()
 	e := sm.dlReadChList.PushBack(dlCh)
 	sm.dlMtx.Unlock()
 
 	select {
 	case pkt, ok := <-sm.streamCh:
+		// if we have't used the deadline channel, then release it
+		sm.dlMtx.Lock()
+		sm.dlReadChList.Remove(e)
+		sm.dlMtx.Unlock()
 		if !ok {
-			sm.dlMtx.Lock()
-			sm.dlReadChList.Remove(e)
-			sm.dlMtx.Unlock()
 			return 0, io.EOF
 		}
-		sm.cacheMtx.Lock()
 		n := copy(b, pkt.Data)
 		sm.cache = pkt.Data[n:]
-		sm.cacheMtx.Unlock()
-
-		// if we have't used the deadline channel, then release it
-		sm.dlMtx.Lock()
-		sm.dlReadChList.Remove(e)
-		sm.dlMtx.Unlock()
 		return n, nil
 	case <-dlCh:
 		return 0, os.ErrDeadlineExceeded
@@ -88,7 +75,10 @@ func (sm *stream) Write(b []byte) (int, error) {
 	copy(newb, b)
 	pkt := sm.pf.NewStreamPacketWithSessionID(sm.dg.DialogueID(), newb)
 
-	if sm.writeDeadlineExceeded() {
+	// the check and the wait must see the same deadline
+	sm.dlMtx.Lock()
+	if deadlineExceeded(sm.dlWrite) {
+		sm.dlMtx.Unlock()
 		select {
 		case sm.writeInCh <- pkt:
 			return len(b), nil
@@ -98,7 +88,6 @@ func (sm *stream) Write(b []byte) (int, error) {
 	}
 
 	dlCh := make(chan struct{})
-	sm.dlMtx.Lock()
 	e := sm.dlWriteChList.PushBack(dlCh)
 	sm.dlMtx.Unlock()
 
@@ -240,22 +229,6 @@ func (sm *stream) setWriteDeadline(t time.Time) error {
 	return nil
 }
 
-func (sm *stream) readDeadlineExceeded() bool {
-	sm.dlMtx.RLock()
-	defer sm.dlMtx.RUnlock()
-
-	if !sm.dlRead.IsZero() && time.Now().After(sm.dlRead) {
-		return true
-	}
-	return false
-}
-
-func (sm *stream) writeDeadlineExceeded() bool {
-	sm.dlMtx.RLock()
-	defer sm.dlMtx.RUnlock()
-
-	if !sm.dlWrite.IsZero() && time.Now().After(sm.dlWrite) {
-		return true
-	}
-	return false
+func deadlineExceeded(deadline time.Time) bool {
+	return !deadline.IsZero() && time.Now().After(deadline)
 }
diff --git a/application/stream.go b/application/stream.go
index 2eb7546..1d44271 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -70,8 +70,8 @@ type stream struct {
 
 	// app layer messages
 	// raw cache
-	cache    []byte
-	cacheMtx sync.Mutex
+	cache   []byte
+	readMtx sync.Mutex
 
 	messageCh chan *packet.MessagePacket
 	streamCh  chan *packet.StreamPacket
-- 
2.43.0


From 22051a6e8b27897bcc49dc2bb16e07de0a5d7111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 19/37] fix: deadlines fired early, panicked the timer or left
 blocked I/O pending

---
 application/raw.go    | 112 ++++++++++++++++++++----------------------
 application/stream.go |   2 +-
 2 files changed, 54 insertions(+), 60 deletions(-)

diff --git a/application/raw.go b/application/raw.go
index e4db7f5..141fd1f 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -1,17 +1,11 @@
 package application
 
 import (
+	"container/list"
 	"io"
 	"net"
 	"os"
 	"time"
-
-	"github.com/jumboframes/armorigo/synchub"
-)
-
-const (
-	deadlineReadSyncKey  = "geminio:read_deadline"
-	deadlineWriteSyncKey = "geminio:write_deadline"
 )
 
 // geminio.Raw
@@ -155,34 +149,30 @@ func (sm *stream) SetReadDeadline(t time.Time) error {
 }
 
 func (sm *stream) setReadDeadline(t time.Time) error {
-	if sm.dlReadSync != nil {
-		sm.dlReadSync.Cancel(false)
-		sm.dlReadSync = nil
-	}
-	duration := t.Sub(time.Now())
-	if duration > 0 {
-		sm.dlReadSync = sm.shub.Add(deadlineReadSyncKey,
-			synchub.WithTimeout(duration),
-			synchub.WithCallback(func(event *synchub.Event) {
-				if event.Error != synchub.ErrSyncTimeout {
-					return
-				}
-				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlReadChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlReadChList.Remove(olde)
-				}
-			}))
+	if sm.dlReadTimer != nil {
+		sm.dlReadTimer.Stop()
+		sm.dlReadTimer = nil
 	}
 	sm.dlRead = t
+	if t.IsZero() {
+		return nil
+	}
+	duration := time.Until(t)
+	if duration <= 0 {
+		// applies to pending I/O too
+		notifyDeadline(sm.dlReadChList)
+		return nil
+	}
+	sm.dlReadTimer = time.AfterFunc(duration, func() {
+		sm.dlMtx.Lock()
+		defer sm.dlMtx.Unlock()
+		if sm.dlRead != t {
+			// moved or cleared
+			return
+		}
+		// deadline exceeds or not yet
+		sm.setReadDeadline(t)
+	})
 	return nil
 }
 
@@ -198,37 +188,41 @@ func (sm *stream) SetWriteDeadline(t time.Time) error {
 }
 
 func (sm *stream) setWriteDeadline(t time.Time) error {
-	if sm.dlWriteSync != nil {
-		sm.dlWriteSync.Cancel(false)
-		sm.dlWriteSync = nil
-	}
-	duration := t.Sub(time.Now())
-	if duration > 0 {
-		sm.dlWriteSync = sm.shub.Add(deadlineWriteSyncKey,
-			synchub.WithTimeout(duration),
-			synchub.WithCallback(func(event *synchub.Event) {
-				if event.Error != synchub.ErrSyncTimeout {
-					return
-				}
-				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlWriteChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlWriteChList.Remove(olde)
-				}
-			}))
+	if sm.dlWriteTimer != nil {
+		sm.dlWriteTimer.Stop()
+		sm.dlWriteTimer = nil
 	}
 	sm.dlWrite = t
+	if t.IsZero() {
+		return nil
+	}
+	duration := time.Until(t)
+	if duration <= 0 {
+		// applies to pending I/O too
+		notifyDeadline(sm.dlWriteChList)
+		return nil
+	}
+	sm.dlWriteTimer = time.AfterFunc(duration, func() {
+		sm.dlMtx.Lock()
+		defer sm.dlMtx.Unlock()
+		if sm.dlWrite != t {
+			// moved or cleared
+			return
+		}
+		// deadline exceeds or not yet
+		sm.setWriteDeadline(t)
+	})
 	return nil
 }
 
 func deadlineExceeded(deadline time.Time) bool {
 	return !deadline.IsZero() && time.Now().After(deadline)
 }
+
+// deadline exceeds and notify all waiting Read/Write
+func notifyDeadline(chs *list.List) {
+	for e := chs.Front(); e != nil; e = chs.Front() {
+		close(e.Value.(chan struct{}))
+		chs.Remove(e)
+	}
+}
diff --git a/application/stream.go b/application/stream.go
index 1d44271..049961f 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -79,7 +79,7 @@ type stream struct {
 
 	// deadline mtx protects SetDeadline, SetReadDeadline, SetWriteDeadline and all Read Write
 	dlMtx                       sync.RWMutex
-	dlReadSync, dlWriteSync     synchub.Sync
+	dlReadTimer, dlWriteTimer   *time.Timer
 	dlReadChList, dlWriteChList *list.List
 	dlRead, dlWrite             time.Time
 
-- 
2.43.0


From 5546cb95f376ca8ecec68ab87cf9fef4cea2b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 20/37] fix: both ends deadlocked when both directions were
 busy

---
 application/stream.go   | 35 ++++++++++++++------------
 conn/conn_base.go       | 27 ++++++++++++++++++--
 conn/conn_client.go     | 14 +++++++----
 conn/conn_server.go     | 16 +++++++-----
 multiplexer/dialogue.go | 56 +++++++++++++++++++++++++++++++++--------
 5 files changed, 108 insertions(+), 40 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index 049961f..7580b65 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -347,12 +347,14 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	// no rpc found, return to call error, note that this error is not set to response error
 	err := fmt.Errorf("no such rpc: %s", method)
 	rspPkt := sm.pf.NewResponsePacket(pkt.ID(), []byte(method), nil, err)
-	err = sm.dg.WriteWait(rspPkt)
-	if err != nil {
-		sm.log.Debugf("write no such rpc response packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s, method: %s",
-			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
-		return iodefine.IOErr
-	}
+	// the read side mustn't wait for the write side
+	go func() {
+		err := sm.dg.WriteWait(rspPkt)
+		if err != nil {
+			sm.log.Debugf("write no such rpc response packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s, method: %s",
+				err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
+		}
+	}()
 	return iodefine.IOSuccess
 }
 
@@ -394,20 +396,21 @@ func (sm *stream) handleInRegisterPacket(pkt *packet.RegisterPacket) iodefine.IO
 	sm.log.Tracef("read register packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s, method: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
 
-	retPkt := sm.pf.NewRegisterAckPacket(pkt.ID(), nil)
-	err := sm.dg.Write(retPkt)
-	if err != nil {
-		sm.log.Debugf("write register ack packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s, method: %s",
-			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
-		return iodefine.IOErr
-	}
-
-	// TODO delegate for remote registration
-
+	// the method must be known before it's acked
 	sm.rpcMtx.Lock()
 	sm.remoteRPCs[method] = struct{}{}
 	sm.rpcMtx.Unlock()
 
+	retPkt := sm.pf.NewRegisterAckPacket(pkt.ID(), nil)
+	// the read side mustn't wait for the write side
+	go func() {
+		err := sm.dg.Write(retPkt)
+		if err != nil {
+			sm.log.Debugf("write register ack packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s, method: %s",
+				err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
+		}
+	}()
+
 	// to notify the method is registing, in case of we're waiting for the method ready
 	syncID := fmt.Sprintf(registrationFormat, sm.cn.ClientID(), sm.dg.DialogueID())
 	sm.shub.DoneSub(syncID, method)
diff --git a/conn/conn_base.go b/conn/conn_base.go
index b71f1bb..3e288a7 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -69,6 +69,9 @@ type baseConn struct {
 	readInSize, writeOutSize int
 	readOutSize, writeInSize int
 	failedCh                 chan packet.Packet
+	// handled packets waiting for room in readOutCh and writeOutCh, only for
+	// handlePkt which mustn't be blocked by one direction while the other can go on
+	readOutPend, writeOutPend []packet.Packet
 
 	// heartbeat
 	hbTick timer.Tick
@@ -106,6 +109,26 @@ func (bc *baseConn) Write(pkt packet.Packet) error {
 	return nil
 }
 
+// readIO and writeIO return what handlePkt should wait for in a direction: the
+// next incoming packet, or else the room for the packet pended
+func (bc *baseConn) readIO() (in, out chan packet.Packet, pkt packet.Packet) {
+	if len(bc.readOutPend) != 0 {
+		return nil, bc.readOutCh, bc.readOutPend[0]
+	}
+	if len(bc.writeOutPend) > bc.writeOutSize {
+		// incoming packets have too many acks pended
+		return nil, nil, nil
+	}
+	return bc.readInCh, nil, nil
+}
+
+func (bc *baseConn) writeIO() (in, out chan packet.Packet, pkt packet.Packet) {
+	if len(bc.writeOutPend) != 0 {
+		return nil, bc.writeOutCh, bc.writeOutPend[0]
+	}
+	return bc.writeInCh, nil, nil
+}
+
 // common read/write/handle
 func (bc *baseConn) writePkt() {
 	writeOutCh := bc.writeOutCh
@@ -217,7 +240,7 @@ func (bc *baseConn) handleOutDisConnPacket(pkt *packet.DisConnPacket) iodefine.I
 			err, bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
 		return iodefine.IOErr
 	}
-	bc.writeOutCh <- pkt
+	bc.writeOutPend = append(bc.writeOutPend, pkt)
 	bc.log.Debugf("send dis conn down succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
 	return iodefine.IOSuccess
@@ -244,7 +267,7 @@ func (bc *baseConn) handleOutDisConnAckPacket(pkt *packet.DisConnAckPacket) iode
 }
 
 func (bc *baseConn) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
-	bc.writeOutCh <- pkt
+	bc.writeOutPend = append(bc.writeOutPend, pkt)
 	bc.log.Tracef("send data succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
 	return iodefine.IOSuccess
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 753f517..192ec72 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -219,10 +219,14 @@ func (cc *ClientConn) connect() error {
 }
 
 func (cc *ClientConn) handlePkt() {
-	readInCh := cc.readInCh
-	writeInCh := cc.writeInCh
 	for {
+		readInCh, readOutCh, readOutPkt := cc.readIO()
+		writeInCh, writeOutCh, writeOutPkt := cc.writeIO()
 		select {
+		case readOutCh <- readOutPkt:
+			cc.readOutPend = cc.readOutPend[1:]
+		case writeOutCh <- writeOutPkt:
+			cc.writeOutPend = cc.writeOutPend[1:]
 		case pkt, ok := <-readInCh:
 			if !ok {
 				goto FINI
@@ -334,7 +338,7 @@ func (cc *ClientConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 			cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta))
 		return iodefine.IODiscard
 	}
-	cc.readOutCh <- pkt
+	cc.readOutPend = append(cc.readOutPend, pkt)
 	return iodefine.IOSuccess
 }
 
@@ -349,14 +353,14 @@ func (cc *ClientConn) handleOutConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 		cc.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
-	cc.writeOutCh <- pkt
+	cc.writeOutPend = append(cc.writeOutPend, pkt)
 	cc.log.Debugf("send conn succeed, clientID: %d, PacketID: %d, packetType: %s",
 		cc.clientID, pkt.ID(), pkt.Type().String())
 	return iodefine.IOSuccess
 }
 
 func (cc *ClientConn) handleOutHeartbeatPacket(pkt *packet.HeartbeatPacket) iodefine.IORet {
-	cc.writeOutCh <- pkt
+	cc.writeOutPend = append(cc.writeOutPend, pkt)
 	cc.log.Debugf("send heartbeat succeed, clientID: %d, PacketID: %d, packetType: %s",
 		cc.clientID, pkt.ID(), pkt.Type().String())
 	return iodefine.IOSuccess
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 1ba60d1..2894abb 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -204,10 +204,14 @@ func (sc *ServerConn) initFSM() {
 }
 
 func (sc *ServerConn) handlePkt() {
-	readInCh := sc.readInCh
-	writeInCh := sc.writeInCh
 	for {
+		readInCh, readOutCh, readOutPkt := sc.readIO()
+		writeInCh, writeOutCh, writeOutPkt := sc.writeIO()
 		select {
+		case readOutCh <- readOutPkt:
+			sc.readOutPend = sc.readOutPend[1:]
+		case writeOutCh <- writeOutPkt:
+			sc.writeOutPend = sc.writeOutPend[1:]
 		case pkt, ok := <-readInCh:
 			if !ok {
 				goto FINI
@@ -348,7 +352,7 @@ func (sc *ServerConn) handleInHeartbeatPacket(pkt *packet.HeartbeatPacket) iodef
 	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second, timer.WithHandler(sc.waitHBTimeout))
 
 	retPkt := sc.pf.NewHeartbeatAckPacket(pkt.PacketID)
-	sc.writeOutCh <- retPkt
+	sc.writeOutPend = append(sc.writeOutPend, retPkt)
 	if sc.dlgt != nil {
 		sc.dlgt.Heartbeat(sc)
 	}
@@ -367,7 +371,7 @@ func (sc *ServerConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		}
 		return iodefine.IODiscard
 	}
-	sc.readOutCh <- pkt
+	sc.readOutPend = append(sc.readOutPend, pkt)
 	return iodefine.IOSuccess
 }
 
@@ -380,7 +384,7 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 				pkt.ConnData.Error, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 			return iodefine.IOErr
 		}
-		sc.writeOutCh <- pkt
+		sc.writeOutPend = append(sc.writeOutPend, pkt)
 		// this situation shouldn't be seen as connected, so don't set onlined.
 		return iodefine.IOSuccess
 	}
@@ -390,7 +394,7 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 			err, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta), sc.fsm.State())
 		return iodefine.IOErr
 	}
-	sc.writeOutCh <- pkt
+	sc.writeOutPend = append(sc.writeOutPend, pkt)
 	sc.log.Debugf("send conn ack succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 	sc.onlined = true
diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 07db89e..5d67479 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -73,6 +73,9 @@ type dialogue struct {
 	readInSize, writeOutSize int
 	readOutSize, writeInSize int
 	failedCh                 chan packet.Packet
+	// handled packets waiting for room in readOutCh and writeOutCh, only for
+	// handlePkt which mustn't be blocked by one direction while the other can go on
+	readOutPend, writeOutPend []packet.Packet
 
 	closeOnce   *gsync.Once
 	closeIOOnce *gsync.Once
@@ -366,11 +369,14 @@ func (dg *dialogue) dowritePkt(pkt packet.Packet, record bool) error {
 }
 
 func (dg *dialogue) handlePkt() {
-	readInCh := dg.readInCh
-	writeInCh := dg.writeInCh
-
 	for {
+		readInCh, readOutCh, readOutPkt := dg.readIO()
+		writeInCh, writeOutCh, writeOutPkt := dg.writeIO()
 		select {
+		case readOutCh <- readOutPkt:
+			dg.readOutPend = dg.readOutPend[1:]
+		case writeOutCh <- writeOutPkt:
+			dg.writeOutPend = dg.writeOutPend[1:]
 		case pkt := <-readInCh:
 			dg.log.Tracef("dialogue read in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
@@ -386,8 +392,9 @@ func (dg *dialogue) handlePkt() {
 		case <-dg.closeCh:
 			// what's delivered before the close
 			for {
+				dg.flushPend()
 				select {
-				case pkt := <-readInCh:
+				case pkt := <-dg.readInCh:
 					ret := dg.handleIn(pkt)
 					if ret == iodefine.IOClosed || ret == iodefine.IOErr {
 						goto FINI
@@ -418,6 +425,7 @@ FINI:
 	dg.log.Debugf("dialogue handle pkt done, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
 
+	dg.flushPend()
 	close(dg.finiCh)
 	// only onlined Dialogue need to be notified
 	if dg.dlgt != nil && dg.onlined {
@@ -427,6 +435,32 @@ FINI:
 	dg.fini()
 }
 
+// readIO and writeIO return what handlePkt should wait for in a direction: the
+// next incoming packet, or else the room for the packet pended
+func (dg *dialogue) readIO() (in, out chan packet.Packet, pkt packet.Packet) {
+	if len(dg.readOutPend) != 0 {
+		return nil, dg.readOutCh, dg.readOutPend[0]
+	}
+	return dg.readInCh, nil, nil
+}
+
+func (dg *dialogue) writeIO() (in, out chan packet.Packet, pkt packet.Packet) {
+	if len(dg.writeOutPend) != 0 {
+		return nil, dg.writeOutCh, dg.writeOutPend[0]
+	}
+	return dg.writeInCh, nil, nil
+}
+
+func (dg *dialogue) flushPend() {
+	for _, pkt := range dg.readOutPend {
+		dg.readOutCh <- pkt
+	}
+	for _, pkt := range dg.writeOutPend {
+		dg.writeOutCh <- pkt
+	}
+	dg.readOutPend, dg.writeOutPend = nil, nil
+}
+
 func (dg *dialogue) handleIn(pkt packet.Packet) iodefine.IORet {
 	switch realPkt := pkt.(type) {
 	case *packet.SessionPacket:
@@ -561,7 +595,7 @@ func (dg *dialogue) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		}
 		return iodefine.IODiscard
 	}
-	dg.readOutCh <- pkt
+	dg.readOutPend = append(dg.readOutPend, pkt)
 	return iodefine.IOSuccess
 }
 
@@ -573,7 +607,7 @@ func (dg *dialogue) handleOutSessionPacket(pkt *packet.SessionPacket) iodefine.I
 			err, dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 		return iodefine.IOErr
 	}
-	dg.writeOutCh <- pkt
+	dg.writeOutPend = append(dg.writeOutPend, pkt)
 	dg.log.Debugf("send dialogue down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 	return iodefine.IOSuccess
@@ -587,7 +621,7 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 		err = dg.dlgt.DialogueOnline(dg)
 		if err != nil {
 			pkt.SetError(err)
-			dg.writeOutCh <- pkt
+			dg.writeOutPend = append(dg.writeOutPend, pkt)
 			// to tell peer the dialogue handshake is error, and end the dialogue.
 			// this situation shouldn't be seen as connected, so don't set onlined.
 			return iodefine.IOErr
@@ -599,7 +633,7 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 		return iodefine.IOErr
 	}
-	dg.writeOutCh <- pkt
+	dg.writeOutPend = append(dg.writeOutPend, pkt)
 	dg.log.Debugf("dialogue write session ack down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 
@@ -614,7 +648,7 @@ func (dg *dialogue) handleOutDismissPacket(pkt *packet.DismissPacket) iodefine.I
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 		return iodefine.IOErr
 	}
-	dg.writeOutCh <- pkt
+	dg.writeOutPend = append(dg.writeOutPend, pkt)
 	dg.log.Debugf("dialogue write dismiss down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	return iodefine.IOSuccess
@@ -631,7 +665,7 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 	// dg.dowritePkt(pkt, false) changes to dg.writeOutCh <- pkt
 	// because this packet should be after all upper layer packets
 	// at last the close(dg.writeOutCh) makes sure the flush
-	dg.writeOutCh <- pkt
+	dg.writeOutPend = append(dg.writeOutPend, pkt)
 	dg.log.Debugf("dialogue write dismiss ack down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	if dg.fsm.State() == DISMISS_HALF {
@@ -645,7 +679,7 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 }
 
 func (dg *dialogue) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
-	dg.writeOutCh <- pkt
+	dg.writeOutPend = append(dg.writeOutPend, pkt)
 	dg.log.Tracef("dialogue write data down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	return iodefine.IOSuccess
-- 
2.43.0


From 829e32432c45c051a36887cdef3fdc5dffc39e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 21/37] fix: an End waiting for remote methods missed
 registrations

---
 application/end.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/application/end.go b/application/end.go
index 87500c6..1b87655 100644
--- a/application/end.go
+++ b/application/end.go
@@ -156,22 +156,20 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 	}
 	// wait for all remote RPCs registration
 	if end.opts.remoteMethods != nil && len(end.opts.remoteMethods) != 0 {
+		// wait before check, a method may be registered in between
+		ifs := strings2interfaces(end.opts.remoteMethods...)
+		syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
+		sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
 		// check whether remote RPCs have been registered
-		tocheckMethods := []string{}
 		for _, method := range end.opts.remoteMethods {
-			if !end.stream.hasRemoteRPC(method) {
-				tocheckMethods = append(tocheckMethods, method)
+			if end.stream.hasRemoteRPC(method) {
+				end.stream.shub.DoneSub(syncID, method)
 			}
 		}
-		if len(tocheckMethods) != 0 {
-			ifs := strings2interfaces(tocheckMethods...)
-			syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
-			sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
-			event := <-sync.C()
-			if event.Error != nil {
-				err = event.Error
-				goto ERR
-			}
+		event := <-sync.C()
+		if event.Error != nil {
+			err = event.Error
+			goto ERR
 		}
 	}
 	return end, nil
-- 
2.43.0


From bd938f92f45921628d220cccfd772bf3693368da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 22/37] fix: a response lost its custom data and method, and a
 forged ack panicked the caller

---
 application/rpc.go    | 5 ++++-
 application/stream.go | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/application/rpc.go b/application/rpc.go
index 6c0f25f..deff8bd 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -144,7 +144,10 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), req.ID())
 			return nil, event.Error
 		}
-		rsp := event.Ack.(*response)
+		rsp, ok := event.Ack.(*response)
+		if !ok {
+			return nil, packet.ErrIllegalPacket
+		}
 		return rsp, nil
 	}
 }
diff --git a/application/stream.go b/application/stream.go
index 7580b65..2de9147 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -380,7 +380,9 @@ func (sm *stream) handleInResponsePacket(pkt *packet.ResponsePacket) iodefine.IO
 	sm.log.Tracef("read response packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 	rsp := &response{
+		method:    string(pkt.Data.Key),
 		data:      pkt.Data.Value,
+		custom:    pkt.Data.Custom,
 		requestID: pkt.ID(),
 		clientID:  sm.cn.ClientID(),
 		streamID:  sm.dg.DialogueID(),
@@ -540,6 +542,7 @@ func (sm *stream) doRPC(pkt *packet.RequestPacket, rpc methodRPC, method string,
 		sm.rpcMtx.Unlock()
 
 		rspPkt := sm.pf.NewResponsePacket(pkt.ID(), []byte(req.method), rsp.data, rsp.err)
+		rspPkt.Data.Custom = rsp.custom
 		err := sm.dg.WriteWait(rspPkt)
 		if err != nil {
 			// Write error, the response cannot be delivered, so should be debuged
-- 
2.43.0


From 97168fb031677c0f3b2e66496e21269ebb26c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 23/37] fix: asynchronous calls lost their response, options
 and cancellation, unregistered calls leaked a lock

---
 application/rpc.go | 55 ++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index deff8bd..29cd9ed 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -84,15 +84,10 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 		return nil, io.EOF
 	}
 
-	if sm.opts.remoteMethodCheck {
-		// check remote RPC exists
-		sm.rpcMtx.RLock()
-		_, ok := sm.remoteRPCs[method]
-		if !ok {
-			sm.rpcMtx.RUnlock()
-			return nil, ErrRemoteRPCUnregistered
-		}
-		sm.rpcMtx.RUnlock()
+	// check remote RPC exists
+	if sm.opts.remoteMethodCheck && !sm.hasRemoteRPC(method) {
+		sm.mtx.RUnlock()
+		return nil, ErrRemoteRPCUnregistered
 	}
 	// transfer to underlayer packet
 	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
@@ -126,16 +121,8 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 			// we don't deliver deadline exceeded since the pkt already has it
 			return nil, ctx.Err()
 		}
-		sm.mtx.RLock()
-		if !sm.streamOK {
-			sm.mtx.RUnlock()
-			return nil, io.EOF
-		}
-		// notify peer if context Canceled
-		cancelType := packet.RequestCancelTypeCanceled
-		cancelPkt := sm.pf.NewRequestCancelPacketWithIDAndSessionID(pkt.ID(), sm.dg.DialogueID(), cancelType)
-		sm.writeInCh <- cancelPkt
-		sm.mtx.RUnlock()
+		// notify peer if context Canceled, the caller needn't wait for it
+		go sm.cancelRequest(pkt.ID())
 		return nil, ctx.Err()
 
 	case event := <-sync.C():
@@ -152,6 +139,17 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 	}
 }
 
+func (sm *stream) cancelRequest(pktID uint64) {
+	sm.mtx.RLock()
+	defer sm.mtx.RUnlock()
+	if !sm.streamOK {
+		return
+	}
+	cancelPkt := sm.pf.NewRequestCancelPacketWithIDAndSessionID(pktID, sm.dg.DialogueID(),
+		packet.RequestCancelTypeCanceled)
+	sm.writeInCh <- cancelPkt
+}
+
 func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Request, ch chan *geminio.Call, opts ...*options.CallOptions) (*geminio.Call, error) {
 	if req.ClientID() != sm.cn.ClientID() {
 		return nil, ErrMismatchClientID
@@ -159,11 +157,20 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	if req.StreamID() != sm.dg.DialogueID() {
 		return nil, ErrMismatchStreamID
 	}
+	opt := options.MergeCallOptions(opts...)
+	if opt.Timeout != nil {
+		req.SetTimeout(*opt.Timeout)
+	}
+
 	sm.mtx.RLock()
 	if !sm.streamOK {
 		sm.mtx.RUnlock()
 		return nil, io.EOF
 	}
+	if sm.opts.remoteMethodCheck && !sm.hasRemoteRPC(method) {
+		sm.mtx.RUnlock()
+		return nil, ErrRemoteRPCUnregistered
+	}
 	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
 	// deadline and timeout for peer
 	if req.Timeout() != 0 {
@@ -189,12 +196,22 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 			if event.Error != nil {
 				sm.log.Debugf("request packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+				if event.Error == context.Canceled {
+					// in a new goroutine since we are in the hub's
+					go sm.cancelRequest(pkt.ID())
+				}
 				call.Error = event.Error
 				ch <- call
 				return
 			}
 			sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+			rsp, ok := event.Ack.(*response)
+			if ok {
+				call.Response = rsp
+			} else {
+				call.Error = packet.ErrIllegalPacket
+			}
 			ch <- call
 			return
 		})}
-- 
2.43.0


From b9937170cfd27161ac8413ce2572fe00b165810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 24/37] fix: calls and publishes ignored their limits while the
 stream was full, and negative ones

---
 application/message.go | 21 +++++++++++++++++----
 application/rpc.go     | 22 ++++++++++++++++++++--
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/application/message.go b/application/message.go
index 51c95c5..319c5ad 100644
--- a/application/message.go
+++ b/application/message.go
@@ -90,11 +90,20 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 		// the sync may has timeout
 		syncOpts = append(syncOpts, synchub.WithTimeout(msg.Timeout()))
 	}
+	if msg.Timeout() < 0 {
+		sm.mtx.RUnlock()
+		return synchub.ErrSyncTimeout
+	}
 	sync = sm.shub.New(msg.ID(), syncOpts...)
-	sm.writeInCh <- pkt
-	sm.mtx.RUnlock()
-
-	event := <-sync.C()
+	// the limits apply to a full channel too
+	var event *synchub.Event
+	select {
+	case sm.writeInCh <- pkt:
+		sm.mtx.RUnlock()
+		event = <-sync.C()
+	case event = <-sync.C():
+		sm.mtx.RUnlock()
+	}
 	if event.Error != nil {
 		sm.log.Debugf("message return err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 			event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
@@ -171,6 +180,10 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 		// the sync may has timeout
 		syncOpts = append(syncOpts, synchub.WithTimeout(msg.Timeout()))
 	}
+	if msg.Timeout() < 0 {
+		sm.mtx.RUnlock()
+		return nil, synchub.ErrSyncTimeout
+	}
 	// Add a new sync for the async publish
 	sm.shub.New(pkt.ID(), syncOpts...)
 	sm.writeInCh <- pkt
diff --git a/application/rpc.go b/application/rpc.go
index 29cd9ed..5e00311 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -108,9 +108,23 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 		// the sync may has timeout
 		syncOpts = append(syncOpts, synchub.WithTimeout(req.Timeout()))
 	}
+	if req.Timeout() < 0 {
+		sm.mtx.RUnlock()
+		return nil, synchub.ErrSyncTimeout
+	}
 	sync = sm.shub.New(req.ID(), syncOpts...)
-	sm.writeInCh <- pkt
-	sm.mtx.RUnlock()
+	// the limits apply to a full channel too
+	select {
+	case sm.writeInCh <- pkt:
+		sm.mtx.RUnlock()
+	case <-ctx.Done():
+		sm.mtx.RUnlock()
+		sync.Cancel(false)
+		return nil, ctx.Err()
+	case event := <-sync.C():
+		sm.mtx.RUnlock()
+		return nil, event.Error
+	}
 
 	// we don't set ctx to sync, because select perform better
 	select {
@@ -218,6 +232,10 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	if req.Timeout() != 0 {
 		syncOpts = append(syncOpts, synchub.WithTimeout(req.Timeout()))
 	}
+	if req.Timeout() < 0 {
+		sm.mtx.RUnlock()
+		return nil, synchub.ErrSyncTimeout
+	}
 	// Add a new sync for the async call
 	sm.shub.New(pkt.ID(), syncOpts...)
 	sm.writeInCh <- pkt
-- 
2.43.0


From dafd9511f6c1eb5ee262457d3510192b5e40aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 25/37] fix: a retrying End deadlocked re-registering, missed
 losses and outlived its Close

---
 client/end_retry.go | 69 +++++++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 87364a1..66358c6 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -57,12 +57,14 @@ func NewRetryEndWithDialer(dialer Dialer, opts ...*EndOptions) (geminio.End, err
 
 	// replace outside delegate to ours
 	re.opts.delegate = re.opts.Delegate
-	re.opts.Delegate = re
+	// a conn lost before it's stored must wait to be recovered
+	re.retry.Lock()
+	defer re.retry.Unlock()
 	end, err := re.getEnd()
 	if err != nil {
 		goto ERR
 	}
-	re.end = unsafe.Pointer(end)
+	atomic.StorePointer(&re.end, unsafe.Pointer(end))
 	return re, nil
 ERR:
 	atomic.StoreInt32(re.ok, 0)
@@ -72,8 +74,19 @@ ERR:
 	return nil, err
 }
 
+// retryConn is the delegate for one of the ends, it tells which end is lost
+type retryConn struct {
+	*RetryEnd
+}
+
+func (rc *retryConn) ConnOffline(conn delegate.ConnDescriber) error {
+	return rc.RetryEnd.connOffline(rc, conn)
+}
+
 func (re *RetryEnd) getEnd() (*clientEnd, error) {
-	end, err := NewEndWithDialer(re.dialer, re.opts)
+	opts := *re.opts
+	opts.Delegate = &retryConn{re}
+	end, err := NewEndWithDialer(re.dialer, &opts)
 	if err != nil {
 		return nil, err
 	}
@@ -93,6 +106,11 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 		// already reinited
 		return nil
 	}
+	return re.renew(old)
+}
+
+// renew replaces the old end, it must be called with the retry locked
+func (re *RetryEnd) renew(old *clientEnd) error {
 	// release the end
 	if old != nil {
 		old.Close()
@@ -109,6 +127,11 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 		return err
 	}
 	atomic.StorePointer(&re.end, unsafe.Pointer(new))
+	if atomic.LoadInt32(re.ok) == 0 {
+		// closed meanwhile, and Close may have seen the old end only
+		new.Close()
+		return io.EOF
+	}
 	// TODO optimize rests
 	time.Sleep(1 * time.Second)
 
@@ -123,7 +146,8 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 	re.rpcMtx.RLock()
 	for method, rpc := range re.rpcs {
 		// TODO inconsistency for the context
-		err = re.register(context.TODO(), method, rpc, false)
+		// on the new end itself, re.register may reinit again and we're in it
+		err = new.Register(context.TODO(), method, rpc)
 		if err != nil {
 			re.rpcMtx.RUnlock()
 			return err
@@ -139,6 +163,19 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 	return nil
 }
 
+// recover renews the end if it's still the one the lost conn belongs to
+func (re *RetryEnd) recover(rc *retryConn) error {
+	re.retry.Lock()
+	defer re.retry.Unlock()
+
+	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
+	if cur == nil || cur.opts.Delegate != delegate.ClientDelegate(rc) {
+		// already renewed, or the end never came up
+		return nil
+	}
+	return re.renew(cur)
+}
+
 // wrappered delegate
 func (re *RetryEnd) ConnOnline(conn delegate.ConnDescriber) error {
 	delegate := re.opts.delegate
@@ -148,7 +185,7 @@ func (re *RetryEnd) ConnOnline(conn delegate.ConnDescriber) error {
 	return nil
 }
 
-func (re *RetryEnd) ConnOffline(conn delegate.ConnDescriber) error {
+func (re *RetryEnd) connOffline(rc *retryConn, conn delegate.ConnDescriber) error {
 	delegate := re.opts.delegate
 	if delegate != nil {
 		// The offline is just a notification, we're still keep on trying reconnct
@@ -159,8 +196,7 @@ func (re *RetryEnd) ConnOffline(conn delegate.ConnDescriber) error {
 	}
 	fn := func() {
 		for atomic.LoadInt32(re.ok) == 1 {
-			end := (*clientEnd)(atomic.LoadPointer(&re.end))
-			err := re.reinit(end)
+			err := re.recover(rc)
 			if err != nil {
 				re.opts.Log.Infof("retry client offline and retry failed: %s", err)
 				continue
@@ -339,11 +375,10 @@ func (re *RetryEnd) CallAsync(ctx context.Context, method string, req geminio.Re
 }
 
 func (re *RetryEnd) Register(ctx context.Context, method string, rpc geminio.RPC) error {
-	return re.register(ctx, method, rpc, true)
+	return re.register(ctx, method, rpc)
 }
 
-func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC,
-	memorize bool) error {
+func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC) error {
 	if atomic.LoadInt32(re.ok) != 1 {
 		// TODO optimize the error
 		return io.EOF
@@ -365,16 +400,14 @@ func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC
 				return ierr
 			}
 			// retry succeed, recursive the register
-			return re.register(ctx, method, rpc, true)
+			return re.register(ctx, method, rpc)
 		}
 		return rerr
 	}
-	if memorize {
-		// memorize the rpc in case of retry
-		re.rpcMtx.Lock()
-		re.rpcs[method] = rpc
-		re.rpcMtx.Unlock()
-	}
+	// memorize the rpc in case of retry
+	re.rpcMtx.Lock()
+	re.rpcs[method] = rpc
+	re.rpcMtx.Unlock()
 	return nil
 }
 
@@ -561,9 +594,9 @@ func (re *RetryEnd) Write(b []byte) (int, error) {
 func (re *RetryEnd) Close() error {
 	var err error
 	re.onceClose.Do(func() {
-		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 		// set re.ok false, no more reconnect
 		atomic.StoreInt32(re.ok, 0)
+		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 		err = cur.Close()
 		if re.opts.TimerOwner == re {
 			re.opts.Timer.Close()
-- 
2.43.0


From a9cf8284cda402b0d77fb1da1103fecd9f4174b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 26/37] fix: a stream opened before the server's End was made
 crashed the process

---
 server/end.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/server/end.go b/server/end.go
index 36e1357..338e8be 100644
--- a/server/end.go
+++ b/server/end.go
@@ -45,9 +45,12 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		acceptfn func(multiplexer.Dialogue)
 		closedfn func(multiplexer.Dialogue)
 		// application
-		ep     geminio.End
+		ep     *application.End
 		epOpts []application.EndOption
+		// streams may come and go before the End is made
+		ready = make(chan struct{})
 	)
+	defer close(ready)
 	// we share packet factory, log, timer and delegate for follow 3 layers.
 
 	// connection layer
@@ -68,12 +71,20 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	// multiplexer and application
 	if eo.AcceptStreamFunc != nil {
 		acceptfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).AcceptDialogue(dg)
+			<-ready
+			if ep == nil {
+				return
+			}
+			ep.AcceptDialogue(dg)
 		}
 	}
 	if eo.ClosedStreamFunc != nil {
 		closedfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).ClosedDialogue(dg)
+			<-ready
+			if ep == nil {
+				return
+			}
+			ep.ClosedDialogue(dg)
 		}
 	}
 	// multiplexer
-- 
2.43.0


From db15b0f447f36a3ab3be2a0f253d39f20467ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 27/37] fix: closing an End while a stream was being opened
 took 30 s

---
 multiplexer/dialogue.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 5d67479..66676eb 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -76,6 +76,8 @@ type dialogue struct {
 	// handled packets waiting for room in readOutCh and writeOutCh, only for
 	// handlePkt which mustn't be blocked by one direction while the other can go on
 	readOutPend, writeOutPend []packet.Packet
+	// a close before the session is negotiated, only for handlePkt
+	dismissPend *packet.DismissPacket
 
 	closeOnce   *gsync.Once
 	closeIOOnce *gsync.Once
@@ -542,6 +544,9 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 			dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	}
 	dg.onlined = true
+	if dg.dismissPend != nil {
+		return dg.handleOutDismissPacket(dg.dismissPend)
+	}
 	return iodefine.IONewActive
 }
 
@@ -638,10 +643,19 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 
 	dg.onlined = true
+	if dg.dismissPend != nil {
+		return dg.handleOutDismissPacket(dg.dismissPend)
+	}
 	return iodefine.IONewPassive
 }
 
 func (dg *dialogue) handleOutDismissPacket(pkt *packet.DismissPacket) iodefine.IORet {
+	if dg.fsm.InStates(INIT, SESSION_SENT, SESSION_RECV) {
+		// the peer can't find the dialogue yet, dismiss it once it's negotiated
+		dg.dismissPend = pkt
+		return iodefine.IOSuccess
+	}
+	pkt.SetSessionID(dg.dialogueID)
 	err := dg.fsm.EmitEvent(ET_DISMISSSENT)
 	if err != nil {
 		dg.log.Errorf("emit ET_SESSIONSENT err: %s, clientID: %d, dialogueID: %d, packetID: %d",
-- 
2.43.0


From 78b6e527cc8ed5ecc9d6233bd84db12ce517051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 28/37] fix: the writer of a dialogue ended at once never ended

---
 multiplexer/dialogue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 66676eb..a58fbe4 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -813,7 +813,7 @@ func (dg *dialogue) fini() {
 	// writeOutCh must be cared since writhPkt might quit first
 	close(dg.writeOutCh)
 	// collect channels
-	dg.writeInCh, dg.writeOutCh = nil, nil
+	dg.writeInCh = nil
 	// TODO we left the readInCh buffer at some edge cases which may cause peer msg timeout
 
 	// collect fsm
-- 
2.43.0


From 87fcf70819ef5dd3abc13982c28d370ec56b01bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 29/37] fix: an asynchronous operation failing while its stream
 ended completed twice

---
 application/message.go |  2 +-
 application/rpc.go     | 14 +++++++++++++-
 application/stream.go  |  8 +++++---
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/application/message.go b/application/message.go
index 319c5ad..faccc32 100644
--- a/application/message.go
+++ b/application/message.go
@@ -163,7 +163,7 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 		Done:    ch,
 	}
 	// deadline and timeout for local
-	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx), synchub.WithCallback(func(event *synchub.Event) {
+	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx), onceCallback(func(event *synchub.Event) {
 		if event.Error != nil {
 			sm.log.Debugf("message packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
diff --git a/application/rpc.go b/application/rpc.go
index 5e00311..a1430b5 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"io"
 	"regexp"
+	"sync/atomic"
 	"time"
 
 	"github.com/jumboframes/armorigo/synchub"
@@ -164,6 +165,17 @@ func (sm *stream) cancelRequest(pktID uint64) {
 	sm.writeInCh <- cancelPkt
 }
 
+// an ack, an error, the timeout, the context and the end of the stream race in
+// the hub and may each call back, but an operation is done only once
+func onceCallback(callback func(event *synchub.Event)) synchub.SyncOption {
+	var done int32
+	return synchub.WithCallback(func(event *synchub.Event) {
+		if atomic.CompareAndSwapInt32(&done, 0, 1) {
+			callback(event)
+		}
+	})
+}
+
 func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Request, ch chan *geminio.Call, opts ...*options.CallOptions) (*geminio.Call, error) {
 	if req.ClientID() != sm.cn.ClientID() {
 		return nil, ErrMismatchClientID
@@ -206,7 +218,7 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	}
 	// deadline and timeout for local
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx),
-		synchub.WithCallback(func(event *synchub.Event) {
+		onceCallback(func(event *synchub.Event) {
 			if event.Error != nil {
 				sm.log.Debugf("request packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
diff --git a/application/stream.go b/application/stream.go
index 2de9147..64b4ea9 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -85,6 +85,7 @@ type stream struct {
 
 	// io
 	writeInCh chan packet.Packet // for multiple message types
+	writeDone chan struct{}      // closed after writeInCh is drained
 }
 
 func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *stream {
@@ -108,6 +109,7 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		dlReadChList:      list.New(),
 		dlWriteChList:     list.New(),
 		writeInCh:         make(chan packet.Packet, 32),
+		writeDone:         make(chan struct{}),
 	}
 	// store it before it starts, since it may be finished and deleted at any time
 	end.streams.Store(dg.DialogueID(), sm)
@@ -147,6 +149,7 @@ func (sm *stream) Side() geminio.Side {
 // main handle logic
 func (sm *stream) handlePkt() {
 	writeInCh := sm.writeInCh
+	defer close(sm.writeDone)
 
 	for {
 		select {
@@ -590,9 +593,8 @@ func (sm *stream) fini() {
 	sm.streamOK = false
 	close(sm.writeInCh)
 
-	for pkt := range sm.writeInCh {
-		sm.shub.Error(pkt.ID(), io.ErrClosedPipe)
-	}
+	// what's left is errored by handlePkt, since the dialogue is finished
+	<-sm.writeDone
 	sm.shub.Close()
 
 	// the outside should care about message and stream channel status
-- 
2.43.0


From 5da3acf773e4c9d46b0c39e5b2cdd161a8600df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:03 +0000
Subject: [PATCH 30/37] fix: replacing a hijack during a request misrouted it
 or crashed

---
 application/rpc.go    |  2 ++
 application/stream.go | 17 ++++++++++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index a1430b5..a160bab 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -271,6 +271,8 @@ func (sm *stream) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions)
 		pRPC.match = *fo.Match
 	}
 	pRPC.rpc = rpc
+	sm.rpcMtx.Lock()
 	sm.hijackRPC = pRPC
+	sm.rpcMtx.Unlock()
 	return nil
 }
diff --git a/application/stream.go b/application/stream.go
index 64b4ea9..f4ab4f2 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -315,16 +315,19 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	sm.rpcMtx.Lock()
 	sm.rpcCancels[pkt.ID()] = cancel
 	sm.rpcMtx.Unlock()
-	// hijack exist
-	if sm.hijackRPC != nil {
-		if sm.hijackRPC.pattern == nil {
-			sm.doRPC(pkt, methodRPC(sm.hijackRPC.rpc), method, ctx, req, rsp, true)
+	// hijack exist, it may be replaced at any time
+	sm.rpcMtx.RLock()
+	hijackRPC := sm.hijackRPC
+	sm.rpcMtx.RUnlock()
+	if hijackRPC != nil {
+		if hijackRPC.pattern == nil {
+			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, req, rsp, true)
 			return iodefine.IOSuccess
 		}
-		matched := sm.hijackRPC.pattern.Match([]byte(method))
-		if (sm.hijackRPC.match && matched) || (!sm.hijackRPC.match && !matched) {
+		matched := hijackRPC.pattern.Match([]byte(method))
+		if (hijackRPC.match && matched) || (!hijackRPC.match && !matched) {
 			// do RPC and cancel the context
-			sm.doRPC(pkt, methodRPC(sm.hijackRPC.rpc), method, ctx, req, rsp, true)
+			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, req, rsp, true)
 			return iodefine.IOSuccess
 		}
 	}
-- 
2.43.0


From 1427abdd406f92844986cdc69315f645c848be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 31/37] fix: a header claiming a huge packet made the receiver
 allocate it at once

---
 packet/decode.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/packet/decode.go b/packet/decode.go
index 56dd11d..0d31cc6 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -1,10 +1,15 @@
 package packet
 
 import (
+	"bytes"
 	"errors"
 	"io"
 )
 
+// a body longer than this is read before space for all of it is allocated,
+// since the length is nothing but what the peer claims
+const maxPrealloc = 1 << 20
+
 var (
 	ErrUnsupportedPacket = errors.New("unsupported packet")
 	ErrIncompletePacket  = errors.New("incomplete packet")
@@ -180,6 +185,14 @@ func DecodeFromReader(reader io.Reader) (Packet, error) {
 	if pktHdr.PacketLen < minPacketLen(pktHdr.Typ) {
 		return nil, ErrIllegalPacket
 	}
+	if pktHdr.PacketLen > maxPrealloc {
+		body := &bytes.Buffer{}
+		_, err = io.CopyN(body, reader, int64(pktHdr.PacketLen))
+		if err != nil {
+			return nil, err
+		}
+		reader = body
+	}
 
 	switch pktHdr.Typ {
 	case TypeConnPacket:
-- 
2.43.0


From c756f9dfac5d628cbeca036422ebff0049d151d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 32/37] fix: reserved ids were handed out by even, odd and
 increasing counters

---
 pkg/id/id.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/id/id.go b/pkg/id/id.go
index 715bbef..f508c16 100644
--- a/pkg/id/id.go
+++ b/pkg/id/id.go
@@ -53,17 +53,14 @@ func (idCounter *IDCounter) ReserveID(id uint64) {
 func (idCounter *IDCounter) GetID() uint64 {
 	switch idCounter.mode {
 	case Even:
-		return uint64(time.Now().Unix()<<32) +
-			uint64(atomic.AddUint32(&idCounter.counter, 2))
+		return idCounter.next(2)
 	case Odd:
 		idCounter.once.Do(func() {
 			atomic.AddUint32(&idCounter.counter, 1)
 		})
-		return uint64(time.Now().Unix()<<32) +
-			uint64(atomic.AddUint32(&idCounter.counter, 2))
+		return idCounter.next(2)
 	case Inc:
-		return uint64(time.Now().Unix()<<32) +
-			uint64(atomic.AddUint32(&idCounter.counter, 1))
+		return idCounter.next(1)
 	case Unique:
 		idCounter.mtx.Lock()
 		for i := uint64(1); i < math.MaxUint64; i++ {
@@ -79,6 +76,20 @@ func (idCounter *IDCounter) GetID() uint64 {
 	return 0
 }
 
+// next returns the next id which isn't reserved
+func (idCounter *IDCounter) next(step uint32) uint64 {
+	for {
+		id := uint64(time.Now().Unix()<<32) +
+			uint64(atomic.AddUint32(&idCounter.counter, step))
+		idCounter.mtx.RLock()
+		_, reserved := idCounter.ids[id]
+		idCounter.mtx.RUnlock()
+		if !reserved {
+			return id
+		}
+	}
+}
+
 func (idCounter *IDCounter) GetIDByMeta(meta []byte) (uint64, error) {
 	return idCounter.GetID(), nil
 }
@@ -93,6 +104,8 @@ func (idCounter *IDCounter) DelID(i uint64) {
 }
 
 func (idCounter *IDCounter) Close() {
+	idCounter.mtx.Lock()
+	defer idCounter.mtx.Unlock()
 	idCounter.ids = nil
 }
 
-- 
2.43.0


From 2556b12fcf4e0daa598dea9c2b62953128833342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 33/37] fix: operations in ConnOnline or EndReOnline of a
 retrying End deadlocked

---
 client/end_retry.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 66358c6..089a909 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -65,6 +65,7 @@ func NewRetryEndWithDialer(dialer Dialer, opts ...*EndOptions) (geminio.End, err
 		goto ERR
 	}
 	atomic.StorePointer(&re.end, unsafe.Pointer(end))
+	re.online(end)
 	return re, nil
 ERR:
 	atomic.StoreInt32(re.ok, 0)
@@ -90,10 +91,25 @@ func (re *RetryEnd) getEnd() (*clientEnd, error) {
 	if err != nil {
 		return nil, err
 	}
+	return end.(*clientEnd), nil
+}
+
+// online and reonline notify the delegate, which may operate on the RetryEnd
+// and thereby need the retry lock the caller holds
+func (re *RetryEnd) online(end *clientEnd) {
 	if re.opts.delegate != nil {
+		re.retry.Unlock()
+		defer re.retry.Lock()
 		re.opts.delegate.ConnOnline(end)
 	}
-	return end.(*clientEnd), nil
+}
+
+func (re *RetryEnd) reonline(end *clientEnd) {
+	if re.opts.delegate != nil {
+		re.retry.Unlock()
+		defer re.retry.Lock()
+		re.opts.delegate.EndReOnline(end)
+	}
 }
 
 func (re *RetryEnd) reinit(old *clientEnd) error {
@@ -132,6 +148,7 @@ func (re *RetryEnd) renew(old *clientEnd) error {
 		new.Close()
 		return io.EOF
 	}
+	re.online(new)
 	// TODO optimize rests
 	time.Sleep(1 * time.Second)
 
@@ -157,9 +174,7 @@ func (re *RetryEnd) renew(old *clientEnd) error {
 
 	// after retry the end succeed, after hijack and register legacy functions,
 	// the brand new end online
-	if re.opts.delegate != nil {
-		re.opts.delegate.EndReOnline(new)
-	}
+	re.reonline(new)
 	return nil
 }
 
-- 
2.43.0


From 106fcefc82c4378ebd2e25d8369f90a5f4f9121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 34/37] fix: operations waiting for the recovery of a retrying
 End kept waiting for each other after its Close

---
 client/end_retry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/end_retry.go b/client/end_retry.go
index 089a909..4a5b2e4 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -127,6 +127,10 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 
 // renew replaces the old end, it must be called with the retry locked
 func (re *RetryEnd) renew(old *clientEnd) error {
+	if atomic.LoadInt32(re.ok) == 0 {
+		// nobody should wait for the others here
+		return io.EOF
+	}
 	// release the end
 	if old != nil {
 		old.Close()
-- 
2.43.0


From 4c83b9071f573f9182ea20becd3a519780e4e8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:29 +0000
Subject: [PATCH 35/37] fix: a retrying End announced and set up a connection
 which had been replaced already

---
 client/end_retry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/end_retry.go b/client/end_retry.go
index 4a5b2e4..622bed6 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -153,6 +153,10 @@ func (re *RetryEnd) renew(old *clientEnd) error {
 		return io.EOF
 	}
 	re.online(new)
+	if (*clientEnd)(atomic.LoadPointer(&re.end)) != new {
+		// lost and renewed while the delegate was notified
+		return nil
+	}
 	// TODO optimize rests
 	time.Sleep(1 * time.Second)
 
-- 
2.43.0


From 40cc77598affc57e6150b680ee9aece7340e8447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 36/37] fix: a registration during the recovery of a retrying
 End was lost to the one it replaced

---
 client/end_retry.go | 54 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 622bed6..b47742e 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -31,6 +31,8 @@ type RetryEnd struct {
 	// rpcs for re-register
 	rpcs   map[string]geminio.RPC
 	rpcMtx sync.RWMutex
+	// registrations and the restoration of them exclude each other
+	restoreMtx sync.RWMutex
 	// hijack
 	hijackRPCOpts *options.HijackOptions
 	hijackRPC     geminio.HijackRPC
@@ -160,29 +162,41 @@ func (re *RetryEnd) renew(old *clientEnd) error {
 	// TODO optimize rests
 	time.Sleep(1 * time.Second)
 
+	err = re.restore(new)
+	if err != nil {
+		return err
+	}
+
+	// after retry the end succeed, after hijack and register legacy functions,
+	// the brand new end online
+	re.reonline(new)
+	return nil
+}
+
+// restore the hijack and the functions on a renewed end, without those which
+// are replaced meanwhile
+func (re *RetryEnd) restore(new *clientEnd) error {
+	re.restoreMtx.Lock()
+	defer re.restoreMtx.Unlock()
+
 	// hijack
 	if re.hijackRPC != nil {
-		err = new.Hijack(re.hijackRPC, re.hijackRPCOpts)
+		err := new.Hijack(re.hijackRPC, re.hijackRPCOpts)
 		if err != nil {
 			return err
 		}
 	}
 	// register legacy functions
 	re.rpcMtx.RLock()
+	defer re.rpcMtx.RUnlock()
 	for method, rpc := range re.rpcs {
 		// TODO inconsistency for the context
 		// on the new end itself, re.register may reinit again and we're in it
-		err = new.Register(context.TODO(), method, rpc)
+		err := new.Register(context.TODO(), method, rpc)
 		if err != nil {
-			re.rpcMtx.RUnlock()
 			return err
 		}
 	}
-	re.rpcMtx.RUnlock()
-
-	// after retry the end succeed, after hijack and register legacy functions,
-	// the brand new end online
-	re.reonline(new)
 	return nil
 }
 
@@ -407,7 +421,15 @@ func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC
 		return io.EOF
 	}
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
+	re.restoreMtx.RLock()
 	rerr := cur.Register(ctx, method, rpc)
+	if rerr == nil {
+		// memorize the rpc in case of retry
+		re.rpcMtx.Lock()
+		re.rpcs[method] = rpc
+		re.rpcMtx.Unlock()
+	}
+	re.restoreMtx.RUnlock()
 	if rerr != nil {
 		if rerr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
@@ -427,10 +449,6 @@ func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC
 		}
 		return rerr
 	}
-	// memorize the rpc in case of retry
-	re.rpcMtx.Lock()
-	re.rpcs[method] = rpc
-	re.rpcMtx.Unlock()
 	return nil
 }
 
@@ -440,7 +458,16 @@ func (re *RetryEnd) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions
 		return io.EOF
 	}
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
+	re.restoreMtx.RLock()
 	herr := cur.Hijack(rpc, opts...)
+	if herr == nil {
+		// memorize the hijack
+		re.rpcMtx.Lock()
+		re.hijackRPC = rpc
+		re.hijackRPCOpts = options.MergeHijackOptions(opts...)
+		re.rpcMtx.Unlock()
+	}
+	re.restoreMtx.RUnlock()
 	if herr != nil {
 		if herr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
@@ -459,9 +486,6 @@ func (re *RetryEnd) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions
 		}
 		return herr
 	}
-	// memorize the hijack
-	re.hijackRPC = rpc
-	re.hijackRPCOpts = options.MergeHijackOptions(opts...)
 	return nil
 }
 
-- 
2.43.0


From f568e2cb914099deaf1bd515c5ddcbfdcd2510a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 37/37] fix: a client refused without an error text took it for
 a connection

---
 conn/conn_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 192ec72..d87fabf 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -306,7 +306,7 @@ func (cc *ClientConn) handleInConnAckPacket(pkt *packet.ConnAckPacket) iodefine.
 	}
 	cc.clientID = pkt.ClientID
 
-	if pkt.ConnData.Error != "" {
+	if pkt.RetCode == packet.RetCodeERR || pkt.ConnData.Error != "" {
 		cc.shub.Error(pkt.PacketID, errors.New(pkt.ConnData.Error))
 		// close the conn
 		retPkt := cc.pf.NewDisConnPacket()
-- 
2.43.0

