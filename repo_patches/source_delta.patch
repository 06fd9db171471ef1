From 91d9aaacad5d94215b73ff73f8318ca7619dc09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 01/57] fix: decode request and response packets without a nil
 embedded packet

---
 packet/decode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packet/decode.go b/packet/decode.go
index 07cc120..f65d95d 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -116,13 +116,17 @@ func Decode(data []byte) (Packet, uint32, error) {
 		return pkt, n, err
 
 	case TypeRequestPacket:
-		pkt := &RequestPacket{}
+		pkt := &RequestPacket{
+			&MessagePacket{},
+		}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
 
 	case TypeResponsePacket:
-		pkt := &ResponsePacket{}
+		pkt := &ResponsePacket{
+			&MessageAckPacket{},
+		}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
-- 
2.43.0


From 5fcccce780140220e531f9ab03849f5fe0b663fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 02/57] fix: reject packets shorter than their fixed fields
 instead of panicking

---
 packet/packet_conn.go | 18 ++++++++++++++++++
 packet/packet_data.go | 20 +++++++++++++++++++-
 packet/packet_sess.go | 24 ++++++++++++++++++++++++
 3 files changed, 61 insertions(+), 1 deletion(-)

diff --git a/packet/packet_conn.go b/packet/packet_conn.go
index 994087e..d02fa76 100644
--- a/packet/packet_conn.go
+++ b/packet/packet_conn.go
@@ -91,6 +91,9 @@ func (connPkt *ConnPacket) Encode() ([]byte, error) {
 }
 
 func (connPkt *ConnPacket) Decode(data []byte) (uint32, error) {
+	if connPkt.PacketLen < 10 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(connPkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -116,6 +119,9 @@ func (connPkt *ConnPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (connPkt *ConnPacket) DecodeFromReader(reader io.Reader) error {
+	if connPkt.PacketLen < 10 {
+		return ErrIllegalPacket
+	}
 	flags := make([]byte, 2)
 	_, err := io.ReadFull(reader, flags)
 	if err != nil {
@@ -187,6 +193,9 @@ func (connAckPkt *ConnAckPacket) Encode() ([]byte, error) {
 }
 
 func (connAckPkt *ConnAckPacket) Decode(data []byte) (uint32, error) {
+	if connAckPkt.PacketLen < 9 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(connAckPkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -206,6 +215,9 @@ func (connAckPkt *ConnAckPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (connAckPkt *ConnAckPacket) DecodeFromReader(reader io.Reader) error {
+	if connAckPkt.PacketLen < 9 {
+		return ErrIllegalPacket
+	}
 	length := int(connAckPkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
@@ -271,6 +283,9 @@ func (disConnAckPkt *DisConnAckPacket) Encode() ([]byte, error) {
 }
 
 func (disConnAckPkt *DisConnAckPacket) Decode(data []byte) (uint32, error) {
+	if disConnAckPkt.PacketLen < 1 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(disConnAckPkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -288,6 +303,9 @@ func (disConnAckPkt *DisConnAckPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (disConnAckPkt *DisConnAckPacket) DecodeFromReader(reader io.Reader) error {
+	if disConnAckPkt.PacketLen < 1 {
+		return ErrIllegalPacket
+	}
 	length := int(disConnAckPkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
diff --git a/packet/packet_data.go b/packet/packet_data.go
index c6dca77..289f036 100644
--- a/packet/packet_data.go
+++ b/packet/packet_data.go
@@ -61,6 +61,9 @@ func (pkt *RequestCancelPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *RequestCancelPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 10 {
+		return 0, ErrIllegalPacket
+	}
 	if len(data) < int(pkt.PacketLen) {
 		return 0, ErrIncompletePacket
 	}
@@ -72,7 +75,7 @@ func (pkt *RequestCancelPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *RequestCancelPacket) DecodeFromReader(reader io.Reader) error {
-	if pkt.PacketLen < 8 {
+	if pkt.PacketLen < 10 {
 		return ErrIllegalPacket
 	}
 	data := make([]byte, pkt.PacketLen)
@@ -139,6 +142,9 @@ func (pkt *MessagePacket) Encode() ([]byte, error) {
 }
 
 func (pkt *MessagePacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	if len(data) < int(pkt.PacketLen) {
 		return 0, ErrIncompletePacket
 	}
@@ -214,6 +220,9 @@ func (pkt *MessageAckPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *MessageAckPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	if len(data) < int(pkt.PacketLen) {
 		return 0, ErrIncompletePacket
 	}
@@ -288,6 +297,9 @@ func (pkt *StreamPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *StreamPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -358,6 +370,9 @@ func (pkt *RegisterPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *RegisterPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -427,6 +442,9 @@ func (pkt *RegisterAckPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *RegisterAckPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
diff --git a/packet/packet_sess.go b/packet/packet_sess.go
index 7695a85..6fe08f1 100644
--- a/packet/packet_sess.go
+++ b/packet/packet_sess.go
@@ -87,6 +87,9 @@ func (pkt *SessionPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *SessionPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 10 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -107,6 +110,9 @@ func (pkt *SessionPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *SessionPacket) DecodeFromReader(reader io.Reader) error {
+	if pkt.PacketLen < 10 {
+		return ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
@@ -177,6 +183,9 @@ func (pkt *SessionAckPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *SessionAckPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 18 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -195,6 +204,9 @@ func (pkt *SessionAckPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *SessionAckPacket) DecodeFromReader(reader io.Reader) error {
+	if pkt.PacketLen < 18 {
+		return ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
@@ -252,6 +264,9 @@ func (pkt *DismissPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *DismissPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -270,6 +285,9 @@ func (pkt *DismissPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *DismissPacket) DecodeFromReader(reader io.Reader) error {
+	if pkt.PacketLen < 8 {
+		return ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
@@ -327,6 +345,9 @@ func (pkt *DismissAckPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *DismissAckPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -344,6 +365,9 @@ func (pkt *DismissAckPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *DismissAckPacket) DecodeFromReader(reader io.Reader) error {
+	if pkt.PacketLen < 8 {
+		return ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
-- 
2.43.0


From 4dc68585b412a4c138ac6e65d55d7f864f8cc3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 03/57] fix: consume the declared payload of disconn and
 heartbeat packets

---
 packet/packet_conn.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/packet/packet_conn.go b/packet/packet_conn.go
index d02fa76..ce964eb 100644
--- a/packet/packet_conn.go
+++ b/packet/packet_conn.go
@@ -247,11 +247,16 @@ func (disConnPkt *DisConnPacket) Encode() ([]byte, error) {
 }
 
 func (disConnPkt *DisConnPacket) Decode(data []byte) (uint32, error) {
-	return 0, nil
+	if len(data) < int(disConnPkt.PacketLen) {
+		return 0, ErrIncompletePacket
+	}
+	return disConnPkt.PacketLen, nil
 }
 
 func (disConnPkt *DisConnPacket) DecodeFromReader(reader io.Reader) error {
-	return nil
+	// skip the payload to keep the reader aligned with the next packet
+	_, err := io.CopyN(io.Discard, reader, int64(disConnPkt.PacketLen))
+	return err
 }
 
 type DisConnAckPacket struct {
@@ -333,11 +338,16 @@ func (hbPkt *HeartbeatPacket) Encode() ([]byte, error) {
 }
 
 func (hbPkt *HeartbeatPacket) Decode(data []byte) (uint32, error) {
-	return 0, nil
+	if len(data) < int(hbPkt.PacketLen) {
+		return 0, ErrIncompletePacket
+	}
+	return hbPkt.PacketLen, nil
 }
 
 func (hbPkt *HeartbeatPacket) DecodeFromReader(reader io.Reader) error {
-	return nil
+	// skip the payload to keep the reader aligned with the next packet
+	_, err := io.CopyN(io.Discard, reader, int64(hbPkt.PacketLen))
+	return err
 }
 
 type HeartbeatAckPacket struct {
@@ -349,9 +359,14 @@ func (hbAckPkt *HeartbeatAckPacket) Encode() ([]byte, error) {
 }
 
 func (hbAckPkt *HeartbeatAckPacket) Decode(data []byte) (uint32, error) {
-	return 0, nil
+	if len(data) < int(hbAckPkt.PacketLen) {
+		return 0, ErrIncompletePacket
+	}
+	return hbAckPkt.PacketLen, nil
 }
 
 func (hbAckPkt *HeartbeatAckPacket) DecodeFromReader(reader io.Reader) error {
-	return nil
+	// skip the payload to keep the reader aligned with the next packet
+	_, err := io.CopyN(io.Discard, reader, int64(hbAckPkt.PacketLen))
+	return err
 }
-- 
2.43.0


From eb587f2edca0a61d7400c5bf74de081ec9ba1b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 04/57] fix: encode every heartbeat interval to the code its
 decoder expects

---
 packet/packet_conn.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packet/packet_conn.go b/packet/packet_conn.go
index ce964eb..d6ebd0e 100644
--- a/packet/packet_conn.go
+++ b/packet/packet_conn.go
@@ -78,8 +78,13 @@ func (connPkt *ConnPacket) Encode() ([]byte, error) {
 	if connPkt.clientIDAcquire {
 		pkt[0] |= 0x08
 	}
-	if connPkt.Heartbeat != Heartbeat5 {
-		pkt[0] |= byte(math.Pow(float64(connPkt.Heartbeat)/5, 0.25)) << 4
+	switch connPkt.Heartbeat {
+	case Heartbeat20:
+		pkt[0] |= 0x10
+	case Heartbeat80:
+		pkt[0] |= 0x20
+	case Heartbeat320:
+		pkt[0] |= 0x30
 	}
 	// client id
 	binary.BigEndian.PutUint64(pkt[2:10], connPkt.ClientID)
-- 
2.43.0


From daa78728fb2a09fc99e79099f5e3269490ee3bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 05/57] fix: deliver request cancelation to the peer and cancel
 its rpc context

---
 application/stream.go | 33 ++++++++++++++++++++++-----------
 packet/decode.go      | 12 ++++++++++++
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index 9940afa..8274175 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -227,6 +227,8 @@ func (sm *stream) handleOut(pkt packet.Packet) iodefine.IORet {
 		return sm.handleOutMessageAckPacket(realPkt)
 	case *packet.RequestPacket:
 		return sm.handleOutRequestPacket(realPkt)
+	case *packet.RequestCancelPacket:
+		return sm.handleOutRequestCancelPacket(realPkt)
 	case *packet.StreamPacket:
 		return sm.handleOutStreamPacket(realPkt)
 	case *packet.RegisterPacket:
@@ -292,7 +294,7 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			streamID:  sm.dg.DialogueID(),
 		}
 	// setup context
-	ctx, cancel := context.Background(), context.CancelFunc(nil)
+	ctx, cancel := context.WithCancel(context.Background())
 	if !pkt.Data.Deadline.IsZero() || !pkt.Data.Context.Deadline.IsZero() {
 		deadline := pkt.Data.Deadline
 		if deadline.IsZero() || (!deadline.IsZero() &&
@@ -300,11 +302,12 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			pkt.Data.Context.Deadline.Before(deadline)) {
 			deadline = pkt.Data.Context.Deadline
 		}
-		ctx, cancel = context.WithDeadline(ctx, deadline)
-		sm.rpcMtx.Lock()
-		sm.rpcCancels[pkt.ID()] = cancel
-		sm.rpcMtx.Unlock()
+		cancel()
+		ctx, cancel = context.WithDeadline(context.Background(), deadline)
 	}
+	sm.rpcMtx.Lock()
+	sm.rpcCancels[pkt.ID()] = cancel
+	sm.rpcMtx.Unlock()
 	// hijack exist
 	if sm.hijackRPC != nil {
 		if sm.hijackRPC.pattern == nil {
@@ -332,12 +335,10 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	}
 
 	// release the context
-	if cancel != nil {
-		sm.rpcMtx.Lock()
-		delete(sm.rpcCancels, pkt.ID())
-		cancel()
-		sm.rpcMtx.Unlock()
-	}
+	sm.rpcMtx.Lock()
+	delete(sm.rpcCancels, pkt.ID())
+	cancel()
+	sm.rpcMtx.Unlock()
 
 	// no rpc found, return to call error, note that this error is not set to response error
 	err := fmt.Errorf("no such rpc: %s", method)
@@ -473,6 +474,16 @@ func (sm *stream) handleOutRequestPacket(pkt *packet.RequestPacket) iodefine.IOR
 	return iodefine.IOSuccess
 }
 
+func (sm *stream) handleOutRequestCancelPacket(pkt *packet.RequestCancelPacket) iodefine.IORet {
+	err := sm.dg.Write(pkt)
+	if err != nil {
+		sm.log.Debugf("write request cancel packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+		return iodefine.IOErr
+	}
+	return iodefine.IOSuccess
+}
+
 func (sm *stream) handleOutRegisterPacket(pkt *packet.RegisterPacket) iodefine.IORet {
 	err := sm.dg.Write(pkt)
 	if err != nil {
diff --git a/packet/decode.go b/packet/decode.go
index f65d95d..d917355 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -131,6 +131,12 @@ func Decode(data []byte) (Packet, uint32, error) {
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
 
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
+		pkt.PacketHeader = pktHdr
+		n, err = pkt.Decode(data[14:])
+		return pkt, n, err
+
 	default:
 		return nil, 10, ErrUnsupportedPacket
 	}
@@ -254,6 +260,12 @@ func DecodeFromReader(reader io.Reader) (Packet, error) {
 		err = pkt.DecodeFromReader(reader)
 		return pkt, err
 
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
+		pkt.PacketHeader = pktHdr
+		err = pkt.DecodeFromReader(reader)
+		return pkt, err
+
 	default:
 		return nil, ErrUnsupportedPacket
 	}
-- 
2.43.0


From 0c7be81300063903d61f318e3139f02121378a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 06/57] fix: deliver response custom data and method, and
 request and message timeouts

---
 application/message.go | 2 ++
 application/rpc.go     | 2 ++
 application/stream.go  | 4 ++++
 3 files changed, 8 insertions(+)

diff --git a/application/message.go b/application/message.go
index 51c95c5..ab3068d 100644
--- a/application/message.go
+++ b/application/message.go
@@ -69,6 +69,7 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 	pkt := sm.pf.NewMessagePacketWithIDAndSessionID(msg.ID(), sm.dg.DialogueID(), nil, msg.Data())
 	if msg.Timeout() != 0 {
 		pkt.Data.Deadline = time.Now().Add(msg.Timeout())
+		pkt.Data.Timeout = msg.Timeout()
 	}
 	pkt.Data.Topic = msg.Topic()
 	pkt.Data.Custom = msg.Custom()
@@ -130,6 +131,7 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	pkt := sm.pf.NewMessagePacketWithIDAndSessionID(msg.ID(), sm.dg.DialogueID(), nil, msg.Data())
 	if msg.Timeout() != 0 {
 		pkt.Data.Deadline = now.Add(msg.Timeout())
+		pkt.Data.Timeout = msg.Timeout()
 	}
 	pkt.Data.Topic = msg.Topic()
 	pkt.Data.Custom = msg.Custom()
diff --git a/application/rpc.go b/application/rpc.go
index 6c0f25f..a91129a 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -99,6 +99,7 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 	if req.Timeout() != 0 {
 		// if timeout exists, we should deliver it
 		pkt.Data.Deadline = time.Now().Add(req.Timeout())
+		pkt.Data.Timeout = req.Timeout()
 	}
 	pkt.Data.Custom = req.Custom()
 
@@ -165,6 +166,7 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	// deadline and timeout for peer
 	if req.Timeout() != 0 {
 		pkt.Data.Deadline = time.Now().Add(req.Timeout())
+		pkt.Data.Timeout = req.Timeout()
 	}
 	pkt.Data.Custom = req.Custom()
 
diff --git a/application/stream.go b/application/stream.go
index 8274175..594bae6 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -284,6 +284,7 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			id:       pkt.PacketID,
 			method:   method,
 			custom:   pkt.Data.Custom,
+			timeout:  pkt.Data.Timeout,
 			clientID: sm.cn.ClientID(),
 			streamID: sm.dg.DialogueID(),
 		},
@@ -375,6 +376,8 @@ func (sm *stream) handleInResponsePacket(pkt *packet.ResponsePacket) iodefine.IO
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 	rsp := &response{
 		data:      pkt.Data.Value,
+		custom:    pkt.Data.Custom,
+		method:    string(pkt.Data.Key),
 		requestID: pkt.ID(),
 		clientID:  sm.cn.ClientID(),
 		streamID:  sm.dg.DialogueID(),
@@ -526,6 +529,7 @@ func (sm *stream) doRPC(pkt *packet.RequestPacket, rpc methodRPC, method string,
 		sm.rpcMtx.Unlock()
 
 		rspPkt := sm.pf.NewResponsePacket(pkt.ID(), []byte(req.method), rsp.data, rsp.err)
+		rspPkt.Data.Custom = rsp.custom
 		err := sm.dg.WriteWait(rspPkt)
 		if err != nil {
 			// Write error, the response cannot be delivered, so should be debuged
-- 
2.43.0


From e414595ca5c1135e9a7ddba85161f6c3ca0f05c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 07/57] fix: release the stream lock when the remote rpc is
 unregistered

---
 application/rpc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/application/rpc.go b/application/rpc.go
index a91129a..78ac2c9 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -90,6 +90,7 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 		_, ok := sm.remoteRPCs[method]
 		if !ok {
 			sm.rpcMtx.RUnlock()
+			sm.mtx.RUnlock()
 			return nil, ErrRemoteRPCUnregistered
 		}
 		sm.rpcMtx.RUnlock()
-- 
2.43.0


From 4e2a402acc8d39c7193c10457071e21b63f9d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 08/57] fix: CallAsync delivers the response and honours its
 options like Call

---
 application/rpc.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/application/rpc.go b/application/rpc.go
index 78ac2c9..85931b0 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -158,11 +158,19 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	if req.StreamID() != sm.dg.DialogueID() {
 		return nil, ErrMismatchStreamID
 	}
+	opt := options.MergeCallOptions(opts...)
+	if opt.Timeout != nil {
+		req.SetTimeout(*opt.Timeout)
+	}
 	sm.mtx.RLock()
 	if !sm.streamOK {
 		sm.mtx.RUnlock()
 		return nil, io.EOF
 	}
+	if sm.opts.remoteMethodCheck && !sm.hasRemoteRPC(method) {
+		sm.mtx.RUnlock()
+		return nil, ErrRemoteRPCUnregistered
+	}
 	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
 	// deadline and timeout for peer
 	if req.Timeout() != 0 {
@@ -195,6 +203,9 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 			}
 			sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+			if rsp, ok := event.Ack.(*response); ok {
+				call.Response = rsp
+			}
 			ch <- call
 			return
 		})}
-- 
2.43.0


From f10fe53f9471a73607c4dbcd92112c9da7392c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 09/57] fix: guard the hijack rpc by the rpc lock and release
 an abandoned register

---
 application/rpc.go    |  3 +++
 application/stream.go | 15 +++++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index 85931b0..a50547f 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -60,6 +60,7 @@ func (sm *stream) Register(ctx context.Context, method string, rpc geminio.RPC)
 			return event.Error
 		}
 	case <-ctx.Done():
+		sync.Cancel(false)
 		sm.delLocalRPC(method)
 		return ctx.Err()
 	}
@@ -235,6 +236,8 @@ func (sm *stream) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions)
 		pRPC.match = *fo.Match
 	}
 	pRPC.rpc = rpc
+	sm.rpcMtx.Lock()
 	sm.hijackRPC = pRPC
+	sm.rpcMtx.Unlock()
 	return nil
 }
diff --git a/application/stream.go b/application/stream.go
index 594bae6..deb5b6e 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -310,15 +310,18 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	sm.rpcCancels[pkt.ID()] = cancel
 	sm.rpcMtx.Unlock()
 	// hijack exist
-	if sm.hijackRPC != nil {
-		if sm.hijackRPC.pattern == nil {
-			sm.doRPC(pkt, methodRPC(sm.hijackRPC.rpc), method, ctx, req, rsp, true)
+	sm.rpcMtx.RLock()
+	hijackRPC := sm.hijackRPC
+	sm.rpcMtx.RUnlock()
+	if hijackRPC != nil {
+		if hijackRPC.pattern == nil {
+			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, req, rsp, true)
 			return iodefine.IOSuccess
 		}
-		matched := sm.hijackRPC.pattern.Match([]byte(method))
-		if (sm.hijackRPC.match && matched) || (!sm.hijackRPC.match && !matched) {
+		matched := hijackRPC.pattern.Match([]byte(method))
+		if (hijackRPC.match && matched) || (!hijackRPC.match && !matched) {
 			// do RPC and cancel the context
-			sm.doRPC(pkt, methodRPC(sm.hijackRPC.rpc), method, ctx, req, rsp, true)
+			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, req, rsp, true)
 			return iodefine.IOSuccess
 		}
 	}
-- 
2.43.0


From 4f3eb696f9c2f35dd7006e122e31ef68678ece90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 10/57] fix: closing one stream keeps the timer shared with its
 siblings

---
 application/end.go          | 1 -
 application/stream.go       | 1 -
 multiplexer/dialogue_mgr.go | 1 -
 3 files changed, 3 deletions(-)

diff --git a/application/end.go b/application/end.go
index e33df6a..fc2e94f 100644
--- a/application/end.go
+++ b/application/end.go
@@ -247,7 +247,6 @@ func (end *End) fini() {
 	if end.tmrOwner == end {
 		end.tmr.Close()
 	}
-	end.tmr = nil
 	end.log.Debugf("end finished, clientID: %d", end.cn.ClientID())
 }
 
diff --git a/application/stream.go b/application/stream.go
index deb5b6e..fe67845 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -595,7 +595,6 @@ func (sm *stream) fini() {
 	if sm.tmrOwner == sm {
 		sm.tmr.Close()
 	}
-	sm.tmr = nil
 
 	if sm.dg.DialogueID() == 1 {
 		// the master stream
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 677ae3c..3ae82e4 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -498,7 +498,6 @@ func (dm *dialogueMgr) fini() {
 	if dm.tmrOwner == dm {
 		dm.tmr.Close()
 	}
-	dm.tmr = nil
 
 	dm.log.Debugf("dialogue manager finished, clientID: %d", dm.cn.ClientID())
 }
-- 
2.43.0


From bf6a87a0e50a5ad0b232bb3096bba06cfdee5b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 11/57] fix: stream fini neither deadlocks with blocked writers
 nor races its reader

---
 application/stream.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index fe67845..3a2e4f5 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -194,6 +194,10 @@ func (sm *stream) readPkt() {
 	}
 FINI:
 	sm.finiOnce.Do(sm.fini)
+	// the outside should care about message and stream channel status, we are
+	// the only sender of them, so nobody sends after the close
+	close(sm.messageCh)
+	close(sm.streamCh)
 }
 
 func (sm *stream) handleIn(pkt packet.Packet) iodefine.IORet {
@@ -573,23 +577,23 @@ func (sm *stream) fini() {
 	sm.log.Debugf("stream finishing, clientID: %d, dialogueID: %d",
 		sm.cn.ClientID(), sm.dg.DialogueID())
 
-	sm.mtx.Lock()
-	defer sm.mtx.Unlock()
-	// collect shub, and all syncs will be close notified
+	// writers hold the read lock while blocking on a full writeInCh, keep draining
+	// it until it's closed, or else the lock can never be got
+	drained := make(chan struct{})
+	go func(writeInCh chan packet.Packet) {
+		defer close(drained)
+		for pkt := range writeInCh {
+			sm.shub.Error(pkt.ID(), io.ErrClosedPipe)
+		}
+	}(sm.writeInCh)
 
+	sm.mtx.Lock()
 	sm.streamOK = false
 	close(sm.writeInCh)
-
-	for pkt := range sm.writeInCh {
-		sm.shub.Error(pkt.ID(), io.ErrClosedPipe)
-	}
-	sm.writeInCh = nil
+	sm.mtx.Unlock()
+	<-drained
+	// collect shub, and all syncs will be close notified
 	sm.shub.Close()
-	sm.shub = nil
-
-	// the outside should care about message and stream channel status
-	close(sm.messageCh)
-	close(sm.streamCh)
 
 	// collect timer
 	if sm.tmrOwner == sm {
-- 
2.43.0


From 724660de9b5484eff88c81a98f821a39784b1167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 12/57] fix: Read delivers received data before EOF and keeps
 leftovers of concurrent reads

---
 application/raw.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/application/raw.go b/application/raw.go
index 55930e9..58d207f 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -16,13 +16,7 @@ const (
 
 // geminio.Raw
 func (sm *stream) Read(b []byte) (int, error) {
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
-		return 0, io.EOF
-	}
-	sm.mtx.RUnlock()
-
+	// a closed stream still delivers what it has received before EOF
 	sm.cacheMtx.Lock()
 	if sm.cache != nil && len(sm.cache) != 0 {
 		n := copy(b, sm.cache)
@@ -40,7 +34,7 @@ func (sm *stream) Read(b []byte) (int, error) {
 			}
 			sm.cacheMtx.Lock()
 			n := copy(b, pkt.Data)
-			sm.cache = pkt.Data[n:]
+			sm.cache = append(sm.cache, pkt.Data[n:]...)
 			sm.cacheMtx.Unlock()
 			return n, nil
 		default:
@@ -63,7 +57,7 @@ func (sm *stream) Read(b []byte) (int, error) {
 		}
 		sm.cacheMtx.Lock()
 		n := copy(b, pkt.Data)
-		sm.cache = pkt.Data[n:]
+		sm.cache = append(sm.cache, pkt.Data[n:]...)
 		sm.cacheMtx.Unlock()
 
 		// if we have't used the deadline channel, then release it
-- 
2.43.0


From 4d74ad268b7a221611377e30232d457e606e757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 13/57] fix: a deadline also ends pending reads and writes when
 it is already past

---
 application/raw.go | 71 ++++++++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/application/raw.go b/application/raw.go
index 58d207f..5fbd3d3 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -1,6 +1,7 @@
 package application
 
 import (
+	"container/list"
 	"io"
 	"net"
 	"os"
@@ -44,6 +45,11 @@ func (sm *stream) Read(b []byte) (int, error) {
 
 	dlCh := make(chan struct{})
 	sm.dlMtx.Lock()
+	if deadlineExceeded(sm.dlRead) {
+		// exceeded before we are able to be notified
+		sm.dlMtx.Unlock()
+		return 0, os.ErrDeadlineExceeded
+	}
 	e := sm.dlReadChList.PushBack(dlCh)
 	sm.dlMtx.Unlock()
 
@@ -93,6 +99,11 @@ func (sm *stream) Write(b []byte) (int, error) {
 
 	dlCh := make(chan struct{})
 	sm.dlMtx.Lock()
+	if deadlineExceeded(sm.dlWrite) {
+		// exceeded before we are able to be notified
+		sm.dlMtx.Unlock()
+		return 0, os.ErrDeadlineExceeded
+	}
 	e := sm.dlWriteChList.PushBack(dlCh)
 	sm.dlMtx.Unlock()
 
@@ -173,19 +184,13 @@ func (sm *stream) setReadDeadline(t time.Time) error {
 					return
 				}
 				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlReadChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlReadChList.Remove(olde)
-				}
+				sm.dlMtx.Lock()
+				defer sm.dlMtx.Unlock()
+				notifyDeadline(sm.dlReadChList)
 			}))
+	} else if !t.IsZero() {
+		// the deadline already exceeds, the pending ones must be notified too
+		notifyDeadline(sm.dlReadChList)
 	}
 	sm.dlRead = t
 	return nil
@@ -216,19 +221,13 @@ func (sm *stream) setWriteDeadline(t time.Time) error {
 					return
 				}
 				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlWriteChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlWriteChList.Remove(olde)
-				}
+				sm.dlMtx.Lock()
+				defer sm.dlMtx.Unlock()
+				notifyDeadline(sm.dlWriteChList)
 			}))
+	} else if !t.IsZero() {
+		// the deadline already exceeds, the pending ones must be notified too
+		notifyDeadline(sm.dlWriteChList)
 	}
 	sm.dlWrite = t
 	return nil
@@ -238,18 +237,28 @@ func (sm *stream) readDeadlineExceeded() bool {
 	sm.dlMtx.RLock()
 	defer sm.dlMtx.RUnlock()
 
-	if !sm.dlRead.IsZero() && time.Now().After(sm.dlRead) {
-		return true
-	}
-	return false
+	return deadlineExceeded(sm.dlRead)
 }
 
 func (sm *stream) writeDeadlineExceeded() bool {
 	sm.dlMtx.RLock()
 	defer sm.dlMtx.RUnlock()
 
-	if !sm.dlWrite.IsZero() && time.Now().After(sm.dlWrite) {
-		return true
+	return deadlineExceeded(sm.dlWrite)
+}
+
+func deadlineExceeded(t time.Time) bool {
+	return !t.IsZero() && time.Now().After(t)
+}
+
+// notifyDeadline notifies all waiting Read/Write, dlMtx must be held
+func notifyDeadline(chs *list.List) {
+	e := chs.Front()
+	for e != nil {
+		ch, _ := e.Value.(chan struct{})
+		close(ch)
+		olde := e
+		e = e.Next()
+		chs.Remove(olde)
 	}
-	return false
 }
-- 
2.43.0


From 80d8ce539c37c69e850a797921aeba10e9285e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 14/57] fix: the server close handshake ends in its own closed
 state

---
 conn/conn_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn/conn_server.go b/conn/conn_server.go
index c1b9474..056ba1a 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -162,7 +162,7 @@ func (sc *ServerConn) initFSM() {
 	closesent := sc.fsm.AddState(CLOSE_SENT)
 	closerecv := sc.fsm.AddState(CLOSE_RECV)
 	closehalf := sc.fsm.AddState(CLOSE_HALF)
-	closed := sc.fsm.AddState(FINI)
+	closed := sc.fsm.AddState(CLOSED)
 	fini := sc.fsm.AddState(FINI)
 	sc.fsm.SetState(INIT)
 
-- 
2.43.0


From 8e27ae2563a517d0674b45e889ff4dfe056b06b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 15/57] fix: Read on a closed conn keeps returning EOF

---
 conn/conn_base.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 8f4ff4e..d3eaf7b 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -79,7 +79,6 @@ type baseConn struct {
 func (bc *baseConn) Read() (packet.Packet, error) {
 	pkt, ok := <-bc.readOutCh
 	if !ok {
-		bc.readOutCh = nil
 		return nil, io.EOF
 	}
 	return pkt, nil
-- 
2.43.0


From 7b6bde0b434f6ac2da1404709c596763904bcef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 16/57] fix: only an onlined client conn notifies offline

---
 conn/conn_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 8bd5560..84a4c4e 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -245,7 +245,7 @@ func (cc *ClientConn) handlePkt() {
 	}
 FINI:
 	cc.log.Debugf("handle pkt done, clientID: %d", cc.clientID)
-	if cc.dlgt != nil && cc.clientID != 0 {
+	if cc.dlgt != nil && cc.onlined {
 		// not that delegate is different from server's delegate
 		cc.dlgt.ConnOffline(cc)
 	}
-- 
2.43.0


From 463452490975968cfb229c647fe26e7715fe7dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 17/57] fix: a failed write keeps draining so that the layer
 can finish

---
 conn/conn_base.go       | 5 +++--
 multiplexer/dialogue.go | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index d3eaf7b..3b4f204 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -115,8 +115,9 @@ func (bc *baseConn) writePkt() {
 			record := !packet.ConnLayer(pkt)
 			err = bc.dowritePkt(pkt, record)
 			if err != nil {
-				// write to net Conn error, we should close the layer
-				return
+				// write to net Conn error, we should close the layer, and keep
+				// receiving in case of blocking handlePkt
+				bc.netconn.Close()
 			}
 		}
 	}
diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 440ce0e..e69701f 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -343,7 +343,7 @@ func (dg *dialogue) writePkt() {
 			if err != nil {
 				dg.log.Errorf("dialogue write down err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					err, dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
-				return
+				// keep receiving in case of blocking handlePkt
 			}
 		}
 	}
-- 
2.43.0


From 243e4558d04040d221e2f8df0580ca42c33670a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 18/57] fix: connect waits for the ack before sending and never
 on a finished conn

---
 conn/conn_client.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 84a4c4e..01b204c 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -2,6 +2,7 @@ package conn
 
 import (
 	"errors"
+	"io"
 	"net"
 	"sync"
 	"time"
@@ -199,8 +200,15 @@ func (cc *ClientConn) initFSM() {
 
 func (cc *ClientConn) connect() error {
 	pkt := cc.pf.NewConnPacket(cc.clientID, true, cc.heartbeat, cc.meta)
-	cc.writeInCh <- pkt
+	cc.connMtx.RLock()
+	if !cc.connOK {
+		cc.connMtx.RUnlock()
+		return io.EOF
+	}
+	// sync must set before the packet send down, in case of the ack coming first
 	sync := cc.shub.New(pkt.PacketID, synchub.WithTimeout(10*time.Second))
+	cc.writeInCh <- pkt
+	cc.connMtx.RUnlock()
 	event := <-sync.C()
 
 	if event.Error != nil {
@@ -399,15 +407,15 @@ func (cc *ClientConn) fini() {
 		cc.hbTick.Cancel()
 		cc.hbTick = nil
 	}
-	// collect shub
-	cc.shub.Close()
-	cc.shub = nil
 	// collect net.Conn
 	cc.netconn.Close()
 	cc.connMtx.Lock()
 	cc.connOK = false
 	close(cc.writeInCh)
 	cc.connMtx.Unlock()
+	// collect shub after no more syncs can be added
+	cc.shub.Close()
+	cc.shub = nil
 	for pkt := range cc.writeInCh {
 		if cc.failedCh != nil && !packet.ConnLayer(pkt) {
 			cc.failedCh <- pkt
-- 
2.43.0


From cb4755a887ed42d0c0a9b414c6cc095475f89c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 19/57] fix: fini and Close of the client conn do not race on
 the heartbeat tick

---
 conn/conn_client.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 01b204c..9695c12 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -403,16 +403,17 @@ func (cc *ClientConn) fini() {
 	}
 	cc.log.Debugf("client finishing, clientID: %d, remote: %s, meta: %s",
 		cc.clientID, remote, string(cc.meta))
-	if cc.hbTick != nil {
-		cc.hbTick.Cancel()
-		cc.hbTick = nil
-	}
 	// collect net.Conn
 	cc.netconn.Close()
 	cc.connMtx.Lock()
 	cc.connOK = false
 	close(cc.writeInCh)
+	hbTick := cc.hbTick
+	cc.hbTick = nil
 	cc.connMtx.Unlock()
+	if hbTick != nil {
+		hbTick.Cancel()
+	}
 	// collect shub after no more syncs can be added
 	cc.shub.Close()
 	cc.shub = nil
-- 
2.43.0


From 0e8d26e69a4946e37d574271fcfe5dbf30156793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 20/57] fix: fini of conn and dialogue does not deadlock with
 blocked writers

---
 conn/conn_base.go       | 15 +++++++++++++++
 conn/conn_client.go     |  7 ++-----
 conn/conn_server.go     |  7 ++-----
 multiplexer/dialogue.go | 18 +++++++++++++-----
 4 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 3b4f204..b595e5f 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -257,3 +257,18 @@ func (bc *baseConn) ClientID() uint64 {
 func (bc *baseConn) Close() {
 	bc.cn.Close()
 }
+
+// drainWriteIn keeps receiving from writeInCh until it's closed, writers hold the
+// read lock while blocking on a full writeInCh, or else the lock can never be got
+func (bc *baseConn) drainWriteIn() <-chan struct{} {
+	drained := make(chan struct{})
+	go func(writeInCh chan packet.Packet) {
+		defer close(drained)
+		for pkt := range writeInCh {
+			if bc.failedCh != nil && !packet.ConnLayer(pkt) {
+				bc.failedCh <- pkt
+			}
+		}
+	}(bc.writeInCh)
+	return drained
+}
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 9695c12..9de14ab 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -405,6 +405,7 @@ func (cc *ClientConn) fini() {
 		cc.clientID, remote, string(cc.meta))
 	// collect net.Conn
 	cc.netconn.Close()
+	drained := cc.drainWriteIn()
 	cc.connMtx.Lock()
 	cc.connOK = false
 	close(cc.writeInCh)
@@ -417,11 +418,7 @@ func (cc *ClientConn) fini() {
 	// collect shub after no more syncs can be added
 	cc.shub.Close()
 	cc.shub = nil
-	for pkt := range cc.writeInCh {
-		if cc.failedCh != nil && !packet.ConnLayer(pkt) {
-			cc.failedCh <- pkt
-		}
-	}
+	<-drained
 	// the outside should care about channel status
 	close(cc.readOutCh)
 
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 056ba1a..d2c79e7 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -435,16 +435,13 @@ func (sc *ServerConn) fini() {
 	// collect net.Conn
 	sc.netconn.Close()
 	// lock protect conn status and input resource
+	drained := sc.drainWriteIn()
 	sc.connMtx.Lock()
 	sc.connOK = false
 	close(sc.writeInCh)
 	sc.connMtx.Unlock()
 	// writeInCh must be cared since buffer might still has data
-	for pkt := range sc.writeInCh {
-		if sc.failedCh != nil && !packet.ConnLayer(pkt) {
-			sc.failedCh <- pkt
-		}
-	}
+	<-drained
 	// the outside should care about channel status
 	close(sc.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index e69701f..d7ec9a2 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -717,6 +717,18 @@ func (dg *dialogue) fini() {
 	dg.log.Debugf("dialogue finishing, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
 
+	// writers hold the read lock while blocking on a full writeInCh, keep draining
+	// it until it's closed, or else the lock can never be got
+	drained := make(chan struct{})
+	go func(writeInCh chan packet.Packet) {
+		defer close(drained)
+		for pkt := range writeInCh {
+			if dg.failedCh != nil && !packet.SessionLayer(pkt) {
+				dg.failedCh <- pkt
+			}
+		}
+	}(dg.writeInCh)
+
 	dg.mtx.Lock()
 	// TODO should we move dialogueOK=false to Close and CloseWait?
 	dg.dialogueOK = false
@@ -727,11 +739,7 @@ func (dg *dialogue) fini() {
 	dg.shub.Close()
 	dg.shub = nil
 
-	for pkt := range dg.writeInCh {
-		if dg.failedCh != nil && !packet.SessionLayer(pkt) {
-			dg.failedCh <- pkt
-		}
-	}
+	<-drained
 	// the outside should care about channel status
 	close(dg.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
-- 
2.43.0


From 731eca0152d510a36843eb2b01a75f75c9371590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 21/57] fix: closing a conn whose peer never answers still
 reclaims it

---
 conn/conn_base.go   | 4 ++++
 conn/conn_client.go | 2 ++
 conn/conn_server.go | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index b595e5f..1a58ea6 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"net"
 	"sync"
+	"time"
 
 	"github.com/jumboframes/armorigo/log"
 	"github.com/jumboframes/armorigo/synchub"
@@ -35,6 +36,9 @@ const (
 	ET_FINI      = "fini"
 )
 
+// the longest time to wait for the peer's answer of close
+const closeTimeout = 30 * time.Second
+
 type connOpts struct {
 	clientID uint64
 	// timer
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 9de14ab..11d909f 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -391,6 +391,8 @@ func (cc *ClientConn) Close() {
 		cc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
 			cc.clientID, cc.netconn.RemoteAddr(), string(cc.meta))
 
+		// in case of the peer never answers the close
+		cc.netconn.SetDeadline(time.Now().Add(closeTimeout))
 		pkt := cc.pf.NewDisConnPacket()
 		cc.writeInCh <- pkt
 	})
diff --git a/conn/conn_server.go b/conn/conn_server.go
index d2c79e7..b3f9128 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -406,6 +406,8 @@ func (sc *ServerConn) Close() {
 		sc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
 			sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
 
+		// in case of the peer never answers the close
+		sc.netconn.SetDeadline(time.Now().Add(closeTimeout))
 		pkt := sc.pf.NewDisConnPacket()
 		sc.writeInCh <- pkt
 	})
-- 
2.43.0


From 1c73742a01a6d08db587f258ff5fd0dec0c70764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 22/57] fix: answering a close does not block on the queue its
 handler drains

---
 conn/conn_base.go       |  9 ++++++---
 multiplexer/dialogue.go | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 1a58ea6..c9ed0cd 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -174,9 +174,12 @@ func (bc *baseConn) handleInDisConnPacket(pkt *packet.DisConnPacket) iodefine.IO
 		return iodefine.IOErr
 	}
 	retPkt := bc.pf.NewDisConnAckPacket(pkt.PacketID, nil)
-	bc.writeInCh <- retPkt
-	// send our side close while receiving close packet
-	bc.Close()
+	// we are the one who drains writeInCh, so it mustn't block here
+	go func() {
+		bc.Write(retPkt)
+		// send our side close while receiving close packet
+		bc.Close()
+	}()
 	return iodefine.IOSuccess
 }
 
diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index d7ec9a2..9e513f6 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -504,9 +504,18 @@ func (dg *dialogue) handleInDismissPacket(pkt *packet.DismissPacket) iodefine.IO
 	}
 	retPkt := dg.pf.NewDismissAckPacket(pkt.ID(),
 		pkt.SessionID(), nil)
-	dg.writeInCh <- retPkt
-	// send out side dismiss while receiving dismiss packet
-	dg.Close()
+	// we are the one who drains writeInCh, so it mustn't block here
+	go func() {
+		dg.mtx.RLock()
+		if !dg.dialogueOK {
+			dg.mtx.RUnlock()
+			return
+		}
+		dg.writeInCh <- retPkt
+		dg.mtx.RUnlock()
+		// send out side dismiss while receiving dismiss packet
+		dg.Close()
+	}()
 	return iodefine.IOSuccess
 }
 
-- 
2.43.0


From 64d1a8e14e09ba44f38d20ee2c382e6e67b82727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:33 +0000
Subject: [PATCH 23/57] fix: release the dialogue hub lock in the mode it was
 taken

---
 multiplexer/dialogue_hub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multiplexer/dialogue_hub.go b/multiplexer/dialogue_hub.go
index a764f98..7fb8f5b 100644
--- a/multiplexer/dialogue_hub.go
+++ b/multiplexer/dialogue_hub.go
@@ -306,7 +306,7 @@ func (dh *dialogueHub) Close() {
 			dg.CloseWait()
 		}(dg)
 	}
-	dh.mtx.RUnlock()
+	dh.mtx.Unlock()
 
 	wg.Wait()
 	close(dh.closeCh)
-- 
2.43.0


From 3e8d22aa9672efc61d572e358804dc63ce69c1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 24/57] fix: GetDialogue reads the dialogues under the lock

---
 multiplexer/dialogue_mgr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 3ae82e4..8c42045 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -343,7 +343,9 @@ func (dm *dialogueMgr) GetDialogue(clientID, dialogueID uint64) (Dialogue, error
 	if dm.cn.ClientID() != clientID {
 		return nil, errors.New("unfound clientID")
 	}
+	dm.mtx.RLock()
 	dialogue, ok := dm.dialogues[dialogueID]
+	dm.mtx.RUnlock()
 	if !ok {
 		return nil, errors.New("unfound dialgoueID")
 	}
-- 
2.43.0


From 5800bb4bd2a9f7408c857b7d6bf685d1c44a6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 25/57] fix: a known dialogue goes offline without error and
 not into a closed channel

---
 multiplexer/dialogue_mgr.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 8c42045..efdaeb1 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -226,6 +226,7 @@ func (dm *dialogueMgr) DialogueOffline(dg delegate.DialogueDescriber) error {
 	dm.mtx.Lock()
 	defer dm.mtx.Unlock()
 
+	err := error(nil)
 	_, ok := dm.dialogues[dialogueID]
 	if ok {
 		delete(dm.dialogues, dialogueID)
@@ -234,18 +235,19 @@ func (dm *dialogueMgr) DialogueOffline(dg delegate.DialogueDescriber) error {
 		}
 	} else {
 		dm.log.Warnf("dialogue offline, cliengID: %d, dialogueID: %d not found", clientID, dialogueID)
+		// unsucceed dialogue
+		err = ErrDialogueNotFound
 	}
 	// notify outside that a dialogue is closed
 	if dm.dialogueClosedFn != nil {
 		dm.dialogueClosedFn(dg.(*dialogue))
 
-	} else if dm.dialogueClosedCh != nil {
+	} else if dm.dialogueClosedCh != nil && dm.mgrOK {
 		// this must not be blocked, or else the whole system will stop
 		dm.dialogueClosedCh <- dg.(*dialogue)
 
 	}
-	// unsucceed dialogue
-	return ErrDialogueNotFound
+	return err
 }
 
 func (dm *dialogueMgr) getID() uint64 {
-- 
2.43.0


From f346c36dd2dc4ed09a97749207748af7cbac32a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 26/57] fix: a refused dialogue fails to open and an opened one
 keeps its meta

---
 multiplexer/dialogue.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 9e513f6..d1a1d7c 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -1,6 +1,7 @@
 package multiplexer
 
 import (
+	"errors"
 	"io"
 	"sync"
 	"time"
@@ -480,7 +481,11 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 		return iodefine.IOErr
 	}
 	dg.dialogueID = pkt.SessionID()
-	dg.meta = pkt.SessionData.Meta
+	if pkt.SessionData.Error != "" {
+		// peer refused the dialogue
+		dg.shub.Error(pkt.ID(), errors.New(pkt.SessionData.Error))
+		return iodefine.IOSuccess
+	}
 
 	// the packetID is assigned by SessionPacket, originally from function open,
 	// and open is waiting for the completion.
-- 
2.43.0


From cdc4224865ebe45f201928ca0c43ecc1d498b3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:43 +0000
Subject: [PATCH 27/57] fix: opening or closing a finished dialogue does not
 touch its released hub

---
 multiplexer/dialogue.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index d1a1d7c..1ab446d 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -301,14 +301,13 @@ func (dg *dialogue) open() error {
 
 	var pkt *packet.SessionPacket
 	pkt = dg.pf.NewSessionPacket(dg.negotiatingID, dg.dialogueIDPeersCall, dg.meta, dg.peer)
-	// sync must set before the packet send down, in case of the ack coming first
-	sync := dg.shub.Add(pkt.PacketID, synchub.WithTimeout(30*time.Second))
-
 	dg.mtx.RLock()
 	if !dg.dialogueOK {
 		dg.mtx.RUnlock()
 		return io.EOF
 	}
+	// sync must set before the packet send down, in case of the ack coming first
+	sync := dg.shub.Add(pkt.PacketID, synchub.WithTimeout(30*time.Second))
 	dg.writeInCh <- pkt
 	dg.mtx.RUnlock()
 
@@ -654,14 +653,13 @@ func (dg *dialogue) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
 func (dg *dialogue) Close() {
 	dg.closeOnce.Do(func() {
 		pkt := dg.pf.NewDismissPacket(dg.dialogueID)
-		// we need a tick in case of never receiving the dismiss ack packet
-		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
-
 		dg.mtx.RLock()
 		defer dg.mtx.RUnlock()
 		if !dg.dialogueOK {
 			return
 		}
+		// we need a tick in case of never receiving the dismiss ack packet
+		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
 		dg.log.Debugf("dialogue async close, clientID: %d, dialogueID: %d",
 			dg.cn.ClientID(), dg.dialogueID)
 
-- 
2.43.0


From 99dcd36cad342aa7df58bf2ef3bb25df32c724de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:46 +0000
Subject: [PATCH 28/57] fix: delivering to a finished dialogue neither blocks
 the manager nor panics

---
 multiplexer/dialogue.go     | 34 ++++++++++++++++++++++++----------
 multiplexer/dialogue_mgr.go |  9 ++++-----
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 1ab446d..338faf2 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -76,6 +76,8 @@ type dialogue struct {
 
 	closeOnce   *gsync.Once
 	closeIOOnce *gsync.Once
+	// closeIOCh tells handlePkt to quit, doneCh tells handlePkt has quit
+	closeIOCh, doneCh chan struct{}
 }
 
 type DialogueOption func(*dialogue)
@@ -145,6 +147,8 @@ func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogu
 		fsm:          yafsm.NewFSM(yafsm.WithInSeq()),
 		closeOnce:    new(gsync.Once),
 		closeIOOnce:  new(gsync.Once),
+		closeIOCh:    make(chan struct{}),
+		doneCh:       make(chan struct{}),
 		dialogueOK:   true,
 		readInSize:   32,
 		writeOutSize: 32,
@@ -315,11 +319,7 @@ func (dg *dialogue) open() error {
 	if event.Error != nil {
 		dg.log.Debugf("dialogue open err: %s, clientID: %d, dialogueID: %d",
 			event.Error, dg.cn.ClientID(), dg.dialogueID)
-		dg.mtx.Lock()
-		if dg.dialogueOK {
-			close(dg.readInCh)
-		}
-		dg.mtx.Unlock()
+		dg.closeIO()
 	}
 	return event.Error
 }
@@ -365,13 +365,17 @@ func (dg *dialogue) dowritePkt(pkt packet.Packet, record bool) error {
 func (dg *dialogue) handlePkt() {
 	readInCh := dg.readInCh
 	writeInCh := dg.writeInCh
+	closeIOCh := dg.closeIOCh
 
 	for {
+		if closeIOCh == nil && len(readInCh) == 0 {
+			// all delivered before closeIO are handled
+			goto FINI
+		}
 		select {
-		case pkt, ok := <-readInCh:
-			if !ok {
-				goto FINI
-			}
+		case <-closeIOCh:
+			closeIOCh = nil
+		case pkt := <-readInCh:
 			dg.log.Tracef("dialogue read in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
 			ret := dg.handleIn(pkt)
@@ -402,6 +406,7 @@ func (dg *dialogue) handlePkt() {
 		}
 	}
 FINI:
+	close(dg.doneCh)
 	dg.log.Debugf("dialogue handle pkt done, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
 
@@ -714,10 +719,19 @@ func (dg *dialogue) CloseWait() {
 
 func (dg *dialogue) closeIO() {
 	dg.closeIOOnce.Do(func() {
-		close(dg.readInCh)
+		close(dg.closeIOCh)
 	})
 }
 
+// deliver hands over a packet from the under layer, and drops it once the
+// dialogue has quit, otherwise nobody drains the readInCh
+func (dg *dialogue) deliver(pkt packet.Packet) {
+	select {
+	case dg.readInCh <- pkt:
+	case <-dg.doneCh:
+	}
+}
+
 func (dg *dialogue) closeWrapper(_ *yafsm.Event) {
 	dg.log.Infof("dialogue triggered close wrapper, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index efdaeb1..bdb96aa 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -391,22 +391,21 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		}
 		dm.mtx.Lock()
 		dm.negotiatingDialogues[negotiatingID] = dg
-		dg.readInCh <- pkt
 		dm.mtx.Unlock()
+		dg.deliver(pkt)
 
 	case *packet.SessionAckPacket:
 		dm.mtx.RLock()
 		dg, ok := dm.negotiatingDialogues[realPkt.NegotiateID()]
+		dm.mtx.RUnlock()
 		if !ok {
 			// TODO we must warn the dialogue initiator
 			dm.log.Errorf("clientID: %d, unable to find negotiatingID: %d",
 				dm.cn.ClientID(), realPkt.NegotiateID())
-			dm.mtx.RUnlock()
 			return
 		}
 		// TODO do we need handle the packet in time? before data or dismiss coming.
-		dg.readInCh <- pkt
-		dm.mtx.RUnlock()
+		dg.deliver(pkt)
 
 	default:
 		dgPkt, ok := pkt.(packet.SessionAbove)
@@ -430,8 +429,8 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		}
 		dm.log.Tracef("read to dialogue, clientID: %d, dialogueID: %d, packetID: %d, packetType %s",
 			dm.cn.ClientID(), dialogueID, pkt.ID(), pkt.Type().String())
-		dg.readInCh <- pkt
 		dm.mtx.RUnlock()
+		dg.deliver(pkt)
 	}
 }
 
-- 
2.43.0


From e8908596c53242f7dc2621e4b3086e20dbbe2ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 29/57] fix: OpenDialogue on a closing manager finishes the
 dialogue exactly once

---
 multiplexer/dialogue_mgr.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index bdb96aa..a325693 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -264,9 +264,9 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		dm.mtx.RUnlock()
 		return nil, ErrOperationOnClosedMultiplexer
 	}
+	negotiatingID := dm.dialogueIDs.GetID()
 	dm.mtx.RUnlock()
 
-	negotiatingID := dm.dialogueIDs.GetID()
 	dialogueIDPeersCall := dm.cn.Side() == geminio.InitiatorSide
 	dg, err := NewDialogue(dm.cn, dm.multiplexerOpts.opts,
 		OptionDialogueNegotiatingID(negotiatingID, dialogueIDPeersCall),
@@ -280,6 +280,11 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		return nil, err
 	}
 	dm.mtx.Lock()
+	if !dm.mgrOK {
+		dm.mtx.Unlock()
+		dg.closeIO()
+		return nil, ErrOperationOnClosedMultiplexer
+	}
 	dm.negotiatingDialogues[negotiatingID] = dg
 	dm.mtx.Unlock()
 	// Open take times, shouldn't be locked
@@ -297,7 +302,7 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		// delete(dm.dialogues, dg.dialogueID)
 		// !mgrOK only happens after dialogueMgr fini, so fini the dialogue
 		dm.mtx.Unlock()
-		dg.fini()
+		dg.closeIO()
 		return nil, ErrOperationOnClosedMultiplexer
 	}
 	// the logic on negotiatingDialogues is tricky, be care of it.
-- 
2.43.0


From c38fe0c3215fc564beb6bb11e6d47835eae793dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 30/57] fix: packets right after the session ack find the newly
 opened dialogue

---
 multiplexer/dialogue_mgr.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index a325693..2cca705 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -305,8 +305,7 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		dg.closeIO()
 		return nil, ErrOperationOnClosedMultiplexer
 	}
-	// the logic on negotiatingDialogues is tricky, be care of it.
-	dm.dialogues[dg.dialogueID] = dg
+	// the dialogue is already in dialogues since its ack came
 	dm.mtx.Unlock()
 	return dg, nil
 }
@@ -400,16 +399,19 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		dg.deliver(pkt)
 
 	case *packet.SessionAckPacket:
-		dm.mtx.RLock()
+		dm.mtx.Lock()
 		dg, ok := dm.negotiatingDialogues[realPkt.NegotiateID()]
-		dm.mtx.RUnlock()
+		if ok && realPkt.SessionData.Error == "" {
+			dm.dialogues[realPkt.SessionID()] = dg
+		}
+		dm.mtx.Unlock()
 		if !ok {
 			// TODO we must warn the dialogue initiator
 			dm.log.Errorf("clientID: %d, unable to find negotiatingID: %d",
 				dm.cn.ClientID(), realPkt.NegotiateID())
 			return
 		}
-		// TODO do we need handle the packet in time? before data or dismiss coming.
+		// data or dismiss may follow the ack at once, they must find the dialogue
 		dg.deliver(pkt)
 
 	default:
-- 
2.43.0


From 34ef702d961659f6861dc5fcd9ee6b5c09193a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 31/57] fix: online and offline callbacks run without the
 multiplexer lock

---
 multiplexer/dialogue_mgr.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 2cca705..c8f43b7 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -193,9 +193,8 @@ ERR:
 func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 	dm.log.Debugf("dialogue online, clientID: %d, add dialogueID: %d", dg.ClientID(), dg.DialogueID())
 	dm.mtx.Lock()
-	defer dm.mtx.Unlock()
-
 	if !dm.mgrOK {
+		dm.mtx.Unlock()
 		return ErrOperationOnClosedMultiplexer
 	}
 	// remove from the negotiating dialogues, and add to ready dialogues.
@@ -204,6 +203,8 @@ func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 		delete(dm.negotiatingDialogues, dg.NegotiatingID())
 	}
 	dm.dialogues[dg.DialogueID()] = dg.(*dialogue)
+	dm.mtx.Unlock()
+	// callbacks are free to use the multiplexer, so they mustn't be locked
 	if dm.dlgt != nil {
 		dm.dlgt.DialogueOnline(dg)
 	}
@@ -212,6 +213,11 @@ func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 		dm.dialogueAcceptFn(dg.(Dialogue))
 
 	} else if dm.dialogueAcceptCh != nil {
+		dm.mtx.RLock()
+		defer dm.mtx.RUnlock()
+		if !dm.mgrOK {
+			return ErrOperationOnClosedMultiplexer
+		}
 		// this must not be blocked, or else the whole system will stop
 		dm.dialogueAcceptCh <- dg.(*dialogue)
 	}
@@ -223,13 +229,13 @@ func (dm *dialogueMgr) DialogueOffline(dg delegate.DialogueDescriber) error {
 	dialogueID := dg.DialogueID()
 
 	dm.log.Debugf("dialogue offline, clientID: %d, del dialogueID: %d", clientID, dialogueID)
-	dm.mtx.Lock()
-	defer dm.mtx.Unlock()
-
 	err := error(nil)
+	dm.mtx.Lock()
 	_, ok := dm.dialogues[dialogueID]
+	delete(dm.dialogues, dialogueID)
+	dm.mtx.Unlock()
+	// callbacks are free to use the multiplexer, so they mustn't be locked
 	if ok {
-		delete(dm.dialogues, dialogueID)
 		if dm.dlgt != nil {
 			dm.dlgt.DialogueOffline(dg)
 		}
@@ -242,10 +248,14 @@ func (dm *dialogueMgr) DialogueOffline(dg delegate.DialogueDescriber) error {
 	if dm.dialogueClosedFn != nil {
 		dm.dialogueClosedFn(dg.(*dialogue))
 
-	} else if dm.dialogueClosedCh != nil && dm.mgrOK {
+	} else if dm.dialogueClosedCh != nil {
+		dm.mtx.RLock()
+		defer dm.mtx.RUnlock()
+		if !dm.mgrOK {
+			return err
+		}
 		// this must not be blocked, or else the whole system will stop
 		dm.dialogueClosedCh <- dg.(*dialogue)
-
 	}
 	return err
 }
-- 
2.43.0


From 9d0fb4a468527b2e939b7392abb58844680ae8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 32/57] fix: Register reports the error acked by the peer

---
 application/stream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/application/stream.go b/application/stream.go
index 3a2e4f5..c902c3a 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -428,6 +428,10 @@ func (sm *stream) handleInRegisterPacket(pkt *packet.RegisterPacket) iodefine.IO
 func (sm *stream) handleInRegisterAckPacket(pkt *packet.RegisterAckPacket) iodefine.IORet {
 	sm.log.Tracef("read register ack packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+	if pkt.RegisterData.Error != "" {
+		sm.shub.Error(pkt.ID(), errors.New(pkt.RegisterData.Error))
+		return iodefine.IOSuccess
+	}
 	sm.shub.Done(pkt.ID())
 	return iodefine.IOSuccess
 }
-- 
2.43.0


From d6c5791361a0eda229c3fbaad168a9a4dca01359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 33/57] fix: waiting for remote rpcs does not miss a
 registration in between

---
 application/end.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/application/end.go b/application/end.go
index fc2e94f..e7074aa 100644
--- a/application/end.go
+++ b/application/end.go
@@ -157,22 +157,19 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 	}
 	// wait for all remote RPCs registration
 	if end.opts.remoteMethods != nil && len(end.opts.remoteMethods) != 0 {
-		// check whether remote RPCs have been registered
-		tocheckMethods := []string{}
+		ifs := strings2interfaces(end.opts.remoteMethods...)
+		syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
+		// sync must set before the check, in case of the registration coming between
+		sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
 		for _, method := range end.opts.remoteMethods {
-			if !end.stream.hasRemoteRPC(method) {
-				tocheckMethods = append(tocheckMethods, method)
+			if end.stream.hasRemoteRPC(method) {
+				end.stream.shub.DoneSub(syncID, method)
 			}
 		}
-		if len(tocheckMethods) != 0 {
-			ifs := strings2interfaces(tocheckMethods...)
-			syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
-			sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
-			event := <-sync.C()
-			if event.Error != nil {
-				err = event.Error
-				goto ERR
-			}
+		event := <-sync.C()
+		if event.Error != nil {
+			err = event.Error
+			goto ERR
 		}
 	}
 	return end, nil
-- 
2.43.0


From 4e9fff936222b10716fd23635786a772ea3e2877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 34/57] fix: random id counters start even so that both sides
 never collide

---
 pkg/id/id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/id/id.go b/pkg/id/id.go
index 5367ba2..4e98839 100644
--- a/pkg/id/id.go
+++ b/pkg/id/id.go
@@ -102,6 +102,6 @@ func randomUint32() uint32 {
 	if err != nil {
 		return 0
 	}
-	b[0] |= 0x00 // a random even number
+	b[0] &= 0xfe // a random even number
 	return (uint32(b[0]) << 0) | (uint32(b[1]) << 8) | (uint32(b[2]) << 16) | (uint32(b[3]) << 24)
 }
-- 
2.43.0


From f758573b8b8b87780225059369273e5849d90bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 35/57] fix: streams opened before the server end is ready do
 not panic

---
 server/end.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/server/end.go b/server/end.go
index 36e1357..f40116c 100644
--- a/server/end.go
+++ b/server/end.go
@@ -44,6 +44,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		mpOpts   []multiplexer.MultiplexerOption
 		acceptfn func(multiplexer.Dialogue)
 		closedfn func(multiplexer.Dialogue)
+		ready    = make(chan struct{})
 		// application
 		ep     geminio.End
 		epOpts []application.EndOption
@@ -68,12 +69,19 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	// multiplexer and application
 	if eo.AcceptStreamFunc != nil {
 		acceptfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).AcceptDialogue(dg)
+			// peer may open a stream before the end is ready
+			<-ready
+			if err == nil {
+				ep.(*application.End).AcceptDialogue(dg)
+			}
 		}
 	}
 	if eo.ClosedStreamFunc != nil {
 		closedfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).ClosedDialogue(dg)
+			<-ready
+			if err == nil {
+				ep.(*application.End).ClosedDialogue(dg)
+			}
 		}
 	}
 	// multiplexer
@@ -115,6 +123,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		epOpts = append(epOpts, application.OptionWithRemoteRPCCheck())
 	}
 	ep, err = application.NewEnd(cn, mp, epOpts...)
+	close(ready)
 	if err != nil {
 		goto ERR
 	}
-- 
2.43.0


From 2a2109b5909f4b83f41abb7c0af78a0b64498f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 36/57] fix: a failed end releases its connection

---
 client/end.go | 2 ++
 server/end.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/client/end.go b/client/end.go
index ec8d17e..e1e18d8 100644
--- a/client/end.go
+++ b/client/end.go
@@ -92,6 +92,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	}
 	mp, err = multiplexer.NewDialogueMgr(cn, mpOpts...)
 	if err != nil {
+		cn.Close()
 		goto ERR
 	}
 	// application
@@ -108,6 +109,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	}
 	ep, err = application.NewEnd(cn, mp, epOpts...)
 	if err != nil {
+		cn.Close()
 		goto ERR
 	}
 	// client
diff --git a/server/end.go b/server/end.go
index f40116c..68c83b2 100644
--- a/server/end.go
+++ b/server/end.go
@@ -102,6 +102,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	}
 	mp, err = multiplexer.NewDialogueMgr(cn, mpOpts...)
 	if err != nil {
+		cn.Close()
 		goto ERR
 	}
 	// application
@@ -125,6 +126,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	ep, err = application.NewEnd(cn, mp, epOpts...)
 	close(ready)
 	if err != nil {
+		cn.Close()
 		goto ERR
 	}
 	se.End = ep
-- 
2.43.0


From d4b48e04f2e2cd24302ae9441a4a5aa6951a0c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 37/57] fix: reinit neither deadlocks on itself nor leaves an
 end behind Close

---
 client/end_retry.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 87364a1..0926f18 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -109,6 +109,11 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 		return err
 	}
 	atomic.StorePointer(&re.end, unsafe.Pointer(new))
+	if atomic.LoadInt32(re.ok) == 0 {
+		// closed while reiniting, nobody else knows the new end
+		new.Close()
+		return io.EOF
+	}
 	// TODO optimize rests
 	time.Sleep(1 * time.Second)
 
@@ -123,7 +128,7 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 	re.rpcMtx.RLock()
 	for method, rpc := range re.rpcs {
 		// TODO inconsistency for the context
-		err = re.register(context.TODO(), method, rpc, false)
+		err = new.Register(context.TODO(), method, rpc)
 		if err != nil {
 			re.rpcMtx.RUnlock()
 			return err
@@ -365,7 +370,7 @@ func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC
 				return ierr
 			}
 			// retry succeed, recursive the register
-			return re.register(ctx, method, rpc, true)
+			return re.register(ctx, method, rpc, memorize)
 		}
 		return rerr
 	}
-- 
2.43.0


From 27c3d6a460daf9f4a6a9118bcc27a41e61a22357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 38/57] fix: guard the memorized hijack by the rpc lock

---
 client/end_retry.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 0926f18..e71d0d0 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -118,8 +118,11 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 	time.Sleep(1 * time.Second)
 
 	// hijack
-	if re.hijackRPC != nil {
-		err = new.Hijack(re.hijackRPC, re.hijackRPCOpts)
+	re.rpcMtx.RLock()
+	hijackRPC, hijackRPCOpts := re.hijackRPC, re.hijackRPCOpts
+	re.rpcMtx.RUnlock()
+	if hijackRPC != nil {
+		err = new.Hijack(hijackRPC, hijackRPCOpts)
 		if err != nil {
 			return err
 		}
@@ -409,8 +412,10 @@ func (re *RetryEnd) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions
 		return herr
 	}
 	// memorize the hijack
+	re.rpcMtx.Lock()
 	re.hijackRPC = rpc
 	re.hijackRPCOpts = options.MergeHijackOptions(opts...)
+	re.rpcMtx.Unlock()
 	return nil
 }
 
-- 
2.43.0


From de3e88bef2e44a7bbf3657b920e4b205fecc17d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 39/57] fix: merging end options keeps the remote method check

---
 client/end_options.go | 4 +++-
 server/end_options.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/end_options.go b/client/end_options.go
index 0653972..a34b4c0 100644
--- a/client/end_options.go
+++ b/client/end_options.go
@@ -88,7 +88,9 @@ func MergeEndOptions(opts ...*EndOptions) *EndOptions {
 		if opt == nil {
 			continue
 		}
-		eo.RemoteMethodCheck = opt.RemoteMethodCheck
+		if opt.RemoteMethodCheck {
+			eo.RemoteMethodCheck = true
+		}
 		if opt.Timer != nil {
 			eo.Timer = opt.Timer
 			eo.TimerOwner = opt.TimerOwner
diff --git a/server/end_options.go b/server/end_options.go
index 6b6be1a..11fcd04 100644
--- a/server/end_options.go
+++ b/server/end_options.go
@@ -87,7 +87,9 @@ func MergeEndOptions(opts ...*EndOptions) *EndOptions {
 		if opt == nil {
 			continue
 		}
-		eo.RemoteMethodCheck = opt.RemoteMethodCheck
+		if opt.RemoteMethodCheck {
+			eo.RemoteMethodCheck = true
+		}
 		if opt.Timer != nil {
 			eo.Timer = opt.Timer
 			eo.TimerOwner = opt.TimerOwner
-- 
2.43.0


From c33d14584414e8eccb85b87ac83d25c5af7cac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 40/57] fix: the server is connected only after its conn ack is
 queued

---
 conn/conn_server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conn/conn_server.go b/conn/conn_server.go
index b3f9128..1cf947e 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -323,10 +323,10 @@ func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 			return iodefine.IOSuccess
 		}
 	}
-	// the first packet received.
-	sc.shub.Ack(sc.getSyncID(), nil)
 	retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, nil)
 	sc.writeInCh <- retPkt
+	// the first packet received, and nothing of the upper layer overtakes the ack
+	sc.shub.Ack(sc.getSyncID(), nil)
 
 	// set the heartbeat
 	sc.heartbeat = pkt.Heartbeat
-- 
2.43.0


From c98cfce971c86d49cba7108667e217bf84dd2760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 41/57] fix: concurrent closes of the multiplexer close its
 channel once

---
 multiplexer/dialogue_mgr.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index c8f43b7..1b0937c 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -51,7 +51,8 @@ type dialogueMgr struct {
 	cn conn.Conn
 
 	// close channel
-	closeCh chan struct{}
+	closeCh   chan struct{}
+	closeOnce sync.Once
 
 	// dialogues
 	dialogueIDs     id.IDFactory // set nil in client
@@ -478,7 +479,7 @@ func (dm *dialogueMgr) Close() {
 	dm.mtx.RUnlock()
 
 	wg.Wait()
-	close(dm.closeCh)
+	dm.closeOnce.Do(func() { close(dm.closeCh) })
 	dm.log.Debugf("dialogue manager closed, clientID: %d", dm.cn.ClientID())
 	return
 }
-- 
2.43.0


From 32d6690814363d8f0b2a7e48fa6db0f3b5a83baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 42/57] fix: delivering an accepted or closed stream doesn't
 hold the multiplexer lock

---
 multiplexer/dialogue_mgr.go | 56 +++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 1b0937c..ad666b3 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -53,6 +53,8 @@ type dialogueMgr struct {
 	// close channel
 	closeCh   chan struct{}
 	closeOnce sync.Once
+	// closed after the manager finished
+	doneCh chan struct{}
 
 	// dialogues
 	dialogueIDs     id.IDFactory // set nil in client
@@ -143,6 +145,7 @@ func NewDialogueMgr(cn conn.Conn, mpopts ...MultiplexerOption) (Multiplexer, err
 		dialogues:            make(map[uint64]*dialogue),
 		negotiatingDialogues: make(map[uint64]*dialogue),
 		closeCh:              make(chan struct{}),
+		doneCh:               make(chan struct{}),
 	}
 	// dialogue id counter
 	if dm.cn.Side() == geminio.RecipientSide {
@@ -214,13 +217,12 @@ func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 		dm.dialogueAcceptFn(dg.(Dialogue))
 
 	} else if dm.dialogueAcceptCh != nil {
-		dm.mtx.RLock()
-		defer dm.mtx.RUnlock()
-		if !dm.mgrOK {
+		// this must not be blocked, or else the whole system will stop
+		select {
+		case dm.dialogueAcceptCh <- dg.(*dialogue):
+		case <-dm.doneCh:
 			return ErrOperationOnClosedMultiplexer
 		}
-		// this must not be blocked, or else the whole system will stop
-		dm.dialogueAcceptCh <- dg.(*dialogue)
 	}
 	return nil
 }
@@ -250,13 +252,11 @@ func (dm *dialogueMgr) DialogueOffline(dg delegate.DialogueDescriber) error {
 		dm.dialogueClosedFn(dg.(*dialogue))
 
 	} else if dm.dialogueClosedCh != nil {
-		dm.mtx.RLock()
-		defer dm.mtx.RUnlock()
-		if !dm.mgrOK {
-			return err
-		}
 		// this must not be blocked, or else the whole system will stop
-		dm.dialogueClosedCh <- dg.(*dialogue)
+		select {
+		case dm.dialogueClosedCh <- dg.(*dialogue):
+		case <-dm.doneCh:
+		}
 	}
 	return err
 }
@@ -326,11 +326,7 @@ func (dm *dialogueMgr) AcceptDialogue() (Dialogue, error) {
 	if dm.dialogueAcceptCh == nil {
 		return nil, ErrAcceptChNotEnabled
 	}
-	dg, ok := <-dm.dialogueAcceptCh
-	if !ok {
-		return nil, io.EOF
-	}
-	return dg, nil
+	return dm.waitDialogue(dm.dialogueAcceptCh)
 }
 
 // ClosedDialogue blocks until success or end
@@ -338,11 +334,23 @@ func (dm *dialogueMgr) ClosedDialogue() (Dialogue, error) {
 	if dm.dialogueClosedCh == nil {
 		return nil, ErrClosedChNotEnabled
 	}
-	dg, ok := <-dm.dialogueClosedCh
-	if !ok {
+	return dm.waitDialogue(dm.dialogueClosedCh)
+}
+
+// waitDialogue blocks until a dialogue came or the manager finished
+func (dm *dialogueMgr) waitDialogue(ch chan *dialogue) (Dialogue, error) {
+	select {
+	case dg := <-ch:
+		return dg, nil
+	case <-dm.doneCh:
+	}
+	// the ones came before the end
+	select {
+	case dg := <-ch:
+		return dg, nil
+	default:
 		return nil, io.EOF
 	}
-	return dg, nil
 }
 
 func (dm *dialogueMgr) ListDialogues() []Dialogue {
@@ -507,14 +515,8 @@ func (dm *dialogueMgr) fini() {
 	// collect id
 	dm.dialogueIDs.Close()
 	dm.dialogueIDs = nil
-	// collect channels
-	if !dm.dialogueAcceptChOutside && dm.dialogueAcceptCh != nil {
-		close(dm.dialogueAcceptCh)
-	}
-	if !dm.dialogueClosedChOutside && dm.dialogueClosedCh != nil {
-		close(dm.dialogueClosedCh)
-	}
-	// dm.dialogueAcceptCh, dm.dialogueClosedCh = nil, nil
+	// release the ones waiting for or delivering a dialogue
+	close(dm.doneCh)
 	// collect timer
 	if dm.tmrOwner == dm {
 		dm.tmr.Close()
-- 
2.43.0


From b6489c95454755feaff75af0519c3256380620c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 43/57] fix: closing an id counter takes its lock

---
 pkg/id/id.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/id/id.go b/pkg/id/id.go
index 4e98839..f8c9ad9 100644
--- a/pkg/id/id.go
+++ b/pkg/id/id.go
@@ -93,6 +93,8 @@ func (idCounter *IDCounter) DelID(i uint64) {
 }
 
 func (idCounter *IDCounter) Close() {
+	idCounter.mtx.Lock()
+	defer idCounter.mtx.Unlock()
 	idCounter.ids = nil
 }
 
-- 
2.43.0


From 1a398db5b4c817a953542e8c3aa1f8ebc3afc314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 44/57] fix: re-registering doesn't hold the rpc lock

---
 client/end_retry.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index e71d0d0..2b9227c 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -127,17 +127,20 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 			return err
 		}
 	}
-	// register legacy functions
+	// register legacy functions, it waits for the peer so it mustn't be locked
 	re.rpcMtx.RLock()
+	rpcs := make(map[string]geminio.RPC, len(re.rpcs))
 	for method, rpc := range re.rpcs {
+		rpcs[method] = rpc
+	}
+	re.rpcMtx.RUnlock()
+	for method, rpc := range rpcs {
 		// TODO inconsistency for the context
 		err = new.Register(context.TODO(), method, rpc)
 		if err != nil {
-			re.rpcMtx.RUnlock()
 			return err
 		}
 	}
-	re.rpcMtx.RUnlock()
 
 	// after retry the end succeed, after hijack and register legacy functions,
 	// the brand new end online
-- 
2.43.0


From 83ed9aff4073daca6a3b4bd264227458368c5a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 45/57] fix: the addresses of a retrying end are read from the
 atomically loaded end

---
 client/end_retry.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 2b9227c..37a372a 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -590,18 +590,18 @@ func (re *RetryEnd) Addr() net.Addr {
 }
 
 func (re *RetryEnd) LocalAddr() net.Addr {
-	if re.end == nil {
+	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
+	if cur == nil {
 		return nil
 	}
-	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 	return cur.LocalAddr()
 }
 
 func (re *RetryEnd) RemoteAddr() net.Addr {
-	if re.end == nil {
+	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
+	if cur == nil {
 		return nil
 	}
-	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 	return cur.RemoteAddr()
 }
 
-- 
2.43.0


From 150f56f12350c55c95c1ef5aa2caf8432b37e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 46/57] fix: size the queues of every stream as the buffer size
 options say

---
 multiplexer/dialogue_mgr.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index ad666b3..4a99963 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -285,7 +285,8 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		OptionDialogueLogger(dm.log),
 		OptionDialoguePacketFactory(dm.pf),
 		OptionDialogueMeta(meta),
-		OptionDialoguePeer(peer))
+		OptionDialoguePeer(peer),
+		OptionDialogueBufferSize(dm.readBufferSize, dm.writeBufferSize))
 	if err != nil {
 		dm.log.Errorf("new dialogue err: %s, clientID: %d", err, dm.cn.ClientID())
 		return nil, err
@@ -407,7 +408,8 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 			OptionDialogueLogger(dm.log),
 			OptionDialoguePacketFactory(dm.pf),
 			OptionDialogueMeta(realPkt.SessionData.Meta),
-			OptionDialoguePeer(realPkt.SessionData.Peer))
+			OptionDialoguePeer(realPkt.SessionData.Peer),
+			OptionDialogueBufferSize(dm.readBufferSize, dm.writeBufferSize))
 		if err != nil {
 			dm.log.Errorf("new dialogue err: %s, clientID: %d", err, dm.cn.ClientID())
 			return
-- 
2.43.0


From 72c33c5b879e2798d04e351cfc6d6ebeac3503f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 47/57] fix: report a connection offline whenever it was
 reported online

---
 conn/conn_server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conn/conn_server.go b/conn/conn_server.go
index 1cf947e..199acc1 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -323,6 +323,8 @@ func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 			return iodefine.IOSuccess
 		}
 	}
+	// from now on the end of the conn must be notified, even if it comes before the ack is out
+	sc.onlined = true
 	retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, nil)
 	sc.writeInCh <- retPkt
 	// the first packet received, and nothing of the upper layer overtakes the ack
@@ -379,7 +381,6 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 			return iodefine.IOErr
 		}
 		sc.writeOutCh <- pkt
-		// this situation shouldn't be seen as connected, so don't set onlined.
 		return iodefine.IOSuccess
 	}
 	err := sc.fsm.EmitEvent(ET_CONNACK)
@@ -391,7 +392,6 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 	sc.writeOutCh <- pkt
 	sc.log.Debugf("send conn ack succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
-	sc.onlined = true
 	return iodefine.IOSuccess
 }
 
-- 
2.43.0


From 3a0240196d6c41ac717f75c7f30c202bb8a180d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 48/57] fix: a session acknowledgement is no session request to
 the state machine

---
 multiplexer/dialogue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 338faf2..7a45377 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -30,7 +30,7 @@ const (
 
 	ET_SESSIONSENT = "sessionsent"
 	ET_SESSIONRECV = "sessionrecv"
-	ET_SESSIONACK  = "sessionrecv"
+	ET_SESSIONACK  = "sessionack"
 	ET_ERROR       = "error"
 	ET_DISMISSSENT = "dismisssent"
 	ET_DISMISSRECV = "dismissrecv"
-- 
2.43.0


From d88b8acb45a2dbccda24e4e33bd8aa560b4096cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 49/57] fix: a stream that ends at once isn't left in the
 streams of its end

---
 application/end.go    | 4 ----
 application/stream.go | 2 ++
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/application/end.go b/application/end.go
index e7074aa..c73e1dd 100644
--- a/application/end.go
+++ b/application/end.go
@@ -143,7 +143,6 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 		goto ERR
 	}
 	end.stream = newStream(end, cn, dg, end.opts)
-	end.streams.Store(dg.DialogueID(), end.stream)
 
 	// RPCs
 	// pre register local RPCs
@@ -193,7 +192,6 @@ func (end *End) OpenStream(opts ...*options.OpenStreamOptions) (
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	return sm, nil
 }
 
@@ -207,7 +205,6 @@ func (end *End) AcceptStream() (geminio.Stream, error) {
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	return sm, nil
 }
 
@@ -251,7 +248,6 @@ func (end *End) fini() {
 // TODO optimize
 func (end *End) AcceptDialogue(dg multiplexer.Dialogue) {
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	if sm.acceptStreamFunc != nil {
 		sm.acceptStreamFunc(sm)
 	}
diff --git a/application/stream.go b/application/stream.go
index c902c3a..1045317 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -109,6 +109,8 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		dlWriteChList:     list.New(),
 		writeInCh:         make(chan packet.Packet, 32),
 	}
+	// the end must know the stream before it may finish and be deleted again
+	end.streams.Store(dg.DialogueID(), sm)
 	go sm.handlePkt()
 	go sm.readPkt()
 	return sm
-- 
2.43.0


From 954053153c5d4578b7d10edabca51baccc53a42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 50/57] fix: streams are reported offline when the connection
 is lost

---
 multiplexer/dialogue_mgr.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 4a99963..492f470 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -504,9 +504,12 @@ func (dm *dialogueMgr) fini() {
 	dm.mgrOK = false
 	// collect all dialogues
 	for id, dg := range dm.dialogues {
-		// cause the dialogue io err
+		// cause the dialogue io err, it leaves dialogues when it's reported offline
 		dg.closeIO()
-		delete(dm.dialogues, id)
+		if dg == dm.defaultDialogue {
+			// which is never reported
+			delete(dm.dialogues, id)
+		}
 	}
 	for id, dg := range dm.negotiatingDialogues {
 		// cause the dialogue io err
-- 
2.43.0


From 1a2f470a2fc8e079891f85053d8685fbbca7bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:56 +0000
Subject: [PATCH 51/57] fix: a deadline that was notified slightly early or
 late isn't missed or mixed up

---
 application/raw.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/application/raw.go b/application/raw.go
index 5fbd3d3..8fc3956 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -10,11 +10,6 @@ import (
 	"github.com/jumboframes/armorigo/synchub"
 )
 
-const (
-	deadlineReadSyncKey  = "geminio:read_deadline"
-	deadlineWriteSyncKey = "geminio:write_deadline"
-)
-
 // geminio.Raw
 func (sm *stream) Read(b []byte) (int, error) {
 	// a closed stream still delivers what it has received before EOF
@@ -177,17 +172,26 @@ func (sm *stream) setReadDeadline(t time.Time) error {
 	}
 	duration := t.Sub(time.Now())
 	if duration > 0 {
-		sm.dlReadSync = sm.shub.Add(deadlineReadSyncKey,
+		var sync synchub.Sync
+		// the key is never used again, a late timer mustn't end the next deadline
+		sync = sm.shub.Add(&t,
 			synchub.WithTimeout(duration),
 			synchub.WithCallback(func(event *synchub.Event) {
 				if event.Error != synchub.ErrSyncTimeout {
 					return
 				}
-				// deadline exceeds
 				sm.dlMtx.Lock()
 				defer sm.dlMtx.Unlock()
+				if sm.dlReadSync != sync {
+					// replaced by another deadline
+					return
+				}
+				// deadline exceeds, the timer may be slightly early, but the
+				// following ones have nobody else to notify them
+				sm.dlRead = time.Now()
 				notifyDeadline(sm.dlReadChList)
 			}))
+		sm.dlReadSync = sync
 	} else if !t.IsZero() {
 		// the deadline already exceeds, the pending ones must be notified too
 		notifyDeadline(sm.dlReadChList)
@@ -214,17 +218,26 @@ func (sm *stream) setWriteDeadline(t time.Time) error {
 	}
 	duration := t.Sub(time.Now())
 	if duration > 0 {
-		sm.dlWriteSync = sm.shub.Add(deadlineWriteSyncKey,
+		var sync synchub.Sync
+		// the key is never used again, a late timer mustn't end the next deadline
+		sync = sm.shub.Add(&t,
 			synchub.WithTimeout(duration),
 			synchub.WithCallback(func(event *synchub.Event) {
 				if event.Error != synchub.ErrSyncTimeout {
 					return
 				}
-				// deadline exceeds
 				sm.dlMtx.Lock()
 				defer sm.dlMtx.Unlock()
+				if sm.dlWriteSync != sync {
+					// replaced by another deadline
+					return
+				}
+				// deadline exceeds, the timer may be slightly early, but the
+				// following ones have nobody else to notify them
+				sm.dlWrite = time.Now()
 				notifyDeadline(sm.dlWriteChList)
 			}))
+		sm.dlWriteSync = sync
 	} else if !t.IsZero() {
 		// the deadline already exceeds, the pending ones must be notified too
 		notifyDeadline(sm.dlWriteChList)
@@ -248,7 +261,7 @@ func (sm *stream) writeDeadlineExceeded() bool {
 }
 
 func deadlineExceeded(t time.Time) bool {
-	return !t.IsZero() && time.Now().After(t)
+	return !t.IsZero() && !time.Now().Before(t)
 }
 
 // notifyDeadline notifies all waiting Read/Write, dlMtx must be held
-- 
2.43.0


From 9efd5a5516f0829447b531cc706893f0068b02b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 52/57] fix: a retrying end closed while it reconnects doesn't
 keep the new connection

---
 client/end_retry.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 37a372a..fd53f0c 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -574,9 +574,9 @@ func (re *RetryEnd) Write(b []byte) (int, error) {
 func (re *RetryEnd) Close() error {
 	var err error
 	re.onceClose.Do(func() {
-		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
-		// set re.ok false, no more reconnect
+		// set re.ok false, no more reconnect, before looking for the end to close
 		atomic.StoreInt32(re.ok, 0)
+		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 		err = cur.Close()
 		if re.opts.TimerOwner == re {
 			re.opts.Timer.Close()
-- 
2.43.0


From 4f142e40d08c888c0df8f82da9f8b0bbffddac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:56 +0000
Subject: [PATCH 53/57] fix: a lost connection is retried whatever the delegate
 says about the offline

---
 client/end_retry.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index fd53f0c..fad2bb4 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -160,13 +160,11 @@ func (re *RetryEnd) ConnOnline(conn delegate.ConnDescriber) error {
 }
 
 func (re *RetryEnd) ConnOffline(conn delegate.ConnDescriber) error {
+	var err error
 	delegate := re.opts.delegate
 	if delegate != nil {
 		// The offline is just a notification, we're still keep on trying reconnct
-		err := delegate.ConnOffline(conn)
-		if err != nil {
-			return err
-		}
+		err = delegate.ConnOffline(conn)
 	}
 	fn := func() {
 		for atomic.LoadInt32(re.ok) == 1 {
@@ -182,7 +180,7 @@ func (re *RetryEnd) ConnOffline(conn delegate.ConnDescriber) error {
 	}
 	// in case of blocking the function
 	go fn()
-	return nil
+	return err
 }
 
 func (re *RetryEnd) DialogueOnline(dialogue delegate.DialogueDescriber) error {
-- 
2.43.0


From 1110f0619ed4185ed5d222247771da5d6d7d7777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 54/57] fix: the late end of a replaced connection doesn't
 reconnect a retrying end again

---
 client/end.go       |  3 +++
 client/end_retry.go | 34 +++++++++++++++++++++++++---------
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/client/end.go b/client/end.go
index e1e18d8..6cc7b2e 100644
--- a/client/end.go
+++ b/client/end.go
@@ -15,6 +15,8 @@ type Dialer func() (net.Conn, error)
 type clientEnd struct {
 	// we need the opts to hold resources to close
 	opts *EndOptions
+	// the connection the end is based on
+	cn conn.Conn
 	geminio.End
 }
 
@@ -113,6 +115,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		goto ERR
 	}
 	// client
+	ce.cn = cn
 	ce.End = ep
 	return ce, nil
 ERR:
diff --git a/client/end_retry.go b/client/end_retry.go
index fad2bb4..7ad5206 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -58,18 +58,26 @@ func NewRetryEndWithDialer(dialer Dialer, opts ...*EndOptions) (geminio.End, err
 	// replace outside delegate to ours
 	re.opts.delegate = re.opts.Delegate
 	re.opts.Delegate = re
-	end, err := re.getEnd()
-	if err != nil {
-		goto ERR
+	if err := re.init(); err != nil {
+		atomic.StoreInt32(re.ok, 0)
+		if eo.TimerOwner == re {
+			eo.Timer.Close()
+		}
+		return nil, err
 	}
-	re.end = unsafe.Pointer(end)
 	return re, nil
-ERR:
-	atomic.StoreInt32(re.ok, 0)
-	if eo.TimerOwner == re {
-		eo.Timer.Close()
+}
+
+func (re *RetryEnd) init() error {
+	re.retry.Lock()
+	defer re.retry.Unlock()
+
+	end, err := re.getEnd()
+	if err != nil {
+		return err
 	}
-	return nil, err
+	atomic.StorePointer(&re.end, unsafe.Pointer(end))
+	return nil
 }
 
 func (re *RetryEnd) getEnd() (*clientEnd, error) {
@@ -167,6 +175,14 @@ func (re *RetryEnd) ConnOffline(conn delegate.ConnDescriber) error {
 		err = delegate.ConnOffline(conn)
 	}
 	fn := func() {
+		// wait for whom is initing, the end must be the one with this conn,
+		// or else it's been replaced already
+		re.retry.Lock()
+		end := (*clientEnd)(atomic.LoadPointer(&re.end))
+		re.retry.Unlock()
+		if end == nil || end.cn != conn {
+			return
+		}
 		for atomic.LoadInt32(re.ok) == 1 {
 			end := (*clientEnd)(atomic.LoadPointer(&re.end))
 			err := re.reinit(end)
-- 
2.43.0


From 0bff80cb0f2410b73541a2fe580ec08350c73b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:17 +0000
Subject: [PATCH 55/57] fix: dialogues and ends made without a packet factory
 take identifiers of their side

---
 application/end.go      | 6 +++++-
 multiplexer/dialogue.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/application/end.go b/application/end.go
index c73e1dd..cafb746 100644
--- a/application/end.go
+++ b/application/end.go
@@ -124,7 +124,11 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 	}
 	// if packet factory was't set, then new a packet factory
 	if end.pf == nil {
-		end.pf = packet.NewPacketFactory(id.NewIDCounter(id.Odd))
+		mode := id.Odd
+		if cn.Side() == geminio.RecipientSide {
+			mode = id.Even
+		}
+		end.pf = packet.NewPacketFactory(id.NewIDCounter(mode))
 	}
 	// if timer was't set, then new a timer
 	if end.tmr == nil {
diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 7a45377..4cf2432 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -170,7 +170,11 @@ func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogu
 	dg.shub = synchub.NewSyncHub(synchub.OptionTimer(dg.tmr))
 	// packet factory
 	if dg.pf == nil {
-		dg.pf = packet.NewPacketFactory(id.NewIDCounter(id.Even))
+		mode := id.Odd
+		if cn.Side() == geminio.RecipientSide {
+			mode = id.Even
+		}
+		dg.pf = packet.NewPacketFactory(id.NewIDCounter(mode))
 	}
 	// log
 	if dg.log == nil {
-- 
2.43.0


From 9c6872fbccf93b82ea64f0ba48d0a776e23fdb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:41 +0000
Subject: [PATCH 56/57] fix: a connection that ended leaves no reader blocked
 on the queue of received packets

---
 conn/conn_base.go   | 9 +++++++++
 conn/conn_client.go | 1 +
 conn/conn_server.go | 1 +
 3 files changed, 11 insertions(+)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index c9ed0cd..567c9b5 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -279,3 +279,12 @@ func (bc *baseConn) drainWriteIn() <-chan struct{} {
 	}(bc.writeInCh)
 	return drained
 }
+
+// drainReadIn keeps receiving from readInCh until it's closed by readPkt, or else
+// readPkt blocking on a full readInCh never ends after handlePkt quit
+func (bc *baseConn) drainReadIn() {
+	go func(readInCh chan packet.Packet) {
+		for range readInCh {
+		}
+	}(bc.readInCh)
+}
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 11d909f..0b6efdc 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -407,6 +407,7 @@ func (cc *ClientConn) fini() {
 		cc.clientID, remote, string(cc.meta))
 	// collect net.Conn
 	cc.netconn.Close()
+	cc.drainReadIn()
 	drained := cc.drainWriteIn()
 	cc.connMtx.Lock()
 	cc.connOK = false
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 199acc1..4eb4bbf 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -436,6 +436,7 @@ func (sc *ServerConn) fini() {
 	sc.shub = nil
 	// collect net.Conn
 	sc.netconn.Close()
+	sc.drainReadIn()
 	// lock protect conn status and input resource
 	drained := sc.drainWriteIn()
 	sc.connMtx.Lock()
-- 
2.43.0


From 8c823798c59dbf8a410c240748bad437af20e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:52 +0000
Subject: [PATCH 57/57] fix: a client connection whose option fails closes the
 network connection

---
 conn/conn_client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 0b6efdc..b71126f 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -123,6 +123,8 @@ func newClientConn(netconn net.Conn, opts ...ClientConnOption) (*ClientConn, err
 	for _, opt := range opts {
 		err = opt(cc)
 		if err != nil {
+			// nothing is started yet to finish the connection
+			netconn.Close()
 			return nil, err
 		}
 	}
-- 
2.43.0

