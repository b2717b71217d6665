From 440e1e23c924289ba31394f94c2f203a15d2751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:49 +0000
Subject: [PATCH 01/27] fix: read fixed-size fields of a message completely

A Read may return fewer bytes than asked for; use io.ReadFull so that the
decoded value does not depend on how TCP segments the stream.
---
 pkg/binary/unmarshaler.go | 2 +-
 pkg/protocol/msg.go       | 4 ++--
 pkg/protocol/netaddr.go   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index 5eac02c..f2c8e20 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -152,7 +152,7 @@ func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
 }
 
 func (d Decoder) decodeArray(len int64, out []byte) error {
-	if _, err := io.LimitReader(d.r, len).Read(out); err != nil {
+	if _, err := io.ReadFull(io.LimitReader(d.r, len), out); err != nil {
 		return err
 	}
 
diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 5eed0c0..7dd144a 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -108,13 +108,13 @@ func newVarStr(str string) VarStr {
 // UnmarshalBinary implements the binary.Unmarshaler interface
 func (v *VarStr) UnmarshalBinary(r io.Reader) error {
 	lengthBuf := make([]byte, 1)
-	if _, err := r.Read(lengthBuf); err != nil {
+	if _, err := io.ReadFull(r, lengthBuf); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.Length = uint8(lengthBuf[0])
 
 	stringBuf := make([]byte, v.Length)
-	if _, err := r.Read(stringBuf); err != nil {
+	if _, err := io.ReadFull(r, stringBuf); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.String = string(stringBuf)
diff --git a/pkg/protocol/netaddr.go b/pkg/protocol/netaddr.go
index d57fef3..bef5087 100644
--- a/pkg/protocol/netaddr.go
+++ b/pkg/protocol/netaddr.go
@@ -34,7 +34,7 @@ func (ip IPv4) String() string {
 // UnmarshalBinary implements the binary.Marshaler interface
 func (ip IPv4) UnmarshalBinary(r io.Reader) error {
 	data := make([]byte, 16)
-	if _, err := r.Read(data); err != nil {
+	if _, err := io.ReadFull(r, data); err != nil {
 		return fmt.Errorf("unmarshal IPv4: %+v", err)
 	}
 
-- 
2.43.0


From 60347ff455126b729e565cd3cfbfbfe6d3817250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:57 +0000
Subject: [PATCH 02/27] fix: decode IPv4 and BlockLocators into the receiver

---
 pkg/protocol/blocklocator.go | 4 ++--
 pkg/protocol/netaddr.go      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/protocol/blocklocator.go b/pkg/protocol/blocklocator.go
index a2accce..7857539 100644
--- a/pkg/protocol/blocklocator.go
+++ b/pkg/protocol/blocklocator.go
@@ -44,7 +44,7 @@ func (locators BlockLocators) MarshalBinary() ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
-func (locators BlockLocators) UnmarshalBinary(r io.Reader) error {
+func (locators *BlockLocators) UnmarshalBinary(r io.Reader) error {
 	d := binary.NewDecoder(r)
 
 	var count VarInt
@@ -67,6 +67,6 @@ func (locators BlockLocators) UnmarshalBinary(r io.Reader) error {
 		hashes[i] = hash
 	}
 
-	locators = hashes
+	*locators = hashes
 	return nil
 }
diff --git a/pkg/protocol/netaddr.go b/pkg/protocol/netaddr.go
index bef5087..f590dc9 100644
--- a/pkg/protocol/netaddr.go
+++ b/pkg/protocol/netaddr.go
@@ -32,7 +32,7 @@ func (ip IPv4) String() string {
 }
 
 // UnmarshalBinary implements the binary.Marshaler interface
-func (ip IPv4) UnmarshalBinary(r io.Reader) error {
+func (ip *IPv4) UnmarshalBinary(r io.Reader) error {
 	data := make([]byte, 16)
 	if _, err := io.ReadFull(r, data); err != nil {
 		return fmt.Errorf("unmarshal IPv4: %+v", err)
-- 
2.43.0


From ff24666e9c628f62e669e09ef28767912c233c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 03/27] fix: bound allocations by what a peer really sends

Counts and lengths in headers, getheaders and cfilter messages were used to
allocate before any of the data had arrived.
---
 pkg/binary/unmarshaler.go    | 9 ++++++---
 pkg/protocol/blocklocator.go | 5 +++++
 pkg/protocol/msg_headers.go  | 8 ++++++++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index f2c8e20..05cb6b1 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -146,9 +146,12 @@ func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
 		return []byte{byte(val)}, err
 	}
 
-	out := make([]byte, len)
-	err := d.decodeArray(len, out)
-	return out, err
+	// len comes from the peer: allocate only for bytes that really arrive
+	var out bytes.Buffer
+	if _, err := io.CopyN(&out, d.r, len); err != nil {
+		return nil, err
+	}
+	return out.Bytes(), nil
 }
 
 func (d Decoder) decodeArray(len int64, out []byte) error {
diff --git a/pkg/protocol/blocklocator.go b/pkg/protocol/blocklocator.go
index 7857539..05623cf 100644
--- a/pkg/protocol/blocklocator.go
+++ b/pkg/protocol/blocklocator.go
@@ -2,6 +2,7 @@ package protocol
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
@@ -57,6 +58,10 @@ func (locators *BlockLocators) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
+	if numberOfBlockLocatorHashes > maxBlockLocatorsPerMsg {
+		return fmt.Errorf("too many block locator hashes: %d", numberOfBlockLocatorHashes)
+	}
+
 	hashes := make([][32]byte, numberOfBlockLocatorHashes)
 
 	for i := 0; i < numberOfBlockLocatorHashes; i++ {
diff --git a/pkg/protocol/msg_headers.go b/pkg/protocol/msg_headers.go
index 6bd9762..d6d8b52 100644
--- a/pkg/protocol/msg_headers.go
+++ b/pkg/protocol/msg_headers.go
@@ -1,12 +1,16 @@
 package protocol
 
 import (
+	"fmt"
 	"io"
 
 	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
 )
 
+// maxHeadersPerMsg is the largest number of headers a peer may send in one message.
+const maxHeadersPerMsg = 2000
+
 type MsgHeaders struct {
 	Headers []*block.Header
 }
@@ -26,6 +30,10 @@ func (msgHeaders *MsgHeaders) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
+	if numberOfHeaders > maxHeadersPerMsg {
+		return fmt.Errorf("too many headers: %d", numberOfHeaders)
+	}
+
 	headersBytes, err := d.ReadUntilEOF()
 	if err != nil {
 		return err
-- 
2.43.0


From 823563a363a20cb54961c62a8ede6de5ec74b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:53 +0000
Subject: [PATCH 04/27] fix: read peer messages whole, and check their network
 and checksum

A message that is unknown, does not decode or makes its handler panic left
(part of) its payload on the stream, which was then read as the next header.
Read header and payload completely first, skip messages with a bad checksum,
and disconnect a peer of another network or with an oversized message.
---
 pkg/node/cmd_block.go       |   4 +-
 pkg/node/cmd_cfilter.go     |   4 +-
 pkg/node/cmd_getcfilters.go |   4 +-
 pkg/node/cmd_getheaders.go  |   4 +-
 pkg/node/cmd_headers.go     |   5 +-
 pkg/node/cmd_inv.go         |   4 +-
 pkg/node/cmd_ping.go        |   4 +-
 pkg/node/cmd_pong.go        |   4 +-
 pkg/node/cmd_sendcmpct.go   |   4 +-
 pkg/node/cmd_skip.go        |   4 +-
 pkg/node/cmd_tx.go          |   4 +-
 pkg/node/cmd_verack.go      |   4 +-
 pkg/node/cmd_version.go     |   4 +-
 pkg/node/node.go            | 169 +++++++++++++++++++-----------------
 pkg/protocol/msg.go         |   8 ++
 15 files changed, 125 insertions(+), 105 deletions(-)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 21cf16c..36045d4 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -11,7 +11,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var msgBlock protocol.MsgBlock
 
 	_, err := n.blockHeadersDb.ChainTip(context.Background())
@@ -19,7 +19,7 @@ func (n node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 		return err
 	}
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
+	lr := io.LimitReader(payload, int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&msgBlock); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 1a27c2c..7e69fb8 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -8,10 +8,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleCFilter(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var cfilter protocol.MsgCFilter
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
+	lr := io.LimitReader(payload, int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&cfilter); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index 105506c..3800d54 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -13,9 +13,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetCFilters(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var getCFilters protocol.MsgGetCFilters
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
+	lr := io.LimitReader(payload, int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&getCFilters); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_getheaders.go b/pkg/node/cmd_getheaders.go
index 096664c..26b68cb 100644
--- a/pkg/node/cmd_getheaders.go
+++ b/pkg/node/cmd_getheaders.go
@@ -9,9 +9,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleGetHeaders(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetHeaders(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var getHeaders protocol.MsgGetHeaders
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
+	lr := io.LimitReader(payload, int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&getHeaders); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 6bb9c91..3ed4c53 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -12,11 +12,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var headers protocol.MsgHeaders
 
-	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(msgHeader.Length))
+	lr := io.LimitReader(payload, int64(msgHeader.Length))
 
 	if err := binary.NewDecoder(lr).Decode(&headers); err != nil {
 		return err
diff --git a/pkg/node/cmd_inv.go b/pkg/node/cmd_inv.go
index f44e0dd..a97fa1e 100644
--- a/pkg/node/cmd_inv.go
+++ b/pkg/node/cmd_inv.go
@@ -8,11 +8,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleInv(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleInv(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var inv protocol.MsgInv
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
+	lr := io.LimitReader(payload, int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&inv); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_ping.go b/pkg/node/cmd_ping.go
index d2e7dfd..392d312 100644
--- a/pkg/node/cmd_ping.go
+++ b/pkg/node/cmd_ping.go
@@ -8,11 +8,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePing(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePing(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var ping protocol.MsgPing
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
+	lr := io.LimitReader(payload, int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&ping); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 62e3c58..1f4511b 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -8,10 +8,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePong(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var pong protocol.MsgPing
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
+	lr := io.LimitReader(payload, int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&pong); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_sendcmpct.go b/pkg/node/cmd_sendcmpct.go
index fb07790..51d0a0b 100644
--- a/pkg/node/cmd_sendcmpct.go
+++ b/pkg/node/cmd_sendcmpct.go
@@ -9,9 +9,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleSendCmpct(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleSendCmpct(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var sendCmpct protocol.MsgSendCmpct
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
+	lr := io.LimitReader(payload, int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&sendCmpct); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_skip.go b/pkg/node/cmd_skip.go
index 98e3be7..71735b4 100644
--- a/pkg/node/cmd_skip.go
+++ b/pkg/node/cmd_skip.go
@@ -10,10 +10,10 @@ import (
 )
 
 // skipMessage is using to skip unhandled messages coming from peers
-func (n node) skipMessage(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) skipMessage(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	logrus.Debugf("skipping message: %s", header.Command)
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
+	lr := io.LimitReader(payload, int64(header.Length))
 	if _, err := binary.NewDecoder(lr).ReadUntilEOF(); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_tx.go b/pkg/node/cmd_tx.go
index 8b51438..edbf4d4 100644
--- a/pkg/node/cmd_tx.go
+++ b/pkg/node/cmd_tx.go
@@ -9,10 +9,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleTx(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleTx(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var tx protocol.MsgTx
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
+	lr := io.LimitReader(payload, int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&tx); err != nil {
 		return err
 	}
diff --git a/pkg/node/cmd_verack.go b/pkg/node/cmd_verack.go
index 47e353e..68f8e87 100644
--- a/pkg/node/cmd_verack.go
+++ b/pkg/node/cmd_verack.go
@@ -1,10 +1,12 @@
 package node
 
 import (
+	"io"
+
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVerack(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleVerack(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	return nil
 }
diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index 0c48ac4..6d08e36 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -10,11 +10,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVersion(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleVersion(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var version protocol.MsgVersion
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
+	lr := io.LimitReader(payload, int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&version); err != nil {
 		return err
 	}
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 0463eae..fd712a2 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -89,14 +89,14 @@ func New(config NodeConfig) (NodeService, error) {
 	}, nil
 }
 
-func (n node) GetChainTip() (*block.Header, error) {
+func (n *node) GetChainTip() (*block.Header, error) {
 	return n.blockHeadersDb.ChainTip(context.Background())
 }
 
 // AddOutboundPeer sends a new version message to a new peer
 // returns an error if the peer is already connected.
 // it also starts a goroutine to monitor the peer's messages.
-func (n node) AddOutboundPeer(outbound peer.Peer) error {
+func (n *node) AddOutboundPeer(outbound peer.Peer) error {
 	if _, ok := n.Peers[outbound.ID()]; ok {
 		return fmt.Errorf("peer already known by node")
 	}
@@ -117,7 +117,7 @@ func (n node) AddOutboundPeer(outbound peer.Peer) error {
 }
 
 // Start starts a node and add an initial outbound peer.
-func (n node) Start(initialOutboundPeerAddr string) error {
+func (n *node) Start(initialOutboundPeerAddr string) error {
 	n.quit = make(chan struct{})
 	initialPeer, err := peer.NewElementsPeer(initialOutboundPeerAddr)
 	if err != nil {
@@ -163,106 +163,117 @@ func (n *node) getBestPeerForSync() peer.Peer {
 
 // handlePeerMessages handles messages coming from peers.
 func (n *node) handlePeerMessages(p peer.Peer) {
-	defer func() {
-		if r := recover(); r != nil {
-			log.Infof("recovered handlePeerMessages: %v", string(debug.Stack()))
-			n.handlePeerMessages(p)
-		}
-	}()
-
 	tmp := make([]byte, protocol.MsgHeaderLength)
 	conn := p.Connection()
 
 Loop:
 	for {
-		nn, err := conn.Read(tmp)
-		if err != nil {
+		if _, err := io.ReadFull(conn, tmp); err != nil {
 			logrus.Errorf(err.Error())
 			n.DisconCh <- p.ID()
 			break Loop
 		}
 
 		var msgHeader protocol.MessageHeader
-		if err := binary.NewDecoder(bytes.NewReader(tmp[:nn])).Decode(&msgHeader); err != nil {
+		if err := binary.NewDecoder(bytes.NewReader(tmp)).Decode(&msgHeader); err != nil {
 			logrus.Debugf("decoding header failed: %+v", err)
 			continue
 		}
 
+		// what follows a header of another network, or of an absurd size,
+		// cannot be told from garbage: give up on the connection
+		if msgHeader.Magic != n.Network || msgHeader.Length > protocol.MaxPayloadLength {
+			logrus.Errorf("bad message header from peer %s: %x", p.ID(), tmp)
+			n.DisconCh <- p.ID()
+			break Loop
+		}
+
+		// always take the whole payload off the stream, whatever becomes of the message,
+		// so that the next message is read from its beginning
+		var payload bytes.Buffer
+		if _, err := io.CopyN(&payload, conn, int64(msgHeader.Length)); err != nil {
+			logrus.Errorf(err.Error())
+			n.DisconCh <- p.ID()
+			break Loop
+		}
+
 		if err := msgHeader.Validate(); err != nil {
 			logrus.Debugf("validate header failed: %+v", err)
 			continue
 		}
 
+		if !msgHeader.HasValidChecksum(payload.Bytes()) {
+			logrus.Errorf("invalid checksum of message: %s", msgHeader.CommandString())
+			continue
+		}
+
 		logrus.Debugf("received message: %s", msgHeader.Command)
 
-		switch msgHeader.CommandString() {
-		case "version":
-			if err := n.handleVersion(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'version': %+v", err)
-				continue
-			}
-		case "verack":
-			if err := n.handleVerack(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'verack': %+v", err)
-				continue
-			}
-		case "ping":
-			if err := n.handlePing(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'ping': %+v", err)
-				continue
-			}
-		case "pong":
-			if err := n.handlePong(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'pong': %+v", err)
-				continue
-			}
-		case "inv":
-			if err := n.handleInv(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'inv': %+v", err)
-				continue
-			}
-		case "tx":
-			if err := n.handleTx(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'tx': %+v", err)
-				continue
-			}
-		case "block":
-			if err := n.handleBlock(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'block': %+v", err)
-				continue
-			}
-		case "sendcmpct":
-			if err := n.handleSendCmpct(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'sendcmpct': %+v", err)
-				continue
-			}
-		case "getheaders":
-			if err := n.handleGetHeaders(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'getheaders': %+v", err)
-				continue
-			}
-		case "headers":
-			if err := n.handleHeaders(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'headers': %+v", err)
-				continue
-			}
-		case "cfilter":
-			if err := n.handleCFilter(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'cfilter': %+v", err)
-				continue
-			}
-		case "getcfilters":
-			if err := n.handleGetCFilters(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'getcfilters': %+v", err)
-				continue
-			}
-		default:
-			if err := n.skipMessage(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to skip message: %+v", err)
-				continue
-			}
+		n.handleMessage(&msgHeader, &payload, p)
+	}
+}
+
+// handleMessage handles one message of a peer.
+func (n *node) handleMessage(msgHeader *protocol.MessageHeader, payload io.Reader, p peer.Peer) {
+	defer func() {
+		if r := recover(); r != nil {
+			log.Infof("recovered handlePeerMessages: %v", string(debug.Stack()))
 		}
+	}()
 
+	switch msgHeader.CommandString() {
+	case "version":
+		if err := n.handleVersion(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'version': %+v", err)
+		}
+	case "verack":
+		if err := n.handleVerack(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'verack': %+v", err)
+		}
+	case "ping":
+		if err := n.handlePing(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'ping': %+v", err)
+		}
+	case "pong":
+		if err := n.handlePong(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'pong': %+v", err)
+		}
+	case "inv":
+		if err := n.handleInv(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'inv': %+v", err)
+		}
+	case "tx":
+		if err := n.handleTx(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'tx': %+v", err)
+		}
+	case "block":
+		if err := n.handleBlock(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'block': %+v", err)
+		}
+	case "sendcmpct":
+		if err := n.handleSendCmpct(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'sendcmpct': %+v", err)
+		}
+	case "getheaders":
+		if err := n.handleGetHeaders(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'getheaders': %+v", err)
+		}
+	case "headers":
+		if err := n.handleHeaders(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'headers': %+v", err)
+		}
+	case "cfilter":
+		if err := n.handleCFilter(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'cfilter': %+v", err)
+		}
+	case "getcfilters":
+		if err := n.handleGetCFilters(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'getcfilters': %+v", err)
+		}
+	default:
+		if err := n.skipMessage(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to skip message: %+v", err)
+		}
 	}
 }
 
diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 7dd144a..6df5d09 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -16,6 +16,9 @@ const (
 
 	// MsgHeaderLength specifies the length of Message in bytes
 	MsgHeaderLength = magicLength + commandLength + checksumLength + 4 // 4 - payload length value
+
+	// MaxPayloadLength is the largest payload accepted from a peer
+	MaxPayloadLength = 32 * 1024 * 1024
 )
 
 // MessageHeader ...
@@ -92,6 +95,11 @@ func (mh MessageHeader) HasValidMagic() bool {
 	return false
 }
 
+// HasValidChecksum returns true if the checksum of the message header is the one of the payload.
+func (mh MessageHeader) HasValidChecksum(payload []byte) bool {
+	return mh.Checksum == checksum(payload)
+}
+
 // VarStr ...
 type VarStr struct {
 	Length uint8
-- 
2.43.0


From bcee290982d4dae27b3292457f94ff58cb469b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 05/27] fix: a write to a peer that stopped reading fails
 instead of blocking for ever

---
 pkg/peer/peer.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index ccae398..5e26617 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"net"
 	"sync"
+	"time"
 
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
@@ -25,6 +26,32 @@ type Peer interface {
 	SetPeersTip(startBlockHeight uint32)
 }
 
+// writeTimeout is how long a write to a peer may take.
+const writeTimeout = 30 * time.Second
+
+// peerConn is a connection on which a write to a peer that stopped reading fails
+// instead of blocking for ever. Nothing follows a message that was written in part.
+type peerConn struct {
+	net.Conn
+	writeLock sync.Mutex
+}
+
+func (c *peerConn) Write(b []byte) (int, error) {
+	c.writeLock.Lock()
+	defer c.writeLock.Unlock()
+
+	if err := c.Conn.SetWriteDeadline(time.Now().Add(writeTimeout)); err != nil {
+		return 0, err
+	}
+
+	n, err := c.Conn.Write(b)
+	if err != nil {
+		c.Conn.Close()
+	}
+
+	return n, err
+}
+
 type elementsPeer struct {
 	networkAddress   *protocol.Addr
 	tcpConnection    net.Conn
@@ -47,7 +74,7 @@ func NewElementsPeer(peerAddr string) (Peer, error) {
 
 	return &elementsPeer{
 		networkAddress: netAddress,
-		tcpConnection:  conn,
+		tcpConnection:  &peerConn{Conn: conn},
 		m:              new(sync.RWMutex),
 	}, nil
 }
-- 
2.43.0


From 1af2fac33d6ebf67a7da92af9b47fb3ed3703dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 06/27] fix: guard the node's peers and make Stop end
 everything

Stop closed the quit channel of another copy of the node than the one its
goroutines read from, and left connections open; goroutines blocked in channel
sends were never released. The maps of peers and pong channels were used from
many goroutines without a lock. A pong that came before its ping was registered,
or after the timeout, dropped the peer or blocked monitorPeers.
---
 pkg/node/chainsync.go   |  12 +++--
 pkg/node/cmd_block.go   |   6 ++-
 pkg/node/cmd_cfilter.go |   5 +-
 pkg/node/cmd_headers.go |   6 ++-
 pkg/node/cmd_pong.go    |   5 +-
 pkg/node/handle_ping.go |  70 ++++++++++++++++++------
 pkg/node/node.go        | 114 +++++++++++++++++++++++++++++++++-------
 7 files changed, 173 insertions(+), 45 deletions(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index bef86ef..ff07a44 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -58,7 +58,7 @@ func (n *node) getGenesisBlockHash() (*chainhash.Hash, error) {
 func (n *node) syncWithPeer(peerID peer.PeerID) error {
 	log.Infof("node: syncing block headers with peer: %s ...", peerID)
 
-	p := n.Peers[peerID]
+	p := n.getPeer(peerID)
 
 	if p == nil {
 		return fmt.Errorf("peer %s not found", peerID)
@@ -100,13 +100,17 @@ func (n *node) checkSyncedInitial(p peer.Peer) {
 			n.notifySynced()
 			return
 		}
-		time.Sleep(time.Second * 1)
+		select {
+		case <-time.After(time.Second * 1):
+		case <-n.quit:
+			return
+		}
 	}
 }
 
 func (n *node) sync(p peer.Peer) {
 	if p == nil {
-		for _, bestPeer := range n.Peers {
+		for _, bestPeer := range n.getPeers() {
 			if bestPeer != nil {
 				p = bestPeer
 				break
@@ -124,7 +128,7 @@ func (n *node) notifySynced() {
 	n.notifySyncedOnce.Do(
 		func() {
 			log.Debugf("node: syncing block headers finished")
-			n.syncedChan <- struct{}{}
+			close(n.syncedChan)
 		},
 	)
 }
diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 36045d4..b840adc 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -51,7 +51,11 @@ func (n *node) handleBlock(header *protocol.MessageHeader, payload io.Reader, p
 
 		return nil
 	}
-	n.blockHeadersCh <- *msgBlock.Header
+	select {
+	case n.blockHeadersCh <- *msgBlock.Header:
+	case <-n.quit:
+		return nil
+	}
 	n.memPool.CheckTxConfirmed(msgBlock.Block)
 
 	return nil
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 7e69fb8..726c566 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -17,7 +17,10 @@ func (n *node) handleCFilter(header *protocol.MessageHeader, payload io.Reader,
 	}
 
 	// send the cfilter to the chan
-	n.compactFiltersCh <- cfilter
+	select {
+	case n.compactFiltersCh <- cfilter:
+	case <-n.quit:
+	}
 
 	return nil
 }
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 3ed4c53..31a43a7 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -74,7 +74,11 @@ func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, payload io.Reade
 
 	if len(headers.Headers) > 0 {
 		for _, v := range headers.Headers {
-			n.blockHeadersCh <- *v
+			select {
+			case n.blockHeadersCh <- *v:
+			case <-n.quit:
+				return nil
+			}
 		}
 
 		log.Debugf("node: local tip: %v", headers.Headers[len(headers.Headers)-1].Height)
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 1f4511b..12fd407 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -16,7 +16,10 @@ func (n *node) handlePong(header *protocol.MessageHeader, payload io.Reader, p p
 		return err
 	}
 
-	n.pongsCh <- pong.Nonce
+	select {
+	case n.pongsCh <- pong.Nonce:
+	case <-n.quit:
+	}
 
 	return nil
 }
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index d421fe4..fb5ed01 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -16,13 +16,19 @@ type peerPing struct {
 }
 
 func (n *node) addPeer(peer peer.Peer) error {
+	n.peersLock.Lock()
+	defer n.peersLock.Unlock()
+
+	if _, found := n.conns[peer.ID()]; !found {
+		return fmt.Errorf("peer disconnected: %s", peer.ID())
+	}
 	if _, found := n.Peers[peer.ID()]; found {
 		return fmt.Errorf("peer already known: %s", peer.ID())
 	}
 
 	id := peer.ID()
 	n.Peers[id] = peer
-	n.peersPongCh[id] = make(chan uint64)
+	n.peersPongCh[id] = make(chan uint64, 1)
 
 	if len(n.Peers) == 1 {
 		logrus.Infof("node: start sync block headers with peer: %s", peer.ID())
@@ -44,12 +50,7 @@ func (n *node) monitorPeers() {
 			if peerID == "" {
 				break
 			}
-			p := n.Peers[peerID]
-			if p == nil {
-				break
-			}
-
-			n.peersPongCh[peerID] <- nonce
+			n.deliverPong(peerID, nonce)
 			delete(peerPings, nonce)
 
 		case pp := <-n.pingsCh:
@@ -68,8 +69,28 @@ func (n *node) monitorPeers() {
 	}
 }
 
-// monitors the pings/pongs for a peer
+// deliverPong hands a pong over to the goroutine monitoring the peer; it never blocks.
+func (n *node) deliverPong(peerID peer.PeerID, nonce uint64) {
+	n.peersLock.RLock()
+	defer n.peersLock.RUnlock()
+
+	if pongCh, ok := n.peersPongCh[peerID]; ok {
+		select {
+		case pongCh <- nonce:
+		default:
+		}
+	}
+}
+
+// monitors the pings/pongs for a peer, until it is disconnected
 func (n *node) monitorPeer(peer peer.Peer) {
+	n.peersLock.RLock()
+	pongCh, ok := n.peersPongCh[peer.ID()]
+	n.peersLock.RUnlock()
+	if !ok {
+		return
+	}
+
 	ticker := time.NewTicker(pingIntervalSec * time.Second)
 	defer ticker.Stop()
 
@@ -78,6 +99,10 @@ func (n *node) monitorPeer(peer peer.Peer) {
 		case <-n.quit:
 			logrus.Warn("monitorPeer: quit")
 			return
+		case _, ok := <-pongCh:
+			if !ok {
+				return
+			}
 		case <-ticker.C:
 			ping, nonce, err := protocol.NewPingMsg(n.Network)
 			if err != nil {
@@ -89,29 +114,40 @@ func (n *node) monitorPeer(peer peer.Peer) {
 				logrus.Fatalf("monitorPeer, binary.Marshal: %v", err)
 			}
 
+			// register the ping before the pong can arrive
+			select {
+			case n.pingsCh <- peerPing{
+				nonce:  nonce,
+				peerID: peer.ID(),
+			}:
+			case <-n.quit:
+				return
+			}
+
 			if _, err := peer.Connection().Write(msg); err != nil {
-				n.disconnectPeer(peer.ID())
+				n.disconnected(peer.ID())
+				return
 			}
 
 			logrus.Debugf("sent 'ping' to %s", peer)
 
-			n.pingsCh <- peerPing{
-				nonce:  nonce,
-				peerID: peer.ID(),
-			}
-
 			t := time.NewTimer(pingTimeoutSec * time.Second)
 
 			select {
-			case pn := <-n.peersPongCh[peer.ID()]:
+			case <-n.quit:
+				return
+			case pn, ok := <-pongCh:
+				if !ok {
+					return
+				}
 				if pn != nonce {
 					logrus.Errorf("nonce doesn't match for %s: want %d, got %d", peer, nonce, pn)
-					n.DisconCh <- peer.ID()
+					n.disconnected(peer.ID())
 					return
 				}
 				logrus.Debugf("got 'pong' from %s", peer)
 			case <-t.C:
-				n.DisconCh <- peer.ID()
+				n.disconnected(peer.ID())
 				return
 			}
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index fd712a2..9828f08 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -3,6 +3,7 @@ package node
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"github.com/sirupsen/logrus"
 	log "github.com/sirupsen/logrus"
@@ -21,6 +22,8 @@ const (
 	pingTimeoutSec  = 60
 )
 
+var errStopped = errors.New("node stopped")
+
 type NodeService interface {
 	Start(initialOutboundPeerAddr string) error
 	Stop() error
@@ -32,11 +35,16 @@ type NodeService interface {
 // node implements an Elements full node.
 // It aims to sync block headers and compact filters.
 type node struct {
-	Network     protocol.Magic
+	Network protocol.Magic
+	// peersLock protects Peers, peersPongCh, conns and stopped
+	peersLock   sync.RWMutex
 	Peers       map[peer.PeerID]peer.Peer
 	pingsCh     chan peerPing
 	pongsCh     chan uint64
 	peersPongCh map[peer.PeerID]chan uint64
+	// conns are all the open connections, also those before the end of the handshake
+	conns   map[peer.PeerID]peer.Peer
+	stopped bool
 
 	DisconCh  chan peer.PeerID
 	UserAgent string
@@ -76,6 +84,7 @@ func New(config NodeConfig) (NodeService, error) {
 		pingsCh:     make(chan peerPing),
 		pongsCh:     make(chan uint64),
 		peersPongCh: make(map[peer.PeerID]chan uint64),
+		conns:       make(map[peer.PeerID]peer.Peer),
 		DisconCh:    make(chan peer.PeerID),
 		UserAgent:   config.UserAgent,
 
@@ -97,17 +106,19 @@ func (n *node) GetChainTip() (*block.Header, error) {
 // returns an error if the peer is already connected.
 // it also starts a goroutine to monitor the peer's messages.
 func (n *node) AddOutboundPeer(outbound peer.Peer) error {
-	if _, ok := n.Peers[outbound.ID()]; ok {
-		return fmt.Errorf("peer already known by node")
+	if err := n.addConn(outbound); err != nil {
+		return err
 	}
 
 	msgVersion, err := n.createNodeVersionMsg(outbound)
 	if err != nil {
+		n.disconnectPeer(outbound.ID())
 		return err
 	}
 
 	err = n.sendMessage(outbound.Connection(), msgVersion)
 	if err != nil {
+		n.disconnectPeer(outbound.ID())
 		return err
 	}
 
@@ -118,7 +129,6 @@ func (n *node) AddOutboundPeer(outbound peer.Peer) error {
 
 // Start starts a node and add an initial outbound peer.
 func (n *node) Start(initialOutboundPeerAddr string) error {
-	n.quit = make(chan struct{})
 	initialPeer, err := peer.NewElementsPeer(initialOutboundPeerAddr)
 	if err != nil {
 		return err
@@ -126,6 +136,7 @@ func (n *node) Start(initialOutboundPeerAddr string) error {
 
 	err = n.AddOutboundPeer(initialPeer)
 	if err != nil {
+		initialPeer.Connection().Close()
 		return err
 	}
 
@@ -136,25 +147,81 @@ func (n *node) Start(initialOutboundPeerAddr string) error {
 
 	n.memPool.Start()
 
-	<-n.syncedChan
-
-	return nil
+	select {
+	case <-n.syncedChan:
+		return nil
+	case <-n.quit:
+		return errStopped
+	}
 }
 
 func (n *node) Stop() error {
+	n.peersLock.Lock()
+	defer n.peersLock.Unlock()
+
+	if n.stopped {
+		return nil
+	}
+	n.stopped = true
+
 	n.memPool.Stop()
 	close(n.quit)
+	for id, p := range n.conns {
+		p.Connection().Close()
+		delete(n.conns, id)
+	}
 	return nil
 }
 
-// Return the best peer (now randomly)
-// TODO : implement a better way to select the best peer (eg. by latency)
-func (n *node) getBestPeerForSync() peer.Peer {
-	if len(n.Peers) == 0 {
-		return nil
+// addConn registers a new connection.
+func (n *node) addConn(p peer.Peer) error {
+	n.peersLock.Lock()
+	defer n.peersLock.Unlock()
+
+	if n.stopped {
+		return errStopped
+	}
+	if _, ok := n.conns[p.ID()]; ok {
+		return fmt.Errorf("peer already known by node")
 	}
+	n.conns[p.ID()] = p
 
+	return nil
+}
+
+// getPeer returns a connected peer, nil if there is none with this ID.
+func (n *node) getPeer(peerID peer.PeerID) peer.Peer {
+	n.peersLock.RLock()
+	defer n.peersLock.RUnlock()
+
+	return n.Peers[peerID]
+}
+
+// getPeers returns the connected peers.
+func (n *node) getPeers() []peer.Peer {
+	n.peersLock.RLock()
+	defer n.peersLock.RUnlock()
+
+	peers := make([]peer.Peer, 0, len(n.Peers))
 	for _, p := range n.Peers {
+		peers = append(peers, p)
+	}
+
+	return peers
+}
+
+// disconnected tells monitorPeers that a peer is to be removed.
+func (n *node) disconnected(peerID peer.PeerID) {
+	select {
+	case n.DisconCh <- peerID:
+	case <-n.quit:
+	}
+}
+
+// Return the best peer (now randomly)
+// TODO : implement a better way to select the best peer (eg. by latency)
+func (n *node) getBestPeerForSync() peer.Peer {
+	for _, p := range n.getPeers() {
 		return p
 	}
 
@@ -170,7 +237,7 @@ Loop:
 	for {
 		if _, err := io.ReadFull(conn, tmp); err != nil {
 			logrus.Errorf(err.Error())
-			n.DisconCh <- p.ID()
+			n.disconnected(p.ID())
 			break Loop
 		}
 
@@ -184,7 +251,7 @@ Loop:
 		// cannot be told from garbage: give up on the connection
 		if msgHeader.Magic != n.Network || msgHeader.Length > protocol.MaxPayloadLength {
 			logrus.Errorf("bad message header from peer %s: %x", p.ID(), tmp)
-			n.DisconCh <- p.ID()
+			n.disconnected(p.ID())
 			break Loop
 		}
 
@@ -193,7 +260,7 @@ Loop:
 		var payload bytes.Buffer
 		if _, err := io.CopyN(&payload, conn, int64(msgHeader.Length)); err != nil {
 			logrus.Errorf(err.Error())
-			n.DisconCh <- p.ID()
+			n.disconnected(p.ID())
 			break Loop
 		}
 
@@ -312,13 +379,21 @@ func (n *node) sendMessage(conn io.Writer, msg *protocol.Message) error {
 func (n *node) disconnectPeer(peerID peer.PeerID) {
 	logrus.Debugf("disconnecting peer %s", peerID)
 
-	peer := n.Peers[peerID]
+	n.peersLock.Lock()
+	defer n.peersLock.Unlock()
+
+	peer := n.conns[peerID]
 	if peer == nil {
 		return
 	}
 
 	peer.Connection().Close()
+	delete(n.conns, peerID)
 	delete(n.Peers, peerID)
+	if pongCh, ok := n.peersPongCh[peerID]; ok {
+		close(pongCh)
+		delete(n.peersPongCh, peerID)
+	}
 }
 
 // monitorBlockHeaders monitors new block headers coming from peers.
@@ -336,7 +411,7 @@ func (n *node) monitorBlockHeaders() {
 
 			log.Debugf("node: new block header: %v\n", newHeader.Height)
 
-			if len(n.Peers) > 0 {
+			if bestPeer := n.getBestPeerForSync(); bestPeer != nil {
 				hash, err := newHeader.Hash()
 				if err != nil {
 					logrus.Error(err)
@@ -355,8 +430,7 @@ func (n *node) monitorBlockHeaders() {
 					continue
 				}
 
-				conn := n.getBestPeerForSync().Connection()
-				err = n.sendMessage(conn, msg)
+				err = n.sendMessage(bestPeer.Connection(), msg)
 				if err != nil {
 					logrus.Error(err)
 					continue
@@ -402,7 +476,7 @@ func (n *node) SendTransaction(txhex string) error {
 		return err
 	}
 
-	for _, peer := range n.Peers {
+	for _, peer := range n.getPeers() {
 		err = n.sendMessage(peer.Connection(), msg)
 		if err != nil {
 			return err
-- 
2.43.0


From 92a60d38fe24fb1dcea7f3ab99b6a2e13654e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:20 +0000
Subject: [PATCH 07/27] fix: store only the header that extends the tip, and
 retry a stalled sync

A header that does not link, or the one after a failed write, was stored and
left a fork or a gap; a sync whose answer was lost was never resumed.
---
 pkg/node/chainsync.go | 28 ++++++++++++++++++++++++++++
 pkg/node/node.go      | 36 +++++++++++++++++++++++++++++++++++-
 2 files changed, 63 insertions(+), 1 deletion(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index ff07a44..01976ec 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -1,11 +1,13 @@
 package node
 
 import (
+	"bytes"
 	"context"
 	"fmt"
 	"github.com/btcsuite/btcd/blockchain"
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	log "github.com/sirupsen/logrus"
+	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/neutrino-elements/pkg/peer"
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
@@ -55,6 +57,32 @@ func (n *node) getGenesisBlockHash() (*chainhash.Hash, error) {
 	return chainhash.NewHashFromStr(genesisHexHash)
 }
 
+// extendsTip returns true if the header is the next one of the stored chain.
+func (n *node) extendsTip(tip **block.Header, header *block.Header) (bool, error) {
+	if *tip == nil {
+		storedTip, err := n.blockHeadersDb.ChainTip(context.Background())
+		if err == repository.ErrNoBlocksHeaders {
+			genesisHash, err := n.getGenesisBlockHash()
+			if err != nil {
+				return false, err
+			}
+
+			return header.Height == 1 && bytes.Equal(header.PrevBlockHash, genesisHash[:]), nil
+		}
+		if err != nil {
+			return false, err
+		}
+		*tip = storedTip
+	}
+
+	tipHash, err := (*tip).Hash()
+	if err != nil {
+		return false, err
+	}
+
+	return header.Height == (*tip).Height+1 && bytes.Equal(header.PrevBlockHash, tipHash[:]), nil
+}
+
 func (n *node) syncWithPeer(peerID peer.PeerID) error {
 	log.Infof("node: syncing block headers with peer: %s ...", peerID)
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 9828f08..e838405 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -15,11 +15,15 @@ import (
 	"io"
 	"runtime/debug"
 	"sync"
+	"time"
 )
 
 const (
 	pingIntervalSec = 120
 	pingTimeoutSec  = 60
+
+	// syncRetryIntervalSec is how long the node waits for new headers before it asks for them again
+	syncRetryIntervalSec = 30
 )
 
 var errStopped = errors.New("node stopped")
@@ -398,16 +402,46 @@ func (n *node) disconnectPeer(peerID peer.PeerID) {
 
 // monitorBlockHeaders monitors new block headers coming from peers.
 func (n *node) monitorBlockHeaders() {
+	ticker := time.NewTicker(syncRetryIntervalSec * time.Second)
+	defer ticker.Stop()
+
+	// tip is the header at the tip of the store, nil when it has to be read from there
+	var tip *block.Header
+	stored := 0
+
 	for {
 		select {
 		case <-n.quit:
 			return
+		case <-ticker.C:
+			// no progress: headers may have been announced or requested in vain
+			if stored == 0 {
+				for _, p := range n.getPeers() {
+					go n.sync(p)
+				}
+			}
+			stored = 0
 		case newHeader := <-n.blockHeadersCh:
-			err := n.blockHeadersDb.WriteHeaders(context.Background(), newHeader)
+			// several peers send headers, and a write may have failed:
+			// store nothing but the next header of the chain
+			extends, err := n.extendsTip(&tip, &newHeader)
+			if err != nil {
+				logrus.Error(err)
+				continue
+			}
+			if !extends {
+				log.Debugf("node: header at height %v does not extend the tip", newHeader.Height)
+				continue
+			}
+
+			err = n.blockHeadersDb.WriteHeaders(context.Background(), newHeader)
 			if err != nil {
 				logrus.Error(err)
+				tip = nil
 				continue
 			}
+			tip = &newHeader
+			stored++
 
 			log.Debugf("node: new block header: %v\n", newHeader.Height)
 
-- 
2.43.0


From 7b65a734919dbdb9c0f1e54fc6560a4fef1c783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:27 +0000
Subject: [PATCH 08/27] fix: report a node as started only after the handshake
 with its initial peer

Before the handshake the peer's tip is 0, so any node with a filled store was
taken for synced; and one with an empty store never was, for a peer without blocks.
---
 pkg/node/chainsync.go   | 11 +++++++++++
 pkg/node/handle_ping.go |  4 ++++
 pkg/node/node.go        |  9 +++++++++
 3 files changed, 24 insertions(+)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index 01976ec..c7c98b4 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -24,6 +24,10 @@ var zeroHash [32]byte = [32]byte{
 func (n *node) synced(p peer.Peer) (bool, error) {
 	chainTip, err := n.blockHeadersDb.ChainTip(context.Background())
 	if err != nil {
+		// a peer without blocks has nothing to sync
+		if err == repository.ErrNoBlocksHeaders && p.PeersTip() == 0 {
+			return true, nil
+		}
 		return false, err
 	}
 
@@ -121,6 +125,13 @@ func (n *node) syncWithPeer(peerID peer.PeerID) error {
 }
 
 func (n *node) checkSyncedInitial(p peer.Peer) {
+	// the peer's tip is known only after the handshake
+	select {
+	case <-n.initialHandshake:
+	case <-n.quit:
+		return
+	}
+
 	for {
 		log.Debug("node: checkSynced")
 		isSynced, _ := n.synced(p)
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index fb5ed01..48503c2 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -29,6 +29,10 @@ func (n *node) addPeer(peer peer.Peer) error {
 	id := peer.ID()
 	n.Peers[id] = peer
 	n.peersPongCh[id] = make(chan uint64, 1)
+	if id == n.initialPeerID {
+		close(n.initialHandshake)
+		n.initialPeerID = ""
+	}
 
 	if len(n.Peers) == 1 {
 		logrus.Infof("node: start sync block headers with peer: %s", peer.ID())
diff --git a/pkg/node/node.go b/pkg/node/node.go
index e838405..2b1db1d 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -50,6 +50,10 @@ type node struct {
 	conns   map[peer.PeerID]peer.Peer
 	stopped bool
 
+	// initialHandshake is closed by the handshake with the peer given to Start
+	initialPeerID    peer.PeerID
+	initialHandshake chan struct{}
+
 	DisconCh  chan peer.PeerID
 	UserAgent string
 
@@ -97,6 +101,7 @@ func New(config NodeConfig) (NodeService, error) {
 		filtersDb:        config.FiltersDB,
 		blockHeadersDb:   config.BlockHeadersDB,
 		memPool:          NewMemPool(),
+		initialHandshake: make(chan struct{}),
 		quit:             make(chan struct{}),
 		syncedChan:       make(chan struct{}),
 	}, nil
@@ -138,6 +143,10 @@ func (n *node) Start(initialOutboundPeerAddr string) error {
 		return err
 	}
 
+	n.peersLock.Lock()
+	n.initialPeerID = initialPeer.ID()
+	n.peersLock.Unlock()
+
 	err = n.AddOutboundPeer(initialPeer)
 	if err != nil {
 		initialPeer.Connection().Close()
-- 
2.43.0


From 9783e1bdf247e8af57f21b970b1677cc8f782f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:26 +0000
Subject: [PATCH 09/27] fix: ask again for the filters that were not received

A filter lost with a connection, a failed write or a crash was never requested
again. Filters that were not asked for are not stored.
---
 pkg/node/missing_filters.go | 200 ++++++++++++++++++++++++++++++++++++
 pkg/node/node.go            |  26 +++--
 2 files changed, 220 insertions(+), 6 deletions(-)
 create mode 100644 pkg/node/missing_filters.go

diff --git a/pkg/node/missing_filters.go b/pkg/node/missing_filters.go
new file mode 100644
index 0000000..e21fa18
--- /dev/null
+++ b/pkg/node/missing_filters.go
@@ -0,0 +1,200 @@
+package node
+
+import (
+	"context"
+	"sort"
+	"time"
+
+	"github.com/btcsuite/btcd/chaincfg/chainhash"
+	log "github.com/sirupsen/logrus"
+	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
+	"github.com/vulpemventures/neutrino-elements/pkg/repository"
+)
+
+const (
+	// filterRetryIntervalSec is how long the node waits for a filter before it asks for it again
+	filterRetryIntervalSec = 30
+	// maxFilterRequests limits the getcfilters messages sent at once to ask for missing filters
+	maxFilterRequests = 100
+)
+
+type missingFilter struct {
+	height      uint32
+	requestedAt time.Time
+}
+
+func (n *node) addMissingFilter(hash chainhash.Hash, height uint32, requestedAt time.Time) {
+	n.missingFiltersLock.Lock()
+	defer n.missingFiltersLock.Unlock()
+
+	n.missingFilters[hash] = missingFilter{height: height, requestedAt: requestedAt}
+}
+
+func (n *node) isMissingFilter(hash chainhash.Hash) bool {
+	n.missingFiltersLock.Lock()
+	defer n.missingFiltersLock.Unlock()
+
+	_, ok := n.missingFilters[hash]
+	return ok
+}
+
+func (n *node) removeMissingFilter(hash chainhash.Hash) {
+	n.missingFiltersLock.Lock()
+	defer n.missingFiltersLock.Unlock()
+
+	delete(n.missingFilters, hash)
+}
+
+// monitorMissingFilters asks again for the filters that were not received,
+// also for those that an earlier run of the node did not receive.
+func (n *node) monitorMissingFilters() {
+	go n.findMissingFilters()
+
+	ticker := time.NewTicker(filterRetryIntervalSec * time.Second)
+	defer ticker.Stop()
+
+	for turn := 0; ; turn++ {
+		select {
+		case <-n.quit:
+			return
+		case <-ticker.C:
+			n.requestMissingFilters(turn)
+		}
+	}
+}
+
+// findMissingFilters walks the stored chain down from its tip.
+func (n *node) findMissingFilters() {
+	// retry repeats a read of the store until it succeeds or the node is stopped
+	retry := func(read func() error) bool {
+		for {
+			err := read()
+			if err == nil {
+				return true
+			}
+			log.Errorf("node: find missing filters: %s", err)
+
+			select {
+			case <-time.After(time.Second):
+			case <-n.quit:
+				return false
+			}
+		}
+	}
+
+	ctx := context.Background()
+	var hash chainhash.Hash
+	found := true
+	if !retry(func() error {
+		tip, err := n.blockHeadersDb.ChainTip(ctx)
+		if err == repository.ErrNoBlocksHeaders {
+			found = false
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		hash, err = tip.Hash()
+		return err
+	}) {
+		return
+	}
+
+	for found {
+		if !retry(func() error {
+			header, err := n.blockHeadersDb.GetBlockHeader(ctx, hash)
+			if err == repository.ErrBlockNotFound || (err == nil && header.Height == 0) {
+				found = false
+				return nil
+			}
+			if err != nil {
+				return err
+			}
+
+			_, err = n.filtersDb.GetFilter(ctx, repository.FilterKey{
+				BlockHash:  hash.CloneBytes(),
+				FilterType: repository.RegularFilter,
+			})
+			if err == repository.ErrFilterNotFound {
+				n.addMissingFilter(hash, header.Height, time.Time{})
+			} else if err != nil {
+				return err
+			}
+
+			prevHash, err := chainhash.NewHash(header.PrevBlockHash)
+			if err != nil {
+				return err
+			}
+			hash = *prevHash
+			return nil
+		}) {
+			return
+		}
+
+		select {
+		case <-n.quit:
+			return
+		default:
+		}
+	}
+}
+
+// requestMissingFilters asks one peer, in turns, for the filters requested too long ago.
+func (n *node) requestMissingFilters(turn int) {
+	peers := n.getPeers()
+	if len(peers) == 0 {
+		return
+	}
+	sort.Slice(peers, func(i, j int) bool { return peers[i].ID() < peers[j].ID() })
+	p := peers[turn%len(peers)]
+
+	for _, request := range n.missingFilterRequests() {
+		msg, err := protocol.NewMessage("getcfilters", n.Network, request)
+		if err != nil {
+			log.Error(err)
+			return
+		}
+		if err := n.sendMessage(p.Connection(), msg); err != nil {
+			log.Error(err)
+			return
+		}
+	}
+}
+
+// missingFilterRequests returns requests for as long as possible ranges of blocks.
+func (n *node) missingFilterRequests() []*protocol.MsgGetCFilters {
+	type missingBlock struct {
+		hash   chainhash.Hash
+		height uint32
+	}
+
+	n.missingFiltersLock.Lock()
+	defer n.missingFiltersLock.Unlock()
+
+	now := time.Now()
+	blocks := make([]missingBlock, 0)
+	for hash, missing := range n.missingFilters {
+		// give a request sent since the last turn some time
+		if now.Sub(missing.requestedAt) >= filterRetryIntervalSec*time.Second/2 {
+			blocks = append(blocks, missingBlock{hash, missing.height})
+		}
+	}
+	sort.Slice(blocks, func(i, j int) bool { return blocks[i].height < blocks[j].height })
+
+	requests := make([]*protocol.MsgGetCFilters, 0)
+	for i := 0; i < len(blocks) && len(requests) < maxFilterRequests; {
+		request := &protocol.MsgGetCFilters{
+			FilterType:  byte(repository.RegularFilter),
+			StartHeight: blocks[i].height,
+		}
+		first := blocks[i].height
+		for j := uint32(0); i < len(blocks) && blocks[i].height == first+j && j < protocol.BIP157MaxHeightDiff; j++ {
+			request.StopHash = blocks[i].hash
+			n.missingFilters[blocks[i].hash] = missingFilter{height: blocks[i].height, requestedAt: now}
+			i++
+		}
+		requests = append(requests, request)
+	}
+
+	return requests
+}
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 2b1db1d..503aa21 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/sirupsen/logrus"
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/go-elements/block"
@@ -62,6 +63,10 @@ type node struct {
 	filtersDb        repository.FilterRepository
 	blockHeadersDb   repository.BlockHeaderRepository
 
+	// missingFilters are the blocks stored without their filter, with the time of the last request
+	missingFiltersLock sync.Mutex
+	missingFilters     map[chainhash.Hash]missingFilter
+
 	memPool MemPool
 
 	quit       chan struct{}
@@ -100,6 +105,7 @@ func New(config NodeConfig) (NodeService, error) {
 		blockHeadersCh:   make(chan block.Header),
 		filtersDb:        config.FiltersDB,
 		blockHeadersDb:   config.BlockHeadersDB,
+		missingFilters:   make(map[chainhash.Hash]missingFilter),
 		memPool:          NewMemPool(),
 		initialHandshake: make(chan struct{}),
 		quit:             make(chan struct{}),
@@ -156,6 +162,7 @@ func (n *node) Start(initialOutboundPeerAddr string) error {
 	go n.monitorPeers()
 	go n.monitorBlockHeaders()
 	go n.monitorCFilters()
+	go n.monitorMissingFilters()
 	go n.checkSyncedInitial(initialPeer)
 
 	n.memPool.Start()
@@ -443,6 +450,13 @@ func (n *node) monitorBlockHeaders() {
 				continue
 			}
 
+			hash, err := newHeader.Hash()
+			if err != nil {
+				logrus.Error(err)
+				continue
+			}
+			n.addMissingFilter(hash, newHeader.Height, time.Now())
+
 			err = n.blockHeadersDb.WriteHeaders(context.Background(), newHeader)
 			if err != nil {
 				logrus.Error(err)
@@ -455,12 +469,6 @@ func (n *node) monitorBlockHeaders() {
 			log.Debugf("node: new block header: %v\n", newHeader.Height)
 
 			if bestPeer := n.getBestPeerForSync(); bestPeer != nil {
-				hash, err := newHeader.Hash()
-				if err != nil {
-					logrus.Error(err)
-					continue
-				}
-
 				getcFilter := protocol.MsgGetCFilters{
 					FilterType:  0,
 					StartHeight: newHeader.Height,
@@ -490,6 +498,11 @@ func (n *node) monitorCFilters() {
 		case <-n.quit:
 			return
 		case newCFilterMsg := <-n.compactFiltersCh:
+			if !n.isMissingFilter(*newCFilterMsg.BlockHash) {
+				logrus.Debugf("node: skip filter of block: %s", newCFilterMsg.BlockHash)
+				continue
+			}
+
 			entry, err := repository.NewFilterEntry(repository.FilterKey{
 				FilterType: repository.FilterType(newCFilterMsg.FilterType),
 				BlockHash:  newCFilterMsg.BlockHash.CloneBytes(),
@@ -504,6 +517,7 @@ func (n *node) monitorCFilters() {
 				logrus.Error(err)
 				continue
 			}
+			n.removeMissingFilter(*newCFilterMsg.BlockHash)
 		}
 	}
 }
-- 
2.43.0


From 0beef339f5fd4016b3c4c33833c3418d06c53966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:07 +0000
Subject: [PATCH 10/27] fix: send a transaction to the other peers when one of
 them fails

---
 pkg/node/node.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/node/node.go b/pkg/node/node.go
index 503aa21..13c548a 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -533,12 +533,20 @@ func (n *node) SendTransaction(txhex string) error {
 		return err
 	}
 
+	// a peer that cannot be reached is no reason to keep it from the others
+	sent := false
 	for _, peer := range n.getPeers() {
-		err = n.sendMessage(peer.Connection(), msg)
-		if err != nil {
-			return err
+		if sendErr := n.sendMessage(peer.Connection(), msg); sendErr != nil {
+			logrus.Error(sendErr)
+			err = sendErr
+			continue
 		}
+		sent = true
 	}
 
-	return nil
+	if sent {
+		return nil
+	}
+
+	return err
 }
-- 
2.43.0


From d3453e6f5d2cf42e1dd36c72150bf4d516b83565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:07 +0000
Subject: [PATCH 11/27] fix: serve the whole range of getcfilters in ascending
 order

---
 pkg/node/cmd_getcfilters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index 3800d54..4fbb271 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -42,7 +42,7 @@ func (n *node) handleGetCFilters(header *protocol.MessageHeader, payload io.Read
 		return fmt.Errorf("end height is too far away from start height")
 	}
 
-	for height := endBlockHeader.Height; height > getCFilters.StartHeight; height-- {
+	for height := getCFilters.StartHeight; height <= endBlockHeader.Height; height++ {
 		blockHash, err := n.blockHeadersDb.GetBlockHashByHeight(context.Background(), height)
 		if err != nil {
 			logrus.Error(err)
-- 
2.43.0


From 9a7f9d50c4841766f136e10cfbd90adf4fd24e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:16 +0000
Subject: [PATCH 12/27] fix: inv and getdata count their items with a varint

---
 pkg/protocol/msg_getdata.go | 4 ++--
 pkg/protocol/msg_inv.go     | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/protocol/msg_getdata.go b/pkg/protocol/msg_getdata.go
index 06b9834..5e98358 100644
--- a/pkg/protocol/msg_getdata.go
+++ b/pkg/protocol/msg_getdata.go
@@ -8,7 +8,7 @@ import (
 
 // MsgGetData represents 'getdata' message.
 type MsgGetData struct {
-	Count     uint8 // TODO: Change to var_int
+	Count     VarInt
 	Inventory []InvVector
 }
 
@@ -16,7 +16,7 @@ type MsgGetData struct {
 func (gd MsgGetData) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
-	b, err := binary.Marshal(gd.Count)
+	b, err := gd.Count.MarshalBinary()
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/protocol/msg_inv.go b/pkg/protocol/msg_inv.go
index d85e6e1..70ed012 100644
--- a/pkg/protocol/msg_inv.go
+++ b/pkg/protocol/msg_inv.go
@@ -16,7 +16,7 @@ const (
 
 // MsgInv represents 'inv' message.
 type MsgInv struct {
-	Count     uint8 // TODO: Change to var_int
+	Count     VarInt
 	Inventory []InvVector
 }
 
@@ -28,7 +28,12 @@ func (inv *MsgInv) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	for i := uint8(0); i < inv.Count; i++ {
+	count, err := inv.Count.Int()
+	if err != nil {
+		return err
+	}
+
+	for i := 0; i < count; i++ {
 		var v InvVector
 
 		if err := d.Decode(&v); err != nil {
-- 
2.43.0


From 4e977ab2a25814a18098163455d4588229974ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 13/27] fix: the in-memory header store keeps every header of a
 batch

All the headers written at once were stored as the last one of them, and asking
for the ancestors of an unknown block dereferenced nil.
---
 .../infrastructure/storage/db/inmemory/header_inmemory.go   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/inmemory/header_inmemory.go b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
index 72b9ff3..68b7a57 100644
--- a/internal/infrastructure/storage/db/inmemory/header_inmemory.go
+++ b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
@@ -73,6 +73,7 @@ func (h *headerInmemory) WriteHeaders(_ context.Context, headers ...block.Header
 	defer h.locker.Unlock()
 
 	for _, header := range headers {
+		header := header
 		hash, err := header.Hash()
 		if err != nil {
 			logrus.Error(err)
@@ -164,7 +165,10 @@ func (h *headerInmemory) HasAllAncestors(_ context.Context, hash chainhash.Hash)
 		return false, repository.ErrNoBlocksHeaders
 	}
 
-	blockHeader := h.headers[hash]
+	blockHeader, ok := h.headers[hash]
+	if !ok {
+		return false, repository.ErrBlockNotFound
+	}
 
 	for blockHeader.Height > 1 {
 		currentHash, err := chainhash.NewHash(blockHeader.PrevBlockHash)
-- 
2.43.0


From f21dc513be8c5ad81819794cf5942bfa3a2313be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 14/27] fix: encode cfilter messages and multi-byte varints

binary.Marshal dereferences what it is given, so it did not see the MarshalBinary
methods with pointer receivers: a cfilter could never be encoded, and a varint
above 252 lost its prefix and byte order.
---
 pkg/protocol/msg_cfilter.go | 4 ++--
 pkg/protocol/varint.go      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/protocol/msg_cfilter.go b/pkg/protocol/msg_cfilter.go
index afc31cf..87eff66 100644
--- a/pkg/protocol/msg_cfilter.go
+++ b/pkg/protocol/msg_cfilter.go
@@ -32,14 +32,14 @@ func NewMsgCFilter(network Magic, blockHash *chainhash.Hash, filter *gcs.Filter)
 	return NewMessage("cfilter", network, payload)
 }
 
-func (msg *MsgCFilter) MarshalBinary() ([]byte, error) {
+func (msg MsgCFilter) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
 	if err := buf.WriteByte(msg.FilterType); err != nil {
 		return nil, err
 	}
 
-	b, err := binary.Marshal(msg.BlockHash)
+	b, err := binary.Marshal([hashLen]byte(*msg.BlockHash))
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/protocol/varint.go b/pkg/protocol/varint.go
index f296b23..978cd94 100644
--- a/pkg/protocol/varint.go
+++ b/pkg/protocol/varint.go
@@ -82,7 +82,7 @@ func (vi VarInt) Int() (int, error) {
 	return 0, errInvalidVarIntValue
 }
 
-func (vi *VarInt) MarshalBinary() ([]byte, error) {
+func (vi VarInt) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
 	switch vi.Value.(type) {
-- 
2.43.0


From df6cfcbf7c1a7da3d3ae539e0306330a5cbe8159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:51 +0000
Subject: [PATCH 15/27] fix: give up connecting to a peer that does not answer
 after 10 s

---
 pkg/peer/peer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 5e26617..b00b4bf 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -26,6 +26,9 @@ type Peer interface {
 	SetPeersTip(startBlockHeight uint32)
 }
 
+// dialTimeout is how long connecting to a peer may take.
+const dialTimeout = 10 * time.Second
+
 // writeTimeout is how long a write to a peer may take.
 const writeTimeout = 30 * time.Second
 
@@ -62,7 +65,7 @@ type elementsPeer struct {
 }
 
 func NewElementsPeer(peerAddr string) (Peer, error) {
-	conn, err := net.Dial("tcp", peerAddr)
+	conn, err := net.DialTimeout("tcp", peerAddr, dialTimeout)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 906559824d0c03a5c01288edfcee7204bf89db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 16/27] fix: the scanner loses no watch and reports each match
 once

A watch added while the queue was empty could miss the only wake-up, as could
Stop. A failing pass dropped its whole batch; the first request of the queue
starved the others when its start height was in the future; several matches in
one block multiplied a persistent watch; a missing filter or block was skipped.
Stop did not interrupt a report nobody took, and crashed when called twice.
---
 pkg/scanner/request.go      |  19 +++
 pkg/scanner/requestqueue.go |  35 +++--
 pkg/scanner/scanner.go      | 293 +++++++++++++++++++++---------------
 3 files changed, 211 insertions(+), 136 deletions(-)

diff --git a/pkg/scanner/request.go b/pkg/scanner/request.go
index 820b6fe..a70a1b0 100644
--- a/pkg/scanner/request.go
+++ b/pkg/scanner/request.go
@@ -11,6 +11,25 @@ type ScanRequest struct {
 	Item WatchItem
 	// IsPersistent if true, the request will be re-added with StartHeight = StartHeiht + 1
 	IsPersistent bool
+
+	// reported is how many matches of the block at StartHeight have been reported already
+	reported int
+}
+
+// at returns the request to be continued at the given height, where the first matches have been reported already
+func (req *ScanRequest) at(height uint32, reported int) *ScanRequest {
+	next := *req
+	next.StartHeight = height
+	next.reported = reported
+	return &next
+}
+
+// reportedAt returns how many matches of the block at the given height have been reported already
+func (req *ScanRequest) reportedAt(height uint32) int {
+	if height != req.StartHeight {
+		return 0
+	}
+	return req.reported
 }
 
 type ScanRequestOption func(req *ScanRequest)
diff --git a/pkg/scanner/requestqueue.go b/pkg/scanner/requestqueue.go
index 7e014c0..185d35c 100644
--- a/pkg/scanner/requestqueue.go
+++ b/pkg/scanner/requestqueue.go
@@ -7,7 +7,8 @@ import (
 type scanRequestQueue struct {
 	requests []*ScanRequest
 	locker   sync.Locker
-	cond     sync.Cond
+	// added is signaled when a new request is enqueued
+	added chan struct{}
 }
 
 func newScanRequestQueue() *scanRequestQueue {
@@ -15,7 +16,7 @@ func newScanRequestQueue() *scanRequestQueue {
 	return &scanRequestQueue{
 		requests: make([]*ScanRequest, 0),
 		locker:   new(sync.Mutex),
-		cond:     sync.Cond{L: &sync.Mutex{}},
+		added:    make(chan struct{}, 1),
 	}
 }
 
@@ -38,27 +39,33 @@ func (queue *scanRequestQueue) dequeueAtHeight(height uint32) []*ScanRequest {
 }
 
 func (queue *scanRequestQueue) enqueue(req *ScanRequest) {
-	queue.locker.Lock()
-	defer queue.locker.Unlock()
-	defer queue.cond.Signal()
+	queue.requeue(req)
 
-	queue.requests = append(queue.requests, req)
+	select {
+	case queue.added <- struct{}{}:
+	default:
+	}
 }
 
-func (queue *scanRequestQueue) peek() *ScanRequest {
+// requeue puts back a request that was dequeued before
+func (queue *scanRequestQueue) requeue(req *ScanRequest) {
 	queue.locker.Lock()
 	defer queue.locker.Unlock()
 
-	if len(queue.requests) == 0 {
-		return nil
-	}
-
-	return queue.requests[0]
+	queue.requests = append(queue.requests, req)
 }
 
-func (queue *scanRequestQueue) isEmpty() bool {
+// nextStartHeight returns the lowest start height not below minHeight, false if there is none
+func (queue *scanRequestQueue) nextStartHeight(minHeight uint32) (uint32, bool) {
 	queue.locker.Lock()
 	defer queue.locker.Unlock()
 
-	return len(queue.requests) == 0
+	lowest, ok := uint32(0), false
+	for _, req := range queue.requests {
+		if req.StartHeight >= minHeight && (!ok || req.StartHeight < lowest) {
+			lowest, ok = req.StartHeight, true
+		}
+	}
+
+	return lowest, ok
 }
diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index d0a321c..cc6bd53 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -2,7 +2,11 @@ package scanner
 
 import (
 	"context"
+	"errors"
 	"fmt"
+	"sync"
+	"time"
+
 	"github.com/google/uuid"
 
 	"github.com/vulpemventures/go-elements/descriptor"
@@ -10,6 +14,7 @@ import (
 	"github.com/btcsuite/btcd/btcutil/gcs/builder"
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/sirupsen/logrus"
+	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/go-elements/transaction"
 	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
@@ -22,8 +27,13 @@ const (
 	SpentUtxo
 
 	numOsScripts = 100
+
+	// scanInterval is how long the scanner waits before it looks for new blocks
+	scanInterval = time.Second
 )
 
+var errStopped = errors.New("scanner stopped")
+
 type EventType int
 
 type Report struct {
@@ -56,13 +66,17 @@ type Service interface {
 }
 
 type scannerService struct {
+	// lock protects started, quitCh and doneCh
+	lock          sync.Mutex
 	started       bool
 	requestsQueue *scanRequestQueue
 	filterDB      repository.FilterRepository
 	headerDB      repository.BlockHeaderRepository
 	genesisHash   *chainhash.Hash
 	blockService  blockservice.BlockService
-	quitCh        chan struct{}
+	// quitCh is closed by Stop, doneCh when the requests manager has returned
+	quitCh chan struct{}
+	doneCh chan struct{}
 }
 
 var _ Service = (*scannerService)(nil)
@@ -78,7 +92,6 @@ func New(
 		filterDB:      filterDB,
 		headerDB:      headerDB,
 		blockService:  blockSvc,
-		quitCh:        make(chan struct{}),
 		genesisHash:   genesisHash,
 	}
 }
@@ -86,25 +99,38 @@ func New(
 func (s *scannerService) Start() (<-chan Report, error) {
 	log.Debugln("scanner: starting scanner ...")
 
+	s.lock.Lock()
+	defer s.lock.Unlock()
+
 	if s.started {
 		return nil, fmt.Errorf("scanner already started")
 	}
 
-	s.quitCh = make(chan struct{}, 1)
+	s.quitCh = make(chan struct{})
+	s.doneCh = make(chan struct{})
 	resultCh := make(chan Report)
 	// start the requests manager
-	go s.requestsManager(resultCh)
+	go s.requestsManager(resultCh, s.quitCh, s.doneCh)
 
 	s.started = true
 	return resultCh, nil
 }
 
+// Stop returns when the requests manager has stopped. The requests not resolved yet
+// stay in the queue, the next Start continues with them.
 func (s *scannerService) Stop() {
 	log.Debugln("scanner: stopping scanner ...")
 
-	s.quitCh <- struct{}{}
+	s.lock.Lock()
+	defer s.lock.Unlock()
+
+	if !s.started {
+		return
+	}
+
+	close(s.quitCh)
+	<-s.doneCh
 	s.started = false
-	//s.requestsQueue = newScanRequestQueue() TODO: commented cause data race
 }
 
 func (s *scannerService) Watch(opts ...ScanRequestOption) {
@@ -167,123 +193,168 @@ func (s *scannerService) WatchDescriptorWallet(
 }
 
 // requestsManager is responsible to resolve the requests that are waiting for in the queue.
-func (s *scannerService) requestsManager(ch chan<- Report) {
-	defer close(s.quitCh)
+func (s *scannerService) requestsManager(ch chan<- Report, quit <-chan struct{}, done chan<- struct{}) {
+	defer close(done)
+
+	ticker := time.NewTicker(scanInterval)
+	defer ticker.Stop()
 
 	for {
-		s.requestsQueue.cond.L.Lock()
-		for s.requestsQueue.isEmpty() {
-			logrus.Debug("scanner: scanner queue is empty, waiting for new requests")
-			s.requestsQueue.cond.Wait() // wait for new requests
+		s.scan(ch, quit)
 
-			// check if we should quit the routine
-			select {
-			case <-s.quitCh:
-				s.requestsQueue.cond.L.Unlock()
-				return
-			default:
-			}
+		// wait for new requests, or for new blocks
+		select {
+		case <-s.requestsQueue.added:
+		case <-ticker.C:
+		case <-quit:
+			return
+		}
+	}
+}
+
+// scan makes one pass over all the requests of the queue, from the lowest start height on.
+// The requests that cannot go on at some height (the filter or the block is not available yet,
+// the database fails) keep waiting there, they do not hold up those starting at a greater height.
+func (s *scannerService) scan(ch chan<- Report, quit <-chan struct{}) {
+	nextHeight := uint32(0)
+	for {
+		startHeight, ok := s.requestsQueue.nextStartHeight(nextHeight)
+		if !ok {
+			return
 		}
-		s.requestsQueue.cond.L.Unlock()
 
-		// get the next request without removing it from the queue
-		nextRequest := s.requestsQueue.peek()
-		err := s.requestWorker(nextRequest.StartHeight, ch)
+		chainTip, err := s.headerDB.ChainTip(context.Background())
 		if err != nil {
 			logrus.Errorf("error while scanning: %v", err)
+			return
 		}
-
-		// check if we should quit the routine
-		select {
-		case <-s.quitCh:
+		if startHeight > chainTip.Height {
 			return
-		default:
-			continue
 		}
 
+		reachedHeight, err := s.requestWorker(startHeight, ch, quit)
+		if err == errStopped {
+			return
+		}
+		if err != nil {
+			logrus.Errorf("error while scanning block %d: %v", reachedHeight, err)
+			reachedHeight++
+		}
+		nextHeight = reachedHeight
 	}
 }
 
-// will check if any blocks has the requested item
-// if yes, will extract the transaction that match the item
-// TODO handle properly errors (enqueue the unresolved requests ??)
-func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Report) error {
-	nextBatch := make([]*ScanRequest, 0)
-	nextHeight := startHeight
-
-	chainTip, err := s.headerDB.ChainTip(context.Background())
-	if err != nil {
-		return err
-	}
+// requestWorker scans the blocks from startHeight up to the chain tip: checks if any block has the requested items,
+// if yes, extracts the transactions that match the items.
+// It returns the height from which the scan is to be continued, the requests not resolved are put back
+// in the queue with that height.
+func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Report, quit <-chan struct{}) (uint32, error) {
+	batch := make([]*ScanRequest, 0)
+	height := startHeight
+
+	defer func() {
+		for _, req := range batch {
+			s.requestsQueue.requeue(req.at(height, req.reportedAt(height)))
+		}
+	}()
 
-	for nextHeight <= chainTip.Height {
-		// append all the requests with start height = nextHeight
-		nextBatch = append(nextBatch, s.requestsQueue.dequeueAtHeight(nextHeight)...)
+	for {
+		select {
+		case <-quit:
+			return height, errStopped
+		default:
+		}
 
-		itemsBytes := make([][]byte, len(nextBatch))
-		for i, req := range nextBatch {
-			itemsBytes[i] = req.Item.Bytes()
+		chainTip, err := s.headerDB.ChainTip(context.Background())
+		if err != nil {
+			return height, err
+		}
+		if height > chainTip.Height {
+			return height, nil
 		}
 
-		// get the block hash for height
-		var blockHash *chainhash.Hash
-		if nextHeight == 0 {
-			blockHash = s.genesisHash
-		} else {
-			blockHash, err = s.headerDB.GetBlockHashByHeight(context.Background(), nextHeight)
-			if err != nil {
-				return err
-			}
+		// append all the requests with start height = height
+		batch = append(batch, s.requestsQueue.dequeueAtHeight(height)...)
+		if len(batch) == 0 {
+			return height, nil
 		}
 
-		// check with filterDB if the block has one of the items
-		matched, err := s.blockFilterMatches(itemsBytes, blockHash)
+		batch, err = s.scanBlock(height, batch, reportsChan, quit)
 		if err != nil {
-			return err
+			return height, err
 		}
 
-		if matched {
-			reports, remainReqs, err := s.extractBlockMatches(blockHash, nextBatch)
-			if err != nil {
-				return err
-			}
+		height++
+	}
+}
 
-			for _, report := range reports {
-				// send the report to the output channel
-				reportsChan <- report
+// scanBlock reports the matches of the block at the given height. It returns the requests to be continued
+// at the next height or, with an error, those to be continued at the same height.
+func (s *scannerService) scanBlock(
+	height uint32,
+	requests []*ScanRequest,
+	reportsChan chan<- Report,
+	quit <-chan struct{},
+) ([]*ScanRequest, error) {
+	itemsBytes := make([][]byte, len(requests))
+	for i, req := range requests {
+		itemsBytes[i] = req.Item.Bytes()
+	}
 
-				// if the request is persistent, the scanner will keep watching the item at the next block height
-				if report.Request.IsPersistent {
-					s.Watch(
-						WithRequestID(report.Request.ClientID),
-						WithStartBlock(report.BlockHeight+1),
-						WithWatchItem(report.Request.Item),
-						WithPersistentWatch(),
-					)
-				}
-			}
+	// get the block hash for height
+	var blockHash *chainhash.Hash
+	var err error
+	if height == 0 {
+		blockHash = s.genesisHash
+	} else {
+		blockHash, err = s.headerDB.GetBlockHashByHeight(context.Background(), height)
+		if err != nil {
+			return requests, err
+		}
+	}
 
-			// if some requests remain, put them back in the next batch
-			// this will remove the resolved requests from the batch
-			nextBatch = remainReqs
+	// check with filterDB if the block has one of the items
+	matched, err := s.blockFilterMatches(itemsBytes, blockHash)
+	if err != nil {
+		if height == 0 && err == repository.ErrFilterNotFound {
+			return requests, nil // nobody serves the filter of the genesis block
 		}
+		return requests, err
+	}
+	if !matched {
+		return requests, nil
+	}
 
-		// increment the height to scan
-		// if nothing was found, we can just continue with same batch and next height
-		nextHeight++
+	block, err := s.blockService.GetBlock(blockHash)
+	if err != nil {
+		return requests, err
+	}
 
-		chainTip, err = s.headerDB.ChainTip(context.Background())
-		if err != nil {
-			return err
+	remainRequests := make([]*ScanRequest, 0, len(requests))
+	// unfinished are the same requests, as they have to be continued at this height after a stop
+	unfinished := make([]*ScanRequest, 0, len(requests))
+	for i, req := range requests {
+		reports := extractBlockMatches(blockHash, block, req)
+
+		for n := req.reportedAt(height); n < len(reports); n++ {
+			// send the report to the output channel
+			select {
+			case reportsChan <- reports[n]:
+			case <-quit:
+				unfinished = append(unfinished, req.at(height, n))
+				return append(unfinished, requests[i+1:]...), errStopped
+			}
 		}
-	}
 
-	// enqueue the remaining requests
-	for _, req := range nextBatch {
-		s.requestsQueue.enqueue(req)
+		// a request that is resolved is removed from the batch;
+		// if it is persistent, the scanner will keep watching the item at the next block height
+		if len(reports) == 0 || req.IsPersistent {
+			remainRequests = append(remainRequests, req)
+			unfinished = append(unfinished, req.at(height, len(reports)))
+		}
 	}
 
-	return nil
+	return remainRequests, nil
 }
 
 func (s *scannerService) blockFilterMatches(items [][]byte, blockHash *chainhash.Hash) (bool, error) {
@@ -294,9 +365,6 @@ func (s *scannerService) blockFilterMatches(items [][]byte, blockHash *chainhash
 
 	filter, err := s.filterDB.GetFilter(context.Background(), filterToFetchKey)
 	if err != nil {
-		if err == repository.ErrFilterNotFound {
-			return false, nil
-		}
 		return false, err
 	}
 
@@ -314,38 +382,19 @@ func (s *scannerService) blockFilterMatches(items [][]byte, blockHash *chainhash
 	return matched, nil
 }
 
-func (s *scannerService) extractBlockMatches(blockHash *chainhash.Hash, requests []*ScanRequest) ([]Report, []*ScanRequest, error) {
-	block, err := s.blockService.GetBlock(blockHash)
-	if err != nil {
-		if err == blockservice.ErrorBlockNotFound {
-			return nil, requests, nil // skip requests if block svc is not able to find the block
-		}
-
-		return nil, nil, err
-	}
-
+func extractBlockMatches(blockHash *chainhash.Hash, block *block.Block, req *ScanRequest) []Report {
 	results := make([]Report, 0)
 
-	remainRequests := make([]*ScanRequest, 0)
-
-	for _, req := range requests {
-		reqMatchedAtLeastOneTime := false
-		for _, tx := range block.TransactionsData.Transactions {
-			if req.Item.Match(tx) {
-				reqMatchedAtLeastOneTime = true
-				results = append(results, Report{
-					Transaction: tx,
-					BlockHash:   blockHash,
-					BlockHeight: block.Header.Height,
-					Request:     req,
-				})
-			}
-		}
-
-		if !reqMatchedAtLeastOneTime {
-			remainRequests = append(remainRequests, req)
+	for _, tx := range block.TransactionsData.Transactions {
+		if req.Item.Match(tx) {
+			results = append(results, Report{
+				Transaction: tx,
+				BlockHash:   blockHash,
+				BlockHeight: block.Header.Height,
+				Request:     req,
+			})
 		}
 	}
 
-	return results, remainRequests, nil
+	return results
 }
-- 
2.43.0


From ffe93fc089936a39d9bad7e924f9bf90a68a94e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:33 +0000
Subject: [PATCH 17/27] fix: the mempool announces each transaction once, in
 order, and stops cleanly

Transactions given twice were announced twice; each event was sent to each
subscriber by a goroutine of its own, so that confirmed could overtake
unconfirmed; the pool was read without its lock; a transaction or event in
flight while stopping was a send on a closed channel.
---
 pkg/node/mempool.go | 159 ++++++++++++++++++++++++++------------------
 1 file changed, 95 insertions(+), 64 deletions(-)

diff --git a/pkg/node/mempool.go b/pkg/node/mempool.go
index 92411d9..254ccef 100644
--- a/pkg/node/mempool.go
+++ b/pkg/node/mempool.go
@@ -17,29 +17,29 @@ const (
 )
 
 type MemPool struct {
-	//txChan receives new transactions from the network
-	txChan chan protocol.MsgTx
 	//quitChan receives a quit signal
 	quitChan chan struct{}
 
 	//txMap is a map of transactions that are in the memPool
 	txs map[string]txData
-	//txsMutex is a mutex to protect the txs map
+	//txsMutex is a mutex to protect the txs map, it also orders the events
 	txsMutex *sync.RWMutex
 
-	//txSubscribersMutex is a mutex to protect the txs map
+	//txSubscribersMutex is a mutex to protect the list of subscribers
 	txSubscribersMutex *sync.RWMutex
 	//txSubscribers is a list of subscribers listening for new transactions
-	txSubscribers []txSubscriber
+	txSubscribers []*txSubscriber
+	//stopOnce makes Stop idempotent
+	stopOnce *sync.Once
 }
 
 func NewMemPool() MemPool {
 	return MemPool{
-		txChan:             make(chan protocol.MsgTx),
 		txs:                make(map[string]txData),
 		quitChan:           make(chan struct{}),
 		txsMutex:           new(sync.RWMutex),
 		txSubscribersMutex: new(sync.RWMutex),
+		stopOnce:           new(sync.Once),
 	}
 }
 
@@ -84,20 +84,22 @@ type txData struct {
 type txSubscriber struct {
 	id      string
 	txEvent chan<- TxEvent
+
+	//queue holds the events the subscriber has not taken yet
+	queueMutex sync.Mutex
+	queue      []TxEvent
+	//queued is signaled when an event is added to the queue
+	queued chan struct{}
 }
 
 func (m *MemPool) Start() {
 	log.Debugln("mem-pool: mem-pool started")
-	go m.listenForNewTxs()
 }
 
 func (m *MemPool) Stop() {
-	close(m.txChan)
-	close(m.quitChan)
-	subs := m.getSubscribersSafe()
-	for _, v := range subs {
-		close(v.txEvent)
-	}
+	m.stopOnce.Do(func() {
+		close(m.quitChan)
+	})
 }
 
 func (m *MemPool) GetMemPool() map[string]transaction.Transaction {
@@ -113,22 +115,48 @@ func (m *MemPool) GetMemPool() map[string]transaction.Transaction {
 }
 
 func (m *MemPool) AddTx(tx protocol.MsgTx) {
-	m.txChan <- tx
+	select {
+	case <-m.quitChan:
+		return
+	default:
+	}
+
+	txID := tx.HashStr()
+
+	m.txsMutex.Lock()
+	defer m.txsMutex.Unlock()
+
+	if _, ok := m.txs[txID]; ok {
+		return
+	}
+	m.txs[txID] = txData{
+		tx:           tx.Transaction,
+		timeReceived: time.Now(),
+	}
+	m.notifySubscribers(TxUnConfirmedEvent{
+		txID: txID,
+		tx:   tx.Transaction,
+	})
+
+	log.Debugf("tx %s added to memPool", txID)
 }
 
 func (m *MemPool) AddSubscriber(id string) <-chan TxEvent {
 	m.txSubscribersMutex.Lock()
 	defer m.txSubscribersMutex.Unlock()
 	txEvent := make(chan TxEvent)
-	m.txSubscribers = append(m.txSubscribers, txSubscriber{
+	subscriber := &txSubscriber{
 		id:      id,
 		txEvent: txEvent,
-	})
+		queued:  make(chan struct{}, 1),
+	}
+	m.txSubscribers = append(m.txSubscribers, subscriber)
+	go subscriber.deliver(m.quitChan)
 
 	return txEvent
 }
 
-func (m *MemPool) getSubscribersSafe() []txSubscriber {
+func (m *MemPool) getSubscribersSafe() []*txSubscriber {
 	m.txSubscribersMutex.RLock()
 	defer m.txSubscribersMutex.RUnlock()
 
@@ -136,24 +164,20 @@ func (m *MemPool) getSubscribersSafe() []txSubscriber {
 }
 
 func (m *MemPool) CheckTxConfirmed(block block.Block) {
-	go m.checkTxConfirmed(block)
-}
-
-func (m *MemPool) checkTxConfirmed(block block.Block) {
 	//TODO: check if this is the best way to do this
-	for _, v := range m.txs {
-		for _, tx := range block.TransactionsData.Transactions {
-			if tx.TxHash().String() == v.tx.TxHash().String() {
-				if err := m.removeTxFromMemPool(v.tx.TxHash().String()); err != nil {
-					log.Errorln("failed to remove tx from memPool")
-				}
-
-				m.notifySubscribers(TxConfirmedEvent{
-					txID: tx.TxHash().String(),
-					tx:   *tx,
-				})
-			}
+	m.txsMutex.Lock()
+	defer m.txsMutex.Unlock()
+
+	for _, tx := range block.TransactionsData.Transactions {
+		txID := tx.TxHash().String()
+		if _, ok := m.txs[txID]; !ok {
+			continue
 		}
+		delete(m.txs, txID)
+		m.notifySubscribers(TxConfirmedEvent{
+			txID: txID,
+			tx:   *tx,
+		})
 	}
 }
 
@@ -168,45 +192,52 @@ func (m *MemPool) removeTxFromMemPool(txID string) error {
 	return errors.New("tx not found")
 }
 
-func (m *MemPool) addTx(txID string, txData txData) {
-	m.txsMutex.Lock()
-	defer m.txsMutex.Unlock()
-
-	if _, ok := m.txs[txID]; !ok {
-		m.txs[txID] = txData
+// notifySubscribers queues the event for every subscriber, in the same order for all of them.
+func (m *MemPool) notifySubscribers(txEvent TxEvent) {
+	subs := m.getSubscribersSafe()
+	for _, v := range subs {
+		v.enqueue(txEvent)
 	}
 }
 
-func (m *MemPool) listenForNewTxs() {
-	log.Debugln("mem-pool: listening for new transactions")
+func (s *txSubscriber) enqueue(txEvent TxEvent) {
+	s.queueMutex.Lock()
+	s.queue = append(s.queue, txEvent)
+	s.queueMutex.Unlock()
 
-	for tx := range m.txChan {
-		m.addTx(
-			tx.HashStr(),
-			txData{
-				tx:           tx.Transaction,
-				timeReceived: time.Now(),
-			},
-		)
+	select {
+	case s.queued <- struct{}{}:
+	default:
+	}
+}
 
-		m.notifySubscribers(TxUnConfirmedEvent{
-			txID: tx.HashStr(),
-			tx:   tx.Transaction,
-		})
+func (s *txSubscriber) dequeueAll() []TxEvent {
+	s.queueMutex.Lock()
+	defer s.queueMutex.Unlock()
 
-		log.Debugf("tx %s added to memPool", tx.HashStr())
-	}
+	queue := s.queue
+	s.queue = nil
 
-	log.Debugln("mem-pool: memPool listener stopped")
+	return queue
 }
 
-func (m *MemPool) notifySubscribers(txEvent TxEvent) {
-	subs := m.getSubscribersSafe()
-	for _, v := range subs {
-		go func(subscriber txSubscriber) {
-			log.Debugf("notifying subscriber %s of new tx started", subscriber.id)
-			subscriber.txEvent <- txEvent
-			log.Debugf("notifying subscriber %s of new tx done", subscriber.id)
-		}(v)
+// deliver hands the queued events to the subscriber until the memPool is stopped.
+func (s *txSubscriber) deliver(quit <-chan struct{}) {
+	defer close(s.txEvent)
+
+	for {
+		select {
+		case <-s.queued:
+		case <-quit:
+			return
+		}
+
+		for _, txEvent := range s.dequeueAll() {
+			select {
+			case s.txEvent <- txEvent:
+			case <-quit:
+				return
+			}
+		}
 	}
 }
-- 
2.43.0


From 6937187f0224554d8842b2d14e873d68376de365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:55 +0000
Subject: [PATCH 18/27] fix: the Postgres repositories report failures, and
 lose no header of a batch

A lost connection was a failed type assertion, that is a crash, or an empty
result taken for 'not found'; one header already stored rolled back its whole
batch and reported success; a missing height was reported by another error
than the in-memory repository's.
---
 .../storage/db/pg/filter_repository_impl.go   | 22 +++++++++---------
 .../storage/db/pg/header_repository_impl.go   | 23 +++++++++----------
 2 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/filter_repository_impl.go b/internal/infrastructure/storage/db/pg/filter_repository_impl.go
index d38871f..5bfda34 100644
--- a/internal/infrastructure/storage/db/pg/filter_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/filter_repository_impl.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"database/sql"
+	"errors"
 	"fmt"
 	"github.com/lib/pq"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
@@ -49,19 +50,18 @@ func (f filterRepositoryImpl) PutFilter(
 		&filter,
 	)
 	if err != nil {
-		if pqErr := err.(*pq.Error); pqErr != nil {
-			if pqErr.Code == uniqueViolation {
-				f, err := f.GetFilter(ctx, entry.Key)
-				if err != nil {
-					return fmt.Errorf("PutFilter -> failed to get filter: %w", err)
-				}
-
-				if !bytes.Equal(f.NBytes, entry.NBytes) {
-					return fmt.Errorf("PutFilter -> filter already exists but with different value")
-				}
+		var pqErr *pq.Error
+		if errors.As(err, &pqErr) && pqErr.Code == uniqueViolation {
+			f, err := f.GetFilter(ctx, entry.Key)
+			if err != nil {
+				return fmt.Errorf("PutFilter -> failed to get filter: %w", err)
+			}
 
-				return nil
+			if !bytes.Equal(f.NBytes, entry.NBytes) {
+				return fmt.Errorf("PutFilter -> filter already exists but with different value")
 			}
+
+			return nil
 		}
 		return err
 	}
diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index 65a9ccf..dc403bd 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -7,8 +7,6 @@ import (
 	"github.com/btcsuite/btcd/blockchain"
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/btcsuite/btcd/wire"
-	"github.com/lib/pq"
-	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
@@ -120,15 +118,10 @@ func (h *headerRepositoryImpl) WriteHeaders(
 			HeaderBytes: headerBytes,
 		}
 
-		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes);`
+		// a header that already exists must not fail the others of the batch
+		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes) ON CONFLICT (hash) DO NOTHING;`
 
 		if _, err = tx.NamedExec(query, bh); err != nil {
-			if pqErr := err.(*pq.Error); pqErr != nil {
-				if pqErr.Code == uniqueViolation {
-					log.Warnf("header already exists: %s", hash.String())
-					return nil
-				}
-			}
 			return err
 		}
 	}
@@ -221,7 +214,10 @@ func (h *headerRepositoryImpl) blockLocatorFromHash(blck *block.Header) (blockch
 	height := blck.Height
 	decrement := uint32(1)
 	for height > 0 && len(locator) < wire.MaxBlockLocatorsPerMsg {
-		blockHeader, _ := headersMap[height]
+		blockHeader, ok := headersMap[height]
+		if !ok {
+			return nil, repository.ErrBlockNotFound
+		}
 
 		headerHash, err := blockHeader.Hash()
 		if err != nil {
@@ -253,7 +249,7 @@ func (h *headerRepositoryImpl) getBlockHeaderByHeight(height uint32) (*block.Hea
 	err := h.db.Db.Get(blockHeader, query, height)
 	if err != nil {
 		if err == sql.ErrNoRows {
-			return nil, repository.ErrNoBlocksHeaders
+			return nil, repository.ErrBlockNotFound
 		}
 
 		return nil, err
@@ -272,7 +268,10 @@ func (h *headerRepositoryImpl) getAllBlockHeaders() ([]*block.Header, error) {
 
 	blockHeaders := []*BlockHeader{}
 	err := h.db.Db.Select(&blockHeaders, query)
-	if err == sql.ErrNoRows {
+	if err != nil {
+		return nil, err
+	}
+	if len(blockHeaders) == 0 {
 		return nil, repository.ErrNoBlocksHeaders
 	}
 
-- 
2.43.0


From f6c04e4c5b7879bebff8f4cee9db7c408f2465ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:01 +0000
Subject: [PATCH 19/27] fix: subscriptions take effect before they are
 confirmed, and no client can crash or block the service

- Subscribe registers the watch itself and returns its failure
- a subscription has a watch of its own, so nothing is delivered for an earlier one
- writes to a connection are serialized and have a deadline
- events for a client that left no longer dereference a nil subscriber
- malformed requests and unknown actions are answered with an error
- a disconnected client is unsubscribed
- Stop ends everything, whoever is blocked
- webhooks register and unregister by endpoint, with the documented event types
---
 .../core/application/notification_service.go  | 149 +++++------
 internal/core/application/types.go            |   5 +-
 .../web-socket/handler/http_handler.go        |  84 +++---
 .../handler/notification_handler.go           | 241 +++++++++---------
 .../interface/web-socket/handler/types.go     |   3 +
 .../web-socket/handler/ws_handler.go          | 181 ++++++-------
 pkg/neutrinod-types/types_http.go             |  12 +-
 7 files changed, 335 insertions(+), 340 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index 025786b..08d0d62 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -5,7 +5,7 @@ import (
 	"github.com/google/uuid"
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
-	"runtime/debug"
+	"sync"
 )
 
 type NotificationService interface {
@@ -13,50 +13,43 @@ type NotificationService interface {
 	Stop()
 	Subscribe(subscriber Subscriber) error
 	UnSubscribe(subscriber Subscriber) error
+	// IsWatched tells whether the watch of an event report is still subscribed
+	IsWatched(watchID uuid.UUID) bool
 	EventReport() chan SubscriberEventReport
 	ErrorReport() chan SubscriberErrorReport
 }
 
 type notificationService struct {
-	// subscribers is a map of subscriber IDs and Subscribers with wallet descriptors
-	subscribers map[SubscriberID]Subscriber
+	// lock protects watches
+	lock sync.RWMutex
+	// watches maps the ID of each subscription's watch to its subscriber
+	watches map[uuid.UUID]SubscriberID
 	// scannerSvc is the scanner service used to watch on-chain events
 	scannerSvc scanner.Service
 
-	// registerSubs is a channel used to register subscribers
-	registerSubs chan Subscriber
-	// unregisterSubs is a channel used to unregister subscribers
-	unregisterSubs chan Subscriber
-
 	// subsEventReport is a channel used to report events to subscribers
 	subsEventReport chan SubscriberEventReport
 	// subsErrorReport is a channel used to report errors to subscribers
 	subsErrorReport chan SubscriberErrorReport
 
-	// quitHandleOnChainEvents is a channel used to stop handleOnChainEvents
-	quitHandleOnChainEvents chan struct{}
-	// quitHandleOnChainEvents is a channel used to stop handleOnChainEvents
-	quitHandleSubscribers chan struct{}
+	// quit is closed to stop handleOnChainEvents
+	quit     chan struct{}
+	stopOnce sync.Once
 }
 
 func NewNotificationService(
 	scannerSvc scanner.Service,
 ) NotificationService {
 	return &notificationService{
-		subscribers:             make(map[SubscriberID]Subscriber),
-		scannerSvc:              scannerSvc,
-		registerSubs:            make(chan Subscriber),
-		unregisterSubs:          make(chan Subscriber),
-		subsEventReport:         make(chan SubscriberEventReport),
-		subsErrorReport:         make(chan SubscriberErrorReport),
-		quitHandleOnChainEvents: make(chan struct{}),
-		quitHandleSubscribers:   make(chan struct{}),
+		watches:         make(map[uuid.UUID]SubscriberID),
+		scannerSvc:      scannerSvc,
+		subsEventReport: make(chan SubscriberEventReport),
+		subsErrorReport: make(chan SubscriberErrorReport),
+		quit:            make(chan struct{}),
 	}
 }
 
 func (n *notificationService) Start() error {
-	go n.handleSubscribers()
-
 	scannerReport, err := n.scannerSvc.Start()
 	if err != nil {
 		return err
@@ -77,66 +70,36 @@ func (n *notificationService) ErrorReport() chan SubscriberErrorReport {
 }
 
 func (n *notificationService) Stop() {
-	log.Debug("sss")
-	n.quitHandleOnChainEvents <- struct{}{}
-	n.quitHandleSubscribers <- struct{}{}
-	log.Debug("sssdsds")
+	n.stopOnce.Do(func() {
+		close(n.quit)
+	})
 }
 
 func (n *notificationService) handleOnChainEvents(scannerReport <-chan scanner.Report) {
-	defer func() {
-		if err := recover(); err != nil {
-			log.Errorf("handleOnChainEvents recovered from panic: %v", err)
-			log.Tracef("handleOnChainEvents recovered from panic: %v", string(debug.Stack()))
-		}
-	}()
 	for {
 		select {
 		case report := <-scannerReport:
-			n.subsEventReport <- SubscriberEventReport{
-				SubscriberID: SubscriberID(report.Request.ClientID),
+			n.lock.RLock()
+			subscriberID, ok := n.watches[report.Request.ClientID]
+			n.lock.RUnlock()
+			if !ok { // not subscribed any more
+				continue
+			}
+
+			select {
+			case n.subsEventReport <- SubscriberEventReport{
+				SubscriberID: subscriberID,
+				WatchID:      report.Request.ClientID,
 				EventType:    report.Request.Item.EventType(),
 				BlockHeight:  int(report.BlockHeight),
 				BlockHash:    report.BlockHash,
 				Transaction:  report.Transaction,
-			}
-		case <-n.quitHandleOnChainEvents:
-			log.Debug("notificationService -> handleOnChainEvents stopped")
-			return
-		}
-	}
-}
-
-func (n *notificationService) handleSubscribers() {
-	defer func() {
-		if err := recover(); err != nil {
-			log.Errorf("handleSubscribers recovered from panic: %v", err)
-			log.Tracef("handleSubscribers recovered from panic: %v", string(debug.Stack()))
-		}
-	}()
-
-	for {
-		select {
-		case sub := <-n.registerSubs:
-			n.subscribers[sub.ID] = sub
-
-			if err := n.scannerSvc.WatchDescriptorWallet(
-				uuid.UUID(sub.ID),
-				sub.WalletDescriptor,
-				sub.Events,
-				sub.BlockHeight,
-			); err != nil {
-				n.subsErrorReport <- SubscriberErrorReport{
-					SubscriberID: sub.ID,
-					ErrorMsg:     err,
-				}
-
+			}:
+			case <-n.quit:
 				return
 			}
-		case sub := <-n.unregisterSubs:
-			delete(n.subscribers, sub.ID)
-		case <-n.quitHandleSubscribers:
-			log.Debug("notificationService -> handleSubscribers stopped")
+		case <-n.quit:
+			log.Debug("notificationService -> handleOnChainEvents stopped")
 			return
 		}
 	}
@@ -149,22 +112,50 @@ func (n *notificationService) Subscribe(
 		return err
 	}
 
-	go func() {
-		n.registerSubs <- subscriber
-	}()
+	// each subscription has a watch of its own, so that the events of an
+	// earlier one can be told from those of a later one
+	watchID := uuid.New()
+	n.lock.Lock()
+	n.watches[watchID] = subscriber.ID
+	n.lock.Unlock()
+
+	if err := n.scannerSvc.WatchDescriptorWallet(
+		watchID,
+		subscriber.WalletDescriptor,
+		subscriber.Events,
+		subscriber.BlockHeight,
+	); err != nil {
+		n.lock.Lock()
+		delete(n.watches, watchID)
+		n.lock.Unlock()
+		return err
+	}
 
 	return nil
 }
 
 func (n *notificationService) UnSubscribe(subscriber Subscriber) error {
-	_, ok := n.subscribers[subscriber.ID]
-	if !ok {
+	n.lock.Lock()
+	defer n.lock.Unlock()
+
+	found := false
+	for watchID, subscriberID := range n.watches {
+		if subscriberID == subscriber.ID {
+			delete(n.watches, watchID)
+			found = true
+		}
+	}
+	if !found {
 		return errors.New("subscriber not found")
 	}
 
-	go func() {
-		n.unregisterSubs <- subscriber
-	}()
-
 	return nil
 }
+
+func (n *notificationService) IsWatched(watchID uuid.UUID) bool {
+	n.lock.RLock()
+	defer n.lock.RUnlock()
+
+	_, ok := n.watches[watchID]
+	return ok
+}
diff --git a/internal/core/application/types.go b/internal/core/application/types.go
index a32f73e..864f522 100644
--- a/internal/core/application/types.go
+++ b/internal/core/application/types.go
@@ -1,6 +1,8 @@
 package application
 
 import (
+	"math"
+
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/google/uuid"
 	"github.com/vulpemventures/go-elements/transaction"
@@ -22,7 +24,7 @@ func (s *Subscriber) validate() error {
 	return validation.ValidateStruct(
 		s,
 		validation.Field(&s.ID, validation.Required),
-		validation.Field(&s.BlockHeight, validation.Min(1)),
+		validation.Field(&s.BlockHeight, validation.Min(1), validation.Max(math.MaxInt32)),
 		validation.Field(&s.Events, validation.Required),
 		validation.Field(&s.WalletDescriptor, validation.Required),
 	)
@@ -30,6 +32,7 @@ func (s *Subscriber) validate() error {
 
 type SubscriberEventReport struct {
 	SubscriberID SubscriberID
+	WatchID      uuid.UUID
 	EventType    scanner.EventType
 	BlockHeight  int
 	Transaction  *transaction.Transaction
diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 8894a8f..e0d833f 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -2,6 +2,8 @@ package handler
 
 import (
 	"encoding/json"
+	"errors"
+	"fmt"
 	"github.com/google/uuid"
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/internal/core/application"
@@ -21,61 +23,67 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 		return
 	}
 
-	subsID := uuid.New()
-	d.registerSubs <- &HttpSubscriber{
-		ID:          SubscriberID(subsID),
-		EndpointUrl: subscriptionReq.EndpointUrl,
+	// a webhook is known by its endpoint
+	subsID := uuid.NewSHA1(uuid.NameSpaceURL, []byte(subscriptionReq.EndpointUrl))
+
+	successMsg, err := d.handleSubscriptionRequestHttp(subsID, subscriptionReq)
+	if err != nil {
+		log.Errorf("unsucesfull request: %v, subscriber: %v", err, subsID)
+
+		sendResponseToSubscriberHttp(w, neutrinodtypes.MessageErrorResponse{
+			ErrorMessage: err.Error(),
+		})
+		return
+	}
+
+	log.Infof("%v, subscriber: %v", successMsg, subsID)
+
+	sendResponseToSubscriberHttp(w, neutrinodtypes.GeneralMessageResponse{
+		Message: successMsg,
+	})
+}
+
+// handleSubscriptionRequestHttp handles a request for a webhook, returns the message to be sent on success
+func (d *descriptorWalletNotifierHandler) handleSubscriptionRequestHttp(
+	subsID uuid.UUID,
+	subscriptionReq neutrinodtypes.SubscriptionRequestHttp,
+) (string, error) {
+	events, err := toScannerEventTypes(subscriptionReq.EventTypes)
+	if err != nil {
+		return "", fmt.Errorf("un-successful registration: %w", err)
 	}
 
 	switch subscriptionReq.ActionType {
 	case neutrinodtypes.Register:
+		if subscriptionReq.EndpointUrl == "" {
+			return "", errors.New("un-successful registration: endpointUrl is missing")
+		}
+		// before the subscription, no event must be lost
+		if !d.addSubscriberSafe(&HttpSubscriber{
+			ID:          SubscriberID(subsID),
+			EndpointUrl: subscriptionReq.EndpointUrl,
+		}) {
+			return "", errors.New("un-successful registration: the service is stopped")
+		}
 		if err := d.notificationSvc.Subscribe(application.Subscriber{
 			ID:               application.SubscriberID(subsID),
 			BlockHeight:      subscriptionReq.StartBlockHeight,
-			Events:           subscriptionReq.EventTypes,
+			Events:           events,
 			WalletDescriptor: subscriptionReq.DescriptorWallet,
 		}); err != nil {
-			log.Errorf("unsucesfull registration: %v, subscriber: %v", err, subsID)
-
-			resp := neutrinodtypes.MessageErrorResponse{
-				ErrorMessage: "un-successful registration",
-			}
-			sendResponseToSubscriberHttp(w, resp)
-		}
-		log.Infof("sucesfull registration, subscriber: %v", subsID)
-
-		resp := neutrinodtypes.GeneralMessageResponse{
-			Message: "successful registration",
+			return "", fmt.Errorf("un-successful registration: %w", err)
 		}
-		sendResponseToSubscriberHttp(w, resp)
+		return "successful registration", nil
 	case neutrinodtypes.Unregister:
 		if err := d.notificationSvc.UnSubscribe(application.Subscriber{
 			ID: application.SubscriberID(subsID),
 		}); err != nil {
-			log.Errorf("unsucesfull un-registration: %v, subscriber: %v", err, subsID)
-
-			resp := neutrinodtypes.MessageErrorResponse{
-				ErrorMessage: "un-successful un-registration",
-			}
-			sendResponseToSubscriberHttp(w, resp)
+			return "", fmt.Errorf("un-successful un-registration: %w", err)
 		}
-
-		log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
-
-		resp := neutrinodtypes.GeneralMessageResponse{
-			Message: "successful un-registration",
-		}
-		sendResponseToSubscriberHttp(w, resp)
+		return "successful un-registration", nil
 	default:
-		log.Errorf("unknown action type: %v\n", subscriptionReq.ActionType)
-
-		resp := neutrinodtypes.MessageErrorResponse{
-			ErrorMessage: "bad request",
-		}
-		sendResponseToSubscriberHttp(w, resp)
+		return "", fmt.Errorf("bad request: unknown action type: %v", subscriptionReq.ActionType)
 	}
-
-	log.Debugf("new ws subscriber connected: %v", subsID)
 }
 
 func sendResponseToSubscriberHttp[
diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index fd4b6e8..c8e042b 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -3,7 +3,6 @@ package handler
 import (
 	"bytes"
 	"encoding/json"
-	"github.com/google/uuid"
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/internal/core/application"
 	neutrinodtypes "github.com/vulpemventures/neutrino-elements/pkg/neutrinod-types"
@@ -15,6 +14,8 @@ import (
 
 const (
 	maxMessageSize = 512
+	// writeTimeout is how long a subscriber may take to receive a message
+	writeTimeout = 10 * time.Second
 
 	wsType   SubscriberType = "ws"
 	httpType SubscriberType = "http"
@@ -32,15 +33,14 @@ type descriptorWalletNotifierHandler struct {
 	subscribers map[SubscriberID]Subscriber
 	// subscribersLock is a mutex for subscribers map
 	subscribersLock *sync.RWMutex
-	// registerSubs is a channel for registering subscribers
-	registerSubs chan Subscriber
-	// unregisterSubs is a channel for unregistering subscribers
-	unregisterSubs chan Subscriber
-
-	// quit is a channel for stopping handleSubscribers
-	quitHandleSubscribers chan struct{}
-	// quit is a channel for stopping handleSubscribers
-	quitHandleOnChainNotifications chan struct{}
+	// stopped tells that no more subscribers are accepted
+	stopped bool
+
+	// httpClient posts to the webhooks
+	httpClient *http.Client
+
+	// quit is closed to stop handleOnChainNotifications
+	quit chan struct{}
 }
 
 type DescriptorWalletNotifierHandler interface {
@@ -54,102 +54,41 @@ func NewDescriptorWalletNotifierHandler(
 	notificationSvc application.NotificationService,
 ) DescriptorWalletNotifierHandler {
 	return &descriptorWalletNotifierHandler{
-		notificationSvc:                notificationSvc,
-		subscribers:                    make(map[SubscriberID]Subscriber),
-		subscribersLock:                new(sync.RWMutex),
-		registerSubs:                   make(chan Subscriber),
-		unregisterSubs:                 make(chan Subscriber),
-		quitHandleSubscribers:          make(chan struct{}),
-		quitHandleOnChainNotifications: make(chan struct{}),
+		notificationSvc: notificationSvc,
+		subscribers:     make(map[SubscriberID]Subscriber),
+		subscribersLock: new(sync.RWMutex),
+		httpClient:      &http.Client{Timeout: writeTimeout},
+		quit:            make(chan struct{}),
 	}
 }
 
 func (d *descriptorWalletNotifierHandler) Start() {
 	go d.handleOnChainNotifications()
-	go d.handleSubscribers()
 }
 
 func (d *descriptorWalletNotifierHandler) Stop() {
-	d.quitHandleSubscribers <- struct{}{}
-	d.quitHandleOnChainNotifications <- struct{}{}
-	time.Sleep(time.Second) // wait for DescriptorWalletNotifierHandler to stop
-
-	d.notificationSvc.Stop()
-}
-
-func (d *descriptorWalletNotifierHandler) handleSubscribers() {
-	for {
-		select {
-		case sub := <-d.registerSubs:
-			log.Debugf("subscriber: %v, registrated", uuid.UUID(sub.SubscriberID()).String())
-			d.addSubscriberSafe(sub)
-
-		case sub := <-d.unregisterSubs:
-			log.Infof("subscriber: %v, un-registered", uuid.UUID(sub.SubscriberID()).String())
-			d.deleteSubscriberSafe(sub.SubscriberID())
-			if err := d.notificationSvc.UnSubscribe(application.Subscriber{
-				ID: application.SubscriberID(sub.SubscriberID()),
-			}); err != nil {
-				log.Errorf("failed unsubscribing from chain: %v", err.Error())
-			}
-
-		case <-d.quitHandleSubscribers:
-			log.Debugf("descriptorWalletNotifierHandler -> handleSubscribers stopped")
-			return
+	d.subscribersLock.Lock()
+	if d.stopped {
+		d.subscribersLock.Unlock()
+		return
+	}
+	d.stopped = true
+	close(d.quit)
+	for _, subscriber := range d.subscribers {
+		if wsSubscriber, ok := subscriber.(*WsSubscriber); ok {
+			wsSubscriber.WsConnection.Close()
 		}
 	}
+	d.subscribersLock.Unlock()
+
+	d.notificationSvc.Stop()
 }
 
 func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
-	defer func() {
-		if err := recover(); err != nil {
-			log.Errorf("handleOnChainNotifications recovered from panic: %v", err)
-			log.Tracef("handleOnChainNotifications recovered from panic: %v", string(debug.Stack()))
-		}
-	}()
 	for {
 		select {
 		case eventReport := <-d.notificationSvc.EventReport():
-			subscriber := d.getSubscriberSafe(SubscriberID(eventReport.SubscriberID))
-
-			eventType, err := neutrinodtypes.FromScannerEventTypeToNeutrinodType(eventReport.EventType)
-			if err != nil {
-				log.Errorf("failed to convert FromScannerEventTypeToNeutrinodType: %v", err.Error())
-				continue
-			}
-
-			response := neutrinodtypes.OnChainEventResponse{
-				EventType: eventType,
-				TxID:      eventReport.Transaction.TxHash().String(),
-			}
-
-			switch subscriber.Type() {
-			case wsType:
-				wsSubscriber := subscriber.(*WsSubscriber)
-				if err := sendResponseToSubscriberWs(*wsSubscriber, response); err != nil {
-					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					continue
-				}
-			case httpType:
-				httpSubscriber := subscriber.(*HttpSubscriber)
-				go func() {
-					respJson, err := json.Marshal(response)
-					if err != nil {
-						log.Errorf("handleOnChainNotifications -> %v", err)
-					}
-
-					resp, err := http.Post(
-						httpSubscriber.EndpointUrl,
-						"application/json",
-						bytes.NewBuffer(respJson),
-					)
-					if err != nil {
-						log.Errorf("failed sending response to subscriber: %v", err.Error())
-						return
-					}
-					defer resp.Body.Close()
-				}()
-			}
+			d.handleEventReport(eventReport)
 
 		case errReport := <-d.notificationSvc.ErrorReport():
 			log.Errorf(
@@ -157,48 +96,92 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 				errReport.ErrorMsg,
 				errReport.SubscriberID,
 			)
+			d.handleErrorReport(errReport)
 
-			subscriber := d.getSubscriberSafe(SubscriberID(errReport.SubscriberID))
-
-			response := neutrinodtypes.MessageErrorResponse{
-				ErrorMessage: errReport.ErrorMsg.Error(),
-			}
-
-			switch subscriber.Type() {
-			case wsType:
-				wsSubscriber := subscriber.(*WsSubscriber)
-				if err := sendResponseToSubscriberWs(*wsSubscriber, response); err != nil {
-					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					continue
-				}
-			case httpType:
-				httpSubscriber := subscriber.(*HttpSubscriber)
-				go func() {
-					respJson, err := json.Marshal(response)
-					if err != nil {
-						log.Errorf("handleOnChainNotifications -> %v", err)
-					}
-
-					resp, err := http.Post(
-						httpSubscriber.EndpointUrl,
-						"application/json",
-						bytes.NewBuffer(respJson),
-					)
-					if err != nil {
-						log.Errorf("failed sending response to subscriber: %v", err.Error())
-						return
-					}
-					defer resp.Body.Close()
-				}()
-			}
-
-		case <-d.quitHandleOnChainNotifications:
+		case <-d.quit:
 			log.Debugf("descriptorWalletNotifierHandler -> handleOnChainNotifications stopped")
 			return
 		}
 	}
 }
 
+func (d *descriptorWalletNotifierHandler) handleEventReport(eventReport application.SubscriberEventReport) {
+	defer recoverAndLog("handleEventReport")
+
+	eventType, err := neutrinodtypes.FromScannerEventTypeToNeutrinodType(eventReport.EventType)
+	if err != nil {
+		log.Errorf("failed to convert FromScannerEventTypeToNeutrinodType: %v", err.Error())
+		return
+	}
+
+	response := neutrinodtypes.OnChainEventResponse{
+		EventType: eventType,
+		TxID:      eventReport.Transaction.TxHash().String(),
+	}
+
+	switch subscriber := d.getSubscriberSafe(SubscriberID(eventReport.SubscriberID)).(type) {
+	case *WsSubscriber:
+		if err := sendEventToSubscriberWs(subscriber, response, func() bool {
+			return d.notificationSvc.IsWatched(eventReport.WatchID)
+		}); err != nil {
+			log.Errorf("failed sending response to subscriber: %v", err.Error())
+		}
+	case *HttpSubscriber:
+		if d.notificationSvc.IsWatched(eventReport.WatchID) {
+			go postToSubscriberHttp(d.httpClient, subscriber, response)
+		}
+	}
+}
+
+func (d *descriptorWalletNotifierHandler) handleErrorReport(errReport application.SubscriberErrorReport) {
+	defer recoverAndLog("handleErrorReport")
+
+	response := neutrinodtypes.MessageErrorResponse{
+		ErrorMessage: errReport.ErrorMsg.Error(),
+	}
+
+	switch subscriber := d.getSubscriberSafe(SubscriberID(errReport.SubscriberID)).(type) {
+	case *WsSubscriber:
+		if err := sendResponseToSubscriberWs(subscriber, response); err != nil {
+			log.Errorf("failed sending response to subscriber: %v", err.Error())
+		}
+	case *HttpSubscriber:
+		go postToSubscriberHttp(d.httpClient, subscriber, response)
+	}
+}
+
+func postToSubscriberHttp[
+	V neutrinodtypes.MessageErrorResponse |
+		neutrinodtypes.OnChainEventResponse](
+	client *http.Client,
+	subscriber *HttpSubscriber,
+	response V,
+) {
+	respJson, err := json.Marshal(response)
+	if err != nil {
+		log.Errorf("handleOnChainNotifications -> %v", err)
+		return
+	}
+
+	resp, err := client.Post(
+		subscriber.EndpointUrl,
+		"application/json",
+		bytes.NewBuffer(respJson),
+	)
+	if err != nil {
+		log.Errorf("failed sending response to subscriber: %v", err.Error())
+		return
+	}
+	defer resp.Body.Close()
+}
+
+func recoverAndLog(name string) {
+	if err := recover(); err != nil {
+		log.Errorf("%v recovered from panic: %v", name, err)
+		log.Tracef("%v recovered from panic: %v", name, string(debug.Stack()))
+	}
+}
+
 func (d *descriptorWalletNotifierHandler) getSubscriberSafe(subscriberID SubscriberID) Subscriber {
 	d.subscribersLock.RLock()
 	defer d.subscribersLock.RUnlock()
@@ -206,11 +189,17 @@ func (d *descriptorWalletNotifierHandler) getSubscriberSafe(subscriberID Subscri
 	return d.subscribers[subscriberID]
 }
 
-func (d *descriptorWalletNotifierHandler) addSubscriberSafe(subscriber Subscriber) {
+// addSubscriberSafe returns false if the handler is stopped
+func (d *descriptorWalletNotifierHandler) addSubscriberSafe(subscriber Subscriber) bool {
 	d.subscribersLock.Lock()
 	defer d.subscribersLock.Unlock()
 
+	if d.stopped {
+		return false
+	}
 	d.subscribers[subscriber.SubscriberID()] = subscriber
+
+	return true
 }
 
 func (d *descriptorWalletNotifierHandler) deleteSubscriberSafe(subscriberID SubscriberID) {
diff --git a/internal/interface/web-socket/handler/types.go b/internal/interface/web-socket/handler/types.go
index c5db394..9260646 100644
--- a/internal/interface/web-socket/handler/types.go
+++ b/internal/interface/web-socket/handler/types.go
@@ -3,6 +3,7 @@ package handler
 import (
 	"github.com/google/uuid"
 	"github.com/gorilla/websocket"
+	"sync"
 )
 
 type SubscriberID uuid.UUID
@@ -17,6 +18,8 @@ type Subscriber interface {
 type WsSubscriber struct {
 	ID           SubscriberID
 	WsConnection *websocket.Conn
+	// writeLock serializes the writes to the connection
+	writeLock sync.Mutex
 }
 
 func (w *WsSubscriber) Type() SubscriberType {
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 6906d2d..9be0fbe 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -11,7 +11,7 @@ import (
 	neutrinodtypes "github.com/vulpemventures/neutrino-elements/pkg/neutrinod-types"
 	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
 	"net/http"
-	"runtime/debug"
+	"time"
 )
 
 func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestWs(
@@ -31,22 +31,29 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestWs(
 func (d *descriptorWalletNotifierHandler) handleRequest(conn *websocket.Conn) {
 	defer func() {
 		conn.Close()
-		if err := recover(); err != nil {
-			log.Errorf("handleRequest recovered from panic: %v", err)
-			log.Tracef("handleRequest recovered from panic: %v", string(debug.Stack()))
-		}
+		recoverAndLog("handleRequest")
 	}()
 	conn.SetReadLimit(maxMessageSize)
 
 	subsID := uuid.New()
-	d.registerSubs <- &WsSubscriber{
+	subscriber := &WsSubscriber{
 		ID:           SubscriberID(subsID),
 		WsConnection: conn,
 	}
+	if !d.addSubscriberSafe(subscriber) {
+		return
+	}
+	defer func() {
+		d.deleteSubscriberSafe(subscriber.ID)
+		if err := d.notificationSvc.UnSubscribe(application.Subscriber{
+			ID: application.SubscriberID(subsID),
+		}); err != nil {
+			log.Debugf("unsubscribing %v from chain: %v", subsID, err)
+		}
+	}()
 
 	log.Debugf("new ws subscriber connected: %v", subsID)
 
-msgloop:
 	for {
 		_, message, err := conn.ReadMessage()
 		if err != nil {
@@ -62,116 +69,112 @@ msgloop:
 				log.Warnf("Error reading message: %v\n", err)
 			}
 
-			d.unregisterSubs <- &WsSubscriber{
-				ID: SubscriberID(subsID),
-			}
-
-			return
-		}
-
-		message = bytes.TrimSpace(bytes.Replace(message, newline, space, -1))
-		wsMsg := &neutrinodtypes.SubscriptionRequestWs{}
-		if err = json.Unmarshal(message, wsMsg); err != nil {
-			log.Warn(err)
 			return
 		}
 
 		log.Debugf("new message from subscriber: %v", subsID)
 
-		subscriber := d.getSubscriberSafe(SubscriberID(subsID)).(*WsSubscriber)
-
-		events := make([]scanner.EventType, 0, len(wsMsg.EventTypes))
-		for _, v := range wsMsg.EventTypes {
-			eventType, err := neutrinodtypes.FromNeutrinodTypeToScannerEventType(v)
-			if err != nil {
-				log.Errorf("unsucesfull conversion FromNeutrinodTypeToScannerEventType %v", err)
-
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
-					ErrorMessage: "irregular event type",
-				}); err != nil {
-					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					goto msgloop
-				}
+		successMsg, err := d.handleSubscriptionRequest(subsID, message)
+		if err != nil {
+			log.Errorf("unsucesfull request: %v, subscriber: %v", err, subsID)
 
-				goto msgloop
-			}
+			err = sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
+				ErrorMessage: err.Error(),
+			})
+		} else {
+			log.Infof("%v, subscriber: %v", successMsg, subsID)
 
-			events = append(events, eventType)
+			err = sendResponseToSubscriberWs(subscriber, neutrinodtypes.GeneralMessageResponse{
+				Message: successMsg,
+			})
+		}
+		if err != nil {
+			log.Errorf("failed sending response to subscriber: %v", err.Error())
 		}
+	}
+}
 
-		switch wsMsg.ActionType {
-		case neutrinodtypes.Register:
-			if err := d.notificationSvc.Subscribe(application.Subscriber{
-				ID:               application.SubscriberID(subsID),
-				BlockHeight:      wsMsg.StartBlockHeight,
-				Events:           events,
-				WalletDescriptor: wsMsg.DescriptorWallet,
-			}); err != nil {
-				log.Errorf("unsucesfull registration: %v, subscriber: %v", err, subsID)
-
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
-					ErrorMessage: err.Error(),
-				}); err != nil {
-					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					goto msgloop
-				}
-			}
-			log.Infof("sucesfull registration, subscriber: %v", subsID)
+// handleSubscriptionRequest handles one request of a ws subscriber, returns the message to be sent on success
+func (d *descriptorWalletNotifierHandler) handleSubscriptionRequest(subsID uuid.UUID, message []byte) (string, error) {
+	message = bytes.TrimSpace(bytes.Replace(message, newline, space, -1))
+	wsMsg := &neutrinodtypes.SubscriptionRequestWs{}
+	if err := json.Unmarshal(message, wsMsg); err != nil {
+		return "", fmt.Errorf("bad request: %w", err)
+	}
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.GeneralMessageResponse{
-				Message: "successfully registered",
-			}); err != nil {
-				log.Errorf("failed sending response to subscriber: %v", err.Error())
-				goto msgloop
-			}
-		case neutrinodtypes.Unregister:
-			if err := d.notificationSvc.UnSubscribe(application.Subscriber{
-				ID: application.SubscriberID(subsID),
-			}); err != nil {
-				log.Errorf("unsucesfull un-registration: %v, subscriber: %v", err, subsID)
-
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
-					ErrorMessage: err.Error(),
-				}); err != nil {
-					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					goto msgloop
-				}
-			}
+	events, err := toScannerEventTypes(wsMsg.EventTypes)
+	if err != nil {
+		return "", err
+	}
 
-			log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
+	switch wsMsg.ActionType {
+	case neutrinodtypes.Register:
+		return "successfully registered", d.notificationSvc.Subscribe(application.Subscriber{
+			ID:               application.SubscriberID(subsID),
+			BlockHeight:      wsMsg.StartBlockHeight,
+			Events:           events,
+			WalletDescriptor: wsMsg.DescriptorWallet,
+		})
+	case neutrinodtypes.Unregister:
+		return "successfully un-registered", d.notificationSvc.UnSubscribe(application.Subscriber{
+			ID: application.SubscriberID(subsID),
+		})
+	default:
+		return "", fmt.Errorf("unknown action type: %v", wsMsg.ActionType)
+	}
+}
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.GeneralMessageResponse{
-				Message: "successfully un-registered",
-			}); err != nil {
-				log.Errorf("failed sending response to subscriber: %v", err.Error())
-				goto msgloop
-			}
-		default:
-			log.Errorf("unknown action type: %v\n", wsMsg.ActionType)
+func toScannerEventTypes(eventTypes []neutrinodtypes.EventType) ([]scanner.EventType, error) {
+	events := make([]scanner.EventType, 0, len(eventTypes))
+	for _, v := range eventTypes {
+		eventType, err := neutrinodtypes.FromNeutrinodTypeToScannerEventType(v)
+		if err != nil {
+			return nil, fmt.Errorf("irregular event type: %v", v)
 		}
+
+		events = append(events, eventType)
 	}
+
+	return events, nil
 }
 
 func sendResponseToSubscriberWs[
 	V neutrinodtypes.MessageErrorResponse |
 		neutrinodtypes.OnChainEventResponse |
 		neutrinodtypes.GeneralMessageResponse](
-	subscriber WsSubscriber,
+	subscriber *WsSubscriber,
 	resp V,
 ) error {
-	defer func() {
-		if err := recover(); err != nil {
-			log.Errorf("sendResponseToSubscriberWs recovered from panic: %v", err)
-			log.Tracef("sendResponseToSubscriberWs recovered from panic: %v", string(debug.Stack()))
-		}
-	}()
+	return sendEventToSubscriberWs(subscriber, resp, func() bool { return true })
+}
 
+// sendEventToSubscriberWs sends only if wanted still holds when it is the message's turn
+func sendEventToSubscriberWs[
+	V neutrinodtypes.MessageErrorResponse |
+		neutrinodtypes.OnChainEventResponse |
+		neutrinodtypes.GeneralMessageResponse](
+	subscriber *WsSubscriber,
+	resp V,
+	wanted func() bool,
+) error {
 	r, err := json.Marshal(resp)
 	if err != nil {
 		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
 	}
 
-	if err = subscriber.WsConnection.WriteMessage(websocket.TextMessage, r); err != nil {
+	subscriber.writeLock.Lock()
+	defer subscriber.writeLock.Unlock()
+
+	if !wanted() {
+		return nil
+	}
+
+	if err := subscriber.WsConnection.SetWriteDeadline(time.Now().Add(writeTimeout)); err != nil {
+		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
+	}
+	if err := subscriber.WsConnection.WriteMessage(websocket.TextMessage, r); err != nil {
+		// nothing can be sent on this connection any more
+		subscriber.WsConnection.Close()
 		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
 	}
 
diff --git a/pkg/neutrinod-types/types_http.go b/pkg/neutrinod-types/types_http.go
index 056de09..751f70a 100644
--- a/pkg/neutrinod-types/types_http.go
+++ b/pkg/neutrinod-types/types_http.go
@@ -1,11 +1,9 @@
 package neutrinodtypes
 
-import "github.com/vulpemventures/neutrino-elements/pkg/scanner"
-
 type SubscriptionRequestHttp struct {
-	ActionType       ActionType          `json:"actionType"`
-	EventTypes       []scanner.EventType `json:"eventTypes"`
-	DescriptorWallet string              `json:"descriptorWallet"`
-	StartBlockHeight int                 `json:"startBlockHeight"`
-	EndpointUrl      string              `json:"endpointUrl"`
+	ActionType       ActionType  `json:"actionType"`
+	EventTypes       []EventType `json:"eventTypes"`
+	DescriptorWallet string      `json:"descriptorWallet"`
+	StartBlockHeight int         `json:"startBlockHeight"`
+	EndpointUrl      string      `json:"endpointUrl"`
 }
-- 
2.43.0


From 6015bda42bf5a121b2c7500a7db55d5ee90172f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 20/27] fix: shutdown works during the initial sync, after a
 failed start, and stops everything

---
 internal/interface/web-socket/server.go | 97 +++++++++++++++----------
 1 file changed, 60 insertions(+), 37 deletions(-)

diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index f35dd11..b546d2f 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -51,16 +51,47 @@ func NewElementsNeutrinoServer(
 func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-chan error {
 	errC := make(chan error, 1)
 
-	log.Infoln("neutrinod: waiting for node to sync with peer...")
-	if err := n.nodeSvc.Start(n.peerUrl); err != nil {
-		errC <- err
+	go func() {
+		defer close(errC)
+		defer stop()
+
+		if err := n.run(ctx); err != nil {
+			errC <- err
+		}
+	}()
+
+	return errC
+}
+
+// run serves until ctx is done or something fails, then stops everything that was started
+func (n *NeutrinoServer) run(ctx context.Context) (err error) {
+	started := make(chan error, 1)
+	go func() {
+		log.Infoln("neutrinod: waiting for node to sync with peer...")
+		started <- n.nodeSvc.Start(n.peerUrl)
+	}()
+
+	defer func() {
+		if stopErr := n.nodeSvc.Stop(); stopErr != nil && err == nil {
+			err = stopErr
+		}
+	}()
+
+	select {
+	case err := <-started:
+		if err != nil {
+			return err
+		}
+	case <-ctx.Done():
+		log.Info("neutrinod: shutdown signal received")
+		return nil
 	}
 	log.Infoln("neutrinod: node is synced with peer")
 
 	genesisBlockHashStr := protocol.GetCheckpoints(protocol.MagicRegtest)[0]
 	genesisBlockHash, err := chainhash.NewHashFromStr(genesisBlockHashStr)
 	if err != nil {
-		errC <- err
+		return err
 	}
 
 	scannerSvc := scanner.New(
@@ -73,11 +104,13 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 	notificationSvc := application.NewNotificationService(scannerSvc)
 
 	if err := notificationSvc.Start(); err != nil {
-		errC <- err
+		return err
 	}
+	defer scannerSvc.Stop()
 
 	descriptorWalletNotifierSvc := handler.NewDescriptorWalletNotifierHandler(notificationSvc)
 	descriptorWalletNotifierSvc.Start()
+	defer descriptorWalletNotifierSvc.Stop()
 
 	middlewareSvc := middleware.NewMiddlewareService()
 	middlewares := []middleware.Middleware{
@@ -103,44 +136,34 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 		Handler: muxRouter,
 	}
 
-	go func() {
-		<-ctx.Done()
-
-		log.Info("neutrinod: shutdown signal received")
-
-		ctxTimeout, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
-
-		defer func() {
-			descriptorWalletNotifierSvc.Stop()
-			scannerSvc.Stop()
-
-			if err := n.nodeSvc.Stop(); err != nil {
-				errC <- err
-			}
-
-			stop()
-			cancel()
-			close(errC)
-		}()
-
-		httpServer.SetKeepAlivesEnabled(false)
-		if err := httpServer.Shutdown(ctxTimeout); err != nil {
-			errC <- err
-		}
-
-		log.Info("neutrinod: neutrino-elements daemon graceful shutdown completed")
-	}()
-
 	// start http server
+	serving := make(chan error, 1)
 	go func() {
 		log.Infof(
 			"neutrinod: neutrino-elements daemon listening and serving at: %v",
 			n.serverAddress)
 
-		if err := httpServer.ListenAndServe(); err != nil && err != http.ErrServerClosed {
-			errC <- err
-		}
+		serving <- httpServer.ListenAndServe()
 	}()
 
-	return errC
+	select {
+	case err := <-serving:
+		return err
+	case <-ctx.Done():
+		log.Info("neutrinod: shutdown signal received")
+	}
+
+	ctxTimeout, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
+	defer cancel()
+
+	httpServer.SetKeepAlivesEnabled(false)
+	if err := httpServer.Shutdown(ctxTimeout); err != nil {
+		// some client does not finish its request
+		httpServer.Close()
+		return err
+	}
+
+	log.Info("neutrinod: neutrino-elements daemon graceful shutdown completed")
+
+	return nil
 }
-- 
2.43.0


From cc4bf6a900d2147fb8ff69932627d5e66f0f1dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:10 +0000
Subject: [PATCH 21/27] fix: an unsupported kind of descriptor is refused
 instead of causing a panic

---
 pkg/scanner/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index cc6bd53..c151617 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -151,6 +151,9 @@ func (s *scannerService) WatchDescriptorWallet(
 			if err != nil {
 				return err
 			}
+			if wallet == nil { // known to the parser, but not implemented by it
+				return fmt.Errorf("descriptor not supported")
+			}
 
 			var scripts []descriptor.ScriptResponse
 
-- 
2.43.0


From 88fc80a069d2b8e8a3f62f1967696f3beb69aa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 22/27] fix: reject a malformed descriptor instead of letting
 the parser's panic end the daemon

---
 pkg/scanner/scanner.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index c151617..a8d504e 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -147,7 +147,7 @@ func (s *scannerService) WatchDescriptorWallet(
 	for _, v := range eventType {
 		switch v {
 		case UnspentUtxo:
-			wallet, err := descriptor.Parse(desc)
+			wallet, err := parseDescriptor(desc)
 			if err != nil {
 				return err
 			}
@@ -195,6 +195,17 @@ func (s *scannerService) WatchDescriptorWallet(
 	return nil
 }
 
+// parseDescriptor parses a wallet descriptor, the parser panics on some of the malformed ones.
+func parseDescriptor(desc string) (wallet descriptor.Wallet, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid descriptor: %v", r)
+		}
+	}()
+
+	return descriptor.Parse(desc)
+}
+
 // requestsManager is responsible to resolve the requests that are waiting for in the queue.
 func (s *scannerService) requestsManager(ch chan<- Report, quit <-chan struct{}, done chan<- struct{}) {
 	defer close(done)
-- 
2.43.0


From cc0f05c9ea1c1a5c7a65e875de0a756dc7bb5526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:08 +0000
Subject: [PATCH 23/27] fix: report events once when a subscription repeats an
 event type

---
 internal/interface/web-socket/handler/ws_handler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 9be0fbe..c80173c 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -126,12 +126,19 @@ func (d *descriptorWalletNotifierHandler) handleSubscriptionRequest(subsID uuid.
 
 func toScannerEventTypes(eventTypes []neutrinodtypes.EventType) ([]scanner.EventType, error) {
 	events := make([]scanner.EventType, 0, len(eventTypes))
+	seen := make(map[scanner.EventType]bool)
 	for _, v := range eventTypes {
 		eventType, err := neutrinodtypes.FromNeutrinodTypeToScannerEventType(v)
 		if err != nil {
 			return nil, fmt.Errorf("irregular event type: %v", v)
 		}
 
+		// a type given twice must not report events twice
+		if seen[eventType] {
+			continue
+		}
+		seen[eventType] = true
+
 		events = append(events, eventType)
 	}
 
-- 
2.43.0


From 43a66a980f25250093b6fdb960e238cc92e472bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:55 +0000
Subject: [PATCH 24/27] fix: a client that does not finish its request no
 longer makes the daemon panic at shutdown

---
 internal/interface/web-socket/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index b546d2f..dcf1f4e 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -159,8 +159,8 @@ func (n *NeutrinoServer) run(ctx context.Context) (err error) {
 	httpServer.SetKeepAlivesEnabled(false)
 	if err := httpServer.Shutdown(ctxTimeout); err != nil {
 		// some client does not finish its request
-		httpServer.Close()
-		return err
+		log.Warnf("neutrinod: closing the connections left at shutdown: %v", err)
+		return httpServer.Close()
 	}
 
 	log.Info("neutrinod: neutrino-elements daemon graceful shutdown completed")
-- 
2.43.0


From 936154af6dbe4501edb13eb908308884984633bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 25/27] fix: a block source that answered with another block
 made the scanner report wrong blocks and lose matches

---
 pkg/blockservice/service.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/blockservice/service.go b/pkg/blockservice/service.go
index 1271bc7..c4e8062 100644
--- a/pkg/blockservice/service.go
+++ b/pkg/blockservice/service.go
@@ -67,5 +67,14 @@ func (b *esploraBlockService) GetBlock(hash *chainhash.Hash) (*block.Block, erro
 		return nil, err
 	}
 
+	// the source is not trusted to answer with the block it was asked for
+	blockHash, err := block.Header.Hash()
+	if err != nil {
+		return nil, err
+	}
+	if !blockHash.IsEqual(hash) {
+		return nil, fmt.Errorf("getBlock: asked for block %v, got %v", hash, blockHash)
+	}
+
 	return block, nil
 }
-- 
2.43.0


From 96142e059ceadf0dfa1383d100ae89bac236568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 26/27] fix: a webhook request without end was read into memory
 without limit

---
 internal/interface/web-socket/handler/http_handler.go         | 1 +
 internal/interface/web-socket/handler/notification_handler.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index e0d833f..0204cb8 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -17,6 +17,7 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 ) {
 	var subscriptionReq neutrinodtypes.SubscriptionRequestHttp
 
+	req.Body = http.MaxBytesReader(w, req.Body, maxRequestSize)
 	err := json.NewDecoder(req.Body).Decode(&subscriptionReq)
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index c8e042b..295033e 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -14,6 +14,8 @@ import (
 
 const (
 	maxMessageSize = 512
+	// maxRequestSize is the greatest size of a webhook's request
+	maxRequestSize = 64 * 1024
 	// writeTimeout is how long a subscriber may take to receive a message
 	writeTimeout = 10 * time.Second
 
-- 
2.43.0


From 4f330ae2c232834964722f1c63b15a4721d4794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 27/27] fix: an interrupted or failed change of the client's
 settings no longer loses them

---
 cmd/neutrino/main.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/cmd/neutrino/main.go b/cmd/neutrino/main.go
index 76a2b24..33822bb 100644
--- a/cmd/neutrino/main.go
+++ b/cmd/neutrino/main.go
@@ -104,7 +104,7 @@ func setState(data map[string]string) error {
 	if err != nil {
 		return err
 	}
-	err = ioutil.WriteFile(statePath, jsonString, 0755)
+	err = replaceState(jsonString)
 	if err != nil {
 		return fmt.Errorf("writing to file: %w", err)
 	}
@@ -112,6 +112,29 @@ func setState(data map[string]string) error {
 	return nil
 }
 
+// replaceState writes the state to another file first, so that a failure or
+// an interruption at any moment leaves the previous state readable.
+func replaceState(jsonString []byte) error {
+	file, err := ioutil.TempFile(neutrinoDataDir, "state-*.tmp")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(file.Name())
+
+	_, err = file.Write(jsonString)
+	if err == nil {
+		err = file.Sync()
+	}
+	if errClose := file.Close(); err == nil {
+		err = errClose
+	}
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(file.Name(), statePath)
+}
+
 func merge(maps ...map[string]string) map[string]string {
 	merge := make(map[string]string, 0)
 	for _, m := range maps {
-- 
2.43.0

