From 2c8fcba27d32e7572b3b6d16c40a0a84a10fd4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 01/28] fix: decode a frame without touching the receive buffer
 or the bytes behind it

Decode cleared the checksum byte of the caller's buffer in place, so a frame
seen twice (two frames in one read, or after a checksum error) failed its
checksum the second time, and handed bytes behind the frame to the decoders.
---
 serialapi/message.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/serialapi/message.go b/serialapi/message.go
index 13414f0..dde1d3f 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -50,16 +50,19 @@ func Decode(data []byte) (length int, msg *Message, err error) {
 		}
 
 		checksum := data[length+1]
-		checksumData := append(data[1:length+1], byte(0x00))
+		// Work on a private copy (with the checksum cleared), data is the callers receive buffer
+		frame := make([]byte, length+2)
+		copy(frame, data[:length+1])
+		checksumData := frame[1:]
 		if checksum != GenerateChecksum(checksumData) {
 			return -1, nil, fmt.Errorf("Invalid checksum, is 0x%x should be 0x%x, (len=%d)", checksum, GenerateChecksum(checksumData), length)
 		}
 
-		msg, err := NewMessage(data)
+		msg, err := NewMessage(frame)
 
 		return length + 2, msg, err
 	case 0x06, 0x15, 0x18: // ACK, NAC, CAN
-		msg, err := NewMessage(data)
+		msg, err := NewMessage(data[:1])
 		if err != nil {
 			logrus.Error(err)
 		}
-- 
2.43.0


From f3a6bd360d232684c8ba73e996f843a37ff692bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:44 +0000
Subject: [PATCH 02/28] fix: check the length of incoming messages before
 decoding them

A short frame, or one whose inner length or node mask did not fit, crashed
the process with an index or slice bounds panic.
---
 serialapi/application_command_handler.go |  6 ++++++
 serialapi/discovery_nodes.go             |  4 ++++
 serialapi/message.go                     | 27 ++++++++++++++++++++++--
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/serialapi/application_command_handler.go b/serialapi/application_command_handler.go
index 7d9b3d4..460f435 100644
--- a/serialapi/application_command_handler.go
+++ b/serialapi/application_command_handler.go
@@ -1,6 +1,8 @@
 package serialapi
 
 import (
+	"fmt"
+
 	"github.com/stampzilla/gozwave/commands"
 	"github.com/stampzilla/gozwave/commands/reports"
 )
@@ -17,6 +19,10 @@ type FuncApplicationCommandHandler struct {
 func NewApplicationCommandHandler(data []byte) (*FuncApplicationCommandHandler, error) {
 	f := &FuncApplicationCommandHandler{}
 
+	if len(data) < 2 {
+		return nil, fmt.Errorf("wrong length, should be at least 2 bytes got %d", len(data))
+	}
+
 	f.Command = commands.ZWaveCommand(data[0])
 	f.Class = data[1]
 
diff --git a/serialapi/discovery_nodes.go b/serialapi/discovery_nodes.go
index 59275ae..66db590 100644
--- a/serialapi/discovery_nodes.go
+++ b/serialapi/discovery_nodes.go
@@ -18,6 +18,10 @@ func NewDiscoverdNodes(data []byte) (*DiscoverdNodes, error) {
 		return nil, fmt.Errorf("wrong length, should be at least 6 bytes got %d", len(data))
 	}
 
+	if len(data)*8 > len(f.ActiveNodes) {
+		return nil, fmt.Errorf("wrong length, should be at most %d bytes got %d", len(f.ActiveNodes)/8, len(data))
+	}
+
 	for index, bits := range data {
 		f.ActiveNodes[index*8+0] = bits&0x01 != 0
 		f.ActiveNodes[index*8+1] = bits&0x02 != 0
diff --git a/serialapi/message.go b/serialapi/message.go
index dde1d3f..8d67bcb 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -103,6 +103,18 @@ func CompileMessage(data []byte) []byte {
 	return msg
 }
 
+// messagePayload returns the length prefixed payload of a message
+func messagePayload(data []byte) ([]byte, error) {
+	end := len(data)
+	if l := int(data[1]) + 1; l < end { // The checksum is not a part of the payload
+		end = l
+	}
+	if end < 7 || end < 7+int(data[6]) {
+		return nil, fmt.Errorf("Dropping message, the payload is to short: %x", data)
+	}
+	return data[7 : 7+int(data[6])], nil
+}
+
 // NewMessage tries to decode a binary message from the controller in to a message struct
 func NewMessage(data []byte) (*Message, error) {
 	message := &Message{}
@@ -110,6 +122,9 @@ func NewMessage(data []byte) (*Message, error) {
 	if len(data) <= 1 {
 		return message, nil
 	}
+	if len(data) < 4 {
+		return nil, fmt.Errorf("Dropping message, to short: %x", data)
+	}
 	message.Length = data[1]
 	message.MessageType = data[2]
 	message.Function = ZWaveFunction(data[3])
@@ -117,12 +132,20 @@ func NewMessage(data []byte) (*Message, error) {
 	var err error
 	switch message.Function {
 	case ApplicationCommandHandler:
+		var payload []byte
+		if payload, err = messagePayload(data); err != nil {
+			break
+		}
 		message.NodeID = data[5]
 
-		message.Data, err = NewApplicationCommandHandler(data[7 : 7+data[6]])
+		message.Data, err = NewApplicationCommandHandler(payload)
 	case DiscoveryNodes:
+		var payload []byte
+		if payload, err = messagePayload(data); err != nil {
+			break
+		}
 
-		message.Data, err = NewDiscoverdNodes(data[7 : 7+data[6]])
+		message.Data, err = NewDiscoverdNodes(payload)
 	case GetNodeProtocolInfo:
 
 		message.Data, err = NewGetNodeProtocolInfo(data[4:])
-- 
2.43.0


From 516c551472055da4755a3b0e95971f45b6c7f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 03/28] fix: match responses only against the content of their
 own frame

---
 connection.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/connection.go b/connection.go
index a522409..54cb3b2 100644
--- a/connection.go
+++ b/connection.go
@@ -252,7 +252,7 @@ func (conn *Connection) Reader() error {
 			if l > 1 { // A message was received
 				conn.Lock()
 				for index, c := range conn.inFlight {
-					if !c.Match(incomming) {
+					if !c.Match(incomming[:l-1]) { // Only this frame, and without the checksum
 						logrus.Infof("Check match %#v", c)
 						continue
 					}
@@ -314,7 +314,7 @@ func (c *sendPackage) Match(incomming []byte) bool {
 
 	// SerialAPI specific
 	if !MatchByteAt(incomming, c.function, 3) && !(c.function == serialapi.SendData && MatchByteAt(incomming, serialapi.ApplicationCommandHandler, 3)) {
-		logrus.Warnf("Skipping pkg %s, function %x != %x", c.uuid, c.function, incomming[3])
+		logrus.Warnf("Skipping pkg %s, function %x != %x", c.uuid, c.function, incomming)
 		return false
 	}
 
@@ -324,15 +324,15 @@ func (c *sendPackage) Match(incomming []byte) bool {
 
 	// Z-wave specific
 	if !MatchByteAt(incomming, c.node, 5) {
-		logrus.Warnf("Skipping pkg %s, node %x != %x", c.uuid, c.node, incomming[5])
+		logrus.Warnf("Skipping pkg %s, node %x != %x", c.uuid, c.node, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.commandclass, 7) {
-		logrus.Warnf("Skipping pkg %s, commandclass %x is not %x", c.uuid, c.commandclass, incomming[7])
+		logrus.Warnf("Skipping pkg %s, commandclass %x is not %x", c.uuid, c.commandclass, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.expectedReport, 8) {
-		logrus.Errorf("Skipping pkg %s, expectedReport %x is not %x", c.uuid, c.expectedReport, incomming[8])
+		logrus.Errorf("Skipping pkg %s, expectedReport %x is not %x", c.uuid, c.expectedReport, incomming)
 		return false
 	}
 
@@ -358,7 +358,7 @@ func MatchByteAt(message []byte, b byte, position int) bool {
 		return true
 	}
 
-	if len(message) < position {
+	if len(message) <= position {
 		return false
 	}
 
-- 
2.43.0


From a9a3a8b321c616688090e5ce363db09469b64e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 04/28] fix: deliver responses to the channel of their request,
 also if they are collected late or cannot be decoded

---
 connection.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/connection.go b/connection.go
index 54cb3b2..8a27d86 100644
--- a/connection.go
+++ b/connection.go
@@ -82,17 +82,19 @@ func (conn *Connection) Write(msg interfaces.Encodable) error {
 }
 func (conn *Connection) WriteWithTimeout(msg interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
 	pkg := newSendPackage(msg.Encode())
-	pkg.returnChan = make(chan *serialapi.Message)
+	returnChan := make(chan *serialapi.Message, 1) // The response is kept until the requester collects it
+	pkg.returnChan = returnChan
 	pkg.timeout = t
 
 	conn.send <- pkg
 
-	return pkg.returnChan, nil
+	return returnChan, nil
 }
 func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.Duration, er byte) (<-chan reports.Report, error) {
 	pkg := newSendPackage(msg.Encode())
-	returnChan := make(chan reports.Report)
-	pkg.returnChan = make(chan *serialapi.Message)
+	returnChan := make(chan reports.Report, 1)
+	responses := make(chan *serialapi.Message, 1)
+	pkg.returnChan = responses
 	pkg.timeout = t
 	pkg.expectedReport = er
 
@@ -100,7 +102,7 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 
 	go func() {
 		defer close(returnChan)
-		for msg := range pkg.returnChan {
+		for msg := range responses {
 			if f, ok := msg.Data.(*serialapi.FuncApplicationCommandHandler); ok {
 				returnChan <- f.Report
 				return
@@ -258,10 +260,12 @@ func (conn *Connection) Reader() error {
 					}
 
 					if c.IsOpen() {
-						select {
-						case c.returnChan <- msg: // Try to deliver message
-						case <-time.After(time.Second):
-							logrus.Warnf("Timeout writing response to requester: %#v", msg)
+						if msg != nil { // Nothing to deliver if the response could not be decoded
+							select {
+							case c.returnChan <- msg: // Try to deliver message
+							case <-time.After(time.Second):
+								logrus.Warnf("Timeout writing response to requester: %#v", msg)
+							}
 						}
 
 						c.Close()
-- 
2.43.0


From 6a08eb34eee669791fcc05aff8cc9029b16de743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 05/28] fix: synchronise sender and receiver, and keep a
 command until the controller has answered it

---
 connection.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/connection.go b/connection.go
index 8a27d86..6451526 100644
--- a/connection.go
+++ b/connection.go
@@ -69,7 +69,7 @@ func NewConnection() *Connection {
 	z := &Connection{
 		inFlight:       make(map[string]*sendPackage),
 		send:           make(chan *sendPackage),
-		lastResult:     make(chan byte),
+		lastResult:     make(chan byte, 1),
 		reportCallback: func(byte, reports.Report) {},
 	}
 	return z
@@ -151,7 +151,10 @@ func (conn *Connection) Writer() {
 		select {
 		case pkg := <-conn.send:
 			conn.Lock()
-			conn.lastCommand = ""
+			select {
+			case <-conn.lastResult: // Drop the result of an earlier command
+			default:
+			}
 
 			conn.inFlight[pkg.uuid] = pkg
 			conn.lastCommand = pkg.uuid
@@ -177,7 +180,13 @@ func (conn *Connection) Writer() {
 			conn.Unlock()
 
 			<-abort
+			conn.Lock()
 			conn.lastCommand = ""
+			if pkg.timeout == 0 || !pkg.IsOpen() { // No one is waiting for an response
+				pkg.Close()
+				delete(conn.inFlight, pkg.uuid)
+			}
+			conn.Unlock()
 		}
 	}
 }
@@ -213,12 +222,12 @@ func (conn *Connection) Reader() error {
 			}
 
 			if l == 1 {
+				conn.Lock()
 				for index, c := range conn.inFlight {
-					conn.RLock()
 					if c.uuid == conn.lastCommand {
 						select {
 						case conn.lastResult <- incomming[0]:
-						case <-time.After(time.Millisecond * 50):
+						default:
 						}
 
 						if msg.IsNAK() {
@@ -228,15 +237,14 @@ func (conn *Connection) Reader() error {
 						}
 
 						if msg.IsCAN() {
-							go func() {
+							go func(c *sendPackage) {
 								<-time.After(time.Millisecond * 100)
 								conn.send <- c
-							}()
+							}(c)
 						}
 					}
-					conn.RUnlock()
 				}
-
+				conn.Unlock()
 			}
 
 			// The message is not compleatly read yet, wait for some more data
@@ -254,7 +262,7 @@ func (conn *Connection) Reader() error {
 			if l > 1 { // A message was received
 				conn.Lock()
 				for index, c := range conn.inFlight {
-					if !c.Match(incomming[:l-1]) { // Only this frame, and without the checksum
+					if !c.IsOpen() || !c.Match(incomming[:l-1]) { // Only this frame, and without the checksum
 						logrus.Infof("Check match %#v", c)
 						continue
 					}
@@ -270,7 +278,9 @@ func (conn *Connection) Reader() error {
 
 						c.Close()
 					}
-					delete(conn.inFlight, index)
+					if index != conn.lastCommand { // The controller can still cancel the command
+						delete(conn.inFlight, index)
+					}
 				}
 				conn.Unlock()
 			}
@@ -350,8 +360,10 @@ func (conn *Connection) timeoutWorker(sp *sendPackage) {
 	for index, c := range conn.inFlight {
 		if index == sp.uuid {
 			logrus.Warnf("TIMEOUT: %s", sp.uuid)
-			delete(conn.inFlight, sp.uuid)
 			c.Close()
+			if index != conn.lastCommand { // The controller can still cancel the command
+				delete(conn.inFlight, sp.uuid)
+			}
 		}
 	}
 	conn.Unlock()
-- 
2.43.0


From 0203fcad9c3cdff9b2401ee11f28dd08bf55ba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 06/28] fix: do not drop a half received message because of a
 slow write

---
 connection.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 6451526..08183e5 100644
--- a/connection.go
+++ b/connection.go
@@ -175,9 +175,10 @@ func (conn *Connection) Writer() {
 				close(abort)
 			}()
 
+			conn.Unlock() // Dont block the receiver while the port is busy
+
 			logrus.Debugf("Write: %x", pkg.message)
 			conn.readWriteCloser.Write(pkg.message)
-			conn.Unlock()
 
 			<-abort
 			conn.Lock()
@@ -300,6 +301,7 @@ func (conn *Connection) Reader() error {
 			}
 
 		}
+		age = time.Now() // The time spent on the messages above does not make the rest of the buffer older
 	}
 
 }
-- 
2.43.0


From f1d5fe9a6860c9003033a51c02242e749e4a99b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 07/28] fix: one writer per opened port, and nothing left
 running after a failed connect

---
 connection.go | 68 +++++++++++++++++++++++++++++++++++++++++++++------
 gozwave.go    |  5 +++-
 2 files changed, 64 insertions(+), 9 deletions(-)

diff --git a/connection.go b/connection.go
index 08183e5..79a9a01 100644
--- a/connection.go
+++ b/connection.go
@@ -16,6 +16,8 @@ type Connection struct {
 	readWriteCloser io.ReadWriteCloser
 	portOpener      PortOpener
 	Connected       bool
+	established     bool          // Set when the first connect has succeeded
+	disconnected    chan struct{} // Closed when the current port is given up
 
 	// Keep track of requests wating a response
 	inFlight    map[string]*sendPackage
@@ -116,39 +118,88 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 }
 
 func (conn *Connection) Connect(connectChan chan error) (err error) {
+	disconnected := make(chan struct{})
+	writerDone := make(chan struct{})
+
 	defer func() {
 		logrus.Error("Disonnected")
+		conn.Lock()
+		close(disconnected)
 		conn.Connected = false
+		established := conn.established
+		conn.Unlock()
+
+		<-writerDone // Only one writer at a time
+
+		if !established {
+			select {
+			case connectChan <- err:
+			default:
+			}
+		}
 	}()
 
-	conn.readWriteCloser, err = conn.portOpener.Open()
+	port, err := conn.portOpener.Open()
 
 	if err != nil {
-		select {
-		case connectChan <- err:
-		default:
-		}
+		close(writerDone)
 		return
 	}
 
+	conn.Lock()
+	conn.readWriteCloser = port
+	conn.disconnected = disconnected
+	conn.Unlock()
+
 	go func() {
-		<-time.After(time.Millisecond * 200)
+		select {
+		case <-disconnected: // The port failed before the connection was up
+			return
+		case <-time.After(time.Millisecond * 200):
+		}
+
+		conn.Lock()
+		defer conn.Unlock()
+		select {
+		case <-disconnected:
+			return
+		default:
+		}
+
 		logrus.Debug("Connected")
 		select {
 		case connectChan <- nil:
 		default:
 		}
 		conn.Connected = true
+		conn.established = true
 	}()
 
-	go conn.Writer()
+	go func() {
+		defer close(writerDone)
+		conn.Writer()
+	}()
 	return conn.Reader()
 }
 
+// isEstablished is true if the connection has been up at any time
+func (conn *Connection) isEstablished() bool {
+	conn.RLock()
+	defer conn.RUnlock()
+
+	return conn.established
+}
+
 func (conn *Connection) Writer() {
 	for {
-		<-time.After(time.Millisecond * 50)
 		select {
+		case <-conn.disconnected:
+			return
+		case <-time.After(time.Millisecond * 50):
+		}
+		select {
+		case <-conn.disconnected:
+			return
 		case pkg := <-conn.send:
 			conn.Lock()
 			select {
@@ -168,6 +219,7 @@ func (conn *Connection) Writer() {
 				select {
 				case result := <-conn.lastResult:
 					pkg.result = result
+				case <-conn.disconnected:
 				case <-time.After(time.Second):
 					logrus.Warn("Send timeout")
 					// SEND TIMEOUT
diff --git a/gozwave.go b/gozwave.go
index 432b3cc..12f3f35 100644
--- a/gozwave.go
+++ b/gozwave.go
@@ -26,7 +26,7 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 	var err error
 
 	c.Connection.reportCallback = c.DeliverReportToNode
-	connected := make(chan error)
+	connected := make(chan error, 1)
 
 	//spew.Dump(c)
 
@@ -38,6 +38,9 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 		for {
 			err := c.Connection.Connect(connected)
 			logrus.Error(err)
+			if !c.Connection.isEstablished() { // The first connect failed, the error is returned below
+				return
+			}
 			<-time.After(time.Second)
 		}
 	}()
-- 
2.43.0


From 659b5fb6c4f8aae25561f52f4a4657e70aba2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 08/28] fix: lock the list of nodes itself and not a copy of it

---
 nodes/list.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/nodes/list.go b/nodes/list.go
index 297f673..4bcdc16 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -37,27 +37,23 @@ func (l *List) Add(node *Node) {
 	l.Unlock()
 }
 
-func (l List) All() map[int]*Node {
+// All returns a copy of the list, it can be used without locking
+func (l *List) All() map[int]*Node {
 	l.RLock()
 	defer l.RUnlock()
 
-	for _, v := range l.nodes {
-		v.RLock()
-		defer v.RUnlock()
+	all := make(map[int]*Node, len(l.nodes))
+	for k, v := range l.nodes {
+		all[k] = v
 	}
 
-	return l.nodes
+	return all
 }
 
-func (l List) Get(id int) *Node {
+func (l *List) Get(id int) *Node {
 	l.RLock()
 	defer l.RUnlock()
 
-	if l.nodes[id] != nil {
-		l.nodes[id].RLock()
-		defer l.nodes[id].RUnlock()
-	}
-
 	return l.nodes[id]
 }
 
@@ -67,7 +63,7 @@ func (l List) Get(id int) *Node {
 //l.Unlock()
 //}
 
-func (l List) MarshalJSON() ([]byte, error) {
+func (l *List) MarshalJSON() ([]byte, error) {
 	s := make(map[string]*Node)
 
 	for k, v := range l.All() {
-- 
2.43.0


From 4af4ddd37b1a49a3d114da561ac24678a1a77176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 09/28] fix: hold the lock of a node while it is encoded

---
 nodes/node.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nodes/node.go b/nodes/node.go
index 5771623..8b42435 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -1,6 +1,7 @@
 package nodes
 
 import (
+	"encoding/json"
 	"strings"
 	"sync"
 	"time"
@@ -66,6 +67,16 @@ func (n *Node) Setup(connection interfaces.Writer, pushEventFunc func(interface{
 	n.pushEventFunc = pushEventFunc
 }
 
+// MarshalJSON encodes the node under its lock, the caller must not hold it
+func (n *Node) MarshalJSON() ([]byte, error) {
+	type node Node // The same fields without this method
+
+	n.RLock()
+	defer n.RUnlock()
+
+	return json.Marshal((*node)(n))
+}
+
 func (n *Node) isAwake() chan struct{} {
 	if n.IsAwake {
 		c := make(chan struct{})
-- 
2.43.0


From c04be9bc13d5190cdad79759d10538f325c40109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 10/28] fix: hold the lock of a node while waiting for it to
 wake up is set up

---
 nodes/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodes/node.go b/nodes/node.go
index 8b42435..a491293 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -78,6 +78,9 @@ func (n *Node) MarshalJSON() ([]byte, error) {
 }
 
 func (n *Node) isAwake() chan struct{} {
+	n.Lock()
+	defer n.Unlock()
+
 	if n.IsAwake {
 		c := make(chan struct{})
 		close(c)
-- 
2.43.0


From 9acdb8ad0ef5213c9992be18059396c15e4aa829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 11/28] fix: replace the configuration file in one step and
 report errors

---
 controller.go | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/controller.go b/controller.go
index 841c7c3..29bba95 100644
--- a/controller.go
+++ b/controller.go
@@ -4,8 +4,8 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"io/ioutil"
 	"os"
-	"reflect"
 	"sync"
 	"time"
 
@@ -23,6 +23,7 @@ type Controller struct {
 
 	filename        string
 	triggerFileSave chan struct{}
+	saveLock        sync.Mutex
 
 	sync.RWMutex
 }
@@ -132,27 +133,48 @@ func (c *Controller) DeliverReportToNode(node byte, report reports.Report) {
 }
 
 func (c *Controller) SaveConfigurationToFile() error {
-	controller, err := c.loadConfigurationFromFile()
+	c.saveLock.Lock()
+	defer c.saveLock.Unlock()
+
+	var out bytes.Buffer
+	b, err := json.MarshalIndent(c, "", "\t")
+	if err != nil {
+		logrus.Error("error marshal json", err)
+		return err
+	}
+	json.Indent(&out, b, "", "\t")
+
+	current, err := ioutil.ReadFile(c.filename)
 	if err == nil {
-		if reflect.DeepEqual(c, controller) {
+		if bytes.Equal(current, out.Bytes()) {
 			return nil
 		}
 	}
 
-	configFile, err := os.Create(c.filename)
+	// Write everything to a temporary file first, the current one stays complete until it is replaced
+	tmpname := c.filename + ".tmp"
+	configFile, err := os.Create(tmpname)
 	if err != nil {
 		logrus.Error("creating config file", err.Error())
+		return err
 	}
-	defer configFile.Close()
 
 	logrus.Info("Save config: ", c.filename)
-	var out bytes.Buffer
-	b, err := json.MarshalIndent(c, "", "\t")
+	_, err = out.WriteTo(configFile)
+	if err == nil {
+		err = configFile.Sync()
+	}
+	if closeErr := configFile.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmpname, c.filename)
+	}
 	if err != nil {
-		logrus.Error("error marshal json", err)
+		logrus.Error("writing config file", err.Error())
+		os.Remove(tmpname)
+		return err
 	}
-	json.Indent(&out, b, "", "\t")
-	out.WriteTo(configFile)
 
 	return nil
 }
-- 
2.43.0


From 0ce4a06588ddd146f9ad0cea0d861515d7dddeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 12/28] fix: start from a configuration file with missing or
 empty parts

---
 controller.go |  3 +++
 nodes/list.go |  4 ++++
 nodes/node.go | 37 +++++++++++++++++++++++++++++++++++++
 3 files changed, 44 insertions(+)

diff --git a/controller.go b/controller.go
index 29bba95..c1069c5 100644
--- a/controller.go
+++ b/controller.go
@@ -206,6 +206,9 @@ func (c *Controller) loadConfigurationFromFile() (*Controller, error) {
 	if err = jsonParser.Decode(&controller); err != nil {
 		return nil, err
 	}
+	if controller == nil || controller.Nodes == nil {
+		return nil, fmt.Errorf("No nodes in %s", c.filename)
+	}
 
 	return controller, nil
 }
diff --git a/nodes/list.go b/nodes/list.go
index 4bcdc16..30dbfa9 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -81,6 +81,10 @@ func (l *List) UnmarshalJSON(data []byte) error {
 	}
 
 	for _, v := range s {
+		if v == nil {
+			continue
+		}
+		v.fillIn()
 		l.Add(v)
 	}
 
diff --git a/nodes/node.go b/nodes/node.go
index a491293..fc8df8c 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -77,6 +77,43 @@ func (n *Node) MarshalJSON() ([]byte, error) {
 	return json.Marshal((*node)(n))
 }
 
+// fillIn adds what is missing in a decoded node and drops the empty parts
+func (n *Node) fillIn() {
+	if n.StateBool == nil {
+		n.StateBool = make(map[string]bool)
+	}
+	if n.StateFloat == nil {
+		n.StateFloat = make(map[string]float64)
+	}
+	n.CommandClasses = withoutNil(n.CommandClasses)
+
+	endpoints := n.Endpoints[:0]
+	for _, e := range n.Endpoints {
+		if e == nil {
+			continue
+		}
+		if e.StateBool == nil {
+			e.StateBool = make(map[string]bool)
+		}
+		if e.StateFloat == nil {
+			e.StateFloat = make(map[string]float64)
+		}
+		e.CommandClasses = withoutNil(e.CommandClasses)
+		endpoints = append(endpoints, e)
+	}
+	n.Endpoints = endpoints
+}
+
+func withoutNil(classes []*database.CommandClass) []*database.CommandClass {
+	l := classes[:0]
+	for _, v := range classes {
+		if v != nil {
+			l = append(l, v)
+		}
+	}
+	return l
+}
+
 func (n *Node) isAwake() chan struct{} {
 	n.Lock()
 	defer n.Unlock()
-- 
2.43.0


From 057ee6a75a0609ad218249ab8187f2f9b6fc32ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 13/28] fix: set up a new node before it is shown to anyone

---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index c1069c5..eaeee19 100644
--- a/controller.go
+++ b/controller.go
@@ -80,12 +80,12 @@ func (c *Controller) initNode(id int, node *nodes.Node) *nodes.Node {
 	}
 
 	node = nodes.New(id)
+	node.Setup(c.Connection, c.pushEvent)
 	c.Nodes.Add(node)
 	c.pushEvent(events.NodeDiscoverd{
 		Address: node.Id,
 	})
 
-	node.Setup(c.Connection, c.pushEvent)
 	return node
 }
 
-- 
2.43.0


From 933348cb19706081a4352890eafe48c7b54537c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 14/28] fix: apply the reports of a node in the order they are
 received

---
 connection.go | 15 +++++++++++++--
 nodes/node.go | 21 ++++++++++++---------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/connection.go b/connection.go
index 79a9a01..fe4f98d 100644
--- a/connection.go
+++ b/connection.go
@@ -26,6 +26,7 @@ type Connection struct {
 	lastResult  chan byte
 
 	reportCallback func(byte, reports.Report)
+	delivered      map[byte]chan struct{} // Closed when the last report from a node is delivered, used by the reader only
 
 	sync.RWMutex
 }
@@ -73,6 +74,7 @@ func NewConnection() *Connection {
 		send:           make(chan *sendPackage),
 		lastResult:     make(chan byte, 1),
 		reportCallback: func(byte, reports.Report) {},
+		delivered:      make(map[byte]chan struct{}),
 	}
 	return z
 }
@@ -340,8 +342,17 @@ func (conn *Connection) Reader() error {
 
 			if msg != nil {
 				if cmd, ok := msg.Data.(*serialapi.FuncApplicationCommandHandler); ok {
-					// Deliver the update to the parent
-					go conn.reportCallback(msg.NodeID, cmd.Report)
+					// Deliver the update to the parent, after the earlier reports from the same node
+					previous := conn.delivered[msg.NodeID]
+					delivered := make(chan struct{})
+					conn.delivered[msg.NodeID] = delivered
+					go func(node byte, report reports.Report) {
+						defer close(delivered)
+						if previous != nil {
+							<-previous
+						}
+						conn.reportCallback(node, report)
+					}(msg.NodeID, cmd.Report)
 				}
 			}
 
diff --git a/nodes/node.go b/nodes/node.go
index fc8df8c..7c2af81 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -146,15 +146,7 @@ func (n *Node) ProcessEvent(event reports.Report) {
 			n.pushEvent(events.NodeUpdated{
 				Address: n.Id,
 			})
-			n.Unlock()
-
-			<-time.After(time.Second)
-			n.Lock()
-			n.StateBool["alarm"] = false
-			n.StateFloat["alarm"] = 0
-			n.pushEvent(events.NodeUpdated{
-				Address: n.Id,
-			})
+			go n.resetAlarm() // Dont hold up the next report
 		}
 	case *reports.WakeUp:
 		logrus.Error("NODE RECEIVED WAKEUP")
@@ -195,6 +187,17 @@ func (n *Node) ProcessEvent(event reports.Report) {
 
 }
 
+func (n *Node) resetAlarm() {
+	<-time.After(time.Second)
+	n.Lock()
+	defer n.Unlock()
+	n.StateBool["alarm"] = false
+	n.StateFloat["alarm"] = 0
+	n.pushEvent(events.NodeUpdated{
+		Address: n.Id,
+	})
+}
+
 func (n *Node) GetID() int {
 	n.RLock()
 	defer n.RUnlock()
-- 
2.43.0


From 89f34638fbfa3533935fad6141a0058043f82d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 15/28] fix: keep the command classes of the product when a
 node is identified again

---
 nodes/node.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nodes/node.go b/nodes/node.go
index 7c2af81..a51f0c4 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -230,6 +230,12 @@ func (n *Node) Identify() {
 		classes := database.GetMandatoryCommandClasses(n.ProtocolInfo().Generic, n.ProtocolInfo().Specific)
 
 		n.Lock()
+		if n.ManufacurerSpecific != nil { // Keep the classes of the product when it is already known
+			dev := database.New(n.ManufacurerSpecific.Manufacturer, n.ManufacurerSpecific.Type, n.ManufacurerSpecific.ID)
+			if dev != nil {
+				classes = append(classes, dev.CommandClasses...)
+			}
+		}
 		n.CommandClasses = classes
 		n.Unlock()
 
-- 
2.43.0


From 0c40a8a40adf08d0503559695051d24c88acf0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 16/28] fix: create and find all endpoints of a node

---
 nodes/endpoints.go         | 4 ++--
 nodes/request_endpoints.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nodes/endpoints.go b/nodes/endpoints.go
index 19ef2a0..69fb078 100644
--- a/nodes/endpoints.go
+++ b/nodes/endpoints.go
@@ -23,11 +23,11 @@ func (n *Node) Endpoint(id int) *Endpoint {
 		return nil
 	}
 
-	if id > len(n.Endpoints) {
+	if id < 1 || id > len(n.Endpoints) {
 		return nil
 	}
 
-	return n.Endpoints[id]
+	return n.Endpoints[id-1] // The first endpoint has id 1
 }
 
 func (e *Endpoint) Write(msg interfaces.Encodable) {
diff --git a/nodes/request_endpoints.go b/nodes/request_endpoints.go
index da20149..d46958a 100644
--- a/nodes/request_endpoints.go
+++ b/nodes/request_endpoints.go
@@ -51,7 +51,7 @@ func (n *Node) RequestEndpoints() error {
 			logrus.Debug(cmd.String())
 			n.Lock()
 			n.Endpoints = make([]*Endpoint, 0)
-			for i := 1; i < cmd.Endpoints; i++ {
+			for i := 1; i <= cmd.Endpoints; i++ {
 				n.Endpoints = append(n.Endpoints, &Endpoint{
 					Id:             i,
 					CommandClasses: n.CommandClasses,
-- 
2.43.0


From 243e74fa04e6f2da5d485d7de00ede838b97eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 17/28] fix: ask for the protocol info of one node at a time

---
 connection.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/connection.go b/connection.go
index fe4f98d..7253383 100644
--- a/connection.go
+++ b/connection.go
@@ -25,6 +25,8 @@ type Connection struct {
 	lastCommand string // Uuid of last sent command
 	lastResult  chan byte
 
+	protocolInfo chan struct{} // Holds one item while a node is asked for its protocol info
+
 	reportCallback func(byte, reports.Report)
 	delivered      map[byte]chan struct{} // Closed when the last report from a node is delivered, used by the reader only
 
@@ -44,6 +46,7 @@ type sendPackage struct {
 	timeout time.Duration
 
 	returnChan chan *serialapi.Message
+	release    func() // Called when the request is over
 	sync.RWMutex
 }
 
@@ -59,6 +62,10 @@ func (sp *sendPackage) Close() {
 	close(sp.returnChan)
 	sp.returnChan = nil
 	sp.Unlock()
+
+	if sp.release != nil {
+		sp.release()
+	}
 }
 
 func (sp *sendPackage) IsOpen() bool {
@@ -73,6 +80,7 @@ func NewConnection() *Connection {
 		inFlight:       make(map[string]*sendPackage),
 		send:           make(chan *sendPackage),
 		lastResult:     make(chan byte, 1),
+		protocolInfo:   make(chan struct{}, 1),
 		reportCallback: func(byte, reports.Report) {},
 		delivered:      make(map[byte]chan struct{}),
 	}
@@ -90,6 +98,12 @@ func (conn *Connection) WriteWithTimeout(msg interfaces.Encodable, t time.Durati
 	pkg.returnChan = returnChan
 	pkg.timeout = t
 
+	if pkg.function == serialapi.GetNodeProtocolInfo {
+		// The response does not tell which node it is about, so ask for one node at a time
+		conn.protocolInfo <- struct{}{}
+		pkg.release = func() { <-conn.protocolInfo }
+	}
+
 	conn.send <- pkg
 
 	return returnChan, nil
-- 
2.43.0


From 45903036813af28c063e8a54832ee4c54bcbe005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 18/28] fix: ask for the list of nodes again if the answer is
 lost

---
 controller.go | 14 +++++++++++++-
 gozwave.go    |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/controller.go b/controller.go
index eaeee19..7d5c472 100644
--- a/controller.go
+++ b/controller.go
@@ -68,12 +68,24 @@ func (c *Controller) getNodes() (*nodes.List, error) {
 			go node.Identify()
 		}
 	default:
-		logrus.Errorf("Got wrong response type: %t", r)
+		return nil, fmt.Errorf("Got wrong response type: %T", r)
 	}
 
 	return c.Nodes, nil
 }
 
+// discoverNodes asks for the list of nodes until the controller has answered
+func (c *Controller) discoverNodes() {
+	for {
+		_, err := c.getNodes()
+		if err == nil {
+			return
+		}
+		logrus.Errorf("Failed to get the list of nodes: %s", err.Error())
+		<-time.After(time.Second * 10)
+	}
+}
+
 func (c *Controller) initNode(id int, node *nodes.Node) *nodes.Node {
 	if node != nil {
 		return node
diff --git a/gozwave.go b/gozwave.go
index 12f3f35..9db9a1a 100644
--- a/gozwave.go
+++ b/gozwave.go
@@ -50,7 +50,7 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 		return nil, err
 	}
 
-	go c.getNodes()
+	go c.discoverNodes()
 	go c.saveDebouncer()
 
 	return c, err
-- 
2.43.0


From 5b659f8c740d7c53f94a391808ae03a132340bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 19/28] fix: record a copy of the data, in order and as one
 stream

---
 serialrecorder/serialrecorder.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index 92453b1..e7b4506 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"log"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/tarm/serial"
@@ -17,6 +18,9 @@ type serialRecorder struct {
 	Logger io.Writer
 
 	writeBuffer chan *Row
+	startLog    sync.Once
+	lastRow     chan struct{} // Closed when the latest row is in the buffer
+	sync.Mutex
 }
 
 // Row logs one serial read or write
@@ -38,22 +42,36 @@ func New(port string, baud int) *serialRecorder {
 
 func (sr *serialRecorder) Read(p []byte) (n int, err error) {
 	n, err = sr.serial.Read(p)
-	go sr.writeToLog(DirectionRead, p[:n])
+	sr.writeToLog(DirectionRead, p[:n])
 	return
 }
 
 func (sr *serialRecorder) Write(p []byte) (n int, err error) {
 	n, err = sr.serial.Write(p)
-	go sr.writeToLog(DirectionWrite, p[:n])
+	sr.writeToLog(DirectionWrite, p[:n])
 	return
 }
 
 func (sr *serialRecorder) writeToLog(d Direction, data []byte) {
-	sr.writeBuffer <- &Row{
+	row := &Row{
 		Timestamp: time.Now(),
 		Direction: d,
-		Data:      data,
+		Data:      append([]byte(nil), data...), // The caller can reuse its buffer
 	}
+	done := make(chan struct{})
+
+	sr.Lock()
+	previous := sr.lastRow
+	sr.lastRow = done
+	sr.Unlock()
+
+	go func() { // Dont wait for a slow log
+		defer close(done)
+		if previous != nil {
+			<-previous
+		}
+		sr.writeBuffer <- row
+	}()
 }
 
 func (sr *serialRecorder) logWriter() {
@@ -71,7 +89,9 @@ func (sr *serialRecorder) Close() error {
 	return sr.serial.Close()
 }
 func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
-	go sr.logWriter()
+	sr.startLog.Do(func() { // One stream, also if the port is opened again
+		go sr.logWriter()
+	})
 
 	var err error
 	sr.serial, err = serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
-- 
2.43.0


From 7bded9793d7d1170a16303049afd83021d0ce5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 20/28] fix: keep room for the events of a full network

Every node is announced in one go when a configuration is loaded, before the
client can read any event, and when the list of nodes arrives. With more than
ten nodes the rest of the announcements was dropped.
---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index 7d5c472..45b7bac 100644
--- a/controller.go
+++ b/controller.go
@@ -32,7 +32,7 @@ func NewController() *Controller {
 	c := &Controller{
 		Nodes:           nodes.NewList(),
 		Connection:      NewConnection(),
-		eventQue:        make(chan interface{}, 10),
+		eventQue:        make(chan interface{}, 512), // Has room for a burst of events from a full network of 232 nodes
 		triggerFileSave: make(chan struct{}),
 	}
 	return c
-- 
2.43.0


From bdab2c59494b9a433e2d00d3476326c9aba49b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 21/28] fix: save a newly discovered node

The configuration was saved only when a node was updated, so a node that
was found but could not be asked yet was lost by a restart.
---
 controller.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/controller.go b/controller.go
index 45b7bac..b35b857 100644
--- a/controller.go
+++ b/controller.go
@@ -97,6 +97,7 @@ func (c *Controller) initNode(id int, node *nodes.Node) *nodes.Node {
 	c.pushEvent(events.NodeDiscoverd{
 		Address: node.Id,
 	})
+	c.saveSoon()
 
 	return node
 }
@@ -107,11 +108,16 @@ func (c *Controller) pushEvent(event interface{}) {
 	default:
 	}
 
+	switch event.(type) {
+	case events.NodeUpdated:
+		c.saveSoon()
+	}
+}
+
+// saveSoon lets the configuration be saved, without waiting for it
+func (c *Controller) saveSoon() {
 	go func() {
-		switch event.(type) {
-		case events.NodeUpdated:
-			c.triggerFileSave <- struct{}{}
-		}
+		c.triggerFileSave <- struct{}{}
 	}()
 }
 
-- 
2.43.0


From be550fb1258b875280aa6b0482ffa6b426fa13fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:42 +0000
Subject: [PATCH 22/28] fix: print the last rows of a recording

The rows that were combined last, one group per direction, were never printed.
---
 .../serialrecordingtohex.go                   | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/cmd/serialrecordingtohex/serialrecordingtohex.go b/cmd/serialrecordingtohex/serialrecordingtohex.go
index a545385..18d2206 100644
--- a/cmd/serialrecordingtohex/serialrecordingtohex.go
+++ b/cmd/serialrecordingtohex/serialrecordingtohex.go
@@ -76,6 +76,14 @@ func main() {
 		}
 	}
 
+	// What the combiners still hold when the recording ends
+	for _, l := range []*logRowCombiner{&reads, &writes} {
+		c := l.flush()
+		if c != nil {
+			combinedRows = append(combinedRows, *c)
+		}
+	}
+
 	// Sort the rows and print them out
 	sort.Sort(combinedRows)
 	for _, v := range combinedRows {
@@ -128,14 +136,26 @@ func (l *logRowCombiner) combine(r serialrecorder.Row) *row {
 		return nil
 	}
 
+	combinedRow := l.flush()
+
+	l.buf = r.Data
+	l.prev = r
+
+	return combinedRow
+}
+
+// flush returns what has been combined but not been returned yet
+func (l *logRowCombiner) flush() *row {
+	if len(l.buf) == 0 {
+		return nil
+	}
+
 	combinedRow := &row{
 		Timestamp: l.prev.Timestamp,
 		Direction: l.prev.Direction,
 		Data:      l.buf,
 	}
-
-	l.buf = r.Data
-	l.prev = r
+	l.buf = nil
 
 	return combinedRow
 }
-- 
2.43.0


From 922fdec0f15dd77c4651fa09802a2b935157452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 23/28] fix: drop sensor reports with a value size that does
 not exist

---
 commands/reports/sensor_multi_level.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commands/reports/sensor_multi_level.go b/commands/reports/sensor_multi_level.go
index 0008f98..6299e69 100644
--- a/commands/reports/sensor_multi_level.go
+++ b/commands/reports/sensor_multi_level.go
@@ -93,6 +93,8 @@ func NewSensorMultiLevel(data []byte) (*SensorMultiLevel, error) {
 		val := int32(0)
 		err = binary.Read(buf, binary.BigEndian, &val)
 		sml.Value = float64(val)
+	case 3, 5, 6, 7: // Not defined
+		return nil, fmt.Errorf("Unsupported value size, got %d bytes", sml.Size)
 	}
 
 	if sml.Precision > 0 {
-- 
2.43.0


From 7d250110fa38d08dfd5581de64735f188777c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 24/28] fix: an alarm that was saved while it was raised stayed
 raised after a restart

---
 nodes/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nodes/node.go b/nodes/node.go
index a51f0c4..ff40487 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -85,6 +85,10 @@ func (n *Node) fillIn() {
 	if n.StateFloat == nil {
 		n.StateFloat = make(map[string]float64)
 	}
+	if n.StateBool["alarm"] { // It was saved during the second an alarm lasts, no one would lower it again
+		n.StateBool["alarm"] = false
+		n.StateFloat["alarm"] = 0
+	}
 	n.CommandClasses = withoutNil(n.CommandClasses)
 
 	endpoints := n.Endpoints[:0]
-- 
2.43.0


From 2f8ec5312ec634911e99ee2dd4f97992cd320a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 25/28] fix: clients read the command classes and endpoints of
 a node without its lock

---
 nodes/endpoints.go | 3 +++
 nodes/node.go      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/nodes/endpoints.go b/nodes/endpoints.go
index 69fb078..8ad9a27 100644
--- a/nodes/endpoints.go
+++ b/nodes/endpoints.go
@@ -23,6 +23,9 @@ func (n *Node) Endpoint(id int) *Endpoint {
 		return nil
 	}
 
+	n.RLock()
+	defer n.RUnlock()
+
 	if id < 1 || id > len(n.Endpoints) {
 		return nil
 	}
diff --git a/nodes/node.go b/nodes/node.go
index ff40487..55dcc7c 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -370,6 +370,9 @@ func (n *Node) pushEvent(event interface{}) {
 }
 
 func (n *Node) HasCommand(c commands.ZWaveCommand) bool {
+	n.RLock()
+	defer n.RUnlock()
+
 	if n.CommandClasses == nil {
 		return false
 	}
-- 
2.43.0


From 770940059e867ee6b84fdb300fe9282433076965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 26/28] fix: while changes kept coming closer than ten seconds
 apart the configuration was never saved

---
 controller.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/controller.go b/controller.go
index b35b857..a35aa25 100644
--- a/controller.go
+++ b/controller.go
@@ -123,15 +123,19 @@ func (c *Controller) saveSoon() {
 
 func (c *Controller) saveDebouncer() {
 	<-c.triggerFileSave
+	latest := time.After(time.Minute)
 	for {
 		select {
 		case <-c.triggerFileSave:
+			continue
 		case <-time.After(time.Second * 10):
-			if c.filename != "" {
-				c.SaveConfigurationToFile()
-			}
-			<-c.triggerFileSave
+		case <-latest: // changes that keep coming must not put it off forever
+		}
+		if c.filename != "" {
+			c.SaveConfigurationToFile()
 		}
+		<-c.triggerFileSave
+		latest = time.After(time.Minute)
 	}
 }
 
-- 
2.43.0


From feeec8491cf193155c37e4dbecf10611d2be8f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:42 +0000
Subject: [PATCH 27/28] fix: the command classes of a node were set after the
 event that told of them

---
 nodes/node.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nodes/node.go b/nodes/node.go
index 55dcc7c..1d36a35 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -213,6 +213,7 @@ func (n *Node) Identify() {
 	defer logrus.Infof("Ended identification on node %d", n.GetID())
 
 	for {
+		updated := false
 		if n.ProtocolInfo() == nil {
 			resp, err := n.RequestProtocolInfo()
 			if err != nil {
@@ -224,9 +225,7 @@ func (n *Node) Identify() {
 			n.Lock()
 			n.protocolInfo = resp
 			n.IsAwake = resp.Listening
-			n.pushEvent(events.NodeUpdated{
-				Address: n.Id,
-			})
+			updated = true
 			n.Unlock()
 		}
 
@@ -241,6 +240,11 @@ func (n *Node) Identify() {
 			}
 		}
 		n.CommandClasses = classes
+		if updated { // Tell about it when the classes are known as well
+			n.pushEvent(events.NodeUpdated{
+				Address: n.Id,
+			})
+		}
 		n.Unlock()
 
 		//<-self.Connection.SendRaw([]byte{serialapi.GetNodeProtocolInfo, byte(index + 1)}) // Request node information
-- 
2.43.0


From da291151a49666ec82cdf1b05fab2bf24b7bef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:53 +0000
Subject: [PATCH 28/28] fix: a read that returned nothing made a half received
 message look fresh

---
 connection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connection.go b/connection.go
index 7253383..c9c5bf8 100644
--- a/connection.go
+++ b/connection.go
@@ -273,6 +273,9 @@ func (conn *Connection) Reader() error {
 			conn.readWriteCloser.Close()
 			return err
 		}
+		if n == 0 { // Nothing happened, this does not make the data in the buffer younger
+			continue
+		}
 
 		//fmt.Println(hex.Dump(buf[:n]))
 
-- 
2.43.0

