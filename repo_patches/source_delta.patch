From c6407bf6a3733097929ea3a774af9ea1843516fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 01/29] fix: serialapi.Decode must not modify its input or
 panic on malformed frames

The checksum byte of the callers buffer was overwritten with 0, bytes after the
frame (or after an ACK/NAK/CAN) were decoded as a part of it and short frames or
frames whose inner length did not fit caused a panic.
---
 serialapi/message.go | 45 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/serialapi/message.go b/serialapi/message.go
index 13414f0..2d098f9 100644
--- a/serialapi/message.go
+++ b/serialapi/message.go
@@ -49,17 +49,19 @@ func Decode(data []byte) (length int, msg *Message, err error) {
 			return length + 2, nil, nil
 		}
 
-		checksum := data[length+1]
-		checksumData := append(data[1:length+1], byte(0x00))
-		if checksum != GenerateChecksum(checksumData) {
-			return -1, nil, fmt.Errorf("Invalid checksum, is 0x%x should be 0x%x, (len=%d)", checksum, GenerateChecksum(checksumData), length)
+		// Work on a private copy of the frame, the buffer belongs to the caller
+		frame := append([]byte(nil), data[:length+2]...)
+
+		checksum := frame[length+1]
+		if should := GenerateChecksum(frame[1:]); checksum != should {
+			return -1, nil, fmt.Errorf("Invalid checksum, is 0x%x should be 0x%x, (len=%d)", checksum, should, length)
 		}
 
-		msg, err := NewMessage(data)
+		msg, err := NewMessage(frame[:length+1]) // The checksum is not a part of the content
 
 		return length + 2, msg, err
 	case 0x06, 0x15, 0x18: // ACK, NAC, CAN
-		msg, err := NewMessage(data)
+		msg, err := NewMessage(data[:1])
 		if err != nil {
 			logrus.Error(err)
 		}
@@ -100,6 +102,14 @@ func CompileMessage(data []byte) []byte {
 	return msg
 }
 
+// innerContent returns the part of the message that are described by the inner length byte
+func innerContent(data []byte) ([]byte, error) {
+	if len(data) < 7 || len(data) < 7+int(data[6]) {
+		return nil, fmt.Errorf("Content does not fit in the message: %x", data)
+	}
+	return data[7 : 7+int(data[6])], nil
+}
+
 // NewMessage tries to decode a binary message from the controller in to a message struct
 func NewMessage(data []byte) (*Message, error) {
 	message := &Message{}
@@ -107,6 +117,9 @@ func NewMessage(data []byte) (*Message, error) {
 	if len(data) <= 1 {
 		return message, nil
 	}
+	if len(data) < 4 {
+		return nil, fmt.Errorf("Message is to short, expected at least 4 bytes got %d", len(data))
+	}
 	message.Length = data[1]
 	message.MessageType = data[2]
 	message.Function = ZWaveFunction(data[3])
@@ -114,15 +127,29 @@ func NewMessage(data []byte) (*Message, error) {
 	var err error
 	switch message.Function {
 	case ApplicationCommandHandler:
+		var content []byte
+		content, err = innerContent(data)
+		if err != nil {
+			return nil, err
+		}
 		message.NodeID = data[5]
 
-		message.Data, err = NewApplicationCommandHandler(data[7 : 7+data[6]])
+		message.Data, err = NewApplicationCommandHandler(content)
 	case DiscoveryNodes:
+		var content []byte
+		content, err = innerContent(data)
+		if err != nil {
+			return nil, err
+		}
 
-		message.Data, err = NewDiscoverdNodes(data[7 : 7+data[6]])
+		message.Data, err = NewDiscoverdNodes(content)
 	case GetNodeProtocolInfo:
+		content := data[4:]
+		if len(content) == 5 { // The specific device class is left out
+			content = append(append([]byte(nil), content...), 0x00)
+		}
 
-		message.Data, err = NewGetNodeProtocolInfo(data[4:])
+		message.Data, err = NewGetNodeProtocolInfo(content)
 	default:
 		err = fmt.Errorf("Dropping message function='%s' with data %x (not implemented)", message.Function, data[4:])
 	}
-- 
2.43.0


From fbc6a41ad298b87f1a7f6c3e0fce9c0630b5709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 02/29] fix: reject node lists and application commands of
 impossible length instead of panicking

---
 serialapi/application_command_handler.go | 6 ++++++
 serialapi/discovery_nodes.go             | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/serialapi/application_command_handler.go b/serialapi/application_command_handler.go
index 7d9b3d4..460f435 100644
--- a/serialapi/application_command_handler.go
+++ b/serialapi/application_command_handler.go
@@ -1,6 +1,8 @@
 package serialapi
 
 import (
+	"fmt"
+
 	"github.com/stampzilla/gozwave/commands"
 	"github.com/stampzilla/gozwave/commands/reports"
 )
@@ -17,6 +19,10 @@ type FuncApplicationCommandHandler struct {
 func NewApplicationCommandHandler(data []byte) (*FuncApplicationCommandHandler, error) {
 	f := &FuncApplicationCommandHandler{}
 
+	if len(data) < 2 {
+		return nil, fmt.Errorf("wrong length, should be at least 2 bytes got %d", len(data))
+	}
+
 	f.Command = commands.ZWaveCommand(data[0])
 	f.Class = data[1]
 
diff --git a/serialapi/discovery_nodes.go b/serialapi/discovery_nodes.go
index 59275ae..702d138 100644
--- a/serialapi/discovery_nodes.go
+++ b/serialapi/discovery_nodes.go
@@ -18,6 +18,10 @@ func NewDiscoverdNodes(data []byte) (*DiscoverdNodes, error) {
 		return nil, fmt.Errorf("wrong length, should be at least 6 bytes got %d", len(data))
 	}
 
+	if len(data) > len(f.ActiveNodes)/8 {
+		return nil, fmt.Errorf("wrong length, should be at most %d bytes got %d", len(f.ActiveNodes)/8, len(data))
+	}
+
 	for index, bits := range data {
 		f.ActiveNodes[index*8+0] = bits&0x01 != 0
 		f.ActiveNodes[index*8+1] = bits&0x02 != 0
-- 
2.43.0


From 349f8c500563bd957419e80c0890e6a7202afe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 03/29] fix: reject sensor readings of a size that does not
 exist instead of reporting them as 0

---
 commands/reports/sensor_multi_level.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commands/reports/sensor_multi_level.go b/commands/reports/sensor_multi_level.go
index 0008f98..6055b81 100644
--- a/commands/reports/sensor_multi_level.go
+++ b/commands/reports/sensor_multi_level.go
@@ -93,6 +93,8 @@ func NewSensorMultiLevel(data []byte) (*SensorMultiLevel, error) {
 		val := int32(0)
 		err = binary.Read(buf, binary.BigEndian, &val)
 		sml.Value = float64(val)
+	case 3, 5, 6, 7: // No such readings exists
+		return nil, fmt.Errorf("Wrong size, expected 1, 2 or 4 bytes, got %d", sml.Size)
 	}
 
 	if sml.Precision > 0 {
-- 
2.43.0


From e5a81836c306892ccd7fd21112d69a02f4e45511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 04/29] fix: matching a frame against a waiting request must
 not read outside of the frame

Short frames caused a panic (off by one in MatchByteAt and in the log messages)
and bytes following the frame in the read buffer could make it match.
---
 connection.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/connection.go b/connection.go
index a522409..2e0f5bd 100644
--- a/connection.go
+++ b/connection.go
@@ -252,7 +252,7 @@ func (conn *Connection) Reader() error {
 			if l > 1 { // A message was received
 				conn.Lock()
 				for index, c := range conn.inFlight {
-					if !c.Match(incomming) {
+					if !c.Match(incomming[:l-1]) { // Only this frame, without the checksum
 						logrus.Infof("Check match %#v", c)
 						continue
 					}
@@ -314,7 +314,7 @@ func (c *sendPackage) Match(incomming []byte) bool {
 
 	// SerialAPI specific
 	if !MatchByteAt(incomming, c.function, 3) && !(c.function == serialapi.SendData && MatchByteAt(incomming, serialapi.ApplicationCommandHandler, 3)) {
-		logrus.Warnf("Skipping pkg %s, function %x != %x", c.uuid, c.function, incomming[3])
+		logrus.Warnf("Skipping pkg %s, function is not %x: %x", c.uuid, c.function, incomming)
 		return false
 	}
 
@@ -324,15 +324,15 @@ func (c *sendPackage) Match(incomming []byte) bool {
 
 	// Z-wave specific
 	if !MatchByteAt(incomming, c.node, 5) {
-		logrus.Warnf("Skipping pkg %s, node %x != %x", c.uuid, c.node, incomming[5])
+		logrus.Warnf("Skipping pkg %s, node is not %x: %x", c.uuid, c.node, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.commandclass, 7) {
-		logrus.Warnf("Skipping pkg %s, commandclass %x is not %x", c.uuid, c.commandclass, incomming[7])
+		logrus.Warnf("Skipping pkg %s, commandclass is not %x: %x", c.uuid, c.commandclass, incomming)
 		return false
 	}
 	if !MatchByteAt(incomming, c.expectedReport, 8) {
-		logrus.Errorf("Skipping pkg %s, expectedReport %x is not %x", c.uuid, c.expectedReport, incomming[8])
+		logrus.Errorf("Skipping pkg %s, report is not the expected %x: %x", c.uuid, c.expectedReport, incomming)
 		return false
 	}
 
@@ -358,7 +358,7 @@ func MatchByteAt(message []byte, b byte, position int) bool {
 		return true
 	}
 
-	if len(message) < position {
+	if len(message) <= position {
 		return false
 	}
 
-- 
2.43.0


From 40eb72ab52ffc603464f039f93383ea0c3477d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 05/29] fix: a frame that can not be decoded must not be
 delivered as a response

A waiting WriteAndWaitForReport paniced on the nil message, for example on every
sensor supported report, and WriteWithTimeout was released without its response.
---
 connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index 2e0f5bd..71dede9 100644
--- a/connection.go
+++ b/connection.go
@@ -249,7 +249,7 @@ func (conn *Connection) Reader() error {
 				continue
 			}
 
-			if l > 1 { // A message was received
+			if l > 1 && msg != nil { // A message was received
 				conn.Lock()
 				for index, c := range conn.inFlight {
 					if !c.Match(incomming[:l-1]) { // Only this frame, without the checksum
-- 
2.43.0


From 69924154d629ca1ac2a34ddd9b512420999c470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 06/29] fix: handle ACK, NAK and CAN for exactly the command
 they answer

The reader iterated and changed the in flight map without holding the write lock
while the writer changed it, stalled for 50ms on every unexpected control byte
(which makes it drop half received frames), did not recognise the answer to a
command whose response had arrived first, and a canceled command could resend
another command since the goroutine captured the loop variable.
---
 connection.go | 104 +++++++++++++++++++++++++-------------------------
 1 file changed, 51 insertions(+), 53 deletions(-)

diff --git a/connection.go b/connection.go
index 71dede9..e3b3567 100644
--- a/connection.go
+++ b/connection.go
@@ -20,8 +20,8 @@ type Connection struct {
 	// Keep track of requests wating a response
 	inFlight    map[string]*sendPackage
 	send        chan *sendPackage
-	lastCommand string // Uuid of last sent command
-	lastResult  chan byte
+	lastCommand *sendPackage  // Last sent command, until it is answered
+	lastResult  chan struct{} // Closed when the last sent command is answered
 
 	reportCallback func(byte, reports.Report)
 
@@ -31,7 +31,7 @@ type Connection struct {
 type sendPackage struct {
 	message []byte
 	uuid    string
-	result  byte // ACK, NAC, CAN
+	sent    bool // False until it has been sent the first time
 
 	function       byte
 	commandclass   byte
@@ -69,7 +69,6 @@ func NewConnection() *Connection {
 	z := &Connection{
 		inFlight:       make(map[string]*sendPackage),
 		send:           make(chan *sendPackage),
-		lastResult:     make(chan byte),
 		reportCallback: func(byte, reports.Report) {},
 	}
 	return z
@@ -149,33 +148,30 @@ func (conn *Connection) Writer() {
 		select {
 		case pkg := <-conn.send:
 			conn.Lock()
-			conn.lastCommand = ""
-
 			conn.inFlight[pkg.uuid] = pkg
-			conn.lastCommand = pkg.uuid
+			conn.lastCommand = pkg
+			result := make(chan struct{})
+			conn.lastResult = result
 
-			if pkg.timeout != 0 { // Only add the message to the inflight list if someone is waiting for an response
+			if pkg.timeout != 0 && !pkg.sent { // Only add the message to the inflight list if someone is waiting for an response
 				go conn.timeoutWorker(pkg)
 			}
-
-			abort := make(chan struct{})
-			go func() {
-				select {
-				case result := <-conn.lastResult:
-					pkg.result = result
-				case <-time.After(time.Second):
-					logrus.Warn("Send timeout")
-					// SEND TIMEOUT
-				}
-				close(abort)
-			}()
+			pkg.sent = true
 
 			logrus.Debugf("Write: %x", pkg.message)
 			conn.readWriteCloser.Write(pkg.message)
 			conn.Unlock()
 
-			<-abort
-			conn.lastCommand = ""
+			select {
+			case <-result:
+			case <-time.After(time.Second):
+				logrus.Warn("Send timeout")
+				// SEND TIMEOUT
+			}
+
+			conn.Lock()
+			conn.lastCommand = nil
+			conn.Unlock()
 		}
 	}
 }
@@ -211,30 +207,7 @@ func (conn *Connection) Reader() error {
 			}
 
 			if l == 1 {
-				for index, c := range conn.inFlight {
-					conn.RLock()
-					if c.uuid == conn.lastCommand {
-						select {
-						case conn.lastResult <- incomming[0]:
-						case <-time.After(time.Millisecond * 50):
-						}
-
-						if msg.IsNAK() {
-							logrus.Warnf("Command failed: %s - %#v", c.uuid, c)
-							delete(conn.inFlight, index)
-							c.Close()
-						}
-
-						if msg.IsCAN() {
-							go func() {
-								<-time.After(time.Millisecond * 100)
-								conn.send <- c
-							}()
-						}
-					}
-					conn.RUnlock()
-				}
-
+				conn.handleResult(msg)
 			}
 
 			// The message is not compleatly read yet, wait for some more data
@@ -253,7 +226,7 @@ func (conn *Connection) Reader() error {
 				conn.Lock()
 				for index, c := range conn.inFlight {
 					if !c.Match(incomming[:l-1]) { // Only this frame, without the checksum
-						logrus.Infof("Check match %#v", c)
+						logrus.Infof("Check match %s", c.uuid)
 						continue
 					}
 
@@ -290,6 +263,33 @@ func (conn *Connection) Reader() error {
 
 }
 
+// handleResult takes care of an ACK, NAK or CAN for the last command that was sent
+func (conn *Connection) handleResult(msg *serialapi.Message) {
+	conn.Lock()
+	defer conn.Unlock()
+
+	c := conn.lastCommand
+	if c == nil {
+		return
+	}
+	conn.lastCommand = nil // There is only one result for each command
+	close(conn.lastResult)
+
+	if msg.IsNAK() {
+		logrus.Warnf("Command failed: %s", c.uuid)
+		delete(conn.inFlight, c.uuid)
+		c.Close()
+	}
+
+	if msg.IsCAN() {
+		delete(conn.inFlight, c.uuid) // Not in flight again until it has been resent
+		go func() {
+			<-time.After(time.Millisecond * 100)
+			conn.send <- c
+		}()
+	}
+}
+
 func newSendPackage(data []byte) *sendPackage {
 	pkg := &sendPackage{
 		message: serialapi.CompileMessage(data),
@@ -343,12 +343,10 @@ func (conn *Connection) timeoutWorker(sp *sendPackage) {
 	<-time.After(sp.timeout)
 
 	conn.Lock()
-	for index, c := range conn.inFlight {
-		if index == sp.uuid {
-			logrus.Warnf("TIMEOUT: %s", sp.uuid)
-			delete(conn.inFlight, sp.uuid)
-			c.Close()
-		}
+	if sp.IsOpen() {
+		logrus.Warnf("TIMEOUT: %s", sp.uuid)
+		delete(conn.inFlight, sp.uuid)
+		sp.Close()
 	}
 	conn.Unlock()
 }
-- 
2.43.0


From 915dbe2ec00588f5afdeb771dbc9a32944f8f69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 07/29] fix: deliver the reply of a controller function to one
 waiting request only

One protocol info reply completed the requests of all nodes, which all got the
device class of the first node that were answered.
---
 connection.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/connection.go b/connection.go
index e3b3567..0754ea7 100644
--- a/connection.go
+++ b/connection.go
@@ -20,6 +20,7 @@ type Connection struct {
 	// Keep track of requests wating a response
 	inFlight    map[string]*sendPackage
 	send        chan *sendPackage
+	sentCount   uint64        // Number of sent commands
 	lastCommand *sendPackage  // Last sent command, until it is answered
 	lastResult  chan struct{} // Closed when the last sent command is answered
 
@@ -31,7 +32,7 @@ type Connection struct {
 type sendPackage struct {
 	message []byte
 	uuid    string
-	sent    bool // False until it has been sent the first time
+	order   uint64 // Position in the order of all sent commands, 0 until it has been sent
 
 	function       byte
 	commandclass   byte
@@ -153,10 +154,11 @@ func (conn *Connection) Writer() {
 			result := make(chan struct{})
 			conn.lastResult = result
 
-			if pkg.timeout != 0 && !pkg.sent { // Only add the message to the inflight list if someone is waiting for an response
+			if pkg.timeout != 0 && pkg.order == 0 { // Only add the message to the inflight list if someone is waiting for an response
 				go conn.timeoutWorker(pkg)
 			}
-			pkg.sent = true
+			conn.sentCount++
+			pkg.order = conn.sentCount
 
 			logrus.Debugf("Write: %x", pkg.message)
 			conn.readWriteCloser.Write(pkg.message)
@@ -224,12 +226,18 @@ func (conn *Connection) Reader() error {
 
 			if l > 1 && msg != nil { // A message was received
 				conn.Lock()
+				first := conn.firstMatch(incomming[:l-1])
 				for index, c := range conn.inFlight {
 					if !c.Match(incomming[:l-1]) { // Only this frame, without the checksum
 						logrus.Infof("Check match %s", c.uuid)
 						continue
 					}
 
+					// A function reply answers one request only, they are answered in the order they were sent
+					if byte(msg.Function) == c.function && c != first {
+						continue
+					}
+
 					if c.IsOpen() {
 						select {
 						case c.returnChan <- msg: // Try to deliver message
@@ -263,6 +271,17 @@ func (conn *Connection) Reader() error {
 
 }
 
+// firstMatch returns the waiting request that were sent first of those that matches the frame
+func (conn *Connection) firstMatch(frame []byte) *sendPackage {
+	var first *sendPackage
+	for _, c := range conn.inFlight {
+		if c.IsOpen() && c.Match(frame) && (first == nil || c.order < first.order) {
+			first = c
+		}
+	}
+	return first
+}
+
 // handleResult takes care of an ACK, NAK or CAN for the last command that was sent
 func (conn *Connection) handleResult(msg *serialapi.Message) {
 	conn.Lock()
-- 
2.43.0


From 2fb5559cbf31cddf2321f75875e12c0e36370999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 08/29] fix: never lose a response or leave the caller waiting

The return channel was read from the package after it had been handed over, when
it already could be answered and nil. The reader also held the lock and waited a
second for the caller to receive, and dropped the response if it did not. A zero
timeout never expired.
---
 connection.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/connection.go b/connection.go
index 0754ea7..409b7b2 100644
--- a/connection.go
+++ b/connection.go
@@ -82,17 +82,19 @@ func (conn *Connection) Write(msg interfaces.Encodable) error {
 }
 func (conn *Connection) WriteWithTimeout(msg interfaces.Encodable, t time.Duration) (<-chan *serialapi.Message, error) {
 	pkg := newSendPackage(msg.Encode())
-	pkg.returnChan = make(chan *serialapi.Message)
+	returnChan := make(chan *serialapi.Message, 1) // Room for the one and only response
+	pkg.returnChan = returnChan
 	pkg.timeout = t
 
 	conn.send <- pkg
 
-	return pkg.returnChan, nil
+	return returnChan, nil
 }
 func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.Duration, er byte) (<-chan reports.Report, error) {
 	pkg := newSendPackage(msg.Encode())
-	returnChan := make(chan reports.Report)
-	pkg.returnChan = make(chan *serialapi.Message)
+	returnChan := make(chan reports.Report, 1)
+	responses := make(chan *serialapi.Message, 1)
+	pkg.returnChan = responses
 	pkg.timeout = t
 	pkg.expectedReport = er
 
@@ -100,7 +102,7 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 
 	go func() {
 		defer close(returnChan)
-		for msg := range pkg.returnChan {
+		for msg := range responses {
 			if f, ok := msg.Data.(*serialapi.FuncApplicationCommandHandler); ok {
 				returnChan <- f.Report
 				return
@@ -154,7 +156,7 @@ func (conn *Connection) Writer() {
 			result := make(chan struct{})
 			conn.lastResult = result
 
-			if pkg.timeout != 0 && pkg.order == 0 { // Only add the message to the inflight list if someone is waiting for an response
+			if pkg.IsOpen() && pkg.order == 0 { // Someone is waiting for an response
 				go conn.timeoutWorker(pkg)
 			}
 			conn.sentCount++
@@ -239,12 +241,7 @@ func (conn *Connection) Reader() error {
 					}
 
 					if c.IsOpen() {
-						select {
-						case c.returnChan <- msg: // Try to deliver message
-						case <-time.After(time.Second):
-							logrus.Warnf("Timeout writing response to requester: %#v", msg)
-						}
-
+						c.returnChan <- msg // Never blocks, the package is closed after the first response
 						c.Close()
 					}
 					delete(conn.inFlight, index)
-- 
2.43.0


From c3b991d7074a641f863662b9d7a78d03fa6be2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 09/29] fix: forget sent commands that nobody waits for

They stayed in the in flight list forever, or until they swallowed a report.
---
 connection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connection.go b/connection.go
index 409b7b2..47f1487 100644
--- a/connection.go
+++ b/connection.go
@@ -175,6 +175,9 @@ func (conn *Connection) Writer() {
 
 			conn.Lock()
 			conn.lastCommand = nil
+			if !pkg.IsOpen() { // Nobody waits for a response
+				delete(conn.inFlight, pkg.uuid)
+			}
 			conn.Unlock()
 		}
 	}
-- 
2.43.0


From dc6e5aac0921db0ca01caa3b5286ac770a8e8138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 10/29] fix: use one writer for all ports and do not write to
 the port while it is replaced

Every reconnect started another writer, so that several commands could be
unanswered at the same time. The port was replaced without synchronisation and
was nil after a failed reopen, which made the next command panic.
---
 connection.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/connection.go b/connection.go
index 47f1487..ce98f50 100644
--- a/connection.go
+++ b/connection.go
@@ -14,6 +14,8 @@ import (
 
 type Connection struct {
 	readWriteCloser io.ReadWriteCloser
+	writeMutex      sync.Mutex
+	startWriter     sync.Once
 	portOpener      PortOpener
 	Connected       bool
 
@@ -121,8 +123,7 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 		conn.Connected = false
 	}()
 
-	conn.readWriteCloser, err = conn.portOpener.Open()
-
+	port, err := conn.portOpener.Open()
 	if err != nil {
 		select {
 		case connectChan <- err:
@@ -131,6 +132,10 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 		return
 	}
 
+	conn.Lock()
+	conn.readWriteCloser = port
+	conn.Unlock()
+
 	go func() {
 		<-time.After(time.Millisecond * 200)
 		logrus.Debug("Connected")
@@ -141,7 +146,7 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 		conn.Connected = true
 	}()
 
-	go conn.Writer()
+	conn.startWriter.Do(func() { go conn.Writer() })
 	return conn.Reader()
 }
 
@@ -163,9 +168,13 @@ func (conn *Connection) Writer() {
 			pkg.order = conn.sentCount
 
 			logrus.Debugf("Write: %x", pkg.message)
-			conn.readWriteCloser.Write(pkg.message)
+			port := conn.readWriteCloser
 			conn.Unlock()
 
+			if err := conn.writeTo(port, pkg.message); err != nil {
+				logrus.Error("Serial write failed: ", err)
+			}
+
 			select {
 			case <-result:
 			case <-time.After(time.Second):
@@ -183,17 +192,30 @@ func (conn *Connection) Writer() {
 	}
 }
 
+// writeTo makes sure that only one message is written at a time
+func (conn *Connection) writeTo(port io.Writer, data []byte) error {
+	conn.writeMutex.Lock()
+	defer conn.writeMutex.Unlock()
+
+	_, err := port.Write(data)
+	return err
+}
+
 func (conn *Connection) Reader() error {
+	conn.RLock()
+	port := conn.readWriteCloser
+	conn.RUnlock()
+
 	incomming := make([]byte, 0)
 	age := time.Now()
 
 	for {
 		buf := make([]byte, 128)
 
-		n, err := conn.readWriteCloser.Read(buf)
+		n, err := port.Read(buf)
 		if err != nil {
 			logrus.Error("Serial read failed: ", err)
-			conn.readWriteCloser.Close()
+			port.Close()
 			return err
 		}
 
@@ -263,7 +285,7 @@ func (conn *Connection) Reader() error {
 			logrus.Debugf("Recived: %x", incomming)
 			incomming = incomming[l:]
 			if l > 1 {
-				conn.readWriteCloser.Write([]byte{0x06}) // Send ACK to stick
+				conn.writeTo(port, []byte{0x06}) // Send ACK to stick
 			}
 
 		}
-- 
2.43.0


From 0595373724ec0fdd921ebb9fd5c513ad812ede9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 11/29] fix: the connected indicator must not be set after the
 port has failed and is guarded by the lock

---
 connection.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/connection.go b/connection.go
index ce98f50..348e75d 100644
--- a/connection.go
+++ b/connection.go
@@ -118,9 +118,13 @@ func (conn *Connection) WriteAndWaitForReport(msg interfaces.Encodable, t time.D
 }
 
 func (conn *Connection) Connect(connectChan chan error) (err error) {
+	isOpen := false
 	defer func() {
 		logrus.Error("Disonnected")
+		conn.Lock()
+		isOpen = false
 		conn.Connected = false
+		conn.Unlock()
 	}()
 
 	port, err := conn.portOpener.Open()
@@ -134,16 +138,19 @@ func (conn *Connection) Connect(connectChan chan error) (err error) {
 
 	conn.Lock()
 	conn.readWriteCloser = port
+	isOpen = true
 	conn.Unlock()
 
 	go func() {
 		<-time.After(time.Millisecond * 200)
 		logrus.Debug("Connected")
+		conn.Lock()
+		conn.Connected = isOpen // The port could have failed already
+		conn.Unlock()
 		select {
 		case connectChan <- nil:
 		default:
 		}
-		conn.Connected = true
 	}()
 
 	conn.startWriter.Do(func() { go conn.Writer() })
-- 
2.43.0


From 8e97748458c50a9bd1207e06937c7c90dbb8f7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 12/29] fix: stop opening the port after a failed connect

The goroutine kept opening the port every second after the error was returned,
and the first error was lost if it came before anyone waited for it.
---
 gozwave.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gozwave.go b/gozwave.go
index 432b3cc..dbf46b4 100644
--- a/gozwave.go
+++ b/gozwave.go
@@ -26,7 +26,8 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 	var err error
 
 	c.Connection.reportCallback = c.DeliverReportToNode
-	connected := make(chan error)
+	connected := make(chan error, 1) // Room for the first result, that must not be missed
+	failed := make(chan struct{})
 
 	//spew.Dump(c)
 
@@ -38,12 +39,17 @@ func ConnectWithCustomPortOpener(port string, filename string, po PortOpener) (*
 		for {
 			err := c.Connection.Connect(connected)
 			logrus.Error(err)
-			<-time.After(time.Second)
+			select {
+			case <-failed:
+				return
+			case <-time.After(time.Second):
+			}
 		}
 	}()
 
 	err = <-connected
 	if err != nil {
+		close(failed) // Do not try to connect again, nobody can use the controller
 		return nil, err
 	}
 
-- 
2.43.0


From 70a4bbaef2bdea2d65e1ccc4947e05bd30030cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 13/29] fix: apply reports in the order they are received

Each report was applied by a goroutine of its own, so that an older report could
replace a newer. An alarm is now ended by a goroutine, not to delay the reports
that follow it.
---
 connection.go | 18 +++++++++++++++++-
 nodes/node.go | 23 +++++++++++++++--------
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/connection.go b/connection.go
index 348e75d..2d0084c 100644
--- a/connection.go
+++ b/connection.go
@@ -27,6 +27,7 @@ type Connection struct {
 	lastResult  chan struct{} // Closed when the last sent command is answered
 
 	reportCallback func(byte, reports.Report)
+	lastReport     chan struct{} // Closed when the last report is delivered, only used by the reader
 
 	sync.RWMutex
 }
@@ -284,7 +285,7 @@ func (conn *Connection) Reader() error {
 			if msg != nil {
 				if cmd, ok := msg.Data.(*serialapi.FuncApplicationCommandHandler); ok {
 					// Deliver the update to the parent
-					go conn.reportCallback(msg.NodeID, cmd.Report)
+					conn.deliverReport(msg.NodeID, cmd.Report)
 				}
 			}
 
@@ -300,6 +301,21 @@ func (conn *Connection) Reader() error {
 
 }
 
+// deliverReport delivers a report to the parent without waiting for it, but always after all previous reports
+func (conn *Connection) deliverReport(node byte, report reports.Report) {
+	previous := conn.lastReport
+	done := make(chan struct{})
+	conn.lastReport = done
+
+	go func() {
+		defer close(done)
+		if previous != nil {
+			<-previous
+		}
+		conn.reportCallback(node, report)
+	}()
+}
+
 // firstMatch returns the waiting request that were sent first of those that matches the frame
 func (conn *Connection) firstMatch(frame []byte) *sendPackage {
 	var first *sendPackage
diff --git a/nodes/node.go b/nodes/node.go
index 5771623..8561e5e 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -95,15 +95,8 @@ func (n *Node) ProcessEvent(event reports.Report) {
 			n.pushEvent(events.NodeUpdated{
 				Address: n.Id,
 			})
-			n.Unlock()
 
-			<-time.After(time.Second)
-			n.Lock()
-			n.StateBool["alarm"] = false
-			n.StateFloat["alarm"] = 0
-			n.pushEvent(events.NodeUpdated{
-				Address: n.Id,
-			})
+			go n.resetAlarm()
 		}
 	case *reports.WakeUp:
 		logrus.Error("NODE RECEIVED WAKEUP")
@@ -144,6 +137,20 @@ func (n *Node) ProcessEvent(event reports.Report) {
 
 }
 
+// resetAlarm ends the alarm after a while
+func (n *Node) resetAlarm() {
+	<-time.After(time.Second)
+
+	n.Lock()
+	defer n.Unlock()
+
+	n.StateBool["alarm"] = false
+	n.StateFloat["alarm"] = 0
+	n.pushEvent(events.NodeUpdated{
+		Address: n.Id,
+	})
+}
+
 func (n *Node) GetID() int {
 	n.RLock()
 	defer n.RUnlock()
-- 
2.43.0


From 20584149278464d26167a2ca52c07d725d0cd7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 14/29] fix: set up a discovered node before it is announced

---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index 841c7c3..c2b6f6e 100644
--- a/controller.go
+++ b/controller.go
@@ -79,12 +79,12 @@ func (c *Controller) initNode(id int, node *nodes.Node) *nodes.Node {
 	}
 
 	node = nodes.New(id)
+	node.Setup(c.Connection, c.pushEvent) // Must be usable before anyone else can get hold of it
 	c.Nodes.Add(node)
 	c.pushEvent(events.NodeDiscoverd{
 		Address: node.Id,
 	})
 
-	node.Setup(c.Connection, c.pushEvent)
 	return node
 }
 
-- 
2.43.0


From 80334fea524e553dd45106e3e95651bc32a2b52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 15/29] fix: the node list must not copy its lock or hand out
 its internal map

The value receivers copied the mutex, possibly while it was locked which blocked
forever, All returned the map that Add writes to, and the nodes were marshaled
without holding their locks.
---
 nodes/list.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/nodes/list.go b/nodes/list.go
index 297f673..aee93aa 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -37,27 +37,23 @@ func (l *List) Add(node *Node) {
 	l.Unlock()
 }
 
-func (l List) All() map[int]*Node {
+// All returns a snapshot of the list
+func (l *List) All() map[int]*Node {
 	l.RLock()
 	defer l.RUnlock()
 
-	for _, v := range l.nodes {
-		v.RLock()
-		defer v.RUnlock()
+	all := make(map[int]*Node, len(l.nodes))
+	for k, v := range l.nodes {
+		all[k] = v
 	}
 
-	return l.nodes
+	return all
 }
 
-func (l List) Get(id int) *Node {
+func (l *List) Get(id int) *Node {
 	l.RLock()
 	defer l.RUnlock()
 
-	if l.nodes[id] != nil {
-		l.nodes[id].RLock()
-		defer l.nodes[id].RUnlock()
-	}
-
 	return l.nodes[id]
 }
 
@@ -67,11 +63,18 @@ func (l List) Get(id int) *Node {
 //l.Unlock()
 //}
 
-func (l List) MarshalJSON() ([]byte, error) {
-	s := make(map[string]*Node)
+func (l *List) MarshalJSON() ([]byte, error) {
+	s := make(map[string]json.RawMessage)
 
 	for k, v := range l.All() {
-		s[strconv.Itoa(k)] = v
+		v.RLock()
+		b, err := json.Marshal(v)
+		v.RUnlock()
+		if err != nil {
+			return nil, err
+		}
+
+		s[strconv.Itoa(k)] = b
 	}
 
 	return json.Marshal(s)
-- 
2.43.0


From 5766cdc065b0f7a36d58a4a5c08a6d196d082daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 16/29] fix: lock the node while its wake up channel, command
 classes and endpoints are used

---
 nodes/endpoints.go | 3 +++
 nodes/node.go      | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/nodes/endpoints.go b/nodes/endpoints.go
index 19ef2a0..206bab2 100644
--- a/nodes/endpoints.go
+++ b/nodes/endpoints.go
@@ -23,6 +23,9 @@ func (n *Node) Endpoint(id int) *Endpoint {
 		return nil
 	}
 
+	n.RLock()
+	defer n.RUnlock()
+
 	if id > len(n.Endpoints) {
 		return nil
 	}
diff --git a/nodes/node.go b/nodes/node.go
index 8561e5e..e7138f6 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -67,6 +67,9 @@ func (n *Node) Setup(connection interfaces.Writer, pushEventFunc func(interface{
 }
 
 func (n *Node) isAwake() chan struct{} {
+	n.Lock()
+	defer n.Unlock()
+
 	if n.IsAwake {
 		c := make(chan struct{})
 		close(c)
@@ -313,6 +316,9 @@ func (n *Node) pushEvent(event interface{}) {
 }
 
 func (n *Node) HasCommand(c commands.ZWaveCommand) bool {
+	n.RLock()
+	defer n.RUnlock()
+
 	if n.CommandClasses == nil {
 		return false
 	}
-- 
2.43.0


From bdb7eeefebda95534c3b27045ce67eb0197cc836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 17/29] fix: keep the command classes of the product when a
 node is identified

They were replaced by the mandatory command classes of the device class as soon
as the endpoints were known, and after every restart.
---
 nodes/node.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/nodes/node.go b/nodes/node.go
index e7138f6..6c96199 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -182,11 +182,11 @@ func (n *Node) Identify() {
 			n.Unlock()
 		}
 
-		// set basic commandClasses
+		// set basic commandClasses, and those of the product when it is known
 		classes := database.GetMandatoryCommandClasses(n.ProtocolInfo().Generic, n.ProtocolInfo().Specific)
 
 		n.Lock()
-		n.CommandClasses = classes
+		n.CommandClasses = append(classes, n.productCommandClasses()...)
 		n.Unlock()
 
 		//<-self.Connection.SendRaw([]byte{serialapi.GetNodeProtocolInfo, byte(index + 1)}) // Request node information
@@ -209,9 +209,7 @@ func (n *Node) Identify() {
 				n.Brand = dev.Brand
 				n.Product = dev.Product
 				n.Description = dev.Description
-				for _, v := range dev.CommandClasses {
-					n.CommandClasses = append(n.CommandClasses, v)
-				}
+				n.CommandClasses = append(n.CommandClasses, n.productCommandClasses()...)
 			}
 			n.pushEvent(events.NodeUpdated{
 				Address: n.Id,
@@ -311,6 +309,20 @@ func (n *Node) Identify() {
 	}
 }
 
+// productCommandClasses returns the command classes that the database lists for the product
+func (n *Node) productCommandClasses() []*database.CommandClass {
+	if n.ManufacurerSpecific == nil {
+		return nil
+	}
+
+	dev := database.New(n.ManufacurerSpecific.Manufacturer, n.ManufacurerSpecific.Type, n.ManufacurerSpecific.ID)
+	if dev == nil {
+		return nil
+	}
+
+	return dev.CommandClasses
+}
+
 func (n *Node) pushEvent(event interface{}) {
 	n.pushEventFunc(event)
 }
-- 
2.43.0


From 2dc61c8a54e2c98717b25e5570f398841339cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 18/29] fix: GetMandatoryCommandClasses must not hand out its
 own definitions

All nodes of a device class shared the same command classes with each other and
with later lookups.
---
 database/commandclasses.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/database/commandclasses.go b/database/commandclasses.go
index 302be97..d781c9c 100644
--- a/database/commandclasses.go
+++ b/database/commandclasses.go
@@ -4,7 +4,13 @@ package database
 func GetMandatoryCommandClasses(generic, specific byte) []*CommandClass {
 	for k, v := range definitions {
 		if k.Generic == generic && k.Specific == specific {
-			return v
+			// The caller owns the result, it must not be shared with anyone else
+			classes := make([]*CommandClass, len(v))
+			for i, class := range v {
+				c := *class
+				classes[i] = &c
+			}
+			return classes
 		}
 	}
 	return nil
-- 
2.43.0


From f35a5a67ecff3e39e1d8d92b64d11eedeb834952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 19/29] fix: create all reported endpoints and look them up by
 their number

The last endpoint was never created, and asking for the endpoint after the last
one paniced.
---
 nodes/endpoints.go         | 4 ++--
 nodes/request_endpoints.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nodes/endpoints.go b/nodes/endpoints.go
index 206bab2..31ff2bc 100644
--- a/nodes/endpoints.go
+++ b/nodes/endpoints.go
@@ -26,11 +26,11 @@ func (n *Node) Endpoint(id int) *Endpoint {
 	n.RLock()
 	defer n.RUnlock()
 
-	if id > len(n.Endpoints) {
+	if id < 1 || id > len(n.Endpoints) {
 		return nil
 	}
 
-	return n.Endpoints[id]
+	return n.Endpoints[id-1] // The first endpoint is number 1
 }
 
 func (e *Endpoint) Write(msg interfaces.Encodable) {
diff --git a/nodes/request_endpoints.go b/nodes/request_endpoints.go
index da20149..d46958a 100644
--- a/nodes/request_endpoints.go
+++ b/nodes/request_endpoints.go
@@ -51,7 +51,7 @@ func (n *Node) RequestEndpoints() error {
 			logrus.Debug(cmd.String())
 			n.Lock()
 			n.Endpoints = make([]*Endpoint, 0)
-			for i := 1; i < cmd.Endpoints; i++ {
+			for i := 1; i <= cmd.Endpoints; i++ {
 				n.Endpoints = append(n.Endpoints, &Endpoint{
 					Id:             i,
 					CommandClasses: n.CommandClasses,
-- 
2.43.0


From 57896894a6169a5e39e0764bbaf1bbdd861800fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 20/29] fix: a report of an unknown state must not change the
 state of the node

---
 nodes/node.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nodes/node.go b/nodes/node.go
index 6c96199..62da589 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -108,6 +108,9 @@ func (n *Node) ProcessEvent(event reports.Report) {
 			n.awake = nil
 		}
 	case *reports.SwitchBinaryV1:
+		if !data.Valid { // The node does not know its state
+			break
+		}
 		n.StateBool["on"] = data.CurrentValue
 		n.pushEvent(events.NodeUpdated{
 			Address: n.Id,
@@ -118,12 +121,18 @@ func (n *Node) ProcessEvent(event reports.Report) {
 			Address: n.Id,
 		})
 	case *reports.SwitchMultilevelV1:
+		if !data.Valid { // The node does not know its state
+			break
+		}
 		n.StateBool["on"] = data.CurrentValue > 0
 		n.StateFloat["level"] = float64(data.CurrentValue)
 		n.pushEvent(events.NodeUpdated{
 			Address: n.Id,
 		})
 	case *reports.SwitchMultilevelV4:
+		if !data.Valid { // The node does not know its state
+			break
+		}
 		n.StateBool["on"] = data.CurrentValue > 0
 		n.StateFloat["level"] = float64(data.CurrentValue)
 		n.pushEvent(events.NodeUpdated{
-- 
2.43.0


From 28cc72f01a4e71ae588ee97b408dbe1228efa5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 21/29] fix: never leave an empty or partial configuration file
 behind

The file was truncated before the new content was written, so that a crash or a
full disk destroyed the saved network, and all errors were ignored. Comparing
with the saved network never found them equal and read the nodes unlocked.
---
 controller.go | 58 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/controller.go b/controller.go
index c2b6f6e..9ecacde 100644
--- a/controller.go
+++ b/controller.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
-	"reflect"
 	"sync"
 	"time"
 
@@ -22,6 +21,7 @@ type Controller struct {
 	eventQue   chan interface{}
 
 	filename        string
+	saveMutex       sync.Mutex
 	triggerFileSave chan struct{}
 
 	sync.RWMutex
@@ -132,30 +132,58 @@ func (c *Controller) DeliverReportToNode(node byte, report reports.Report) {
 }
 
 func (c *Controller) SaveConfigurationToFile() error {
-	controller, err := c.loadConfigurationFromFile()
-	if err == nil {
-		if reflect.DeepEqual(c, controller) {
-			return nil
-		}
+	if c.filename == "" {
+		return fmt.Errorf("no config file to save to")
 	}
 
-	configFile, err := os.Create(c.filename)
-	if err != nil {
-		logrus.Error("creating config file", err.Error())
-	}
-	defer configFile.Close()
+	c.saveMutex.Lock()
+	defer c.saveMutex.Unlock()
 
-	logrus.Info("Save config: ", c.filename)
-	var out bytes.Buffer
 	b, err := json.MarshalIndent(c, "", "\t")
 	if err != nil {
 		logrus.Error("error marshal json", err)
+		return err
+	}
+
+	saved, err := os.ReadFile(c.filename)
+	if err == nil && bytes.Equal(saved, b) {
+		return nil
+	}
+
+	logrus.Info("Save config: ", c.filename)
+	if err := replaceFile(c.filename, b); err != nil {
+		logrus.Error("saving config file ", err)
+		return err
 	}
-	json.Indent(&out, b, "", "\t")
-	out.WriteTo(configFile)
 
 	return nil
 }
+
+// replaceFile writes a new file and then replaces the old one with it, to always have a complete file
+func replaceFile(filename string, data []byte) error {
+	tmp := filename + ".tmp"
+
+	f, err := os.Create(tmp)
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if e := f.Close(); err == nil {
+		err = e
+	}
+	if err == nil {
+		err = os.Rename(tmp, filename)
+	}
+	if err != nil {
+		os.Remove(tmp)
+	}
+
+	return err
+}
+
 func (c *Controller) LoadConfigurationFromFile() error {
 	controller, err := c.loadConfigurationFromFile()
 	if err != nil {
-- 
2.43.0


From 6704e92e77ee302474145a996535e33bb0a355cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 22/29] fix: a configuration file with missing or null members
 must not crash the library

---
 controller.go |  5 ++++-
 nodes/list.go | 12 +++++-------
 nodes/node.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/controller.go b/controller.go
index 9ecacde..7de9bed 100644
--- a/controller.go
+++ b/controller.go
@@ -209,9 +209,12 @@ func (c *Controller) loadConfigurationFromFile() (*Controller, error) {
 
 	controller := &Controller{}
 	jsonParser := json.NewDecoder(configFile)
-	if err = jsonParser.Decode(&controller); err != nil {
+	if err = jsonParser.Decode(controller); err != nil {
 		return nil, err
 	}
+	if controller.Nodes == nil { // There are no nodes in the file
+		controller.Nodes = nodes.NewList()
+	}
 
 	return controller, nil
 }
diff --git a/nodes/list.go b/nodes/list.go
index aee93aa..c282588 100644
--- a/nodes/list.go
+++ b/nodes/list.go
@@ -21,18 +21,13 @@ func NewList() *List {
 }
 
 func (l *List) Add(node *Node) {
+	node.prepare()
+
 	l.Lock()
 	if l.nodes == nil {
 		l.nodes = make(map[int]*Node)
 	}
 
-	node.Lock()
-	//node.connection = l.connection
-	for k, _ := range node.Endpoints {
-		node.Endpoints[k].node = node
-	}
-	node.Unlock()
-
 	l.nodes[int(node.Id)] = node
 	l.Unlock()
 }
@@ -88,6 +83,9 @@ func (l *List) UnmarshalJSON(data []byte) error {
 	}
 
 	for _, v := range s {
+		if v == nil {
+			continue
+		}
 		l.Add(v)
 	}
 
diff --git a/nodes/node.go b/nodes/node.go
index 62da589..7494e3c 100644
--- a/nodes/node.go
+++ b/nodes/node.go
@@ -66,6 +66,48 @@ func (n *Node) Setup(connection interfaces.Writer, pushEventFunc func(interface{
 	n.pushEventFunc = pushEventFunc
 }
 
+// prepare completes a node that might have been created from a configuration file
+func (n *Node) prepare() {
+	n.Lock()
+	defer n.Unlock()
+
+	if n.StateBool == nil {
+		n.StateBool = make(map[string]bool)
+	}
+	if n.StateFloat == nil {
+		n.StateFloat = make(map[string]float64)
+	}
+	if n.pushEventFunc == nil {
+		n.pushEventFunc = func(interface{}) {}
+	}
+	n.CommandClasses = withoutNil(n.CommandClasses)
+
+	for k, v := range n.Endpoints {
+		if v == nil {
+			v = &Endpoint{Id: k + 1}
+			n.Endpoints[k] = v
+		}
+		if v.StateBool == nil {
+			v.StateBool = make(map[string]bool)
+		}
+		if v.StateFloat == nil {
+			v.StateFloat = make(map[string]float64)
+		}
+		v.CommandClasses = withoutNil(v.CommandClasses)
+		v.node = n
+	}
+}
+
+func withoutNil(classes []*database.CommandClass) []*database.CommandClass {
+	for k, v := range classes {
+		if v == nil {
+			rest := withoutNil(classes[k+1:])
+			return append(append([]*database.CommandClass{}, classes[:k]...), rest...)
+		}
+	}
+	return classes
+}
+
 func (n *Node) isAwake() chan struct{} {
 	n.Lock()
 	defer n.Unlock()
-- 
2.43.0


From cdde4d564a562f028fbe23d83f5a5b85083334ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 23/29] fix: the serial recorder must record a copy of the
 data, in order and with one encoder

The rows were sent by unordered goroutines that refered to the buffer of the
caller, which had often been overwritten, and every reopen of the port started
another encoder, which made the recording impossible to decode.
---
 serialrecorder/serialrecorder.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index 92453b1..7888575 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"log"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/tarm/serial"
@@ -16,7 +17,8 @@ type serialRecorder struct {
 	baud   int
 	Logger io.Writer
 
-	writeBuffer chan *Row
+	writeBuffer    chan *Row
+	startLogWriter sync.Once
 }
 
 // Row logs one serial read or write
@@ -38,16 +40,24 @@ func New(port string, baud int) *serialRecorder {
 
 func (sr *serialRecorder) Read(p []byte) (n int, err error) {
 	n, err = sr.serial.Read(p)
-	go sr.writeToLog(DirectionRead, p[:n])
+	sr.record(DirectionRead, p[:n])
 	return
 }
 
 func (sr *serialRecorder) Write(p []byte) (n int, err error) {
 	n, err = sr.serial.Write(p)
-	go sr.writeToLog(DirectionWrite, p[:n])
+	sr.record(DirectionWrite, p[:n])
 	return
 }
 
+// record logs a copy of the data, since the caller is free to reuse its buffer
+func (sr *serialRecorder) record(d Direction, data []byte) {
+	if len(data) == 0 {
+		return
+	}
+	sr.writeToLog(d, append([]byte(nil), data...))
+}
+
 func (sr *serialRecorder) writeToLog(d Direction, data []byte) {
 	sr.writeBuffer <- &Row{
 		Timestamp: time.Now(),
@@ -71,7 +81,7 @@ func (sr *serialRecorder) Close() error {
 	return sr.serial.Close()
 }
 func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
-	go sr.logWriter()
+	sr.startLogWriter.Do(func() { go sr.logWriter() }) // All rows must be written by the same encoder
 
 	var err error
 	sr.serial, err = serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
-- 
2.43.0


From 98cfacb28601c63aeac806145c5a6bac757ff605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 24/29] fix: serialrecordingtohex left out the last row of each
 direction

---
 cmd/serialrecordingtohex/serialrecordingtohex.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmd/serialrecordingtohex/serialrecordingtohex.go b/cmd/serialrecordingtohex/serialrecordingtohex.go
index a545385..25bcaaf 100644
--- a/cmd/serialrecordingtohex/serialrecordingtohex.go
+++ b/cmd/serialrecordingtohex/serialrecordingtohex.go
@@ -76,6 +76,17 @@ func main() {
 		}
 	}
 
+	// Add the last rows that has not been followed by any other
+	for _, l := range []logRowCombiner{reads, writes} {
+		if len(l.buf) > 0 {
+			combinedRows = append(combinedRows, row{
+				Timestamp: l.prev.Timestamp,
+				Direction: l.prev.Direction,
+				Data:      l.buf,
+			})
+		}
+	}
+
 	// Sort the rows and print them out
 	sort.Sort(combinedRows)
 	for _, v := range combinedRows {
-- 
2.43.0


From 917dacadcfccd86c3ed9b04de849a3885855d68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 25/29] fix: an empty read must not prevent that old data is
 discarded

---
 connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/connection.go b/connection.go
index 2d0084c..f36cfad 100644
--- a/connection.go
+++ b/connection.go
@@ -227,6 +227,10 @@ func (conn *Connection) Reader() error {
 			return err
 		}
 
+		if n == 0 { // Nothing was received, do not make the data in the buffer younger
+			continue
+		}
+
 		//fmt.Println(hex.Dump(buf[:n]))
 
 		// If data in buffer is older than 40ms, clear buffer before appending data
-- 
2.43.0


From 24a4151189f46f6b3a500fbd96153597a466b112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:36 +0000
Subject: [PATCH 26/29] fix: multichannel association must not be taken for
 association in the mandatory command classes

---
 database/mandatory.go                       |  2 +-
 generators/commandclasses/commandclasses.go | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/database/mandatory.go b/database/mandatory.go
index ae0e4d6..3a2d327 100644
--- a/database/mandatory.go
+++ b/database/mandatory.go
@@ -650,7 +650,7 @@ var definitions = map[Definition][]*CommandClass{
 			ID: 0x60,
 		},
 		&CommandClass{
-			ID: 0x85,
+			ID: 0x8e,
 		},
 		&CommandClass{
 			ID: 0x73,
diff --git a/generators/commandclasses/commandclasses.go b/generators/commandclasses/commandclasses.go
index cbd84fb..8866dd6 100644
--- a/generators/commandclasses/commandclasses.go
+++ b/generators/commandclasses/commandclasses.go
@@ -135,6 +135,11 @@ func StringToByte(s string) byte {
 		return commands.AssociationGRPInfo
 	}
 
+	//- Multichannel Association (version 3 or newer)
+	if strings.Contains(s, "Multichannel Association") {
+		return commands.MultiInstanceAssociation
+	}
+
 	//- Association (version 2 or newer)
 	if strings.Contains(s, "Association") {
 		return commands.Association
@@ -170,11 +175,6 @@ func StringToByte(s string) byte {
 	if strings.Contains(s, "Meter") {
 		return commands.Meter
 	}
-	//- Multichannel Association (version 3 or newer)
-	if strings.Contains(s, "Multichannel Association") {
-		return commands.MultiInstanceAssociation
-	}
-
 	//- Multi Channel (version 4 or newer)
 	if strings.Contains(s, "Multi Channel") {
 		return commands.MultiInstance
-- 
2.43.0


From 6601ee9fa059e831d2a7df6cfc1a7eb40529da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 27/29] fix: the last block of the mandatory command classes
 was lost without an empty line after it

---
 generators/commandclasses/commandclasses.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/generators/commandclasses/commandclasses.go b/generators/commandclasses/commandclasses.go
index 8866dd6..c79baa1 100644
--- a/generators/commandclasses/commandclasses.go
+++ b/generators/commandclasses/commandclasses.go
@@ -46,14 +46,17 @@ func main() {
 	scanner := bufio.NewScanner(file)
 	defs := [][]string{}
 	classes := []string{}
+	endBlock := func() {
+		for _, def := range defs {
+			data.CommandClasses[def[0]+"|"+def[1]] = classes
+		}
+		defs = [][]string{}
+		classes = []string{}
+	}
 	for scanner.Scan() {
 		text := strings.TrimSpace(scanner.Text())
 		if text == "" {
-			for _, def := range defs {
-				data.CommandClasses[def[0]+"|"+def[1]] = classes
-			}
-			defs = [][]string{}
-			classes = []string{}
+			endBlock()
 			continue
 		}
 
@@ -81,6 +84,8 @@ func main() {
 		}
 	}
 
+	endBlock() // There is no empty line required after the last one
+
 	if err := scanner.Err(); err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From 66509db259d8a33f2cfca41137a1e9a71f8cea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:09 +0000
Subject: [PATCH 28/29] fix: device database generator must escape all text and
 ignore the case of ids

---
 generators/database/database.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generators/database/database.go b/generators/database/database.go
index 9abc242..a49c975 100644
--- a/generators/database/database.go
+++ b/generators/database/database.go
@@ -126,6 +126,8 @@ var escaper = strings.NewReplacer(
 	"\"", "\\\"", // quote
 	"\r", "\\r",
 	"\n", "\\n",
+	"\x00", "\\x00", // not allowed in source code
+	"\uFEFF", "\\uFEFF", // not allowed in source code
 )
 
 var funcMap = template.FuncMap{
@@ -207,7 +209,7 @@ func New{{ $value.ManufacturerID }}_{{ $ref.ProductType }}_{{ $ref.ProductID }}(
 				NonSecure: {{$cmd.NonSecure}},
 				{{- end }}
 				{{- if ne $cmd.Version ""}}
-				Version: "{{$cmd.Version}}",
+				Version: "{{$cmd.Version | escape}}",
 				{{- end }}
 			},
 {{- end}}
@@ -299,7 +301,7 @@ func main() {
 
 		refs := []deviceRef{}
 		for _, ref := range dev.DeviceRefs {
-			iden := dev.ManufacturerID + "_" + ref.ProductType + "_" + ref.ProductID
+			iden := strings.ToLower(dev.ManufacturerID + "_" + ref.ProductType + "_" + ref.ProductID)
 			if idens[iden] {
 				// FIXME: How do we handle duplicates?
 				log.Printf("warning: %s duplicate iden %s\n", iden, file.Name())
-- 
2.43.0


From 5fda6c8c89ee26e4cc014aeb1a0c14fee64f0973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 29/29] fix: Keep the recorder usable when the port is opened
 again

When the port could not be opened again the recorder was left with a nil
port, and the next write crashed the process. The port is now kept until a
new one is opened, and replaced under a lock since commands can be written at
the same time.
---
 serialrecorder/serialrecorder.go | 36 +++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/serialrecorder/serialrecorder.go b/serialrecorder/serialrecorder.go
index 7888575..f1e59f7 100644
--- a/serialrecorder/serialrecorder.go
+++ b/serialrecorder/serialrecorder.go
@@ -12,10 +12,11 @@ import (
 )
 
 type serialRecorder struct {
-	serial io.ReadWriteCloser
-	port   string
-	baud   int
-	Logger io.Writer
+	serial      io.ReadWriteCloser
+	serialMutex sync.RWMutex // The port can be opened again while the old one still is in use
+	port        string
+	baud        int
+	Logger      io.Writer
 
 	writeBuffer    chan *Row
 	startLogWriter sync.Once
@@ -38,14 +39,22 @@ func New(port string, baud int) *serialRecorder {
 	}
 }
 
+// current returns the port that were opened last
+func (sr *serialRecorder) current() io.ReadWriteCloser {
+	sr.serialMutex.RLock()
+	defer sr.serialMutex.RUnlock()
+
+	return sr.serial
+}
+
 func (sr *serialRecorder) Read(p []byte) (n int, err error) {
-	n, err = sr.serial.Read(p)
+	n, err = sr.current().Read(p)
 	sr.record(DirectionRead, p[:n])
 	return
 }
 
 func (sr *serialRecorder) Write(p []byte) (n int, err error) {
-	n, err = sr.serial.Write(p)
+	n, err = sr.current().Write(p)
 	sr.record(DirectionWrite, p[:n])
 	return
 }
@@ -78,12 +87,19 @@ func (sr *serialRecorder) logWriter() {
 }
 
 func (sr *serialRecorder) Close() error {
-	return sr.serial.Close()
+	return sr.current().Close()
 }
 func (sr *serialRecorder) Open() (io.ReadWriteCloser, error) {
 	sr.startLogWriter.Do(func() { go sr.logWriter() }) // All rows must be written by the same encoder
 
-	var err error
-	sr.serial, err = serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
-	return sr, err
+	port, err := serial.OpenPort(&serial.Config{Name: sr.port, Baud: sr.baud})
+	if err != nil {
+		return nil, err // Those who still have the old port keeps it, it is closed but can be used
+	}
+
+	sr.serialMutex.Lock()
+	sr.serial = port
+	sr.serialMutex.Unlock()
+
+	return sr, nil
 }
-- 
2.43.0

