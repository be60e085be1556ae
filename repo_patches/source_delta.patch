From 892879e163ae4fc76f61a777f6849138249e27d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:41 +0000
Subject: [PATCH 01/65] fix: apply slice operands of set operations as sets

Repeated slice items toggled membership in SymmetricExceptWith and broke the
length comparisons in SetEquals, IsSupersetOf and IsProperSupersetOf.
---
 sttp/hashset/HashSet.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/sttp/hashset/HashSet.go b/sttp/hashset/HashSet.go
index fe55548..cff324e 100644
--- a/sttp/hashset/HashSet.go
+++ b/sttp/hashset/HashSet.go
@@ -131,7 +131,8 @@ func (hs HashSet[T]) SymmetricExceptWith(other []T) {
 		return
 	}
 
-	for _, v := range other {
+	// Repeated slice items must only be applied once
+	for v := range NewHashSet(other) {
 		if !hs.Remove(v) {
 			hs.Add(v)
 		}
@@ -182,7 +183,8 @@ func (hs HashSet[T]) UnionWithSet(other HashSet[T]) {
 // SetEquals determines whether a set and the specified slice contain the same elements.
 // Returns true if the set is equal to other slice items; otherwise, false.
 func (hs HashSet[T]) SetEquals(other []T) bool {
-	if len(hs) != len(other) {
+	// Slice may contain repeated items
+	if len(hs) != len(NewHashSet(other)) {
 		return false
 	}
 
@@ -287,11 +289,6 @@ func (hs HashSet[T]) IsSupersetOf(other []T) bool {
 		return true
 	}
 
-	// If slice has more elements than set, then it can't be a superset
-	if len(other) > len(hs) {
-		return false
-	}
-
 	for _, v := range other {
 		if !hs.Contains(v) {
 			return false
@@ -320,8 +317,8 @@ func (hs HashSet[T]) IsProperSupersetOf(other []T) bool {
 		return true // Set has at least one element, based on prior check
 	}
 
-	// If slice has more or equal elements than set, then it can't be a proper superset
-	if len(other) >= len(hs) {
+	// If slice has more or equal distinct elements than set, then it can't be a proper superset
+	if len(NewHashSet(other)) >= len(hs) {
 		return false
 	}
 
-- 
2.43.0


From ae04bc0ddcb77ebe3fbad7e4204fec0acf49bddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:42 +0000
Subject: [PATCH 02/65] fix: convert timestamps outside 1970 to 2262 without
 loss

Nanoseconds since the Unix epoch overflow outside this range, so times
before 1970 and after 2262 were converted to unrelated instants.
---
 sttp/ticks/Ticks.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sttp/ticks/Ticks.go b/sttp/ticks/Ticks.go
index 540cb5a..053c2d7 100644
--- a/sttp/ticks/Ticks.go
+++ b/sttp/ticks/Ticks.go
@@ -86,7 +86,7 @@ func (ticks Ticks) TimestampValue() int64 {
 
 // ToTime converts a Ticks value to standard Go Time value.
 func ToTime(ticks Ticks) time.Time {
-	return time.Unix(0, int64((ticks-UnixBaseOffset)&ValueMask)*100).UTC()
+	return ticks.ToTime()
 }
 
 // Converts a unix nanoseconds timestamp into a Ticks value.
@@ -96,7 +96,8 @@ func FromUnixNano(ns uint64) Ticks {
 
 // FromTime converts a standard Go Time value to a Ticks value.
 func FromTime(time time.Time) Ticks {
-	return FromUnixNano(uint64(time.UnixNano()))
+	// UnixNano only covers years 1678 to 2262, so seconds and fraction are converted separately
+	return Ticks(time.Unix()+int64(UnixBaseOffset/PerSecond))*PerSecond + Ticks(time.Nanosecond()/100)
 }
 
 // IsLeapSecond determines if the deserialized Ticks value represents a leap second, i.e., second 60.
@@ -141,7 +142,8 @@ func UtcNow() Ticks {
 
 // ToTime converts a Ticks value to standard Go Time value.
 func (t Ticks) ToTime() time.Time {
-	return time.Unix(0, int64((t-UnixBaseOffset)&ValueMask)*100).UTC()
+	value := t & ValueMask
+	return time.Unix(int64(value/PerSecond)-int64(UnixBaseOffset/PerSecond), int64(value%PerSecond)*100).UTC()
 }
 
 // Converts the ticks value into a Unix nanoseconds timestamp
-- 
2.43.0


From eee37cf7651f5e75d5555382e91775c83353bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:45 +0000
Subject: [PATCH 03/65] fix: format positive infinity without a group symbol

---
 sttp/format/Float.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sttp/format/Float.go b/sttp/format/Float.go
index 76e484c..d8d0d05 100644
--- a/sttp/format/Float.go
+++ b/sttp/format/Float.go
@@ -25,6 +25,7 @@
 package format
 
 import (
+	"math"
 	"strconv"
 	"strings"
 )
@@ -39,6 +40,12 @@ func Float(f float64, prec int) string {
 // and the specified numeric thousands groupSymbol, e.g., ','.
 func FloatWith(f float64, prec int, decimalSymbol, groupSymbol byte) string {
 	in := strconv.FormatFloat(f, 'f', prec, 64)
+
+	// Infinities and NaN have no digits to group
+	if math.IsInf(f, 0) || math.IsNaN(f) {
+		return in
+	}
+
 	decSymbolAsStr := string([]byte{decimalSymbol})
 
 	if decimalSymbol != '.' {
-- 
2.43.0


From f3823ec9dfe3be8ac0039ac1bc22e0ff348abae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:04 +0000
Subject: [PATCH 04/65] fix: name the confirm-update-base-times command

---
 sttp/transport/Constants.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sttp/transport/Constants.go b/sttp/transport/Constants.go
index 0d99e8b..132f73b 100644
--- a/sttp/transport/Constants.go
+++ b/sttp/transport/Constants.go
@@ -366,6 +366,8 @@ func (sce ServerCommandEnum) String() string {
 		return "ConfirmNotification"
 	case ServerCommand.ConfirmBufferBlock:
 		return "ConfirmBufferBlock"
+	case ServerCommand.ConfirmUpdateBaseTimes:
+		return "ConfirmUpdateBaseTimes"
 	case ServerCommand.ConfirmUpdateSignalIndexCache:
 		return "ConfirmUpdateSignalIndexCache"
 	case ServerCommand.ConfirmUpdateCipherKeys:
-- 
2.43.0


From f3960c368bddce5e7936a47a69cf519fd2ac9c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:04 +0000
Subject: [PATCH 05/65] fix: tolerate short signal references

A reference whose last part has fewer than two characters panicked, and one
without a dash was reported as a phase angle instead of unknown.
---
 sttp/transport/MeasurementMetadata.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sttp/transport/MeasurementMetadata.go b/sttp/transport/MeasurementMetadata.go
index a96ecce..c3c6431 100644
--- a/sttp/transport/MeasurementMetadata.go
+++ b/sttp/transport/MeasurementMetadata.go
@@ -70,10 +70,11 @@ type MeasurementMetadata struct {
 func (mm *MeasurementMetadata) ParseSignalReference() (source string, signalKind SignalKindEnum, position int) {
 	signalReference := mm.SignalReference
 	parts := strings.Split(signalReference, "-")
+	lastIndex := len(parts) - 1
+	typeInfo := parts[lastIndex]
+	signalKind = SignalKind.Unknown
 
-	if len(parts) > 1 {
-		lastIndex := len(parts) - 1
-		typeInfo := parts[lastIndex]
+	if lastIndex > 0 && len(typeInfo) >= 2 {
 		signalKind = ParseSignalKindAcronym(typeInfo[:2])
 		position, _ = strconv.Atoi(typeInfo[2:])
 		source = strings.Join(parts[:lastIndex], "-")
-- 
2.43.0


From 2ad970017ace8033fc96faf0c1fa7876660363e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:06 +0000
Subject: [PATCH 06/65] fix: make thread start and join wait for the scheduled
 run

Start only marked the thread as running once its goroutine got scheduled, so a
Join in between returned at once and concurrent starts could block or run the
function twice.
---
 sttp/thread/Thread.go | 58 +++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/sttp/thread/Thread.go b/sttp/thread/Thread.go
index 9bba841..6207279 100644
--- a/sttp/thread/Thread.go
+++ b/sttp/thread/Thread.go
@@ -25,15 +25,13 @@ package thread
 
 import (
 	"sync"
-
-	"github.com/tevino/abool/v2"
 )
 
 // Thread represents a thread-like wrapper for a Go routine.
 type Thread struct {
-	exec    func()
-	mutex   sync.Mutex
-	running abool.AtomicBool
+	exec  func()
+	mutex sync.Mutex
+	done  chan struct{} // Non-nil while running, closed when current run completes
 }
 
 // NewThread creates a new Thread.
@@ -47,50 +45,56 @@ func (thread *Thread) Start() {
 		panic("thread has no execution function defined")
 	}
 
-	if thread.running.IsSet() {
+	if !thread.TryStart() {
 		panic("thread is already running")
 	}
-
-	thread.mutex.Lock()
-	go thread.run()
 }
 
 // TryStart attempts to cause the thread function to be scheduled for execution via a new Go routine.
 // Returns true if the thread function was successfully scheduled for execution; otherwise, false.
 func (thread *Thread) TryStart() bool {
-	defer func() {
-		// Ignore possible thread Start race panics, function will return false
-		recover()
-	}()
+	thread.mutex.Lock()
+	defer thread.mutex.Unlock()
 
-	if thread.exec != nil && thread.running.IsNotSet() {
-		thread.Start()
-		return true
+	if thread.exec == nil || thread.done != nil {
+		return false
 	}
 
-	return false
+	// Thread is considered running from this point on so that
+	// a Join that follows always waits for the scheduled run
+	thread.done = make(chan struct{})
+	go thread.run(thread.done)
+
+	return true
 }
 
 // Join blocks the calling thread until this Thread terminates.
 func (thread *Thread) Join() {
-	if thread.exec == nil || thread.running.IsNotSet() {
-		return
-	}
-
 	thread.mutex.Lock()
-	//lint:ignore SA2001 -- desired behavior
+	done := thread.done
 	thread.mutex.Unlock()
+
+	if done != nil {
+		<-done
+	}
 }
 
 // IsRunning safely determines if the thread function is currently executing.
 func (thread *Thread) IsRunning() bool {
-	return thread.running.IsSet()
+	thread.mutex.Lock()
+	defer thread.mutex.Unlock()
+
+	return thread.done != nil
 }
 
-func (thread *Thread) run() {
-	defer thread.running.UnSet()
-	defer thread.mutex.Unlock()
+func (thread *Thread) run(done chan struct{}) {
+	defer func() {
+		thread.mutex.Lock()
+		thread.done = nil
+		thread.mutex.Unlock()
+
+		close(done)
+	}()
 
-	thread.running.Set()
 	thread.exec()
 }
-- 
2.43.0


From d736ffced6d7f1cd62c9074ef25f6c0c7b54c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:08 +0000
Subject: [PATCH 07/65] fix: match empty predicates and quoted values in node
 selection

An empty predicate made the selection panic, an empty quoted value never
matched, and a value containing an equals sign matched every node with that
attribute.
---
 sttp/xml/XmlNode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 9c9de1a..798af3a 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -169,7 +169,7 @@ func (xn *XmlNode) SelectNodes(xpath string) []*XmlNode {
 				name := expr[:lbp]
 				predicate := expr[lbp+1 : rbp]
 
-				if predicate[0] == '@' {
+				if strings.HasPrefix(predicate, "@") {
 					if isMatch(node.Name, name) && node.attributeMatch(predicate[1:]) {
 						results = append(results, node)
 					}
@@ -205,7 +205,7 @@ func isMatch(value, name string) bool {
 }
 
 func (xn *XmlNode) attributeMatch(expr string) bool {
-	parts := strings.Split(expr, "=")
+	parts := strings.SplitN(expr, "=", 2)
 
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
@@ -247,7 +247,7 @@ func (xn *XmlNode) childValueMatch(expr string) bool {
 }
 
 func (xn *XmlNode) valueMatch(expr string) bool {
-	parts := strings.Split(expr, "=")
+	parts := strings.SplitN(expr, "=", 2)
 
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
@@ -265,7 +265,7 @@ func (xn *XmlNode) valueMatch(expr string) bool {
 }
 
 func removeQuotes(value string) string {
-	if strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'") && len(value) > 2 {
+	if strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'") && len(value) > 1 {
 		value = value[1 : len(value)-1]
 	}
 
-- 
2.43.0


From 3728f69900f48c9f53efd8bf099bd9d1179038ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:59 +0000
Subject: [PATCH 08/65] fix: send commands from multiple threads one at a time

Commands share one write buffer. Commands sent at the same time from
different threads could overwrite each other, and a command larger than
the buffer caused a slice bounds panic.
---
 sttp/transport/DataSubscriber.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 97c6f99..2a2c658 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -63,6 +63,7 @@ type DataSubscriber struct {
 	readBuffer                   []byte
 	reader                       *bufio.Reader
 	writeBuffer                  []byte
+	writeMutex                   sync.Mutex
 	dataChannelSocket            net.Conn
 	dataChannelResponseThread    *thread.Thread
 	connectionID                 string
@@ -1504,8 +1505,12 @@ func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommand
 	var packetSize uint32 = uint32(len(data)) + 1
 	var commandBufferSize uint32 = packetSize + payloadHeaderSize
 
-	if int(commandBufferSize) > cap(ds.writeBuffer) {
-		ds.writeBuffer = ds.writeBuffer[:commandBufferSize]
+	// Commands can be sent from multiple threads, each command must be written as a whole
+	ds.writeMutex.Lock()
+	defer ds.writeMutex.Unlock()
+
+	if int(commandBufferSize) > len(ds.writeBuffer) {
+		ds.writeBuffer = make([]byte, commandBufferSize)
 	}
 
 	// Insert packet size
-- 
2.43.0


From dc7e4d1936a8266a440d9593d1ef836301048b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:01 +0000
Subject: [PATCH 09/65] fix: add missing equals sign to requestNaNValueFilter
 parameter

The subscription connection string contained e.g. requestNaNValueFiltertrue,
so publishers never saw the setting.
---
 sttp/transport/DataSubscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 2a2c658..0ba4bd3 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -493,7 +493,7 @@ func (ds *DataSubscriber) Subscribe() error {
 	parameterBuilder.WriteString(strconv.FormatInt(int64(ds.subscription.ProcessingInterval), 10))
 	parameterBuilder.WriteString(";useMillisecondResolution=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.UseMillisecondResolution))
-	parameterBuilder.WriteString(";requestNaNValueFilter")
+	parameterBuilder.WriteString(";requestNaNValueFilter=")
 	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.RequestNaNValueFilter))
 	parameterBuilder.WriteString(";assemblyInfo={source=")
 	parameterBuilder.WriteString(ds.STTPSourceInfo)
-- 
2.43.0


From 327b2b9564ba90de3008309e3d13686589f16086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:03 +0000
Subject: [PATCH 10/65] fix: return registered metadata record when lookups
 race

Two threads looking up the same new signal could each get a different
record, with only one of them in the registry.
---
 sttp/transport/DataSubscriber.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 0ba4bd3..856119e 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -294,7 +294,7 @@ func (ds *DataSubscriber) LookupMetadata(signalID guid.Guid) *MeasurementMetadat
 			Multiplier: 1.0,
 		}
 		// Continue using LoadOrStore on failure to avoid racing another thread
-		ds.measurementRegistry.LoadOrStore(signalID, metadata)
+		metadata, _ = ds.measurementRegistry.LoadOrStore(signalID, metadata)
 	}
 	return metadata.(*MeasurementMetadata)
 }
-- 
2.43.0


From b8e016ceec7d98555df7fa9b01c90ad882e10d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:05 +0000
Subject: [PATCH 11/65] fix: copy uncompressed metadata before handing it to
 callback thread

The metadata bytes were a view of the socket read buffer, which the next
response overwrites while the metadata is still being parsed.
---
 sttp/transport/DataSubscriber.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 856119e..74b1133 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1023,6 +1023,9 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 			ds.dispatchStatusMessage(fmt.Sprintf("Decompressed %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(decompressStarted).Seconds(), 3)))
 		} else {
 			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(ds.metadataRequested).Seconds(), 3)))
+
+			// Callback runs on its own thread while the read buffer gets reused for the next response
+			data = append([]byte(nil), data...)
 		}
 
 		go metadataReceivedCallback(data)
-- 
2.43.0


From 0b8a78d611c8f2c23eefb4b8c9eb749ce9022d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:39 +0000
Subject: [PATCH 12/65] fix: deliver buffer block content, each block once and
 in sequence

Buffer blocks were delivered without their bytes. Blocks received out of
order were treated as missing, repeated blocks were treated as new, and
blocks cached for a prior connection were kept for the next one.
---
 sttp/transport/DataSubscriber.go | 41 +++++++++++++-------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 74b1133..db03ab6 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -166,7 +166,7 @@ type DataSubscriber struct {
 	MeasurementPool sync.Pool
 
 	bufferBlockExpectedSequenceNumber uint32
-	bufferBlockCache                  []BufferBlock
+	bufferBlockCache                  map[uint32]BufferBlock
 }
 
 // NewDataSubscriber creates a new DataSubscriber.
@@ -378,6 +378,7 @@ func (ds *DataSubscriber) setupConnection() {
 
 	ds.keyIVs = nil
 	ds.bufferBlockExpectedSequenceNumber = 0
+	ds.bufferBlockCache = make(map[uint32]BufferBlock)
 	ds.measurementRegistry = sync.Map{}
 }
 
@@ -1395,7 +1396,7 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 	// Buffer block received - wrap as a BufferBlockMeasurement and expose back to consumer
 	sequenceNumber := binary.BigEndian.Uint32(data)
-	bufferCacheIndex := int(sequenceNumber - ds.bufferBlockExpectedSequenceNumber)
+	_, cached := ds.bufferBlockCache[sequenceNumber]
 	var signalIndexCacheIndex int32
 
 	if ds.Version > 1 && data[4:][0] > 0 {
@@ -1403,7 +1404,7 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 	}
 
 	// Check if this buffer block has already been processed (e.g., mistaken retransmission due to timeout)
-	if bufferCacheIndex >= 0 && (bufferCacheIndex >= len(ds.bufferBlockCache) || ds.bufferBlockCache[bufferCacheIndex].Buffer == nil) {
+	if int32(sequenceNumber-ds.bufferBlockExpectedSequenceNumber) >= 0 && !cached {
 		// Send confirmation that buffer block is received
 		ds.SendServerCommandWithPayload(ServerCommand.ConfirmBufferBlock, data[:4])
 
@@ -1421,32 +1422,29 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 		ds.signalIndexCacheMutex.Unlock()
 
 		signalID := signalIndexCache.SignalID(signalIndex)
-		bufferBlockMeasurement := BufferBlock{SignalID: signalID}
+
+		// Buffer is copied since source data is only valid until next response is received
+		bufferBlockMeasurement := BufferBlock{SignalID: signalID, Buffer: append([]byte{}, data[4:]...)}
 
 		// Determine if this is the next buffer block in the sequence
 		if sequenceNumber == ds.bufferBlockExpectedSequenceNumber {
-			bufferBlockMeasurements := make([]BufferBlock, 1+len(ds.bufferBlockCache))
-			var i int
-
 			// Add the buffer block measurement to the list of measurements to be published
-			bufferBlockMeasurements[0] = bufferBlockMeasurement
+			bufferBlockMeasurements := []BufferBlock{bufferBlockMeasurement}
 			ds.bufferBlockExpectedSequenceNumber++
 
-			// Add cached buffer block measurements to the list of measurements to be published
-			for i = 1; i < len(ds.bufferBlockCache); i++ {
-				if ds.bufferBlockCache[i].Buffer == nil {
+			// Move cached buffer block measurements to the list of measurements to be published
+			for {
+				bufferBlockMeasurement, cached = ds.bufferBlockCache[ds.bufferBlockExpectedSequenceNumber]
+
+				if !cached {
 					break
 				}
 
-				bufferBlockMeasurements[i] = ds.bufferBlockCache[i]
+				bufferBlockMeasurements = append(bufferBlockMeasurements, bufferBlockMeasurement)
+				delete(ds.bufferBlockCache, ds.bufferBlockExpectedSequenceNumber)
 				ds.bufferBlockExpectedSequenceNumber++
 			}
 
-			// Remove published buffer block measurements from the buffer block queue
-			if len(ds.bufferBlockCache) > 0 {
-				ds.bufferBlockCache = ds.bufferBlockCache[i:]
-			}
-
 			// Publish buffer block measurements
 			ds.BeginCallbackSync()
 
@@ -1458,15 +1456,10 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 
 			ds.EndCallbackSync()
 		} else {
-			// Ensure that the list has at least as many elements as it needs to cache this measurement.
+			// Cache this measurement until all prior buffer blocks have been received.
 			// This edge case handles possible dropouts and/or out of order packet deliver when data
 			// transport is UDP - this use case is not expected when using a TCP only connection.
-			for i := len(ds.bufferBlockCache); i <= bufferCacheIndex; i++ {
-				ds.bufferBlockCache = append(ds.bufferBlockCache, BufferBlock{})
-			}
-
-			// Insert this buffer block into the proper location in the list
-			ds.bufferBlockCache[bufferCacheIndex] = bufferBlockMeasurement
+			ds.bufferBlockCache[sequenceNumber] = bufferBlockMeasurement
 		}
 	}
 }
-- 
2.43.0


From effd2a11a24835cad8479f361b980bcf53fcfc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:20 +0000
Subject: [PATCH 13/65] fix: only deliver measurements that were decoded from a
 data packet

Packets that were dropped or failed to decode still invoked the new
measurements callback with stale or zero records, and counted them. The
measurement count in a packet was trusted for allocation and indexing.
---
 sttp/transport/DataSubscriber.go | 81 +++++++++++++++++++++++---------
 1 file changed, 59 insertions(+), 22 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index db03ab6..80b1e1e 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -1227,6 +1227,21 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	}
 
 	count := binary.BigEndian.Uint32(data)
+
+	// Validate received count before allocation, every measurement takes at least
+	// one bit in a compressed packet or nine bytes in a compact packet
+	maxCount := uint64(len(data)-4) * 8
+
+	if !compressed {
+		maxCount = uint64(len(data)-4) / fixedLength
+	}
+
+	if uint64(count) > maxCount {
+		ds.dispatchErrorMessage("Data packet is too small to contain " + strconv.FormatUint(uint64(count), 10) + " measurements - disconnecting.")
+		ds.dispatchConnectionTerminated()
+		return
+	}
+
 	var measurements *[]Measurement
 	if mptr := ds.MeasurementPool.Get(); mptr == nil {
 		m := make([]Measurement, count)
@@ -1249,12 +1264,22 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	signalIndexCache := ds.signalIndexCache[cacheIndex]
 	ds.signalIndexCacheMutex.Unlock()
 
+	var decoded bool
+
 	if compressed {
-		ds.parseTSSCMeasurements(signalIndexCache, data[4:], *measurements)
+		*measurements, decoded = ds.parseTSSCMeasurements(signalIndexCache, data[4:], (*measurements)[:0])
 	} else {
-		ds.parseCompactMeasurements(signalIndexCache, data[4:], *measurements)
+		decoded = ds.parseCompactMeasurements(signalIndexCache, data[4:], *measurements)
+	}
+
+	// Packets that could not be decoded have no measurements to expose
+	if !decoded {
+		ds.MeasurementPool.Put(measurements)
+		return
 	}
 
+	count = uint32(len(*measurements))
+
 	ds.BeginCallbackSync()
 
 	if ds.NewMeasurementsCallback != nil {
@@ -1268,7 +1293,13 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	atomic.AddUint64(&ds.totalMeasurementsReceived, uint64(count))
 }
 
-func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
+// parseTSSCMeasurements appends decompressed measurements to the provided slice. Returned flag
+// determines if packet was successfully decoded.
+func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) ([]Measurement, bool) {
+	if signalIndexCache.Count() == 0 {
+		ds.warnMissingSignalIndexCache("compressed")
+		return measurements, false
+	}
 	decoder := signalIndexCache.tsscDecoder
 	var newDecoder bool
 
@@ -1283,7 +1314,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if data[0] != 85 {
 		ds.dispatchErrorMessage("TSSC version not recognized - disconnecting. Received version: " + strconv.Itoa(int(data[0])))
 		ds.dispatchConnectionTerminated()
-		return
+		return measurements, false
 	}
 
 	sequenceNumber := binary.BigEndian.Uint16(data[1:])
@@ -1318,7 +1349,7 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 		}
 
 		// Ignore packets until the reset has occurred
-		return
+		return measurements, false
 	}
 
 	decoder.SetBuffer(data[3:])
@@ -1330,25 +1361,22 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	var err error
 
 	ok := true
-	index := 0
 
 	for ok {
 		if ok, err = decoder.TryGetMeasurement(&id, &timestamp, &stateFlags, &value); ok {
-			measurements[index] = Measurement{
+			measurements = append(measurements, Measurement{
 				SignalID:  signalIndexCache.SignalID(id),
 				Value:     float64(value),
 				Timestamp: ticks.Ticks(timestamp),
 				Flags:     StateFlagsEnum(stateFlags),
-			}
-
-			index++
+			})
 		}
 	}
 
 	if err != nil {
 		ds.dispatchErrorMessage("Failed to parse TSSC measurements - disconnecting: " + err.Error())
 		ds.dispatchConnectionTerminated()
-		return
+		return measurements, false
 	}
 
 	decoder.SequenceNumber++
@@ -1357,20 +1385,27 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	if decoder.SequenceNumber == 0 {
 		decoder.SequenceNumber = 1
 	}
-}
 
-func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) {
-	if signalIndexCache.Count() == 0 {
-		if ds.lastMissingCacheWarning+missingCacheWarningInterval < ticks.UtcNow() {
-			// Warning message for missing signal index cache
-			if ds.lastMissingCacheWarning != 0 {
-				ds.dispatchStatusMessage("WARNING: Signal index cache has not arrived. No compact measurements can be parsed.")
-			}
+	return measurements, true
+}
 
-			ds.lastMissingCacheWarning = ticks.UtcNow()
+func (ds *DataSubscriber) warnMissingSignalIndexCache(format string) {
+	if ds.lastMissingCacheWarning+missingCacheWarningInterval < ticks.UtcNow() {
+		// Warning message for missing signal index cache
+		if ds.lastMissingCacheWarning != 0 {
+			ds.dispatchStatusMessage("WARNING: Signal index cache has not arrived. No " + format + " measurements can be parsed.")
 		}
 
-		return
+		ds.lastMissingCacheWarning = ticks.UtcNow()
+	}
+}
+
+// parseCompactMeasurements fills the provided slice with parsed measurements. Returned flag
+// determines if packet was successfully decoded.
+func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndexCache, data []byte, measurements []Measurement) bool {
+	if signalIndexCache.Count() == 0 {
+		ds.warnMissingSignalIndexCache("compact")
+		return false
 	}
 
 	useMillisecondResolution := ds.subscription.UseMillisecondResolution
@@ -1385,12 +1420,14 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 		if err != nil {
 			ds.dispatchErrorMessage("Failed to parse compact measurements - disconnecting: " + err.Error())
 			ds.dispatchConnectionTerminated()
-			return
+			return false
 		}
 
 		index += bytesDecoded
 		measurements[i] = compactMeasurement.Measurement
 	}
+
+	return true
 }
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
-- 
2.43.0


From c794951ced1f5b73bdef7ba2b5ce2f0efa8450e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:40 +0000
Subject: [PATCH 14/65] fix: validate size of received responses before parsing

Truncated or corrupt responses from a publisher could panic with slice
bounds, integer range or cipher errors, and a packet size was allocated
in full before any of its data arrived.
---
 sttp/transport/Common.go             |  10 ++
 sttp/transport/CompactMeasurement.go |  14 +++
 sttp/transport/DataSubscriber.go     | 137 +++++++++++++++++++--------
 sttp/transport/SignalIndexCache.go   |  14 +++
 sttp/transport/tssc/Decoder.go       |  10 +-
 5 files changed, 145 insertions(+), 40 deletions(-)

diff --git a/sttp/transport/Common.go b/sttp/transport/Common.go
index b4e5e41..5763b9e 100644
--- a/sttp/transport/Common.go
+++ b/sttp/transport/Common.go
@@ -28,8 +28,10 @@ import (
 	"compress/gzip"
 	"crypto/aes"
 	"crypto/cipher"
+	"errors"
 	"io"
 	"net"
+	"strconv"
 	"strings"
 )
 
@@ -41,6 +43,14 @@ func decipherAES(key, iv, data []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(iv) != block.BlockSize() {
+		return nil, errors.New("invalid initialization vector size: " + strconv.Itoa(len(iv)))
+	}
+
+	if len(data)%block.BlockSize() != 0 {
+		return nil, errors.New("invalid encrypted data size: " + strconv.Itoa(len(data)))
+	}
+
 	mode := cipher.NewCBCDecrypter(block, iv)
 	out := make([]byte, len(data))
 	mode.CryptBlocks(out, data)
diff --git a/sttp/transport/CompactMeasurement.go b/sttp/transport/CompactMeasurement.go
index ab48e2a..db60e31 100644
--- a/sttp/transport/CompactMeasurement.go
+++ b/sttp/transport/CompactMeasurement.go
@@ -275,6 +275,20 @@ func (cm *CompactMeasurement) Decode(buffer []byte) (int, error) {
 		return index, nil
 	}
 
+	timeLength := 8
+
+	if cm.usingBaseTimeOffset {
+		if cm.useMillisecondResolution {
+			timeLength = 2
+		} else {
+			timeLength = 4
+		}
+	}
+
+	if len(buffer) < index+timeLength {
+		return 0, errors.New("not enough buffer available to deserialize compact measurement timestamp")
+	}
+
 	if cm.usingBaseTimeOffset {
 		baseTimeOffset := cm.baseTimeOffsets[cm.timeIndex]
 
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 80b1e1e..658d8ac 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -848,14 +848,35 @@ func (ds *DataSubscriber) readPayloadHeader(bytesTransferred int, err error) {
 		}
 	}
 
-	if int(packetSize) > cap(ds.readBuffer) {
-		ds.readBuffer = make([]byte, packetSize)
-	}
-
 	// Read packet (payload body)
 	// This read method is guaranteed not to return until the
 	// requested size has been read or an error has occurred.
-	ds.readPacket(io.ReadFull(ds.reader, ds.readBuffer[:packetSize]))
+	ds.readPacket(ds.readFull(int(packetSize)))
+}
+
+// readFull reads the specified number of bytes into the read buffer. Read buffer only grows as
+// data arrives so that memory is not allocated for a received size that has no matching data.
+func (ds *DataSubscriber) readFull(size int) (int, error) {
+	bytesRead := 0
+
+	for {
+		target := size
+
+		if target > len(ds.readBuffer) {
+			target = len(ds.readBuffer)
+		}
+
+		count, err := io.ReadFull(ds.reader, ds.readBuffer[bytesRead:target])
+		bytesRead += count
+
+		if err != nil || bytesRead == size {
+			return bytesRead, err
+		}
+
+		readBuffer := make([]byte, 2*len(ds.readBuffer))
+		copy(readBuffer, ds.readBuffer)
+		ds.readBuffer = readBuffer
+	}
 }
 
 func (ds *DataSubscriber) readPacket(bytesTransferred int, err error) {
@@ -899,6 +920,16 @@ func (ds *DataSubscriber) runDataChannelResponseThread() {
 }
 
 func (ds *DataSubscriber) processServerResponse(buffer []byte) {
+	if len(buffer) < responseHeaderSize {
+		ds.dispatchErrorMessage("Received response from \"" + ds.connectionID + "\" is too small: " + strconv.Itoa(len(buffer)) + " bytes")
+
+		// Undersized initial response is not from an STTP client
+		if ds.validated.IsNotSet() {
+			ds.dispatchConnectionTerminated()
+		}
+
+		return
+	}
 	// Note: internal payload size at buffer[2:6] ignored - future versions of STTP will likely exclude this
 	data := buffer[responseHeaderSize:]
 	responseCode := ServerResponseEnum(buffer[0])
@@ -1033,7 +1064,20 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 	}
 }
 
+// validateSize reports an error message when the received data is smaller than the specified size.
+func (ds *DataSubscriber) validateSize(data []byte, size int, responseCode ServerResponseEnum) bool {
+	if len(data) >= size {
+		return true
+	}
+
+	ds.dispatchErrorMessage("Received " + responseCode.String() + " response from \"" + ds.connectionID + "\" is too small: " + strconv.Itoa(len(data)) + " bytes")
+	return false
+}
+
 func (ds *DataSubscriber) handleDataStartTime(data []byte) {
+	if !ds.validateSize(data, 8, ServerResponse.DataStartTime) {
+		return
+	}
 	ds.BeginCallbackSync()
 
 	if ds.DataStartTimeCallback != nil {
@@ -1065,6 +1109,9 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 
 	// Get active cache index
 	if version > 1 {
+		if !ds.validateSize(data, 1, ServerResponse.UpdateSignalIndexCache) {
+			return
+		}
 		if data[0] > 0 {
 			cacheIndex = 1
 		}
@@ -1108,7 +1155,7 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 }
 
 func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
-	if data == nil {
+	if !ds.validateSize(data, 20, ServerResponse.UpdateBaseTimes) {
 		return
 	}
 
@@ -1137,44 +1184,34 @@ func (ds *DataSubscriber) handleUpdateCipherKeys(data []byte) {
 	keyIVs[evenKey] = make([][]byte, 2)
 	keyIVs[oddKey] = make([][]byte, 2)
 
-	// Move past active cipher index (not currently used anywhere else)
-	var index uint32 = 1
-
-	// Read even key size
-	bufferLen := binary.BigEndian.Uint32(data[index:])
-	index += 4
-
-	// Read even key
-	keyIVs[evenKey][keyIndex] = make([]byte, bufferLen)
-	copy(keyIVs[evenKey][keyIndex], data[index:])
-	index += bufferLen
-
-	// Read even initialization vector size
-	bufferLen = binary.BigEndian.Uint32(data[index:])
-	index += 4
+	if !ds.validateSize(data, 1, ServerResponse.UpdateCipherKeys) {
+		return
+	}
 
-	// Read even initialization vector
-	keyIVs[evenKey][ivIndex] = make([]byte, bufferLen)
-	copy(keyIVs[evenKey][ivIndex], data[index:])
-	index += bufferLen
+	// Move past active cipher index (not currently used anywhere else)
+	data = data[1:]
 
-	// Read odd key size
-	bufferLen = binary.BigEndian.Uint32(data[index:])
-	index += 4
+	// Read even key and initialization vector followed by odd key and initialization vector
+	for _, key := range []int{evenKey, oddKey} {
+		for _, field := range []int{keyIndex, ivIndex} {
+			if !ds.validateSize(data, 4, ServerResponse.UpdateCipherKeys) {
+				return
+			}
 
-	// Read odd key
-	keyIVs[oddKey][keyIndex] = make([]byte, bufferLen)
-	copy(keyIVs[oddKey][keyIndex], data[index:])
-	index += bufferLen
+			// Read buffer size
+			bufferLen := binary.BigEndian.Uint32(data)
+			data = data[4:]
 
-	// Read odd initialization vector size
-	bufferLen = binary.BigEndian.Uint32(data[index:])
-	index += 4
+			if uint64(bufferLen) > uint64(len(data)) {
+				ds.dispatchErrorMessage("Received cipher keys from \"" + ds.connectionID + "\" are truncated, keys were not updated")
+				return
+			}
 
-	// Read odd initialization vector
-	keyIVs[oddKey][ivIndex] = make([]byte, bufferLen)
-	copy(keyIVs[oddKey][ivIndex], data[index:])
-	//index += bufferLen
+			// Read buffer
+			keyIVs[key][field] = append([]byte(nil), data[:bufferLen]...)
+			data = data[bufferLen:]
+		}
+	}
 
 	// Exchange keys
 	ds.keyIVs = keyIVs
@@ -1195,6 +1232,10 @@ func (ds *DataSubscriber) handleConfigurationChanged() {
 }
 
 func (ds *DataSubscriber) handleDataPacket(data []byte) {
+	if !ds.validateSize(data, 5, ServerResponse.DataPacket) {
+		return
+	}
+
 	dataPacketFlags := DataPacketFlagsEnum(data[0])
 	compressed := dataPacketFlags&DataPacketFlags.Compressed > 0
 	compact := dataPacketFlags&DataPacketFlags.Compact > 0
@@ -1304,6 +1345,10 @@ func (ds *DataSubscriber) parseTSSCMeasurements(signalIndexCache *SignalIndexCac
 	var newDecoder bool
 
 	// Use TSSC to decompress measurements
+	if !ds.validateSize(data, 3, ServerResponse.DataPacket) {
+		return measurements, false
+	}
+
 	if decoder == nil {
 		signalIndexCache.tsscDecoder = tssc.NewDecoder()
 		decoder = signalIndexCache.tsscDecoder
@@ -1431,6 +1476,16 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 }
 
 func (ds *DataSubscriber) handleBufferBlock(data []byte) {
+	minimumSize := 8
+
+	if ds.Version > 1 {
+		minimumSize = 9
+	}
+
+	if !ds.validateSize(data, minimumSize, ServerResponse.BufferBlock) {
+		return
+	}
+
 	// Buffer block received - wrap as a BufferBlockMeasurement and expose back to consumer
 	sequenceNumber := binary.BigEndian.Uint32(data)
 	_, cached := ds.bufferBlockCache[sequenceNumber]
@@ -1502,6 +1557,10 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 }
 
 func (ds *DataSubscriber) handleNotification(data []byte) {
+	if !ds.validateSize(data, 4, ServerResponse.Notify) {
+		return
+	}
+
 	// Skip the 4-byte hash and decode notification message
 	message := ds.DecodeString(data[4:])
 
diff --git a/sttp/transport/SignalIndexCache.go b/sttp/transport/SignalIndexCache.go
index 305d584..9f7bbd5 100644
--- a/sttp/transport/SignalIndexCache.go
+++ b/sttp/transport/SignalIndexCache.go
@@ -193,6 +193,10 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 
 	offset += 16
 
+	if length < offset+4 {
+		return errors.New("not enough buffer provided to parse")
+	}
+
 	// Number of references
 	referenceCount := binary.BigEndian.Uint32(buffer[offset:])
 	offset += 4
@@ -200,6 +204,11 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 	var i uint32
 
 	for i = 0; i < referenceCount; i++ {
+		// Verify buffer contains signal index, signal ID and source size
+		if length-offset < 24 {
+			return errors.New("not enough buffer provided to parse")
+		}
+
 		// Signal index
 		signalIndex := int32(binary.BigEndian.Uint32(buffer[offset:]))
 		offset += 4
@@ -217,6 +226,11 @@ func (sic *SignalIndexCache) decode(ds *DataSubscriber, buffer []byte, subscribe
 		sourceSize := binary.BigEndian.Uint32(buffer[offset:])
 		offset += 4
 
+		// Verify buffer contains source and ID
+		if uint64(length-offset) < uint64(sourceSize)+8 {
+			return errors.New("not enough buffer provided to parse")
+		}
+
 		source := ds.DecodeString(buffer[offset : offset+sourceSize])
 		offset += sourceSize
 
diff --git a/sttp/transport/tssc/Decoder.go b/sttp/transport/tssc/Decoder.go
index 128921e..faf8358 100644
--- a/sttp/transport/tssc/Decoder.go
+++ b/sttp/transport/tssc/Decoder.go
@@ -95,7 +95,15 @@ func (td *Decoder) SetBuffer(data []byte) {
 
 // TryGetMeasurement attempts to get the next decoded measurement from the working buffer.
 //gocyclo:ignore
-func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *uint32, value *float32) (bool, error) {
+func (td *Decoder) TryGetMeasurement(id *int32, timestamp *int64, stateFlags *uint32, value *float32) (success bool, err error) {
+	// Reading beyond end of the buffer, i.e., truncated or corrupted data, is a decoding error
+	defer func() {
+		if recovered := recover(); recovered != nil {
+			success = false
+			err = fmt.Errorf("failed to decode measurement at position %d with last position %d: %v", td.position, td.lastPosition, recovered)
+		}
+	}()
+
 	if td.position == td.lastPosition && td.bitStreamIsEmpty() {
 		td.clearBitStream()
 		*id = 0
-- 
2.43.0


From af66d600d0ed679ecb8ba04dbb070eeb52ff061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:43 +0000
Subject: [PATCH 15/65] fix: reset signal index caches and base times for new
 connections

Data received on a new connection before its signal index cache arrived
was mapped with the cache of the prior connection.
---
 sttp/transport/DataSubscriber.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 658d8ac..7e3e140 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -376,6 +376,14 @@ func (ds *DataSubscriber) setupConnection() {
 	atomic.StoreUint64(&ds.totalDataChannelBytesReceived, 0)
 	atomic.StoreUint64(&ds.totalMeasurementsReceived, 0)
 
+	// Signal index caches and base times from a prior connection do not apply to a new one
+	ds.signalIndexCacheMutex.Lock()
+	ds.signalIndexCache = [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()}
+	ds.cacheIndex = 0
+	ds.signalIndexCacheMutex.Unlock()
+
+	ds.timeIndex = 0
+	ds.baseTimeOffsets = [2]int64{}
 	ds.keyIVs = nil
 	ds.bufferBlockExpectedSequenceNumber = 0
 	ds.bufferBlockCache = make(map[uint32]BufferBlock)
-- 
2.43.0


From 6c5127762e5f4e210d8a30f440a44ada8ef4f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:25 +0000
Subject: [PATCH 16/65] fix: make measurement reader safe to close at any time

Closing a reader made the receive thread panic on its next measurement,
closing twice panicked, and a receive thread waiting for a consumer that
had stopped reading blocked disconnect forever.
---
 sttp/MeasurementReader.go | 51 +++++++++++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/sttp/MeasurementReader.go b/sttp/MeasurementReader.go
index 1804b27..1395069 100644
--- a/sttp/MeasurementReader.go
+++ b/sttp/MeasurementReader.go
@@ -25,32 +25,71 @@ package sttp
 
 import (
 	"context"
+	"sync"
+	"time"
 
 	"github.com/sttp/goapi/sttp/transport"
 )
 
 // MeasurementReader defines an STTP measurement reader.
 type MeasurementReader struct {
-	current chan *transport.Measurement
+	current   chan *transport.Measurement
+	done      chan struct{}
+	closeOnce sync.Once
 }
 
+// Interval over which pending measurement delivery checks if subscriber is still connected.
+const connectionCheckInterval = 100 * time.Millisecond
+
 func newMeasurementReader(parent *Subscriber) *MeasurementReader {
 	reader := &MeasurementReader{
 		current: make(chan *transport.Measurement),
+		done:    make(chan struct{}),
 	}
 
 	parent.SetNewMeasurementsReceiver(func(measurements *[]transport.Measurement) {
 		for _, m := range *measurements {
-			reader.current <- &m
+			if !reader.deliver(parent, &m) {
+				return
+			}
 		}
 	})
 
 	return reader
 }
 
+// deliver waits for a consumer to accept measurement. Returns false when reader was closed
+// or subscriber is no longer connected, i.e., there may be no consumer left to wait for.
+func (mr *MeasurementReader) deliver(parent *Subscriber, measurement *transport.Measurement) bool {
+	select {
+	case <-mr.done:
+		return false
+	case mr.current <- measurement:
+		return true
+	default:
+	}
+
+	ticker := time.NewTicker(connectionCheckInterval)
+	defer ticker.Stop()
+
+	for {
+		select {
+		case <-mr.done:
+			return false
+		case mr.current <- measurement:
+			return true
+		case <-ticker.C:
+			if !parent.IsConnected() {
+				return false
+			}
+		}
+	}
+}
+
 // NextMeasurement blocks current thread until a new measurement arrives or provided context is completed.
 // Returns tuple of measurement and completed state. Completed state flag will be false if a measurement
-// was received; otherwise, state flag will be true along with a nil measurement when context is done.
+// was received; otherwise, state flag will be true along with a nil measurement when context is done
+// or reader is closed.
 func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Measurement, bool) {
 	if ctx == nil {
 		ctx = context.Background()
@@ -59,12 +98,14 @@ func (mr *MeasurementReader) NextMeasurement(ctx context.Context) (*transport.Me
 	select {
 	case <-ctx.Done():
 		return nil, true
+	case <-mr.done:
+		return nil, true
 	case measurement := <-mr.current:
 		return measurement, false
 	}
 }
 
-// Close closes the measurement reader channel.
+// Close closes the measurement reader. Any waiting consumers are released.
 func (mr *MeasurementReader) Close() {
-	close(mr.current)
+	mr.closeOnce.Do(func() { close(mr.done) })
 }
-- 
2.43.0


From 8b017a3964e8618ea92e749aa04d6fd3a5263972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:36 +0000
Subject: [PATCH 17/65] fix: execute callbacks without holding the callback
 assignment lock

A callback that assigned a receiver, or any assignment made while a
callback was blocked, caused a deadlock. Message loggers were captured
when connecting, so later assignment had no effect until next connect,
and the subscription updated receiver was assigned under the wrong lock.
---
 sttp/Subscriber.go                    | 77 +++++++++++++--------------
 sttp/transport/DataSubscriber.go      | 49 +++++++++--------
 sttp/transport/SubscriberConnector.go |  8 +--
 3 files changed, 65 insertions(+), 69 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 91c01b1..e83dfa2 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -241,12 +241,11 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 
 	con.BeginCallbackAssignment()
 	ds.BeginCallbackAssignment()
-	sb.beginCallbackSync()
 
 	// Register direct Subscriber callbacks
-	con.ErrorMessageCallback = sb.errorMessageLogger
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	con.ErrorMessageCallback = sb.ErrorMessage
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	con.ReconnectCallback = sb.handleReconnect
@@ -255,7 +254,6 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	ds.ConfigurationChangedCallback = sb.handleConfigurationChanged
 	ds.ProcessingCompleteCallback = sb.handleProcessingComplete
 
-	sb.endCallbackSync()
 	con.EndCallbackAssignment()
 	ds.EndCallbackAssignment()
 
@@ -327,11 +325,10 @@ func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 	ds.SwapGuidEndianness = !sb.config.RfcGuidEncoding
 
 	ds.BeginCallbackAssignment()
-	sb.beginCallbackSync()
 
 	// Register direct Subscriber callbacks
-	ds.StatusMessageCallback = sb.statusMessageLogger
-	ds.ErrorMessageCallback = sb.errorMessageLogger
+	ds.StatusMessageCallback = sb.StatusMessage
+	ds.ErrorMessageCallback = sb.ErrorMessage
 
 	// Register callbacks with intermediate handlers
 	ds.ConnectionEstablishedCallback = sb.handleConnect
@@ -340,7 +337,6 @@ func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 	ds.ConfigurationChangedCallback = sb.handleConfigurationChanged
 	ds.ProcessingCompleteCallback = sb.handleProcessingComplete
 
-	sb.endCallbackSync()
 	ds.EndCallbackAssignment()
 
 	// Listen for publisher connection
@@ -465,36 +461,36 @@ func (sb *Subscriber) endCallbackAssignment() {
 // StatusMessage executes the defined status message logger callback.
 func (sb *Subscriber) StatusMessage(message string) {
 	sb.beginCallbackSync()
+	statusMessageLogger := sb.statusMessageLogger
+	sb.endCallbackSync()
 
-	if sb.statusMessageLogger != nil {
-		sb.statusMessageLogger(message)
+	if statusMessageLogger != nil {
+		statusMessageLogger(message)
 	}
-
-	sb.endCallbackSync()
 }
 
 // ErrorMessage executes the defined error message logger callback.
 func (sb *Subscriber) ErrorMessage(message string) {
 	sb.beginCallbackSync()
+	errorMessageLogger := sb.errorMessageLogger
+	sb.endCallbackSync()
 
-	if sb.errorMessageLogger != nil {
-		sb.errorMessageLogger(message)
+	if errorMessageLogger != nil {
+		errorMessageLogger(message)
 	}
-
-	sb.endCallbackSync()
 }
 
 // Intermediate callback handlers:
 
 func (sb *Subscriber) handleConnect() {
 	sb.beginCallbackSync()
+	connectionEstablishedReceiver := sb.connectionEstablishedReceiver
+	sb.endCallbackSync()
 
-	if sb.connectionEstablishedReceiver != nil {
-		sb.connectionEstablishedReceiver()
+	if connectionEstablishedReceiver != nil {
+		connectionEstablishedReceiver()
 	}
 
-	sb.endCallbackSync()
-
 	// If automatically parsing metadata, request metadata upon successful connection,
 	// after metadata is received the SubscriberInstance will then initiate subscribe;
 	// otherwise, subscribe is initiated immediately (when auto subscribe requested)
@@ -528,13 +524,13 @@ func (sb *Subscriber) handleMetadataReceived(metadata []byte) {
 	sb.showMetadataSummary(dataSet, parseStarted)
 
 	sb.beginCallbackSync()
+	metadataReceiver := sb.metadataReceiver
+	sb.endCallbackSync()
 
-	if sb.metadataReceiver != nil {
-		sb.metadataReceiver(dataSet)
+	if metadataReceiver != nil {
+		metadataReceiver(dataSet)
 	}
 
-	sb.endCallbackSync()
-
 	if sb.config.AutoRequestMetadata && sb.config.AutoSubscribe {
 		sb.dataSubscriber().Subscribe()
 	}
@@ -653,23 +649,23 @@ func (sb *Subscriber) showMetadataSummary(dataSet *data.DataSet, parseStarted ti
 
 func (sb *Subscriber) handleDataStartTime(startTime ticks.Ticks) {
 	sb.beginCallbackSync()
+	dataStartTimeReceiver := sb.dataStartTimeReceiver
+	sb.endCallbackSync()
 
-	if sb.dataStartTimeReceiver != nil {
-		sb.dataStartTimeReceiver(startTime.ToTime())
+	if dataStartTimeReceiver != nil {
+		dataStartTimeReceiver(startTime.ToTime())
 	}
-
-	sb.endCallbackSync()
 }
 
 func (sb *Subscriber) handleConfigurationChanged() {
 	sb.beginCallbackSync()
+	configurationChangedReceiver := sb.configurationChangedReceiver
+	sb.endCallbackSync()
 
-	if sb.configurationChangedReceiver != nil {
-		sb.configurationChangedReceiver()
+	if configurationChangedReceiver != nil {
+		configurationChangedReceiver()
 	}
 
-	sb.endCallbackSync()
-
 	if sb.config.AutoRequestMetadata {
 		sb.RequestMetadata()
 	}
@@ -679,12 +675,12 @@ func (sb *Subscriber) handleProcessingComplete(message string) {
 	sb.StatusMessage(message)
 
 	sb.beginCallbackSync()
+	historicalReadCompleteReceiver := sb.historicalReadCompleteReceiver
+	sb.endCallbackSync()
 
-	if sb.historicalReadCompleteReceiver != nil {
-		sb.historicalReadCompleteReceiver()
+	if historicalReadCompleteReceiver != nil {
+		historicalReadCompleteReceiver()
 	}
-
-	sb.endCallbackSync()
 }
 
 // DefaultStatusMessageLogger implements the default handler for the statusMessage callback.
@@ -754,10 +750,11 @@ func (sb *Subscriber) SetMetadataReceiver(callback func(dataSet *data.DataSet))
 // SignalIndexCache has been received.
 // Assignment will take effect immediately, even while subscription is active.
 func (sb *Subscriber) SetSubscriptionUpdatedReceiver(callback func(signalIndexCache *transport.SignalIndexCache)) {
-	sb.beginCallbackAssignment()
-	defer sb.endCallbackAssignment()
+	ds := sb.dataSubscriber()
+	ds.BeginCallbackAssignment()
+	defer ds.EndCallbackAssignment()
 
-	sb.dataSubscriber().SubscriptionUpdatedCallback = callback
+	ds.SubscriptionUpdatedCallback = callback
 }
 
 // SetDataStartTimeReceiver defines the callback that handles notification of first received measurement.
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 7e3e140..5b73f4f 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -421,12 +421,12 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, listening boo
 
 	// Notify consumers of connect
 	ds.BeginCallbackSync()
+	connectionEstablishedCallback := ds.ConnectionEstablishedCallback
+	ds.EndCallbackSync()
 
-	if ds.ConnectionEstablishedCallback != nil {
-		ds.ConnectionEstablishedCallback()
+	if connectionEstablishedCallback != nil {
+		connectionEstablishedCallback()
 	}
-
-	ds.EndCallbackSync()
 }
 
 // Listen requests that the DataSubscriber establish a listening connection for a DataPublisher.
@@ -703,13 +703,13 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 
 	// Notify consumers of disconnect
 	ds.BeginCallbackSync()
+	connectionTerminatedCallback := ds.ConnectionTerminatedCallback
+	ds.EndCallbackSync()
 
-	if ds.ConnectionTerminatedCallback != nil {
-		ds.ConnectionTerminatedCallback()
+	if connectionTerminatedCallback != nil {
+		connectionTerminatedCallback()
 	}
 
-	ds.EndCallbackSync()
-
 	// Disconnect complete
 	ds.disconnected.Set()
 	ds.disconnecting.UnSet()
@@ -719,13 +719,12 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 		// since they serve two different use cases and current implementation does not
 		// support multiple callback registrations
 		ds.BeginCallbackSync()
-
-		if ds.AutoReconnectCallback != nil && ds.disposing.IsNotSet() {
-			ds.AutoReconnectCallback()
-		}
-
+		autoReconnectCallback := ds.AutoReconnectCallback
 		ds.EndCallbackSync()
 
+		if autoReconnectCallback != nil && ds.disposing.IsNotSet() {
+			autoReconnectCallback()
+		}
 	} else {
 		ds.connectActionMutex.Unlock()
 	}
@@ -1087,14 +1086,14 @@ func (ds *DataSubscriber) handleDataStartTime(data []byte) {
 		return
 	}
 	ds.BeginCallbackSync()
+	dataStartTimeCallback := ds.DataStartTimeCallback
+	ds.EndCallbackSync()
 
-	if ds.DataStartTimeCallback != nil {
+	if dataStartTimeCallback != nil {
 		// Do not use Go routine here, processing sequence may be important.
 		// Execute callback directly from socket processing thread:
-		ds.DataStartTimeCallback(ticks.Ticks(binary.BigEndian.Uint64(data)))
+		dataStartTimeCallback(ticks.Ticks(binary.BigEndian.Uint64(data)))
 	}
-
-	ds.EndCallbackSync()
 }
 
 func (ds *DataSubscriber) handleProcessingComplete(data []byte) {
@@ -1330,15 +1329,15 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 	count = uint32(len(*measurements))
 
 	ds.BeginCallbackSync()
+	newMeasurementsCallback := ds.NewMeasurementsCallback
+	ds.EndCallbackSync()
 
-	if ds.NewMeasurementsCallback != nil {
+	if newMeasurementsCallback != nil {
 		// Do not use Go routine here, processing sequence may be important.
 		// Execute callback directly from socket processing thread:
-		ds.NewMeasurementsCallback(measurements)
+		newMeasurementsCallback(measurements)
 	}
 
-	ds.EndCallbackSync()
-
 	atomic.AddUint64(&ds.totalMeasurementsReceived, uint64(count))
 }
 
@@ -1547,14 +1546,14 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 
 			// Publish buffer block measurements
 			ds.BeginCallbackSync()
+			newBufferBlocksCallback := ds.NewBufferBlocksCallback
+			ds.EndCallbackSync()
 
-			if ds.NewBufferBlocksCallback != nil {
+			if newBufferBlocksCallback != nil {
 				// Do not use Go routine here, processing sequence may be important.
 				// Execute callback directly from socket processing thread:
-				ds.NewBufferBlocksCallback(bufferBlockMeasurements)
+				newBufferBlocksCallback(bufferBlockMeasurements)
 			}
-
-			ds.EndCallbackSync()
 		} else {
 			// Cache this measurement until all prior buffer blocks have been received.
 			// This edge case handles possible dropouts and/or out of order packet deliver when data
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index a4b2177..bfaf175 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -115,12 +115,12 @@ func (ds *DataSubscriber) autoReconnect() {
 
 		// Notify the user that reconnect attempt was completed.
 		sc.BeginCallbackSync()
+		reconnectCallback := sc.ReconnectCallback
+		sc.EndCallbackSync()
 
-		if sc.cancel.IsNotSet() && sc.ReconnectCallback != nil {
-			sc.ReconnectCallback(ds)
+		if sc.cancel.IsNotSet() && reconnectCallback != nil {
+			reconnectCallback(ds)
 		}
-
-		sc.EndCallbackSync()
 	})
 
 	sc.reconnectThreadMutex.Lock()
-- 
2.43.0


From 94aab245aeec391a80421065301ca22c8b20ea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:15 +0000
Subject: [PATCH 18/65] fix: stop retrying promptly on cancel and respect
 maximum retry settings

Canceling stopped the retry timer, which left the waiting thread blocked
forever, and a reconnect sequence cleared a cancel requested by the user.
The retry interval overflowed for large values, the first wait ignored
the maximum interval, and a zero interval ignored the maximum retries.
---
 sttp/transport/DataSubscriber.go      |  4 +-
 sttp/transport/SubscriberConnector.go | 95 +++++++++++++++------------
 2 files changed, 55 insertions(+), 44 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 5b73f4f..2043880 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -320,6 +320,8 @@ func (ds *DataSubscriber) AdjustedValue(measurement *Measurement) float64 {
 
 // Connect requests the the DataSubscriber initiate a connection to the DataPublisher.
 func (ds *DataSubscriber) Connect(hostName string, port uint16) error {
+	ds.connector.ResetConnection()
+
 	// User requests to connection are not an auto-reconnect attempt
 	return ds.connect(hostName, port, false)
 }
@@ -353,7 +355,7 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 	ds.setupConnection()
 
 	if !autoReconnecting {
-		ds.connector.ResetConnection()
+		ds.connector.connectAttempt = 0
 	}
 
 	ds.connector.connectionRefused.UnSet()
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index bfaf175..f2eec47 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -70,8 +70,8 @@ type SubscriberConnector struct {
 	cancel               abool.AtomicBool
 	reconnectThread      *thread.Thread
 	reconnectThreadMutex sync.Mutex
-	waitTimer            *time.Timer
-	waitTimerMutex       sync.Mutex
+	waitCanceled         chan struct{}
+	waitMutex            sync.Mutex
 
 	assigningHandlerMutex sync.RWMutex
 }
@@ -95,7 +95,7 @@ func (ds *DataSubscriber) autoReconnect() {
 	reconnectThread = thread.NewThread(func() {
 		// Reset connection attempt counter if last attempt was not refused
 		if sc.connectionRefused.IsNotSet() {
-			sc.ResetConnection()
+			sc.connectAttempt = 0
 		}
 
 		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
@@ -124,9 +124,14 @@ func (ds *DataSubscriber) autoReconnect() {
 	})
 
 	sc.reconnectThreadMutex.Lock()
-	sc.reconnectThread = reconnectThread
-	sc.reconnectThreadMutex.Unlock()
+	defer sc.reconnectThreadMutex.Unlock()
 
+	// Make sure cancel operation that did not see new reconnect thread is not missed
+	if sc.cancel.IsSet() {
+		return
+	}
+
+	sc.reconnectThread = reconnectThread
 	reconnectThread.Start()
 }
 
@@ -140,15 +145,13 @@ func (sc *SubscriberConnector) waitForRetry() {
 		exponent = float64(sc.connectAttempt)
 	}
 
-	var retryInterval int32
+	var retryInterval float64
 
 	if sc.connectAttempt > 0 {
-		retryInterval = sc.RetryInterval * int32(math.Pow(2, exponent))
+		retryInterval = float64(sc.RetryInterval) * math.Pow(2, exponent)
 	}
 
-	if retryInterval > sc.MaxRetryInterval {
-		retryInterval = sc.MaxRetryInterval
-	}
+	retryInterval = math.Min(retryInterval, float64(sc.MaxRetryInterval))
 
 	// Notify the user that we are attempting to reconnect.
 	var message strings.Builder
@@ -168,22 +171,36 @@ func (sc *SubscriberConnector) waitForRetry() {
 
 	if retryInterval > 0 {
 		message.WriteString("Attempting to reconnect in ")
-		message.WriteString(fmt.Sprintf("%.2f", float64(retryInterval)/1000.0))
+		message.WriteString(fmt.Sprintf("%.2f", retryInterval/1000.0))
 		message.WriteString(" seconds...")
 	} else {
-		retryInterval = sc.RetryInterval
+		retryInterval = math.Min(float64(sc.RetryInterval), float64(sc.MaxRetryInterval))
 		message.WriteString("Attempting to reconnect...")
 	}
 
 	sc.dispatchErrorMessage(message.String())
 
-	waitTimer := time.NewTimer(time.Duration(retryInterval) * time.Millisecond)
+	sc.waitMutex.Lock()
 
-	sc.waitTimerMutex.Lock()
-	sc.waitTimer = waitTimer
-	sc.waitTimerMutex.Unlock()
+	if sc.cancel.IsSet() {
+		sc.waitMutex.Unlock()
+		return
+	}
+
+	if sc.waitCanceled == nil {
+		sc.waitCanceled = make(chan struct{})
+	}
 
-	<-waitTimer.C
+	waitCanceled := sc.waitCanceled
+	sc.waitMutex.Unlock()
+
+	waitTimer := time.NewTimer(time.Duration(retryInterval) * time.Millisecond)
+	defer waitTimer.Stop()
+
+	select {
+	case <-waitTimer.C:
+	case <-waitCanceled:
+	}
 }
 
 // Connect initiates a connection sequence for a DataSubscriber
@@ -202,9 +219,7 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 		ds.EndCallbackAssignment()
 	}
 
-	sc.cancel.UnSet()
-
-	for ds.disposing.IsNotSet() {
+	for ds.disposing.IsNotSet() && sc.cancel.IsNotSet() {
 		if sc.MaxRetries != -1 && sc.connectAttempt >= sc.MaxRetries {
 			sc.dispatchErrorMessage("Maximum connection retries attempted. Auto-reconnect canceled.")
 			break
@@ -212,46 +227,40 @@ func (sc *SubscriberConnector) connect(ds *DataSubscriber, autoReconnecting bool
 
 		sc.connectAttempt++
 
-		if ds.disposing.IsSet() {
-			return ConnectStatus.Canceled
-		}
-
 		if ds.connect(sc.Hostname, sc.Port, autoReconnecting) == nil {
-			break
+			return ConnectStatus.Success
 		}
 
+		autoReconnecting = true
+
 		if ds.disposing.IsNotSet() && sc.RetryInterval > 0 {
-			autoReconnecting = true
 			sc.waitForRetry()
-
-			if sc.cancel.IsSet() {
-				return ConnectStatus.Canceled
-			}
 		}
 	}
 
-	if ds.disposing.IsSet() {
+	if ds.disposing.IsSet() || sc.cancel.IsSet() {
 		return ConnectStatus.Canceled
 	}
 
-	if ds.IsConnected() {
-		return ConnectStatus.Success
-	}
-
 	return ConnectStatus.Failed
 }
 
-// Cancel stops all current and future connection sequences.
-func (sc *SubscriberConnector) Cancel() {
-	sc.cancel.Set()
+// requestCancel signals current connection sequence to stop without waiting for it to complete.
+func (sc *SubscriberConnector) requestCancel() {
+	sc.waitMutex.Lock()
+	defer sc.waitMutex.Unlock()
 
-	sc.waitTimerMutex.Lock()
-	waitTimer := sc.waitTimer
-	sc.waitTimerMutex.Unlock()
+	sc.cancel.Set()
 
-	if waitTimer != nil {
-		waitTimer.Stop()
+	if sc.waitCanceled != nil {
+		close(sc.waitCanceled)
+		sc.waitCanceled = nil
 	}
+}
+
+// Cancel stops all current and future connection sequences.
+func (sc *SubscriberConnector) Cancel() {
+	sc.requestCancel()
 
 	sc.reconnectThreadMutex.Lock()
 	reconnectThread := sc.reconnectThread
-- 
2.43.0


From d4bd3008e70b72fb7f05abbc7fe03f1e06946696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:49 +0000
Subject: [PATCH 19/65] fix: report each lost connection once and allow dialing
 after disconnect

Connection termination ran on a thread that could only be started once,
so only the first lost connection was reported and reconnected. After a
disconnect, dialing again always failed as canceled. Sockets and threads
were replaced while still in use by an active disconnect, which could
hang the shutdown, close the wrong connection or crash a sender.

Connection state is now changed under one lock and disconnects are
processed one after another.
---
 sttp/Subscriber.go                    |  29 +-
 sttp/transport/DataSubscriber.go      | 427 +++++++++++++++++---------
 sttp/transport/SubscriberConnector.go |   5 +-
 3 files changed, 313 insertions(+), 148 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index e83dfa2..decd63a 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -209,6 +209,8 @@ func (sb *Subscriber) Dial(address string, config *Config) error {
 		return fmt.Errorf("port number \"%s\" is out of range: must be 1 to %d", portname, math.MaxUint16)
 	}
 
+	sb.stopConnection()
+
 	if config != nil {
 		sb.config = config
 	}
@@ -216,6 +218,20 @@ func (sb *Subscriber) Dial(address string, config *Config) error {
 	return sb.connect(hostname, uint16(port))
 }
 
+// stopConnection makes sure any pending disconnect or automatic reconnect has completed.
+func (sb *Subscriber) stopConnection() {
+	ds := sb.dataSubscriber()
+
+	ds.Connector().Cancel()
+	ds.AwaitDisconnect()
+
+	// Automatic reconnect may have succeeded before it was canceled
+	if ds.IsConnected() {
+		ds.Disconnect()
+		ds.AwaitDisconnect()
+	}
+}
+
 func (sb *Subscriber) connect(hostname string, port uint16) error {
 	if sb.config == nil {
 		panic("Internal Config instance has not been initialized. Make sure to use NewSubscriber.")
@@ -242,6 +258,10 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	con.BeginCallbackAssignment()
 	ds.BeginCallbackAssignment()
 
+	// Clear callbacks from any prior connection with another mode of operation
+	ds.ConnectionEstablishedCallback = nil
+	ds.AutoReconnectCallback = nil
+
 	// Register direct Subscriber callbacks
 	con.ErrorMessageCallback = sb.ErrorMessage
 	ds.StatusMessageCallback = sb.StatusMessage
@@ -257,6 +277,9 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	con.EndCallbackAssignment()
 	ds.EndCallbackAssignment()
 
+	// Clear cancel request from any prior disconnect
+	con.ResetConnection()
+
 	var err error
 
 	// Connect and subscribe to publisher
@@ -304,6 +327,8 @@ func (sb *Subscriber) Listen(address string, config *Config) error {
 		return fmt.Errorf("port number \"%s\" is out of range: must be 1 to %d", portname, math.MaxUint16)
 	}
 
+	sb.stopConnection()
+
 	if config != nil {
 		sb.config = config
 	}
@@ -326,6 +351,9 @@ func (sb *Subscriber) listen(port uint16, networkInterface string) error {
 
 	ds.BeginCallbackAssignment()
 
+	// Clear callback from any prior connection with another mode of operation
+	ds.AutoReconnectCallback = nil
+
 	// Register direct Subscriber callbacks
 	ds.StatusMessageCallback = sb.StatusMessage
 	ds.ErrorMessageCallback = sb.ErrorMessage
@@ -505,7 +533,6 @@ func (sb *Subscriber) handleReconnect(ds *transport.DataSubscriber) {
 	if ds.IsConnected() {
 		sb.handleConnect()
 	} else {
-		ds.Disconnect()
 		sb.StatusMessage("Connection retry attempts exceeded.")
 	}
 }
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 2043880..9eae393 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -56,6 +56,9 @@ type DataSubscriber struct {
 	listening    abool.AtomicBool
 	subscribed   abool.AtomicBool
 
+	// Guards sockets, threads and disconnect state below
+	connectionStateMutex sync.Mutex
+
 	listeningSocket              net.Listener
 	listeningSocketAcceptThread  *thread.Thread
 	commandChannelSocket         net.Conn
@@ -70,14 +73,12 @@ type DataSubscriber struct {
 
 	assigningHandlerMutex sync.RWMutex
 
-	connectActionMutex          sync.Mutex
-	connectionTerminationThread *thread.Thread
+	connectActionMutex sync.Mutex
 
-	disconnectThread      *thread.Thread
-	disconnectThreadMutex sync.Mutex
-	disconnecting         abool.AtomicBool
-	disconnected          abool.AtomicBool
-	disposing             abool.AtomicBool
+	disconnectThread  *thread.Thread
+	disconnecting     abool.AtomicBool
+	userDisconnecting bool
+	disposing         abool.AtomicBool
 
 	// Statistics counters
 	totalCommandChannelBytesReceived uint64
@@ -195,10 +196,6 @@ func NewDataSubscriber() *DataSubscriber {
 
 	ds.validated.Set()
 
-	ds.connectionTerminationThread = thread.NewThread(func() {
-		ds.disconnect(false, true, false)
-	})
-
 	return ds
 }
 
@@ -207,7 +204,7 @@ func NewDataSubscriber() *DataSubscriber {
 func (ds *DataSubscriber) Dispose() {
 	ds.disposing.Set()
 	ds.connector.Cancel()
-	ds.disconnect(true, false, true)
+	ds.disconnect(true, false, true, nil)
 
 	// Allow a moment for connection terminated event to complete
 	waitTimer := time.NewTimer(time.Duration(10) * time.Millisecond)
@@ -257,6 +254,9 @@ func (ds *DataSubscriber) IsSubscribed() bool {
 
 // ConnectionID returns the IP address and DNS host name, if resolvable, of current STTP connection.
 func (ds *DataSubscriber) ConnectionID() string {
+	ds.connectionStateMutex.Lock()
+	defer ds.connectionStateMutex.Unlock()
+
 	return ds.connectionID
 }
 
@@ -320,12 +320,25 @@ func (ds *DataSubscriber) AdjustedValue(measurement *Measurement) float64 {
 
 // Connect requests the the DataSubscriber initiate a connection to the DataPublisher.
 func (ds *DataSubscriber) Connect(hostName string, port uint16) error {
+	// Make sure any pending disconnect has completed to make sure socket is closed
+	ds.AwaitDisconnect()
 	ds.connector.ResetConnection()
 
 	// User requests to connection are not an auto-reconnect attempt
 	return ds.connect(hostName, port, false)
 }
 
+// AwaitDisconnect waits for any pending disconnect operation to complete.
+func (ds *DataSubscriber) AwaitDisconnect() {
+	ds.connectionStateMutex.Lock()
+	disconnectThread := ds.disconnectThread
+	ds.connectionStateMutex.Unlock()
+
+	if disconnectThread != nil {
+		disconnectThread.Join()
+	}
+}
+
 func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting bool) error {
 	if ds.connected.IsSet() {
 		return errors.New("subscriber is already connected; disconnect first")
@@ -335,13 +348,10 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 		return errors.New("subscriber is listening for connections; direct connections disallowed")
 	}
 
-	// Make sure any pending disconnect has completed to make sure socket is closed
-	ds.disconnectThreadMutex.Lock()
-	disconnectThread := ds.disconnectThread
-	ds.disconnectThreadMutex.Unlock()
-
-	if disconnectThread != nil {
-		disconnectThread.Join()
+	// Make sure any pending disconnect has completed to make sure socket is closed, except for a
+	// reconnect attempt which starts after disconnect and where a user disconnect waits for it
+	if !autoReconnecting {
+		ds.AwaitDisconnect()
 	}
 
 	// Let any pending connect or disconnect operation complete before new connect,
@@ -349,6 +359,15 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 	ds.connectActionMutex.Lock()
 	defer ds.connectActionMutex.Unlock()
 
+	// Check for state changes that occurred while waiting
+	if ds.connected.IsSet() {
+		return errors.New("subscriber is already connected; disconnect first")
+	}
+
+	if ds.connector.cancel.IsSet() {
+		return errors.New("connection canceled")
+	}
+
 	var err error
 
 	// Initialize connection state
@@ -364,14 +383,13 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 	conn, err := net.Dial("tcp", hostName+":"+strconv.Itoa(int(port)))
 
 	if err == nil {
-		ds.establishConnection(conn, false)
+		err = ds.establishConnection(conn, false)
 	}
 
 	return err
 }
 
 func (ds *DataSubscriber) setupConnection() {
-	ds.disconnected.UnSet()
 	ds.subscribed.UnSet()
 
 	atomic.StoreUint64(&ds.totalCommandChannelBytesReceived, 0)
@@ -392,7 +410,7 @@ func (ds *DataSubscriber) setupConnection() {
 	ds.measurementRegistry = sync.Map{}
 }
 
-func (ds *DataSubscriber) establishConnection(connection net.Conn, listening bool) {
+func (ds *DataSubscriber) establishConnection(connection net.Conn, listening bool) error {
 	addrName := "<unknown>"
 
 	if listening {
@@ -406,20 +424,37 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, listening boo
 		addrName = connector.Hostname + ":" + strconv.Itoa(int(connector.Port))
 	}
 
-	ds.connectionID = addrName
-
 	if listening {
-		ds.dispatchStatusMessage("Processing connection attempt from \"" + ds.connectionID + "\" ...")
+		ds.dispatchStatusMessage("Processing connection attempt from \"" + addrName + "\" ...")
+	}
+
+	ds.lastMissingCacheWarning = 0
+
+	// Operational modes must be first command sent for the connection
+	ds.writeMutex.Lock()
+	ds.connectionStateMutex.Lock()
+
+	// Do not establish a connection once user has requested disconnect
+	if ds.disconnecting.IsSet() || ds.disposing.IsSet() {
+		ds.connectionStateMutex.Unlock()
+		ds.writeMutex.Unlock()
+		connection.Close()
+
+		return errors.New("connection canceled")
 	}
 
+	ds.connectionID = addrName
 	ds.commandChannelSocket = connection
-	ds.commandChannelResponseThread = thread.NewThread(ds.runCommandChannelResponseThread)
+	ds.commandChannelResponseThread = thread.NewThread(func() {
+		ds.runCommandChannelResponseThread(connection)
+	})
 
 	ds.connected.Set()
-	ds.lastMissingCacheWarning = 0
-
 	ds.commandChannelResponseThread.Start()
+	ds.connectionStateMutex.Unlock()
+
 	ds.sendOperationalModes()
+	ds.writeMutex.Unlock()
 
 	// Notify consumers of connect
 	ds.BeginCallbackSync()
@@ -429,6 +464,8 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, listening boo
 	if connectionEstablishedCallback != nil {
 		connectionEstablishedCallback()
 	}
+
+	return nil
 }
 
 // Listen requests that the DataSubscriber establish a listening connection for a DataPublisher.
@@ -442,28 +479,27 @@ func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
 	}
 
 	// Make sure any pending disconnect has completed to make sure socket is closed
-	ds.disconnectThreadMutex.Lock()
-	disconnectThread := ds.disconnectThread
-	ds.disconnectThreadMutex.Unlock()
-
-	if disconnectThread != nil {
-		disconnectThread.Join()
-	}
-
-	var err error
+	ds.AwaitDisconnect()
 
 	// TODO: Add TLS implementation options
-	ds.listeningSocket, err = net.Listen("tcp", networkInterface+":"+strconv.Itoa(int(port)))
+	listeningSocket, err := net.Listen("tcp", networkInterface+":"+strconv.Itoa(int(port)))
 
 	if err != nil {
 		return err
 	}
 
-	ds.listeningSocketAcceptThread = thread.NewThread(ds.runListeningSocketAcceptThread)
+	ds.connectionStateMutex.Lock()
+	defer ds.connectionStateMutex.Unlock()
+
+	ds.listeningSocket = listeningSocket
+	ds.listeningSocketAcceptThread = thread.NewThread(func() {
+		ds.runListeningSocketAcceptThread(listeningSocket)
+	})
+
 	ds.listening.Set()
 	ds.listeningSocketAcceptThread.Start()
 
-	return err
+	return nil
 }
 
 // Subscribe notifies the DataPublisher that a DataSubscriber would like to start receiving streaming data.
@@ -522,21 +558,11 @@ func (ds *DataSubscriber) Subscribe() error {
 
 	if ds.subscription.UdpDataChannel {
 		udpPort := strconv.Itoa(int(ds.subscription.DataChannelLocalPort))
-		udpAddr, err := net.ResolveUDPAddr("udp", ":"+udpPort)
-
-		if err != nil {
-			return errors.New("failed to resolve UDP address for port " + udpPort + ": " + err.Error())
-		}
 
-		ds.dataChannelSocket, err = net.ListenUDP("udp", udpAddr)
-
-		if err != nil {
-			return errors.New("failed to open UDP socket for port " + udpPort + ": " + err.Error())
+		if err := ds.openDataChannel(udpPort); err != nil {
+			return err
 		}
 
-		ds.dataChannelResponseThread = thread.NewThread(ds.runDataChannelResponseThread)
-		ds.dataChannelResponseThread.Start()
-
 		parameterBuilder.WriteString(";dataChannel={localport=")
 		parameterBuilder.WriteString(udpPort)
 		parameterBuilder.WriteString("}")
@@ -581,55 +607,98 @@ func (ds *DataSubscriber) Subscribe() error {
 	return nil
 }
 
-// Unsubscribe notifies the DataPublisher that a DataSubscriber would like to stop receiving streaming data.
-func (ds *DataSubscriber) Unsubscribe() {
-	if ds.connected.IsNotSet() || ds.validated.IsNotSet() {
-		return
+func (ds *DataSubscriber) openDataChannel(udpPort string) error {
+	udpAddr, err := net.ResolveUDPAddr("udp", ":"+udpPort)
+
+	if err != nil {
+		return errors.New("failed to resolve UDP address for port " + udpPort + ": " + err.Error())
 	}
 
-	ds.SendServerCommand(ServerCommand.Unsubscribe)
+	// Make sure data channel for any prior subscription request is closed
+	ds.closeDataChannel()
 
-	ds.disconnecting.Set()
+	dataChannelSocket, err := net.ListenUDP("udp", udpAddr)
+
+	if err != nil {
+		return errors.New("failed to open UDP socket for port " + udpPort + ": " + err.Error())
+	}
+
+	ds.connectionStateMutex.Lock()
+	defer ds.connectionStateMutex.Unlock()
 
-	if ds.dataChannelSocket != nil {
-		if err := ds.dataChannelSocket.Close(); err != nil {
+	// Do not leave a data channel open when connection was terminated in the meantime
+	if ds.connected.IsNotSet() || ds.dataChannelSocket != nil {
+		dataChannelSocket.Close()
+		return errors.New("failed to open UDP socket for port " + udpPort + ": subscriber connection or subscription has changed")
+	}
+
+	ds.dataChannelSocket = dataChannelSocket
+	ds.dataChannelResponseThread = thread.NewThread(func() {
+		ds.runDataChannelResponseThread(dataChannelSocket)
+	})
+	ds.dataChannelResponseThread.Start()
+
+	return nil
+}
+
+func (ds *DataSubscriber) closeDataChannel() {
+	ds.connectionStateMutex.Lock()
+	dataChannelSocket := ds.dataChannelSocket
+	dataChannelResponseThread := ds.dataChannelResponseThread
+	ds.dataChannelSocket = nil
+	ds.dataChannelResponseThread = nil
+	ds.connectionStateMutex.Unlock()
+
+	if dataChannelSocket != nil {
+		if err := dataChannelSocket.Close(); err != nil {
 			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
 		}
 	}
 
-	if ds.dataChannelResponseThread != nil {
-		ds.dataChannelResponseThread.Join()
+	if dataChannelResponseThread != nil {
+		dataChannelResponseThread.Join()
 	}
+}
 
-	ds.disconnecting.UnSet()
+// Unsubscribe notifies the DataPublisher that a DataSubscriber would like to stop receiving streaming data.
+func (ds *DataSubscriber) Unsubscribe() {
+	if ds.connected.IsNotSet() || ds.validated.IsNotSet() {
+		return
+	}
+
+	ds.SendServerCommand(ServerCommand.Unsubscribe)
+	ds.closeDataChannel()
 }
 
 // Disconnect initiates a DataSubscriber disconnect sequence.
 func (ds *DataSubscriber) Disconnect() {
-	if ds.disconnecting.IsSet() {
-		return
-	}
 
 	// Disconnect method executes shutdown on a separate thread without stopping to prevent
 	// issues where user may call disconnect method from a dispatched event thread. Also,
 	// user requests to disconnect are not an auto-reconnect attempt and should initiate
 	// shutdown of listening socket as well.
-	ds.disconnect(false, false, true)
+	ds.disconnect(false, false, true, nil)
 }
 
-func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, includeListener bool) {
-	// Check if disconnect thread is running or subscriber has already disconnected
-	if ds.disconnecting.IsSet() {
-		if !autoReconnecting && ds.listening.IsNotSet() && ds.disconnected.IsNotSet() {
-			ds.connector.Cancel()
-		}
+// disconnect initiates shutdown of the current connection. When a connection is specified,
+// request is ignored if that connection is no longer the current one.
+func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, includeListener bool, connection net.Conn) {
+	ds.connectionStateMutex.Lock()
 
-		ds.disconnectThreadMutex.Lock()
-		disconnectThread := ds.disconnectThread
-		ds.disconnectThreadMutex.Unlock()
+	if connection != nil && connection != ds.commandChannelSocket {
+		ds.connectionStateMutex.Unlock()
+		return
+	}
 
-		if joinThread && ds.disconnected.IsNotSet() && disconnectThread != nil {
-			disconnectThread.Join()
+	priorThread := ds.disconnectThread
+
+	// Check if disconnect thread is already running, note that a user requested disconnect
+	// must still follow one that was initiated by a terminated connection
+	if ds.disconnecting.IsSet() && (autoReconnecting || ds.userDisconnecting) {
+		ds.connectionStateMutex.Unlock()
+
+		if joinThread && priorThread != nil {
+			priorThread.Join()
 		}
 
 		return
@@ -646,75 +715,102 @@ func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, inc
 
 	ds.subscribed.UnSet()
 
-	disconnectThread := thread.NewThread(func() {
-		ds.runDisconnectThread(autoReconnecting, includeListener)
+	if !autoReconnecting {
+		ds.userDisconnecting = true
+		ds.connector.requestCancel()
+	}
+
+	var disconnectThread *thread.Thread
+
+	disconnectThread = thread.NewThread(func() {
+		if priorThread != nil {
+			priorThread.Join()
+		}
+
+		ds.runDisconnectThread(disconnectThread, autoReconnecting, includeListener)
 	})
 
-	ds.disconnectThreadMutex.Lock()
-	disconnectThread.Start()
 	ds.disconnectThread = disconnectThread
-	ds.disconnectThreadMutex.Unlock()
+	disconnectThread.Start()
+	ds.connectionStateMutex.Unlock()
 
 	if joinThread {
 		disconnectThread.Join()
 	}
 }
 
-func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeListener bool) {
-	// Let any pending connect operation complete before disconnect - prevents destruction disconnect before connection is completed
+func (ds *DataSubscriber) runDisconnectThread(disconnectThread *thread.Thread, autoReconnecting bool, includeListener bool) {
 	if !autoReconnecting {
 		ds.connector.Cancel()
-		ds.connectionTerminationThread.Join()
-		ds.connectActionMutex.Lock()
 	}
 
-	// Release queues and close sockets so that threads can shut down gracefully
-	if includeListener && ds.listeningSocket != nil {
-		if err := ds.listeningSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP listening socket: " + err.Error())
+	// Stop accepting connections first since accept thread may be waiting to complete a connection
+	if includeListener {
+		ds.connectionStateMutex.Lock()
+		listeningSocket := ds.listeningSocket
+		listeningSocketAcceptThread := ds.listeningSocketAcceptThread
+		ds.listeningSocket = nil
+		ds.listeningSocketAcceptThread = nil
+		ds.connectionStateMutex.Unlock()
+
+		if listeningSocket != nil {
+			if err := listeningSocket.Close(); err != nil {
+				ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP listening socket: " + err.Error())
+			}
 		}
-	}
 
-	if ds.commandChannelSocket != nil {
-		if err := ds.commandChannelSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP command channel: " + err.Error())
+		if listeningSocketAcceptThread != nil {
+			listeningSocketAcceptThread.Join()
 		}
 	}
 
-	if ds.dataChannelSocket != nil {
-		if err := ds.dataChannelSocket.Close(); err != nil {
-			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
+	// Let any pending connect operation complete before disconnect - prevents destruction disconnect before connection is completed
+	ds.connectActionMutex.Lock()
+
+	ds.connectionStateMutex.Lock()
+	commandChannelSocket := ds.commandChannelSocket
+	commandChannelResponseThread := ds.commandChannelResponseThread
+	ds.commandChannelSocket = nil
+	ds.commandChannelResponseThread = nil
+	ds.connectionStateMutex.Unlock()
+
+	// Close sockets so that threads can shut down gracefully, joining with
+	// threads to guarantee their completion before disconnect is reported
+	if commandChannelSocket != nil {
+		if err := commandChannelSocket.Close(); err != nil {
+			ds.dispatchErrorMessage("Exception while disconnecting data subscriber TCP command channel: " + err.Error())
 		}
 	}
 
-	// Join with all threads to guarantee their completion before returning control to the caller
-	if includeListener && ds.listeningSocketAcceptThread != nil {
-		ds.listeningSocketAcceptThread.Join()
-		ds.listeningSocketAcceptThread = nil
-	}
+	ds.closeDataChannel()
 
-	if ds.commandChannelResponseThread != nil {
-		ds.commandChannelResponseThread.Join()
-		ds.commandChannelResponseThread = nil
+	if commandChannelResponseThread != nil {
+		commandChannelResponseThread.Join()
 	}
 
-	if ds.dataChannelResponseThread != nil {
-		ds.dataChannelResponseThread.Join()
-		ds.dataChannelResponseThread = nil
-	}
+	// Response threads can change these states until they are complete
+	ds.validated.UnSet()
+	ds.subscribed.UnSet()
 
 	// Notify consumers of disconnect
 	ds.BeginCallbackSync()
 	connectionTerminatedCallback := ds.ConnectionTerminatedCallback
 	ds.EndCallbackSync()
 
-	if connectionTerminatedCallback != nil {
+	if connectionTerminatedCallback != nil && commandChannelSocket != nil {
 		connectionTerminatedCallback()
 	}
 
-	// Disconnect complete
-	ds.disconnected.Set()
-	ds.disconnecting.UnSet()
+	// Disconnect complete, unless another one was requested in the meantime
+	ds.connectionStateMutex.Lock()
+
+	if ds.disconnectThread == disconnectThread {
+		ds.disconnecting.UnSet()
+		ds.userDisconnecting = false
+	}
+
+	ds.connectionStateMutex.Unlock()
+	ds.connectActionMutex.Unlock()
 
 	if autoReconnecting {
 		// Handling auto-connect callback separately from connection terminated callback
@@ -727,17 +823,29 @@ func (ds *DataSubscriber) runDisconnectThread(autoReconnecting bool, includeList
 		if autoReconnectCallback != nil && ds.disposing.IsNotSet() {
 			autoReconnectCallback()
 		}
-	} else {
-		ds.connectActionMutex.Unlock()
 	}
 }
 
-// Dispatcher for connection terminated. This is called from its own separate thread
-// in order to cleanly shut down the subscriber in case the connection was terminated
-// by the peer. Additionally, this allows the user to automatically reconnect in their
-// callback function without having to spawn their own separate thread.
+// currentConnection gets the socket of current connection, or nil when there is none.
+func (ds *DataSubscriber) currentConnection() net.Conn {
+	ds.connectionStateMutex.Lock()
+	defer ds.connectionStateMutex.Unlock()
+
+	return ds.commandChannelSocket
+}
+
+// Dispatcher for current connection terminated, see dispatchTerminated. Since current connection
+// does not change while its response threads are running, this is for use by these threads.
 func (ds *DataSubscriber) dispatchConnectionTerminated() {
-	ds.connectionTerminationThread.TryStart()
+	if connection := ds.currentConnection(); connection != nil {
+		ds.dispatchTerminated(connection)
+	}
+}
+
+// Dispatcher for a terminated connection. Subscriber is cleanly shut down on its own separate
+// thread in case the connection was terminated by the peer.
+func (ds *DataSubscriber) dispatchTerminated(connection net.Conn) {
+	ds.disconnect(false, true, false, connection)
 }
 
 func (ds *DataSubscriber) dispatchStatusMessage(message string) {
@@ -760,15 +868,16 @@ func (ds *DataSubscriber) dispatchErrorMessage(message string) {
 	ds.EndCallbackSync()
 }
 
-func (ds *DataSubscriber) runListeningSocketAcceptThread() {
+func (ds *DataSubscriber) runListeningSocketAcceptThread(listeningSocket net.Listener) {
 	for ds.listening.IsSet() {
-		conn, err := ds.listeningSocket.Accept()
+		conn, err := listeningSocket.Accept()
 
 		if err != nil {
-			if ds.disconnecting.IsNotSet() {
-				ds.dispatchErrorMessage("Exception while accepting data publisher connection: " + err.Error())
+			if errors.Is(err, net.ErrClosed) {
+				break
 			}
 
+			ds.dispatchErrorMessage("Exception while accepting data publisher connection: " + err.Error())
 			continue
 		}
 
@@ -795,6 +904,22 @@ func (ds *DataSubscriber) runListeningSocketAcceptThread() {
 			continue
 		}
 
+		// Make sure shutdown of prior connection has completed, when no longer listening
+		// the pending disconnect is one that waits for this thread to complete
+		ds.connectionStateMutex.Lock()
+		disconnectThread := ds.disconnectThread
+		listening := ds.listening.IsSet()
+		ds.connectionStateMutex.Unlock()
+
+		if !listening {
+			conn.Close()
+			break
+		}
+
+		if disconnectThread != nil {
+			disconnectThread.Join()
+		}
+
 		// Let any pending connect or disconnect operation complete before new connect,
 		// this prevents destruction disconnect before connection is completed
 		ds.connectActionMutex.Lock()
@@ -802,15 +927,15 @@ func (ds *DataSubscriber) runListeningSocketAcceptThread() {
 		// Initialize connection state
 		ds.setupConnection()
 
-		// Create new command channel
-		ds.establishConnection(conn, true)
+		// Create new command channel, connection is closed when subscriber is disconnecting
+		_ = ds.establishConnection(conn, true)
 
 		ds.connectActionMutex.Unlock()
 	}
 }
 
-func (ds *DataSubscriber) runCommandChannelResponseThread() {
-	ds.reader = bufio.NewReader(ds.commandChannelSocket)
+func (ds *DataSubscriber) runCommandChannelResponseThread(connection net.Conn) {
+	ds.reader = bufio.NewReader(connection)
 
 	for ds.connected.IsSet() {
 		ds.readPayloadHeader(io.ReadFull(ds.reader, ds.readBuffer[:payloadHeaderSize]))
@@ -846,7 +971,7 @@ func (ds *DataSubscriber) readPayloadHeader(bytesTransferred int, err error) {
 			const maxInitialPacketSize = responseHeaderSize + 8192
 
 			if packetSize > maxInitialPacketSize {
-				ds.dispatchErrorMessage("Possible invalid protocol detected from \"" + ds.connectionID + "\": encountered request for " + strconv.Itoa(int(packetSize)) + " byte initial packet size -- connection likely from non-STTP client, disconnecting.")
+				ds.dispatchErrorMessage("Possible invalid protocol detected from \"" + ds.ConnectionID() + "\": encountered request for " + strconv.Itoa(int(packetSize)) + " byte initial packet size -- connection likely from non-STTP client, disconnecting.")
 				ds.dispatchConnectionTerminated()
 				return
 			}
@@ -908,15 +1033,18 @@ func (ds *DataSubscriber) readPacket(bytesTransferred int, err error) {
 
 // If the user defines a separate UDP channel for their
 // subscription, data packets get handled from this thread.
-func (ds *DataSubscriber) runDataChannelResponseThread() {
-	reader := bufio.NewReader(ds.dataChannelSocket)
+func (ds *DataSubscriber) runDataChannelResponseThread(dataChannelSocket net.Conn) {
+	reader := bufio.NewReader(dataChannelSocket)
 	buffer := make([]byte, maxPacketSize)
 
 	for ds.connected.IsSet() {
 		length, err := reader.Read(buffer)
 
 		if err != nil {
-			ds.dispatchErrorMessage("Error reading data from command channel: " + err.Error())
+			if !errors.Is(err, net.ErrClosed) {
+				ds.dispatchErrorMessage("Error reading data from command channel: " + err.Error())
+			}
+
 			break
 		}
 
@@ -930,7 +1058,7 @@ func (ds *DataSubscriber) runDataChannelResponseThread() {
 
 func (ds *DataSubscriber) processServerResponse(buffer []byte) {
 	if len(buffer) < responseHeaderSize {
-		ds.dispatchErrorMessage("Received response from \"" + ds.connectionID + "\" is too small: " + strconv.Itoa(len(buffer)) + " bytes")
+		ds.dispatchErrorMessage("Received response from \"" + ds.ConnectionID() + "\" is too small: " + strconv.Itoa(len(buffer)) + " bytes")
 
 		// Undersized initial response is not from an STTP client
 		if ds.validated.IsNotSet() {
@@ -947,7 +1075,7 @@ func (ds *DataSubscriber) processServerResponse(buffer []byte) {
 	if ds.validated.IsNotSet() {
 		if ds.Version >= 2 {
 			if responseCode != ServerResponse.NoOP && (commandCode != ServerCommand.DefineOperationalModes || (responseCode != ServerResponse.Succeeded && responseCode != ServerResponse.Failed)) {
-				ds.dispatchErrorMessage("Possible invalid protocol detected from \"" + ds.connectionID + "\": encountered unexpected initial command / response code: " + commandCode.String() + " / " + responseCode.String() + " -- connection likely from non-STTP client, disconnecting.")
+				ds.dispatchErrorMessage("Possible invalid protocol detected from \"" + ds.ConnectionID() + "\": encountered unexpected initial command / response code: " + commandCode.String() + " / " + responseCode.String() + " -- connection likely from non-STTP client, disconnecting.")
 				ds.dispatchConnectionTerminated()
 				return
 			}
@@ -982,7 +1110,7 @@ func (ds *DataSubscriber) processServerResponse(buffer []byte) {
 	case ServerResponse.NoOP:
 		// NoOP handled
 	default:
-		ds.dispatchErrorMessage("Encountered unexpected server response code: " + responseCode.String() + " from \"" + ds.connectionID + "\"")
+		ds.dispatchErrorMessage("Encountered unexpected server response code: " + responseCode.String() + " from \"" + ds.ConnectionID() + "\"")
 	}
 }
 
@@ -1079,7 +1207,7 @@ func (ds *DataSubscriber) validateSize(data []byte, size int, responseCode Serve
 		return true
 	}
 
-	ds.dispatchErrorMessage("Received " + responseCode.String() + " response from \"" + ds.connectionID + "\" is too small: " + strconv.Itoa(len(data)) + " bytes")
+	ds.dispatchErrorMessage("Received " + responseCode.String() + " response from \"" + ds.ConnectionID() + "\" is too small: " + strconv.Itoa(len(data)) + " bytes")
 	return false
 }
 
@@ -1212,7 +1340,7 @@ func (ds *DataSubscriber) handleUpdateCipherKeys(data []byte) {
 			data = data[4:]
 
 			if uint64(bufferLen) > uint64(len(data)) {
-				ds.dispatchErrorMessage("Received cipher keys from \"" + ds.connectionID + "\" are truncated, keys were not updated")
+				ds.dispatchErrorMessage("Received cipher keys from \"" + ds.ConnectionID() + "\" are truncated, keys were not updated")
 				return
 			}
 
@@ -1599,17 +1727,24 @@ func (ds *DataSubscriber) SendServerCommandWithMessage(commandCode ServerCommand
 
 // SendServerCommandWithPayload sends a server command code to the DataPublisher along with the specified data payload.
 func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommandEnum, data []byte) {
-	if ds.connected.IsNotSet() {
+	// Commands can be sent from multiple threads, each command must be written as a whole
+	ds.writeMutex.Lock()
+	defer ds.writeMutex.Unlock()
+
+	ds.writeServerCommand(commandCode, data)
+}
+
+// writeServerCommand writes a server command, caller must own the write lock.
+func (ds *DataSubscriber) writeServerCommand(commandCode ServerCommandEnum, data []byte) {
+	connection := ds.currentConnection()
+
+	if connection == nil || ds.connected.IsNotSet() {
 		return
 	}
 
 	var packetSize uint32 = uint32(len(data)) + 1
 	var commandBufferSize uint32 = packetSize + payloadHeaderSize
 
-	// Commands can be sent from multiple threads, each command must be written as a whole
-	ds.writeMutex.Lock()
-	defer ds.writeMutex.Unlock()
-
 	if int(commandBufferSize) > len(ds.writeBuffer) {
 		ds.writeBuffer = make([]byte, commandBufferSize)
 	}
@@ -1631,10 +1766,10 @@ func (ds *DataSubscriber) SendServerCommandWithPayload(commandCode ServerCommand
 		ds.metadataRequested = time.Now()
 	}
 
-	if _, err := ds.commandChannelSocket.Write(ds.writeBuffer[:commandBufferSize]); err != nil {
+	if _, err := connection.Write(ds.writeBuffer[:commandBufferSize]); err != nil {
 		// Write error, connection may have been closed by peer; terminate connection
 		ds.dispatchErrorMessage("Failed to send server command - disconnecting: " + err.Error())
-		ds.dispatchConnectionTerminated()
+		ds.dispatchTerminated(connection)
 	}
 }
 
@@ -1668,7 +1803,7 @@ func (ds *DataSubscriber) sendOperationalModes() {
 	buffer := make([]byte, 4)
 	binary.BigEndian.PutUint32(buffer, uint32(operationalModes))
 
-	ds.SendServerCommandWithPayload(ServerCommand.DefineOperationalModes, buffer)
+	ds.writeServerCommand(ServerCommand.DefineOperationalModes, buffer)
 }
 
 // Subscription gets the SubscriptionInfo associated with this DataSubscriber.
diff --git a/sttp/transport/SubscriberConnector.go b/sttp/transport/SubscriberConnector.go
index f2eec47..f1c29c9 100644
--- a/sttp/transport/SubscriberConnector.go
+++ b/sttp/transport/SubscriberConnector.go
@@ -109,7 +109,10 @@ func (ds *DataSubscriber) autoReconnect() {
 			return
 		}
 
-		if sc.connect(ds, true) == ConnectStatus.Canceled {
+		status := sc.connect(ds, true)
+
+		// A connection that has already dropped is subject to its own reconnect
+		if status == ConnectStatus.Canceled || status == ConnectStatus.Success && !ds.IsConnected() {
 			return
 		}
 
-- 
2.43.0


From 44f2dafc87fcbcd6b66c57803a6464f4b5cbb269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:03 +0000
Subject: [PATCH 20/65] fix: send subscribe request after reconnect without
 metadata

A subscribe made before the publisher confirmed the connection failed
with an error that the automatic subscribe ignored. With automatic
metadata requests turned off no data was received after a reconnect.
The request is now sent once the connection is validated.
---
 sttp/transport/DataSubscriber.go | 45 +++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 9eae393..05190a9 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -78,6 +78,7 @@ type DataSubscriber struct {
 	disconnectThread  *thread.Thread
 	disconnecting     abool.AtomicBool
 	userDisconnecting bool
+	subscribePending  bool
 	disposing         abool.AtomicBool
 
 	// Statistics counters
@@ -508,8 +509,9 @@ func (ds *DataSubscriber) Subscribe() error {
 		return errors.New("subscriber is not connected; cannot subscribe")
 	}
 
-	if ds.Version >= 2 && ds.validated.IsNotSet() {
-		return errors.New("subscriber is not validated; cannot subscribe")
+	// Subscribe request for a connection that is not yet validated is sent upon validation
+	if ds.Version >= 2 && ds.deferSubscribe() {
+		return nil
 	}
 
 	// Make sure to unsubscribe before attempting another
@@ -607,6 +609,32 @@ func (ds *DataSubscriber) Subscribe() error {
 	return nil
 }
 
+// deferSubscribe marks subscribe as pending when the connection is not yet validated.
+func (ds *DataSubscriber) deferSubscribe() bool {
+	ds.connectionStateMutex.Lock()
+	defer ds.connectionStateMutex.Unlock()
+
+	if ds.validated.IsSet() {
+		return false
+	}
+
+	ds.subscribePending = ds.connected.IsSet()
+	return true
+}
+
+// validate marks connection as validated, returned flag determines if a subscribe is pending.
+func (ds *DataSubscriber) validate() bool {
+	ds.connectionStateMutex.Lock()
+	defer ds.connectionStateMutex.Unlock()
+
+	subscribePending := ds.subscribePending
+
+	ds.validated.Set()
+	ds.subscribePending = false
+
+	return subscribePending
+}
+
 func (ds *DataSubscriber) openDataChannel(udpPort string) error {
 	udpAddr, err := net.ResolveUDPAddr("udp", ":"+udpPort)
 
@@ -662,6 +690,9 @@ func (ds *DataSubscriber) closeDataChannel() {
 
 // Unsubscribe notifies the DataPublisher that a DataSubscriber would like to stop receiving streaming data.
 func (ds *DataSubscriber) Unsubscribe() {
+	ds.connectionStateMutex.Lock()
+	ds.subscribePending = false
+	ds.connectionStateMutex.Unlock()
 	if ds.connected.IsNotSet() || ds.validated.IsNotSet() {
 		return
 	}
@@ -714,6 +745,7 @@ func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, inc
 	}
 
 	ds.subscribed.UnSet()
+	ds.subscribePending = false
 
 	if !autoReconnecting {
 		ds.userDisconnecting = true
@@ -1081,7 +1113,14 @@ func (ds *DataSubscriber) processServerResponse(buffer []byte) {
 			}
 		}
 
-		ds.validated.Set()
+		// Send any subscribe request that was made before connection was validated
+		if ds.validate() {
+			defer func() {
+				if err := ds.Subscribe(); err != nil {
+					ds.dispatchErrorMessage("Failed to subscribe: " + err.Error())
+				}
+			}()
+		}
 	}
 
 	switch responseCode {
-- 
2.43.0


From a3c33f86b5f8bcd3bb061dd4dead701602c5ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:41 +0000
Subject: [PATCH 21/65] fix: synchronize subscriber state used by multiple
 threads

Subscription settings, configuration, measurement metadata records, cipher
keys, base times, decoder state and buffer block state were accessed by
user, command channel, data channel and callback threads without any
synchronization.
---
 sttp/Subscriber.go                 | 176 +++++++++++++++++------------
 sttp/transport/DataSubscriber.go   | 144 ++++++++++++++++-------
 sttp/transport/SignalIndexCache.go |  12 +-
 3 files changed, 211 insertions(+), 121 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index decd63a..1109c19 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -50,7 +50,8 @@ import (
 // subscription based functionality.
 type Subscriber struct {
 	// Configuration reference
-	config *Config
+	config      *Config
+	configMutex sync.RWMutex
 
 	// DataSubscriber reference
 	ds *transport.DataSubscriber
@@ -212,12 +213,26 @@ func (sb *Subscriber) Dial(address string, config *Config) error {
 	sb.stopConnection()
 
 	if config != nil {
-		sb.config = config
+		sb.setConfig(config)
 	}
 
 	return sb.connect(hostname, uint16(port))
 }
 
+func (sb *Subscriber) setConfig(config *Config) {
+	sb.configMutex.Lock()
+	defer sb.configMutex.Unlock()
+
+	sb.config = config
+}
+
+func (sb *Subscriber) currentConfig() *Config {
+	sb.configMutex.RLock()
+	defer sb.configMutex.RUnlock()
+
+	return sb.config
+}
+
 // stopConnection makes sure any pending disconnect or automatic reconnect has completed.
 func (sb *Subscriber) stopConnection() {
 	ds := sb.dataSubscriber()
@@ -233,7 +248,9 @@ func (sb *Subscriber) stopConnection() {
 }
 
 func (sb *Subscriber) connect(hostname string, port uint16) error {
-	if sb.config == nil {
+	config := sb.currentConfig()
+
+	if config == nil {
 		panic("Internal Config instance has not been initialized. Make sure to use NewSubscriber.")
 	}
 
@@ -244,20 +261,20 @@ func (sb *Subscriber) connect(hostname string, port uint16) error {
 	con.Hostname = hostname
 	con.Port = port
 
-	con.MaxRetries = sb.config.MaxRetries
-	con.RetryInterval = sb.config.RetryInterval
-	con.MaxRetryInterval = sb.config.MaxRetryInterval
-	con.AutoReconnect = sb.config.AutoReconnect
-
-	ds.CompressPayloadData = sb.config.CompressPayloadData
-	ds.CompressMetadata = sb.config.CompressMetadata
-	ds.CompressSignalIndexCache = sb.config.CompressSignalIndexCache
-	ds.Version = sb.config.Version
-	ds.SwapGuidEndianness = !sb.config.RfcGuidEncoding
+	con.MaxRetries = config.MaxRetries
+	con.RetryInterval = config.RetryInterval
+	con.MaxRetryInterval = config.MaxRetryInterval
+	con.AutoReconnect = config.AutoReconnect
 
 	con.BeginCallbackAssignment()
 	ds.BeginCallbackAssignment()
 
+	ds.CompressPayloadData = config.CompressPayloadData
+	ds.CompressMetadata = config.CompressMetadata
+	ds.CompressSignalIndexCache = config.CompressSignalIndexCache
+	ds.Version = config.Version
+	ds.SwapGuidEndianness = !config.RfcGuidEncoding
+
 	// Clear callbacks from any prior connection with another mode of operation
 	ds.ConnectionEstablishedCallback = nil
 	ds.AutoReconnectCallback = nil
@@ -330,27 +347,29 @@ func (sb *Subscriber) Listen(address string, config *Config) error {
 	sb.stopConnection()
 
 	if config != nil {
-		sb.config = config
+		sb.setConfig(config)
 	}
 
 	return sb.listen(uint16(port), networkInterface)
 }
 
 func (sb *Subscriber) listen(port uint16, networkInterface string) error {
-	if sb.config == nil {
+	config := sb.currentConfig()
+
+	if config == nil {
 		panic("Internal Config instance has not been initialized. Make sure to use NewSubscriber.")
 	}
 
 	ds := sb.dataSubscriber()
 
-	ds.CompressPayloadData = sb.config.CompressPayloadData
-	ds.CompressMetadata = sb.config.CompressMetadata
-	ds.CompressSignalIndexCache = sb.config.CompressSignalIndexCache
-	ds.Version = sb.config.Version
-	ds.SwapGuidEndianness = !sb.config.RfcGuidEncoding
-
 	ds.BeginCallbackAssignment()
 
+	ds.CompressPayloadData = config.CompressPayloadData
+	ds.CompressMetadata = config.CompressMetadata
+	ds.CompressSignalIndexCache = config.CompressSignalIndexCache
+	ds.Version = config.Version
+	ds.SwapGuidEndianness = !config.RfcGuidEncoding
+
 	// Clear callback from any prior connection with another mode of operation
 	ds.AutoReconnectCallback = nil
 
@@ -381,12 +400,14 @@ func (sb *Subscriber) Disconnect() {
 func (sb *Subscriber) RequestMetadata() {
 	ds := sb.dataSubscriber()
 
-	if len(sb.config.MetadataFilters) == 0 {
+	metadataFilters := sb.currentConfig().MetadataFilters
+
+	if len(metadataFilters) == 0 {
 		ds.SendServerCommand(transport.ServerCommand.MetadataRefresh)
 		return
 	}
 
-	filters := ds.EncodeString(sb.config.MetadataFilters)
+	filters := ds.EncodeString(metadataFilters)
 	buffer := make([]byte, 4+len(filters))
 
 	binary.BigEndian.PutUint32(buffer, uint32(len(filters)))
@@ -417,36 +438,37 @@ func (sb *Subscriber) RequestMetadata() {
 // Settings parameter controls subscription related settings, set value to nil for default values.
 func (sb *Subscriber) Subscribe(filterExpression string, settings *Settings) {
 	ds := sb.dataSubscriber()
-	sub := ds.Subscription()
 
 	if settings == nil {
 		settings = &settingsDefaults
 	}
 
-	sub.FilterExpression = filterExpression
-	sub.Throttled = settings.Throttled
-	sub.PublishInterval = settings.PublishInterval
+	ds.UpdateSubscription(func(sub *transport.SubscriptionInfo) {
+		sub.FilterExpression = filterExpression
+		sub.Throttled = settings.Throttled
+		sub.PublishInterval = settings.PublishInterval
 
-	if settings.UdpPort > 0 {
-		sub.UdpDataChannel = true
-		sub.DataChannelLocalPort = settings.UdpPort
-	} else {
-		sub.UdpDataChannel = false
-		sub.DataChannelLocalPort = 0
-	}
-
-	sub.IncludeTime = settings.IncludeTime
-	sub.EnableTimeReasonabilityCheck = settings.EnableTimeReasonabilityCheck
-	sub.LagTime = settings.LagTime
-	sub.LeadTime = settings.LeadTime
-	sub.UseLocalClockAsRealTime = settings.UseLocalClockAsRealTime
-	sub.UseMillisecondResolution = settings.UseMillisecondResolution
-	sub.RequestNaNValueFilter = settings.RequestNaNValueFilter
-	sub.StartTime = settings.StartTime
-	sub.StopTime = settings.StopTime
-	sub.ConstraintParameters = settings.ConstraintParameters
-	sub.ProcessingInterval = settings.ProcessingInterval
-	sub.ExtraConnectionStringParameters = settings.ExtraConnectionStringParameters
+		if settings.UdpPort > 0 {
+			sub.UdpDataChannel = true
+			sub.DataChannelLocalPort = settings.UdpPort
+		} else {
+			sub.UdpDataChannel = false
+			sub.DataChannelLocalPort = 0
+		}
+
+		sub.IncludeTime = settings.IncludeTime
+		sub.EnableTimeReasonabilityCheck = settings.EnableTimeReasonabilityCheck
+		sub.LagTime = settings.LagTime
+		sub.LeadTime = settings.LeadTime
+		sub.UseLocalClockAsRealTime = settings.UseLocalClockAsRealTime
+		sub.UseMillisecondResolution = settings.UseMillisecondResolution
+		sub.RequestNaNValueFilter = settings.RequestNaNValueFilter
+		sub.StartTime = settings.StartTime
+		sub.StopTime = settings.StopTime
+		sub.ConstraintParameters = settings.ConstraintParameters
+		sub.ProcessingInterval = settings.ProcessingInterval
+		sub.ExtraConnectionStringParameters = settings.ExtraConnectionStringParameters
+	})
 
 	if ds.IsConnected() {
 		ds.Subscribe()
@@ -522,9 +544,11 @@ func (sb *Subscriber) handleConnect() {
 	// If automatically parsing metadata, request metadata upon successful connection,
 	// after metadata is received the SubscriberInstance will then initiate subscribe;
 	// otherwise, subscribe is initiated immediately (when auto subscribe requested)
-	if sb.config.AutoRequestMetadata {
+	config := sb.currentConfig()
+
+	if config.AutoRequestMetadata {
 		sb.RequestMetadata()
-	} else if sb.config.AutoSubscribe {
+	} else if config.AutoSubscribe {
 		sb.dataSubscriber().Subscribe()
 	}
 }
@@ -558,7 +582,9 @@ func (sb *Subscriber) handleMetadataReceived(metadata []byte) {
 		metadataReceiver(dataSet)
 	}
 
-	if sb.config.AutoRequestMetadata && sb.config.AutoSubscribe {
+	config := sb.currentConfig()
+
+	if config.AutoRequestMetadata && config.AutoSubscribe {
 		sb.dataSubscriber().Subscribe()
 	}
 }
@@ -591,37 +617,37 @@ func (sb *Subscriber) loadMeasurementMetadata(dataSet *data.DataSet) {
 					continue
 				}
 
-				metadata := ds.LookupMetadata(signalID)
-
-				if idIndex > -1 {
-					id, _, _ := measurement.StringValue(idIndex)
-					parts := strings.Split(id, ":")
+				ds.UpdateMetadata(signalID, func(metadata *transport.MeasurementMetadata) {
+					if idIndex > -1 {
+						id, _, _ := measurement.StringValue(idIndex)
+						parts := strings.Split(id, ":")
 
-					if len(parts) == 2 {
-						metadata.Source = parts[0]
-						metadata.ID, _ = strconv.ParseUint(parts[1], 10, 64)
+						if len(parts) == 2 {
+							metadata.Source = parts[0]
+							metadata.ID, _ = strconv.ParseUint(parts[1], 10, 64)
+						}
 					}
-				}
 
-				if pointTagIndex > -1 {
-					metadata.Tag, _, _ = measurement.StringValue(pointTagIndex)
-				}
+					if pointTagIndex > -1 {
+						metadata.Tag, _, _ = measurement.StringValue(pointTagIndex)
+					}
 
-				if signalRefIndex > -1 {
-					metadata.SignalReference, _, _ = measurement.StringValue(signalRefIndex)
-				}
+					if signalRefIndex > -1 {
+						metadata.SignalReference, _, _ = measurement.StringValue(signalRefIndex)
+					}
 
-				if signalTypeIndex > -1 {
-					metadata.SignalType, _, _ = measurement.StringValue(signalTypeIndex)
-				}
+					if signalTypeIndex > -1 {
+						metadata.SignalType, _, _ = measurement.StringValue(signalTypeIndex)
+					}
 
-				if descriptionIndex > -1 {
-					metadata.Description, _, _ = measurement.StringValue(descriptionIndex)
-				}
+					if descriptionIndex > -1 {
+						metadata.Description, _, _ = measurement.StringValue(descriptionIndex)
+					}
 
-				if updatedOnIndex > -1 {
-					metadata.UpdatedOn, _, _ = measurement.DateTimeValue(updatedOnIndex)
-				}
+					if updatedOnIndex > -1 {
+						metadata.UpdatedOn, _, _ = measurement.DateTimeValue(updatedOnIndex)
+					}
+				})
 			}
 		} else {
 			sb.ErrorMessage("Received metadata does not contain the required MeasurementDetail.SignalID field")
@@ -693,7 +719,7 @@ func (sb *Subscriber) handleConfigurationChanged() {
 		configurationChangedReceiver()
 	}
 
-	if sb.config.AutoRequestMetadata {
+	if sb.currentConfig().AutoRequestMetadata {
 		sb.RequestMetadata()
 	}
 }
diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 05190a9..8da3401 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -47,7 +47,9 @@ import (
 
 // DataSubscriber represents a subscription for an STTP connection.
 type DataSubscriber struct {
-	subscription SubscriptionInfo
+	subscription      SubscriptionInfo
+	subscriptionMutex sync.RWMutex
+
 	subscriberID guid.Guid
 	encoding     OperationalEncodingEnum
 	connector    *SubscriberConnector
@@ -152,8 +154,9 @@ type DataSubscriber struct {
 	STTPUpdatedOnInfo string
 
 	// Measurement parsing
-	metadataRequested       time.Time
+	metadataRequested       atomic.Int64 // Unix nanoseconds
 	measurementRegistry     sync.Map
+	metadataUpdateMutex     sync.Mutex
 	signalIndexCache        [2]*SignalIndexCache
 	signalIndexCacheMutex   sync.Mutex
 	cacheIndex              int32
@@ -165,10 +168,14 @@ type DataSubscriber struct {
 	tsscLastOOSReport       time.Time
 	tsscLastOOSReportMutex  sync.Mutex
 
+	// Guards measurement parsing state since data can arrive via both command and data channel
+	parsingStateMutex sync.Mutex
+
 	MeasurementPool sync.Pool
 
 	bufferBlockExpectedSequenceNumber uint32
 	bufferBlockCache                  map[uint32]BufferBlock
+	bufferBlockMutex                  sync.Mutex
 }
 
 // NewDataSubscriber creates a new DataSubscriber.
@@ -300,6 +307,16 @@ func (ds *DataSubscriber) LookupMetadata(signalID guid.Guid) *MeasurementMetadat
 	return metadata.(*MeasurementMetadata)
 }
 
+// UpdateMetadata executes the specified function to update the MeasurementMetadata for the specified
+// signalID in the local registry. If the metadata does not exist, a new record is created. Updates
+// made through this method are synchronized with each other.
+func (ds *DataSubscriber) UpdateMetadata(signalID guid.Guid, update func(metadata *MeasurementMetadata)) {
+	ds.metadataUpdateMutex.Lock()
+	defer ds.metadataUpdateMutex.Unlock()
+
+	update(ds.LookupMetadata(signalID))
+}
+
 // Metadata gets the MeasurementMetadata associated with a measurement from the local
 // registry. If the metadata does not exist, a new record is created and returned.
 func (ds *DataSubscriber) Metadata(measurement *Measurement) *MeasurementMetadata {
@@ -408,7 +425,11 @@ func (ds *DataSubscriber) setupConnection() {
 	ds.keyIVs = nil
 	ds.bufferBlockExpectedSequenceNumber = 0
 	ds.bufferBlockCache = make(map[uint32]BufferBlock)
-	ds.measurementRegistry = sync.Map{}
+
+	ds.measurementRegistry.Range(func(signalID, _ any) bool {
+		ds.measurementRegistry.Delete(signalID)
+		return true
+	})
 }
 
 func (ds *DataSubscriber) establishConnection(connection net.Conn, listening bool) error {
@@ -510,7 +531,11 @@ func (ds *DataSubscriber) Subscribe() error {
 	}
 
 	// Subscribe request for a connection that is not yet validated is sent upon validation
-	if ds.Version >= 2 && ds.deferSubscribe() {
+	ds.BeginCallbackSync()
+	version := ds.Version
+	ds.EndCallbackSync()
+
+	if version >= 2 && ds.deferSubscribe() {
 		return nil
 	}
 
@@ -522,28 +547,29 @@ func (ds *DataSubscriber) Subscribe() error {
 
 	atomic.StoreUint64(&ds.totalMeasurementsReceived, 0)
 
+	subscription := ds.subscriptionSettings()
 	var parameterBuilder strings.Builder
 
 	parameterBuilder.WriteString("throttled=")
-	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.Throttled))
+	parameterBuilder.WriteString(strconv.FormatBool(subscription.Throttled))
 	parameterBuilder.WriteString(";publishInterval=")
-	parameterBuilder.WriteString(strconv.FormatFloat(ds.subscription.PublishInterval, 'f', 6, 64))
+	parameterBuilder.WriteString(strconv.FormatFloat(subscription.PublishInterval, 'f', 6, 64))
 	parameterBuilder.WriteString(";includeTime=")
-	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.IncludeTime))
+	parameterBuilder.WriteString(strconv.FormatBool(subscription.IncludeTime))
 	parameterBuilder.WriteString(";enableTimeReasonabilityCheck=")
-	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.EnableTimeReasonabilityCheck))
+	parameterBuilder.WriteString(strconv.FormatBool(subscription.EnableTimeReasonabilityCheck))
 	parameterBuilder.WriteString(";lagTime=")
-	parameterBuilder.WriteString(strconv.FormatFloat(ds.subscription.LagTime, 'f', 6, 64))
+	parameterBuilder.WriteString(strconv.FormatFloat(subscription.LagTime, 'f', 6, 64))
 	parameterBuilder.WriteString(";leadTime=")
-	parameterBuilder.WriteString(strconv.FormatFloat(ds.subscription.LeadTime, 'f', 6, 64))
+	parameterBuilder.WriteString(strconv.FormatFloat(subscription.LeadTime, 'f', 6, 64))
 	parameterBuilder.WriteString(";useLocalClockAsRealTime=")
-	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.UseLocalClockAsRealTime))
+	parameterBuilder.WriteString(strconv.FormatBool(subscription.UseLocalClockAsRealTime))
 	parameterBuilder.WriteString(";processingInterval=")
-	parameterBuilder.WriteString(strconv.FormatInt(int64(ds.subscription.ProcessingInterval), 10))
+	parameterBuilder.WriteString(strconv.FormatInt(int64(subscription.ProcessingInterval), 10))
 	parameterBuilder.WriteString(";useMillisecondResolution=")
-	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.UseMillisecondResolution))
+	parameterBuilder.WriteString(strconv.FormatBool(subscription.UseMillisecondResolution))
 	parameterBuilder.WriteString(";requestNaNValueFilter=")
-	parameterBuilder.WriteString(strconv.FormatBool(ds.subscription.RequestNaNValueFilter))
+	parameterBuilder.WriteString(strconv.FormatBool(subscription.RequestNaNValueFilter))
 	parameterBuilder.WriteString(";assemblyInfo={source=")
 	parameterBuilder.WriteString(ds.STTPSourceInfo)
 	parameterBuilder.WriteString(";version=")
@@ -552,14 +578,14 @@ func (ds *DataSubscriber) Subscribe() error {
 	parameterBuilder.WriteString(ds.STTPUpdatedOnInfo)
 	parameterBuilder.WriteString("}")
 
-	if len(ds.subscription.FilterExpression) > 0 {
+	if len(subscription.FilterExpression) > 0 {
 		parameterBuilder.WriteString(";filterExpression={")
-		parameterBuilder.WriteString(ds.subscription.FilterExpression)
+		parameterBuilder.WriteString(subscription.FilterExpression)
 		parameterBuilder.WriteString("}")
 	}
 
-	if ds.subscription.UdpDataChannel {
-		udpPort := strconv.Itoa(int(ds.subscription.DataChannelLocalPort))
+	if subscription.UdpDataChannel {
+		udpPort := strconv.Itoa(int(subscription.DataChannelLocalPort))
 
 		if err := ds.openDataChannel(udpPort); err != nil {
 			return err
@@ -570,24 +596,24 @@ func (ds *DataSubscriber) Subscribe() error {
 		parameterBuilder.WriteString("}")
 	}
 
-	if len(ds.subscription.StartTime) > 0 {
+	if len(subscription.StartTime) > 0 {
 		parameterBuilder.WriteString(";startTimeConstraint=")
-		parameterBuilder.WriteString(ds.subscription.StartTime)
+		parameterBuilder.WriteString(subscription.StartTime)
 	}
 
-	if len(ds.subscription.StopTime) > 0 {
+	if len(subscription.StopTime) > 0 {
 		parameterBuilder.WriteString(";stopTimeConstraint=")
-		parameterBuilder.WriteString(ds.subscription.StopTime)
+		parameterBuilder.WriteString(subscription.StopTime)
 	}
 
-	if len(ds.subscription.ConstraintParameters) > 0 {
+	if len(subscription.ConstraintParameters) > 0 {
 		parameterBuilder.WriteString(";timeConstraintParameters=")
-		parameterBuilder.WriteString(ds.subscription.ConstraintParameters)
+		parameterBuilder.WriteString(subscription.ConstraintParameters)
 	}
 
-	if len(ds.subscription.ExtraConnectionStringParameters) > 0 {
+	if len(subscription.ExtraConnectionStringParameters) > 0 {
 		parameterBuilder.WriteRune(';')
-		parameterBuilder.WriteString(ds.subscription.ExtraConnectionStringParameters)
+		parameterBuilder.WriteString(subscription.ExtraConnectionStringParameters)
 	}
 
 	parameterString := parameterBuilder.String()
@@ -1218,7 +1244,7 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 
 	if metadataReceivedCallback != nil {
 		if ds.CompressMetadata {
-			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Decompressing...", format.Int(len(data)), format.Float(time.Since(ds.metadataRequested).Seconds(), 3)))
+			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Decompressing...", format.Int(len(data)), format.Float(time.Since(time.Unix(0, ds.metadataRequested.Load())).Seconds(), 3)))
 
 			decompressStarted := time.Now()
 			var err error
@@ -1230,7 +1256,7 @@ func (ds *DataSubscriber) handleMetadataRefresh(data []byte) {
 
 			ds.dispatchStatusMessage(fmt.Sprintf("Decompressed %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(decompressStarted).Seconds(), 3)))
 		} else {
-			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(ds.metadataRequested).Seconds(), 3)))
+			ds.dispatchStatusMessage(fmt.Sprintf("Received %s bytes of metadata in %s seconds. Parsing...", format.Int(len(data)), format.Float(time.Since(time.Unix(0, ds.metadataRequested.Load())).Seconds(), 3)))
 
 			// Callback runs on its own thread while the read buffer gets reused for the next response
 			data = append([]byte(nil), data...)
@@ -1305,7 +1331,8 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 	}
 
 	signalIndexCache := NewSignalIndexCache()
-	err := signalIndexCache.decode(ds, data, &ds.subscriberID)
+	var subscriberID guid.Guid
+	err := signalIndexCache.decode(ds, data, &subscriberID)
 
 	if err != nil {
 		ds.dispatchErrorMessage("Failed to parse signal index cache: " + err.Error())
@@ -1313,6 +1340,7 @@ func (ds *DataSubscriber) handleUpdateSignalIndexCache(data []byte) {
 	}
 
 	ds.signalIndexCacheMutex.Lock()
+	ds.subscriberID = subscriberID
 	ds.signalIndexCache[cacheIndex] = signalIndexCache
 	ds.cacheIndex = cacheIndex
 	ds.signalIndexCacheMutex.Unlock()
@@ -1341,16 +1369,17 @@ func (ds *DataSubscriber) handleUpdateBaseTimes(data []byte) {
 		timeIndex = 1
 	}
 
-	ds.timeIndex = timeIndex
-
 	var baseTimeOffsets [2]int64
 
 	baseTimeOffsets[0] = int64(binary.BigEndian.Uint64(data[4:]))
 	baseTimeOffsets[1] = int64(binary.BigEndian.Uint64(data[12:]))
 
+	ds.parsingStateMutex.Lock()
+	ds.timeIndex = timeIndex
 	ds.baseTimeOffsets = baseTimeOffsets
+	ds.parsingStateMutex.Unlock()
 
-	timestamp, _ := ticks.Ticks(ds.baseTimeOffsets[ds.timeIndex^1]).ToTime().MarshalText()
+	timestamp, _ := ticks.Ticks(baseTimeOffsets[timeIndex^1]).ToTime().MarshalText()
 	ds.dispatchStatusMessage("Received new base time offset from publisher: " + string(timestamp))
 }
 
@@ -1390,7 +1419,9 @@ func (ds *DataSubscriber) handleUpdateCipherKeys(data []byte) {
 	}
 
 	// Exchange keys
+	ds.parsingStateMutex.Lock()
 	ds.keyIVs = keyIVs
+	ds.parsingStateMutex.Unlock()
 
 	ds.dispatchStatusMessage("Successfully established new cipher keys for UDP data packet transmissions.")
 }
@@ -1424,9 +1455,12 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 
 	data = data[1:]
 
-	if ds.keyIVs != nil {
-		// Get a local copy keyIVs - these can change at any time
-		keyIVs := ds.keyIVs
+	// Get a local copy keyIVs - these can change at any time
+	ds.parsingStateMutex.Lock()
+	keyIVs := ds.keyIVs
+	ds.parsingStateMutex.Unlock()
+
+	if keyIVs != nil {
 		var cipherIndex int
 		var err error
 
@@ -1483,12 +1517,16 @@ func (ds *DataSubscriber) handleDataPacket(data []byte) {
 
 	var decoded bool
 
+	ds.parsingStateMutex.Lock()
+
 	if compressed {
 		*measurements, decoded = ds.parseTSSCMeasurements(signalIndexCache, data[4:], (*measurements)[:0])
 	} else {
 		decoded = ds.parseCompactMeasurements(signalIndexCache, data[4:], *measurements)
 	}
 
+	ds.parsingStateMutex.Unlock()
+
 	// Packets that could not be decoded have no measurements to expose
 	if !decoded {
 		ds.MeasurementPool.Put(measurements)
@@ -1629,8 +1667,9 @@ func (ds *DataSubscriber) parseCompactMeasurements(signalIndexCache *SignalIndex
 		return false
 	}
 
-	useMillisecondResolution := ds.subscription.UseMillisecondResolution
-	includeTime := ds.subscription.IncludeTime
+	subscription := ds.subscriptionSettings()
+	useMillisecondResolution := subscription.UseMillisecondResolution
+	includeTime := subscription.IncludeTime
 	index := 0
 
 	for i := 0; i < len(measurements); i++ {
@@ -1662,6 +1701,10 @@ func (ds *DataSubscriber) handleBufferBlock(data []byte) {
 		return
 	}
 
+	// Buffer blocks are exposed in sequence even when received via both command and data channel
+	ds.bufferBlockMutex.Lock()
+	defer ds.bufferBlockMutex.Unlock()
+
 	// Buffer block received - wrap as a BufferBlockMeasurement and expose back to consumer
 	sequenceNumber := binary.BigEndian.Uint32(data)
 	_, cached := ds.bufferBlockCache[sequenceNumber]
@@ -1802,7 +1845,7 @@ func (ds *DataSubscriber) writeServerCommand(commandCode ServerCommandEnum, data
 
 	if commandCode == ServerCommand.MetadataRefresh {
 		// Track start time of metadata request to calculate round-trip receive time
-		ds.metadataRequested = time.Now()
+		ds.metadataRequested.Store(time.Now().UnixNano())
 	}
 
 	if _, err := connection.Write(ds.writeBuffer[:commandBufferSize]); err != nil {
@@ -1823,7 +1866,7 @@ func (ds *DataSubscriber) sendOperationalModes() {
 	}
 
 	// TSSC compression only works with stateful connections
-	if ds.CompressPayloadData && !ds.subscription.UdpDataChannel {
+	if ds.CompressPayloadData && !ds.subscriptionSettings().UdpDataChannel {
 		operationalModes |= OperationalModes.CompressPayloadData
 
 		if ds.Version < 10 {
@@ -1850,6 +1893,24 @@ func (ds *DataSubscriber) Subscription() *SubscriptionInfo {
 	return &ds.subscription
 }
 
+// UpdateSubscription executes the specified function to update the SubscriptionInfo associated with
+// this DataSubscriber. Unlike changes made through Subscription, updates can be safely made while
+// subscriber is connected.
+func (ds *DataSubscriber) UpdateSubscription(update func(subscription *SubscriptionInfo)) {
+	ds.subscriptionMutex.Lock()
+	defer ds.subscriptionMutex.Unlock()
+
+	update(&ds.subscription)
+}
+
+// subscriptionSettings gets a copy of the current SubscriptionInfo.
+func (ds *DataSubscriber) subscriptionSettings() SubscriptionInfo {
+	ds.subscriptionMutex.RLock()
+	defer ds.subscriptionMutex.RUnlock()
+
+	return ds.subscription
+}
+
 // Connector gets the SubscriberConnector associated with this DataSubscriber.
 func (ds *DataSubscriber) Connector() *SubscriberConnector {
 	return ds.connector
@@ -1866,6 +1927,9 @@ func (ds *DataSubscriber) ActiveSignalIndexCache() *SignalIndexCache {
 
 // SubscriberID gets the subscriber ID as assigned by the DataPublisher upon receipt of the SignalIndexCache.
 func (ds *DataSubscriber) SubscriberID() guid.Guid {
+	ds.signalIndexCacheMutex.Lock()
+	defer ds.signalIndexCacheMutex.Unlock()
+
 	return ds.subscriberID
 }
 
@@ -1876,7 +1940,7 @@ func (ds *DataSubscriber) TotalCommandChannelBytesReceived() uint64 {
 
 // TotalDataChannelBytesReceived gets the total number of bytes received via the data channel since last connection.
 func (ds *DataSubscriber) TotalDataChannelBytesReceived() uint64 {
-	if ds.subscription.UdpDataChannel {
+	if ds.subscriptionSettings().UdpDataChannel {
 		return atomic.LoadUint64(&ds.totalDataChannelBytesReceived)
 	}
 
diff --git a/sttp/transport/SignalIndexCache.go b/sttp/transport/SignalIndexCache.go
index 9f7bbd5..c0ecb0d 100644
--- a/sttp/transport/SignalIndexCache.go
+++ b/sttp/transport/SignalIndexCache.go
@@ -62,13 +62,13 @@ func (sic *SignalIndexCache) addRecord(ds *DataSubscriber, signalIndex int32, si
 	sic.idList = append(sic.idList, id)
 	sic.signalIDCache[signalID] = signalIndex
 
-	metadata := ds.LookupMetadata(signalID)
-
 	// Register measurement metadata if not defined already
-	if len(metadata.Source) == 0 {
-		metadata.Source = source
-		metadata.ID = id
-	}
+	ds.UpdateMetadata(signalID, func(metadata *MeasurementMetadata) {
+		if len(metadata.Source) == 0 {
+			metadata.Source = source
+			metadata.ID = id
+		}
+	})
 
 	// Char size here helps provide a rough-estimate on binary length used to reserve
 	// bytes for a vector, if exact size is needed call RecalculateBinaryLength first
-- 
2.43.0


From 976ddace1d89091fe6b22b72efc7640c44157818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:54 +0000
Subject: [PATCH 22/65] fix: decode XML entities in data set field values

Text fields of records loaded from XML kept their raw markup, so a
description such as "A &amp; B" was stored with the entity instead of the
character. Field values now use the decoded character data of the element.
---
 sttp/data/DataSet.go | 5 +++++
 sttp/xml/XmlNode.go  | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 91d82cb..153a2ac 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -289,6 +289,11 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				columnIndex := column.Index()
 				value := field.Value()
 
+				// Field values are text, entities need to be decoded
+				if !field.HasChildNodes() {
+					value = field.InnerText()
+				}
+
 				switch column.Type() {
 				case DataType.String:
 					dataRow.SetValue(columnIndex, value)
diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 798af3a..94228fb 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -38,6 +38,8 @@ type XmlNode struct {
 	Namespace string `xml:"-"`
 	// InnerXml is the XML content of the child nodes of this node.
 	InnerXml []byte `xml:",innerxml"`
+	// CharData is the text content of this node with any entities decoded, excluding child nodes.
+	CharData []byte `xml:",chardata"`
 	// ChildNodes is a the collection of child nodes of this node.
 	ChildNodes []XmlNode `xml:",any"`
 	// Parent is the parent of this node. Value will be nil if node has no parent, e.g., XmlDocument.Root.
@@ -86,6 +88,11 @@ func (xn *XmlNode) Value() string {
 	return string(xn.InnerXml)
 }
 
+// InnerText gets the text content of this node, with any entities decoded, as a string.
+func (xn *XmlNode) InnerText() string {
+	return string(xn.CharData)
+}
+
 // Prefix looks up namespace prefix for this node.
 func (xn *XmlNode) Prefix() string {
 	namespace := xn.Namespace
-- 
2.43.0


From 023be8d5e6279bcb3544b792424040fd4a4d75ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:57 +0000
Subject: [PATCH 23/65] fix: accept UTC designator in data set date fields

Date fields written with the "Z" zone designator, which XSD date/time
values use for UTC, failed to parse and were silently stored as zero time.
The RFC 3339 layout accepts the designator as well as numeric offsets.
---
 sttp/data/DataSet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 153a2ac..8b8f1bd 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -300,7 +300,7 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				case DataType.Boolean:
 					dataRow.SetValue(columnIndex, value == "true")
 				case DataType.DateTime:
-					dt, _ := time.Parse(DateTimeFormat, value)
+					dt, _ := time.Parse(time.RFC3339Nano, value)
 					dataRow.SetValue(columnIndex, dt)
 				case DataType.Single:
 					f32, _ := strconv.ParseFloat(value, 32)
-- 
2.43.0


From de42a5f7dedab296febd801fecd13067b20e40e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:37 +0000
Subject: [PATCH 24/65] fix: find namespace prefixes declared by ancestor nodes

Prefix lookup only considered attributes of the node itself. A metadata
document declaring the schema prefix on its root element therefore lost all
its columns, because the prefix was not removed from column type names.
Lookup now walks up to the root and only considers namespace declarations.
---
 sttp/xml/XmlNode.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 94228fb..86f4400 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -97,9 +97,12 @@ func (xn *XmlNode) InnerText() string {
 func (xn *XmlNode) Prefix() string {
 	namespace := xn.Namespace
 
-	for name, value := range xn.Attributes {
-		if value == namespace {
-			return name
+	// Namespace prefix may be declared by this node or any of its ancestors
+	for node := xn; node != nil; node = node.Parent {
+		for name, value := range node.Attributes {
+			if value == namespace && node.AttributeNamespaces[name] == "xmlns" {
+				return name
+			}
 		}
 	}
 
-- 
2.43.0


From b1acd37ef1193807db964245f0db286695388656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:00 +0000
Subject: [PATCH 25/65] fix: accept numeric form of XSD boolean values

XSD defines "1" and "true" as the same boolean value, but a field written
as "1" was loaded as false.
---
 sttp/data/DataSet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index 8b8f1bd..e062f89 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -298,7 +298,7 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 				case DataType.String:
 					dataRow.SetValue(columnIndex, value)
 				case DataType.Boolean:
-					dataRow.SetValue(columnIndex, value == "true")
+					dataRow.SetValue(columnIndex, value == "true" || value == "1")
 				case DataType.DateTime:
 					dt, _ := time.Parse(time.RFC3339Nano, value)
 					dataRow.SetValue(columnIndex, dt)
-- 
2.43.0


From 0a45470f62d2483e21ab70d5bd7deb6bcdb99138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:42 +0000
Subject: [PATCH 26/65] fix: wait for data channel closed by concurrent
 unsubscribe

When a disconnect overlapped an unsubscribe that was already closing the UDP
data channel, the disconnect no longer knew about the data channel thread and
reported the end of the connection while measurements could still arrive.
The thread reference is now kept so that every closer waits for its end.
---
 sttp/transport/DataSubscriber.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 8da3401..6ff6354 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -700,7 +700,6 @@ func (ds *DataSubscriber) closeDataChannel() {
 	dataChannelSocket := ds.dataChannelSocket
 	dataChannelResponseThread := ds.dataChannelResponseThread
 	ds.dataChannelSocket = nil
-	ds.dataChannelResponseThread = nil
 	ds.connectionStateMutex.Unlock()
 
 	if dataChannelSocket != nil {
-- 
2.43.0


From d5b79bbb54f52a04d5caad8c80bf8b8d6aafa2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:35 +0000
Subject: [PATCH 27/65] fix: validate first connection of a subscriber

New subscribers were marked as validated at construction so that the opening
of the first connection was never checked, only of later ones. Validation
state is now initialized for each connection, where versions prior to 2 have
no response that could be validated.
---
 sttp/transport/DataSubscriber.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 6ff6354..8722f85 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -202,8 +202,6 @@ func NewDataSubscriber() *DataSubscriber {
 		signalIndexCache:         [2]*SignalIndexCache{NewSignalIndexCache(), NewSignalIndexCache()},
 	}
 
-	ds.validated.Set()
-
 	return ds
 }
 
@@ -410,6 +408,9 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 func (ds *DataSubscriber) setupConnection() {
 	ds.subscribed.UnSet()
 
+	// Versions prior to 2 provide no response to operational modes that could be validated
+	ds.validated.SetTo(ds.Version < 2)
+
 	atomic.StoreUint64(&ds.totalCommandChannelBytesReceived, 0)
 	atomic.StoreUint64(&ds.totalDataChannelBytesReceived, 0)
 	atomic.StoreUint64(&ds.totalMeasurementsReceived, 0)
-- 
2.43.0


From 42163bef0d1be41671621ed13b6ce1ba404fcb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:35 +0000
Subject: [PATCH 28/65] fix: cancel listen that overlaps a disconnect

A disconnect requested while listening was being started waited for the new
accept thread, which in turn waited for the disconnect as soon as a publisher
connected. Listen is now canceled in this case, same as a connection attempt.
---
 sttp/transport/DataSubscriber.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 8722f85..9bdfeba 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -514,6 +514,13 @@ func (ds *DataSubscriber) Listen(port uint16, networkInterface string) error {
 	ds.connectionStateMutex.Lock()
 	defer ds.connectionStateMutex.Unlock()
 
+	// Do not start listening once user has requested disconnect
+	if ds.disconnecting.IsSet() || ds.disposing.IsSet() {
+		listeningSocket.Close()
+
+		return errors.New("listen canceled")
+	}
+
 	ds.listeningSocket = listeningSocket
 	ds.listeningSocketAcceptThread = thread.NewThread(func() {
 		ds.runListeningSocketAcceptThread(listeningSocket)
-- 
2.43.0


From a6cb9739d45ce4716c9f5378c507860377f29853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:46 +0000
Subject: [PATCH 29/65] fix: allow columns to be added to a table that has rows

A row holds as many values as the table had columns when the row was created.
Reading or assigning a column that was added later indexed past the end of
these values and crashed. Such a column is now null until it is assigned.
---
 sttp/data/DataRow.go | 60 ++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 74f9977..7306c2c 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -54,6 +54,24 @@ func (dr *DataRow) Parent() *DataTable {
 	return dr.parent
 }
 
+// storedValue gets the value held for the specified column. Row may have been created
+// before the column was added to the table, in that case there is no value yet.
+func (dr *DataRow) storedValue(columnIndex int) interface{} {
+	if columnIndex < 0 || columnIndex >= len(dr.values) {
+		return nil
+	}
+
+	return dr.values[columnIndex]
+}
+
+func (dr *DataRow) storeValue(columnIndex int, value interface{}) {
+	for len(dr.values) <= columnIndex {
+		dr.values = append(dr.values, nil)
+	}
+
+	dr.values[columnIndex] = value
+}
+
 func (dr *DataRow) getColumnIndex(columnName string) (int, error) {
 	column := dr.parent.ColumnByName(columnName)
 
@@ -96,7 +114,7 @@ func (dr *DataRow) validateColumnType(columnIndex, targetType int, read bool) (*
 func (dr *DataRow) expressionTree(column *DataColumn) (*ExpressionTree, error) {
 	columnIndex := column.Index()
 
-	if dr.values[columnIndex] == nil {
+	if dr.storedValue(columnIndex) == nil {
 		dataTable := column.Parent()
 		expressionTree, err := GenerateExpressionTree(dataTable, column.Expression(), true)
 
@@ -104,7 +122,7 @@ func (dr *DataRow) expressionTree(column *DataColumn) (*ExpressionTree, error) {
 			return nil, errors.New("failed to parse expression defined for computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\": " + err.Error())
 		}
 
-		dr.values[columnIndex] = expressionTree
+		dr.storeValue(columnIndex, expressionTree)
 		return expressionTree, nil
 	}
 
@@ -477,7 +495,7 @@ func convertFromDateTime(value time.Time, targetType DataTypeEnum) (interface{},
 // If the column comes from getColumnIndex, and is known to not be
 // computed, this should be safe.
 func (dr *DataRow) ValueFast(columnIndex int) (interface{}, error) {
-	return dr.values[columnIndex], nil
+	return dr.storedValue(columnIndex), nil
 }
 
 // Value reads the record value at the specified columnIndex.
@@ -492,7 +510,7 @@ func (dr *DataRow) Value(columnIndex int) (interface{}, error) {
 		return dr.getComputedValue(column)
 	}
 
-	return dr.values[columnIndex], nil
+	return dr.storedValue(columnIndex), nil
 }
 
 // ValueByName reads the record value for the specified columnName.
@@ -503,7 +521,7 @@ func (dr *DataRow) ValueByName(columnName string) (interface{}, error) {
 		return nil, err
 	}
 
-	return dr.values[index], nil
+	return dr.storedValue(index), nil
 }
 
 // SetValue assigns the record value at the specified columnIndex.
@@ -514,7 +532,7 @@ func (dr *DataRow) SetValue(columnIndex int, value interface{}) error {
 		return err
 	}
 
-	dr.values[columnIndex] = value
+	dr.storeValue(columnIndex, value)
 	return nil
 }
 
@@ -773,7 +791,7 @@ func (dr *DataRow) StringValue(columnIndex int) (string, bool, error) {
 		return value.(string), false, nil
 	}
 
-	value := dr.values[columnIndex]
+	value := dr.storedValue(columnIndex)
 
 	if value == nil {
 		return "", true, nil
@@ -819,7 +837,7 @@ func (dr *DataRow) BooleanValue(columnIndex int) (bool, bool, error) {
 		return value.(bool), false, nil
 	}
 
-	value := dr.values[columnIndex]
+	value := dr.storedValue(columnIndex)
 
 	if value == nil {
 		return false, true, nil
@@ -865,7 +883,7 @@ func (dr *DataRow) DateTimeValue(columnIndex int) (time.Time, bool, error) {
 		return value.(time.Time), false, nil
 	}
 
-	value := dr.values[columnIndex]
+	value := dr.storedValue(columnIndex)
 
 	if value == nil {
 		return time.Time{}, true, nil
@@ -911,7 +929,7 @@ func (dr *DataRow) SingleValue(columnIndex int) (float32, bool, error) {
 		return value.(float32), false, nil
 	}
 
-	value := dr.values[columnIndex]
+	value := dr.storedValue(columnIndex)
 
 	if value == nil {
 		return 0.0, true, nil
@@ -957,7 +975,7 @@ func (dr *DataRow) DoubleValue(columnIndex int) (float64, bool, error) {
 		return value.(float64), false, nil
 	}
 
-	value := dr.values[columnIndex]
+	value := dr.storedValue(columnIndex)
 
 	if value == nil {
 		return 0.0, true, nil
@@ -1003,7 +1021,7 @@ func (dr *DataRow) DecimalValue(columnIndex int) (decimal.Decimal, bool, error)
 		return value.(decimal.Decimal), false, nil
 	}
 
-	value := dr.values[columnIndex]
+	value := dr.storedValue(columnIndex)
 
 	if value == nil {
 		return decimal.Zero, true, nil
@@ -1049,7 +1067,7 @@ func (dr *DataRow) GuidValue(columnIndex int) (guid.Guid, bool, error) {
 		return value.(guid.Guid), false, nil
 	}
 
-	value := dr.values[columnIndex]
+	value := dr.storedValue(columnIndex)
 
 	if value == nil {
 		return guid.Guid{}, true, nil
@@ -1095,7 +1113,7 @@ func (dr *DataRow) Int8Value(columnIndex int) (int8, bool, error) {
 		return value.(int8), false, nil
 	}
 
-	value := dr.values[columnIndex]
+	value := dr.storedValue(columnIndex)
 
 	if value == nil {
 		return 0, true, nil
@@ -1141,7 +1159,7 @@ func (dr *DataRow) Int16Value(columnIndex int) (int16, bool, error) {
 		return value.(int16), false, nil
 	}
 
-	value := dr.values[columnIndex]
+	value := dr.storedValue(columnIndex)
 
 	if value == nil {
 		return 0, true, nil
@@ -1187,7 +1205,7 @@ func (dr *DataRow) Int32Value(columnIndex int) (int32, bool, error) {
 		return value.(int32), false, nil
 	}
 
-	value := dr.values[columnIndex]
+	value := dr.storedValue(columnIndex)
 
 	if value == nil {
 		return 0, true, nil
@@ -1233,7 +1251,7 @@ func (dr *DataRow) Int64Value(columnIndex int) (int64, bool, error) {
 		return value.(int64), false, nil
 	}
 
-	value := dr.values[columnIndex]
+	value := dr.storedValue(columnIndex)
 
 	if value == nil {
 		return 0, true, nil
@@ -1279,7 +1297,7 @@ func (dr *DataRow) UInt8Value(columnIndex int) (uint8, bool, error) {
 		return value.(uint8), false, nil
 	}
 
-	value := dr.values[columnIndex]
+	value := dr.storedValue(columnIndex)
 
 	if value == nil {
 		return 0, true, nil
@@ -1325,7 +1343,7 @@ func (dr *DataRow) UInt16Value(columnIndex int) (uint16, bool, error) {
 		return value.(uint16), false, nil
 	}
 
-	value := dr.values[columnIndex]
+	value := dr.storedValue(columnIndex)
 
 	if value == nil {
 		return 0, true, nil
@@ -1371,7 +1389,7 @@ func (dr *DataRow) UInt32Value(columnIndex int) (uint32, bool, error) {
 		return value.(uint32), false, nil
 	}
 
-	value := dr.values[columnIndex]
+	value := dr.storedValue(columnIndex)
 
 	if value == nil {
 		return 0, true, nil
@@ -1417,7 +1435,7 @@ func (dr *DataRow) UInt64Value(columnIndex int) (uint64, bool, error) {
 		return value.(uint64), false, nil
 	}
 
-	value := dr.values[columnIndex]
+	value := dr.storedValue(columnIndex)
 
 	if value == nil {
 		return 0, true, nil
-- 
2.43.0


From 5b1816786bf30c0b9f91b08822aafa7758c6009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:48 +0000
Subject: [PATCH 30/65] fix: compute expression columns read by name

ValueByName returned the stored value of the row, which for a computed column
is empty or the parsed expression, while Value evaluated the expression.
---
 sttp/data/DataRow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 7306c2c..19f2850 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -521,7 +521,7 @@ func (dr *DataRow) ValueByName(columnName string) (interface{}, error) {
 		return nil, err
 	}
 
-	return dr.storedValue(index), nil
+	return dr.Value(index)
 }
 
 // SetValue assigns the record value at the specified columnIndex.
-- 
2.43.0


From 180fe353cc39e375b67b1d36c17ae98d3ff7af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:51 +0000
Subject: [PATCH 31/65] fix: convert date and time to boolean like other types

Every other type converts zero to false and anything else to true, a computed
Boolean column with a DateTime expression did the opposite. The expression
evaluator itself already converts a DateTime with the usual meaning.
---
 sttp/data/DataRow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 19f2850..53d1b93 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -458,7 +458,7 @@ func convertFromDateTime(value time.Time, targetType DataTypeEnum) (interface{},
 	case DataType.String:
 		return value.Format(DateTimeFormat), nil
 	case DataType.Boolean:
-		return seconds == 0, nil
+		return seconds != 0, nil
 	case DataType.DateTime:
 		return value, nil
 	case DataType.Single:
-- 
2.43.0


From 9ae594d45beb559c4fc734f9f1f77f78edb21f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:53 +0000
Subject: [PATCH 32/65] fix: keep computed column null when its expression is
 null

An expression that evaluated to Null produced the zero value of the column
type, so the column could not be told from one that was really zero, and
IS NULL on the computed column was false.
---
 sttp/data/DataRow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 53d1b93..8f9a1f2 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -142,6 +142,11 @@ func (dr *DataRow) getComputedValue(column *DataColumn) (interface{}, error) {
 		return nil, errors.New("failed to evaluate expression defined for computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\": " + err.Error())
 	}
 
+	// Expression without a value, e.g., due to Null propagation, is a null column value
+	if sourceValue.IsNull() {
+		return nil, nil
+	}
+
 	targetType := column.Type()
 
 	switch sourceValue.ValueType() {
-- 
2.43.0


From 2caa8219c2f9efc06823de90c0c14fcec3b51300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:18 +0000
Subject: [PATCH 33/65] fix: reject values that do not match the column type

SetValue stored anything. Reading a value of another type than the one of the
column later crashed in the typed accessor, or in an expression that used the
column. Assigning such a value is an error now.
---
 sttp/data/DataColumn.go | 51 ++++++++++++++++++++++++++++++++++++++++-
 sttp/data/DataRow.go    | 12 +++++++---
 2 files changed, 59 insertions(+), 4 deletions(-)

diff --git a/sttp/data/DataColumn.go b/sttp/data/DataColumn.go
index 04862da..e869157 100644
--- a/sttp/data/DataColumn.go
+++ b/sttp/data/DataColumn.go
@@ -23,7 +23,13 @@
 
 package data
 
-import "fmt"
+import (
+	"fmt"
+	"time"
+
+	"github.com/shopspring/decimal"
+	"github.com/sttp/goapi/sttp/guid"
+)
 
 // DataColumn represents a column, i.e., a field, in a DataTable defining a name and a data type.
 // Data columns can also be computed where its value would be derived from other columns and
@@ -73,6 +79,49 @@ func (dc *DataColumn) Index() int {
 	return dc.index
 }
 
+// acceptsValue determines if the value can be held by the DataColumn, i.e., it is
+// nil or its Go type is the one that is associated with the DataType of the column.
+//
+//gocyclo:ignore
+func (dc *DataColumn) acceptsValue(value interface{}) bool {
+	switch value.(type) {
+	case nil:
+		return true
+	case string:
+		return dc.dataType == DataType.String
+	case bool:
+		return dc.dataType == DataType.Boolean
+	case time.Time:
+		return dc.dataType == DataType.DateTime
+	case float32:
+		return dc.dataType == DataType.Single
+	case float64:
+		return dc.dataType == DataType.Double
+	case decimal.Decimal:
+		return dc.dataType == DataType.Decimal
+	case guid.Guid:
+		return dc.dataType == DataType.Guid
+	case int8:
+		return dc.dataType == DataType.Int8
+	case int16:
+		return dc.dataType == DataType.Int16
+	case int32:
+		return dc.dataType == DataType.Int32
+	case int64:
+		return dc.dataType == DataType.Int64
+	case uint8:
+		return dc.dataType == DataType.UInt8
+	case uint16:
+		return dc.dataType == DataType.UInt16
+	case uint32:
+		return dc.dataType == DataType.UInt32
+	case uint64:
+		return dc.dataType == DataType.UInt64
+	default:
+		return false
+	}
+}
+
 // String gets a representation of the DataColumn as a string.
 func (dc *DataColumn) String() string {
 	dataType := dc.dataType.String()
diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 8f9a1f2..b54dbee 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -529,19 +529,25 @@ func (dr *DataRow) ValueByName(columnName string) (interface{}, error) {
 	return dr.Value(index)
 }
 
-// SetValue assigns the record value at the specified columnIndex.
+// SetValue assigns the record value at the specified columnIndex. An error will be returned if
+// value is neither nil nor of the Go type that is associated with the DataType of the column.
 func (dr *DataRow) SetValue(columnIndex int, value interface{}) error {
-	_, err := dr.validateColumnType(columnIndex, -1, false)
+	column, err := dr.validateColumnType(columnIndex, -1, false)
 
 	if err != nil {
 		return err
 	}
 
+	if !column.acceptsValue(value) {
+		return fmt.Errorf("cannot assign \"%T\" value to DataColumn \"%s\" for table \"%s\", column data type is \"%s\"", value, column.Name(), dr.parent.Name(), column.Type().String())
+	}
+
 	dr.storeValue(columnIndex, value)
 	return nil
 }
 
-// SetValueByName assigns the record value for the specified columnName.
+// SetValueByName assigns the record value for the specified columnName. An error will be returned if
+// value is neither nil nor of the Go type that is associated with the DataType of the column.
 func (dr *DataRow) SetValueByName(columnName string, value interface{}) error {
 	index, err := dr.getColumnIndex(columnName)
 
-- 
2.43.0


From 58aa12f109257c593ba4eee3532e9e4a22f6a5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:38 +0000
Subject: [PATCH 34/65] fix: allow concurrent evaluation of expressions

The row being evaluated was kept in the expression tree, so evaluating one tree
for two rows at the same time mixed up their values. The tree of a computed
column was kept in the values of the row when first read, so even two readers
of one row raced. Evaluation now uses its own copy of the tree state and the
parsed expression of a computed column is kept with the column.
---
 sttp/data/DataColumn.go     | 19 +++++++++++++++++++
 sttp/data/DataRow.go        | 16 ++++------------
 sttp/data/ExpressionTree.go |  6 ++++--
 3 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/sttp/data/DataColumn.go b/sttp/data/DataColumn.go
index e869157..d4a037f 100644
--- a/sttp/data/DataColumn.go
+++ b/sttp/data/DataColumn.go
@@ -25,6 +25,7 @@ package data
 
 import (
 	"fmt"
+	"sync/atomic"
 	"time"
 
 	"github.com/shopspring/decimal"
@@ -41,6 +42,7 @@ type DataColumn struct {
 	expression string
 	computed   bool
 	index      int
+	parsedTree atomic.Pointer[ExpressionTree]
 }
 
 func newDataColumn(parent *DataTable, name string, dataType DataTypeEnum, expression string) *DataColumn {
@@ -79,6 +81,23 @@ func (dc *DataColumn) Index() int {
 	return dc.index
 }
 
+// expressionTree gets the parsed expression of a computed DataColumn. Parsed
+// expression is shared by all rows, which may be read concurrently.
+func (dc *DataColumn) expressionTree() (*ExpressionTree, error) {
+	if expressionTree := dc.parsedTree.Load(); expressionTree != nil {
+		return expressionTree, nil
+	}
+
+	expressionTree, err := GenerateExpressionTree(dc.parent, dc.expression, true)
+
+	if err != nil {
+		return nil, err
+	}
+
+	dc.parsedTree.Store(expressionTree)
+	return expressionTree, nil
+}
+
 // acceptsValue determines if the value can be held by the DataColumn, i.e., it is
 // nil or its Go type is the one that is associated with the DataType of the column.
 //
diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index b54dbee..90c38b3 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -112,21 +112,13 @@ func (dr *DataRow) validateColumnType(columnIndex, targetType int, read bool) (*
 }
 
 func (dr *DataRow) expressionTree(column *DataColumn) (*ExpressionTree, error) {
-	columnIndex := column.Index()
+	expressionTree, err := column.expressionTree()
 
-	if dr.storedValue(columnIndex) == nil {
-		dataTable := column.Parent()
-		expressionTree, err := GenerateExpressionTree(dataTable, column.Expression(), true)
-
-		if err != nil {
-			return nil, errors.New("failed to parse expression defined for computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\": " + err.Error())
-		}
-
-		dr.storeValue(columnIndex, expressionTree)
-		return expressionTree, nil
+	if err != nil {
+		return nil, errors.New("failed to parse expression defined for computed DataColumn \"" + column.Name() + "\" for table \"" + dr.parent.Name() + "\": " + err.Error())
 	}
 
-	return dr.values[columnIndex].(*ExpressionTree), nil
+	return expressionTree, nil
 }
 
 func (dr *DataRow) getComputedValue(column *DataColumn) (interface{}, error) {
diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index feea2c1..e560a4b 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -164,8 +164,10 @@ func (et *ExpressionTree) SelectWhere(table *DataTable, predicate func(*ValueExp
 // there are no columns referenced in expression tree. An error will be returned if the expresssion
 // evaluation fails.
 func (et *ExpressionTree) Evaluate(dataRow *DataRow) (*ValueExpression, error) {
-	et.currentRow = dataRow
-	return et.evaluate(et.Root)
+	// Current row is tracked on a copy so that same tree can be evaluated concurrently
+	tree := *et
+	tree.currentRow = dataRow
+	return tree.evaluate(tree.Root)
 }
 
 func (et *ExpressionTree) evaluate(expression Expression) (*ValueExpression, error) {
-- 
2.43.0


From f38212c9e4a3862f7a2f7f042ea3c1229ab2d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:54 +0000
Subject: [PATCH 35/65] fix: report circular references of computed columns

Reading a computed column that refers to itself, directly or through another
computed column, recursed until the stack was exhausted, which ends the
process. Such a column can be part of metadata received from a publisher.
Reading it is an error now.
---
 sttp/data/DataColumn.go | 54 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/sttp/data/DataColumn.go b/sttp/data/DataColumn.go
index d4a037f..4ea2ae3 100644
--- a/sttp/data/DataColumn.go
+++ b/sttp/data/DataColumn.go
@@ -24,6 +24,7 @@
 package data
 
 import (
+	"errors"
 	"fmt"
 	"sync/atomic"
 	"time"
@@ -94,10 +95,63 @@ func (dc *DataColumn) expressionTree() (*ExpressionTree, error) {
 		return nil, err
 	}
 
+	if dc.isReferencedBy(expressionTree.Root, make(map[*DataColumn]bool)) {
+		return nil, errors.New("expression has a circular reference, value of the column depends on itself")
+	}
+
 	dc.parsedTree.Store(expressionTree)
 	return expressionTree, nil
 }
 
+// isReferencedBy determines if the expression needs the value of the DataColumn, directly
+// or through other computed columns. Computed columns already visited are not followed.
+func (dc *DataColumn) isReferencedBy(expression Expression, visited map[*DataColumn]bool) bool {
+	var operands []Expression
+
+	switch e := expression.(type) {
+	case *UnaryExpression:
+		operands = []Expression{e.Value()}
+	case *InListExpression:
+		operands = append([]Expression{e.Value()}, e.Arguments()...)
+	case *FunctionExpression:
+		operands = e.Arguments()
+	case *OperatorExpression:
+		operands = []Expression{e.LeftValue(), e.RightValue()}
+	case *ColumnExpression:
+		column := e.DataColumn()
+
+		if column == dc {
+			return true
+		}
+
+		if !column.computed || visited[column] {
+			return false
+		}
+
+		visited[column] = true
+		expressionTree := column.parsedTree.Load()
+
+		if expressionTree == nil {
+			var err error
+
+			// Column with an invalid expression has no value to depend on
+			if expressionTree, err = GenerateExpressionTree(column.parent, column.expression, true); err != nil {
+				return false
+			}
+		}
+
+		operands = []Expression{expressionTree.Root}
+	}
+
+	for _, operand := range operands {
+		if dc.isReferencedBy(operand, visited) {
+			return true
+		}
+	}
+
+	return false
+}
+
 // acceptsValue determines if the value can be held by the DataColumn, i.e., it is
 // nil or its Go type is the one that is associated with the DataType of the column.
 //
-- 
2.43.0


From 6300b6d0d38b1796eab09dea78b9c549e0603810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:42 +0000
Subject: [PATCH 36/65] fix: test first argument of IIf function

The second argument, i.e., the result for a true test, was evaluated as the
test itself. IIf then failed unless that result was a Boolean, and the actual
test had no effect.
---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index e560a4b..130c2ad 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -693,7 +693,7 @@ func (et *ExpressionTree) evaluateIIf(arguments []Expression) (*ValueExpression,
 	var testValue *ValueExpression
 	var err error
 
-	if testValue, err = et.evaluate(arguments[1]); err != nil {
+	if testValue, err = et.evaluate(arguments[0]); err != nil {
 		return nil, errors.New("failed while evaluating \"IIf\" function test value, first argument: " + err.Error())
 	}
 
-- 
2.43.0


From 0f112811347a71cf6b24b01492ff11d8d84297af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:44 +0000
Subject: [PATCH 37/65] fix: use exponent of Power function

The converted source value replaced the exponent, so Power(2, 8) was 4.
---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 130c2ad..7f3a0af 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2152,7 +2152,7 @@ func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*V
 		return nil, errors.New("failed while converting \"Power\" function source value, first argument, to \"" + valueType.String() + "\": " + err.Error())
 	}
 
-	if exponentValue, err = sourceValue.Convert(valueType); err != nil {
+	if exponentValue, err = exponentValue.Convert(valueType); err != nil {
 		return nil, errors.New("failed while converting \"Power\" function exponent value, second argument, to \"" + valueType.String() + "\": " + err.Error())
 	}
 
-- 
2.43.0


From 8b6d8d0d862c47c2e9f12494a0e182707606f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:08 +0000
Subject: [PATCH 38/65] fix: report decimal conversion of NaN and infinity

The decimal package panics for a value that is not finite. Such values occur in
measurements and result from expressions like Sqrt(-1).
---
 sttp/data/DataRow.go         | 4 ++++
 sttp/data/ValueExpression.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 90c38b3..0361f91 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -26,6 +26,7 @@ package data
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -335,6 +336,9 @@ func convertFromDouble(value float64, targetType DataTypeEnum) (interface{}, err
 	case DataType.Double:
 		return value, nil
 	case DataType.Decimal:
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return nil, errors.New("cannot convert non-finite \"Double\" expression value to \"" + targetType.String() + "\" column")
+		}
 		return decimal.NewFromFloat(value), nil
 	case DataType.Int8:
 		return int8(value), nil
diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index b9b401d..1ea356b 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -26,6 +26,7 @@ package data
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -515,6 +516,9 @@ func (ve *ValueExpression) convertFromDouble(targetValueType ExpressionValueType
 	case ExpressionValueType.Int64:
 		return newValueExpression(targetValueType, int64(value)), nil
 	case ExpressionValueType.Decimal:
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return nil, errors.New("cannot convert non-finite \"Double\" to \"Decimal\"")
+		}
 		return newValueExpression(targetValueType, decimal.NewFromFloat(value)), nil
 	case ExpressionValueType.Double:
 		return newValueExpression(targetValueType, value), nil
-- 
2.43.0


From 4e2c40ef9cdb500ac2c714fff439217533dc972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:11 +0000
Subject: [PATCH 39/65] fix: limit decimal calculations of Power function

The decimal package truncates a fractional exponent, so Power(16, 0.5) was 1.
With a large exponent it calculates every digit of the result, which may never
end, and zero with a negative exponent is a panic. Exact results are now only
calculated for integer exponents while they have a reasonable size, other
results are calculated with double precision like for the other types.
---
 sttp/data/ExpressionTree.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 7f3a0af..664ff41 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -40,6 +40,7 @@ import (
 
 var whitespace string = " \t\n\v\f\r\x85\xA0"
 var intSize = int(unsafe.Sizeof(uint(0)) * 8)
+var maxPowerSize = decimal.NewFromInt(8192) // Bits
 
 // ExpressionTree represents a tree of expressions for evaluation.
 type ExpressionTree struct {
@@ -2164,7 +2165,7 @@ func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*V
 	case ExpressionValueType.Int64:
 		return newValueExpression(ExpressionValueType.Int64, int64(math.Pow(float64(sourceValue.int64Value()), float64(exponentValue.int64Value())))), nil
 	case ExpressionValueType.Decimal:
-		return newValueExpression(ExpressionValueType.Decimal, sourceValue.decimalValue().Pow(exponentValue.decimalValue())), nil
+		return et.powerDecimal(sourceValue.decimalValue(), exponentValue.decimalValue())
 	case ExpressionValueType.Double:
 		return newValueExpression(ExpressionValueType.Double, math.Pow(sourceValue.doubleValue(), exponentValue.doubleValue())), nil
 	default:
@@ -2172,6 +2173,25 @@ func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*V
 	}
 }
 
+func (et *ExpressionTree) powerDecimal(source, exponent decimal.Decimal) (*ValueExpression, error) {
+	magnitude := exponent.Abs()
+	sourceSize := source.Coefficient().BitLen() + 4*abs(int(source.Exponent()))
+
+	// Exact result is only available for an integer exponent and its size increases with the exponent
+	if exponent.IsInteger() && !magnitude.GreaterThan(maxPowerSize) && magnitude.IntPart()*int64(sourceSize) <= maxPowerSize.IntPart() {
+		if source.IsZero() && exponent.IsNegative() {
+			return nil, errors.New("\"Power\" function cannot raise zero to a negative exponent")
+		}
+
+		return newValueExpression(ExpressionValueType.Decimal, source.Pow(exponent)), nil
+	}
+
+	sourceValue, _ := source.Float64()
+	exponentValue, _ := exponent.Float64()
+
+	return newValueExpression(ExpressionValueType.Double, math.Pow(sourceValue, exponentValue)).Convert(ExpressionValueType.Decimal)
+}
+
 func (et *ExpressionTree) regExMatch(regexValue, testValue *ValueExpression) (*ValueExpression, error) {
 	return et.evaluateRegEx("RegExMatch", regexValue, testValue, false)
 }
-- 
2.43.0


From 482bc2d0e039efd6bdbf3af54ff36061daef8cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:44 +0000
Subject: [PATCH 40/65] fix: convert boolean expression value to 32-bit integer

The value was kept as an int, reading it as the int32 it was declared to be
crashed, e.g., for True + 1.
---
 sttp/data/ValueExpression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index 1ea356b..bfc39f1 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -411,7 +411,7 @@ func (ve *ValueExpression) convertFromBoolean(targetValueType ExpressionValueTyp
 	case ExpressionValueType.Boolean:
 		return newValueExpression(targetValueType, value != 0), nil
 	case ExpressionValueType.Int32:
-		return newValueExpression(targetValueType, value), nil
+		return newValueExpression(targetValueType, int32(value)), nil
 	case ExpressionValueType.Int64:
 		return newValueExpression(targetValueType, int64(value)), nil
 	case ExpressionValueType.Decimal:
-- 
2.43.0


From 4be51bd79841cea63ca2c2f8aa1ee7fc557d22a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:47 +0000
Subject: [PATCH 41/65] fix: make null result of comparisons a boolean

A comparison with a Null operand had the type of the operands. A selection then
failed when it found a null value in a compared column, as the result was not a
Boolean, although a Null result is documented to be treated as False.
---
 sttp/data/ExpressionTree.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 664ff41..689eb47 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -358,7 +358,7 @@ func (et *ExpressionTree) evaluateInList(expression Expression) (*ValueExpressio
 
 	// If in list test value is Null, result is Null
 	if inListValue.IsNull() {
-		return NullValue(inListValue.ValueType()), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	hasNotKeyWord := inListExpression.HasNotKeyword()
@@ -2998,7 +2998,7 @@ func (et *ExpressionTree) bitwiseXorOp(leftValue, rightValue *ValueExpression, v
 func (et *ExpressionTree) lessThanOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3032,7 +3032,7 @@ func (et *ExpressionTree) lessThanOp(leftValue, rightValue *ValueExpression, val
 func (et *ExpressionTree) lessThanOrEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3068,7 +3068,7 @@ func (et *ExpressionTree) lessThanOrEqualOp(leftValue, rightValue *ValueExpressi
 func (et *ExpressionTree) greaterThanOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3102,7 +3102,7 @@ func (et *ExpressionTree) greaterThanOp(leftValue, rightValue *ValueExpression,
 func (et *ExpressionTree) greaterThanOrEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3138,7 +3138,7 @@ func (et *ExpressionTree) greaterThanOrEqualOp(leftValue, rightValue *ValueExpre
 func (et *ExpressionTree) equalOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum, exactMatch bool) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
@@ -3175,7 +3175,7 @@ func (et *ExpressionTree) equalOp(leftValue, rightValue *ValueExpression, valueT
 func (et *ExpressionTree) notEqualOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum, exactMatch bool) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
-		return NullValue(valueType), nil
+		return NullValue(ExpressionValueType.Boolean), nil
 	}
 
 	if err := convertOperands(&leftValue, &rightValue, valueType); err != nil {
-- 
2.43.0


From 2468d8564af336d5c028a5b4ecb7315f5aa632fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:50 +0000
Subject: [PATCH 42/65] fix: report division by zero in expressions

Division and modulus of integers and decimals crashed for a right operand of
zero, which may be the value of a column.
---
 sttp/data/ExpressionTree.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 689eb47..05049ba 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2657,6 +2657,20 @@ func (et *ExpressionTree) multiplyOp(leftValue, rightValue *ValueExpression, val
 	}
 }
 
+// isZero determines if value is zero for types where division by zero has no result.
+func isZero(value *ValueExpression) bool {
+	switch value.ValueType() {
+	case ExpressionValueType.Int32:
+		return value.int32Value() == 0
+	case ExpressionValueType.Int64:
+		return value.int64Value() == 0
+	case ExpressionValueType.Decimal:
+		return value.decimalValue().IsZero()
+	default:
+		return false
+	}
+}
+
 func (et *ExpressionTree) divideOp(leftValue, rightValue *ValueExpression, valueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	// If left or right value is Null, result is Null
 	if leftValue.IsNull() || rightValue.IsNull() {
@@ -2667,6 +2681,10 @@ func (et *ExpressionTree) divideOp(leftValue, rightValue *ValueExpression, value
 		return nil, errors.New("division \"/\" operator " + err.Error())
 	}
 
+	if isZero(rightValue) {
+		return nil, errors.New("division \"/\" operator failed, right operand is zero")
+	}
+
 	switch valueType {
 	case ExpressionValueType.Int32:
 		return newValueExpression(ExpressionValueType.Int32, int32(leftValue.int32Value()/rightValue.int32Value())), nil
@@ -2701,6 +2719,10 @@ func (et *ExpressionTree) modulusOp(leftValue, rightValue *ValueExpression, valu
 		return nil, errors.New("modulus \"%\" operator " + err.Error())
 	}
 
+	if isZero(rightValue) {
+		return nil, errors.New("modulus \"%\" operator failed, right operand is zero")
+	}
+
 	switch valueType {
 	case ExpressionValueType.Int32:
 		return newValueExpression(ExpressionValueType.Int32, int32(leftValue.int32Value()%rightValue.int32Value())), nil
-- 
2.43.0


From 57dc3190cd5cb54fe3f13ff725a2ef0670ad9dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:53 +0000
Subject: [PATCH 43/65] fix: keep sign when shifting 64-bit integers right

Shifting a negative 32-bit integer keeps its sign, the same shift of a negative
64-bit integer resulted in a large positive number.
---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 05049ba..868338b 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2897,7 +2897,7 @@ func (et *ExpressionTree) bitShiftRightOp(leftValue, rightValue *ValueExpression
 		if shiftAmount < 0 {
 			shiftAmount = 64 - (abs(shiftAmount) % 64)
 		}
-		return newValueExpression(ExpressionValueType.Int64, int64(uint64(leftValue.int64Value())>>shiftAmount)), nil
+		return newValueExpression(ExpressionValueType.Int64, leftValue.int64Value()>>shiftAmount), nil
 	case ExpressionValueType.Decimal:
 		fallthrough
 	case ExpressionValueType.Double:
-- 
2.43.0


From b054c66dac147047b06a0600b2ee3dccebe1e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:56 +0000
Subject: [PATCH 44/65] fix: use literal text for case-insensitive Replace
 function

Dollar signs in the replacement were expanded as references to groups of the
regular expression that is used to find the text.
---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 868338b..6c5949f 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2283,7 +2283,7 @@ func (et *ExpressionTree) replace(sourceValue, testValue, replaceValue, ignoreCa
 			return nil, errors.New("failed while compiling \"Replace\" function case-insensitive RegEx replace expression for test value, second argument: " + err.Error())
 		}
 
-		return newValueExpression(ExpressionValueType.String, regex.ReplaceAllString(sourceValue.stringValue(), replaceValue.stringValue())), nil
+		return newValueExpression(ExpressionValueType.String, regex.ReplaceAllLiteralString(sourceValue.stringValue(), replaceValue.stringValue())), nil
 	}
 
 	return newValueExpression(ExpressionValueType.String, strings.ReplaceAll(sourceValue.stringValue(), testValue.stringValue(), replaceValue.stringValue())), nil
-- 
2.43.0


From da2c7debe94cfaa4708db6eb17d423bde31668a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:15:59 +0000
Subject: [PATCH 45/65] fix: avoid overflow of SubStr function length

Adding a large length to the index became negative and slicing the text with it
crashed.
---
 sttp/data/ExpressionTree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 6c5949f..332ec6c 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2543,7 +2543,7 @@ func (et *ExpressionTree) subStr(sourceValue, indexValue, lengthValue *ValueExpr
 			return EmptyString, nil
 		}
 
-		if index+length < len(sourceText) {
+		if length < len(sourceText)-index {
 			return newValueExpression(ExpressionValueType.String, sourceText[index:index+length]), nil
 		}
 	}
-- 
2.43.0


From 2074db627772bce5d14e8c1c151c1b380bbe3e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:02 +0000
Subject: [PATCH 46/65] fix: trim same white space on one side as on both

TrimLeft and TrimRight used a set with two bytes that are not characters in
UTF-8. These removed replacement characters instead of the white space that was
meant, and that Trim removes.
---
 sttp/data/ExpressionTree.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 332ec6c..9e12500 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -31,6 +31,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode"
 	"unsafe"
 
 	"github.com/araddon/dateparse"
@@ -38,7 +39,6 @@ import (
 	"github.com/sttp/goapi/sttp/guid"
 )
 
-var whitespace string = " \t\n\v\f\r\x85\xA0"
 var intSize = int(unsafe.Sizeof(uint(0)) * 8)
 var maxPowerSize = decimal.NewFromInt(8192) // Bits
 
@@ -2574,7 +2574,7 @@ func (et *ExpressionTree) trimLeft(sourceValue *ValueExpression) (*ValueExpressi
 		return NullValue(ExpressionValueType.String), nil
 	}
 
-	return newValueExpression(ExpressionValueType.String, strings.TrimLeft(sourceValue.stringValue(), whitespace)), nil
+	return newValueExpression(ExpressionValueType.String, strings.TrimLeftFunc(sourceValue.stringValue(), unicode.IsSpace)), nil
 }
 
 func (et *ExpressionTree) trimRight(sourceValue *ValueExpression) (*ValueExpression, error) {
@@ -2587,7 +2587,7 @@ func (et *ExpressionTree) trimRight(sourceValue *ValueExpression) (*ValueExpress
 		return NullValue(ExpressionValueType.String), nil
 	}
 
-	return newValueExpression(ExpressionValueType.String, strings.TrimRight(sourceValue.stringValue(), whitespace)), nil
+	return newValueExpression(ExpressionValueType.String, strings.TrimRightFunc(sourceValue.stringValue(), unicode.IsSpace)), nil
 }
 
 func (et *ExpressionTree) upper(sourceValue *ValueExpression) (*ValueExpression, error) {
-- 
2.43.0


From 6cc2cfbe8a42201ddc21e2de292d947869882a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:32 +0000
Subject: [PATCH 47/65] fix: find first value of Split function

An occurrence of the delimiter at the start of the text was taken for a missing
one, and text without the delimiter had no values at all. The last value could
be returned for an index out of range. An index out of range now results in
Null as documented. NthIndexOf crashed when searching an empty test value past
the end of the text.
---
 sttp/data/ExpressionTree.go | 43 +++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 9e12500..7a68c56 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -2374,7 +2374,7 @@ func (et *ExpressionTree) split(sourceValue, delimiterValue, indexValue, ignoreC
 	}
 
 	if result == nil {
-		return EmptyString, nil
+		return NullValue(ExpressionValueType.String), nil
 	}
 
 	return newValueExpression(ExpressionValueType.String, sourceValue.stringValue()[result[0]:result[1]]), nil
@@ -3362,42 +3362,43 @@ func (et *ExpressionTree) orOp(leftValue, rightValue *ValueExpression) (*ValueEx
 	return newValueExpression(ExpressionValueType.Boolean, leftValue.booleanValue() || rightValue.booleanValue()), nil
 }
 
-// https://play.golang.org/p/-zlKH7mfboa
+// findNthIndex gets the zero-based index of the zero-based Nth occurrence of test in source, or -1 if not found.
 func findNthIndex(source, test string, index int) int {
-	var result int
+	offset := 0
 
-	for i := 0; i < index+1; i++ {
-		location := strings.Index(source, test)
+	for i := 0; i <= index && offset <= len(source); i++ {
+		location := strings.Index(source[offset:], test)
 
 		if location == -1 {
-			result = 0
 			break
 		}
 
-		location++
-		result += location
-		source = source[location:]
+		if i == index {
+			return offset + location
+		}
+
+		offset += location + 1
 	}
 
-	return result - 1
+	return -1
 }
 
-// https://play.golang.org/p/_7nc06CqjKi
+// splitNthIndex gets the start and end of the zero-based Nth value in source split by test, or nil if out of range.
 func splitNthIndex(source, test string, index int) []int {
-	firstIndex := findNthIndex(source, test, index-1)
-	secondIndex := findNthIndex(source, test, index)
-
-	if firstIndex <= 0 && secondIndex <= 0 {
+	if index < 0 {
 		return nil
 	}
 
-	if firstIndex <= 0 {
-		return []int{0, secondIndex}
-	}
+	start := 0
+
+	for _, value := range strings.Split(source, test) {
+		if index == 0 {
+			return []int{start, start + len(value)}
+		}
 
-	if secondIndex <= 0 {
-		return []int{firstIndex + len(test), len(source)}
+		start += len(value) + len(test)
+		index--
 	}
 
-	return []int{firstIndex + len(test), secondIndex}
+	return nil
 }
-- 
2.43.0


From 3125866ea50a218114522fa8e7c4a0efcf0c8b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:35 +0000
Subject: [PATCH 48/65] fix: find positions in original text when ignoring case

Some characters have an upper-case representation of another length. IndexOf,
LastIndexOf, NthIndexOf and Split searched the upper-case text and used its
positions for the original text. Split crashed when these were out of range.
---
 sttp/data/ExpressionTree.go | 44 +++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/sttp/data/ExpressionTree.go b/sttp/data/ExpressionTree.go
index 7a68c56..6760aa6 100644
--- a/sttp/data/ExpressionTree.go
+++ b/sttp/data/ExpressionTree.go
@@ -32,6 +32,7 @@ import (
 	"strings"
 	"time"
 	"unicode"
+	"unicode/utf8"
 	"unsafe"
 
 	"github.com/araddon/dateparse"
@@ -1860,7 +1861,7 @@ func (et *ExpressionTree) indexOf(sourceValue, testValue, ignoreCase *ValueExpre
 	}
 
 	if ignoreCase.booleanValue() {
-		return newValueExpression(ExpressionValueType.Int32, int32(strings.Index(strings.ToUpper(sourceValue.stringValue()), strings.ToUpper(testValue.stringValue())))), nil
+		return newValueExpression(ExpressionValueType.Int32, int32(indexIgnoreCase(sourceValue.stringValue(), testValue.stringValue(), strings.Index))), nil
 	}
 
 	return newValueExpression(ExpressionValueType.Int32, int32(strings.Index(sourceValue.stringValue(), testValue.stringValue()))), nil
@@ -1980,7 +1981,7 @@ func (et *ExpressionTree) lastIndexOf(sourceValue, testValue, ignoreCase *ValueE
 	}
 
 	if ignoreCase.booleanValue() {
-		return newValueExpression(ExpressionValueType.Int32, int32(strings.LastIndex(strings.ToUpper(sourceValue.stringValue()), strings.ToUpper(testValue.stringValue())))), nil
+		return newValueExpression(ExpressionValueType.Int32, int32(indexIgnoreCase(sourceValue.stringValue(), testValue.stringValue(), strings.LastIndex))), nil
 	}
 
 	return newValueExpression(ExpressionValueType.Int32, int32(strings.LastIndex(sourceValue.stringValue(), testValue.stringValue()))), nil
@@ -2116,17 +2117,15 @@ func (et *ExpressionTree) nthIndexOf(sourceValue, testValue, indexValue, ignoreC
 		return nil, errors.New("failed while converting \"NthIndexOf\" function optional ignore case value, fourth argument, to \"Boolean\": " + err.Error())
 	}
 
-	var source, test string
+	findIndex := func(source, test string) int {
+		return findNthIndex(source, test, indexValue.integerValue(-1))
+	}
 
 	if ignoreCase.booleanValue() {
-		source = strings.ToUpper(sourceValue.stringValue())
-		test = strings.ToUpper(testValue.stringValue())
-	} else {
-		source = sourceValue.stringValue()
-		test = testValue.stringValue()
+		return newValueExpression(ExpressionValueType.Int32, int32(indexIgnoreCase(sourceValue.stringValue(), testValue.stringValue(), findIndex))), nil
 	}
 
-	return newValueExpression(ExpressionValueType.Int32, int32(findNthIndex(source, test, indexValue.integerValue(-1)))), nil
+	return newValueExpression(ExpressionValueType.Int32, int32(findIndex(sourceValue.stringValue(), testValue.stringValue()))), nil
 }
 
 func (et *ExpressionTree) power(sourceValue, exponentValue *ValueExpression) (*ValueExpression, error) {
@@ -2369,6 +2368,10 @@ func (et *ExpressionTree) split(sourceValue, delimiterValue, indexValue, ignoreC
 
 	if ignoreCase.booleanValue() {
 		result = splitNthIndex(strings.ToUpper(sourceValue.stringValue()), strings.ToUpper(delimiterValue.stringValue()), index)
+
+		for i := range result {
+			result[i] = upperCaseOffset(sourceValue.stringValue(), result[i])
+		}
 	} else {
 		result = splitNthIndex(sourceValue.stringValue(), delimiterValue.stringValue(), index)
 	}
@@ -3362,6 +3365,29 @@ func (et *ExpressionTree) orOp(leftValue, rightValue *ValueExpression) (*ValueEx
 	return newValueExpression(ExpressionValueType.Boolean, leftValue.booleanValue() || rightValue.booleanValue()), nil
 }
 
+// indexIgnoreCase gets the index in source for the index function applied to upper-case representations of source and test.
+func indexIgnoreCase(source, test string, index func(source, test string) int) int {
+	return upperCaseOffset(source, index(strings.ToUpper(source), strings.ToUpper(test)))
+}
+
+// upperCaseOffset gets the offset in source for the offset in its upper-case representation. These are
+// not the same where the upper-case representation of a character is encoded with another length.
+func upperCaseOffset(source string, offset int) int {
+	if offset < 0 {
+		return offset
+	}
+
+	for i, char := range source {
+		if offset <= 0 {
+			return i
+		}
+
+		offset -= utf8.RuneLen(unicode.ToUpper(char))
+	}
+
+	return len(source)
+}
+
 // findNthIndex gets the zero-based index of the zero-based Nth occurrence of test in source, or -1 if not found.
 func findNthIndex(source, test string, index int) int {
 	offset := 0
-- 
2.43.0


From 5b3132567f4c4fcf8b22553bea7de1e74b63dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:31 +0000
Subject: [PATCH 49/65] fix: report syntax errors in filter expressions

The parser recovers from a syntax error, e.g., by skipping the remainder of the
expression. The error was only reported to an optional callback and the part
that had been understood was evaluated as if nothing happened, so "A = 1 AN B = 2"
selected all rows where A is 1.
---
 sttp/data/CallbackErrorListener.go  | 12 +++++++++++-
 sttp/data/FilterExpressionParser.go |  4 +++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/sttp/data/CallbackErrorListener.go b/sttp/data/CallbackErrorListener.go
index 6f0bc47..dfaf671 100644
--- a/sttp/data/CallbackErrorListener.go
+++ b/sttp/data/CallbackErrorListener.go
@@ -23,7 +23,11 @@
 
 package data
 
-import "github.com/antlr/antlr4/runtime/Go/antlr"
+import (
+	"fmt"
+
+	"github.com/antlr/antlr4/runtime/Go/antlr"
+)
 
 // CallbackErrorListener defines a implementation of an ANTLR error listener
 // that reports any parsing exceptions to a user defined callback.
@@ -32,6 +36,8 @@ type CallbackErrorListener struct {
 
 	// ParsingExceptionCallback defines a callback for reporting ANTLR parsing exceptions.
 	ParsingExceptionCallback func(message string)
+
+	syntaxError error
 }
 
 // NewCallbackErrorListener creates a new NewCallbackErrorListener.
@@ -43,6 +49,10 @@ func NewCallbackErrorListener() *CallbackErrorListener {
 
 // SyntaxError is called when ANTLR parser encounters a syntax error.
 func (cel *CallbackErrorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymbol interface{}, line, column int, msg string, e antlr.RecognitionException) {
+	if cel.syntaxError == nil {
+		cel.syntaxError = fmt.Errorf("syntax error at line %d, column %d: %s", line, column, msg)
+	}
+
 	if cel.ParsingExceptionCallback == nil {
 		return
 	}
diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 8196cc4..ddfaec0 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -300,7 +300,9 @@ func (fep *FilterExpressionParser) visitParseTreeNodes() (err error) {
 	parseTree := fep.parser.Parse()
 	walker.Walk(fep, parseTree)
 
-	return err
+	// Parser recovers from a syntax error by skipping parts of the expression, the result
+	// would not be the one that was asked for
+	return fep.errorListener.syntaxError
 }
 
 func (fep *FilterExpressionParser) initializeSetOperations() {
-- 
2.43.0


From f627cb7144fba5e2fa15e1ca245dedeed1e75fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:03 +0000
Subject: [PATCH 50/65] fix: allow filter expression to be evaluated again

Parsing started where the previous one ended. Evaluating a filter expression a
second time, or after getting its expression trees, found nothing. Getting the
expression trees again after parsing had failed returned an incomplete result
without an error.
---
 sttp/data/FilterExpressionParser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index ddfaec0..3b88c4f 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -293,8 +293,16 @@ func (fep *FilterExpressionParser) visitParseTreeNodes() (err error) {
 				err = errors.New("unknown panic")
 			}
 		}
+
+		if err != nil {
+			fep.expressionTrees = make([]*ExpressionTree, 0)
+		}
 	}()
 
+	// Expression may have been parsed before, start over
+	fep.tokens.Seek(0)
+	fep.errorListener.syntaxError = nil
+
 	// Create a parse tree and start visiting listener methods
 	walker := antlr.NewParseTreeWalker()
 	parseTree := fep.parser.Parse()
-- 
2.43.0


From 3ca5eebd1dd45a3e85cf2c4800d473227a5ca405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:05 +0000
Subject: [PATCH 51/65] fix: compare case in ordering terms only when requested

The modifier for an exact match had the opposite effect in an ORDER BY clause of
the one it has for other operators, and that is documented.
---
 sttp/data/FilterExpressionParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 3b88c4f..91b61a3 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -482,7 +482,7 @@ func (fep *FilterExpressionParser) EnterFilterStatement(context *parser.FilterSt
 			fep.activeExpressionTree.OrderByTerms = append(fep.activeExpressionTree.OrderByTerms, &OrderByTerm{
 				Column:     orderByColumn,
 				Ascending:  orderingTermContext.K_DESC() == nil,
-				ExactMatch: orderingTermContext.ExactMatchModifier() == nil,
+				ExactMatch: orderingTermContext.ExactMatchModifier() != nil,
 			})
 		}
 	}
-- 
2.43.0


From 3daf2c8f3388c0833e793719cd16dfba72991508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:29 +0000
Subject: [PATCH 52/65] fix: find table ID fields regardless of case

Table names are not case-sensitive, except for the lookup of the ID fields of a
table. Selecting signal IDs failed when the name of the primary table was not
given in the same case as in the data set.
---
 sttp/data/FilterExpressionParser.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index 91b61a3..a39429b 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -192,6 +192,22 @@ func (fep *FilterExpressionParser) Table(tableName string) (*DataTable, error) {
 	return table, nil
 }
 
+// tableIDFields gets the ID fields for the specified tableName if defined; otherwise, nil is
+// returned. As with other table name lookups, this lookup is case-insensitive.
+func (fep *FilterExpressionParser) tableIDFields(tableName string) *TableIDFields {
+	if tableIDFields, ok := fep.TableIDFields[tableName]; ok {
+		return tableIDFields
+	}
+
+	for name, tableIDFields := range fep.TableIDFields {
+		if strings.EqualFold(name, tableName) {
+			return tableIDFields
+		}
+	}
+
+	return nil
+}
+
 // Evaluate parses each statement in the filter expression and tracks the results. Filter expressions can contain multiple statements,
 // separated by semi-colons, where each statement results in a unique expression tree; this function returns the combined results of each
 // encountered filter expression statement, yielding all filtered rows and/or signal IDs that match the target filter expression.
@@ -258,7 +274,7 @@ func (fep *FilterExpressionParser) Evaluate(applyLimit bool, applySort bool) err
 		signalIDColumnIndex := -1
 
 		if fep.TrackFilteredSignalIDs {
-			primaryTableIDFields := fep.TableIDFields[table.Name()]
+			primaryTableIDFields := fep.tableIDFields(table.Name())
 
 			if primaryTableIDFields == nil {
 				return errors.New("failed to find ID fields record for table \"" + table.Name() + "\"")
@@ -539,9 +555,9 @@ func (fep *FilterExpressionParser) ExitIdentifierStatement(context *parser.Ident
 		return
 	}
 
-	primaryTableIDFields, ok := fep.TableIDFields[fep.PrimaryTableName]
+	primaryTableIDFields := fep.tableIDFields(fep.PrimaryTableName)
 
-	if !ok || primaryTableIDFields == nil {
+	if primaryTableIDFields == nil {
 		return
 	}
 
-- 
2.43.0


From 8632bc9cd38b69c569dbad86b3b07706dee9e89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:32 +0000
Subject: [PATCH 53/65] fix: return no rows for a limit of zero

RowsWhere returned the first matching row when the limit was zero.
---
 sttp/data/DataTable.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sttp/data/DataTable.go b/sttp/data/DataTable.go
index 4b5209d..d65025e 100644
--- a/sttp/data/DataTable.go
+++ b/sttp/data/DataTable.go
@@ -156,6 +156,10 @@ func (dt *DataTable) RowsWhere(predicate func(*DataRow) bool, limit int) []*Data
 	count := 0
 
 	for i := 0; i < len(dt.rows); i++ {
+		if limit > -1 && count >= limit {
+			break
+		}
+
 		dataRow := dt.rows[i]
 
 		if dataRow == nil {
@@ -165,10 +169,6 @@ func (dt *DataTable) RowsWhere(predicate func(*DataRow) bool, limit int) []*Data
 		if predicate(dataRow) {
 			matchingRows = append(matchingRows, dataRow)
 			count++
-
-			if limit > -1 && count >= limit {
-				break
-			}
 		}
 	}
 
-- 
2.43.0


From b2670d86fe7cd6ff1ded562ba29a11986c8aee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:44 +0000
Subject: [PATCH 54/65] fix: limit exponent of decimal values in text

A few characters, e.g., 1e999999999, made a decimal value where the simplest
operation calculates a billion digits. Text like this may be part of metadata
received from a publisher. It is treated like other text that is not a number.
---
 sttp/data/DataRow.go                |  2 +-
 sttp/data/DataSet.go                |  3 +--
 sttp/data/FilterExpressionParser.go |  2 +-
 sttp/data/ValueExpression.go        | 25 ++++++++++++++++++++++---
 4 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/sttp/data/DataRow.go b/sttp/data/DataRow.go
index 0361f91..5ca597f 100644
--- a/sttp/data/DataRow.go
+++ b/sttp/data/DataRow.go
@@ -381,7 +381,7 @@ func convertFromString(value string, targetType DataTypeEnum) (interface{}, erro
 	case DataType.Double:
 		return strconv.ParseFloat(value, 64)
 	case DataType.Decimal:
-		return decimal.NewFromString(value)
+		return parseDecimal(value)
 	case DataType.Guid:
 		return guid.Parse(value)
 	case DataType.Int8:
diff --git a/sttp/data/DataSet.go b/sttp/data/DataSet.go
index e062f89..f2ce03a 100644
--- a/sttp/data/DataSet.go
+++ b/sttp/data/DataSet.go
@@ -29,7 +29,6 @@ import (
 	"strings"
 	"time"
 
-	"github.com/shopspring/decimal"
 	"github.com/sttp/goapi/sttp/guid"
 	"github.com/sttp/goapi/sttp/xml"
 )
@@ -309,7 +308,7 @@ func (ds *DataSet) loadRecords(root *xml.XmlNode) {
 					f64, _ := strconv.ParseFloat(value, 64)
 					dataRow.SetValue(columnIndex, f64)
 				case DataType.Decimal:
-					d, _ := decimal.NewFromString(value)
+					d, _ := parseDecimal(value)
 					dataRow.SetValue(columnIndex, d)
 				case DataType.Guid:
 					g, _ := guid.Parse(value)
diff --git a/sttp/data/FilterExpressionParser.go b/sttp/data/FilterExpressionParser.go
index a39429b..83a722e 100644
--- a/sttp/data/FilterExpressionParser.go
+++ b/sttp/data/FilterExpressionParser.go
@@ -1130,7 +1130,7 @@ func (fep *FilterExpressionParser) ExitLiteralValue(context *parser.LiteralValue
 }
 
 func parseNumericLiteral(literal string) *ValueExpression {
-	if d, err := decimal.NewFromString(literal); err == nil {
+	if d, err := parseDecimal(literal); err == nil {
 		return newValueExpression(ExpressionValueType.Decimal, d)
 	}
 
diff --git a/sttp/data/ValueExpression.go b/sttp/data/ValueExpression.go
index bfc39f1..22871b7 100644
--- a/sttp/data/ValueExpression.go
+++ b/sttp/data/ValueExpression.go
@@ -533,6 +533,25 @@ func (ve *ValueExpression) convertFromDouble(targetValueType ExpressionValueType
 	}
 }
 
+// maxDecimalExponent is the largest exponent accepted in text for a decimal value.
+const maxDecimalExponent = 4096
+
+// parseDecimal gets the decimal value for the text. Operations on a decimal value use as many digits as its
+// exponent requires, which for a few characters of text could otherwise be more than can be processed.
+func parseDecimal(value string) (decimal.Decimal, error) {
+	result, err := decimal.NewFromString(value)
+
+	if err != nil {
+		return decimal.Zero, err
+	}
+
+	if exponent := int(result.Exponent()); exponent > maxDecimalExponent || exponent < -maxDecimalExponent-len(value) {
+		return decimal.Zero, errors.New("exponent of decimal value \"" + value + "\" is out of range")
+	}
+
+	return result, nil
+}
+
 func (ve *ValueExpression) convertFromString(targetValueType ExpressionValueTypeEnum) (*ValueExpression, error) {
 	value := ve.stringValue()
 
@@ -541,15 +560,15 @@ func (ve *ValueExpression) convertFromString(targetValueType ExpressionValueType
 		targetValue, _ := strconv.ParseBool(value)
 		return newValueExpression(targetValueType, targetValue), nil
 	case ExpressionValueType.Int32:
-		decimalValue, _ := decimal.NewFromString(value)
+		decimalValue, _ := parseDecimal(value)
 		targetValue := decimalValue.IntPart()
 		return newValueExpression(targetValueType, int32(targetValue)), nil
 	case ExpressionValueType.Int64:
-		decimalValue, _ := decimal.NewFromString(value)
+		decimalValue, _ := parseDecimal(value)
 		targetValue := decimalValue.IntPart()
 		return newValueExpression(targetValueType, targetValue), nil
 	case ExpressionValueType.Decimal:
-		targetValue, _ := decimal.NewFromString(value)
+		targetValue, _ := parseDecimal(value)
 		return newValueExpression(targetValueType, targetValue), nil
 	case ExpressionValueType.Double:
 		targetValue, _ := strconv.ParseFloat(value, 64)
-- 
2.43.0


From af045cce5ecc287c13fc2a7ae21a5120cc1aadea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:42:29 +0000
Subject: [PATCH 55/65] fix: Clear the offset mark of a compact measurement
 without base time

GetBinaryLength reports eight time bytes when there is no base time.
The mark left by an earlier use stayed set, so the state flags still
announced a time offset and the bytes could not be decoded.
---
 sttp/transport/CompactMeasurement.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sttp/transport/CompactMeasurement.go b/sttp/transport/CompactMeasurement.go
index db60e31..8151d8c 100644
--- a/sttp/transport/CompactMeasurement.go
+++ b/sttp/transport/CompactMeasurement.go
@@ -186,6 +186,7 @@ func (cm *CompactMeasurement) GetBinaryLength() uint32 {
 		}
 	} else {
 		// Use eight bytes for full fidelity time
+		cm.usingBaseTimeOffset = false
 		length += 8
 	}
 
-- 
2.43.0


From e044e8352fc2ec8a5b4749d4198448162055c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:17:43 +0000
Subject: [PATCH 56/65] fix: report subscribe failures

Subscriber dropped the error of a subscribe request, e.g. when the UDP data
channel port is in use, so a failed subscription went unnoticed.
---
 sttp/Subscriber.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sttp/Subscriber.go b/sttp/Subscriber.go
index 1109c19..fadcd41 100644
--- a/sttp/Subscriber.go
+++ b/sttp/Subscriber.go
@@ -471,7 +471,14 @@ func (sb *Subscriber) Subscribe(filterExpression string, settings *Settings) {
 	})
 
 	if ds.IsConnected() {
-		ds.Subscribe()
+		sb.startSubscription()
+	}
+}
+
+// startSubscription requests a subscription with current settings, any failure is reported.
+func (sb *Subscriber) startSubscription() {
+	if err := sb.dataSubscriber().Subscribe(); err != nil {
+		sb.ErrorMessage("Failed to subscribe: " + err.Error())
 	}
 }
 
@@ -549,7 +556,7 @@ func (sb *Subscriber) handleConnect() {
 	if config.AutoRequestMetadata {
 		sb.RequestMetadata()
 	} else if config.AutoSubscribe {
-		sb.dataSubscriber().Subscribe()
+		sb.startSubscription()
 	}
 }
 
@@ -585,7 +592,7 @@ func (sb *Subscriber) handleMetadataReceived(metadata []byte) {
 	config := sb.currentConfig()
 
 	if config.AutoRequestMetadata && config.AutoSubscribe {
-		sb.dataSubscriber().Subscribe()
+		sb.startSubscription()
 	}
 }
 
-- 
2.43.0


From 99e06b8608696236a19e9d1123da2f9946cfdee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:17:45 +0000
Subject: [PATCH 57/65] fix: close data channel when subscribing without UDP

A UDP subscription that was never confirmed left its port open when followed
by a subscription without UDP data channel.
---
 sttp/transport/DataSubscriber.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 9bdfeba..45b7595 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -602,6 +602,9 @@ func (ds *DataSubscriber) Subscribe() error {
 		parameterBuilder.WriteString(";dataChannel={localport=")
 		parameterBuilder.WriteString(udpPort)
 		parameterBuilder.WriteString("}")
+	} else {
+		// Make sure data channel for any prior, possibly unconfirmed, subscription request is closed
+		ds.closeDataChannel()
 	}
 
 	if len(subscription.StartTime) > 0 {
-- 
2.43.0


From 942740ba6d420054a4894296d79c9cd06604d6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:17:47 +0000
Subject: [PATCH 58/65] fix: mark connection as validated only once established

With protocol version 1 a failed connection attempt left the subscriber
reporting a validated connection.
---
 sttp/transport/DataSubscriber.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 45b7595..a920b80 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -407,9 +407,7 @@ func (ds *DataSubscriber) connect(hostName string, port uint16, autoReconnecting
 
 func (ds *DataSubscriber) setupConnection() {
 	ds.subscribed.UnSet()
-
-	// Versions prior to 2 provide no response to operational modes that could be validated
-	ds.validated.SetTo(ds.Version < 2)
+	ds.validated.UnSet()
 
 	atomic.StoreUint64(&ds.totalCommandChannelBytesReceived, 0)
 	atomic.StoreUint64(&ds.totalDataChannelBytesReceived, 0)
@@ -472,6 +470,9 @@ func (ds *DataSubscriber) establishConnection(connection net.Conn, listening boo
 		ds.runCommandChannelResponseThread(connection)
 	})
 
+	// Versions prior to 2 provide no response to operational modes that could be validated
+	ds.validated.SetTo(ds.Version < 2)
+
 	ds.connected.Set()
 	ds.commandChannelResponseThread.Start()
 	ds.connectionStateMutex.Unlock()
-- 
2.43.0


From 3e8c4c469f72dac0ac0289cf35441fd969e7810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:01:53 +0000
Subject: [PATCH 59/65] fix: start over when an XML document is loaded again

Loading a second document into the same XmlDocument added its nodes to
those of the first one and kept the depth of the deeper one.
---
 sttp/xml/XmlDocument.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sttp/xml/XmlDocument.go b/sttp/xml/XmlDocument.go
index 8a0c7f8..5dce747 100644
--- a/sttp/xml/XmlDocument.go
+++ b/sttp/xml/XmlDocument.go
@@ -96,6 +96,10 @@ func (xd *XmlDocument) LoadXml(data []byte) error {
 	buffer := bytes.NewBuffer(data)
 	decoder := xml.NewDecoder(buffer)
 
+	// Nodes would otherwise be added to those of any document loaded before
+	xd.Root = XmlNode{}
+	xd.maxLevel = 0
+
 	err := decoder.Decode(&xd.Root)
 
 	if err != nil {
-- 
2.43.0


From 13e05741397494785104d24373f767d79f7a7421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:08 +0000
Subject: [PATCH 60/65] fix: reject content outside of the XML root element

Text before or after the root element and further root elements were
ignored, so malformed documents were accepted.
---
 sttp/xml/XmlDocument.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/sttp/xml/XmlDocument.go b/sttp/xml/XmlDocument.go
index 5dce747..dd10337 100644
--- a/sttp/xml/XmlDocument.go
+++ b/sttp/xml/XmlDocument.go
@@ -26,6 +26,8 @@ package xml
 import (
 	"bytes"
 	"encoding/xml"
+	"errors"
+	"io"
 	"os"
 	"strings"
 )
@@ -100,12 +102,22 @@ func (xd *XmlDocument) LoadXml(data []byte) error {
 	xd.Root = XmlNode{}
 	xd.maxLevel = 0
 
-	err := decoder.Decode(&xd.Root)
+	start, err := nextElement(decoder)
 
 	if err != nil {
 		return err
 	}
 
+	if err = decoder.DecodeElement(&xd.Root, start); err != nil {
+		return err
+	}
+
+	if _, err = nextElement(decoder); err == nil {
+		return errors.New("XML document has more than one root element")
+	} else if err != io.EOF {
+		return err
+	}
+
 	xd.Root.Name = xd.Root.XMLName.Local
 	xd.Root.Namespace = xd.Root.XMLName.Space
 	xd.Root.Owner = xd
@@ -115,6 +127,27 @@ func (xd *XmlDocument) LoadXml(data []byte) error {
 	return nil
 }
 
+// nextElement finds the next element outside of the root element, where text is not allowed.
+// Returned error will be io.EOF when there is none.
+func nextElement(decoder *xml.Decoder) (*xml.StartElement, error) {
+	for {
+		token, err := decoder.Token()
+
+		if err != nil {
+			return nil, err
+		}
+
+		switch item := token.(type) {
+		case xml.StartElement:
+			return &item, nil
+		case xml.CharData:
+			if text := bytes.TrimPrefix(item, []byte("\uFEFF")); len(bytes.TrimSpace(text)) > 0 {
+				return nil, errors.New("XML document has text outside of its root element")
+			}
+		}
+	}
+}
+
 // LoadXmlFromFile loads the XmlDocument from the specified file name containing XML data.
 func (xd *XmlDocument) LoadXmlFromFile(fileName string) error {
 	data, err := os.ReadFile(fileName)
-- 
2.43.0


From 03c4a4038eaac08532950d127e6f8002cd8feaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:26 +0000
Subject: [PATCH 61/65] fix: reject repeated XML attributes

An element with the same attribute given twice is not well-formed, the
last value was used without notice.
---
 sttp/xml/XmlDocument.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sttp/xml/XmlDocument.go b/sttp/xml/XmlDocument.go
index dd10337..ce9ec34 100644
--- a/sttp/xml/XmlDocument.go
+++ b/sttp/xml/XmlDocument.go
@@ -84,6 +84,10 @@ func (xn *XmlNode) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	xn.AttributeNamespaces = make(map[string]string, len(start.Attr))
 
 	for _, v := range start.Attr {
+		if namespace, found := xn.AttributeNamespaces[v.Name.Local]; found && namespace == v.Name.Space {
+			return errors.New("XML element \"" + start.Name.Local + "\" has more than one attribute \"" + v.Name.Local + "\"")
+		}
+
 		xn.Attributes[v.Name.Local] = v.Value
 		xn.AttributeNamespaces[v.Name.Local] = v.Name.Space
 	}
-- 
2.43.0


From 6d2d5c645cae9a33117c4b44745c1d6c4a7ccb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:47:01 +0000
Subject: [PATCH 62/65] fix: release prior disconnect thread after waiting for
 it

Each disconnect waits for the one before it and kept a reference to its thread
for good. The threads formed a chain that grew with every connection, and none
of them could be released while the subscriber was in use.
---
 sttp/transport/DataSubscriber.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index a920b80..94ae175 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -794,6 +794,7 @@ func (ds *DataSubscriber) disconnect(joinThread bool, autoReconnecting bool, inc
 	disconnectThread = thread.NewThread(func() {
 		if priorThread != nil {
 			priorThread.Join()
+			priorThread = nil // Release, otherwise every disconnect would be kept by the one that follows
 		}
 
 		ds.runDisconnectThread(disconnectThread, autoReconnecting, includeListener)
-- 
2.43.0


From 3d4f2e5006fdd68fc47d3915d14b37e15da79bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:47:03 +0000
Subject: [PATCH 63/65] fix: do not wait for data channel thread when
 unsubscribing

Unsubscribing or subscribing again closed the UDP data channel and then waited
for its thread. When called from the measurement or buffer block receiver of that
channel, the thread waited for itself. The same happened when the receiver was
waiting for the caller, as a measurement reader does.

The socket is still closed before the call returns. The thread of the next data
channel and the disconnect sequence now wait for the earlier thread instead.
---
 sttp/transport/DataSubscriber.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/sttp/transport/DataSubscriber.go b/sttp/transport/DataSubscriber.go
index 94ae175..c5ec193 100644
--- a/sttp/transport/DataSubscriber.go
+++ b/sttp/transport/DataSubscriber.go
@@ -698,8 +698,16 @@ func (ds *DataSubscriber) openDataChannel(udpPort string) error {
 		return errors.New("failed to open UDP socket for port " + udpPort + ": subscriber connection or subscription has changed")
 	}
 
+	priorThread := ds.dataChannelResponseThread
+
 	ds.dataChannelSocket = dataChannelSocket
 	ds.dataChannelResponseThread = thread.NewThread(func() {
+		// Data is not processed until thread of prior data channel is complete
+		if priorThread != nil {
+			priorThread.Join()
+			priorThread = nil
+		}
+
 		ds.runDataChannelResponseThread(dataChannelSocket)
 	})
 	ds.dataChannelResponseThread.Start()
@@ -710,7 +718,6 @@ func (ds *DataSubscriber) openDataChannel(udpPort string) error {
 func (ds *DataSubscriber) closeDataChannel() {
 	ds.connectionStateMutex.Lock()
 	dataChannelSocket := ds.dataChannelSocket
-	dataChannelResponseThread := ds.dataChannelResponseThread
 	ds.dataChannelSocket = nil
 	ds.connectionStateMutex.Unlock()
 
@@ -719,10 +726,6 @@ func (ds *DataSubscriber) closeDataChannel() {
 			ds.dispatchErrorMessage("Exception while disconnecting data subscriber UDP data channel: " + err.Error())
 		}
 	}
-
-	if dataChannelResponseThread != nil {
-		dataChannelResponseThread.Join()
-	}
 }
 
 // Unsubscribe notifies the DataPublisher that a DataSubscriber would like to stop receiving streaming data.
@@ -840,8 +843,10 @@ func (ds *DataSubscriber) runDisconnectThread(disconnectThread *thread.Thread, a
 	ds.connectionStateMutex.Lock()
 	commandChannelSocket := ds.commandChannelSocket
 	commandChannelResponseThread := ds.commandChannelResponseThread
+	dataChannelResponseThread := ds.dataChannelResponseThread
 	ds.commandChannelSocket = nil
 	ds.commandChannelResponseThread = nil
+	ds.dataChannelResponseThread = nil
 	ds.connectionStateMutex.Unlock()
 
 	// Close sockets so that threads can shut down gracefully, joining with
@@ -858,6 +863,10 @@ func (ds *DataSubscriber) runDisconnectThread(disconnectThread *thread.Thread, a
 		commandChannelResponseThread.Join()
 	}
 
+	if dataChannelResponseThread != nil {
+		dataChannelResponseThread.Join()
+	}
+
 	// Response threads can change these states until they are complete
 	ds.validated.UnSet()
 	ds.subscribed.UnSet()
-- 
2.43.0


From 9852fbf5d02e1ef58923233243f06a9144b97584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:32:37 +0000
Subject: [PATCH 64/65] fix: match any attribute only when node has one

The predicate [@*] selected every node, also those without attributes.
---
 sttp/xml/XmlNode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index 86f4400..b02ccae 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -223,7 +223,7 @@ func (xn *XmlNode) attributeMatch(expr string) bool {
 
 	if parts[0] == "*" {
 		if len(parts) == 1 {
-			return true
+			return len(xn.Attributes) > 0
 		}
 
 		// Check if any attribute value matches
-- 
2.43.0


From a5c0e330c2474acc3d54850e9b756b6c982fa681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:35:17 +0000
Subject: [PATCH 65/65] fix: ignore namespace prefixes that are declared again

A prefix bound to another namespace between the declaring ancestor and the node was still returned for the node.
---
 sttp/xml/XmlNode.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sttp/xml/XmlNode.go b/sttp/xml/XmlNode.go
index b02ccae..dd28bdf 100644
--- a/sttp/xml/XmlNode.go
+++ b/sttp/xml/XmlNode.go
@@ -97,12 +97,21 @@ func (xn *XmlNode) InnerText() string {
 func (xn *XmlNode) Prefix() string {
 	namespace := xn.Namespace
 
-	// Namespace prefix may be declared by this node or any of its ancestors
+	declared := make(map[string]bool)
+
+	// Namespace prefix may be declared by this node or any of its ancestors,
+	// a prefix declared again closer to this node hides the one of an ancestor
 	for node := xn; node != nil; node = node.Parent {
 		for name, value := range node.Attributes {
-			if value == namespace && node.AttributeNamespaces[name] == "xmlns" {
+			if node.AttributeNamespaces[name] != "xmlns" || declared[name] {
+				continue
+			}
+
+			if value == namespace {
 				return name
 			}
+
+			declared[name] = true
 		}
 	}
 
-- 
2.43.0

