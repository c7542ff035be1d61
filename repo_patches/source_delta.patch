From 62f291495f560c9f55222021271e1ac82b11d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 01/32] fix: do not let a span with ID 0 displace the root of
 its trace

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 53dcc6f..b08d853 100644
--- a/store.go
+++ b/store.go
@@ -153,7 +153,7 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 	// If there's a temp root and we just collected the real
 	// root, fix up the tree. Or if we're the temp root's
 	// parents, set us up as the new temp root.
-	if isRoot, isTempRootParent := id.IsRoot(), root.Span.ID.Parent == id.Span; s != root && (isRoot || isTempRootParent) {
+	if isRoot, isTempRootParent := id.IsRoot(), !root.Span.ID.IsRoot() && root.Span.ID.Parent == id.Span; s != root && (isRoot || isTempRootParent) {
 		oldRoot := root
 		root = s
 		if ms.log {
-- 
2.43.0


From dca6957190fa5641cd32c66ae842639a5e09ab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 02/32] fix: keep spans whose parent IDs form a cycle reachable
 in their trace

---
 store.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/store.go b/store.go
index b08d853..780d86b 100644
--- a/store.go
+++ b/store.go
@@ -202,7 +202,7 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 // root.
 func (ms *MemoryStore) insert(root, t *Trace) {
 	p, present := ms.span[t.ID.Trace][t.ID.Parent]
-	if present {
+	if present && !t.ID.IsRoot() && !ms.hasAncestor(p, t) {
 		if ms.log {
 			log.Printf("Add %v as a child of parent %v", t.Span.ID, p.Span.ID)
 		}
@@ -217,6 +217,24 @@ func (ms *MemoryStore) insert(root, t *Trace) {
 	}
 }
 
+// hasAncestor tells whether following parent span IDs from t leads to a (or t
+// is a itself). In that case adding a to t would make a cycle that is not
+// reachable from the root.
+func (ms *MemoryStore) hasAncestor(t, a *Trace) bool {
+	spans := ms.span[a.ID.Trace]
+	for n := 0; n <= len(spans); n++ {
+		if t == a {
+			return true
+		}
+		p, present := spans[t.ID.Parent]
+		if !present || t.ID.IsRoot() {
+			return false
+		}
+		t = p
+	}
+	return false // t is below a cycle, but not on one through a
+}
+
 // reattachChildren moves temporary children of src to dst, if dst is
 // the node's parent.
 func (ms *MemoryStore) reattachChildren(dst, src *Trace) {
@@ -225,7 +243,7 @@ func (ms *MemoryStore) reattachChildren(dst, src *Trace) {
 	}
 	var sub2 []*Trace
 	for _, c := range src.Sub {
-		if c.Span.ID.Parent == dst.Span.ID.Span {
+		if c.Span.ID.Parent == dst.Span.ID.Span && !c.ID.IsRoot() && c != dst {
 			if ms.log {
 				log.Printf("Move %v from src %v to dst %v", c.Span.ID, src.Span.ID, dst.Span.ID)
 			}
-- 
2.43.0


From c196a11739899040b824830663b4fa9e0ef1521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 03/32] fix: return copies of stored traces, which Collect
 keeps modifying

---
 span.go  |  6 ++++++
 store.go |  2 +-
 trace.go | 13 +++++++++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/span.go b/span.go
index 0f960b7..ca2cb07 100644
--- a/span.go
+++ b/span.go
@@ -202,6 +202,12 @@ func (as Annotations) String() string {
 	return buf.String()
 }
 
+// copy returns a copy of the list that shares no memory with as except for the
+// annotations' values.
+func (as Annotations) copy() Annotations {
+	return append(Annotations(nil), as...)
+}
+
 // schemas returns a list of schema types in the annotations.
 func (as Annotations) schemas() []string {
 	var schemas []string
diff --git a/store.go b/store.go
index 780d86b..0003a08 100644
--- a/store.go
+++ b/store.go
@@ -270,7 +270,7 @@ func (ms *MemoryStore) traceNoLock(id ID) (*Trace, error) {
 	if !present {
 		return nil, ErrTraceNotFound
 	}
-	return t, nil
+	return t.copy(), nil
 }
 
 // Traces implements the Queryer interface.
diff --git a/trace.go b/trace.go
index e53533f..d235900 100644
--- a/trace.go
+++ b/trace.go
@@ -39,6 +39,19 @@ func (t *Trace) FindSpan(spanID ID) *Trace {
 	return nil
 }
 
+// copy returns a copy of the tree. Only the annotations' values, which are
+// never modified in place, are shared with t.
+func (t *Trace) copy() *Trace {
+	c := &Trace{Span: Span{ID: t.ID, Annotations: t.Annotations.copy()}}
+	if t.Sub != nil {
+		c.Sub = make([]*Trace, len(t.Sub))
+		for i, sub := range t.Sub {
+			c.Sub[i] = sub.copy()
+		}
+	}
+	return c
+}
+
 // TreeString returns the Trace as a formatted string that visually
 // represents the trace's tree.
 func (t *Trace) TreeString() string {
-- 
2.43.0


From eaac6f4bc94e5508a33a4b08dfacca4931a3d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 04/32] fix: do not keep and append to the caller's annotation
 slice

---
 collector.go | 3 ++-
 store.go     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/collector.go b/collector.go
index 26eb9cd..75d4016 100644
--- a/collector.go
+++ b/collector.go
@@ -192,7 +192,8 @@ func (cc *ChunkedCollector) Collect(span SpanID, anns ...Annotation) error {
 			cc.pendingBySpanID[span] = append(p, anns...)
 		}
 	} else {
-		cc.pendingBySpanID[span] = anns
+		// Copy the annotations, the slice is the caller's.
+		cc.pendingBySpanID[span] = Annotations(anns).copy()
 	}
 
 	if err := cc.lastErr; err != nil {
diff --git a/store.go b/store.go
index 0003a08..93f53a6 100644
--- a/store.go
+++ b/store.go
@@ -122,7 +122,8 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 	// Create or update span.
 	s, present := ms.span[id.Trace][id.Span]
 	if !present {
-		s = &Trace{Span: Span{ID: id, Annotations: as}}
+		// Copy the annotations, the slice is the caller's.
+		s = &Trace{Span: Span{ID: id, Annotations: Annotations(as).copy()}}
 		ms.span[id.Trace][id.Span] = s
 	} else {
 		if ms.log {
-- 
2.43.0


From 3b4257bed5ee0a29cc8ebc8ccab903c6acc584a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 05/32] fix: keep trace trees and span index consistent when
 loading a saved store

---
 store.go | 10 ++++++++++
 trace.go |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/store.go b/store.go
index 93f53a6..447605b 100644
--- a/store.go
+++ b/store.go
@@ -361,6 +361,16 @@ func (ms *MemoryStore) ReadFrom(r io.Reader) (int64, error) {
 	if err := gob.NewDecoder(r).Decode(&data); err != nil {
 		return 0, err
 	}
+	// Encoding does not preserve that the same spans are reachable from both
+	// maps, so derive the span map from the trace trees.
+	if data.Trace == nil {
+		data.Trace = map[ID]*Trace{}
+	}
+	data.Span = make(map[ID]map[ID]*Trace, len(data.Trace))
+	for id, t := range data.Trace {
+		data.Span[id] = map[ID]*Trace{}
+		t.addTo(data.Span[id])
+	}
 	ms.trace = data.Trace
 	ms.span = data.Span
 	return int64(len(ms.trace)), nil
diff --git a/trace.go b/trace.go
index d235900..0eeeadf 100644
--- a/trace.go
+++ b/trace.go
@@ -52,6 +52,14 @@ func (t *Trace) copy() *Trace {
 	return c
 }
 
+// addTo adds t and its descendants to a map from span ID to (sub)tree.
+func (t *Trace) addTo(spans map[ID]*Trace) {
+	spans[t.ID.Span] = t
+	for _, sub := range t.Sub {
+		sub.addTo(spans)
+	}
+}
+
 // TreeString returns the Trace as a formatted string that visually
 // represents the trace's tree.
 func (t *Trace) TreeString() string {
-- 
2.43.0


From 884902287ab04a2a56e29a463fe7f2863f3c040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 06/32] fix: write the temporary file of a save next to the
 target

A rename to another file system fails, so with os.TempDir on one saving never
worked. Failed saves also left the temporary file behind.
---
 store.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 447605b..fbc71b0 100644
--- a/store.go
+++ b/store.go
@@ -7,6 +7,7 @@ import (
 	"io/ioutil"
 	"log"
 	"os"
+	"path/filepath"
 	"sync"
 	"time"
 )
@@ -389,18 +390,23 @@ func PersistEvery(s PersistentStore, interval time.Duration, file string) error
 	for {
 		time.Sleep(interval)
 
-		f, err := ioutil.TempFile("", "appdash")
+		// A rename is only possible (and atomic) within a file system, so
+		// don't use the system's directory for temporary files.
+		f, err := ioutil.TempFile(filepath.Dir(file), "appdash")
 		if err != nil {
 			return err
 		}
 		if err := s.Write(f); err != nil {
 			f.Close()
+			os.Remove(f.Name())
 			return err
 		}
 		if err := f.Close(); err != nil {
+			os.Remove(f.Name())
 			return err
 		}
 		if err := os.Rename(f.Name(), file); err != nil {
+			os.Remove(f.Name())
 			return err
 		}
 	}
-- 
2.43.0


From 8b694dd0a6896532f000b69b1b24f2b2af626154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 07/32] fix: count a trace with ID 0, or whose deletion failed,
 in LimitStore

A ring slot holding trace ID 0 was taken for an empty one, so the store grew
beyond its capacity. A trace that could not be deleted was forgotten although
it still is in the ring and the underlying store, with the same effect.
---
 store.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/store.go b/store.go
index fbc71b0..6cbfb0a 100644
--- a/store.go
+++ b/store.go
@@ -530,14 +530,14 @@ func (ls *LimitStore) Collect(id SpanID, anns ...Annotation) error {
 		return ls.DeleteStore.Collect(id, anns...)
 	}
 
-	if nextInsert := ls.ring[ls.nextInsertIdx]; nextInsert != 0 {
-		// Store is at capacity (we know this because the next insert
-		// slot already contains trace); delete oldest.
+	if len(ls.traces) == len(ls.ring) {
+		// Store is at capacity (every slot, including the next insert
+		// slot, contains a trace); delete oldest.
 		old := ID(ls.ring[ls.nextInsertIdx])
-		delete(ls.traces, old)
 		if err := ls.DeleteStore.Delete(old); err != nil {
 			return err
 		}
+		delete(ls.traces, old)
 	}
 	ls.traces[id.Trace] = struct{}{}
 	ls.ring[ls.nextInsertIdx] = int64(id.Trace)
-- 
2.43.0


From 2d307ea9142021b7f4304dbf25d7d7417ddeccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 08/32] fix: do not evict spans collected after their trace was
 found to be old

Evicted traces were deleted from another goroutine, concurrently with the very
collection that triggered the eviction and with later ones of the same trace,
so new spans were deleted with the old ones. Spans of the trace that survived
were no longer tracked, and thus never evicted.
---
 store.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/store.go b/store.go
index 6cbfb0a..e250526 100644
--- a/store.go
+++ b/store.go
@@ -445,17 +445,20 @@ type RecentStore struct {
 // Collect calls the underlying store's Collect and records the time
 // that this trace was first seen.
 func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
+	// Hold the lock until the span is collected, or an eviction could delete
+	// the span's trace before it is collected and never again.
 	rs.mu.Lock()
+	defer rs.mu.Unlock()
 	if rs.created == nil {
 		rs.created = map[ID]int64{}
 	}
-	if _, present := rs.created[id.Trace]; !present {
-		rs.created[id.Trace] = time.Now().UnixNano()
-	}
+	// Evict before recording the trace, which may be an evicted one.
 	if time.Since(rs.lastEvicted) > rs.MinEvictAge {
 		rs.evictBefore(time.Now().Add(-1 * rs.MinEvictAge))
 	}
-	rs.mu.Unlock()
+	if _, present := rs.created[id.Trace]; !present {
+		rs.created[id.Trace] = time.Now().UnixNano()
+	}
 
 	return rs.DeleteStore.Collect(id, anns...)
 }
@@ -481,16 +484,15 @@ func (rs *RecentStore) evictBefore(t time.Time) {
 		log.Printf("RecentStore: deleting %d traces created before %s (age check took %s)", len(toEvict), t, time.Since(evictStart))
 	}
 
-	// Spawn separate goroutine so we don't hold the rs.mu lock.
-	go func() {
-		deleteStart := time.Now()
-		if err := rs.DeleteStore.Delete(toEvict...); err != nil {
-			log.Printf("RecentStore: failed to delete traces: %s", err)
-		}
-		if rs.Debug {
-			log.Printf("RecentStore: finished deleting %d traces created before %s (took %s)", len(toEvict), t, time.Since(deleteStart))
-		}
-	}()
+	// Delete while holding the rs.mu lock, so that no trace in toEvict is
+	// collected again before it is deleted.
+	deleteStart := time.Now()
+	if err := rs.DeleteStore.Delete(toEvict...); err != nil {
+		log.Printf("RecentStore: failed to delete traces: %s", err)
+	}
+	if rs.Debug {
+		log.Printf("RecentStore: finished deleting %d traces created before %s (took %s)", len(toEvict), t, time.Since(deleteStart))
+	}
 }
 
 // A LimitStore wraps another store and deletes the oldest trace when
-- 
2.43.0


From 0fc3dfbdf5c63f228f3eca3ff56ce2135e50d6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 09/32] fix: honour the options of a trace listing

MemoryStore and MultiQueryer ignored TraceIDs, which the web UI relies on to
show just the requested traces.
---
 multi.go | 2 +-
 store.go | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/multi.go b/multi.go
index d3dd791..399c9ca 100644
--- a/multi.go
+++ b/multi.go
@@ -59,7 +59,7 @@ func (mq *multiQueryer) Traces(opts TracesOpts) ([]*Trace, error) {
 		all   []*Trace
 	)
 	for _, q := range mq.queryers {
-		traces, err := q.Traces(TracesOpts{})
+		traces, err := q.Traces(opts)
 		if err != nil {
 			return nil, err
 		}
diff --git a/store.go b/store.go
index e250526..a993992 100644
--- a/store.go
+++ b/store.go
@@ -280,8 +280,15 @@ func (ms *MemoryStore) Traces(opts TracesOpts) ([]*Trace, error) {
 	ms.Lock()
 	defer ms.Unlock()
 
+	just := map[ID]bool{}
+	for _, id := range opts.TraceIDs {
+		just[id] = true
+	}
 	var ts []*Trace
 	for id := range ms.trace {
+		if len(just) > 0 && !just[id] {
+			continue
+		}
 		t, err := ms.traceNoLock(id)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 0cbe1dab711de1aee4b6bfaf79d1278e360a8af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:40 +0000
Subject: [PATCH 10/32] fix: let ChunkedCollector.Stop be called before the
 first Collect or twice

Both panicked.
---
 collector.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collector.go b/collector.go
index 75d4016..4310daa 100644
--- a/collector.go
+++ b/collector.go
@@ -269,7 +269,9 @@ func (cc *ChunkedCollector) start() {
 func (cc *ChunkedCollector) Stop() {
 	cc.mu.Lock()
 	defer cc.mu.Unlock()
-	close(cc.stopChan)
+	if cc.started && !cc.stopped {
+		close(cc.stopChan)
+	}
 	cc.stopped = true
 }
 
-- 
2.43.0


From 8f0a57634d165b138f034c1bd8ec86b5d33004ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 11/32] fix: accept collect packets without the optional parent
 span ID

---
 span.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/span.go b/span.go
index ca2cb07..9d2632a 100644
--- a/span.go
+++ b/span.go
@@ -73,7 +73,7 @@ func spanIDFromWire(w *wire.CollectPacket_SpanID) SpanID {
 	return SpanID{
 		Trace:  ID(*w.Trace),
 		Span:   ID(*w.Span),
-		Parent: ID(*w.Parent),
+		Parent: ID(w.GetParent()), // optional
 	}
 }
 
-- 
2.43.0


From 6edbb0ab575f9f128d0f3066831b1914fc08b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 12/32] fix: stop serving when the collector server's listener
 is closed

---
 collector.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collector.go b/collector.go
index 4310daa..729f445 100644
--- a/collector.go
+++ b/collector.go
@@ -425,12 +425,15 @@ type CollectorServer struct {
 	Trace bool
 }
 
-// Start starts the server.
+// Start starts the server. It returns when the listener has been closed.
 func (cs *CollectorServer) Start() {
 	for {
 		conn, err := cs.l.Accept()
 		if err != nil {
 			cs.log().Printf("Accept: %s", err)
+			if errors.Is(err, net.ErrClosed) {
+				return
+			}
 			continue
 		}
 
-- 
2.43.0


From 3e535d1ac632134cb43b1bffce0ad3c8eda735f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 13/32] fix: report messages that are too large for the
 collector server

---
 collector.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/collector.go b/collector.go
index 729f445..d622bec 100644
--- a/collector.go
+++ b/collector.go
@@ -12,6 +12,7 @@ import (
 	"time"
 
 	pio "github.com/gogo/protobuf/io"
+	"github.com/gogo/protobuf/proto"
 	"sourcegraph.com/sourcegraph/appdash/internal/wire"
 )
 
@@ -320,7 +321,12 @@ type RemoteCollector struct {
 // Collect implements the Collector interface by sending the events that
 // occurred in the span to the remote collector server (see CollectorServer).
 func (rc *RemoteCollector) Collect(span SpanID, anns ...Annotation) error {
-	return rc.collectAndRetry(newCollectPacket(span, anns))
+	p := newCollectPacket(span, anns)
+	if size := proto.Size(p); size > maxMessageSize {
+		// The server would drop the message and the connection.
+		return fmt.Errorf("collect %v: message size %d exceeds the maximum of %d", span, size, maxMessageSize)
+	}
+	return rc.collectAndRetry(p)
 }
 
 // connect makes a connection to the collector server. It must be
-- 
2.43.0


From 1c1585b6952c2fc3673d95443ca76215b64b6670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:02 +0000
Subject: [PATCH 14/32] fix: do not panic when marshalling events with nil
 pointers

---
 reflect.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/reflect.go b/reflect.go
index fe33dba..520fe14 100644
--- a/reflect.go
+++ b/reflect.go
@@ -11,6 +11,10 @@ import (
 )
 
 func flattenValue(prefix string, v reflect.Value, f func(k, v string)) {
+	if isNilPtr(v) {
+		return // nothing to record
+	}
+
 	switch o := v.Interface().(type) {
 	case time.Time:
 		f(prefix, o.Format(time.RFC3339Nano))
@@ -58,6 +62,14 @@ func flattenValue(prefix string, v reflect.Value, f func(k, v string)) {
 	}
 }
 
+// isNilPtr reports whether v is a nil pointer or an interface holding one.
+func isNilPtr(v reflect.Value) bool {
+	if v.Kind() == reflect.Interface && !v.IsNil() {
+		v = v.Elem()
+	}
+	return v.Kind() == reflect.Ptr && v.IsNil()
+}
+
 func mapToKVs(m map[string]string) *[][2]string {
 	var kvs [][2]string
 	for k, v := range m {
-- 
2.43.0


From e4c06ee330d2981969b6caf30811011b424d5832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:04 +0000
Subject: [PATCH 15/32] fix: unmarshal float64 and duration fields without
 losing precision

---
 reflect.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reflect.go b/reflect.go
index 520fe14..9d4f61a 100644
--- a/reflect.go
+++ b/reflect.go
@@ -2,6 +2,7 @@ package appdash
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strconv"
@@ -116,7 +117,7 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 		if err != nil {
 			return reflect.Value{}, err
 		}
-		d := time.Duration(usec * float64(time.Millisecond))
+		d := time.Duration(math.Round(usec * float64(time.Millisecond)))
 		return reflect.ValueOf(&d), nil
 	}
 
@@ -130,7 +131,7 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 		}
 		return reflect.ValueOf(&vv), nil
 	case reflect.Float32, reflect.Float64:
-		vv, err := strconv.ParseFloat(s, 32)
+		vv, err := strconv.ParseFloat(s, 64)
 		if err != nil {
 			return reflect.Value{}, err
 		}
-- 
2.43.0


From 4084e0b548668e4774b0ab89ab1f52395aced095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:03 +0000
Subject: [PATCH 16/32] fix: unmarshal event fields independently of absent
 fields and other annotations

Fields were matched with the sorted annotations by consuming them in
order, so an absent field (a nil map, slice or pointer) swallowed the
values of the fields after it, a field took the value of any key it was a
prefix of, and slice indexes from annotations could be negative or huge.
---
 reflect.go | 185 ++++++++++++++++++++++++++---------------------------
 1 file changed, 90 insertions(+), 95 deletions(-)

diff --git a/reflect.go b/reflect.go
index 9d4f61a..df44aed 100644
--- a/reflect.go
+++ b/reflect.go
@@ -86,12 +86,6 @@ func (v kvsByKey) Len() int           { return len(v) }
 func (v kvsByKey) Less(i, j int) bool { return v[i][0] < v[j][0] }
 func (v kvsByKey) Swap(i, j int)      { v[i], v[j] = v[j], v[i] }
 
-type structFieldsByName []reflect.StructField
-
-func (v structFieldsByName) Len() int           { return len(v) }
-func (v structFieldsByName) Less(i, j int) bool { return fieldName(v[i]) < fieldName(v[j]) }
-func (v structFieldsByName) Swap(i, j int)      { v[i], v[j] = v[j], v[i] }
-
 func parseValue(as reflect.Type, s string) (reflect.Value, error) {
 	vp, err := parseValueToPtr(as, s)
 	if err != nil {
@@ -190,138 +184,139 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 	return reflect.Value{}, nil
 }
 
+// unflattenValue sets v from the values of kv (sorted by key) at prefix and
+// nested below it. What has no value in kv is left as it is.
 func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]string) error {
 	if !sort.IsSorted(kvsByKey(*kv)) {
 		panic("unflattenValue: kv must be sorted (using kvsByKey)")
 	}
-	if len(*kv) == 0 {
-		return nil
-	}
-	if !strings.HasPrefix((*kv)[0][0], prefix) && t.Kind() != reflect.Map { // map can have 0 fields
-		*kv = (*kv)[1:]
-		return unflattenValue(prefix, v, t, kv)
+	return unflatten(prefix, v, *kv)
+}
+
+func unflatten(prefix string, v reflect.Value, kvs [][2]string) error {
+	if _, ok := v.Interface().(time.Time); ok && v.Kind() == reflect.Struct {
+		return unflattenScalar(prefix, v, kvs)
 	}
 
-	if v.IsValid() {
-		treatAsValue := false
-		switch v.Interface().(type) {
-		case time.Time:
-			treatAsValue = true
-		}
-		if treatAsValue {
-			vv, err := parseValue(v.Type(), (*kv)[0][1])
-			if err != nil {
-				return err
-			}
-			if vv.Type().AssignableTo(v.Type()) {
-				v.Set(vv)
-			}
-			*kv = (*kv)[1:]
+	switch v.Kind() {
+	case reflect.Interface:
+		if v.IsNil() {
 			return nil
 		}
-	}
-
-	switch t.Kind() {
+		return unflatten(prefix, v.Elem(), kvs)
 	case reflect.Ptr:
-		return unflattenValue(prefix, v, t.Elem(), kv)
-	case reflect.Interface:
-		return unflattenValue(prefix, v.Elem(), v.Type(), kv)
+		if !v.IsNil() {
+			return unflatten(prefix, v.Elem(), kvs)
+		}
+		if _, ok := lookupKV(prefix, kvs); !ok && len(nestedKVs(prefix, kvs)) == 0 {
+			return nil
+		}
+		p := reflect.New(v.Type().Elem())
+		if err := unflatten(prefix, p.Elem(), kvs); err != nil {
+			return err
+		}
+		v.Set(p)
 	case reflect.Bool, reflect.Float32, reflect.Float64,
 		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
 		reflect.String:
-		vv, err := parseValue(v.Type(), (*kv)[0][1])
-		if err != nil {
-			return err
-		}
-		v.Set(vv)
-		*kv = (*kv)[1:]
+		return unflattenScalar(prefix, v, kvs)
 	case reflect.Struct:
-		if v.Kind() == reflect.Ptr {
-			v = v.Elem()
-		}
-		var vtfs []reflect.StructField
-		for i := 0; i < t.NumField(); i++ {
-			f := t.Field(i)
-			if f.PkgPath == "" { // exported
-				vtfs = append(vtfs, f)
+		for i := 0; i < v.NumField(); i++ {
+			f := v.Type().Field(i)
+			if f.PkgPath != "" { // not exported
+				continue
 			}
-		}
-		sort.Sort(structFieldsByName(vtfs))
-		for _, vtf := range vtfs {
-			vf := v.FieldByIndex(vtf.Index)
-			if vf.IsValid() {
-				fieldPrefix := nest(prefix, fieldName(vtf))
-				if err := unflattenValue(fieldPrefix, vf, vtf.Type, kv); err != nil {
-					return err
-				}
+			if err := unflatten(nest(prefix, fieldName(f)), v.Field(i), kvs); err != nil {
+				return err
 			}
 		}
 	case reflect.Map:
+		t := v.Type()
 		m := reflect.MakeMap(t)
-		keyPrefix := prefix + "."
-		found := 0
-		for _, kvv := range *kv {
-			key, val := kvv[0], kvv[1]
-			if key < keyPrefix {
-				continue
-			}
-			if key > keyPrefix && !strings.HasPrefix(key, keyPrefix) {
-				break
-			}
-			vv, err := parseValue(t.Elem(), val)
+		for _, kv := range nestedKVs(prefix, kvs) {
+			vv, err := parseValue(t.Elem(), kv[1])
 			if err != nil {
 				return err
 			}
-			m.SetMapIndex(reflect.ValueOf(strings.TrimPrefix(key, keyPrefix)), vv)
-			*kv = (*kv)[1:]
-			found++
+			if t.Key().Kind() != reflect.String || !vv.IsValid() {
+				return fmt.Errorf("can't unflatten into %s", t)
+			}
+			if vv.Type() != t.Elem() {
+				vv = vv.Convert(t.Elem())
+			}
+			m.SetMapIndex(reflect.ValueOf(kv[0][len(prefix)+1:]).Convert(t.Key()), vv)
 		}
-		if found > 0 {
+		if m.Len() > 0 {
 			v.Set(m)
 		}
 	case reflect.Slice, reflect.Array:
-		keyPrefix := prefix + "."
-		type elem struct {
-			i int
-			s string
+		nested := nestedKVs(prefix, kvs)
+		if len(nested) == 0 {
+			return nil
 		}
-		var elems []elem
-		maxI := 0
-		for _, kvv := range *kv {
-			key, val := kvv[0], kvv[1]
-			if !strings.HasPrefix(key, keyPrefix) {
-				break
+		indexes := make(map[int]string, len(nested)) // index to key prefix
+		n := 0
+		for _, kv := range nested {
+			s := kv[0][len(prefix)+1:]
+			if dot := strings.Index(s, "."); dot >= 0 {
+				s = s[:dot]
 			}
-
-			i, err := strconv.Atoi(strings.TrimPrefix(key, keyPrefix))
+			i, err := strconv.Atoi(s)
 			if err != nil {
 				return err
 			}
-
-			elems = append(elems, elem{i, val})
-			if i > maxI {
-				maxI = i
+			// Every element has at least one value.
+			if i < 0 || i >= len(nested) || (v.Kind() == reflect.Array && i >= v.Len()) {
+				return fmt.Errorf("index out of range: %s", kv[0])
+			}
+			indexes[i] = nest(prefix, s)
+			if i >= n {
+				n = i + 1
 			}
-
-			*kv = (*kv)[1:]
 		}
-
 		if v.Kind() == reflect.Slice {
-			v.Set(reflect.MakeSlice(t, maxI+1, maxI+1))
+			v.Set(reflect.MakeSlice(v.Type(), n, n))
 		}
-		for _, e := range elems {
-			vv, err := parseValue(t.Elem(), e.s)
-			if err != nil {
+		for i, key := range indexes {
+			if err := unflatten(key, v.Index(i), kvs); err != nil {
 				return err
 			}
-			v.Index(e.i).Set(vv)
 		}
 	}
+	return nil
+}
 
+// unflattenScalar sets v from the value of kvs at key, if any.
+func unflattenScalar(key string, v reflect.Value, kvs [][2]string) error {
+	s, ok := lookupKV(key, kvs)
+	if !ok {
+		return nil
+	}
+	vv, err := parseValue(v.Type(), s)
+	if err != nil {
+		return err
+	}
+	v.Set(vv.Convert(v.Type()))
 	return nil
 }
 
+// lookupKV returns the value at key in the sorted kvs.
+func lookupKV(key string, kvs [][2]string) (string, bool) {
+	i := sort.Search(len(kvs), func(i int) bool { return kvs[i][0] >= key })
+	if i == len(kvs) || kvs[i][0] != key {
+		return "", false
+	}
+	return kvs[i][1], true
+}
+
+// nestedKVs returns the part of the sorted kvs whose keys are nested in prefix.
+func nestedKVs(prefix string, kvs [][2]string) [][2]string {
+	prefix += "."
+	kvs = kvs[sort.Search(len(kvs), func(i int) bool { return kvs[i][0] >= prefix }):]
+	return kvs[:sort.Search(len(kvs), func(i int) bool { return !strings.HasPrefix(kvs[i][0], prefix) })]
+}
+
 func fieldNames(v reflect.Value) map[int]string {
 	t := v.Type()
 
-- 
2.43.0


From c0f48e31923b35274d71814fa0c069ed07f937c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:14 +0000
Subject: [PATCH 17/32] fix: handle requests with a malformed span ID header
 under a new root span

---
 httptrace/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httptrace/server.go b/httptrace/server.go
index ce804bf..0bc0595 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -71,6 +71,8 @@ func Middleware(c appdash.Collector, conf *MiddlewareConfig) func(rw http.Respon
 		spanID, spanFromHeader, err := getSpanID(r.Header)
 		if err != nil {
 			log.Printf("Warning: invalid %s header: %s. (Continuing with request handling.)", spanFromHeader, err)
+			root := appdash.NewRootSpanID()
+			spanID, spanFromHeader = &root, ""
 		}
 		usingProvidedSpanID := (spanFromHeader == HeaderSpanID)
 
-- 
2.43.0


From 77bea28f7074621820a7efe66e83509989db4ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 18/32] fix: record the response status and length that were
 really sent

---
 httptrace/server.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/httptrace/server.go b/httptrace/server.go
index 0bc0595..2db2abe 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -161,11 +161,12 @@ type responseInfoRecorder struct {
 
 // Write always succeeds and writes to r.Body, if not nil.
 func (r *responseInfoRecorder) Write(b []byte) (int, error) {
-	r.ContentLength += int64(len(b))
 	if r.statusCode == 0 {
 		r.statusCode = http.StatusOK
 	}
-	return r.ResponseWriter.Write(b)
+	n, err := r.ResponseWriter.Write(b)
+	r.ContentLength += int64(n)
+	return n, err
 }
 
 func (r *responseInfoRecorder) StatusCode() int {
@@ -175,9 +176,12 @@ func (r *responseInfoRecorder) StatusCode() int {
 	return r.statusCode
 }
 
-// WriteHeader sets r.Code.
+// WriteHeader records the status code that is sent: that of the first call
+// that is not for an informational response.
 func (r *responseInfoRecorder) WriteHeader(code int) {
-	r.statusCode = code
+	if r.statusCode == 0 && (code >= 200 || code == http.StatusSwitchingProtocols) {
+		r.statusCode = code
+	}
 	r.ResponseWriter.WriteHeader(code)
 }
 
@@ -196,6 +200,9 @@ func (r *responseInfoRecorder) partialResponse() *http.Response {
 // implements http.Flusher.
 func (r *responseInfoRecorder) Flush() {
 	if f, ok := r.ResponseWriter.(http.Flusher); ok {
+		if r.statusCode == 0 {
+			r.statusCode = http.StatusOK // flushing sends the header
+		}
 		f.Flush()
 	}
 }
-- 
2.43.0


From 5afcef2306fc8d85778b81d45fecc236970f2129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:18 +0000
Subject: [PATCH 19/32] fix: record all values of headers whose names are
 spelled in different cases

---
 httptrace/client.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/httptrace/client.go b/httptrace/client.go
index 0fa6fc7..2cc34c8 100644
--- a/httptrace/client.go
+++ b/httptrace/client.go
@@ -80,23 +80,18 @@ var (
 
 func redactHeaders(header, trailer http.Header) map[string]string {
 	h := make(http.Header, len(header)+len(trailer))
-	for k, v := range header {
-		if isRedacted(k) {
-			h[k] = redacted
-		} else {
-			h[k] = v
-		}
-	}
-	for k, v := range trailer {
-		if isRedacted(k) {
-			h[k] = redacted
-		} else {
-			h[k] = append(h[k], v...)
+	for _, hdr := range []http.Header{header, trailer} {
+		for k, v := range hdr {
+			if k = http.CanonicalHeaderKey(k); isRedacted(k) {
+				h[k] = redacted
+			} else {
+				h[k] = append(h[k], v...) // a copy, v is the caller's
+			}
 		}
 	}
 	m := make(map[string]string, len(h))
 	for k, v := range h {
-		m[http.CanonicalHeaderKey(k)] = strings.Join(v, ",")
+		m[k] = strings.Join(v, ",")
 	}
 	return m
 }
-- 
2.43.0


From 9293491e497755bb1a31368d58639ef8919997f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:18 +0000
Subject: [PATCH 20/32] fix: redact trailers that a handler sets after the
 response body

---
 httptrace/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httptrace/client.go b/httptrace/client.go
index 2cc34c8..d2db2d0 100644
--- a/httptrace/client.go
+++ b/httptrace/client.go
@@ -97,6 +97,7 @@ func redactHeaders(header, trailer http.Header) map[string]string {
 }
 
 func isRedacted(name string) bool {
+	name = strings.TrimPrefix(name, http.TrailerPrefix) // trailer set by a handler
 	for _, v := range RedactedHeaders {
 		if strings.EqualFold(name, v) {
 			return true
-- 
2.43.0


From 535ca6367ded7a06e6a20b07be6d7a04379e8762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:37 +0000
Subject: [PATCH 21/32] fix: do not panic on collector errors when the
 recorder's logger is nil

---
 opentracing/recorder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentracing/recorder.go b/opentracing/recorder.go
index c7e376c..5366b9d 100644
--- a/opentracing/recorder.go
+++ b/opentracing/recorder.go
@@ -100,7 +100,7 @@ func (r *Recorder) logError(spanID appdash.SpanID, err error) {
 	ans, _ := appdash.MarshalEvent(appdash.Log(err.Error()))
 
 	// At this point, something is definitely wrong.
-	if err := r.collector.Collect(spanID, ans...); err != nil {
+	if err := r.collector.Collect(spanID, ans...); err != nil && r.Log != nil {
 		if r.verbose {
 			r.Log.Printf("Appdash Recorder collect error: %v\n", err)
 		} else {
-- 
2.43.0


From 0cf7d2bc79c2457e769cd38d35860bba56809271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:39 +0000
Subject: [PATCH 22/32] fix: find a trace's times independently of events
 without a start time

---
 trace.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trace.go b/trace.go
index 0eeeadf..6b6107a 100644
--- a/trace.go
+++ b/trace.go
@@ -117,7 +117,7 @@ func findTraceTimes(events []Event) (start, end time.Time, _ bool) {
 	// Find the start and end time of the trace.
 	for _, e := range events {
 		e, ok := e.(TimespanEvent)
-		if !ok {
+		if !ok || e.Start().IsZero() {
 			continue
 		}
 		if start.IsZero() {
@@ -125,10 +125,10 @@ func findTraceTimes(events []Event) (start, end time.Time, _ bool) {
 			end = e.End()
 			continue
 		}
-		if v := e.Start(); v.UnixNano() < start.UnixNano() {
+		if v := e.Start(); v.Before(start) {
 			start = v
 		}
-		if v := e.End(); v.UnixNano() > end.UnixNano() {
+		if v := e.End(); v.After(end) {
 			end = v
 		}
 	}
-- 
2.43.0


From be2af10a7b7bc7df668cc404281418ee397a7b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:01 +0000
Subject: [PATCH 23/32] fix: reject uploaded traces with missing or foreign
 spans

A span of another trace below an uploaded one was collected into that other
trace, also when it already existed; a null span made the handler panic after
part of the upload was collected.
---
 traceapp/app.go   | 10 ++++++++++
 traceapp/trace.go | 24 +++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index 3c1fd73..8c70713 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -311,6 +311,16 @@ func (a *App) serveTraceUpload(w http.ResponseWriter, r *http.Request) error {
 
 // uploadTraces uploads literal traces into the storage system for later viewing.
 func (a *App) uploadTraces(traces ...*appdash.Trace) error {
+	// Validate everything before collecting anything.
+	for _, trace := range traces {
+		if trace == nil {
+			return errMalformedTrace
+		}
+		if err := validateTrace(trace, trace.Span.ID.Trace); err != nil {
+			return err
+		}
+	}
+
 	// Collect the unmarshaled traces, ignoring any previously existing ones (i.e.
 	// ones that would collide / be merged together).
 	for _, trace := range traces {
diff --git a/traceapp/trace.go b/traceapp/trace.go
index 70bdbc9..19b87aa 100644
--- a/traceapp/trace.go
+++ b/traceapp/trace.go
@@ -1,6 +1,28 @@
 package traceapp
 
-import "sourcegraph.com/sourcegraph/appdash"
+import (
+	"errors"
+
+	"sourcegraph.com/sourcegraph/appdash"
+)
+
+// errMalformedTrace is returned for uploaded traces that have missing spans or
+// spans of other traces in them.
+var errMalformedTrace = errors.New("malformed trace")
+
+// validateTrace checks that all spans of the given trace are present and belong
+// to the trace with the given ID.
+func validateTrace(t *appdash.Trace, id appdash.ID) error {
+	if t == nil || t.Span.ID.Trace != id {
+		return errMalformedTrace
+	}
+	for _, sub := range t.Sub {
+		if err := validateTrace(sub, id); err != nil {
+			return err
+		}
+	}
+	return nil
+}
 
 // collectTrace asks the given collector to collect all of the spans and
 // annotations in the given trace recursively. Any errors that occur during
-- 
2.43.0


From 3e5ba0c9e636852982bf9a819deb33d3ef830236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:01 +0000
Subject: [PATCH 24/32] fix: do not merge a trace with itself when it is
 uploaded concurrently

---
 traceapp/app.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/traceapp/app.go b/traceapp/app.go
index 8c70713..7ddb80f 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -46,6 +46,8 @@ type App struct {
 	tmplLock sync.Mutex
 	tmpls    map[string]*htmpl.Template
 
+	uploadLock sync.Mutex // held while uploading, so a trace is only uploaded once
+
 	Log     *log.Logger
 	baseURL *url.URL
 }
@@ -321,6 +323,9 @@ func (a *App) uploadTraces(traces ...*appdash.Trace) error {
 		}
 	}
 
+	a.uploadLock.Lock()
+	defer a.uploadLock.Unlock()
+
 	// Collect the unmarshaled traces, ignoring any previously existing ones (i.e.
 	// ones that would collide / be merged together).
 	for _, trace := range traces {
-- 
2.43.0


From 7436e26b0097f898649f03793276a33b210d639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 25/32] fix: do not add a millisecond to an aggregate for every
 zero before its first time

A label whose first spans took no measurable time was shown with one
millisecond too many as soon as another span of that label took longer.
---
 traceapp/aggregate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/traceapp/aggregate.go b/traceapp/aggregate.go
index 0a4c31e..d573052 100644
--- a/traceapp/aggregate.go
+++ b/traceapp/aggregate.go
@@ -56,9 +56,6 @@ func (a *App) aggregate(traces []*appdash.Trace, mode aggMode) ([]*aggItem, erro
 
 		// Perform aggregation.
 		i.Value += value
-		if i.Value == 0 {
-			i.Value = 1 // Must be positive values or else d3pie won't render.
-		}
 	}
 
 	for _, trace := range traces {
@@ -85,6 +82,9 @@ func (a *App) aggregate(traces []*appdash.Trace, mode aggMode) ([]*aggItem, erro
 	// Form an array (d3pie needs a JSON array, not a map).
 	list := make([]*aggItem, 0, len(aggregated))
 	for _, item := range aggregated {
+		if item.Value == 0 {
+			item.Value = 1 // Must be positive values or else d3pie won't render.
+		}
 		list = append(list, item)
 	}
 	return list, nil
-- 
2.43.0


From 6ec1ecbe765c92e28ac00061047c524896591f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 26/32] fix: aggregate a trace once even if its ID is given
 twice

---
 traceapp/app.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index 7ddb80f..61c7e0e 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -266,16 +266,18 @@ func (a *App) serveAggregate(w http.ResponseWriter, r *http.Request) error {
 	// are interested in, then we only show those.
 	selection := q.Get("selection")
 	if len(selection) > 0 {
-		var selected []*appdash.Trace
+		ids := make(map[appdash.ID]bool)
 		for _, idStr := range strings.Split(selection, ",") {
-			var id appdash.ID
-			if id, err = appdash.ParseID(idStr); err != nil {
+			id, err := appdash.ParseID(idStr)
+			if err != nil {
 				return err
 			}
-			for _, t := range traces {
-				if t.Span.ID.Trace == id {
-					selected = append(selected, t)
-				}
+			ids[id] = true
+		}
+		var selected []*appdash.Trace
+		for _, t := range traces {
+			if ids[t.Span.ID.Trace] {
+				selected = append(selected, t)
 			}
 		}
 		traces = selected
-- 
2.43.0


From f454c4dd6184bfcae73988528b2c76f8b6825c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 27/32] fix: give every timespan of the timeline its own
 duration

All timespans of the root span were labelled with the first one's.
---
 traceapp/vis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceapp/vis.go b/traceapp/vis.go
index 3fe0afd..b52d6b4 100644
--- a/traceapp/vis.go
+++ b/traceapp/vis.go
@@ -125,7 +125,7 @@ func (a *App) d3timelineInner(t *appdash.Trace, depth int) ([]timelineItem, erro
 		}
 	}
 	for _, ts := range item.Times {
-		msec := time.Duration(item.Times[0].End-item.Times[0].Start) * time.Millisecond
+		msec := time.Duration(ts.End-ts.Start) * time.Millisecond
 		if msec > 0 {
 			ts.Label = fmt.Sprintf("%s (%s)", item.Label, msec)
 			ts.Duration = int64(msec)
-- 
2.43.0


From e459616fee8520a191d29ed1b8f50233c57e5eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 28/32] fix: keep the instant of times in zones that RFC 3339
 cannot express when marshalling events

Format drops the seconds of a zone offset such as that of a local mean time,
which shifted the time by up to 59 seconds.
---
 reflect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reflect.go b/reflect.go
index df44aed..6d55cac 100644
--- a/reflect.go
+++ b/reflect.go
@@ -18,6 +18,9 @@ func flattenValue(prefix string, v reflect.Value, f func(k, v string)) {
 
 	switch o := v.Interface().(type) {
 	case time.Time:
+		if _, offset := o.Zone(); offset%60 != 0 || offset <= -24*60*60 || offset >= 24*60*60 {
+			o = o.UTC() // RFC 3339 has no such offsets
+		}
 		f(prefix, o.Format(time.RFC3339Nano))
 		return
 	case time.Duration:
-- 
2.43.0


From b811f0ea34a32533a06650b90d7e7ea52bc30f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:58 +0000
Subject: [PATCH 29/32] fix: do not drop an imported trace when the store
 cannot be read

uploadTraces took any error other than 'trace not found' for the trace
being there already, ignored it and answered with success.
---
 traceapp/app.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index 61c7e0e..d87cbf0 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -332,10 +332,13 @@ func (a *App) uploadTraces(traces ...*appdash.Trace) error {
 	// ones that would collide / be merged together).
 	for _, trace := range traces {
 		_, err := a.Store.Trace(trace.Span.ID.Trace)
-		if err != appdash.ErrTraceNotFound {
+		if err == nil {
 			// The trace collides with an existing trace, ignore it.
 			continue
 		}
+		if err != appdash.ErrTraceNotFound {
+			return err
+		}
 
 		// Collect the trace (store it for later viewing).
 		if err = collectTrace(a.Store, trace); err != nil {
-- 
2.43.0


From 523575167d108ce3a83e0f0fb3d91e8c42c99bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:55 +0000
Subject: [PATCH 30/32] fix: show span names on the trace page as text

The timeline's tooltip and context menus inserted the label of a span, which
is whatever its recorder sent, into the page as HTML, so that a name with
markup ran as script for whoever hovered over the span or opened its menu.
Insert it as text. The embedded copy of the page is regenerated.
---
 traceapp/tmpl/data/trace.html | 7 ++++---
 traceapp/tmpl/data_vfsdata.go | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/traceapp/tmpl/data/trace.html b/traceapp/tmpl/data/trace.html
index da40cad..c861092 100644
--- a/traceapp/tmpl/data/trace.html
+++ b/traceapp/tmpl/data/trace.html
@@ -315,7 +315,7 @@
       ctxMenuActionClose(e);
 
       // Display the submenu.
-      $("#contextFilterMenu .name").html($("#contextMenu .name").html());
+      $("#contextFilterMenu .name").text($("#contextMenu .name").text());
       $("#contextFilterMenu").css({
         display: "block",
         left: $("#contextMenu").css("left"),
@@ -346,7 +346,7 @@
     function ctxMenuOpen(e, datum, obj) {
       $("#contextFilterMenu").hide();
       $("#contextMenu").data("dataObject", obj);
-      $("#contextMenu .name").html(datum.label);
+      $("#contextMenu .name").text(datum.label);
       $("#contextMenu").css({
         display: "block",
         left: e.pageX,
@@ -382,7 +382,8 @@
           div.find('#name').text(visibleData[index].fullLabel);
           div.find('#name').attr("title", visibleData[index].label);
 
-          tip.html(visibleData[index].fullLabel);
+          // The label is recorded text, not markup.
+          tip.html($("<div>").text(visibleData[index].fullLabel).html());
           tip.show(this, $("#timelineItem_"+index)[0]);
         } else {
           tip.hide();
diff --git a/traceapp/tmpl/data_vfsdata.go b/traceapp/tmpl/data_vfsdata.go
index 345b77f..6a2ca9b 100644
--- a/traceapp/tmpl/data_vfsdata.go
+++ b/traceapp/tmpl/data_vfsdata.go
@@ -58,8 +58,8 @@ var Data = func() http.FileSystem {
 		"/trace.html": &_vfsgen_compressedFileInfo{
 			name:              "trace.html",
 			modTime:           mustUnmarshalTextTime("2016-04-28T10:40:52Z"),
-			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x09\x6e\x88\x00\xff\xec\x3c\xfd\x77\xe3\x36\x72\xbf\xfb\xaf\x40\xb8\xe9\x89\x4a\x24\xda\xde\xcd\xb5\x3d\xd9\x56\x5f\x6e\x3f\x9a\xbd\x4b\xb2\x79\xf1\x66\xaf\xad\xb3\x2f\x0f\x12\x21\x89\x6b\x8a\xe4\x11\x90\x65\x65\x4f\xff\x7b\x67\x06\x1f\x04\x28\xca\x96\x7d\x49\xda\xd7\xeb\xbe\x44\x96\x40\x60\x30\x18\xcc\x37\x06\xfc\xf8\x31\x15\xb3\xac\x10\x2c\x7a\x9b\xa9\x5c\x44\xdb\xed\xc7\x8f\xd9\x8c\x25\x6f\x6b\x3e\x15\xc9\xeb\x17\xc9\x77\xbc\x16\x85\xda\x6e\x65\xc5\x0b\xf6\xf1\x63\xf3\xe0\x12\x1a\xb6\x5b\x36\x84\x46\x51\xa4\xf0\x4d\xe1\x93\xa0\x0b\x7d\xa1\x3e\xbc\xaa\x52\x2e\x17\xa6\xeb\xd1\x51\x33\xed\x37\x3c\x2b\x22\x6c\x3a\x97\xd3\x3a\xab\x14\x93\xf5\xf4\x22\x02\x28\x7f\xe4\x52\xfc\xf0\xfd\xd7\x30\xb3\xe2\x2a\x9b\x1e\x3f\xe7\x73\x91\x1e\xa7\xcf\x86\x2a\xab\x8e\xb3\x22\x15\xb7\xc9\x07\x19\x8d\xcf\x8f\xf5\xb8\xf1\xd1\x79\x9e\x15\xd7\xac\x16\xf9\x45\x24\xd5\x26\x17\x72\x21\x84\x8a\xd8\xa2\x16\xb3\xfb\x01\x8a\x5b\xbe\xac\x72\x31\xd4\x23\x93\xa9\x04\xd0\x88\x13\xfe\x1c\x1f\x31\xf6\x64\x5a\x56\x9b\xe1\x07\x59\x16\xa3\x45\x79\x23\x6a\xf6\x11\x1a\x19\x9b\xae\x6a\x59\xd6\x23\x56\x95\x59\xa1\x44\x7d\x06\x8d\xdb\x23\x40\x49\x0f\x3b\x3a\x5f\x9c\x8e\xdf\xee\x23\x0b\xf4\x25\x5a\x17\xa5\xea\xa0\x37\x81\x3f\x27\xaa\x13\xb4\x8b\x68\x56\x16\x6a\x28\xb3\x9f\xc5\x88\x9d\x3e\xad\x6e\xcf\x18\xa0\x01\xeb\xe0\xf9\x90\xe7\xd9\xbc\x18\xb1\x65\x96\xa6\xb9\x38\x8b\xc6\x34\x96\xb1\xd8\xfc\xd5\x50\xb2\xf4\x22\xa2\x45\x54\xa2\x5e\x72\xa4\xd5\x70\x9a\x67\x95\xeb\x0d\xfd\x78\x47\xa7\x88\xa5\x5c\x71\xea\x3a\x29\x79\x9d\x0e\x95\xb8\x55\x44\xcf\xef\x6c\x97\xed\xd6\xa3\xb2\xdf\x3a\x76\x3f\xce\x8f\xb9\x9d\x07\xa8\x03\xe8\xd8\x5f\x7f\xeb\xc6\x11\x09\x6d\xd0\xf3\xb1\xc2\xe6\xfd\x08\xfd\xe9\xf2\xcd\xb7\x86\xb6\xd1\xf8\xe5\x6d\x55\xd6\x8a\x71\xc9\xb0\x19\xe7\x0f\x27\xee\x1f\xb5\x91\xb1\xcc\x79\x7e\x0c\xbb\x06\x7b\xf7\xc9\x70\xc8\xde\x02\xec\x2f\x6b\xc1\x59\x5c\x00\x42\xaf\x72\xe0\xe1\x3e\x9b\xf1\x3c\x9f\xf0\xe9\x35\x9b\x95\x35\x7b\x0e\x78\x7d\xfe\x1d\x97\x4a\xb0\x72\x46\x73\x69\x41\x90\x6c\x38\x1c\x03\x9f\x2b\x01\x7c\xc5\xe1\x69\xf4\x7a\x89\x18\x69\xbc\x60\x11\xd9\x54\x41\xdb\x8b\x88\x79\x2b\xc6\xa5\x44\x56\x14\x59\xf4\x83\x14\x6c\xaa\xea\xfc\xf3\x29\x83\x99\xa6\xe5\x72\xc9\x8b\x14\x7e\xa8\x92\xe1\x18\xa6\x16\xc2\x9b\x91\x4d\x44\x5e\xae\x47\x30\xee\x1d\xcf\x57\x30\x3e\xae\x6a\xe0\xca\x19\x8b\xae\xfe\x49\xbe\x8f\x2c\x8f\x5d\x2a\x68\x9d\xf7\x7d\x91\x53\x9b\x0a\xf8\x0b\x27\x3f\xfe\xc0\x6f\xb8\x6e\x25\xc6\x88\x67\xab\x62\xaa\xb2\xb2\x88\xfb\x86\xe3\x6f\x38\x60\x92\x67\xc0\xa3\xec\x82\x15\x62\xcd\xfe\x4b\xd4\xe5\x73\xbb\x19\x31\x4b\xcb\xe9\x6a\x09\x4f\x93\xb9\x50\x2f\x73\x81\x5f\xff\xb8\x79\x9d\xc6\xde\x06\xf6\x59\xff\xec\x48\x8b\x0f\x01\x4a\x00\x7c\x04\x44\x4e\x37\xd1\x80\xb9\x09\x19\xb5\xbc\xbc\xc1\x99\xec\xe4\xc1\x08\x3e\x03\x89\x43\xa8\xc1\x28\xd1\x1a\xc0\x18\xcf\x41\x4e\xe2\x88\x08\xa5\x85\x11\x06\x65\x22\x25\x32\x5a\xc4\x93\xa8\x7f\x66\x46\x6c\xcd\xb7\xad\xc5\xf2\xf8\x98\xbd\x29\x18\x2f\x36\xe1\x5a\x99\xa8\x6b\xd8\x16\xa4\xf2\x92\xd7\x59\xbe\x61\xeb\x85\x28\x18\x31\x09\xcb\x24\xc9\x35\x50\x33\xcb\xf9\x24\x17\x7d\xb6\x16\x16\x98\xe3\x1f\x40\x60\x25\x61\x33\x68\x23\x41\x2b\x15\x29\x82\xc5\x7d\x00\x25\xc0\x93\x36\x89\x68\x3e\x7f\xb1\x62\x87\x2e\xa9\x90\xaa\x2e\x37\x71\xdf\x34\x7f\x1a\x47\x4f\x3c\xc2\x27\xd0\x6d\x7a\xbd\xbb\xa9\x3b\x5d\xb5\xec\xf5\x93\x45\x96\x8a\xd8\x51\xa6\xdd\x89\xd8\x15\x80\x96\x79\xce\x2b\x29\xe2\x48\x2e\xca\x75\x74\x67\x77\x96\xd8\xe5\xc1\xc0\x19\xf0\x8a\x8c\xfb\x89\x14\xb9\x98\xaa\xf8\xce\x1d\xf8\xb6\x6c\xe8\x86\xc4\x15\x22\x85\x2d\x44\x09\x44\xe2\x39\x75\xc5\xe2\x89\x98\xf2\x15\x08\x0e\x36\x53\x4b\xa6\x00\xfe\x0c\x07\x61\x93\x05\xd2\x4f\x1c\x3b\xbb\xc1\xcf\x1f\xcd\xd7\x8d\xba\x24\xe6\x46\xc8\x2d\xa8\x0f\x61\x72\x47\x36\x0f\x6c\x7b\xeb\x84\xbf\x77\x22\xa9\x6a\x62\xfc\x17\x62\xc6\x57\x79\x07\x29\xbb\xf1\x79\xa0\x08\x39\x75\xde\x29\x41\x3f\x16\x3f\x16\x6f\x81\xc2\x60\x63\x2d\xcd\xa7\x60\xb2\xc0\xbe\x6b\xca\x03\xd0\xac\x16\x5a\x57\x0d\x58\x59\x80\xc0\xc8\x05\x70\x02\x74\x66\xeb\x4c\x2d\xd8\xac\x06\xc4\x52\xf9\x49\xb7\x28\xe2\x27\xae\xab\x31\xf8\x47\xe7\x69\x76\x33\xa6\x4f\x32\x11\x4f\x08\xf4\xb0\xc3\xd4\x46\x80\x26\x97\x12\x74\x1c\xf5\x50\xd9\x52\xc0\x32\x04\x7a\x0f\x21\x08\xb2\xed\xdf\x0b\x49\xca\x8f\x5a\xcd\x40\xe0\xf1\xb2\x16\xe9\x8b\xec\xc6\x0d\x32\x1d\x70\x58\xc1\x97\xa2\xab\x1d\x30\x05\xd9\x10\xe9\x4f\x60\xb2\xbc\xd9\x82\x3f\x47\xcd\xec\x48\x2e\x90\x8e\x6f\x44\xb1\x72\x18\xa7\x75\x59\xa5\xe5\xba\x80\xdf\x82\xd7\xb3\xec\x56\xa3\xb6\xca\xdb\x1d\x86\x4b\x1a\x06\x13\x82\x2e\xd7\xdf\x41\x2b\xf1\x21\xa8\x1f\x81\x38\x4c\x36\x4d\x5f\x3d\x83\xf1\x2b\xd2\x4c\x82\x85\xda\x8c\x26\x79\x39\xbd\x3e\xab\x4a\x99\x21\x1b\x8c\xb4\x97\x74\x06\xaa\x6d\x9e\x15\xc3\x49\xa9\x54\xb9\x1c\xfd\x1e\xfc\x0e\xe3\x31\x80\xbb\x65\x26\x03\xde\x93\xb0\xb9\x1c\x87\x39\xbc\x91\x24\xcc\xe1\xb6\x00\x36\x17\x35\x52\x20\xcf\xc6\x47\x76\x3c\xda\x76\xc5\x27\xe4\xcc\x5d\x44\xc3\x53\x63\xda\x39\xf1\xe1\x05\x69\x93\xe1\x74\x91\xe5\x29\xb8\x44\xd6\xc5\x78\x62\x3a\xa9\x72\x3e\xc7\xc9\x55\x59\xe6\xe0\xc0\x99\x56\x58\xc8\x94\x64\xf3\x22\xaa\xb3\xf9\x02\x8c\xa9\x42\x5b\xaa\x61\x01\x1b\x03\xd5\x0c\x3c\x6d\x2d\x81\x31\x41\x2f\xa0\x0f\x10\x8d\x2f\xb1\xcb\x73\xf3\x58\x3b\x0c\x88\xec\x61\xb8\xa2\xa2\xfc\xa5\x70\x45\x58\xf7\xe0\xfa\x15\x76\x79\x2c\xae\xb3\x2c\x07\xb1\xff\x05\x08\x7a\xdc\x81\x29\x38\xd9\x29\x08\x37\xe3\xcc\x4c\x33\x7e\x45\x7f\x1b\x24\xf7\x63\x19\x22\x64\xd1\x9d\xe6\xa5\x04\xe1\x79\x8e\x7f\xfc\xa5\x9e\x1f\xaf\xf2\x3b\xa4\x48\x4f\xfb\x7f\x42\x96\x76\xc5\x88\xbc\x65\x4f\xd2\x22\xeb\xdd\x8e\x98\x25\x77\x48\xea\xac\xa8\x56\xbe\xa3\xe7\x60\xeb\x5d\x42\x43\xba\x1c\x22\xe5\x00\x8d\xc7\x31\x04\xc2\x86\x5d\xbf\x16\x9b\xd1\x0d\xfa\x9f\xac\xe2\x59\x0d\x5e\x53\xca\x70\x4d\x12\xd5\x3f\xcc\x03\x16\x03\x62\xc1\x5c\xfb\xae\x96\x11\x09\xe6\xa2\xcc\x61\x6d\x17\x3d\x07\x20\x49\x92\xde\x6f\xc0\x32\x86\x0e\x37\x99\x58\x7f\x53\xa6\x42\xb3\xc4\x64\x05\x5b\xa4\xe3\x91\x89\x2a\x2e\xc1\x63\xbf\x04\xa7\x45\xbd\x05\xc3\xe1\x28\x07\x0f\x18\xfc\x3f\x4c\xb5\xcd\x05\x05\x82\x01\xc7\x1f\x37\xe8\xc9\xc1\x17\x34\x32\xe7\xc7\x1a\xd0\x1e\x98\x2f\x8b\xf4\x30\x88\x60\x16\x0f\x81\xf7\x62\x55\x87\x8c\xb3\x17\x60\x6a\x7a\xde\x03\xf0\x6b\xe4\xf7\xfb\xa1\x91\x58\x34\xa0\x1a\xfa\x92\x54\xf8\xe1\x85\x8e\xab\x19\x4b\xf8\x2d\xe8\xb2\x8a\xab\xc5\xc0\xfd\x42\x8b\x6c\x7c\x0e\x60\x8c\x7c\x04\x0e\x74\x21\xb4\xfd\x47\xa7\xf6\x1a\xe2\xde\x09\x30\xca\xb5\x69\x5a\xf0\x4a\x0c\x41\xe5\x00\xd3\x80\x0b\x3d\x62\xe0\x14\xc8\xea\x65\x3a\x17\x52\x47\xe1\x16\x2c\x79\x9d\x06\x2c\x46\xd0\x33\xbe\x04\x5f\x7d\xc4\x24\x2f\xe4\x50\xc2\xe0\xd9\x59\xf3\xd0\x84\xd7\x27\x20\x9a\x16\x88\x75\x16\xb4\xf0\x3f\x14\xd2\xd3\x06\xd2\x13\x0b\xe9\xa9\xc1\x4c\x83\x02\x97\xa4\x90\x28\x7e\x23\xfd\x15\x83\xc5\x18\x10\x18\x3c\x83\x0f\xe3\xff\x0c\x97\x72\x78\x4f\x3f\x76\xfc\x19\x7b\xfd\x92\xfd\x81\x7d\x76\xac\x87\xac\xc5\xe4\x3a\x53\x87\x0c\xbb\xe4\x33\xd0\x6e\x24\xaa\xcf\x17\x75\x09\x76\xdb\xc2\x28\x0f\x19\xfe\x06\x3c\x4b\xee\x86\x2c\xcb\x9f\x0f\x19\xf4\x0a\x5c\xc1\x59\x79\xab\x87\x11\x75\xac\xeb\xc5\x92\xc6\xd7\x32\x24\x5a\x08\xd4\x34\xa3\xa7\xb8\x2d\xe0\x2a\xa6\x6a\x61\xbe\xcf\xf2\x92\xab\x51\x2e\x66\xea\x6c\x07\xcc\x13\xf2\x40\x34\x00\xab\x96\x59\x56\xd0\x56\x6a\xf5\x4c\x8f\x8c\x4e\x46\x18\x23\x76\x92\x3c\x13\x4b\x07\xca\x73\xc7\x06\xee\x57\x63\x56\x1e\xc9\x0a\xe0\x89\x5b\xb3\xc0\xf8\x44\x96\xf9\x4a\x19\x2e\x77\x58\x36\x8c\xff\xf3\x90\x74\x1d\xb2\xe4\x49\x17\x5e\x2c\x09\x4c\xd6\x18\xd4\x9c\x4e\xd4\x85\x00\xbd\xf5\x56\x3c\x4d\x49\x5e\x9e\x55\xb7\xec\xe9\x89\xc5\x89\x2c\x22\x74\x2c\xd5\xc2\xc3\x7c\xad\x09\xcf\xbe\xd0\xb3\x33\x92\xd1\xa1\xd9\x0e\x76\x9a\x7c\xf1\xf4\x5f\x7f\xff\x2f\xa7\x5f\x3c\x33\x30\x70\xdf\x46\xec\xc9\xb3\x67\xa6\x61\xbd\xc8\x94\x18\x02\x42\x53\x81\x8b\x5a\xd7\xbc\xda\xc9\x90\x3d\x32\x05\x81\xea\x1e\x02\x35\xf0\xf5\xdf\x65\xf2\x05\xfc\xd8\x6e\xcf\xdc\x43\xf4\x4d\xde\x1a\x61\x7b\xbe\x40\x65\x4c\x3d\x2f\xdb\xcd\xfe\x18\x62\x2b\xe8\x07\xb1\x57\x62\xc2\x16\x30\x4d\xfd\x84\xda\x63\x2f\x10\x15\x4b\x0c\x6b\x30\xf7\xa6\xc3\x1a\x6d\x59\xe3\xac\xc0\x27\xab\x02\x22\x9f\x3e\x5a\xb9\x2a\xbb\x15\xb9\xd4\x0d\x24\x5a\xb5\x50\xab\x1a\x42\xa1\x4c\xe9\xc8\xd3\x2e\x0b\x86\xc5\x62\xf9\x83\x1e\x68\x43\x2e\xc4\x08\x77\xe0\x12\x58\x07\x90\xaa\x78\x2d\xc5\x2b\x64\xf6\xf8\xd3\xb8\x37\x29\xd3\x4d\xaf\x8f\x39\xca\xb8\xe7\x18\xac\xd7\x77\x51\x93\x9e\xa9\x19\xff\x19\x33\xf0\x4d\x30\xe5\x96\x52\xac\x96\xaf\x40\xde\x5f\x7a\xd8\xe1\x8a\xa0\x79\x82\x2e\x01\x3c\x32\x81\x5b\x8a\xb9\x2d\x8a\xb3\x4b\x85\x61\x1c\xb8\x7c\x1b\x36\xe7\xf5\x84\xcf\x5d\x56\x43\x52\x5e\x69\x00\xb1\xe8\x3c\x61\x91\xd5\x75\xaf\x95\x58\xfe\x74\xfa\xc5\x17\xcf\x22\x36\x1c\x33\xfc\x12\x2e\xbe\x41\x21\x06\x00\x0d\x01\xcc\x1a\x68\xe1\xaf\x0b\x85\x0f\x93\x25\x57\xd3\x45\x7c\x1c\xff\x98\x7e\xde\xff\xf4\xb8\x7f\x75\xf2\x7e\x00\x72\xd1\x6f\xaf\xea\x35\x2c\x15\x30\xc4\x95\x4f\xca\x52\xc1\x48\x5e\x31\xe3\xc4\x48\x4d\x7b\x20\xe2\x55\xa7\x8f\xf3\x1e\xe8\x6a\xbe\xfb\x7b\x2e\x85\xb2\xce\x36\xb0\x5b\x36\x01\xa3\xb6\xe6\xf9\x35\x92\xab\x2e\x57\xf3\x05\xd1\x86\x58\x12\x77\x7a\x06\x32\x2b\x43\xb7\x18\xd8\x63\x9a\xaf\x50\xf0\x2c\x48\x90\x4d\xc5\x21\xcc\x06\x51\x87\x7d\x37\xe4\x9d\x67\x10\x7a\x93\x8b\x0f\xb1\x2b\x7b\xad\x50\x3b\xc1\x2c\x82\x4f\x17\xd8\x11\xb3\x99\x37\x66\xfe\x58\xd5\xe0\x63\x95\xb5\x97\x54\x92\xa2\xdf\x62\xad\x5d\xbc\x63\x0d\x7c\x60\xe1\x78\x49\x87\x04\xa7\x89\x71\x15\x5e\x32\x20\x83\x48\x1d\x30\xab\xfd\x6c\x40\x36\x8b\xa9\x2d\xa9\x28\x57\x7d\x49\x10\xd9\x27\x17\x06\x71\xbf\xab\xdd\xc8\x26\x25\xb4\x75\xdf\x34\x0c\xbb\x9e\x0b\x8b\x51\xd3\xb5\x03\x7b\x3d\xa6\xbd\x86\x9d\x74\x81\xdb\x38\x70\x04\x0b\xf1\x66\xf2\xe1\xdb\xf2\x05\x70\x82\xfe\x29\x3d\x52\x97\x93\x0f\x62\x0a\xd2\x8b\x9b\x05\x7b\x90\xa9\x9e\x44\x0f\x56\x4b\x2c\x79\xa1\xb2\x8f\x1b\x61\xe1\xf9\x62\x42\xc0\x06\x0c\xbc\x1e\x9d\xbe\x40\x18\x34\xd6\xa8\x0f\x4c\xec\xa5\x38\x6b\x9c\xf4\x61\x20\x39\xb9\x29\x75\xb5\xd0\x56\xe8\xbc\xc8\x29\x18\x3b\x99\xb0\xb7\x18\xdd\xc1\x7f\x2b\x29\x66\x10\x91\xd8\x34\xd6\x2b\xca\x65\xd5\x82\x2b\x83\x19\xcd\x45\x70\x81\x1b\xf8\x74\x0a\xbe\x75\x59\x4b\x0b\x32\x2b\x40\xf7\xc8\xd5\x64\xa8\x57\x26\x31\x71\xad\x40\x6d\x83\xcd\x22\xa1\x45\xc4\x01\x4c\x9b\x51\x42\x3a\xc5\x65\xa8\x89\x0a\x4d\x3d\x50\xa2\xdb\xb3\x90\x5b\x4a\x8f\x55\xae\x61\x43\xfc\xbd\xd7\xa3\xae\xae\x13\xb3\xf6\xf8\xf8\xc7\xe4\x78\x3e\xe8\xfd\xd4\xeb\xbf\xc7\xed\xde\xc9\x50\x19\x99\xd7\xe3\xda\x3b\xa9\x63\x05\xcb\x0f\xaf\x56\x3f\xff\xbc\x41\x52\x49\x43\xa0\x12\xf0\x80\x26\xb0\xbd\xbc\x9e\x2e\x76\xe5\x32\x76\xa2\x5c\x89\x69\x36\xc3\x63\x93\x7c\x33\xd0\xea\x0e\xfc\x04\xbd\xe1\x8a\xcf\x41\x16\xf1\x1b\x06\xb6\x2d\x11\x16\x3a\xe9\x87\x7b\xcf\x15\x6c\x80\x53\xa2\x25\x8a\x29\x68\xa6\x16\x49\x3b\x10\x76\xc2\xa7\x9f\x35\xc4\x02\x30\xb4\x8c\x05\x6e\x29\xec\xd6\x32\xd3\x11\x20\xf2\xe4\xb3\xa7\x80\x03\xaf\x21\xb4\x01\x9d\x6c\x96\x07\x8e\x33\xfc\x2a\x8c\xce\x95\x03\x26\x4b\xb6\x16\xec\xc3\x4a\xaa\x06\xa2\xcc\xb3\x29\x51\x06\x20\x80\xfa\x81\xc0\x1c\xba\x2d\x05\xea\x11\x8a\xc5\x24\x5b\x02\xe7\xb1\x18\xac\x34\x80\x5c\x97\xab\x3c\x65\x3e\xcf\x95\xac\xe6\x99\x14\x0d\x40\xf0\x2b\xc4\xed\x54\x54\x88\x99\x61\x20\x66\x96\x02\xfb\xa9\xbf\x24\x34\x6b\x7c\x32\x80\x59\xad\x02\xa5\xc1\xdf\x0b\x3c\x2b\x03\xa1\x03\x26\x04\xda\x4e\xd1\xa8\x10\xb3\x92\x72\xd3\xe7\x5c\x60\x9f\x51\x68\xcc\x06\xe0\x57\xa7\xf9\x6c\x5e\xa1\x01\x58\xae\x1c\x39\x40\x7e\x20\x1e\x91\x89\xc7\xb2\x76\x8a\x0b\xb0\x30\x79\x6e\x39\xac\x69\x75\x5c\xeb\xeb\xb0\x20\x1d\x7e\xb0\x3a\x24\x6c\x9e\x2f\x04\x26\xf4\x91\x35\x28\x99\x8f\xeb\x59\x8b\x1e\xd0\x37\x2f\xcb\x6b\x5a\x95\x42\xe9\xe6\x9a\xa1\x42\x85\xaf\x71\x08\x01\x22\x84\xc4\x6b\xda\xab\x74\xf7\x2d\xa0\x91\xa8\x33\xaf\x6d\x7b\x14\x4e\xf3\x9d\xa8\xd1\x51\xc7\x74\x0d\x89\x94\xa1\x28\xb0\x9e\xcb\x36\xc9\x1e\x29\x9e\x84\xfd\x05\x64\xa9\xd4\xed\xdc\x1c\x6f\xe4\xf9\x2e\xd6\x12\xd8\xf8\x06\xfc\xa2\x14\x3d\x05\x90\x33\xad\xb6\x50\x2d\x59\xd8\x03\xda\x62\xe2\xb2\x35\x47\x91\xb2\x42\x49\x5d\x43\x88\xfe\x38\x9f\x1e\xb8\xc9\xc8\x76\x6d\xcd\x45\x34\xaa\xf9\x1a\x7d\xc2\xfe\x59\x6b\xc0\x0c\xa7\xd4\xe9\x7d\x9c\x3d\xbe\xaa\xc1\x85\x08\x49\x86\x72\x72\x29\x0a\xf4\xd0\x6f\xc0\x6b\x25\xb3\x3a\x08\x7a\x00\x9b\x82\xa8\x60\xec\x8b\xe1\xcd\xaa\xf5\x14\x34\x8f\x90\x98\xcb\xa0\x68\x62\xd0\x2c\xe4\x4b\xe0\x84\x35\x66\x40\x6c\x07\x64\x07\x92\x40\x94\xe2\xa9\x1a\x00\xcf\xcf\x01\x79\x6c\xce\x41\xa9\x27\x01\x58\x24\xcc\x88\xbd\x21\xa5\x9e\xe0\x8f\xb8\xee\x0f\x10\x2c\xae\x13\x64\x4f\xe4\xa9\xdc\x4b\xab\xed\x0e\x21\x8c\xc4\x90\x20\x48\x91\xe8\x51\xb1\x51\x4b\x67\x2d\x1e\x79\x21\x2a\x10\x1a\xe4\x61\x60\x8b\xf5\x42\x20\x89\xf1\x40\x12\x39\x80\xd2\x38\xfb\x38\x87\x21\xf7\x81\xd8\xae\xaa\x10\x20\x1e\xa5\x19\x0c\x06\x8d\xb8\x64\x8d\x73\x03\xc0\x41\x01\x00\x03\xf9\xab\x68\xfb\x0b\x56\xea\x73\x51\xcc\xc1\x24\x8e\xd9\xc9\x2e\xe2\x9e\x9e\x21\xd9\xc4\x89\xc0\xc4\x5b\xa5\xee\x83\x37\xba\x21\x70\x31\x3c\xba\x35\x34\xdc\x86\xca\x24\x0e\xba\xee\x33\x58\xbf\x91\xbf\x48\x16\xd1\xa6\x5e\x91\x1f\xd0\x81\xd4\x5a\x54\xeb\x1d\xec\x6b\x41\xf2\x80\xe0\xb0\x9b\x89\x79\x72\xe4\x58\x56\xb3\xa6\xdd\x5b\xd8\x21\x5d\xb6\x91\xb2\xc9\x46\xe7\xfa\x20\xca\xc8\x91\xaf\x4d\x0b\x86\x80\x05\x2d\x8a\xb3\xbf\xae\x20\x58\x30\x5e\x54\x1b\x32\xfb\xb3\xd8\x8c\x22\x71\x0b\x72\xef\xfa\x44\xad\x3e\xaf\x00\x29\x53\x96\x31\x6a\x0f\xff\x16\x6c\xf6\x28\xfa\x5e\xfc\x15\x1c\x34\xd5\x1e\xf8\x7a\xd6\x90\x20\x2d\x85\x6c\x4c\x34\x11\x8d\x4f\xca\x1b\x2b\x74\xc6\x5f\x40\xde\x36\x36\x75\xb0\x67\xff\x64\x06\x7c\xa6\xc0\x78\xe1\x01\xa2\x64\xf6\xfc\x16\xc5\x67\xa8\x8d\x93\x2f\x06\x00\xf0\x4e\x77\xe0\x2e\x4f\xe0\x1d\xc4\x2e\x78\x5e\xe4\xa5\x48\x7d\xcb\x06\x21\x7d\x66\xb2\x10\x9e\xd5\xc5\xc6\x38\x1a\x35\x47\x67\x60\x2f\xbc\x9e\x56\x48\xc0\x5e\x3c\xf5\x8d\x04\x4c\xf7\x4d\x26\xe9\x0c\x5a\x6f\x1d\x1e\xa8\x06\x9b\x3e\x08\x8e\xab\x03\x51\x07\xfc\x3c\x09\x3a\xc0\xdf\x69\xa4\x29\x34\x4c\x5b\x6f\x79\xd7\xec\xc2\x5f\x22\x04\x79\x67\xde\xd3\x9b\xd6\xd3\xd3\xf7\xde\x7a\x6f\xa0\x33\xac\xf0\x82\xf5\xa2\x1e\xfb\xdb\xdf\xd8\xcd\xd5\x8d\x59\xf7\xf0\xd4\x3d\xd8\xb3\x7a\x9f\x59\xff\x67\x89\x00\x48\x61\x89\x46\x05\x46\x80\xa7\xd6\x1d\x82\x18\x36\xcb\x1d\x9e\x52\xc7\xe6\x84\xec\xc8\x52\x07\x5d\x6a\xe3\x7d\x9d\x82\x27\xee\x56\xde\xa8\xf3\xdf\x2c\xc2\xf3\x09\xac\x1d\xa3\x6c\xd6\xe8\x79\xed\xe4\xa2\xee\x70\x41\x16\xca\xf9\x14\x85\x8b\xa4\x94\x2c\x0d\x78\x77\x21\xef\x7b\x58\x19\xf3\x7e\x75\x0d\x71\xc4\x45\x18\x74\xec\x9a\x09\x34\xd1\x1e\x72\xe0\xc7\x4b\x71\xe7\x00\x32\xf9\x5d\x01\x6b\x4b\x84\xc3\x58\xb4\xb5\xbb\xbb\xa1\xe8\x5f\xb0\x38\x04\x89\x00\x1a\xa3\xd6\x67\x22\x26\x14\xa5\x63\x0a\x66\xb3\xef\xba\x93\xc9\xf1\xb1\x25\x25\x1f\xc1\xb7\xa7\xa3\xb6\x4c\xa1\x17\xe6\x4c\x82\x98\xe6\x78\x7e\x6e\x3d\x32\x0e\x3c\x09\x1b\x86\xaa\xa3\xc9\x00\x18\xc3\x47\xc8\x06\x50\x01\x98\x58\x82\x29\x6c\xec\xc1\x5f\x57\xd9\xf4\x1a\x36\x81\xa6\x6a\x23\x81\x13\xac\x05\xd8\xa8\x58\x0a\x53\x6a\xb4\x13\x44\xaa\x5b\xcc\x49\x7e\x49\xbf\x68\x51\x7e\x95\xc2\xfe\x1a\x05\x5d\xee\xd0\x1c\x7d\x87\x65\x27\x5b\x9b\xb1\x09\xf2\x9e\xfc\xaa\xe3\xc0\x07\xb3\x37\x58\xd6\x40\xa5\x12\xd1\xa0\x03\x21\x2f\xa7\x13\x3c\xc4\xd4\x20\x9d\xa9\x9a\x2a\x91\x0c\xad\xce\xd2\x1e\xc4\xb9\x32\x13\x9f\x20\xe0\x46\xe0\xa8\x23\xc7\xe7\xc6\x50\x20\x53\x07\xc7\xb3\x66\x67\xe5\x5d\xd4\xb2\xf3\xc7\xa2\x23\x33\xd3\x49\xd7\xb3\xc0\x24\x90\x7c\x5e\x74\x50\x12\xa9\x14\x47\xf8\xa9\x7d\x47\x68\xd2\xbd\xed\xf8\x03\x52\x44\xa6\xa7\x4d\xe9\x7d\x85\x19\xf6\x78\x87\xbf\x75\x11\xcb\x02\x96\x9f\x63\x6c\x89\x24\xd3\x7e\x87\xcf\x44\xb8\xce\x63\xa2\x8e\x26\x4a\x72\xc8\xe6\x86\x75\x00\xed\x4d\x0e\x2a\x62\xf6\x53\x15\xd5\x40\xdf\x89\xe5\x3d\x33\x86\xa7\xf9\x8f\x9c\x51\x67\xe4\x82\x22\xa6\x80\x46\x8e\xab\x8c\xab\x22\x57\x13\xa4\xd1\x41\x24\x31\x27\xa7\x77\x62\xd6\xd8\x13\xad\x60\x28\xd7\x51\x62\x05\x4f\xb0\x27\xc9\xdd\x5c\xd6\x40\x79\xa1\x4f\x13\xb4\x22\xf7\x71\x0d\x24\xd8\x3b\x1f\x49\xe8\x64\x1a\xa4\x59\x2d\xf3\xb8\xc5\x9a\xe1\xc3\x7e\x97\x2e\xf0\x0e\xf0\x75\xb2\xbb\x51\xda\xee\x60\x23\xa2\x93\x8d\xa8\x09\xc1\xf4\x39\xce\xae\x1c\xe0\xf8\x08\x1f\x46\xfd\xa6\xb3\x2a\xab\xbd\x7d\xe1\x59\xd4\xdf\x49\x51\x79\xdb\xe2\x2f\x54\x6f\x47\xaf\x5d\xc9\xe6\x6f\xfd\x57\x56\xa9\x9a\xdd\x36\x50\x86\x86\x92\xba\x76\xb0\xd3\x3c\x4c\x3d\xf3\xb0\xc3\x1c\x1e\x16\x07\xa9\xc4\x2e\x0e\x39\x48\x33\x07\xbb\x11\xe8\x67\x6f\x91\xa1\x8d\xc3\x33\x1d\x49\x39\x27\x45\x36\xdd\x84\x61\x8e\x04\xc4\x82\xfa\xf8\xc4\x95\x09\x08\x53\x28\xe0\xdc\x70\x30\x7d\xed\x82\x01\x2a\x22\xe8\x2a\x8f\x01\x02\xf3\x7a\x2e\x94\x97\x3c\xb9\x6f\xc3\xc0\x0d\x59\x55\x9d\x55\x75\xe0\x6d\x08\x7c\xfc\xbc\x84\x8d\x03\xd7\xe7\xf4\x99\xef\x67\x18\xa7\x47\x57\x26\x2a\x8d\x73\xb2\xeb\xc9\x7d\xd5\x65\x4a\x07\x6c\x5e\xf3\x49\x1b\x5f\x86\x2a\x57\x87\x83\x7a\x91\x38\xaa\x15\xa7\xfe\xbd\xca\x7e\x4f\x10\xf2\x69\x8c\x2e\x44\x3f\x01\x5f\x0c\x44\xf1\x01\x7b\xbf\xcf\x28\x58\x96\x68\x1b\xbb\x37\x15\xcc\x0a\xaa\x11\x50\x5c\x2d\x07\x98\x7d\x6f\x17\x3d\xde\x37\xdf\x01\x8b\xd6\x70\xf7\x0c\x08\xf5\x0e\xe1\x91\xd0\xc1\xfe\x1d\x33\x3c\x4c\xf7\x80\x34\xf1\xb9\xf8\x8f\x96\x96\xd1\xad\xff\xb9\xa3\x50\xec\x59\x5d\xe3\x73\x6e\x5b\xa4\x6b\x51\xd8\xd7\xeb\x24\x6e\xb5\x98\xac\x60\x3f\x6d\x19\xb1\xed\x4e\x42\x32\x9d\x96\x2b\x30\x38\x68\x68\xa6\x60\x75\xe6\x42\x92\x2f\xb9\x5c\x49\x68\xcc\x6a\xf8\x14\xcb\x4a\x6d\x1a\x88\x99\xc2\x32\x73\xf0\x7d\x94\xc8\x37\x9e\x76\x4f\x5a\x85\x93\xfd\x84\x06\xc6\x81\x81\xc0\x52\x78\xca\x41\x13\x22\x2e\xb5\x60\x0e\x22\x4c\xca\x82\xb2\x1e\x88\x50\xc5\x75\xe4\x45\x5a\x81\x6e\x61\x68\xd8\x3e\xaf\x1b\x18\x2f\xf4\x61\xef\xd5\xfb\xb3\x7b\x23\x19\x9f\xa3\x48\x86\x3f\x81\xa6\x64\xc7\xa5\xf2\x44\xb8\xc3\xd1\xf7\xa6\x4d\xaa\x95\x5c\xc4\x3e\x43\x6d\xfd\x10\xdb\xef\x69\x42\x6c\x88\x48\x4e\x3a\x34\x85\xd3\x0d\xde\xf2\xa8\x56\xe1\xad\x3e\x6e\x74\x99\x6a\xef\x39\x92\x04\x65\x94\xb6\xde\x4f\x5a\xe3\x19\x50\x56\x0c\xe8\x60\x40\x0d\x18\xd5\x08\xb4\xd6\xad\xbb\x84\x2b\xa6\xc4\x78\x76\x43\xba\xa3\xe7\x2a\x25\x7a\x3b\xd9\x41\x3a\xc8\xc7\xe4\x20\xc1\xd7\xf5\x18\x32\x0e\xba\x01\x98\x04\xf3\x56\x71\xcf\x2b\xd7\xb0\x87\xd2\x18\x28\xcf\x6b\x60\xbd\x74\x48\x0f\x7b\x03\x03\x32\xd6\x98\xee\x81\x44\x15\x1b\x78\x00\x0b\xa2\xe7\x53\xf6\x8a\x46\xbd\x4f\x66\x40\x9f\xaf\x03\x59\xed\x1e\xcf\x95\xaa\xc1\x80\xd3\x25\x8a\x01\xeb\x00\x64\x05\xde\x83\x02\x3b\xa0\x55\xc2\xc1\xf3\xe2\x08\xf4\x4c\x49\x77\x0e\x48\x6d\x04\x87\xde\xd1\xe7\x7a\xb1\x57\x27\xef\xfb\x77\xc6\x9f\x34\x75\xab\xce\x7e\xdb\x66\x97\xf0\x5c\x3b\x10\x74\xbd\x49\x1e\xdb\x4c\x4d\xc9\x43\xfa\xcc\x15\x2f\xb9\x0b\x01\xe1\x3f\x53\xdd\x40\x9f\x7b\x7a\x48\x05\x9b\xb9\x6f\xb8\x2e\x9e\x89\x3f\x92\xe6\x13\xcb\xf8\x9f\xfb\x03\x46\x55\x81\xa3\x93\x01\xe9\x3d\xf8\x63\xaa\x1d\x4f\xb6\x7b\x60\x10\x1b\x3a\x0b\xcc\xe2\x14\xf8\xd9\x58\x08\x74\xaf\x03\x19\xa0\x43\xef\x86\xed\xd1\xb9\xde\x83\x58\x09\x1e\x48\xb9\x52\x87\xc2\xd5\x69\xfe\x03\x00\x87\x55\xf8\x6d\xa8\x9d\x63\x18\x5b\x03\x27\x94\xeb\x04\xcc\x05\x85\x93\x09\x16\x2d\xe2\xfe\x90\xf5\x59\xd5\xf9\xd9\x9e\x71\xc7\xc7\xba\xf0\x1e\xaf\xae\x24\xfa\xac\x2f\x9b\x6d\x8c\xd5\x32\x49\x90\x01\xa9\x8d\x01\x7b\x1a\x4a\x55\xf3\x6f\x1b\xe8\x68\x9f\x89\xb4\xe2\x09\xf4\x4d\x65\xd9\xa6\x8a\x8d\x1c\xf5\xa8\xf8\x0f\x24\xb8\xa7\x6f\xca\xf5\x3c\xd3\x5f\x25\xe5\x6c\x06\x01\x64\x7c\x35\x3c\x85\x9d\x26\x46\xf7\x3d\x95\x9b\xb9\x06\x67\xbc\xe2\x0e\x2b\x02\xae\x1d\xa6\xd0\x23\xe8\x1a\x59\xc1\x25\x6e\x04\xc1\xdd\xcb\x95\x09\x11\xc0\x97\x54\xd0\x3b\xe0\x10\xc6\xb4\x7d\x9d\x23\xa8\xdc\x28\x8e\x70\xaf\x67\xe0\x2b\x02\xf4\xc8\x0c\x8f\x3a\xfb\x13\x38\x58\x60\xb8\xa0\xe6\xac\xd3\x2a\x62\x54\x55\x7d\x5f\xef\x32\x6a\xb2\xb6\xe0\x9c\x9d\x7e\x81\xcc\x66\xac\x3c\x3e\x3a\xf3\xec\x8c\xd7\x9c\x40\x1c\x00\x3b\x8c\x07\xa7\xe8\x68\x7e\xce\xa2\x24\x49\x22\x67\x35\xfc\x68\xff\x53\x52\x5f\xd2\xd4\x2a\x85\x24\xd5\xb0\xc2\x92\xc5\x28\x60\x80\x6f\xf8\xb5\xee\x85\x27\x35\x14\xa0\xbb\xb1\xe6\x84\x9b\x11\x8f\x0f\xf1\xd6\x52\x12\x18\xe6\x0f\x92\xd2\xe9\x45\xcf\x3f\x64\x16\x62\x89\xae\x06\x1d\xf9\x71\xb6\xc6\xf8\x10\x0b\x10\x2a\xba\x7d\x47\x99\x29\xc1\x65\xd6\x38\x13\x26\x4d\xaf\xfd\x97\xe6\x40\x71\x82\x09\x55\xe4\x12\xe7\xc7\x20\x8a\x06\xa3\x01\x1d\x91\xd8\x27\x18\xac\x38\x5c\x41\xfb\x7a\x27\xd4\x97\xef\xfe\x1d\x88\x3a\x55\x7d\xed\x49\x63\x6e\x96\x4a\x88\xec\x50\xf0\x9b\xcd\x71\x37\x9e\xca\x62\xc9\x29\x56\x95\xb6\x8a\x95\xa2\x7e\x17\xae\x78\xb3\x05\x24\x41\xd9\xea\x28\x72\x67\xf4\x99\xae\xae\x02\x03\x5d\xaf\x7d\x19\x4c\x5d\xfa\x7e\xc1\x5e\x2f\x8a\xcd\xc7\xe6\x06\x15\x79\x33\x9d\xb7\xb2\x70\xc3\x35\xec\x0b\xbf\x56\xca\x7a\xec\x48\x0b\x27\xa9\x59\xda\xf3\x95\x00\x0e\xd5\x35\xab\x17\x96\x67\x8c\x45\xf3\x2c\x5f\x23\x9d\x04\xd0\x93\x05\x0a\x1b\xb5\x1e\x05\xa9\xf1\x43\xc7\xb6\xa2\xbb\x4b\x45\x93\x09\x0c\x0e\xa0\xf7\xcc\xb1\x52\xad\x29\xee\xd6\xd0\x1a\x6e\x07\xb4\x9d\x40\xb7\x8d\xed\x1e\x65\xdc\x61\xf7\x5b\x9a\x79\xdb\xef\xa4\x9b\x76\x26\x0e\x25\xdc\x01\xc4\xfa\x55\x49\x44\xbe\x95\xd6\x63\x1a\xf3\x24\x2b\x0a\x51\x7f\xf5\xf6\x9b\xaf\x21\xf2\x73\x3d\xbd\x58\xbe\x16\xa6\x6e\x41\xc7\x44\x94\xac\x88\xa9\xc8\x8f\x2c\xbd\xd6\x16\x7d\x73\x69\x0c\x82\x8b\xb2\xd2\xe3\x7c\x58\x41\x0e\xb0\x2c\x9c\xff\x42\x71\x2f\x0a\x2c\xc4\x26\xb9\x48\x02\xd6\x25\x25\x1f\xd8\x8f\x90\xe9\xd1\xaf\xd2\xc1\x5f\xdf\x3b\x24\x42\x39\xbb\xd2\x1e\x19\x2d\xef\xbd\x49\x7f\x34\xc8\xef\x24\xf0\x8c\x16\xee\x0e\x51\x77\xd9\xa2\x1f\x1c\xa7\xb7\x04\xf1\x57\x9c\xab\x75\xa2\x00\x2e\x3e\x85\x52\x9f\xe8\xb8\x81\xfd\xee\x77\xbb\x65\xaf\x0d\xeb\xdf\x93\xbb\x95\x9c\x4e\x44\xe9\xe4\xa0\xac\xb5\x9e\x93\xa0\xc0\x8f\xec\x66\x60\x0b\x55\xfb\x5f\x38\x90\xe8\x6c\x8f\x58\xaf\x67\x03\x5d\x73\x1c\x0e\xaa\xf6\x4d\x9d\x8a\xba\x55\x3a\xa1\x0b\x2d\xed\x13\x4b\x13\x84\xd1\x36\x9f\x40\x4e\x8a\xd1\xe9\xc0\x8e\x3a\x84\xde\xb2\x7b\xae\x9f\x9e\xb5\x9f\xb5\xf0\xd8\x3d\xd0\x71\x76\xf7\xb4\xf3\xcc\x6a\x0f\x90\x4f\xba\xda\xcf\x76\x51\x6f\xf5\xe8\x0a\x39\xd9\xf0\xf4\xce\x80\xa0\x0b\x3d\xff\xef\xd6\x2b\x4c\xc5\x3d\x99\x98\x2b\x27\x30\xe7\x4f\xb8\xd1\xad\xfc\x01\x51\x3e\xb8\xc2\x12\x87\xe5\x7d\x08\xc4\x2e\xd3\x6e\x74\xe2\x6d\x58\xdc\x23\xf0\x04\xbb\x71\xff\x90\xfb\x12\x1c\xda\x18\x2e\x70\x46\x27\xad\xf3\xd5\x1b\x7d\x98\x9d\xb9\xca\x2d\x43\xaa\x4d\x25\xc0\x82\x72\x72\x55\xa4\x3e\x9b\xd5\x89\x02\x3a\xb9\x35\x8f\x27\x1d\x8f\xfb\x5d\x44\x44\x90\x06\x56\x13\x86\x43\x1c\x8e\xb0\x26\x1d\xed\x01\x10\x1f\x5d\xc7\xf4\x2d\xa8\xa0\x61\x92\x80\xc6\xe0\xda\x4d\xf6\x3c\xea\xdc\xf2\x86\xc6\x9f\x75\x6d\xff\x9d\x53\x8d\x1f\x39\xd5\x21\x4c\x76\xd2\xc1\x64\x07\x1e\xf8\x58\xde\xd3\xdc\x7e\x27\xe7\x99\x8b\x4e\x0f\xe6\x3b\x00\xfd\x8f\xce\x75\x1e\x75\x43\x9e\xf3\x1e\xfc\x02\x1c\xe7\x4f\x33\x7e\xd4\x34\xbf\x11\xb7\xd9\x9b\x6b\xfb\x58\xcd\xde\x81\x7b\x30\xaf\x59\xc0\xff\xc0\xbc\x66\x49\x10\x32\x9a\x6d\xfd\x05\xb8\xcc\x4d\x30\x7e\xf8\x04\xbf\x11\x7f\xe9\x88\x89\xe7\xd5\x02\xbe\x28\x5d\x27\xee\xdc\xa0\x86\xcd\xbe\x36\x81\x55\xe3\x8e\x3f\x8c\xdb\x68\x9a\x5f\x9a\xd5\x34\xee\xc4\x4b\x3a\x5b\x14\xb2\xda\xee\xe3\x87\x70\x89\x8e\x16\x54\xf9\x35\x56\xb1\x3e\xe7\x12\xb5\xf9\xb9\x85\x1a\xb6\x3f\x9e\x53\xba\x26\x19\x3f\x66\x92\x5f\x9b\x5b\x84\x76\x90\x31\xec\x51\x98\xf1\x30\x35\x1e\xf4\x1c\x53\xc1\x3b\xb7\x86\xed\x0b\x3c\x3a\xdc\x31\x57\x93\xe0\x86\xd9\x8b\xc1\xbb\x83\xcc\x93\xdd\x21\xee\xee\xef\xee\x18\xfb\x68\x77\x90\xbe\xdf\xbb\x3b\xa2\xc9\x76\xef\xbc\x73\xc3\xbc\x17\x89\xde\xa3\xf3\x16\x73\x44\xf4\x9e\xa3\x3b\x6e\xfa\xda\x8b\xd5\x66\x07\xcc\xfd\xc3\x21\x9d\x8a\x9d\xea\xdb\x96\x4d\xab\x49\x16\xdb\x07\x74\xdd\xb1\xaa\x4b\x08\x58\xc5\x3b\x80\x33\x60\x4f\x60\x3b\x26\xa5\xa4\x20\x09\x5b\xda\x37\x1d\xed\xd5\x49\xba\xba\x3b\xcb\x6e\x45\x3a\x54\x88\xe5\xd0\xdd\xe9\x33\x23\x26\xa5\x8e\x45\x82\x01\xd4\x15\x22\x00\xff\x6a\xa7\xbd\x03\xa9\x4b\x27\xda\x5d\x53\xc7\x58\x6b\x00\x38\x9c\xd4\x82\x5f\x8f\x18\xfd\x19\xf2\xdc\x74\xf7\xae\x3b\x22\xf1\xfe\xb4\x92\x2a\x9b\xe1\xfb\x53\x6a\x9e\x66\xe5\xd0\xf0\x8e\x2e\x3b\x5c\x67\xa6\x02\x0e\xb4\xcf\x5a\x40\x28\xed\xca\x84\x0d\x1d\x18\x12\x54\xbf\x5d\xaa\xeb\xfe\x3a\xdd\xd0\xc6\xc3\x97\xaa\xf9\x36\xfc\xe0\x66\x6c\xda\x6e\x65\xeb\x9e\xbf\x41\x23\xa2\x0b\xe0\x84\x59\x69\xae\x60\x9e\x6b\xcd\xd1\xba\x06\xae\xdf\x7b\xb4\x61\x58\x70\x70\x23\xec\x9b\x0c\xfc\x17\x0d\x10\x90\x88\xc2\x34\x8d\x60\x64\x2f\x97\xdb\xed\x8b\x74\xfd\xdf\x45\x44\x47\x7c\xd4\x32\x76\x5f\xcf\x8f\x09\x98\xbe\xb8\x4f\x28\xdc\x8b\xcc\xc3\xb0\x78\x17\xf2\x92\x43\xc6\xb4\x33\x0f\xa9\x9d\xa6\x5f\x1d\xb9\xef\x1a\xb6\x77\x88\x99\x36\x83\x93\xff\xab\x0b\x1d\x7b\x0f\x1f\x99\xee\x88\xfd\x89\xdf\xf0\x4b\x7d\xd9\x76\x8a\x7c\x82\x49\x5b\x7a\x7d\x07\xb0\x16\xbd\x1d\xc5\x9d\xce\x1e\xb7\x58\x2d\x0d\xeb\xff\xb3\xe9\xe2\x48\x73\xae\xab\x59\x94\x26\x79\x2b\xd2\x23\xad\x0d\xee\xbb\xd4\x8b\xc9\x50\xc7\xb1\x84\xf9\x48\x53\x02\x74\x11\x1d\x54\xc7\xdd\x86\x35\x4b\x29\xed\xad\x73\x2e\xfa\xb8\x20\x4b\x83\xa2\x67\xec\x71\xc1\x02\x1e\x6b\xbf\xe5\x2a\x75\x0f\xf4\x01\x5e\x93\x62\x69\x9b\x8a\x56\xef\xf0\x94\xce\xe5\x0c\x82\x59\xdb\x3c\xd5\x9e\xfc\xa6\xfd\xfc\x10\x1c\x76\x07\x1d\x82\x8a\xcf\x41\x6d\x34\x2a\xff\xd9\x21\x28\x84\x03\xda\xd3\xeb\xf4\x94\xff\x6a\x26\xb2\x12\xba\x92\x12\x0c\x0a\xde\x5c\x20\xde\xc2\x4d\x07\x97\x68\x53\x82\x04\x10\xab\xac\x72\x62\x78\x47\xe5\xe0\x4d\x4d\xe6\x3d\x4c\x79\x16\xb4\x6a\x11\xc1\xdc\x61\xf3\xae\x27\x2c\x51\x6e\xde\x4a\x19\xd9\x37\xfa\x35\xaf\xb2\xc4\x1b\x03\xee\xad\x8a\xaa\x2e\xf1\x44\x40\xbf\xb8\xc4\x7b\x5f\x14\x8e\x74\x3f\xf5\x08\xd4\xdd\xd8\xdb\xbd\x23\x10\x48\xf3\x30\x38\x0e\xab\x1d\x50\xfa\x5d\x98\x6d\x4c\x69\x29\x5f\x16\x45\xa9\x8b\x4f\xa5\x9d\x4d\x5b\x1c\x4b\x08\x6d\x7e\xac\x69\x4b\x45\x81\x57\x10\xf4\x6f\x74\xee\x2a\x91\xba\x37\x3b\x7e\xfc\x58\xa3\x48\x31\x93\xf7\xf5\x40\xef\x9b\xb2\xbf\x6d\x0e\xa9\x34\x6a\xaf\xed\x36\x7a\x4f\x10\xa7\x7a\x7c\xae\x16\xb8\xd6\x3f\x8b\x0d\xae\x10\x7e\x9c\xab\x14\x1a\x00\x09\x96\xd0\x8b\x08\xa9\x39\x1d\xc3\x47\x3d\xf6\xa0\xea\xd5\xef\xfe\x82\x7e\xb8\x8a\x90\x48\xa4\xd5\x32\x54\x69\xf8\x02\x97\x86\xbb\x8c\x60\xdc\xcd\x5b\x6d\xe9\xf9\x7f\x16\xfb\x5f\xc6\x62\x8f\x65\xa3\x47\xb3\x8d\x6f\xdf\x02\x8e\xb1\xef\x90\xf2\xb5\x1d\xf1\x87\x26\x46\xf8\xce\x00\x6c\x32\x3e\xd4\xaa\xce\xf5\xdb\x4f\xf5\x38\x7a\xcd\x6c\x74\x27\x21\xcd\x40\xfd\x2e\x8d\x8b\xe8\xe9\x1f\xfe\x60\xdd\x03\x85\x6f\x79\x72\x6f\x4b\xf5\x85\xe6\x1c\x6f\x7e\xe3\x28\x0c\x3d\x10\x1c\x72\xeb\xca\xe2\x40\x97\x00\x2f\xa2\x6f\xe9\x75\x50\xf8\x49\x64\x7c\xd8\x60\x8a\x3a\xc6\xf8\xc9\xe2\xa5\xec\x3f\x12\x82\x2d\x30\x34\x90\x3e\x6f\x4a\xe1\xff\x1e\xa0\xab\x65\x34\x86\x8f\x55\xce\xd1\xdf\x64\x9d\x48\x36\xdc\x81\xad\x8e\x8e\xe7\x0a\xdf\x99\xe1\x3a\x21\x1b\xbc\xd4\x37\xcb\xb4\xe6\x30\x77\xee\xa9\x2c\xad\x16\xc8\x15\xee\x18\x9a\xf6\xee\x87\xd7\xdd\xdb\x91\x8e\x8f\xd5\xb2\xfa\xb7\x59\x59\x5e\x20\xd2\xc4\xa0\xc1\xe3\xd3\x93\xdf\x9f\xec\xb6\x3e\x3b\x39\xe9\x68\x7d\xda\x6e\xf6\x59\x1d\xb9\xd3\xb4\xd9\xa5\x38\x8e\x0f\xfd\x3c\x3a\xb7\xa3\x80\xce\x78\x6c\xdc\xb2\xfb\x90\xd8\x5d\xaf\xa8\x2e\xd7\x54\x0a\x88\xf7\x6f\xb1\xea\x0f\x6f\x7b\x8b\x34\xc3\xb3\x38\xa0\x06\xd3\x85\xba\x47\x38\xb2\xd2\xa5\xe9\x43\x3a\xab\xc3\x22\xc6\xe4\x70\x1f\xcf\xf7\x1a\x4c\xc8\x14\xd1\x21\x59\x4f\xd7\x18\x00\x16\xc9\x44\xea\x07\xbd\xe6\xac\x8c\xe1\xa1\x18\x61\xf8\xa9\x39\xe7\xb7\xee\x0b\x15\xb6\x85\xe7\xb7\xf8\x12\x29\x73\x5e\x84\x63\x12\x90\xbd\xc6\xd9\xd9\x73\xd8\x6b\xfa\xd9\xa8\x7e\xc7\x7b\xb1\xfa\xe3\xbf\x03\x00\x00\xff\xff\x00\x13\x40\x2c\x1e\x5b\x00\x00"),
-			uncompressedSize:  23326,
+			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7c\xfb\x93\x1b\x37\xd2\xd8\xef\xfc\x2b\xda\x23\xe5\xe3\xf0\x4c\x0e\x77\x25\x5f\x92\xe3\x2e\x99\xf2\xe9\x91\xd3\x7d\xf2\xa3\x2c\xd9\x97\x44\x56\xb9\xc0\x99\x26\x09\x2d\x38\x98\x03\x30\xe4\xd2\x7b\xfc\xdf\x53\x8d\xc7\xbc\x38\x5c\xad\x14\xfb\x92\xca\x7d\x5a\xd5\x2e\x89\x01\x1a\x8d\x7e\xa1\xd1\xdd\x98\xbb\xbb\x0c\x57\x3c\x47\x88\xde\x72\x23\x30\x3a\x1e\xef\xee\xf8\x0a\x92\xb7\x8a\xa5\x98\xbc\x7a\x9e\x7c\xcf\x14\xe6\xe6\x78\xd4\x05\xcb\xe1\xee\xae\x7e\xf0\xa6\x60\xf9\xf1\x08\x13\xb8\xbb\xc3\x3c\x3b\x1e\xc1\xd0\x93\x56\x17\xfb\xc1\xf6\x61\x45\x91\x31\xbd\xf1\x5d\x07\x83\x7a\xda\x6f\x18\xcf\xa3\xe3\x71\x30\xb8\xd6\xa9\xe2\x85\x01\xad\xd2\x79\x74\x77\x97\xfc\x99\x69\xfc\xf1\x87\xd7\xc7\xa3\x36\xcc\xf0\x74\xfa\x8c\xad\x31\x9b\x66\x4f\x27\x86\x17\x53\x9e\x67\x78\x9b\x7c\xd0\xd1\xe2\x7a\xea\xc6\x2d\x06\xd7\x82\xe7\x37\xa0\x50\xcc\x23\x6d\x0e\x02\xf5\x06\xd1\x44\xb0\x51\xb8\xfa\x38\x40\xbc\x65\xdb\x42\xe0\xc4\x8d\x4c\x52\xad\xa3\x05\xe1\x44\x5f\x17\x03\x80\x47\xa9\x2c\x0e\x93\x0f\x5a\xe6\xb3\x8d\xdc\xa1\x82\xbb\x01\x00\x40\x5a\x2a\x2d\xd5\x0c\x0a\xc9\x73\x83\xea\x6a\x00\x70\x1c\x5c\x4f\xfd\xb0\xc1\xf5\xe6\x72\xf1\xf6\x1c\x59\x06\x00\x96\xd6\xb9\x34\x3d\xf4\xb6\xe0\xaf\x2d\xd5\x2d\xb4\x79\xb4\x92\xb9\x99\x68\xfe\x2b\xce\xe0\xf2\x49\x71\x7b\x05\x3b\x54\x86\xa7\x4c\x4c\x98\xe0\xeb\x7c\x06\x5b\x9e\x65\x02\xaf\x22\xc2\x97\x7e\x62\xff\xd7\x41\xe1\xd9\x3c\xb2\x8b\x28\x50\x6d\x19\xd1\x6a\x92\x0a\x5e\x54\xbd\x01\xae\x59\x4f\xa7\x08\x32\x66\x98\xed\xba\x94\x4c\x65\x13\x83\xb7\xc6\xd2\xf3\xfb\xd0\xe5\x78\x6c\x50\xb9\xd9\xba\xa8\xbe\x5c\x4f\x59\x98\xe7\x7a\x4a\xe8\x84\x6f\xff\xe8\xc7\x91\x08\xed\xd1\x6b\x62\x45\xcd\xe7\x11\xfa\xeb\x9b\xef\xbe\xf5\xb4\x8d\x16\x2f\x6e\x0b\xa9\x0c\x30\x0d\xd4\x4c\xf3\xb7\x27\x1e\x0d\xba\xc8\x04\xe1\xbc\x9e\x6e\x2e\x89\xf7\x5f\x4c\x26\xf0\x16\x6f\xcd\xd7\x0a\x19\xc4\xb9\xcc\x27\x2f\x05\xd3\x9b\x11\xac\x98\x10\x4b\x96\xde\xc0\x4a\x2a\x78\x26\x8b\xc3\x97\xdf\x33\x6d\x10\xe4\xca\xce\xe5\x14\x41\xc3\x64\xb2\x18\xdc\xdd\x19\xdc\x16\x82\x19\x84\xe8\xd5\x96\x30\x72\x78\x45\x90\xf1\xd4\x40\xf4\xea\x79\x04\x8d\x15\x13\x6d\xa3\xa0\x8a\x10\xfd\xa8\x11\x52\xa3\xc4\x97\x29\x48\x05\xa9\xdc\x6e\x59\x9e\x7d\x99\x82\x91\x40\x63\xc0\x6c\xb0\x31\x23\x2c\x51\xc8\xfd\x2c\x82\xe8\x27\x26\x4a\x8c\x20\x2e\x14\xcf\xcd\x0a\xa2\x77\xff\x49\xbf\x8f\x82\x8c\xbd\x31\x8a\xe7\xeb\x51\x53\xe5\xcc\xa1\xc0\x79\x44\x93\x4f\x3f\xb0\x1d\x73\x0a\x65\x05\x23\x5e\x95\x79\x6a\xb8\xcc\xe3\x91\x97\xf8\x1d\x53\x90\x0a\x8e\xb9\x81\x39\xe4\xb8\x87\xff\x85\x4a\x3e\x0b\xcc\x88\x21\x93\x69\xb9\xc5\xdc\x24\x6b\x34\x2f\x04\xd2\xc7\x3f\x1f\x5e\x65\x71\x83\x81\x23\x18\x5d\x0d\x2c\x30\x07\x28\x91\x79\x1c\x29\x64\xd9\x21\x1a\x43\x35\x21\xd8\x96\x17\x3b\x9a\x29\x4c\xde\x1a\xc1\x56\x06\x15\x41\x6d\x8d\xc2\xce\x00\x00\x26\x50\x99\x38\xb2\x84\xb2\x24\x20\xe2\x71\xcc\x2c\x19\x03\xe2\x49\x34\xba\xf2\x23\x8e\xfe\xd3\x31\x60\x39\x9d\xc2\x77\x39\xb0\xfc\xd0\x5e\x2b\xa0\x52\x52\x59\x2a\x6f\x99\xe2\xe2\x00\xfb\x0d\xe6\x60\x85\x04\xb8\xb6\x7a\xcd\x76\x8c\x0b\xb6\x14\x38\x82\x3d\x06\x60\x95\xfc\x18\x09\xa5\xe6\xf9\xda\x32\x52\x1b\x96\x67\x4c\x65\x40\x7c\x60\x0a\x59\xd2\x25\x91\x9d\xaf\xb9\x58\x3c\xa1\x4b\x86\xda\x28\x79\x88\x47\xbe\xf9\x71\x1c\xd5\x96\x2b\x1a\x25\xa9\xe0\xe9\xcd\x29\x53\x4f\xba\x5a\xf5\x8a\x46\xc9\x86\x67\x18\x8f\xae\xce\x74\x22\x4c\x09\xa8\x14\x82\x15\x1a\xe3\x48\x6f\xe4\x3e\xba\xb7\x3b\x24\x61\x79\xd1\x28\x59\xc9\xb4\xd4\xf1\x28\xd1\x28\x30\x35\xf1\xbd\x1c\xf8\x56\xd6\x74\x23\xe2\x22\x66\x98\x59\x0d\x24\xe2\x55\xe6\x0a\xe2\x25\xa6\xac\xd4\x68\x69\x4a\xd6\x09\xb8\xd1\x28\x56\xc4\x11\x6a\x0a\x40\x46\x49\x25\xce\xd5\xe0\x67\x9f\x2d\xd7\x15\x08\x27\xdc\x04\xb9\x03\xf5\x53\x84\xbc\x22\x5b\x03\x6c\x97\x75\x0d\xde\x03\x60\x52\x28\x2b\xf8\xcf\x71\xc5\x4a\xd1\x43\xca\x7e\x7c\x3e\x51\x85\x2a\x73\xde\xab\x41\x3f\xe7\x3f\xe7\x6f\x37\x08\x3f\xfe\xf0\x3a\xd0\x3c\x95\xb9\x61\x3c\x77\x94\xc7\xdc\x70\x85\xce\x3a\x8e\x41\xe6\xe2\x00\x7a\xc3\x14\x02\x37\xb0\xe7\x66\x03\x2b\xc5\x31\xcf\xf4\x17\xfd\xaa\x48\xbf\x69\x5d\xf5\x86\x3f\xb8\xce\xf8\x6e\x61\x7f\xdb\x2d\xe2\x91\x05\x3d\xe9\xd9\x6a\x23\x48\x05\xd3\x7a\x1e\xb9\x1e\x86\x6f\x51\xf0\x1c\xc9\x7b\x68\x83\xb0\x7b\xfb\x0f\x48\x9b\x3f\x80\x05\xec\x07\xa6\x52\x48\x85\xd9\x73\xbe\xab\x06\xf9\x0e\x34\x2c\x67\x5b\xec\x6b\xd7\xa9\x92\x42\x60\xf6\x4b\xc6\x4c\x63\xb6\xd6\x9f\x41\x3d\x3b\x91\x0b\x6f\xcd\x37\x98\x97\x15\xc6\x99\x92\x45\x26\xf7\x39\xa4\x02\x99\x5a\xf1\x5b\x87\x5a\x29\xba\x1d\x26\x5b\x3b\x4c\x49\x81\xf3\xc8\x7d\x66\x8a\xb3\x89\x60\x4b\x24\x1c\x96\x87\xba\xaf\x9b\xc1\xfb\x15\x19\xd7\x85\x60\x87\xd9\x52\xc8\xf4\xe6\xaa\x90\x9a\x93\x18\xcc\x9c\x97\x74\xb5\x65\x6a\xcd\xf3\xc9\x52\x1a\x23\xb7\xb3\x3f\x16\xb7\xc1\xbf\xb8\x16\xdc\x4f\x56\x28\xd4\x98\x53\x77\x99\x57\x78\x13\x49\xa0\xc2\x6d\x83\x2c\x43\x45\x14\x10\x7c\x31\x08\xe3\x17\xd7\x0c\x0c\x5b\x5a\x67\x6e\x1e\x4d\x2e\xfd\xd6\xce\xac\x84\xcf\xad\x35\x99\xa4\x1b\x2e\x32\x85\x79\x70\x31\x1e\xf9\x4e\x46\xae\xd7\x34\xb9\x91\x52\x18\x5e\xf8\xd6\x42\xb0\xd4\xee\x39\xf3\x48\xf1\xf5\xc6\x44\x60\xc8\xad\x75\xb0\x80\x09\x01\x01\x9e\xdb\x2d\xc1\x6c\xb8\x06\xf2\x0b\xa2\xc5\x9b\x8d\xdc\xc3\x33\xff\xd8\x39\x0c\x82\x57\x6b\xfd\x08\xae\x64\x28\x7f\x2b\x5c\x09\xd6\x47\x70\xfd\x0b\x75\xf9\x5c\x5c\x57\x5c\x18\x54\xbf\x01\x41\xa7\x3d\x98\x32\x8d\x19\xc8\x1c\x18\xf8\x69\x16\x2f\xed\xdf\x1a\xc9\xf3\x58\xb6\x11\x0a\xe8\xa6\x42\x6a\x8c\x16\xcf\xe8\x4f\x73\xa9\xd7\xd3\x52\xdc\xa3\x45\x6e\xda\xff\x2f\x74\xe9\x54\x8d\x48\x62\xc3\xd3\x60\x7c\xa8\x6d\x31\x83\x40\xee\x36\xa9\x79\x5e\x94\x4d\x47\xaf\x82\xed\xb8\x44\x1b\xe9\x76\x42\x94\x53\x52\x7c\x9e\x40\x10\x6c\x60\x70\x83\x87\xd9\x8e\xfc\x4f\x28\x18\x57\xc0\xf2\x0c\x68\x4d\x1a\x90\x0e\x48\xe4\x73\xb1\xa2\x10\x07\xbb\x23\x04\x41\xb4\x42\xb6\x91\x22\x43\x35\x1f\x56\x00\x92\x24\x19\xfe\x13\x44\xc6\xd3\x61\xc7\x71\xff\x8d\xcc\xd0\x89\xc4\xb2\x34\x46\xba\x33\xd3\xd2\xe4\x6f\xa4\x32\x6f\x0c\x53\xe6\x2d\xdf\x62\x45\xb9\xa5\xc9\x61\x69\xf2\x49\xe6\xf6\xdc\x68\x41\xdd\xe0\xcf\x07\xd0\xd4\x15\x68\x93\xb9\x9e\x3a\x40\x67\x60\xbe\xc8\xb3\x87\x41\xc4\x3c\x7b\x08\xbc\xe7\xa5\x6a\x0b\xce\x59\x80\x99\xef\xf9\x11\x80\xaf\x69\xef\xf8\x38\x34\xab\x16\x35\xa8\x9a\xbe\x56\x2b\x9a\xc7\x0b\x77\xae\x06\x48\xd8\x2d\xd7\x50\x30\xb3\x19\x57\xdf\x68\x47\xf6\x3e\xc7\x8a\x0b\x31\x83\x5c\xe6\x48\xfb\x3e\x00\x39\xb5\x37\x38\x83\xa5\x60\xe9\x8d\x6f\xda\xb0\x02\x27\x0a\xf3\x0c\xe9\x3c\x33\x83\x54\x71\x5d\xbc\xc8\xd6\xa8\xa9\xc3\xb1\x02\x4b\xd2\x1e\xc0\xd2\x09\x7a\xc5\xb6\x5c\x1c\x66\xa0\x59\xae\x27\x1a\x15\x5f\x5d\xd5\x0f\xfd\xf1\xfa\xa2\xb8\xad\x80\x04\x67\xc1\x6d\xa4\x9f\x0a\xe9\x49\x0d\xe9\x51\x80\xf4\xc4\x63\xe6\x40\x19\xc5\x72\x4d\xea\x37\x23\xd7\x28\xd7\x74\x58\x8c\x2f\x8a\xdb\xf1\xd3\x8b\xe2\xd6\xfb\x3f\x93\xad\x9e\x7c\xa4\x1f\x4c\xff\x00\xaf\x5e\xc0\x9f\xe0\x0f\x53\x37\x64\x8f\xcb\x1b\x6e\x1e\x32\xec\x0d\x5b\x31\xc5\xad\xaa\x3e\xdb\x28\xb9\xc5\x0a\x86\x7c\xc8\xf0\xef\x0a\x54\xac\x1a\xb2\x95\xbf\x3e\x64\xd0\x4b\xae\x70\x25\x6f\xdd\x30\xa2\xf3\xa3\xe0\x7a\x41\x52\xfb\x5a\x9e\xda\x1b\xa4\xad\x67\xf6\x84\xd8\x02\x7b\x9e\x99\x8d\xff\xbc\x12\x92\x99\x99\xc0\x95\xb9\x3a\x01\xf3\x88\xec\xa2\x07\x10\xcc\x32\xf0\x9c\x18\x30\x71\xae\x8e\x7d\xe4\x6d\x32\xc1\x98\xc1\x45\xf2\x14\xb7\x15\xa8\x86\x3b\x36\x86\x47\x27\xdb\xca\x67\x8a\x02\x40\xb5\x2d\x00\x5b\x6a\x29\x4a\x83\x57\x6d\x2c\x6b\xc1\xff\x75\x62\x6d\x1d\x89\xe4\x45\x1f\x5e\x90\x54\x7b\x03\xb9\x7c\x0b\xc1\x17\xb4\x0d\x74\x97\xdd\x58\x6f\xc1\xb2\xcc\xea\xcb\xd3\xe2\x16\x9e\x78\x41\xa7\xf3\x23\x32\x35\x83\xa5\x34\x9b\x06\xe6\x7b\x47\x78\xf8\xca\xcd\x0e\x60\xa9\xe7\xd9\x01\x97\xc9\x57\x4f\xfe\xeb\x1f\xff\xcb\xe5\x57\x4f\x3d\x0c\xe2\xdb\x0c\x1e\x3d\x7d\xea\x1b\xf6\x1b\x6e\x70\xa2\x0b\x96\x22\x2d\x6a\xaf\x58\x71\x12\x21\xfb\xcc\x10\x04\x99\x7b\x98\x53\xb4\xf1\x27\xae\x9f\x33\xc3\x8e\xc7\xab\xea\x21\x39\x7b\x6f\xbd\xb2\x3d\xdb\x90\x31\xb6\x3d\xdf\x74\x9b\x9b\x63\xac\x58\xc1\x9c\x4e\xb8\x89\x3f\xb6\xa0\x8a\x46\x89\x6d\x8f\x1b\x07\x51\xdc\x42\x2a\x73\x8a\xbd\xb9\x63\x8d\xdb\x59\x63\x9e\x03\x6e\xa1\xcc\xb9\xd1\x23\xda\xe5\x0a\x7e\x8b\x42\xbb\x06\xab\x5a\x0a\x4d\xa9\x72\x0d\xdc\xb8\x93\x67\x58\x16\xe0\x36\xc6\xed\x8f\xd4\xaf\x3e\x72\x11\x46\xc4\x81\x37\xfc\x57\x84\x39\x14\x4c\x69\x7c\x49\xc2\x1e\x3f\x8e\x87\x4b\x99\x1d\x86\xa3\x24\xd5\x3a\x1e\x56\x02\x36\x1c\x79\x5b\x01\x7e\xa6\x7a\xfc\x1f\xc0\xc3\xf7\x87\xa9\x6a\x29\x79\xb9\x7d\xa9\xe4\xf6\x45\x03\x3b\x5a\x51\x5e\x6e\x97\xe4\x12\x28\xb9\xf5\x07\xb7\x8c\x62\x5b\xf4\xb1\x90\x86\x8e\x71\x4c\x88\x03\xac\x99\x5a\xb2\x75\x15\xd5\xd0\x86\xec\xf0\x18\x30\x59\x27\x10\x05\x5b\xf7\xca\xe0\xf6\x97\xcb\xaf\xbe\x7a\x1a\xc1\x64\x01\xf4\xa1\xbd\xf8\x1a\x85\x58\x1b\x55\x13\xc0\xaf\xc1\x2e\xfc\x55\x6e\xe8\x61\xb2\x65\x26\xdd\xc4\xd3\xf8\xe7\xec\xcb\xd1\xe3\xe9\xe8\xdd\xc5\xfb\x31\x5c\x5e\xf8\x65\xd7\xab\x7a\x95\x73\xc2\x90\x56\xbe\x94\xd2\x68\xa3\x58\x01\xde\x89\xd1\x8e\xf6\x8f\xe3\xe1\xbb\x5e\x1f\xe7\xfd\x70\x94\xf8\xcf\x4d\x9e\x6b\x34\xc1\xd9\xfe\x89\x6b\xbe\x14\x08\x7b\x26\x6e\x48\x00\x94\x2c\xd7\x1b\x4b\x26\x02\x68\x39\xbd\xe2\x79\xa6\xdb\x6e\x71\xcc\xf3\x54\x94\xa4\x78\x01\x64\xc6\x29\xe0\x63\x40\xe6\xa8\x47\x81\xbc\x6b\xbe\xc3\xdc\xba\xf8\xaf\x9e\x27\xf0\xca\xc0\x96\xa9\x1b\x0d\xc8\xd2\x0d\x75\xa4\x68\xe6\xce\xcf\x1f\x1b\x55\x22\x48\x15\xe0\xad\x98\xd0\x38\x4a\xda\xd4\x3d\xc5\x3b\x76\xc0\xc7\x01\x4e\x4d\xf1\xc7\x09\x4d\x13\xd3\x2a\x1a\xc1\x00\x3e\x06\x69\x36\xd8\xe0\x0c\x00\x5f\xc5\xb6\x2d\x29\x6c\xac\x9a\x12\x01\xaf\x9e\xc3\x17\x73\x8f\x78\xb3\x6b\x60\x64\x10\x4d\x92\xbe\xf0\xc9\xc1\x08\xeb\x99\x07\x8c\xea\xae\x3d\xd8\xbb\x31\xdd\x35\x9c\x84\x0b\x2a\xc6\xa5\x42\xe6\xf8\xdd\xf2\xc3\xb7\xf2\xb9\x34\xda\x7d\xd5\x0d\x52\xcb\xe5\x07\x4c\x0d\xc4\xc4\x2c\xb9\x02\x6e\x86\x9a\x3c\x58\x6d\xf9\x68\xbd\x50\x3d\x22\x46\x04\x78\x4d\x35\xb1\xc0\xc6\xb0\x2c\x7d\xf8\x82\x60\xd8\xb1\xde\x7c\x50\x60\x2f\xa3\x59\xe3\x64\x04\x0a\xad\x93\x9b\xd9\xae\x01\x5a\x49\xce\x8b\x4e\xa5\x42\x9d\xc0\x5b\x3a\x89\x72\x0d\xa5\xc6\x55\x29\x20\x84\xb1\x5e\xd2\x2f\xa3\x90\x19\x8f\x19\x01\x70\x70\x99\x06\x96\xa6\xa8\xb5\x54\x3a\x80\xe4\xb9\x91\xa0\xcb\xe5\xc4\xad\x4c\x53\xe0\xda\x80\xe0\x06\x95\x55\x5a\x42\xfc\x06\x0f\x5d\x41\x69\xd3\x29\x96\x35\x0f\xc9\x12\xe5\x8e\x7a\x73\xb8\x3b\x5e\xb5\xa5\x45\x36\x44\xe5\x66\x0c\xbb\x26\xef\xdd\xa8\x77\x37\x89\x5f\x7b\x3c\xfd\x39\x99\xae\xc7\xc3\x5f\x86\xa3\xf7\x30\x87\x5d\x87\x69\x95\xce\xbb\x71\x5d\x4e\xba\xb3\x42\x90\x87\x97\xe5\xaf\xbf\x1e\x88\x54\xda\x13\x48\xc2\x8a\x9a\x26\x1a\x99\x4a\x37\xa7\x7a\x19\x07\x38\xba\xc0\x94\xaf\x28\x6d\x22\x0e\x63\x2b\x09\xe4\x27\x38\x86\x1b\xb6\xd6\x23\xfb\x89\x0e\xb6\x1d\x15\x46\x17\xf4\x23\xde\x33\x03\x99\x0c\x00\x89\xbe\xd6\x32\x75\x48\xda\x83\x70\xa5\x7c\xee\x59\x4d\xac\xe9\xd4\x2d\x63\x43\x2c\x05\xc1\xb7\xdc\x9d\x00\xc9\x2e\x3c\x7d\x02\xe9\x86\x29\x96\xd2\xf1\xc9\x2f\xaf\x60\xc6\xa0\xca\xc9\x2f\xe6\xf9\x5a\x8f\x41\x4b\xd8\x23\x7c\x28\xb5\xa9\x21\x6a\xc1\x53\x4b\x99\xa7\x4f\x80\xe7\x29\xd3\x08\x5a\x6e\x91\xec\x88\x3d\x8b\x69\xd8\x4a\x85\x10\xef\x37\x3c\xdd\xc0\x5e\x96\x22\x83\xa6\xcc\x49\x50\x8c\x6b\xac\x01\xb2\x1c\xf0\x36\xc5\x82\x30\xf3\x02\x04\x9e\x2f\x30\xf7\x1f\x12\x3b\x6b\x7c\x31\x86\xa7\x4f\x82\x01\xb5\x83\x7f\x40\xca\x95\xf1\x1d\x8a\x03\x64\xa8\x53\x3a\xd2\x58\x61\x25\xab\x63\x2d\x87\xdd\xb6\x49\x69\x3c\x03\xe8\x63\x65\xf9\x42\x5c\xa1\x06\x28\xcb\x8a\x1c\x0a\x75\x29\x8c\xb7\xed\xde\x3f\xf0\x53\xcc\x21\x2f\x85\x08\x12\x16\x26\x9e\xd7\x52\xdb\xb4\x61\x4d\xe9\x7d\xb8\x39\xb4\xcb\x7b\xb6\x41\x0a\xe8\x6f\x98\xb1\x32\x65\xd7\xb3\xc7\xa1\x42\x10\x52\xde\xd0\x52\x98\xa1\x10\x34\x73\x7b\x42\xdb\xe0\x3b\x1c\xda\x00\x09\x42\x58\xd0\xbd\x46\xf7\xdc\x02\xfa\x8c\x6f\xa5\x50\xd5\x34\xdf\xa3\x22\x47\x9d\xc2\x35\xa4\x3f\x81\xa2\x32\xaf\xa3\x4d\x7a\x68\x0d\x4f\x02\x7f\x43\xc8\xa4\x6b\x67\x3e\xbd\x21\x44\x1b\x9c\xed\x0f\x1b\xb6\x43\xe0\x19\x79\x0a\x29\xf3\x46\xd1\xc8\x1a\xf6\xd8\xea\x98\x95\xb2\x3d\x23\x95\x0a\x4a\x69\xbb\xb6\x21\x36\xc7\x35\xe9\x41\x4c\x56\x30\x3f\xb1\x5c\x96\x46\x8a\xed\xc9\x27\x1c\x5d\x75\x06\xac\x68\x4a\x17\xde\xa7\xd9\xe3\x77\xea\xfd\xb8\x43\x32\xd2\x93\x37\x98\x93\x87\xbe\xc3\x19\xe5\x1c\x34\x8e\x5b\x3d\xf4\x86\x54\x85\xce\xbe\x74\xbc\x29\x3b\x4f\xcd\x46\xa1\xa6\x58\x86\x3d\x4d\x8c\x7d\xeb\x74\x0a\x5f\x83\x90\x7b\x54\x75\x07\x12\x07\xab\x81\xa4\xc5\xa9\x19\xc3\x86\xaf\x37\xa8\xa8\x59\xa0\xae\xa4\xd9\xfd\x27\xc2\xcc\xe0\x3b\x6b\xd4\x13\xfa\x12\xab\xd1\x98\xe8\x43\xeb\x84\x15\x47\x91\xe9\xb3\xb4\x3a\x9e\x10\xc2\x6b\x0c\xa9\x6d\xa9\x31\x71\x5c\x8f\xbd\x59\xba\x1a\xb4\x59\xf0\x1c\x0b\xcc\xc9\x77\xa1\xb8\xde\x7e\x83\x44\x62\x4a\x48\x92\x04\x90\x10\x9f\x95\x1c\x20\xe9\xc3\x0c\xca\xa2\x0d\x90\x52\x69\x1e\x83\x71\xad\x2e\xbc\x76\x6e\xa4\x82\x0d\xcf\x32\x6c\xad\xa2\xeb\x2f\x78\x08\x89\xc0\x7c\x6d\x36\xb0\x80\x8b\x53\xc4\x1b\x76\xc6\x9a\x6d\x9a\x68\xa8\x2b\xa3\xde\x04\xef\x6d\x83\x97\x20\xef\xca\x5c\x0d\x4e\x69\x78\x1c\xb4\x07\xb4\xba\x9e\xdb\xb0\xfe\x49\xfe\xa2\xdd\x11\x43\xe8\x95\xe4\x81\x1c\x48\xe7\x3f\x5a\xd8\x96\x2d\x01\x64\xc3\x9b\x74\xdc\x4c\xfc\x93\xd0\xe1\x6b\xbb\xc1\xa4\x26\xf0\x96\x6b\x70\x65\x1b\x19\x2c\x0f\x2e\xd6\x07\x2b\x29\x48\xae\x7d\x0b\x1d\xdd\x29\x55\x9a\x01\x83\xbf\x97\xd2\xa0\xf7\xa2\xba\x90\xe1\xdf\xf1\x30\x8b\xf0\xb6\xc0\xb4\xea\x13\x75\xfa\xbc\x94\x0a\x7c\x59\xc6\xac\xf3\x08\xbe\x65\x5b\x9c\x45\x3f\xe0\xdf\x4b\xd4\xa6\x3b\xf0\xd5\xaa\x8a\x3e\x43\x26\x51\xd7\x5b\xb4\xa5\x3b\x5b\xca\x5d\x50\x3a\xef\x2f\x90\x6c\xfb\x3d\x75\x7c\x86\x7f\x9a\x0b\xcc\x8d\x38\x90\x45\x10\x1a\x42\xfe\x96\x2c\xca\xc4\x6d\x4e\x4d\x35\xe0\xf9\xfa\x5e\x77\xe0\x3e\x4f\xe0\x27\x26\x38\xe5\x8b\x1a\x21\xd2\x20\xa7\xa4\xba\xba\x10\xdc\xbc\xec\xee\xba\xd4\x18\x47\xb3\x3a\x75\xc6\x57\x71\xa3\x67\x50\x92\x2f\xe6\xf0\xa4\xb9\x49\x4c\xa7\xf0\x0d\xd7\x36\x07\xed\x58\x47\x09\xd5\x16\xd3\xc7\x75\xda\xd5\xc8\xd6\x1a\x09\xbf\x86\x82\x3e\xc0\xdf\xb9\x1a\xf4\x6f\x4c\x41\xa3\x68\x79\x37\x30\x6f\x2e\xf1\xdd\xc5\xfb\xd0\x8b\x9e\xee\x3a\x4f\x2f\xab\xa7\x7c\x15\xef\xde\x5d\xbc\x87\x2f\xe6\x73\x18\x46\x43\xf8\xc7\x3f\x60\xf7\x6e\xe7\xd7\x3d\xb9\xac\x1e\x9c\x59\x7d\x53\x58\xff\xef\x12\x61\x3a\x05\x2a\xd1\x28\x40\x20\xcb\x82\x3b\x64\x14\xe3\xa2\xc2\x53\xbb\xb3\xb9\xd5\x9a\x99\x1f\x46\x94\xd9\x79\xef\xeb\x72\x0c\xf5\xca\x6b\x2f\xec\x9f\x76\xc2\x1b\x9c\x38\x46\x7c\x55\xdb\x79\xe7\xe4\xde\xe0\xa1\x3e\x64\x91\x9e\xa7\xa4\x5c\x56\x4b\x69\x9d\xe4\xdd\xb5\x65\xbf\x81\x95\xdf\xde\xdf\xdd\xbc\x87\xf9\xbc\x7d\xe8\x38\xdd\x26\x68\x8b\x6e\x20\x07\x28\x34\xde\x3b\xc0\x6e\xf9\xcd\xe5\xf4\x33\xd7\xe3\x72\x86\xbb\xc7\x93\xfd\xe0\x6f\x54\x1c\x42\x44\x28\x35\x2a\x97\x13\x41\x3a\x4c\x20\xd8\x34\x05\x84\xe8\xbb\xeb\xe4\x63\x7c\x40\x51\xbd\x31\xf9\xf6\x74\x22\xa1\xd8\x11\xfc\xad\x8a\xb8\x64\x98\x0a\xca\x9f\x07\x8f\x8c\x81\xc6\x82\x29\x32\x1d\x95\xd9\xd1\x7e\xe3\xb3\xc8\xb6\xa0\x02\x37\xb8\xd5\x90\xd6\xfb\xc1\xdf\x4b\x9e\xde\x88\x03\x6d\xbd\x78\x82\x04\x4d\xb0\x47\x21\x20\xd6\x88\x2e\x79\x7a\x72\x88\x34\xb7\x14\x93\xfc\xda\x7e\xb3\x8b\x6a\x56\x29\x9c\xaf\x51\x70\xe5\x0e\x55\x4c\xb3\x53\x76\x72\x0c\x11\x9b\x56\xdc\x93\xbd\xeb\x49\xf8\x50\xf4\x86\xca\x1a\x6c\xa9\x44\x34\xee\x41\x28\x28\xc3\x74\xda\x7e\x48\xa1\x41\x9b\x53\xf5\x55\x22\x9c\x8a\x01\xb7\x21\x11\x57\x95\x99\x78\x0c\x2c\xfd\x86\x1a\x68\x54\x00\x17\xc4\xc2\x0a\x75\x2b\x3d\xeb\x39\xab\xef\xa3\x56\x98\x3f\xc6\x9e\xc8\x4c\x2f\x5d\x03\xf1\xc8\x2a\x3a\x19\x84\x79\x0f\x25\x89\x4a\x71\x44\xbf\x9d\xef\x18\x8d\x12\xd7\xfb\x6a\x70\x36\xc8\x12\x44\x3a\x20\xe2\x7b\x86\x90\xde\x5f\x28\xc2\x5e\x73\x27\x10\xc0\x15\xb1\x6c\x58\x9e\x09\x54\xda\x92\x8c\xcc\x4d\x5b\x88\x68\x9d\x53\x5a\xa8\x27\x4a\xf2\x10\xe6\xb6\xeb\x00\xba\x4c\x0e\x04\xb5\xb2\x76\x9e\xaa\x64\x06\x46\x95\x17\xf7\x91\x19\xdb\xd9\xfc\xcf\x9c\xd1\xda\x91\x51\xab\x88\xa9\x45\xa3\x4a\xaa\xbc\xab\xa2\xcb\x25\xc9\xd5\x83\x48\xe2\x33\xa7\xf7\x62\xe6\xd9\x46\x87\x53\x92\x19\x3b\x55\x2e\xa9\x82\xa7\xc5\x93\xc4\xf7\x3b\x23\x65\x35\x94\xe7\x2e\x9b\x60\xe1\xb4\x70\x6d\x69\x70\x23\x3f\x92\x50\x64\x25\x1a\xd9\x8a\xaf\xb8\x23\x9a\xed\x87\x75\xec\xba\x17\x12\xd5\x98\x69\x1d\x07\x7d\x68\x24\x36\x22\x9b\xd9\x88\xea\x23\x98\xcb\xe3\x74\x26\xf3\xe3\x23\x7a\x18\x8d\xea\xce\x46\x16\x67\xfb\x1a\x59\x44\xa3\x8e\x31\x6f\xb1\xa5\xb9\x50\xc7\x8e\x61\xb7\x92\xad\xc9\xfa\xbf\x04\xa3\xea\xb9\xed\xa1\x4c\x3c\x25\x61\x7f\x76\x7b\x48\x1b\xdb\x43\x32\x38\x8f\xc5\x83\x4c\x62\x9f\x84\x3c\xc8\x32\xd7\x13\x75\xed\xf3\xe8\xea\xcc\x1e\x47\x79\x5f\x6d\x63\x4e\xc6\xee\xe9\xfe\x18\x56\x91\x80\x58\xef\xd3\x27\x55\x99\x00\xfa\x42\x81\xca\x0d\xdf\xe3\x49\xc1\x00\xf9\x60\xbd\xe5\x31\x08\x86\xa9\x35\x9a\x46\xf0\xe4\x63\x0c\xbb\xc1\x43\x59\xf4\x56\xd5\xf1\x55\x8c\x74\xd2\x7e\x26\x33\xa4\xe0\xf6\xe5\xd3\xfa\x59\xe5\xf4\x10\x67\xbf\x95\xc6\xe1\x9c\x0c\xda\x1e\x43\x93\xeb\x1e\x07\xab\x71\x63\x58\x2b\xb6\xec\xe2\x0b\x64\x72\x89\x0e\x61\x91\x1b\xac\x56\x98\xfc\x46\xc6\xbe\xe3\xc1\x04\x43\xff\x38\x26\x17\x62\x94\xec\x98\x88\x47\xa3\x4f\xe0\xfd\xb9\x4d\x21\x88\x44\xa0\x6b\x30\x2e\xdf\x15\x98\x93\x31\xce\x98\x29\xb7\x63\x90\xcb\x0f\x35\x4d\x1f\x36\x5f\xa3\xd7\xb9\x45\x3b\xb8\x67\x06\xb4\xed\x8e\xc5\x23\xb1\x89\xfd\x7b\x66\xf8\x34\xdb\x83\x49\xc1\xd6\xf8\x3f\x3a\x56\xc6\xb5\xfe\xcf\x13\x83\xe2\x63\xde\x0d\x9f\xf3\xd8\x21\x5d\x87\xc2\x15\xbd\x82\xba\x29\x5c\x96\x5c\x64\xa1\x8c\x38\x74\xb7\x4a\x92\xa6\xb2\xcc\x8d\xdd\x68\xd2\x0d\xcb\xd7\xa8\xad\x2f\xb9\x2d\xb5\x81\x15\x57\xda\x00\x6e\x0b\x73\xa8\x21\x72\x43\x65\xe6\x85\x40\x83\xe2\x10\xa4\x8e\x52\xa2\x9d\xc2\xc9\x51\x62\x07\x56\x39\x32\x2b\xec\x54\x0a\x6f\x63\xd0\x16\x11\xef\x3d\xf8\x14\x8b\x0e\x21\x0b\xb2\x51\x16\xa1\x82\xb9\x73\xa7\xb5\x0a\xd9\xd3\x0a\x76\x53\xd6\x3d\x8c\xe7\x34\x66\x0e\xef\xde\x5f\x7d\xf4\x24\xd3\x94\x28\x7b\x62\xf8\x42\x2e\x3f\x04\xe7\xbe\xf9\xa8\x52\xe1\x1e\x47\xbf\x31\x6d\x52\x94\x7a\x13\x37\x05\xaa\xe6\x1d\x1d\x39\x1b\x3d\xfd\x11\x7b\x3e\x87\x8b\x1e\x4b\xe1\xbf\x7b\xee\xba\xe5\xd9\x92\x87\xb7\x2e\xdd\x58\x45\xaa\x1b\xcf\x89\x24\xa4\xa3\x96\xf5\xcd\xa0\x35\xe5\x80\x78\x3e\xb6\x89\x01\x33\x06\x5b\x23\xd0\x9c\x93\xaf\x7c\x97\x66\xa3\x0f\x8c\x73\x3a\x29\x92\x59\x0c\x95\x12\xc3\xd1\x55\xa7\x0f\x85\x02\x14\xe5\x7b\x2c\x7c\x57\x8f\xa1\x6b\x1d\xa4\x9f\x8c\xef\x12\x8a\x5b\xc5\xc3\x46\xb9\x46\x48\x4a\xd3\x41\x79\xad\x64\x99\x67\x13\xfb\x70\x38\x06\x0f\xc3\x61\x7a\x06\x92\xad\xd8\x18\x7a\xd5\x6c\x50\xf6\x9d\x1d\xf5\x3e\x59\x95\x42\xbc\x6e\xe9\x6a\xff\x78\x66\x8c\x8a\x23\x5b\xa7\x18\x8d\xa1\x07\x50\x50\xf8\x06\x94\xe9\x14\xa8\x76\xd9\x3e\xa1\x08\xac\xc2\x54\x2a\xaa\x30\x27\x3b\x30\xf6\x11\x24\x75\x53\x16\x41\x3c\xe9\xc7\xf0\x22\xd9\x98\xad\x20\xe7\x86\x6a\xc9\x16\xd1\x43\x90\x77\x43\xda\x44\x20\x48\xe4\xe6\x5a\x43\x4c\x06\x39\xaa\xaa\x85\x6c\x06\x3d\xfa\xd2\x82\xa1\x9c\x77\x63\x5c\xcf\x61\x96\x00\xb5\x2d\x66\x2d\xd8\x95\xec\xb5\x93\xe4\x2d\xab\xe1\x38\xee\xfb\x91\xbc\xa4\xbe\x7e\x22\x7b\x9a\x84\x4e\xd5\xed\x82\xf6\x8f\x2f\x95\xb0\xbf\xcf\xf4\xd0\x86\xa5\x37\xe7\x86\xbb\x4a\x9c\xf8\xce\x9a\x51\xdc\xc6\xff\x79\x34\x06\x5b\x62\x38\xbb\x18\x5b\x23\x7a\x31\x06\x5f\x3a\x79\x71\x3c\x03\xc3\xca\x74\xb5\x9d\x43\x9c\x8d\x81\xfb\xed\x86\x7c\xf5\x96\x42\xd9\x0c\x7a\xad\x43\x23\x38\x07\x74\x2b\x4b\x8d\xb2\x34\x0f\x85\x6b\x8d\xf9\x43\x00\xb7\x4b\xfa\xbb\x50\x7b\xc7\x00\xec\x79\x9e\xc9\x7d\x22\x64\x6a\xcf\xa6\x09\x15\xcd\xc2\xdc\xe1\x92\x94\xaa\xca\x75\x75\x7f\xa6\x53\x57\xc5\x4f\xf7\x60\x12\x0a\xf1\xe5\x6b\xbe\x3a\xf8\x2d\xd0\x47\x54\xc6\xd6\x06\x8d\xe1\x49\x5b\x3a\xeb\x7f\xd5\xce\x7e\x22\x44\xce\x8a\xf9\x67\x24\x38\xce\xa6\x59\xb1\x29\x62\xaf\x94\x43\x5b\x49\x38\x1c\xc3\xd0\x1a\xfc\xa2\x36\x3d\x24\xb7\x72\xb5\xd2\x68\xe2\x77\x93\xcb\x8b\x31\x58\x41\x6f\x80\xd3\xbb\xb5\x03\xe7\x5d\xec\x9e\x2d\x89\x15\x05\xc5\xe3\x23\xbd\x5b\x47\xc1\x0a\x58\x69\x8c\xc6\x70\x56\x2a\xc9\x7f\x28\xb7\x4d\x8d\x1d\x25\x94\x1c\x8e\x2d\xfb\x7a\x47\xd8\xda\xa5\x38\x22\x51\x5b\x09\xb9\x8f\xc6\x10\xf9\xe1\xd5\x89\xa1\xf9\xe3\xc0\x19\x5e\xb4\x17\xe4\xdd\xbc\x86\x55\x27\x53\x33\xaa\xd9\xce\x57\x60\x9b\x7c\x24\x0f\xae\xe1\xf2\x2b\x12\x36\xef\x32\xd0\xa3\xab\xc6\xa6\xd5\x68\x4e\x74\xb9\xd4\x46\x51\x16\x96\xbc\xd6\x2f\x21\x4a\x92\x24\x0a\xa4\xae\x72\xf8\x84\xc5\x63\x6b\xf1\x34\xcc\x7b\x76\x79\x07\x2b\x7c\x73\xf5\x8f\x51\xbd\x08\x8a\x9e\xb2\x1b\xd7\x8b\xd2\x3e\xf6\xb4\x5f\x8d\xf5\xe9\x72\xba\x1f\x92\xde\x4c\xe8\x0a\x54\xd2\xda\xe5\x3f\x68\x1b\x9b\xcf\x87\xcd\x8c\x35\xe2\x96\xfc\x16\x9b\x3f\x64\xb0\xa7\xc3\x26\x55\x33\x14\x74\x65\xce\x25\x1e\x91\x69\x5e\x7b\x26\x3e\xe6\x4f\x1f\x9a\xd9\xc9\x25\x45\x67\x49\x4a\x2a\xa7\x88\x50\xf4\x18\x51\xa8\x2e\xaf\xdc\x25\x3a\xf9\x84\x27\x10\x9b\x4d\x23\xdd\xfd\xe6\xa7\xff\x0e\x0a\x53\x33\x72\x6e\x39\x45\xbb\x6d\x21\x56\x18\xfa\xea\x79\xc8\x9d\x53\x8a\x57\x83\xe0\x54\xa2\xda\xa9\x7c\x8a\x46\x7d\xb8\xba\xad\x46\x9b\x50\x6a\x65\x7d\x23\x97\x20\x26\xc8\xd6\xd6\x3b\xc7\x88\xe2\xa0\x0d\xd9\x3c\xef\x92\xc1\x7a\xe1\xaf\x63\x11\x1f\x4e\x8b\xe6\x02\xc3\x1d\xec\x79\xb3\xf0\x2a\xb8\xff\x44\x8b\x4a\x53\x79\xd6\xa8\x28\x73\x43\xad\x00\x90\xa4\xd8\x0f\xda\xef\x6c\x95\x3c\x40\x43\x3b\x2d\xc0\xaa\x1d\xc0\x9e\x41\x9d\x1d\xdd\xa1\x6a\x9e\x43\xbb\x86\xee\x3e\x13\x4d\xf3\x35\x70\x02\x38\x9e\x99\xa3\x34\x9d\x29\xee\xb7\xd0\x0e\x6e\x0f\xb4\x93\x53\x73\x17\xdb\x33\xc6\xb8\x67\xff\xef\x58\xe6\xe3\xa8\x97\x6e\x96\xb2\x0f\x26\xdc\x03\x88\xf5\xbb\x92\x88\x04\xce\x27\x8d\x1d\xe6\x09\xcf\x73\x54\x7f\x79\xfb\xcd\xeb\xd1\xa8\x5e\x5e\x23\x30\x40\xb7\xbd\x28\x50\xed\x0f\x58\x74\x1a\x86\xd8\x56\x0c\xda\x9d\xde\x59\x8b\x91\xbf\x81\xb6\x47\x90\x85\x8b\x8a\x34\x61\xf9\xb1\xf6\x28\x4d\x76\x27\xf8\x2f\x24\x35\x56\x61\x59\xbe\x16\xd5\x31\xc2\x7b\xbd\x64\xe4\x5b\xfb\x47\x5b\xe8\xc9\xaf\xa2\x9d\x80\xd9\x8f\x35\xa3\x1e\xc7\xef\xa8\xdb\x18\xec\xf2\xde\xfb\x58\x4a\x8d\x7c\x93\x86\xd8\x30\xce\xfd\xe7\xdd\x53\xb1\xa8\x23\x92\xf4\xd3\x51\xc4\xdf\x71\xae\xf0\xc9\xbb\x84\x7c\x45\x7e\x00\xa3\x30\x07\x39\x00\xf0\x6f\xff\x76\x5a\x43\x5b\x8b\x7e\xe7\x44\xda\x82\x44\x56\x9c\xac\x37\xdd\x78\x41\x7b\xce\xb3\x76\x4e\x4b\x65\xaa\x52\x5b\x6a\xa1\xf2\x09\x98\x57\x20\xc9\xf3\x9f\xc1\x70\x38\x6e\xe7\xd6\x79\xbe\xfe\x4e\x65\xa8\x3a\x75\x18\xee\xaa\x52\x78\x12\x68\x42\x30\xba\xdb\xe7\x86\x6b\x7b\xe0\xb7\xd9\x3f\xfa\xd0\x56\xe0\xfa\xb9\x7b\x7a\xd5\x7d\xd6\xc1\xe3\x34\x3b\x54\xed\xbb\x97\x75\x9b\x27\xc5\x3d\x40\xbe\xe8\x6b\xbf\x3a\x45\xbd\xd3\xa3\x8d\xbc\x9f\x78\x72\x79\xef\x81\xa0\x0f\xbd\xe6\xdf\xa3\xb7\x43\xc4\x38\xe2\xc9\xd2\xdf\x5f\xe1\xf9\xfa\x17\x62\x74\x27\x18\x61\x29\xdf\xba\x0f\xd3\xb0\xe0\xc4\x5c\xe2\x74\x58\x66\x60\x74\xd2\x60\x58\x3c\xb4\xd7\x63\x2c\xec\xda\xfd\x23\xe9\x4b\x68\x68\xbd\x71\xb1\x31\x2c\x9b\x0b\x9e\x4e\x29\x57\x48\x99\x71\x2e\xf3\x36\xa9\x0e\x05\xca\x15\x30\x7b\x40\xd1\x96\xd5\x43\x17\x75\xb0\x69\x60\xff\x78\xd9\xf3\x78\xd4\x47\x44\xa2\xbe\x87\x15\x5c\xaf\x39\x1d\xea\x09\xd6\xb2\xa7\xbd\x05\xa4\x82\xe2\xe9\xd9\x07\xf5\xdd\xc5\xfb\xa4\x45\x63\xb8\x86\xe5\x99\x47\xa3\x3e\x66\xd6\x34\xfe\x43\x1f\xfb\xef\x9d\x6a\xf1\x99\x53\x9d\xcc\xd2\xd3\xf9\xa2\x47\xc8\x46\x0f\x34\x1a\x5e\xf6\x9c\xb4\xdf\x2b\x79\xfe\xd6\xd4\x27\xcb\x1d\xe6\xd9\xbf\xba\xd4\x35\xa8\xdb\x96\xb9\xc6\x83\x51\x1f\x67\x3f\x4d\xe2\x9a\xd3\x2c\x3e\x6b\x9a\x93\x19\x7e\x1f\x69\x0b\xd7\xe0\xce\x89\x5a\xb8\x50\xf7\xc9\xb2\x16\x00\xff\x0b\xcb\x5a\x20\x41\x5b\xd0\x42\xeb\xa8\x8f\xa3\x9f\x26\x65\xd5\x04\x8b\x4f\x9f\xe0\x04\xf6\xef\x23\x5f\xd6\x6b\x04\x26\x8a\x0d\x5b\xa2\x2d\x86\x15\x87\xca\x0d\xaa\xc5\xec\xb5\x3f\x58\x55\x92\x31\xfa\x34\x69\xb3\xd3\xfc\xd6\xa2\x66\x81\x3a\x59\x72\xd1\xa2\xb6\xa8\x9d\x3e\xfe\x14\x29\xb1\xa3\x13\x23\x5f\x53\x49\xec\x33\xa6\x31\x1e\x59\x39\xe9\x69\xff\x7c\x49\xe9\x9b\x64\xf1\x39\x93\x9c\xc0\xff\x8d\xa5\x85\x32\x96\xb4\xff\xe1\x0e\x0d\x45\x3c\x7c\xc1\x88\x4f\x60\x46\x8f\x4e\xae\x20\x87\x17\xb9\xf4\xb8\x63\xa3\xab\xee\xb0\x70\xcb\xf8\x74\x90\x7f\x72\x3a\xa4\xba\x48\x7c\x3a\x26\x3c\x3a\x1d\x64\xa5\xb8\x67\x96\x3a\x64\x7f\xf2\x02\x0f\xff\x92\x25\xca\x2d\xc1\x5b\x8a\x11\xd9\x97\x26\xdd\x73\x6d\x38\xdc\xd2\x86\xbb\xe6\x65\xc6\x09\x45\x87\xe1\x12\xb7\xad\x2b\x8e\xe1\x9e\x7d\x78\x40\x6c\x79\x54\x28\xb9\xe2\x02\x7f\xe2\xb8\x1f\xc3\xa3\x1d\xaa\xa5\xd4\xf6\x40\x46\x2d\x1e\xea\xc9\x3d\x4c\x1a\x99\xac\xf8\x2d\x66\x13\x43\x58\x4e\xaa\x0b\x82\x7e\xc4\x92\x72\x05\xaa\x33\xc0\x76\x05\xb3\x81\xbb\xd3\x0b\x95\xae\x0e\xa3\xdb\x35\xf3\x5d\x01\xf6\x52\x65\x93\xa5\x42\x76\x33\x03\xfb\x67\xc2\x84\x38\xb9\x3b\x49\xc4\xfb\x6b\xa9\x0d\x5f\xd1\xcb\x58\x14\xcb\xb8\x9c\x78\xd9\xb1\x47\x2f\xbd\xe7\xbe\x9c\x6e\x89\x66\x8f\x98\xd7\x35\xc7\x9e\x0e\x40\x04\x75\xaf\xaa\xea\xbb\x0c\x6f\xaf\x7b\x53\x26\xa7\xa8\x3f\x4d\x3e\x54\x33\xd6\x6d\xb7\x3a\x82\xd6\x85\x3a\x8f\x46\x64\xaf\xa7\x5b\xcc\xa4\xbf\xcf\x79\x6d\xd5\xaf\x7b\xa7\xbc\x50\x7c\xcb\xd4\x01\xa8\xa0\x6b\xe7\x2e\xe1\x03\xb4\xde\x5a\x60\x81\x44\xf6\x98\xe6\x10\x8c\xc2\x4d\xf5\xc0\xbe\x88\x5c\xb5\x12\xe7\x11\x35\x80\x6d\x59\x54\x1f\xaf\xa7\x16\x18\x01\xbe\x9e\x5a\x14\x3e\x8a\xcc\xa7\x61\xf1\x53\x5b\x96\x2a\x64\x7c\x3b\x34\x90\x3a\x69\xfa\xdd\x91\xfb\xbe\x16\xfb\x0a\x31\xdf\xe6\x71\x6a\x7e\xeb\x43\x27\x5c\xea\x27\x8d\x1d\xc0\x5f\xd9\x8e\xbd\x71\x37\x77\x53\xaa\x8f\xa0\xa0\x2d\x95\x3a\x90\x68\x51\xe4\xa0\x4e\xf5\x4e\x3b\xa2\x96\xb5\x2f\x13\xf0\x74\x33\x00\x4b\x54\x6f\xf5\x28\x3e\xe4\x42\x34\x98\x0d\xac\x5c\x7e\xf4\x86\x30\x05\x43\x2b\x89\xb5\x98\xcf\x2c\x44\xb2\x45\x36\xeb\x1d\xf7\x6f\xac\x9c\x2e\x02\x85\x98\x8b\xcd\x4f\x44\x3c\x6b\x55\x50\x53\x8f\x39\xb4\x64\xac\xb9\x53\x50\x9a\x2e\xab\x1e\x24\xb4\xf0\x60\xdd\x7b\xb6\x8a\x4e\xef\x76\x96\xee\x38\xe8\x9b\xb5\x2b\x53\xdd\xc9\x3b\xf6\xeb\x61\x38\x9c\x0e\x7a\x08\x2a\x5e\x3e\x7a\xd1\xf0\x1c\x7e\x38\x0a\xed\x01\xdd\xe9\x69\xa3\x68\xbf\xe7\x89\x0c\x1d\xc5\xcc\xf9\x96\x32\x01\x74\x6d\x96\x08\x69\x25\x0a\x04\x3b\xc8\xd2\x38\x13\x56\x0a\xab\x8d\x15\x95\x83\xee\xd8\x50\xb9\x7f\xa9\x93\xe0\xad\x56\xa7\x22\x14\x3b\xac\x5f\x1c\x45\x97\xa9\xea\x57\x5c\x7a\x4d\x6b\xbe\x17\x93\xae\x1f\x54\xaf\x68\x34\x4a\x52\x46\x80\xd2\xcd\xf3\xa8\xf1\xf2\x29\x1a\x59\x7d\x75\x23\xc8\x76\x53\xef\xea\x85\x83\x42\x7f\x22\x9c\x0a\xab\x13\x50\xf4\x0e\xce\xc1\x09\xa6\xb4\x84\xe4\xeb\x3c\x97\xee\x42\xa1\x0e\xb3\xb9\xcd\x29\x10\xc2\x7e\xa9\xb6\xb6\x0c\x73\xba\xcf\xe0\xbe\x93\xef\x57\x60\xe6\x89\x40\xc0\x15\xa9\x14\xf8\xb8\x6f\x03\xf4\xb9\x29\x47\x7e\xce\x1a\xb5\x57\x81\x8d\x8d\x27\x00\xd7\x46\x2d\xae\xcd\x66\x71\x77\x97\xfc\x3b\x1e\x88\x58\x66\xb3\xb8\x36\xd9\xe2\xee\x4e\x1b\x05\x89\x7d\xab\xa1\x6d\xce\x16\xd7\x53\xa3\x02\x46\xf5\xea\x4f\xbf\x5d\x4f\xed\x2a\xda\x44\xa2\x66\x7a\x3b\x8e\x7b\x81\x50\x2d\x5d\x5e\x31\xee\x97\xad\xae\xf6\xfc\x87\x88\xfd\x3f\x26\x62\x9f\x2b\x46\x9f\x2d\x36\xde\x98\x9d\x4a\x4c\x78\x21\x55\xd3\xda\x2d\x06\x15\x65\xda\x2f\x20\xa0\x26\xef\x43\x95\x4a\x58\xee\x78\x93\x6b\xdf\x59\x1b\xdd\x4b\x48\x3f\xd0\xbd\x98\x63\x1e\x3d\xf9\xd3\x9f\x3c\x31\xaf\x0d\xbd\x79\x2d\x2c\xf1\xba\xa9\x34\xd7\x74\x8d\x9c\x50\xa0\x63\x0e\x81\x23\x69\x2d\x03\x0e\xf6\x46\xe1\x3c\x22\x99\x8a\x16\xf4\xdb\x92\xf1\xd3\x06\xdb\xa3\xca\x82\x7e\x43\xbc\xd5\xa3\xcf\x84\x10\xaa\x15\x3d\xa4\x2f\xeb\xba\xfa\xff\x13\xa0\xe5\x36\x5a\x3c\x2b\xb7\xa5\x60\xe4\x6f\x42\x2f\x92\xb5\x74\x5c\x4f\x1b\x74\xbc\x36\xf4\x02\x8e\xaa\x13\x59\x8f\x17\xee\x9a\x9a\x9d\x26\x5c\xe0\x27\x07\x9c\x12\x39\x1c\xf7\x21\x63\x6c\x51\x82\x1f\x5f\xf5\xb3\x23\x5b\x4c\xcd\xb6\xf8\x6f\x2b\x29\xe7\x44\x4b\x2b\xa0\xad\xc7\x97\x17\x7f\xbc\x38\x6d\x7d\x7a\x71\xd1\xd3\xfa\xa4\xdb\xdc\x14\xf5\xc9\xa4\x5a\x56\x58\x4a\x25\xf1\x6d\x3f\xcf\x5e\x5a\xb1\x47\x40\xef\xb1\xb1\xe0\xce\x4d\xac\xb8\xdb\x41\xa0\xe4\xde\xd6\x15\xd2\x65\x5e\x7a\x9b\xa3\x91\xa0\x30\xe3\x94\x8b\x83\xd2\x5e\x4b\xb5\x89\xf5\x42\xc9\xc2\xd5\xb9\xd3\x3b\x61\x72\xa0\x8a\xc8\xe4\xe1\x3e\x5e\xd3\x6b\xf0\x47\xa6\xc8\x26\xe4\x86\x16\xc1\x89\x92\xfb\x64\xa9\xdd\x83\x61\x9d\x2b\x03\x4a\x8a\x59\x0c\x1f\xfb\x3c\x7f\x70\x5f\x6c\x95\x5c\x3b\x7f\x4b\x6f\xa4\xf2\xf9\x22\x5a\x55\xf2\xe3\x0f\xaf\x6b\x67\xe7\x4c\xb2\xd7\xf7\x0b\xa7\xfa\x13\xef\xe5\xee\x0e\xf3\xec\x78\x1c\xfc\xef\x01\x00\xfe\x07\x50\x69\x6b\x5b\x00\x00"),
+			uncompressedSize:  23403,
 		},
 		"/traces.html": &_vfsgen_compressedFileInfo{
 			name:              "traces.html",
-- 
2.43.0


From c90e9f957eba2780288cdf833d6c5f2883c5304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:25:27 +0000
Subject: [PATCH 31/32] fix: bracket IPv6 hosts in the default URL of the serve
 command

With --http=[::1]:7700 the pages' base URL was http://::1:7700/, which is
not a URL.
---
 cmd/appdash/serve_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/appdash/serve_cmd.go b/cmd/appdash/serve_cmd.go
index 7bb561d..d63458b 100644
--- a/cmd/appdash/serve_cmd.go
+++ b/cmd/appdash/serve_cmd.go
@@ -195,7 +195,7 @@ func (c *ServeCmd) urlOrDefault() (*url.URL, error) {
 	}
 	addr := &url.URL{
 		Scheme: "http",
-		Host:   fmt.Sprintf("%s:%s", host, port),
+		Host:   net.JoinHostPort(host, port),
 	}
 	return addr, nil
 }
-- 
2.43.0


From e9aa1520efeda603c057906adeaf5c6f4b93e18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:25:28 +0000
Subject: [PATCH 32/32] fix: default to an https URL in the serve command when
 TLS is enabled

The pages served over TLS had http:// as their base URL, so all their links
led to plain-text requests to the TLS port, which are refused.
---
 cmd/appdash/serve_cmd.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/appdash/serve_cmd.go b/cmd/appdash/serve_cmd.go
index d63458b..ce4f66b 100644
--- a/cmd/appdash/serve_cmd.go
+++ b/cmd/appdash/serve_cmd.go
@@ -174,7 +174,8 @@ func (c *ServeCmd) Execute(args []string) error {
 }
 
 // urlOrDefault returns c.URL if non-empty, otherwise it returns c.HTTPAddr
-// with localhost" as the default host (if not specified in c.HTTPAddr).
+// with localhost" as the default host (if not specified in c.HTTPAddr), and
+// https as the scheme if TLS is enabled.
 func (c *ServeCmd) urlOrDefault() (*url.URL, error) {
 	// Parse c.URL and return it if non-empty.
 	u, err := url.Parse(c.URL)
@@ -193,8 +194,12 @@ func (c *ServeCmd) urlOrDefault() (*url.URL, error) {
 	if host == "" {
 		host = "localhost"
 	}
+	scheme := "http"
+	if c.TLSCert != "" || c.TLSKey != "" {
+		scheme = "https"
+	}
 	addr := &url.URL{
-		Scheme: "http",
+		Scheme: scheme,
 		Host:   net.JoinHostPort(host, port),
 	}
 	return addr, nil
-- 
2.43.0

