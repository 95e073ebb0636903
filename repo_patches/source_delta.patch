From 494e9c1c7858917ba466ebb7546fed40994e1ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 01/48] fix: do not crash on packets without the optional
 parent span ID

---
 span.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/span.go b/span.go
index 0f960b7..e856c95 100644
--- a/span.go
+++ b/span.go
@@ -73,7 +73,7 @@ func spanIDFromWire(w *wire.CollectPacket_SpanID) SpanID {
 	return SpanID{
 		Trace:  ID(*w.Trace),
 		Span:   ID(*w.Span),
-		Parent: ID(*w.Parent),
+		Parent: ID(w.GetParent()), // optional
 	}
 }
 
-- 
2.43.0


From 160f5c85f754502919ea6c3a0bd22d7e226c3061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 02/48] fix: continue with a new root span when a span ID
 header is malformed

---
 httptrace/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/httptrace/server.go b/httptrace/server.go
index ce804bf..5bc2420 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -71,6 +71,8 @@ func Middleware(c appdash.Collector, conf *MiddlewareConfig) func(rw http.Respon
 		spanID, spanFromHeader, err := getSpanID(r.Header)
 		if err != nil {
 			log.Printf("Warning: invalid %s header: %s. (Continuing with request handling.)", spanFromHeader, err)
+			newSpanID := appdash.NewRootSpanID()
+			spanID, spanFromHeader = &newSpanID, ""
 		}
 		usingProvidedSpanID := (spanFromHeader == HeaderSpanID)
 
-- 
2.43.0


From da94dc329d9b371c82d9cd21cc9a3628fbcd26d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 03/48] fix: make spans collected after MemoryStore.ReadFrom
 visible in reloaded traces

---
 store.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 53dcc6f..c013a45 100644
--- a/store.go
+++ b/store.go
@@ -343,10 +343,24 @@ func (ms *MemoryStore) ReadFrom(r io.Reader) (int64, error) {
 		return 0, err
 	}
 	ms.trace = data.Trace
-	ms.span = data.Span
+	// Gob does not preserve pointer identity, so index the nodes of the decoded
+	// trace trees (data.Span holds copies of them that are not in any tree).
+	ms.span = make(map[ID]map[ID]*Trace, len(data.Trace))
+	for id, t := range data.Trace {
+		ms.span[id] = map[ID]*Trace{}
+		ms.indexNoLock(id, t)
+	}
 	return int64(len(ms.trace)), nil
 }
 
+// indexNoLock adds t and its descendants to the span index of the given trace.
+func (ms *MemoryStore) indexNoLock(trace ID, t *Trace) {
+	ms.span[trace][t.Span.ID.Span] = t
+	for _, sub := range t.Sub {
+		ms.indexNoLock(trace, sub)
+	}
+}
+
 // PersistentStore is a Store that can persist its data and read it
 // back in.
 type PersistentStore interface {
-- 
2.43.0


From 298a741045d112537869eeb94ed87ee7f0fc8acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 04/48] fix: persisting a store holding a cycle of parent spans
 overflowed the stack

---
 store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index c013a45..b0018dd 100644
--- a/store.go
+++ b/store.go
@@ -328,7 +328,10 @@ func (ms *MemoryStore) Write(w io.Writer) error {
 	ms.Lock()
 	defer ms.Unlock()
 
-	data := memoryStoreData{ms.trace, ms.span}
+	// The span index is not written: ReadFrom rebuilds it, and spans that form a
+	// cycle of parents (from malformed input) would make the encoder recurse
+	// without end.
+	data := memoryStoreData{ms.trace, nil}
 	return gob.NewEncoder(w).Encode(data)
 }
 
-- 
2.43.0


From 875b2ea98a79dd025bd545bd96b9bdfeccee3c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 05/48] fix: copy the annotations of a new span, do not keep
 the slice of the caller

---
 collector.go | 2 +-
 store.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/collector.go b/collector.go
index 26eb9cd..85cd3c8 100644
--- a/collector.go
+++ b/collector.go
@@ -192,7 +192,7 @@ func (cc *ChunkedCollector) Collect(span SpanID, anns ...Annotation) error {
 			cc.pendingBySpanID[span] = append(p, anns...)
 		}
 	} else {
-		cc.pendingBySpanID[span] = anns
+		cc.pendingBySpanID[span] = append(Annotations(nil), anns...)
 	}
 
 	if err := cc.lastErr; err != nil {
diff --git a/store.go b/store.go
index b0018dd..e4869df 100644
--- a/store.go
+++ b/store.go
@@ -122,7 +122,7 @@ func (ms *MemoryStore) collectNoLock(id SpanID, as ...Annotation) error {
 	// Create or update span.
 	s, present := ms.span[id.Trace][id.Span]
 	if !present {
-		s = &Trace{Span: Span{ID: id, Annotations: as}}
+		s = &Trace{Span: Span{ID: id, Annotations: append(Annotations(nil), as...)}}
 		ms.span[id.Trace][id.Span] = s
 	} else {
 		if ms.log {
-- 
2.43.0


From 3fceafa49918ec9ecf50ed4b3b66135557c134a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 06/48] fix: return snapshots of traces, not the live trees
 that concurrent Collects modify

---
 store.go |  2 +-
 trace.go | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index e4869df..ac20d4d 100644
--- a/store.go
+++ b/store.go
@@ -252,7 +252,7 @@ func (ms *MemoryStore) traceNoLock(id ID) (*Trace, error) {
 	if !present {
 		return nil, ErrTraceNotFound
 	}
-	return t, nil
+	return t.clone(), nil
 }
 
 // Traces implements the Queryer interface.
diff --git a/trace.go b/trace.go
index e53533f..5e96d8d 100644
--- a/trace.go
+++ b/trace.go
@@ -16,6 +16,18 @@ type Trace struct {
 	Sub  []*Trace // Children
 }
 
+// clone returns a copy of the trace tree that is not affected by spans and
+// annotations added to t later (annotation values are shared, never modified).
+func (t *Trace) clone() *Trace {
+	c := *t
+	c.Annotations = t.Annotations[:len(t.Annotations):len(t.Annotations)]
+	c.Sub = append(t.Sub[:0:0], t.Sub...)
+	for i, sub := range c.Sub {
+		c.Sub[i] = sub.clone()
+	}
+	return &c
+}
+
 // String returns the Trace as a formatted string.
 func (t *Trace) String() string {
 	b, err := json.MarshalIndent(t, "", "  ")
-- 
2.43.0


From f99eba1b910a53a80d9b4cda80118e265096b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 07/48] fix: ChunkedCollector.Stop panicked before the first
 Collect and when called twice

---
 collector.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collector.go b/collector.go
index 85cd3c8..d757886 100644
--- a/collector.go
+++ b/collector.go
@@ -268,7 +268,9 @@ func (cc *ChunkedCollector) start() {
 func (cc *ChunkedCollector) Stop() {
 	cc.mu.Lock()
 	defer cc.mu.Unlock()
-	close(cc.stopChan)
+	if cc.started && !cc.stopped {
+		close(cc.stopChan)
+	}
 	cc.stopped = true
 }
 
-- 
2.43.0


From 96437c386ef2456cb8b2905f8f276735789e1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 08/48] fix: unmarshal float64 and time.Duration event fields
 without loss of precision

---
 reflect.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reflect.go b/reflect.go
index fe33dba..c5a8d62 100644
--- a/reflect.go
+++ b/reflect.go
@@ -2,6 +2,7 @@ package appdash
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"strconv"
@@ -104,7 +105,7 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 		if err != nil {
 			return reflect.Value{}, err
 		}
-		d := time.Duration(usec * float64(time.Millisecond))
+		d := time.Duration(math.Round(usec * float64(time.Millisecond)))
 		return reflect.ValueOf(&d), nil
 	}
 
@@ -118,7 +119,7 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 		}
 		return reflect.ValueOf(&vv), nil
 	case reflect.Float32, reflect.Float64:
-		vv, err := strconv.ParseFloat(s, 32)
+		vv, err := strconv.ParseFloat(s, 64) // exact for float32 values as well
 		if err != nil {
 			return reflect.Value{}, err
 		}
-- 
2.43.0


From e21666983157dbb038795d876a4ba577951bb5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 09/48] fix: sync the persisted store before it replaces the
 previous file

---
 store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/store.go b/store.go
index ac20d4d..4065e7f 100644
--- a/store.go
+++ b/store.go
@@ -385,6 +385,11 @@ func PersistEvery(s PersistentStore, interval time.Duration, file string) error
 			f.Close()
 			return err
 		}
+		// The data must be on disk before it replaces the previous file.
+		if err := f.Sync(); err != nil {
+			f.Close()
+			return err
+		}
 		if err := f.Close(); err != nil {
 			return err
 		}
-- 
2.43.0


From c7cbdddac49309d25e2b2defe06bb2bca4d81229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 10/48] fix: RecentStore lost or forever kept spans collected
 for a trace that is being evicted

---
 store.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/store.go b/store.go
index 4065e7f..981bdd4 100644
--- a/store.go
+++ b/store.go
@@ -432,17 +432,20 @@ type RecentStore struct {
 // Collect calls the underlying store's Collect and records the time
 // that this trace was first seen.
 func (rs *RecentStore) Collect(id SpanID, anns ...Annotation) error {
+	// The lock is held until the span is stored, so that no eviction of its
+	// trace can come between, and old traces are evicted first, so that a span
+	// of an evicted trace starts a new trace that will be evicted in its turn.
 	rs.mu.Lock()
+	defer rs.mu.Unlock()
 	if rs.created == nil {
 		rs.created = map[ID]int64{}
 	}
-	if _, present := rs.created[id.Trace]; !present {
-		rs.created[id.Trace] = time.Now().UnixNano()
-	}
 	if time.Since(rs.lastEvicted) > rs.MinEvictAge {
 		rs.evictBefore(time.Now().Add(-1 * rs.MinEvictAge))
 	}
-	rs.mu.Unlock()
+	if _, present := rs.created[id.Trace]; !present {
+		rs.created[id.Trace] = time.Now().UnixNano()
+	}
 
 	return rs.DeleteStore.Collect(id, anns...)
 }
@@ -468,8 +471,9 @@ func (rs *RecentStore) evictBefore(t time.Time) {
 		log.Printf("RecentStore: deleting %d traces created before %s (age check took %s)", len(toEvict), t, time.Since(evictStart))
 	}
 
-	// Spawn separate goroutine so we don't hold the rs.mu lock.
-	go func() {
+	// Delete while holding the rs.mu lock: a separate goroutine could delete
+	// spans that are collected after this.
+	func() {
 		deleteStart := time.Now()
 		if err := rs.DeleteStore.Delete(toEvict...); err != nil {
 			log.Printf("RecentStore: failed to delete traces: %s", err)
-- 
2.43.0


From 241101c1638a38cbd4eef5ddab931616765dd683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 11/48] fix: record the status and body length that are sent to
 the client

---
 httptrace/server.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/httptrace/server.go b/httptrace/server.go
index 5bc2420..c977a21 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -161,11 +161,12 @@ type responseInfoRecorder struct {
 
 // Write always succeeds and writes to r.Body, if not nil.
 func (r *responseInfoRecorder) Write(b []byte) (int, error) {
-	r.ContentLength += int64(len(b))
 	if r.statusCode == 0 {
 		r.statusCode = http.StatusOK
 	}
-	return r.ResponseWriter.Write(b)
+	n, err := r.ResponseWriter.Write(b)
+	r.ContentLength += int64(n)
+	return n, err
 }
 
 func (r *responseInfoRecorder) StatusCode() int {
@@ -177,7 +178,10 @@ func (r *responseInfoRecorder) StatusCode() int {
 
 // WriteHeader sets r.Code.
 func (r *responseInfoRecorder) WriteHeader(code int) {
-	r.statusCode = code
+	// Only the first final status is sent to the client.
+	if r.statusCode == 0 && (code >= 200 || code == http.StatusSwitchingProtocols) {
+		r.statusCode = code
+	}
 	r.ResponseWriter.WriteHeader(code)
 }
 
@@ -196,6 +200,9 @@ func (r *responseInfoRecorder) partialResponse() *http.Response {
 // implements http.Flusher.
 func (r *responseInfoRecorder) Flush() {
 	if f, ok := r.ResponseWriter.(http.Flusher); ok {
+		if r.statusCode == 0 {
+			r.statusCode = http.StatusOK // flushing sends the header
+		}
 		f.Flush()
 	}
 }
-- 
2.43.0


From 8c62a09f943407fa1d3de18076a1a789592ff5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 12/48] fix: recording a header and trailer of the same name
 could modify the header

---
 httptrace/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httptrace/client.go b/httptrace/client.go
index 0fa6fc7..23075f3 100644
--- a/httptrace/client.go
+++ b/httptrace/client.go
@@ -91,7 +91,7 @@ func redactHeaders(header, trailer http.Header) map[string]string {
 		if isRedacted(k) {
 			h[k] = redacted
 		} else {
-			h[k] = append(h[k], v...)
+			h[k] = append(h[k][:len(h[k]):len(h[k])], v...) // never append in place to a header
 		}
 	}
 	m := make(map[string]string, len(h))
-- 
2.43.0


From d566b3fe82c3eb1fa0be5769af3dd799c1603ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 13/48] fix: MemoryStore and MultiQueryer ignored
 TracesOpts.TraceIDs

---
 multi.go |  2 +-
 store.go | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/multi.go b/multi.go
index d3dd791..399c9ca 100644
--- a/multi.go
+++ b/multi.go
@@ -59,7 +59,7 @@ func (mq *multiQueryer) Traces(opts TracesOpts) ([]*Trace, error) {
 		all   []*Trace
 	)
 	for _, q := range mq.queryers {
-		traces, err := q.Traces(TracesOpts{})
+		traces, err := q.Traces(opts)
 		if err != nil {
 			return nil, err
 		}
diff --git a/store.go b/store.go
index 981bdd4..29c2032 100644
--- a/store.go
+++ b/store.go
@@ -35,6 +35,16 @@ type TracesOpts struct {
 	TraceIDs []ID
 }
 
+// selects returns whether the trace with the given ID passes the TraceIDs filter.
+func (o TracesOpts) selects(id ID) bool {
+	for _, want := range o.TraceIDs {
+		if id == want {
+			return true
+		}
+	}
+	return len(o.TraceIDs) == 0
+}
+
 // A Queryer indexes spans and makes them queryable.
 type Queryer interface {
 	// Traces returns an implementation-defined list of traces according to the options.
@@ -262,6 +272,9 @@ func (ms *MemoryStore) Traces(opts TracesOpts) ([]*Trace, error) {
 
 	var ts []*Trace
 	for id := range ms.trace {
+		if !opts.selects(id) {
+			continue
+		}
 		t, err := ms.traceNoLock(id)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 8c9a841accc4902d39b545c95224c864f47f3935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 14/48] fix: event fields after an empty slice were lost, nil
 pointers panicked

---
 reflect.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/reflect.go b/reflect.go
index c5a8d62..389dc8d 100644
--- a/reflect.go
+++ b/reflect.go
@@ -12,6 +12,9 @@ import (
 )
 
 func flattenValue(prefix string, v reflect.Value, f func(k, v string)) {
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return // absent
+	}
 	switch o := v.Interface().(type) {
 	case time.Time:
 		f(prefix, o.Format(time.RFC3339Nano))
@@ -185,7 +188,10 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 	if len(*kv) == 0 {
 		return nil
 	}
-	if !strings.HasPrefix((*kv)[0][0], prefix) && t.Kind() != reflect.Map { // map can have 0 fields
+	if key := (*kv)[0][0]; prefix != "" && key != prefix && !strings.HasPrefix(key, prefix+".") && t.Kind() != reflect.Map { // map can have 0 fields
+		if key > prefix+"." {
+			return nil // no value for this field; leave the rest to the other fields
+		}
 		*kv = (*kv)[1:]
 		return unflattenValue(prefix, v, t, kv)
 	}
@@ -294,6 +300,9 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 
 			*kv = (*kv)[1:]
 		}
+		if len(elems) == 0 {
+			return nil
+		}
 
 		if v.Kind() == reflect.Slice {
 			v.Set(reflect.MakeSlice(t, maxI+1, maxI+1))
-- 
2.43.0


From a152ea4cb4b9970fbec9a6acbf009163be5eb6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:13 +0000
Subject: [PATCH 15/48] fix: do not reuse a connection on which a message was
 written in part

---
 collector.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/collector.go b/collector.go
index d757886..41404c4 100644
--- a/collector.go
+++ b/collector.go
@@ -368,7 +368,13 @@ func (rc *RemoteCollector) collectAndRetry(p *wire.CollectPacket) error {
 	if err := rc.connect(); err != nil {
 		return err
 	}
-	return rc.collect(p)
+	if err := rc.collect(p); err != nil {
+		// The message may be on the stream in part: nothing can follow it.
+		rc.pconn.Close()
+		rc.pconn = nil
+		return err
+	}
+	return nil
 }
 
 func (rc *RemoteCollector) collect(p *wire.CollectPacket) error {
-- 
2.43.0


From a96ef7aaa494ef8a0e2ee539713fb3185dba6bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:29 +0000
Subject: [PATCH 16/48] fix: values of redacted headers sent as trailers by a
 handler were recorded

---
 httptrace/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httptrace/client.go b/httptrace/client.go
index 23075f3..97dd917 100644
--- a/httptrace/client.go
+++ b/httptrace/client.go
@@ -102,6 +102,7 @@ func redactHeaders(header, trailer http.Header) map[string]string {
 }
 
 func isRedacted(name string) bool {
+	name = strings.TrimPrefix(name, http.TrailerPrefix) // trailers of a handler
 	for _, v := range RedactedHeaders {
 		if strings.EqualFold(name, v) {
 			return true
-- 
2.43.0


From 80bef4064aec050af0ad12c03338fce95a23fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:29 +0000
Subject: [PATCH 17/48] fix: headers whose names differ in spelling only were
 not all recorded

---
 httptrace/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httptrace/client.go b/httptrace/client.go
index 97dd917..acde0d0 100644
--- a/httptrace/client.go
+++ b/httptrace/client.go
@@ -96,7 +96,11 @@ func redactHeaders(header, trailer http.Header) map[string]string {
 	}
 	m := make(map[string]string, len(h))
 	for k, v := range h {
-		m[http.CanonicalHeaderKey(k)] = strings.Join(v, ",")
+		name, value := http.CanonicalHeaderKey(k), strings.Join(v, ",")
+		if other, ok := m[name]; ok && !isRedacted(k) {
+			value = other + "," + value // another spelling of the name
+		}
+		m[name] = value
 	}
 	return m
 }
-- 
2.43.0


From 461172377d72b75bde3addde4145bae0a1a5b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:23 +0000
Subject: [PATCH 18/48] fix: opentracing Recorder must not use a nil Log when
 an error cannot be collected

The comment of logError says that errors are logged if the logger is
non-nil; setting Recorder.Log to nil made RecordSpan panic as soon as the
collector failed.
---
 opentracing/recorder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentracing/recorder.go b/opentracing/recorder.go
index c7e376c..3f26068 100644
--- a/opentracing/recorder.go
+++ b/opentracing/recorder.go
@@ -101,6 +101,9 @@ func (r *Recorder) logError(spanID appdash.SpanID, err error) {
 
 	// At this point, something is definitely wrong.
 	if err := r.collector.Collect(spanID, ans...); err != nil {
+		if r.Log == nil {
+			return
+		}
 		if r.verbose {
 			r.Log.Printf("Appdash Recorder collect error: %v\n", err)
 		} else {
-- 
2.43.0


From bdf357443aeffc040f3804c0378d4c0d0b7b3f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:23 +0000
Subject: [PATCH 19/48] fix: aggregate view added 1 ms for every label whose
 sum was still zero

The value that d3pie needs to be positive was corrected in the middle of
the summation, so that 0 + 7 came out as 8.
---
 traceapp/aggregate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/traceapp/aggregate.go b/traceapp/aggregate.go
index 0a4c31e..d573052 100644
--- a/traceapp/aggregate.go
+++ b/traceapp/aggregate.go
@@ -56,9 +56,6 @@ func (a *App) aggregate(traces []*appdash.Trace, mode aggMode) ([]*aggItem, erro
 
 		// Perform aggregation.
 		i.Value += value
-		if i.Value == 0 {
-			i.Value = 1 // Must be positive values or else d3pie won't render.
-		}
 	}
 
 	for _, trace := range traces {
@@ -85,6 +82,9 @@ func (a *App) aggregate(traces []*appdash.Trace, mode aggMode) ([]*aggItem, erro
 	// Form an array (d3pie needs a JSON array, not a map).
 	list := make([]*aggItem, 0, len(aggregated))
 	for _, item := range aggregated {
+		if item.Value == 0 {
+			item.Value = 1 // Must be positive values or else d3pie won't render.
+		}
 		list = append(list, item)
 	}
 	return list, nil
-- 
2.43.0


From 2b29b1229ce21d08fb9315974c4a04bf86f2a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:41 +0000
Subject: [PATCH 20/48] fix: uploaded traces were silently dropped when the
 store reported an error

---
 traceapp/app.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index 3c1fd73..13122ba 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -315,10 +315,13 @@ func (a *App) uploadTraces(traces ...*appdash.Trace) error {
 	// ones that would collide / be merged together).
 	for _, trace := range traces {
 		_, err := a.Store.Trace(trace.Span.ID.Trace)
-		if err != appdash.ErrTraceNotFound {
+		if err == nil {
 			// The trace collides with an existing trace, ignore it.
 			continue
 		}
+		if err != appdash.ErrTraceNotFound {
+			return err
+		}
 
 		// Collect the trace (store it for later viewing).
 		if err = collectTrace(a.Store, trace); err != nil {
-- 
2.43.0


From 2a6fb48d95602e356d365967cd6a368382da3cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:41 +0000
Subject: [PATCH 21/48] fix: malformed uploads must not be stored in part,
 panic or modify other traces

---
 traceapp/app.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/traceapp/app.go b/traceapp/app.go
index 13122ba..ccf6585 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -311,6 +311,13 @@ func (a *App) serveTraceUpload(w http.ResponseWriter, r *http.Request) error {
 
 // uploadTraces uploads literal traces into the storage system for later viewing.
 func (a *App) uploadTraces(traces ...*appdash.Trace) error {
+	// Validate everything first, so that nothing is stored of a malformed upload.
+	for _, trace := range traces {
+		if err := validateTrace(trace); err != nil {
+			return err
+		}
+	}
+
 	// Collect the unmarshaled traces, ignoring any previously existing ones (i.e.
 	// ones that would collide / be merged together).
 	for _, trace := range traces {
@@ -330,3 +337,20 @@ func (a *App) uploadTraces(traces ...*appdash.Trace) error {
 	}
 	return nil
 }
+
+// validateTrace returns an error if the given trace, or any trace below it, is
+// missing or if they do not all belong to the same trace.
+func validateTrace(t *appdash.Trace) error {
+	if t == nil {
+		return errors.New("malformed trace: null trace or sub-trace")
+	}
+	for _, sub := range t.Sub {
+		if err := validateTrace(sub); err != nil {
+			return err
+		}
+		if sub.ID.Trace != t.ID.Trace {
+			return fmt.Errorf("malformed trace: sub-span %v does not belong to trace %v", sub.ID, t.ID.Trace)
+		}
+	}
+	return nil
+}
-- 
2.43.0


From b29d7bf964355b8bf0e73e30b4d5c3c510221a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:41 +0000
Subject: [PATCH 22/48] fix: corrupted permalinks were stored, their checksum
 was never verified

---
 traceapp/app.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index ccf6585..98817cc 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 	"fmt"
 	htmpl "html/template"
+	"io"
 	"io/ioutil"
 	"log"
 	"net/http"
@@ -120,6 +121,11 @@ func (a *App) serveTrace(w http.ResponseWriter, r *http.Request) error {
 		if err := json.NewDecoder(gz).Decode(&upload); err != nil {
 			return err
 		}
+		// Reading up to the end verifies the checksum. Older permalinks lack
+		// the very end of it, so a truncated one is tolerated.
+		if _, err := io.Copy(ioutil.Discard, gz); err != nil && err != io.ErrUnexpectedEOF {
+			return err
+		}
 		if err := a.uploadTraces(upload); err != nil {
 			return err
 		}
@@ -187,7 +193,8 @@ func (a *App) serveTrace(w http.ResponseWriter, r *http.Request) error {
 
 	// The permalink of the trace is literally the JSON encoded trace gzipped & base64 encoded.
 	var buf bytes.Buffer
-	gz := gzip.NewWriter(base64.NewEncoder(base64.RawURLEncoding, &buf))
+	b64 := base64.NewEncoder(base64.RawURLEncoding, &buf)
+	gz := gzip.NewWriter(b64)
 	err = json.NewEncoder(gz).Encode(trace)
 	if err != nil {
 		return err
@@ -195,6 +202,9 @@ func (a *App) serveTrace(w http.ResponseWriter, r *http.Request) error {
 	if err = gz.Close(); err != nil {
 		return err
 	}
+	if err = b64.Close(); err != nil {
+		return err
+	}
 	permalink, err := a.URLToTrace(trace.ID.Trace)
 	if err != nil {
 		return err
-- 
2.43.0


From 9e598f07a712e01198ffa75ecb6ee0d8fca4d310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:41 +0000
Subject: [PATCH 23/48] fix: a trace uploaded twice at the same time was
 collected twice

---
 traceapp/app.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/traceapp/app.go b/traceapp/app.go
index 98817cc..d17e4ae 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -47,6 +47,8 @@ type App struct {
 	tmplLock sync.Mutex
 	tmpls    map[string]*htmpl.Template
 
+	uploadLock sync.Mutex // serializes uploadTraces
+
 	Log     *log.Logger
 	baseURL *url.URL
 }
@@ -328,6 +330,11 @@ func (a *App) uploadTraces(traces ...*appdash.Trace) error {
 		}
 	}
 
+	// Only one upload at a time, so that a trace which is uploaded twice at the
+	// same time is not collected twice.
+	a.uploadLock.Lock()
+	defer a.uploadLock.Unlock()
+
 	// Collect the unmarshaled traces, ignoring any previously existing ones (i.e.
 	// ones that would collide / be merged together).
 	for _, trace := range traces {
-- 
2.43.0


From 600e5422bd01cab97f4c313fe2d51e1a059305ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:07 +0000
Subject: [PATCH 24/48] fix: a malformed ID among the traces to show was
 ignored, all traces were shown

---
 traceapp/app.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index d17e4ae..8e3698e 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -238,9 +238,10 @@ func (a *App) serveTraces(w http.ResponseWriter, r *http.Request) error {
 	if show := r.URL.Query().Get("show"); len(show) > 0 {
 		for _, idStr := range strings.Split(show, ",") {
 			id, err := appdash.ParseID(idStr)
-			if err == nil {
-				showJust = append(showJust, id)
+			if err != nil {
+				return err
 			}
+			showJust = append(showJust, id)
 		}
 	}
 
-- 
2.43.0


From 76064b899a940de13046b7dc0195b527acdec6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 25/48] fix: timeline showed every event of a root span with
 the duration of the first

---
 traceapp/vis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceapp/vis.go b/traceapp/vis.go
index 3fe0afd..b52d6b4 100644
--- a/traceapp/vis.go
+++ b/traceapp/vis.go
@@ -125,7 +125,7 @@ func (a *App) d3timelineInner(t *appdash.Trace, depth int) ([]timelineItem, erro
 		}
 	}
 	for _, ts := range item.Times {
-		msec := time.Duration(item.Times[0].End-item.Times[0].Start) * time.Millisecond
+		msec := time.Duration(ts.End-ts.Start) * time.Millisecond
 		if msec > 0 {
 			ts.Label = fmt.Sprintf("%s (%s)", item.Label, msec)
 			ts.Duration = int64(msec)
-- 
2.43.0


From 9aefb103f44711230558ffd8768656c6c7d79235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 26/48] fix: timeline left out every span below one without
 timed events

---
 traceapp/vis.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/traceapp/vis.go b/traceapp/vis.go
index b52d6b4..b1e74bb 100644
--- a/traceapp/vis.go
+++ b/traceapp/vis.go
@@ -131,16 +131,18 @@ func (a *App) d3timelineInner(t *appdash.Trace, depth int) ([]timelineItem, erro
 			ts.Duration = int64(msec)
 		}
 	}
+	childDepth := depth + 1
 	if len(item.Times) == 0 {
 		// Items with a null times array will crash d3-timeline.js as it tries
-		// to iterate over it. This means the trace doesn't have a single
-		// TimespanEvent and is thus invalid.
-		return nil, nil
+		// to iterate over it. This means the span doesn't have a single
+		// TimespanEvent, so it is left out; its children take its place.
+		childDepth = depth
+	} else {
+		items = append(items, item)
 	}
-	items = append(items, item)
 
 	for _, child := range t.Sub {
-		subItems, err := a.d3timelineInner(child, depth+1)
+		subItems, err := a.d3timelineInner(child, childDepth)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 89193c1171fe46e327bca1cb2910a5054ba30045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:26 +0000
Subject: [PATCH 27/48] fix: links on pages were broken when the base URL has a
 path without a trailing slash

---
 traceapp/app.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index 8e3698e..dfdfabc 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -71,8 +71,12 @@ func New(r *Router, base *url.URL) (*App, error) {
 	if base.Scheme == "" || base.Host == "" {
 		return nil, fmt.Errorf("appdash: base URL must contain both scheme and host, found %q", base.String())
 	}
-	if base.Path == "" {
-		base.Path = "/"
+	if !strings.HasSuffix(base.Path, "/") {
+		// Pages append relative paths to the base URL.
+		base.Path += "/"
+		if base.RawPath != "" {
+			base.RawPath += "/"
+		}
 	}
 
 	app := &App{
-- 
2.43.0


From 79cdc60b7bcb42c59400f682e7a9711d99067784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:28 +0000
Subject: [PATCH 28/48] fix: the default base URL of appdash serve was wrong
 with TLS and with IPv6 addresses

---
 cmd/appdash/serve_cmd.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/appdash/serve_cmd.go b/cmd/appdash/serve_cmd.go
index 7bb561d..96610e8 100644
--- a/cmd/appdash/serve_cmd.go
+++ b/cmd/appdash/serve_cmd.go
@@ -195,7 +195,10 @@ func (c *ServeCmd) urlOrDefault() (*url.URL, error) {
 	}
 	addr := &url.URL{
 		Scheme: "http",
-		Host:   fmt.Sprintf("%s:%s", host, port),
+		Host:   net.JoinHostPort(host, port),
+	}
+	if c.TLSCert != "" || c.TLSKey != "" {
+		addr.Scheme = "https"
 	}
 	return addr, nil
 }
-- 
2.43.0


From 783e9af1669cf93cdbaf968033bafb02b4299a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:30 +0000
Subject: [PATCH 29/48] fix: traces read from the store file were never deleted
 by appdash serve --delete-after

---
 cmd/appdash/serve_cmd.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmd/appdash/serve_cmd.go b/cmd/appdash/serve_cmd.go
index 96610e8..74d0bde 100644
--- a/cmd/appdash/serve_cmd.go
+++ b/cmd/appdash/serve_cmd.go
@@ -94,6 +94,17 @@ func (c *ServeCmd) Execute(args []string) error {
 			DeleteStore: memStore,
 			Debug:       true,
 		}
+		// The store deletes the traces that it has seen: let it see those that
+		// were read from the store file, which age from now on.
+		traces, err := memStore.Traces(appdash.TracesOpts{})
+		if err != nil {
+			return err
+		}
+		for _, t := range traces {
+			if err := Store.Collect(t.Span.ID); err != nil {
+				return err
+			}
+		}
 	}
 
 	url, err := c.urlOrDefault()
-- 
2.43.0


From 93ec9c7ad0cdc9f798af548e06171fdaeddbb061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:38 +0000
Subject: [PATCH 30/48] fix: some links on pages ignored the base URL

The embedded templates are regenerated from their sources.
---
 traceapp/tmpl/data/layout.html |  4 ++--
 traceapp/tmpl/data/root.html   |  6 +++---
 traceapp/tmpl/data/traces.html |  2 +-
 traceapp/tmpl/data_vfsdata.go  | 16 ++++++++--------
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/traceapp/tmpl/data/layout.html b/traceapp/tmpl/data/layout.html
index bfe87e6..593357b 100644
--- a/traceapp/tmpl/data/layout.html
+++ b/traceapp/tmpl/data/layout.html
@@ -6,7 +6,7 @@
     <title>{{template "Title" $}}</title>
     <meta charset="utf-8">
     <meta name="viewport" content="width=device-width, initial-scale=1">
-    <link rel="icon" type="image/png" href="/static/favicon.png" />
+    <link rel="icon" type="image/png" href="static/favicon.png" />
     <link href="//netdna.bootstrapcdn.com/bootstrap/3.3.1/css/bootstrap.min.css" rel="stylesheet">
     <link rel="stylesheet" href="//cdnjs.cloudflare.com/ajax/libs/bootstrap-table/1.6.0/bootstrap-table.min.css">
     <link href='//fonts.googleapis.com/css?family=Open+Sans' rel='stylesheet' type='text/css'>
@@ -100,7 +100,7 @@
             <span class="icon-bar"></span>
             <span class="icon-bar"></span>
           </button>
-          <a href="{{.BaseURL}}" class="pull-left"><img id="logo" src="/static/logo_white.png"></a>
+          <a href="{{.BaseURL}}" class="pull-left"><img id="logo" src="static/logo_white.png"></a>
         </div>
         <div id="navbar" class="collapse navbar-collapse pull-right">
           <ul class="nav navbar-nav">
diff --git a/traceapp/tmpl/data/root.html b/traceapp/tmpl/data/root.html
index 867288a..6a78e06 100644
--- a/traceapp/tmpl/data/root.html
+++ b/traceapp/tmpl/data/root.html
@@ -29,12 +29,12 @@
 }
 </style>
 
-<img class="red-logo img-responsive center-block" src="/static/logo_red.png"></img>
+<img class="red-logo img-responsive center-block" src="static/logo_red.png"></img>
 <h3 style="text-align: center;">Application tracing system for Go.</h3>
-<img class="red-spinner img-responsive center-block" src="/static/red_spinner.png"></img>
+<img class="red-spinner img-responsive center-block" src="static/red_spinner.png"></img>
 
 <div id="big-btn">
-  <a href="/traces" class="btn btn-block btn-lg btn-danger">
+  <a href="traces" class="btn btn-block btn-lg btn-danger">
     <i class="fa fa-area-chart big-btn"></i> View Traces
   </a>
 </div>
diff --git a/traceapp/tmpl/data/traces.html b/traceapp/tmpl/data/traces.html
index e3bf0cc..665d4e0 100644
--- a/traceapp/tmpl/data/traces.html
+++ b/traceapp/tmpl/data/traces.html
@@ -104,7 +104,7 @@
       }
 
       // Upload the trace, refreshing page upon completion.
-      $.post("/traces/upload", data)
+      $.post("traces/upload", data)
         .done(function() { location.reload() })
         .fail(function(xhr, textStatus, errorThrown) {
           alert("error: " + xhr.responseText);
diff --git a/traceapp/tmpl/data_vfsdata.go b/traceapp/tmpl/data_vfsdata.go
index 345b77f..5ee52f6 100644
--- a/traceapp/tmpl/data_vfsdata.go
+++ b/traceapp/tmpl/data_vfsdata.go
@@ -34,8 +34,8 @@ var Data = func() http.FileSystem {
 		"/aggregate.html": &_vfsgen_compressedFileInfo{
 			name:              "aggregate.html",
 			modTime:           mustUnmarshalTextTime("2015-10-04T03:50:12Z"),
-			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x09\x6e\x88\x00\xff\xa4\x57\x6d\x73\x13\x39\x12\xfe\x8c\x7f\x45\xa3\x04\x62\x73\x9e\x99\x98\x2b\xee\xc0\xd8\x4e\x71\x70\xc5\x5d\xd5\x51\xb9\x4b\xb8\xe5\x03\xc5\x07\x79\xa6\x3d\x16\x91\xa5\x59\x49\xe3\xc4\xeb\x9d\xff\xbe\x2d\x8d\xe7\xc5\x24\x6c\xed\x16\x5b\xb5\x8e\xdd\x6a\x3d\xdd\xfd\xf4\x9b\x18\xec\xf7\x19\xae\x84\x42\x60\x1f\x85\x93\xc8\xaa\xea\x4d\x9e\x1b\xcc\xb9\x43\xf8\x49\xe0\x2d\x44\xc0\x8b\x22\xe3\x76\xbd\xdf\xa3\xca\xaa\xaa\x77\xe3\x03\x17\x8a\x2e\x0c\x06\x33\xeb\x76\x12\xc1\xed\x0a\x9c\x33\x87\x77\x2e\x49\xad\x65\x8b\x01\xc0\xda\x6d\xe4\x78\xa9\xb3\x1d\xec\xe9\x17\x40\xf2\x0c\xde\x09\xcb\x97\xa4\xbd\x45\xe3\x44\xca\x25\xd8\xd4\x68\x29\x97\xdc\x40\x56\x12\x88\x86\x94\xab\x2d\xb7\xb0\x44\xa1\x72\xaf\xb6\x03\xa9\x55\x1e\xc3\xb3\x24\x60\x68\x12\xad\xa4\xbe\x8d\x76\x53\x58\x8b\x2c\x43\xf5\x9a\xe4\x15\xfd\x7f\xe2\x74\x11\x19\x91\xaf\x5d\xb4\x74\xca\x1e\x6c\x6e\xb8\xc9\x85\x8a\xe8\x6c\x0a\xcf\x5f\x14\x77\xad\x76\x21\xf0\xed\x9a\x1b\x77\xd0\xbb\x15\x99\x5b\x4f\xe1\xe5\xf9\x79\xad\x43\xde\xa3\xc7\x9a\xc2\xdf\x3a\xd1\x01\x4c\xe2\x8a\xe4\xbc\x74\xfa\x48\x6c\x6a\xfd\x5a\x7e\x08\x38\xfc\x01\x78\x5b\x07\x25\x6c\x17\xd1\x18\xac\x86\x5b\x04\xbd\x5a\x59\x74\x20\x1c\x2c\x77\x30\xf1\xb6\x62\xf8\x84\x90\xea\x52\x66\xb0\xe6\x2a\x27\x56\xd6\x78\xa0\xe5\x00\x67\xc5\x2f\x08\xcb\x32\xdc\xba\x0d\x8a\xb8\x5a\x61\xea\xc4\x16\xe5\x0e\x88\xd1\x02\x34\x9d\x5a\xbd\xf1\xf8\xe1\xbe\xe4\x4b\x94\x16\x28\x3d\x94\x48\x4f\x2d\x29\xdc\x72\x93\x1d\x10\x57\x46\x6f\x6a\x3b\x9e\x93\x20\x3c\x10\x5e\x68\x2b\x9c\xd0\x6a\x0a\x06\x25\xf7\x26\xea\xa0\x03\xa3\xd1\xa4\x21\xa7\x1a\xcc\x92\x50\x08\x0b\xaa\x88\xc7\x51\x54\xd7\xcf\x07\x9d\x21\x6c\x50\x95\x10\x45\x8b\xc1\x2c\x13\x5b\x48\x25\xb7\x76\xce\x28\x45\x51\x6e\x74\x59\x40\x51\x4a\x59\x73\xc7\x80\x6a\x81\x8a\x28\xc8\x19\x70\x23\x78\x14\xfc\x9e\xb3\x38\x8e\x19\x88\x8c\x0a\xec\x28\xc9\xa1\xcc\x66\xc4\x84\xd3\xea\x50\x81\xf5\x0f\xd6\xb3\x03\xde\x16\x95\x2d\x2f\xa5\x83\x8c\xc8\xc9\xf4\xad\xaf\x88\x3c\xa7\x92\x87\x8c\x3b\x7e\xf8\x31\x67\xcd\xe9\xc1\x38\xde\x15\x5c\x65\x48\x66\x57\x5c\x5a\x52\x76\xbe\x4d\xe6\x2c\x5d\x6b\x6d\xeb\xbc\xf0\xa6\x61\xb2\x80\x04\x5b\x0a\xdb\xd3\xbb\xa1\xc8\x83\x77\xd0\x63\x62\x66\x09\xaf\xf1\x2c\xe5\x06\x1d\x5b\x10\x6d\x24\x0c\x71\x24\xb5\xef\xe1\x7b\x29\x1b\xbd\xd6\x63\xcf\x63\x43\x51\xf8\x5e\xc3\xcf\xa4\x58\xcc\x38\xac\x0d\xae\xe6\xec\xa4\x66\xc9\x7b\x11\x79\x17\x22\x67\x78\x8a\x91\x56\x72\xd7\x7a\xdf\xba\x0c\xe1\x90\x10\xb5\x8b\x82\x67\x8a\x6f\xd0\x42\x50\x5e\x5c\x91\x14\xae\x49\x6a\x67\x09\x27\x2f\xc9\xca\x1f\x30\xe7\x61\x7e\xdf\x9a\x2d\x97\xf7\x8d\x5d\x97\xcb\x3f\x6f\xab\x0e\x8d\x12\x14\xf0\x1e\x30\xc8\xa5\x6c\x8c\xb6\x06\xd9\xe2\x0d\x49\xef\xd9\x9a\x25\xa5\xa4\x02\x4d\xa8\x42\x7d\x01\xaf\x27\x8b\x37\x5d\x62\x7d\x02\x67\x09\xc9\x06\x75\x09\x7b\x37\x9a\xf1\xe1\x13\x78\xb8\x44\xa3\x4c\x14\xd4\x75\x26\x9d\xb3\xfd\x3e\xfe\x07\xb7\xf8\xff\xab\xff\x54\x95\x75\xd4\x36\x69\xb2\x44\x75\x83\xa8\x92\xec\xaf\x74\xb7\xfe\x8c\x37\x42\xc5\x5f\x6d\x28\x82\x70\x79\xd1\xa2\xf4\xc6\xe9\x57\x4e\x9d\x1f\xa4\x21\xe3\xa7\x43\x2a\x30\x2a\x88\x51\x2c\x35\xcf\x86\xab\x52\xa5\xbe\x3f\x87\xa3\x66\xca\x26\xf0\xde\xf0\xe5\x83\xd5\xd9\xb6\xb9\xc3\x4d\x21\x3d\x47\x05\x37\x44\x8b\x43\x33\x06\x6d\x40\x84\x61\x61\x90\x26\xd5\xe0\xd1\x23\x42\x52\x5a\xe1\x18\x56\xfc\x86\xb0\x68\xec\x28\xea\x92\x1a\x09\x25\x52\x0d\x3a\x58\xd1\x2d\x0f\x48\xd1\xd4\xb3\xc3\xcf\x70\xeb\x04\x91\x6c\x68\xd2\xa0\x89\x83\x53\x5b\x3f\xe0\xfd\xbd\x39\x10\x35\x1d\xb7\x55\x55\x4f\x13\xb1\x1a\xfa\xe3\x58\xa2\xca\xdd\x1a\xe6\x73\x38\x6f\xe2\x81\xe6\xe2\xe7\x3d\x0b\xd3\x80\x4d\x81\x29\x5d\x67\xd6\x7a\x73\x6d\x94\x6c\x0c\x6c\xcb\x65\x89\xa4\x32\xa9\xbe\xd4\xd0\xb4\xa2\x42\x28\x6f\x0d\x86\x2a\xec\x3b\xdb\x39\xe7\x45\x73\x50\xd4\xa9\x21\x33\xc3\x2e\xc1\xe3\xd6\x0f\xe6\xe7\x2e\x41\x37\xbf\x49\x52\x8f\xe5\x7f\x85\x55\xc1\xc2\xfa\x18\x7f\x7b\xf8\xc9\x6f\x96\x7b\x67\x04\xff\x6f\xa5\xd0\x5c\xf1\x4c\x94\xd6\x87\xf4\xf2\xfc\x09\x6b\x14\xaa\xe6\x0b\xcd\x3b\x2d\x9d\x28\xec\xb1\x59\x54\x7e\x8b\x66\x24\x74\xa6\xc4\x1e\xac\x2f\x1b\x0f\x46\xc9\x4d\x71\xad\x25\x25\x80\xf5\x8e\xad\x33\x94\x43\xaf\xb0\x0f\x54\x56\xb4\xe1\xf7\x81\xb1\x6a\x63\xfd\xf7\x02\x4d\x4a\x69\xe5\x39\x56\x4f\x8e\x2f\xd2\x68\x3f\x76\x82\xa4\x4b\x9e\xde\xf8\x61\xad\xb2\xcb\x82\xa7\xc2\xed\x48\xe1\x3c\xfe\xfb\x8b\x56\xa7\xba\x17\x8f\xcf\xe5\x71\x2c\x56\x1b\x77\x69\xbc\xa3\xd3\x43\xf6\x68\x58\xdb\xf4\xc8\xfa\x86\x5a\xf9\x1a\x73\x5f\x71\xef\xfd\x72\xa8\x83\x38\xf2\xe5\x7b\x94\x40\xaf\x24\xee\x4b\x3f\x36\x7c\xb5\x71\xb3\x23\xa5\xb6\xe0\x2e\x7d\x5f\xc0\x90\x48\xa0\x92\xa3\xb5\x0c\x93\x27\xa3\x63\xd5\x54\x4b\x1d\x62\x38\x49\xc3\x7f\xac\x63\xa1\x5f\x13\x5a\xd1\x06\xf6\xb5\xe2\x99\x18\xf4\x69\xaa\x46\x61\x91\x8e\xc2\xe3\x81\x0a\xf6\x1a\x91\x9e\x50\xae\x98\x26\xb4\x59\x89\xe9\xe6\xe9\x13\xa7\x7a\x93\xfc\x5c\xa2\xf5\x6d\x6f\x93\x17\xaf\x5e\xbd\x9a\x4c\x5e\x26\x3c\xcb\x22\x6d\xa2\x92\xde\x6b\x0e\x23\x3a\x37\xbb\xa8\xce\x77\xd4\x36\x39\x01\x37\xf3\x02\x6a\xc5\xff\x79\xbd\xeb\xa0\xf6\xdf\x46\x6b\x58\x1a\x31\x86\x1b\xdc\x8d\x21\x90\xd4\x74\xa2\xef\x13\xd3\xb4\xc9\x15\xe6\xff\xbc\x2b\x86\x6c\xf8\xf9\xe2\xe9\x97\x11\x83\xbf\xf8\x0b\xf4\xc9\xe6\xf1\xb3\x8b\xe1\xd3\x5f\x4f\x47\xbe\x1b\x05\x1b\xbd\x6e\xef\x5a\xf4\x8e\x38\x9a\x18\x73\x20\x13\x31\x8d\x31\xbc\xbb\x5c\x0d\xcf\x2e\xce\x46\xf0\x98\x7a\x3e\x9a\xc0\x05\xb0\xa7\x0c\x88\xc5\x0b\xd6\x4c\x06\xf0\xfe\xc4\x1b\xee\xd2\xf5\xd0\xe0\xa8\x9b\x0b\xb4\x3f\x4b\xa3\x02\x94\xc1\x50\xf1\x74\x3e\x86\xb3\xd3\xc9\x59\xcf\x1d\xef\x5a\x08\x83\xfe\x9e\x9d\x3e\x3f\x1b\x35\x63\xc1\x7f\xd2\x9b\x08\x1f\xc0\x23\xd5\xce\xd9\x07\xa0\x3a\x88\x6a\xd0\xe7\xd4\x2f\x27\xbf\xe9\x87\x7e\xd7\xf4\x69\x2b\x7d\xc8\xdf\x27\xbc\x9e\xe8\x34\xd0\x53\xee\x71\x62\xbf\xf1\xfc\x2c\x6b\x76\x1d\x51\x19\x10\x3b\x4a\x1e\xba\x41\x1c\x42\xd9\xd1\xf3\xa0\x0a\x69\x7c\xe3\xfc\xe9\x90\x9d\x3c\xf8\x5e\x18\xc5\xa9\x14\xe9\x4d\xb7\x61\xda\x88\x30\x2e\x0c\x6e\xa9\x8c\xdf\xd5\xaf\xaa\x61\x93\xe4\x26\x7c\xd6\x87\xa9\xab\xfa\x9e\xa5\xee\xa9\xf0\x23\x86\x7a\x28\xdf\xb1\xf3\xcd\x33\xe1\xc7\xa3\xea\xa0\x0e\x16\xbb\xed\x3d\x68\xfe\x9d\xf4\x5b\x00\x00\x00\xff\xff\x5c\xee\xf8\x38\x5b\x0d\x00\x00"),
-			uncompressedSize:  3419,
+			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xa4\x56\xdf\x93\xdb\xb6\x11\x7e\xb6\xfe\x8a\xcf\xf0\xc5\x27\xd9\x22\x79\x4a\xc7\xad\xad\x88\xba\x49\x9d\x4e\xda\x99\x66\xdc\xfa\xd2\xe6\x21\x93\x07\x88\x58\x89\xc8\x41\x00\x03\x80\xd2\x29\x2a\xff\xf7\x0e\xc0\x1f\x92\x7c\xe7\x4c\x3b\xb9\x07\x1d\x09\x2c\xbe\xfd\xf6\xdb\xc5\x2e\x47\xc7\xa3\xa0\xb5\xd4\x04\xf6\xbd\xf4\x8a\x58\xd3\x7c\xbd\xd9\x58\xda\x70\x4f\xf8\xb7\xa4\x3d\x12\xf0\xaa\x12\xdc\x95\xc7\x23\x69\xd1\x34\x67\x27\xbe\xe3\x52\xb3\xa6\x19\x8d\x16\xce\x1f\x14\xc1\x1f\x2a\xca\x99\xa7\x07\x9f\x15\xce\xb1\xe5\x08\x28\xfd\x56\x4d\x57\x46\x1c\x70\x1c\x01\x40\xf6\x0a\xdf\x48\xc7\x57\x8a\xb0\x23\xeb\x65\xc1\x15\x5c\x61\x8d\x52\x2b\x6e\x21\x6a\x82\x37\x28\xb8\xde\x71\x87\x15\x49\xbd\x09\x66\x07\x28\xa3\x37\x29\x5e\x65\x11\xc3\xec\xc8\xae\x95\xd9\x27\x87\x39\x4a\x29\x04\xe9\xaf\x46\x40\x33\x02\x5e\x78\x53\x25\x56\x6e\x4a\x9f\xac\xbc\x76\x9d\xcf\x2d\xb7\x1b\xa9\x13\x6f\xaa\x39\xbe\x7c\x53\x3d\x0c\xd6\x95\xa4\xf7\x25\xb7\xbe\xb3\xdb\x4b\xe1\xcb\x39\xde\xde\xdc\xb4\x36\x40\x49\x01\x6b\x8e\x3f\x9e\x96\x3a\x30\x45\x6b\x3f\x07\xaf\xbd\xb9\x58\x8e\xbe\xfb\xf5\x2e\xe0\xf8\x0f\x78\xdf\x06\x25\xdd\x29\xa2\x29\x9c\xc1\x9e\x60\xd6\x6b\x47\x1e\xd2\x63\x75\xc0\x2c\xf8\x4a\xf1\x03\xa1\x30\xb5\x12\x28\xb9\xde\x10\x7c\x49\x9d\x2c\x1d\x9c\x93\xbf\x12\x56\x75\x3c\xb5\x8f\x86\xb4\x5e\x53\xe1\xe5\x8e\xd4\x01\x85\x35\x15\x4c\xed\xe1\xcc\x36\xe0\xc7\xf3\x8a\xaf\x48\x39\xd0\x83\x27\x2d\x82\xb4\xa6\xf6\x7b\x6e\x45\x87\xb8\xb6\x66\x1b\xed\x8a\xa0\x49\x5c\xec\x04\xaf\x8c\x93\x5e\x1a\x3d\x87\x25\xc5\x83\x8b\x36\xe8\xa8\x68\x32\xeb\xc5\x09\x9a\xa6\x85\x92\xc5\x7d\xc8\x6f\xf2\x6b\x22\xb5\xa0\x87\x4e\xdc\xee\x6d\x8e\xd9\x57\x9f\xc3\x7c\x16\x31\x16\x59\x2c\xa6\xe5\x68\xb4\x78\x9e\x24\x6d\x0d\x7e\x67\x04\x61\x4b\xba\x46\x92\x2c\x47\x0b\x21\x77\x28\x14\x77\x2e\x67\x2b\xaf\x93\x8d\x35\x75\x85\xaa\x56\xaa\xcd\x3d\x1e\x71\x60\xb0\x46\x51\xce\xa2\x25\x03\xb7\x92\x27\x51\x8d\x9c\xa5\x69\xca\x20\x45\xce\x2e\x4b\x27\x16\xef\x62\x55\x7b\x6f\x74\x57\xd7\xed\x0b\x3b\xf3\x8c\xe0\x5d\xd0\x9a\xd7\xca\x43\x58\x53\x09\xb3\x0f\x75\xb6\xd9\x28\x62\x10\xdc\xf3\xee\x25\x67\xfd\x6e\xe7\x9c\x1e\x2a\xae\x05\x89\x9c\xad\xb9\x72\xc4\xe0\xc3\xe5\xcb\x59\x51\x1a\xe3\xda\x6c\xf3\xfe\x1a\x8a\x88\x84\x9d\xa4\x7d\x48\xda\xd6\x08\x8a\xec\x70\xa6\xcd\xc2\x55\x5c\xf7\xcc\x0a\x6e\xc9\xb3\xe5\x22\x0b\x8b\xc1\x72\x91\xb5\xdc\xe3\x73\xad\x7a\xbb\x81\x71\x50\xb6\x97\x28\x3e\x07\x43\x60\xa1\xe4\x72\xc1\x51\x5a\x5a\xe7\xec\x45\xab\x52\x60\x91\x04\x0a\x89\xb7\xbc\xa0\xc4\x68\x75\x18\xd8\x0f\x94\x11\x37\x61\x8d\xf1\x49\x20\x01\xcd\xb7\xe4\x10\x8d\x97\x1f\x8d\xf1\xb8\xab\xb8\x76\x8b\x8c\x2f\x17\x99\x92\xff\x8b\xbb\x00\xf3\xdb\xde\x5c\xbd\x7a\xec\xec\xae\x5e\xfd\xff\xbe\x22\x5e\xc2\xb5\x88\x78\x4f\x38\xe4\x4a\xf5\x4e\x07\x87\x6c\xf9\xb5\x52\x8f\x7d\x2d\xb2\x5a\x2d\x47\x8b\x4c\xc8\x5d\x28\xe9\x72\xb6\x1c\xfa\xab\x88\x09\x5c\x64\xe5\x2c\xec\x84\xa2\x0e\x34\xfa\xa6\xc4\x96\xc3\x21\x57\x58\x59\x79\x38\x5b\xe4\xec\x78\x4c\xff\xcc\x1d\xfd\xeb\xe3\xdf\x9b\xc6\x79\xee\x65\x91\xad\x48\xdf\x13\xe9\x4c\xfc\xa1\x92\xd4\xfe\xa6\x5b\xa9\xd3\x9f\x5d\xc0\x68\x0f\x2f\x07\x94\xb3\x26\xfd\x33\xdf\xf1\x76\x35\x16\xd4\xd5\x78\x2f\xb5\x30\xfb\x49\xaa\x0c\x17\xe3\x75\xad\x8b\x70\x43\xc7\x93\xee\x0a\x67\x19\xbe\xb5\x7c\xf5\x64\x75\x0e\xcd\xc3\xd3\xb6\x52\x21\x29\x15\xb7\x7c\x4b\x9e\xec\x14\xc6\x42\xae\xc3\xae\x25\x48\x37\x7a\xf6\x2c\xcb\xa0\x8d\xa6\x29\xd6\xfc\x9e\xc0\xe1\xa4\xde\x28\x6a\xeb\x9c\x14\x6d\x49\x7b\xac\x8d\x0d\x47\x50\xc9\xae\x23\x85\xc9\xe0\xbc\x54\x0a\x96\xb4\x20\x9b\x46\x52\xbb\x30\x36\xc2\xb9\x1c\xc7\x63\x7a\xd2\xb6\x69\xda\x3e\x23\xd7\xe3\x00\x9b\x2a\xd2\x1b\x5f\x22\xcf\x71\xd3\xc7\x83\xfe\xe0\x8f\x47\x16\xbb\x01\x9b\x83\x69\xd3\x66\xd6\x05\x77\x43\x94\x6c\x0a\xb6\xe3\xaa\x26\x36\xc7\xac\xf9\xa9\x85\x6e\x46\x6d\x28\xef\x2d\x85\x80\x2f\xc8\x9e\xc8\x85\xa5\x1c\x9a\xf6\x88\x99\x19\x9f\x12\x3c\x1d\x78\xb0\xd0\xcd\xd9\x7c\x78\x07\x58\xdb\xec\xff\x1a\x07\x10\x8b\x43\x69\xfa\xe9\xe6\x0f\x61\x5e\x3d\xda\xab\x24\xfd\x4d\x6b\xb2\x1f\xb9\x90\xb5\x0b\x21\xbd\xbd\xf9\x82\xf5\x06\x4d\xff\xc0\xbc\x31\xca\xcb\xca\x5d\xba\x25\x1d\x7a\xb7\x60\x73\x78\x5b\x53\x6f\x1c\xcc\x0f\x55\x08\x9e\x55\x8a\x17\x54\x1a\x25\xc8\x0e\xa0\x00\x73\xde\x4a\xbd\x09\x06\xc7\x28\x65\x83\x04\xc7\xa8\x58\xb3\x75\xe1\xb9\x22\x5b\x90\xf6\x7c\x43\xcd\x89\x4d\x3c\x78\x50\x74\x49\x02\x60\x2b\x5e\xdc\x87\x66\xad\xc5\x87\x8a\x17\xd2\x1f\xd8\x1c\x37\xe9\x9f\xde\x0c\x36\xcd\xa3\x78\x42\x2e\x2f\x63\x71\xc6\xfa\x0f\x36\x10\x9d\x77\xd9\x4b\x04\xb9\xe2\xc2\xfb\x96\x2b\x75\x47\x9b\x50\x71\xdf\x86\xe1\xd0\x06\x71\xc1\xe5\x73\x92\xe0\xac\x24\x1e\xaf\x7e\xdf\xeb\x35\xc4\x7d\xe6\x17\x38\x15\xdc\x87\x70\x2f\x30\x56\xe4\x1c\x7c\xc9\x35\x66\x5f\x4c\x2e\x4d\x0b\xa3\x4c\x8c\xe1\x45\x11\xff\xd8\xb0\x39\x44\x1f\x0a\xc6\x68\x4f\xda\xb3\x79\xac\xea\x6e\xbd\x95\xa9\x99\x84\x82\x0d\xbf\x23\x20\xcb\x70\x47\x84\xd2\xfb\x6a\x9e\x65\xce\xf3\xe2\xbe\xff\xa0\x4a\x0b\xb3\xcd\x7e\xa9\xc9\x85\x6b\xef\xb2\x37\xef\xde\xbd\x9b\xcd\xde\x66\x5c\x88\xc4\xd8\xa4\xae\x04\xf7\x94\xfc\x52\x93\x3d\x24\x6d\xbe\x93\xe1\x92\x8f\x80\xbe\x5f\xa0\x35\xfc\x67\xb0\xbb\x8b\x66\xff\xe8\xad\xc6\xb5\x95\x53\xdc\xd3\x61\x8a\x28\x5d\x7f\x13\xc3\x3d\xb1\xfd\x35\xf9\x48\x9b\xbf\x3c\x54\x63\x36\xfe\xf1\xf6\xe5\x4f\x13\x86\xd7\xe1\x00\x5e\x83\xe5\xe9\xab\xdb\xf1\xcb\xff\x5c\x4d\xc2\x6d\x94\x2c\x06\xd5\x9e\x75\x14\x88\x78\x63\x91\xa3\xb6\x32\x8d\x43\xff\xc3\x7a\x7c\x7d\x7b\x3d\xc1\xf3\x3c\x47\x32\xc3\x2d\xd8\x4b\x86\x39\xd8\x2d\xeb\x3b\x03\x02\x9f\x74\xcb\x7d\x51\x8e\x2d\x4d\x4e\x7d\xc1\x92\xaf\xad\x8e\x50\x96\x62\xc5\x8f\x2d\x4d\x71\x7d\x35\xbb\x3e\xa3\x13\xa8\xc5\x30\xf0\x1a\xd7\x57\x5f\x5e\x77\x84\x5a\xcd\x49\x39\x7a\x02\x0f\xaf\xcf\xc8\x3e\x01\x75\x82\x68\x46\xe7\x9a\x86\xe1\x14\x26\xfd\x38\xcc\x9a\x73\xd9\x6a\xe4\xbf\x25\x78\xdb\xd1\x53\x65\x0a\x1e\x72\x93\x86\x61\x3e\xc5\x69\xd6\xb1\x69\x9c\xcd\x1d\xf5\x20\xc9\x53\x27\xf0\x3c\x47\x7d\x92\xe7\x49\x93\x1c\xf5\x27\xe4\xaf\xc6\xec\xc5\xa7\x43\x35\x4e\xe5\x49\xfb\x95\x78\x9a\x30\x43\x44\x94\x56\x96\x76\xa4\xfd\x37\xed\x57\xd5\xb8\x23\x36\x84\xcf\xce\x61\xc2\x5e\x33\x79\xe4\xe9\xf4\xa9\xf0\x7b\x1c\x9d\xa1\x7c\xc6\xcf\x27\x9f\x09\xbf\x3f\xaa\x13\x54\xe7\xf1\x34\xbd\x47\xc7\x23\x69\xd1\x34\xa3\xff\x0e\x00\x2c\x13\x96\x5e\xb1\x0d\x00\x00"),
+			uncompressedSize:  3505,
 		},
 		"/dashboard.html": &_vfsgen_compressedFileInfo{
 			name:              "dashboard.html",
@@ -46,14 +46,14 @@ var Data = func() http.FileSystem {
 		"/layout.html": &_vfsgen_compressedFileInfo{
 			name:              "layout.html",
 			modTime:           mustUnmarshalTextTime("2016-05-31T20:45:42Z"),
-			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x09\x6e\x88\x00\xff\xbc\x5a\x7b\x73\xdb\x36\x12\xff\x3f\x9f\x02\x61\xda\xb1\xdd\x33\x49\xbf\xf2\xb2\x25\xf5\x72\x49\xaf\xc9\xcd\xb5\xce\x34\x6e\x67\xee\x3a\x99\x0e\x44\x82\x22\x6c\x90\xe0\x01\xa0\x65\x55\xf5\x77\xbf\x05\x40\x90\x20\x45\xd9\xea\xb5\x73\xd6\x4c\x44\x02\x8b\xdd\xdf\x3e\xb0\xbb\x80\xb2\x5e\xa7\x24\xa3\x25\x41\xc1\x0f\x97\x97\x57\xc1\xfd\xfd\x93\xc9\xd3\x77\x97\x6f\xaf\xfe\xf5\xf1\x1b\x94\xab\x82\xcd\x9e\x4c\xec\x17\x42\x93\x9c\xe0\x54\x3f\xc0\xe3\x1c\x4b\x82\x72\x41\xb2\x69\xb0\x5e\x47\x7f\x83\xb7\x1f\x7f\xf8\xe7\xfd\x7d\xd0\x4c\x2b\xaa\x18\x99\xad\xd7\x8a\x14\x15\xc3\x0a\xb8\x5f\xe9\x91\x00\x7d\x71\x7f\x3f\x89\xed\xac\xa5\x2c\x88\xc2\x28\xc9\xb1\x90\x44\x4d\x83\x5a\x65\xe1\xab\xc0\x9f\x2a\x71\x41\xa6\xc1\x2d\x25\xcb\x8a\x0b\x15\xa0\x84\x97\x8a\x94\x40\xba\xa4\xa9\xca\xa7\x29\xb9\xa5\x09\x09\xcd\xcb\x21\xa2\x25\x55\x14\xb3\x50\x26\x98\x91\xe9\xb1\x63\xc4\x68\x79\x83\x04\x61\xd3\x80\xc2\xf2\x00\xa9\x55\x05\x3c\x69\x81\x17\x24\xae\xca\x45\xd0\x28\x12\x4b\x85\x15\x4d\xe2\x0c\xdf\x6a\xba\xc8\x4c\xc5\x3e\x8f\x86\x2e\x2e\x89\x4a\x4b\x1c\xcd\x39\x57\x52\x09\x5c\x25\x69\x19\x25\xbc\x88\xdb\x81\xf8\x34\x3a\x8d\x8e\xe3\x44\xca\x6e\x2c\x2a\x28\x50\x49\x19\x58\x28\x52\xad\x18\x91\x39\x21\x6a\x13\xa6\x37\xd7\xca\x04\x19\xd7\x32\x4a\x18\xaf\xd3\x8c\x61\x41\x8c\x40\x7c\x8d\xef\x62\x46\xe7\x9e\x98\x50\xe1\x39\x23\xf1\x71\xf4\x22\x3a\x1a\x8e\xb6\x10\x36\x94\xda\xcb\x95\xaa\xce\xe3\x38\x03\xf3\xca\x68\xc1\xf9\x82\x11\x5c\x51\x69\xa4\xc0\x8a\xaf\x33\x5c\x50\xb6\x9a\x5e\x56\xa4\xfc\xcb\x27\x5c\xca\x3d\x83\x74\xaf\x43\xba\x67\xcd\xba\xa7\xc8\x9d\xd2\x2b\xf6\x76\xd2\xaa\xc0\x77\xda\x78\x1b\x96\xd4\x38\x42\xbc\x24\x92\x17\x24\x3e\x03\x63\x1e\x19\x63\xfa\xc3\x43\x65\x0c\x7b\xfb\x6c\x22\x17\xad\xed\x33\x42\x15\x97\x10\x17\xbc\x3c\xd7\x38\xc0\xc5\xb7\xe4\xc2\x4d\x01\x8f\x30\x27\x74\x91\xab\x73\x74\x7c\x74\xf4\x65\x33\x71\x6f\xbf\xe6\x3c\x5d\x79\x6c\x70\x9a\xd2\x72\x11\x2a\x5e\x9d\xa3\xe7\x47\xd5\x5d\xcb\x65\x8e\x93\x9b\x85\xe0\x75\x99\x86\x09\x67\x5c\x9c\xa3\x67\xd9\x89\xfe\xb4\x14\x6e\xf8\xd4\xfc\xb5\xc3\x46\x1f\x6b\xda\x73\xb4\xa7\x8d\x8b\x8c\x71\x0f\x91\x84\xaf\x50\x12\x41\xb3\x8b\x27\x8e\x3a\xfe\x0a\x7d\x87\xc5\x82\x96\x00\x4c\x29\x5e\xa0\xf9\x0a\x38\x70\x45\x04\xb2\x3a\xa0\xaf\xe2\x56\x31\x43\x18\x5a\xc2\x73\xf4\xa2\x83\xdb\xe8\x16\xa5\x47\x68\x3d\x86\x7c\x3e\x9f\x5f\x74\x44\xc7\xe3\x44\x49\x32\x7f\x39\x7f\xe9\xd1\x9d\x6c\xa3\xc3\x2f\xb1\x4f\x77\xba\x8d\xee\x35\xfc\x79\x74\x67\xdb\xe8\x5e\x9d\xbc\x3a\xf1\xe8\x9e\x6f\xa3\x7b\xf9\xe2\xe5\x0b\x8f\xee\xc5\x36\xba\xb3\xec\x2c\xf3\xe8\x5e\x6e\xa3\x3b\x7d\x7d\xea\xe3\x7b\xb5\x8d\xee\x04\x9f\x60\x8f\xee\xf5\x36\xba\x63\xf8\xf8\x76\xde\xe2\x8d\x24\x39\x22\x47\x44\x13\x3e\x71\x31\xf0\x3d\xe4\xa7\x05\xd6\x01\x0d\x0b\x84\x0d\x2d\xd9\xba\x3e\x2a\xf1\x2d\x0c\x87\xb4\xbc\x25\x90\x54\xbb\xf0\x1d\x61\x3e\x88\xc6\x39\x17\x29\x81\xf1\x92\x97\xa4\x0d\x96\x6d\x62\xcd\xbe\x7e\x44\xb6\x7b\x87\xaf\x19\xa3\x33\xdc\x81\x19\xdd\x26\xf7\xbb\x71\x39\xcf\x39\x4c\x1c\x3e\x4e\x97\xf1\xa4\x96\x9b\x32\xd3\x34\xdd\x5d\x60\x84\x13\x9d\x30\x66\xf8\x61\x79\x2d\xd9\x2e\xe0\x3a\xe2\x71\x84\x73\x06\xae\xda\x39\xb9\x34\x4a\x3c\x63\x7c\xc1\x3b\x56\xa6\x22\x9e\x23\x5c\x2b\xde\x72\x72\x89\xee\xcc\xcf\x5d\x36\x51\x40\x42\xdb\x18\x0b\x45\x93\x17\x49\x31\x88\x86\x08\xea\x63\x68\x15\xea\x24\x9a\x5c\x26\xe9\xaf\xe4\x1c\x9d\xfa\x02\x1e\xc8\xbe\x26\x93\x86\x67\x1e\x71\xc6\x38\x06\x91\x8c\x64\xea\x62\x98\x77\x1b\x38\xd1\xe9\x26\x9e\x26\x0b\x8e\x64\x7c\x3c\x97\x9c\xd5\x8a\x78\x41\x6e\x33\xe2\xd1\xc5\xc0\x54\x5e\xfa\x37\xf1\xfe\x89\x28\xa4\x72\x82\x32\x7a\x47\x52\x97\x60\x79\x66\xc7\x5c\xd6\x15\xc4\xcb\xb9\xce\xbe\x2f\x1e\xab\x0d\xcf\xf5\xa7\xb3\x02\x54\xcc\x10\x33\xba\x00\xb8\x09\xf4\x36\x44\x0c\xc2\xb3\x91\xe6\x6d\x1f\xb3\x24\x25\x09\x17\xd8\xaa\x09\xec\x89\x80\x2d\x49\x7a\x4b\x27\xb1\x57\x14\x27\x32\x11\xb4\x52\x48\x8a\xc4\xf4\x13\x3c\x25\xd1\xf5\x7f\x6a\x22\x56\xa6\xe2\xda\xc7\xf0\x24\x3a\x86\xcf\x35\x54\x55\x58\x6c\x16\x8c\xae\xde\xb5\x03\xba\x1e\x36\x40\x8f\x72\xfe\xd3\xfa\x9c\x3f\x2a\x29\x3d\x05\x1d\xce\xa2\x33\x78\x78\x8c\x97\xdf\x02\x37\x4d\xe4\x35\xc5\x79\x8d\xcb\x05\xac\x0e\x15\x2d\x88\xf6\x8d\xff\xfc\x3f\xb0\xbc\x11\x54\xde\xc4\x59\x2d\x89\xf9\x67\x17\x25\x47\xb8\xfc\x4a\x04\x4f\x18\xad\xe6\x1c\x8b\x74\xf0\xf6\x6f\x78\x7b\xeb\xde\x46\xf9\x4f\x62\x77\x08\x98\xe8\xe6\xa8\x11\x09\xa9\x00\x25\x0c\x4b\x39\x0d\x9a\xac\x30\xc8\x7e\xcd\xab\xd9\x4a\xba\x7f\x82\x1e\x98\x43\x87\xae\xa9\x9b\x9a\xd2\x74\x71\xc0\x2c\xa5\x2d\x33\xdd\xec\x63\x30\x96\x68\x67\xfb\xf3\x0d\x5b\x0d\xa9\x47\xa3\xd1\xd5\xb0\xcd\xcb\xa6\xd5\xb7\x2f\xc1\x60\x99\xe2\x0b\xe8\x72\x75\xd2\x65\xb8\x92\x24\x0d\x50\x8a\x15\x6e\x86\xb5\x70\x3b\xee\x86\x21\x27\xea\x23\xca\x33\xbb\x3a\x40\x58\x50\x1c\x92\xbb\x0a\xc3\xd6\x4b\xa7\x41\x86\x99\xa6\x35\xa3\x1a\x37\x28\xd8\x8a\xea\x41\xd3\x2e\x82\x45\x0e\x8c\x14\x21\x2f\xd9\x2a\x98\x5d\x59\x38\x9d\x49\xc0\xee\x40\xf7\xc0\x52\x7d\x4a\x09\x0d\xfb\xff\x17\xe9\x24\xb6\xa6\xec\x8d\xe1\xb1\x83\xa0\xe3\x56\xd5\x8c\x85\x3a\x9d\x03\x3b\x5a\x2c\x10\x05\x53\xe9\x4a\x15\x34\xbb\xb0\x89\x4a\x3d\xf4\xcb\x32\xa7\x8a\x98\x63\x17\x88\xc6\x9e\xcb\x63\xf0\xf9\x20\x02\x34\x1f\xe7\x89\x36\x5a\xac\xc3\x5c\xb4\xb5\xef\x06\x83\xa9\x1e\xfd\x18\xa9\x99\x17\x11\xa8\x2b\xd0\x40\xd5\x33\xcf\x7a\x4d\x33\x14\xbd\xc7\xb7\xe4\x1d\x96\xb9\xd9\x1c\xf7\xf7\x3d\x0a\x60\xf6\x34\x0c\xd1\x95\xc0\x09\x91\x28\x15\xbc\x4a\xf9\xb2\x44\x05\x29\x6b\x14\x86\xb3\x21\x2d\xa3\x4e\xb0\x23\x0d\x86\x34\xbe\x61\x9f\x05\x43\xf2\x26\x48\x07\x11\xdb\x32\x6b\x76\x97\x0b\xfb\xd1\x48\x05\x77\x38\xae\x19\x46\x19\x0e\x21\x03\x42\xe4\xc2\x49\x5c\xa1\xae\xbc\x6b\x4f\xd0\x99\x53\xac\x17\x27\x09\x2c\x50\x6d\x90\xf4\x1c\x36\x66\xe2\x16\xba\x36\x8a\x43\x68\x9e\x47\xd6\x19\x1b\xcd\x5a\x03\xa4\xce\xec\x70\x76\xd7\x77\x07\xb0\x6b\x72\xbe\x94\xa6\x14\x77\x73\xb3\xd6\x3b\x1a\xcc\x04\xb2\xf8\xe3\x9c\x95\x51\x6c\xc0\x16\x33\x86\xec\xc4\x21\x22\x77\x09\xab\x75\xfb\x81\xf0\x62\x21\x08\xec\x4c\x68\x06\xa0\x3f\x86\xbc\xf8\x06\xc8\xac\x61\x1e\x90\x37\x89\x6b\xb6\x31\xbc\x49\xbb\x5e\x13\x70\xca\x66\x54\x8d\xf1\xdc\x15\xfc\xa8\x61\x7f\xbf\xd7\x37\xe5\x6f\xba\x7a\x54\xa1\x52\xef\x92\x27\x8f\xa8\xd3\x2a\xa3\x2f\x20\xe4\x79\x1c\x2f\x78\xca\x93\x88\x8b\x45\x2c\x79\x2d\x12\xb2\x80\xaa\x9e\x9b\xd2\xec\xbd\xc7\xb8\xaa\xb4\xe3\x41\xf7\x26\x2d\xff\x02\x4d\x73\x79\x33\xa2\xf2\x50\x61\x68\x15\x6e\x36\x55\x7d\xc7\x93\xa1\xa2\x1b\x6a\x6e\x2a\xb9\x93\x3e\x54\xe5\xf5\xfc\x4f\x54\xc0\x32\xdc\x54\xe1\x5b\xaa\xde\xd7\xf3\xdf\xab\x44\x3f\x3e\x6d\xa6\xd5\xb9\x2c\xd6\x07\x96\x2e\x85\x76\x49\xcc\x4b\xc6\x93\x58\x9f\x66\xac\x8b\x1f\x2e\xdb\xfe\x4d\xe0\x77\x30\x65\x2e\x02\x9f\x78\xec\xec\x73\xd3\xe8\x3a\x75\xcd\xdb\xee\x8d\x41\xe5\x66\x4d\x77\x5c\x40\xd3\x0f\x39\xe1\x8d\xb5\x33\xa2\xb0\x33\x4a\xc4\x2b\x52\x86\xd6\x0d\xa8\x12\xfc\x9a\x24\x0a\x25\xb0\x03\xf4\xa6\x9e\xaf\x36\x9d\x37\x0c\xc1\x60\xf6\xa9\x1b\xd1\xb6\x8d\x26\x71\x35\x6a\x19\x0b\xde\x29\xe6\x37\x68\x08\xed\x67\x75\x99\xe8\x0a\xbf\x7f\xd0\xb5\xf4\x28\x8e\xd1\xdf\xa1\x8f\xf1\xcf\x17\xb4\x74\x57\x9a\x6c\x15\xb5\x84\x5f\xec\x07\xee\x48\x50\x05\x07\x51\x4e\x53\xb2\x7f\x10\x65\xb0\xf6\x03\x70\xec\xae\x8b\xd0\x2d\x34\x62\x39\x2d\x95\x44\x53\xf4\xb3\xe7\xf3\x3d\x67\x14\x30\xc1\x2d\xac\x06\xd3\xa0\x6f\x39\x7a\x7f\x75\xf5\x11\x15\x34\x4d\x19\x59\x42\x5a\xd0\xd2\x35\x16\x30\xca\x20\x46\xff\xc8\x8e\x8d\xf5\x2a\x93\x9f\x82\xd9\xc6\x90\xb6\x28\x1c\xf7\x92\x1b\xbc\x20\x4f\xf7\x0e\x7d\xc8\x1f\xc0\x51\xe0\xc0\x39\x41\xd0\xfa\xa6\x28\x13\xbc\x78\x1c\xd9\x03\x78\xb6\xe1\xfb\x6b\x81\x25\x58\x36\x8e\x94\x20\x24\xae\x56\x2a\xd7\xbd\xe9\x12\xf6\x1c\x98\xe3\xa3\x79\x45\x40\xca\x68\x62\x7a\x34\x93\xfa\xe1\x1c\xcb\x9f\xa2\x37\xf6\x5a\x72\x80\xfb\x3d\xd8\xff\x1c\x41\x53\x9d\xdc\x58\x6b\xc2\x31\x85\x97\x8b\xd9\x5b\x5e\xad\x10\x96\xe8\x1f\x9f\x2e\xbf\xd7\xc7\x34\x33\x88\x5c\xd7\xca\xa1\xee\xe8\xfb\x6e\x70\x8c\x31\x8c\xa3\x84\x18\x4e\x91\xcc\x8d\x77\x14\xd2\xa8\xd0\x0a\x74\x00\x73\x50\x48\xb7\x72\x54\xf6\x95\x27\xf5\x27\x22\xe6\x1c\xb6\xf3\x3b\x68\x1b\xd0\x4f\x94\x2c\x3b\xd1\x70\x70\x42\x5d\x05\x69\xce\xb9\xba\xbd\x00\xd9\x92\x27\xd4\xec\x11\x23\x51\x4f\x24\xb5\x10\x70\x54\x45\xba\xf6\x47\x8f\x49\xfd\x28\x78\x46\xa1\xb5\xdd\x14\xc8\x08\x04\x27\x68\x80\x24\x21\xad\xae\xd7\xb5\x54\x88\xd1\x1b\x13\x81\x58\x07\xa9\x5e\x2d\x1e\x30\xac\xf6\x49\xb9\x32\x60\xd0\xbe\x81\xa7\x4f\xda\x80\x57\xc0\x06\x87\x43\x18\x23\xf2\x40\x1b\xb5\xc4\x42\xf0\xa5\x66\x0b\x2b\xc0\x80\xc6\x9a\x44\xdb\x52\x22\xfd\x6b\x43\xa8\xf5\x1d\x95\x73\x59\xf6\xbc\xe7\xca\xbe\xd3\xa5\x82\x80\x35\x7a\xe8\x18\x95\x84\xe9\xbc\xa2\x99\x37\x5e\x2c\x6a\xa6\x68\x05\x16\xb0\x85\xd9\x79\x73\x54\xd2\x87\xa2\x71\xbc\xf1\xb7\xb5\x88\x89\x76\x5c\x72\x80\x20\x50\x9b\xd1\x4a\xe8\x9d\x4b\x98\x85\xc4\x95\x68\x33\xe8\x26\xc5\x01\x6c\xb8\x8c\x46\x17\x7f\x5c\x97\xa7\x7b\x2d\xb0\xcf\x5e\x42\x81\x14\x55\x42\x6e\xd5\x40\xc1\xb4\xaa\x16\xa5\xed\xc1\xf4\xa0\xc9\x34\x2e\x67\xd8\xac\x03\xd6\xc6\x2b\x78\xc7\x30\x09\x2a\x03\x7e\xd8\xbf\xa4\xf4\xd9\x55\x82\xdc\x52\x5e\x4b\xb6\x42\x29\x95\x50\x21\x56\x24\x8d\x7a\x09\x4c\x6f\xf7\xf7\x2e\x89\x7d\xbe\xe8\xcd\x41\xba\xb7\x60\xa6\xa8\x84\x1e\xbf\x9b\x74\x09\xb6\x85\xbb\x4f\xfd\x54\x6b\x57\x97\xb0\xec\x3b\xac\xf2\x28\x63\x9c\x8b\xfd\x7d\xf3\x2c\xc0\x6d\xbc\x80\xc4\xfc\x15\x3a\x26\xaf\x0f\xd0\x97\x56\x97\x88\x91\x72\xa1\x72\x3f\xbb\xda\x8c\x4d\x05\x04\x2b\x1c\x5b\xec\x45\xcc\xd7\xe8\x93\xd2\xad\x94\xd9\x27\x18\xa4\x2f\x91\x65\x08\xf8\x8a\x39\x38\x0f\x8c\x53\x46\x1e\x0b\x9a\xed\x53\x34\xb5\xf0\xd1\x6f\xbf\x21\xf3\xe2\xd4\xea\x43\x46\x8d\xc9\x3b\x9d\xca\x83\x0b\x6f\xfe\x7e\x00\xed\x2d\x23\x3d\xf3\x59\x6f\x2c\x01\x80\x0e\x7d\xa8\x87\x19\xc8\x1c\x60\x69\xa9\x1b\x7d\xd1\x6c\xda\xd7\x7f\x80\x68\x9b\x73\x36\xd1\xbc\x23\x60\xa3\x42\xff\xd0\x48\xb3\x36\x44\x40\x5d\x1d\x18\x3a\x28\x6c\x5a\xc7\x0c\x8a\x71\xba\xf2\x51\x7d\x11\x11\x9c\xe4\x1d\xb2\xc3\xd6\xb9\xfb\x75\xa9\x47\xa1\x47\x1f\xc2\x02\x4d\x88\x36\x24\x1d\x4e\x18\x28\x3f\x7a\x92\x0e\x61\x87\xad\xba\x18\xee\x39\x2b\x1a\x2c\x7d\xd8\xfc\xed\x75\x9d\x7d\xee\x47\x8a\x17\xa8\xd4\x5f\xd4\xd9\xbb\xaa\x65\x0e\x41\xea\x4f\x36\xf2\xbc\x05\x9e\x51\xdb\x08\x6f\xb6\x8d\x41\x74\xd0\x4e\xfb\x6a\x0f\xfa\x05\xdd\x28\x5c\xd6\x6a\xbc\x09\xb1\xf4\x50\xec\x24\x34\x16\xaa\x60\xfb\xc6\xfb\x3f\x77\x3a\x43\xcc\x1c\x7c\xf6\xbb\x8d\xbe\xce\x9b\xb6\x90\x44\x7d\xd0\x77\x9a\xb7\x98\xed\x7b\x58\x0f\xf5\x7d\xeb\xd1\x51\xbb\xe4\xfe\xc0\x31\xeb\x5f\x37\xd9\x5b\xa6\x49\x6c\x7f\x84\x6e\x4f\x15\xdd\xcf\xd6\x36\xd3\x7d\x63\x12\x6d\x60\x9a\x4a\x73\x14\xa7\x66\x38\x74\x09\xb8\x3b\x88\xb7\xb7\x07\xeb\x75\xf4\xe1\x9d\x77\x53\xd1\xde\xf7\x34\x2d\x9c\x39\xd0\x83\xde\x6f\x20\x50\xda\xfe\x17\x5a\x54\x51\x34\x87\x57\xfd\x38\xda\x9d\xea\x89\x50\xdf\xf9\x56\x5e\x7b\xba\x5e\x9b\xa4\x10\x99\x1f\xc2\x7b\x07\xbd\x09\xc3\x73\xc2\xa0\xe7\x13\x1a\x44\x01\x58\x55\x0b\xca\x1c\xed\x82\x19\x60\xd5\x3f\x9c\x1b\x42\x9f\xa5\xb5\x46\xcb\x48\x37\xbe\xfa\x40\x67\xae\xfd\x81\x15\x94\x1c\x05\x40\x79\x96\x05\x3d\x6c\xcd\xfd\x14\x72\xf4\xfa\x38\xbe\x84\xc9\xe7\x5a\x92\x85\xf9\x13\x66\x35\xc0\x34\x82\x1b\x39\x93\xd8\xd1\x6f\xe9\x78\x45\xe1\xfe\x77\x80\x88\x3d\x23\xbe\xb1\x81\x0a\x19\x49\x97\x2b\xd6\x94\x21\xd9\xd9\xd4\x33\xdd\x5c\xe9\xbb\x0d\xce\xfc\x4b\x33\x07\xc9\xf2\xf1\xf5\x6d\x0a\x5a\xb7\x16\xe9\xf5\x10\x19\x18\x0a\xae\x77\xed\x83\xb0\x59\x1a\xf4\xaf\x03\x9d\x55\xfb\x57\x5a\x7d\xa3\xee\x2e\x22\x31\xca\x0d\x44\xec\x76\xa3\xe8\x22\x71\x66\x0d\xd4\x47\xe4\xdb\x38\xb7\x76\x6d\x86\x1c\xd2\xff\x06\x00\x00\xff\xff\x74\x15\xd6\xfd\xc3\x21\x00\x00"),
-			uncompressedSize:  8643,
+			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xbc\x59\xfb\x73\xdb\x36\xf2\xff\xdd\x7f\xc5\x86\x49\xc7\x72\xbf\x26\x69\xc7\xce\x4b\x91\xd4\x6f\x2e\x69\x9b\xdc\x5c\x9b\x4c\xe3\x76\xe6\xae\xd3\xe9\x2c\xc9\xa5\x08\x1b\x04\x78\x00\x28\x5b\x55\xf5\xbf\xdf\x00\x24\x48\xea\xe1\x47\xaf\x9d\x8b\x67\x22\x72\xb1\xd8\xfd\xec\x03\x8b\x05\xb8\x5a\x65\x94\x33\x41\x10\xfc\xf0\xf1\xe3\x45\xb0\x5e\x1f\x4c\x1e\xbd\xfb\xf8\xf6\xe2\x9f\x9f\xbe\x86\xc2\x94\x7c\x76\x30\x69\x7e\x00\x26\x05\x61\x66\x1f\x00\x26\x09\x6a\x82\x42\x51\x3e\x0d\x56\xab\xe8\x6f\xa8\xe9\xc7\x1f\xfe\xb1\x5e\x07\xed\xb0\x61\x86\xd3\x6c\xb5\x32\x54\x56\x1c\x0d\x41\x70\x61\x29\x01\x3c\x59\xaf\x27\x71\x33\xda\x70\x96\x64\x10\xd2\x02\x95\x26\x33\x0d\x6a\x93\x87\x2f\xbd\x10\x37\x24\xb0\xa4\x69\xb0\x60\x74\x5d\x49\x65\x02\x48\xa5\x30\x24\xcc\x34\xb8\x66\x99\x29\xa6\x19\x2d\x58\x4a\xa1\x7b\x39\x06\x26\x98\x61\xc8\x43\x9d\x22\xa7\xe9\xa9\x17\xc4\x99\xb8\x02\x45\x7c\x1a\xb0\x54\x8a\x00\xcc\xb2\xa2\x69\xc0\x4a\x9c\x53\x5c\x89\x79\xd0\x1a\xa2\x0d\x1a\x96\xc6\x39\x2e\x2c\x5b\xe4\x46\xe2\xa1\x88\x86\x2d\x8e\x05\x99\x4c\x60\x94\x48\x69\xb4\x51\x58\xa5\x99\x88\x52\x59\xc6\x1d\x21\x3e\x8b\xce\xa2\xd3\x38\xd5\xba\xa7\x45\x25\x13\x51\xaa\x75\xd0\x20\xd1\x66\xc9\x49\x17\x44\x66\x17\xe5\x60\xac\xd3\x99\x66\xe2\x52\x47\x29\x97\x75\x96\x73\x54\xe4\x14\xe2\x25\xde\xc4\x9c\x25\x03\x35\xa1\xc1\x84\x53\x7c\x1a\x3d\x8f\x4e\xb6\xa9\x1d\x84\x1d\xa3\x0e\xe3\x38\x97\xc2\xe8\x68\x2e\xe5\x9c\x13\x56\x4c\x3b\x05\xa9\xd6\x5f\xe5\x58\x32\xbe\x9c\x7e\xac\x48\xfc\xdf\x67\x14\xfa\xd0\x81\x3c\xec\x41\x1e\x36\x0e\x3d\x34\x74\x63\xac\xcd\x87\x0f\x32\xa8\xc4\x1b\xeb\xb7\x1d\x27\x5a\x1c\x21\x5e\x93\x96\x25\xc5\xe7\xd1\x59\x74\x62\x65\x6e\x90\xb7\xed\x70\x50\x1a\xa5\x2e\x67\x61\xd5\x3c\x03\x54\x52\x33\xc3\xa4\x18\x5b\xcc\x68\xd8\x82\x5e\xfb\xa1\x92\x89\xb0\x20\x36\x2f\xcc\x18\x4e\x4f\x4e\xbe\x68\x07\xd6\xcd\x4f\x22\xb3\xe5\x40\x0c\x66\x19\x13\xf3\xd0\xc8\x6a\x0c\xcf\x4e\xaa\x9b\x4e\x4a\x82\xe9\xd5\x5c\xc9\x5a\x64\x61\x2a\xb9\x54\x63\x78\x9c\x3f\xb5\x7f\x1d\x87\x27\x9f\xb9\x7f\x1d\xd9\xd9\xd3\xb8\x76\x0c\x87\xd6\xb9\xe0\x9c\x7b\x0c\x1a\x85\x0e\x35\x29\x96\xbf\x3e\xf0\xdc\xf1\x97\xf0\x1d\xaa\x39\x13\x90\x48\x63\x64\x09\xc9\x12\x72\x29\x0d\x29\x68\x6c\x80\x2f\x63\xcf\x5b\x3a\xc6\xb0\x61\x1c\xc3\xf3\x1e\x6e\x6b\x5b\x94\x9d\xc0\x6a\x1f\xf2\x24\x49\x5e\xf7\x4c\xa7\xfb\x99\xd2\x34\x79\x91\xbc\x18\xf0\x3d\xbd\x8d\x0f\x5f\xe0\x90\xef\xec\x36\xbe\x57\xaf\x5e\xbd\x1a\xf0\x9d\xdf\xc6\xf7\xf2\xe9\xcb\xa7\x03\xbe\x67\xb7\xf1\xbd\x78\xfe\xe2\xf9\x80\xef\xf9\x6d\x7c\xe7\xf9\x79\x3e\xe0\x7b\x71\x1b\xdf\xd9\xab\xb3\x21\xbe\x97\xb7\xf1\x3d\xc5\xa7\x38\xe0\x7b\x75\x1b\xdf\x69\x7a\x9a\x0e\xf8\x4e\x6f\x89\x46\x9a\x9e\xd0\x09\x59\xc6\x03\x9f\x03\xdf\xe3\x82\xcd\xd1\x26\x34\x24\xa8\xc0\x89\xd4\x5d\xe8\x23\x81\x8b\x04\x55\xc8\xc4\x82\x94\xa6\x3e\x7d\xf7\x08\xdf\xca\xc6\x44\xaa\x8c\xd4\x18\x84\x14\x7e\x85\xdc\xae\xd6\x15\xaa\x7b\x74\xfb\x77\x81\x8b\x19\x67\x33\xec\xc1\xec\x5d\x26\xeb\x87\x49\x19\x17\x72\x41\xea\xf8\x7e\xbe\x5c\xa6\xb5\xde\xd5\x99\x65\xd9\xc3\x15\x46\x98\xda\x82\x31\xc3\xe3\x87\xb1\x3d\x04\x5c\xcf\xbc\x1f\x61\xc2\x31\xbd\x7a\x7d\x47\xdc\xf6\x79\xed\x31\x97\x73\xd9\x8b\x72\x7b\xe1\x18\xb0\x36\xb2\x93\xe4\x0b\xdd\xf9\xb0\x76\x35\x85\x62\x0c\xcf\x76\x68\xa1\x6a\xeb\x22\x95\x5b\xd9\x10\xb1\x54\x5a\x37\xdb\x3c\xe8\x34\xba\x5a\xa6\xd9\x6f\x34\x86\xb3\xa1\x82\x3b\xaa\xaf\xab\xa4\xe1\xf9\x80\x39\xe7\x12\xcd\x18\x38\xe5\xa6\xa3\xf9\xba\xdb\xc2\x89\xce\x76\xf1\xb4\x55\x70\xb5\xab\x13\x13\x2d\x79\x6d\x7a\x9d\xbe\x22\x9e\xbc\xde\x72\xd5\xa0\xfc\xbb\x7c\xff\x4c\x06\x4c\x41\x90\xb3\x1b\xca\x7c\x81\x95\x79\x43\xf3\x55\x57\x51\x97\xfc\xbd\x7f\x07\xc5\x76\x7f\xf8\x9e\xe5\xcf\xf2\x67\x1d\x87\xdd\x31\x43\xe4\x6c\x2e\xc6\x90\x92\x30\xa4\x36\x23\xeb\xad\x1b\x2c\x1f\x37\x25\xa3\x54\x2a\xb7\x20\xc7\x50\x8b\x8c\x14\x67\x83\x75\x6b\x7f\x26\xf1\x60\x53\x9c\xe8\x54\xb1\xca\x80\x56\xa9\x6d\x5f\x52\x99\x51\x74\xf9\xef\x9a\xd4\xd2\xed\xb8\xcd\x63\xf8\x34\x3a\x8d\x4e\xa3\x4b\x1d\xcc\x26\x71\x33\x61\xef\xec\x87\x36\x3f\x97\xdb\xbd\xcf\xbd\x92\xff\xb2\x16\xe7\xcf\x6a\xca\xce\xe2\xb3\xe8\x3c\x3a\x8f\xb3\xb3\xfb\x50\x0f\x9b\xdf\xb6\x7f\xbc\x64\x58\xd4\x28\xe6\x71\x76\x16\x1a\x56\x92\x8d\xcd\xf0\xf9\xbf\x10\x79\xa5\x98\xbe\x8a\xf3\x5a\x93\xfb\xef\x21\x46\xee\x91\xf2\x1b\x29\x99\x72\x56\x25\x12\x55\xb6\xf5\xf6\x2f\x52\xf2\xad\x7f\xdb\x2b\x7f\x12\xfb\xf6\x7f\x62\x9b\xa3\x56\xa5\xc0\x05\xa4\x1c\xb5\x9e\x06\x6d\x55\xd8\xaa\x7e\xed\xab\x5b\x4a\xb6\x7f\x0a\x40\x49\x4e\x8e\xbb\xdd\x53\xda\x2e\x0e\x60\x92\xb1\x4e\x98\x6d\xf3\x91\x09\x52\xdd\xe8\xe6\x78\x2b\xd6\x42\xda\xe0\xb1\xe8\x6a\x63\xa4\x68\x9b\xfc\xe6\x25\xd8\x9a\x66\xe4\x7c\xce\xc9\x16\x5d\x8e\x95\xa6\x2c\x80\x0c\x0d\xb6\xe4\x69\xe0\xe9\x9e\x8c\x6a\x6e\x0f\x27\x8f\x9b\xd9\x01\xa0\x62\x18\xd2\x4d\x85\x22\xa3\x6c\x1a\xe4\xc8\x2d\xaf\xa3\x5a\xdc\x4a\xf2\x4e\xd5\x06\x34\x9b\x87\x15\x0a\x0f\x46\xab\x50\x0a\xbe\x0c\x66\x17\x4e\x2f\xf4\x2e\x99\xc4\xba\x42\x71\xc7\x54\x7b\x40\x09\x9d\xf8\xff\x15\xeb\x24\x6e\x5c\xb9\x41\xc3\xb6\x9b\x1f\x26\x5b\xe7\xeb\xaa\xe6\x3c\xb4\xe5\x3c\x98\x4d\x58\x39\x07\x96\x4d\x03\xbb\x53\x05\x4d\x82\xb6\x49\x69\x29\xbf\x5e\x17\xcc\x90\x3b\x70\xcd\x26\x31\xf6\x2a\x26\x71\xc6\x16\x83\x57\x9b\x20\x2c\xeb\x7c\xeb\x35\xf9\x78\x41\x1b\xde\xee\xdd\x41\x70\x9b\xc7\x66\x8a\xd4\xdc\x4f\xb5\xf9\xdb\xce\x12\xb8\x08\x66\xed\xb6\xd2\xfe\xad\x56\x2c\x87\xe8\x3d\x2e\xe8\x1d\xea\xc2\xad\x94\xf5\x7a\x83\x03\x60\xf2\x28\x0c\xe1\x42\x61\x4a\x1a\x32\x25\xab\x4c\x5e\x0b\x28\x49\xd4\x10\x86\x43\xa5\xed\x91\xc8\x2b\xf6\xac\x5b\x09\xb2\xe9\xd7\xc7\xc1\x36\x7b\x9b\xa3\x5b\x09\xdb\x09\x6b\x17\x97\xcf\xfa\xbd\x89\x3a\x9b\x30\x2f\x35\x47\xc8\x31\x44\x45\x18\xda\x23\xb8\x81\x7e\x77\xb7\x39\xc0\x66\xde\xb0\x8d\x34\x49\x51\x91\xe9\x72\x64\x23\x60\xfb\x5c\xdc\x41\xb7\x4e\xf1\xcb\xdf\x3d\xef\x99\xe7\x7c\x34\xeb\x1c\x90\x79\xb7\x07\xe0\x2e\x0d\xa6\x81\x2e\xe4\xb5\x76\x3b\x71\x3f\x36\xeb\xa2\x63\xc1\x4c\x62\xce\xee\x97\x6c\x9c\x61\x5b\x62\x91\x73\x68\x06\x8e\x81\x6e\x52\x5e\xdb\xee\x03\x70\x3e\x57\x34\x47\x43\x19\x48\x41\x3a\x98\xbd\xe1\xbc\x75\xcc\x1d\xfa\x26\x71\xcd\x77\xc8\xbb\xbc\xab\x15\x71\x4d\xbb\x59\xb5\x4f\xe6\x43\xc1\xef\xcb\x29\xf8\xe3\x51\xdf\xd5\xbf\x1b\xea\xbd\x06\x89\x6c\xbd\x3e\xd8\x20\xee\x31\xa7\x33\xa6\x30\xa6\xd2\xe3\x38\x9e\xcb\x4c\xa6\x91\x54\xf3\x58\xcb\x5a\xa5\x34\x57\x58\x15\xae\x07\x18\xbc\xc7\x58\x55\x36\xf0\x01\xf8\xaa\xfc\x6b\xc2\x51\x5c\xed\x31\x79\xdb\xe0\x44\xca\xab\x5d\x53\xdf\xc9\x54\x1f\xdc\x63\xe6\xae\x91\x0f\xb2\x87\x99\xa2\x4e\xfe\x42\x03\x1a\x81\xbb\x26\x7c\xcb\xcc\xfb\x3a\xf9\xa3\x46\x6c\xe6\x67\x53\x69\x6d\x2d\x8b\xed\x79\xa5\x2f\xa1\x7d\x11\x1b\x14\xe3\x49\x6c\x0f\x33\x07\x07\xdb\xbb\xf2\xee\xae\x3d\xbc\x02\xfc\x0e\x99\x70\x37\x80\xad\x0c\x27\xae\x79\x6e\xfb\x5c\x6f\xae\x7b\xeb\x64\xdc\xad\x01\x60\x52\xf9\x51\xd7\x1c\x97\xb5\xa1\x2c\x98\xbd\x69\xfc\x0c\x4c\x03\x0a\x90\x15\x89\xb0\xc9\x23\xa8\x94\xbc\xa4\xd4\x40\xaa\xc8\x2d\xea\x64\xb9\x1b\xbc\x41\xc4\x5c\x04\x83\xd9\xe7\x9e\x62\x13\x24\x9a\xc4\xd5\x5e\xcf\x34\xa6\x78\xc3\x86\xfd\x19\xc0\x28\xaf\x45\x6a\x37\xf8\xd1\x51\xdf\xd1\x43\x1c\xc3\x37\x98\xd1\xf0\x78\xc1\x84\xbf\xcb\xe4\xcb\xa8\x63\x7c\x32\x0a\xfc\x89\xa0\x0a\x8e\xa2\x82\x65\x34\x3a\x8a\x72\xcc\xe8\x83\x18\x1d\xf5\xb7\x45\xb0\x40\x05\x05\x13\x46\xc3\x14\x7e\xee\xa8\x00\x87\xde\x29\x95\x92\x0b\x96\x91\x06\x84\x6f\x25\xbc\xbf\xb8\xf8\x04\x25\xcb\x32\x4e\xd7\xa8\x08\x98\x70\x58\x26\xb8\x9d\xa3\x7f\x66\xc5\xc6\xd6\xb5\xae\x3e\x05\xb3\x1d\x92\xf5\x28\x54\x98\x5e\xe1\x9c\x1e\x1d\x1e\x0f\x21\x7f\x30\x90\xa2\x80\x84\xa0\xd6\x94\x41\xae\x64\x79\x3f\xb2\x3b\xf0\xdc\x86\xef\xff\x4b\xd4\x86\x54\x1c\x19\x45\x14\x57\x4b\x53\x48\x11\xcc\xae\x99\x29\x98\x80\x4f\xee\x15\xb0\xaa\x38\x4b\x5d\xd7\xaa\x1d\x64\x23\xe5\x23\x78\xd3\x5c\x56\x6e\xe1\x7e\xcf\x84\x19\xc3\x5b\xce\xd2\xab\xc6\x9b\xda\x28\x29\xe6\xb3\xb7\xb2\x5a\x02\x6a\xf8\xfb\xe7\x8f\xdf\xdb\x53\x9a\x23\x82\x6f\x5a\x25\xd0\x8d\xbd\xe8\x06\x6c\x36\x22\xcf\x09\x28\x32\xd0\x85\x8b\x8e\x01\x8b\x0a\x96\xb2\x56\x90\x2b\x46\x22\xd3\x7b\x75\x5f\x0c\xb4\xfe\x44\x2a\x91\x9a\xe0\x1d\x1a\x84\x9f\x18\x5d\xf7\xaa\x0d\x26\xd0\xef\x20\xed\x31\xd7\xb6\x17\x80\x5a\xcb\x94\xb9\x35\xe2\x34\x5a\x33\xd2\x5a\x29\x12\x06\xec\xde\x1f\xdd\xa7\xf5\x93\x92\x39\xe3\xb4\x47\x21\x27\xa3\xad\x05\xa0\x89\x3a\x5b\x2f\x6b\x6d\x80\xb3\x2b\x97\x81\x68\xd7\xa9\x9d\xad\xee\x70\xac\x14\x80\x62\xe9\xc0\xc0\xc8\xc1\xb3\x07\x6d\xca\x40\x51\x6a\x50\xcc\x39\xe9\x23\xeb\x54\x81\x4a\xc9\x6b\x2b\x56\x0a\x60\xa6\xf1\x26\x59\x5f\x6a\xb0\x9f\x19\x42\x6b\xef\x5e\x3d\x1f\xdb\xb5\xd0\x82\xf7\xdb\xbe\xb7\xa5\xc2\x39\x39\x3b\x6c\x8e\x6a\xe2\xb6\xae\x58\xe1\x6d\x14\xcb\x9a\x1b\x56\x71\x6a\x37\x66\x1f\xcd\xbd\x9a\x3e\x94\x6d\xe0\x2d\x47\xeb\x11\x97\xed\x28\xa4\x29\x48\x41\x57\xd1\x84\x36\x28\x52\x82\x64\x09\xa9\x75\x83\x6d\x52\xbc\xcb\x5b\x29\x7b\xb3\x4b\xde\x6f\xcb\xa3\xc3\x0e\xd8\x2f\x83\x82\x12\xc7\x20\xe8\xc6\xd8\x08\x83\x22\x53\x2b\xd1\xf4\x60\x96\xe8\x2a\x8d\xaf\x19\xf6\x59\x03\x2a\x85\x4b\x30\x05\x1a\x28\x50\x83\x90\x06\x12\x22\x31\x14\x57\x29\x5a\x30\x59\x6b\xbe\x84\x8c\xe9\x8a\xe3\x92\xb2\xbe\xd2\xd9\x02\x66\x97\xfb\x7b\x5f\xc4\x7e\x79\xbd\x31\xc6\x51\x37\x60\xa6\x20\x6a\xce\xfb\x41\x5f\x60\x3b\xb8\x23\x36\x2c\xb5\xcd\x6c\x01\x53\xf8\x0e\x4d\x11\xe5\x5c\x4a\x35\x1a\xb9\x67\x85\x22\x93\xe5\xe8\x08\xbe\x84\x53\x7a\x75\x04\x5f\x38\xbb\x74\xc4\x49\xcc\x4d\x31\xac\xae\x0e\xff\x37\x4c\x69\x03\xcc\x50\x73\x0f\xf3\x15\x7c\x36\xb6\x81\x76\xeb\x04\x41\xd0\x35\x34\x02\x41\xd4\x65\x42\xca\x7a\x4b\xf4\xf6\x01\xb0\x7c\xc4\x60\xda\xc0\x87\xdf\x7f\x07\xf7\xe2\xcd\xda\x84\x0c\xad\xcb\x7b\x9b\xc4\x51\x6f\x71\x7f\x17\xe6\xa1\xbd\xe5\xb4\xe1\xbe\x26\x1a\xd7\x05\xb9\xd4\x67\x1a\xf2\x9a\xf3\x2d\x2c\x1d\x77\x6b\x2f\xcc\xa6\x9b\xf6\x6f\x21\xba\x2d\x38\xbb\x68\xde\x91\x21\x55\xda\x2f\x8c\x2c\xef\x52\x04\x98\x4b\x0c\x9b\x14\x0e\x28\x20\x57\x84\xd9\x60\xaf\x03\x78\x12\x11\xa6\xc5\xa8\xd3\x74\xdc\x05\x77\x54\x0b\x4b\x3d\x06\xda\x86\xc5\xf2\x11\x59\x47\x6e\x05\xbd\x85\xf2\xe3\x40\xd3\x31\x18\xb5\xec\x73\x78\x23\x58\x43\x14\xf7\xbb\xdf\x5f\xb9\xb5\xcf\x9b\x99\x32\x48\x54\xf6\xfa\x60\x8f\xff\xa2\xaa\xd6\xc5\x88\x6d\x48\x6c\xf5\x0d\x26\xac\x0f\x76\x33\xbc\x5d\x36\x56\xca\xe8\xa8\x1b\x1e\x9a\xbd\xd5\x2f\xd8\x46\xe1\x63\x6d\xf6\x37\x21\xf6\xef\xc9\xc8\x14\x4c\x1f\x45\xf6\x1b\xda\xc8\x86\x49\xff\xdc\xdb\x5c\x73\x7e\xf4\xcb\xb0\xdb\xf0\xb3\x1a\x9b\xbb\xe7\xee\x49\x93\xf9\x60\xaf\x34\x17\xc8\x47\x03\xac\xc7\xf6\x6b\xdb\xc9\x49\x37\x65\x7d\xe4\x85\x6d\xde\x36\x35\x97\x4c\x93\xd8\x82\x99\x1d\x74\xa7\x8a\xfe\x7b\x75\x53\xe9\xbe\x76\x85\xd6\x7e\xb7\x6e\x8f\xe2\xcc\x91\x43\x5f\x80\xfb\x83\x78\x77\x7b\xb0\x5a\x45\x1f\xde\x0d\x2e\x2a\x7c\xaf\xdb\xb6\x94\x4e\xca\x05\xdd\x98\x37\x8a\xb0\xeb\x7f\x27\xb9\x54\x65\x7b\x78\xb5\x8f\x7b\xbb\x53\x3b\x10\xda\x2b\xdf\xaa\x1b\xb6\x2d\xb0\x2b\x0a\x91\xfb\x02\xbe\x71\xd0\x9b\x70\x4c\x88\x43\x2e\x95\x6d\x6c\xcb\x92\x84\xe9\x40\xb9\x73\x69\x30\x5b\xad\x22\xfb\xc5\xdc\x31\x0e\x45\x36\xde\xf0\xef\x13\xdb\xf8\xda\x03\x9d\xbb\xf5\x4f\x65\x59\x71\x32\x34\x0d\x64\x9e\x77\x02\x1d\xb6\xf6\x7a\x0a\x3c\xbf\x3d\x8e\x5f\xeb\x69\xf0\xcc\x6a\x6a\x60\xfe\x84\xbc\xa6\xf5\xda\x29\x6e\xf5\x4c\x62\xcf\xef\x21\x6c\x75\xbc\xaa\x6c\x9f\x13\xe5\x3f\x98\x5b\x27\xbe\x71\x69\x06\x31\xbc\xb5\xdb\x15\x6f\xb7\x21\xdd\xfb\x74\xe0\xba\xc4\x88\xd0\x48\xc9\x87\x77\x66\x1e\x52\x23\x67\x68\x6f\xbb\xa1\xf5\x73\xc1\xce\xcf\x28\xc7\x9a\x9b\xc1\xb5\x0f\xd8\xef\x2d\xfd\x27\xff\xf6\x5e\xc4\x7b\x75\xf3\x46\x6b\xd3\xa9\x0f\x57\x91\x3a\xe3\xb6\x54\x6c\xde\xcf\x74\x19\xd6\x92\xdb\xde\xf5\xb1\xcf\xc4\x59\xe3\xa0\x4d\x44\x43\x1f\x17\x8d\x5f\x5b\xd2\x6a\x45\x22\x5b\xaf\x0f\xfe\x33\x00\xa5\x47\x7d\x57\xbc\x21\x00\x00"),
+			uncompressedSize:  8636,
 		},
 		"/root.html": &_vfsgen_compressedFileInfo{
 			name:              "root.html",
 			modTime:           mustUnmarshalTextTime("2015-10-04T03:50:12Z"),
-			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x09\x6e\x88\x00\xff\x8c\x53\xbd\x6e\xdb\x30\x10\xde\xf5\x14\x07\x76\x0b\x40\x2b\xad\x91\x0e\x8e\x2c\xa0\x53\xa7\x6e\x41\xd7\x80\x16\x4f\xd2\xa1\x34\x49\x90\xe7\xfc\xd4\xf0\xbb\xf7\x48\xcb\x69\x8d\x64\xe8\x60\x58\x3a\x7d\x7f\xfc\x0e\x3c\x1e\x2d\x8e\xe4\x11\xd4\x03\xb1\x43\x75\x3a\x99\x18\xad\xc9\xf3\xf1\x88\xde\x9e\x4e\x4d\xf3\x17\xf1\xc3\x90\x57\x65\xd4\x65\x7e\x75\xd8\x37\xab\x7c\xd8\xc1\xb1\x01\xd8\x9b\x34\x91\xd7\x0e\x47\xde\xc0\x67\xdc\xdf\xcb\x6c\x0c\x9e\x75\xa6\xdf\x28\x93\xaf\xf1\xe5\xbe\x39\x35\xab\x31\x04\xc6\x54\x29\x8c\x2f\xac\x8d\xa3\xc9\x6f\x60\x40\x2f\xe3\x8a\x48\x68\xb5\x0b\x53\xa8\x98\x68\xac\x25\x3f\x69\x0e\x71\x03\x5f\x56\x77\x45\x78\xc1\xe4\x48\xde\x2f\x52\x1f\xc3\x3e\xed\x68\xd2\x3b\xf6\xff\x04\xdc\x80\x39\x70\x28\xe1\x9e\xc9\xf2\x2c\xe0\x25\xeb\x95\xc2\xdd\x3b\x05\xaa\x1a\x4e\x4a\xd0\x33\xd2\x34\xcb\x21\x6f\xef\xa1\xbd\x01\x1b\xc0\x07\x06\x1c\x47\x1c\x18\x78\x46\x38\x7f\x87\x30\xd6\xb7\xdd\x81\x39\x78\xb8\x69\xaf\xfb\x58\xdf\x96\x3e\xc4\x36\x64\x62\x0a\x92\x2b\xa1\x33\x4c\x4f\x58\xa6\x35\xc4\xfa\xdc\x58\xd7\x2e\x55\x37\x1d\xed\x27\x18\x9c\xc9\x79\xab\xde\x4a\x92\x99\x4e\x98\x63\xf0\x59\xc8\x4b\x8f\x7a\xe7\xc2\xf0\x4b\x41\x4e\xc3\x56\x09\x5f\x84\x87\xb6\xc0\x1f\x85\xb7\x8a\x7e\x52\x7d\xd7\x0a\xb3\x6f\xba\x79\x0d\x55\x7f\xab\x3e\x58\x87\xea\xbf\xc5\xe8\x68\x30\x25\x22\x70\x32\x83\x54\x04\xf9\x35\x33\xee\xe5\x34\x09\xbe\x87\x55\xd7\xce\xeb\xfe\x5d\xb6\xcb\x72\xfe\x3f\x9e\xb0\x1e\x17\xd6\x55\xc2\xa6\xb3\xf4\x04\x64\xb7\x6a\xd9\x85\xea\xa5\xa1\xce\xc0\x9c\x70\x14\x7a\x49\x85\x59\x5d\xcc\xcb\xb2\xe4\x77\xb6\xa8\x4f\x6e\xaa\x7f\xd6\xf8\x09\x53\x25\x0b\x9d\x2e\xf8\xd1\xc0\x68\xb4\x49\x68\xf4\x30\x9b\xc4\xf0\xe6\x22\xfe\x3d\xfc\x24\x7c\x86\x87\x6a\x51\x5c\x5b\x23\x47\x6d\x25\x50\x5f\x6e\xc5\xf9\x7a\xfc\x09\x00\x00\xff\xff\x24\x24\x3d\xdd\x40\x03\x00\x00"),
-			uncompressedSize:  832,
+			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x8c\x91\xc1\x6e\xdc\x20\x10\x86\xef\x3c\xc5\x88\xde\x22\x79\x9d\x64\x95\x1e\x1c\xd6\x52\x4f\x3d\xf5\x16\xf5\x1a\x61\x33\xe0\x51\x31\x20\x98\x6c\x92\x5a\x7e\xf7\xca\x64\xb3\xed\x2a\x55\xd5\x93\x6d\xfc\xcd\xcc\xc7\x3f\xcb\x62\xd0\x52\x40\x90\x0f\xc4\x1e\xe5\xba\xea\x94\x8c\x2e\xd3\xb2\x60\x30\xeb\x2a\xc4\x6f\xe2\x9b\xa6\x20\xb7\x23\x55\xf8\xd5\x63\x2f\x76\xe5\x69\x80\x45\x00\xcc\x3a\x3b\x0a\x8d\x47\xcb\x1d\xdc\xe0\x7c\x2f\x00\x6c\x0c\xdc\x14\xfa\x89\x1d\xdc\x7c\x4e\x2f\xf7\x62\x15\x3b\x1b\x23\x63\xae\x25\x8c\x2f\xdc\x68\x4f\x2e\x74\x30\x62\x60\xcc\x95\xc8\x68\x1a\x1f\x5d\xac\x4c\xd2\xc6\x50\x70\x0d\xc7\xd4\xc1\xed\xee\x0e\xe7\x33\x53\x12\x85\x80\xf9\x1f\xd8\xa7\x81\x5c\x33\x70\xf8\x43\xb0\x03\xfd\xc4\x71\x93\x7b\x26\xc3\x53\x07\xb7\x27\xd7\x8b\x0e\x77\x1f\x3a\x50\xed\xe1\x29\x60\x33\x21\xb9\x89\x3b\xb8\xbe\x87\xf6\x0a\x4c\x84\x10\x19\xd0\x5a\x1c\x19\x78\x42\x78\xfb\x0f\xd1\xd6\xaf\xe1\x89\x39\x06\xb8\x6a\x2f\xf3\xd8\x5f\x6f\x79\x00\xa4\x58\x88\x29\x86\x0e\x32\x7a\xcd\x74\xc4\xed\xb4\x4a\xec\x37\x62\x15\xaa\x3d\x45\x2d\x14\xcd\x0e\x46\xaf\x4b\x39\xc8\x73\x48\x34\xbb\x26\x63\x49\x31\x14\x3a\xe2\x29\xc7\x66\xf0\x71\xfc\x21\xa1\xe4\xf1\x20\x0b\x6b\xa6\xb1\xdd\xe8\xc7\x8c\x66\x97\x82\x93\xbd\x6a\x69\x76\xbd\x50\xd3\x1e\x6a\xfb\x83\xfc\xcb\x36\x64\xff\x25\x25\x4f\xa3\xde\x0c\x81\xb3\x1e\x29\x38\x28\xaf\x85\x71\x06\x1b\x33\x7c\x8d\x3b\xd5\x4e\xfb\xfe\x83\xda\xfb\x6e\xfe\xdb\x2e\xa3\x79\x3c\x15\x5d\x08\x0a\x65\xe8\x08\x64\x0e\xf2\xb4\x09\xd9\x0b\x00\xa5\x61\xca\x68\x0f\x72\x73\xc2\x22\xdf\x47\x6f\xbb\x1e\x38\xbc\x5d\xbf\xbe\x79\x57\x1f\x46\x07\x87\xb9\xd6\x02\x28\x7a\xe7\xad\x06\xab\x1b\x9d\x51\x37\xe3\xa4\x33\xc3\x79\x88\x6a\xa9\x87\xef\x84\xcf\xf0\x50\x47\x6c\x43\x5b\xdd\x0b\xd5\x1a\x3a\xf6\x42\x2c\x0b\x06\xb3\xae\xe2\xd7\x00\x43\x64\x45\x39\x3d\x03\x00\x00"),
+			uncompressedSize:  829,
 		},
 		"/trace.html": &_vfsgen_compressedFileInfo{
 			name:              "trace.html",
@@ -64,8 +64,8 @@ var Data = func() http.FileSystem {
 		"/traces.html": &_vfsgen_compressedFileInfo{
 			name:              "traces.html",
 			modTime:           mustUnmarshalTextTime("2015-10-04T03:50:12Z"),
-			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x09\x6e\x88\x00\xff\xa4\x58\x5b\x73\xdb\xb8\x15\x7e\xcf\xaf\x40\xb0\x99\x86\x9a\x58\x54\xbb\x33\x7d\x71\x24\x77\xbc\x9b\x6d\xc7\x6d\x37\xc9\xac\x9d\x74\xa6\x9d\x3e\x40\x24\x24\xc1\x81\x08\x16\x00\x65\xab\x5a\xfd\xf7\x7e\x07\xe0\x5d\x72\xe2\xd9\x3e\xc4\x11\x41\xe0\x5c\xbe\xf3\x9d\x0b\x78\x38\xe4\x72\xa5\x0a\xc9\xf8\x9d\xf2\x5a\xf2\xe3\xf1\xce\x8a\x4c\x3a\x36\x65\xa2\x2c\x73\xe1\x36\x87\x83\x2c\xf2\xe3\xf1\xc5\x8b\x6e\xeb\xcf\x42\x15\x9c\x96\xe6\x2f\xa7\x53\x76\xeb\xf7\x5a\x15\x6b\xb6\x32\x96\xf9\x8d\x64\x6a\x5b\x1a\xeb\xa7\xf7\xce\x14\x6c\x59\x79\x8f\xff\x7e\xc7\xb6\xb2\xa8\xd8\x74\x7a\xf5\x62\xee\xb0\x5d\x5e\xbd\x60\xec\x3b\x6f\xca\xa9\x55\xeb\x8d\x9f\x2e\x7d\xe1\xd8\x01\x6b\x8c\x6d\x85\x5d\xab\x62\x8a\x77\x97\xec\xfb\x3f\x96\x8f\x6f\xb1\x7a\xc4\xbf\xd9\x8c\x7d\x58\xad\x9c\xf4\xad\x9e\x6c\x23\xb3\x2f\x4b\xf3\xc8\x96\x32\x13\x95\x83\x62\xff\xda\xb1\xc2\x78\x26\x32\x5f\x09\xad\xf7\x6c\x27\xad\x57\x59\xf8\x29\xb4\x5a\x17\x32\x67\x0f\xca\x6f\xa2\x38\x92\xe1\xe5\xa3\x4f\xf1\x98\x7a\xf2\x7a\xda\x8a\x8c\xb6\x60\xd3\xdd\x46\x39\x96\x1b\xe9\x8a\xd7\xd0\xac\x1e\xa3\x87\xce\x55\xf2\xb2\xde\xd2\xe8\x98\x06\x0d\x97\x6c\xab\xf2\x5c\xcb\xb7\xe1\x6d\x69\x9c\xf2\xca\x60\xd5\x4a\x2d\xbc\xda\xd5\xeb\xd1\xbb\xc6\xb9\xf9\xac\xc6\x24\xe2\x79\x07\x58\x7e\x21\x58\xd8\xcf\x2d\x68\xb9\xda\xb1\x4c\x0b\xe7\x16\x1c\x58\x4d\xd7\xd6\x54\x25\x2b\x2b\xad\x23\x80\x9c\x59\xa3\xe5\x82\x87\x75\xce\x84\x55\x62\xaa\xc5\x52\xea\x05\x4f\xd3\x94\x33\x95\x2f\xf8\x10\x6d\x4e\x11\x08\xea\x6e\x42\xb8\xd8\x5f\x6f\x3f\xbc\x6f\xc2\x45\x2a\xf1\xb6\x7e\xea\xf4\x32\xd2\x0d\x12\x88\x4a\x43\xa5\xdf\x97\x50\x19\x37\x45\x15\xbd\xc8\xf3\xe0\x67\x2e\xbc\x40\x28\xd7\x6b\x32\x2e\x33\x5a\x8b\xd2\x49\x5e\x2f\x23\xd0\xd2\x2f\xf8\x77\xbd\x53\x53\xa2\x49\x3c\xea\x89\x8e\x8d\xc8\x68\x9d\x8f\xcc\xcc\x95\x95\x99\x47\x48\x55\xe1\x0d\xbb\x8e\x2c\xe5\x57\x3d\x3f\xe6\xb3\x68\x15\x10\xad\x9d\xac\x49\x6d\x4a\x8a\x86\xeb\xd8\xd8\x79\x39\xf4\xe6\xbc\xcf\x2c\xb7\xa6\xcc\xcd\x43\x51\xfb\xc4\x87\x0e\x36\x6f\xeb\x00\xc8\xc7\x52\x14\xb9\x04\x2e\x2b\xa1\xc9\xed\xda\xa5\x9d\x92\x0f\xad\x25\x44\xe6\x2d\x44\xab\x52\x4b\xe6\xa4\x86\x67\x20\x69\xf4\x34\xc4\x88\x35\xb6\xcf\x1d\xc4\x35\x86\x65\xc2\x4a\xcf\xaf\xc0\x1c\x2c\x06\x37\x5a\x97\xf1\xbb\xd2\xcd\xbe\xd6\xe0\x00\x6c\xcd\x92\xf0\x3b\xca\x9e\x6b\x75\x35\x17\x6c\x63\xe5\x0a\x91\x68\x88\x42\xee\x4c\xa3\x31\x8a\xd0\xa8\x0d\x8f\x2b\xb3\x5c\xc6\x1f\x48\x29\xdd\x5a\x7a\x17\x0e\xb1\xdb\xe6\xd0\x7c\x26\x60\x1d\xa4\xf7\xd5\x90\x74\xa0\x42\xd1\xf6\x26\xd2\xa4\x91\x9d\x99\x72\x1f\x72\x6b\x84\x01\x52\x25\x26\xbb\x56\xe5\xd2\x08\x9b\x33\xe1\x22\x1b\x08\x7a\x7e\xf5\x53\x10\x57\xeb\x95\xf9\x59\xb5\x03\xef\xc4\x7a\x6d\xe5\x5a\x78\x39\xa5\x38\x0c\x83\x42\x8a\xda\xf7\x79\xd0\xc0\xcc\xea\x9c\x59\xfc\xea\xba\xd9\xc7\x3e\xe3\x68\x5f\xef\x7c\x56\x69\xa4\xec\x0c\x39\xdb\xa4\x74\x29\xd6\x32\x6a\x8a\xe9\xbc\xf9\xc3\x55\x8c\xea\x7c\x86\x9f\x54\x5a\xbd\xdc\x96\x9a\xa4\xf1\xc8\xe3\xe8\x17\x08\xa6\x00\x34\xbf\x79\xc7\x19\x3f\xc9\x13\xc6\xaf\xeb\x00\xf1\x1e\xf9\x79\x53\xca\xdb\x55\xd1\x4b\x1f\xb6\xdc\xc3\x1a\xe7\xa9\x60\x2b\x8f\xd2\xa9\xcd\xc3\x65\x57\xcb\xef\x50\x0f\xaf\xad\x14\x2c\x29\xa0\xe5\xcf\x20\xd1\x66\xc2\x40\x5f\xbd\x14\xd9\x97\x40\xd6\x1f\x11\xa8\x37\x1f\x21\x41\x12\x34\xfd\xbc\x24\xcf\x9e\xe5\x48\x4d\x81\xbe\x23\x8d\xc5\x9f\x50\xc6\x33\x6f\xf5\x9b\x8c\x41\x57\x66\xb6\x5b\xa4\x10\x1e\xc0\x82\x96\x21\x7d\x9d\x7d\xfb\x3b\xd6\x6b\xe5\xfc\xb4\x2a\x42\x55\xcd\x03\xd3\x0f\x07\x2b\x0a\xc4\x20\x8d\xb0\x1f\x8f\x81\x1f\x87\x83\x5a\xb1\x84\xfa\x03\x7b\x95\x7e\x56\x4e\x2d\x11\xa0\x74\x52\xbf\x8d\xfc\xa9\x7f\xe2\x41\x15\x65\xe5\xeb\x3a\xd1\x34\x8a\xb6\x52\x0c\xfb\x07\x8f\xcd\x89\x72\x7f\x0f\xb2\xb4\x32\x42\xb9\x08\x7e\x87\xfd\x0b\x7e\x38\xa4\xb7\xde\x22\x18\xc7\x23\xef\xa9\x6a\x38\x7b\x38\x54\x56\xdf\x99\x60\x34\x4b\x6f\x91\xeb\xe9\xcd\xbb\xe8\x03\x1d\xa0\xd3\xc3\x35\xe2\xe1\x8b\x4e\x4e\x07\xc9\xa0\xa2\xb4\xde\x0d\xde\xc6\xfc\xa0\x82\x32\xed\x09\xa6\xff\x07\xc6\xb5\xc0\xa5\xef\xc5\x56\xb6\x58\xd5\x32\x9d\xb7\x06\xd4\xaa\xb3\x0a\x72\x6e\xde\xd5\x96\xc6\xdd\xd4\xeb\x68\xc7\x58\x9e\x44\x85\x7c\xbe\xac\xd6\xae\x27\xc5\xc5\x91\xe5\xd4\xe6\xe0\xd6\x75\x81\x29\x41\x84\x02\x3c\xd6\xe9\x05\x71\xa0\x81\x25\x3c\x84\xbf\xd3\xcc\xa0\x96\x17\x8e\x2a\x40\x78\x86\x5e\x55\xd6\xec\x1a\xaa\x89\x4c\x4b\x56\x4a\x7b\x69\x7b\xaa\x4e\x95\x4f\x46\xda\x3b\x33\x63\xee\x88\xc2\x9f\xd9\x41\x56\xda\xab\xb9\xdf\x10\x12\x7f\x93\x7b\x42\x01\x0f\x73\x9f\x63\x01\x66\xb1\xf4\xb3\xd0\x55\xc0\x1a\x4b\xf8\x63\xc7\x36\x76\x08\x7d\x7b\x15\xe7\xc9\xdf\xf3\x00\xf7\xb7\x0d\x72\x25\x94\xc0\xf1\x9b\xee\x54\xf3\x2b\xee\xc3\x4c\x98\x01\xcc\x26\xb7\x68\x26\x9b\xdd\x8b\x9d\x88\xab\x01\x61\x4c\x62\x3f\xa8\x22\x47\xa2\xb8\xb3\x73\x26\x95\x11\x9a\xe3\x92\x55\x55\x84\x9a\x98\x4c\xba\x19\xee\xa6\xc0\x10\x86\xe9\xec\xbf\x92\xea\x88\xd8\x19\x95\x33\xb7\x31\x0f\x54\x03\x71\x76\xa5\xac\xf3\x2c\x6d\xc6\x93\x84\x6f\x54\x2e\xf9\x84\x51\x5d\x48\x83\x8c\x57\x09\xff\xee\xa4\x68\x4d\xba\x13\x87\xd8\x32\x2f\x59\x68\xf4\xc7\xc9\xdb\xf6\xd4\x49\xcd\xfe\xea\xa9\xc6\xe0\x7f\x6c\x64\x11\x5c\x1c\x2b\xc5\xe4\x19\x2c\x2f\xd8\x83\x64\x0f\xa0\x07\x39\x44\xe6\xf6\x00\x61\x2d\x20\x8d\x38\x67\xa8\xd4\x7b\xf1\x05\x05\x53\x79\xc7\x50\x9f\x33\xf9\x55\xcf\x80\xdf\x6b\xd2\x93\x2e\x5d\x6b\xef\xeb\x0b\xd6\x80\xcb\x5a\x74\x9f\xe3\x67\x8d\x67\x04\xe5\x38\x69\xac\xba\x2e\x72\xb6\x53\x28\x9a\x18\xa0\x9d\x68\xa3\x6a\xf0\xc7\xd6\x83\xe8\xe5\x39\x1c\x49\xb4\x56\xd9\x97\xd3\x50\x3f\x27\x54\x23\x63\x3a\xcc\x3f\x95\x34\xea\x1a\x34\x2f\x19\x5c\xac\xfb\x7e\x8d\x29\xac\xdb\x5e\x10\xe8\x1f\x3f\xdc\xde\x8d\xba\x50\x9c\x13\x30\x8f\x7b\xd3\x08\xa3\x0d\x7c\x16\x6b\xee\xac\x2a\xb5\x11\x39\x67\x9f\x7e\xf9\x3b\x43\x37\xa3\xab\x00\x9e\xc3\x9e\x38\x17\x18\x34\x47\x87\xa0\xc4\xf6\x56\xd0\x20\x62\x07\x11\x1a\xa3\xcb\x52\x11\x1b\xff\x57\xa0\xa0\xbb\x8b\x55\x5b\xf6\xb0\x51\x5e\xa2\xa8\x67\x41\x11\x2a\x58\x65\x23\x5b\x70\x63\xb2\x61\x14\x40\x49\x73\x66\x2b\xfd\x86\xf2\x21\x29\x75\xe5\x2e\xea\x91\xc7\x22\x34\x9d\xb8\xe6\x16\x44\xb3\x27\x13\x4b\x83\x66\xd8\x09\x9f\xa4\xf5\xc6\x9d\xb0\x11\x90\xc5\x13\xa6\x53\x7a\x43\x82\x80\xf1\x3b\xa1\x93\x3a\x14\x8c\xa9\x55\xf2\x32\x1c\xfc\xf5\xd7\x20\x00\x57\x32\xb5\x4d\x26\xa9\x96\xc5\xda\x6f\xd8\x62\xc1\x7e\xdf\x0f\xb4\xd0\xb8\x77\x25\xfc\xa3\x96\x82\xae\x7e\xa1\x37\x0b\x68\xd7\x48\xee\x10\x9b\xd0\x11\x5f\xf2\x56\x3e\x03\xf0\xbe\xb2\x45\xf3\xdc\xb6\x87\x10\xfc\x36\x24\x01\xfa\x0b\xec\x5d\x59\xe9\x02\x24\x21\x48\xd5\x90\x1e\x8d\xb7\xaf\x52\x5c\xf1\x60\xc6\x28\xd6\x17\xc1\x83\x49\xab\x39\xcd\x4d\x21\x07\x51\x62\xda\x64\xa1\x09\xa4\x91\x0e\x58\x3b\xf6\xf6\xaf\x84\xd2\xdd\xfe\xc7\x8d\xbd\x08\x57\xd5\x5b\x34\x0e\x0a\x8f\xb4\xd6\xd8\xbb\x8d\x45\x25\xe8\x63\xd2\xa2\x12\xde\x5f\x32\xce\xde\x30\x9c\x85\x0a\x07\xf3\x9d\xa4\xe9\xae\x87\x47\xab\xf0\xd8\xe6\x43\x12\x33\xe2\x5c\xb9\xf5\xa7\x57\xa8\x27\x2b\x6e\x3b\x2d\x47\xc8\x1d\x78\x8f\x3b\x91\x05\xc3\xeb\xb4\x2a\x85\xa5\x56\x3a\x4e\x22\xd2\x25\x45\xb6\x69\x05\xb4\x09\xd5\x25\x04\x11\xac\x95\xbf\x60\x67\xa8\x4f\x3b\x6a\x6b\x17\xec\x5f\xff\x6e\x1c\x06\x1d\x47\xd7\x7c\x50\x90\xb4\x75\x2e\x28\x40\xdb\x07\x14\x9c\x7c\x95\x20\x31\xdc\x24\x2d\x71\x93\x4a\x78\x3d\xd6\xf1\xc9\x10\x76\xd2\x78\x1f\x18\x1f\x37\x0b\xef\x6d\xc2\x47\xd3\x5e\x9f\x8a\xac\x36\x30\x2d\x2b\xb7\x49\xc0\x22\xc2\x83\xd0\x48\xee\x27\xfd\x08\x8d\x02\xd4\x70\xb8\x3e\x5d\x47\xad\xad\x61\xa3\xcb\x50\x5d\x45\x3b\xd8\x62\x61\xbc\x33\x01\xf6\x45\xa8\x34\xff\x94\xd6\xfc\xd8\xdc\xad\x92\x5e\xf5\x6c\x2e\x68\x8d\x39\xfd\xb3\xd4\x1f\xc2\x8d\x8d\x77\x3d\x21\x91\xc3\x00\x20\x44\x50\xd1\x04\x6a\x90\xe6\x58\x7c\x2a\xab\xc7\x29\xda\x66\xe8\x7b\xe3\xd1\x29\xbf\xa7\x06\x18\xca\x32\x0d\x63\xa1\x4e\x6b\xb9\x93\xba\x49\xc7\x81\x91\x4e\x7a\x22\x7c\x12\x1f\xc2\x94\xad\x56\x7b\xd2\x7e\xc1\x8a\x4a\xe3\xef\xf7\x1d\xd6\x31\x71\x7a\x96\xbd\x41\xf6\xf4\x6f\x1a\x70\x57\xd1\xf0\x67\xba\xab\x68\xca\x27\x27\x6d\xe4\x03\x88\x5e\xec\x87\xb0\xc6\x74\x45\x69\x45\x41\x13\x56\xe9\x3d\xea\x26\x1a\x7c\xb8\x5d\x91\x43\xe1\x93\xd5\x0e\x19\x4f\x83\xd6\x04\x5d\xa6\x11\xd6\x5e\xbc\xa0\xb5\x72\x54\x8b\x42\x5d\xc6\x5c\x98\x93\xd8\xa6\x92\xa6\xe7\x03\x14\xb4\x3e\x11\xa1\xc1\x66\x5c\xe8\x31\x44\xef\x93\x49\x97\x28\x27\x2c\xf8\xbf\x7a\x2e\x8d\x12\xbc\x01\xe9\x5b\x04\xf9\x16\x45\xc6\x24\xe9\x68\x72\xde\x92\x93\x8e\xf3\x2c\x3e\x3c\x43\xd6\xca\x64\x95\x43\x83\x8a\x2e\x74\x0e\x1c\xcf\x4c\x17\xe3\xcf\x23\x27\xa9\x59\x17\x16\x20\xe2\x6d\x25\xbb\x01\xf2\xe4\x63\xcc\x49\x24\xfa\x51\x45\x95\x42\x3a\x14\xfe\x5d\xfc\x5e\xd5\xd9\xd4\x89\x7f\x59\xff\xfc\x6a\x55\x1c\x16\xbb\x8b\xe6\xf8\x19\xc7\x86\x9f\x41\x06\x6e\x91\xf9\xa3\xaf\x2d\xbf\xcd\xf8\xf3\x6c\xe9\x6a\xc3\xcd\x0a\x39\xf3\x7a\xd7\xfb\x48\x03\x39\x76\x1f\x06\x9a\x8b\x66\xde\x97\xa1\x9d\xd1\x88\x80\x57\xe8\xbe\xf8\x4d\x03\xd9\x7f\x2a\x3c\x76\xa2\x50\x87\x71\x4d\xf5\x34\x81\xee\xd9\x7d\x85\x7b\xc1\xda\xd0\x31\xd0\x45\x84\x4f\xb2\xc8\xc4\x59\xeb\x14\xcd\x3f\xd9\xe6\x82\xf6\xd6\x5f\x08\x2f\xc2\x78\xee\x3a\x81\xe3\xcf\x49\xd4\xe1\xba\xef\x66\xe9\x53\x45\xf1\x6c\x54\xe2\xeb\x7e\x2e\xe0\x0a\x93\x63\x4a\x6f\x67\x09\xfa\x6a\x00\x98\x70\x2f\xfc\x01\x53\x11\xfc\x6b\xbf\x2e\x50\x3d\x6b\x6d\xe1\xcf\x99\x89\x6e\x81\x58\xec\xd5\x56\x66\x32\x80\x17\x86\x5f\x2b\x81\x19\x80\xa1\x0f\xe9\xe1\xfd\xcd\x3b\x47\x93\x31\x4d\x85\xaa\x00\x74\x32\x8c\x94\xaa\xe8\x44\x51\xec\x63\x2c\xa2\xc8\x82\xfd\xe5\xa7\x38\x45\xf7\xb0\xa4\x31\xab\x3f\x44\xaa\x7c\xd4\xbe\x63\xaf\x0e\xe9\xda\x6f\xd8\x01\xa6\x41\xd3\xce\xeb\xb6\x1a\x87\x86\xe6\xe3\xc8\x49\x7e\xfe\x66\xf8\xfe\xd4\x66\xe3\x82\x26\x2c\xd2\x77\x0f\x96\x24\xbd\xf4\x68\x66\xa9\xf9\x2c\x5e\x62\xc3\x37\xbe\x78\xe7\xfd\x5f\x00\x00\x00\xff\xff\x29\x3a\x44\x0c\x72\x19\x00\x00"),
-			uncompressedSize:  6514,
+			compressedContent: []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xac\x58\x5b\x8f\xe3\xb6\xf5\x7f\xf7\xa7\x38\xcb\x5d\xfc\x57\xc6\x58\xd2\x3f\x01\xfa\x32\xb1\x5d\x4c\xb2\x69\x31\x6d\x92\x0d\x32\xb3\x29\xd0\xa2\x0f\xb4\x74\x6c\x71\x96\x26\x15\x92\xb2\xc7\x55\xfc\xdd\x8b\x43\x8a\x92\x7c\x99\xcd\x26\xe8\x78\x1e\x24\xea\xf0\x5c\x7e\xe7\x4a\xb6\x6d\x89\x6b\xa1\x10\xd8\xa3\x70\x12\xd9\xf1\xf8\x68\x78\x81\x16\x52\xe0\x75\x5d\x72\x5b\xb5\x2d\xaa\xf2\x78\x9c\x4c\x06\xd2\xef\xb9\x50\x8c\x96\xe6\xaf\xd2\x14\x1e\xdc\x41\x0a\xb5\x81\xb5\x36\xe0\x2a\x04\xb1\xad\xb5\x71\xe9\x93\xd5\x0a\x56\x8d\x73\x5a\xc1\xff\xc1\x16\x55\x03\x69\xba\x9c\xcc\xad\x3b\x48\x5c\x4e\x00\x5e\x3b\x5d\xa7\x46\x6c\x2a\x97\xae\x9c\xb2\xd0\x4e\x00\x00\xb6\xdc\x6c\x84\x4a\x9d\xae\x6f\xe1\xcb\x3f\xd5\xcf\x5f\x4d\x00\x8e\x13\x80\x3c\x87\xf7\xeb\xb5\x45\xd7\xcb\x29\x2a\x2c\x3e\xae\xf4\x33\xac\xb0\xe0\x8d\x45\x10\xee\xad\x05\xa5\x1d\xf0\xc2\x35\x5c\xca\x03\xec\xd0\x38\x51\xf8\x47\x2e\xc5\x46\x61\x09\x7b\xe1\xaa\xc0\x8e\x74\x75\xf8\xec\xb2\x09\x40\xe6\xc8\xea\xb4\x67\x19\x74\xc9\x73\x78\xac\x84\x85\x52\xa3\x55\x6f\x1d\xac\xc5\xb3\x97\x2c\xac\x6d\xf0\xb6\x23\x89\x32\x52\x2f\xe1\x16\xb6\xa2\x2c\x25\x92\xda\x00\xb5\xb6\xc2\x09\xad\x6e\xc1\xa0\xe4\x4e\xec\xba\xf5\x60\x5d\x34\x6e\x9e\x77\x98\x04\x3c\x1f\x75\x9d\xfe\x44\xb0\xc0\xf7\x3d\x68\xa5\xd8\x41\x21\xb9\xb5\x0b\xb6\x72\x2a\xdd\x18\xdd\xd4\x50\x37\x52\x06\x00\x19\x18\x2d\x71\xc1\xfc\x3a\x03\x6e\x04\x4f\x25\x5f\xa1\x5c\xb0\x2c\xcb\x18\x88\x72\xc1\x4e\xd1\x66\xe4\x01\x2f\xee\xde\xbb\x0b\xfe\xf6\xf0\xfe\x87\xe8\x2e\x12\x09\x30\xef\xde\x06\xb9\x40\xb2\x4b\x5c\xf3\x46\x3a\x06\xee\x50\xe3\x82\x05\xa2\x20\x62\xe4\x79\xe6\xed\x2c\xb9\xe3\xa9\xd3\x9b\x0d\x29\x57\x68\x29\x79\x6d\x91\x75\xcb\xdc\x6c\xd0\x2d\xd8\xeb\xd1\xae\x94\xc2\x24\x6c\x75\x14\x8e\x91\x65\xd0\xce\xfb\xc8\x42\x29\x0c\x16\x4e\x1e\x40\x28\xa7\xe1\x2e\x44\x29\x5b\x8e\xec\x98\xe7\x41\xab\xe5\x24\x1a\xd9\x05\xb5\xae\xc9\x1b\x76\x88\xc6\xc1\xca\x53\x6b\xae\xdb\x0c\xa5\xd1\x75\xa9\xf7\xaa\xb3\x89\x9d\x1a\x18\xbf\x76\x0e\xc0\xe7\x9a\xab\x12\xcb\x05\x5b\x73\x49\x66\x77\x26\xed\x04\xee\x7b\x4d\x28\x98\xb7\x8d\x74\xa2\x96\x08\x16\x25\x16\x0e\xcb\xce\x52\xef\x23\x88\xba\xcf\x6d\xcd\x7b\x67\x14\xdc\xa0\x63\xcb\x79\x4e\x8b\x44\x36\x98\x0c\x30\x6f\x64\xa4\xeb\x15\x26\x8b\x63\x94\xf8\x67\x22\x04\x98\x4b\xb1\x9c\x73\xa8\x0c\xae\x17\xec\x75\x0c\x14\xb2\x2d\x0d\xca\x08\xad\x7a\xc5\xc3\x4a\x5e\x62\x78\x00\x2e\x65\xaf\xe9\xa3\xc7\x00\x1e\xe2\xa6\x79\xce\x97\xf3\x5c\x8a\x13\x31\xc4\x1d\x9f\xc9\x4d\xa9\xd3\xde\xe1\x3d\xef\x42\xd7\x07\x9f\x5b\x67\x18\x80\xd3\x7e\xb9\x90\xa2\x5e\x69\x6e\x4a\xe0\xd6\xfb\xd8\x43\xcf\x96\xdf\x7a\x76\x9d\x5c\x2c\xaf\x8a\x3d\xb1\x8e\x6f\x36\x06\x37\xdc\x61\x4a\x7e\xe8\xe5\xd3\x8b\x17\xd4\x7f\x2f\xbd\x04\xd0\xeb\x6b\x6a\xb1\xe5\x5d\xa4\x83\x9f\x05\xee\xc7\x72\xe7\x79\x23\x97\x93\x79\x5e\x8a\x5d\x4c\xe9\x9a\x6f\x30\x48\x0a\x35\xb0\xfa\x62\x19\xbc\x3a\xcf\xab\x2f\x96\x54\x5a\x1d\x6e\x6b\xc9\x1d\x02\x0b\x71\x1c\xec\x62\x50\x8a\xc2\x01\xbb\x7f\xc7\x60\x9c\x5d\x21\x4f\x80\xdd\x75\x0e\xea\x36\x79\x60\x58\x2c\xe5\x91\x15\xf0\x51\xfa\xc0\xea\x00\x35\xb7\x8e\x0a\xb6\x70\xb0\x42\xa9\xf7\xb7\x43\x2d\x7f\xc4\x67\x77\x67\x90\x43\xa2\xb4\x4a\xff\x22\xb9\xad\xa6\xb0\xe6\x52\xae\x78\xf1\xd1\x57\xde\x6f\x74\x7d\xb8\xf9\x91\x5b\x87\x04\xcd\x38\x2f\xc9\xb2\xcf\x32\x04\x9f\x2f\x0c\x89\x1a\x7f\xb0\x08\x85\x33\xf2\xa6\x00\x6d\xa0\xd0\xdb\x2d\x57\xe5\x4d\x41\x51\xd0\x47\xc8\x58\xe6\x58\xff\x21\xea\xa5\xb0\x2e\x6d\x94\xaf\xaa\xa5\xcf\xa2\xb6\x35\x5c\x6d\x10\xb2\x00\xfb\x91\x3a\x0a\x40\xdb\x8a\x35\x24\xd4\x1f\xe0\x4d\xf6\xb3\xb0\x62\x25\x11\xb2\x69\xf7\x35\xc4\x4f\xf7\x08\x30\x17\xaa\x6e\x5c\x57\x27\x62\xa3\xe8\x2b\xc5\x69\xff\x60\xe0\x9f\x28\xf7\x0f\x68\x59\xcf\x83\x22\x2a\xd8\xed\xe9\x17\xac\x6d\xb3\x07\x67\x84\xda\x1c\x8f\x5d\xb6\xd3\x7f\x1f\xb3\x6d\xdb\x18\xf9\xa8\xbd\xd2\x90\x3d\xd4\x5c\x65\xf7\xef\x82\x0d\xb4\xa1\x6d\xcf\xd7\x28\x0e\x27\x03\x9f\x01\x92\x18\xb6\xfd\x37\x6f\xdd\xc9\xd7\x90\xfd\x54\x50\xd2\x11\x63\x12\x7a\xa2\x5c\x0f\x5c\xf6\x03\xdf\x62\x8f\x55\xc7\xd3\x3a\xa3\xd5\x26\x66\x55\xdb\x66\xf7\xef\x3a\x4d\x03\x35\xf5\x3a\xa2\x38\xe7\x87\xd2\xfe\x0e\x5e\xbd\x5e\x2f\xb2\x0b\x23\xcb\xa5\xce\x64\x4e\x76\xa7\x94\x76\x9c\x52\x27\x46\x42\xfc\x9b\x3b\x4e\x31\x10\x61\xf1\x2f\x7e\x29\x2d\xb4\x2a\x51\x59\x2a\x4c\xfe\xdd\x3a\x23\x6a\x2c\xcf\x80\x19\x22\x2d\x59\x0b\xe9\xd0\x8c\x44\x5d\x0a\x1f\x22\x6d\xf8\x0b\x6a\x86\xdc\xe1\xca\x5d\xa1\x20\x2d\xcd\x72\xee\xaa\x65\xdb\x66\x7f\xc7\x03\x81\xea\xaa\xe5\xdc\x95\xcb\xb6\xb5\xce\x40\xf6\x33\x97\x0d\xfa\xe5\x72\x39\xcf\x9d\x39\xd7\x71\x40\xe8\xb7\x57\xe7\xb9\xb7\x7f\x39\xf9\x34\xe1\x50\x74\xe9\x17\x4a\xe0\xf9\x97\x61\x57\x7c\x0a\x74\x93\xb9\x2d\x8c\xa8\x63\x6e\xd1\x4c\x96\x3f\xf1\x1d\x0f\xab\x1e\xe1\x3c\x87\xaf\x85\x2a\x85\xda\xd8\xab\x73\x26\x95\x11\x9a\xe3\x92\x75\xa3\x7c\x4d\x4c\xa6\xdd\x3c\x99\xe7\x70\xaf\x84\x13\x5c\x8a\xff\x20\xd5\x11\xbe\xd3\xa2\x04\x5b\xe9\x3d\xd5\x40\xad\x60\x2d\x8c\x75\x90\xc5\xf1\x24\x61\x95\x28\x91\x4d\x81\xea\x02\xf1\x04\x78\x93\xb0\xd7\x17\x45\x6b\x3a\xec\x68\x43\xcb\xbc\xa5\x4a\x69\xf1\x38\xfd\xaa\xdf\x25\xb6\xbf\x67\x57\x54\xf8\x1f\x15\x2a\x5f\xea\xce\x85\x82\xb0\x5e\x73\x05\x7b\x84\x3d\x57\x8e\x0c\x22\x75\x47\x80\x40\x0f\x48\x64\x67\x35\x08\x07\x8e\x7f\x44\x0b\xc2\x59\xa8\x25\x2f\xf0\x93\x96\x69\x95\xbc\x25\x39\xd9\xca\xf6\xfa\xbe\x9d\x41\x04\x17\x7a\x74\x3f\xc7\xce\x0e\xcf\x00\xca\x71\x1a\xb5\xba\x53\x25\xec\x44\x81\xe9\x0e\x8d\xe5\xbd\x57\xb5\xab\xd0\x74\x83\xe8\xed\x35\x1c\x89\xb5\x14\xc5\xc7\x4b\x57\x7f\xc2\xa0\x97\x94\x19\x30\xff\x50\xd3\xa8\xab\xb7\xb5\x44\x6f\xa2\x5e\x8f\x31\x5d\x6b\xb3\x9d\x11\xe8\x3f\xbe\x7f\x78\x3c\xeb\x42\x61\x4e\x68\x6a\x70\x3a\x32\x23\x02\x96\xfb\xaf\x36\x6f\x6a\xa9\x79\xc9\xe0\xc3\x4f\xdf\x01\x57\x25\x1d\x05\x34\x2f\x3d\x93\x30\x17\x68\x28\x85\xad\x25\x0f\x03\x90\xa2\x41\xc4\x9c\x78\xe8\x1c\x5d\xc8\xb8\xb7\xfc\x53\x50\xd0\xd9\xc5\x88\x2d\xec\x2b\xe1\xd0\xd6\xa4\xa7\xd3\x80\xca\x36\x06\xbd\x9c\xc6\xa2\xf1\xa3\x00\x96\x60\xf5\x16\x5d\x45\xf9\x90\xd4\xb2\xb1\xb3\x6e\xe4\x31\x3b\x34\x03\xbb\x78\x0a\xa2\xd9\x13\xf8\x4a\x37\x6e\xc4\x7c\x9a\x75\x84\x3b\x6e\x02\x20\x8b\x17\x54\xa7\xf4\xe6\x06\x39\x9b\x66\x3b\x2e\x93\xce\x15\x00\x62\x9d\xbc\xf2\x1b\x7f\xfd\xd5\x33\xc8\x9c\x11\xdb\x64\x9a\x49\x54\x1b\x57\xc1\x62\x01\xff\x3f\x76\x34\x97\x68\x5c\xc2\x7e\x94\xc8\xe9\xe8\xe7\x7b\x33\x87\x1d\x97\xa2\x0c\xbe\xf1\x5d\xf2\x55\x74\x35\xfd\x0c\xba\xc6\xa8\xf8\xde\xb7\x07\xef\xfc\xde\x25\xde\x69\x33\x30\xb8\x36\x68\x3d\x24\xde\x49\xcd\x69\x78\x44\x6b\xdf\x64\xb5\xb6\x2e\x61\xa7\xae\x9e\x79\x03\xa6\x1d\x0d\x40\x56\x6a\x85\x27\x4e\x02\xa9\x0b\xdf\x03\xb2\x10\x0d\xc9\x34\x66\x06\xfd\xb2\x35\x17\x72\xa0\x7f\xae\xcc\x0c\x08\xb6\x07\xc7\x1d\x79\x07\x8d\xd1\xe6\xb1\x32\x7a\xaf\xc6\x90\xf4\xa0\xf8\xef\xb7\xc0\xe0\x06\x9e\x2b\x93\x19\xb4\xb5\x56\x16\x69\xb8\x1b\xc1\xd1\x0b\x8c\x05\xeb\x38\x25\x6f\xbc\x50\x6d\xdd\xe5\x09\xea\xc5\x82\xdb\x0f\xcb\x01\x71\x0b\x5c\x01\x37\x86\x1f\xe2\x34\x5d\x73\x43\x9d\xf4\x3c\x87\xa8\x06\x20\x2f\xaa\x7e\xda\xee\xf3\x69\xc8\x07\x8a\xaf\x9e\xff\x02\x2e\xc4\x07\x8a\x4e\xdb\x05\xfc\xeb\xdf\xd1\xe0\x37\x09\x3b\x3b\xe5\xb3\x69\x46\xd2\x06\x13\xc4\x0c\x70\xe0\xe3\x43\xf2\x4d\xe2\x2a\x61\xa7\x59\x6d\x74\x9d\xb0\x6e\xaa\x63\xd3\x31\x55\x90\xf8\xe4\x03\x3e\x10\x73\xe7\x4c\xc2\xce\x86\xbd\x71\x24\x42\xa7\x60\x56\x37\xb6\x4a\xde\x64\x1e\x0f\x42\x23\x79\x9a\x8e\xc8\x8e\x67\x0e\x8a\x21\xdc\xed\xee\xbc\xd6\x97\xb0\xb3\xb3\x50\x57\x44\x07\xd8\x42\x5d\x7c\xd4\x24\x08\x16\xbe\xd0\xfc\x13\x8d\xfe\x26\x1e\xad\x92\x51\xf1\x8c\xe7\xb3\xa8\xce\x78\x6f\xa6\x55\xc2\x68\x1c\x67\x43\x4b\x48\x46\xc0\x75\x2e\x82\x45\xef\xa8\x93\x2c\xb7\x28\x5f\x4a\xea\xf3\x0c\xed\x13\xf4\x07\xed\xf0\x16\xbe\xa4\xfe\x47\xf1\x23\x68\x16\x23\xb1\x20\x71\x87\x5d\x97\x3e\x53\xd2\xa2\xa3\x80\x4f\xc2\x8b\x1f\xb2\xc5\xfa\x90\x58\x94\x33\x50\x8d\x94\x33\xf8\x72\xc0\x3a\x24\xce\x48\xb3\x1b\x60\xa3\xf0\xb4\x50\xe8\x5a\xd0\xec\xa7\x87\x93\x68\xc6\xa6\x17\x5d\xe4\xbd\x02\xae\x0e\xa7\xb0\x82\x4f\x47\x48\x6a\x23\xb6\xdc\x08\x79\x80\x3d\xf5\x77\x7f\xb8\x22\x83\xfc\x8d\xd5\x8e\x0b\x49\x73\xd6\x14\xf6\x18\x99\xf5\xe7\x2e\xa7\xa1\xb1\x54\x8a\xc8\x76\xeb\xb8\x2a\xe9\x20\x1c\x0b\x69\x76\xdd\x41\x5e\xea\x0b\x1e\x3a\x21\x2e\x91\x66\xe8\x43\x32\x9d\x5c\xb4\x50\xa7\xff\x17\x2d\x97\x26\x09\x16\x41\xfa\xad\x00\xf9\xad\x10\x39\x0f\x92\x21\x4c\xae\x6b\x72\xd1\x70\x3e\x2b\x1e\x3e\x83\xd7\x5a\x17\x8d\x4d\xa6\x59\x30\x61\x30\x60\xa8\xa6\x43\x58\x9c\xdf\x8e\x5c\xa4\x66\x57\x58\x60\x01\xce\x34\xdd\x25\x21\x69\x70\x71\x17\x73\xe1\x89\xb1\x57\xb3\xda\xe0\x0e\x95\x7b\x17\xae\xab\x06\x9d\x06\xf6\xaf\xba\xc7\x4f\x56\xc5\xd3\x62\x37\x8b\xdb\xaf\x18\x76\x7a\x0b\x72\x62\x16\xa9\x7f\x76\xd9\xf2\xc7\x94\xbf\x1e\x2d\xdd\x47\x1a\xef\xd7\xb0\xc7\xb7\xbb\xd1\x1d\x0d\xee\xd0\x1c\xfc\x3c\x33\x8b\xe3\x3e\xfa\x76\x06\x9c\xae\x84\x0f\x20\xe9\x5c\x49\xf3\xd8\x2f\x0d\x9a\xc3\xc0\xaa\xe6\x86\x6f\xd1\xa1\xa1\x6b\x92\xa7\xc6\x3a\xd8\x68\xda\x66\x9d\xe1\x74\xcf\x4a\xf9\x9f\xf7\x46\xd1\xf8\x53\x54\x33\xa2\xed\x2e\x08\x67\x7e\x3a\xb7\x03\xc3\xf3\xdb\x24\xea\x70\xc3\xb5\x59\x36\x79\x21\xe2\xaf\x7a\x25\x54\xa6\x01\x31\x80\xbd\x50\xa5\xde\x67\xfd\x2c\x41\x17\x5d\xb0\x80\xb6\xcd\xbe\xe6\x16\x3f\xfc\xf4\x5d\x7f\xb9\x00\x37\xc0\x7a\x5d\xd8\x57\x93\xeb\xb9\x34\x1e\x89\x1e\x50\x75\x33\xaa\xc1\x02\x3d\x78\x7e\xf6\x35\xf8\x4b\x83\xd6\xf9\x7b\x74\xff\xfd\xfe\x9d\xa5\xc1\x98\x86\x42\xa1\x1c\x1a\xb4\xd4\x7b\x84\x1a\x58\x91\xef\x83\x2f\x02\x4b\x05\x7f\xfd\x36\x0c\xd1\x23\x2c\x69\xca\x8a\x78\x90\xc7\x45\x79\xd6\xbe\x43\xaf\xf6\xe5\xbb\x8f\x1f\x31\x0b\xad\x70\x0c\x8a\x28\xbb\xb6\xea\xbf\xf4\x77\x23\x17\xf9\xf9\x87\xe1\xfb\x73\x9f\x8d\x0b\x9a\xb0\x48\xde\x93\x16\x2a\x06\x2c\xe5\x7d\x9c\xa5\xe6\x79\x38\xc3\x2e\x27\x93\xb6\x45\x55\x1e\x8f\x93\xff\x0e\x00\xc7\xc8\x68\x13\x71\x19\x00\x00"),
+			uncompressedSize:  6513,
 		},
 	}
 
-- 
2.43.0


From b38f87ac0b02fde058eae2d44f13f72e39dead1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:55 +0000
Subject: [PATCH 31/48] fix: static files were not found when the UI is served
 below a prefix

---
 traceapp/app.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/traceapp/app.go b/traceapp/app.go
index dfdfabc..0b4c163 100644
--- a/traceapp/app.go
+++ b/traceapp/app.go
@@ -96,8 +96,12 @@ func New(r *Router, base *url.URL) (*App, error) {
 	r.r.Get(DashboardDataRoute).Handler(handlerFunc(app.serveDashboardData))
 	r.r.Get(AggregateRoute).Handler(handlerFunc(app.serveAggregate))
 
-	// Static file serving.
-	r.r.Get(StaticRoute).Handler(http.StripPrefix("/static/", http.FileServer(static.Data)))
+	// Static file serving. The route may be that of a subrouter with a prefix.
+	prefix := "/static/"
+	if u, err := r.URLTo(StaticRoute); err == nil {
+		prefix = u.Path
+	}
+	r.r.Get(StaticRoute).Handler(http.StripPrefix(prefix, http.FileServer(static.Data)))
 
 	return app, nil
 }
-- 
2.43.0


From cef9a08e3cbc7a48a73d24bcb6a747febf338c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:55 +0000
Subject: [PATCH 32/48] fix: LimitStore keeps a trace whose deletion failed in
 its set

A trace that could not be deleted is still held by the underlying store; it
was forgotten all the same, so that the next collection for it evicted it
together with its data, and the one after counted it twice.
---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 29c2032..8456b82 100644
--- a/store.go
+++ b/store.go
@@ -538,10 +538,10 @@ func (ls *LimitStore) Collect(id SpanID, anns ...Annotation) error {
 		// Store is at capacity (we know this because the next insert
 		// slot already contains trace); delete oldest.
 		old := ID(ls.ring[ls.nextInsertIdx])
-		delete(ls.traces, old)
 		if err := ls.DeleteStore.Delete(old); err != nil {
 			return err
 		}
+		delete(ls.traces, old)
 	}
 	ls.traces[id.Trace] = struct{}{}
 	ls.ring[ls.nextInsertIdx] = int64(id.Trace)
-- 
2.43.0


From c2522862bb838b3ca90d1415ff1f6718731450e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:55 +0000
Subject: [PATCH 33/48] fix: RecentStore tries again to delete traces whose
 deletion failed

They were forgotten before the deletion was attempted, so that a single
failure of the underlying store let them stay for ever.
---
 store.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 8456b82..3f25853 100644
--- a/store.go
+++ b/store.go
@@ -473,7 +473,6 @@ func (rs *RecentStore) evictBefore(t time.Time) {
 	for id, ct := range rs.created {
 		if ct < tnano {
 			toEvict = append(toEvict, id)
-			delete(rs.created, id)
 		}
 	}
 	if len(toEvict) == 0 {
@@ -489,7 +488,12 @@ func (rs *RecentStore) evictBefore(t time.Time) {
 	func() {
 		deleteStart := time.Now()
 		if err := rs.DeleteStore.Delete(toEvict...); err != nil {
+			// They are kept in rs.created, for the next eviction to try again.
 			log.Printf("RecentStore: failed to delete traces: %s", err)
+		} else {
+			for _, id := range toEvict {
+				delete(rs.created, id)
+			}
 		}
 		if rs.Debug {
 			log.Printf("RecentStore: finished deleting %d traces created before %s (took %s)", len(toEvict), t, time.Since(deleteStart))
-- 
2.43.0


From cc11fa5ba5bd8c4895bc018b4dd3a48a97b36bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:55 +0000
Subject: [PATCH 34/48] fix: sampleData reports errors of the collector

Recorders collect when they are finished, so checking their errors before that
never found any: appdash send reported success when nothing could be sent.
---
 cmd/appdash/sample_data.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/appdash/sample_data.go b/cmd/appdash/sample_data.go
index bfc44e4..942a00d 100644
--- a/cmd/appdash/sample_data.go
+++ b/cmd/appdash/sample_data.go
@@ -51,6 +51,9 @@ func sampleData(c appdash.Collector) error {
 			Tag:        fmt.Sprintf("fakeTag%d", rand.Intn(10)),
 		})
 		traceRec.Finish()
+		if errs := traceRec.Errors(); len(errs) > 0 {
+			return fmt.Errorf("recorder errors: %v", errs)
+		}
 
 		// We'll split the trace into N (3-7) spans (i.e. "N operations") each with
 		// a random duration of time adding up to the length of the trace.
@@ -83,13 +86,13 @@ func sampleData(c appdash.Collector) error {
 			// Shift the start time forward.
 			startTime = startTime.Add(spanDuration)
 
+			lastSpanID = spanID
+			rec.Finish()
+
 			// Check for any recorder errors.
 			if errs := rec.Errors(); len(errs) > 0 {
 				return fmt.Errorf("recorder errors: %v", errs)
 			}
-
-			lastSpanID = spanID
-			rec.Finish()
 		}
 	}
 	return nil
-- 
2.43.0


From ed6e31d4464daaa497b5ec80077baf6865ba8525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:55 +0000
Subject: [PATCH 35/48] fix: the Python socket collector connects a given
 socket to the given address

socket.connect needs the address; without it a collector with a socket of its
own could never be connected.
---
 python/appdash/sockcollector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/appdash/sockcollector.py b/python/appdash/sockcollector.py
index 8192301..b7b17d8 100644
--- a/python/appdash/sockcollector.py
+++ b/python/appdash/sockcollector.py
@@ -42,7 +42,7 @@ class RemoteCollector:
         if self.sock is None:
             self.sock = socket.create_connection((host, port), timeout=timeout)
         else:
-            self.sock.connect()
+            self.sock.connect((host, port))
 
     # collect collects annotations for the given spanID.
     #
-- 
2.43.0


From c50c14ce96e26a08ac5318eb81ca847fa86fd5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:55 +0000
Subject: [PATCH 36/48] fix: the Python socket collector gives up a connection
 after a failed send

A message may have been sent in part, e.g. before a timeout. What a program
that went on collected then was sent behind that part without an error, and
lost, since the server could not make sense of it.
---
 python/appdash/sockcollector.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/python/appdash/sockcollector.py b/python/appdash/sockcollector.py
index b7b17d8..9fdac58 100644
--- a/python/appdash/sockcollector.py
+++ b/python/appdash/sockcollector.py
@@ -55,14 +55,21 @@ class RemoteCollector:
         buf = encode._msg(packet)
 
         totalSent = 0
-        while totalSent < len(buf):
-            sent = self.sock.send(buf[totalSent:])
-            if sent == 0:
-                raise RuntimeError("socket connection broken")
-            totalSent = totalSent + sent
+        try:
+            while totalSent < len(buf):
+                sent = self.sock.send(buf[totalSent:])
+                if sent == 0:
+                    raise RuntimeError("socket connection broken")
+                totalSent = totalSent + sent
+        except Exception:
+            # The server may have received a part of the message, so it could
+            # not make sense of anything sent after it on this connection.
+            self.close()
+            raise
 
     # close closes the underlying socket.
     def close(self):
-        self.sock.close()
-        self.sock = None
+        if self.sock is not None:
+            self.sock.close()
+            self.sock = None
 
-- 
2.43.0


From 70d9bb7166e26b2f91bc742740c638466e39fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:55 +0000
Subject: [PATCH 37/48] fix: each Python Twisted collector has a queue of its
 own

The queue was an attribute of the class, so several collectors sent each
other's spans.
---
 python/appdash/twcollector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/appdash/twcollector.py b/python/appdash/twcollector.py
index 5541063..ad13208 100644
--- a/python/appdash/twcollector.py
+++ b/python/appdash/twcollector.py
@@ -32,11 +32,12 @@ class RemoteCollectorFactory(ReconnectingClientFactory):
     _reactor = None
     _debug = False
     _remote = None
-    _pending = []
+    _pending = None
 
     def __init__(self, reactor, debug=False):
         self._reactor = reactor
         self._debug = debug
+        self._pending = []
 
     def _log(self, *args):
         if self._debug:
-- 
2.43.0


From 6e786e6fa551eaf327db409bc90f187549a2db91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:55 +0000
Subject: [PATCH 38/48] fix: the Python Twisted collector keeps spans while it
 is not connected

After the connection was lost the pending spans were written to it all the
same, and so lost, until there was a new one.
---
 python/appdash/twcollector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/appdash/twcollector.py b/python/appdash/twcollector.py
index ad13208..778eee5 100644
--- a/python/appdash/twcollector.py
+++ b/python/appdash/twcollector.py
@@ -18,6 +18,8 @@ class CollectorProtocol(Protocol):
 
     def connectionLost(self, reason):
         self._factory._log("disconnected.", reason.getErrorMessage())
+        if self._factory._remote is self:
+            self._factory._remote = None
 
     def dataReceived(self, data):
         self._factory._log('got', len(data), 'bytes of unexpected data from server.')
@@ -57,7 +59,7 @@ class RemoteCollectorFactory(ReconnectingClientFactory):
     # after connection has been made with the remote server. It writes all the
     # pending messages out to the remote.
     def __flush(self):
-        if len(self._pending) == 0:
+        if self._remote is None or len(self._pending) == 0:
             return
 
         self._log("flushing", str(len(self._pending)), "messages")
-- 
2.43.0


From f5813a41a77cc3547065579480882795f49a0ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:55 +0000
Subject: [PATCH 39/48] fix: the Python recorder records baggage

Recording a span with baggage failed with an AttributeError.
---
 python/appdash/recorder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/appdash/recorder.py b/python/appdash/recorder.py
index d86a6de..5690cd0 100644
--- a/python/appdash/recorder.py
+++ b/python/appdash/recorder.py
@@ -36,5 +36,5 @@ class AppdashRecorder(SpanRecorder):
 
         if span.context.baggage is not None:
             for key in span.context.baggage:
-                self._collector.collect(span_id, Annotation(key, span.contex.baggage[key]))
+                self._collector.collect(span_id, Annotation(key, span.context.baggage[key]))
 
-- 
2.43.0


From 983326c630ea8cd6d3762ad35111da5538c27378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:55 +0000
Subject: [PATCH 40/48] fix: the Python recorder records tags that are not
 strings

Recording a span with a numeric tag failed with a TypeError.
---
 python/appdash/recorder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/appdash/recorder.py b/python/appdash/recorder.py
index 5690cd0..864d69e 100644
--- a/python/appdash/recorder.py
+++ b/python/appdash/recorder.py
@@ -32,7 +32,7 @@ class AppdashRecorder(SpanRecorder):
 
         if span.tags is not None:
             for key in span.tags:
-                self._collector.collect(span_id, Annotation(key, span.tags[key]))
+                self._collector.collect(span_id, Annotation(key, str(span.tags[key])))
 
         if span.context.baggage is not None:
             for key in span.context.baggage:
-- 
2.43.0


From 2beb89c0d34c9d2fff78cd6210649c495accd436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:01 +0000
Subject: [PATCH 41/48] fix: the Python HTTP events have the annotations of the
 Go ones

The names of the annotations were not those that httptrace unmarshals, the
response overwrote the request, and the headers were one annotation, so the
collected events were empty for the server.
---
 python/appdash/event.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/python/appdash/event.py b/python/appdash/event.py
index fee99c5..3f2b48e 100644
--- a/python/appdash/event.py
+++ b/python/appdash/event.py
@@ -113,12 +113,13 @@ class SQLEvent:
 # _flattenReqRes flattens the request or response info dictionary. It has very
 # defined functionality primarily to avoid code duplication four times below in
 # marshaling of HTTP events.
-def _flattenReqRes(reqRes, into):
+def _flattenReqRes(prefix, reqRes, into):
     for k, v in reqRes.items():
         if k == "Headers":
-            into["Request.Headers." + k] = str(v)
+            for name, value in v.items():
+                into[prefix + ".Headers." + name] = str(value)
         else:
-            into["Request." + k] = str(v)
+            into[prefix + "." + k] = str(v)
     return into
 
 # HTTPServerEvent represents a HTTP event where a client's request was served.
@@ -184,13 +185,13 @@ class HTTPServerEvent:
 
     def marshal(self):
         d = {
-            "Route": self.route,
-            "User": self.user,
-            "ServerRecv": self.serverRecv,
-            "ServerSend": self.serverSend,
+            "Server.Route": self.route,
+            "Server.User": self.user,
+            "Server.Recv": self.serverRecv,
+            "Server.Send": self.serverSend,
         }
-        d = _flattenReqRes(self.requestInfo, d)
-        d = _flattenReqRes(self.responseInfo, d)
+        d = _flattenReqRes("Server.Request", self.requestInfo, d)
+        d = _flattenReqRes("Server.Response", self.responseInfo, d)
         return d
 
 # HTTPClientEvent represents a HTTP event where a outbound request to a server
@@ -247,10 +248,10 @@ class HTTPClientEvent:
 
     def marshal(self):
         d = {
-            "ServerRecv": self.serverRecv,
-            "ServerSend": self.serverSend,
+            "Client.Recv": self.serverRecv,
+            "Client.Send": self.serverSend,
         }
-        d = _flattenReqRes(self.requestInfo, d)
-        d = _flattenReqRes(self.responseInfo, d)
+        d = _flattenReqRes("Client.Request", self.requestInfo, d)
+        d = _flattenReqRes("Client.Response", self.responseInfo, d)
         return d
 
-- 
2.43.0


From fa29649e7fd5fb11b6ac77591b6f42f5996e3dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:07 +0000
Subject: [PATCH 42/48] fix: events with fields of named types, and maps with
 keys that are not strings, are decoded

A field of a type such as 'type Method string', or a map with keys of a
named or an integer type, made UnmarshalEvent panic; so did a map of values
that cannot be parsed from one annotation.
---
 reflect.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/reflect.go b/reflect.go
index 389dc8d..b5ca450 100644
--- a/reflect.go
+++ b/reflect.go
@@ -88,10 +88,13 @@ func parseValue(as reflect.Type, s string) (reflect.Value, error) {
 	if err != nil {
 		return reflect.Value{}, err
 	}
+	if !vp.IsValid() {
+		return reflect.Value{}, fmt.Errorf("can't parse a value of type %s", as)
+	}
 	if as.Kind() == reflect.Ptr {
-		return vp, nil
+		return vp.Convert(as), nil
 	}
-	return vp.Elem(), nil
+	return vp.Elem().Convert(as), nil // as can be a named type
 }
 
 func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
@@ -267,7 +270,11 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 			if err != nil {
 				return err
 			}
-			m.SetMapIndex(reflect.ValueOf(strings.TrimPrefix(key, keyPrefix)), vv)
+			mk, err := parseValue(t.Key(), strings.TrimPrefix(key, keyPrefix))
+			if err != nil {
+				return err
+			}
+			m.SetMapIndex(mk, vv)
 			*kv = (*kv)[1:]
 			found++
 		}
-- 
2.43.0


From b1423ff56cf1bc1e959820d149676f742ab2f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:09 +0000
Subject: [PATCH 43/48] fix: optional structs and times of events are decoded

UnmarshalEvent panicked at a field that is a pointer to a struct or an
interface, and pointers to times and durations were written in a form that
it cannot read.
---
 reflect.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/reflect.go b/reflect.go
index b5ca450..ab09610 100644
--- a/reflect.go
+++ b/reflect.go
@@ -23,6 +23,9 @@ func flattenValue(prefix string, v reflect.Value, f func(k, v string)) {
 		ms := float64(o.Nanoseconds()) / float64(time.Millisecond)
 		f(prefix, strconv.FormatFloat(ms, 'f', -1, 64))
 		return
+	case *time.Time, *time.Duration:
+		flattenValue(prefix, v.Elem(), f)
+		return
 	case fmt.Stringer:
 		f(prefix, o.String())
 		return
@@ -220,8 +223,20 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 
 	switch t.Kind() {
 	case reflect.Ptr:
+		if v.Type() == t && v.IsNil() {
+			// an optional value, which is there
+			vv := reflect.New(t.Elem())
+			if err := unflattenValue(prefix, vv.Elem(), t.Elem(), kv); err != nil {
+				return err
+			}
+			v.Set(vv)
+			return nil
+		}
 		return unflattenValue(prefix, v, t.Elem(), kv)
 	case reflect.Interface:
+		if v.Kind() == reflect.Interface && v.IsNil() {
+			return nil // no telling what type to decode
+		}
 		return unflattenValue(prefix, v.Elem(), v.Type(), kv)
 	case reflect.Bool, reflect.Float32, reflect.Float64,
 		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-- 
2.43.0


From 771e0321c896abb87555510775a4cdc522ea7ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:12 +0000
Subject: [PATCH 44/48] fix: no index in an annotation's key makes
 UnmarshalEvent panic

---
 reflect.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reflect.go b/reflect.go
index ab09610..8eef53a 100644
--- a/reflect.go
+++ b/reflect.go
@@ -187,6 +187,10 @@ func parseValueToPtr(as reflect.Type, s string) (reflect.Value, error) {
 	return reflect.Value{}, nil
 }
 
+// maxSliceLen is the most elements that a slice can have when it is decoded.
+// The indexes are part of the annotations' keys, which can come from anywhere.
+const maxSliceLen = 1 << 20
+
 func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]string) error {
 	if !sort.IsSorted(kvsByKey(*kv)) {
 		panic("unflattenValue: kv must be sorted (using kvsByKey)")
@@ -314,6 +318,9 @@ func unflattenValue(prefix string, v reflect.Value, t reflect.Type, kv *[][2]str
 			if err != nil {
 				return err
 			}
+			if i < 0 || i >= maxSliceLen || (t.Kind() == reflect.Array && i >= t.Len()) {
+				return fmt.Errorf("index %d of %s is out of range", i, prefix)
+			}
 
 			elems = append(elems, elem{i, val})
 			if i > maxI {
-- 
2.43.0


From c248192259bb14873b334546981ef293201598c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:59 +0000
Subject: [PATCH 45/48] fix: handlers behind the middleware can hijack their
 connections and set deadlines

The middleware's ResponseWriter hid what the server's one can do, so a
handler that upgrades its connection failed as soon as it was traced.
---
 httptrace/server.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/httptrace/server.go b/httptrace/server.go
index c977a21..6a05dc7 100644
--- a/httptrace/server.go
+++ b/httptrace/server.go
@@ -87,7 +87,11 @@ func Middleware(c appdash.Collector, conf *MiddlewareConfig) func(rw http.Respon
 		e.ServerRecv = time.Now()
 
 		rr := &responseInfoRecorder{ResponseWriter: rw}
-		next(rr, r)
+		var w http.ResponseWriter = rr
+		if h, ok := rw.(http.Hijacker); ok {
+			w = hijackableRecorder{rr, h}
+		}
+		next(w, r)
 		SetSpanIDHeader(rr.Header(), *spanID)
 
 		if !usingProvidedSpanID {
@@ -206,3 +210,16 @@ func (r *responseInfoRecorder) Flush() {
 		f.Flush()
 	}
 }
+
+// Unwrap returns the underlying http.ResponseWriter, for use by
+// http.ResponseController.
+func (r *responseInfoRecorder) Unwrap() http.ResponseWriter {
+	return r.ResponseWriter
+}
+
+// hijackableRecorder is a responseInfoRecorder that lets the handler take over
+// the connection, as the underlying http.ResponseWriter does.
+type hijackableRecorder struct {
+	*responseInfoRecorder
+	http.Hijacker
+}
-- 
2.43.0


From 6c9e573508c82218046fa2bf28118430cd8f9515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:55 +0000
Subject: [PATCH 46/48] fix: floating-point log fields of OpenTracing spans are
 recorded exactly

They were cut after six decimal places: 1e-9 became 0.000000.
---
 opentracing/json.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentracing/json.go b/opentracing/json.go
index d155f3b..d5431fb 100644
--- a/opentracing/json.go
+++ b/opentracing/json.go
@@ -76,11 +76,11 @@ func (ml fieldsAsMap) EmitUint64(key string, value uint64) {
 }
 
 func (ml fieldsAsMap) EmitFloat32(key string, value float32) {
-	ml[key] = fmt.Sprintf("%f", value)
+	ml[key] = fmt.Sprintf("%v", value)
 }
 
 func (ml fieldsAsMap) EmitFloat64(key string, value float64) {
-	ml[key] = fmt.Sprintf("%f", value)
+	ml[key] = fmt.Sprintf("%v", value)
 }
 
 func (ml fieldsAsMap) EmitObject(key string, value interface{}) {
-- 
2.43.0


From 2afc35136daa23ee8cec6123b53e59bb3de2c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:16 +0000
Subject: [PATCH 47/48] fix: appdash demo works with listen addresses that have
 a host

---
 cmd/appdash/example_app.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/cmd/appdash/example_app.go b/cmd/appdash/example_app.go
index e8c7702..5a2724c 100644
--- a/cmd/appdash/example_app.go
+++ b/cmd/appdash/example_app.go
@@ -58,10 +58,9 @@ func (c *DemoCmd) Execute(args []string) error {
 	go cs.Start()
 
 	// Print the URL at which the web UI will be running.
-	appdashURLStr := "http://localhost" + c.AppdashHTTPAddr
-	appdashURL, err := url.Parse(appdashURLStr)
+	appdashURL, err := listenURL(c.AppdashHTTPAddr)
 	if err != nil {
-		log.Fatalf("Error parsing http://localhost:%s: %s", c.AppdashHTTPAddr, err)
+		log.Fatalf("Error parsing address %q: %s", c.AppdashHTTPAddr, err)
 	}
 	log.Printf("Appdash web UI running at %s", appdashURL)
 
@@ -77,10 +76,9 @@ func (c *DemoCmd) Execute(args []string) error {
 	}()
 
 	// Print the URL at which the demo app is running.
-	demoURLStr := "http://localhost" + c.DemoHTTPAddr
-	demoURL, err := url.Parse(demoURLStr)
+	demoURL, err := listenURL(c.DemoHTTPAddr)
 	if err != nil {
-		log.Fatalf("Error parsing http://localhost:%s: %s", c.DemoHTTPAddr, err)
+		log.Fatalf("Error parsing address %q: %s", c.DemoHTTPAddr, err)
 	}
 	log.Println()
 	log.Printf("Appdash demo app running at %s", demoURL)
@@ -99,6 +97,19 @@ func (c *DemoCmd) Execute(args []string) error {
 	return http.ListenAndServe(c.DemoHTTPAddr, nil)
 }
 
+// listenURL returns the URL of a server that listens on the given address,
+// which is on localhost if it has no host.
+func listenURL(addr string) (*url.URL, error) {
+	host, port, err := net.SplitHostPort(addr)
+	if err != nil {
+		return nil, err
+	}
+	if host == "" {
+		host = "localhost"
+	}
+	return &url.URL{Scheme: "http", Host: net.JoinHostPort(host, port)}, nil
+}
+
 type middlewareHandler struct {
 	middleware func(rw http.ResponseWriter, r *http.Request, next http.HandlerFunc)
 	next       http.Handler
-- 
2.43.0


From d3ce73856a0063323b6bd6927d37ae09714ca604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:17 +0000
Subject: [PATCH 48/48] fix: a store file on another file system than the
 temporary directory can be saved

---
 store.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 3f25853..66d3235 100644
--- a/store.go
+++ b/store.go
@@ -7,6 +7,7 @@ import (
 	"io/ioutil"
 	"log"
 	"os"
+	"path/filepath"
 	"sync"
 	"time"
 )
@@ -390,7 +391,8 @@ func PersistEvery(s PersistentStore, interval time.Duration, file string) error
 	for {
 		time.Sleep(interval)
 
-		f, err := ioutil.TempFile("", "appdash")
+		// Only files on the same file system can be renamed.
+		f, err := ioutil.TempFile(filepath.Dir(file), "appdash")
 		if err != nil {
 			return err
 		}
-- 
2.43.0

