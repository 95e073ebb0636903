#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties lives here, in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Span trees are the same whatever the order of arrival",
  """Whatever order the spans of a trace reach a memory store in, interleaved with other traces and repeated any number of
  times, the trace read back holds every span collected so far exactly once, and nothing else. As soon as the root span has
  been collected it heads the tree, every other span hangs directly under the span it names as parent if that span has been
  collected, and directly under the root otherwise. Reading or deleting one trace never disturbs another, and a deleted
  trace is gone for every query and starts afresh when its ID is collected again.""",
  ["histories"], "every arrival order of every parent-acyclic span set with a single root, repetitions, other traces and deletions included",
  "the tests check a handful of hand-written orders of 3-5 spans; the tree surgery (temporary roots, re-attachment) depends on the exact order",
  ["store.go"], [("temporary root, insert, reattachChildren", "store.go collectNoLock/insert/reattachChildren")],
  [("span index", "span ID to subtree per trace", "MemoryStore.span"), ("trace index", "trace ID to (temporary) root", "MemoryStore.trace")],
  ["MemoryStore.Collect", "MemoryStore.Trace", "MemoryStore.Traces", "MemoryStore.Delete", "Trace.FindSpan"])

p("C02", "Annotations are kept complete, in order, and isolated per span",
  """A span read back from a store holds exactly the annotations passed in all Collect calls for that span, with the keys and
  values they had when Collect was called, concatenated in call order. Nothing a caller later does with its own slice
  (short of overwriting the bytes of a value it passed), and no Collect for another span, trace or store, changes, drops or adds an annotation. This holds equally when the annotations
  first wait in a chunking collector or are collected into several stores.""",
  ["histories", "inputs"], "every sequence of Collect calls over a few spans, with every choice of argument slice (fresh, shared backing array with spare capacity, sub-slice, reused after the call)",
  "aliasing shows only when a caller reuses a slice with spare capacity in a particular sequence; no test does",
  ["store.go", "collector.go", "multi.go", "recorder.go"], [("append to the span's annotations", "store.go collectNoLock; collector.go ChunkedCollector.Collect")],
  [("Annotations", "annotations of a span in the store", "Trace.Span.Annotations"), ("pending", "annotations waiting per span", "ChunkedCollector.pendingBySpanID")],
  ["MemoryStore.Trace", "the underlying collector of a ChunkedCollector"])

p("C03", "The memory store is atomic under concurrency; reads are stable snapshots",
  """When goroutines use one memory store concurrently, every operation (collect, read one, list, delete, save, load) takes
  effect atomically at one instant between its call and its return, with no data race, deadlock or lost update. A trace that
  has been returned to a reader is a consistent snapshot: it never changes afterwards, whatever is collected or deleted later.""",
  ["schedules"], "all interleavings of 2-3 goroutines with 1-3 operations each on colliding spans and traces",
  "the tests never run two store operations concurrently and never look at a returned trace again after a later Collect",
  ["store.go"], [("embedded mutex", "store.go MemoryStore"), ("lock held over each operation", "store.go Collect/Trace/Traces/Delete/Write/ReadFrom")],
  [("trace/span maps", "all stored data", "MemoryStore")], ["all exported MemoryStore methods"])

p("C04", "A saved and reloaded store behaves like the original",
  """For every state a memory store can reach, saving it and loading the result into a store (fresh or already used) gives a store with the
  same traces, and from then on the loaded store and the original give the same answer to every query after every further
  sequence of operations, including spans and annotations added to traces that existed before the save and deletions.
  Loading input that is truncated reports an error and leaves the contents of the store as they were.""",
  ["histories", "inputs"], "every store state reachable by short histories, every save point and every continuation; every truncation of a saved image",
  "the tests save and reload one fixed store and never collect into the reloaded one",
  ["store.go"], [("gob encoding of trace trees and span index", "store.go Write/ReadFrom")],
  [("span index", "must refer to the same nodes as the trees after a reload", "MemoryStore.span")], ["MemoryStore.Write", "MemoryStore.ReadFrom", "MemoryStore.Trace"])

p("C05", "Periodic persistence never leaves a torn or unloadable store file",
  """While a store is being persisted periodically, at every crash point (process kill or power loss) and under every failing
  file operation, the store file is absent or a complete image of the state of the store at one instant since the previous save. An existing image
  is replaced only by a complete newer one, the first failure is returned, and every interval that passes without failure
  leaves the file holding the state of that time. Between two saves, and after the return, no file is left open.""",
  ["crash_points", "fault_sequences", "schedules"], "every crash point in the log of file operations of several persist rounds, with every subset of unsynced writes lost, every single failing file operation, and concurrent collection",
  "the one test reads the file once after a normal save; it never crashes or fails a file operation",
  ["store.go", "cmd/appdash/serve_cmd.go"], [("temporary file, sync, close, rename", "store.go PersistEvery")],
  [("store file", "the last complete image", "file argument")], ["contents of the file after the crash", "error returned by PersistEvery"])

p("C06", "Age-based eviction: never early, never forgotten",
  """With a minimum eviction age A, a trace first collected at time c is still stored, complete, at every time up to c+A.
  Once anything is collected more than 2A after c, every span of that trace collected before then is deleted as soon as background work is done, and no trace
  escapes eviction: data that arrives for a trace that is being or was already evicted counts as a new trace with its
  own full age. This holds under concurrent collection. An error of the underlying Collect is returned; when a deletion fails,
  collections go on, and it is tried again with the next collection more than A later.""",
  ["histories", "schedules"], "every sequence and interleaving of collections over a few traces at virtual times around the multiples of A",
  "the test waits through one real-time eviction with one trace; boundaries, late data and races with the deletion are not reached",
  ["store.go"], [("creation times and periodic eviction pass", "store.go RecentStore.Collect/evictBefore")],
  [("created", "first-seen time per trace", "RecentStore.created"), ("lastEvicted", "time of the last pass", "RecentStore.lastEvicted")],
  ["Trace/Traces on the underlying store"])

p("C07", "A limited store keeps exactly the newest Max traces, oldest out first",
  """A store limited to Max traces never holds more than Max of the traces collected through it, and holds exactly the Max
  whose first collection is most recent (all of them when fewer). Further collections for a trace that is still held never evict anything,
  a trace that was evicted counts as new when it appears again, and Max = 0 keeps nothing. This holds under concurrent
  collection, in some order of the concurrent calls. Errors of the underlying store are returned, and a deletion that fails changes
  nothing: the oldest trace stays, and is still held. (Trace IDs are non-zero.)""",
  ["histories", "schedules"], "every sequence of collections over more than Max traces for small Max, and interleavings of concurrent collectors",
  "the test fills one store once in one order; wrap-around, repeats and re-appearance of evicted traces are not combined",
  ["store.go"], [("ring of trace IDs in insertion order", "store.go LimitStore.Collect")],
  [("ring", "trace IDs in insertion order", "LimitStore.ring"), ("traces", "set of held traces", "LimitStore.traces")],
  ["Traces on the underlying store"])

p("C08", "The chunking collector delivers everything exactly once under every schedule",
  """Under every interleaving of goroutines that collect, flush manually or are flushed by the timer, each annotation accepted by a chunking collector
  is passed to the underlying collector at most once, under its own span, and exactly once by the time a later
  flush and all flushes in progress have completed, at the latest when the flush interval has passed, unless the queue was reported dropped or the collector was stopped. Spans collected without annotations
  are delivered too, annotations of one span that are delivered together keep their order of collection, and there is no
  data race or deadlock.""",
  ["schedules"], "all interleavings (up to a preemption bound) of 2-3 goroutines collecting and flushing against the timer goroutine in virtual time",
  "the tests run one or two goroutines under whatever schedule the runtime picks and sleep for real intervals",
  ["collector.go"], [("pending map swapped under a lock", "collector.go ChunkedCollector.Flush"), ("background flush goroutine", "collector.go start")],
  [("pendingBySpanID", "annotations not yet passed on", "ChunkedCollector")], ["underlying Collector.Collect calls"])

p("C09", "Chunking collector: queue bound, drop, timeout and error accounting are exact",
  """The queue of a chunking collector never exceeds its byte limit: the collection that would exceed it is refused with
  ErrQueueDropped together with everything pending, and everything that fits is accepted (24 bytes per collection plus keys and values; limit 0 means none) and
  later collections start from an empty queue. A flush that has run longer than its timeout after some delivery stops there
  and reports ErrQueueDropped; otherwise every pending span is attempted, whatever fails, and the errors of the underlying
  collector are all reported by Flush; when the flush was automatic its error is returned by exactly one later accepted Collect
  (the latest error, if several automatic flushes have failed in between). NewChunkedCollector gives the documented settings: flushes
  every 500 ms, a flush timeout of 2 s, a limit of 32 MB (2^25 bytes), a log.""",
  ["histories", "fault_sequences"], "every sequence of collections (sizes around the limit), flushes, timer expiries and failing or slow deliveries, against a reference model",
  "tests exercise one overflow and one timeout; sequences of overflow, flush, failure and recovery are not reached",
  ["collector.go"], [("queueSizeBytes accounting", "collector.go Collect/Flush"), ("lastErr hand-over", "collector.go start/Collect")],
  [("queueSizeBytes", "bytes pending", "ChunkedCollector"), ("lastErr", "error of last automatic flush", "ChunkedCollector")],
  ["return values of Collect and Flush", "underlying Collect calls", "OnFlush"])

p("C10", "A chunking collector can be stopped at any time, once and for all",
  """Stop may be called before any collection, during collections and flushes, and more than once; it never panics or blocks
  forever. After it returns every Collect fails without queueing anything, nothing is sent any more
  without being asked for except by an automatic flush that was under way or due, and the background goroutine ends.""",
  ["schedules", "histories"], "all interleavings of Stop with collections, flushes and the timer, and all short sequences including Stop before the first Collect and repeated Stop",
  "tests call Stop once after a Collect in a quiet moment",
  ["collector.go"], [("stopped flag and stop channel", "collector.go Stop/start")],
  [("started/stopped/stopChan", "life cycle", "ChunkedCollector")], ["panics", "return of Collect", "goroutines left"])

p("C11", "What a remote collector sends is what the server collects",
  """Over a healthy connection every Collect on a remote collector makes the server collect the same span ID and the same
  annotations, keys and bytes, in the same order and grouping, whatever their size up to the documented message limit
  and however the network splits the byte stream. Distinct spans, empty values, empty annotation lists, zero and maximal
  identifiers all survive unchanged.""",
  ["inputs", "schedules"], "identifiers and sizes at every encoding boundary, every way a stream is cut into reads, sequences of packets",
  "tests send a few small packets over loopback, where reads are rarely split",
  ["collector.go", "span.go", "internal/wire/collector.pb.go"], [("delimited protobuf packets", "collector.go newCollectPacket/collect/handleConn"), ("wire conversion", "span.go wire/annotationsFromWire/spanIDFromWire")],
  [], ["Collect calls on the server's collector"])

p("C12", "A remote collector survives connection failures without losing acknowledged data",
  """If writing on an existing connection fails at any byte, a remote collector reconnects and resends the packet once in that same call;
  any other failure to dial or write is returned as an error; a call that returns nil has written its complete packet on a connection on which no write has failed. A later
  call after any failure connects again by itself, and the server never collects a truncated, garbled or mixed
  packet, nor one that was not sent.""",
  ["fault_sequences"], "every placement of dial and write failures (each byte position of the packets) over sequences of collections",
  "tests use a healthy loopback connection",
  ["collector.go"], [("reconnect and retry once", "collector.go collectAndRetry/connect")],
  [("pconn", "current connection", "RemoteCollector")], ["return value of Collect", "bytes on each connection", "server's collector"])

p("C13", "Concurrent senders share one connection safely",
  """When goroutines share a remote collector, or several clients send to one server at once, every packet arrives whole and
  exactly once, packets of one goroutine arrive in order, and closing the collector at any moment neither deadlocks, panics nor
  corrupts the stream; a collection after Close reconnects. No schedule contains a data race.""",
  ["schedules"], "all interleavings up to a preemption bound of 2-3 senders, Close, and the server's goroutines",
  "tests send from one goroutine",
  ["collector.go"], [("connection mutex", "collector.go RemoteCollector.mu")],
  [("pconn", "guarded connection", "RemoteCollector")], ["server's collector", "race detector"])

p("C14", "No client input can crash the collector server or hurt other clients",
  """For every byte stream a client can send, including truncated, oversized and malformed packets and packets without the
  optional parent, the server stays up, collects exactly the well-formed packets that precede the first malformed one,
  and then closes that connection only. Other connections, existing and new, are served as if that client did not exist, also when the server's
  own collector returns an error.""",
  ["inputs", "schedules", "fault_sequences"], "all truncations and all single-byte edits of valid streams, all short byte strings over an alphabet of protocol bytes, and accept errors, with a second client",
  "tests only send valid packets from the Go client, which always sets every field",
  ["collector.go", "span.go"], [("per-connection goroutine, size limit, error handling", "collector.go handleConn"), ("conversion of optional fields", "span.go spanIDFromWire")],
  [], ["server's collector", "panics", "closed connections"])

p("C15", "A recorder saves its span once, completely, and reports every error once",
  """Finishing a recorder passes all events recorded on it since it was made to its collector in one call, under its span, in
  order; no event is passed before that (raw annotations are, at once), and a second Finish adds no recorded data again and reports an error.
  Every error met is returned exactly once by Errors, or written to the Logger if one is set; a child recorder has a fresh
  span under the recorder's span in the same trace and shares nothing else with it.""",
  ["histories", "fault_sequences"], "every short sequence of recorder operations on a recorder and its child with every pattern of failing collector calls and unmarshallable events",
  "tests record one or two events on a healthy collector",
  ["recorder.go"], [("accumulate then one Collect at Finish", "recorder.go Event/Finish/error")],
  [("annotations", "recorded so far", "Recorder"), ("errors", "not yet returned", "Recorder")], ["Collect calls", "Errors()", "Logger"])

p("C16", "Events survive marshalling to annotations and back",
  """Marshalling an event and unmarshalling the annotations yields an equal event, for every event type built from exported fields
  of basic kinds and named types of them, strings, times, durations (to the nanosecond, up to ten days), nested structs, pointers
  to any of these, maps, slices and arrays of the basic kinds, at every value, including zero values, empty collections and absent optional data. Types that
  marshal themselves round-trip through their own methods, and no value of these types makes marshalling panic.""",
  ["inputs"], "all combinations of boundary values per field kind over a family of event shapes, in particular every combination of empty and non-empty fields",
  "tests use one populated value per kind; empty slices before other fields, float64 precision and sub-microsecond durations are not covered",
  ["reflect.go", "event.go"], [("flatten/unflatten over sorted keys", "reflect.go flattenValue/unflattenValue")],
  [], ["MarshalEvent", "UnmarshalEvent"])

p("C17", "Decoding events ignores annotation order and unrelated annotations",
  """The events decoded from a span's annotations are the same for every order of the annotations and whatever other events (with
  different keys) or raw annotations share the span. Every event of a registered type is found, unknown event types are skipped
  without error, and asking for an event type that is not there is an error. An
  annotation whose value or index fits no field never makes decoding panic and leaves the span's other events as they are.""",
  ["inputs"], "all permutations (small) and rotations of the annotations of all subsets of the event types of the library, plus foreign annotations at every position in key order",
  "tests decode annotations in the order they were marshalled, one event at a time",
  ["event.go", "reflect.go"], [("schemas, StringMap, sorted key matching", "event.go UnmarshalEvents; reflect.go unflattenValue")],
  [], ["UnmarshalEvents", "UnmarshalEvent"])

p("C18", "IDs and span IDs round-trip through text and JSON; malformed text is rejected",
  """Every ID and span ID is restored exactly from its text form, its JSON form and the Span-ID header, and the text form is
  fixed-width lower-case hex with the parent omitted exactly when there is none. Text that is not two or three hex fields of at
  most 64 bits separated by slashes is rejected with an error and no value, and JSON integers are accepted for IDs with their exact value.""",
  ["inputs"], "boundary values for all three fields, and all strings up to a length over an alphabet of relevant characters, against a reference parser",
  "tests check a few literals",
  ["id.go", "span.go", "httptrace/header.go"], [("hex formatting and parsing", "id.go; span.go ParseSpanID"), ("header codec", "httptrace/header.go")],
  [], ["ParseID", "ParseSpanID", "json", "GetSpanID"])

p("C19", "Generated IDs never repeat, from any number of goroutines",
  """Identifiers generated by a process never repeat, however many goroutines generate them concurrently and whatever the initial random state, including across every
  carry of the internal counter. Generation is free of data races, and a root span ID has no parent while a child span ID has the
  trace of its parent and the parent's span as its parent.""",
  ["schedules", "inputs"], "all interleavings of 2-3 goroutines generating IDs; initial counter states around every carry position, long sequential runs",
  "the tests and benchmarks generate a few IDs on one goroutine from one random start",
  ["id.go", "span.go"], [("AES-CTR keystream under a mutex", "id.go generateID")],
  [("ctr, n, b", "counter, offset, block", "id.go globals")], ["NewRootSpanID", "NewSpanID"])

p("C20", "Server middleware attaches every request to the right span",
  """For every combination of incoming span headers, the middleware runs the handler exactly once with a span that is the given Span-ID if
  valid, a new child of the given Parent-Span-ID, or else a new root; a malformed header never stops the request. The same
  span is visible to the handler, returned in the response header, and used for the one recorded server event; concurrent
  requests never mix.""",
  ["inputs", "schedules"], "all combinations of header forms (absent, empty, well-formed, malformed, repeated), middleware configurations and handlers, and two concurrent requests",
  "tests send well-formed headers only, one request at a time",
  ["httptrace/server.go", "httptrace/header.go"], [("header precedence and context value", "httptrace/header.go getSpanID; server.go Middleware")],
  [], ["handler's context", "response headers", "collected span"])

p("C21", "Middleware is transparent and records what the client really received",
  """With the middleware installed a client receives exactly the status, headers and body the handler produces without it,
  except for the Span-ID header; write results, flushes, deadlines and the taking over of the connection pass through. The recorded event holds the status code and the number of body bytes
  that were really sent, for every sequence of header, write and flush calls, including none.""",
  ["histories", "inputs"], "every sequence of response-writer operations up to a depth, over status codes and body sizes, with and without failing writes, compared with the same handler run bare",
  "tests use handlers that write one status and one body",
  ["httptrace/server.go"], [("response recorder", "httptrace/server.go responseInfoRecorder")],
  [("statusCode, ContentLength", "observed response", "responseInfoRecorder")], ["underlying ResponseWriter", "recorded HTTPServer event"])

p("C22", "The tracing client transport is transparent and propagates the span",
  """A traced client request reaches the inner transport as the caller made it plus one Span-ID header holding a fresh child of the recorder's span, the caller's own request
  is not modified, and response or error come back untouched. Exactly one client event per request is recorded,
  in a fresh child span of the recorder's, with the true status (-1 on error) and send and receive times around the exchange. Cancelling a request in flight cancels it in the inner transport, cancelling any other
  does nothing, and concurrent requests never interfere.""",
  ["inputs", "schedules", "fault_sequences"], "all combinations of request forms, responses and errors; interleavings of concurrent requests and cancellation",
  "tests do one request at a time against a healthy server",
  ["httptrace/client.go"], [("request clone, tracking map", "httptrace/client.go RoundTrip/setCloneRequest/CancelRequest")],
  [("requests", "in-flight clones", "Transport.requests")], ["inner RoundTripper", "collected spans"])

p("C23", "Values of sensitive headers are never recorded",
  """No value of a header listed as redacted ever appears in anything recorded, whether it comes in a request or a response, as header or trailer, on
  client or server side, single or repeated, and whatever the spelling of its name. All other headers
  are recorded with all their values, and recording never changes the headers themselves.""",
  ["inputs", "configurations"], "all placements of secret values over header/trailer, request/response, client/server, name spellings and repetition, and configured redaction lists",
  "the tests check one Authorization request header",
  ["httptrace/client.go", "httptrace/server.go"], [("redactHeaders", "httptrace/client.go")], [], ["annotations of the collected events", "headers after the exchange"])

p("C24", "OpenTracing spans map to Appdash spans without loss; unsampled spans vanish",
  """Every sampled OpenTracing span is collected as the span with its trace, span and parent IDs, holding its operation name, every
  tag, baggage item and log entry with its time, and its start and end time, independently of map order. An unsampled span produces nothing. When the
  collector fails, the span still goes on being recorded as far as possible, and the failure is logged once, or every time in verbose mode.""",
  ["inputs", "fault_sequences", "schedules"], "all small combinations of tags, logs, baggage, sampling and failing collector calls, and concurrent recording",
  "tests record one span with a healthy collector",
  ["opentracing/recorder.go", "opentracing/json.go", "opentracing/tracer.go"], [("RecordSpan", "opentracing/recorder.go")],
  [("logOnce", "log once", "Recorder")], ["Collect calls", "logger output"])

p("C25", "Several stores behave like one; listings honour their filter",
  """Collecting into a multi-store passes the span to each store in order, stops at the first failure and reports it; reading a trace gives the one of the first
  store that has it, a failure if one comes before that, and not-found only if none has it. Listing over several queryers gives every trace that any of them
  has exactly once, from the first that has it, and reports failures. A listing restricted to some trace IDs returns just those of them that exist, from a memory store as from several.""",
  ["histories", "fault_sequences"], "all short histories over 2-3 stores with every pattern of failures, contents and filters",
  "tests cover two healthy stores with one trace each; the ID filter is not tested",
  ["multi.go", "store.go"], [("multiStore, multiQueryer", "multi.go"), ("Traces", "store.go")], [], ["MultiStore", "MultiQueryer", "MemoryStore.Traces"])

p("C26", "Profiles, aggregates and dashboard figures add up",
  """For every stored trace the profile lists each span exactly once, in tree order, with its longest recorded time in rounded milliseconds, that
  plus its direct children's, and that of its whole subtree. The aggregate view sums exactly those figures per trace or span name over the
  selected traces, and the dashboard gives the aggregator's results in milliseconds for the requested time range.""",
  ["inputs"], "all trees up to a size with all assignments of small time spans and names, all view modes and selections",
  "the package has no tests at all (it does not build without its data package)",
  ["traceapp/prof.go", "traceapp/aggregate.go", "traceapp/dashboard.go", "traceapp/app.go"], [("calcProfile", "traceapp/prof.go"), ("aggregate", "traceapp/aggregate.go"), ("serveDashboardData", "traceapp/dashboard.go")],
  [], ["HTTP responses of the web UI"])

p("C27", "Exported traces and permalinks import back unchanged and never overwrite",
  """The JSON export and the permalink of any trace page, given to another instance, make that instance show the same trace: same spans, parents and annotations.
  Importing a trace whose ID is already stored changes nothing, importing several imports each of the others, and malformed uploads or permalinks are
  rejected with an error without storing a trace.""",
  ["inputs", "histories"], "all small traces with awkward annotation contents and sizes, every truncation of a permalink, imports over every prior state",
  "the package has no tests at all",
  ["traceapp/app.go", "traceapp/trace.go", "span.go", "id.go"], [("serveTrace permalink and JSON", "traceapp/app.go"), ("uploadTraces, collectTrace", "traceapp/app.go, traceapp/trace.go")],
  [], ["HTTP responses of the web UI", "store contents"])

p("C28", "Basic auth lets in exactly the configured user",
  """When basic auth is configured, every request to the served web application is answered 401 with a challenge, and reaches no handler, unless its
  Authorization header is exactly the one for the configured user and password; with it, and always when no auth is configured, requests are served normally.
  Unusable credentials or malformed settings stop the server from starting rather than leave it open.""",
  ["inputs", "configurations"], "all near-miss Authorization headers (every truncation, extension and single-byte change, other schemes and cases), all routes and methods, all shapes of the setting",
  "the command has no tests",
  ["cmd/appdash/serve_cmd.go"], [("basicAuthHandler", "cmd/appdash/serve_cmd.go")], [], ["HTTP responses of the handler that serve installs"])

p("C29", "The whole pipeline loses nothing, and a restarted server knows what it had",
  """A span finished in an application that records through a chunking remote collector appears on the server with exactly its annotations and under its parent, once
  everything is flushed, under every schedule of a healthy system. A server that is killed at any time and started again on the same store file
  shows every trace of the last completed save, accepts further spans for them, and goes on saving.""",
  ["schedules", "crash_points", "histories"], "interleavings of recorders, chunking collector, connection and server goroutines up to a preemption bound; kill points of the serve command",
  "no test connects recorder, chunking collector, network, server and store, or restarts the server",
  ["recorder.go", "collector.go", "store.go", "cmd/appdash/serve_cmd.go"], [("serve wiring", "cmd/appdash/serve_cmd.go Execute"), ("pipeline", "recorder.go, collector.go, store.go")],
  [], ["web UI of the server", "server store"])

p("C30", "Looking inside a trace finds the right span, times, names and values",
  """In any trace, looking up a span ID returns the subtree of that span, wherever it sits, and nothing if it is absent. The time span of a span runs
  from the earliest start to the latest end over all its timed events, whatever their kind and order, and is an error if there
  are none; its name is the recorded name, an annotation is important exactly if a registered event type declares its key so, and the text tree shows every span and annotation once, in order.""",
  ["inputs"], "all trees up to a size and every ID; all subsets, orders and small time assignments of timed events",
  "tests use one tree and one event",
  ["trace.go", "span.go"], [("FindSpan, TimespanEvent, treeString", "trace.go"), ("Name, Important", "span.go")], [], ["Trace.FindSpan", "Trace.TimespanEvent", "Trace.TreeString", "Span.Name", "Annotation.Important"])

p("C31", "The web UI answers every request, shows every trace, and serves many at once",
  """Every page of the web UI for a stored trace or span is served, whatever its annotations contain; malformed IDs, unknown traces and
  spans give an error response, never a crash or a partial page. The trace list shows exactly the requested traces, and URLs the router builds for
  a trace or span lead back to it, as every link on a page leads back into the application, wherever it is mounted. Pages and imports served concurrently with collection are free of data races and each
  shows a consistent state.""",
  ["inputs", "schedules"], "all routes over stored and unknown identifiers and awkward annotations; interleavings of page requests with collection",
  "the package has no tests at all",
  ["traceapp/app.go", "traceapp/router.go", "traceapp/handler.go", "traceapp/httputil.go", "traceapp/vis.go", "traceapp/tmpl.go"], [("handlerFunc buffering and recovery", "traceapp/handler.go"), ("routes", "traceapp/router.go")],
  [], ["HTTP responses of the web UI"])

p("C32", "IDs are uniformly distributed",
  """Generated identifiers are uniformly distributed over 64 bits, so that collisions between processes are as unlikely as chance allows.""",
  ["inputs"], "the random key and counter of the process",
  "a statistical claim about a cipher's output", ["id.go"], [("AES-CTR keystream with a random key", "id.go")])

p("C33", "The Python client delivers its spans and events intact to the Go server",
  """A span that a program collects with the Python client is collected by the Go server with the same span ID and annotations, and nothing else is. With the socket
  collector: when collect returns without an error, once and in order, however little every send takes; after an error nothing is sent behind a half-sent message. With
  the Twisted collector: every span is given, once and in order, to a connection of that collector while it is up, no matter when it was collected and how often the
  connection is refused or lost before. The Python events (name, message, log, timespan, SQL, HTTP server and client) unmarshal in Go to events of the same kind with
  the same values. A sampled OpenTracing span arrives with its IDs, name, times, tags and baggage, one that is not sampled does not. A root span has a fresh trace and
  span ID and no parent, a child span the trace of its parent, a fresh ID and the parent's; the text of a span ID parses to it.""",
  ["inputs", "schedules"], "all inputs, all ways in which sends fall short, time out or fail, and all orders of connections, losses, timers and collections",
  "there are no tests of the Python client", ["python"],
  [("socket client", "python/appdash/sockcollector.py"), ("Twisted client", "python/appdash/twcollector.py"), ("encoding", "python/appdash/encode.py"),
   ("events", "python/appdash/event.py"), ("span IDs", "python/appdash/spanid.py"), ("tracer", "python/appdash/recorder.py")], [],
  ["arguments of the Python API, spans and events collected by the Go server"])

p("C34", "The timeline of a trace shows every timed span with its true times",
  """The timeline on the page of a trace or span has, in tree order, one item for every span at or below it with a complete timed event: with the name,
  identifier and parent of the span, all its annotations and a URL that leads to its page; for the root of a trace every timed event with its own
  times and duration, for other spans one time from the earliest start to the latest end, in milliseconds since the epoch. The page's span and its direct
  children are visible at first. The timeline is left out only if a span has no name.""",
  ["inputs"], "all trees up to a size with all assignments of sets of timed events (also incomplete, empty and backwards ones) and names, and the page of every span",
  "the package has no tests at all",
  ["traceapp/vis.go", "traceapp/app.go"], [("d3timeline", "traceapp/vis.go")], [], ["HTTP responses of the web UI"])

p("C35", "A served Appdash does what its settings say",
  """Traces that were collected, uploaded, sampled or loaded from the store file by appdash serve are deleted with --delete-after, never before they have that age, and are gone once
  something arrives when they, and the server, are more than twice as old; with 0 they stay. The store file holds the state of the last persist interval, is not touched when the interval is 0
  or no file is named, and a start on a truncated, foreign or unreadable one fails and leaves it as it was. Collector and web UI listen where and with the certificate they are told to, unusable
  settings stop the start, and pages link to the given URL or, by default, to the HTTP address.""",
  ["configurations", "histories", "crash_points"], "every setting, all histories of spans, uploads, waits, saves, kills and restarts up to a depth, every truncation of the store file",
  "no test starts the program",
  ["cmd/appdash/serve_cmd.go", "cmd/appdash/sample_data.go", "store.go", "traceapp/app.go"],
  [("wiring of stores, UI, collector server and persistence", "cmd/appdash/serve_cmd.go Execute"), ("base URL", "cmd/appdash/serve_cmd.go urlOrDefault")],
  [("created", "ages of traces", "RecentStore.created"), ("store file", "what a restart knows", "ServeCmd.StoreFile")],
  ["HTTP responses of the web UI", "the collector port", "the store file"])

p("C36", "HTTP requests across services join into one trace",
  """When services that use the middleware call each other through the client transport with the span of the request they handle, every request from outside becomes exactly one
  trace of its own: it holds, for every request handled, one server span below the span of the handler that made it, and for every request made, one client span below that of its
  maker. The events of both sides agree on status and size, and their times nest. A request that is not answered has a client span with status -1. This holds for requests made one after
  another and at the same time, also when a handler passes on the headers it got.""",
  ["inputs", "schedules"], "all forests of up to three (four) requests, every way of answering them, transports and services shared or not, collected directly or in chunks; interleavings of concurrent calls",
  "tests use one server and one client, one request at a time",
  ["httptrace/server.go", "httptrace/client.go", "httptrace/header.go", "recorder.go", "span.go", "collector.go"],
  [("span from header or context", "httptrace/server.go Middleware"), ("fresh child span per request", "httptrace/client.go RoundTrip")],
  [], ["spans in the store", "handlers' contexts"])

p("C37", "The send command delivers its sample data or reports failure",
  """When appdash send ends without an error, the collector server at the given address has collected the whole of its sample data: 60 traces, each a root span and a chain of three to six
  spans below it, all named, every one with its query event, each beginning where the one before ends and the last ending with the trace. Whenever a packet cannot be sent,
  at any point, or the settings are unusable, it ends with an error.""",
  ["fault_sequences", "configurations"], "every failing dial or write at every packet and cut, every outage from any packet on, all settings, all random numbers at their limits for a trace",
  "no test runs the command",
  ["cmd/appdash/send_cmd.go", "cmd/appdash/sample_data.go", "collector.go", "recorder.go"], [("errors of the recorders", "cmd/appdash/sample_data.go sampleData"), ("choice of the protocol", "cmd/appdash/send_cmd.go Execute")],
  [("errors", "errors of the recorders of the sample data", "Recorder.errors")],
  ["result of the command", "what the server collects"])

p("C38", "The demo shows every request to its application as a trace",
  """Every page of the demo application links to the page, in the demo's web UI, of the trace of that very request, which shows the request with its status and time, as soon as it has been collected. The trace of
  the page that makes API calls shows those calls under it, each with its own times on both sides. Requests made at the same time have traces of their own, free of data races, and the addresses
  in use are those given.""",
  ["histories", "schedules"], "every sequence of requests to the paths of the application, and all interleavings of two requests",
  "no test runs the command",
  ["cmd/appdash/example_app.go", "httptrace/server.go", "httptrace/client.go", "collector.go", "traceapp/app.go"], [("wiring of middleware, transport, collector and web UI", "cmd/appdash/example_app.go Execute/ServeHTTP")],
  [("store", "the traces of the demo", "DemoCmd.Execute")],
  ["pages of the demo application", "pages of the web UI"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
