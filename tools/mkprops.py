#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (edit here, then run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=' '.join(statement.split()),
             quantifier=dict(over=over, text=' '.join(qtext.split())),
             why_tests_cant=' '.join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

prop('C01', 'A collected trace reads back as one complete, correctly shaped tree',
 """Whatever order the spans of a trace are collected in and in however many pieces, the trace read back from the in-memory store
 contains every collected span exactly once, with all of its annotations in the order they were collected.
 Once the trace's single root span has been collected it is the top of the tree, every span whose parent has been collected is a direct child of that parent, and every
 span whose parent has not been collected is a direct child of the root.
 Spans that name themselves, each other in a circle, or several roots never make the store lose a span, return a cyclic tree, or crash.""",
 ['inputs', 'histories'],
 """Every set of spans (any IDs including 0 and 2^64-1, any parent relation including missing, self and cyclic parents), every arrival
 order, every split of a span's annotations over repeated collections, interleaved across traces.""",
 """The tests fix a handful of arrival orders plus ten seeded permutations of one family of acyclic shapes with no annotations and one collection per span;
 orphans, cycles, repeated pieces, extreme IDs and intermediate states are not sampled.""",
 ['store.go', 'trace.go'],
 [('insertion under the real parent, or temporarily under the root', 'store.go MemoryStore.insert'),
  ('re-rooting and re-parenting when a root or parent arrives late', 'store.go MemoryStore.collectNoLock/reattachChildren')],
 ['MemoryStore.Collect', 'MemoryStore.Trace', 'MemoryStore.Traces'],
 [('trace and span maps', 'tree per trace and index of its spans', 'store.go MemoryStore')])

prop('C02', 'Concurrent store operations are linearizable and reads are snapshots',
 """Concurrent collections, trace reads, trace listings and deletions on the in-memory store behave as if executed one at a time in an
 order consistent with their real-time order: a read sees every collection that finished before it began and none of a deleted trace's data.
 A trace handed to a reader is a snapshot: later collections and deletions never change it.""",
 ['schedules', 'histories'],
 """Every interleaving of any number of concurrent Collect, Trace, Traces and Delete calls over any set of traces and spans.""",
 """The tests drive the store from one goroutine and never look at a returned trace again after further collections.""",
 ['store.go'],
 [('one mutex around every operation', 'store.go MemoryStore.Collect/Trace/Traces/Delete'),
  ('copy of the tree handed to readers', 'store.go MemoryStore.traceNoLock')],
 ['call and return of MemoryStore.Collect/Trace/Traces/Delete'])

prop('C03', 'A saved store loads back as the same store',
 """Loading what the in-memory store wrote yields a store that answers every trace lookup and listing identically and that continues identically
 under further collections and deletions as if it had never been saved, and the reported trace count is the number of traces loaded.
 Loading truncated or unreadable data fails with an error and leaves the receiving store's contents and later behaviour unchanged.""",
 ['inputs', 'histories', 'fault_sequences'],
 """Every store content (any tree shape, orphans, temporary roots, any keys and values), every continuation of operations after loading, every truncation point and read error.""",
 """One test saves a two-span store and compares the loaded maps; nothing is collected after loading and no failing read is tried.""",
 ['store.go'],
 [('gob encoding of trees and index', 'store.go MemoryStore.Write'), ('decode then swap in', 'store.go MemoryStore.ReadFrom')],
 ['MemoryStore.Write', 'MemoryStore.ReadFrom', 'later Collect/Trace/Delete'])

prop('C04', 'The periodically persisted file is always one complete snapshot',
 """At every moment, including when the process is killed or a save fails part-way, the file named for periodic persistence either does not yet exist, is the file that was there before, or holds one
 complete, loadable snapshot of the store taken at a single instant, and successive contents never go back in time.
 A save begins every interval; while saving succeeds, everything collected before a save begins is in the file once that save is done, wherever the file's directory is; a failed save is reported to the caller and
 leaves the previous file content intact and no partial file behind.""",
 ['crash_points', 'schedules', 'fault_sequences'],
 """Every kill point, every point at which writing the snapshot can fail, every interleaving with concurrent collection, any target path in a writable directory.""",
 """One test waits for a single save of a tiny store with no reader, no failure and no crash.""",
 ['store.go', 'cmd/appdash/serve_cmd.go'],
 [('write to a temporary file, then rename', 'store.go PersistEvery')],
 ['content of the persisted file', 'return value of PersistEvery', 'calls to the store\'s Write'])

prop('C05', 'The recent-traces store evicts only old traces, and does evict them',
 """A store limited to recent traces never removes a trace that was first collected no longer ago than the configured minimum age, and never removes data collected by the very call that triggers an eviction.
 Once any collection returns at a time when a trace is more than twice the minimum age old, and every earlier eviction has completed, that trace's old data is gone from the underlying store, also when collections
 run concurrently; a trace collected again after eviction starts afresh and is aged from that collection.""",
 ['histories', 'schedules', 'inputs'],
 """Every sequence of collections over any traces at any times relative to the minimum age, from any number of goroutines, with any latency of the underlying store.""",
 """One test collects two spans with a real sleep between them; boundaries, re-collection of an old trace, and concurrent collection are not sampled.""",
 ['store.go'],
 [('first-seen time per trace and periodic eviction', 'store.go RecentStore.Collect/evictBefore')],
 ['calls reaching the underlying store: Collect and Delete with virtual timestamps'],
 [('created', 'first-seen time per tracked trace', 'store.go RecentStore')])

prop('C06', 'The limited store never exceeds its capacity and evicts oldest first',
 """A store limited to N traces never holds more than N traces in its underlying store, whatever the trace IDs (including 0) and however many goroutines collect, and for N = 0 it stores nothing.
 When a new trace arrives at capacity exactly the trace that was first collected longest ago is removed, and collecting into a retained trace removes nothing and passes every annotation on.
 If removing the oldest trace fails, the error is returned, the new trace is not stored, and every retained trace stays retained and collectable.""",
 ['histories', 'schedules', 'inputs', 'fault_sequences'],
 """Every sequence and interleaving of collections, every capacity, every trace ID, and failures of the underlying store's Delete and Collect at any point.""",
 """The tests fill one ring with small consecutive IDs from one goroutine; ID 0, ID >= 2^63, repeated wrap-around, concurrency and delete failures are not sampled.""",
 ['store.go'],
 [('ring of trace IDs in insertion order plus membership set, under one lock', 'store.go LimitStore.Collect')],
 ['Collect and Delete calls reaching the underlying store', 'contents of the underlying store'])

prop('C07', 'Combined stores deliver to every member and answer from their union',
 """Collecting into a combined store passes the same span and annotations once to each member in order until one fails, whose error is returned; reading a trace returns the first member's answer that is not
 "trace not found", and "trace not found" only if every member says so.
 A combined listing passes the caller's options to each member and returns each trace exactly once, from the first member listing it, or the first member error; the in-memory store's own listing
 returns exactly the stored traces, restricted to the requested trace IDs when any are given.""",
 ['inputs', 'configurations', 'fault_sequences'],
 """Every number and nesting of member stores, every overlap of their contents, every placement of member errors, every listing option.""",
 """The tests use two members, without errors, overlap or options.""",
 ['multi.go', 'store.go'],
 [('fan-out, first-hit lookup and union by trace ID', 'multi.go multiStore, multiQueryer'), ('listing filter', 'store.go MemoryStore.Traces')],
 ['calls received by member stores', 'results of Collect/Trace/Traces'])

prop('C08', 'Batched collection forwards everything exactly once, grouped and in order',
 """Every annotation accepted by the batching collector while no queue limit is exceeded and it is not stopped is forwarded to the underlying collector exactly once, under the span it was collected for,
 and none is invented, whether flushed by the timer, by hand, or concurrently by several callers.
 Each flush makes exactly one underlying call per pending span, carrying that span's annotations in the order their collections completed; a span collected with no annotations is forwarded too.
 A failing underlying call affects only that call: the other spans of the flush are still forwarded, and nothing already handed over is sent again.""",
 ['schedules', 'histories', 'fault_sequences', 'inputs'],
 """Every interleaving of collections and flushes from any number of goroutines, every assignment of annotations to spans, every underlying error and delay.""",
 """The tests use at most one producer, one flush and a fixed pair of spans; no concurrency between Collect, manual Flush and the periodic flush, and no failures.""",
 ['collector.go'],
 [('pending map swapped out under the lock', 'collector.go ChunkedCollector.Collect/Flush')],
 ['Collect calls at the underlying collector', 'OnFlush', 'return values of Collect and Flush'],
 [('pendingBySpanID', 'queued annotations per span', 'collector.go ChunkedCollector')])

prop('C09', 'Batching limits hold and every drop is reported',
 """With a queue size limit, the bytes queued (24 per collection plus key and value lengths) never exceed the limit: a collection that would exceed it drops the whole queue and itself and returns the
 queue-dropped error, a collection that exactly reaches it is kept, and later collections are queued normally again.
 With a flush timeout, once the time spent in a flush exceeds the timeout after an underlying call, no further underlying call is made by that flush, the rest of its spans are dropped for good, and the flush reports the
 queue-dropped error; without the timeout being exceeded nothing is dropped. A limit of zero never drops anything, and a flush with failures returns an error.""",
 ['inputs', 'histories', 'fault_sequences'],
 """Every sequence of collection sizes around the limit, every flush timeout and every latency of the underlying collector, in virtual time.""",
 """The tests check one far-over-limit collection and one real-time timeout.""",
 ['collector.go'],
 [('size accounting', 'collector.go ChunkedCollector.Collect'), ('elapsed-time check', 'collector.go ChunkedCollector.Flush')],
 ['return values', 'calls at the underlying collector', 'OnFlush queue size'])

prop('C10', 'Batching starts, flushes on time, reports errors once, and stops safely',
 """Data collected is handed to the underlying collector no later than one minimum interval after it was collected if flushing itself takes no time, collecting never waits for the underlying collector, and
 the flush callback runs at the start of every flush with the number of spans about to be forwarded.
 The latest error of the periodic flushes since the last collection is returned by exactly one later collection (whose data is queued nevertheless).
 Stop may be called at any time and any number of times, including before the first collection, never blocks on the underlying collector or panics; afterwards collecting fails and no new periodic flush begins.""",
 ['schedules', 'histories', 'fault_sequences'],
 """Every virtual-time schedule of Collect, Flush, Stop and underlying errors and delays, including Stop before first use, repeated and concurrent Stop.""",
 """The tests stop one started collector once, and rely on real sleeps.""",
 ['collector.go'],
 [('periodic goroutine and stop channel', 'collector.go ChunkedCollector.start/Stop'), ('last error hand-over', 'collector.go ChunkedCollector.Collect')],
 ['virtual time of underlying calls', 'return values', 'OnFlush', 'goroutines left after Stop'])

prop('C11', 'Remote collection delivers exactly what was sent, in the public wire format',
 """Every span ID and annotation list collected through a remote collector over a healthy TCP or TLS connection reaches the collector behind the server exactly once, unchanged, in order per client, for all IDs, keys and values
 up to the 1 MiB message size, from any number of concurrent callers and clients, and however the byte stream is fragmented.
 A message too large for the server is refused with an error rather than reported as sent, and later collections still arrive.
 The bytes exchanged are the published length-delimited protobuf format, so independently written clients and servers interoperate in both directions, including clients that omit the optional parent ID.""",
 ['inputs', 'schedules', 'configurations'],
 """Every span ID and annotation content, every interleaving of concurrent collectors on shared and separate connections, every fragmentation of the stream, TCP and TLS.""",
 """The tests send two tiny packets through a mocked or local connection; no concurrency, fragmentation, size boundary, or independent encoder.""",
 ['collector.go', 'span.go', 'internal/wire/collector.proto'],
 [('delimited protobuf messages', 'collector.go RemoteCollector.collect, CollectorServer.handleConn'), ('wire conversion', 'span.go SpanID.wire/spanIDFromWire/Annotations.wire')],
 ['calls at the collector behind the server', 'raw bytes on the connection', 'return values of Collect'])

prop('C12', 'Remote collection recovers from connection failures without corrupting data',
 """When the connection to the server fails, collections neither panic nor hang; each returns nil or an error, and after the server is reachable again a bounded number of further collections
 re-establishes a connection over which collections succeed and arrive.
 Whatever fails, each connection carries a prefix of a sequence of whole messages as they were collected, never interleaved or altered, and the server never receives a message that was not collected.
 No message is delivered twice unless the connection failed while it was being sent, and a collection that cannot reach any server returns an error.""",
 ['fault_sequences', 'schedules', 'crash_points'],
 """Every sequence of refused dials, resets and closes at any byte or message boundary, and stalls, with any number of concurrent callers.""",
 """No test makes a connection fail.""",
 ['collector.go'],
 [('retry once on a fresh connection, under one lock', 'collector.go RemoteCollector.collectAndRetry/connect')],
 ['raw bytes received per connection', 'return values of Collect'])

prop('C13', 'The collector server survives any client and any accept error',
 """Whatever bytes a client sends (garbage, truncated, oversized or incomplete messages, abrupt close), the server never crashes or hangs: it ends at most that client's connection, never passes on a span the client did not completely and validly send,
 and collects every valid message that precedes the invalid one, exactly once and in order.
 Other clients are unaffected, including while some clients stall or the collector fails for one of them, and a length prefix above the 1 MiB limit is rejected without waiting for or buffering the data.
 Temporary accept errors do not stop the server, and it stops serving without spinning once its listener is closed.""",
 ['inputs', 'schedules', 'fault_sequences'],
 """Every byte sequence on a connection, every fragmentation and stall, concurrent good and bad clients, every sequence of accept errors.""",
 """No test sends malformed data, and none makes Accept fail.""",
 ['collector.go', 'span.go'],
 [('per-connection goroutine with size-limited reader', 'collector.go CollectorServer.Start/handleConn')],
 ['calls at the collector behind the server', 'connection close seen by the client', 'process survival'])

prop('C14', 'A recorder reports its span once, complete, and accounts for every error',
 """A recorder sends no event before it is finished; finishing makes exactly one call to the collector carrying the annotations of every event recorded, in recording order, under the recorder's span ID, each
 event still recognisable by its schema; raw annotations are forwarded at once.
 Finishing again never repeats the data and is reported as an error, and every marshalling or collector error is reported exactly once: to the logger if one is set, otherwise by the next request for errors, which
 empties the list.
 A child recorder gets a fresh span ID in the same trace with this span as its parent, and the same collector, and recorders never affect each other.""",
 ['histories', 'fault_sequences', 'inputs'],
 """Every sequence of Name/Msg/Log/Event/Annotation/Finish/Errors/Child calls, every event content, and every pattern of collector and marshalling failures.""",
 """The tests record one or two events with a collector that always succeeds, or one error.""",
 ['recorder.go', 'event.go'],
 [('buffer until Finish', 'recorder.go Recorder.Event/Finish'), ('error list', 'recorder.go Recorder.error/Errors')],
 ['Collect calls', 'Errors()', 'logger output'])

prop('C15', 'Span IDs survive text and JSON, and generated IDs are unique',
 """Every ID and span ID converts to text and to JSON and back without change, JSON integers are accepted as well as hex strings, and the text form is the slash-separated 16-digit hex of trace, span and, if nonzero, parent.
 Parsing is total: every string either yields the span ID its 2 or 3 hex fields denote or an error, never a panic or a wrong value.
 Generated IDs never repeat, also when generated concurrently; new roots have no parent and fresh trace and span IDs, and new children keep the trace and have the given span as parent.""",
 ['inputs', 'schedules'],
 """All 64-bit IDs, all strings and JSON documents, every interleaving of concurrent generation.""",
 """The tests convert a few fixed IDs and generate IDs from one goroutine.""",
 ['id.go', 'span.go'],
 [('hex formatting and parsing', 'id.go ID.String/ParseID, span.go SpanID.String/ParseSpanID'), ('locked keystream generator', 'id.go generateID')],
 ['return values'])

prop('C16', 'Events survive being turned into annotations and back',
 """Marshalling an event and unmarshalling the annotations into the same event type gives back equal field values, for every value of its booleans, integers, unsigned integers, floats, strings, times, nested structs, string maps and
 slices (times to the same instant, zero-length maps and slices as nil), for times of the years 0 to 9999, durations up to ten days and values without pointer cycles, in the presence of other annotations and of the annotations of other events whose keys do not coincide with its own, in any order.
 Unmarshalling all events from a span's annotations finds each registered event whose schema is present, once per schema mark and in their order, and ignores unknown schemas; unmarshalling into an event whose schema is absent returns
 a schema error naming it.
 No such event value, and no annotation list whatever its keys and values, makes marshalling panic or makes unmarshalling into the built-in, HTTP or SQL events crash.""",
 ['inputs'],
 """Every value of every supported event type, every list of annotations with arbitrary keys and values.""",
 """The tests round-trip a few fixed values of a few types.""",
 ['event.go', 'reflect.go', 'httptrace/client.go', 'httptrace/server.go', 'sqltrace/sql.go'],
 [('reflective flattening to dotted keys', 'reflect.go flattenValue/unflattenValue'), ('schema marks', 'event.go MarshalEvent/UnmarshalEvent(s)')],
 ['MarshalEvent', 'UnmarshalEvent', 'UnmarshalEvents'])

prop('C17', 'HTTP tracing propagates the span identity across processes',
 """For every request sent through the tracing transport, the server-side middleware sees a span that belongs to the client recorder's trace and has the client recorder's span as parent, distinct for every request; a request carrying a
 Span-ID is recorded under exactly that ID, one carrying only a Parent-Span-ID under a fresh child of it, and one carrying neither under a fresh root.
 A malformed header never fails or alters the request: it is handled normally under a fresh root span.
 The handler can obtain the span ID from the request (or through the configured callback), it is the ID the event is collected under, and the middleware places it in the response headers.""",
 ['inputs', 'schedules', 'configurations'],
 """Every span ID and every header value, valid or not, every configuration of the middleware, concurrent requests over one transport.""",
 """The tests use one fixed valid header, one request at a time; malformed headers are never sent through the middleware.""",
 ['httptrace/header.go', 'httptrace/client.go', 'httptrace/server.go'],
 [('Span-ID and Parent-Span-ID headers', 'httptrace/header.go getSpanID, client.go RoundTrip, server.go Middleware')],
 ['headers seen by the wrapped transport and handler', 'Collect calls'])

prop('C18', 'HTTP tracing is transparent and records what really happened',
 """Adding the client transport or server middleware changes nothing the peer or handler can observe except the span ID headers: method, URL, headers, body, status, flushes and errors pass through unchanged, the caller's request is
 not modified, and the wrapped handler or transport runs exactly once per request.
 For every request whose handler returns, and every round trip, exactly one event is collected: its status code is the one that reached the client (200 if the handler set none, -1 if the client's round trip failed), its server-side length is the number of body bytes that were written,
 method, URI, host, headers, route and user are those of the request, its span is named after it (server: route, else URL; client: host), and its start and end bracket the request.""",
 ['inputs', 'schedules', 'fault_sequences'],
 """Every request and response, every sequence of handler writes, status calls, informational statuses, flushes and write failures, failing round trips, concurrent requests on a shared transport.""",
 """The tests perform one simple request and one simple handler write.""",
 ['httptrace/client.go', 'httptrace/server.go'],
 [('request clone', 'httptrace/client.go Transport.RoundTrip'), ('recording response writer', 'httptrace/server.go responseInfoRecorder')],
 ['bytes and headers at both ends', 'collected events'])

prop('C19', 'Secrets in redacted headers never reach the collector',
 """The value of a header or trailer named in the redaction list, in whatever letter case and however many values it has, never appears in any annotation of the collected client or server event, in requests as well as responses; it is
 recorded as REDACTED.
 Every other header is recorded with all its values joined by commas.""",
 ['inputs', 'configurations'],
 """Every header set, every spelling of header names, every redaction list, request and response headers and trailers, client and server side.""",
 """One test redacts one canonical header of one request.""",
 ['httptrace/client.go'],
 [('redaction when copying headers', 'httptrace/client.go redactHeaders/isRedacted')],
 ['annotations collected'])

prop('C20', 'OpenTracing spans are recorded faithfully and only when sampled',
 """Every finished sampled OpenTracing span is collected under its own trace, span and parent IDs with its operation as the span name, every tag and baggage item with its value's default text form, every log (up to 100 per span, with distinct field names) with its time and fields, and a timespan from its start to start plus duration; unsampled spans produce no collection at all, and the sampling decision is the same for all spans of a trace (unless overridden by a sampling-priority tag).
 Span context injected into a text or binary carrier and extracted elsewhere continues the same trace with the right parent.
 Collector errors never fail the traced program: they are logged, once by default or every time when verbose.""",
 ['inputs', 'schedules', 'fault_sequences', 'configurations'],
 """Every span content and nesting, sampling function, concurrent spans, and collector failures.""",
 """The tests record one or two hand-built spans with a collector that succeeds.""",
 ['opentracing/recorder.go', 'opentracing/tracer.go', 'opentracing/json.go'],
 [('conversion of raw spans', 'opentracing/recorder.go Recorder.RecordSpan'), ('log fields as JSON', 'opentracing/json.go materializeWithJSON')],
 ['Collect calls', 'logger output'])

prop('C21', 'The whole pipeline is free of data races under concurrent use',
 """Using any of the collectors, stores, servers, ID generation, event marshalling, HTTP transport and middleware, OpenTracing tracer and web UI from several goroutines at once, while other goroutines read, list, persist, evict or delete
 the same traces, involves no unsynchronised access to shared memory inside the library or to what it returns, and never corrupts its state, deadlocks or crashes.""",
 ['schedules'],
 """Every interleaving of the public operations documented or meant for concurrent use across the whole pipeline.""",
 """The tests are almost entirely sequential and are not run with a race detector.""",
 ['store.go', 'collector.go', 'id.go', 'reflect.go', 'event.go', 'httptrace/client.go', 'opentracing/recorder.go', 'traceapp/app.go', 'traceapp/tmpl.go'],
 [('mutexes in each component', 'store.go, collector.go, id.go, reflect.go, httptrace/client.go, traceapp/tmpl.go')],
 ['happens-before instrumentation of every memory access', 'goroutine states', 'process survival'])

prop('C22', 'Collected data is isolated from the caller and between spans and stores',
 """Once a collection returns, changing the elements of the annotation slice that was passed, extending it, or reusing its spare capacity for another collection, never changes what was recorded or forwarded for that or any other span, and collecting
 never writes into the caller's slice.
 Changing a trace returned by the in-memory store never changes the store, and the same annotations given to several stores or spans stay independent.""",
 ['histories', 'inputs', 'schedules'],
 """Every sharing pattern of annotation slices (spare capacity, sub-slices, repeated use) between caller, spans, batching collector, recorder and stores.""",
 """The tests always pass fresh literals and never touch them again.""",
 ['store.go', 'collector.go', 'recorder.go'],
 [('copying the slice when it is kept', 'store.go MemoryStore.collectNoLock, collector.go ChunkedCollector.Collect')],
 ['contents read back after mutating the caller\'s memory', 'caller\'s backing array'])

prop('C23', 'Exported traces and permalinks re-import as the same trace',
 """The JSON shown for a trace in the web UI, uploaded to an empty server, and the trace's permalink, opened on an empty server, each recreate a trace with one root equal to the original in structure, span IDs and annotations, whatever bytes the annotation values contain and for all UTF-8 keys.
 Importing a trace whose ID is already present changes nothing, also when repeated or when several clients import it at once. Importing malformed data is answered with an error, leaves the server working, and never alters existing traces, and an import is not acknowledged unless all of it was stored.""",
 ['inputs', 'histories'],
 """Every stored trace shape and content, every sequence of uploads and permalink visits, every malformed document.""",
 """The web UI package has no tests for this, and none of its code is built by the test suite here.""",
 ['traceapp/app.go', 'traceapp/trace.go', 'id.go', 'trace.go'],
 [('JSON and gzip+base64 encoding', 'traceapp/app.go serveTrace/serveTraceUpload/uploadTraces'), ('recursive collection', 'traceapp/trace.go collectTrace')],
 ['HTTP responses', 'contents of the store'])

prop('C24', 'Profiles, aggregates and timelines add up to the recorded times',
 """The JSON profile of a trace or sub-span (for timespans with both times set) lists every span of that tree exactly once in depth-first order, each with its own time (its longest timespan in milliseconds, rounded), the sum of its own and its direct
 children's times, and the sum over its whole subtree.
 The aggregate view's total per label equals the sum of the corresponding profile times over exactly the selected traces, each counted once, shown as 1 when zero.
 The timeline gives each shown span start and end times equal to its recorded ones in milliseconds, with the right label (and its own duration), span and parent, and shows every span once when all have a name and a timespan; at first those of the page's span and its direct children. Its sort buttons order it by what they name (pressed again, the other way round), its menu shows, hides or filters exactly the descendants of a span, and a span leads to its own page. The dashboard's data gives the figures of each aggregate in milliseconds for the requested hours and links to exactly its slowest traces.""",
 ['inputs'],
 """Every trace tree, names, timespans (several per span, none, overlapping, sub-millisecond), selection and aggregation mode.""",
 """No test covers these computations in the test suite that runs here.""",
 ['traceapp/prof.go', 'traceapp/aggregate.go', 'traceapp/vis.go'],
 [('recursive summation', 'traceapp/prof.go calcProfile, aggregate.go aggregate, vis.go d3timeline')],
 ['JSON profile response', 'data embedded in the aggregate and trace pages'])

prop('C25', 'The web UI shows the right traces, answers every request, and escapes data',
 """The trace list shows exactly the stored traces, or exactly the requested ones when a list of at least one valid ID is given, and a trace or sub-span page shows that trace or sub-span with its annotations (internal ones, whose key is empty or starts with an underscore, aside); an unknown or malformed ID is answered with an error
 status.
 Every request, whatever its path, query, method or body (if net/http accepts it as a request), receives a complete HTTP response without crashing the server or affecting later ones.
 Names, keys and values collected from clients never appear unescaped as markup or script in any page, nor do the pages' own scripts insert them as such. What the pages refer to lies under the configured base URL.""",
 ['inputs', 'histories'],
 """Every store content including hostile strings, every request.""",
 """The web UI has no tests in the suite that runs here.""",
 ['traceapp/app.go', 'traceapp/handler.go', 'traceapp/httputil.go', 'traceapp/tmpl.go', 'traceapp/router.go'],
 [('buffered responses with error and panic recovery', 'traceapp/handler.go, httputil.go'), ('contextual escaping templates', 'traceapp/tmpl.go')],
 ['HTTP responses'])

prop('C26', 'With basic auth configured, nothing is served without the exact credentials',
 """When the server command is started with a nonempty HTTP basic auth setting, a request is served if and only if it carries exactly the configured user and password; every other well-formed request (OPTIONS * aside, which net/http answers), whatever its path, method or authorization header, gets status 401 with a
 challenge, reveals nothing and changes nothing.
 A basic-auth setting without both a user and a password is refused at start-up rather than served unprotected.""",
 ['inputs', 'configurations'],
 """Every request and authorization header, every configured user and password including ones containing colons and non-ASCII bytes.""",
 """The server command has no tests and is not built by the test suite here.""",
 ['cmd/appdash/serve_cmd.go'],
 [('handler wrapping the whole web app', 'cmd/appdash/serve_cmd.go basicAuthHandler')],
 ['HTTP responses of the running command', 'exit status'])

prop('C27', 'The server command serves what it collected, also after a kill and restart',
 """A running server command makes every span it receives on its collector port available through its web UI and persists it, so that after being killed at any moment and restarted with the same store file it starts up and again serves every trace that
 was in a completed save, with new spans of those traces joining them.
 With an age limit set, traces younger than the limit are never deleted and older ones, however they came in, are as further spans arrive; with TLS configured, both ports speak only TLS; its pages link back to the scheme and address they are reached by, or to the URL configured; a corrupt store file is refused with an error at start-up and left as it was.""",
 ['crash_points', 'histories', 'configurations'],
 """Every kill moment, every collected data, restart sequences, plain and TLS configurations.""",
 """The server command has no tests and is not built by the test suite here.""",
 ['cmd/appdash/serve_cmd.go', 'store.go', 'collector.go'],
 [('load at start, periodic persistence, collector server and web app on one store', 'cmd/appdash/serve_cmd.go ServeCmd.Execute')],
 ['HTTP responses before and after restart', 'store file', 'exit status'])

prop('C28', 'Reading helpers agree with the trace data',
 """Looking up a span in a trace returns the node with that span ID if the tree contains one, and nothing otherwise; the text and tree renderings of a trace mention every span once at its depth with all its annotations; the span's name is its
 first name annotation, and the annotation map contains exactly the keys present, each with one of its values.
 The timespan of a span is the earliest start and latest end over all of its recorded timespan events (at most one of each schema per span; those with unset times aside), and an error if it has none.""",
 ['inputs'],
 """Every tree shape, ID and annotation content, every set of timespans.""",
 """The tests use a couple of fixed trees and one pair of timespans.""",
 ['trace.go', 'span.go'],
 [('recursive search and rendering', 'trace.go Trace.FindSpan/TreeString'), ('minimum and maximum over events', 'trace.go findTraceTimes')],
 ['return values'])

prop('C29', 'The Python client speaks the same wire format',
 """Every annotation sent by the bundled Python client, synchronously or through Twisted, arrives at the Go collector server unchanged and framed as one message per collection.""",
 ['inputs', 'configurations'],
 """Every span ID and annotation content sent by the Python client.""",
 """The Python client has no automated tests.""",
 ['python/appdash/__init__.py', 'python/appdash/sockcollector.py', 'python/appdash/twcollector.py'],
 [('length-delimited protobuf encoding', 'python/appdash')],
 ['calls at the collector behind the server'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
