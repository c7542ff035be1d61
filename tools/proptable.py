"""How each property's monitors are built and run."""
# (GOMAXPROCS, yield with probability 1/n per statement, one in n yields sleeps)
CONC = [(1, 7, 0), (1, 40, 0), (2, 5, 0), (2, 50, 0), (4, 11, 0), (4, 0, 0), (8, 23, 0), (8, 0, 0)]
SLEEPY = [(1, 7, 0), (2, 5, 7), (2, 50, 3), (4, 11, 0), (4, 9, 9), (8, 0, 0), (8, 23, 5), (3, 15, 0)]
SEQ = [(2, 0, 0)] * 8

BASE = ['the race detector and the Go runtime of go1.27.3 are trusted',
        'claims cover only the executions counted here']
PROPS = {}


def P(id, rule, bin='core', race=True, yields=True, shards=CONC, races_decide=True, level='exploration', assumptions=(), **kw):
    PROPS[id] = dict(rule=' '.join(rule.split()), bin=bin, race=race, shards=shards, races_decide=races_decide, level=level,
                     assumptions=list(assumptions) + BASE, **kw)
    PROPS[id]['yield'] = yields


P('C01', """Random span sets (acyclic, orphaned, self-parented, cyclic, multi-root; extreme and colliding IDs) collected piecewise in random order, interleaved over traces;
  the tree is read back and compared with the reference shape at several points; traces of thousands of spans and hundreds of annotations per span. Non-trivial: at least two spans were compared against the reference; distinct by operation sequence.""",
  race=False, yields=False, shards=SEQ, races_decide=False)
P('C02', """Short random concurrent histories of Collect/Trace/Traces/Delete with unique annotation values, checked for linearizability against a sequential map of spans to annotation lists (porcupine);
  every returned trace is re-read after further operations. Longer reader/writer sessions are checked for monotonic, read-your-writes reads and conservation. Non-trivial: more than two operations; distinct by clients' operation order (interleaving).""",
  assumptions=['a history the checker cannot decide in 30 s counts as unknown, not as held; the count is in the evidence'])
P('C03', """Random stores (any tree shape, deletions) saved at a random point, loaded (into an empty or used store, with fragmented reads) and compared with the never-saved original after every further operation; every (or, for long data, every n-th) truncation point, injected read errors and
  altered bytes must leave the receiver unchanged when loading fails; stores of thousands of traces or spans, and one store saved and loaded again and again between changes of every kind. Non-trivial: at least one trace saved; distinct by operation sequence and save point.""",
  race=False, yields=False, shards=SEQ, races_decide=False)
P('C22', """Random sharing of backing arrays with spare capacity between calls, spans, pipelines (in-memory, recent, limited, combined, batching, batching onto a retaining collector) and overwriting of the caller's memory; returned trees are vandalised;
  contents are compared with copies taken before each call. Non-trivial: at least one collection compared; distinct by step sequence.""")
P('C04', """Virtual time: PersistEvery runs on a store whose Write the monitor controls; the target file is read and judged at every chunk written, between saves and after injected failures, with several temporary and target directories, and with changes between saves that do not change the size.
  Real time: readers load the file continuously while one sequence of items is collected over several traces; child processes are killed while saving, or limited in file size. A file content is right if it is the previous one or loads as exactly the items 1..k with k not decreasing,
  not below the items collected before the last finished save, and not above those collected. Non-trivial: every case that reached its failing save or kill; distinct by configuration and observed counts.""",
  race=False, shards=[(2, 0, 0), (4, 11, 0), (2, 5, 0), (1, 0, 0), (8, 23, 0), (4, 0, 0), (2, 40, 0), (8, 0, 0)], races_decide=False,
  assumptions=['a kill of the process is modelled, not a power failure (no fsync is claimed)'])
P('C05', """Collections at virtual times on, just before and just after multiples of the minimum age, with slow underlying stores, failing in several ways, and thousands of traces; goroutines collecting concurrently in virtual time and in real time with slow deletions. The underlying store judges every deletion
  (too young, data of the triggering or a later collection) and after every collection what should be gone. Non-trivial: at least one eviction; distinct by time steps and counts.""")
P('C06', """Random collections over more trace IDs than fit (0, 2^63 and above included) with injected Delete and Collect failures of several kinds (before or after the effect, wrapped, per call), compared step by step with a FIFO model (contents, errors, number of deletions);
  concurrent collections with the size watched at every step and conservation at the end. Non-trivial: at least one eviction or capacity 0; distinct by configuration and counts.""")
P('C07', """Random nestings of combined stores and queryers over members whose answers and errors are chosen at random, compared with a reference; listings of in-memory stores compared with what was collected, for random lists of IDs; many members, many traces.
  Non-trivial: at least one member; distinct by configuration.""", race=False, yields=False, shards=SEQ, races_decide=False)
P('C08', """Producers, manual flushers and the periodic flush run concurrently with failing and slow underlying calls, also with thousands of pending spans; every forwarded annotation is matched with the one collected (exactly once, right span, whole, completion order within a call, calls = spans announced).
  In virtual time every flush is followed step by step against the exact pending contents; underlying collectors take long, or call back into the collector. Non-trivial: at least one underlying call; distinct by step sequence or observed counts.""")
P('C09', """Step-by-step model of queue size and flush time in virtual time, with collections sized to reach or just pass the limit and underlying latencies around the timeout; concurrent collectors with the bytes of every flush measured and accepted/dropped/forwarded counts reconciled. Flushes of slow collections that overlap, in virtual time, each timed and accounted on its own.
  Non-trivial: at least one underlying call; distinct by step sequence or observed counts.""")
P('C10', """Virtual-time schedules of collections, flushes, errors, latencies and Stop with deadlines for every queued item; an underlying collector blocked in real time while Collect and Stop must return; concurrent collections after a failed flush; Stop before use, repeated and concurrent.
  Non-trivial: at least one underlying call or early Stop; distinct by step sequence or observed counts.""",
  assumptions=['a periodic flush in the very instant of Stop counts as begun before it'])
P('C11', """Random span IDs, keys and values (arbitrary bytes, sizes around and beyond 1 MiB) sent by several clients with several concurrent callers over loopback TCP and TLS, read by the server in fragments; every message that arrives is
  matched with the one sent, in order per caller. Connections idle for long (virtual time) and many thousands of messages on one. An independent decoder judges the bytes a client sends and an independent encoder (optional fields left out, unknown fields, reordered fields) feeds the server. Non-trivial: at least one message compared; distinct by arrival order.""")
P('C12', """A server under the monitor's control ends connections (FIN or RST) at chosen byte counts, stops listening and listens again on the same address (TCP and TLS) while several callers collect and sometimes Close; every connection's bytes are decoded and judged
  (whole collected messages plus a prefix of one; duplicates only of the message being sent when the connection failed; order per caller), then recovery and unreachability are checked. Non-trivial: every case; distinct by phases, connections and messages observed.""",
  assumptions=['a server that is reachable but neither reads nor closes is not a failed connection'])
P('C13', """Raw clients send valid messages followed by one of sixteen kinds of hostile bytes (truncations, missing required fields, garbage, nesting, bit flips, abrupt close) over TCP and TLS with fragmented reads; an independent decoder decides what may be collected, and the next client must be served.
  Oversized length prefixes on connections held open; scripted listeners with accept errors, then closed; thousands of accept errors in a row; correct clients beside stalled, failing and blocking ones and, with TLS, ones that make no handshake, and clients idle for long (virtual time). Non-trivial: every case; distinct by kind, sizes and arrival order.""",
  assumptions=['a group ended by another group\'s end tag may count as valid (the protobuf library does not compare them)'])
P('C14', """Random sequences of events, failing marshalers, raw annotations, children, error requests and repeated finishes on several recorders over a collector that fails at random, in virtual time; every collector call, logger line and returned error is matched with a model.
  Recorders used in parallel over one collector; recorders with thousands of failures. Non-trivial: every case; distinct by operation sequence.""")
P('C15', """IDs of every bit and random shape through text and JSON; arbitrary and near-valid strings parsed and compared with an independent reading; IDs generated by up to eight goroutines, by several processes, and in one long sequence searched for repetition.
  Non-trivial: every case; distinct by strings and IDs.""", yields=False)
P('C16', """Twelve event types (all built-in, HTTP and SQL ones and types with every field kind, named types, nesting, field names that are prefixes of each other) filled with extreme and random values, marshalled, mixed with other annotations and events, shuffled, unmarshalled and compared field by field;
  lists of several events and unknown schemas; hostile annotation lists; values with nil pointers, interfaces, functions. Non-trivial: every case; distinct by annotations.""",
  race=False, yields=False, shards=SEQ, races_decide=False,
  assumptions=['times of the years 0 to 9999; durations below ten days; keys of other annotations do not name or nest in the event\'s own'])
P('C17', """Requests with valid, malformed and missing Span-ID and Parent-Span-ID headers through the middleware, also in the context of another handled request; requests through the transport over a scripted one; concurrent requests over real servers that call a second server.
  The span of the handler, of the callback, of the collected event and of the headers are compared with the one the header calls for. Non-trivial: every case; distinct by headers, or by order of handling.""",
  assumptions=['the middleware sets the Span-ID response header after the handler, so it is on the wire only if the handler has not sent the headers yet'])
P('C18', """Scripted handlers (statuses including informational and repeated ones, short and failing writes, flushes) and scripted round trips in virtual time, compared call by call with the same script without tracing, and their events with what happened;
  real requests over loopback with and without tracing on both sides, concurrently on one transport and cancelled concurrently, compared byte for byte as client and handler observe them. Non-trivial: every case; distinct by script.""",
  assumptions=['handlers that neither panic nor change their request; optional interfaces of the response writer other than Flusher are not claimed'])
P('C19', """Headers and trailers of requests and responses with unique values, in any spelling and multiplicity, under random redaction lists, through transport and middleware and over the wire; everything collected is searched for the values of redacted ones.
  Non-trivial: every case; distinct by headers and list.""")
P('C20', """Finished spans with arbitrary IDs, times, tags, baggage and log fields recorded directly; sequences of starts, children, carriers, tags, baggage, logs and finishes over two tracers in virtual time, compared with a model of every span;
  spans with hundreds of tags, items and logs or values of hundreds of kilobytes; spans finished concurrently; collectors that fail at random or always, with the logger's lines counted. Non-trivial: every case; distinct by span contents or steps.""",
  assumptions=['at most 100 logs per span, distinct field names per log, and no sampling-priority tag among the options a span is started with (the basictracer library keeps it as an ordinary tag there)',
               'floating-point log fields are not compared (they are printed with six decimals)'])
P('C28', """Random trees (deep, wide, repeated IDs, ID 0) searched for every span and for absent ones; their tree and JSON renderings parsed and compared span by span; names and maps of random annotation lists; timespans of random sets of timespan events in any order and time zone.
  Non-trivial: every case; distinct by tree or annotations.""", race=False, yields=False, shards=SEQ, races_decide=False,
  assumptions=['at most one event of each schema per span (events of one schema on one span share their annotation keys)', 'a timespan event whose times are both unset does not count'])
P('C23', """Random traces (any annotation bytes, orphans, spans naming themselves) are exported from the trace page (both forms), the list and as permalink by parsing the served HTML, imported into empty servers and compared, twice round, alone and together;
  present traces are imported again (also with other contents, by several clients at once); ten kinds of damaged uploads and permalinks are imported beside existing traces; imports into a store that fails must be reported and the rest kept. Non-trivial: every case; distinct by traces or damaged data.""", bin='app',
  assumptions=['annotation keys are valid UTF-8 (JSON has no other strings)', 'the trace has one root span'])
P('C24', """Random traces whose spans have up to three timespan events of known times (lengths of zero, near half milliseconds, negative, up to 100 days) are shown by the web UI, up to thousands of spans; the profile JSON, the aggregate page's and the timeline's data are parsed out of the served
  pages and compared with sums computed from what was recorded, again after every change of a store that grows, shrinks and is replaced, and through a browser that caches what it may; the page's scripts are run (node, over elements that record what is done with them) and the timeline must show the right spans, in order, after each of many sorts, menu actions and filters; dashboard rows are compared with the aggregator's results. Non-trivial: every case; distinct by what was shown.""", bin='app', race=False, yields=False, shards=SEQ, races_decide=False,
  assumptions=['timespan events have both times set (except in the timeline), in years whose times fit 64-bit nanoseconds, and lengths up to 100 days', 'at most one event of each schema per span'])
P('C25', """Random stores are listed (all, or a list of IDs with repeated, unknown and malformed entries) and their trace and span pages read by parsing the HTML; raw requests of any method, path, query and body are sent to a server by several clients; stores fail at times; stores of thousands of traces and spans; stores that change between pages, also seen through a browser that caches what it may.
  Every page of a store whose names, keys and values are markup or script is compared, element by element and script by script, with the same page of harmless data; the pages' scripts are run (node, over elements that record what is done with them), visitors hover, click, sort, filter and open menus, and no recorded name may reach a place that takes markup. Non-trivial: every case; distinct by requests and data.""", bin='app',
  assumptions=['annotations whose keys are empty or start with an underscore are internal and not shown', 'the static assets (not available offline) are replaced by an empty file system'])

P('C26', """The server command itself runs with random credentials (colons, spaces, other bytes than ASCII), with and without TLS; several clients send requests of any method and path with the credentials or one of 28 kinds of near misses and with unrelated headers (forwarding, CORS, upgrades, overrides), mixed on one connection;
  answers, what they reveal and what is stored afterwards are checked. Settings without user or password must make it exit. Non-trivial: every case; distinct by requests.""", bin='app', cmd=True, race=True, yields=False, shards=SEQ,
  assumptions=['how leniently the scheme name and the base64 of right credentials are read, requests with several Authorization headers, malformed requests and OPTIONS * (answered by net/http itself) are left open'])
P('C27', """The server command runs with a store file saved every few milliseconds; spans arrive over several connections and uploads while the web UI is read; it is killed at random moments (also during start-up), what the file then holds is compared with what was collected, and a restarted
  command must show exactly that and merge new spans into it. Age limits are watched with every listing timed; with TLS both ports are talked to in plain text; links are followed from page to page, plain and TLS, on IPv4, IPv6 and all addresses and under a configured URL; damaged store files must be refused and stay as they are. Non-trivial: every case; distinct by data and kill points.""",
  bin='app', cmd=True, race=True, yields=True, shards=SLEEPY,
  assumptions=['a kill of the process is modelled, not a power failure', 'a condition counts as never reached when the running command has answered more than 100 polls over 20 s without it'])

P('C21', """All components run at once over one (possibly stacked and combined) store: direct, batching and remote collection, recorders, traced HTTP clients and handlers, OpenTracing spans, every page of the web UI, uploads, reads and listings whose results are read and altered, saving and loading, ID generation,
  event marshalling, flushing, and in half of the cases deletion, eviction, reloading, stopping and closing; and first uses by several goroutines of new types, applications and zero-valued stores. The race detector, a deadlock watchdog and, without deletions, exact conservation of unique tokens decide.
  Non-trivial: every case; distinct by order of operations.""", bin='app', shards=SLEEPY,
  assumptions=['one recorder or OpenTracing span is used by one goroutine at a time (its children by any), as documented for recorders', 'configuration fields are not changed after first use'])

NA = {
    'C29': 'The bundled client is Python 2 only (print statements, str as bytes, Twisted and protobuf for Python 2) and neither a Python 2 interpreter nor its dependencies are installed, so its code cannot be executed, and run-time monitoring decides nothing without executions.',
}
TECH = {
    'C01': 'randomised workload, monitor comparing read trees with a reference tree',
    'C02': 'race detector, linearizability checker over recorded concurrent histories, session monitors',
    'C03': 'differential monitor: saved-and-loaded store against the original, truncation and read-fault injection',
    'C04': 'file monitors at every write of a save (virtual time), concurrent readers, kill -9 and write-fault injection',
    'C05': 'virtual-time trace monitor over the calls reaching the underlying store; race detector for the concurrent part',
    'C06': 'step-by-step FIFO model monitor with fault injection; race detector, online capacity and conservation monitors under concurrency',
    'C07': 'differential monitor against a reference union/fan-out over scripted member stores',
    'C08': 'exactly-once/ordering checker over recorded concurrent executions, race detector, virtual-time flush monitor',
    'C09': 'virtual-time model monitor of queue size and flush time, concurrent conservation monitor, race detector',
    'C10': 'virtual-time deadline monitor, blocked-collector liveness monitor, race detector',
    'C11': 'end-to-end exactly-once/order monitor over loopback TCP and TLS with independent codec as oracle, race detector',
    'C12': 'fault-injecting server recording every connection, offline checker over the recorded bytes, race detector',
    'C13': 'hostile-client fault injection with an independent decoder as oracle, liveness monitors (accept loop, spinning, stalls), race detector',
    'C14': 'step-by-step model monitor over recorder calls with fault injection in virtual time; race detector',
    'C15': 'differential monitor against an independent parser, uniqueness monitor over generated IDs, race detector',
    'C16': 'round-trip monitor over generated event values and annotation lists, crash monitor on hostile annotations',
    'C17': 'monitor comparing span IDs at every hop with an independent reading of the headers, race detector',
    'C18': 'differential monitor (with and without tracing) over scripted and real exchanges, event monitor in virtual time, race detector',
    'C19': 'taint-style monitor: unique secret values searched in everything collected, header comparison',
    'C20': 'model monitor over recorded spans in virtual time, fault-injecting collector, race detector',
    'C28': 'differential monitor: results of the helpers against the tree they were given',
    'C23': 'round-trip monitor over served pages (HTML parsed) and uploads, fault injection on uploads, race detector',
    'C24': 'differential monitor: figures parsed from served pages against sums over the recorded times; model of the timeline against its scripts at work',
    'C25': 'differential monitor over parsed pages (hostile against harmless data), model of lists and pages, taint monitor over the pages\' scripts at work, raw request stress, race detector',
    'C26': 'request monitor over the running command: near-miss credentials and exact ones mixed on connections, taint search in answers',
    'C27': 'process-kill fault injection with a reference model over store file and served pages, timed listing monitor, race detector',
    'C21': 'race detector over mixed stress of all components, deadlock watchdog, conservation monitor',
    'C22': 'race detector and aliasing monitors: overwrite the caller\'s memory, compare with copies',
}
