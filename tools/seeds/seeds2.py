import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','mkseed.py')).read())

seed('c07-fallback-after-error','C07',[('multi.go','''	for _, s := range ms.stores {
		trace, err := s.Trace(t)
		if err == ErrTraceNotFound {
			continue
		} else if err != nil {
			return nil, err
		}
		return trace, nil
	}
	return nil, ErrTraceNotFound
''','''	err := ErrTraceNotFound
	for _, s := range ms.stores {
		var trace *Trace
		if trace, err = s.Trace(t); err == nil {
			return trace, nil
		}
	}
	return nil, err
''')],
'''A member store that fails with an error of its own, followed by one that has the trace or does not know it.''',
'''A member's failure is skipped: the answer is a later member's trace, or "trace not found" although a member could not tell.''',
'', '''
package appdash

import (
	"errors"
	"testing"
)

type broken struct{ Store }

var errBroken = errors.New("broken")

func (broken) Trace(ID) (*Trace, error) { return nil, errBroken }

func TestDemo(t *testing.T) {
	a := NewMemoryStore()
	m := MultiStore(broken{a}, NewMemoryStore())
	if _, err := m.Trace(1); err != errBroken {
		t.Fatalf("got %v", err)
	}
}
''')

seed('c07-listing-requested','C07',[('store.go','''	for id := range ms.trace {
''','''	for id := range ms.span {
		if _, present := ms.trace[id]; !present {
			continue
		}
'''),] if False else [('multi.go','''			if _, ok := union[t.ID.Trace]; !ok {
				union[t.ID.Trace] = struct{}{}
				all = append(all, t)
			}
''','''			if _, ok := union[t.ID.Span]; !ok {
				union[t.ID.Span] = struct{}{}
				all = append(all, t)
			}
''')],
'''Two listed traces whose top spans have the same span ID (for example roots numbered from 1 by a client), or two members listing a trace with different top spans.''',
'''The union is formed over span IDs, so a trace whose top span has the same span ID as another trace's is missing.''',
'', '''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	a, b := NewMemoryStore(), NewMemoryStore()
	a.Collect(SpanID{1, 1, 0})
	b.Collect(SpanID{2, 1, 0})
	ts, err := MultiQueryer(a, b).Traces(TracesOpts{})
	if err != nil || len(ts) != 2 {
		t.Fatal(len(ts), err)
	}
}
''')

seed('c08-flush-gap','C08',[('collector.go','''	pendingBySpanID := cc.pendingBySpanID
	queueSizeBytes := cc.queueSizeBytes
	cc.pendingBySpanID = nil
	cc.queueSizeBytes = 0
	cc.mu.Unlock()

	if cc.OnFlush != nil {
		cc.OnFlush(len(pendingBySpanID))
	}
''','''	pendingBySpanID := cc.pendingBySpanID
	queueSizeBytes := cc.queueSizeBytes
	if n := len(pendingBySpanID); cc.OnFlush != nil {
		cc.mu.Unlock() // OnFlush may collect
		cc.OnFlush(n)
		cc.mu.Lock()
	}
	cc.pendingBySpanID = nil
	cc.queueSizeBytes = 0
	cc.mu.Unlock()
''')],
'''An OnFlush callback, and a collection (or another flush) during it.''',
'''What is collected during OnFlush into an empty queue is lost; two flushes that overlap there forward the same data twice.''',
'', '''
package appdash

import "testing"

type got map[ID]int

func (g got) Collect(id SpanID, as ...Annotation) error { g[id.Span]++; return nil }

func TestDemo(t *testing.T) {
	g := got{}
	cc := &ChunkedCollector{Collector: g, MinInterval: 1 << 60}
	cc.OnFlush = func(int) {
		cc.OnFlush = nil
		cc.Collect(SpanID{1, 1, 0})
	}
	cc.Flush()
	cc.Flush()
	if g[1] != 1 {
		t.Fatal(g)
	}
}
''')

seed('c08-give-up','C08',[('collector.go','''		if err := cc.Collector.Collect(spanID, p...); err != nil {
			errs = append(errs, err)
		}
''','''		if err := cc.Collector.Collect(spanID, p...); err != nil {
			if errs = append(errs, err); len(errs) == 10 {
				break // the collector is down
			}
		}
''')],
'''Ten failing underlying calls within one flush.''',
'''After ten failed spans the rest of the flush is thrown away although later calls might succeed.''',
'', '''
package appdash

import (
	"errors"
	"testing"
)

type flaky struct{ n int }

func (f *flaky) Collect(id SpanID, as ...Annotation) error {
	f.n++
	if f.n <= 12 {
		return errors.New("down")
	}
	return nil
}

func TestDemo(t *testing.T) {
	f := &flaky{}
	cc := &ChunkedCollector{Collector: f, MinInterval: 1 << 60}
	for i := 1; i <= 30; i++ {
		cc.Collect(SpanID{1, ID(i), 0})
	}
	cc.Flush()
	if f.n != 30 {
		t.Fatalf("%d of 30 calls", f.n)
	}
}
''')

seed('c09-inflight-bytes','C09',[('collector.go','''	pendingBySpanID := cc.pendingBySpanID
	queueSizeBytes := cc.queueSizeBytes
	cc.pendingBySpanID = nil
	cc.queueSizeBytes = 0
	cc.mu.Unlock()
''','''	pendingBySpanID := cc.pendingBySpanID
	queueSizeBytes := cc.queueSizeBytes
	cc.pendingBySpanID = nil
	cc.mu.Unlock()
	defer func() {
		// What is being sent still takes memory.
		cc.mu.Lock()
		cc.queueSizeBytes -= queueSizeBytes
		cc.mu.Unlock()
	}()
''')],
'''A collection during a flush; worst when the queue is dropped while a flush is under way.''',
'''Bytes already handed to a flush count towards the limit, so collections that fit are dropped; a drop during a flush makes the size wrap around, after which everything is dropped.''',
'', '''
package appdash

import "testing"

type during struct{ f func() }

func (d *during) Collect(SpanID, ...Annotation) error {
	if f := d.f; f != nil {
		d.f = nil
		f()
	}
	return nil
}

func TestDemo(t *testing.T) {
	d := &during{}
	cc := &ChunkedCollector{Collector: d, MinInterval: 1 << 60, MaxQueueSize: 48}
	cc.Collect(SpanID{1, 1, 0})
	d.f = func() {
		for i := 2; i < 4; i++ {
			if err := cc.Collect(SpanID{1, ID(i), 0}); err != nil {
				t.Error("during the flush:", err)
			}
		}
	}
	cc.Flush()
	cc.Flush()
	if err := cc.Collect(SpanID{1, 5, 0}); err != nil {
		t.Fatal(err)
	}
}
''')

seed('c09-exact-after-drop','C09',[('collector.go','''		cc.pendingBySpanID = nil
		cc.queueSizeBytes = 0
		return ErrQueueDropped
''','''		for id := range cc.pendingBySpanID {
			if id != span {
				delete(cc.pendingBySpanID, id)
			}
		}
		cc.queueSizeBytes = 0
		return ErrQueueDropped
''')],
'''A drop caused by a collection for a span that is already queued.''',
'''What was queued for the span whose collection caused the drop stays queued without being counted, so the queue outgrows its limit and partial data reported as dropped is forwarded.''',
'', '''
package appdash

import "testing"

type total struct{ bytes int }

func (s *total) Collect(id SpanID, as ...Annotation) error {
	s.bytes += 24
	for _, a := range as {
		s.bytes += len(a.Key) + len(a.Value)
	}
	return nil
}

func TestDemo(t *testing.T) {
	s := &total{}
	cc := &ChunkedCollector{Collector: s, MinInterval: 1 << 60, MaxQueueSize: 100}
	for i := 0; i < 10; i++ {
		cc.Collect(SpanID{1, 1, 0}, Annotation{"k", make([]byte, 40)})
	}
	cc.Flush()
	if s.bytes > 100 {
		t.Fatal(s.bytes)
	}
}
''')

seed('c10-first-error','C10',[('collector.go','''				if err := cc.Flush(); err != nil {
					cc.mu.Lock()
					cc.lastErr = err
					cc.mu.Unlock()
				}
''','''				if err := cc.Flush(); err != nil {
					cc.mu.Lock()
					if cc.lastErr == nil || err == ErrQueueDropped {
						cc.lastErr = err
					}
					cc.mu.Unlock()
				}
''')],
'''Two periodic flushes failing with different errors without a collection returning one in between.''',
'''The earliest instead of the latest flush error is returned by the next collection.''',
'', '''
package appdash

import (
	"fmt"
	"testing"
	"time"
)

type numbered struct {
	n    chan int
	coll func()
}

func (f numbered) Collect(SpanID, ...Annotation) error {
	n := <-f.n
	return fmt.Errorf("error %d", n)
}

func TestDemo(t *testing.T) {
	f := numbered{n: make(chan int)}
	cc := &ChunkedCollector{Collector: f, MinInterval: 20 * time.Millisecond}
	defer cc.Stop()
	for i := 1; i <= 2; i++ {
		// Queued by hand so as not to fetch the error of the first flush.
		cc.mu.Lock()
		if cc.pendingBySpanID == nil {
			cc.pendingBySpanID = map[SpanID]Annotations{}
		}
		cc.pendingBySpanID[SpanID{1, ID(i), 0}] = nil
		if !cc.started {
			cc.start()
		}
		cc.mu.Unlock()
		f.n <- i
	}
	time.Sleep(10 * time.Millisecond)
	if err := cc.Collect(SpanID{1, 3, 0}); err == nil || err.Error() != "error 2" {
		t.Fatal(err)
	}
	select {
	case f.n <- 3:
	case <-time.After(time.Second):
	}
}
''')

seed('c10-stop-handshake','C10',[('collector.go','''	if err := cc.lastErr; err != nil {
		cc.lastErr = nil
		return err
	}
	return nil
}

// Flush immediately''','''	return cc.takeErr()
}

// takeErr returns the last error and forgets it. It must be called with cc.mu
// held.
func (cc *ChunkedCollector) takeErr() error {
	err := cc.lastErr
	cc.lastErr = nil
	return err
}

// Flush immediately'''),('collector.go','''	cc.mu.Lock()
	defer cc.mu.Unlock()

	if cc.stopped {
		return errors.New("ChunkedCollector is stopped")
	}
''','''	cc.mu.Lock()
	defer cc.mu.Unlock()

	if cc.stopped {
		if err := cc.takeErr(); err != nil || len(anns) == 0 {
			return err
		}
		return errors.New("ChunkedCollector is stopped")
	}
''')],
'''A collection without annotations after Stop.''',
'''After Stop a collection without annotations returns nil although nothing is queued: collecting on a stopped collector must fail.''',
'', '''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	cc := &ChunkedCollector{Collector: NewMemoryStore(), MinInterval: 1 << 60}
	cc.Collect(SpanID{1, 1, 0})
	cc.Stop()
	if err := cc.Collect(SpanID{1, 2, 0}); err == nil {
		t.Fatal("nil")
	}
}
''')

seed('c11-reader-limit','C11',[('collector.go','''	rdr := pio.NewDelimitedReader(conn, maxMessageSize)
''','''	rdr := pio.NewDelimitedReader(conn, maxMessageSize-3) // 3 for the length
''')],
'''A message within 3 bytes of the 1 MiB limit.''',
'''A message of almost exactly the maximum size is reported as sent but dropped by the server together with the connection.''',
'', '''
package appdash

import (
	"net"
	"sync"
	"testing"
	"time"

	"github.com/gogo/protobuf/proto"
)

type seen struct {
	mu sync.Mutex
	n  int
}

func (s *seen) Collect(id SpanID, as ...Annotation) error { s.mu.Lock(); s.n++; s.mu.Unlock(); return nil }

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	s := &seen{}
	go NewServer(l, s).Start()
	v := make([]byte, 1<<20-100)
	id := SpanID{1, 2, 3}
	for proto.Size(newCollectPacket(id, Annotations{{"k", v}})) < 1<<20 {
		v = append(v, 0)
	}
	rc := NewRemoteCollector(l.Addr().String())
	if err := rc.Collect(id, Annotation{"k", v}); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 300; i++ {
		s.mu.Lock()
		n := s.n
		s.mu.Unlock()
		if n == 1 {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal("not delivered")
}
''')

seed('c11-wire-names','C11',[('span.go','''	for _, a := range as {
		// Important: Make a copy of a that we can retain a pointer to that
		// doesn't change after each iteration. Otherwise all wire annotations
		// would have the same key.
		cpy := a
		w = append(w, &wire.CollectPacket_Annotation{
			Key:   &cpy.Key,
			Value: cpy.Value,
		})
	}
	return
''','''	// Annotations may share keys, so share their encoding.
	w = make([]*wire.CollectPacket_Annotation, 0, len(as))
	for i := range as {
		if n := len(w); n > 0 && *w[n-1].Key == as[i].Key && len(w[n-1].Value) == 0 {
			w[n-1].Value = as[i].Value
			continue
		}
		w = append(w, &wire.CollectPacket_Annotation{
			Key:   &as[i].Key,
			Value: as[i].Value,
		})
	}
	return
''')],
'''Two neighbouring annotations with the same key, the first of which has an empty value.''',
'''An empty-valued annotation followed by one with the same key is not sent.''',
'', '''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	p := newCollectPacket(SpanID{1, 1, 0}, Annotations{{"k", nil}, {"k", []byte("v")}})
	if len(p.Annotation) != 2 {
		t.Fatal(len(p.Annotation))
	}
}
''')

seed('c12-resend-last','C12',[('collector.go','''	if rc.pconn != nil {
		if err := rc.collect(p); err == nil {
			return nil
		}
		if rc.Debug {
			rc.log().Printf("Reconnecting to send %v", spanIDFromWire(p.Spanid))
		}
	}
	if err := rc.connect(); err != nil {
		return err
	}
	return rc.collect(p)
}
''','''	last := rc.last
	rc.last = p
	if rc.pconn != nil {
		err := rc.collect(p)
		if err == nil {
			return nil
		}
		if rc.Debug {
			rc.log().Printf("Reconnecting to send %v", spanIDFromWire(p.Spanid))
		}
	} else {
		last = nil
	}
	if err := rc.connect(); err != nil {
		return err
	}
	if last != nil {
		// It may have got lost with the connection.
		if err := rc.collect(last); err != nil {
			return err
		}
	}
	return rc.collect(p)
}
'''),('collector.go','''	pconn pio.WriteCloser // delimited-protobuf remote connection

''','''	pconn pio.WriteCloser // delimited-protobuf remote connection
	last  *wire.CollectPacket

''')],
'''A connection that fails between two collections.''',
'''On reconnecting the previous message is sent again although it was delivered: it is collected twice.''',
'', '''
package appdash

import (
	"net"
	"sync"
	"testing"
	"time"
)

type counted struct {
	mu sync.Mutex
	n  map[ID]int
}

func (s *counted) Collect(id SpanID, as ...Annotation) error {
	s.mu.Lock()
	s.n[id.Span]++
	s.mu.Unlock()
	return nil
}

func (s *counted) get(id ID) int { s.mu.Lock(); defer s.mu.Unlock(); return s.n[id] }

type tracked struct {
	net.Listener
	c chan net.Conn
}

func (l tracked) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err == nil {
		l.c <- c
	}
	return c, err
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	tl := tracked{l, make(chan net.Conn, 100)}
	s := &counted{n: map[ID]int{}}
	go NewServer(tl, s).Start()
	rc := NewRemoteCollector(l.Addr().String())
	rc.Collect(SpanID{1, 1, 0})
	for s.get(1) == 0 {
		time.Sleep(time.Millisecond)
	}
	(<-tl.c).Close()
	for i := 2; s.get(ID(i-1)) != 1 || i == 2; i++ {
		if i > 200 {
			t.Fatal("no reconnect")
		}
		rc.Collect(SpanID{1, ID(i), 0})
		time.Sleep(20 * time.Millisecond)
	}
	time.Sleep(100 * time.Millisecond)
	s.mu.Lock()
	defer s.mu.Unlock()
	for id, n := range s.n {
		if id == 1 && n > 1 {
			t.Errorf("message %v was delivered %d times", id, n)
		}
	}
	if len(s.n) == 0 {
		t.Error("nothing")
	}
}
''')

seed('c12-backoff','C12',[('collector.go','''	if err := rc.connect(); err != nil {
		return err
	}
	return rc.collect(p)
''','''	if n := rc.fails; n > 3 && rc.refused < 1<<uint(n-3) {
		rc.refused++ // back off
		return errors.New("collector server unreachable")
	}
	rc.refused = 0
	rc.fails++
	err := rc.connect()
	if err != nil {
		return err
	}
	rc.fails = 0
	return rc.collect(p)
'''),('collector.go','''	pconn pio.WriteCloser // delimited-protobuf remote connection

''','''	pconn pio.WriteCloser // delimited-protobuf remote connection

	fails, refused int // failed and skipped connection attempts

''')],
'''A server that stays unreachable for many collections and then comes back.''',
'''The number of collections that fail after the server is reachable again grows exponentially with the outage instead of being bounded.''',
'', '''
package appdash

import (
	"errors"
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go NewServer(l, NewMemoryStore()).Start()
	rc := NewRemoteCollector(l.Addr().String())
	d := rc.dial
	rc.dial = func() (net.Conn, error) { return nil, errors.New("down") }
	for i := 1; i < 300; i++ {
		rc.Collect(SpanID{1, ID(i), 0})
	}
	rc.dial = d
	for i := 1; i < 50; i++ {
		if err = rc.Collect(SpanID{2, ID(i), 0}); err == nil {
			return
		}
	}
	t.Fatal(err)
}
''')

seed('c13-conn-limit','C13',[('collector.go','''		go cs.handleConn(conn)
	}
}
''','''		cs.conns <- struct{}{}
		go func() {
			defer func() { <-cs.conns }()
			cs.handleConn(conn)
		}()
	}
}
'''),('collector.go','''	cs := &CollectorServer{c: c, l: l}
''','''	cs := &CollectorServer{c: c, l: l, conns: make(chan struct{}, 64)}
'''),('collector.go','''	c Collector
	l net.Listener

''','''	c Collector
	l net.Listener

	// conns limits the number of connections handled at the same time.
	conns chan struct{}

''')],
'''64 clients that stay connected (idle or stalled).''',
'''Idle clients use up the connection slots; further clients are never served.''',
'', '''
package appdash

import (
	"net"
	"sync"
	"testing"
	"time"
)

type arrived struct {
	mu sync.Mutex
	n  int
}

func (s *arrived) Collect(id SpanID, as ...Annotation) error { s.mu.Lock(); s.n++; s.mu.Unlock(); return nil }

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	s := &arrived{}
	go NewServer(l, s).Start()
	for i := 0; i < 200; i++ {
		c, err := net.Dial("tcp", l.Addr().String())
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
	}
	NewRemoteCollector(l.Addr().String()).Collect(SpanID{1, 1, 0})
	for i := 0; i < 200; i++ {
		s.mu.Lock()
		n := s.n
		s.mu.Unlock()
		if n == 1 {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal("not collected")
}
''')

seed('c13-collect-error-stops','C13',[('collector.go','''		if err = cs.c.Collect(spanID, annotationsFromWire(p.Annotation)...); err != nil {
			return fmt.Errorf("Collect %v: %s", spanID, err)
		}
''','''		cs.pending = append(cs.pending[:0], annotationsFromWire(p.Annotation)...)
		if err = cs.c.Collect(spanID, cs.pending...); err != nil {
			return fmt.Errorf("Collect %v: %s", spanID, err)
		}
'''),('collector.go','''	// Trace is whether to log all data that is received.
	Trace bool
''','''	// Trace is whether to log all data that is received.
	Trace bool

	pending Annotations // reused
''')],
'''Two clients sending at the same time.''',
'''The buffer is shared by all connections, so annotations of one client's message can be collected under another client's span.''',
'', '''
package appdash

import (
	"fmt"
	"net"
	"sync"
	"testing"
	"time"
)

type check struct {
	mu  sync.Mutex
	n   int
	bad string
}

func (s *check) Collect(id SpanID, as ...Annotation) error {
	time.Sleep(time.Microsecond)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	for _, a := range as {
		if a.Key != fmt.Sprint(id.Trace) {
			s.bad = fmt.Sprint(id, as)
		}
	}
	return nil
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	s := &check{}
	go NewServer(l, s).Start()
	var wg sync.WaitGroup
	for c := 1; c <= 8; c++ {
		wg.Add(1)
		go func(c ID) {
			defer wg.Done()
			rc := NewRemoteCollector(l.Addr().String())
			for i := 1; i <= 2000; i++ {
				rc.Collect(SpanID{c, ID(i), 0}, Annotation{Key: fmt.Sprint(c)}, Annotation{Key: fmt.Sprint(c)})
			}
		}(ID(c))
	}
	wg.Wait()
	for i := 0; i < 500; i++ {
		s.mu.Lock()
		n, bad := s.n, s.bad
		s.mu.Unlock()
		if bad != "" {
			t.Fatal(bad)
		}
		if n == 16000 {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
}
''')
