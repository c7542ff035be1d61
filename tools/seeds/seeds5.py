import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','mkseed.py')).read())

seed('c01-annotation-cap','C01',[('store.go','''		s.Annotations = append(s.Annotations, as...)
		return nil
''','''		const maxAnnotations = 5000 // a span that logs forever must not use up the memory
		if n := maxAnnotations - len(s.Annotations); len(as) > n {
			as = as[:max(n, 0)]
		}
		s.Annotations = append(s.Annotations, as...)
		return nil
''')],
'''A span of more than 5000 annotations, collected in several pieces.''',
'''What is collected for a span beyond its first 5000 annotations is lost without an error.''',
'', '''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	id := SpanID{1, 2, 0}
	n := 6000
	for i := 0; i < n; i++ {
		if err := ms.Collect(id, Annotation{Key: "k"}); err != nil {
			t.Fatal(err)
		}
	}
	tr, err := ms.Trace(1)
	if err != nil {
		t.Fatal(err)
	}
	if len(tr.Annotations) != n {
		t.Fatalf("%d of %d annotations", len(tr.Annotations), n)
	}
}
''')

seed('c02-delete-two-steps','C02',[('store.go','''	ms.Lock()
	defer ms.Unlock()
	return ms.deleteNoLock(traces...)
}
''','''	// Many traces take a while: let others use the store in between.
	for _, id := range traces {
		ms.Lock()
		delete(ms.trace, id)
		ms.Unlock()
	}
	ms.Lock()
	defer ms.Unlock()
	for _, id := range traces {
		delete(ms.span, id)
	}
	return nil
}
''')],
'''A span of a trace collected while the trace is being deleted, between its removal from the two indexes.''',
'''What is collected while its trace is being deleted can be dropped although its trace is listed, or go nowhere.''',
'', '''
package appdash

import (
	"sync"
	"testing"
)

// A deleter removes the trace while a collector adds to it: afterwards what was collected last must be readable unless
// it was deleted, and the trace must accept further spans.
func TestDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		ms := NewMemoryStore()
		ms.Collect(SpanID{1, 2, 0}, Annotation{Key: "old"})
		var ids []ID
		ids = append(ids, 1)
		for j := 2; j < 200; j++ {
			ids = append(ids, ID(j))
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); ms.Delete(ids...) }()
		n := 0
		for j := 0; j < 200; j++ {
			ms.Collect(SpanID{1, ID(100 + j), 2}, Annotation{Key: "new"})
			n++
		}
		wg.Wait()
		// One deletion: whatever remains is the last k collections for some k, and all spans of the index are in the tree.
		tr, err := ms.Trace(1)
		if err != nil {
			continue
		}
		have := map[ID]bool{}
		var walk func(*Trace)
		walk = func(t *Trace) {
			have[t.ID.Span] = true
			for _, s := range t.Sub {
				walk(s)
			}
		}
		walk(tr)
		last := ID(100 + n - 1)
		if have[2] {
			t.Fatal("the deleted root is still there")
		}
		for id := range have {
			for j := id; j <= last; j++ {
				if !have[j] {
					t.Fatalf("span %d was collected after span %d, but is missing", j, id)
				}
			}
		}
	}
}
''')

seed('c04-shallow-snapshot','C04',[('store.go','''	ms.Lock()
	defer ms.Unlock()

	data := memoryStoreData{ms.trace, ms.span}
	return gob.NewEncoder(w).Encode(data)
''','''	// Don't hold up collections while writing.
	ms.Lock()
	data := memoryStoreData{
		Trace: make(map[ID]*Trace, len(ms.trace)),
		Span:  map[ID]map[ID]*Trace{},
	}
	for id, t := range ms.trace {
		data.Trace[id] = t
	}
	ms.Unlock()
	return gob.NewEncoder(w).Encode(data)
''')],
'''Spans collected into stored traces while a save is under way.''',
'''The maps are copied, but the trees are not: what is saved mixes several instants (and is a data race).''',
'', '''
package appdash

import (
	"io"
	"testing"
)

type slowWriter struct {
	ms *MemoryStore
	w  io.Writer
	n  int
}

func (s *slowWriter) Write(p []byte) (int, error) {
	s.n++
	return s.w.Write(p)
}

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	for i := 0; i < 200; i++ {
		ms.Collect(SpanID{ID(1 + i), 1, 0}, Annotation{Key: "a"})
	}
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			ms.Collect(SpanID{ID(1 + i%200), ID(2 + i), 1}, Annotation{Key: "b"})
		}
	}()
	for i := 0; i < 20; i++ {
		if err := ms.Write(io.Discard); err != nil {
			t.Fatal(err)
		}
	}
	close(stop)
	<-done
}
''', race=True)

seed('c04-skip-same-size','C04',[('store.go','''		if err := s.Write(f); err != nil {
			f.Close()
			os.Remove(f.Name())
			return err
		}
''','''		if err := s.Write(f); err != nil {
			f.Close()
			os.Remove(f.Name())
			return err
		}
		// Don't wear out the disk when nothing has changed.
		if n, err := f.Seek(0, io.SeekCurrent); err == nil && n == size {
			if _, err := os.Stat(file); err == nil {
				f.Close()
				os.Remove(f.Name())
				continue
			}
		} else {
			size = n
		}
'''),('store.go','''	for {
		time.Sleep(interval)

''','''	var size int64 // of what was saved last
	for {
		time.Sleep(interval)

''')],
'''The store changes between two saves without its encoding changing in size (for example one trace deleted and one of the same shape collected).''',
'''The save is skipped, so what was collected is not in the file.''',
'', '''
package appdash

import (
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	file := filepath.Join(t.TempDir(), "s.gob")
	ms := NewMemoryStore()
	a, b := ID(0x1111111111111111), ID(0x2222222222222222)
	ms.Collect(SpanID{a, a, 0}, Annotation{Key: "k", Value: []byte("v")})
	go PersistEvery(ms, 20*time.Millisecond, file)
	load := func(id ID) bool {
		for i := 0; i < 200; i++ {
			if f, err := os.Open(file); err == nil {
				l := NewMemoryStore()
				l.ReadFrom(f)
				f.Close()
				if _, err := l.Trace(id); err == nil {
					return true
				}
			}
			time.Sleep(20 * time.Millisecond)
		}
		return false
	}
	if !load(a) {
		t.Fatal("first trace not saved")
	}
	ms.Lock()
	ms.deleteNoLock(a)
	ms.collectNoLock(SpanID{b, b, 0}, Annotation{Key: "k", Value: []byte("v")})
	ms.Unlock()
	if !load(b) {
		t.Fatal("second trace not saved")
	}
}
''')

seed('c06-unlock-early','C06',[('store.go','''	if ls.Max == 0 {
		return nil
	}
	ls.mu.Lock()
	defer ls.mu.Unlock()
	if ls.ring''','''	if ls.Max == 0 {
		return nil
	}
	// The underlying store does its own locking.
	if err := ls.makeRoom(id); err != nil {
		return err
	}
	return ls.DeleteStore.Collect(id, anns...)
}

// makeRoom adds the trace of id to the ring, unless it is there.
func (ls *LimitStore) makeRoom(id SpanID) error {
	ls.mu.Lock()
	defer ls.mu.Unlock()
	if ls.ring'''),('store.go','''	if _, ok := ls.traces[id.Trace]; ok {
		return ls.DeleteStore.Collect(id, anns...)
	}
''','''	if _, ok := ls.traces[id.Trace]; ok {
		return nil
	}
'''),('store.go','''	ls.nextInsertIdx = (ls.nextInsertIdx + 1) % ls.Max // increment & wrap

	return ls.DeleteStore.Collect(id, anns...)
''','''	ls.nextInsertIdx = (ls.nextInsertIdx + 1) % ls.Max // increment & wrap
	return nil
''')],
'''A trace evicted by one goroutine between the check and the collection of another.''',
'''The span is stored after its trace was removed: the store holds more traces than its capacity, and nobody removes that one.''',
'', '''
package appdash

import (
	"sync"
	"testing"
)

type gate struct {
	*MemoryStore
	once    sync.Once
	in, out chan struct{}
}

func (g *gate) Collect(id SpanID, as ...Annotation) error {
	if id.Trace == 1 {
		g.once.Do(func() { close(g.in); <-g.out })
	}
	return g.MemoryStore.Collect(id, as...)
}

// Trace 1 is collected slowly; meanwhile others come.
func TestDemo(t *testing.T) {
	g := &gate{MemoryStore: NewMemoryStore(), in: make(chan struct{}), out: make(chan struct{})}
	ls := &LimitStore{Max: 2, DeleteStore: g}
	done := make(chan struct{})
	go func() { ls.Collect(SpanID{1, 1, 0}); close(done) }()
	<-g.in
	others := make(chan struct{})
	go func() {
		for i := 2; i < 5; i++ {
			ls.Collect(SpanID{ID(i), 1, 0})
		}
		close(others)
	}()
	// They may or may not have to wait for the first.
	for i := 0; i < 1000; i++ {
		select {
		case <-others:
			i = 1000
		default:
			var x sync.Mutex
			x.Lock()
			go x.Unlock()
			x.Lock()
		}
	}
	close(g.out)
	<-done
	<-others
	ts, _ := g.Traces(TracesOpts{})
	if len(ts) > 2 {
		t.Fatalf("%d traces", len(ts))
	}
}
''')

seed('c07-parallel-queries','C07',[('multi.go','''	for _, q := range mq.queryers {
		traces, err := q.Traces(opts)
		if err != nil {
			return nil, err
		}
		for _, t''','''	// Ask all of them at the same time.
	type answer struct {
		i      int
		traces []*Trace
		err    error
	}
	answers := make(chan answer, len(mq.queryers))
	for i, q := range mq.queryers {
		go func(i int, q Queryer) {
			traces, err := q.Traces(opts)
			answers <- answer{i, traces, err}
		}(i, q)
	}
	listings := make([][]*Trace, len(mq.queryers))
	for range mq.queryers {
		a := <-answers
		if a.err != nil {
			return nil, a.err
		}
		listings[a.i] = a.traces
	}
	for _, traces := range listings {
		for _, t''')],
'''Two members fail, the first one later than the second.''',
'''The error returned is that of the fastest failing member instead of the first one's.''',
'', '''
package appdash

import (
	"errors"
	"testing"
	"time"
)

type failing struct {
	after time.Duration
	err   error
}

func (f failing) Traces(TracesOpts) ([]*Trace, error) { time.Sleep(f.after); return nil, f.err }

func TestDemo(t *testing.T) {
	a, b := errors.New("first"), errors.New("second")
	if _, err := MultiQueryer(failing{200 * time.Millisecond, a}, failing{0, b}).Traces(TracesOpts{}); err != a {
		t.Fatal(err)
	}
}
''')

seed('c08-requeue','C08',[('collector.go','''		if err := cc.Collector.Collect(spanID, p...); err != nil {
			errs = append(errs, err)
		}
''','''		if err := cc.Collector.Collect(spanID, p...); err != nil {
			errs = append(errs, err)
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				// The network is slow. Try again with the next flush.
				cc.mu.Lock()
				if cc.pendingBySpanID == nil {
					cc.pendingBySpanID = make(map[SpanID]Annotations)
				}
				cc.pendingBySpanID[spanID] = append(p, cc.pendingBySpanID[spanID]...)
				cc.mu.Unlock()
			}
		}
''')],
'''The underlying collector fails with a network timeout.''',
'''What was handed over already is sent once more by the next flush.''',
'', '''
package appdash

import "testing"

type timeout struct{ n int }

func (e *timeout) Error() string   { return "timeout" }
func (e *timeout) Timeout() bool   { return true }
func (e *timeout) Temporary() bool { return true }

func (e *timeout) Collect(SpanID, ...Annotation) error { e.n++; return e }

func TestDemo(t *testing.T) {
	c := &timeout{}
	cc := NewChunkedCollector(c)
	cc.MinInterval = 1e15
	cc.Collect(SpanID{1, 2, 3}, Annotation{Key: "k"})
	cc.Flush()
	cc.Flush()
	if c.n != 1 {
		t.Fatalf("collected %d times", c.n)
	}
}
''')

seed('c09-timeout-per-call','C09',[('collector.go','''	for spanID, p := range pendingBySpanID {
		if err''','''	for spanID, p := range pendingBySpanID {
		if cc.OnFlush != nil {
			start = time.Now() // not the time spent in OnFlush or before
		}
		if err''')],
'''A collector with OnFlush whose underlying calls are each within the flush timeout, but together are not.''',
'''The flush goes on for as long as there are spans, past its timeout, and reports no drop.''',
'', '''
package appdash

import (
	"testing"
	"time"
)

type slow struct{ n int }

func (s *slow) Collect(SpanID, ...Annotation) error { s.n++; time.Sleep(20 * time.Millisecond); return nil }

func TestDemo(t *testing.T) {
	c := &slow{}
	cc := &ChunkedCollector{Collector: c, MinInterval: 1e15, FlushTimeout: 50 * time.Millisecond, OnFlush: func(int) {}}
	for i := 0; i < 10; i++ {
		cc.Collect(SpanID{1, ID(i + 1), 0})
	}
	if err := cc.Flush(); err != ErrQueueDropped {
		t.Fatal(err, c.n)
	}
}
''')

seed('c10-slow-down','C10',[('collector.go','''	go func() {
		for {
			t := time.After(cc.MinInterval)
			select {
			case <-t:
				if err := cc.Flush(); err != nil {
					cc.mu.Lock()
					cc.lastErr = err
					cc.mu.Unlock()
				}
''','''	go func() {
		wait := cc.MinInterval
		for {
			t := time.After(wait)
			select {
			case <-t:
				cc.mu.Lock()
				idle := len(cc.pendingBySpanID) == 0
				cc.mu.Unlock()
				// Don't wake up so often while there is nothing to do.
				if idle && wait < 8*cc.MinInterval {
					wait *= 2
				} else if !idle {
					wait = cc.MinInterval
				}
				if err := cc.Flush(); err != nil {
					cc.mu.Lock()
					cc.lastErr = err
					cc.mu.Unlock()
				}
''')],
'''Nothing is collected for several intervals; then data is collected.''',
'''After an idle period data waits for up to eight intervals instead of one.''',
'', '''
package appdash

import (
	"testing"
	"time"
)

type when chan time.Time

func (w when) Collect(SpanID, ...Annotation) error { w <- time.Now(); return nil }

func TestDemo(t *testing.T) {
	w := make(when, 10)
	cc := &ChunkedCollector{Collector: w, MinInterval: 100 * time.Millisecond}
	defer cc.Stop()
	cc.Collect(SpanID{1, 2, 0})
	<-w
	var worst time.Duration
	for i := 0; i < 4; i++ {
		time.Sleep(950 * time.Millisecond)
		start := time.Now()
		cc.Collect(SpanID{1, 2, 0})
		if d := (<-w).Sub(start); d > worst {
			worst = d
		}
	}
	if worst > 180*time.Millisecond {
		t.Fatalf("flushed after %v", worst)
	}
}
''')

seed('c11-shared-packet','C11',[('collector.go','''	p := newCollectPacket(span, anns)
''','''	p := packets.Get().(*wire.CollectPacket)
	defer packets.Put(p)
	p.Spanid = span.wire()
	p.Annotation = appendWire(p.Annotation[:0], anns)
'''),('collector.go','''// newCollectPacket returns''','''// packets holds packets for reuse.
var packets = sync.Pool{New: func() interface{} { return new(wire.CollectPacket) }}

// appendWire appends as to w, reusing the elements beyond its length.
func appendWire(w []*wire.CollectPacket_Annotation, as Annotations) []*wire.CollectPacket_Annotation {
	for _, a := range as {
		n := len(w)
		if n == cap(w) || w[:n+1][n] == nil {
			w = append(w, &wire.CollectPacket_Annotation{})
		} else {
			w = w[:n+1]
		}
		key := a.Key
		w[n].Key = &key
		if len(a.Value) > 0 {
			w[n].Value = a.Value
		} else if a.Value != nil {
			w[n].Value = w[n].Value[:0]
		}
	}
	return w
}

// newCollectPacket returns''')],
'''A collection with an annotation without value, after one that had a value at the same position.''',
'''The annotation without a value is sent with the value of an earlier collection's annotation.''',
'', '''
package appdash

import (
	"net"
	"testing"
)

type sink chan Annotations

func (s sink) Collect(_ SpanID, as ...Annotation) error { s <- as; return nil }

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	s := make(sink, 100)
	go NewServer(l, s).Start()
	rc := NewRemoteCollector(l.Addr().String())
	defer rc.Close()
	for i := 0; i < 20; i++ {
		if err := rc.Collect(SpanID{1, 2, 0}, Annotation{Key: "k", Value: []byte("secret")}); err != nil {
			t.Fatal(err)
		}
		if err := rc.Collect(SpanID{1, 2, 0}, Annotation{Key: "_schema:x"}); err != nil {
			t.Fatal(err)
		}
		<-s
		if as := <-s; len(as) != 1 || len(as[0].Value) != 0 {
			t.Fatalf("%v", as)
		}
	}
}
''')

seed('c13-idle-deadline','C13',[('collector.go','''		p := &wire.CollectPacket{}
		if err = rdr''','''		// Don't keep the connections of clients that are gone.
		conn.SetReadDeadline(time.Now().Add(10 * time.Minute))
		p := &wire.CollectPacket{}
		if err = rdr''')],
'''A client that sends nothing for ten minutes and then goes on.''',
'''The server ends the connection of a client that did nothing wrong, and what it sends next is lost.''',
'', '''
package appdash

import (
	"net"
	"sync"
	"testing"
	"time"

	pio "github.com/gogo/protobuf/io"
)

type oneConn struct {
	c    net.Conn
	once sync.Once
	stop chan struct{}
}

func (l *oneConn) Accept() (c net.Conn, err error) {
	l.once.Do(func() { c = l.c })
	if c == nil {
		<-l.stop
		return nil, net.ErrClosed
	}
	return c, nil
}
func (l *oneConn) Close() error   { close(l.stop); return nil }
func (l *oneConn) Addr() net.Addr { return &net.TCPAddr{} }

// fastConn's deadlines pass as soon as nothing is read for a while.
type fastConn struct{ net.Conn }

func (c fastConn) SetReadDeadline(t time.Time) error {
	return c.Conn.SetReadDeadline(time.Now().Add(time.Until(t) / 6000))
}
func (c fastConn) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }

type sink chan SpanID

func (s sink) Collect(id SpanID, _ ...Annotation) error { s <- id; return nil }

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	l := &oneConn{c: fastConn{a}, stop: make(chan struct{})}
	defer l.Close()
	s := make(sink, 10)
	go NewServer(l, s).Start()
	w := pio.NewDelimitedWriter(b)
	for i := 1; i <= 2; i++ {
		if err := w.WriteMsg(newCollectPacket(SpanID{1, ID(i), 0}, nil)); err != nil {
			t.Fatal(err)
		}
		select {
		case <-s:
		case <-time.After(5 * time.Second):
			t.Fatal("nothing collected")
		}
		time.Sleep(500 * time.Millisecond)
	}
}
''')

seed('c14-errors-cap','C14',[('recorder.go','''	r.errors = append(r.errors, err)
''','''	if len(r.errors) < 100 { // nobody asks for them
		r.errors = append(r.errors, err)
	}
''')],
'''More than 100 errors between two requests for them.''',
'''Errors beyond the first hundred are not reported.''',
'', '''
package appdash

import (
	"errors"
	"testing"
)

type bad struct{}

func (bad) Collect(SpanID, ...Annotation) error { return errors.New("bad") }

func TestDemo(t *testing.T) {
	r := NewRecorder(SpanID{1, 2, 0}, bad{})
	for i := 0; i < 150; i++ {
		r.Annotation(Annotation{Key: "k"})
	}
	if n := len(r.Errors()); n != 150 {
		t.Fatal(n)
	}
}
''')

seed('c18-length-header','C18',[('httptrace/server.go','''	return &http.Response{
		StatusCode:    r.StatusCode(),
		ContentLength: r.ContentLength,
''','''	length := r.ContentLength
	if n, err := strconv.ParseInt(r.Header().Get("Content-Length"), 10, 64); err == nil {
		length = n // counts what was copied past Write, too
	}
	return &http.Response{
		StatusCode:    r.StatusCode(),
		ContentLength: length,
'''),('httptrace/server.go','''	"net/http"
	"time"
''','''	"net/http"
	"strconv"
	"time"
''')],
'''A handler that declares a Content-Length and writes less, or answers a HEAD request.''',
'''The length recorded is the declared one instead of the number of bytes written.''',
'httptrace', '''
package httptrace

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	mw := Middleware(appdash.NewLocalCollector(ms), &MiddlewareConfig{})
	r, _ := http.NewRequest("HEAD", "http://x/", nil)
	SetSpanIDHeader(r.Header, appdash.SpanID{1, 2, 3})
	mw(httptest.NewRecorder(), r, func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Length", "100")
		w.WriteHeader(200)
	})
	tr, err := ms.Trace(1)
	if err != nil {
		t.Fatal(err)
	}
	var e ServerEvent
	if err := appdash.UnmarshalEvent(tr.Annotations, &e); err != nil {
		t.Fatal(err)
	}
	if e.Response.ContentLength != 0 {
		t.Fatal(e.Response.ContentLength)
	}
}
''')

seed('c18-body-close','C18',[('httptrace/client.go','''	// shallow copy of the struct
	r2 := new(http.Request)
	*r2 = *r
''','''	// shallow copy of the struct
	r2 := new(http.Request)
	*r2 = *r
	if r.Body != nil && r.Body != http.NoBody {
		// The body belongs to the original request.
		r2.Body = struct {
			io.Reader
			io.Closer
		}{r.Body, io.NopCloser(nil)}
	}
'''),('httptrace/client.go','''import (
	"net/http"
''','''import (
	"io"
	"net/http"
''')],
'''A request with a body whose Close does something.''',
'''The request body is never closed, which the underlying transport would do.''',
'httptrace', '''
package httptrace

import (
	"io"
	"net/http"
	"strings"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

type body struct {
	io.Reader
	closed int
}

func (b *body) Close() error { b.closed++; return nil }

type roundTripper func(*http.Request) (*http.Response, error)

func (f roundTripper) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func TestDemo(t *testing.T) {
	tr := &Transport{
		Recorder: appdash.NewRecorder(appdash.SpanID{1, 2, 3}, appdash.NewLocalCollector(appdash.NewMemoryStore())),
		Transport: roundTripper(func(r *http.Request) (*http.Response, error) {
			io.ReadAll(r.Body)
			r.Body.Close()
			return &http.Response{StatusCode: 200, Body: http.NoBody}, nil
		}),
	}
	b := &body{Reader: strings.NewReader("hello")}
	r, _ := http.NewRequest("POST", "http://x/", b)
	if _, err := tr.RoundTrip(r); err != nil {
		t.Fatal(err)
	}
	if b.closed == 0 {
		t.Fatal("not closed")
	}
}
''')

seed('c20-tag-baggage-key','C20',[('opentracing/recorder.go','''	for key, val := range sp.Context.Baggage {
''','''	for key, val := range sp.Context.Baggage {
		if _, ok := sp.Tags[key]; ok {
			continue // the tag is shown already
		}
''')],
'''A span with a tag and a baggage item of the same key.''',
'''The baggage item is not recorded.''',
'opentracing', '''
package opentracing

import (
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	tr := NewTracer(ms)
	sp := tr.StartSpan("op")
	sp.SetTag("user", "tag")
	sp.SetBaggageItem("user", "baggage")
	sp.Finish()
	ts, _ := ms.Traces(appdash.TracesOpts{})
	n := 0
	for _, a := range ts[0].Annotations {
		if a.Key == "user" {
			n++
		}
	}
	if n != 2 {
		t.Fatal(ts[0].Annotations)
	}
}
''')

seed('c21-server-log-lazy','C21',[('collector.go','''func (cs *CollectorServer) log() *log.Logger {
	cs.logMu.Lock()
	defer cs.logMu.Unlock()
	if cs.Log == nil {
		cs.Log''','''func (cs *CollectorServer) log() *log.Logger {
	if cs.Log == nil {
		cs.logMu.Lock()
		defer cs.logMu.Unlock()
		cs.Log''')],
'''A server without a logger of its own, and several connections that log something at the same time.''',
'''The logger is created and read without a common lock: a data race.''',
'', '''
package appdash

import (
	"net"
	"sync"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		go NewServer(l, NewMemoryStore()).Start()
		var wg sync.WaitGroup
		for j := 0; j < 8; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c, err := net.Dial("tcp", l.Addr().String())
				if err != nil {
					return
				}
				c.Write([]byte("\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\xff"))
				c.SetReadDeadline(time.Now().Add(5 * time.Second))
				c.Read(make([]byte, 1))
				c.Close()
			}()
		}
		wg.Wait()
		l.Close()
	}
}
''', race=True)

seed('c22-nil-values','C22',[('span.go','''	for _, a := range as {
		// Important: Make a copy of a that we can retain a pointer to that
		// doesn't change after each iteration. Otherwise all wire annotations
		// would have the same key.
		cpy := a
		w = append(w, &wire.CollectPacket_Annotation{
			Key:   &cpy.Key,
			Value: cpy.Value,
		})
	}
	return
''','''	for i := range as {
		a := &as[i]
		if a.Value == nil {
			a.Value = noValue // write an empty value, some readers insist on one
		}
		w = append(w, &wire.CollectPacket_Annotation{
			Key:   &a.Key,
			Value: a.Value,
		})
	}
	return
'''),('span.go','''func (as Annotations) wire() (''','''var noValue = []byte{}

func (as Annotations) wire() (''')],
'''Annotations without a value (nil) collected through a remote collector.''',
'''Collecting writes into the elements of the caller's slice.''',
'', '''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	as := []Annotation{{Key: "k"}}
	NewRemoteCollector("127.0.0.1:1").Collect(SpanID{1, 2, 3}, as...)
	if as[0].Value != nil {
		t.Fatal("the caller's slice was changed")
	}
}
''')

seed('c23-parent-rewrite','C23',[('traceapp/trace.go','''	for _, sub := range t.Sub {
		err = collectTrace(c, sub)
''','''	for _, sub := range t.Sub {
		if sub.ID.Parent != t.ID.Span && t.FindSpan(sub.ID.Parent) == nil {
			sub.ID.Parent = t.ID.Span // its parent is not in the file
		}
		err = collectTrace(c, sub)
''')],
'''A trace with a span whose parent was never collected.''',
'''The imported trace's span has another parent than the exported one's.''',
'traceapp', '''
package traceapp

import (
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	app, err := New(nil, &url.URL{Scheme: "http", Host: "x"})
	if err != nil {
		t.Fatal(err)
	}
	app.Store, app.Queryer = ms, ms
	orig := appdash.NewMemoryStore()
	orig.Collect(appdash.SpanID{1, 1, 0})
	orig.Collect(appdash.SpanID{1, 3, 2})
	tr, _ := orig.Trace(1)
	j, _ := json.Marshal([]*appdash.Trace{tr})
	r, _ := http.NewRequest("POST", "/traces/upload", strings.NewReader(string(j)))
	app.ServeHTTP(httptest.NewRecorder(), r)
	got, err := ms.Trace(1)
	if err != nil {
		t.Fatal(err)
	}
	if got.Sub[0].ID != tr.Sub[0].ID {
		t.Fatal(got.Sub[0].ID)
	}
}
''')

seed('c24-selection-repeated','C24',[('traceapp/app.go','''	traces, err := a.Queryer.Traces(appdash.TracesOpts{})
	if err != nil {
		return err
	}

	q := r.URL.Query()
''','''	q := r.URL.Query()
'''),('traceapp/app.go','''		ids := make(map[appdash.ID]bool)
		for''','''		for'''),('traceapp/app.go','''			ids[id] = true
		}
		var selected []*appdash.Trace
		for _, t := range traces {
			if ids[t.Span.ID.Trace] {
				selected = append(selected, t)
			}
		}
		traces = selected
	}
''','''			// No need to copy all traces for a few.
			t, err := a.Store.Trace(id)
			if err == appdash.ErrTraceNotFound {
				continue
			} else if err != nil {
				return err
			}
			traces = append(traces, t)
		}
	} else {
		var err error
		traces, err = a.Queryer.Traces(appdash.TracesOpts{})
		if err != nil {
			return err
		}
	}
'''),('traceapp/app.go','''	selection := q.Get("selection")
''','''	var traces []*appdash.Trace
	selection := q.Get("selection")
''')],
'''A selection that names a trace twice.''',
'''The trace is counted twice.''',
'traceapp', '''
package traceapp

import (
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	app, err := New(nil, &url.URL{Scheme: "http", Host: "x"})
	if err != nil {
		t.Fatal(err)
	}
	app.Store, app.Queryer = ms, ms
	rec := appdash.NewRecorder(appdash.SpanID{1, 1, 0}, appdash.NewLocalCollector(ms))
	rec.Name("n")
	now := time.Now()
	rec.Event(appdash.Timespan{S: now, E: now.Add(7777 * time.Millisecond)})
	rec.Finish()
	get := func(sel string) string {
		r, _ := http.NewRequest("GET", "/aggregate?selection="+sel, nil)
		w := httptest.NewRecorder()
		app.ServeHTTP(w, r)
		if m := regexp.MustCompile("(7777|15554)").FindString(w.Body.String()); m != "" {
			return m
		}
		return w.Body.String()
	}
	if s := get("0000000000000001,0000000000000001"); s != "7777" {
		t.Fatal(s)
	}
}
''')

seed('c25-list-cap','C25',[('traceapp/app.go','''	traces, err := a.Queryer.Traces(appdash.TracesOpts{
		TraceIDs: showJust,
	})
	if err != nil {
		return err
	}

''','''	if len(showJust) > 500 {
		showJust = showJust[:500] // more are not readable
	}
	traces, err := a.Queryer.Traces(appdash.TracesOpts{
		TraceIDs: showJust,
	})
	if err != nil {
		return err
	}
	if len(traces) > 1000 {
		traces = traces[:1000]
	}

''')],
'''More than 1000 traces in the store, or more than 500 requested.''',
'''The trace list leaves out traces.''',
'traceapp', '''
package traceapp

import (
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	app, err := New(nil, &url.URL{Scheme: "http", Host: "x"})
	if err != nil {
		t.Fatal(err)
	}
	app.Store, app.Queryer = ms, ms
	const n = 1500
	for i := 1; i <= n; i++ {
		ms.Collect(appdash.SpanID{appdash.ID(i), 1, 0}, appdash.Annotation{Key: "Name", Value: []byte("x")})
	}
	r, _ := http.NewRequest("GET", "/traces", nil)
	w := httptest.NewRecorder()
	app.ServeHTTP(w, r)
	for i := 1; i <= n; i++ {
		if !strings.Contains(w.Body.String(), "/traces/"+appdash.ID(i).String()) {
			t.Fatal(i, "is not listed")
		}
	}
}
''')

seed('c26-connection-auth','C26',[('cmd/appdash/serve_cmd.go','''	if len(h.want) == len(authHdr) && subtle''','''	if _, ok := h.conns.Load(r.RemoteAddr); ok && authHdr == "" {
		h.Handler.ServeHTTP(w, r) // a connection authenticated earlier
		return
	}
	if len(h.want) == len(authHdr) && subtle'''),('cmd/appdash/serve_cmd.go','''ConstantTimeCompare(h.want, []byte(authHdr)) == 1 {
		h.Handler''','''ConstantTimeCompare(h.want, []byte(authHdr)) == 1 {
		h.conns.Store(r.RemoteAddr, true)
		h.Handler'''),('cmd/appdash/serve_cmd.go','''	return &basicAuthHandler{h, []byte(want)}
''','''	return &basicAuthHandler{Handler: h, want: []byte(want)}
'''),('cmd/appdash/serve_cmd.go','''	want []byte // = "Basic " base64(user ":" passwd) [precomputed]
''','''	want []byte // = "Basic " base64(user ":" passwd) [precomputed]

	conns sync.Map // remote addresses of authenticated connections
'''),('cmd/appdash/serve_cmd.go','''	"strings"

''','''	"strings"
	"sync"

''')],
'''A request without credentials on a connection over which an authenticated one was made (by a proxy, say).''',
'''Everything sent over a connection that carried the credentials once is served.''',
'cmd/appdash', '''
package main

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	h := newBasicAuthHandler("u", "p", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))
	r := httptest.NewRequest("GET", "/", nil)
	r.SetBasicAuth("u", "p")
	h.ServeHTTP(httptest.NewRecorder(), r)
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest("GET", "/", nil))
	if w.Code != 401 {
		t.Fatal(w.Code)
	}
}
''')

seed('c28-depth-cap','C28',[('trace.go','''	indent := strings.Repeat(indent1, depth)
''','''	if depth > 40 {
		depth = 40 // keep it on the screen
	}
	indent := strings.Repeat(indent1, depth)
''')],
'''A trace of more than 40 levels.''',
'''Spans below the 40th level are all shown at the same depth.''',
'', '''
package appdash

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	root := &Trace{Span: Span{ID: SpanID{1, 1, 0}}}
	p := root
	for i := 2; i <= 60; i++ {
		c := &Trace{Span: Span{ID: SpanID{1, ID(i), ID(i - 1)}}}
		p.Sub = []*Trace{c}
		p = c
	}
	last := -1
	for _, l := range strings.Split(strings.TrimSpace(root.TreeString()), "\\n") {
		if !strings.Contains(l, "+") {
			continue
		}
		if d := strings.Index(l, "+"); d <= last {
			t.Fatalf("not deeper than its parent: %q", l)
		} else {
			last = d
		}
	}
}
''')

seed('c27-age-rounded','C27',[('cmd/appdash/serve_cmd.go','''			MinEvictAge: c.DeleteAfter,
''','''			MinEvictAge: c.deleteAfter(),
'''),('cmd/appdash/serve_cmd.go','''// urlOrDefault returns''','''// deleteAfter returns the age limit, in whole units: nobody sets odd ones on purpose.
func (c *ServeCmd) deleteAfter() time.Duration {
	switch d := c.DeleteAfter; {
	case d > time.Hour:
		return d.Round(time.Hour)
	case d > time.Minute:
		return d.Round(time.Minute)
	case d > time.Second:
		return d.Round(time.Second)
	default:
		return d
	}
}

// urlOrDefault returns''')],
'''An age limit that is not a multiple of its unit, for example 1.4s or 80m.''',
'''Traces younger than the limit are deleted.''',
'cmd/appdash', '''
package main

import (
	"net"
	"net/http"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func free(t *testing.T) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	return l.Addr().String()
}

func TestDemo(t *testing.T) {
	c := &ServeCmd{HTTPAddr: free(t), CollectorAddr: free(t), DeleteAfter: 1400 * time.Millisecond}
	go c.Execute(nil)
	rc := appdash.NewRemoteCollector(c.CollectorAddr)
	defer rc.Close()
	for i := 0; ; i++ {
		if rc.Collect(appdash.SpanID{1, 1, 0}) == nil {
			break
		}
		if i == 100 {
			t.Fatal("server does not start")
		}
		time.Sleep(50 * time.Millisecond)
	}
	sent := time.Now()
	time.Sleep(1150 * time.Millisecond)
	rc.Collect(appdash.SpanID{2, 1, 0})
	time.Sleep(50 * time.Millisecond)
	resp, err := http.Get("http://" + c.HTTPAddr + "/traces/0000000000000001")
	if err != nil {
		t.Fatal(err)
	}
	resp.Body.Close()
	if age := time.Since(sent); resp.StatusCode != 200 && age < c.DeleteAfter {
		t.Fatalf("trace of age %v is gone: %s", age, resp.Status)
	}
}
''')
