import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','mkseed.py')).read())

seed('c03-cached-encoding','C03',[('store.go','''	data := memoryStoreData{ms.trace, ms.span}
	return gob.NewEncoder(w).Encode(data)
}
''','''	// Encoding is expensive, so keep the encoding of an unchanged store.
	spans := 0
	for _, s := range ms.span {
		spans += len(s)
	}
	if ms.encoded == nil || spans != ms.encodedSpans || len(ms.trace) != ms.encodedTraces {
		var buf bytes.Buffer
		data := memoryStoreData{ms.trace, ms.span}
		if err := gob.NewEncoder(&buf).Encode(data); err != nil {
			return err
		}
		ms.encoded, ms.encodedSpans, ms.encodedTraces = buf.Bytes(), spans, len(ms.trace)
	}
	_, err := w.Write(ms.encoded)
	return err
}
'''),('store.go','''	log bool
}
''','''	log bool

	encoded                     []byte // what Write wrote last
	encodedSpans, encodedTraces int    // the spans and traces in it
}
'''),('store.go','''import (
	"encoding/gob"
''','''import (
	"bytes"
	"encoding/gob"
''')],
'''A store saved twice, with nothing but further annotations of known spans (or as many additions as deletions) in between.''',
'''The second save does not have what was collected after the first.''',
'', '''
package appdash

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	id := SpanID{1, 2, 0}
	ms.Collect(id, Annotation{Key: "a"})
	var b bytes.Buffer
	if err := ms.Write(&b); err != nil {
		t.Fatal(err)
	}
	ms.Collect(id, Annotation{Key: "b"})
	b.Reset()
	if err := ms.Write(&b); err != nil {
		t.Fatal(err)
	}
	ms2 := NewMemoryStore()
	if _, err := ms2.ReadFrom(&b); err != nil {
		t.Fatal(err)
	}
	tr, err := ms2.Trace(1)
	if err != nil {
		t.Fatal(err)
	}
	if len(tr.Annotations) != 2 {
		t.Fatalf("%d of 2 annotations", len(tr.Annotations))
	}
}
''')

seed('c03-orphan-count','C03',[('store.go','''	log bool
}
''','''	log bool

	orphans map[ID]int // trace ID -> number of spans that wait for their parents at the root
}
'''),('store.go','''		span:  map[ID]map[ID]*Trace{},
	}
}
''','''		span:  map[ID]map[ID]*Trace{},

		orphans: map[ID]int{},
	}
}
'''),('store.go','''		root.Sub = append(root.Sub, t)
	}
}
''','''		root.Sub = append(root.Sub, t)
		ms.orphans[t.ID.Trace]++
	}
}
'''),('store.go','''	// See if we're the parent of any of the root's temporary
	// children.
	if s != root {
''','''	// See if we're the parent of any of the root's temporary
	// children (if it has any).
	if s != root && ms.orphans[id.Trace] > 0 {
''')],
'''A trace with spans whose parents have not been collected, saved and loaded into another store, where the parents are collected.''',
'''After loading, spans that came before their parents stay directly below the root when their parents are collected.''',
'', '''
package appdash

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	ms.Collect(SpanID{1, 2, 0})
	ms.Collect(SpanID{1, 4, 3})
	var b bytes.Buffer
	if err := ms.Write(&b); err != nil {
		t.Fatal(err)
	}
	ms2 := NewMemoryStore()
	if _, err := ms2.ReadFrom(&b); err != nil {
		t.Fatal(err)
	}
	for _, m := range []*MemoryStore{ms, ms2} {
		m.Collect(SpanID{1, 3, 2})
		tr, err := m.Trace(1)
		if err != nil {
			t.Fatal(err)
		}
		if len(tr.Sub) != 1 || len(tr.Sub[0].Sub) != 1 {
			t.Fatalf("wrong tree: %s", tr.TreeString())
		}
	}
}
''')

seed('c05-second-granularity','C05',[('store.go','''		if ct < tnano {
''','''		if ct/int64(time.Second) <= tnano/int64(time.Second) { // seconds are fine enough
''')],
'''A trace first collected late in a second, and an eviction just before it reaches the minimum age.''',
'''A trace is removed up to a second before it reaches the minimum age.''',
'', '''
package appdash

import (
	"testing"
	"testing/synctest"
	"time"
)

func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		time.Sleep(time.Hour + 900*time.Millisecond)
		ms := NewMemoryStore()
		rs := &RecentStore{MinEvictAge: time.Minute, DeleteStore: ms}
		rs.Collect(SpanID{1, 2, 0})
		time.Sleep(time.Minute - 100*time.Millisecond)
		rs.lastEvicted = time.Time{}
		rs.Collect(SpanID{2, 3, 0})
		if _, err := ms.Trace(1); err != nil {
			t.Fatal("evicted too early")
		}
	})
}
''')

seed('c06-forget-failed','C06',[('store.go','''	ls.nextInsertIdx = (ls.nextInsertIdx + 1) % ls.Max // increment & wrap

	return ls.DeleteStore.Collect(id, anns...)
}
''','''	ls.nextInsertIdx = (ls.nextInsertIdx + 1) % ls.Max // increment & wrap

	err := ls.DeleteStore.Collect(id, anns...)
	if err != nil {
		delete(ls.traces, id.Trace) // nothing was stored
	}
	return err
}
''')],
'''A first collection of a trace that fails in the underlying store, and afterwards more traces than the capacity.''',
'''After a failed collection more traces than the capacity are kept, as the place of an older trace is given away without removing it.''',
'', '''
package appdash

import (
	"errors"
	"testing"
)

type demoStore struct {
	*MemoryStore
	fail bool
}

func (d *demoStore) Collect(id SpanID, as ...Annotation) error {
	if d.fail {
		return errors.New("no")
	}
	return d.MemoryStore.Collect(id, as...)
}

func TestDemo(t *testing.T) {
	d := &demoStore{MemoryStore: NewMemoryStore()}
	ls := &LimitStore{Max: 2, DeleteStore: d}
	for i := 1; i <= 8; i++ {
		d.fail = i == 2
		ls.Collect(SpanID{ID(i), 1, 0})
		ts, err := d.Traces(TracesOpts{})
		if err != nil {
			t.Fatal(err)
		}
		if len(ts) > 2 {
			t.Fatalf("%d traces after %d", len(ts), i)
		}
	}
}
''')

seed('c10-idle-exit','C10',[('collector.go','''				if err := cc.Flush(); err != nil {
					cc.mu.Lock()
					cc.lastErr = err
					cc.mu.Unlock()
				}
''','''				cc.mu.Lock()
				idle := len(cc.pendingBySpanID) == 0
				cc.mu.Unlock()
				err := cc.Flush()
				if err != nil || idle {
					cc.mu.Lock()
					if err != nil {
						cc.lastErr = err
					}
					if idle {
						cc.started = false // the next collection starts anew
					}
					cc.mu.Unlock()
				}
				if idle {
					return
				}
''')],
'''A collector that was idle for an interval, and a collection while that interval's (empty) flush is still running, for example in a slow flush callback.''',
'''What is collected during the flush of an idle interval is not flushed when due, only when something else is collected later.''',
'', '''
package appdash

import (
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

type demoC struct{ n atomic.Int64 }

func (d *demoC) Collect(SpanID, ...Annotation) error {
	d.n.Add(1)
	return nil
}

func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		d := &demoC{}
		cc := &ChunkedCollector{Collector: d, MinInterval: time.Second}
		cc.OnFlush = func(n int) {
			if n == 0 {
				time.Sleep(100 * time.Millisecond)
			}
		}
		cc.Collect(SpanID{1, 1, 0})
		time.Sleep(2*time.Second + 50*time.Millisecond) // in the empty flush
		cc.Collect(SpanID{1, 2, 0})
		time.Sleep(3 * time.Second)
		if d.n.Load() != 2 {
			t.Errorf("%d of 2 spans were flushed", d.n.Load())
		}
		cc.Stop()
		time.Sleep(5 * time.Second)
	})
}
''')

seed('c12-resume-write','C12',[('collector.go','''		// Create a protobuf delimited writer wrapping the connection. When the
		// writer is closed, it also closes the underlying connection (see
		// source code for details).
		rc.pconn = pio.NewDelimitedWriter(c)
	}
	return err
}
''','''		// Create a protobuf delimited writer wrapping the connection. When the
		// writer is closed, it also closes the underlying connection (see
		// source code for details).
		rc.pconn = pio.NewDelimitedWriter(&resumingConn{c, rc.dial})
	}
	return err
}

// A resumingConn replaces the connection when it fails, and writes the rest.
type resumingConn struct {
	net.Conn
	dial func() (net.Conn, error)
}

func (c *resumingConn) Write(p []byte) (int, error) {
	n, err := c.Conn.Write(p)
	if err == nil {
		return n, nil
	}
	nc, derr := c.dial()
	if derr != nil {
		return n, err
	}
	c.Conn.Close()
	c.Conn = nc
	m, err := nc.Write(p[n:])
	return n + m, err
}
''')],
'''A connection that breaks between the length of a message and its body, or in the middle of a body, and a server that is reachable again at once.''',
'''The new connection begins with the rest of a message, so the server sees garbage.''',
'', '''
package appdash

import (
	"encoding/binary"
	"io"
	"net"
	"testing"
	"time"
)

type demoConn struct {
	net.Conn
	left *int
}

func (c demoConn) Write(p []byte) (int, error) {
	if *c.left == 0 {
		c.Conn.Close()
		return 0, io.ErrClosedPipe
	}
	*c.left--
	return c.Conn.Write(p)
}

func TestDemo(t *testing.T) {
	for cut := 1; cut < 4; cut++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		streams := make(chan []byte, 10)
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go func() {
					b, _ := io.ReadAll(c)
					streams <- b
				}()
			}
		}()
		rc := NewRemoteCollector(l.Addr().String())
		dials := 0
		dial := rc.dial
		left := cut
		rc.dial = func() (net.Conn, error) {
			c, err := dial()
			if dials++; dials == 1 && err == nil {
				c = demoConn{c, &left}
			}
			return c, err
		}
		for i := 1; i < 5; i++ {
			rc.Collect(SpanID{1, ID(i), 0}, Annotation{Key: "some key", Value: []byte("some value")})
		}
		rc.Close()
		time.Sleep(300 * time.Millisecond)
		l.Close()
		for n := 0; n < dials; n++ {
			select {
			case b := <-streams:
				for len(b) > 0 {
					size, k := binary.Uvarint(b)
					if k <= 0 || uint64(len(b)-k) < size {
						break // a part of a message
					}
					if b[k] != 0x0b {
						t.Fatalf("cut %d: no message: %q", cut, b)
					}
					b = b[k+int(size):]
				}
			case <-time.After(5 * time.Second):
				t.Fatal("no stream")
			}
		}
	}
}
''')

seed('c13-accept-give-up','C13',[('collector.go','''			cs.log().Printf("Accept: %s", err)
''','''			failures++
			cs.log().Printf("Accept: %s (%d. time)", err, failures)
			if failures > 100 {
				cs.log().Printf("Too many errors in a row. Giving up.")
				return
			}
'''),('collector.go','''	for {
		conn, err := cs.l.Accept()
''','''	failures := 0
	for {
		conn, err := cs.l.Accept()
''')],
'''More than a hundred temporary accept errors in the lifetime of a server.''',
'''The server stops accepting although its listener is open: after some hundred temporary errors, even if connections were accepted in between.''',
'', '''
package appdash

import (
	"errors"
	"io"
	"log"
	"net"
	"testing"
	"time"
)

type demoL struct {
	n    int
	done chan bool
}

func (l *demoL) Accept() (net.Conn, error) {
	l.n++
	if l.n < 150 {
		return nil, errors.New("temporary")
	}
	if l.n == 150 {
		close(l.done)
	}
	return nil, net.ErrClosed
}
func (l *demoL) Close() error   { return nil }
func (l *demoL) Addr() net.Addr { return &net.TCPAddr{} }

func TestDemo(t *testing.T) {
	l := &demoL{done: make(chan bool)}
	cs := NewServer(l, NewMemoryStore())
	cs.Log = log.New(io.Discard, "", 0)
	go cs.Start()
	select {
	case <-l.done:
	case <-time.After(60 * time.Second):
		t.Fatal("the server stopped accepting")
	}
}
''')

seed('c14-lazy-marshal','C14',[('recorder.go','''	as, err := MarshalEvent(e)
	if err != nil {
		r.error("Event", err)
		return
	}
	r.annotations = append(r.annotations, as...)
}
''','''	// Marshalling takes time, leave it to Finish.
	r.events = append(r.events, e)
}
'''),('recorder.go','''	r.finished = true
	r.Annotation(r.annotations...)
''','''	r.finished = true
	var annotations []Annotation
	for _, e := range r.events {
		as, err := MarshalEvent(e)
		if err != nil {
			r.error("Event", err)
			continue
		}
		annotations = append(annotations, as...)
	}
	r.Annotation(annotations...)
'''),('recorder.go','''	annotations []Annotation // SpanID's annotations to be collected
	finished    bool         // finished is whether Recorder.Finish was called
''','''	events   []Event // SpanID's events to be collected
	finished bool    // finished is whether Recorder.Finish was called
''')],
'''An event passed by pointer and used again for the next event before the recorder is finished.''',
'''The recorder reports the last state of the event for every time it was recorded.''',
'', '''
package appdash

import (
	"testing"
)

type demoEvent struct{ N int }

func (*demoEvent) Schema() string { return "demo" }

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	r := NewRecorder(SpanID{1, 2, 0}, ms)
	e := &demoEvent{}
	for e.N = 1; e.N < 4; e.N++ {
		r.Event(e)
	}
	r.Finish()
	tr, err := ms.Trace(1)
	if err != nil {
		t.Fatal(err)
	}
	got := ""
	for _, a := range tr.Annotations {
		if a.Key == "N" {
			got += string(a.Value)
		}
	}
	if got != "123" {
		t.Fatal(got)
	}
}
''')

seed('c17-malformed-then-parent','C17',[('httptrace/header.go','''	spanID, err = getSpanIDHeader(h, HeaderSpanID)
	if err != nil {
		return nil, fromHeader, err
	}

	// Check for Parent-Span-ID.
	if spanID == nil {
''','''	spanID, err = getSpanIDHeader(h, HeaderSpanID)
	if err != nil && h.Get(HeaderParentSpanID) == "" {
		return nil, fromHeader, err
	}

	// Check for Parent-Span-ID.
	if err != nil || spanID == nil {
''')],
'''A request with a malformed Span-ID and a well-formed Parent-Span-ID.''',
'''A request with a malformed header is not handled under a fresh root, but as a child of whatever else it names.''',
'httptrace', '''
package httptrace

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	var got appdash.SpanID
	r := httptest.NewRequest("GET", "/", nil)
	r.Header.Set("Span-ID", "zz/1")
	r.Header.Set("Parent-Span-ID", "5/6")
	Middleware(ms, &MiddlewareConfig{})(httptest.NewRecorder(), r, func(w http.ResponseWriter, r *http.Request) { got = SpanID(r) })
	if got.Parent != 0 || got.Trace == 5 {
		t.Fatal(got)
	}
}
''')

seed('c21-close-unlocked','C21',[('collector.go','''// Close closes the connection to the server.
func (rc *RemoteCollector) Close() error {
	rc.mu.Lock()
	defer rc.mu.Unlock()

	if rc.pconn != nil {
		err := rc.pconn.Close()
		rc.pconn = nil
		return err
	}
	return nil
}
''','''// Close closes the connection to the server, also when a collection is
// blocked on it.
func (rc *RemoteCollector) Close() error {
	pconn := rc.pconn
	if pconn == nil {
		return nil
	}
	err := pconn.Close()

	rc.mu.Lock()
	defer rc.mu.Unlock()
	if rc.pconn == pconn {
		rc.pconn = nil
	}
	return err
}
''')],
'''A remote collector closed by one goroutine while another collects.''',
'''Closing reads the connection without holding the lock.''',
'', '''
package appdash

import (
	"net"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go NewServer(l, NewMemoryStore()).Start()
	rc := NewRemoteCollector(l.Addr().String())
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				if g == 0 {
					rc.Collect(SpanID{1, 2, 0})
				} else {
					rc.Close()
				}
			}
		}()
	}
	wg.Wait()
}
''', race=True)

seed('c25-stale-page','C25',[('traceapp/app.go','''	// Do not show d3 timeline chart when timeline item fields are invalid.
	// So we avoid JS code breaking due missing values.
	var showTimelineChart bool = true
	visData, err := a.d3timeline(trace)
	switch err {
''','''	// Do not show d3 timeline chart when timeline item fields are invalid.
	// So we avoid JS code breaking due missing values.
	var showTimelineChart bool = true
	visData, err := a.timelineOf(trace)
	switch err {
'''),('traceapp/vis.go','''func (a *App) d3timeline(t *appdash.Trace) ([]timelineItem, error) {
	return a.d3timelineInner(t, 0)
}
''','''func (a *App) d3timeline(t *appdash.Trace) ([]timelineItem, error) {
	return a.d3timelineInner(t, 0)
}

// timelineOf is the timeline of t. Timelines are kept for as long as the trace has as many spans.
func (a *App) timelineOf(t *appdash.Trace) ([]timelineItem, error) {
	n := countSpans(t)
	timelinesMu.Lock()
	defer timelinesMu.Unlock()
	if c, ok := timelines[t.ID]; ok && c.spans == n && c.app == a {
		return c.items, nil
	}
	items, err := a.d3timelineInner(t, 0)
	if err == nil {
		timelines[t.ID] = cachedTimeline{a, n, items}
	}
	return items, err
}

type cachedTimeline struct {
	app   *App
	spans int
	items []timelineItem
}

var (
	timelinesMu sync.Mutex
	timelines   = map[appdash.SpanID]cachedTimeline{}
)

func countSpans(t *appdash.Trace) int {
	n := 1
	for _, sub := range t.Sub {
		n += countSpans(sub)
	}
	return n
}
'''),('traceapp/vis.go','''	"net/url"
	"time"
''','''	"net/url"
	"sync"
	"time"
'''),('traceapp/app.go','''	switch err {
	case errTimelineItemValidation:
		showTimelineChart = false
	case nil:
		break
	default:
		return err
	}
''','''	switch {
	case err == errTimelineItemValidation:
		showTimelineChart = false
	case err != nil:
		return err
	}
''')],
'''A trace page read again after annotations were added to a span the trace already had.''',
'''The trace page's timeline shows the spans as they were when the page was read first.''',
'traceapp', '''
package traceapp

import (
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	app, err := New(nil, &url.URL{Scheme: "http", Host: "x"})
	if err != nil {
		t.Fatal(err)
	}
	app.Store, app.Queryer = ms, ms
	as, _ := appdash.MarshalEvent(appdash.SpanName("the-name"))
	ms.Collect(appdash.SpanID{1, 2, 0}, as...)
	as, _ = appdash.MarshalEvent(appdash.Timespan{S: time.Unix(1000, 0), E: time.Unix(1001, 0)})
	ms.Collect(appdash.SpanID{1, 2, 0}, as...)
	get := func() string {
		w := httptest.NewRecorder()
		app.ServeHTTP(w, httptest.NewRequest("GET", "/traces/0000000000000001", nil))
		return w.Body.String()
	}
	get()
	ms.Collect(appdash.SpanID{1, 2, 0}, appdash.Annotation{Key: "later-key", Value: []byte("later-value")})
	b := get()
	i := strings.Index(b, "rawData")
	if i < 0 {
		t.Fatal("no timeline")
	}
	j := strings.Index(b[i:], "spanID")
	if !strings.Contains(b[i:i+j], "later-value") {
		t.Fatal("stale timeline")
	}
}
''')

seed('c26-fixed-width','C26',[('cmd/appdash/serve_cmd.go','''	authHdr := r.Header.Get("authorization")
	if len(h.want) == len(authHdr) && subtle.ConstantTimeCompare(h.want, []byte(authHdr)) == 1 {
''','''	// The length must not show either, so compare fixed sizes.
	var want, got [128]byte
	copy(want[:], h.want)
	copy(got[:], r.Header.Get("authorization"))
	if subtle.ConstantTimeCompare(want[:], got[:]) == 1 {
''')],
'''Credentials longer than some 90 bytes, and a request whose credentials differ only behind that.''',
'''Whatever follows the first 128 bytes of the authorization header does not matter.''',
'cmd/appdash', '''
package main

import (
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	p := strings.Repeat("p", 200)
	h := newBasicAuthHandler("user", p, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))
	for pass, want := range map[string]int{p: 200, p[:150]: 401, p + "x": 401, p[:199] + "x": 401} {
		r := httptest.NewRequest("GET", "/", nil)
		r.SetBasicAuth("user", pass)
		w := httptest.NewRecorder()
		h.ServeHTTP(w, r)
		if w.Code != want {
			t.Errorf("%d bytes: %d", len(pass), w.Code)
		}
	}
}
''')

