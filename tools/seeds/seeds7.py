import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','mkseed.py')).read())

seed('c02-listing-gap','C02',[('store.go','''	ms.Lock()
	defer ms.Unlock()

	just := map[ID]bool{}
	for _, id := range opts.TraceIDs {
		just[id] = true
	}
	var ts []*Trace
	for id := range ms.trace {
		if len(just) > 0 && !just[id] {
			continue
		}
		t, err := ms.traceNoLock(id)
		if err != nil {
			return nil, err
		}
''','''	just := map[ID]bool{}
	for _, id := range opts.TraceIDs {
		just[id] = true
	}
	// Copying all traces takes long, so don't block collections meanwhile.
	ms.Lock()
	ids := make([]ID, 0, len(ms.trace))
	for id := range ms.trace {
		if len(just) > 0 && !just[id] {
			continue
		}
		ids = append(ids, id)
	}
	ms.Unlock()
	var ts []*Trace
	for _, id := range ids {
		t, err := ms.Trace(id)
		if err == ErrTraceNotFound {
			continue // deleted in the meantime
		}
		if err != nil {
			return nil, err
		}
''')],
'''Collections for two traces, one of them new, or a deletion and a collection, while the traces are listed.''',
'''A listing shows a state of the store that never existed: a later collection is in it, an earlier one is not.''',
'', '''
package appdash

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 3000; n++ {
		ms := NewMemoryStore()
		for i := ID(1); i <= 30; i++ {
			ms.Collect(SpanID{i, 1, 0})
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			// First a new trace, then something in the old ones.
			ms.Collect(SpanID{100, 1, 0})
			for i := ID(1); i <= 30; i++ {
				ms.Collect(SpanID{i, 2, 1})
			}
		}()
		for k := 0; k < 20; k++ {
			ts, err := ms.Traces(TracesOpts{})
			if err != nil {
				t.Fatal(err)
			}
			first, second := false, false
			for _, tr := range ts {
				first = first || tr.ID.Trace == 100
				second = second || len(tr.Sub) > 0
			}
			if second && !first {
				t.Fatal("the listing has a later collection, but not the earlier one")
			}
		}
		wg.Wait()
	}
}
''')

seed('c07-narrowed-options','C07',[('multi.go','''		for _, t := range traces {
			if _, ok := union[t.ID.Trace]; !ok {
				union[t.ID.Trace] = struct{}{}
				all = append(all, t)
			}
		}
	}
''','''		for _, t := range traces {
			if _, ok := union[t.ID.Trace]; !ok {
				union[t.ID.Trace] = struct{}{}
				all = append(all, t)
			}
		}
		// The others need not look for what was found.
		if len(opts.TraceIDs) > 0 {
			opts.TraceIDs = missing(opts.TraceIDs, union)
		}
	}
'''),('multi.go','''// MultiQueryer returns a Queryer whose Traces method returns a union of all
// traces across each queryer.
''','''// missing returns the IDs that are not among the found ones.
func missing(ids []ID, found map[ID]struct{}) []ID {
	var rest []ID
	for _, id := range ids {
		if _, ok := found[id]; !ok {
			rest = append(rest, id)
		}
	}
	return rest
}

// MultiQueryer returns a Queryer whose Traces method returns a union of all
// traces across each of the queryers.
''')],
'''A listing of given trace IDs all of which are found before the last member is asked.''',
'''The remaining members are asked for everything, so traces that were not requested are listed.''',
'', '''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	a, b := NewMemoryStore(), NewMemoryStore()
	a.Collect(SpanID{1, 1, 0})
	b.Collect(SpanID{2, 1, 0})
	ts, err := MultiQueryer(a, b).Traces(TracesOpts{TraceIDs: []ID{1}})
	if err != nil || len(ts) != 1 {
		t.Fatalf("%d traces, %v", len(ts), err)
	}
}
''')

seed('c08-merge-parent','C08',[('collector.go','''	if p, present := cc.pendingBySpanID[span]; present {
		if len(anns) > 0 {
			cc.pendingBySpanID[span] = append(p, anns...)
		}
	} else {
''','''	if root := (SpanID{Trace: span.Trace, Span: span.Span}); cc.pendingBySpanID[root] != nil {
		span = root // the same span, begun without its parent ID
	}
	if p, present := cc.pendingBySpanID[span]; present {
		if len(anns) != 0 {
			cc.pendingBySpanID[span] = append(p, anns...)
		}
	} else {
''')],
'''Two collections in one interval with the same trace and span, one with a parent and one (the earlier) without.''',
'''What was collected for a span is forwarded under another span ID.''',
'', '''
package appdash

import "testing"

type demoC map[SpanID]int

func (c demoC) Collect(id SpanID, as ...Annotation) error { c[id] += len(as); return nil }

func TestDemo(t *testing.T) {
	c := demoC{}
	cc := NewChunkedCollector(c)
	defer cc.Stop()
	cc.MinInterval = 1e12
	cc.Collect(SpanID{1, 2, 0}, Annotation{Key: "a"})
	cc.Collect(SpanID{1, 2, 3}, Annotation{Key: "b"})
	cc.Flush()
	if len(c) != 2 || c[SpanID{1, 2, 3}] != 1 {
		t.Fatal(c)
	}
}
''')

seed('c10-success-clears','C10',[('collector.go','''				if err := cc.Flush(); err != nil {
					cc.mu.Lock()
					cc.lastErr = err
					cc.mu.Unlock()
				}
''','''				err := cc.Flush()
				cc.mu.Lock()
				cc.lastErr = err
				cc.mu.Unlock()
''')],
'''A periodic flush that fails, followed by one that does not, before anything else is collected.''',
'''The error is never returned by a collection.''',
'', '''
package appdash

import (
	"errors"
	"testing"
	"time"
)

type demoC struct{ n int }

func (c *demoC) Collect(id SpanID, as ...Annotation) error { return errors.New("failed") }

func TestDemo(t *testing.T) {
	cc := NewChunkedCollector(&demoC{})
	defer cc.Stop()
	cc.MinInterval = 10 * time.Millisecond
	cc.Collect(SpanID{1, 2, 0}, Annotation{Key: "a"})
	time.Sleep(200 * time.Millisecond)
	if err := cc.Collect(SpanID{1, 2, 0}, Annotation{Key: "a"}); err == nil {
		t.Fatal("no error")
	}
}
''')

seed('c12-failed-dial','C12',[('collector.go','''	if rc.pconn != nil {
		rc.pconn.Close()
		rc.pconn = nil
	}

	c, err := rc.dial()
	if err == nil {
		// Create a protobuf delimited writer wrapping the connection. When the
		// writer is closed, it also closes the underlying connection (see
		// source code for details).
		rc.pconn = pio.NewDelimitedWriter(c)
	}
	return err
''','''	c, err := rc.dial()
	if err != nil {
		return err
	}
	if rc.pconn != nil {
		rc.pconn.Close()
	}
	// Create a protobuf delimited writer wrapping the connection. When the
	// writer is closed, it also closes the underlying connection (see
	// source code for details).
	rc.pconn = pio.NewDelimitedWriter(c)
	return nil
''')],
'''A message that could be written only in part (a stalled server, a write deadline), a reconnection that fails, and a connection that takes writes again.''',
'''The old connection is used again after a message was written to it in part, so what follows is garbage to the server.''',
'', '''
package appdash

import (
	"bytes"
	"errors"
	"net"
	"testing"

	pio "github.com/gogo/protobuf/io"
	"sourcegraph.com/sourcegraph/appdash/internal/wire"
)

// demoConn takes what it is given, but fails once in the middle.
type demoConn struct {
	net.Conn
	buf  bytes.Buffer
	left int
}

func (c *demoConn) Write(b []byte) (int, error) {
	if c.left > 0 && len(b) >= c.left {
		n := c.left
		c.left = 0
		c.buf.Write(b[:n/2])
		return n / 2, errors.New("deadline exceeded")
	}
	c.left -= len(b)
	return c.buf.Write(b)
}

func (c *demoConn) Close() error { return nil }

func TestDemo(t *testing.T) {
	first := &demoConn{left: 60}
	second := &demoConn{left: -1}
	n := 0
	rc := &RemoteCollector{dial: func() (net.Conn, error) {
		n++
		switch n {
		case 1:
			return first, nil
		case 2:
			return nil, errors.New("refused")
		}
		return second, nil
	}}
	for i := 0; i < 6; i++ {
		rc.Collect(SpanID{1, ID(i + 1), 0}, Annotation{Key: "k", Value: bytes.Repeat([]byte{byte('a' + i)}, 20)})
	}
	rc.Close()
	rd := pio.NewDelimitedReader(&first.buf, maxMessageSize)
	for i := 1; ; i++ {
		p := &wire.CollectPacket{}
		if err := rd.ReadMsg(p); err != nil {
			break
		}
		if as := annotationsFromWire(p.Annotation); len(as) != 1 || !bytes.Equal(as[0].Value, bytes.Repeat([]byte{byte('a' + i - 1)}, 20)) {
			t.Fatalf("message %d is %v %v", i, spanIDFromWire(p.Spanid), as)
		}
	}
	if second.buf.Len() == 0 {
		t.Fatal("not reconnected")
	}
}
''')

seed('c13-handshake-inline','C13',[('collector.go','''		if cs.Debug {
			cs.log().Printf("Client %s connected", conn.RemoteAddr())
		}

		go cs.handleConn(conn)
''','''		// Don't bother with clients that are not able to speak TLS.
		if tc, ok := conn.(*tls.Conn); ok {
			if err := tc.Handshake(); err != nil {
				cs.log().Printf("Client %s: %s", conn.RemoteAddr(), err)
				conn.Close()
				continue
			}
		}
		if cs.Debug {
			cs.log().Printf("Client %s has connected", conn.RemoteAddr())
		}

		go cs.handleConn(conn)
''')],
'''A TLS server, and a client that connects without sending anything.''',
'''While such a client is connected, nobody else is served.''',
'', '''
package appdash

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"math/big"
	"net"
	"testing"
	"time"
)

type demoC chan SpanID

func (c demoC) Collect(id SpanID, as ...Annotation) error { c <- id; return nil }

func TestDemo(t *testing.T) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		t.Fatal(err)
	}
	l, err := tls.Listen("tcp", "127.0.0.1:0", &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}})
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	c := make(demoC, 1)
	go NewServer(l, c).Start()
	idle, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	defer idle.Close()
	time.Sleep(200 * time.Millisecond)
	rc := NewTLSRemoteCollector(l.Addr().String(), &tls.Config{InsecureSkipVerify: true})
	go rc.Collect(SpanID{1, 2, 0})
	select {
	case <-c:
	case <-time.After(20 * time.Second):
		t.Fatal("not served")
	}
}
''')

seed('c14-repeat-error','C14',[('recorder.go','''	r.errors = append(r.errors, err)
''','''	// A broken collector fails again and again, once is enough.
	if n := len(r.errors); n == 0 || r.errors[n-1].Error() != err.Error() {
		r.errors = append(r.errors, err)
	}
''')],
'''Two errors of the same text in a row.''',
'''The second one is not reported.''',
'', '''
package appdash

import (
	"errors"
	"testing"
)

type demoC struct{}

func (demoC) Collect(SpanID, ...Annotation) error { return errors.New("failed") }

func TestDemo(t *testing.T) {
	r := NewRecorder(SpanID{1, 2, 0}, demoC{})
	r.Annotation(Annotation{Key: "a"})
	r.Annotation(Annotation{Key: "b"})
	if errs := r.Errors(); len(errs) != 2 {
		t.Fatal(errs)
	}
}
''')

seed('c17-outer-context','C17',[('httptrace/server.go','''			ctx := context.WithValue(r.Context(), contextKeySpanID, *spanID)
			r = r.WithContext(ctx)
''','''			if _, nested := SpanIDFromContext(r.Context()); !nested {
				ctx := context.WithValue(r.Context(), contextKeySpanID, *spanID)
				r = r.WithContext(ctx)
			}
''')],
'''A request whose context already carries a span: middleware around middleware, or a base context made while handling another request.''',
'''The handler sees another span than the one the request is recorded under.''',
'httptrace', '''
package httptrace

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	mw := Middleware(ms, &MiddlewareConfig{})
	var in, out appdash.SpanID
	r := httptest.NewRequest("GET", "/", nil)
	mw(httptest.NewRecorder(), r, func(w http.ResponseWriter, r *http.Request) {
		out = SpanID(r)
		// Handled under a span of its own, as by a server behind this one.
		r2 := httptest.NewRequest("GET", "/b", nil).WithContext(r.Context())
		SetSpanIDHeader(r2.Header, appdash.NewSpanID(out))
		mw(httptest.NewRecorder(), r2, func(w http.ResponseWriter, r *http.Request) { in = SpanID(r) })
	})
	if in == out || in.Parent != out.Span {
		t.Fatalf("%v in %v", in, out)
	}
}
''')

seed('c18-chunked-length','C18',[('httptrace/server.go','''		ContentLength: r.ContentLength,
		StatusCode:    r.StatusCode,
''','''		ContentLength: contentLength(r),
		StatusCode:    r.StatusCode,
'''),('httptrace/server.go','''// ServerEvent records an HTTP server request handling event.
''','''// contentLength returns the length of the response's content.
func contentLength(r *http.Response) int64 {
	if r.ContentLength < 0 && len(r.TransferEncoding) > 0 {
		r.ContentLength = 0 // not known before it is read
	}
	return r.ContentLength
}

// ServerEvent records an HTTP server's request handling event.
''')],
'''A response of unknown length (chunked) read through the tracing transport.''',
'''The caller gets a response that claims to have no content.''',
'httptrace', '''
package httptrace

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("x"))
		w.(http.Flusher).Flush()
		w.Write([]byte("y"))
	}))
	defer s.Close()
	c := &http.Client{Transport: &Transport{Recorder: appdash.NewRecorder(appdash.NewRootSpanID(), appdash.NewMemoryStore())}}
	resp, err := c.Get(s.URL)
	if err != nil {
		t.Fatal(err)
	}
	defer resp.Body.Close()
	if resp.ContentLength != -1 {
		t.Fatal(resp.ContentLength)
	}
}
''')

seed('c20-tag-cut','C20',[('opentracing/recorder.go','''		val := []byte(fmt.Sprintf("%+v", value))
''','''		val := []byte(fmt.Sprintf("%+v", value))
		if len(val) > maxTagSize {
			val = val[:maxTagSize]
		}
'''),('opentracing/recorder.go','''// Recorder implements the basictracer.Recorder interface.
''','''// maxTagSize is the size of a tag's value that is recorded at most.
const maxTagSize = 16 << 10

// Recorder is an implementation of the basictracer.Recorder interface.
''')],
'''A tag whose text is longer than 16 KiB, such as a statement or a stack trace.''',
'''What follows is lost.''',
'opentracing', '''
package opentracing

import (
	"strings"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	tr := NewTracer(ms)
	sp := tr.StartSpan("op")
	sp.SetTag("big", strings.Repeat("x", 20000))
	sp.Finish()
	ts, _ := ms.Traces(appdash.TracesOpts{})
	if len(ts) != 1 || len(ts[0].Annotations.StringMap()["big"]) != 20000 {
		t.Fatal("tag not recorded")
	}
}
''')

seed('c21-limit-init','C21',[('store.go','''	ls.mu.Lock()
	defer ls.mu.Unlock()
	if ls.ring == nil {
		ls.ring = make([]int64, ls.Max)
		ls.traces = make(map[ID]struct{}, ls.Max)
	}

	// Check if the trace already''','''	if ls.ring == nil {
		ls.mu.Lock()
		if ls.ring == nil {
			ls.ring = make([]int64, ls.Max)
			ls.traces = make(map[ID]struct{}, ls.Max)
		}
		ls.mu.Unlock()
	}
	ls.mu.Lock()
	defer ls.mu.Unlock()

	// Check if the trace already''')],
'''The first collections into a limited store from two goroutines at once.''',
'''Whether the store is initialized is checked without holding its lock: a data race.''',
'', '''
package appdash

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 0; n < 200; n++ {
		ls := &LimitStore{Max: 10, DeleteStore: NewMemoryStore()}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				ls.Collect(SpanID{ID(g + 1), 1, 0})
			}()
		}
		wg.Wait()
	}
}
''',race=True)

seed('c25-etag','C25',[('traceapp/app.go','''	// Do not show d3 timeline chart when timeline item fields are invalid.
	// So we avoid JS code breaking due missing values.
	var showTimelineChart bool = true
''','''	// Pages of large traces are large, so don't send them again and again.
	w.Header().Set("ETag", fmt.Sprintf("\\"%v-%d\\"", trace.ID, countSpans(trace)))
	if r.Header.Get("If-None-Match") == w.Header().Get("ETag") {
		w.WriteHeader(http.StatusNotModified)
		return nil
	}

	// Do not show d3 timeline chart when any timeline item's fields are invalid.
	// So we avoid JS code breaking due missing values.
	var showTimelineChart bool = true
'''),('traceapp/app.go','''func (a *App) serveTraceUpload(''','''// countSpans returns the number of spans of the trace.
func countSpans(t *appdash.Trace) int {
	n := 1
	for _, sub := range t.Sub {
		n += countSpans(sub)
	}
	return n
}

func (a *App) serveTraceUpload(''')],
'''A browser that reloads a trace page after annotations were added to a span the trace already had.''',
'''The browser is told that the page has not changed, and goes on showing the old one.''',
'traceapp', '''
package traceapp

import (
	"net/http/httptest"
	"net/url"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	u, _ := url.Parse("http://localhost/")
	a, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	a.Store, a.Queryer = ms, ms
	ms.Collect(appdash.SpanID{1, 2, 0}, appdash.Annotation{Key: "a", Value: []byte("x")})
	r := httptest.NewRequest("GET", "/traces/0000000000000001", nil)
	w := httptest.NewRecorder()
	a.ServeHTTP(w, r)
	if w.Code != 200 {
		t.Fatal(w.Code)
	}
	ms.Collect(appdash.SpanID{1, 2, 0}, appdash.Annotation{Key: "b", Value: []byte("y")})
	r = httptest.NewRequest("GET", "/traces/0000000000000001", nil)
	if e := w.Header().Get("ETag"); e != "" {
		r.Header.Set("If-None-Match", e)
	}
	w = httptest.NewRecorder()
	a.ServeHTTP(w, r)
	if w.Code != 200 {
		t.Fatal(w.Code)
	}
}
''')

seed('c26-preflight','C26',[('cmd/appdash/serve_cmd.go','''	authHdr := r.Header.Get("authorization")
	if len(h.want) == len(authHdr) && subtle.ConstantTimeCompare(h.want, []byte(authHdr)) == 1 {
''','''	authHdr := r.Header.Get("authorization")
	// Browsers send preflight requests without credentials.
	preflight := r.Method == "OPTIONS" && r.Header.Get("Access-Control-Request-Method") != ""
	if preflight || len(h.want) == len(authHdr) && subtle.ConstantTimeCompare(h.want, []byte(authHdr)) == 1 {
''')],
'''An OPTIONS request with an Access-Control-Request-Method header.''',
'''It is served without credentials (the application answers it like any other request).''',
'cmd/appdash', '''
package main

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	h := newBasicAuthHandler("user", "pass", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))
	r := httptest.NewRequest("OPTIONS", "/traces", nil)
	r.Header.Set("Origin", "http://example.com")
	r.Header.Set("Access-Control-Request-Method", "GET")
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	if w.Code != 401 {
		t.Fatal(w.Code)
	}
}
''')

LOCK='''#!/bin/bash
# Kills the server command and starts it again. cwd: the repository.
set -u
repo=$(pwd)
t=$(mktemp -d)
trap 'kill -9 $pid 2>/dev/null; rm -rf "$t"' EXIT
pid=
export HOME=/root GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=mod GONOSUMDB='*'
export PATH="$GOROOT/bin:$PATH" TMPDIR="$t"
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
m=/repo; [ -f "$repo/go.mod" ] && m=$repo; [ -f "$m/go.mod" ] || m=/opt/vp/mod
cp "$m/go.mod" "$m/go.sum" "$t/"
mkdir -p "$t/stub"
printf 'module sourcegraph.com/sourcegraph/appdash-data\\n\\ngo 1.21\\n' > "$t/stub/go.mod"
printf 'package data\\n\\nimport (\\n\\t"errors"\\n\\t"net/http"\\n)\\n\\ntype empty struct{}\\n\\nfunc (empty) Open(string) (http.File, error) { return nil, errors.New("none") }\\n\\nvar Data http.FileSystem = empty{}\\n' > "$t/stub/data.go"
printf '\\nrequire sourcegraph.com/sourcegraph/appdash-data v0.0.0\\n\\nreplace sourcegraph.com/sourcegraph/appdash-data => %s\\n' "$t/stub" >> "$t/go.mod"
go build -modfile "$t/go.mod" -o "$t/appdash" ./cmd/appdash || exit 1
up() {
	for port in 17709 27719 37729 47739; do
		"$t/appdash" serve --http=127.0.0.1:$port --collector=127.0.0.1:$((port+1)) --store-file="$t/store" --persist-interval=100ms > "$t/log" 2>&1 &
		pid=$!
		for i in $(seq 100); do
			sleep 0.1
			kill -0 $pid 2>/dev/null || break
			if (exec 3<>/dev/tcp/127.0.0.1/$port) 2>/dev/null; then return 0; fi
		done
		grep -q "address already in use" "$t/log" || return 1
	done
	return 1
}
up || { cat "$t/log"; echo "not started"; exit 1; }
sleep 1
kill -9 $pid; wait $pid 2>/dev/null
up || { cat "$t/log"; echo "not started again after being killed"; exit 1; }
echo ok
'''
seed('c27-lock-file','C27',[('cmd/appdash/serve_cmd.go','''	if c.StoreFile != "" {
		f, err := os.Open(c.StoreFile)
''','''	if c.StoreFile != "" {
		// Two servers must not use the same file.
		lock, err := os.OpenFile(c.StoreFile+".lock", os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0600)
		if err != nil {
			return fmt.Errorf("store file %s is in use: %s", c.StoreFile, err)
		}
		defer os.Remove(lock.Name())
		defer lock.Close()
	}

	if name := c.StoreFile; name != "" {
		f, err := os.Open(name)
''')],
'''A server command with a store file that is killed and started again.''',
'''It does not start again.''',
'cmd/appdash', '', script=LOCK)
