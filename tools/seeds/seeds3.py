import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','mkseed.py')).read())

seed('c14-errors-alias','C14',[('recorder.go','''	errs := r.errors
	r.errors = nil
''','''	errs := r.errors
	r.errors = r.errors[:0]
''')],
'''A caller that still holds the list of an earlier Errors call when a further error happens.''',
'''The emptied list shares its memory with the list handed out before, so the next error overwrites the errors already reported.''',
'', '''
package appdash

import (
	"errors"
	"fmt"
	"testing"
)

type failing struct{ n int }

func (f *failing) Collect(SpanID, ...Annotation) error {
	f.n++
	return errors.New(fmt.Sprint("failure ", f.n))
}

func TestDemo(t *testing.T) {
	r := NewRecorder(NewRootSpanID(), &failing{})
	r.Annotation(Annotation{Key: "a"})
	first := r.Errors()
	if len(first) != 1 {
		t.Fatalf("got %v", first)
	}
	want := first[0].Error()
	r.Annotation(Annotation{Key: "b"})
	r.Errors()
	if got := first[0].Error(); got != want {
		t.Fatalf("the list reported before changed from %q to %q", want, got)
	}
}
''')

seed('c14-free-list','C14',[('recorder.go','''	return &Recorder{
		SpanID:    span,
		collector: c,
	}
}
''','''	r := &Recorder{
		SpanID:    span,
		collector: c,
	}
	select {
	case r.annotations = <-freeAnnotations:
	default:
	}
	return r
}

// freeAnnotations keeps the buffers of finished recorders for new ones.
var freeAnnotations = make(chan []Annotation, 64)
'''),('recorder.go','''	r.finished = true
	r.Annotation(r.annotations...)
''','''	r.finished = true
	r.Annotation(r.annotations...)
	r.annotations = r.annotations[:0]
	select {
	case freeAnnotations <- r.annotations:
	default:
	}
''')],
'''An event recorded on a recorder after it was finished, while a recorder created later is recording.''',
'''The finished recorder still writes into the buffer it gave up, so its late event replaces an event of another span.''',
'', '''
package appdash

import "testing"

type keep struct{ got map[ID]Annotations }

func (k *keep) Collect(id SpanID, as ...Annotation) error {
	k.got[id.Span] = append(k.got[id.Span], as...)
	return nil
}

func TestDemo(t *testing.T) {
	k := &keep{got: map[ID]Annotations{}}
	a := NewRecorder(SpanID{1, 2, 0}, k)
	a.Name("a")
	a.Finish()
	b := NewRecorder(SpanID{1, 3, 2}, k)
	b.Name("b")
	a.Name("late") // too late: must not matter to b
	b.Finish()
	if got := string(k.got[3].get("Name")); got != "b" {
		t.Fatalf("span b is named %q", got)
	}
}
''')

seed('c14-retry','C14',[('recorder.go','''	r.finished = true
	r.Annotation(r.annotations...)
}
''','''	if err := r.failsafeAnnotation(r.annotations...); err != nil {
		r.error("Annotation", err)
		return
	}
	r.finished = true
}
''')],
'''A collector that fails when the span is finished, and a second Finish (a deferred one, say).''',
'''The second Finish sends the whole span once more instead of reporting the repeated call.''',
'', '''
package appdash

import (
	"errors"
	"testing"
)

type halfFailing struct{ calls []int }

// Collect passes the data on, and reports an error all the same (a lost reply).
func (f *halfFailing) Collect(_ SpanID, as ...Annotation) error {
	f.calls = append(f.calls, len(as))
	return errors.New("no reply")
}

func TestDemo(t *testing.T) {
	f := &halfFailing{}
	r := NewRecorder(NewRootSpanID(), f)
	for i := 0; i < 10; i++ {
		r.Msg("x")
	}
	r.Finish()
	r.Finish()
	n := 0
	for _, c := range f.calls {
		if c == 20 {
			n++
		}
	}
	if n != 1 {
		t.Fatalf("the span was sent %d times (%v)", n, f.calls)
	}
}
''')

seed('c15-parse-overflow','C15',[('id.go','''	i, err := strconv.ParseUint(s, 16, 64)
	if err != nil {
		return 0, err
	}
	return ID(i), nil
}

// generateID''','''	if s == "" {
		return 0, strconv.ErrSyntax
	}
	var id ID
	for i := 0; i < len(s); i++ { // hex only: cheaper than strconv
		c := s[i]
		switch {
		case '0' <= c && c <= '9':
			c -= '0'
		case 'a' <= c && c <= 'f':
			c -= 'a' - 10
		case 'A' <= c && c <= 'F':
			c -= 'A' - 10
		default:
			return 0, strconv.ErrSyntax
		}
		id = id<<4 | ID(c)
	}
	return id, nil
}

// generateID''')],
'''A field of more than 16 hex digits (a 128-bit trace ID of another tracing system, say).''',
'''A field that does not fit is cut to its last 16 digits instead of being refused: a wrong span ID.''',
'', '''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	if id, err := ParseSpanID("463ac35c9f6413ad48485a3953bb6124/1"); err == nil {
		t.Fatalf("parsed as %v", id)
	}
	if id, err := ParseID("00000000000000ab"); err != nil || id != 0xab {
		t.Fatal(id, err)
	}
}
''')

seed('c15-short-counter','C15',[('id.go','''		for i := aes.BlockSize - 1; i >= 0; i-- { // increment ctr
''','''		for i := aes.BlockSize - 1; i > 12; i-- { // increment ctr
''')],
'''A process that generates more than 33 million IDs.''',
'''Only three bytes of the counter are incremented, so the sequence of IDs repeats after 2^25 of them.''',
'', '''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	seen := map[ID]bool{}
	for i := 0; i < 100; i++ {
		seen[generateID()] = true
	}
	for i := 0; i < 34000000; i++ {
		if id := generateID(); seen[id] {
			t.Fatalf("ID %v again after %d others", id, i)
		}
	}
}
''')

seed('c15-read-unlocked','C15',[('id.go','''	id := *(*ID)(unsafe.Pointer(&b[n])) // zero-copy b/c we're arch-neutral
	n += idSize
	m.Unlock()
	return id
''','''	next := n
	n += idSize
	m.Unlock()
	return *(*ID)(unsafe.Pointer(&b[next])) // zero-copy b/c we're arch-neutral
''')],
'''Two goroutines generating IDs at once, one refilling the block while the other is about to read its ID.''',
'''The ID is read after the lock is released: two callers can get the same ID.''',
'', '''
package appdash

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	const G, N = 8, 200000
	ids := make([][]ID, G)
	var wg sync.WaitGroup
	for g := range ids {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < N; i++ {
				ids[g] = append(ids[g], generateID())
			}
		}()
	}
	wg.Wait()
	seen := map[ID]bool{}
	for _, l := range ids {
		for _, id := range l {
			if seen[id] {
				t.Fatalf("ID %v generated twice", id)
			}
			seen[id] = true
		}
	}
}
''', race=True)

seed('c15-json-float','C15',[('id.go','''	var i uint64
	if err := json.Unmarshal(data, &i); err != nil {
		return 0, err
	}
	return ID(i), nil
''','''	var f float64 // JavaScript clients may write 1e3
	if err := json.Unmarshal(data, &f); err != nil {
		return 0, err
	}
	if f < 0 || f != float64(uint64(f)) {
		return 0, fmt.Errorf("%s is not an integer", data)
	}
	return ID(f), nil
''')],
'''A JSON integer above 2^53 that a float64 cannot represent.''',
'''Integers are read through float64, so large ones come back as a different ID.''',
'', '''
package appdash

import (
	"encoding/json"
	"testing"
)

func TestDemo(t *testing.T) {
	var id ID
	if err := json.Unmarshal([]byte("9007199254740993"), &id); err != nil || id != 9007199254740993 {
		t.Fatalf("got %d, %v", uint64(id), err)
	}
}
''')

seed('c16-event-reuse','C16',[('event.go','''		evv := reflect.New(reflect.TypeOf(ev))
		if err := UnmarshalEvent(anns, evv.Interface().(Event)); err != nil {
			return err
		}
		*events = append(*events, evv.Elem().Interface().(Event))
''','''		evv := newEventValue(ev)
		if err := UnmarshalEvent(anns, evv.Interface().(Event)); err != nil {
			return err
		}
		*events = append(*events, evv.Elem().Interface().(Event))
		eventValues.Put(evv)
'''),('event.go','''// UnmarshalEvents unmarshals all events found in anns into
''','''// eventValues keeps values to unmarshal events into.
var eventValues sync.Pool

func newEventValue(ev Event) reflect.Value {
	t := reflect.TypeOf(ev)
	if v, ok := eventValues.Get().(reflect.Value); ok && v.Type().Elem() == t {
		return v
	}
	return reflect.New(t)
}

// UnmarshalEvents unmarshals all events found in anns into
'''),('event.go','''	"reflect"
	"time"
''','''	"reflect"
	"sync"
	"time"
''')],
'''Two spans with an event of the same type, of which the second lacks something (a header map, an error message) that the first had.''',
'''The second event comes out with values of the first one's.''',
'', '''
package appdash

import "testing"

type headersEvent struct{ Headers map[string]string }

func (headersEvent) Schema() string { return "demo-headers" }

func TestDemo(t *testing.T) {
	RegisterEvent(headersEvent{})
	for i := 0; i < 100; i++ {
		var e headersEvent
		if i%2 == 0 {
			e.Headers = map[string]string{"k": "v"}
		}
		as, err := MarshalEvent(e)
		if err != nil {
			t.Fatal(err)
		}
		var evs []Event
		if err := UnmarshalEvents(as, &evs); err != nil || len(evs) != 1 {
			t.Fatal(evs, err)
		}
		if got := evs[0].(headersEvent); len(got.Headers) != len(e.Headers) {
			t.Fatalf("%v came back as %v", e, got)
		}
	}
}
''')

seed('c16-float-digits','C16',[('reflect.go','''	case reflect.Float32, reflect.Float64:
		f(prefix, strconv.FormatFloat(v.Float(), 'f', -1, 64))
''','''	case reflect.Float32, reflect.Float64:
		f(prefix, strconv.FormatFloat(v.Float(), 'g', 15, 64))
''')],
'''A float64 that needs 16 or 17 significant digits, such as the result of 0.1+0.2.''',
'''Floats are written with 15 digits, so such values come back changed.''',
'', '''
package appdash

import "testing"

type floatEvent struct{ F float64 }

func (floatEvent) Schema() string { return "float" }

func TestDemo(t *testing.T) {
	a, b := 0.1, 0.2
	e := floatEvent{a + b}
	as, err := MarshalEvent(e)
	if err != nil {
		t.Fatal(err)
	}
	var got floatEvent
	if err := UnmarshalEvent(as, &got); err != nil || got != e {
		t.Fatalf("%v came back as %v, %v", e, got, err)
	}
}
''')

seed('c16-schemas-deduplicated','C16',[('event.go','''	schemas := anns.schemas()
	for _, schema := range schemas {
		ev := registeredEvents[schema]
		if ev == nil {
			continue
		}
''','''	found := map[string]Event{}
	for _, schema := range anns.schemas() {
		if ev := registeredEvents[schema]; ev != nil {
			found[schema] = ev
		}
	}
	for _, ev := range found {
''')],
'''A span with events of several schemas, or of one schema twice.''',
'''The events of a span are returned in arbitrary order instead of that of their schema marks.''',
'', '''
package appdash

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	var as Annotations
	for _, e := range []Event{SpanName("n"), Msg("m"), Timespan{time.Unix(1, 0), time.Unix(2, 0)}, timespanEvent{time.Unix(1, 0), time.Unix(2, 0)}} {
		m, err := MarshalEvent(e)
		if err != nil {
			t.Fatal(err)
		}
		as = append(as, m...)
	}
	for i := 0; i < 60; i++ {
		var evs []Event
		if err := UnmarshalEvents(as, &evs); err != nil {
			t.Fatal(err)
		}
		if len(evs) != 4 || evs[0].Schema() != "name" || evs[1].Schema() != "msg" || evs[2].Schema() != "Timespan" || evs[3].Schema() != "timespan" {
			t.Fatalf("got %v", evs)
		}
	}
}
''')

seed('c17-keep-span-header','C17',[('httptrace/client.go','''	SetSpanIDHeader(req.Header, span)
''','''	if req.Header.Get(HeaderSpanID) == "" {
		SetSpanIDHeader(req.Header, span)
	}
''')],
'''A request that already carries a Span-ID header: one passed on by a reverse proxy, say.''',
'''The header of the incoming request is passed on, so the next server records itself under the span of this server instead of a child.''',
'httptrace', '''
package httptrace

import (
	"net/http"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

type roundTripper func(*http.Request) (*http.Response, error)

func (f roundTripper) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	rec := appdash.NewRecorder(appdash.SpanID{1, 2, 3}, appdash.NewLocalCollector(ms))
	tr := &Transport{Recorder: rec, Transport: roundTripper(func(r *http.Request) (*http.Response, error) {
		id, err := appdash.ParseSpanID(r.Header.Get(HeaderSpanID))
		if err != nil || id.Trace != 1 || id.Parent != 2 {
			t.Errorf("the server sees %v, %v", id, err)
		}
		return &http.Response{StatusCode: 200, Body: http.NoBody}, nil
	})}
	r, _ := http.NewRequest("GET", "http://example.com/", nil)
	SetSpanIDHeader(r.Header, appdash.SpanID{1, 2, 3})
	tr.RoundTrip(r)
}
''')

seed('c17-shared-span','C17',[('httptrace/client.go','''	span := appdash.NewSpanID(t.Recorder.SpanID)

	SetSpanIDHeader(req.Header, span)
''','''	t.span = appdash.NewSpanID(t.Recorder.SpanID)

	SetSpanIDHeader(req.Header, t.span)
'''),('httptrace/client.go','''	// requests keeps clone request
''','''	span appdash.SpanID // of the last request, for debugging

	// requests keeps clone request
''')],
'''Two requests sent through one transport at the same time.''',
'''The span ID of a request is kept in the transport between being made and being used: two concurrent requests can carry the same one.''',
'httptrace', '''
package httptrace

import (
	"net/http"
	"sync"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

type roundTripper func(*http.Request) (*http.Response, error)

func (f roundTripper) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func TestDemo(t *testing.T) {
	var mu sync.Mutex
	seen := map[string]bool{}
	rec := appdash.NewRecorder(appdash.SpanID{1, 2, 3}, appdash.NewLocalCollector(appdash.NewMemoryStore()))
	tr := &Transport{Recorder: rec, Transport: roundTripper(func(r *http.Request) (*http.Response, error) {
		mu.Lock()
		defer mu.Unlock()
		h := r.Header.Get(HeaderSpanID)
		if seen[h] {
			t.Errorf("span %s twice", h)
		}
		seen[h] = true
		return &http.Response{StatusCode: 200, Body: http.NoBody}, nil
	})}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				r, _ := http.NewRequest("GET", "http://example.com/", nil)
				tr.RoundTrip(r)
			}
		}()
	}
	wg.Wait()
}
''', race=True)

seed('c17-zero-span','C17',[('httptrace/header.go','''	// Check for Parent-Span-ID.
	if spanID == nil {
''','''	// Check for Parent-Span-ID.
	if spanID == nil || spanID.Span == 0 {
''')],
'''A well-formed Span-ID header whose span field is zero (0000000000000001/0000000000000000).''',
'''The request is recorded under a fresh root instead of exactly the ID it carries.''',
'httptrace', '''
package httptrace

import (
	"net/http"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	for _, want := range []appdash.SpanID{{1, 2, 3}, {1, 0, 0}, {0, 0, 0}, {1, 0, 3}} {
		h := http.Header{}
		SetSpanIDHeader(h, want)
		if id, err := GetSpanID(h); err != nil || *id != want {
			t.Errorf("%v is read as %v, %v", want, id, err)
		}
	}
}
''')

seed('c18-read-from','C18',[('httptrace/server.go','''// Write always succeeds and writes to r.Body, if not nil.
''','''// ReadFrom implements io.ReaderFrom: the underlying writer may use sendfile.
func (r *responseInfoRecorder) ReadFrom(src io.Reader) (int64, error) {
	if r.statusCode == 0 {
		r.statusCode = http.StatusOK
	}
	n, err := io.Copy(r.ResponseWriter, src)
	if n > r.ContentLength {
		r.ContentLength = n
	}
	return n, err
}

// Write writes to the underlying response and counts the bytes.
'''),('httptrace/server.go','''	"context"
	"log"
''','''	"context"
	"io"
	"log"
''')],
'''A handler that writes some bytes itself and copies others from a reader (io.Copy, http.ServeContent).''',
'''The length recorded is that of the copied part alone.''',
'httptrace', '''
package httptrace

import (
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

type lastEvent struct{ as appdash.Annotations }

func (l *lastEvent) Collect(_ appdash.SpanID, as ...appdash.Annotation) error {
	l.as = as
	return nil
}

type onlyReader struct{ io.Reader }

func TestDemo(t *testing.T) {
	l := &lastEvent{}
	mw := Middleware(l, &MiddlewareConfig{})
	r, _ := http.NewRequest("GET", "/", nil)
	mw(httptest.NewRecorder(), r, func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, "head")
		io.Copy(w, onlyReader{strings.NewReader("the body")})
		io.Copy(w, onlyReader{strings.NewReader("tail")})
	})
	if got := l.as.StringMap()["Server.Response.ContentLength"]; got != "16" {
		t.Fatalf("recorded length %s, 16 bytes were written", got)
	}
}
''')

seed('c18-reuse-header','C18',[('httptrace/client.go','''	// deep copy of the Header
	r2.Header = make(http.Header)
	for k, s := range r.Header {
		r2.Header[k] = s
	}
	return r2
''','''	// deep copy of the Header
	if len(r.Header) > 0 || r.Header == nil {
		r2.Header = make(http.Header)
		for k, s := range r.Header {
			r2.Header[k] = s
		}
	}
	return r2
''')],
'''A request whose header map is there but empty, such as any from http.NewRequest without further headers.''',
'''The caller's own header map gets the Span-ID header, so the request is modified, and keeps the ID of its first use.''',
'httptrace', '''
package httptrace

import (
	"net/http"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

type roundTripper func(*http.Request) (*http.Response, error)

func (f roundTripper) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func TestDemo(t *testing.T) {
	rec := appdash.NewRecorder(appdash.SpanID{1, 2, 3}, appdash.NewLocalCollector(appdash.NewMemoryStore()))
	tr := &Transport{Recorder: rec, Transport: roundTripper(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 200, Body: http.NoBody}, nil
	})}
	r, _ := http.NewRequest("GET", "http://example.com/", nil)
	tr.RoundTrip(r)
	if len(r.Header) != 0 {
		t.Fatalf("the caller's request now has the headers %v", r.Header)
	}
}
''')

seed('c18-cancel-dropped','C18',[('httptrace/client.go','''	if ts, ok := transport.(canceler); ok {
		ts.CancelRequest(newReq)
	}
''','''	if ts, ok := transport.(canceler); ok && newReq.Cancel == nil {
		ts.CancelRequest(newReq)
	}
'''),],
'''CancelRequest for a request in flight that also has its own Cancel channel.''',
'''The cancellation is not passed on to the underlying transport: the request goes on as if it had not been cancelled.''',
'httptrace', '''
package httptrace

import (
	"net/http"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

type cancelable struct {
	t        *testing.T
	tr       *Transport
	original *http.Request
	canceled int
}

func (c *cancelable) RoundTrip(r *http.Request) (*http.Response, error) {
	c.tr.CancelRequest(c.original)
	return &http.Response{StatusCode: 200, Body: http.NoBody}, nil
}

func (c *cancelable) CancelRequest(*http.Request) { c.canceled++ }

func TestDemo(t *testing.T) {
	for _, ch := range []chan struct{}{nil, make(chan struct{})} {
		rec := appdash.NewRecorder(appdash.SpanID{1, 2, 3}, appdash.NewLocalCollector(appdash.NewMemoryStore()))
		c := &cancelable{t: t}
		c.tr = &Transport{Recorder: rec, Transport: c}
		c.original, _ = http.NewRequest("GET", "http://example.com/", nil)
		c.original.Cancel = ch
		c.tr.RoundTrip(c.original)
		if c.canceled != 1 {
			t.Errorf("%d cancellations passed on", c.canceled)
		}
	}
}
''')

seed('c19-redact-once','C19',[('httptrace/client.go','''	for _, v := range RedactedHeaders {
		if strings.EqualFold(name, v) {
			return true
		}
	}
	return false
}
''','''	redactedOnce.Do(func() {
		for _, v := range RedactedHeaders {
			redactedSet[strings.ToLower(v)] = true
		}
	})
	return redactedSet[strings.ToLower(name)]
}

var (
	redactedOnce sync.Once
	redactedSet  = make(map[string]bool)
)
''')],
'''A header added to RedactedHeaders after the first traced request.''',
'''The list is read only once, so the value of a header named later is recorded.''',
'httptrace', '''
package httptrace

import (
	"net/http"
	"testing"
)

func TestDemo(t *testing.T) {
	defer func(s []string) { RedactedHeaders = s }(RedactedHeaders)
	r, _ := http.NewRequest("GET", "http://example.com/", nil)
	r.Header.Set("X-Token", "secret")
	NewClientEvent(r)
	RedactedHeaders = append(RedactedHeaders[:1:1], "x-token")
	if e := NewClientEvent(r); e.Request.Headers["X-Token"] != "REDACTED" {
		t.Fatalf("recorded %v", e.Request.Headers)
	}
}
''')

seed('c19-sorted-search','C19',[('httptrace/client.go','''	for _, v := range RedactedHeaders {
		if strings.EqualFold(name, v) {
			return true
		}
	}
	return false
}
''','''	i := sort.Search(len(RedactedHeaders), func(i int) bool {
		return strings.ToLower(RedactedHeaders[i]) >= strings.ToLower(name)
	})
	return i < len(RedactedHeaders) && strings.EqualFold(RedactedHeaders[i], name)
}
'''),('httptrace/client.go','''	"net/http"
	"strings"
''','''	"net/http"
	"sort"
	"strings"
''')],
'''A redaction list that is not in alphabetical order, such as Authorization followed by other names.''',
'''Names out of order are not found, and the values of these headers are recorded.''',
'httptrace', '''
package httptrace

import (
	"net/http"
	"testing"
)

func TestDemo(t *testing.T) {
	defer func(s []string) { RedactedHeaders = s }(RedactedHeaders)
	RedactedHeaders = []string{"Authorization", "X-Token", "Cookie"}
	r, _ := http.NewRequest("GET", "http://example.com/", nil)
	r.Header.Set("Cookie", "secret")
	if e := NewClientEvent(r); e.Request.Headers["Cookie"] != "REDACTED" {
		t.Fatalf("recorded %v", e.Request.Headers)
	}
}
''')

seed('c20-resample','C20',[('opentracing/recorder.go','''	if !sp.Context.Sampled {
		return
	}
''','''	if !sp.Context.Sampled || (r.shouldSample != nil && !r.shouldSample(sp.Context.TraceID)) {
		return
	}
'''),('opentracing/recorder.go','''	verbose   bool
	Log       *log.Logger
''','''	verbose   bool
	Log       *log.Logger

	shouldSample func(traceID uint64) bool
'''),('opentracing/recorder.go','''		Log:       opts.Logger,
	}
''','''		Log:       opts.Logger,

		shouldSample: opts.ShouldSample,
	}
''')],
'''A span of a trace begun in another process with another sampling rate, or with a sampling-priority tag.''',
'''The sampling decision is taken again for every span instead of once per trace, so sampled traces lose spans.''',
'opentracing', '''
package opentracing

import (
	"testing"

	opentracing "github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/ext"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	n := 0
	c := collectorFunc(func(appdash.SpanID, ...appdash.Annotation) error { n++; return nil })
	tr := NewTracerWithOptions(c, Options{ShouldSample: func(uint64) bool { return false }})
	all := NewTracerWithOptions(c, Options{ShouldSample: func(uint64) bool { return true }})
	client := all.StartSpan("client")
	m := opentracing.TextMapCarrier{}
	if err := client.Tracer().Inject(client.Context(), opentracing.TextMap, m); err != nil {
		t.Fatal(err)
	}
	ctx, err := tr.Extract(opentracing.TextMap, m)
	if err != nil {
		t.Fatal(err)
	}
	tr.StartSpan("server", ext.RPCServerOption(ctx)).Finish()
	if n == 0 {
		t.Fatal("the server's span of a sampled trace was not collected")
	}
}
''')

seed('c20-tag-stringer','C20',[('opentracing/recorder.go','''		val := []byte(fmt.Sprintf("%+v", value))
''','''		var val []byte
		switch v := value.(type) {
		case string:
			val = []byte(v)
		case fmt.Stringer:
			val = []byte(v.String())
		default:
			val = []byte(fmt.Sprintf("%+v", value))
		}
''')],
'''A tag whose value is a nil pointer with a String method, or both an error and a Stringer.''',
'''The String method is called without fmt's care: finishing a span panics in the traced program.''',
'opentracing', '''
package opentracing

import (
	"net/url"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	got := ""
	c := collectorFunc(func(_ appdash.SpanID, as ...appdash.Annotation) error {
		for _, a := range as {
			if a.Key == "referer" {
				got = string(a.Value)
			}
		}
		return nil
	})
	var u *url.URL
	sp := NewTracer(c).StartSpan("op")
	sp.SetTag("referer", u)
	sp.Finish()
	if got != "<nil>" {
		t.Fatalf("got %q", got)
	}
}
''')

seed('c20-log-once-global','C20',[('opentracing/recorder.go','''	logOnce   sync.Once
''',''''''),('opentracing/recorder.go','''			r.logOnce.Do(func() { r.Log.Printf("Appdash Recorder collect error: %v\\n", err) })
''','''			logOnce.Do(func() { r.Log.Printf("Appdash Recorder collect error: %v\\n", err) })
'''),('opentracing/recorder.go','''// NewRecorder forwards basictracer.RawSpans to an appdash.Collector.
''','''var logOnce sync.Once // limits what recorders that are not verbose log

// NewRecorder forwards basictracer.RawSpans to an appdash.Collector.
''')],
'''Two tracers with a failing collector in one process.''',
'''Only the first tracer to fail logs its error; those of all others vanish.''',
'opentracing', '''
package opentracing

import (
	"bytes"
	"errors"
	"log"
	"strings"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	c := collectorFunc(func(appdash.SpanID, ...appdash.Annotation) error { return errors.New("down") })
	for i := 0; i < 2; i++ {
		var buf bytes.Buffer
		opts := DefaultOptions()
		opts.Logger = log.New(&buf, "", 0)
		tr := NewTracerWithOptions(c, opts)
		tr.StartSpan("a").Finish()
		tr.StartSpan("b").Finish()
		if n := strings.Count(buf.String(), "down"); n != 1 {
			t.Errorf("tracer %d logged %d errors", i, n)
		}
	}
}
''')
