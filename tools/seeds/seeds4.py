import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','mkseed.py')).read())

seed('c21-cancel-unlocked','C21',[('httptrace/client.go','''	t.reqMu.RLock()
	newReq, ok := t.requests[req]
	t.reqMu.RUnlock()
	if !ok {
''','''	newReq, ok := t.requests[req]
	if !ok {
''')],
'''CancelRequest called while other requests are being sent through the same transport.''',
'''The table of requests in flight is read without its lock: a data race, which can end the program (concurrent map read and map write).''',
'httptrace', '''
package httptrace

import (
	"net/http"
	"sync"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

type roundTripper func(*http.Request) (*http.Response, error)

func (f roundTripper) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func TestDemo(t *testing.T) {
	rec := appdash.NewRecorder(appdash.SpanID{1, 2, 3}, appdash.NewLocalCollector(appdash.NewMemoryStore()))
	tr := &Transport{Recorder: rec, Transport: roundTripper(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 200, Body: http.NoBody}, nil
	})}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				r, _ := http.NewRequest("GET", "http://example.com/", nil)
				done := make(chan struct{})
				go func() { tr.CancelRequest(r); close(done) }()
				tr.RoundTrip(r)
				<-done
			}
		}()
	}
	wg.Wait()
}
''', race=True)

seed('c21-names-upgrade','C21',[('reflect.go','''	// otherwise, create it and return it
	cachedFieldNamesRW.Lock()
	m = make(map[int]string, t.NumField())
''','''	// otherwise, create it and return it
	m = make(map[int]string, t.NumField())
	cachedFieldNamesRW.Lock()
	cachedFieldNames[t] = m
	cachedFieldNamesRW.Unlock()
'''),('reflect.go','''	cachedFieldNames[t] = m
	cachedFieldNamesRW.Unlock()
	return m
''','''	return m
''')],
'''Two goroutines marshalling the first events of a type at the same time.''',
'''The cache entry is published before it is filled in: another goroutine sees it incomplete, or reads the map while it is written.''',
'', '''
package appdash

import (
	"fmt"
	"reflect"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 200; round++ {
		var fields []reflect.StructField
		for i := 0; i < 20; i++ {
			fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%d_%d", round, i), Type: reflect.TypeOf(0)})
		}
		v := reflect.New(reflect.StructOf(fields)).Elem()
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				n := 0
				flattenValue("", v, func(k, v string) { n++ })
				if n != 20 {
					t.Errorf("%d of 20 fields", n)
				}
			}()
		}
		wg.Wait()
	}
}
''', race=True)

seed('c21-template-unlock','C21',[('traceapp/tmpl.go','''	a.tmplLock.Lock()
	defer a.tmplLock.Unlock()

	if a.tmpls == nil || ReloadTemplates {
		if err := a.parseHTMLTemplates(templates); err != nil {
			return err
		}
	}
''','''	a.tmplLock.Lock()
	if a.tmpls == nil || ReloadTemplates {
		if err := a.parseHTMLTemplates(templates); err != nil {
			a.tmplLock.Unlock()
			return err
		}
	}
	a.tmplLock.Unlock() // executing templates is safe
''')],
'''Two pages requested at the same time.''',
'''The set of templates is read without the lock while another request parses it anew: a data race, and a page can be answered with "Template not found".''',
'traceapp', '''
package traceapp

import (
	"net/http"
	"net/http/httptest"
	"net/url"
	"sync"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	ms := appdash.NewMemoryStore()
	app.Store, app.Queryer = ms, ms
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				w := httptest.NewRecorder()
				r, _ := http.NewRequest("GET", "/traces", nil)
				app.ServeHTTP(w, r)
				if w.Code != 200 || w.Body.Len() < 100 {
					t.Errorf("status %d, %d bytes", w.Code, w.Body.Len())
				}
			}
		}()
	}
	wg.Wait()
}
''', race=True)

seed('c22-wire-normalizes','C22',[('span.go','''	for _, a := range as {
		// Important: Make a copy of a that we can retain a pointer to that
		// doesn't change after each iteration. Otherwise all wire annotations
		// would have the same key.
		cpy := a
		w = append(w, &wire.CollectPacket_Annotation{
			Key:   &cpy.Key,
			Value: cpy.Value,
		})
	}
''','''	for i := range as {
		a := &as[i]
		if a.Value == nil {
			a.Value = []byte{} // the field is always present
		}
		w = append(w, &wire.CollectPacket_Annotation{
			Key:   &a.Key,
			Value: a.Value,
		})
	}
''')],
'''Annotations without a value (such as the schema marks of events) sent to a server by a caller that looks at them afterwards or sends them elsewhere at the same time.''',
'''Collecting writes into the caller's slice.''',
'', '''
package appdash

import (
	"net"
	"testing"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go NewServer(l, NewLocalCollector(NewMemoryStore())).Start()
	rc := NewRemoteCollector(l.Addr().String())
	defer rc.Close()
	as := []Annotation{{Key: "_schema:x"}, {Key: "k", Value: []byte("v")}}
	if err := rc.Collect(SpanID{1, 2, 0}, as...); err != nil {
		t.Fatal(err)
	}
	if as[0].Value != nil {
		t.Fatal("the caller's annotations were changed")
	}
}
''')

seed('c22-chunk-trim','C22',[('collector.go','''	var collectionSize uint64 = 3 * 8 // SpanID is 3 * uint64 ID's.
	for _, ann := range anns {
		collectionSize += uint64(len(ann.Key))
		collectionSize += uint64(len(ann.Value))
	}
''','''	var collectionSize uint64 = 3 * 8 // SpanID is 3 * uint64 ID's.
	for i, ann := range anns {
		collectionSize += uint64(len(ann.Key))
		collectionSize += uint64(len(ann.Value))
		anns[i].Value = ann.Value[:len(ann.Value):len(ann.Value)] // don't retain more than needed
	}
''')],
'''The same annotation slice collected from two goroutines at once, or a value with spare capacity that the caller goes on using.''',
'''Collecting writes into the elements of the caller's slice.''',
'', '''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	cc := &ChunkedCollector{Collector: NewLocalCollector(NewMemoryStore()), MinInterval: 1e9}
	defer cc.Stop()
	as := []Annotation{{Key: "k", Value: make([]byte, 1, 10)}}
	if err := cc.Collect(SpanID{1, 2, 0}, as...); err != nil {
		t.Fatal(err)
	}
	if cap(as[0].Value) != 10 {
		t.Fatal("the caller's annotations were changed")
	}
}
''')

seed('c23-bare-spans','C23',[('traceapp/trace.go','''	// Record this span's ID and annotations.
	err := c.Collect(t.ID, t.Annotations...)
	if err != nil {
		return err
	}
''','''	// Record this span's ID and annotations.
	var err error
	if len(t.Annotations) > 0 {
		if err = c.Collect(t.ID, t.Annotations...); err != nil {
			return err
		}
	}
''')],
'''A trace with a span that has no annotations.''',
'''Spans without annotations are left out of the imported trace, and their children end up elsewhere in the tree.''',
'traceapp', '''
package traceapp

import (
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	a, b := appdash.NewMemoryStore(), appdash.NewMemoryStore()
	app.Store, app.Queryer = b, b
	a.Collect(appdash.SpanID{1, 1, 0}, appdash.Annotation{Key: "k"})
	a.Collect(appdash.SpanID{1, 2, 1})
	a.Collect(appdash.SpanID{1, 3, 2}, appdash.Annotation{Key: "k"})
	want, _ := a.Trace(1)
	r, _ := http.NewRequest("POST", "/traces/upload", strings.NewReader("["+want.String()+"]"))
	app.ServeHTTP(httptest.NewRecorder(), r)
	got, err := b.Trace(1)
	if err != nil || got.TreeString() != want.TreeString() {
		t.Fatalf("imported %v, %v", got, err)
	}
}
''')

seed('c23-upload-stream','C23',[('traceapp/app.go','''	data, err := ioutil.ReadAll(r.Body)
	if err != nil {
		return err
	}

	// Unmarshal the trace.
	var traces []*appdash.Trace
	err = json.Unmarshal(data, &traces)
	if err != nil {
		return err
	}
	return a.uploadTraces(traces...)
''','''
	// Unmarshal the traces, without keeping all of them in memory.
	dec := json.NewDecoder(r.Body)
	if _, err := dec.Token(); err != nil {
		return err
	}
	for dec.More() {
		var trace *appdash.Trace
		if err := dec.Decode(&trace); err != nil {
			return err
		}
		if err := a.uploadTraces(trace); err != nil {
			return err
		}
	}
	return nil
'''),('traceapp/app.go','''	"io/ioutil"
''','')],
'''An upload that is cut off or malformed after its first trace.''',
'''What comes before the malformed part is imported, and an upload that is cut off right there is not even answered with an error.''',
'traceapp', '''
package traceapp

import (
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	a, b := appdash.NewMemoryStore(), appdash.NewMemoryStore()
	app.Store, app.Queryer = b, b
	a.Collect(appdash.SpanID{1, 1, 0}, appdash.Annotation{Key: "k"})
	want, _ := a.Trace(1)
	for _, s := range []string{"[" + want.String(), "[" + want.String() + "] x"} {
		r, _ := http.NewRequest("POST", "/traces/upload", strings.NewReader(s))
		w := httptest.NewRecorder()
		app.ServeHTTP(w, r)
		if w.Code < 400 {
			t.Fatalf("malformed upload answered with %d", w.Code)
		}
	}
}
''')

seed('c23-upload-limit','C23',[('traceapp/app.go','''	defer r.Body.Close()
	data, err := ioutil.ReadAll(r.Body)
''','''	defer r.Body.Close()
	data, err := ioutil.ReadAll(http.MaxBytesReader(w, r.Body, 4<<20))
''')],
'''An exported trace of more than 4 MiB.''',
'''The export of a large trace cannot be imported any more.''',
'traceapp', '''
package traceapp

import (
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	a, b := appdash.NewMemoryStore(), appdash.NewMemoryStore()
	app.Store, app.Queryer = b, b
	for i := 0; i < 10; i++ {
		id := appdash.SpanID{1, appdash.ID(1 + i), 1}
		if i == 0 {
			id.Parent = 0
		}
		a.Collect(id, appdash.Annotation{Key: "k", Value: make([]byte, 500000)})
	}
	want, _ := a.Trace(1)
	r, _ := http.NewRequest("POST", "/traces/upload", strings.NewReader("["+want.String()+"]"))
	app.ServeHTTP(httptest.NewRecorder(), r)
	got, err := b.Trace(1)
	if err != nil || got.String() != want.String() {
		t.Fatalf("not imported: %v", err)
	}
}
''')

seed('c24-cum-direct','C24',[('traceapp/prof.go','''		p.TimeCum += childProf.TimeCum
''','''		p.TimeCum += childProf.TimeChildren
''')],
'''A trace at least four levels deep.''',
'''The cumulative time misses the spans more than two levels below.''',
'traceapp', '''
package traceapp

import (
	"net/url"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	ms := appdash.NewMemoryStore()
	as, _ := appdash.MarshalEvent(appdash.Timespan{S: time.Unix(1, 0), E: time.Unix(2, 0)})
	for i := 1; i <= 4; i++ {
		ms.Collect(appdash.SpanID{1, appdash.ID(i), appdash.ID(i - 1)}, as...)
	}
	tr, _ := ms.Trace(1)
	_, p, err := app.calcProfile(nil, tr)
	if err != nil || p.TimeCum != 4000 {
		t.Fatalf("%+v, %v", p, err)
	}
}
''')

seed('c24-timeline-later-first','C24',[('traceapp/vis.go','''					if item.Times[0].Start > start {
						item.Times[0].Start = start
					}
					if item.Times[0].End < end {
						item.Times[0].End = end
					}
''','''					if item.Times[0].Start > start {
						item.Times[0].Start = start
					} else if item.Times[0].End < end {
						item.Times[0].End = end
					}
''')],
'''A child span with two timespan events of which the second begins earlier and ends later than the first.''',
'''The timeline shows an end before the recorded one.''',
'traceapp', '''
package traceapp

import (
	"net/url"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	ms := appdash.NewMemoryStore()
	put := func(id appdash.SpanID, evs ...appdash.Event) {
		for _, e := range evs {
			as, _ := appdash.MarshalEvent(e)
			ms.Collect(id, as...)
		}
	}
	put(appdash.SpanID{1, 1, 0}, appdash.SpanName("root"), appdash.Timespan{S: time.Unix(1, 0), E: time.Unix(20, 0)})
	put(appdash.SpanID{1, 2, 1}, appdash.SpanName("child"), appdash.Timespan{S: time.Unix(5, 0), E: time.Unix(6, 0)}, sqltrace.SQLEvent{ClientSend: time.Unix(4, 0), ClientRecv: time.Unix(7, 0)})
	tr, _ := ms.Trace(1)
	items, err := app.d3timeline(tr)
	if err != nil || len(items) != 2 || items[1].Times[0].Start != 4000 || items[1].Times[0].End != 7000 {
		t.Fatalf("%+v, %v", items, err)
	}
}
''')

seed('c24-aggregate-label','C24',[('traceapp/aggregate.go','''		// Perform aggregation.
		i.Value += value
''','''		if value == 0 {
			value = 1 // Must be positive values or else d3pie won't render.
		}
		i.Value = i.Value + value
''')],
'''Several spans of one label, some of which take no measurable time.''',
'''Every span of no time adds one millisecond to its label's total.''',
'traceapp', '''
package traceapp

import (
	"net/url"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	var ts []*appdash.Trace
	for i := 0; i < 3; i++ {
		ms := appdash.NewMemoryStore()
		a, _ := appdash.MarshalEvent(appdash.SpanName("root"))
		b, _ := appdash.MarshalEvent(appdash.Timespan{S: time.Unix(1, 0), E: time.Unix(1, int64(i/2)*5e6)})
		ms.Collect(appdash.SpanID{1, 1, 0}, append(a, b...)...)
		tr, _ := ms.Trace(1)
		ts = append(ts, tr)
	}
	list, err := app.aggregate(ts, traceOnly)
	if err != nil || len(list) != 1 || list[0].Value != 5 {
		t.Fatalf("%+v, %v", list[0], err)
	}
}
''')

seed('c24-dashboard-links','C24',[('traceapp/dashboard.go','''	rows := make([]*dashboardRow, len(results))
	for i, r := range results {
		var stringIDs []string
		for _, slowest''','''	rows := make([]*dashboardRow, len(results))
	var stringIDs []string
	for i, r := range results {
		if len(r.Slowest) > 0 {
			stringIDs = stringIDs[:0]
		}
		for _, slowest''')],
'''An aggregate without slowest traces that follows one with some.''',
'''Its link leads to the slowest traces of another aggregate.''',
'traceapp', '''
package traceapp

import (
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

type results []*appdash.AggregatedResult

func (r results) Aggregate(start, end time.Duration) ([]*appdash.AggregatedResult, error) {
	return r, nil
}

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	app.Aggregator = results{{RootSpanName: "a", Slowest: []appdash.ID{0xabc}}, {RootSpanName: "b"}}
	r, _ := http.NewRequest("GET", "/dashboard/data", nil)
	w := httptest.NewRecorder()
	app.ServeHTTP(w, r)
	if n := strings.Count(w.Body.String(), "0abc"); n != 1 {
		t.Fatalf("%d links to the trace: %s", n, w.Body)
	}
}
''')

seed('c25-show-stops','C25',[('traceapp/app.go','''			id, err := appdash.ParseID(idStr)
			if err == nil {
				showJust = append(showJust, id)
			}
''','''			id, err := appdash.ParseID(idStr)
			if err != nil {
				break
			}
			showJust = append(showJust, id)
''')],
'''A list of requested traces with something malformed (an empty item, say) before a valid ID.''',
'''The IDs after the malformed one are ignored; when it comes first, all traces are shown.''',
'traceapp', '''
package traceapp

import (
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	ms := appdash.NewMemoryStore()
	app.Store, app.Queryer = ms, ms
	ms.Collect(appdash.SpanID{0xaaaa, 1, 0})
	ms.Collect(appdash.SpanID{0xbbbb, 1, 0})
	r, _ := http.NewRequest("GET", "/traces?show=,aaaa", nil)
	w := httptest.NewRecorder()
	app.ServeHTTP(w, r)
	if s := w.Body.String(); !strings.Contains(s, "00aaaa") || strings.Contains(s, "00bbbb") {
		t.Fatal("the list does not show exactly the requested trace")
	}
}
''')

seed('c25-lenient-span','C25',[('traceapp/app.go','''		if spanID, err = appdash.ParseID(spanIDStr); err != nil {
			return err
		}
		trace = trace.FindSpan(spanID)
		if trace == nil {
			return errors.New("could not find the specified trace span")
		}
''','''		if spanID, err = appdash.ParseID(spanIDStr); err != nil {
			return err
		}
		if sub := trace.FindSpan(spanID); sub != nil {
			trace = sub
		} else if len(trace.Sub) == 0 {
			return errors.New("could not find the specified trace span")
		}
'''),],
'''The page of a span that its trace does not contain (it was not collected yet), when the trace has more than one span.''',
'''The page of the whole trace is shown instead of an error.''',
'traceapp', '''
package traceapp

import (
	"net/http"
	"net/http/httptest"
	"net/url"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	ms := appdash.NewMemoryStore()
	app.Store, app.Queryer = ms, ms
	ms.Collect(appdash.SpanID{0xaaaa, 1, 0})
	ms.Collect(appdash.SpanID{0xaaaa, 2, 1})
	r, _ := http.NewRequest("GET", "/traces/aaaa/3", nil)
	w := httptest.NewRecorder()
	app.ServeHTTP(w, r)
	if w.Code < 400 {
		t.Fatalf("status %d for an unknown span", w.Code)
	}
}
''')

seed('c25-raw-values','C25',[('traceapp/tmpl.go','''			"str":               func(v interface{}) string { return fmt.Sprintf("%s", v) },
''','''			"str":               str,
'''),('traceapp/tmpl.go','''func filterAnnotations(''','''// str formats annotation values, keeping line breaks readable.
func str(v interface{}) interface{} {
	s := fmt.Sprintf("%s", v)
	if strings.Contains(s, "\\n") {
		return htmpl.HTML(strings.Replace(s, "\\n", "<br>", -1))
	}
	return s
}

func filterAnnotations(''')],
'''An annotation value with a line break and markup in it.''',
'''Values of several lines are put into the page without escaping.''',
'traceapp', '''
package traceapp

import (
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	ms := appdash.NewMemoryStore()
	app.Store, app.Queryer = ms, ms
	ms.Collect(appdash.SpanID{0xaaaa, 1, 0}, appdash.Annotation{Key: "SQL", Value: []byte("a\\n<script>alert(1)</script>")})
	r, _ := http.NewRequest("GET", "/traces/aaaa", nil)
	w := httptest.NewRecorder()
	app.ServeHTTP(w, r)
	if s := w.Body.String(); strings.Contains(s, "<script>alert(1)") || !strings.Contains(s, "alert(1)") {
		t.Fatal("markup of the value is in the page")
	}
}
''')

CMD='''
package main

import (
	"encoding/base64"
	"net/http"
	"net/http/httptest"
	"testing"
)

func get(path, auth string) int {
	h := newBasicAuthHandler("user", "Pass:Word", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))
	w := httptest.NewRecorder()
	r, _ := http.NewRequest("GET", path, nil)
	if auth != "" {
		r.Header.Set("Authorization", auth)
	}
	h.ServeHTTP(w, r)
	return w.Code
}

func basic(s string) string { return "Basic " + base64.StdEncoding.EncodeToString([]byte(s)) }
'''

seed('c26-case-fold','C26',[('cmd/appdash/serve_cmd.go','''	authHdr := r.Header.Get("authorization")
	if len(h.want) == len(authHdr) && subtle.ConstantTimeCompare(h.want, []byte(authHdr)) == 1 {
''','''	authHdr := r.Header.Get("authorization")
	// The name of the scheme is case-insensitive.
	if subtle.ConstantTimeCompare(bytes.ToLower(h.want), bytes.ToLower([]byte(authHdr))) == 1 {
'''),('cmd/appdash/serve_cmd.go','''import (
	"crypto/subtle"
''','''import (
	"bytes"
	"crypto/subtle"
''')],
'''Credentials whose base64 form differs from the configured one only in the case of letters.''',
'''Other credentials than the configured ones are let in.''',
'cmd/appdash', CMD+'''
func TestDemo(t *testing.T) {
	if c := get("/", basic("user:Pass:Word")); c != 200 {
		t.Fatal("the right credentials get", c)
	}
	// Flip the case of each letter of the base64 form: other bytes.
	s := []byte(basic("user:Pass:Word"))
	for i := 6; i < len(s); i++ {
		if c := s[i] | 32; c < 'a' || c > 'z' {
			continue
		}
		s[i] ^= 32
		if c := get("/", string(s)); c != 401 {
			t.Fatalf("%s gets %d", s, c)
		}
		s[i] ^= 32
	}
}
''')

seed('c26-static-open','C26',[('cmd/appdash/serve_cmd.go','''	if len(h.want) == len(authHdr) && subtle''','''	if strings.HasPrefix(r.URL.Path, "/static/") { // nothing secret there
		h.Handler.ServeHTTP(w, r)
		return
	}
	if len(h.want) == len(authHdr) && subtle'''),('cmd/appdash/serve_cmd.go','''	// Constant time comparison to avoid timing attack.
	authHdr''','''	// Constant time comparison, to avoid a timing attack.
	authHdr''')],
'''A request for a path below /static/ without credentials.''',
'''Requests below /static/ are served without credentials.''',
'cmd/appdash', CMD+'''
func TestDemo(t *testing.T) {
	if c := get("/static/x.css", ""); c != 401 {
		t.Fatal("status", c)
	}
}
''')

DEMO_BIN='''#!/bin/bash
# Builds the command and runs demo.py beside this file. cwd: the repository.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export HOME=/root GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=mod GONOSUMDB='*'
export PATH="$GOROOT/bin:$PATH" TMPDIR="$t"
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
m=/repo; [ -f "$repo/go.mod" ] && m=$repo; [ -f "$m/go.mod" ] || m=/opt/vp/mod
cp "$m/go.mod" "$m/go.sum" "$t/"
'''+STUB+'''timeout 200 go build -modfile "$t/go.mod" -o "$t/appdash" ./cmd/appdash || exit 2
cd "$t" && timeout 80 python3 "$here/demo.py" "$t/appdash"
'''
PY='''import sys, os, time, socket, subprocess, struct, urllib.request, base64, ssl
BIN = sys.argv[1]
def port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
def start(*args):
    global C, H
    C, H = port(), port()
    return subprocess.Popen([BIN, "serve", "--collector=127.0.0.1:%d" % C, "--http=127.0.0.1:%d" % H] + list(args), stderr=subprocess.DEVNULL)
def get(path, auth=None):
    r = urllib.request.Request("http://127.0.0.1:%d%s" % (H, path))
    if auth: r.add_header("Authorization", "Basic " + base64.b64encode(auth.encode()).decode())
    try:
        with urllib.request.urlopen(r, timeout=10) as f: return f.status
    except urllib.error.HTTPError as e: return e.code
    except OSError: return 0
def wait(p):
    for i in range(100):
        if p.poll() is not None: return False
        if get("/"): return True
        time.sleep(0.1)
    return False
def varint(n):
    b = b""
    while n > 127: b += bytes([n & 127 | 128]); n >>= 7
    return b + bytes([n])
def span(s, trace, span, parent=0):
    ids = b"".join(bytes([k << 3 | 1]) + struct.pack("<Q", v) for k, v in ((2, trace), (3, span), (4, parent)))
    m = b"\\x0b" + ids + b"\\x0c"
    s.sendall(varint(len(m)) + m)
'''
def binseed(id, prop, edits, needs, breaks, py):
    seed(id, prop, edits, needs, breaks, 'cmd/appdash', '', script=DEMO_BIN)
    open(os.path.join(S,id,'demo.py'),'w').write(PY+py)

binseed('c26-colon-password','C26',[('cmd/appdash/serve_cmd.go','''		parts := strings.SplitN(c.BasicAuth, ":", 2)
		if len(parts) != 2 {
''','''		parts := strings.Split(c.BasicAuth, ":")
		if len(parts) < 2 {
''')],
'''A password with a colon in it.''',
'''Only the part of the password before its first colon counts: the exact credentials are refused, and others let in.''',
'''p = start("--store-file=", "--basic-auth=user:pa:ss")
try:
    ok = wait(p) and get("/", "user:pa:ss") == 200 and get("/", "user:pa") == 401
finally:
    p.kill(); p.wait()
sys.exit(0 if ok else 1)
''')

binseed('c27-truncated-file','C27',[('cmd/appdash/serve_cmd.go','''			} else if err != nil {
				f.Close()
				return err
			}
''','''			} else if err != io.EOF && err != io.ErrUnexpectedEOF { // not just begun
				f.Close()
				return err
			}
'''),('cmd/appdash/serve_cmd.go','''	"fmt"
	"io/ioutil"
''','''	"fmt"
	"io"
	"io/ioutil"
''')],
'''A store file that was cut off (a full disk or an interrupted copy).''',
'''The server starts without the data and overwrites the file instead of refusing it.''',
'''f = os.path.join(os.getcwd(), "store.gob")
p = start("--store-file=" + f, "--persist-interval=100ms", "--delete-after=0")
wait(p)
s = socket.create_connection(("127.0.0.1", C))
for i in range(1, 200): span(s, 7 + i % 3, i, 0 if i < 4 else 1)
s.close()
for i in range(100):
    time.sleep(0.1)
    if os.path.exists(f) and os.path.getsize(f) > 3000: break
p.kill(); p.wait()
data = open(f, "rb").read()[:-500]
open(f, "wb").write(data)
p = start("--store-file=" + f, "--persist-interval=100ms", "--delete-after=0")
for i in range(30):
    time.sleep(0.1)
    if p.poll() is not None: break
alive = p.poll() is None
p.kill(); p.wait()
same = open(f, "rb").read() == data
sys.exit(0 if same and not alive else 1)
''')

binseed('c27-age-bypassed','C27',[('cmd/appdash/serve_cmd.go','''	cs := appdash.NewServer(l, appdash.NewLocalCollector(Store))
''','''	cs := appdash.NewServer(l, appdash.NewLocalCollector(memStore))
''')],
'''A server that runs for longer than the age limit.''',
'''Spans received from clients bypass the age limit: their traces are never deleted.''',
'''p = start("--store-file=", "--delete-after=300ms")
ok = wait(p)
s = socket.create_connection(("127.0.0.1", C))
span(s, 7, 1)
time.sleep(0.5)
ok = ok and get("/traces/0000000000000007") == 200
deleted = False
for i in range(20):
    time.sleep(0.4)
    span(s, 100 + i, 1)
    time.sleep(0.1)
    if get("/traces/0000000000000007") >= 400: deleted = True; break
p.kill(); p.wait()
sys.exit(0 if ok and deleted else 1)
''')

binseed('c27-partial-tls','C27',[('cmd/appdash/serve_cmd.go','''	var proto string
	if c.TLSCert != "" || c.TLSKey != "" {
''','''	var proto string
	useTLS := c.TLSCert != "" && c.TLSKey != ""
	if useTLS {
'''),('cmd/appdash/serve_cmd.go','''	if c.TLSCert != "" || c.TLSKey != "" {
		log.Printf("appdash HTTPS''','''	if useTLS {
		log.Printf("appdash HTTPS''')],
'''A TLS certificate without a key (its option left out, or an empty variable in a start script).''',
'''The server silently serves everything without TLS instead of refusing the configuration.''',
'''open("cert.pem", "w").write("x")
p = start("--store-file=", "--tls-cert=cert.pem")
ok = not wait(p)
p.kill(); p.wait()
sys.exit(0 if ok else 1)
''')

seed('c28-enclosing-span','C28',[('trace.go','''			start = v
		}
''','''			start = v
			continue
		}
'''),('trace.go','''	// Find the start and end time of the trace.
''','''	// Find the start and end of the trace.
''')],
'''A span with two timespan events of which the second begins earlier and ends later than the first.''',
'''The end of the span is that of the first event.''',
'', '''
package appdash

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	var as Annotations
	for i, e := range []Event{Timespan{time.Unix(5, 0), time.Unix(6, 0)}, timespanEvent{time.Unix(4, 0), time.Unix(7, 0)}} {
		a, err := MarshalEvent(e)
		if err != nil {
			t.Fatal(i, err)
		}
		as = append(as, a...)
	}
	tr := &Trace{Span: Span{ID: SpanID{1, 1, 0}, Annotations: as}}
	ts, err := tr.TimespanEvent()
	if err != nil || !ts.Start().Equal(time.Unix(4, 0)) || !ts.End().Equal(time.Unix(7, 0)) {
		t.Fatal(ts, err)
	}
}
''')

seed('c28-tree-map','C28',[('trace.go','''	for _, a := range t.Span.Annotations {
		if depth == 0 {
''','''	seen := make(map[string]bool, len(t.Span.Annotations))
	for _, a := range t.Span.Annotations {
		if k := a.Key + "=" + string(a.Value); seen[k] {
			continue // recorded twice, as after a resend
		} else {
			seen[k] = true
		}
		if depth == 0 {
'''),('trace.go','''// TreeString returns the Trace as a formatted string that visually
// represents the trace's tree.
''','''// TreeString returns the trace as a formatted string that visually
// represents the trace's tree.
''')],
'''A span with two equal annotations (the same message logged twice, say).''',
'''The tree rendering shows equal annotations only once.''',
'', '''
package appdash

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	a := Annotation{Key: "Msg", Value: []byte("retry")}
	tr := &Trace{Span: Span{ID: SpanID{1, 1, 0}, Annotations: Annotations{a, a}}}
	if n := strings.Count(tr.TreeString(), "Msg = retry"); n != 2 {
		t.Fatalf("%d lines for 2 annotations", n)
	}
}
''')

seed('c28-find-shallow','C28',[('trace.go','''	if t.ID.Span == spanID {
		return t
	}
	for _, sub := range t.Sub {
		if s := sub.FindSpan(spanID); s != nil {
			return s
		}
	}
	return nil
}

// copy''','''	if t.ID.Span == spanID {
		return t
	}
	for _, sub := range t.Sub {
		if sub.ID.Span == spanID {
			return sub
		}
		if len(sub.Sub) == 0 {
			continue
		}
		return sub.FindSpan(spanID)
	}
	return nil
}

// copy''')],
'''A span below the second child with children of its own.''',
'''The search does not come back from the first subtree, so later spans are not found.''',
'', '''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	n := func(id ID, sub ...*Trace) *Trace { return &Trace{Span: Span{ID: SpanID{1, id, 0}}, Sub: sub} }
	tr := n(1, n(2, n(3)), n(4, n(5)))
	for id := ID(1); id <= 5; id++ {
		if s := tr.FindSpan(id); s == nil || s.ID.Span != id {
			t.Errorf("span %d: %v", id, s)
		}
	}
}
''')
