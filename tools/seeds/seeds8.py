import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','mkseed.py')).read())

seed('c15-self-parent','C15',[('span.go','''	if id.Parent == 0 {
		return fmt.Sprintf("%s%s%s", id.Trace, SpanIDDelimiter, id.Span)
	}
''','''	if id.Parent == 0 || id.Parent == id.Span {
		// There is no parent other than the span itself.
		return fmt.Sprintf("%s%s%s", id.Trace, SpanIDDelimiter, id.Span)
	}
''')],
'''A span ID whose parent is the span itself.''',
'''Its text form has no parent, so it reads back as a root.''',
'','''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	id := SpanID{1, 2, 2}
	got, err := ParseSpanID(id.String())
	if err != nil || *got != id {
		t.Fatal(got, err)
	}
}
''')

seed('c18-nil-header','C18',[('httptrace/client.go','''	for k, s := range r.Header {
		r2.Header[k] = s
	}
''','''	for k, s := range r.Header {
		for _, v := range s {
			r2.Header.Add(k, v)
		}
	}
''')],
'''A request with a header whose list of values is empty (net/http's way to keep it from sending a default), or one
with a name that is not in canonical form.''',
'''The header is dropped from the request (so that a User-Agent the program suppressed is sent), or its name changed.''',
'httptrace','''
package httptrace

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	got := make(chan []string, 1)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got <- r.Header["User-Agent"] }))
	defer s.Close()
	req, _ := http.NewRequest("GET", s.URL, nil)
	req.Header["User-Agent"] = nil
	tr := &Transport{Recorder: appdash.NewRecorder(appdash.NewRootSpanID(), appdash.NewMemoryStore())}
	resp, err := tr.RoundTrip(req)
	if err != nil {
		t.Fatal(err)
	}
	resp.Body.Close()
	if ua := <-got; ua != nil {
		t.Fatal(ua)
	}
}
''')

seed('c20-uint64-log','C20',[('opentracing/json.go','''func (ml fieldsAsMap) EmitUint64(key string, value uint64) {
	ml[key] = fmt.Sprintf("%d", value)
}
''','''func (ml fieldsAsMap) EmitUint64(key string, value uint64) {
	ml.EmitInt64(key, int64(value))
}
''')],
'''A log with an unsigned 64-bit field of 1<<63 or more.''',
'''The field is recorded as a negative number.''',
'opentracing','''
package opentracing

import (
	"strings"
	"testing"

	"github.com/opentracing/opentracing-go/log"
	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	sp := NewTracer(ms).StartSpan("x")
	sp.LogFields(log.String("event", "e"), log.Uint64("n", 1<<63))
	sp.Finish()
	trs, _ := ms.Traces(appdash.TracesOpts{})
	if len(trs) != 1 || !strings.Contains(trs[0].Annotations.String(), "9223372036854775808") || strings.Contains(trs[0].Annotations.String(), "-92") {
		t.Fatal(trs)
	}
}
''')

seed('c28-percent-key','C28',[('trace.go','''		fmt.Fprintf(w, "%s = %s\\n", a.Key, a.Value)
''','''		fmt.Fprintf(w, a.Key+" = %s\\n", a.Value)
''')],
'''An annotation with a percent sign in its key (for example from a header's or a tag's name).''',
'''The tree rendering garbles the key and value.''',
'','''
package appdash

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	tr := &Trace{Span: Span{ID: SpanID{1, 2, 0}, Annotations: Annotations{{Key: "load%d", Value: []byte("high")}}}}
	if s := tr.TreeString(); !strings.Contains(s, "load%d = high\\n") {
		t.Fatal(s)
	}
}
''')

seed('c28-name-empty','C28',[('span.go','''		if ann.Key == "Name" {
			return string(ann.Value)
''','''		if ann.Key == "Name" && len(ann.Value) > 0 {
			return string(ann.Value)
''')],
'''A span whose first name annotation is empty and that is named again.''',
'''Its name is not that of its first name annotation.''',
'','''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	s := &Span{Annotations: Annotations{{Key: "Name"}, {Key: "Name", Value: []byte("b")}}}
	if s.Name() != "" {
		t.Fatal(s.Name())
	}
}
''')

seed('c23-permalink-limit','C23',[('traceapp/app.go','''		if err := json.NewDecoder(gz).Decode(&upload); err != nil {
''','''		// Do not let a small link expand to a huge trace.
		if err := json.NewDecoder(io.LimitReader(gz, 1<<20)).Decode(&upload); err != nil {
'''),('traceapp/app.go','''	htmpl "html/template"
	"io/ioutil"
''','''	htmpl "html/template"
	"io"
	"io/ioutil"
''')],
'''The permalink of a trace whose JSON is larger than 1 MB but compresses well.''',
'''Opened on an empty server it is answered with an error, and the trace is not imported.''',
'traceapp','''
package traceapp

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"net/url"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	ms := appdash.NewMemoryStore()
	app.Store, app.Queryer = ms, ms
	tr := &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{1, 1, 0}, Annotations: appdash.Annotations{{Key: "k", Value: make([]byte, 1<<20)}}}}
	var buf bytes.Buffer
	b := base64.NewEncoder(base64.RawURLEncoding, &buf)
	gz := gzip.NewWriter(b)
	json.NewEncoder(gz).Encode(tr)
	gz.Close()
	b.Close()
	r, _ := http.NewRequest("GET", "/traces/0000000000000001?permalink="+buf.String(), nil)
	app.ServeHTTP(httptest.NewRecorder(), r)
	got, err := ms.Trace(1)
	if err != nil || len(got.Annotations) != 1 || len(got.Annotations[0].Value) != 1<<20 {
		t.Fatalf("not imported: %v", err)
	}
}
''')

seed('c24-float32','C24',[('traceapp/prof.go','''		msf := float64(ts.End().Sub(ts.Start())) / float64(time.Millisecond)
''','''		msf := float32(ts.End().Sub(ts.Start())) / float32(time.Millisecond)
''')],
'''A span that took more than about four and a half hours.''',
'''Its profile time is off by some milliseconds.''',
'traceapp','''
package traceapp

import (
	"net/url"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	s := time.Unix(1500000000, 0)
	as, _ := appdash.MarshalEvent(appdash.Timespan{S: s, E: s.Add(86400001 * time.Millisecond)})
	p, _, err := app.calcProfile(nil, &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{1, 1, 0}, Annotations: as}})
	if err != nil || p[0].Time != 86400001 {
		t.Fatal(p[0], err)
	}
}
''')

seed('c25-show-limit','C25',[('traceapp/app.go','''		for _, idStr := range strings.Split(show, ",") {
			id, err := appdash.ParseID(idStr)
			if err == nil {
''','''		for _, idStr := range strings.SplitN(show, ",", 100) {
			id, err := appdash.ParseID(idStr)
			if err == nil {
''')],
'''A list of more than 100 traces to show.''',
'''The page does not show those after the 99th.''',
'traceapp','''
package traceapp

import (
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	ms := appdash.NewMemoryStore()
	app.Store, app.Queryer = ms, ms
	var ids []string
	for i := 1; i <= 120; i++ {
		ms.Collect(appdash.SpanID{appdash.ID(i), appdash.ID(i), 0})
		ids = append(ids, appdash.ID(i).String())
	}
	r, _ := http.NewRequest("GET", "/traces?show="+strings.Join(ids, ","), nil)
	w := httptest.NewRecorder()
	app.ServeHTTP(w, r)
	for _, id := range ids {
		if !strings.Contains(w.Body.String(), id) {
			t.Fatal("not shown: ", id)
		}
	}
}
''')

seed('c26-cookie','C26',[('cmd/appdash/serve_cmd.go','''	if len(h.want) == len(authHdr) && subtle.ConstantTimeCompare(h.want, []byte(authHdr)) == 1 {
		h.Handler.ServeHTTP(w, r)
''','''	session, _ := r.Cookie("appdash-session")
	known := session != nil && session.Value == h.session()
	if known || len(h.want) == len(authHdr) && subtle.ConstantTimeCompare(h.want, []byte(authHdr)) == 1 {
		http.SetCookie(w, &http.Cookie{Name: "appdash-session", Value: h.session(), Path: "/", HttpOnly: true})
		h.Handler.ServeHTTP(w, r)
'''),('cmd/appdash/serve_cmd.go','''func (h *basicAuthHandler) ServeHTTP(''','''// session is the value of the cookie of those that have authenticated.
func (h *basicAuthHandler) session() string {
	return fmt.Sprintf("%x", sha256.Sum256(h.want))
}

func (h *basicAuthHandler) ServeHTTP('''),('cmd/appdash/serve_cmd.go','''	"crypto/subtle"
''','''	"crypto/sha256"
	"crypto/subtle"
''')],
'''A client that returns the cookie an authenticated response set, without (or with wrong) credentials.''',
'''It is served.''',
'cmd/appdash','''
package main

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	h := newBasicAuthHandler("user", "pass", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {}))
	r := httptest.NewRequest("GET", "/traces", nil)
	r.SetBasicAuth("user", "pass")
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	r = httptest.NewRequest("GET", "/traces", nil)
	for _, c := range w.Result().Cookies() {
		r.AddCookie(c)
	}
	w = httptest.NewRecorder()
	h.ServeHTTP(w, r)
	if w.Code != 401 {
		t.Fatal(w.Code)
	}
}
''')

seed('c22-shared-copy','C22',[('store.go','''	t, present := ms.trace[id]
	if !present {
		return nil, ErrTraceNotFound
	}
''','''	t, present := ms.trace[id]
	if !present {
		return nil, ErrTraceNotFound
	}
	if len(t.Sub) == 0 && !t.ID.IsRoot() {
		// A lone span: no tree to copy.
		return &Trace{Span: t.Span}, nil
	}
''')],
'''A trace of a single span that is not a root, read and then changed by the reader.''',
'''The annotations are shared with the store: changing them changes what the next reader gets.''',
'','''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	s := NewMemoryStore()
	s.Collect(SpanID{1, 2, 3}, Annotation{Key: "k"})
	tr, _ := s.Trace(1)
	tr.Annotations[0].Key = "changed"
	tr, _ = s.Trace(1)
	if tr.Annotations[0].Key != "k" {
		t.Fatal(tr)
	}
}
''')

