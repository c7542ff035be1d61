import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','mkseed.py')).read())

seed('c15-long-text','C15',[('span.go','''	parts := strings.Split(s, SpanIDDelimiter)
	if len(parts) != 2 && len(parts) != 3 {''','''	if len(s) > 64 {
		s = s[:64] // three IDs and their delimiters are shorter
	}
	parts := strings.SplitN(s, SpanIDDelimiter, 4)
	if len(parts) != 2 && len(parts) != 3 {''')],
'''An ID text longer than 64 characters, as leading zeros make it.''',
'''The text is cut, so another span ID is parsed, or garbage at its end is accepted.''',
'','''
package appdash

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	id, err := ParseSpanID("1/" + strings.Repeat("0", 70) + "2/3")
	if err != nil || *id != (SpanID{1, 2, 3}) {
		t.Error(id, err)
	}
	if id, err := ParseSpanID("1/2/" + strings.Repeat("0", 70) + "no ID"); err == nil {
		t.Error(id)
	}
}
''')

seed('c18-long-uri','C18',[('httptrace/client.go','''		URI:           r.URL.RequestURI(),
''','''		URI:           shorten(r.URL.RequestURI()),
'''),('httptrace/client.go','''func requestInfo(r *http.Request) RequestInfo {''','''// shorten bounds the size of what is recorded.
func shorten(s string) string {
	if len(s) > 2048 {
		return s[:2048]
	}
	return s
}

func requestInfo(r *http.Request) RequestInfo {''')],
'''A request URI of more than 2048 bytes.''',
'''The recorded URI is not the one that was requested.''',
'httptrace','''
package httptrace

import (
	"net/http"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	uri := "/x?q=" + strings.Repeat("0123456789", 300)
	req, err := http.NewRequest("GET", "http://example.com"+uri, nil)
	if err != nil {
		t.Fatal(err)
	}
	if got := NewClientEvent(req).Request.URI; got != uri {
		t.Errorf("%d bytes recorded of %d", len(got), len(uri))
	}
}
''')

seed('c24-long-label','C24',[('traceapp/vis.go','''	item := timelineItem{
		Label:     t.Span.Name(),
		FullLabel: t.Span.Name(),
''','''	label := t.Span.Name()
	if len(label) > 120 {
		label = label[:120] // as much as there is room for
	}
	item := timelineItem{
		Label:     label,
		FullLabel: label,
''')],
'''A span name of more than 120 bytes.''',
'''The timeline shows a name that no span has, possibly cut within a character, and spans with different names look the same.''',
'traceapp','''
package traceapp

import (
	"net/url"
	"strings"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	ms := appdash.NewMemoryStore()
	id := appdash.SpanID{1, 2, 0}
	name := strings.Repeat("n", 200)
	now := time.Now()
	for _, e := range []appdash.Event{appdash.SpanName(name), appdash.Timespan{S: now, E: now.Add(time.Second)}} {
		as, err := appdash.MarshalEvent(e)
		if err != nil {
			t.Fatal(err)
		}
		ms.Collect(id, as...)
	}
	tr, err := ms.Trace(1)
	if err != nil {
		t.Fatal(err)
	}
	items, err := app.d3timeline(tr)
	if err != nil || len(items) != 1 {
		t.Fatal(items, err)
	}
	if items[0].FullLabel != name {
		t.Errorf("%d characters of %d", len(items[0].FullLabel), len(name))
	}
}
''')

seed('c22-tree-by-reference','C22',[('store.go','''	t, present := ms.trace[id]
	if !present {
		return nil, ErrTraceNotFound
	}
''','''	t, present := ms.trace[id]
	if !present {
		return nil, ErrTraceNotFound
	}
	if len(ms.span[id]) > 500 {
		return t.copyTo(200), nil // nobody looks deeper
	}
'''),('trace.go','''// TreeString returns the Trace as a formatted string that visually
// represents the trace's tree.
func (t *Trace) TreeString() string {
''','''// copyTo is like copy, but subtrees below depth are shared.
func (t *Trace) copyTo(depth int) *Trace {
	if depth == 0 {
		return t
	}
	c := &Trace{Span: Span{ID: t.ID, Annotations: t.Annotations.copy()}, Sub: make([]*Trace, len(t.Sub))}
	for i, sub := range t.Sub {
		c.Sub[i] = sub.copyTo(depth - 1)
	}
	return c
}

// TreeString returns the trace as a formatted string that visually represents
// the trace's tree.
func (t *Trace) TreeString() string {
''')],
'''A trace with more than 500 spans and nested more than 200 spans deep, whose returned tree is changed.''',
'''The deepest spans of a returned trace are the store's own: changes to them change the store, and collecting changes the returned trace.''',
'','''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	for i := 1; i <= 600; i++ {
		if err := ms.Collect(SpanID{1, ID(i), ID(i - 1)}, Annotation{"k", []byte("v")}); err != nil {
			t.Fatal(err)
		}
	}
	a, err := ms.Trace(1)
	if err != nil {
		t.Fatal(err)
	}
	a.FindSpan(600).Annotations[0].Key = "changed"
	b, err := ms.Trace(1)
	if err != nil {
		t.Fatal(err)
	}
	if k := b.FindSpan(600).Annotations[0].Key; k != "k" {
		t.Error(k)
	}
}
''')
