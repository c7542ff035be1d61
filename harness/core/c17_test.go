package core

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	stdtrace "net/http/httptrace"
	"net/textproto"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/ad"
	"verif/mon"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
)

func init() {
	mon.Reg("C17", "middleware", 6000, 120000, httpIDs)
	mon.Reg("C17", "transport", 3000, 40000, httpChildIDs)
	mon.Reg("C17", "chain", 60, 1200, httpChain)
	mon.RegV("C18", "handler", 5000, 80000, httpHandler)
	mon.RegV("C18", "round-trip", 5000, 80000, httpRoundTrip)
	mon.Reg("C18", "cancel", 400, 8000, httpCancel)
	mon.Reg("C18", "wire", 96, 1600, httpWire)
	mon.Reg("C19", "headers", 6000, 80000, httpSecrets)
	mon.Reg("C19", "wire", 120, 2000, httpSecretsWire)
}

// readSpanID is an independent reading of the header's format.
func readSpanID(s string) (id appdash.SpanID, ok bool) {
	ps := strings.Split(s, "/")
	if len(ps) != 2 && len(ps) != 3 {
		return id, false
	}
	var vs [3]uint64
	for i, p := range ps {
		if p == "" || strings.Trim(p, "0123456789abcdefABCDEF") != "" {
			return id, false
		}
		v, _ := new(big.Int).SetString(p, 16)
		if v.BitLen() > 64 {
			return id, false
		}
		vs[i] = v.Uint64()
	}
	return appdash.SpanID{Trace: appdash.ID(vs[0]), Span: appdash.ID(vs[1]), Parent: appdash.ID(vs[2])}, true
}

// goodSpanID generates a valid header value.
func goodSpanID(r *rand.Rand) string {
	f := func(id appdash.ID) string {
		return fmt.Sprintf([]string{"%016x", "%x", "%X", "%016X"}[r.Intn(4)], uint64(id))
	}
	s := f(ad.ID(r)) + "/" + f(ad.ID(r))
	if r.Intn(2) == 0 {
		s += "/" + f(ad.ID(r))
	}
	return s
}

// badSpanID generates a malformed header value.
func badSpanID(r *rand.Rand) string {
	for {
		var s string
		switch r.Intn(4) {
		case 0:
			s = ad.Str(r)
		case 1: // a valid one, damaged
			b := []byte(goodSpanID(r))
			b[r.Intn(len(b))] = "/g -+_x\x00\xff"[r.Intn(9)]
			s = string(b)
		case 2:
			s = goodSpanID(r) + "/" + []string{"", "/", "1/2", "10000000000000000", "1 "}[r.Intn(5)]
		case 3:
			s = []string{"10000000000000000/1", "/", "//", "1", "1/", "/1", "1/2/", "1/2/3/4", "0x1/2", "-1/2", "1/+2", "1/2/-3", "1.0/2", "1, 2", "1/2, 3/4", "é/1", "1_0/2", " 1/2/3/4", strings.Repeat("f", 5000), "1/" + strings.Repeat("0", 300)}[r.Intn(20)]
		}
		if strings.Trim(s, " \t") == "" {
			continue
		}
		if _, ok := readSpanID(s); ok {
			continue
		}
		if _, ok := readSpanID(strings.TrimSpace(s)); ok { // may be read leniently
			continue
		}
		return s
	}
}

// eventOf returns the annotations of the one event of the given schema, and
// the span it was collected under.
func eventOf(c *mon.Case, calls []ad.Call, schema string) (appdash.SpanID, map[string]string, bool) {
	var id appdash.SpanID
	n := 0
	m := map[string]string{}
	for _, k := range calls {
		for _, a := range k.Anns {
			if a.Key == "_schema:"+schema {
				n++
				id = k.Span
			}
		}
	}
	if n != 1 {
		c.Failf("event count", "%d %s events were collected for one request", n, schema)
		return id, nil, false
	}
	for _, k := range calls {
		if k.Span == id {
			for _, a := range k.Anns {
				if _, dup := m[a.Key]; !dup || len(a.Value) > 0 {
					m[a.Key] = string(a.Value)
				}
			}
		}
	}
	return id, m, true
}

func runMiddleware(col appdash.Collector, conf *httptrace.MiddlewareConfig, w http.ResponseWriter, r *http.Request, h http.HandlerFunc) {
	quietLog.Do(func() { log.SetOutput(io.Discard) })
	httptrace.Middleware(col, conf)(w, r, h)
}

var quietLog sync.Once

// ---------------------------------------------------------------------------
// C17

var (
	freshMu sync.Mutex
	fresh   = map[appdash.ID]bool{}
)

// isFresh reports whether an ID was not generated for another span before.
func isFresh(id appdash.ID) bool {
	freshMu.Lock()
	defer freshMu.Unlock()
	if fresh[id] {
		return false
	}
	fresh[id] = true
	return true
}

// httpIDs runs single requests with all kinds of headers through the middleware.
func httpIDs(c *mon.Case) {
	r := c.R
	sink := &ad.Sink{}
	req := httptest.NewRequest([]string{"GET", "POST", "DELETE", "HEAD", "OPTIONS", "PUT", "PATCH", "TRACE", "BREW"}[r.Intn(9)], "/p"+fmt.Sprint(r.Intn(100))+"?q=1", strings.NewReader("body"))
	gen := func() (string, appdash.SpanID, string) { // value, ID, kind
		switch r.Intn(5) {
		case 0, 1:
			s := goodSpanID(r)
			id, _ := readSpanID(s)
			return s, id, "valid"
		case 2:
			return badSpanID(r), appdash.SpanID{}, "malformed"
		}
		return "", appdash.SpanID{}, "none"
	}
	sv, sid, skind := gen()
	pv, pid, pkind := gen()
	put := func(name, v string) {
		if v == "" {
			return
		}
		req.Header.Set([]string{name, strings.ToLower(name), strings.ToUpper(name)}[r.Intn(3)], v)
	}
	put("Span-ID", sv)
	put("Parent-Span-ID", pv)
	req.Header.Set("X-Other", "v")
	before := fmt.Sprint(sortedHeader(req.Header))
	// The context may come from the handling of another request (an internal
	// redirect, a batch endpoint, ...): whose span it carries does not matter.
	outer := ""
	if r.Intn(3) == 0 {
		q0 := httptest.NewRequest("POST", "/outer", nil)
		if r.Intn(2) == 0 {
			q0.Header.Set("Span-ID", goodSpanID(r))
		}
		runMiddleware(&ad.Sink{}, &httptrace.MiddlewareConfig{}, httptest.NewRecorder(), q0, func(w http.ResponseWriter, q *http.Request) {
			outer = ", in the context of " + httptrace.SpanID(q).String()
			req = req.WithContext(q.Context())
		})
	}

	conf := &httptrace.MiddlewareConfig{}
	var cb []appdash.SpanID
	useCB := r.Intn(3) == 0
	if useCB {
		conf.SetContextSpan = func(_ *http.Request, id appdash.SpanID) { cb = append(cb, id) }
	}
	if r.Intn(3) == 0 {
		conf.RouteName = func(*http.Request) string { return "route" }
	}
	if r.Intn(3) == 0 {
		conf.CurrentUser = func(*http.Request) string { return "user" }
	}
	var seen []appdash.SpanID
	runs := 0
	rw := httptest.NewRecorder()
	writes := r.Intn(3)
	runMiddleware(sink, conf, rw, req, func(w http.ResponseWriter, q *http.Request) {
		runs++
		if useCB {
			if len(cb) != 1 {
				c.Failf("callback", "SetContextSpan was called %d times before the handler ran", len(cb))
			}
			seen = append(seen, cb...)
		} else {
			seen = append(seen, httptrace.SpanID(q))
			id, ok := httptrace.SpanIDFromContext(q.Context())
			if !ok || id != seen[0] {
				c.Failf("handler id", "SpanIDFromContext gives %v (%v), SpanID %v", id, ok, seen[0])
			}
		}
		if got := fmt.Sprint(sortedHeader(q.Header)); got != before {
			c.Failf("request altered", "the handler sees headers %s instead of %s", got, before)
		}
		b, err := io.ReadAll(q.Body)
		if string(b) != "body" || err != nil || q.Method != req.Method || q.URL.String() != req.URL.String() {
			c.Failf("request altered", "the handler sees %s %s with body %q (%v)", q.Method, q.URL, b, err)
		}
		for i := 0; i < writes; i++ {
			io.WriteString(w, "x")
		}
	})
	desc := fmt.Sprintf("Span-ID %q (%s), Parent-Span-ID %q (%s)%s", cut(sv), skind, cut(pv), pkind, outer)
	if runs != 1 {
		c.Failf("handler runs", "the handler ran %d times for %s", runs, desc)
		return
	}
	if useCB && len(cb) != 1 {
		c.Failf("callback", "SetContextSpan was called %d times", len(cb))
	}
	if rw.Code != 200 || rw.Body.String() != strings.Repeat("x", writes) {
		c.Failf("response altered", "%s: status %d, body %q", desc, rw.Code, rw.Body.String())
	}
	if len(seen) == 0 {
		return
	}
	got := seen[0]
	switch {
	case skind == "valid":
		if got != sid {
			c.Failf("span id", "%s: handled under %#v, want %#v", desc, got, sid)
		}
	case skind == "none" && pkind == "valid":
		if got.Trace != pid.Trace || got.Parent != pid.Span || !isFresh(got.Span) {
			c.Failf("parent span id", "%s: handled under %#v, want a fresh child of %#v", desc, got, pid)
		}
	default: // neither, or malformed
		if got.Parent != 0 || !isFresh(got.Span) || got.Trace != got.Span && !isFresh(got.Trace) {
			c.Failf("root span id", "%s: handled under %#v, want a fresh root", desc, got)
		}
	}
	id, _, ok := eventOf(c, sink.Snapshot(), "HTTPServer")
	if ok && id != got {
		c.Failf("event id", "%s: the event was collected under %#v, the handler was given %#v", desc, id, got)
	}
	for _, k := range sink.Snapshot() {
		if k.Span != got {
			c.Failf("event id", "%s: something was collected under %#v, the handler was given %#v", desc, k.Span, got)
		}
	}
	h := rw.Header()["Span-Id"]
	if len(h) != 1 {
		c.Failf("response header", "%s: Span-ID response headers %q", desc, h)
	} else if hid, ok := readSpanID(h[0]); !ok || hid != got {
		c.Failf("response header", "%s: Span-ID response header %q, the span is %v", desc, h[0], got)
	}
	c.Count("kind "+skind+"/"+pkind, 1)
	c.Mark(sv, pv, useCB, outer != "")
	c.Sample("%s, callback %v -> %v", desc, useCB, got)
}

func sortedHeader(h http.Header) []string {
	var out []string
	for k, v := range h {
		out = append(out, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(out)
	return out
}

type rtFunc func(*http.Request) (*http.Response, error)

func (f rtFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

// httpChildIDs sends requests through one transport and looks at the headers
// the wrapped transport is given.
func httpChildIDs(c *mon.Case) {
	r := c.R
	sink := &ad.Sink{}
	id := appdash.SpanID{Trace: ad.NZ(r), Span: ad.NZ(r), Parent: ad.ID(r)}
	rec := appdash.NewRecorder(id, sink)
	var got []string
	n := 1 + r.Intn(4)
	tr := &httptrace.Transport{Recorder: rec, SetName: r.Intn(2) == 0, Transport: rtFunc(func(q *http.Request) (*http.Response, error) {
		h := q.Header["Span-Id"]
		if len(h) != 1 {
			c.Failf("request header", "the request was sent with Span-ID headers %q", h)
			return nil, errors.New("x")
		}
		got = append(got, h[0])
		if len(got)%3 == 2 {
			return nil, errors.New("round trip failed")
		}
		return &http.Response{StatusCode: 200, Header: http.Header{}, Body: http.NoBody, Request: q}, nil
	})}
	shared, _ := http.NewRequest("GET", "http://h/shared", nil)
	for i := 0; i < n; i++ {
		req, _ := http.NewRequest("GET", "http://h/x", nil)
		if r.Intn(3) == 0 {
			req = shared // the same request again
		}
		if req.Header != nil && r.Intn(3) == 0 {
			req.Header.Set("Span-ID", goodSpanID(r)) // not this request's span
		}
		if r.Intn(6) == 0 {
			req.Header = nil
		}
		tr.RoundTrip(req)
	}
	seen := map[appdash.ID]bool{id.Span: true}
	for _, h := range got {
		s, ok := readSpanID(h)
		switch {
		case !ok:
			c.Failf("request header", "the request was sent with Span-ID %q", h)
		case s.Trace != id.Trace || s.Parent != id.Span:
			c.Failf("child span", "a request of span %v was sent with Span-ID %v, want a child of it", id, s)
		case seen[s.Span]:
			c.Failf("distinct spans", "two requests were sent with the span %v", s)
		}
		seen[s.Span] = true
	}
	if rec.SpanID != id {
		c.Failf("recorder altered", "the recorder's span changed from %v to %v", id, rec.SpanID)
	}
	for _, k := range sink.Snapshot() {
		if k.Span.Trace != id.Trace {
			c.Failf("client trace", "a client event was collected for trace %v, the recorder's is %v", k.Span.Trace, id.Trace)
		}
	}
	c.Count("round_trips", n)
	c.Mark(id, n, tr.SetName)
	c.Sample("%d round trips of %v", n, id)
}

// httpChain sends concurrent requests through a real front server, which sends
// requests to a real back server, and checks the resulting traces.
func httpChain(c *mon.Case) {
	r := c.R
	sink := &ad.Sink{}
	var mu sync.Mutex
	type seenBy struct {
		id    appdash.SpanID
		hdr   string
		count int
	}
	front, back := map[string]*seenBy{}, map[string]*seenBy{}
	note := func(m map[string]*seenBy, q *http.Request, id appdash.SpanID) {
		mu.Lock()
		defer mu.Unlock()
		s := m[q.URL.RawQuery]
		if s == nil {
			s = &seenBy{}
			m[q.URL.RawQuery] = s
		}
		s.id, s.hdr = id, q.Header.Get("Span-Id")
		s.count++
	}
	conf := &httptrace.MiddlewareConfig{}
	useCB := r.Intn(3) == 0
	var cbs sync.Map
	if useCB {
		conf.SetContextSpan = func(q *http.Request, id appdash.SpanID) { cbs.Store(q.URL.RawQuery+q.URL.Path, id) }
	}
	idOf := func(q *http.Request) appdash.SpanID {
		if useCB {
			v, _ := cbs.Load(q.URL.RawQuery + q.URL.Path)
			id, _ := v.(appdash.SpanID)
			return id
		}
		return httptrace.SpanID(q)
	}
	serve := func(h http.HandlerFunc) string {
		quietLog.Do(func() { log.SetOutput(io.Discard) })
		mw := httptrace.Middleware(sink, conf)
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic("harness: " + err.Error())
		}
		s := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { mw(w, q, h) }), ErrorLog: log.New(io.Discard, "", 0)}
		go s.Serve(l)
		c.Cleanup(func() { s.Close() })
		return l.Addr().String()
	}
	base := &http.Transport{}
	c.Cleanup(base.CloseIdleConnections)
	backURL := "http://" + serve(func(w http.ResponseWriter, q *http.Request) { note(back, q, idOf(q)) })
	frontURL := "http://" + serve(func(w http.ResponseWriter, q *http.Request) {
		id := idOf(q)
		note(front, q, id)
		rec := appdash.NewRecorder(id, sink)
		tr := &httptrace.Transport{Recorder: rec, Transport: base}
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sub, _ := http.NewRequest("GET", fmt.Sprintf("%s/b?%s-%d", backURL, q.URL.RawQuery, i), nil)
				resp, err := tr.RoundTrip(sub)
				if err != nil {
					c.Inconclusive("loopback request failed: %v", err)
					return
				}
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
			}()
		}
		wg.Wait()
	})
	nrec, per := 1+r.Intn(3), 1+r.Intn(3)
	var wg sync.WaitGroup
	recIDs := map[string]appdash.SpanID{}
	for i := 0; i < nrec; i++ {
		rid := appdash.SpanID{Trace: appdash.ID(r.Uint64()>>1 + 1), Span: appdash.ID(r.Uint64()>>1 + 1)}
		tr := &httptrace.Transport{Recorder: appdash.NewRecorder(rid, sink), Transport: base}
		for j := 0; j < per; j++ {
			key := fmt.Sprintf("r%d-%d", i, j)
			recIDs[key] = rid
			wg.Add(1)
			go func() {
				defer wg.Done()
				req, _ := http.NewRequest("GET", frontURL+"/f?"+key, nil)
				resp, err := tr.RoundTrip(req)
				if err != nil {
					c.Inconclusive("loopback request failed: %v", err)
					return
				}
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				mu.Lock()
				defer mu.Unlock()
				s := front[key]
				if s == nil {
					c.Failf("handler runs", "request %s was answered but not handled", key)
					return
				}
				// The handler wrote nothing, so the header can still be sent.
				if h, ok := readSpanID(resp.Header.Get("Span-Id")); !ok || h != s.id {
					c.Failf("response header", "the response to %s has Span-ID %q, its span is %v", key, resp.Header.Get("Span-Id"), s.id)
				}
			}()
		}
	}
	wg.Wait()
	total := nrec * per
	servers := func() (n int) {
		for _, k := range sink.Snapshot() {
			for _, a := range k.Anns {
				if a.Key == "_schema:HTTPServer" {
					n++
				}
			}
		}
		return
	}
	if !c.AwaitOr("event count", fmt.Sprintf("collection of %d server events", 3*total), func() bool { return servers() >= 3*total }) {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	seen := map[appdash.ID]string{}
	check := func(key string, s *seenBy, parent appdash.SpanID) {
		if s == nil || s.count != 1 {
			c.Failf("handler runs", "request %s was not handled exactly once", key)
			return
		}
		if s.id.Trace != parent.Trace || s.id.Parent != parent.Span {
			c.Failf("child span", "request %s of span %v was handled under %v", key, parent, s.id)
		}
		if o, dup := seen[s.id.Span]; dup {
			c.Failf("distinct spans", "requests %s and %s were handled under the same span %v", o, key, s.id)
		}
		seen[s.id.Span] = key
		if h, ok := readSpanID(s.hdr); !ok || h != s.id {
			c.Failf("span id", "request %s with Span-ID %q was handled under %v", key, s.hdr, s.id)
		}
	}
	wantURI := map[string]appdash.SpanID{}
	for key, rid := range recIDs {
		f := front[key]
		check(key, f, rid)
		if f == nil {
			continue
		}
		wantURI["/f?"+key] = f.id
		for i := 0; i < 2; i++ {
			k2 := fmt.Sprintf("%s-%d", key, i)
			check(k2, back[k2], f.id)
			if back[k2] != nil {
				wantURI["/b?"+k2] = back[k2].id
			}
		}
	}
	for _, k := range sink.Snapshot() {
		for _, a := range k.Anns {
			if a.Key == "Server.Request.URI" {
				if w, ok := wantURI[string(a.Value)]; !ok || w != k.Span {
					c.Failf("event id", "the event of %q was collected under %v, the handler was given %v", a.Value, k.Span, w)
				}
				delete(wantURI, string(a.Value))
			}
		}
	}
	for u := range wantURI {
		c.Failf("event count", "no server event for %s", u)
	}
	c.Count("requests", 3*total)
	order := ""
	for _, k := range sink.Snapshot() {
		for _, a := range k.Anns {
			if a.Key == "Server.Request.URI" {
				order += string(a.Value) + " "
			}
		}
	}
	c.Mark(order)
	c.Sample("%d recorders with %d concurrent requests, order %s", nrec, per, order)
}

// ---------------------------------------------------------------------------
// C18

// fakeRW is a response writer that behaves as told and records what it is told.
type fakeRW struct {
	h   http.Header
	ops []string
	res func(b []byte) (int, error)
}

func (w *fakeRW) Header() http.Header { return w.h }
func (w *fakeRW) WriteHeader(code int) {
	w.ops = append(w.ops, fmt.Sprintf("status %d with %s", code, withoutSpan(w.h)))
}
func (w *fakeRW) Write(b []byte) (int, error) {
	n, err := w.res(b)
	w.ops = append(w.ops, fmt.Sprintf("write %q with %s -> %d %v", b, withoutSpan(w.h), n, err))
	return n, err
}

type fakeFlushRW struct{ *fakeRW }

func (w fakeFlushRW) Flush() { w.ops = append(w.ops, "flush with "+withoutSpan(w.h)) }

func withoutSpan(h http.Header) string {
	var out []string
	for _, s := range sortedHeader(h) {
		if !strings.HasPrefix(s, "Span-Id=") {
			out = append(out, s)
		}
	}
	return strings.Join(out, ",")
}

var statuses = []int{200, 201, 204, 206, 301, 304, 400, 401, 404, 418, 500, 503, 599, 700, 999}

type rwOp struct {
	kind string // header, status, write, flush
	k, v string
	code int
	n    int   // write result
	err  error // write result
}

func genRW(r *rand.Rand) (ops []rwOp) {
	for n := r.Intn(7); n > 0; n-- {
		switch r.Intn(6) {
		case 0:
			ops = append(ops, rwOp{kind: "header", k: fmt.Sprintf("X-R%d", r.Intn(3)), v: fmt.Sprintf("v%d", r.Intn(100))})
		case 1:
			ops = append(ops, rwOp{kind: "status", code: []int{100, 102, 103, 199, 103}[r.Intn(5)]})
		case 2:
			code := statuses[r.Intn(len(statuses))]
			if r.Intn(12) == 0 {
				code = 101
			}
			ops = append(ops, rwOp{kind: "status", code: code})
		case 3, 4:
			v := strings.Repeat("b", r.Intn(60))
			if r.Intn(4) == 0 {
				v = ad.Str(r)
			}
			op := rwOp{kind: "write", v: v, n: len(v)}
			switch r.Intn(6) {
			case 0:
				op.n, op.err = r.Intn(len(v)+1), ad.Fault(r.Int(), "short")
			case 1:
				op.n, op.err = 0, ad.Fault(r.Int(), "closed")
			}
			if r.Intn(3) == 0 && len(v) > 0 {
				op.kind = "copy" // through io.Copy, or a ReaderFrom if there is one
			}
			ops = append(ops, op)
		case 5:
			ops = append(ops, rwOp{kind: "flush"})
		}
	}
	return
}

// copyTo copies v to w in the way handlers serve files.
func copyTo(w io.Writer, v string) (int, error) {
	n, err := io.Copy(w, struct{ io.Reader }{strings.NewReader(v)})
	return int(n), err
}

// httpHandler runs a scripted handler through the middleware in virtual time.
func httpHandler(c *mon.Case) {
	r := c.R
	sink := &ad.Sink{}
	if r.Intn(4) == 0 {
		kind := r.Int()
		sink.Err = func(int, appdash.SpanID, []ad.Ann) error { return ad.Fault(kind, "collector down") }
	}
	method := []string{"GET", "POST", "PUT", "HEAD", "OPTIONS", "BREW"}[r.Intn(6)]
	body := "req" + ad.UStr(r)
	req := httptest.NewRequest(method, []string{"/", "/a%2Fb/c?x=%20y", "/p?", "http://other.example/abs?z=1", "/é"}[r.Intn(5)], strings.NewReader(body))
	if r.Intn(8) == 0 {
		req.URL.Path += strings.Repeat("long/", 1+r.Intn(2000))
		req.URL.RawPath = ""
		req.URL.RawQuery = strings.Repeat("q=1&", r.Intn(500))
	}
	longHeaders(r, req.Header)
	req.Host = []string{"example.com", "localhost:1234", ""}[r.Intn(3)]
	for i := r.Intn(3); i > 0; i-- {
		req.Header.Add(fmt.Sprintf("X-H%d", r.Intn(2)), fmt.Sprintf("hv%d", i))
	}
	ctxKey := new(int)
	ctx := context.WithValue(req.Context(), ctxKey, 7)
	leaves := false // whether the client goes away while the handler runs
	stop := context.CancelFunc(func() {})
	switch r.Intn(5) {
	case 0:
		ctx, stop = context.WithCancel(ctx)
		leaves = r.Intn(2) == 0
	case 1:
		ctx, stop = context.WithTimeout(ctx, time.Minute)
	}
	defer stop()
	req = req.WithContext(ctx)
	switch r.Intn(3) {
	case 0:
		req.Header.Set("Span-Id", goodSpanID(r))
	case 1:
		req.Header.Set("Parent-Span-Id", goodSpanID(r))
	}
	before := describeReq(req)
	uri := req.URL.RequestURI()
	ops := genRW(r)
	canFlush := r.Intn(4) > 0
	conf := &httptrace.MiddlewareConfig{}
	route, user := "", ""
	if r.Intn(2) == 0 {
		route = "route<" + fmt.Sprint(r.Intn(1000)) + ">"
		conf.RouteName = func(*http.Request) string { return route }
	}
	if r.Intn(2) == 0 {
		user = "user" + ad.UStr(r)
		conf.CurrentUser = func(*http.Request) string { return user }
	}
	if r.Intn(4) == 0 {
		conf.SetContextSpan = func(*http.Request, appdash.SpanID) {}
	}
	next := 0
	writes := []rwOp{}
	for _, o := range ops {
		if o.kind == "write" || o.kind == "copy" {
			writes = append(writes, o)
		}
	}
	newRW := func() (*fakeRW, http.ResponseWriter) {
		next = 0
		f := &fakeRW{h: http.Header{"X-Pre": {"set"}}}
		f.res = func(b []byte) (int, error) {
			if next >= len(writes) {
				return 0, errors.New("harness: unexpected write")
			}
			next++
			return writes[next-1].n, writes[next-1].err
		}
		if canFlush {
			return f, fakeFlushRW{f}
		}
		return f, f
	}
	// What happens without the middleware.
	script := func(w http.ResponseWriter) (results []string) {
		for _, o := range ops {
			switch o.kind {
			case "header":
				w.Header().Add(o.k, o.v)
			case "status":
				w.WriteHeader(o.code)
			case "write":
				n, err := w.Write([]byte(o.v))
				results = append(results, fmt.Sprint(n, err))
			case "copy":
				n, err := copyTo(w, o.v)
				results = append(results, fmt.Sprint(n, err))
			case "flush":
				if f, ok := w.(http.Flusher); ok {
					f.Flush()
				}
			}
		}
		return
	}
	// Handlers may panic, in particular to abort the response.
	var ends any
	if r.Intn(5) == 0 {
		ends = []any{http.ErrAbortHandler, fmt.Errorf("handler: %d", r.Intn(9)), "handler", r.Intn(9)}[r.Intn(4)]
	}
	plain, pw := newRW()
	wantRes := script(pw)
	traced, tw := newRW()
	runs := 0
	var gotRes []string
	d1, d2 := time.Duration(r.Intn(3))*time.Second, time.Duration(r.Int63n(5e9))
	var start, end time.Time
	t0 := time.Now()
	var panicked any
	guard := func(f func()) {
		defer func() { panicked = recover() }()
		f()
	}
	handler := func(w http.ResponseWriter, q *http.Request) {
		time.Sleep(d1)
		runs++
		start = time.Now()
		if got := describeReq(q); got != before {
			c.Failf("request altered", "the handler sees %s instead of %s", got, before)
		}
		if q.Context().Value(ctxKey) != 7 {
			c.Failf("request altered", "the handler does not see the values of the request's context")
		}
		d1, ok1 := ctx.Deadline()
		if d2, ok2 := q.Context().Deadline(); ok1 != ok2 || !d1.Equal(d2) || (ctx.Done() == nil) != (q.Context().Done() == nil) {
			c.Failf("request altered", "the handler does not see the deadline or the cancellation of the request's context")
		}
		if leaves {
			stop()
			if q.Context().Err() != context.Canceled {
				c.Failf("request altered", "the request is cancelled, its context in the handler has the error %v", q.Context().Err())
			}
		}
		if b, err := io.ReadAll(q.Body); string(b) != body || err != nil {
			c.Failf("request altered", "the handler reads the body %q (%v) instead of %q", b, err, body)
		}
		gotRes = script(w)
		time.Sleep(d2)
		end = time.Now()
		if ends != nil {
			panic(ends)
		}
	}
	if ends == nil {
		runMiddleware(sink, conf, tw, req, handler)
	} else {
		guard(func() { runMiddleware(sink, conf, tw, req, handler) })
		if panicked != ends {
			c.Failf("errors altered", "the handler panics with %T %v, the middleware with %T %v", ends, ends, panicked, panicked)
		}
	}
	t1 := time.Now()
	if runs != 1 {
		c.Failf("handler runs", "the handler ran %d times", runs)
		return
	}
	if fmt.Sprint(traced.ops) != fmt.Sprint(plain.ops) {
		c.Failf("response altered", "the response writer is told\n%s\nwithout the middleware\n%s", strings.Join(traced.ops, "\n"), strings.Join(plain.ops, "\n"))
	}
	if fmt.Sprint(gotRes) != fmt.Sprint(wantRes) {
		c.Failf("response altered", "writes return %v to the handler, without the middleware %v", gotRes, wantRes)
	}
	if got := describeReq(req); got != before {
		c.Failf("request altered", "the request was changed to %s from %s", got, before)
	}
	if ends != nil {
		// Only what is collected of requests whose handler returns is specified.
		c.Count("handlers that panicked", 1)
		c.Mark(ops, canFlush, method, uri, route, user, d1, d2, ends)
		return
	}
	status, length := 0, 0
	for _, o := range ops {
		switch o.kind {
		case "status":
			if status == 0 && (o.code >= 200 || o.code == 101) {
				status = o.code
			}
		case "write", "copy":
			if status == 0 {
				status = 200
			}
			length += o.n
		case "flush":
			if status == 0 && canFlush {
				status = 200
			}
		}
	}
	if status == 0 {
		status = 200
	}
	_, m, ok := eventOf(c, sink.Snapshot(), "HTTPServer")
	if !ok {
		return
	}
	expect(c, m, "Server.Response.StatusCode", fmt.Sprint(status), traced.ops)
	expect(c, m, "Server.Response.ContentLength", fmt.Sprint(length), traced.ops)
	expect(c, m, "Server.Request.Method", method, nil)
	expect(c, m, "Server.Request.URI", uri, nil)
	expect(c, m, "Server.Request.Host", req.Host, nil)
	expect(c, m, "Server.Route", route, nil)
	expect(c, m, "Server.User", user, nil)
	if name, want := m["Name"], route; want != "" && !strings.Contains(name, want) {
		c.Failf("recorded Name", "the span of route %q is named %q", want, name)
	} else if want = req.URL.Path; want != "" && route == "" && !strings.Contains(name, want) {
		c.Failf("recorded Name", "the span of path %q is named %q", want, name)
	}
	expectHeaders(c, m, "Server.Request.Headers.", req.Header)
	bracket(c, m, "Server.Recv", "Server.Send", t0, start, end, t1)
	c.Count("writer_calls", len(ops))
	c.Mark(ops, canFlush, method, uri, route, user, d1, d2)
	c.Sample("%s %s: %v -> status %d, length %d", method, uri, traced.ops, status, length)
}

func expect(c *mon.Case, m map[string]string, key, want string, info any) {
	if got, ok := m[key]; got != want || !ok && want != "" {
		c.Failf("recorded "+key, "the event says %s=%q (present: %v), in fact it is %q %v", key, got, ok, want, info)
	}
}

func expectHeaders(c *mon.Case, m map[string]string, prefix string, h http.Header) {
	for k, v := range h {
		if k == "Authorization" {
			continue
		}
		expect(c, m, prefix+k, strings.Join(v, ","), nil)
	}
}

func bracket(c *mon.Case, m map[string]string, ks, ke string, t0, s, e, t1 time.Time) {
	ts, err1 := time.Parse(time.RFC3339Nano, m[ks])
	te, err2 := time.Parse(time.RFC3339Nano, m[ke])
	if err1 != nil || err2 != nil {
		c.Failf("recorded times", "the event's times are %q and %q", m[ks], m[ke])
		return
	}
	if ts.Before(t0) || ts.After(s) || te.Before(e) || te.After(t1) {
		c.Failf("recorded times", "the event lasts from %v to %v, the request was handed over at %v, handled from %v to %v, done at %v", ts, te, t0.UTC(), s.UTC(), e.UTC(), t1.UTC())
	}
}

// describeReq renders everything of a request but the span headers it may gain.
func describeReq(q *http.Request) string {
	return fmt.Sprintf("%q %q %q host=%q hdr=%v trailer=%v len=%d te=%v close=%v form=%v proto=%s remote=%s uri=%q", q.Method, q.URL.String(), q.URL.User, q.Host, sortedHeader(q.Header), sortedHeader(q.Trailer),
		q.ContentLength, q.TransferEncoding, q.Close, q.Form, q.Proto, q.RemoteAddr, q.RequestURI)
}

type cancelRT struct {
	rtFunc
	canceled []*http.Request
}

func (t *cancelRT) CancelRequest(q *http.Request) { t.canceled = append(t.canceled, q) }

// manyRT is a transport whose requests end when they are told to.
type manyRT struct {
	mu       sync.Mutex
	in       map[string]chan error // by name
	clones   map[string]*http.Request
	canceled []string
	got      int
}

func (t *manyRT) RoundTrip(q *http.Request) (*http.Response, error) {
	name := q.URL.Path
	t.mu.Lock()
	ch := t.in[name]
	t.clones[name] = q
	t.got++
	t.mu.Unlock()
	if err := <-ch; err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: 200, Body: http.NoBody, Header: http.Header{}, Request: q}, nil
}

func (t *manyRT) CancelRequest(q *http.Request) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.canceled = append(t.canceled, q.URL.Path)
	if t.clones[q.URL.Path] == q {
		select {
		case t.in[q.URL.Path] <- errCanceled:
		default:
		}
	}
}

var errCanceled = errors.New("verif: canceled")

// httpCancel has many requests in flight through one transport, some of which
// are cancelled and some answered, in any order.
func httpCancel(c *mon.Case) {
	r := c.R
	n := 2 + r.Intn(12)
	sink := &ad.Sink{}
	in := &manyRT{in: map[string]chan error{}, clones: map[string]*http.Request{}}
	tr := &httptrace.Transport{Recorder: appdash.NewRecorder(appdash.NewRootSpanID(), sink), Transport: in}
	reqs := make([]*http.Request, n)
	type result struct {
		rs  *http.Response
		err error
	}
	res := make([]chan result, n)
	start := func(i int) {
		path := fmt.Sprintf("/r%d", i)
		reqs[i], _ = http.NewRequest("GET", "http://h.example"+path, nil)
		res[i] = make(chan result, 1)
		in.mu.Lock()
		in.in[path] = make(chan error, 1)
		before := in.got
		in.mu.Unlock()
		q := reqs[i]
		ch := res[i]
		go func() {
			rs, err := tr.RoundTrip(q)
			ch <- result{rs, err}
		}()
		c.AwaitOr("stuck", "a request to reach the wrapped transport", func() bool {
			in.mu.Lock()
			defer in.mu.Unlock()
			return in.got > before
		})
	}
	started, flying := 0, []int{}
	canceled := 0
	var script []byte
	for (started < n || len(flying) > 0) && !c.Failed() {
		if started < n && (len(flying) == 0 || r.Intn(2) == 0) {
			start(started)
			flying = append(flying, started)
			started++
			script = append(script, 's')
			continue
		}
		k := r.Intn(len(flying))
		i := flying[k]
		flying = append(flying[:k:k], flying[k+1:]...)
		path := fmt.Sprintf("/r%d", i)
		cancel := r.Intn(3) > 0
		script = append(script, "ac"[b2i(cancel)], byte('0'+k))
		if cancel {
			canceled++
			in.mu.Lock()
			before := len(in.canceled)
			in.mu.Unlock()
			tr.CancelRequest(reqs[i])
			in.mu.Lock()
			now := append([]string(nil), in.canceled[before:]...)
			in.mu.Unlock()
			if len(now) != 1 || now[0] != path {
				c.Failf("cancel", "cancelling request %s, one of %d in flight (%s), cancelled %v of the wrapped transport", path, len(flying)+1, script, now)
				break
			}
		} else {
			in.mu.Lock()
			in.in[path] <- nil
			in.mu.Unlock()
		}
		got := <-res[i]
		if cancel != (got.err == errCanceled) || (got.rs == nil) != cancel {
			c.Failf("cancel", "request %s (cancelled: %v) of several in flight returned %v, %v", path, cancel, got.rs, got.err)
		}
		if r.Intn(3) == 0 {
			tr.CancelRequest(reqs[i])
			in.mu.Lock()
			if m := len(in.canceled); m != canceled {
				c.Failf("cancel", "cancelling a request that has ended reached the wrapped transport")
			}
			in.mu.Unlock()
		}
	}
	in.mu.Lock()
	for _, ch := range in.in { // for the sake of those left after a failure
		select {
		case ch <- errCanceled:
		default:
		}
	}
	in.mu.Unlock()
	if !c.Failed() && sink.Len() != n {
		c.Failf("events", "%d events were collected for %d requests", sink.Len(), n)
	}
	c.Count("requests cancelled", canceled)
	c.Mark(string(script))
	c.Sample("%d requests through one transport: %s", n, script)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type bodyRC struct {
	io.Reader
	closed int
}

func (b *bodyRC) Close() error { b.closed++; return nil }

// longHeaders at times adds headers with long values, or many headers.
func longHeaders(r *rand.Rand, h http.Header) {
	switch r.Intn(12) {
	case 0:
		h.Add("X-Long", strings.Repeat("long value ", 1+r.Intn(2000)))
	case 1:
		for i := r.Intn(300); i > 0; i-- {
			h.Add(fmt.Sprintf("X-Many-%d", i), fmt.Sprint("many", i))
		}
	case 2:
		for i := r.Intn(300); i > 0; i-- {
			h.Add("X-Values", fmt.Sprint("value", i))
		}
	}
}

// httpRoundTrip sends requests through the transport over a scripted one, in
// virtual time.
func httpRoundTrip(c *mon.Case) {
	r := c.R
	sink := &ad.Sink{}
	if r.Intn(4) == 0 {
		kind := r.Int()
		sink.Err = func(int, appdash.SpanID, []ad.Ann) error { return ad.Fault(kind, "collector down") }
	}
	id := appdash.SpanID{Trace: ad.NZ(r), Span: ad.NZ(r)}
	rec := appdash.NewRecorder(id, sink)
	u := []string{"http://h.example/", "https://u:p@h.example:8443/a%2Fb?x=%20y#frag", "http://h/p?", "http://h"}[r.Intn(4)]
	body := &bodyRC{Reader: strings.NewReader("data")}
	method := []string{"GET", "POST", "PUT", "HEAD", "", "BREW"}[r.Intn(6)]
	var rd io.Reader
	if r.Intn(2) == 0 {
		rd = body
	}
	ctxKey := new(int)
	ctx := context.WithValue(context.Background(), ctxKey, 7)
	switch r.Intn(5) {
	case 0:
		var stop context.CancelFunc
		ctx, stop = context.WithCancel(ctx)
		defer stop()
	case 1:
		var stop context.CancelFunc
		ctx, stop = context.WithTimeout(ctx, time.Minute)
		defer stop()
	}
	req, err := http.NewRequestWithContext(ctx, method, u, rd)
	if err != nil {
		panic("harness: " + err.Error())
	}
	for i := r.Intn(4); i > 0; i-- {
		req.Header.Add(fmt.Sprintf("X-H%d", r.Intn(2)), fmt.Sprintf("hv%d", i))
	}
	if r.Intn(3) == 0 {
		req.Header["x-lower"] = []string{"l"}
	}
	longHeaders(r, req.Header)
	if r.Intn(6) == 0 {
		req.Header.Set("Parent-Span-Id", goodSpanID(r))
	}
	if r.Intn(8) == 0 {
		req.Header = nil
	}
	if r.Intn(8) == 0 {
		req.URL.Path += "/" + strings.Repeat("long/", 1+r.Intn(2000))
		req.URL.RawPath = ""
	}
	if rd != nil && r.Intn(2) == 0 {
		req.GetBody = func() (io.ReadCloser, error) { return io.NopCloser(strings.NewReader("data again")), nil }
	}
	req.Close = r.Intn(5) == 0
	if r.Intn(5) == 0 {
		req.Host = "virtual.host"
	}
	if r.Intn(5) == 0 {
		req.Trailer = http.Header{"X-T": nil}
	}
	if r.Intn(5) == 0 {
		req.TransferEncoding = []string{"chunked"}
	}
	if r.Intn(4) == 0 {
		req.Cancel = make(chan struct{})
	}
	before := describeReq(req)
	beforeHdrs := withoutSpan(req.Header)
	var want *http.Response
	var wantErr error
	if r.Intn(3) == 0 {
		wantErr = ad.FaultOf(fmt.Sprintf("round trip error %d", r.Int()))
	} else {
		want = &http.Response{StatusCode: statuses[r.Intn(len(statuses))], Status: "odd", Header: http.Header{"X-S": {"a", "b"}}, Body: io.NopCloser(strings.NewReader("resp")),
			ContentLength: []int64{-1, 0, 4, 1 << 40}[r.Intn(4)], Trailer: http.Header{"X-Later": nil}, Close: r.Intn(2) == 0}
	}
	if want != nil && r.Intn(12) == 0 {
		wantErr = ad.FaultOf(fmt.Sprintf("round trip error %d beside a response", r.Int()))
	}
	var wantCopy http.Response
	wantHdrs := ""
	if want != nil {
		wantCopy = *want
		wantHdrs = fmt.Sprint(sortedHeader(want.Header), sortedHeader(want.Trailer))
	}
	d := time.Duration(r.Int63n(9e9))
	runs := 0
	var start, end time.Time
	inner := &cancelRT{}
	tr := &httptrace.Transport{Recorder: rec, SetName: r.Intn(2) == 0, Transport: inner}
	cancel := r.Intn(4) == 0
	inner.rtFunc = func(q *http.Request) (*http.Response, error) {
		runs++
		start = time.Now()
		if q == req {
			c.Failf("request modified", "the caller's request itself was handed on with a Span-ID header")
		}
		if got := describeReq(req); got != before {
			c.Failf("request modified", "during the round trip the caller's request is %s, it was %s", got, before)
		}
		q2 := *q
		q2.Header = req.Header
		if got := describeReq(&q2); got != before {
			c.Failf("request altered", "the wrapped transport is given %s instead of %s", got, before)
		}
		if got := withoutSpan(q.Header); got != beforeHdrs {
			c.Failf("request altered", "the wrapped transport is given headers %s instead of %s", got, beforeHdrs)
		}
		if q.Context().Value(ctxKey) != 7 {
			c.Failf("request altered", "the wrapped transport does not see the request's context")
		}
		if d1, ok1 := ctx.Deadline(); true {
			if d2, ok2 := q.Context().Deadline(); ok1 != ok2 || !d1.Equal(d2) || (ctx.Done() == nil) != (q.Context().Done() == nil) {
				c.Failf("request altered", "the wrapped transport does not see the deadline or the cancellation of the request's context")
			}
		}
		if q.Cancel != req.Cancel || (q.GetBody == nil) != (req.GetBody == nil) {
			c.Failf("request altered", "the wrapped transport does not see the request's Cancel channel or GetBody")
		}
		if q.GetBody != nil {
			again, err := q.GetBody()
			if err != nil {
				c.Failf("request altered", "GetBody: %v", err)
			} else if b, err := io.ReadAll(again); string(b) != "data again" || err != nil {
				c.Failf("request altered", "the wrapped transport reads the body %q (%v) again", b, err)
			}
		}
		if rd != nil {
			b, err := io.ReadAll(q.Body)
			if string(b) != "data" || err != nil {
				c.Failf("request altered", "the wrapped transport reads the body %q (%v)", b, err)
			}
			q.Body.Close()
			if body.closed != 1 {
				c.Failf("request altered", "closing the request body closes the caller's body %d times", body.closed)
			}
		}
		time.Sleep(d)
		if cancel {
			tr.CancelRequest(req)
			if len(inner.canceled) != 1 || inner.canceled[0] != q {
				c.Failf("cancel", "CancelRequest during the round trip cancelled %d requests of the wrapped transport, or another one", len(inner.canceled))
			}
			inner.canceled = nil
		}
		end = time.Now()
		return want, wantErr
	}
	t0 := time.Now()
	resp, err := tr.RoundTrip(req)
	t1 := time.Now()
	if runs != 1 {
		c.Failf("transport runs", "the wrapped transport ran %d times", runs)
		return
	}
	if resp != want || err != wantErr {
		c.Failf("response altered", "RoundTrip returns %p, %v instead of %p, %v", resp, err, want, wantErr)
	}
	if want != nil {
		if got := fmt.Sprint(sortedHeader(want.Header), sortedHeader(want.Trailer)); got != wantHdrs || want.StatusCode != wantCopy.StatusCode || want.ContentLength != wantCopy.ContentLength || want.Status != wantCopy.Status {
			c.Failf("response altered", "the response was changed: %s, was %s", got, wantHdrs)
		}
		if b, _ := io.ReadAll(want.Body); string(b) != "resp" {
			c.Failf("response altered", "the caller reads %q from the response body", b)
		}
	}
	if got := describeReq(req); got != before {
		c.Failf("request modified", "the caller's request was changed to %s from %s", got, before)
	}
	tr.CancelRequest(req) // finished
	other, _ := http.NewRequest("GET", "http://h/", nil)
	tr.CancelRequest(other)
	if len(inner.canceled) != 0 {
		c.Failf("cancel", "cancelling a request that is not in flight reached the wrapped transport")
	}
	cid, m, ok := eventOf(c, sink.Snapshot(), "HTTPClient")
	if !ok {
		return
	}
	if cid.Trace != id.Trace || cid.Parent != id.Span {
		c.Failf("event span", "the client event of a request in span %v was collected under %v", id, cid)
	}
	if want != nil && wantErr != nil {
		// What the event says then is not specified.
	} else if want != nil {
		expect(c, m, "Client.Response.StatusCode", fmt.Sprint(want.StatusCode), nil)
		expect(c, m, "Client.Response.ContentLength", fmt.Sprint(want.ContentLength), nil)
		expectHeaders(c, m, "Client.Response.Headers.", want.Header)
	} else {
		expect(c, m, "Client.Response.StatusCode", "-1", nil)
	}
	if name := m["Name"]; tr.SetName && !strings.Contains(name, req.URL.Host) {
		c.Failf("recorded Name", "the span of a request to %q is named %q", req.URL.Host, name)
	}
	if g := m["Client.Request.Method"]; !(method == "" && g == "") {
		expect(c, m, "Client.Request.Method", req.Method, nil)
	}
	expect(c, m, "Client.Request.URI", req.URL.RequestURI(), nil)
	expect(c, m, "Client.Request.Host", req.Host, nil)
	for k, v := range req.Header {
		if k == http.CanonicalHeaderKey(k) {
			expect(c, m, "Client.Request.Headers."+k, strings.Join(v, ","), nil)
		}
	}
	bracket(c, m, "Client.Send", "Client.Recv", t0, start, end, t1)
	c.Count("round_trips", 1)
	c.Mark(before, d, wantErr != nil, cancel, wantCopy.StatusCode, wantCopy.ContentLength)
	c.Sample("%s -> %v %v", before, wantCopy.StatusCode, wantErr)
}

// httpWire compares real requests to a real server with and without tracing on
// both sides; requests run concurrently on shared transports.
func httpWire(c *mon.Case) {
	r := c.R
	type obs struct{ server, client string }
	type job struct {
		method, path, body string
		hdr                http.Header
		trailer            bool
		script             func(w http.ResponseWriter) []string
		name               string
		length             atomic.Int64 // bytes the handler's last run wrote
	}
	var jobs []*job
	for i := 1 + r.Intn(6); i > 0; i-- {
		j := &job{method: []string{"GET", "POST", "HEAD", "PUT", "DELETE"}[r.Intn(5)], path: fmt.Sprintf("/j%d/%s", i, url.PathEscape(ad.UStr(r))), hdr: http.Header{}}
		j.path = strings.ReplaceAll(j.path, "..", "x")
		if j.method == "POST" || j.method == "PUT" {
			j.body = strings.Repeat("q", []int{0, 1, 100, 70000}[r.Intn(4)])
			j.trailer = r.Intn(3) == 0
		}
		for k := r.Intn(3); k > 0; k-- {
			j.hdr.Add(fmt.Sprintf("X-H%d", r.Intn(2)), fmt.Sprint("v", k))
		}
		if r.Intn(5) == 0 {
			j.hdr.Set("Authorization", "Bearer secret")
		}
		ops := genRW(r)
		cl := r.Intn(5) == 0
		late := r.Intn(5) == 0
		rep := []int{1, 1, 100, 3000}[r.Intn(4)]
		j.script = func(w http.ResponseWriter) (res []string) {
			total := 0
			defer func() { j.length.Store(int64(total)) }()
			if cl {
				w.Header().Set("Content-Length", "20")
			}
			if late {
				w.Header().Set("Trailer", "X-Late")
			}
			for _, o := range ops {
				switch o.kind {
				case "header":
					w.Header().Add(o.k, o.v)
				case "status":
					if o.code != 101 && o.code != 100 && o.code != 199 {
						w.WriteHeader(o.code)
					}
				case "write":
					n, err := w.Write([]byte(o.v))
					total += n
					res = append(res, fmt.Sprint(n, err))
				case "copy":
					n, err := copyTo(w, strings.Repeat(o.v, rep))
					total += n
					res = append(res, fmt.Sprint(n, err))
				case "flush":
					w.(http.Flusher).Flush()
				}
			}
			if late {
				w.Header().Set("X-Late", "trailer value")
			}
			return
		}
		j.name = fmt.Sprintf("%s %s %v %v", j.method, j.path, ops, j.hdr)
		jobs = append(jobs, j)
	}
	sink := &ad.Sink{}
	byPath := map[string]*job{}
	for _, j := range jobs {
		byPath[strings.SplitN(j.path, "/", 3)[1]] = j
	}
	var offersRF atomic.Bool
	run := func(traced bool) map[*job]*obs {
		var mu sync.Mutex
		out := map[*job]*obs{}
		for _, j := range jobs {
			out[j] = &obs{}
		}
		var h http.Handler = http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			j := byPath[strings.SplitN(q.URL.EscapedPath(), "/", 3)[1]]
			if j == nil {
				c.Failf("request altered", "the handler is asked for %q", q.URL)
				return
			}
			b, err := io.ReadAll(q.Body)
			hd := q.Header.Clone()
			hd.Del("Span-Id")
			s := fmt.Sprintf("%s %s %s len=%d te=%v hdr=%v body=%d %v trailer=%v ", q.Method, q.RequestURI, q.Proto, q.ContentLength, q.TransferEncoding, sortedHeader(hd), len(b), err, sortedHeader(q.Trailer))
			if _, ok := w.(io.ReaderFrom); traced {
				offersRF.Store(ok)
			} else if !offersRF.Load() {
				// Optional interfaces other than Flusher are not claimed: what
				// the middleware hides is out of reach without it, too.
				w = struct {
					http.ResponseWriter
					http.Flusher
				}{w, w.(http.Flusher)}
			}
			s += fmt.Sprint(j.script(w))
			mu.Lock()
			out[j].server += s
			mu.Unlock()
		})
		if traced {
			quietLog.Do(func() { log.SetOutput(io.Discard) })
			mw := httptrace.Middleware(sink, &httptrace.MiddlewareConfig{})
			inner := h
			h = http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { mw(w, q, inner.ServeHTTP) })
		}
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic("harness: " + err.Error())
		}
		srv := &http.Server{Handler: h, ErrorLog: log.New(io.Discard, "", 0)}
		go srv.Serve(l)
		defer srv.Close()
		base := &http.Transport{DisableKeepAlives: true}
		var rt http.RoundTripper = base
		if traced {
			rt = &httptrace.Transport{Recorder: appdash.NewRecorder(appdash.NewRootSpanID(), sink), Transport: base}
		}
		var wg sync.WaitGroup
		for _, j := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var rd io.Reader
				if j.body != "" {
					rd = strings.NewReader(j.body)
				}
				if j.trailer {
					rd = io.MultiReader(rd0(rd), strings.NewReader("x"))
				}
				req, err := http.NewRequest(j.method, "http://"+l.Addr().String()+j.path, rd)
				if err != nil {
					return
				}
				req.Host = "host.example"
				req.Header = j.hdr.Clone()
				if j.trailer {
					req.Trailer = http.Header{"X-Tr": {"tv"}}
				}
				info := ""
				req = req.WithContext(stdtrace.WithClientTrace(context.Background(), &stdtrace.ClientTrace{Got1xxResponse: func(code int, h textproto.MIMEHeader) error {
					mu.Lock()
					info += fmt.Sprintf("1xx %d %s ", code, withoutSpan(http.Header(h)))
					mu.Unlock()
					return nil
				}}))
				resp, err := rt.RoundTrip(req)
				mu.Lock()
				s := info
				mu.Unlock()
				if err != nil {
					s += "error"
				} else {
					b, err := io.ReadAll(resp.Body)
					resp.Body.Close()
					hd := resp.Header.Clone()
					hd.Del("Date")
					hd.Del("Span-Id")
					s += fmt.Sprintf("%s %s len=%d te=%v hdr=%v body=%q %v trailer=%v", resp.Status, resp.Proto, resp.ContentLength, resp.TransferEncoding, sortedHeader(hd), b, err != nil, sortedHeader(resp.Trailer))
				}
				mu.Lock()
				out[j].client += s
				mu.Unlock()
			}()
		}
		wg.Wait()
		if traced {
			c.AwaitOr("event count", "collection of the server events", func() bool {
				n := 0
				for _, k := range sink.Snapshot() {
					for _, a := range k.Anns {
						if a.Key == "_schema:HTTPServer" {
							n++
						}
					}
				}
				return n >= len(jobs)
			})
		}
		mu.Lock()
		defer mu.Unlock()
		cp := map[*job]*obs{}
		for j, o := range out {
			v := *o
			cp[j] = &v
		}
		return cp
	}
	traced := run(true)
	lengths := map[*job]int64{}
	for _, j := range jobs {
		lengths[j] = j.length.Load()
	}
	plain := run(false)
	for _, j := range jobs {
		if plain[j].client == "" || plain[j].server == "" {
			continue // could not be sent at all
		}
		if plain[j].server != traced[j].server {
			c.Failf("request altered", "%s: the handler observes\n%s\nwithout tracing\n%s", j.name, traced[j].server, plain[j].server)
		}
		if plain[j].client != traced[j].client {
			c.Failf("response altered", "%s: the client observes\n%s\nwithout tracing\n%s", j.name, traced[j].client, plain[j].client)
		}
		c.Mark(j.name)
		c.Count("requests_compared", 1)
	}
	// Client and server agree on the status that reached the client.
	type ev struct {
		status map[string]int
		length string
		n      int
	}
	byURI := map[string]*ev{}
	for _, k := range sink.Snapshot() {
		as := map[string]string{}
		for _, a := range k.Anns {
			as[a.Key] = string(a.Value)
		}
		for _, side := range []string{"Client", "Server"} {
			if _, ok := as["_schema:HTTP"+side]; ok {
				u := as[side+".Request.URI"]
				if byURI[u] == nil {
					byURI[u] = &ev{status: map[string]int{}}
				}
				byURI[u].n++
				st := 0
				fmt.Sscan(as[side+".Response.StatusCode"], &st)
				byURI[u].status[side] = st
				if side == "Server" {
					byURI[u].length = as["Server.Response.ContentLength"]
				}
			}
		}
	}
	for _, j := range jobs {
		if plain[j].client == "" || plain[j].server == "" {
			continue
		}
		uj, _ := url.Parse("http://h" + j.path)
		e := byURI[uj.RequestURI()]
		if e == nil || e.n != 2 {
			c.Failf("event count", "%s: not exactly one client and one server event", j.name)
			continue
		}
		if want := fmt.Sprint(lengths[j]); e.length != want {
			c.Failf("recorded length", "%s: the handler wrote %s bytes, the server event says %s", j.name, want, e.length)
		}
		if traced[j].client != "error" && !strings.HasSuffix(traced[j].client, "error") && e.status["Client"] != e.status["Server"] {
			c.Failf("recorded status", "%s: the client event says %d, the server event %d, the client saw %s", j.name, e.status["Client"], e.status["Server"], traced[j].client)
		}
		if strings.HasSuffix(traced[j].client, "error") && e.status["Client"] != -1 {
			c.Failf("recorded status", "%s: the round trip failed and the client event says %d", j.name, e.status["Client"])
		}
	}
	c.Sample("%d requests: %s", len(jobs), traced[jobs[0]].client)
}

func rd0(r io.Reader) io.Reader {
	if r == nil {
		return bytes.NewReader(nil)
	}
	return r
}

// ---------------------------------------------------------------------------
// C19

var headerNames = []string{"Authorization", "X-Api-Key", "Cookie", "X-Other", "Accept", "X-Long-Header-Name", "Etag", "A", "Www-Authenticate"}

// Names that have no canonical form; nothing sends them, but they can be asked for.
var oddNames = []string{"X Api Key", "Secret(Id)", "X-Auth Token", "User@Host", "Api[Key]"}

func spell(r *rand.Rand, name string) string {
	switch r.Intn(5) {
	case 0:
		return strings.ToLower(name)
	case 1:
		return strings.ToUpper(name)
	case 2:
		b := []byte(name)
		for i := range b {
			if r.Intn(2) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return name
}

// secretSet generates headers in any spelling whose values are unique tokens.
type secretSet struct {
	n    int
	vals map[string][]string // lower-case name -> values in order, as far as one spelling is used
	keys map[string]map[string]bool
}

func (s *secretSet) add(r *rand.Rand, h http.Header, raw bool) {
	name := headerNames[r.Intn(len(headerNames))]
	if r.Intn(6) == 0 {
		name = fmt.Sprintf("X-Rand-%d", r.Intn(4))
	}
	key := http.CanonicalHeaderKey(name)
	if raw {
		if r.Intn(6) == 0 {
			name = oddNames[r.Intn(len(oddNames))]
		}
		key = spell(r, name)
	}
	values := 1 + r.Intn(3)
	if raw && r.Intn(40) == 0 {
		values = r.Intn(300)
	}
	s.addAs(r, h, name, key, values, raw)
}

func (s *secretSet) addAs(r *rand.Rand, h http.Header, name, key string, values int, long bool) {
	for k := values; k > 0; k-- {
		s.n++
		v := fmt.Sprintf("tok%04dkot", s.n)
		if long && r.Intn(100) == 0 {
			v = strings.Repeat("x", r.Intn(20000)) + v
		}
		if r.Intn(4) == 0 {
			v = "Bearer " + v + "; a=b"
		}
		h[key] = append(h[key], v)
		l := strings.ToLower(name)
		s.vals[l] = append(s.vals[l], v)
		if s.keys[l] == nil {
			s.keys[l] = map[string]bool{}
		}
		s.keys[l][key] = true
	}
}

func newSecrets() *secretSet {
	return &secretSet{vals: map[string][]string{}, keys: map[string]map[string]bool{}}
}

func genRedacted(r *rand.Rand) (list []string, is func(string) bool) {
	set := map[string]bool{}
	if r.Intn(3) == 0 {
		list = []string{"Authorization"}
	} else {
		for n := r.Intn(5); n > 0; n-- {
			list = append(list, spell(r, headerNames[r.Intn(len(headerNames))]))
			if r.Intn(3) == 0 {
				list = append(list, spell(r, oddNames[r.Intn(len(oddNames))]))
			}
		}
	}
	for _, l := range list {
		set[strings.ToLower(l)] = true
	}
	return list, func(k string) bool { return set[strings.ToLower(k)] }
}

// judgeSecrets looks for secrets in everything collected and compares what was
// recorded under prefix with the headers.
func judgeSecrets(c *mon.Case, calls []ad.Call, prefix string, s *secretSet, redacted func(string) bool, lenient bool) {
	rec := map[string][]string{} // lower-case name -> recorded values
	for _, k := range calls {
		for _, a := range k.Anns {
			for name, vs := range s.vals {
				if !redacted(name) {
					continue
				}
				for _, v := range vs {
					if strings.Contains(string(a.Value), v) || strings.Contains(a.Key, v) {
						c.Failf("secret leaked", "the value %q of the redacted header %q is in annotation %q=%q", v, name, a.Key, a.Value)
					}
				}
			}
			if strings.HasPrefix(a.Key, prefix) {
				n := strings.ToLower(strings.TrimPrefix(a.Key, prefix))
				n = strings.TrimPrefix(n, "trailer:")
				rec[n] = append(rec[n], string(a.Value))
			}
		}
	}
	for name, vs := range s.vals {
		got := rec[name]
		if redacted(name) {
			ok := len(got) > 0
			for _, g := range got {
				ok = ok && g == "REDACTED"
			}
			if !ok && !lenient {
				c.Failf("not redacted", "the redacted header %q is recorded as %q in %s", name, got, prefix)
			}
			c.Count("secrets_watched", len(vs))
			continue
		}
		if lenient {
			continue
		}
		g, w := strings.Split(strings.Join(got, ","), ","), strings.Split(strings.Join(vs, ","), ",")
		if len(s.keys[name]) > 1 {
			sort.Strings(g)
			sort.Strings(w)
		}
		if strings.Join(g, ",") != strings.Join(w, ",") {
			c.Failf("header lost", "the header %q (spelled %v) with values %q is recorded as %q", name, s.keys[name], vs, got)
		}
		c.Count("headers_compared", 1)
	}
}

var redactedMu sync.Mutex

// httpSecrets sends hand-made headers and trailers through middleware and
// transport.
func httpSecrets(c *mon.Case) {
	r := c.R
	list, redacted := genRedacted(r)
	old := httptrace.RedactedHeaders
	httptrace.RedactedHeaders = list
	defer func() { httptrace.RedactedHeaders = old }()
	raw := r.Intn(2) == 0
	fillH := func(s *secretSet) http.Header {
		h := http.Header{}
		for n := r.Intn(6); n > 0; n-- {
			s.add(r, h, raw)
		}
		if r.Intn(40) == 0 {
			for i := r.Intn(300); i > 0; i-- {
				s.addAs(r, h, fmt.Sprintf("X-Many-%d", i), fmt.Sprintf("X-Many-%d", i), 1, raw)
			}
		}
		return h
	}
	copyOf := func(hs ...http.Header) string {
		out := ""
		for _, h := range hs {
			out += fmt.Sprint(sortedHeader(h))
		}
		return out
	}
	// Spare capacity behind the values shows writes through to the caller's slices.
	spare := func(h http.Header) {
		for k, v := range h {
			w := make([]string, len(v), len(v)+3)
			copy(w, v)
			for i := range w[len(v) : len(v)+3] {
				w[:len(v)+3][len(v)+i] = "spare"
			}
			h[k] = w
		}
	}
	checkSpare := func(what string, h http.Header) {
		for k, v := range h {
			for _, x := range v[len(v):cap(v)] {
				if strings.HasPrefix(x, "tok") || strings.HasPrefix(x, "Bearer tok") {
					c.Failf("caller's header", "recording wrote %q behind the %s header %q of the caller", x, what, k)
				}
			}
		}
	}
	sreq, sresp := newSecrets(), newSecrets()
	sresp.n = 100000
	hdr, trl, rh := fillH(sreq), http.Header{}, fillH(sresp)
	if r.Intn(2) == 0 {
		trl = fillH(sreq)
		// A name in both headers and trailers: any order of the values.
		for l := range sreq.keys {
			sreq.keys[l]["trailer"] = true
		}
	}
	spare(hdr)
	spare(trl)
	sink := &ad.Sink{}
	side := "Client"
	if r.Intn(2) == 0 {
		side = "Server"
		req := httptest.NewRequest("POST", "/x", strings.NewReader(""))
		req.Header, req.Trailer = hdr, trl
		if r.Intn(2) == 0 {
			req.Header.Set("Span-Id", "1/2/3")
		}
		before := copyOf(hdr, trl)
		tp := r.Intn(3) == 0
		rw := httptest.NewRecorder()
		runMiddleware(sink, &httptrace.MiddlewareConfig{}, rw, req, func(w http.ResponseWriter, q *http.Request) {
			for k, v := range rh {
				if tp && k == http.CanonicalHeaderKey(k) {
					k = http.TrailerPrefix + k
				}
				w.Header()[k] = v
			}
			w.WriteHeader(200)
		})
		if got := copyOf(hdr, trl); got != before {
			c.Failf("caller's header", "the request's headers changed from %s to %s", before, got)
		}
	} else {
		req, _ := http.NewRequest("POST", "http://h/x", nil)
		req.Header, req.Trailer = hdr, trl
		rt := http.Header{}
		if r.Intn(2) == 0 {
			rt = fillH(sresp)
			for l := range sresp.keys {
				sresp.keys[l]["trailer"] = true
			}
		}
		before := copyOf(hdr, trl, rh, rt)
		fail := r.Intn(5) == 0
		tr := &httptrace.Transport{Recorder: appdash.NewRecorder(appdash.NewRootSpanID(), sink), Transport: rtFunc(func(q *http.Request) (*http.Response, error) {
			if fail {
				return nil, errors.New("failed")
			}
			return &http.Response{StatusCode: 200, Header: rh, Trailer: rt, Body: http.NoBody}, nil
		})}
		tr.RoundTrip(req)
		if got := copyOf(hdr, trl, rh, rt); got != before {
			c.Failf("caller's header", "headers changed from %s to %s", before, got)
		}
		if fail {
			sresp = newSecrets()
		}
	}
	checkSpare("request", hdr)
	checkSpare("request trailer", trl)
	judgeSecrets(c, sink.Snapshot(), side+".Request.Headers.", sreq, redacted, false)
	judgeSecrets(c, sink.Snapshot(), side+".Response.Headers.", sresp, redacted, false)
	c.Mark(side, list, sortedHeader(hdr), sortedHeader(trl), sortedHeader(rh))
	c.Sample("%s, redacting %q: %v %v / %v", side, list, sortedHeader(hdr), sortedHeader(trl), sortedHeader(rh))
}

// httpSecretsWire sends secrets over the wire in headers and trailers of
// concurrent requests.
func httpSecretsWire(c *mon.Case) {
	r := c.R
	list, redacted := genRedacted(r)
	old := httptrace.RedactedHeaders
	httptrace.RedactedHeaders = list
	defer func() { httptrace.RedactedHeaders = old }()
	sink := &ad.Sink{}
	quietLog.Do(func() { log.SetOutput(io.Discard) })
	type pair struct {
		req, resp           *secretSet
		rh, rt, qh, qt      http.Header
		prefixed, withSpan  bool
		handlerReadsTrailer bool
	}
	n := 1 + r.Intn(4)
	var ps []*pair
	for i := 0; i < n; i++ {
		p := &pair{req: newSecrets(), resp: newSecrets(), rh: http.Header{}, rt: http.Header{}, qh: http.Header{}, qt: http.Header{}, prefixed: r.Intn(2) == 0, withSpan: r.Intn(2) == 0}
		p.req.n, p.resp.n = i*1000, i*1000+500
		for k := r.Intn(4); k > 0; k-- {
			p.req.add(r, p.qh, false)
		}
		for k := r.Intn(3); k > 0; k-- {
			p.req.add(r, p.qt, false)
		}
		for k := r.Intn(4); k > 0; k-- {
			p.resp.add(r, p.rh, false)
		}
		for k := r.Intn(3); k > 0; k-- {
			p.resp.add(r, p.rt, false)
		}
		ps = append(ps, p)
	}
	mw := httptrace.Middleware(sink, &httptrace.MiddlewareConfig{})
	h := func(w http.ResponseWriter, q *http.Request) {
		var i int
		fmt.Sscanf(q.URL.Path, "/%d", &i)
		p := ps[i]
		io.Copy(io.Discard, q.Body)
		for k, v := range p.rh {
			w.Header()[k] = append([]string(nil), v...)
		}
		if !p.prefixed {
			for k := range p.rt {
				w.Header().Add("Trailer", k)
			}
		}
		w.WriteHeader(200)
		io.WriteString(w, "x")
		w.(http.Flusher).Flush()
		for k, v := range p.rt {
			if p.prefixed {
				k = http.TrailerPrefix + k
			}
			w.Header()[k] = append(w.Header()[k], v...)
		}
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { mw(w, q, h) }), ErrorLog: log.New(io.Discard, "", 0)}
	done := make(chan bool)
	go func() { srv.Serve(l); close(done) }()
	base := &http.Transport{DisableKeepAlives: true}
	rec := appdash.NewRecorder(appdash.NewRootSpanID(), sink)
	tr := &httptrace.Transport{Recorder: rec, Transport: base}
	var wg sync.WaitGroup
	for i, p := range ps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			req, _ := http.NewRequest("POST", fmt.Sprintf("http://%s/%d", l.Addr(), i), io.MultiReader(strings.NewReader("body")))
			req.Header, req.Trailer = p.qh.Clone(), p.qt.Clone()
			var rt http.RoundTripper = tr
			if !p.withSpan { // no Span-ID: the server reads the request again after handling it
				rt = base
			}
			resp, err := rt.RoundTrip(req)
			if err != nil {
				c.Inconclusive("loopback request failed: %v", err)
				return
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}()
	}
	wg.Wait()
	c.AwaitOr("event count", "collection of the server events", func() bool {
		k := 0
		for _, x := range sink.Snapshot() {
			for _, a := range x.Anns {
				if a.Key == "_schema:HTTPServer" {
					k++
				}
			}
		}
		return k >= n
	})
	srv.Close()
	<-done
	// Who recorded what: by URI.
	for i, p := range ps {
		var mine []ad.Call
		all := sink.Snapshot()
		for _, k := range all {
			for _, a := range k.Anns {
				if (a.Key == "Server.Request.URI" || a.Key == "Client.Request.URI") && string(a.Value) == fmt.Sprintf("/%d", i) {
					mine = append(mine, k)
				}
			}
		}
		// Secrets anywhere, in anything collected.
		judgeSecrets(c, all, "\x00", p.req, redacted, true)
		judgeSecrets(c, all, "\x00", p.resp, redacted, true)
		// Headers that have no namesake among the trailers are recorded whole.
		only := func(s *secretSet, h, t http.Header) *secretSet {
			o := newSecrets()
			for k := range h {
				if _, both := t[k]; !both {
					kl := strings.ToLower(k)
					o.vals[kl], o.keys[kl] = s.vals[kl], s.keys[kl]
				}
			}
			return o
		}
		judgeSecrets(c, mine, "Server.Request.Headers.", only(p.req, p.qh, p.qt), redacted, false)
		judgeSecrets(c, mine, "Server.Response.Headers.", only(p.resp, p.rh, p.rt), redacted, false)
		if p.withSpan {
			judgeSecrets(c, mine, "Client.Request.Headers.", only(p.req, p.qh, p.qt), redacted, false)
			judgeSecrets(c, mine, "Client.Response.Headers.", only(p.resp, p.rh, p.rt), redacted, false)
		}
		c.Mark(list, sortedHeader(p.qh), sortedHeader(p.qt), sortedHeader(p.rh), sortedHeader(p.rt), p.prefixed, p.withSpan)
	}
	c.Count("requests", n)
	c.Sample("%d requests, redacting %q: headers %v, trailers %v", n, list, sortedHeader(ps[0].qh), sortedHeader(ps[0].qt))
}
