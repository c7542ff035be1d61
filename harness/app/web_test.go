package app

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strconv"
	"strings"
	"time"

	"golang.org/x/net/html"

	"verif/ad"
	"verif/mon"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"sourcegraph.com/sourcegraph/appdash/traceapp"
)

// stderr keeps file descriptor 2 open: the runtime writes there.
var stderr = os.Stderr

func init() {
	log.SetOutput(io.Discard)
	// Loggers that components make for themselves write there.
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
}

// newApp returns a web UI over a store.
func newApp(s appdash.Store, q appdash.Queryer) *traceapp.App {
	u, _ := url.Parse("http://appdash.example/")
	a, err := traceapp.New(nil, u)
	if err != nil {
		panic("harness: " + err.Error())
	}
	a.Store, a.Queryer = s, q
	a.Log = log.New(io.Discard, "", 0)
	return a
}

func memApp() (*traceapp.App, *appdash.MemoryStore) {
	s := appdash.NewMemoryStore()
	return newApp(s, s), s
}

// resp is a response as a client sees it.
type resp struct {
	status int
	ctype  string
	body   string
	header http.Header
}

func (r resp) ok() bool  { return r.status >= 200 && r.status < 300 }
func (r resp) bad() bool { return r.status >= 400 }

func do(a http.Handler, method, target string, body string) resp {
	req := httptest.NewRequest(method, target, strings.NewReader(body))
	w := httptest.NewRecorder()
	a.ServeHTTP(w, req)
	rs := w.Result()
	b, _ := io.ReadAll(rs.Body)
	ct := rs.Header.Get("Content-Type")
	if _, set := rs.Header["Content-Type"]; !set && len(b) > 0 {
		ct = http.DetectContentType(b) // as net/http does
	}
	return resp{rs.StatusCode, ct, string(b), rs.Header}
}

// browser keeps what it was given as a browser does: it asks again with the
// validators of what it has, and not at all while that is still to be used.
type browser struct {
	h    http.Handler
	mem  map[string]kept
	hits int
}

type kept struct {
	resp
	until time.Time
}

func (b *browser) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	if req.Method != "GET" {
		b.h.ServeHTTP(w, req)
		return
	}
	u := req.URL.String()
	k, have := b.mem[u]
	show := func() {
		b.hits++
		for n, v := range k.header {
			w.Header()[n] = v
		}
		w.WriteHeader(k.status)
		io.WriteString(w, k.body)
	}
	if have && time.Now().Before(k.until) {
		show()
		return
	}
	req = req.Clone(req.Context())
	if v := k.header.Get("ETag"); v != "" {
		req.Header.Set("If-None-Match", v)
	}
	if v := k.header.Get("Last-Modified"); v != "" {
		req.Header.Set("If-Modified-Since", v)
	}
	rec := httptest.NewRecorder()
	b.h.ServeHTTP(rec, req)
	rs := rec.Result()
	if have && rs.StatusCode == 304 {
		show()
		return
	}
	body, _ := io.ReadAll(rs.Body)
	n := kept{resp: resp{rs.StatusCode, "", string(body), rs.Header}}
	cc := strings.ToLower(strings.Join(rs.Header.Values("Cache-Control"), ","))
	if i := strings.Index(cc, "max-age="); i >= 0 && !strings.Contains(cc, "no-cache") {
		var sec int
		fmt.Sscanf(cc[i:], "max-age=%d", &sec)
		n.until = time.Now().Add(time.Duration(sec) * time.Second)
	} else if e, err := http.ParseTime(rs.Header.Get("Expires")); err == nil && cc == "" {
		n.until = e
	}
	delete(b.mem, u)
	if rs.StatusCode == 200 && !strings.Contains(cc, "no-store") {
		b.mem[u] = n
	}
	for n, v := range rs.Header {
		w.Header()[n] = v
	}
	w.WriteHeader(rs.StatusCode)
	w.Write(body)
}

// browse views a through a browser.
func browse(a http.Handler) http.Handler { return &browser{h: a, mem: map[string]kept{}} }

func get(a http.Handler, target string) resp { return do(a, "GET", target, "") }

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// ---- HTML ----

func parse(s string) *html.Node {
	n, err := html.Parse(strings.NewReader(s))
	if err != nil {
		return nil
	}
	return n
}

func attr(n *html.Node, k string) string {
	v, _ := attrOK(n, k)
	return v
}

func attrOK(n *html.Node, k string) (string, bool) {
	for _, a := range n.Attr {
		if a.Key == k {
			return a.Val, true
		}
	}
	return "", false
}

func walk(n *html.Node, f func(*html.Node)) {
	f(n)
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		walk(c, f)
	}
}

func find(n *html.Node, ok func(*html.Node) bool) (out []*html.Node) {
	if n == nil {
		return nil
	}
	walk(n, func(x *html.Node) {
		if x.Type == html.ElementNode && ok(x) {
			out = append(out, x)
		}
	})
	return
}

func tag(n *html.Node, t string) []*html.Node {
	return find(n, func(x *html.Node) bool { return x.Data == t })
}

func byID(n *html.Node, id string) *html.Node {
	l := find(n, func(x *html.Node) bool { return attr(x, "id") == id })
	if len(l) == 0 {
		return nil
	}
	return l[0]
}

func text(n *html.Node) string {
	var b strings.Builder
	walk(n, func(x *html.Node) {
		if x.Type == html.TextNode {
			b.WriteString(x.Data)
		}
	})
	return b.String()
}

// scriptValue finds "var NAME = JSON;" in the page's scripts.
func scriptValue(doc *html.Node, name string, into any) error {
	for _, s := range tag(doc, "script") {
		t := text(s)
		i := strings.Index(t, "var "+name+" = ")
		if i < 0 {
			continue
		}
		return json.NewDecoder(strings.NewReader(t[i+len("var "+name+" = "):])).Decode(into)
	}
	return fmt.Errorf("no script sets %s", name)
}

// ---- events ----

func evAnns(e appdash.Event) []ad.Ann {
	as, err := appdash.MarshalEvent(e)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return as
}

// timespans generates timespan events of one span, at most one per schema.
func timespans(r *rand.Rand, n int, t func() (s, e time.Time)) (as []ad.Ann, spans [][2]time.Time) {
	for _, k := range r.Perm(5)[:n] {
		s, e := t()
		switch k {
		case 0:
			as = append(as, evAnns(appdash.Timespan{S: s, E: e})...)
		case 1:
			as = append(as, evAnns(&httptrace.ServerEvent{ServerRecv: s, ServerSend: e})...)
		case 2:
			as = append(as, evAnns(&httptrace.ClientEvent{ClientSend: s, ClientRecv: e})...)
		case 3:
			as = append(as, evAnns(&sqltrace.SQLEvent{SQL: "SELECT", ClientSend: s, ClientRecv: e})...)
		case 4:
			f := func(t time.Time) []byte { return []byte(t.Format(time.RFC3339Nano)) }
			as = append(as, ad.Ann{Key: "S", Value: f(s)}, ad.Ann{Key: "E", Value: f(e)}, ad.Ann{Key: "_schema:timespan"})
		}
		spans = append(spans, [2]time.Time{s, e})
		if r.Intn(3) == 0 {
			as = append(as, ad.Ann{Key: "noise", Value: []byte(fmt.Sprint(r.Intn(100)))})
		}
	}
	return
}

// node is a span to be collected.
type node struct {
	id   appdash.SpanID
	anns []ad.Ann
}

// genTrace generates the spans of one trace: one root (unless rootless), the
// others below it or orphaned, with distinct IDs.
func genTrace(r *rand.Rand, trace appdash.ID, n int, orphans bool, anns func(i int) []ad.Ann) []node {
	ids := distinct(r, n+1)
	var out []node
	shape := r.Intn(4)
	if n > 100 { // the size of the JSON of a chain, indented, is quadratic
		shape = 1 + 2*r.Intn(2)
	}
	for i := 0; i < n; i++ {
		nd := node{id: appdash.SpanID{Trace: trace, Span: ids[i]}, anns: anns(i)}
		if i > 0 {
			p := 0
			switch shape {
			case 0:
				p = i - 1
			case 1:
				p = r.Intn(i)
			case 2:
				p = max(0, i-1-r.Intn(3))
			}
			nd.id.Parent = ids[p]
			if orphans && r.Intn(10) == 0 {
				nd.id.Parent = ids[n] // never collected
			}
			if orphans && r.Intn(20) == 0 {
				nd.id.Parent = nd.id.Span
			}
			if i == n-1 && r.Intn(12) == 0 {
				nd.id.Span = 0 // nobody's parent
			}
		}
		out = append(out, nd)
	}
	return out
}

// distinct generates n distinct nonzero IDs.
func distinct(r *rand.Rand, n int) []appdash.ID {
	seen := map[appdash.ID]bool{}
	var out []appdash.ID
	for len(out) < n {
		id := ad.NZ(r)
		if !seen[id] {
			seen[id] = true
			out = append(out, id)
		}
	}
	return out
}

func collect(c *mon.Case, s appdash.Collector, ns []node) {
	for _, i := range c.R.Perm(len(ns)) {
		if err := s.Collect(ns[i].id, ad.CopyAnns(ns[i].anns)...); err != nil {
			panic("harness: " + err.Error())
		}
	}
}

func canonStore(s *appdash.MemoryStore) string {
	ts, err := s.Traces(appdash.TracesOpts{})
	if err != nil {
		return "error: " + err.Error()
	}
	return ad.CanonAll(ts)
}

func sameJSON(a, b string) bool {
	var x, y bytes.Buffer
	if json.Compact(&x, []byte(a)) != nil || json.Compact(&y, []byte(b)) != nil {
		return false
	}
	return x.String() == y.String()
}

type htmlNode = html.Node

// spellID writes an ID in one of the ways in which it may be given.
func spellID(r *rand.Rand, id appdash.ID) string {
	s := id.String()
	switch r.Intn(8) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		s = strconv.FormatUint(uint64(id), 16)
	case 2:
		s = strings.Repeat("0", r.Intn(5)) + s
	}
	return s
}
