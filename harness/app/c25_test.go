package app

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"golang.org/x/net/html"

	"verif/ad"
	"verif/mon"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"sourcegraph.com/sourcegraph/appdash/traceapp"
)

func init() {
	mon.Reg("C25", "list", 120, 3000, webList)
	mon.Reg("C25", "pages", 120, 3000, webPages)
	mon.Reg("C25", "base-url", 60, 600, webBase)
	mon.Reg("C25", "changing", 80, 2000, webChanging)
	mon.Reg("C25", "scale", 12, 120, func(c *mon.Case) {
		n := 500 + c.R.Intn(2000)
		if c.Idx%2 == 0 {
			webListOf(c, n, n)
		} else {
			webPagesOf(c, n/2)
		}
	})
	mon.Reg("C25", "requests", 40, 1000, webRequests)
	mon.Reg("C25", "failing-store", 100, 2000, webFailing)
	mon.Reg("C25", "escaping", 80, 2500, webEscaping)
}

// listed are the traces a list page shows, sorted.
func listed(c *mon.Case, p resp) (ids []string, names map[string]string) {
	doc := parse(p.body)
	names = map[string]string{}
	for _, in := range tag(doc, "input") {
		j, ok := attrOK(in, "data-json-trace")
		if !ok {
			continue
		}
		var t appdash.Trace
		if err := json.Unmarshal([]byte(j), &t); err != nil {
			c.Failf("list", "the list has a trace that cannot be decoded: %v", err)
			continue
		}
		id := t.ID.Trace.String()
		ids = append(ids, id)
		li := in.Parent
		if links(li, "/traces/"+id) != 1 {
			c.Failf("list", "the entry of trace %s does not link to it once", id)
		}
		for _, s := range tag(li, "strong") {
			names[id] += text(s)
		}
	}
	sort.Strings(ids)
	return
}

func webList(c *mon.Case) {
	n := 1 + c.R.Intn(8)
	if c.R.Intn(15) == 0 {
		n = 0
	}
	webListOf(c, n, 4)
}

func webListOf(c *mon.Case, n, most int) {
	r := c.R
	a, s := memApp()
	ids := distinct(r, n)
	if n > 0 && r.Intn(6) == 0 {
		ids[r.Intn(n)] = 0
	}
	roots := map[string]string{}
	for _, id := range ids {
		ns := genTrace(r, id, 1+r.Intn(4), true, jsonAnns(r))
		roots[id.String()] = ns[0].named()
		collect(c, s, ns)
	}
	if len(ids) > 2 && r.Intn(3) == 0 {
		s.Delete(ids[0])
		delete(roots, ids[0].String())
		ids = ids[1:]
	}
	listOf(c, a, ids, roots, most, 3)
	c.Sample("list of %d traces", len(ids))
}

// named is the name the span has to be shown by.
func (n node) named() string {
	if wn := (&appdash.Span{Annotations: n.anns}).Name(); wn != "" {
		return wn
	}
	return n.id.Span.String()
}

// listOf compares the list of the traces, and of some of them.
func listOf(c *mon.Case, a http.Handler, ids []appdash.ID, roots map[string]string, most, times int) {
	r := c.R
	for k := 0; k < times; k++ {
		u := "/traces"
		want := map[string]bool{}
		for _, id := range ids {
			want[id.String()] = true
		}
		if k > 0 && len(ids) > 0 {
			sel := map[string]bool{}
			var l []string
			for n := 1 + r.Intn(most); n > 0; n-- {
				id := ids[r.Intn(len(ids))]
				sel[id.String()] = true
				l = append(l, spellID(r, id))
			}
			if r.Intn(3) == 0 {
				x := ad.NZ(r).String()
				if want[x] {
					sel[x] = true
				}
				l = append(l, x)
			}
			if r.Intn(3) == 0 {
				l = append(l, []string{"", "xyz", "-1", "<b>", "11111111111111111"}[r.Intn(5)])
			}
			r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			u += "?show=" + url.QueryEscape(strings.Join(l, ","))
			want = sel
		}
		p := get(a, u)
		if !p.ok() {
			c.Failf("list", "GET %s is answered with status %d: %s", u, p.status, cut(p.body))
			return
		}
		got, names := listed(c, p)
		var w []string
		for x := range want {
			w = append(w, x)
		}
		sort.Strings(w)
		if fmt.Sprint(got) != fmt.Sprint(w) {
			c.Failf("list", "GET %s shows the traces %s, should show %s", cut(u), cut(fmt.Sprint(got)), cut(fmt.Sprint(w)))
			return
		}
		for _, x := range w {
			wn := roots[x]
			if norm(names[x]) != norm(wn) {
				c.Failf("list", "trace %s, named %q, is listed as %q", x, wn, names[x])
			}
		}
		c.Count("listed traces compared", len(w))
		c.Mark(u, got)
	}
}

// norm removes what HTML does not preserve.
func norm(s string) string {
	s = strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
	s = strings.ReplaceAll(s, "\x00", "\ufffd")
	return strings.ToValidUTF8(s, "\ufffd")
}

// rows are the rows of the table in the element with the given ID.
func rows(doc *html.Node, id string) (out [][2]string) {
	n := byID(doc, id)
	if n == nil {
		return nil
	}
	for _, tr := range tag(n, "tr") {
		th, td := tag(tr, "th"), tag(tr, "td")
		if len(th) == 1 && len(td) == 1 {
			out = append(out, [2]string{norm(text(th[0])), norm(text(td[0]))})
		}
	}
	return
}

// webBase configures base URLs, which all pages have to refer to.
func webBase(c *mon.Case) {
	r := c.R
	u := &url.URL{
		Scheme:   []string{"http", "https"}[r.Intn(2)],
		Host:     []string{"h", "localhost:7700", "h.example:80", "[::1]:1", "127.0.0.1:65535", "日本.example"}[r.Intn(6)],
		Path:     []string{"", "/", "/appdash/", "/a/b/", "/appdash", "/a b/é/", "/x<y>\"/"}[r.Intn(7)],
		RawQuery: []string{"", "", "q=1&r=2"}[r.Intn(3)],
	}
	before := *u
	a, err := traceapp.New(nil, u)
	if err != nil {
		c.Failf("base URL", "New with the base URL %q: %v", before.String(), err)
		return
	}
	if *u != before {
		c.Failf("base URL", "New changed the caller's base URL from %q to %q", before.String(), u.String())
	}
	want := before
	if want.Path == "" {
		want.Path = "/"
	}
	s := appdash.NewMemoryStore()
	a.Store, a.Queryer, a.Log = s, s, log.New(io.Discard, "", 0)
	id := distinct(r, 1)[0]
	collect(c, s, genTrace(r, id, 1+r.Intn(4), true, jsonAnns(r)))
	for _, p := range []string{"/", "/traces", "/traces/" + id.String(), "/aggregate"} {
		rs := get(a, p)
		bases := tag(parse(rs.body), "base")
		if !rs.ok() || len(bases) != 1 {
			c.Failf("base URL", "GET %s is answered with status %d and %d base URLs", p, rs.status, len(bases))
			return
		}
		got, err := url.Parse(attr(bases[0], "href"))
		if err != nil || got.Scheme != want.Scheme || got.Host != want.Host || got.Path != want.Path || got.RawQuery != want.RawQuery {
			c.Failf("base URL", "the page %s has the base URL %q, configured is %q", p, attr(bases[0], "href"), want.String())
			return
		}
		c.Count("pages with the base URL", 1)
	}
	c.Mark(want.String())
	// A base URL without scheme or host is refused.
	bad := want
	if r.Intn(2) == 0 {
		bad.Scheme = ""
	} else {
		bad.Host = ""
	}
	if _, err := traceapp.New(nil, &bad); err == nil {
		c.Failf("base URL", "New accepts the base URL %q", bad.String())
	}
	c.Sample("base URL %s", want.String())
}

func webPages(c *mon.Case) { webPagesOf(c, 1+c.R.Intn(8)) }

func webPagesOf(c *mon.Case, n int) {
	r := c.R
	a, s := memApp()
	ids := distinct(r, 2)
	collect(c, s, genTrace(r, ids[0], n, true, pageAnns(r)))
	other := genTrace(r, ids[1], 1+r.Intn(3), false, jsonAnns(r))
	collect(c, s, other)
	tr, _ := s.Trace(ids[0])
	pagesOf(c, a, tr, 4)
	// Unknown and malformed IDs.
	unknown := func(isSpan bool) string {
		for {
			id := ad.NZ(r)
			if id != ids[0] && id != ids[1] && (!isSpan || tr.FindSpan(id) == nil) {
				return id.String()
			}
		}
	}
	bad := func() string {
		return []string{"xyz", "-1", "0x1", "11111111111111111", "1.5", "%20", "%00", "+1", "1%20", "upload2", "%3Cscript%3E", "g000000000000000", "1/2/3"}[r.Intn(13)]
	}
	for k := 0; k < 4; k++ {
		var u, what string
		switch r.Intn(4) {
		case 0:
			u, what = "/traces/"+unknown(false), "an unknown trace"
		case 1:
			u, what = "/traces/"+bad(), "a malformed trace ID"
		case 2:
			u, what = "/traces/"+ids[0].String()+"/"+unknown(true), "an unknown span"
			for _, n := range other {
				if r.Intn(2) == 0 && tr.FindSpan(n.id.Span) == nil {
					u, what = "/traces/"+ids[0].String()+"/"+n.id.Span.String(), "a span of another trace"
				}
			}
		case 3:
			u, what = "/traces/"+ids[0].String()+"/"+bad(), "a malformed span ID"
		}
		if r.Intn(3) == 0 {
			u += "/profile"
		}
		if p := get(a, u); !p.bad() {
			c.Failf("unknown", "GET %s (%s) is answered with status %d: %s", u, what, p.status, cut(p.body))
		}
		c.Count("requests for unknown or malformed IDs", 1)
	}
	c.Sample("pages of %d spans", len(flat(tr)))
}

// pagesOf compares the pages of the trace and of spans of it.
func pagesOf(c *mon.Case, a http.Handler, tr *appdash.Trace, times int) {
	r := c.R
	id := tr.ID.Trace
	nodes := flat(tr)
	for k := 0; k < times; k++ {
		t, u := tr, "/traces/"+spellID(r, id)
		if k > 0 {
			t = nodes[r.Intn(len(nodes))]
			u += "/" + spellID(r, t.ID.Span)
		}
		p := get(a, u)
		if !p.ok() || !strings.HasPrefix(p.ctype, "text/html") {
			c.Failf("page", "GET %s is answered with status %d, %q: %s", u, p.status, p.ctype, cut(p.body))
			return
		}
		doc := parse(p.body)
		if byID(doc, "span-"+t.ID.Span.String()) == nil {
			c.Failf("page", "the page %s does not show span %v", u, t.ID)
		}
		if h := tag(doc, "h1"); len(h) != 1 || !strings.Contains(text(h[0]), id.String()) {
			c.Failf("page", "the heading of page %s does not name the trace", u)
		}
		name := t.Span.Name()
		if name == "" {
			name = t.ID.Span.String()
		}
		if v := byID(doc, "verboseDataView"); v == nil || len(tag(v, "strong")) != 1 || norm(text(tag(v, "strong")[0])) != norm(name) {
			c.Failf("page", "the page %s does not show the name %q", u, name)
		}
		var want [][2]string
		for _, an := range t.Annotations {
			if an.Key != "" && !strings.HasPrefix(an.Key, "_") {
				want = append(want, [2]string{norm(an.Key), norm(string(an.Value))})
			}
		}
		if got := rows(doc, "verboseDataView"); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Failf("page", "the page %s of span %v shows the annotations %q, should show %q", u, t.ID, got, want)
			return
		}
		// The short view is a part of it.
		rest := want
		for _, x := range rows(doc, "dataView") {
			i := 0
			for i < len(rest) && rest[i] != x {
				i++
			}
			if i == len(rest) {
				c.Failf("page", "the page %s of span %v shows the annotation %q, which it does not have (here)", u, t.ID, x)
				break
			}
			rest = rest[i+1:]
		}
		var js []*appdash.Trace
		if n := byID(doc, "copy-json-text"); n == nil || len(tag(n, "textarea")) != 1 ||
			json.Unmarshal([]byte(text(tag(n, "textarea")[0])), &js) != nil || len(js) != 1 || ad.Canon(js[0]) != ad.Canon(t) {
			c.Failf("page", "the page %s does not have the JSON of span %v", u, t.ID)
		}
		pu := ""
		for _, n := range tag(doc, "table") {
			if x := attr(n, "data-url"); x != "" {
				pu = x
			}
		}
		var pr []prof
		if q := get(a, pu); json.Unmarshal([]byte(q.body), &pr) != nil || len(pr) != len(flat(t)) {
			c.Failf("page", "the page %s (%d spans) has the profile %q of %d rows", u, len(flat(t)), pu, len(pr))
		}
		// So does the timeline, where it is shown.
		var items []tlItem
		if err := scriptValue(doc, "data", &items); err != nil {
			c.Failf("page", "the page %s has no timeline data: %v", u, err)
		}
		for _, it := range items {
			sid, _ := appdash.ParseID(it.SpanID)
			x := t.FindSpan(sid)
			if x == nil {
				c.Failf("page", "the page %s has a timeline of span %q, which is not in the tree", u, it.SpanID)
				break
			}
			if d := rawData(it.Data, x); d != "" {
				c.Failf("page", "the page %s shows data of span %v which %s", u, x.ID, d)
				break
			}
			c.Count("timeline items compared", 1)
		}
		c.Count("pages compared", 1)
		c.Count("annotation rows compared", len(want))
		c.Mark(u, fmt.Sprint(want))
	}
}

// pageAnns are annotations of all kinds.
func pageAnns(r *rand.Rand) func(int) []ad.Ann {
	anns, t := jsonAnns(r), times(r)
	timed := r.Intn(2) == 0
	return func(i int) []ad.Ann {
		as := anns(i)
		if r.Intn(3) == 0 {
			as = append(as, evAnns(appdash.Log(ad.UStr(r)))...)
		}
		if timed {
			ts, _ := timespans(r, 1+r.Intn(2), t)
			as = append(append(as, evAnns(appdash.SpanName("timed"))...), ts...)
		}
		return as
	}
}

// webChanging reads the pages of a store again and again while spans,
// annotations, and traces are added and traces are deleted and replaced.
func webChanging(c *mon.Case) {
	r := c.R
	a, s := memApp()
	bs := []http.Handler{a, a, newApp(s, s), browse(a)}
	if r.Intn(2) == 0 {
		bs = bs[3:]
	}
	all := distinct(r, 2+r.Intn(4))
	anns := pageAnns(r)
	trees := map[appdash.ID]*appdash.Trace{}
	roots := map[string]string{}
	var ids []appdash.ID
	refresh := func() {
		ids = ids[:0]
		trees = map[appdash.ID]*appdash.Trace{}
		for _, id := range all {
			if tr, err := s.Trace(id); err == nil {
				ids, trees[id] = append(ids, id), tr
			}
		}
	}
	begin := func(id appdash.ID) {
		ns := genTrace(r, id, 1+r.Intn(4), true, anns)
		roots[id.String()] = ns[0].named()
		collect(c, s, ns)
	}
	for _, id := range all[1:] {
		begin(id)
	}
	refresh()
	log := ""
	for step := 3 + r.Intn(6); step > 0; step-- {
		for k := 1 + r.Intn(2); k > 0; k-- {
			id := all[r.Intn(len(all))]
			switch n := r.Intn(7); {
			case trees[id] == nil:
				begin(id)
				log += "new "
			case n == 0:
				if err := s.Delete(id); err != nil {
					panic("harness: " + err.Error())
				}
				log += "delete "
				if r.Intn(2) == 0 {
					var ns []node
					for i, x := range flat(trees[id]) {
						ns = append(ns, node{x.ID, anns(i)})
					}
					roots[id.String()] = ns[0].named()
					collect(c, s, ns)
					log += "replace "
				}
			case n < 3:
				all := flat(trees[id])
				nid := appdash.SpanID{Trace: id, Span: ad.NZ(r), Parent: all[r.Intn(len(all))].ID.Span}
				if nid.Parent != 0 && trees[id].FindSpan(nid.Span) == nil {
					collect(c, s, []node{{nid, anns(0)}})
					log += "span "
				}
			default:
				x := flat(trees[id])[r.Intn(len(flat(trees[id])))]
				as := []ad.Ann{{Key: fmt.Sprintf("later%d", step), Value: []byte(ad.UStr(r))}}
				if _, has := x.Annotations.StringMap()["Name"]; !has && r.Intn(3) > 0 {
					as = append(as, evAnns(appdash.SpanName("named later"))...)
					if x == trees[id] {
						roots[id.String()] = "named later"
					}
				}
				collect(c, s, []node{{x.ID, as}})
				log += "annotate "
			}
			refresh()
		}
		app := bs[r.Intn(len(bs))]
		listOf(c, app, ids, roots, 4, 1+r.Intn(2))
		for k := 0; k < 2 && len(ids) > 0 && !c.Failed(); k++ {
			pagesOf(c, app, trees[ids[r.Intn(len(ids))]], 1+r.Intn(2))
		}
		if c.Failed() {
			c.Failf("changing", "(after %s)", log)
			return
		}
		c.Count("changes between pages", 1)
	}
	c.Mark(log)
	c.Sample("pages after %s", log)
}

// flaky is a store that fails.
type flaky struct {
	*appdash.MemoryStore
	fail  atomic.Bool
	fails atomic.Int64
}

var flakyKind atomic.Int64

// errFlaky returns the next kind of error.
func errFlaky() error { return ad.Fault(int(flakyKind.Add(1)*37), "store failure") }

func (f *flaky) Trace(id appdash.ID) (*appdash.Trace, error) {
	if f.fail.Load() {
		f.fails.Add(1)
		return nil, errFlaky()
	}
	return f.MemoryStore.Trace(id)
}

func (f *flaky) Traces(o appdash.TracesOpts) ([]*appdash.Trace, error) {
	if f.fail.Load() {
		f.fails.Add(1)
		return nil, errFlaky()
	}
	return f.MemoryStore.Traces(o)
}

func (f *flaky) Collect(id appdash.SpanID, as ...ad.Ann) error {
	if f.fail.Load() {
		f.fails.Add(1)
		return errFlaky()
	}
	return f.MemoryStore.Collect(id, as...)
}

func webFailing(c *mon.Case) {
	r := c.R
	f := &flaky{MemoryStore: appdash.NewMemoryStore()}
	a := newApp(f, f)
	ids := distinct(r, 2)
	ns := genTrace(r, ids[0], 1+r.Intn(5), true, jsonAnns(r))
	collect(c, f, ns)
	urls := []string{"/traces", "/traces?show=" + ids[0].String(), "/traces/" + ids[0].String(), "/traces/" + ids[0].String() + "/profile",
		"/traces/" + ids[0].String() + "/" + ns[0].id.Span.String(), "/aggregate", "/aggregate?selection=" + ids[0].String() + "&view-mode=span-only"}
	before := map[string]resp{}
	for _, u := range urls {
		before[u] = get(a, u)
	}
	for k := 0; k < 6; k++ {
		u := urls[r.Intn(len(urls))]
		f.fail.Store(r.Intn(2) == 0)
		p := get(a, u)
		failing := f.fail.Load()
		f.fail.Store(false)
		if failing && !p.bad() {
			c.Failf("store-error", "GET %s with a failing store is answered with status %d: %s", u, p.status, cut(p.body))
		}
		if b := before[u]; !failing && (p.status != b.status || len(p.body) != len(b.body)) {
			c.Failf("later", "GET %s is answered differently after other requests: %d (%d bytes), before %d (%d bytes)", u, p.status, len(p.body), b.status, len(b.body))
		}
		c.Mark(u, failing, p.status)
	}
	c.Count("store failures", int(f.fails.Load()))
	c.Sample("requests with a store failing at times")
}

// rawRequest generates the bytes of a request.
func rawRequest(r *rand.Rand, ids []appdash.ID, span appdash.ID) (method string, raw []byte, body string) {
	methods := []string{"GET", "GET", "GET", "GET", "HEAD", "POST", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "FOO", "TRACE"}
	method = methods[r.Intn(len(methods))]
	id := func() string {
		switch r.Intn(6) {
		case 0:
			return ids[r.Intn(len(ids))].String()
		case 1:
			return span.String()
		case 2:
			return ad.ID(r).String()
		case 3:
			return url.PathEscape(ad.Str(r))
		case 4:
			return []string{"upload", "profile", "..", ".", "%2e%2e", "%2F", "%00", "%", "%zz", "//", "?", "#", ";", "traces", "{Trace}"}[r.Intn(15)]
		}
		return ids[0].String()
	}
	path := ""
	switch r.Intn(12) {
	case 0:
		path = "/"
	case 1:
		path = "/traces"
	case 2:
		path = "/traces/" + id()
	case 3:
		path = "/traces/" + id() + "/profile"
	case 4:
		path = "/traces/" + id() + "/" + id()
	case 5:
		path = "/traces/" + id() + "/" + id() + "/profile"
	case 6:
		path = "/traces/upload"
		if r.Intn(3) > 0 {
			method = "POST"
		}
	case 7:
		path = []string{"/dashboard", "/dashboard/data", "/aggregate"}[r.Intn(3)]
	case 8:
		path = "/static/" + id()
	case 9:
		path = "/" + id() + "/" + id()
	case 10:
		path = strings.Repeat("/"+id(), r.Intn(30)) + "/"
	case 11:
		path = "/" + strings.Repeat("a", r.Intn(5000))
	}
	if r.Intn(2) == 0 {
		q := url.Values{}
		for n := r.Intn(4); n > 0; n-- {
			k := []string{"show", "selection", "view-mode", "permalink", "start", "end", "x"}[r.Intn(7)]
			v := []string{"", ids[0].String(), ids[0].String() + "," + span.String(), ad.Str(r), "9223372036854775807", "-9223372036854775808", "99999999999999999999", "1e5", ",,,,", "trace-and-span", "H4sIAAAAAAAA", "span-only", "bnVsbA"}[r.Intn(13)]
			q.Set(k, v)
		}
		path += "?" + q.Encode()
		if r.Intn(6) == 0 {
			path += "&%zz=;&&=&" + url.QueryEscape(ad.Str(r))
		}
	}
	if method == "POST" || method == "PUT" || r.Intn(10) == 0 {
		switch r.Intn(5) {
		case 0:
			body = ad.Str(r)
		case 1:
			body = "[]"
		case 2:
			body = "null"
		case 3:
			body = strings.Repeat("[", r.Intn(20000))
		case 4:
			body = "[{\"ID\":{\"Trace\":\"" + ids[0].String() + "\"},\"Sub\":[null]}]"
		}
	}
	var b bytes.Buffer
	proto := []string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}[r.Intn(4)]
	fmt.Fprintf(&b, "%s %s %s\r\nHost: appdash.example\r\n", method, path, proto)
	if r.Intn(4) == 0 {
		fmt.Fprintf(&b, "Connection: close\r\n")
	}
	for n := r.Intn(3); n > 0; n-- {
		fmt.Fprintf(&b, "X-%d: %s\r\n", r.Intn(9), strings.Map(func(c rune) rune {
			if c < 32 || c > 126 {
				return 'x'
			}
			return c
		}, ad.Str(r)))
	}
	if body != "" && proto == "HTTP/1.1" && r.Intn(3) == 0 {
		fmt.Fprintf(&b, "Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", len(body), body)
	} else if body != "" || r.Intn(3) == 0 {
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(body), body)
	} else {
		b.WriteString("\r\n")
	}
	return method, b.Bytes(), body
}

func webRequests(c *mon.Case) {
	r := c.R
	a, s := memApp()
	if r.Intn(2) == 0 {
		a.Aggregator = &syncAgg{}
	}
	ids := distinct(r, 3)
	var span appdash.ID
	for _, id := range ids {
		ns := genTrace(r, id, 1+r.Intn(4), true, jsonAnns(r))
		span = ns[len(ns)-1].id.Span
		collect(c, s, ns)
	}
	pages := []string{"/", "/traces/" + ids[0].String(), "/traces/" + ids[2].String() + "/" + span.String(), "/traces/" + ids[1].String() + "/profile", "/traces?show=" + ids[1].String()}
	srv := httptest.NewUnstartedServer(a)
	srv.Config.ErrorLog = a.Log
	srv.Start()
	c.Cleanup(srv.Close)
	before := map[string]resp{}
	for _, p := range pages {
		before[p] = get(a, p)
		if !before[p].ok() {
			c.Failf("page", "GET %s is answered with status %d", p, before[p].status)
			return
		}
	}
	type rq struct {
		method string
		raw    []byte
	}
	clients := 1 + r.Intn(4)
	scripts := make([][]rq, clients)
	for i := range scripts {
		for n := 10 + r.Intn(15); n > 0; n-- {
			m, raw, body := rawRequest(r, ids, span)
			if _, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(raw))); err != nil && body != "" {
				continue // rejected by net/http, which may drop the connection with the body
			}
			scripts[i] = append(scripts[i], rq{m, raw})
			c.Mark(string(raw))
		}
	}
	var wg sync.WaitGroup
	for i := range scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var conn net.Conn
			var br *bufio.Reader
			defer func() {
				if conn != nil {
					conn.Close()
				}
			}()
			for _, q := range scripts[i] {
				if conn == nil {
					var err error
					if conn, err = net.Dial("tcp", srv.Listener.Addr().String()); err != nil {
						c.Inconclusive("dial: %v", err)
						return
					}
					br = bufio.NewReader(conn)
				}
				conn.SetDeadline(time.Now().Add(100 * time.Second))
				conn.Write(q.raw)
				rs, err := http.ReadResponse(br, &http.Request{Method: q.method})
				if err != nil {
					c.Failf("answer", "the request %q gets no response: %v", cut(string(q.raw)), err)
					return
				}
				b, err := io.ReadAll(rs.Body)
				rs.Body.Close()
				if err != nil {
					c.Failf("answer", "the response to %q is incomplete after %d bytes: %v", cut(string(q.raw)), len(b), err)
					return
				}
				c.Count("raw requests answered", 1)
				c.Count(fmt.Sprintf("status %d", rs.StatusCode), 1)
				if rs.Close {
					conn.Close()
					conn = nil
				}
			}
		}()
	}
	wg.Wait()
	for _, u := range pages {
		if p := get(a, u); p.status != before[u].status || p.body != before[u].body {
			c.Failf("later", "GET %s is answered differently after other requests: %d %s, before %d %s", u, p.status, cut(p.body), before[u].status, cut(before[u].body))
		}
		rs, err := http.Get(srv.URL + u)
		if err != nil {
			c.Failf("later", "GET %s fails after other requests: %v", u, err)
			return
		}
		b, _ := io.ReadAll(rs.Body)
		rs.Body.Close()
		if rs.StatusCode != before[u].status || string(b) != before[u].body {
			c.Failf("later", "GET %s over HTTP is answered differently: %d %s", u, rs.StatusCode, cut(string(b)))
		}
	}
	c.Sample("%d clients send raw requests", clients)
}

type syncAgg struct{}

func (syncAgg) Aggregate(start, end time.Duration) ([]*appdash.AggregatedResult, error) {
	if start%2 == 1 {
		return nil, errFlaky()
	}
	return []*appdash.AggregatedResult{{RootSpanName: "x", Slowest: []appdash.ID{1, 2}}}, nil
}

// ---- escaping ----

var payloads = []string{
	"<mkX>", "\"><mkX a=\"", "'><mkX a='", "</script><mkX>", "--><mkX>", "<!--<script>mkX", "</textarea><mkX>", "</title><mkX>", "]]><mkX>",
	"javascript:mkX()", "\" onmkX=\"y", "' onmkX='y", " onmkX=y ", "`${mkX}`", "\\u003cmkX\\u003e", "\\\"><mkX>", "\u2028mkX\u2029", "\x00<mkX>", "'+mkX+'", "*/mkX/*", "{{.mkX}}",
	"&lt;mkX&gt;", "&#60;mkX&#62;", "\xc0\xbcmkX\xc0\xbe", "<img src=x onerror=mkX>", "<script>mkX</script>", "</style><mkX>", "<svg/onload=mkX>", "</li></ul></table><mkX>", "\\", "\"", "'", "<", "</", "//mkX", "\n\r\t<mkX>",
	"</scr\x00ipt><mkX>", "<mkX", "data:text/html,<mkX>", "\u003cmkX\u003e",
}

// subst maps every benign token to a hostile string.
type subst struct {
	r *rand.Rand
	n int
	m map[string]string
}

// tok returns a fresh benign token.
func (s *subst) tok() string {
	s.n++
	t := fmt.Sprintf("tok%dtok", s.n)
	h := s.payload()
	if s.r.Intn(3) == 0 {
		h += s.payload()
	}
	if s.r.Intn(3) == 0 {
		h += t
	}
	s.m[t] = h
	return t
}

func (s *subst) payload() string {
	return strings.ReplaceAll(payloads[s.r.Intn(len(payloads))], "X", fmt.Sprint(s.n))
}

// apply replaces the tokens.
func (s *subst) apply(v string) string {
	for i := s.n; i > 0; i-- {
		t := fmt.Sprintf("tok%dtok", i)
		if strings.Contains(v, t) {
			v = strings.ReplaceAll(v, t, s.m[t])
		}
	}
	return v
}

// skeleton is the page's structure without the text: elements with the names
// of their attributes, targets of links and scripts, comments, and the scripts
// without the data in them.
func skeleton(body string) string {
	var b strings.Builder
	doc := parse(body)
	if doc == nil {
		return "unparsable"
	}
	walk(doc, func(n *html.Node) {
		switch n.Type {
		case html.CommentNode:
			fmt.Fprintf(&b, "<!--%s-->\n", n.Data)
		case html.ElementNode:
			fmt.Fprintf(&b, "%s", n.Data)
			for _, a := range n.Attr {
				fmt.Fprintf(&b, " %s", a.Key)
				switch a.Key {
				case "href", "src", "action", "id", "style", "class":
					v := a.Val
					if i := strings.Index(v, "permalink="); i >= 0 {
						v = v[:i]
					}
					fmt.Fprintf(&b, "=%q", v)
				}
			}
			b.WriteString("\n")
			if n.Data == "script" || n.Data == "style" {
				t := text(n)
				if i := strings.Index(t, "var data = "); i >= 0 {
					i += len("var data = ")
					d := json.NewDecoder(strings.NewReader(t[i:]))
					var v any
					if err := d.Decode(&v); err != nil {
						fmt.Fprintf(&b, "data: %v\n", err)
					} else {
						t = t[:i] + t[i+int(d.InputOffset()):]
					}
				}
				fmt.Fprintf(&b, "%q\n", t)
			}
		}
	})
	return b.String()
}

func webEscaping(c *mon.Case) {
	r := c.R
	sub := &subst{r: r, m: map[string]string{}}
	base := time.Date(2016, 1, 2, 3, 4, 5, 0, time.UTC)
	tm := func() time.Time { return base.Add(time.Duration(r.Intn(1e9))) }
	ids := distinct(r, 1+r.Intn(2))
	type item struct {
		id   appdash.SpanID
		anns []ad.Ann
	}
	var items []item
	for _, id := range ids {
		for _, n := range genTrace(r, id, 1+r.Intn(4), true, func(int) []ad.Ann { return nil }) {
			var as []ad.Ann
			if r.Intn(5) > 0 {
				as = append(as, evAnns(appdash.SpanName(sub.tok()))...)
			}
			for k := r.Intn(3); k > 0; k-- {
				as = append(as, ad.Ann{Key: sub.tok(), Value: []byte(sub.tok())})
			}
			if r.Intn(2) == 0 {
				as = append(as, ad.Ann{Key: "_schema:" + sub.tok(), Value: []byte(sub.tok())})
			}
			for k := r.Intn(4); k > 0; k-- {
				switch r.Intn(5) {
				case 0:
					as = append(as, evAnns(appdash.Log(sub.tok()))...)
				case 1:
					as = append(as, evAnns(&httptrace.ServerEvent{ServerRecv: tm(), ServerSend: tm(), Route: sub.tok(), User: sub.tok(), Request: httptrace.RequestInfo{Method: sub.tok(), URI: sub.tok(), Headers: map[string]string{sub.tok(): sub.tok()}}})...)
				case 2:
					as = append(as, evAnns(&httptrace.ClientEvent{ClientSend: tm(), ClientRecv: tm(), Request: httptrace.RequestInfo{URI: sub.tok(), Host: sub.tok()}})...)
				case 3:
					as = append(as, evAnns(&sqltrace.SQLEvent{SQL: sub.tok(), Tag: sub.tok(), ClientSend: tm(), ClientRecv: tm()})...)
				case 4:
					as = append(as, evAnns(appdash.Timespan{S: tm(), E: tm()})...)
				}
			}
			items = append(items, item{n.id, as})
		}
	}
	aggName := sub.tok()
	build := func(f func(string) string) *http.ServeMux {
		a, s := memApp()
		if len(items)%2 == 0 {
			a.Aggregator = &fakeAgg2{[]*appdash.AggregatedResult{{RootSpanName: f(aggName), Slowest: []appdash.ID{1}}}}
		}
		for _, it := range items {
			var as []ad.Ann
			for _, an := range it.anns {
				as = append(as, ad.Ann{Key: f(an.Key), Value: []byte(f(string(an.Value)))})
			}
			if err := s.Collect(it.id, as...); err != nil {
				panic("harness: " + err.Error())
			}
		}
		m := http.NewServeMux()
		m.Handle("/", a)
		return m
	}
	benign := build(func(s string) string { return s })
	hostile := build(sub.apply)
	urls := []string{"/", "/traces", "/aggregate", "/aggregate?view-mode=span-only", "/aggregate?view-mode=trace-and-span", "/dashboard", "/dashboard/data"}
	for _, it := range items {
		u := fmt.Sprintf("/traces/%v/%v", it.id.Trace, it.id.Span)
		urls = append(urls, u)
		if r.Intn(3) == 0 {
			urls = append(urls, u+"/profile")
		}
	}
	for _, id := range ids {
		urls = append(urls, "/traces/"+id.String(), "/traces/"+id.String()+"/profile")
	}
	for _, u := range urls {
		pb, ph := get(benign, u), get(hostile, u)
		if pb.status != ph.status || pb.ctype != ph.ctype {
			c.Failf("escape", "GET %s is answered with %d %s if names and values are unusual, else %d %s; %s", u, ph.status, ph.ctype, pb.status, pb.ctype, cut(ph.body))
			continue
		}
		if !strings.HasPrefix(ph.ctype, "text/html") {
			if u != "/dashboard" && !strings.Contains(u, "profile") && u != "/dashboard/data" {
				c.Failf("escape", "GET %s is answered with content type %s", u, ph.ctype)
			}
			c.Count("responses that are not HTML", 1)
			continue
		}
		// Traces are listed in no particular order.
		if d := ad.Diff(skeleton(ph.body), skeleton(pb.body)); d != "" {
			c.Failf("escape", "collected data changes the structure of %s: %s", u, d)
		}
		c.Count("HTML pages whose structure was compared", 1)
		c.Count("hostile strings", strings.Count(ph.body, "mk"))
	}
	// Error pages echo what was requested.
	for k := 0; k < 4; k++ {
		h := sub.apply(sub.tok())
		if !utf8.ValidString(h) {
			continue
		}
		e := url.PathEscape(h)
		q := url.QueryEscape(h)
		u := []string{"/traces/" + e, "/traces/" + ids[0].String() + "/" + e, "/" + e, "/aggregate?selection=" + q, "/traces/" + e + "/profile", "/dashboard/data?start=" + q, "/traces/" + ids[0].String() + "?permalink=" + q,
			"/traces?show=" + q, "/static/" + e}[r.Intn(9)]
		p := get(hostile, u)
		if strings.HasPrefix(p.ctype, "text/html") {
			for _, n := range find(parse(p.body), func(n *html.Node) bool { return true }) {
				if strings.HasPrefix(n.Data, "mk") || n.Data == "svg" || n.Data == "img" && attr(n, "src") == "x" {
					c.Failf("escape", "GET %s puts element <%s> on the page", u, n.Data)
				}
				for _, at := range n.Attr {
					if strings.HasPrefix(at.Key, "onmk") || strings.HasPrefix(strings.ToLower(at.Val), "javascript:mk") {
						c.Failf("escape", "GET %s puts attribute %s=%q on the page", u, at.Key, at.Val)
					}
				}
			}
		}
		c.Count("error pages", 1)
	}
	c.Mark(sub.m, len(items))
	c.Sample("%d spans, %d unusual strings", len(items), sub.n)
}

type fakeAgg2 struct{ res []*appdash.AggregatedResult }

func (f *fakeAgg2) Aggregate(_, _ time.Duration) ([]*appdash.AggregatedResult, error) {
	return f.res, nil
}
