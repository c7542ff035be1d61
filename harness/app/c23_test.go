package app

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"io"
	"math/rand"
	"net/http"
	"strings"
	"sync"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/ad"
	"verif/mon"
)

func init() {
	mon.Reg("C23", "export-import", 90, 1500, exportImport)
	mon.Reg("C23", "import-again", 90, 1500, importAgain)
	mon.Reg("C23", "import-concurrent", 120, 2500, importConcurrent)
	mon.Reg("C23", "import-malformed", 400, 8000, importMalformed)
	mon.Reg("C23", "import-failing", 200, 4000, importFailing)
	mon.Reg("C23", "import-large", 4, 48, importLarge)
}

func jsonAnns(r *rand.Rand) func(int) []ad.Ann {
	return func(i int) []ad.Ann {
		var as []ad.Ann
		for n := r.Intn(4); n > 0; n-- {
			v := ad.Val(r)
			if r.Intn(20) == 0 {
				v = bytes.Repeat(v, r.Intn(2000))
			}
			as = append(as, ad.Ann{Key: ad.UStr(r), Value: v})
		}
		if r.Intn(2) == 0 {
			as = append(as, evAnns(appdash.SpanName(ad.UStr(r)))...)
		}
		return as
	}
}

// exports are the ways a trace leaves the web UI.
type exports struct {
	json      map[string]string // by place
	permalink string
}

// exportsOf reads the export forms of a trace off its page and the list.
func exportsOf(c *mon.Case, a interface{ get(string) resp }, id appdash.ID) (exports, bool) {
	ex := exports{json: map[string]string{}}
	p := a.get("/traces/" + id.String())
	if !p.ok() {
		c.Failf("page", "the page of trace %v is answered with status %d: %s", id, p.status, cut(p.body))
		return ex, false
	}
	doc := parse(p.body)
	if n := byID(doc, "copy-json"); n != nil {
		ex.json["button"] = attr(n, "data-clipboard-text")
	}
	if n := byID(doc, "copy-json-text"); n != nil {
		for _, t := range tag(n, "textarea") {
			ex.json["textarea"] = text(t)
		}
	}
	if n := byID(doc, "copy-permalink"); n != nil {
		ex.permalink = attr(n, "href")
		if d := attr(n, "data-clipboard-text"); d != ex.permalink {
			c.Failf("permalink", "the permalink to copy %q differs from the link %q", cut(d), cut(ex.permalink))
		}
	}
	l := a.get("/traces")
	for _, n := range tag(parse(l.body), "input") {
		j := attr(n, "data-json-trace")
		var t appdash.Trace
		if j != "" && json.Unmarshal([]byte(j), &t) == nil && t.ID.Trace == id {
			ex.json["list"] = "[" + j + "]"
		}
	}
	for _, k := range []string{"button", "textarea", "list"} {
		if ex.json[k] == "" {
			c.Failf("export", "trace %v has no JSON export (%s)", id, k)
		}
	}
	if ex.permalink == "" {
		c.Failf("permalink", "trace %v has no permalink", id)
	}
	return ex, !c.Failed()
}

type appH struct {
	a http.Handler
}

func (h appH) get(u string) resp { return get(h.a, u) }

func exportImport(c *mon.Case) {
	r := c.R
	src, ss := memApp()
	ids := distinct(r, 1+r.Intn(4))
	var all []string
	for _, id := range ids {
		n := 1 + r.Intn(6)
		if r.Intn(8) == 0 {
			n = 1 + r.Intn(60)
		}
		collect(c, ss, genTrace(r, id, n, true, jsonAnns(r)))
	}
	id := ids[0]
	want, err := ss.Trace(id)
	if err != nil {
		panic("harness: " + err.Error())
	}
	w := ad.Canon(want)
	ex, ok := exportsOf(c, appH{src}, id)
	if !ok {
		return
	}
	check := func(how string, s *appdash.MemoryStore) {
		got, err := s.Trace(id)
		if err != nil {
			c.Failf("import", "after importing trace %v (%s): %v", id, how, err)
			return
		}
		if g := ad.Canon(got); g != w {
			c.Failf("import", "trace imported (%s) differs from the original: %s", how, ad.Diff(g, w))
		}
		if ts, _ := s.Traces(appdash.TracesOpts{}); len(ts) != 1 {
			c.Failf("import", "%d traces after importing one (%s)", len(ts), how)
		}
		c.Count("traces re-imported and compared", 1)
		c.Count("spans compared", strings.Count(w, "\n")+1)
	}
	for how, j := range ex.json {
		dst, ds := memApp()
		if p := do(dst, "POST", "/traces/upload", j); !p.ok() {
			c.Failf("import", "uploading the exported JSON (%s) is answered with status %d: %s", how, p.status, cut(p.body))
			return
		}
		check(how, ds)
		// And out again.
		if ex2, ok := exportsOf(c, appH{dst}, id); ok && !c.Failed() {
			d3, s3 := memApp()
			if p := do(d3, "POST", "/traces/upload", ex2.json["textarea"]); !p.ok() {
				c.Failf("import", "uploading the JSON exported again is answered with status %d: %s", p.status, cut(p.body))
				return
			}
			check(how+", twice", s3)
		}
	}
	dst, ds := memApp()
	if p := get(dst, ex.permalink); !p.ok() {
		c.Failf("permalink", "opening the permalink is answered with status %d: %s", p.status, cut(p.body))
		return
	} else if doc := parse(p.body); byID(doc, "copy-json") == nil || !sameTraces(attr(byID(doc, "copy-json"), "data-clipboard-text"), ex.json["button"]) {
		c.Failf("permalink", "the page of the permalink does not show the trace")
	}
	check("permalink", ds)
	// All traces in one upload.
	l := get(src, "/traces")
	for _, n := range tag(parse(l.body), "input") {
		if j := attr(n, "data-json-trace"); j != "" {
			all = append(all, j)
		}
	}
	dst, ds = memApp()
	if p := do(dst, "POST", "/traces/upload", "["+strings.Join(all, ",")+"]"); !p.ok() {
		c.Failf("import", "uploading %d exported traces is answered with status %d: %s", len(all), p.status, cut(p.body))
	}
	if g, w := canonStore(ds), canonStore(ss); g != w {
		c.Failf("import", "%d traces exported and imported together differ: %s", len(ids), ad.Diff(g, w))
	}
	c.Count("joint uploads compared", 1)
	c.Mark(w)
	c.Sample("trace of %d spans", strings.Count(w, "\n")+1)
}

// importLarge imports much data at once: many traces, many spans, deep trees,
// or long values.
func importLarge(c *mon.Case) {
	r := c.R
	size := []int{1 << 20, 3 << 20, 5 << 20, 9 << 20, 12 << 20}[r.Intn(5)]
	if c.Idx%4 == 0 {
		size = 12 << 20
	}
	var ts []*appdash.Trace
	how := ""
	word := ad.UStr(r) + "<&>"
	switch k := (c.Idx + r.Intn(2)*2) % 4; k {
	case 0: // long values, hardly compressible or very much so
		how = "long values"
		b := make([]byte, size/2)
		if r.Intn(2) == 0 {
			r.Read(b)
		}
		t := &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: ad.NZ(r), Span: 1}, Annotations: []ad.Ann{{Key: "long", Value: b}, {Key: word, Value: b[:len(b)/4]}}}}
		t.Sub = []*appdash.Trace{{Span: appdash.Span{ID: appdash.SpanID{Trace: t.ID.Trace, Span: 2, Parent: 1}, Annotations: []ad.Ann{{Key: "sub", Value: b[:len(b)/4]}}}}}
		ts = append(ts, t)
	case 1: // many spans
		how = "many spans"
		t := &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: ad.NZ(r), Span: 1}}}
		n := size / 400
		for i := 0; i < n; i++ {
			t.Sub = append(t.Sub, &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: t.ID.Trace, Span: appdash.ID(2 + i), Parent: 1}, Annotations: []ad.Ann{ad.Uniq(word, i), ad.Uniq("k", -i)}}})
		}
		ts = append(ts, t)
	case 2: // many traces
		how = "many traces"
		n := size / 1200
		for i := 0; i < n; i++ {
			id := appdash.ID(1000 + i)
			ts = append(ts, &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: id, Span: 5}, Annotations: []ad.Ann{ad.Uniq(word, i)}},
				Sub: []*appdash.Trace{{Span: appdash.Span{ID: appdash.SpanID{Trace: id, Span: 6, Parent: 5}, Annotations: []ad.Ann{ad.Uniq("sub", i), {Key: "v", Value: bytes.Repeat([]byte{byte(i)}, 300)}}}}}})
		}
	case 3: // many annotations, a deep tree
		how = "many annotations, a deep tree"
		tr := ad.NZ(r)
		top := &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: tr, Span: 1}}}
		at := top
		for i := 0; i < 60; i++ {
			for j := 0; j < size/60/80; j++ {
				at.Annotations = append(at.Annotations, ad.Uniq(word, i*100000+j))
			}
			n := &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: tr, Span: appdash.ID(i + 2), Parent: appdash.ID(i + 1)}, Annotations: []ad.Ann{ad.Uniq("n", i)}}}
			at.Sub = []*appdash.Trace{n}
			at = n
		}
		ts = append(ts, top)
	}
	js := mustJSON(ts)
	w := ad.CanonAll(ts)
	a, s := memApp()
	if p := do(a, "POST", "/traces/upload", js); !p.ok() {
		c.Failf("import", "uploading %d bytes (%s) is answered with status %d: %s", len(js), how, p.status, cut(p.body))
		return
	}
	got, _ := s.Traces(appdash.TracesOpts{})
	if g := ad.CanonAll(got); g != w {
		c.Failf("import", "%d bytes of traces (%s) differ from the original when imported: %s", len(js), how, ad.Diff(g, w))
		return
	}
	c.Count("bytes imported", len(js))
	c.Count("traces compared", len(ts))
	if len(ts) == 1 && (size < 6<<20 || c.Thorough) {
		one := mustJSON(ts[0])
		a, s := memApp()
		if p := get(a, permalinkTo(ts[0].ID.Trace, one)); !p.ok() {
			c.Failf("permalink", "opening a permalink to a trace of %d bytes (%s) is answered with status %d: %s", len(one), how, p.status, cut(p.body))
			return
		}
		got, _ := s.Traces(appdash.TracesOpts{})
		if g := ad.CanonAll(got); g != w {
			c.Failf("permalink", "a trace of %d bytes (%s) differs from the original when imported by permalink: %s", len(one), how, ad.Diff(g, w))
		}
		c.Count("large permalinks", 1)
	}
	c.Mark(how, len(js))
	c.Sample("%d bytes, %s", len(js), how)
}

// sameTraces compares two JSON lists of traces, ignoring the order of siblings.
func sameTraces(a, b string) bool {
	var x, y []*appdash.Trace
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	return ad.CanonAll(x) == ad.CanonAll(y)
}

func mustJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

// permalinkTo builds a permalink as the trace page does.
func permalinkTo(id appdash.ID, js string) string {
	var b bytes.Buffer
	e := base64.NewEncoder(base64.RawURLEncoding, &b)
	g := gzip.NewWriter(e)
	g.Write([]byte(js))
	g.Close()
	e.Close()
	return "/traces/" + id.String() + "?permalink=" + b.String()
}

// built makes the tree of spans that a store would return.
func built(ns []node) *appdash.Trace {
	s := appdash.NewMemoryStore()
	for _, n := range ns {
		s.Collect(n.id, ad.CopyAnns(n.anns)...)
	}
	t, err := s.Trace(ns[0].id.Trace)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return t
}

func importAgain(c *mon.Case) {
	r := c.R
	a, s := memApp()
	ids := distinct(r, 2+r.Intn(3))
	var ns [][]node
	for _, id := range ids[1:] {
		n := genTrace(r, id, 1+r.Intn(5), true, jsonAnns(r))
		ns = append(ns, n)
		collect(c, s, n)
	}
	before := canonStore(s)
	for k := 1 + r.Intn(4); k > 0; k-- {
		i := r.Intn(len(ns))
		id := ids[1+i]
		var t *appdash.Trace
		how := "itself"
		switch r.Intn(3) {
		case 0:
			t = built(ns[i])
		case 1: // the same spans with other annotations
			how = "other annotations"
			var m []node
			for _, n := range ns[i] {
				m = append(m, node{n.id, []ad.Ann{ad.Uniq("x", r.Int())}})
			}
			t = built(m)
		case 2: // other spans
			how = "other spans"
			t = built(genTrace(r, id, 1+r.Intn(5), true, jsonAnns(r)))
		}
		var p resp
		if r.Intn(2) == 0 {
			p = do(a, "POST", "/traces/upload", mustJSON([]*appdash.Trace{t}))
		} else {
			p = get(a, permalinkTo(id, mustJSON(t)))
			how += ", permalink"
		}
		c.Note("import %v (%s): status %d", id, how, p.status)
		if g := canonStore(s); g != before {
			c.Failf("collide", "importing a trace that is present (%s) changed the store: %s", how, ad.Diff(g, before))
			return
		}
		c.Count("imports of present traces", 1)
	}
	// Together with a new one.
	nw := genTrace(r, ids[0], 1+r.Intn(5), true, jsonAnns(r))
	t, o := built(nw), built(ns[0])
	l := []*appdash.Trace{o, t}
	if r.Intn(2) == 0 {
		l = []*appdash.Trace{t, o}
	}
	if p := do(a, "POST", "/traces/upload", mustJSON(l)); !p.ok() {
		c.Failf("import", "uploading a present and a new trace is answered with status %d: %s", p.status, cut(p.body))
	}
	if w := ad.CanonAll([]*appdash.Trace{t}); !c.Failed() {
		got, err := s.Trace(ids[0])
		if err != nil {
			c.Failf("import", "a new trace uploaded together with a present one is not there: %v", err)
		} else if g := ad.Canon(got); g != w {
			c.Failf("import", "a new trace uploaded together with a present one differs: %s", ad.Diff(g, w))
		}
		s.Delete(ids[0])
		if g := canonStore(s); g != before {
			c.Failf("collide", "importing a present trace together with a new one changed the store: %s", ad.Diff(g, before))
		}
	}
	c.Mark(before, len(ids))
	c.Sample("%d traces present", len(ns))
}

// failAfter is a store of which some operations fail.
type failAfter struct {
	*appdash.MemoryStore
	kind        int
	reads       bool // reads fail, too
	left, fails int
}

func (f *failAfter) fail() error {
	f.left--
	if f.left == -1 {
		f.fails++
		return ad.Fault(f.kind, "store failure")
	}
	return nil
}

func (f *failAfter) Collect(id appdash.SpanID, as ...ad.Ann) error {
	if err := f.fail(); err != nil {
		return err
	}
	return f.MemoryStore.Collect(id, as...)
}

func (f *failAfter) Trace(id appdash.ID) (*appdash.Trace, error) {
	if f.reads {
		if err := f.fail(); err != nil {
			return nil, err
		}
	}
	return f.MemoryStore.Trace(id)
}

// importFailing imports traces into a store of which one operation fails.
func importFailing(c *mon.Case) {
	r := c.R
	f := &failAfter{MemoryStore: appdash.NewMemoryStore(), kind: r.Int(), reads: r.Intn(3) == 0, left: -1}
	a := newApp(f, f)
	ids := distinct(r, 4)
	old := genTrace(r, ids[0], 1+r.Intn(4), true, jsonAnns(r))
	collect(c, f, old)
	before := canonStore(f.MemoryStore)
	var ts []*appdash.Trace
	spans := 0
	for _, id := range ids[1 : 2+r.Intn(3)] {
		t := built(genTrace(r, id, 1+r.Intn(6), true, jsonAnns(r)))
		ts = append(ts, t)
		spans += len(flat(t))
	}
	how := "upload"
	f.left = r.Intn(spans + 3)
	at := f.left
	var p resp
	if r.Intn(2) == 0 {
		how = "permalink"
		ts = ts[:1]
		p = get(a, permalinkTo(ts[0].ID.Trace, mustJSON(ts[0])))
	} else {
		p = do(a, "POST", "/traces/upload", mustJSON(ts))
	}
	f.left = -1
	whole := true
	for _, t := range ts {
		got, err := f.MemoryStore.Trace(t.ID.Trace)
		whole = whole && err == nil && ad.Canon(got) == ad.Canon(t)
	}
	if p.ok() && !whole {
		c.Failf("lost", "an import (%s) of %d spans, of which operation %d of the store failed, is answered with status %d, and not all of it is there", how, spans, at, p.status)
	}
	if !p.ok() && f.fails == 0 {
		c.Failf("import", "an import (%s) is answered with status %d though nothing failed: %s", how, p.status, cut(p.body))
	}
	for _, t := range ts {
		f.Delete(t.ID.Trace)
	}
	if g := canonStore(f.MemoryStore); g != before {
		c.Failf("altered", "an import that failed altered an existing trace: %s", ad.Diff(g, before))
	}
	if p := do(a, "POST", "/traces/upload", mustJSON(ts)); !p.ok() {
		c.Failf("later", "an import after one that failed is answered with status %d: %s", p.status, cut(p.body))
	}
	for _, t := range ts {
		if got, err := f.MemoryStore.Trace(t.ID.Trace); err != nil || ad.Canon(got) != ad.Canon(t) {
			c.Failf("later", "an import after one that failed did not store trace %v (%v)", t.ID.Trace, err)
		}
	}
	c.Count("store failures", f.fails)
	c.Mark(how, at, spans, p.status, f.reads)
	c.Sample("%s of %d spans, operation %d fails, status %d", how, spans, at, p.status)
}

func importConcurrent(c *mon.Case) {
	r := c.R
	a, s := memApp()
	ids := distinct(r, 1+r.Intn(3))
	var ts []*appdash.Trace
	for _, id := range ids {
		ts = append(ts, built(genTrace(r, id, 1+r.Intn(6), true, jsonAnns(r))))
	}
	type req struct{ method, url, body string }
	reqs := make([][]req, 2+r.Intn(4))
	for i := range reqs {
		for k := 1 + r.Intn(3); k > 0; k-- {
			j := r.Intn(len(ts))
			if i < 2 && r.Intn(3) > 0 {
				j = 0
			}
			if r.Intn(2) == 0 {
				reqs[i] = append(reqs[i], req{"POST", "/traces/upload", mustJSON([]*appdash.Trace{ts[j]})})
			} else {
				reqs[i] = append(reqs[i], req{"GET", permalinkTo(ids[j], mustJSON(ts[j])), ""})
			}
		}
	}
	var wg sync.WaitGroup
	out := make([][]resp, len(reqs))
	gate := make(chan struct{})
	for i := range reqs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for _, q := range reqs[i] {
				out[i] = append(out[i], do(a, q.method, q.url, q.body))
			}
		}()
	}
	close(gate)
	wg.Wait()
	for i := range out {
		for k, p := range out[i] {
			if !p.ok() {
				c.Failf("import", "%s %s beside others is answered with status %d: %s", reqs[i][k].method, cut(reqs[i][k].url), p.status, cut(p.body))
			}
			c.Count("concurrent imports", 1)
		}
	}
	got, _ := s.Traces(appdash.TracesOpts{})
	for _, t := range ts {
		for _, g := range got {
			if g.ID.Trace == t.ID.Trace {
				if x, w := ad.Canon(g), ad.Canon(t); x != w {
					c.Failf("collide", "a trace imported by several requests at once differs from the one imported: %s", ad.Diff(x, w))
				}
				c.Count("traces compared", 1)
			}
		}
	}
	c.Mark(canonStore(s), len(reqs))
	c.Sample("%d clients import %d traces", len(reqs), len(ts))
}

// mutate damages a list of traces. It reports whether what it returns is
// malformed beyond doubt.
func mutate(r *rand.Rand, ts []*appdash.Trace, present []appdash.ID) (string, string, bool) {
	var l any
	if err := json.Unmarshal([]byte(mustJSON(ts)), &l); err != nil {
		panic("harness: " + err.Error())
	}
	list := l.([]any)
	// All nodes.
	type ref struct {
		m   map[string]any
		top bool
	}
	var refs []ref
	var walk func(v any, top bool)
	walk = func(v any, top bool) {
		m := v.(map[string]any)
		refs = append(refs, ref{m, top})
		if sub, ok := m["Sub"].([]any); ok {
			for _, s := range sub {
				walk(s, false)
			}
		}
	}
	for _, t := range list {
		walk(t, true)
	}
	js := func() string { return mustJSON(l) }
	n := refs[r.Intn(len(refs))]
	put := func(m map[string]any, k string, vs ...any) { m[k] = vs[r.Intn(len(vs))] }
	switch r.Intn(10) {
	case 0:
		s := js()
		return s[:r.Intn(len(s))], "truncated", true
	case 1:
		list = append(list, nil)
		i := r.Intn(len(list))
		list[i], list[len(list)-1] = list[len(list)-1], list[i]
		l = list
		return js(), "a null trace", true
	case 2, 3:
		sub, _ := n.m["Sub"].([]any)
		k := r.Intn(len(sub) + 1)
		sub = append(sub[:k:k], append([]any{nil}, sub[k:]...)...)
		n.m["Sub"] = sub
		return js(), "a null span", true
	case 4, 5: // a span of another trace below this one
		var other appdash.ID = ad.NZ(r)
		if len(present) > 0 && r.Intn(4) > 0 {
			other = present[r.Intn(len(present))]
		}
		sub, _ := n.m["Sub"].([]any)
		if x, _ := n.m["ID"].(map[string]any); x["Trace"] == other.String() {
			other++
		}
		var f any = map[string]any{"ID": map[string]any{"Trace": other.String(), "Span": ad.NZ(r).String(), "Parent": n.m["ID"].(map[string]any)["Span"]},
			"Annotations": []any{map[string]any{"Key": "foreign", "Value": "Zm9yZWlnbg=="}}, "Sub": nil}
		n.m["Sub"] = append(sub[:len(sub):len(sub)], f)
		return js(), "a span of another trace", true
	case 6:
		switch r.Intn(3) {
		case 0:
			put(n.m, "ID", "x", 5, []any{}, true)
		case 1:
			id := n.m["ID"].(map[string]any)
			put(id, []string{"Trace", "Span", "Parent"}[r.Intn(3)], "xyz", "", "0x1", "11111111111111111", -1, 1.5, []any{}, map[string]any{}, true, "-1", "1_0")
		case 2:
			put(n.m, "Sub", "x", 5, map[string]any{}, true, []any{5})
		}
		return js(), "a field of the wrong type", true
	case 7:
		put(n.m, "Annotations", "x", 5, map[string]any{}, []any{"x"}, []any{map[string]any{"Key": 5}}, []any{map[string]any{"Value": "!!"}}, []any{map[string]any{"Value": 5}})
		return js(), "malformed annotations", true
	case 8:
		b := []byte(js())
		for k := 1 + r.Intn(3); k > 0; k-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		return string(b), "damaged bytes", !json.Valid(b)
	}
	g := []string{"", " ", "{}", "5", "\"x\"", "true", "[5]", "[[]]", "[{}", "[]]", "[{\"ID\":5}]", "\x00", "[{]}", "{\"ID\":{}}"}[r.Intn(14)]
	return g, "garbage", true
}

func importMalformed(c *mon.Case) {
	r := c.R
	a, s := memApp()
	ids := distinct(r, 4)
	for _, id := range ids[:2] {
		collect(c, s, genTrace(r, id, 1+r.Intn(4), true, jsonAnns(r)))
	}
	w := map[appdash.ID]string{}
	for _, id := range ids[:2] {
		t, _ := s.Trace(id)
		w[id] = ad.Canon(t)
	}
	var ts []*appdash.Trace
	for _, id := range ids[2:] {
		ts = append(ts, built(genTrace(r, id, 1+r.Intn(4), false, jsonAnns(r))))
	}
	ts = ts[:1+r.Intn(2)]
	for k := 1 + r.Intn(3); k > 0; k-- {
		if r.Intn(3) > 0 {
			// The traces imported may have been stored by an earlier attempt.
			for _, id := range ids[2:] {
				s.Delete(id)
			}
		}
		body, how, bad := mutate(r, ts, ids[:2])
		var p resp
		if r.Intn(3) > 0 || len(body) < 2 {
			p = do(a, "POST", "/traces/upload", body)
		} else {
			how += ", permalink"
			js := strings.TrimSuffix(strings.TrimPrefix(body, "["), "]")
			u := permalinkTo(ids[2], js)
			if q := strings.LastIndex(u, "=") + 2; r.Intn(3) == 0 && len(u) > q {
				how += " cut"
				u = u[:q+r.Intn(len(u)-q)]
			}
			bad = bad && !wholeTrace(u[strings.LastIndex(u, "=")+1:])
			p = get(a, u)
		}
		if bad && !p.bad() {
			c.Failf("malformed", "importing malformed data (%s) is answered with status %d: %s", how, p.status, cut(body))
		}
		for id, want := range w {
			t, err := s.Trace(id)
			if err != nil {
				c.Failf("malformed", "after importing malformed data (%s), an existing trace cannot be read: %v", how, err)
			} else if g := ad.Canon(t); g != want {
				c.Failf("malformed", "importing malformed data (%s) changed an existing trace: %s; data %s", how, ad.Diff(g, want), cut(body))
			}
		}
		if bad {
			c.Count("malformed imports", 1)
		} else {
			c.Count("damaged but possibly valid imports", 1)
		}
		c.Mark(how, body)
		if c.Failed() {
			return
		}
	}
	// The server still works.
	id := distinct(r, 1)[0]
	t := built(genTrace(r, id, 1+r.Intn(4), false, jsonAnns(r)))
	if _, err := s.Trace(id); err == nil {
		return
	}
	if p := do(a, "POST", "/traces/upload", mustJSON([]*appdash.Trace{t})); !p.ok() {
		c.Failf("malformed", "after malformed imports a good one is answered with status %d: %s", p.status, cut(p.body))
	} else if got, err := s.Trace(id); err != nil || ad.Canon(got) != ad.Canon(t) {
		c.Failf("malformed", "after malformed imports a good one does not store the trace (%v)", err)
	}
	c.Sample("malformed imports beside %d traces", 2)
}

// wholeTrace reports whether a permalink's data begins with a valid trace; what
// follows it may be damaged without consequences.
func wholeTrace(q string) bool {
	b, _ := io.ReadAll(base64.NewDecoder(base64.RawURLEncoding, strings.NewReader(q)))
	g, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return false
	}
	js, _ := io.ReadAll(g)
	var t *appdash.Trace
	return json.NewDecoder(bytes.NewReader(js)).Decode(&t) == nil && t != nil && !malformed(t, t.ID.Trace)
}

func malformed(t *appdash.Trace, id appdash.ID) bool {
	if t == nil || t.ID.Trace != id {
		return true
	}
	for _, s := range t.Sub {
		if malformed(s, id) {
			return true
		}
	}
	return false
}
