package core

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"verif/ad"
	"verif/mon"
)

func init() {
	mon.Reg("C28", "find", 4000, 60000, helpFind)
	mon.Reg("C28", "renderings", 4000, 60000, helpRender)
	mon.Reg("C28", "names-and-maps", 4000, 60000, helpNames)
	mon.Reg("C28", "timespans", 6000, 80000, helpTimes)
}

// genTree builds a random tree; it returns the nodes in depth-first order.
func genTree(r *rand.Rand, n int, ids func() appdash.ID, anns func() []ad.Ann) (*appdash.Trace, []*appdash.Trace) {
	trace := ad.ID(r)
	var all []*appdash.Trace
	shape := r.Intn(4)
	for i := 0; i < n; i++ {
		t := &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: trace, Span: ids()}, Annotations: anns()}}
		if i > 0 {
			var p *appdash.Trace
			switch shape {
			case 0: // deep
				p = all[i-1]
			case 1: // wide
				p = all[0]
			case 2:
				p = all[r.Intn(i)]
			default:
				p = all[max(0, i-1-r.Intn(3))]
			}
			t.ID.Parent = p.ID.Span
			p.Sub = append(p.Sub, t)
		} else if r.Intn(4) == 0 {
			t.ID.Parent = ad.ID(r) // a sub-span, or a root whose parent is unknown
		}
		all = append(all, t)
	}
	var order []*appdash.Trace
	var walk func(*appdash.Trace)
	walk = func(t *appdash.Trace) {
		order = append(order, t)
		for _, s := range t.Sub {
			walk(s)
		}
	}
	walk(all[0])
	return all[0], order
}

func treeSize(r *rand.Rand) int {
	if r.Intn(60) == 0 {
		return 300 + r.Intn(700)
	}
	return 1 + r.Intn(14)
}

func helpFind(c *mon.Case) {
	r := c.R
	pool := ad.IDs(r, 30)
	uniq := r.Intn(3) > 0
	used := 0
	root, order := genTree(r, treeSize(r), func() appdash.ID {
		if uniq {
			used++
			if used < len(pool) {
				return pool[used]
			}
			return appdash.ID(r.Uint64())
		}
		return pool[r.Intn(len(pool))]
	}, func() []ad.Ann { return nil })
	if r.Intn(5) == 0 {
		order[r.Intn(len(order))].ID.Span = 0
	}
	in := map[*appdash.Trace]bool{}
	has := map[appdash.ID]bool{}
	for _, n := range order {
		in[n] = true
		has[n.ID.Span] = true
	}
	look := func(id appdash.ID) {
		got := root.FindSpan(id)
		switch {
		case !has[id] && got != nil:
			c.Failf("find", "FindSpan(%v) finds %v in a tree without that span", id, got.ID)
		case has[id] && got == nil:
			c.Failf("find", "FindSpan(%v) finds nothing in a tree of %d spans that has it", id, len(order))
		case got != nil && (got.ID.Span != id || !in[got]):
			c.Failf("find", "FindSpan(%v) returns %v, which is not the node in the tree", id, got.ID)
		}
	}
	for _, n := range order {
		look(n.ID.Span)
	}
	for i := 0; i < 4; i++ {
		look(ad.ID(r))
	}
	look(pool[0])
	look(0)
	c.Count("lookups", len(order)+6)
	c.Mark(ad.Canon(root))
	c.Sample("%d spans, every one looked up", len(order))
}

type jsonTrace struct {
	ID          struct{ Trace, Span, Parent string }
	Annotations []struct {
		Key   string
		Value []byte
	}
	Sub []*jsonTrace
}

var renderOdd = []string{"%", "%s", "%d%v", "%!", "%%", "100%", "=", " = ", "+ Span 1", "| ", "\\", "\\n", "\"", "<b>", "&amp;", "{{.}}", "$1", "${x}", "é", "日本", "\t", " ", "\x00", "\xff", "\r", strings.Repeat("long", 300)}

func helpRender(c *mon.Case) {
	r := c.R
	hostile := r.Intn(4) == 0
	n := 0
	root, order := genTree(r, treeSize(r), func() appdash.ID { return ad.ID(r) }, func() (as []ad.Ann) {
		for k := r.Intn(4); k > 0; k-- {
			n++
			a := ad.Ann{Key: fmt.Sprintf("k%d", r.Intn(9)), Value: []byte(fmt.Sprintf("v%dv", n))}
			if r.Intn(3) == 0 {
				// Anything that may stand in one line.
				a.Key += strings.ToValidUTF8(renderOdd[r.Intn(len(renderOdd))], "?")
				a.Value = []byte(renderOdd[r.Intn(len(renderOdd))] + string(a.Value) + renderOdd[r.Intn(len(renderOdd))])
			}
			if hostile {
				a = ad.Ann{Key: ad.UStr(r), Value: ad.Val(r)}
			}
			if len(as) > 0 && r.Intn(4) == 0 {
				a = as[r.Intn(len(as))] // the same again
			} else if r.Intn(8) == 0 {
				a.Value = nil
			}
			as = append(as, a)
		}
		return
	})
	before := ad.Canon(root)
	// Tree.
	tree := root.TreeString()
	depth := map[*appdash.Trace]int{}
	var walk func(*appdash.Trace, int)
	walk = func(t *appdash.Trace, d int) {
		depth[t] = d
		for _, s := range t.Sub {
			walk(s, d+1)
		}
	}
	walk(root, 0)
	if !hostile {
		lines := strings.Split(strings.TrimSuffix(tree, "\n"), "\n")
		col := map[int]int{}
		i := 0
		bad := func(what string, t *appdash.Trace) {
			c.Failf("tree rendering", "%s of span %v (depth %d) is missing at line %d of\n%s", what, t.ID, depth[t], i+1, cutN(tree, 1500))
		}
		for _, t := range order {
			if i >= len(lines) {
				bad("the header", t)
				break
			}
			l := lines[i]
			at := strings.Index(l, "+ ")
			f := strings.Fields(l[max(at, 0):])
			want := strconv.FormatUint(uint64(t.ID.Span), 16)
			kind := "Span"
			if t == root {
				want, kind = strconv.FormatUint(uint64(t.ID.Trace), 16), "Trace"
			}
			if at < 0 || len(f) < 3 || f[1] != kind || f[2] != want {
				bad("the header", t)
				break
			}
			if t != root && t.ID.Parent != 0 && !strings.Contains(l, "parent "+strconv.FormatUint(uint64(t.ID.Parent), 16)+")") {
				bad("the parent", t)
				break
			}
			d := depth[t]
			if w, ok := col[d]; ok && w != at {
				c.Failf("tree rendering", "spans of depth %d are rendered at columns %d and %d in\n%s", d, w, at, cutN(tree, 1500))
				break
			}
			col[d] = at
			if w, ok := col[d-1]; ok && w >= at {
				c.Failf("tree rendering", "a span of depth %d is rendered at column %d, its parent at %d in\n%s", d, at, w, cutN(tree, 1500))
				break
			}
			i++
			for _, a := range t.Annotations {
				if i >= len(lines) || !strings.HasSuffix(lines[i], " "+a.Key+" = "+string(a.Value)) {
					bad("annotation "+a.Key, t)
					break
				}
				i++
			}
		}
		if !c.Failed() && i != len(lines) {
			c.Failf("tree rendering", "there is more than the spans and annotations in\n%s", cutN(tree, 1500))
		}
	}
	// JSON text.
	var j jsonTrace
	if err := json.Unmarshal([]byte(root.String()), &j); err != nil {
		c.Failf("text rendering", "the text of a trace is no JSON document: %v\n%s", err, cutN(root.String(), 800))
		return
	}
	compareJSON(c, "text rendering", &j, root)
	for k := 0; k < 3; k++ {
		t := order[r.Intn(len(order))]
		var js jsonTrace
		if err := json.Unmarshal([]byte(t.Span.String()), &js); err != nil {
			c.Failf("text rendering", "the text of a span is no JSON document: %v", err)
			return
		}
		compareJSON(c, "text rendering", &js, &appdash.Trace{Span: t.Span})
		as := t.Annotations.String()
		for _, a := range t.Annotations {
			l := a.Key + "=" + strconv.Quote(string(a.Value)) + "\n"
			at := strings.Index(as, l)
			if at < 0 {
				c.Failf("text rendering", "the text of annotations lacks %q: %q", l, as)
				break
			}
			as = as[:at] + as[at+len(l):]
		}
		if as != "" && !c.Failed() {
			c.Failf("text rendering", "the text of annotations says more than they: %q", as)
		}
	}
	if got := ad.Canon(root); got != before {
		c.Failf("changed", "rendering changed the trace")
	}
	c.Count("spans_rendered", len(order))
	c.Mark(before)
	c.Sample("%d spans, %d annotations, rendered as %d bytes of tree", len(order), n, len(tree))
}

func compareJSON(c *mon.Case, key string, j *jsonTrace, t *appdash.Trace) bool {
	if j == nil {
		c.Failf(key, "span %v is rendered as null", t.ID)
		return false
	}
	id := [3]uint64{}
	for i, s := range []string{j.ID.Trace, j.ID.Span, j.ID.Parent} {
		id[i], _ = strconv.ParseUint(s, 16, 64)
	}
	var as []ad.Ann
	for _, a := range j.Annotations {
		as = append(as, ad.Ann{Key: a.Key, Value: a.Value})
	}
	if got := (appdash.SpanID{Trace: appdash.ID(id[0]), Span: appdash.ID(id[1]), Parent: appdash.ID(id[2])}); got != t.ID || !ad.AnnsEqual(as, t.Annotations) || len(j.Sub) != len(t.Sub) {
		c.Failf(key, "span %v with %s and %d children is rendered as %v with %s and %d children", t.ID, cutN(ad.AnnString(t.Annotations), 500), len(t.Sub), got, cutN(ad.AnnString(as), 500), len(j.Sub))
		return false
	}
	for i := range t.Sub {
		if !compareJSON(c, key, j.Sub[i], t.Sub[i]) {
			return false
		}
	}
	return true
}

func helpNames(c *mon.Case) {
	r := c.R
	var as appdash.Annotations
	keys := []string{"Name", "name", "Name.x", "", "NAME", "_schema:name", "k", "k2"}
	for n := r.Intn(9); n > 0; n-- {
		k := keys[r.Intn(len(keys))]
		if r.Intn(4) == 0 {
			k = ad.Str(r)
		}
		as = append(as, ad.Ann{Key: k, Value: ad.Val(r)})
	}
	s := appdash.Span{Annotations: as}
	before := ad.AnnString(as)
	want := ""
	for _, a := range as {
		if a.Key == "Name" {
			want = string(a.Value)
			break
		}
	}
	if got := s.Name(); got != want {
		c.Failf("name", "the name of a span with %s is %q, want %q", before, got, want)
	}
	m := as.StringMap()
	has := map[string][]string{}
	for _, a := range as {
		has[a.Key] = append(has[a.Key], string(a.Value))
	}
	for k, v := range m {
		ok := false
		for _, x := range has[k] {
			ok = ok || x == v
		}
		if !ok {
			c.Failf("map", "the map of %s has %q=%q", before, k, v)
		}
	}
	for k := range has {
		if _, ok := m[k]; !ok {
			c.Failf("map", "the map of %s lacks %q", before, k)
		}
	}
	if ad.AnnString(as) != before {
		c.Failf("changed", "reading changed the annotations")
	}
	c.Count("annotations", len(as))
	c.Mark(before)
	c.Sample("%s -> name %q, %d keys", cutN(before, 300), want, len(m))
}

// timespanEvents generates events with times on one span, at most one of each
// schema, and other annotations between them.
func timespanEvents(r *rand.Rand, t0 func() time.Time, zero bool) (as []ad.Ann, spans [][2]time.Time) {
	kinds := r.Perm(5)[:r.Intn(5)]
	noise := func() {
		switch r.Intn(5) {
		case 0:
			as = append(as, evAnns(appdash.LogWithTimestamp("msg", t0()))...)
		case 1:
			as = append(as, ad.Ann{Key: "noise", Value: []byte(fmt.Sprint(r.Intn(100)))})
		case 2:
			as = append(as, ad.Ann{Key: "_schema:unknown"})
		}
	}
	noise()
	for _, k := range kinds {
		s := t0()
		e := t0()
		if r.Intn(8) > 0 && e.Before(s) {
			s, e = e, s
		}
		if r.Intn(8) == 0 {
			e = s
		}
		if zero && r.Intn(5) == 0 {
			s, e = time.Time{}, time.Time{}
		}
		switch k {
		case 0:
			as = append(as, evAnns(appdash.Timespan{S: s, E: e})...)
		case 1:
			as = append(as, evAnns(&httptrace.ServerEvent{ServerRecv: s, ServerSend: e})...)
		case 2:
			as = append(as, evAnns(&httptrace.ClientEvent{ClientSend: s, ClientRecv: e})...)
		case 3:
			as = append(as, evAnns(&sqltrace.SQLEvent{SQL: "SELECT", ClientSend: s, ClientRecv: e})...)
			// Its keys are its own.
		case 4:
			f := func(t time.Time) []byte { return []byte(t.Format(time.RFC3339Nano)) }
			as = append(as, ad.Ann{Key: "S", Value: f(s)}, ad.Ann{Key: "E", Value: f(e)}, ad.Ann{Key: "_schema:timespan"})
		}
		if !s.IsZero() {
			spans = append(spans, [2]time.Time{s, e})
		}
		noise()
	}
	return
}

func helpTimes(c *mon.Case) {
	r := c.R
	base := time.Date(2015, 5, 1, 12, 0, 0, 0, time.UTC)
	wide := r.Intn(4) == 0
	as, spans := timespanEvents(r, func() time.Time {
		if wide {
			for {
				t := time.Date(1+r.Intn(9998), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1e9), time.UTC)
				if !t.IsZero() {
					return t
				}
			}
		}
		return base.Add(time.Duration(r.Int63n(1e10))).In(time.FixedZone("", (r.Intn(27)-13)*3600))
	}, true)
	t := &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: 1, Span: 2}, Annotations: as}}
	// The times of other spans do not matter.
	t.Sub = append(t.Sub, &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: 1, Span: 3, Parent: 2}, Annotations: evAnns(appdash.Timespan{S: base.Add(-1e12), E: base.Add(1e13)})}})
	got, err := t.TimespanEvent()
	desc := func() string {
		var s []string
		for _, x := range spans {
			s = append(s, fmt.Sprintf("[%v %v]", x[0].UTC().Format(time.RFC3339Nano), x[1].UTC().Format(time.RFC3339Nano)))
		}
		return strings.Join(s, " ")
	}
	if len(spans) == 0 {
		if err == nil {
			c.Failf("timespan", "a span without timespans has the timespan %v to %v", got.Start(), got.End())
		}
	} else if err != nil || got == nil {
		c.Failf("timespan", "a span with timespans %s has none: %v", desc(), err)
	} else {
		s, e := spans[0][0], spans[0][1]
		for _, x := range spans[1:] {
			if x[0].Before(s) {
				s = x[0]
			}
			if x[1].After(e) {
				e = x[1]
			}
		}
		if !got.Start().Equal(s) || !got.End().Equal(e) {
			c.Failf("timespan", "the timespan of a span with %s is %v to %v", desc(), got.Start(), got.End())
		}
	}
	c.Count("timespans", len(spans))
	c.Mark(desc())
	c.Sample("%s", desc())
}
