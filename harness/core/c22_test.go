package core

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/ad"
	"verif/mon"
)

func init() {
	mon.Reg("C22", "slice-sharing", 2400, 60000, aliasCase)
	mon.Reg("C22", "returned-trees", 800, 16000, returnedCase)
	mon.Reg("C22", "large-returned-trees", 12, 120, returnedLarge)
	mon.Reg("C22", "concurrent-sharing", 200, 3000, aliasConcCase)
}

// retain keeps the slices it is given, as a collector may.
type retain struct {
	mu    sync.Mutex
	spans []appdash.SpanID
	held  [][]ad.Ann
	want  [][]ad.Ann
}

func (k *retain) Collect(id appdash.SpanID, as ...ad.Ann) error {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.spans = append(k.spans, id)
	k.held = append(k.held, as)
	k.want = append(k.want, ad.CopyAnns(as))
	return nil
}

// pipeline is a collector under test and a way to read what it recorded.
type pipeline struct {
	name string
	coll appdash.Collector
	read func() map[appdash.SpanID][]ad.Ann
	done func()
}

func storeRead(s appdash.Queryer) func() map[appdash.SpanID][]ad.Ann {
	return func() map[appdash.SpanID][]ad.Ann {
		m := map[appdash.SpanID][]ad.Ann{}
		ts, _ := s.Traces(appdash.TracesOpts{})
		for _, t := range ts {
			ns, _ := ad.Flatten(t, 100000)
			for _, n := range ns {
				m[n.ID] = append(m[n.ID], n.Anns...)
			}
		}
		return m
	}
}

// identity describes the elements of a slice down to the memory of their
// values: what a caller has is what it gave.
func identity(as []ad.Ann) string {
	var b strings.Builder
	for i := range as {
		v := as[i].Value
		fmt.Fprintf(&b, "%q=%q at %p+%d", as[i].Key, v, unsafe.SliceData(v), cap(v))
		if v == nil {
			b.WriteString(" nil")
		}
		b.WriteByte(';')
	}
	return b.String()
}

// remotePipeline collects over loopback.
func remotePipeline(c *mon.Case, chunked bool) pipeline {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	sink := &ad.Sink{}
	srv := appdash.NewServer(l, sink)
	go srv.Start()
	rc := appdash.NewRemoteCollector(l.Addr().String())
	cnt := &countColl{c: rc}
	p := pipeline{name: "remote", coll: cnt}
	flush := func() {}
	if chunked {
		cc := &appdash.ChunkedCollector{Collector: cnt, MinInterval: 1 << 40}
		p.name, p.coll, flush = "chunked-remote", cc, func() { cc.Flush() }
	}
	p.read = func() map[appdash.SpanID][]ad.Ann {
		flush()
		c.AwaitOr("contents", "arrival of what was collected", func() bool { return sink.Len() >= int(cnt.n.Load()) })
		return ad.BySpan(sink.Snapshot())
	}
	p.done = func() {
		rc.Close()
		l.Close()
	}
	return p
}

type countColl struct {
	c appdash.Collector
	n atomic.Int64
}

func (k *countColl) Collect(id appdash.SpanID, as ...ad.Ann) error {
	err := k.c.Collect(id, as...)
	if err == nil {
		k.n.Add(1)
	}
	return err
}

func mkPipeline(c *mon.Case, k int) pipeline {
	ms := appdash.NewMemoryStore()
	nop := func() {}
	switch k {
	case 0:
		return pipeline{"memory", ms, storeRead(ms), nop}
	case 1:
		sink := &ad.Sink{}
		cc := &appdash.ChunkedCollector{Collector: sink, MinInterval: 1 << 40}
		return pipeline{"chunked", cc, func() map[appdash.SpanID][]ad.Ann { cc.Flush(); return ad.BySpan(sink.Snapshot()) }, cc.Stop}
	case 2:
		cc := &appdash.ChunkedCollector{Collector: ms, MinInterval: 1 << 40}
		return pipeline{"chunked-memory", cc, func() map[appdash.SpanID][]ad.Ann { cc.Flush(); return storeRead(ms)() }, cc.Stop}
	case 3:
		return pipeline{"recent", &appdash.RecentStore{MinEvictAge: 1 << 50, DeleteStore: ms}, storeRead(ms), nop}
	case 4:
		return pipeline{"limit", &appdash.LimitStore{Max: 1000, DeleteStore: ms}, storeRead(ms), nop}
	case 7, 8:
		return remotePipeline(c, k == 8)
	case 5:
		m2 := appdash.NewMemoryStore()
		return pipeline{"multi", appdash.MultiStore(m2, ms), func() map[appdash.SpanID][]ad.Ann {
			a, b := storeRead(ms)(), storeRead(m2)()
			for s := range a {
				if !ad.AnnsEqual(a[s], b[s]) {
					c.Failf("stores-differ", "members of a combined store differ on %v: %s / %s", s, ad.AnnString(a[s]), ad.AnnString(b[s]))
				}
			}
			return a
		}, nop}
	}
	rs := &retain{}
	cc := &appdash.ChunkedCollector{Collector: rs, MinInterval: 1 << 40}
	return pipeline{"chunked-retaining", cc, func() map[appdash.SpanID][]ad.Ann {
		cc.Flush()
		m := map[appdash.SpanID][]ad.Ann{}
		for i := range rs.held {
			if !ad.AnnsEqual(rs.held[i], rs.want[i]) {
				c.Failf("handed-over-changed", "annotations handed to the underlying collector for %v changed later from %s to %s", rs.spans[i], ad.AnnString(rs.want[i]), ad.AnnString(rs.held[i]))
			}
			m[rs.spans[i]] = append(m[rs.spans[i]], rs.held[i]...)
		}
		return m
	}, cc.Stop}
}

func aliasCase(c *mon.Case) {
	r := c.R
	p := mkPipeline(c, r.Intn(9))
	defer p.done()
	want := map[appdash.SpanID][]ad.Ann{}
	ns := 1 + r.Intn(4)
	spans := make([]appdash.SpanID, ns)
	for i := range spans {
		spans[i] = appdash.SpanID{Trace: appdash.ID(1 + r.Intn(2)), Span: appdash.ID(10 + i)}
		if i > 0 && r.Intn(2) == 0 {
			spans[i].Parent = 10
		}
	}
	// A few backing arrays with spare room, reused in every way.
	type backing struct{ a []ad.Ann }
	var bs []backing
	u := 0
	fresh := func() ad.Ann {
		u++
		a := ad.Uniq("k", u)
		switch r.Intn(6) {
		case 0:
			a = ad.Ann{Key: fmt.Sprint("nil", u)}
		case 1:
			a = ad.Ann{Key: fmt.Sprint("empty", u), Value: []byte{}}
		case 2:
			a.Value = append(make([]byte, 0, 100), a.Value...)
		}
		return a
	}
	for i := 0; i < 1+r.Intn(3); i++ {
		a := make([]ad.Ann, 4+r.Intn(8))
		for j := range a {
			a[j] = fresh()
		}
		bs = append(bs, backing{a})
	}
	steps := 4 + r.Intn(16)
	for k := 0; k < steps; k++ {
		b := bs[r.Intn(len(bs))]
		switch r.Intn(6) {
		case 0, 1, 2, 3:
			lo := 0
			if r.Intn(3) == 0 {
				lo = r.Intn(len(b.a))
			}
			hi := lo + r.Intn(len(b.a)-lo+1)
			s := spans[r.Intn(ns)]
			before, was := ad.CopyAnns(b.a), identity(b.a)
			c.Note("collect %v backing[%d:%d]", s, lo, hi)
			if err := p.coll.Collect(s, b.a[lo:hi]...); err != nil {
				c.Failf("collect-error", "%s: %v", p.name, err)
				return
			}
			want[s] = append(want[s], before[lo:hi]...)
			if is := identity(b.a); is != was {
				c.Failf("callers-slice-written", "%s: Collect(%v, backing[%d:%d]) wrote into the caller's slice: %s became %s", p.name, s, lo, hi, was, is)
				return
			}
		case 4:
			c.Note("overwrite")
			for j := range b.a {
				if r.Intn(2) == 0 {
					b.a[j] = fresh()
				}
			}
		case 5:
			c.Note("collect one literal")
			s := spans[r.Intn(ns)]
			a := fresh()
			before := make([]string, len(bs))
			for i := range bs {
				before[i] = identity(bs[i].a)
			}
			p.coll.Collect(s, a)
			want[s] = append(want[s], a)
			for i := range bs {
				if is := identity(bs[i].a); before[i] != is {
					c.Failf("callers-slice-written", "%s: collecting %v with another slice wrote into a slice of an earlier call: %s became %s", p.name, s, before[i], is)
					return
				}
			}
		}
	}
	snap := make([]string, len(bs))
	for i := range bs {
		snap[i] = identity(bs[i].a)
	}
	got := p.read()
	for i := range bs {
		if snap[i] != identity(bs[i].a) {
			c.Failf("callers-slice-written", "%s: flushing wrote into the caller's slice", p.name)
		}
	}
	for s, w := range want {
		if !ad.AnnsEqual(got[s], w) {
			c.Failf("contents", "%s: span %v holds %s; collected %s", p.name, s, ad.AnnString(got[s]), ad.AnnString(w))
		}
	}
	// The memory is still the caller's after the read.
	for _, b := range bs {
		for j := range b.a {
			b.a[j] = ad.Ann{Key: "poison", Value: []byte("poison")}
		}
	}
	p.coll.Collect(spans[0], ad.Ann{Key: "last"})
	want[spans[0]] = append(want[spans[0]], ad.Ann{Key: "last"})
	got = p.read()
	for s, w := range want {
		if !ad.AnnsEqual(got[s], w) {
			c.Failf("contents-later", "%s: after reuse of the caller's memory span %v holds %s; collected %s", p.name, s, ad.AnnString(got[s]), ad.AnnString(w))
		}
	}
	c.Count("collections", steps)
	c.Count("pipeline "+p.name, 1)
	c.Mark(p.name, steps, fmt.Sprint(want))
	c.Sample("%s: %d steps over %d shared arrays and %d spans", p.name, steps, len(bs), ns)
}

// returnedCase changes returned trees in every way and looks at the store.
func returnedCase(c *mon.Case) {
	r := c.R
	ops, trs := genOps(c, 8, false)
	a, b := appdash.NewMemoryStore(), appdash.NewMemoryStore()
	var other *appdash.Trace
	var otherCanon string
	for _, o := range ops {
		o.apply(a)
		o.apply(b)
		if r.Intn(3) != 0 {
			continue
		}
		if t, err := a.Trace(o.id.Trace); err == nil {
			other, otherCanon = t, ad.Canon(t)
		}
		var t *appdash.Trace
		if r.Intn(2) == 0 {
			t, _ = a.Trace(o.id.Trace)
		} else {
			ts, _ := a.Traces(appdash.TracesOpts{})
			if len(ts) > 0 {
				t = ts[r.Intn(len(ts))]
			}
		}
		if t == nil {
			continue
		}
		vandalise(r.Intn, t)
		if other != nil && ad.Canon(other) != otherCanon {
			c.Failf("results-shared", "changing one returned trace changed another one returned earlier")
			return
		}
		if err := sameStores(a, b, trs); err != nil {
			c.Failf("store-changed", "changing a returned trace changed the store: %v", err)
			return
		}
		c.Count("trees changed", 1)
		c.Mark(fmt.Sprint(o))
	}
	if err := sameStores(a, b, trs); err != nil {
		c.Failf("store-changed", "changing returned traces changed what later collections do: %v", err)
	}
	c.Sample("%d collections", len(ops))
}

// returnedLarge changes deep and wide returned trees everywhere.
func returnedLarge(c *mon.Case) {
	r := c.R
	a, b := appdash.NewMemoryStore(), appdash.NewMemoryStore()
	n := 300 + r.Intn(1500)
	deep := r.Intn(3) > 0
	for i := 1; i <= n; i++ {
		id := appdash.SpanID{Trace: 1, Span: appdash.ID(i), Parent: appdash.ID(i - 1)}
		if !deep && i > 1 {
			id.Parent = appdash.ID(1 + r.Intn(1+r.Intn(i-1)))
		}
		as := []ad.Ann{{Key: "k", Value: []byte(fmt.Sprint(i))}}
		for k := r.Intn(3); k > 0; k-- {
			as = append(as, ad.Ann{Key: fmt.Sprint(k), Value: []byte("v")})
		}
		a.Collect(id, as...)
		b.Collect(id, append([]ad.Ann(nil), as...)...)
	}
	for k := 0; k < 3; k++ {
		t, err := a.Trace(1)
		if k == 1 {
			var ts []*appdash.Trace
			if ts, err = a.Traces(appdash.TracesOpts{}); err == nil && len(ts) == 1 {
				t = ts[0]
			}
		}
		if err != nil || t == nil {
			c.Failf("store-changed", "the trace cannot be read: %v", err)
			return
		}
		vandalise(r.Intn, t)
		if err := sameStores(a, b, []appdash.ID{1}); err != nil {
			c.Failf("store-changed", "changing a returned trace of %d spans changed the store: %v", n, err)
			return
		}
		c.Count("trees changed", 1)
	}
	c.Mark(n, deep)
	c.Sample("trees of %d spans, chain: %v", n, deep)
}

func vandalise(intn func(int) int, t *appdash.Trace) {
	for _, s := range t.Sub {
		vandalise(intn, s)
	}
	for i := range t.Annotations {
		if intn(2) == 0 {
			t.Annotations[i] = ad.Ann{Key: "vandal"}
		}
	}
	// Writing into spare capacity must not reach the store either.
	t.Annotations = append(t.Annotations, ad.Ann{Key: "vandal2"})
	t.Sub = append(t.Sub, &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: 666}}})
	if intn(2) == 0 {
		t.ID = appdash.SpanID{Trace: 6, Span: 6, Parent: 6}
	}
	if intn(3) == 0 && len(t.Sub) > 1 {
		t.Sub[0] = t.Sub[1]
	}
	if intn(4) == 0 {
		t.Sub = nil
	}
}

// aliasConcCase has two goroutines collect sub-slices of one array; neither
// may write into it (the race detector watches, the contents decide).
func aliasConcCase(c *mon.Case) {
	r := c.R
	p := mkPipeline(c, r.Intn(9))
	defer p.done()
	base := make([]ad.Ann, 4, 32)
	for i := range base {
		base[i] = ad.Uniq("base", i)
	}
	base[r.Intn(4)].Value = [][]byte{nil, {}, append(make([]byte, 0, 50), "roomy"...)}[r.Intn(3)]
	was, orig := identity(base), ad.CopyAnns(base)
	g := 2 + r.Intn(3)
	per := 3 + r.Intn(8)
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := appdash.SpanID{Trace: 1, Span: appdash.ID(100 + i)}
			p.coll.Collect(s, base...)
			for k := 0; k < per; k++ {
				p.coll.Collect(s, ad.Uniq(fmt.Sprintf("g%d", i), k))
			}
		}()
	}
	wg.Wait()
	full := base[:cap(base)]
	for i := range full {
		if (i == 0 && identity(base) != was) || (i >= 4 && (full[i].Key != "" || full[i].Value != nil)) {
			c.Failf("callers-slice-written", "%s: element %d of the caller's array became %q", p.name, i, full[i])
		}
	}
	got := p.read()
	for i := 0; i < g; i++ {
		s := appdash.SpanID{Trace: 1, Span: appdash.ID(100 + i)}
		want := append([]ad.Ann{}, orig...)
		for k := 0; k < per; k++ {
			want = append(want, ad.Uniq(fmt.Sprintf("g%d", i), k))
		}
		if !ad.AnnsEqual(got[s], want) {
			c.Failf("contents", "%s: span %v holds %s; collected %s", p.name, s, ad.AnnString(got[s]), ad.AnnString(want))
		}
	}
	c.Count("collections", g*(per+1))
	c.Mark(p.name, g, per)
	c.Sample("%s: %d goroutines sharing one array", p.name, g)
}
