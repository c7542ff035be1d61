package core

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/ad"
	"verif/mon"

	"sourcegraph.com/sourcegraph/appdash"
)

// The scenarios of this file use the components with much more data than the
// others: limits that are out of the reach of a few dozen spans.

func init() {
	mon.Reg("C01", "scale", 8, 60, scaleTree)
	mon.Reg("C03", "scale", 8, 60, scaleSave)
	mon.RegV("C05", "scale", 8, 60, scaleRecent)
	mon.Reg("C06", "scale", 8, 60, scaleLimit)
	mon.Reg("C07", "scale", 8, 60, scaleListing)
	mon.Reg("C08", "scale", 8, 60, scaleChunk)
	mon.Reg("C11", "scale", 8, 60, scaleRemote)
	mon.Reg("C14", "scale", 8, 60, scaleRecorder)
	mon.Reg("C22", "scale", 8, 60, scaleCopies)
	mon.RegV("C11", "idle", 64, 800, serverIdle)
	mon.RegV("C13", "idle", 64, 800, serverIdle)
}

// size is a number of things that is far beyond what the other scenarios use.
func size(c *mon.Case, max int) int {
	return max/4 + c.R.Intn(max-max/4)
}

// scaleTree collects very many annotations for a span, very many spans for a
// trace, or very many traces.
func scaleTree(c *mon.Case) {
	r := c.R
	ms := appdash.NewMemoryStore()
	refs := map[appdash.ID]*treeRef{}
	uniq := 0
	put := func(id appdash.SpanID, n int) {
		as := make([]ad.Ann, n)
		for i := range as {
			uniq++
			as[i] = ad.Uniq("k", uniq)
		}
		if refs[id.Trace] == nil {
			refs[id.Trace] = newTreeRef()
		}
		refs[id.Trace].collect(id, as)
		if err := ms.Collect(id, as...); err != nil {
			c.Failf("collect-error", "Collect(%v): %v", id, err)
		}
	}
	what := ""
	switch c.Idx % 3 {
	case 0:
		n := size(c, 80000)
		what = fmt.Sprintf("%d annotations in one trace", n)
		ids := []appdash.SpanID{{Trace: 7, Span: 1}, {Trace: 7, Span: 2, Parent: 1}}
		for uniq < n {
			k := 1 + r.Intn(3)
			if r.Intn(40) == 0 {
				k = r.Intn(n / 8)
			}
			put(ids[min(1, r.Intn(9))], k)
		}
	case 1:
		n := size(c, 12000)
		what = fmt.Sprintf("%d spans in one trace", n)
		ids := ad.IDs(r, n)
		order := r.Perm(n)
		for _, i := range order {
			p := appdash.ID(0)
			if i > 0 {
				p = ids[max(0, r.Intn(i)-r.Intn(3))]
				if r.Intn(3) == 0 {
					p = ids[r.Intn(min(i, 5))]
				}
			}
			if ids[i] == 0 || (i > 0 && p == 0) {
				continue
			}
			put(appdash.SpanID{Trace: 9, Span: ids[i], Parent: p}, r.Intn(2))
		}
	default:
		n := size(c, 12000)
		what = fmt.Sprintf("%d traces", n)
		for _, t := range ad.IDs(r, n) {
			put(appdash.SpanID{Trace: t, Span: 2, Parent: 1}, 1)
			put(appdash.SpanID{Trace: t, Span: 1}, 1)
		}
	}
	all, err := ms.Traces(appdash.TracesOpts{})
	if err != nil || len(all) != len(refs) {
		c.Failf("listing", "Traces() = %d traces, %v; %d were collected", len(all), err, len(refs))
	}
	for _, t := range all {
		if err := refs[t.ID.Trace].check(t); err != nil {
			c.Failf("tree", "%s: trace %v: %s", what, t.ID.Trace, cutN(err.Error(), 2000))
			return
		}
	}
	for id, ref := range refs {
		t, err := ms.Trace(id)
		if err != nil {
			c.Failf("lost-trace", "%s: Trace(%v): %v", what, id, err)
			return
		}
		if err := ref.check(t); err != nil {
			c.Failf("tree", "%s: trace %v: %s", what, id, cutN(err.Error(), 2000))
			return
		}
	}
	c.Mark(what)
	c.Sample("%s", what)
	c.Count("annotations at scale", uniq)
}

// bigStore fills a store.
func bigStore(c *mon.Case, ms appdash.Collector, traces, spans, anns int) (ids []appdash.ID) {
	r := c.R
	ids = ad.IDs(r, traces)
	n := 0
	as := func() (as []ad.Ann) {
		for k := r.Intn(anns + 1); k > 0; k-- {
			n++
			as = append(as, ad.Uniq("b", n))
		}
		return
	}
	for _, t := range ids {
		ms.Collect(appdash.SpanID{Trace: t, Span: 1}, as()...)
		for s := 2; s <= spans; s++ {
			ms.Collect(appdash.SpanID{Trace: t, Span: appdash.ID(s), Parent: appdash.ID(1 + r.Intn(s-1))}, as()...)
		}
	}
	return ids
}

func shape(c *mon.Case) (traces, spans, anns int) {
	switch c.R.Intn(3) {
	case 0:
		return size(c, 12000), 1, 2
	case 1:
		return 2, size(c, 6000), 2
	default:
		return 2, 3, size(c, 20000)
	}
}

func scaleSave(c *mon.Case) {
	a := appdash.NewMemoryStore()
	nt, ns, na := shape(c)
	ids := bigStore(c, a, nt, ns, na)
	var buf bytes.Buffer
	if err := a.Write(&buf); err != nil {
		c.Failf("write", "Write of %d traces: %v", len(ids), err)
		return
	}
	size := buf.Len()
	b := appdash.NewMemoryStore()
	var rd io.Reader = &buf
	if c.R.Intn(2) == 0 {
		rd = chunkReader{rd, func() int { return 1 + c.R.Intn(5000) }}
	}
	n, err := b.ReadFrom(rd)
	if err != nil || n != int64(len(ids)) {
		c.Failf("count", "ReadFrom of %d bytes: %d traces, %v; %d were saved", size, n, err, len(ids))
		return
	}
	if err := sameStores(b, a, ids[:min(len(ids), 200)]); err != nil {
		c.Failf("differs", "%d traces of %d spans: %s", nt, ns, cutN(err.Error(), 2000))
		return
	}
	for i := 0; i < 500; i++ {
		id := appdash.SpanID{Trace: ids[c.R.Intn(len(ids))], Span: appdash.ID(1 + c.R.Intn(ns+3)), Parent: appdash.ID(c.R.Intn(3))}
		a.Collect(id, ad.Uniq("more", i))
		b.Collect(id, ad.Uniq("more", i))
		if i%50 == 0 {
			d := ids[c.R.Intn(len(ids))]
			a.Delete(d)
			b.Delete(d)
		}
	}
	if err := sameStores(b, a, ids[:min(len(ids), 200)]); err != nil {
		c.Failf("differs later", "%d traces of %d spans, after further collections: %s", nt, ns, cutN(err.Error(), 2000))
	}
	c.Mark(nt, ns, na, size)
	c.Count("bytes saved at scale", size)
	c.Sample("%d traces of %d spans, %d bytes", nt, ns, size)
}

// scaleRecent keeps very many young traces, and evicts very many at once.
func scaleRecent(c *mon.Case) {
	ms := appdash.NewMemoryStore()
	rs := &appdash.RecentStore{MinEvictAge: 24 * time.Hour, DeleteStore: ms}
	n := size(c, 20000)
	ids := ad.IDs(c.R, n+200)
	span := time.Duration(1+c.R.Intn(1000)) * time.Millisecond
	list := func() map[appdash.ID]bool {
		ts, _ := ms.Traces(appdash.TracesOpts{})
		m := map[appdash.ID]bool{}
		for _, t := range ts {
			m[t.ID.Trace] = true
		}
		return m
	}
	for i := 0; i < n; i++ {
		rs.Collect(appdash.SpanID{Trace: ids[i], Span: 1})
		if i%100 == 0 {
			time.Sleep(span)
		}
	}
	time.Sleep(time.Minute)
	if have := list(); len(have) != n {
		c.Failf("evicted young", "%d of %d traces are left, all collected less than a day ago", len(have), n)
		return
	}
	time.Sleep(49 * time.Hour)
	// All are old now; collections far apart evict them and keep what is new.
	kept := 1 + c.R.Intn(199)
	for i := 0; i < kept; i++ {
		rs.Collect(appdash.SpanID{Trace: ids[n+i], Span: 1})
		time.Sleep(time.Duration(1+c.R.Intn(60)) * time.Second)
	}
	for i := 0; i < 3; i++ {
		time.Sleep(10 * time.Minute)
		rs.Collect(appdash.SpanID{Trace: ids[n+kept], Span: appdash.ID(1 + i)})
	}
	time.Sleep(50 * time.Millisecond) // evictions may be under way
	have := list()
	for i := 0; i <= kept; i++ {
		if !have[ids[n+i]] {
			c.Failf("evicted young", "one of %d young traces was evicted along with %d old ones", kept+1, n)
			return
		}
	}
	if len(have) != kept+1 {
		c.Failf("kept old", "of %d traces a day too old %d are left, long after the next collections", n, len(have)-kept-1)
	}
	c.Mark(n, kept)
	c.Count("traces at scale", n)
	c.Sample("%d traces", n)
}

func scaleLimit(c *mon.Case) {
	max := size(c, 10000)
	mem := appdash.NewMemoryStore()
	ls := &appdash.LimitStore{Max: max, DeleteStore: mem}
	ids := ad.IDs(c.R, 2*max+c.R.Intn(max))
	next := 0
	for _, k := range []int{max - 1, 1, 1, max / 3, len(ids)} {
		for ; k > 0 && next < len(ids); k-- {
			if err := ls.Collect(appdash.SpanID{Trace: ids[next], Span: 1}); err != nil {
				c.Failf("error", "Collect: %v", err)
				return
			}
			if back := c.R.Intn(max); back < next && c.R.Intn(3) == 0 { // a retained one
				ls.Collect(appdash.SpanID{Trace: ids[next-back], Span: 2, Parent: 1})
			}
			next++
		}
		want := map[appdash.ID]bool{}
		for i := max; i > 0 && next-i < next; i-- {
			if next-i >= 0 {
				want[ids[next-i]] = true
			}
		}
		ts, _ := mem.Traces(appdash.TracesOpts{})
		for _, t := range ts {
			if !want[t.ID.Trace] {
				c.Failf("fifo", "after %d traces a store limited to %d has trace %v, which is not among the last %d", next, max, t.ID.Trace, max)
				return
			}
		}
		if len(ts) != len(want) {
			c.Failf("fifo", "after %d traces a store limited to %d has %d traces, should have %d", next, max, len(ts), len(want))
			return
		}
	}
	c.Mark(max, next)
	c.Count("traces at scale", next)
	c.Sample("%d traces into a store of %d", next, max)
}

func scaleListing(c *mon.Case) {
	r := c.R
	a, b := appdash.NewMemoryStore(), appdash.NewMemoryStore()
	na, nb := size(c, 8000), size(c, 8000)
	ids := ad.IDs(r, na+nb)
	shared := r.Intn(na)
	for i, t := range ids {
		if i < na {
			a.Collect(appdash.SpanID{Trace: t, Span: 1}, ad.Uniq("a", i))
		}
		if i >= na-shared {
			b.Collect(appdash.SpanID{Trace: t, Span: 1}, ad.Uniq("b", i))
		}
	}
	var just []appdash.ID
	want := map[appdash.ID]bool{}
	if r.Intn(2) == 0 {
		for k := size(c, 6000); k > 0; k-- {
			t := ids[r.Intn(len(ids))]
			just = append(just, t)
			want[t] = true
		}
	} else {
		for _, t := range ids {
			want[t] = true
		}
	}
	ts, err := appdash.MultiQueryer(a, b).Traces(appdash.TracesOpts{TraceIDs: just})
	if err != nil {
		c.Failf("error", "Traces: %v", err)
		return
	}
	pos := map[appdash.ID]int{}
	for i, t := range ids {
		pos[t] = i
	}
	for _, t := range ts {
		who := "b"
		if pos[t.ID.Trace] < na {
			who = "a"
		}
		if !want[t.ID.Trace] {
			c.Failf("listing", "trace %v is listed twice, or was not asked for (%d were requested)", t.ID.Trace, len(just))
			return
		}
		if w := []ad.Ann{ad.Uniq(who, pos[t.ID.Trace])}; !ad.AnnsEqual(t.Annotations, w) {
			c.Failf("member", "trace %v is listed with %s, should be with %s", t.ID.Trace, ad.AnnString(t.Annotations), ad.AnnString(w))
			return
		}
		delete(want, t.ID.Trace)
	}
	if len(want) > 0 {
		c.Failf("listing", "%d traces are missing from a listing of %d (%d were requested)", len(want), len(ts), len(just))
	}
	st := appdash.MultiStore(a, b)
	for i := 0; i < 300; i++ {
		if _, err := st.Trace(ids[r.Intn(len(ids))]); err != nil {
			c.Failf("lookup", "Trace of a stored one: %v", err)
		}
	}
	c.Mark(na, nb, shared, len(just))
	c.Count("traces at scale", len(ids))
	c.Sample("%d + %d traces, %d of them in both, %d requested", na, nb, shared, len(just))
}

func scaleChunk(c *mon.Case) {
	r := c.R
	sink := &ad.Sink{}
	cc := &appdash.ChunkedCollector{Collector: sink, MinInterval: time.Hour}
	if r.Intn(2) == 0 {
		cc = appdash.NewChunkedCollector(sink)
		cc.MinInterval, cc.FlushTimeout = time.Hour, 0
		cc.Log = quiet
	}
	defer cc.Stop()
	flushed := []int{}
	cc.OnFlush = func(n int) { flushed = append(flushed, n) }
	spans, anns := size(c, 20000), 2
	if r.Intn(2) == 0 {
		spans, anns = 1+r.Intn(3), size(c, 40000)
	}
	want := map[appdash.SpanID][]ad.Ann{}
	for s := 0; s < spans; s++ {
		id := appdash.SpanID{Trace: appdash.ID(r.Intn(100)), Span: appdash.ID(s)}
		want[id] = nil
		for n := r.Intn(anns + 1); n >= 0; {
			k := min(n+1, 1+r.Intn(3))
			var as []ad.Ann
			for ; k > 0; k-- {
				as = append(as, ad.Uniq("c", n))
				n--
			}
			if err := cc.Collect(id, as...); err != nil {
				c.Failf("error", "Collect into a queue without a limit: %v", err)
				return
			}
			want[id] = append(want[id], as...)
		}
	}
	if err := cc.Flush(); err != nil {
		c.Failf("error", "Flush: %v", err)
	}
	got := sink.Snapshot()
	if len(got) != len(want) || len(flushed) != 1 || flushed[0] != len(want) {
		c.Failf("calls", "a flush of %d spans made %d calls (OnFlush got %v)", len(want), len(got), flushed)
		return
	}
	for _, k := range got {
		w, ok := want[k.Span]
		if !ok {
			c.Failf("twice", "span %v was forwarded twice", k.Span)
			return
		}
		if !ad.AnnsEqual(k.Anns, w) {
			c.Failf("annotations", "span %v was forwarded with %d annotations, %d were collected (or not in order)", k.Span, len(k.Anns), len(w))
			return
		}
		delete(want, k.Span)
	}
	c.Mark(spans, anns)
	c.Count("spans at scale", spans)
	c.Sample("%d spans of up to %d annotations", spans, anns)
}

// scaleRemote sends very many messages, or messages of very many annotations.
func scaleRemote(c *mon.Case) {
	r := c.R
	useTLS := r.Intn(3) == 0
	sink := &ad.Sink{}
	fl := startServer(c, sink, useTLS, 0)
	n, anns := size(c, 12000), 1
	if r.Intn(2) == 0 {
		n, anns = 4, size(c, 40000)
	}
	callers := 1 + r.Intn(4)
	rc := newRemote(c, fl.Addr().String(), useTLS)
	var wg sync.WaitGroup
	for g := 0; g < callers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n/callers; i++ {
				as := make([]ad.Ann, anns)
				for k := range as {
					as[k] = ad.Uniq("m", i*anns+k)
				}
				if err := rc.Collect(appdash.SpanID{Trace: appdash.ID(g), Span: appdash.ID(i), Parent: 1}, as...); err != nil {
					c.Failf("error", "Collect %d of %d annotations over a healthy connection: %v", i, anns, err)
					return
				}
			}
		}()
	}
	wg.Wait()
	want := callers * (n / callers)
	c.AwaitOr("lost", fmt.Sprintf("%d messages to arrive", want), func() bool { return c.Failed() || sink.Len() >= want })
	rc.Close()
	next := map[appdash.ID]int{}
	for _, k := range sink.Snapshot() {
		i := next[k.Span.Trace]
		next[k.Span.Trace]++
		as := make([]ad.Ann, anns)
		for j := range as {
			as[j] = ad.Uniq("m", i*anns+j)
		}
		if (k.Span != appdash.SpanID{Trace: k.Span.Trace, Span: appdash.ID(i), Parent: 1}) || !ad.AnnsEqual(k.Anns, as) {
			c.Failf("altered", "message %d of caller %d arrived as %v with %d annotations (%d were sent)", i, k.Span.Trace, k.Span, len(k.Anns), anns)
			return
		}
	}
	c.Mark(n, anns, callers)
	c.Count("messages at scale", sink.Len())
	c.Sample("%d messages of %d annotations from %d callers", n, anns, callers)
}

func scaleRecorder(c *mon.Case) {
	r := c.R
	n, nerr := 0, size(c, 5000)
	fails := false
	sink := &ad.Sink{}
	sink.Err = func(int, appdash.SpanID, []ad.Ann) error {
		if !fails {
			return nil
		}
		fails = false // the report of the error may be collected, too
		n++
		return ad.FaultOf(fmt.Sprintf("error<%d>", n))
	}
	rec := appdash.NewRecorder(appdash.SpanID{Trace: 1, Span: 2, Parent: 3}, sink)
	var logged bytes.Buffer
	if logs := r.Intn(3) == 0; logs {
		rec.Logger = log.New(&logged, "", 0)
	}
	ev := size(c, 8000)
	var want []ad.Ann
	for i := 0; i < ev; i++ {
		m := fmt.Sprint("message ", i)
		want = append(want, ad.Ann{Key: "Msg", Value: []byte(m)}, ad.Ann{Key: "_schema:msg"})
		rec.Msg(m)
	}
	for i := 0; i < nerr; i++ {
		fails = true
		rec.Annotation(ad.Uniq("x", i))
	}
	texts := map[string]int{}
	if rec.Logger != nil {
		for _, l := range strings.Split(logged.String(), "\n") {
			if i := strings.Index(l, "error<"); i >= 0 {
				texts[l[i:]]++
			}
		}
	} else {
		for _, e := range rec.Errors() {
			if i := strings.Index(e.Error(), "error<"); i >= 0 {
				texts[e.Error()[i:]]++
			}
		}
	}
	for i := 1; i <= n; i++ {
		if k := texts[fmt.Sprintf("error<%d>", i)]; k != 1 {
			c.Failf("errors", "error %d of %d was reported %d times", i, n, k)
			return
		}
	}
	if len(texts) != n || n != nerr {
		c.Failf("errors", "%d errors occurred (of %d injected), %d were reported", n, nerr, len(texts))
	}
	if len(rec.Errors()) != 0 {
		c.Failf("errors", "errors are reported again")
	}
	before := sink.Len()
	rec.Finish()
	got := sink.Snapshot()[before:]
	if len(got) != 1 || !ad.AnnsEqual(got[0].Anns, want) {
		c.Failf("finish", "finishing a recorder of %d events made %d calls, or not all events are there", ev, len(got))
	}
	c.Mark(ev, nerr)
	c.Count("events at scale", ev)
	c.Sample("%d events, %d errors", ev, nerr)
}

// scaleCopies changes every part of large returned traces.
func scaleCopies(c *mon.Case) {
	ms := appdash.NewMemoryStore()
	nt, ns, na := shape(c)
	ids := bigStore(c, ms, nt, ns, na)
	id := ids[c.R.Intn(len(ids))]
	list := func() string {
		ts, _ := ms.Traces(appdash.TracesOpts{})
		return ad.CanonAll(ts)
	}
	before := list()
	t, err := ms.Trace(id)
	if err != nil {
		c.Failf("lost", "Trace(%v): %v", id, err)
		return
	}
	ts, _ := ms.Traces(appdash.TracesOpts{})
	var spoil func(*appdash.Trace)
	nodes := 0
	spoil = func(t *appdash.Trace) {
		nodes++
		for i := range t.Annotations {
			t.Annotations[i] = ad.Ann{Key: "spoilt"}
		}
		t.Annotations = append(t.Annotations, ad.Ann{Key: "extra"})
		t.ID.Parent++
		for _, s := range t.Sub {
			spoil(s)
		}
		for i := range t.Sub {
			t.Sub[i] = nil
		}
	}
	spoil(t)
	for _, t := range ts {
		spoil(t)
	}
	if after := list(); after != before {
		c.Failf("returned", "changing returned traces (%d traces of %d spans) changed the store:\n%s", nt, ns, cutN(ad.Diff(after, before), 1500))
	}
	c.Mark(nt, ns, na)
	c.Count("nodes spoilt at scale", nodes)
	c.Sample("%d traces of %d spans", nt, ns)
}

// pipeListener accepts in-memory connections, whose time is virtual.
type pipeListener struct {
	conns chan net.Conn
	done  chan struct{}
	once  sync.Once
}

func (l *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.conns:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *pipeListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *pipeListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 7701} }

// serverIdle lets hours and days pass between the messages of valid clients,
// between the bytes of one message, and inside the collector.
func serverIdle(c *mon.Case) {
	r := c.R
	l := &pipeListener{conns: make(chan net.Conn), done: make(chan struct{})}
	var mu sync.Mutex
	slow := r.Intn(3) == 0
	sink := &ad.Sink{Err: func(n int, _ appdash.SpanID, _ []ad.Ann) error {
		if slow && n%3 == 0 {
			time.Sleep(time.Duration(1+n%7) * time.Hour)
		}
		return nil
	}}
	s := newServer(c, l, sink)
	stopped := make(chan struct{})
	go func() { s.Start(); close(stopped) }()
	pause := func(r interface{ Intn(int) int }) time.Duration {
		return []time.Duration{0, time.Millisecond, time.Second, 45 * time.Second, 10 * time.Minute, 3 * time.Hour, 30 * time.Hour, 20 * 24 * time.Hour}[r.Intn(8)]
	}
	clients := 1 + r.Intn(4)
	want := map[string][]sent{}
	var wg sync.WaitGroup
	var idle time.Duration
	for g := 0; g < clients; g++ {
		ms := genSent(c, g, 2+r.Intn(8))
		want[fmt.Sprint(g)] = ms
		gr := randNew(r.Int63())
		a, b := net.Pipe()
		l.conns <- a
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer b.Close()
			for i, m := range ms {
				d := pause(gr)
				mu.Lock()
				idle += d
				mu.Unlock()
				time.Sleep(d)
				p := enc(m.id, m.as)
				for len(p) > 0 {
					k := len(p)
					if gr.Intn(2) == 0 {
						k = 1 + gr.Intn(len(p))
					}
					if _, err := b.Write(p[:k]); err != nil {
						c.Failf("cut off", "client %d: the server ended the connection in message %d, after pauses of %v: %v", g, i, d, err)
						return
					}
					p = p[k:]
					if len(p) > 0 {
						time.Sleep(pause(gr) / 4)
					}
				}
			}
			time.Sleep(100 * time.Hour) // for the collector to be done with them
		}()
	}
	wg.Wait()
	l.Close()
	<-stopped
	if !c.Failed() {
		judgeArrivals(c, sink.Snapshot(), want)
	}
	var sizes []int
	for _, w := range want {
		sizes = append(sizes, len(w))
	}
	sort.Ints(sizes)
	c.Mark(clients, sizes, idle)
	c.Count("virtual hours of silence", int(idle/time.Hour))
	c.Sample("%d clients, %v messages, silent for %v altogether", clients, sizes, idle)
}
