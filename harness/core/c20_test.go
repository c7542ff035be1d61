package core

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/ad"
	"verif/mon"

	"github.com/opentracing/basictracer-go"
	ot "github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/ext"
	otlog "github.com/opentracing/opentracing-go/log"
	"sourcegraph.com/sourcegraph/appdash"
	aot "sourcegraph.com/sourcegraph/appdash/opentracing"
)

func init() {
	mon.RegV("C20", "raw-spans", 4000, 60000, otRaw)
	mon.RegV("C20", "tracer", 1600, 30000, otTracer)
	mon.Reg("C20", "concurrent", 160, 3000, otConc)
	mon.RegV("C20", "failures", 1200, 20000, otFailures)
	mon.Reg("C20", "concurrent-failures", 160, 3000, otConcFailures)
}

type otStruct struct {
	A int
	B string
	C []float64
}

type otStringer struct{ x int }

func (s otStringer) String() string { return fmt.Sprintf("stringer-%d", s.x) }

// otBoth is an error and a Stringer, and may be nil.
type otBoth struct{ x int }

func (s *otBoth) String() string { return fmt.Sprintf("string-%d", s.x) }
func (s *otBoth) Error() string  { return fmt.Sprintf("error-%d", s.x) }

// otFormatter formats itself and is a Stringer, too.
type otFormatter struct{ x int }

func (s otFormatter) String() string { return "not this" }
func (s otFormatter) Format(f fmt.State, verb rune) {
	fmt.Fprintf(f, "%c%v-%d", verb, f.Flag('+'), s.x)
}

// otGo has a Go-syntax form, which is not the default one.
type otGo struct{ X int }

func (s otGo) GoString() string { return "go-syntax" }

// otText2 marshals itself as text, which is not the default form either.
type otText2 struct{ X int }

func (s otText2) MarshalText() ([]byte, error) { return []byte("text"), nil }
func (s otText2) MarshalJSON() ([]byte, error) { return []byte(`"json"`), nil }

// otWant is what one span should record.
type otWant struct {
	name   string
	logs   []otLog
	tags   map[string]string
	bag    map[string]string
	s, e   time.Time
	parent appdash.ID
}

type otLog struct {
	t      time.Time
	fields map[string]string
}

// msg is the log's message in normal form.
func (l otLog) msg() string {
	if len(l.fields) == 1 {
		if e, ok := l.fields["event"]; ok {
			return e
		}
	}
	b, _ := json.Marshal(l.fields)
	return string(b)
}

func normMsg(v []byte) []byte {
	if len(v) == 0 || v[0] != '{' {
		return v
	}
	m := map[string]string{}
	if json.Unmarshal(v, &m) != nil {
		return v
	}
	b, _ := json.Marshal(m)
	return b
}

func evAnns(e appdash.Event) []ad.Ann {
	as, err := appdash.MarshalEvent(e)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return as
}

func sortedAnns(as []ad.Ann) string {
	var s []string
	for _, a := range as {
		s = append(s, ad.AnnString([]ad.Ann{{Key: a.Key, Value: normMsg(a.Value)}}))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// judge compares what was collected for a span with what should be.
func (w *otWant) judge(c *mon.Case, id appdash.SpanID, got []ad.Ann) {
	var want []ad.Ann
	events := [][]ad.Ann{evAnns(appdash.SpanName(w.name)), evAnns(appdash.Timespan{S: w.s, E: w.e})}
	for _, l := range w.logs {
		events = append(events, evAnns(appdash.LogWithTimestamp(l.msg(), l.t)))
	}
	for _, e := range events {
		want = append(want, e...)
	}
	for k, v := range w.tags {
		want = append(want, ad.Ann{Key: k, Value: []byte(v)})
	}
	for k, v := range w.bag {
		want = append(want, ad.Ann{Key: k, Value: []byte(v)})
	}
	if g, x := sortedAnns(got), sortedAnns(want); g != x {
		c.Failf("recorded", "span %v is recorded as\n%s\nwant\n%s", id, cutN(g, 1500), cutN(x, 1500))
		return
	}
	// Each event's annotations stand together.
	groups := map[string]int{}
	for _, e := range events {
		groups[sortedAnns(e)]++
	}
	n := len(events[0])
	_ = n
	for i, a := range got {
		if !strings.HasPrefix(a.Key, "_schema:") {
			continue
		}
		found := false
		for _, e := range events {
			if k := len(e); i+1 >= k {
				s := sortedAnns(got[i+1-k : i+1])
				if groups[s] > 0 {
					groups[s]--
					found = true
					break
				}
			}
		}
		if !found {
			c.Failf("mixed events", "the annotations of the events of span %v are mixed up: %s", id, cutN(ad.AnnString(got), 1500))
			return
		}
	}
}

func cutN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func otKey(r *rand.Rand) string {
	if r.Intn(4) == 0 {
		k := ad.Str(r)
		if !strings.HasPrefix(k, "_schema") {
			return "k" + k
		}
	}
	if r.Intn(6) == 0 { // the conventional ones
		return otKeys[r.Intn(len(otKeys))]
	}
	return fmt.Sprintf("key%d", r.Intn(30))
}

// "Name" and the like are left out: they collide with the span's own annotations.
var otKeys = []string{"span.kind", "component", "peer.service", "peer.hostname", "peer.ipv4", "peer.port", "http.url", "http.method", "http.status_code", "error", "db.statement", "db.type", "event", "message", "stack", "sampler.type", "ot-tracer-spanid", "http.request.headers.Authorization", "internal", "_hidden", ".", "a.b.c", "span", "log", "baggage"}

// otValue generates a tag value and its default text.
func otValue(r *rand.Rand) any {
	var n *int
	switch r.Intn(24) {
	case 16:
		return &otBoth{r.Intn(9)}
	case 17:
		return (*otBoth)(nil)
	case 18:
		return (*otStringer)(nil) // fmt recovers from its panicking method
	case 19:
		return otFormatter{r.Intn(9)}
	case 20:
		return []any{otGo{r.Intn(9)}, otText2{r.Intn(9)}, otStringer{1}, nil, "s", []byte("b"), float32(0.1)}[r.Intn(7)]
	case 21:
		return []any{complex(1, -2), rune('x'), byte(7), [2]bool{true}, struct{ E error }{io.EOF}, map[string]any{"k": nil}, [3]byte{1, 2, 3}, json.Number("7")}[r.Intn(8)]
	case 22:
		return []any{json.RawMessage(`{"a":1}`), []otStringer{{1}, {2}}, []any{nil, &otBoth{1}}, http.Header{"A": {"b"}}, time.Unix(r.Int63n(1e9), 5).UTC(), []byte(nil), ""}[r.Intn(7)]
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return r.Int63() - r.Int63()
	case 3:
		return r.Uint64()
	case 4:
		return r.NormFloat64()
	case 5:
		return []byte(ad.Str(r))
	case 6:
		return otStruct{r.Intn(9), ad.Str(r), []float64{1.5}}
	case 7:
		return otStringer{r.Intn(9)}
	case 8:
		return errors.New("err" + ad.Str(r))
	case 9:
		return map[string]int{"b": 1, "a": 2}
	case 10:
		return []string{"x", ad.Str(r)}
	case 11:
		return n
	case 12:
		return time.Duration(r.Int63())
	case 13:
		return uint16(r.Intn(3))
	}
	return ad.Str(r)
}

func otText(v any) string { return fmt.Sprintf("%+v", v) }

// otFields generates log fields with distinct keys and their texts.
func otFields(r *rand.Rand) ([]otlog.Field, map[string]string) {
	m := map[string]string{}
	var fs []otlog.Field
	if r.Intn(3) == 0 {
		v := ad.Str(r)
		m["event"] = v
		return []otlog.Field{otlog.String("event", v)}, m
	}
	n, most := r.Intn(5), 20
	if r.Intn(60) == 0 {
		n, most = r.Intn(400), 1000
	}
	for ; n > 0; n-- {
		k := fmt.Sprintf("f%d", r.Intn(most))
		if r.Intn(4) == 0 {
			k = "event"
		} else if r.Intn(4) == 0 {
			k = ad.UStr(r)
		}
		if _, dup := m[k]; dup {
			continue
		}
		var f otlog.Field
		var t string
		switch r.Intn(12) {
		case 0:
			v := r.Intn(2) == 0
			f, t = otlog.Bool(k, v), fmt.Sprint(v)
		case 1:
			v := r.Int() - r.Int()
			f, t = otlog.Int(k, v), fmt.Sprint(v)
		case 2:
			v := r.Int31() - r.Int31()
			f, t = otlog.Int32(k, v), fmt.Sprint(v)
		case 3:
			v := r.Int63() - r.Int63()
			f, t = otlog.Int64(k, v), fmt.Sprint(v)
		case 4:
			v := r.Uint32()
			f, t = otlog.Uint32(k, v), fmt.Sprint(v)
		case 5:
			v := r.Uint64()
			f, t = otlog.Uint64(k, v), fmt.Sprint(v)
		case 6:
			v := otStruct{r.Intn(9), "s", nil}
			f, t = otlog.Object(k, v), otText(v)
		case 7:
			v := errors.New("e" + ad.UStr(r))
			f, t = otlog.Error(v), v.Error()
			k = f.Key()
			if _, dup := m[k]; dup {
				continue
			}
		case 8:
			v := fmt.Sprint("lazy", r.Intn(99))
			f, t = otlog.Lazy(func(e otlog.Encoder) { e.EmitString(k, v) }), v
		case 9:
			fs = append(fs, otlog.Noop())
			continue
		default:
			v := ad.UStr(r)
			f, t = otlog.String(k, v), v
		}
		m[k] = t
		fs = append(fs, f)
	}
	return fs, m
}

func otTime(r *rand.Rand) time.Time {
	t := randTime(r)
	return t
}

// genRaw generates a finished span.
func genRaw(r *rand.Rand) (basictracer.RawSpan, *otWant) {
	w := &otWant{name: ad.Str(r), tags: map[string]string{}, bag: map[string]string{}}
	sp := basictracer.RawSpan{
		Context:      basictracer.SpanContext{TraceID: uint64(ad.ID(r)), SpanID: uint64(ad.ID(r)), Sampled: true},
		ParentSpanID: uint64(ad.ID(r)),
		Operation:    w.name,
		Start:        otTime(r),
		Duration:     time.Duration(r.Int63n(1e12)),
	}
	if r.Intn(4) == 0 {
		sp.Duration = []time.Duration{0, 1, -1, 1e9 + 1}[r.Intn(4)]
	}
	w.s, w.e = sp.Start, sp.Start.Add(sp.Duration)
	for n := r.Intn(4); n > 0; n-- {
		fs, m := otFields(r)
		t := otTime(r)
		sp.Logs = append(sp.Logs, ot.LogRecord{Timestamp: t, Fields: fs})
		w.logs = append(w.logs, otLog{t, m})
	}
	for n := r.Intn(5); n > 0; n-- {
		k, v := otKey(r), otValue(r)
		if sp.Tags == nil {
			sp.Tags = ot.Tags{}
		}
		sp.Tags[k] = v
		w.tags[k] = otText(v)
	}
	for n := r.Intn(4); n > 0; n-- {
		k, v := otKey(r), ad.Str(r)
		if sp.Context.Baggage == nil {
			sp.Context.Baggage = map[string]string{}
		}
		sp.Context.Baggage[k] = v
		w.bag[k] = v
	}
	if r.Intn(25) == 0 {
		bigSpan(r, &sp, w)
	}
	return sp, w
}

// bigSpan makes something of the span large: spans have no size limits.
func bigSpan(r *rand.Rand, sp *basictracer.RawSpan, w *otWant) {
	long := func() string {
		n := []int{100, 1000, 5000, 20000, 70000, 300000}[r.Intn(6)] + r.Intn(100)
		return strings.Repeat(string(rune('a'+r.Intn(26))), n) + "end"
	}
	many := 20 + r.Intn(400)
	switch r.Intn(7) {
	case 0:
		w.name = long()
		sp.Operation = w.name
	case 1:
		if sp.Tags == nil {
			sp.Tags = ot.Tags{}
		}
		v := long()
		sp.Tags["long"], w.tags["long"] = v, v
	case 2:
		v := long()
		if sp.Context.Baggage == nil {
			sp.Context.Baggage = map[string]string{}
		}
		sp.Context.Baggage["long"], w.bag["long"] = v, v
	case 3:
		v, t := long(), otTime(r)
		sp.Logs = append(sp.Logs, ot.LogRecord{Timestamp: t, Fields: []otlog.Field{otlog.String("long", v)}})
		w.logs = append(w.logs, otLog{t, map[string]string{"long": v}})
	case 4:
		if sp.Tags == nil {
			sp.Tags = ot.Tags{}
		}
		for i := 0; i < many; i++ {
			k := fmt.Sprintf("tag%d", i)
			sp.Tags[k], w.tags[k] = i, fmt.Sprint(i)
		}
	case 5:
		if sp.Context.Baggage == nil {
			sp.Context.Baggage = map[string]string{}
		}
		for i := 0; i < many; i++ {
			k := fmt.Sprintf("item%d", i)
			sp.Context.Baggage[k], w.bag[k] = k+"v", k+"v"
		}
	case 6:
		for i := 0; i < many; i++ {
			t := otTime(r)
			m := map[string]string{}
			var fs []otlog.Field
			for j := 0; j < 1+i%7; j++ {
				k := fmt.Sprintf("f%d", j)
				fs, m[k] = append(fs, otlog.Int(k, i)), fmt.Sprint(i)
			}
			sp.Logs = append(sp.Logs, ot.LogRecord{Timestamp: t, Fields: fs})
			w.logs = append(w.logs, otLog{t, m})
		}
	}
}

// otRaw records finished spans directly.
func otRaw(c *mon.Case) {
	r := c.R
	sink := &ad.Sink{}
	opts := aot.Options{Logger: log.New(io.Discard, "", 0)}
	switch r.Intn(3) { // the span's decision counts, not the function
	case 0:
		opts.ShouldSample = func(uint64) bool { return false }
	case 1:
		opts.ShouldSample = func(id uint64) bool { return id%2 == 0 }
	}
	rec := aot.NewRecorder(sink, opts)
	want := map[appdash.SpanID]*otWant{}
	n, unsampled := 1+r.Intn(3), 0
	for i := 0; i < n; i++ {
		sp, w := genRaw(r)
		id := appdash.SpanID{Trace: appdash.ID(sp.Context.TraceID), Span: appdash.ID(sp.Context.SpanID), Parent: appdash.ID(sp.ParentSpanID)}
		if want[id] != nil {
			continue
		}
		sp.Context.Sampled = r.Intn(5) > 0
		if sp.Context.Sampled {
			want[id] = w
		} else {
			unsampled++
		}
		before := sink.Len()
		rec.RecordSpan(sp)
		if !sp.Context.Sampled && sink.Len() != before {
			c.Failf("unsampled", "an unsampled span was collected: %v", sink.Snapshot()[before])
		}
	}
	got := ad.BySpan(sink.Snapshot())
	for id, w := range want {
		if _, ok := got[id]; !ok {
			c.Failf("lost span", "span %v was finished but not collected", id)
			continue
		}
		w.judge(c, id, got[id])
		c.Mark(id, w.name, len(w.logs), w.tags, w.bag)
	}
	for id := range got {
		if want[id] == nil && unsampled == 0 {
			c.Failf("invented span", "something was collected for %v, which is no finished span's ID", id)
		}
	}
	c.Mark(unsampled)
	c.Count("spans", len(want))
	c.Count("unsampled", unsampled)
	c.Sample("%d spans, %d unsampled", len(want), unsampled)
}

type otSpan struct {
	sp       ot.Span
	w        *otWant
	trace    appdash.ID
	id       appdash.ID
	sampled  bool
	side     int
	finished bool
}

// otTracer drives two tracers (two processes) with spans of several traces.
func otTracer(c *mon.Case) {
	r := c.R
	// Each side decides for the traces that start there, by the ID or anew each
	// time.
	var should [2]func(uint64) bool
	for i := range should {
		mod := uint64(1 + r.Intn(3))
		should[i] = func(id uint64) bool { return id%mod == 0 }
		if r.Intn(3) == 0 {
			should[i] = func(uint64) bool { return r.Intn(2) == 0 }
		}
	}
	sinks := [2]*ad.Sink{{}, {}}
	asked := map[uint64]bool{}
	var tracers [2]ot.Tracer
	for i := range tracers {
		tracers[i] = aot.NewTracerWithOptions(sinks[i], aot.Options{ShouldSample: func(id uint64) bool {
			d := should[i](id)
			if _, ok := asked[id]; !ok {
				asked[id] = d // made when the trace is created
			}
			return d
		}, Logger: log.New(io.Discard, "", 0)})
	}
	if r.Intn(5) == 0 {
		tracers[0] = aot.NewTracer(sinks[0])
	}
	var spans []*otSpan
	carried := 0
	start := func(side int, parent *otSpan, pctx ot.SpanContext, follows bool) *otSpan {
		s := &otSpan{side: side, w: &otWant{tags: map[string]string{}, bag: map[string]string{}}}
		s.w.name = ad.Str(r)
		var opts []ot.StartSpanOption
		s.w.s = time.Now()
		if r.Intn(3) == 0 {
			s.w.s = time.Now().Add(time.Duration(r.Int63n(1e9) - 5e8))
			opts = append(opts, ot.StartTime(s.w.s))
		}
		if r.Intn(3) == 0 {
			k, v := otKey(r), otValue(r)
			opts = append(opts, ot.Tag{Key: k, Value: v})
			s.w.tags[k] = otText(v)
		}
		if parent != nil {
			if follows {
				opts = append(opts, ot.FollowsFrom(pctx))
			} else {
				opts = append(opts, ot.ChildOf(pctx))
			}
		}
		s.sp = tracers[side].StartSpan(s.w.name, opts...)
		sc := s.sp.Context().(basictracer.SpanContext)
		s.trace, s.id, s.sampled = appdash.ID(sc.TraceID), appdash.ID(sc.SpanID), sc.Sampled
		if parent != nil {
			s.w.parent = parent.id
			for k, v := range parent.w.bag {
				s.w.bag[k] = v
			}
			if s.trace != parent.trace {
				c.Failf("trace", "a child of a span of trace %v is in trace %v", parent.trace, s.trace)
			}
			if s.sampled != parent.sampled {
				c.Failf("sampling", "a child of a span with sampling decision %v has %v", parent.sampled, s.sampled)
			}
		} else if d, ok := asked[uint64(s.trace)]; ok && d != s.sampled {
			c.Failf("sampling", "the sampling function said %v for trace %v, the span has %v", d, s.trace, s.sampled)
		} else if !ok && !s.sampled {
			c.Failf("sampling", "the default tracer does not sample trace %v", s.trace)
		}
		spans = append(spans, s)
		return s
	}
	steps := 5 + r.Intn(25)
	var trail []string
	for i := 0; i < steps; i++ {
		time.Sleep(time.Duration(r.Int63n(1e6)))
		var s *otSpan
		if len(spans) > 0 {
			s = spans[r.Intn(len(spans))]
		}
		k := r.Intn(9)
		trail = append(trail, fmt.Sprint(k))
		if s == nil || k == 0 {
			start(r.Intn(2), nil, nil, false)
			continue
		}
		switch k {
		case 1: // a child on the same side
			start(s.side, s, s.sp.Context(), r.Intn(2) == 0)
		case 2, 3: // a child on either side, through a carrier
			var ctx ot.SpanContext
			var err error
			other := r.Intn(2)
			switch r.Intn(3) {
			case 0:
				m := ot.TextMapCarrier{}
				err = tracers[s.side].Inject(s.sp.Context(), ot.TextMap, m)
				if err == nil {
					ctx, err = tracers[other].Extract(ot.TextMap, m)
				}
			case 1:
				h := http.Header{}
				err = tracers[s.side].Inject(s.sp.Context(), ot.HTTPHeaders, ot.HTTPHeadersCarrier(h))
				if err == nil {
					ctx, err = tracers[other].Extract(ot.HTTPHeaders, ot.HTTPHeadersCarrier(h))
				}
			case 2:
				b := &bytes.Buffer{}
				err = tracers[s.side].Inject(s.sp.Context(), ot.Binary, b)
				if err == nil {
					ctx, err = tracers[other].Extract(ot.Binary, b)
				}
			}
			if err != nil {
				c.Failf("propagation", "the context of span %v cannot be carried over: %v", s.id, err)
				continue
			}
			carried++
			start(other, s, ctx, false)
		case 4, 5:
			if s.finished {
				continue
			}
			if r.Intn(6) == 0 {
				p := uint16(r.Intn(2))
				ext.SamplingPriority.Set(s.sp, p)
				s.sampled = p != 0
				continue
			}
			key, v := otKey(r), otValue(r)
			s.sp.SetTag(key, v)
			s.w.tags[key] = otText(v)
		case 6:
			if s.finished {
				continue
			}
			// Keys and values every carrier can transport.
			key, v := fmt.Sprintf("bag%d", r.Intn(5)), strings.Trim(ad.UStr(r), " \x00\n")
			s.sp.SetBaggageItem(key, v)
			s.w.bag[key] = v
		case 7:
			if s.finished {
				continue
			}
			fs, m := otFields(r)
			s.sp.LogFields(fs...)
			s.w.logs = append(s.w.logs, otLog{time.Now(), m})
			if r.Intn(3) == 0 {
				s.w.name = ad.Str(r)
				s.sp.SetOperationName(s.w.name)
			}
		case 8:
			if s.finished {
				continue
			}
			finishOT(r, s)
		}
	}
	for _, s := range spans {
		if !s.finished && r.Intn(4) > 0 {
			finishOT(r, s)
		}
	}
	nfin, nsam := 0, 0
	for side := range sinks {
		got := ad.BySpan(sinks[side].Snapshot())
		for _, s := range spans {
			if s.side != side {
				continue
			}
			id := appdash.SpanID{Trace: s.trace, Span: s.id, Parent: s.w.parent}
			as, ok := got[id]
			delete(got, id)
			switch {
			case s.finished && s.sampled && !ok:
				c.Failf("lost span", "span %v was finished but not collected under its IDs; collected: %v", id, got)
			case ok && !s.sampled:
				c.Failf("unsampled", "the unsampled span %v was collected", id)
			case ok && !s.finished:
				c.Failf("unfinished", "the unfinished span %v was collected", id)
			case ok:
				s.w.judge(c, id, as)
				nsam++
			}
			if s.finished {
				nfin++
			}
		}
		for id := range got {
			c.Failf("invented span", "something was collected for %v, which is no finished span's ID", id)
		}
	}
	c.Count("spans_finished", nfin)
	c.Count("spans_judged", nsam)
	c.Count("contexts_carried", carried)
	c.Mark(trail, nfin, nsam, carried)
	c.Sample("steps %v: %d spans finished, %d collected, %d contexts carried", trail, nfin, nsam, carried)
}

func finishOT(r *rand.Rand, s *otSpan) {
	s.finished = true
	s.w.e = time.Now()
	switch r.Intn(3) {
	case 0:
		s.sp.Finish()
		return
	case 1:
		s.w.e = s.w.s.Add(time.Duration(r.Int63n(1e10)))
	}
	o := ot.FinishOptions{FinishTime: s.w.e}
	for n := r.Intn(3); n > 0; n-- {
		fs, m := otFields(r)
		t := randTime(r)
		if t.IsZero() {
			continue
		}
		o.LogRecords = append(o.LogRecords, ot.LogRecord{Timestamp: t, Fields: fs})
		s.w.logs = append(s.w.logs, otLog{t, m})
	}
	s.sp.FinishWithOptions(o)
}

// otConc finishes spans of shared traces from several goroutines.
func otConc(c *mon.Case) {
	r := c.R
	sink := &ad.Sink{}
	var coll appdash.Collector = sink
	var ms *appdash.MemoryStore
	if r.Intn(2) == 0 {
		ms = appdash.NewMemoryStore()
		coll = appdash.NewLocalCollector(ms)
	}
	var mu sync.Mutex
	sampledOf := map[uint64]bool{}
	tr := aot.NewTracerWithOptions(coll, aot.Options{ShouldSample: func(id uint64) bool {
		mu.Lock()
		defer mu.Unlock()
		sampledOf[id] = id%2 == 0
		return id%2 == 0
	}, Logger: log.New(io.Discard, "", 0)})
	type fin struct {
		id  appdash.SpanID
		tag string
		s   bool
	}
	var fins []fin
	var wg sync.WaitGroup
	workers, per := 2+r.Intn(4), 2+r.Intn(5)
	roots := make([]ot.Span, 1+r.Intn(3))
	for i := range roots {
		roots[i] = tr.StartSpan(fmt.Sprint("root", i))
	}
	for w := 0; w < workers; w++ {
		root := roots[r.Intn(len(roots))]
		wg.Add(1)
		go func() {
			defer wg.Done()
			parent := root
			for i := 0; i < per; i++ {
				sp := tr.StartSpan("op", ot.ChildOf(parent.Context()))
				tag := fmt.Sprintf("w%d-%d", w, i)
				sp.SetTag("uniq", tag)
				sp.LogFields(otlog.String("event", tag))
				sp.Finish()
				sc, pc := sp.Context().(basictracer.SpanContext), parent.Context().(basictracer.SpanContext)
				mu.Lock()
				fins = append(fins, fin{appdash.SpanID{Trace: appdash.ID(sc.TraceID), Span: appdash.ID(sc.SpanID), Parent: appdash.ID(pc.SpanID)}, tag, sc.Sampled})
				if sc.Sampled != sampledOf[sc.TraceID] {
					c.Failf("sampling", "span %s of trace %d has sampling decision %v", tag, sc.TraceID, sc.Sampled)
				}
				mu.Unlock()
				parent = sp
			}
		}()
	}
	wg.Wait()
	for _, s := range roots {
		s.Finish()
	}
	got := ad.BySpan(sink.Snapshot())
	if ms != nil {
		got = storeRead(ms)()
	}
	n := 0
	for _, f := range fins {
		as, ok := got[f.id]
		if ok != f.s {
			c.Failf("lost span", "span %v with sampling decision %v: collected %v", f.id, f.s, ok)
			continue
		}
		if !ok {
			continue
		}
		n++
		tags := 0
		for _, a := range as {
			if a.Key == "uniq" {
				tags++
				if string(a.Value) != f.tag {
					c.Failf("recorded", "span %v has tag %q of another span, its own is %q", f.id, a.Value, f.tag)
				}
			}
		}
		if tags != 1 {
			c.Failf("recorded", "span %v has its tag %d times", f.id, tags)
		}
	}
	c.Count("spans", len(fins))
	c.Count("collected", n)
	order := ""
	for _, f := range fins {
		order += f.tag + " "
	}
	c.Mark(order)
	c.Sample("%d workers on %d traces, finishing order %s", workers, len(roots), order)
}

// otFailures makes collections fail and looks at what is logged.
func otFailures(c *mon.Case) {
	r := c.R
	rate := 1 + r.Intn(4)
	var texts []string
	reports := map[string]bool{}
	failedReports := 0
	sink := &ad.Sink{}
	sink.Err = func(n int, id appdash.SpanID, as []ad.Ann) error {
		report := false
		for _, a := range as {
			for _, t := range texts {
				if strings.Contains(string(a.Value), t) {
					report = true
					reports[t] = true
				}
			}
		}
		if r.Intn(rate) != 0 {
			return nil
		}
		t := fmt.Sprintf("collect-failure<%d>", len(texts))
		if report {
			failedReports++
			reports[t] = true // goes to the logger
		}
		texts = append(texts, t)
		return ad.FaultOf(t)
	}
	var out bytes.Buffer
	verbose := r.Intn(2) == 0
	opts := aot.Options{Verbose: verbose, Logger: log.New(&out, "line: ", 0), ShouldSample: func(uint64) bool { return true }}
	rec := aot.NewRecorder(sink, opts)
	if r.Intn(6) == 0 {
		rec.Log = nil
	}
	n := 1 + r.Intn(4)
	want := map[appdash.SpanID]*otWant{}
	for i := 0; i < n; i++ {
		sp, w := genRaw(r)
		id := appdash.SpanID{Trace: appdash.ID(sp.Context.TraceID), Span: appdash.ID(sp.Context.SpanID), Parent: appdash.ID(sp.ParentSpanID)}
		if want[id] != nil {
			continue
		}
		want[id] = w
		before := sink.Len()
		rec.RecordSpan(sp)
		if sink.Len() == before {
			c.Failf("lost span", "span %v was not collected", id)
		}
	}
	for _, t := range texts {
		if !reports[t] {
			c.Failf("error lost", "the collector's error %s was neither reported to the collector nor logged", t)
		}
	}
	lines := strings.Count(out.String(), "line: ")
	exp := failedReports
	if !verbose && exp > 1 {
		exp = 1
	}
	if rec.Log == nil {
		exp = 0
	}
	if lines != exp {
		c.Failf("logged", "%d errors could not be reported to the collector; %d lines were logged (verbose %v), want %d:\n%s", failedReports, lines, verbose, exp, cutN(out.String(), 800))
	}
	c.Count("failures", len(texts))
	c.Count("lines", lines)
	c.Mark(rate, verbose, len(texts), failedReports, sink.Len())
	c.Sample("%d spans, %d failures, %d lines (verbose %v)", n, len(texts), lines, verbose)
}

// otConcFailures finishes spans concurrently while the collector is down.
func otConcFailures(c *mon.Case) {
	r := c.R
	kind := r.Int()
	sink := &ad.Sink{Err: func(int, appdash.SpanID, []ad.Ann) error { return ad.Fault(kind, "down") }}
	var out bytes.Buffer
	verbose := r.Intn(2) == 0
	tr := aot.NewTracerWithOptions(sink, aot.Options{Verbose: verbose, Logger: log.New(&out, "line: ", 0), ShouldSample: func(uint64) bool { return true }})
	workers, per := 2+r.Intn(5), 1+r.Intn(5)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				sp := tr.StartSpan("op")
				sp.SetTag("a", 1)
				sp.Finish()
			}
		}()
	}
	wg.Wait()
	lines := strings.Count(out.String(), "line: ")
	if !verbose && lines != 1 || verbose && lines < workers*per {
		c.Failf("logged", "with the collector down %d spans were finished and %d lines logged (verbose %v)", workers*per, lines, verbose)
	}
	c.Count("spans", workers*per)
	c.Count("lines", lines)
	c.Mark(workers, per, verbose, lines)
	c.Sample("%d spans by %d goroutines, %d lines (verbose %v)", workers*per, workers, lines, verbose)
}
