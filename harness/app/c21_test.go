package app

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	ot "github.com/opentracing/opentracing-go"
	otlog "github.com/opentracing/opentracing-go/log"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	aot "sourcegraph.com/sourcegraph/appdash/opentracing"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"verif/ad"
	"verif/mon"
)

func init() {
	mon.Reg("C21", "pipeline", 56, 2500, func(c *mon.Case) { pipeline(c, false) })
	mon.Reg("C21", "pipeline-deleting", 56, 2500, func(c *mon.Case) { pipeline(c, true) })
	mon.Reg("C21", "first-use", 200, 6000, firstUse)
}

// anyEvent holds a value of any type.
type anyEvent struct{ V any }

func (anyEvent) Schema() string { return "any" }

var typeN atomic.Int64

// firstUse lets several goroutines be the first to use a new event type, the
// templates of a new web UI, a zero-valued store and so on.
func firstUse(c *mon.Case) {
	r := c.R
	n := 2 + r.Intn(7)
	var fs []reflect.StructField
	k := 1 + r.Intn(12)
	tn := typeN.Add(1)
	for i := 0; i < k; i++ {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d_%d", i, tn), Type: reflect.TypeFor[int]()})
	}
	v := reflect.New(reflect.StructOf(fs)).Elem()
	for i := 0; i < k; i++ {
		v.Field(i).SetInt(int64(r.Intn(1000)))
	}
	val := v.Interface()
	app, ms := memApp()
	collect(c, ms, genTrace(r, 5, 3, false, jsonAnns(r)))
	rec := &appdash.RecentStore{MinEvictAge: time.Hour, DeleteStore: appdash.NewMemoryStore()}
	lim := &appdash.LimitStore{Max: 100, DeleteStore: appdash.NewMemoryStore()}
	cc := &appdash.ChunkedCollector{Collector: appdash.NewLocalCollector(appdash.NewMemoryStore()), MinInterval: time.Millisecond}
	c.Cleanup(cc.Stop)
	tr := &httptrace.Transport{Recorder: appdash.NewRecorder(appdash.NewRootSpanID(), lim), Transport: scripted{}}
	tracer := aot.NewTracer(rec)
	start := make(chan struct{})
	got := make([]string, n)
	kinds := make([]int, n)
	same := r.Intn(8)
	for i := range kinds {
		kinds[i] = same
		if r.Intn(4) == 0 {
			kinds[i] = r.Intn(8)
		}
	}
	seeds := make([]int64, n)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	var order atomic.Int64
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			gr := rand.New(rand.NewSource(seeds[i]))
			<-start
			for j := gr.Intn(4); j > 0; j-- {
				runtime.Gosched()
			}
			switch kinds[i] {
			case 0, 1:
				as, err := appdash.MarshalEvent(anyEvent{val})
				got[i] = fmt.Sprint(ad.AnnString(as), err)
			case 2:
				app.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", []string{"/", "/traces", "/aggregate", "/traces/5"}[gr.Intn(4)], nil))
			case 3:
				rec.Collect(appdash.SpanID{Trace: appdash.ID(i + 1), Span: 1}, ad.Uniq("u", i))
			case 4:
				lim.Collect(appdash.SpanID{Trace: appdash.ID(i + 1), Span: 1}, ad.Uniq("u", i))
			case 5:
				if gr.Intn(4) == 0 {
					cc.Flush()
				} else {
					cc.Collect(appdash.SpanID{Trace: appdash.ID(i + 1), Span: 1}, ad.Uniq("u", i))
				}
			case 6:
				rq, _ := http.NewRequest("GET", "http://x.example/a", nil)
				if rs, err := tr.RoundTrip(rq); err == nil {
					rs.Body.Close()
				}
				tr.CancelRequest(rq)
			case 7:
				tracer.StartSpan("op").Finish()
			}
			c.Mark(kinds[i], order.Add(1), i)
		}()
	}
	close(start)
	wg.Wait()
	want := ""
	for i := range got {
		if kinds[i] > 1 {
			continue
		}
		c.Count("marshallings of new types", 1)
		if want == "" {
			as, err := appdash.MarshalEvent(anyEvent{val})
			want = fmt.Sprint(ad.AnnString(as), err)
		}
		if got[i] != want {
			c.Failf("first use", "marshalled by several goroutines at first use, an event gives %s, later %s", got[i], want)
		}
	}
	c.Count("goroutines", n)
	c.Sample("%d goroutines, kinds %v", n, kinds)
}

type scripted struct{}

func (scripted) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Header: http.Header{"X": {"y"}}, Body: io.NopCloser(strings.NewReader("ok")), ContentLength: 2, Request: r}, nil
}

// touch reads all of a trace.
func touch(t *appdash.Trace, r *rand.Rand) int {
	switch r.Intn(5) {
	case 0:
		return len(t.String())
	case 1:
		return len(t.TreeString())
	case 2:
		n := 0
		for _, s := range flat(t) {
			n += len(s.Name()) + len(s.Annotations.StringMap()) + len(s.Span.String())
			for _, a := range s.Annotations {
				if a.Important() {
					n++
				}
			}
			var es []appdash.Event
			appdash.UnmarshalEvents(s.Annotations, &es)
			s.TimespanEvent()
		}
		return n
	case 3: // the caller owns what it was given
		for _, s := range flat(t) {
			for i := range s.Annotations {
				s.Annotations[i].Key += "x"
			}
			s.Annotations = append(s.Annotations, ad.Uniq("mine", 1))
			s.Sub = append(s.Sub, &appdash.Trace{})
		}
		return 1
	}
	return len(ad.Canon(t))
}

// pipeline runs every component at once.
func pipeline(c *mon.Case, deleting bool) {
	r := c.R
	mem := appdash.NewMemoryStore()
	var store appdash.Store = mem
	var second *appdash.MemoryStore
	layers := ""
	if deleting {
		for n := 1 + r.Intn(2); n > 0; n-- {
			switch r.Intn(3) {
			case 0:
				store = &appdash.RecentStore{MinEvictAge: time.Duration(1+r.Intn(30)) * time.Millisecond, DeleteStore: delStore{store, mem}, Debug: r.Intn(2) == 0}
				layers += "recent "
			case 1:
				store = &appdash.LimitStore{Max: 1 + r.Intn(20), DeleteStore: delStore{store, mem}}
				layers += "limit "
			}
		}
	} else {
		if r.Intn(2) == 0 {
			store = &appdash.RecentStore{MinEvictAge: time.Hour, DeleteStore: delStore{store, mem}}
			layers += "recent "
		}
		if r.Intn(3) == 0 {
			store = &appdash.LimitStore{Max: 1 << 20, DeleteStore: delStore{store, mem}}
			layers += "limit "
		}
	}
	if r.Intn(3) == 0 {
		second = appdash.NewMemoryStore()
		store = appdash.MultiStore(store, second)
		layers += "multi "
	}
	local := appdash.NewLocalCollector(store)
	quiet := log.New(io.Discard, "", 0)

	// Collector server and clients.
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	cs := appdash.NewServer(l, local)
	cs.Log, cs.Debug, cs.Trace = quiet, r.Intn(2) == 0, r.Intn(2) == 0
	if r.Intn(2) == 0 {
		cs.Log = nil // it makes its own when it needs one
	}
	served := make(chan struct{})
	go func() { cs.Start(); close(served) }()
	c.Cleanup(func() { l.Close(); <-served })
	remote := appdash.NewRemoteCollector(l.Addr().String())
	remote.Log, remote.Debug = quiet, r.Intn(2) == 0
	if r.Intn(2) == 0 {
		remote.Log = nil
	}
	c.Cleanup(func() { remote.Close() })
	newChunk := func(col appdash.Collector) *appdash.ChunkedCollector {
		cc := &appdash.ChunkedCollector{Collector: col, MinInterval: time.Duration(1+r.Intn(5)) * time.Millisecond, Log: quiet}
		if deleting {
			cc.FlushTimeout = time.Duration(r.Intn(3)) * time.Millisecond
			cc.MaxQueueSize = uint64(r.Intn(3)) * 2000
		}
		if r.Intn(2) == 0 {
			cc.OnFlush = func(int) {}
		}
		return cc
	}
	ccL, ccR := newChunk(local), newChunk(remote)
	cols := []appdash.Collector{local, remote, ccL, ccR}

	// Web UI.
	app := newApp(store, mem)
	if second != nil {
		app.Queryer = appdash.MultiQueryer(mem, second)
	}
	app.Aggregator = syncAgg{}
	ui := httptest.NewServer(app)
	c.Cleanup(ui.Close)

	// A traced application.
	mw := httptrace.Middleware(cols[r.Intn(4)], &httptrace.MiddlewareConfig{RouteName: func(rq *http.Request) string { return rq.URL.Path }, CurrentUser: func(*http.Request) string { return "u" }})
	tracedApp := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, rq *http.Request) {
		mw(w, rq, func(w http.ResponseWriter, rq *http.Request) {
			_ = httptrace.SpanID(rq)
			w.Header().Set("X-A", "b")
			if strings.HasSuffix(rq.URL.Path, "slow") {
				select {
				case <-rq.Context().Done():
				case <-time.After(3 * time.Millisecond):
				}
			}
			w.WriteHeader(200 + len(rq.URL.Path)%5)
			io.WriteString(w, "hello")
		})
	}))
	tracedApp.Config.ErrorLog = quiet
	tracedApp.Start()
	c.Cleanup(tracedApp.Close)
	base := &http.Transport{MaxIdleConnsPerHost: 8}
	c.Cleanup(base.CloseIdleConnections)
	tp := &httptrace.Transport{Recorder: appdash.NewRecorder(appdash.NewRootSpanID(), cols[r.Intn(4)]), Transport: base, SetName: true}
	client := &http.Client{Transport: tp, Timeout: 100 * time.Second}
	tracer := aot.NewTracerWithOptions(cols[r.Intn(4)], func() aot.Options { o := aot.DefaultOptions(); o.Logger = quiet; return o }())
	shared := appdash.NewRecorder(appdash.NewRootSpanID(), cols[r.Intn(4)])
	file := filepath.Join(c.Scratch(), "s.gob")

	var (
		tokMu  sync.Mutex
		strict = map[string]bool{} // tokens to be found exactly once
		loose  = map[string]bool{} // tokens to be found
		idMu   sync.Mutex
		seen   = map[appdash.ID]bool{}
	)
	traces := distinct(r, 3+r.Intn(10))
	want := func(m map[string]bool, t string) { tokMu.Lock(); m[t] = true; tokMu.Unlock() }
	workers := 5 + r.Intn(8)
	// Every kind of work has at least a chance in every case; some dominate.
	weights := make([]int, 14)
	for i := range weights {
		weights[i] = 1 + r.Intn(4)
	}
	for i := 0; i < 2; i++ {
		weights[r.Intn(len(weights))] += 10
	}
	total := 0
	for _, w := range weights {
		total += w
	}
	seeds := make([]int64, workers)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	ops := 25 + r.Intn(30)
	var wg sync.WaitGroup
	var pattern uint64
	var patMu sync.Mutex
	// Several clients come at once.
	for k := r.Intn(6); k > 0; k-- {
		rc := appdash.NewRemoteCollector(l.Addr().String())
		rc.Debug = remote.Debug
		tok := fmt.Sprintf("tokclient%d.", k)
		span := appdash.SpanID{Trace: traces[0], Span: appdash.ID(1<<40 + k)}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer rc.Close()
			if rc.Collect(span, ad.Ann{Key: "u", Value: []byte(tok)}) == nil {
				want(strict, tok)
			}
		}()
	}
	for wi := 0; wi < workers; wi++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			gr := rand.New(rand.NewSource(seeds[wi]))
			get := func(u string) {
				if gr.Intn(2) == 0 {
					app.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", u, nil))
					return
				}
				if rs, err := http.Get(ui.URL + u); err == nil {
					io.Copy(io.Discard, rs.Body)
					rs.Body.Close()
				} else {
					c.Failf("web UI", "GET %s: %v", u, err)
				}
			}
			for k := 0; k < ops && !c.Failed(); k++ {
				tok := fmt.Sprintf("tok%d.%d.", wi, k)
				tid := traces[gr.Intn(len(traces))]
				span := appdash.SpanID{Trace: tid, Span: appdash.ID(wi*1000 + k + 1), Parent: appdash.ID(gr.Intn(workers*1000) + 1)}
				if gr.Intn(6) == 0 {
					span = appdash.SpanID{Trace: tid, Span: tid} // the shared root
				}
				x := gr.Intn(total)
				op := 0
				for x >= weights[op] {
					x -= weights[op]
					op++
				}
				patMu.Lock()
				pattern = (pattern*31+uint64(wi))*31 + uint64(op)
				patMu.Unlock()
				c.Count(opNames[op], 1)
				switch op {
				case 0: // raw collection
					anns := []ad.Ann{{Key: "u", Value: []byte(tok)}, {Key: "v", Value: []byte("w")}}
					if err := cols[gr.Intn(4)].Collect(span, anns...); err == nil {
						want(strict, tok)
					} else if !deleting {
						c.Failf("collect", "Collect: %v", err)
					}
				case 1: // recorder
					rec := appdash.NewRecorder(span, cols[gr.Intn(4)])
					rec.Name("n" + tok)
					rec.Msg("m")
					rec.Log("l")
					rec.Event(appdash.Timespan{S: time.Now(), E: time.Now()})
					rec.Event(&sqltrace.SQLEvent{SQL: "SELECT", ClientSend: time.Now(), ClientRecv: time.Now()})
					ch := rec.Child()
					rec.Finish()
					ch.Event(anyEvent{map[string]int{"a": k}})
					ch.Finish()
					if len(rec.Errors())+len(ch.Errors()) == 0 {
						want(loose, "n"+tok)
					}
				case 2: // children of a shared recorder
					ch := shared.Child()
					ch.Msg(tok)
					ch.Finish()
					if len(ch.Errors()) == 0 {
						want(loose, tok)
					}
					shared.Errors()
				case 3: // traced HTTP requests
					p := "/" + tok
					ctx := context.Background()
					if deleting && gr.Intn(3) == 0 {
						var cancel context.CancelFunc
						ctx, cancel = context.WithTimeout(ctx, time.Duration(gr.Intn(2000))*time.Microsecond)
						defer cancel()
						p += "slow"
					}
					rq, _ := http.NewRequestWithContext(ctx, "GET", tracedApp.URL+p, nil)
					if gr.Intn(3) == 0 {
						httptrace.SetSpanIDHeader(rq.Header, span)
					}
					var rs *http.Response
					var err error
					switch gr.Intn(3) {
					case 0: // cancelled as a client with a timeout does, in flight where it may fail
						done := make(chan struct{})
						if deleting {
							d := time.Duration(gr.Intn(1000)) * time.Microsecond
							go func() {
								defer close(done)
								time.Sleep(d)
								tp.CancelRequest(rq)
							}()
						} else {
							close(done)
						}
						rs, err = tp.RoundTrip(rq)
						if err != nil || !deleting {
							<-done
							tp.CancelRequest(rq) // over, so without effect
						}
					default:
						rs, err = client.Do(rq)
					}
					if err == nil {
						_, err = io.Copy(io.Discard, rs.Body)
						rs.Body.Close()
					}
					if err == nil {
						want(loose, p)
					} else if !deleting {
						c.Failf("traced request", "%v", err)
					}
				case 4: // opentracing
					sp := tracer.StartSpan("op" + tok)
					sp.SetTag("t", tok)
					sp.LogFields(otlog.String("e", "x"), otlog.Int("n", k))
					sp.SetBaggageItem("b", "c")
					h := http.Header{}
					tracer.Inject(sp.Context(), ot.HTTPHeaders, ot.HTTPHeadersCarrier(h))
					if pc, err := tracer.Extract(ot.HTTPHeaders, ot.HTTPHeadersCarrier(h)); err == nil {
						child := tracer.StartSpan("child", ot.ChildOf(pc))
						child.SetTag("t", "c"+tok)
						child.Finish()
					}
					sp.Finish()
					want(loose, "op"+tok)
				case 5: // read one
					if t, err := store.Trace(tid); err == nil {
						touch(t, gr)
					} else if !errors.Is(err, appdash.ErrTraceNotFound) {
						c.Failf("trace", "Trace: %v", err)
					}
				case 6: // list
					var o appdash.TracesOpts
					if gr.Intn(2) == 0 {
						o.TraceIDs = traces[:gr.Intn(len(traces)+1)]
					}
					ts, err := app.Queryer.Traces(o)
					if err != nil {
						c.Failf("list", "Traces: %v", err)
					}
					for _, t := range ts {
						touch(t, gr)
					}
				case 7: // persist
					var b bytes.Buffer
					if err := mem.Write(&b); err != nil {
						c.Failf("persist", "Write: %v", err)
						return
					}
					ld := appdash.NewMemoryStore()
					if _, err := ld.ReadFrom(bytes.NewReader(b.Bytes())); err != nil {
						c.Failf("persist", "a saved store does not load: %v", err)
						return
					}
					if deleting && gr.Intn(3) == 0 {
						mem.ReadFrom(&b)
					}
				case 8: // pages
					get([]string{"/", "/traces", "/traces?show=" + tid.String(), "/aggregate", "/aggregate?selection=" + tid.String(), "/dashboard", "/dashboard/data?start=2&end=4"}[gr.Intn(7)])
				case 9:
					get("/traces/" + tid.String() + []string{"", "/profile", "/" + span.Span.String(), "/" + tid.String()}[gr.Intn(4)])
				case 10: // uploads
					up := appdash.ID(uint64(wi+1)<<40 | uint64(k+1))
					js := fmt.Sprintf(`{"ID":{"Trace":%q,"Span":"1","Parent":"0"},"Annotations":[{"Key":"up","Value":%s}],"Sub":null}`, up, mustJSON([]byte(tok)))
					if gr.Intn(2) == 0 {
						get(permalinkTo(up, js))
					} else if p := do(app, "POST", "/traces/upload", "["+js+"]"); p.bad() {
						c.Failf("upload", "status %d: %s", p.status, cut(p.body))
					}
					want(strict, tok)
				case 11: // IDs and events
					ids := []appdash.ID{appdash.NewRootSpanID().Trace, appdash.NewSpanID(span).Span}
					idMu.Lock()
					for _, id := range ids {
						if id == 0 || seen[id] {
							c.Failf("ids", "ID %v was generated twice or is zero", id)
						}
						seen[id] = true
					}
					idMu.Unlock()
					if p, err := appdash.ParseSpanID(span.String()); err != nil || *p != span {
						c.Failf("ids", "%v: %v %v", span, p, err)
					}
					as, err := appdash.MarshalEvent(&httptrace.ServerEvent{Route: tok})
					var es []appdash.Event
					if err == nil {
						err = appdash.UnmarshalEvents(as, &es)
					}
					if err != nil || len(es) != 1 {
						c.Failf("events", "%v %v", es, err)
					}
				case 12: // flush
					cc := []*appdash.ChunkedCollector{ccL, ccR}[gr.Intn(2)]
					if err := cc.Flush(); err != nil && !deleting {
						c.Failf("flush", "Flush: %v", err)
					}
					if !deleting {
						break
					}
					switch gr.Intn(8) {
					case 0:
						cc.Stop()
					case 1:
						remote.Close()
					}
				case 13: // delete, or save to a file
					if deleting {
						if err := mem.Delete(traces[gr.Intn(len(traces))], traces[0]); err != nil {
							c.Failf("delete", "Delete: %v", err)
						}
						break
					}
					f, err := os.CreateTemp(filepath.Dir(file), "t")
					if err != nil {
						panic("harness: " + err.Error())
					}
					err = mem.Write(f)
					f.Close()
					if err != nil {
						c.Failf("persist", "Write: %v", err)
					}
					os.Remove(f.Name())
				}
			}
		}()
	}
	wg.Wait()
	c.Mark(layers, workers, pattern)
	c.Sample("%d goroutines, %d operations each, stores: memory %s", workers, ops, layers)
	c.Count("operations", workers*ops)
	if c.Failed() {
		return
	}
	for _, cc := range []*appdash.ChunkedCollector{ccL, ccR} {
		if err := cc.Flush(); err != nil && !deleting {
			c.Failf("flush", "last Flush: %v", err)
		}
		cc.Stop()
	}
	// The state is intact: every page and listing works.
	for _, p := range []string{"/traces", "/aggregate", "/"} {
		if rs := get(app, p); !rs.ok() {
			c.Failf("state", "GET %s is answered with %d after concurrent use: %s", p, rs.status, cut(rs.body))
		}
	}
	var b bytes.Buffer
	if err := mem.Write(&b); err != nil {
		c.Failf("state", "Write: %v", err)
	}
	ld := appdash.NewMemoryStore()
	if _, err := ld.ReadFrom(&b); err != nil {
		c.Failf("state", "ReadFrom: %v", err)
	}
	if deleting {
		return
	}
	// Conservation.
	count := func(s *appdash.MemoryStore) map[string]int {
		m := map[string]int{}
		for _, t := range tracesOf(s) {
			for _, n := range flat(t) {
				for _, a := range n.Annotations {
					m[string(a.Value)]++
				}
			}
		}
		return m
	}
	stores := []*appdash.MemoryStore{mem}
	if second != nil {
		stores = append(stores, second)
	}
	for si, s := range stores {
		var missing string
		ok := c.AwaitOr("conservation", "everything collected is in the store", func() bool {
			m := count(s)
			var all strings.Builder
			for v := range m {
				all.WriteString(v)
				all.WriteByte('\n')
			}
			a := all.String()
			missing = ""
			for t := range strict {
				if m[t] == 0 {
					missing = t
					return false
				}
			}
			for t := range loose {
				if !strings.Contains(a, t) {
					missing = t
					return false
				}
			}
			return true
		})
		if !ok {
			c.Failf("conservation", "store %d: %q is missing", si, missing)
			return
		}
		m := count(s)
		for t := range strict {
			if m[t] != 1 {
				c.Failf("conservation", "store %d: %q was collected once and is there %d times", si, t, m[t])
				return
			}
		}
	}
	c.Count("tokens conserved", len(strict)+len(loose))
}

var opNames = []string{"collections", "recorders", "shared recorder children", "traced requests", "opentracing spans", "traces read", "listings", "saves and loads", "pages", "trace pages", "uploads", "ids and events", "flushes", "deletes or saves"}

// delStore lets store wrappers be stacked.
type delStore struct {
	appdash.Store
	mem *appdash.MemoryStore
}

func (d delStore) Delete(ids ...appdash.ID) error { return d.mem.Delete(ids...) }
