import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','mkseed.py')).read())

seed('c20-span-tags','C20',[('opentracing/recorder.go','''		val := []byte(fmt.Sprintf("%+v", value))
''','''		if strings.HasPrefix(key, "span.") {
			continue // for the tracer, not for the trace
		}
		val := []byte(fmt.Sprintf("%+v", value))
'''),('opentracing/recorder.go','''	"log"
''','''	"log"
	"strings"
''')],
'''A span with a tag whose key begins with "span.", as the conventional span.kind does.''',
'''The tag is not recorded.''',
'opentracing','''
package opentracing

import (
	"testing"

	"github.com/opentracing/opentracing-go/ext"
	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	ms := appdash.NewMemoryStore()
	sp := NewTracer(appdash.NewLocalCollector(ms)).StartSpan("op")
	ext.SpanKindRPCClient.Set(sp)
	sp.Finish()
	ts, err := ms.Traces(appdash.TracesOpts{})
	if err != nil || len(ts) != 1 {
		t.Fatal(ts, err)
	}
	for _, a := range ts[0].Annotations {
		if a.Key == "span.kind" && string(a.Value) == "client" {
			return
		}
	}
	t.Error("no tag")
}
''')

seed('c21-important-cache','C21',[('span.go','''func (a Annotation) Important() bool {
''','''func (a Annotation) Important() bool {
	if v, ok := important[a.Key]; ok {
		return v
	}
	v := a.important()
	important[a.Key] = v
	return v
}

var important = map[string]bool{} // by key

func (a Annotation) important() bool {
''')],
'''Several goroutines (requests of the web UI) asking whether annotations are important at once.''',
'''A map is read and written without synchronisation, which can end the process.''',
'','''
package appdash

import (
	"fmt"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 30000; i++ {
				Annotation{Key: fmt.Sprint("k", i, g%2)}.Important()
			}
		}()
	}
	wg.Wait()
}
''')

seed('c08-spare-map','C08',[('collector.go','''	cc.pendingBySpanID = nil
	cc.queueSizeBytes = 0
	cc.mu.Unlock()
''','''	cc.pendingBySpanID, cc.spare = cc.spare, pendingBySpanID
	cc.queueSizeBytes = 0
	cc.mu.Unlock()
	defer func() {
		for id := range pendingBySpanID {
			delete(pendingBySpanID, id)
		}
	}()
'''),('collector.go','''	pendingBySpanID map[SpanID]Annotations
''','''	pendingBySpanID map[SpanID]Annotations
	spare           map[SpanID]Annotations // emptied, for the next flush
''')],
'''Two flushes that overlap, and a collection between the second one and the end of the first.''',
'''The map being flushed is filled again and then emptied: what was collected is lost.''',
'','''
package appdash

import (
	"sync"
	"testing"
)

type demoSink struct {
	mu    sync.Mutex
	got   map[ID]int
	n     int
	block chan struct{}
	in    chan struct{}
}

func (s *demoSink) Collect(id SpanID, as ...Annotation) error {
	if s.n++; s.n == 1 {
		close(s.in)
		<-s.block
	}
	s.mu.Lock()
	s.got[id.Span] += len(as)
	s.mu.Unlock()
	return nil
}

func TestDemo(t *testing.T) {
	s := &demoSink{got: map[ID]int{}, block: make(chan struct{}), in: make(chan struct{})}
	cc := &ChunkedCollector{Collector: s, MinInterval: 1 << 60, FlushTimeout: 1 << 60, MaxQueueSize: 1 << 40}
	done := make(chan struct{})
	cc.Collect(SpanID{1, 1, 0}, Annotation{Key: "a"})
	go func() { cc.Flush(); close(done) }()
	<-s.in
	cc.Collect(SpanID{1, 2, 0}, Annotation{Key: "b"})
	cc.Flush()
	cc.Collect(SpanID{1, 1, 0}, Annotation{Key: "c"})
	close(s.block)
	<-done
	cc.Flush()
	if s.got[1] != 2 || s.got[2] != 1 {
		t.Errorf("annotations collected by span: %v", s.got)
	}
}
''')

seed('c14-finish-late','C14',[('recorder.go','''	r.finished = true
	r.Annotation(r.annotations...)''','''	r.Annotation(r.annotations...)
	r.finished = true''')],
'''A collector that (through a hook, say) finishes the recorder again while it collects, or a recorder finished again after the collector panicked.''',
'''The data is collected more than once.''',
'','''
package appdash

import "testing"

type demoHook struct {
	f func()
	n int
}

func (h *demoHook) Collect(id SpanID, as ...Annotation) error {
	for _, a := range as {
		if a.Key == "Name" {
			h.n++
		}
	}
	if f := h.f; f != nil {
		h.f = nil
		f()
	}
	return nil
}

func TestDemo(t *testing.T) {
	h := &demoHook{}
	r := NewRecorder(SpanID{1, 2, 3}, h)
	h.f = r.Finish
	r.Name("x")
	r.Finish()
	if h.n != 1 {
		t.Errorf("collected %d times", h.n)
	}
}
''')

seed('c02-cached-copy','C02',[('store.go','''	return ms.traceNoLock(id)
}''','''	size := 0
	for _, s := range ms.span[id] {
		size += 1 + len(s.Annotations)
	}
	if ms.copies == nil {
		ms.copies, ms.sizes = map[ID]*Trace{}, map[ID]int{}
	}
	if size == 0 || ms.sizes[id] != size {
		t, err := ms.traceNoLock(id)
		if err != nil {
			return nil, err
		}
		ms.copies[id], ms.sizes[id] = t, size
	}
	return ms.copies[id].copy(), nil
}'''),('store.go','''	log bool
}''','''	log bool

	copies map[ID]*Trace // copies of the traces that were read last
	sizes  map[ID]int    // and how large they were then
}''')],
'''A trace is read, deleted, and collected again with other data of the same size before it is read again.''',
'''The trace that was deleted is returned.''',
'','''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	id := SpanID{1, 2, 0}
	ms.Collect(id, Annotation{Key: "a"})
	if tr, err := ms.Trace(1); err != nil || tr.Annotations[0].Key != "a" {
		t.Fatal(tr, err)
	}
	ms.Delete(1)
	ms.Collect(id, Annotation{Key: "b"})
	if tr, err := ms.Trace(1); err != nil || tr.Annotations[0].Key != "b" {
		t.Error(tr, err)
	}
}
''')
