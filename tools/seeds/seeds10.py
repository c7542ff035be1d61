import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','mkseed.py')).read())

seed('c03-load-merges','C03',[('store.go','''	ms.trace = data.Trace
	ms.span = data.Span
	return int64(len(ms.trace)), nil''','''	for id := range data.Trace {
		ms.trace[id], ms.span[id] = data.Trace[id], data.Span[id]
	}
	return int64(len(data.Trace)), nil''')],
'''Loading into a store that holds traces the file does not have.''',
'''Those traces stay, so the store is not the one that was saved.''',
'','''
package appdash

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	a, b := NewMemoryStore(), NewMemoryStore()
	a.Collect(SpanID{1, 1, 0})
	b.Collect(SpanID{2, 2, 0})
	var buf bytes.Buffer
	if err := a.Write(&buf); err != nil {
		t.Fatal(err)
	}
	if _, err := b.ReadFrom(&buf); err != nil {
		t.Fatal(err)
	}
	ts, _ := b.Traces(TracesOpts{})
	if len(ts) != 1 || ts[0].ID.Trace != 1 {
		t.Fatal(ts)
	}
}
''')

seed('c05-skip-current','C05',[('store.go','''		rs.evictBefore(time.Now().Add(-1 * rs.MinEvictAge))
	}''','''		// The trace being collected is in use.
		ct, present := rs.created[id.Trace]
		delete(rs.created, id.Trace)
		rs.evictBefore(time.Now().Add(-1 * rs.MinEvictAge))
		if present {
			rs.created[id.Trace] = ct
		}
	}''')],
'''A collection into an old trace is the one that triggers the eviction.''',
'''That trace's old data is still there after a collection returned when the trace was more than twice the minimum age old.''',
'','''
package appdash

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	rs := &RecentStore{MinEvictAge: 50 * time.Millisecond, DeleteStore: ms}
	rs.Collect(SpanID{1, 1, 0}, Annotation{"old", nil})
	time.Sleep(150 * time.Millisecond)
	rs.Collect(SpanID{1, 2, 1}, Annotation{"new", nil})
	tr, err := ms.Trace(1)
	if err != nil {
		t.Fatal(err)
	}
	if s := tr.FindSpan(1); s != nil && len(s.Annotations) > 0 {
		t.Fatal("the old data is still there")
	}
}
''')

seed('c09-shared-start','C09',[('collector.go','''	queueSizeBytes  uint64
	pendingBySpanID map[SpanID]Annotations
''','''	queueSizeBytes  uint64
	pendingBySpanID map[SpanID]Annotations

	flushing   int       // flushes under way
	flushStart time.Time // when flushing began
'''),('collector.go','''	start := time.Now()

	cc.mu.Lock()
	pendingBySpanID''','''	cc.mu.Lock()
	if cc.flushing++; cc.flushing == 1 {
		cc.flushStart = time.Now()
	}
	start := cc.flushStart
	pendingBySpanID'''),('collector.go','''	if len(errs) == 1 {
		return errs[0]
	} else''','''	cc.mu.Lock()
	cc.flushing--
	cc.mu.Unlock()

	if len(errs) == 1 {
		return errs[0]
	} else''')],
'''A flush begins while another one is under way.''',
'''The time of the earlier one counts for it, and it drops spans before its own timeout is exceeded.''',
'','''
package appdash

import (
	"testing"
	"time"
)

type zzSlow struct{}

func (c zzSlow) Collect(id SpanID, _ ...Annotation) error {
	if id.Trace == 1 {
		time.Sleep(2 * time.Second)
	} else {
		time.Sleep(time.Millisecond)
	}
	return nil
}

func TestDemo(t *testing.T) {
	cc := &ChunkedCollector{Collector: zzSlow{}, MinInterval: time.Hour, FlushTimeout: time.Second}
	cc.Collect(SpanID{1, 1, 0})
	go cc.Flush()
	time.Sleep(1500 * time.Millisecond)
	for i := 1; i <= 5; i++ {
		cc.Collect(SpanID{2, ID(i), 0})
	}
	if err := cc.Flush(); err != nil {
		t.Fatal(err)
	}
}
''')

seed('c10-debounce','C10',[('collector.go','''	started, stopped bool
	stopChan         chan struct{}
''','''	started, stopped bool
	stopChan         chan struct{}
	lastCollect      time.Time
'''),('collector.go','''	if !cc.started {
		cc.start()
	}
''','''	if !cc.started {
		cc.start()
	}
	cc.lastCollect = time.Now()
'''),('collector.go','''			case <-t:
				if err''','''			case <-t:
				// Wait for a burst of collections to end.
				cc.mu.Lock()
				busy := time.Since(cc.lastCollect) < cc.MinInterval/16
				cc.mu.Unlock()
				if busy {
					time.Sleep(cc.MinInterval / 8)
				}
				if err''')],
'''A collection shortly before the interval ends.''',
'''The flush is late: what was collected right after the previous flush waits longer than one interval.''',
'','''
package appdash

import (
	"testing"
	"time"
)

type zzGot chan time.Time

func (c zzGot) Collect(SpanID, ...Annotation) error {
	c <- time.Now()
	return nil
}

func TestDemo(t *testing.T) {
	g := make(zzGot, 10)
	cc := &ChunkedCollector{Collector: g, MinInterval: 1600 * time.Millisecond}
	start := time.Now()
	cc.Collect(SpanID{1, 1, 0})
	go func() {
		for i := 0; i < 75; i++ {
			time.Sleep(20 * time.Millisecond)
			if time.Since(start) < 1590*time.Millisecond {
				cc.Collect(SpanID{1, 1, 0}, Annotation{"k", nil})
			}
		}
		for time.Since(start) < 1590*time.Millisecond {
			time.Sleep(5 * time.Millisecond)
			cc.Collect(SpanID{1, 1, 0}, Annotation{"k", nil})
		}
	}()
	if d := (<-g).Sub(start); d > 1720*time.Millisecond {
		t.Fatal(d)
	}
}
''')

seed('c11-trace-truncates','C11',[('collector.go','''			for i, ann := range p.Annotation {
				cs.log()''','''			for i, ann := range p.Annotation {
				if len(ann.Value) > 1024 {
					ann.Value = ann.Value[:1024] // keep the log readable
				}
				cs.log()''')],
'''A server that logs all it receives (Trace), and a value of more than 1024 bytes.''',
'''The value is cut for the collector too.''',
'','''
package appdash

import (
	"io/ioutil"
	"log"
	"net"
	"testing"
	"time"
)

type zzVal chan int

func (c zzVal) Collect(_ SpanID, as ...Annotation) error {
	c <- len(as[0].Value)
	return nil
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	c := make(zzVal, 1)
	cs := NewServer(l, c)
	cs.Log = log.New(ioutil.Discard, "", 0)
	cs.Trace = true
	go cs.Start()
	rc := NewRemoteCollector(l.Addr().String())
	defer rc.Close()
	if err := rc.Collect(SpanID{1, 2, 3}, Annotation{"k", make([]byte, 2000)}); err != nil {
		t.Fatal(err)
	}
	select {
	case n := <-c:
		if n != 2000 {
			t.Fatal(n)
		}
	case <-time.After(10 * time.Second):
		t.Fatal("nothing arrives")
	}
}
''')

seed('c19-canonical-set','C19',[('httptrace/client.go','''	for _, v := range RedactedHeaders {
		if strings.EqualFold(name, v) {
			return true
		}
	}
	return false''','''	for _, v := range RedactedHeaders {
		if name == http.CanonicalHeaderKey(v) {
			return true
		}
	}
	return false''')],
'''A header name that has no canonical form (it has a space, or letters that are not ASCII), in another letter case than in the list.''',
'''Its value is recorded.''',
'httptrace','''
package httptrace

import (
	"net/http"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	defer func(v []string) { RedactedHeaders = v }(RedactedHeaders)
	RedactedHeaders = []string{"X Api Key", "Authorization"}
	req, _ := http.NewRequest("GET", "http://example.com/", nil)
	req.Header["x api key"] = []string{"secret"}
	req.Header["authorization"] = []string{"secret"}
	for k, v := range NewClientEvent(req).Request.Headers {
		if strings.Contains(v, "secret") {
			t.Errorf("%s: %s", k, v)
		}
	}
}
''')

seed('c10-flush-spans','C10',[('collector.go','''	if cc.OnFlush != nil {
		cc.OnFlush(len(pendingBySpanID))
	}
''','''	if cc.OnFlush != nil && len(pendingBySpanID) > 0 {
		cc.OnFlush(len(pendingBySpanID))
	}
''')],
'''A flush with nothing to forward.''',
'''The flush callback does not run at its start.''',
'','''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	n := 0
	cc := &ChunkedCollector{Collector: NewMemoryStore(), OnFlush: func(int) { n++ }}
	cc.Flush()
	cc.Flush()
	if n != 2 {
		t.Fatal(n)
	}
}
''')

