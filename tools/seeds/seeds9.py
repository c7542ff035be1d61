import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','mkseed.py')).read())

seed('c04-backup','C04',[('store.go','''		if err := os.Rename(f.Name(), file); err != nil {
			os.Remove(f.Name())
			return err
		}
''','''		// Keep the previous snapshot.
		if err := os.Rename(file, file+".bak"); err != nil && !os.IsNotExist(err) {
			os.Remove(f.Name())
			return err
		}
		if err := os.Rename(f.Name(), file); err != nil {
			os.Remove(f.Name())
			return err
		}
''')],
'''A reader, a restart or a kill between the two renames of a save.''',
'''The file that was there is gone until the second rename.''',
'','''
package appdash

import (
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "f")
	s := &zzEnds{MemoryStore: NewMemoryStore()}
	s.Collect(SpanID{1, 1, 0})
	go PersistEvery(s, 50*time.Microsecond, file)
	for _, err := os.Stat(file); err != nil; _, err = os.Stat(file) {
		time.Sleep(time.Millisecond)
	}
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) {
		if _, err := os.Stat(file); err != nil {
			atomic.StoreInt32(&s.end, 1)
			time.Sleep(100 * time.Millisecond)
			t.Fatal(err)
		}
	}
	atomic.StoreInt32(&s.end, 1)
	time.Sleep(100 * time.Millisecond)
}

type zzEnds struct {
	*MemoryStore
	end int32
}

func (s *zzEnds) Write(w io.Writer) error {
	if atomic.LoadInt32(&s.end) == 1 {
		return io.EOF
	}
	return s.MemoryStore.Write(w)
}
''')

seed('c05-evict-batch','C05',[('store.go','''		if ct < tnano {
			toEvict = append(toEvict, id)
''','''		if len(toEvict) == 500 {
			break // the rest next time, to not block for long
		}
		if ct < tnano {
			toEvict = append(toEvict, id)
''')],
'''More than 500 traces that are due when an eviction runs.''',
'''Some of those that are more than twice the minimum age old are left.''',
'','''
package appdash

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	rs := &RecentStore{MinEvictAge: 50 * time.Millisecond, DeleteStore: ms}
	for i := 1; i <= 1200; i++ {
		rs.Collect(SpanID{ID(i), ID(i), 0})
	}
	time.Sleep(150 * time.Millisecond)
	rs.Collect(SpanID{5000, 1, 0})
	if trs, _ := ms.Traces(TracesOpts{}); len(trs) != 1 {
		t.Fatal(len(trs))
	}
}
''')

seed('c14-empty-finish','C14',[('recorder.go','''	r.finished = true
	r.Annotation(r.annotations...)
''','''	r.finished = true
	if len(r.annotations) == 0 {
		return
	}
	r.Annotation(r.annotations...)
''')],
'''A recorder that is finished without any event recorded.''',
'''Its span is not collected.''',
'','''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	NewRecorder(SpanID{1, 1, 0}, ms).Finish()
	if _, err := ms.Trace(1); err != nil {
		t.Fatal(err)
	}
}
''')

seed('c18-swallow-panic','C18',[('httptrace/server.go','''		rr := &responseInfoRecorder{ResponseWriter: rw}
		next(rr, r)
''','''		rr := &responseInfoRecorder{ResponseWriter: rw}
		func() {
			defer func() {
				if v := recover(); v != nil {
					// Record it as failed.
					log.Printf("Error: panic serving %s: %v", r.URL, v)
					if rr.statusCode == 0 {
						http.Error(rr, "internal error", http.StatusInternalServerError)
					}
				}
			}()
			next(rr, r)
		}()
''')],
'''A handler that panics, for example to abort a response it has begun (http.ErrAbortHandler).''',
'''The client gets what was written as if it were the complete response.''',
'httptrace','''
package httptrace

import (
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	mw := Middleware(appdash.NewMemoryStore(), &MiddlewareConfig{})
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mw(w, r, func(w http.ResponseWriter, r *http.Request) {
			w.Write([]byte("half"))
			w.(http.Flusher).Flush()
			panic(http.ErrAbortHandler)
		})
	}))
	defer s.Close()
	resp, err := http.Get(s.URL)
	if err != nil {
		t.Fatal(err)
	}
	if b, err := ioutil.ReadAll(resp.Body); err == nil {
		t.Fatalf("complete: %q", b)
	}
}
''')

seed('c13-drain','C13',[('collector.go','''			if err == io.EOF {
				return nil
			}
			return fmt.Errorf("ReadMsg: %s", err)
''','''			if err == io.EOF {
				return nil
			}
			if cs.Debug {
				cs.log().Printf("Client %s: %s, skipping", conn.RemoteAddr(), err)
			}
			if !cs.skip(conn) {
				return fmt.Errorf("ReadMsg: %s", err)
			}
'''),('collector.go','''func (cs *CollectorServer) log() *log.Logger {''','''// skip skips what the client has sent up to now.
func (cs *CollectorServer) skip(conn net.Conn) bool {
	conn.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
	defer conn.SetReadDeadline(time.Time{})
	_, err := io.Copy(ioutil.Discard, conn)
	t, ok := err.(net.Error)
	return ok && t.Timeout()
}

func (cs *CollectorServer) log() *log.Logger {'''),('collector.go','''	"io"
	"log"
	"net"
''','''	"io"
	"io/ioutil"
	"log"
	"net"
''')],
'''A client that sends something invalid, pauses, and continues in the middle of a message or with bytes that happen to
form one.''',
'''The server resynchronizes at an arbitrary place, and passes on a span the client did not send as such.''',
'','''
package appdash

import (
	"net"
	"testing"
	"time"

	"github.com/gogo/protobuf/proto"
)

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	ms := NewMemoryStore()
	go NewServer(l, ms).Start()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	c.Write([]byte{3, 0xff, 0xff, 0xff})
	time.Sleep(500 * time.Millisecond)
	m, _ := proto.Marshal(newCollectPacket(SpanID{1, 2, 0}, nil))
	c.Write(append([]byte{byte(len(m))}, m...))
	time.Sleep(500 * time.Millisecond)
	if _, err := ms.Trace(1); err == nil {
		t.Fatal("collected")
	}
}
''')

seed('c24-profile-siblings','C24',[('traceapp/prof.go','''		// Aggregate our direct children's time.
		p.TimeChildren += childProf.Time
''','''		// Aggregate our direct children's time.
		if childProf.TimeCum > 0 {
			p.TimeChildren += buf[len(buf)-1-descendants(child)].Time
		}
'''),('traceapp/prof.go','''// profile generates and encodes''','''// descendants counts the spans below t (which the profile lists after it).
func descendants(t *appdash.Trace) (n int) {
	for _, c := range t.Sub {
		n += 1 + len(c.Sub)
	}
	return n
}

// profile generates and encodes''')],
'''A trace of at least four levels.''',
'''The sum of a span's own and its children's times takes in the time of a wrong span.''',
'traceapp','''
package traceapp

import (
	"net/url"
	"testing"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

func TestDemo(t *testing.T) {
	u, _ := url.Parse("http://localhost/")
	app, err := New(nil, u)
	if err != nil {
		t.Fatal(err)
	}
	s := time.Unix(1500000000, 0)
	var tr *appdash.Trace
	for i := 5; i >= 1; i-- {
		as, _ := appdash.MarshalEvent(appdash.Timespan{S: s, E: s.Add(time.Duration(i*i) * time.Second)})
		n := &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{1, appdash.ID(i), appdash.ID(i - 1)}, Annotations: as}}
		if tr != nil {
			n.Sub = append(n.Sub, tr)
		}
		tr = n
	}
	p, _, err := app.calcProfile(nil, tr)
	if err != nil || p[0].TimeChildren != 5000 {
		t.Fatal(p[0], err)
	}
}
''')

seed('c07-first-complete','C07',[('multi.go','''		trace, err := s.Trace(t)
		if err == ErrTraceNotFound {
			continue
''','''		trace, err := s.Trace(t)
		if err == ErrTraceNotFound || (err == nil && !trace.ID.IsRoot() && s != ms.stores[len(ms.stores)-1]) {
			// Another store may have all of it.
			continue
''')],
'''A trace whose root span has not been collected (yet), in a combined store.''',
'''A trace that the first store has and the last does not is not found.''',
'','''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	a, b := NewMemoryStore(), NewMemoryStore()
	a.Collect(SpanID{1, 2, 3})
	if _, err := MultiStore(a, b).Trace(1); err != nil {
		t.Fatal(err)
	}
}
''')
