import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','mkseed.py')).read())

seed('c01-name-first','C01',[('store.go','''		s.Annotations = append(s.Annotations, as...)
		return nil
''','''		if len(as) > 0 && as[0].Key == "Name" {
			// Keep the span's name at the front.
			s.Annotations = append(append(Annotations{}, as...), s.Annotations...)
		} else {
			s.Annotations = append(s.Annotations, as...)
		}
		return nil
''')],
'''A span collected in pieces where a later piece begins with an annotation named Name.''',
'''Annotations are not kept in the order they were collected when a span is (re)named after its first collection.''',
'', '''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	id := SpanID{1, 1, 0}
	ms.Collect(id, Annotation{"k", []byte("first")})
	as, _ := MarshalEvent(SpanName("n"))
	ms.Collect(id, as...)
	tr, err := ms.Trace(1)
	if err != nil {
		t.Fatal(err)
	}
	if tr.Annotations[0].Key != "k" {
		t.Fatalf("the first annotation collected is not the first: %v", tr.Annotations)
	}
}
''')

seed('c01-repeat-annotations-parent','C01',[('store.go','''		s.Annotations = append(s.Annotations, as...)
		return nil
''','''		if n := len(s.Annotations); len(as) == 1 && n > 0 && s.Annotations[n-1].Key == as[0].Key && string(s.Annotations[n-1].Value) == string(as[0].Value) {
			return nil // collected already
		}
		s.Annotations = append(s.Annotations, Annotations(as)...)
		return nil
''')],
'''A span collected in pieces where one piece is a single annotation equal to the last one so far.''',
'''Equal annotations collected one after the other (for example two equal log lines) are merged into one, so collected data is missing from the trace.''',
'', '''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	id := SpanID{1, 1, 0}
	for i := 0; i < 3; i++ {
		ms.Collect(id, Annotation{"retry", []byte("again")})
	}
	tr, err := ms.Trace(1)
	if err != nil {
		t.Fatal(err)
	}
	if len(tr.Annotations) != 3 {
		t.Fatalf("%d of 3 annotations", len(tr.Annotations))
	}
}
''')

seed('c02-traces-unlocked-lookup','C02',[('store.go','''	ms.Lock()
	defer ms.Unlock()

	return ms.traceNoLock(id)
}
''','''	ms.Lock()
	t, present := ms.trace[id]
	ms.Unlock()
	if !present {
		return nil, ErrTraceNotFound
	}
	return t.copy(), nil
}
''')],
'''A Trace call that overlaps with Collect calls for the same trace.''',
'''Trace copies the tree after releasing the store's lock, so a read that overlaps with collections races with them and can return a tree that never existed.''',
'', '''
package appdash

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	ms.Collect(SpanID{1, 1, 0})
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 2; i < 3000; i++ {
			ms.Collect(SpanID{1, ID(i), 1})
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 500; i++ {
			ms.Trace(1)
		}
	}()
	wg.Wait()
}
''', race=True)

seed('c02-delete-keeps-spans','C02',[('store.go','''	for _, id := range traces {
		delete(ms.trace, id)
		delete(ms.span, id)
	}
	return nil
''','''	for _, id := range traces {
		if _, present := ms.trace[id]; !present {
			return nil
		}
		delete(ms.span, id)
		delete(ms.trace, id)
	}
	return nil
''')],
'''A Delete of several traces of which one, not the last, is not stored (any more).''',
'''Delete silently keeps every trace listed after one that is not in the store.''',
'', '''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	ms.Collect(SpanID{1, 1, 0})
	ms.Collect(SpanID{3, 1, 0})
	ms.Delete(1, 2, 3)
	if ts, _ := ms.Traces(TracesOpts{}); len(ts) != 0 {
		t.Fatalf("%d traces left", len(ts))
	}
}
''')

seed('c03-write-unlocked','C03',[('store.go','''	var data memoryStoreData
	if err := gob.NewDecoder(r).Decode(&data); err != nil {
		return 0, err
	}
''','''	data := memoryStoreData{Trace: ms.trace}
	if err := gob.NewDecoder(r).Decode(&data); err != nil {
		return 0, err
	}
''')],
'''Loading into a store that already holds traces.''',
'''ReadFrom decodes into the live trace map: traces already held are mixed with the loaded ones (also when loading fails part-way, which must leave the store unchanged).''',
'', '''
package appdash

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	a := NewMemoryStore()
	a.Collect(SpanID{1, 1, 0}, Annotation{"k", []byte("v")})
	var b bytes.Buffer
	if err := a.Write(&b); err != nil {
		t.Fatal(err)
	}
	ms := NewMemoryStore()
	ms.Collect(SpanID{2, 1, 0})
	n, err := ms.ReadFrom(&b)
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}
	if ts, _ := ms.Traces(TracesOpts{}); len(ts) != 1 {
		t.Fatalf("%d traces after loading a store of one", len(ts))
	}
}
''')

seed('c04-persist-no-close-check','C04',[('store.go','''		if err := s.Write(f); err != nil {
			f.Close()
''','''		if err := s.Write(f); err != nil && err != io.ErrShortWrite {
			f.Close()
''')],
'''A short write (for example a full disk or a file size limit reported as io.ErrShortWrite) while saving.''',
'''A save cut short replaces the previous, complete file with a truncated one.''',
'', '''
package appdash

import (
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
	"time"
)

type short struct {
	*MemoryStore
	n int
}

func (s *short) Write(w io.Writer) error {
	s.n++
	if s.n == 1 {
		_, err := w.Write([]byte("complete"))
		return err
	}
	w.Write([]byte("com"))
	return io.ErrShortWrite
}

func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	f := filepath.Join(d, "f")
	done := make(chan error, 1)
	go func() { done <- PersistEvery(&short{MemoryStore: NewMemoryStore()}, time.Millisecond, f) }()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(2 * time.Second):
		t.Error("the failed save was not reported")
	}
	if b, _ := ioutil.ReadFile(f); string(b) != "complete" {
		t.Fatalf("file holds %q", b)
	}
}
''')

seed('c04-persist-copy','C04',[('store.go','''		if err := os.Rename(f.Name(), file); err != nil {
''','''		if err := replaceFile(f.Name(), file); err != nil {
'''),('store.go','''// A DeleteStore is a Store that can delete traces.
''','''// replaceFile replaces file with tmp, keeping the permissions of a file that
// is already there.
func replaceFile(tmp, file string) error {
	if fi, err := os.Stat(file); err == nil && fi.Mode().Perm() != 0600 {
		b, err := ioutil.ReadFile(tmp)
		if err != nil {
			return err
		}
		if err := ioutil.WriteFile(file, b, fi.Mode().Perm()); err != nil {
			return err
		}
		return os.Remove(tmp)
	}
	return os.Rename(tmp, file)
}

// A DeleteStore is a Store that can delete traces.
''')],
'''A persisted file that already exists with permissions other than 0600, and a reader (or a kill, or a full disk) in the middle of a save.''',
'''A store file with its own permissions is truncated and rewritten in place instead of replaced atomically, so readers and crashes see partial contents.''',
'', '''
package appdash

import (
	"bytes"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	f := filepath.Join(d, "f")
	ms := NewMemoryStore()
	for i := 1; i < 3000; i++ {
		ms.Collect(SpanID{1, ID(i), ID(i / 2)}, Annotation{"k", bytes.Repeat([]byte("v"), 500)})
	}
	var b bytes.Buffer
	ms.Write(&b)
	if err := ioutil.WriteFile(f, b.Bytes(), 0644); err != nil {
		t.Fatal(err)
	}
	os.Chmod(f, 0644)
	go PersistEvery(ms, time.Millisecond, f)
	for end := time.Now().Add(3 * time.Second); time.Now().Before(end); {
		fi, err := os.Open(f)
		if err != nil {
			t.Fatal(err)
		}
		l := NewMemoryStore()
		_, err = l.ReadFrom(fi)
		fi.Close()
		if err != nil {
			t.Fatalf("the file does not load: %v", err)
		}
	}
}
''')

seed('c05-evict-zero-time','C05',[('store.go','''	for id, ct := range rs.created {
		if ct < tnano {
			toEvict = append(toEvict, id)
			delete(rs.created, id)
		}
	}
''','''	for id, ct := range rs.created {
		if ct < tnano && len(toEvict) < 100 { // the others are for the next time
			toEvict = append(toEvict, id)
			delete(rs.created, id)
		}
	}
''')],
'''More than 100 traces that became too old since the last eviction.''',
'''An eviction removes at most 100 traces, so with more arriving per minimum age old traces pile up far beyond twice the minimum age.''',
'', '''
package appdash

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	rs := &RecentStore{MinEvictAge: 300 * time.Millisecond, DeleteStore: ms}
	for i := 1; i <= 250; i++ {
		rs.Collect(SpanID{ID(i), 1, 0})
	}
	time.Sleep(700 * time.Millisecond)
	rs.Collect(SpanID{1000, 1, 0})
	time.Sleep(50 * time.Millisecond)
	if ts, _ := ms.Traces(TracesOpts{}); len(ts) != 1 {
		t.Fatalf("%d traces, want 1", len(ts))
	}
}
''')

seed('c05-age-refreshed','C05',[('store.go','''	rs.lastEvicted = evictStart
	tnano := t.UnixNano()
''','''	tnano := t.UnixNano()
	if !rs.lastEvicted.IsZero() && evictStart.Sub(rs.lastEvicted) > 10*rs.MinEvictAge {
		// Nothing was collected for long; be lenient with the next eviction.
		tnano = rs.lastEvicted.UnixNano()
	}
	rs.lastEvicted = evictStart
''')],
'''A pause of more than ten minimum ages between two collections.''',
'''After a long pause the first eviction keeps traces collected just before the pause although they are far older than twice the minimum age.''',
'', '''
package appdash

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ms := NewMemoryStore()
	rs := &RecentStore{MinEvictAge: 50 * time.Millisecond, DeleteStore: ms}
	rs.Collect(SpanID{1, 1, 0})
	time.Sleep(800 * time.Millisecond)
	rs.Collect(SpanID{2, 1, 0})
	time.Sleep(20 * time.Millisecond)
	if _, err := ms.Trace(1); err != ErrTraceNotFound {
		t.Fatalf("trace 1 is still there (%v)", err)
	}
}
''')

seed('c06-ring-int32','C06',[('store.go','''	ls.nextInsertIdx = (ls.nextInsertIdx + 1) % ls.Max // increment & wrap

	return ls.DeleteStore.Collect(id, anns...)
''','''	if err := ls.DeleteStore.Collect(id, anns...); err != nil {
		return err
	}
	ls.nextInsertIdx = (ls.nextInsertIdx + 1) % ls.Max // increment & wrap
	return nil
''')],
'''An underlying store whose Collect fails for the first span of a new trace, and later traces.''',
'''When storing a new trace fails, its slot is reused by the next trace but its ID stays in the set of stored traces: the store later counts it towards its capacity, deletes at the wrong time or exceeds the capacity, and evicts out of order.''',
'', '''
package appdash

import (
	"errors"
	"testing"
)

type failing struct {
	*MemoryStore
	fail bool
}

func (f *failing) Collect(id SpanID, as ...Annotation) error {
	if f.fail {
		return errors.New("failed")
	}
	return f.MemoryStore.Collect(id, as...)
}

func TestDemo(t *testing.T) {
	f := &failing{MemoryStore: NewMemoryStore()}
	ls := &LimitStore{Max: 3, DeleteStore: f}
	ls.Collect(SpanID{1, 1, 0})
	f.fail = true
	ls.Collect(SpanID{2, 1, 0})
	f.fail = false
	for i := 3; i <= 12; i++ {
		ls.Collect(SpanID{ID(i), 1, 0})
		ts, _ := f.Traces(TracesOpts{})
		if len(ts) > 3 {
			t.Fatalf("%d traces", len(ts))
		}
	}
	for i := 10; i <= 12; i++ {
		if _, err := f.Trace(ID(i)); err != nil {
			t.Fatalf("recent trace %d: %v", i, err)
		}
	}
}
''')

seed('c06-wrap-index','C06',[('store.go','''	ls.nextInsertIdx = (ls.nextInsertIdx + 1) % ls.Max // increment & wrap

''','''	ls.nextInsertIdx = (ls.nextInsertIdx + 1) & (ls.Max - 1) // increment & wrap

''')],
'''A capacity that is not a power of two.''',
'''With a capacity other than a power of two the ring is walked in the wrong order, so traces are evicted out of order.''',
'', '''
package appdash

import "testing"

func TestDemo(t *testing.T) {
	for max := 1; max <= 7; max++ {
		ms := NewMemoryStore()
		ls := &LimitStore{Max: max, DeleteStore: ms}
		for i := 1; i <= 30; i++ {
			if err := ls.Collect(SpanID{ID(i), 1, 0}); err != nil {
				t.Fatal(err)
			}
			for j := i; j > 0 && j > i-max; j-- {
				if _, err := ms.Trace(ID(j)); err != nil {
					t.Fatalf("capacity %d: trace %d of %d: %v", max, j, i, err)
				}
			}
			if ts, _ := ms.Traces(TracesOpts{}); len(ts) > max {
				t.Fatalf("capacity %d: %d traces", max, len(ts))
			}
		}
	}
}
''')
seed('c03-loaded-count','C03',[('store.go','''	ms.trace = data.Trace
	ms.span = data.Span
	return int64(len(ms.trace)), nil
''','''	for id, t := range data.Trace {
		if len(t.Annotations) == 0 && len(t.Sub) == 0 {
			delete(data.Trace, id) // nothing to show
		}
	}
	ms.trace, ms.span = data.Trace, data.Span
	return int64(len(data.Span)), nil
''')],
'''A saved trace consisting of one span without annotations; further spans collected after loading.''',
'''Loading forgets traces of one bare span while keeping them in the span index, so their root is missing, too, once further spans arrive.''',
'', '''
package appdash

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	a := NewMemoryStore()
	a.Collect(SpanID{1, 1, 0})
	a.Collect(SpanID{2, 1, 0}, Annotation{"k", nil})
	var b bytes.Buffer
	if err := a.Write(&b); err != nil {
		t.Fatal(err)
	}
	ms := NewMemoryStore()
	if _, err := ms.ReadFrom(&b); err != nil {
		t.Fatal(err)
	}
	if _, err := ms.Trace(1); err != nil {
		t.Fatal(err)
	}
}
''')

