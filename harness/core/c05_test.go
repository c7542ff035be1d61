package core

import (
	"fmt"
	"io"
	"log"
	"math/rand"
	"sync"
	"testing/synctest"
	"time"

	"verif/ad"
	"verif/mon"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() {
	log.SetOutput(io.Discard)
	mon.RegV("C05", "ages", 3200, 80000, recentSeq)
	mon.RegV("C05", "concurrent-virtual", 400, 8000, func(c *mon.Case) { recentConc(c, true) })
	mon.RegV("C05", "burst", 64, 2000, recentBurst)
	mon.Reg("C05", "concurrent-real", 48, 800, func(c *mon.Case) { recentConc(c, false) })
}

// evStore is an underlying store that keeps what it holds together with the
// times at which it was collected, and judges deletions.
type evStore struct {
	c   *mon.Case
	min time.Duration
	mu  sync.Mutex
	seq int // orders events
	// per trace: the calls whose data it holds
	held    map[appdash.ID][]*collCall
	lat     func() time.Duration
	err     func() error
	deletes int
	evicted int
	boring  bool
}

// collCall is one Collect call on the store under test.
type collCall struct {
	n                int
	id               appdash.SpanID
	start, ret       time.Time
	startSeq         int
	stored, returned bool
	failed           bool
	deletedBy        int // sequence number at which the deletion that removed it began
	cur              bool
}

func (s *evStore) Trace(id appdash.ID) (*appdash.Trace, error) { return nil, appdash.ErrTraceNotFound }

func (s *evStore) Collect(id appdash.SpanID, as ...ad.Ann) error {
	if d := s.lat(); d > 0 {
		time.Sleep(d)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seq++
	if len(as) != 1 {
		s.c.Failf("annotations-changed", "Collect(%v) forwarded %d annotations, want 1", id, len(as))
		return nil
	}
	var n int
	fmt.Sscan(string(as[0].Value), &n)
	cc := calls(s.c)[n]
	if cc == nil || cc.id != id || cc.stored {
		s.c.Failf("forwarded-wrong", "annotation %s arrived under %v", as[0].Value, id)
		return nil
	}
	if err := s.err(); err != nil {
		// The failed attempt may count as the trace's first collection.
		cc.failed = true
		s.held[id.Trace] = append(s.held[id.Trace], cc)
		return err
	}
	cc.stored = true
	s.held[id.Trace] = append(s.held[id.Trace], cc)
	return nil
}

func (s *evStore) Delete(ids ...appdash.ID) error {
	s.mu.Lock()
	s.seq++
	began := s.seq
	t := time.Now()
	s.deletes++
	for _, id := range ids {
		// A trace may only go when its first collection was long enough ago.
		if h := s.held[id]; len(h) > 0 && t.Sub(h[0].start) <= s.min {
			s.c.Failf("evicted-young", "trace %v was deleted %v after it was first collected, the minimum age is %v", id, t.Sub(h[0].start), s.min)
		}
	}
	s.mu.Unlock()
	if d := s.lat(); d > 0 {
		time.Sleep(d)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seq++
	for _, id := range ids {
		for _, cc := range s.held[id] {
			if cc.failed {
				continue
			}
			if cc.startSeq > began {
				s.c.Failf("evicted-new-data", "a deletion of trace %v that had begun before collection #%d removed what it collected", id, cc.n)
			}
			if cc.cur {
				s.c.Failf("evicted-own-data", "collection #%d of trace %v lost its data to the eviction it triggered", cc.n, id)
			}
			cc.deletedBy = began
			s.evicted++
		}
		delete(s.held, id)
	}
	return nil
}

var (
	callsMu  sync.Mutex
	allCalls = map[*mon.Case]map[int]*collCall{}
)

func calls(c *mon.Case) map[int]*collCall {
	callsMu.Lock()
	defer callsMu.Unlock()
	return allCalls[c]
}

func newEv(c *mon.Case, min time.Duration) *evStore {
	callsMu.Lock()
	allCalls[c] = map[int]*collCall{}
	callsMu.Unlock()
	c.Cleanup(func() { callsMu.Lock(); delete(allCalls, c); callsMu.Unlock() })
	return &evStore{c: c, min: min, held: map[appdash.ID][]*collCall{}, lat: func() time.Duration { return 0 }, err: func() error { return nil }}
}

func (s *evStore) begin(n int, id appdash.SpanID) *collCall {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seq++
	cc := &collCall{n: n, id: id, start: time.Now(), startSeq: s.seq}
	m := calls(s.c)
	callsMu.Lock()
	m[n] = cc
	callsMu.Unlock()
	return cc
}

func (s *evStore) end(cc *collCall, err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seq++
	cc.ret, cc.returned, cc.failed = time.Now(), true, err != nil
	if err == nil && !cc.stored {
		s.c.Failf("not-collected", "collection #%d returned nil but nothing reached the underlying store", cc.n)
	}
}

// old reports traces that are still held although, at a collection that began
// at t, they were more than twice the minimum age old.
func (s *evStore) old(t time.Time) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	for id, h := range s.held {
		for len(h) > 0 && h[0].failed {
			h = h[1:]
		}
		if len(h) > 0 && h[0].returned && t.Sub(h[0].ret) > 2*s.min {
			return fmt.Sprintf("trace %v, collected %v before, minimum age %v", id, t.Sub(h[0].ret), s.min)
		}
	}
	return ""
}

func recentSeq(c *mon.Case) {
	r := c.R
	min := time.Duration(1+r.Int63n(1000)) * []time.Duration{time.Nanosecond, time.Microsecond, time.Millisecond, time.Second, time.Minute}[r.Intn(5)]
	if r.Intn(20) == 0 {
		min = 0
	}
	s := newEv(c, min)
	slow := r.Intn(3) == 0
	if slow {
		s.lat = func() time.Duration {
			if r.Intn(3) == 0 {
				return time.Duration(r.Int63n(int64(3*min) + 1))
			}
			return 0
		}
	}
	boom := ad.Fault(r.Int(), "injected")
	failing := r.Intn(5) == 0
	nextErr := error(nil)
	s.err = func() error { return nextErr }
	rs := &appdash.RecentStore{MinEvictAge: min, DeleteStore: s, Debug: r.Intn(2) == 0}
	trs := ad.IDs(r, 1+r.Intn(5))
	if r.Intn(4) == 0 {
		trs[0] = 0
	}
	var sig []string
	if r.Intn(2) == 0 {
		time.Sleep(time.Duration(r.Int63n(int64(4*min) + 1)))
	}
	for n := 1; n <= 4+r.Intn(20); n++ {
		var d time.Duration
		switch r.Intn(8) {
		case 0:
		case 1:
			d = min
		case 2:
			d = min + 1
		case 3:
			d = 2*min + 1
		case 4:
			d = max(0, min-1)
		case 5:
			d = min / 2
		default:
			d = time.Duration(r.Int63n(int64(3*min) + 1))
		}
		time.Sleep(d)
		synctest.Wait()
		id := appdash.SpanID{Trace: trs[r.Intn(len(trs))], Span: appdash.ID(1 + r.Intn(3)), Parent: appdash.ID(r.Intn(2))}
		nextErr = nil
		if failing && r.Intn(5) == 0 {
			nextErr = boom
		}
		wantErr := nextErr
		cc := s.begin(n, id)
		cc.cur = true
		c.Note("+%v collect #%d %v", d, n, id)
		err := rs.Collect(id, ad.Ann{Key: "n", Value: []byte(fmt.Sprint(n))})
		s.end(cc, err)
		if err != wantErr {
			c.Failf("error-lost", "Collect returned %v, the underlying store %v", err, wantErr)
		}
		synctest.Wait()
		if slow { // let a deletion that is under way end
			time.Sleep(3*min + 1)
			synctest.Wait()
		}
		if err == nil {
			s.mu.Lock()
			if cc.deletedBy != 0 {
				c.Failf("evicted-own-data", "collection #%d of trace %v lost its data at once", n, id.Trace)
			}
			s.mu.Unlock()
		}
		cc.cur = false
		if o := s.old(cc.start); o != "" {
			c.Failf("not-evicted", "after collection #%d the store still holds %s", n, o)
		}
		sig = append(sig, fmt.Sprint(id.Trace, d))
		if c.Failed() {
			break
		}
	}
	c.Count("collections", len(sig))
	c.Count("deletions", s.deletes)
	c.Count("collected items evicted", s.evicted)
	if s.deletes > 0 {
		c.Mark(min, sig)
	}
	c.Sample("minimum age %v, %d collections, %d deletions", min, len(sig), s.deletes)
}

func recentConc(c *mon.Case, virtual bool) {
	r := c.R
	min := time.Duration(1+r.Intn(3000)) * time.Microsecond
	s := newEv(c, min)
	var latMu sync.Mutex
	lr := rand.New(rand.NewSource(r.Int63()))
	if !virtual {
		s.lat = func() time.Duration {
			latMu.Lock()
			defer latMu.Unlock()
			if lr.Intn(6) == 0 {
				return time.Duration(lr.Int63n(int64(3 * min)))
			}
			return 0
		}
	}
	rs := &appdash.RecentStore{MinEvictAge: min, DeleteStore: s}
	trs := ad.IDs(r, 1+r.Intn(6))
	g, per := 2+r.Intn(4), 12
	var wg sync.WaitGroup
	for w := 0; w < g; w++ {
		wr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < per; k++ {
				time.Sleep(time.Duration(wr.Int63n(int64(min)+1)) * time.Duration(wr.Intn(3)))
				n := 1 + w*per + k
				id := appdash.SpanID{Trace: trs[wr.Intn(len(trs))], Span: appdash.ID(1 + wr.Intn(3))}
				cc := s.begin(n, id)
				err := rs.Collect(id, ad.Ann{Key: "n", Value: []byte(fmt.Sprint(n))})
				s.end(cc, err)
				if err != nil {
					c.Failf("error", "Collect: %v", err)
				}
			}
		}()
	}
	wg.Wait()
	if !virtual {
		time.Sleep(4 * min) // deletions under way
	}
	time.Sleep(2*min + time.Millisecond)
	probe := s.begin(100000, appdash.SpanID{Trace: 424242, Span: 1})
	err := rs.Collect(probe.id, ad.Ann{Key: "n", Value: []byte("100000")})
	s.end(probe, err)
	gone := func() bool { return s.old(probe.start) == "" }
	if virtual {
		synctest.Wait()
		if !gone() {
			c.Failf("not-evicted", "when all is quiet, after one more collection the store still holds %s", s.old(probe.start))
		}
	} else {
		c.AwaitOr("not-evicted", "eviction of "+s.old(probe.start), gone)
	}
	s.mu.Lock()
	if len(s.held[424242]) != 1 {
		c.Failf("evicted-own-data", "the last collection's data is not in the store")
	}
	c.Count("collections", g*per+1)
	c.Count("deletions", s.deletes)
	c.Count("collected items evicted", s.evicted)
	if s.deletes > 0 {
		c.Mark(min, g, trs, s.deletes, s.evicted, s.seq)
	}
	c.Sample("minimum age %v, %d goroutines, %d deletions", min, g, s.deletes)
	s.mu.Unlock()
}

// recentBurst collects many traces at about the same time, several times.
func recentBurst(c *mon.Case) {
	r := c.R
	min := time.Duration(1+r.Int63n(1000)) * []time.Duration{time.Microsecond, time.Millisecond, time.Second, time.Minute}[r.Intn(4)]
	s := newEv(c, min)
	rs := &appdash.RecentStore{MinEvictAge: min, DeleteStore: s}
	n, total := 0, 0
	var sizes []int
	collect := func(id appdash.SpanID) *collCall {
		n++
		cc := s.begin(n, id)
		err := rs.Collect(id, ad.Ann{Key: "n", Value: []byte(fmt.Sprint(n))})
		s.end(cc, err)
		if err != nil {
			c.Failf("error", "Collect: %v", err)
		}
		return cc
	}
	for round := 0; round < 1+r.Intn(4) && !c.Failed(); round++ {
		k := []int{1, 10, 99, 100, 101, 128, 255, 256, 257, 500, 1000, 1024, 2000, 5000}[r.Intn(14)]
		k += r.Intn(10)
		sizes = append(sizes, k)
		total += k
		for _, t := range ad.IDs(r, k) {
			collect(appdash.SpanID{Trace: t, Span: 1})
			if r.Intn(k) < 3 {
				time.Sleep(time.Duration(r.Int63n(int64(min)/4 + 1)))
				synctest.Wait()
			}
		}
		synctest.Wait()
		// No eviction can begin sooner than a minimum age after the last one; a
		// collection after twice the minimum age must find everything too old.
		time.Sleep(2*min + time.Duration(1+r.Int63n(int64(min))))
		synctest.Wait()
		cc := collect(appdash.SpanID{Trace: ad.NZ(r), Span: 2})
		synctest.Wait()
		if o := s.old(cc.start); o != "" {
			left := 0
			s.mu.Lock()
			left = len(s.held)
			s.mu.Unlock()
			c.Failf("not-evicted", "after bursts of %v traces and %v of quiet, a collection leaves %d traces, among them %s", sizes, 2*min, left, o)
		}
	}
	c.Count("collections", n)
	c.Count("deletions", s.deletes)
	c.Count("collected items evicted", s.evicted)
	c.Mark(min, sizes, n)
	c.Sample("minimum age %v, bursts of %v traces", min, sizes)
}
