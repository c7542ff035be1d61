package core

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"

	"verif/ad"
	"verif/mon"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() {
	mon.Reg("C06", "fifo", 2400, 60000, limitSeq)
	mon.Reg("C06", "failing-collect", 800, 20000, limitFlaky)
	mon.Reg("C06", "concurrent", 320, 6000, limitConc)
}

// limUnder is an underlying store that watches its own size.
type limUnder struct {
	c          *mon.Case
	max        int
	mu         sync.Mutex
	data       map[appdash.ID][]string
	calls      []string
	delErr     func() error
	colErr     func() error
	high       int
	deleted    map[appdash.ID]int
	nDel, nCol int
}

func (u *limUnder) Trace(appdash.ID) (*appdash.Trace, error) { return nil, appdash.ErrTraceNotFound }
func (u *limUnder) Collect(id appdash.SpanID, as ...ad.Ann) error {
	u.mu.Lock()
	defer u.mu.Unlock()
	u.nCol++
	if err := u.colErr(); err != nil {
		return err
	}
	u.data[id.Trace] = append(u.data[id.Trace], fmt.Sprintf("%v:%s", id, ad.AnnString(as)))
	if n := len(u.data); n > u.high {
		u.high = n
		if n > u.max {
			u.c.Failf("over-capacity", "the underlying store holds %d traces, the limit is %d", n, u.max)
		}
	}
	return nil
}
func (u *limUnder) Delete(ids ...appdash.ID) error {
	u.mu.Lock()
	defer u.mu.Unlock()
	u.nDel++
	if err := u.delErr(); err != nil {
		return err
	}
	for _, id := range ids {
		delete(u.data, id)
		u.deleted[id]++
	}
	return nil
}

func newLimUnder(c *mon.Case, max int) *limUnder {
	no := func() error { return nil }
	return &limUnder{c: c, max: max, data: map[appdash.ID][]string{}, deleted: map[appdash.ID]int{}, delErr: no, colErr: no}
}

func limitSeq(c *mon.Case) {
	r := c.R
	max := r.Intn(5)
	if r.Intn(5) == 0 {
		max = r.Intn(40)
	}
	u := newLimUnder(c, max)
	ls := &appdash.LimitStore{Max: max, DeleteStore: u}
	nt := 1 + r.Intn(2*max+4)
	trs := ad.IDs(r, nt)
	if r.Intn(2) == 0 {
		trs[0] = 0
	}
	boomD, boomC := ad.Fault(r.Int(), "delete failed"), ad.Fault(r.Int(), "collect failed")
	var errD, errC error
	u.delErr = func() error { return errD }
	u.colErr = func() error { return errC }
	faults := r.Intn(3) == 0
	// The model: traces in the order in which they were first collected.
	var fifo []appdash.ID
	want := map[appdash.ID][]string{}
	evictions, fails := 0, 0
	n := 5 + r.Intn(60)
	for i := 0; i < n && !c.Failed(); i++ {
		tr := trs[r.Intn(nt)]
		if r.Intn(3) == 0 {
			tr = trs[i%nt]
		}
		id := appdash.SpanID{Trace: tr, Span: ad.ID(r), Parent: ad.ID(r)}
		as := []ad.Ann{ad.Uniq("k", i)}
		as = append(as, ad.Anns(r, r.Intn(3))...)
		errD, errC = nil, nil
		if faults && r.Intn(4) == 0 {
			errD = boomD
		}
		if faults && r.Intn(8) == 0 {
			errC = boomC
		}
		present := false
		for _, t := range fifo {
			present = present || t == tr
		}
		var wantErr error
		before := u.nDel
		wantDel := 0
		switch {
		case max == 0:
		case present:
			wantErr = errC
			if errC == nil {
				want[tr] = append(want[tr], fmt.Sprintf("%v:%s", id, ad.AnnString(as)))
			}
		default:
			if len(fifo) == max {
				wantDel = 1
				if errD != nil {
					wantErr = errD
					fails++
					break
				}
				delete(want, fifo[0])
				fifo = fifo[1:]
				evictions++
			}
			wantErr = errC
			// Whether a trace whose first collection fails counts as retained is
			// not specified; do not go on (limitFlaky does).
			if errC == nil {
				fifo = append(fifo, tr)
				want[tr] = append(want[tr], fmt.Sprintf("%v:%s", id, ad.AnnString(as)))
			}
		}
		err := ls.Collect(id, as...)
		c.Note("collect %v (delete fails: %v, collect fails: %v) = %v", id, errD != nil, errC != nil, err)
		if err != wantErr {
			c.Failf("error", "step %d: Collect(%v) = %v, want %v", i, id, err, wantErr)
			return
		}
		if d := u.nDel - before; d != wantDel {
			c.Failf("deletions", "step %d: Collect(%v) made %d Delete calls, want %d; retained %v of at most %d", i, id, d, wantDel, fifo, max)
		}
		if len(u.data) != len(want) {
			c.Failf("contents", "step %d: after Collect(%v) the store holds %d traces, want %d: %v, want %v", i, id, len(u.data), len(want), keys(u.data), fifo)
			return
		}
		for t, w := range want {
			if fmt.Sprint(u.data[t]) != fmt.Sprint(w) {
				c.Failf("contents", "step %d: after Collect(%v) trace %v holds %v, want %v", i, id, t, u.data[t], w)
				return
			}
		}
		if errC != nil && wantErr == errC && !present && max > 0 {
			break
		}
	}
	c.Count("collections", n)
	c.Count("evictions", evictions)
	c.Count("failed deletions", fails)
	if evictions > 0 || max == 0 {
		c.Mark(max, trs, n, evictions, fails, u.nCol)
	}
	c.Sample("capacity %d, %d trace IDs %v, %d evictions, %d failed deletions", max, nt, trs[:min(3, nt)], evictions, fails)
}

func keys(m map[appdash.ID][]string) (ks []appdash.ID) {
	for k := range m {
		ks = append(ks, k)
	}
	return
}

func limitConc(c *mon.Case) {
	r := c.R
	max := 1 + r.Intn(6)
	u := newLimUnder(c, max)
	ls := &appdash.LimitStore{Max: max, DeleteStore: u}
	g, per := 2+r.Intn(5), 40
	fits := r.Intn(3) == 0 // no more traces than fit: nothing may be lost
	nt := max + 1 + r.Intn(2*max)
	if fits {
		nt = max
	}
	trs := ad.IDs(r, nt)
	trs[r.Intn(nt)] = 0
	var er *rand.Rand
	if !fits && r.Intn(3) == 0 {
		er = randNew(r.Int63())
		u.delErr = func() error {
			if er.Intn(5) == 0 {
				return errSave
			}
			return nil
		}
	}
	var wg sync.WaitGroup
	ok := make([]int, g)
	for w := 0; w < g; w++ {
		wr := randNew(r.Int63())
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < per; k++ {
				id := appdash.SpanID{Trace: trs[wr.Intn(nt)], Span: appdash.ID(w + 1)}
				err := ls.Collect(id, ad.Ann{Key: "w", Value: []byte(fmt.Sprint(w, k))})
				if err == nil {
					ok[w]++
				} else if err != errSave {
					c.Failf("error", "Collect: %v", err)
				}
				if wr.Intn(8) == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	wg.Wait()
	held, sum := 0, 0
	for _, v := range u.data {
		held += len(v)
	}
	for _, n := range ok {
		sum += n
	}
	if fits && (held != sum || u.nDel != 0) {
		c.Failf("lost", "no more traces than the capacity: %d collections succeeded, %d are held, %d deletions", sum, held, u.nDel)
	}
	if u.nCol != sum {
		c.Failf("forwarded", "%d collections succeeded, %d reached the underlying store", sum, u.nCol)
	}
	if !fits && len(u.data) != max {
		c.Failf("under-capacity", "after %d collections over %d traces %d are held, the capacity is %d", sum, nt, len(u.data), max)
	}
	// Deleting more traces than were pushed out means a retained one was removed.
	c.Count("collections", sum)
	c.Count("deletions", u.nDel)
	c.Mark(max, nt, g, u.nDel, held, sum)
	c.Sample("capacity %d, %d traces, %d goroutines: %d collections, %d deletions, at most %d held", max, nt, g, sum, u.nDel, u.high)
}

// limitFlaky has collections fail in the underlying store. Whether a trace
// whose first collection failed takes a place is not specified; what holds
// either way is checked: the capacity, the error, and that the traces that are
// retained either way are there with all their annotations.
func limitFlaky(c *mon.Case) {
	r := c.R
	max := 1 + r.Intn(6)
	u := newLimUnder(c, max)
	ls := &appdash.LimitStore{Max: max, DeleteStore: u}
	boom := ad.Fault(r.Int(), "collect failed")
	var errC error
	u.colErr = func() error { return errC }
	nt := max + 1 + r.Intn(2*max+4)
	trs := ad.IDs(r, nt)
	if r.Intn(3) == 0 {
		trs[0] = 0
	}
	type model struct {
		fifo  []appdash.ID
		data  map[appdash.ID][]string
		count bool // failed first collections take a place
	}
	ms := []*model{{data: map[appdash.ID][]string{}, count: true}, {data: map[appdash.ID][]string{}}}
	fails, n, both := 0, 10+r.Intn(60), 0
	for i := 0; i < n && !c.Failed(); i++ {
		tr := trs[r.Intn(nt)]
		if r.Intn(2) == 0 {
			tr = trs[i%nt]
		}
		id := appdash.SpanID{Trace: tr, Span: ad.ID(r), Parent: ad.ID(r)}
		a := ad.Uniq("k", i)
		errC = nil
		if r.Intn(5) == 0 {
			errC = boom
			fails++
		}
		for _, m := range ms {
			present := false
			for _, t := range m.fifo {
				present = present || t == tr
			}
			if !present && (errC == nil || m.count) {
				if len(m.fifo) == max {
					delete(m.data, m.fifo[0])
					m.fifo = m.fifo[1:]
				}
				m.fifo = append(m.fifo, tr)
			}
			if errC == nil {
				m.data[tr] = append(m.data[tr], fmt.Sprintf("%v:%s", id, ad.AnnString([]ad.Ann{a})))
			}
		}
		err := ls.Collect(id, a)
		c.Note("collect %v (fails: %v) = %v", id, errC != nil, err)
		if err != errC {
			c.Failf("error", "step %d: Collect(%v) = %v, want %v", i, id, err, errC)
			return
		}
		for t, w := range ms[0].data {
			if fmt.Sprint(w) != fmt.Sprint(ms[1].data[t]) {
				continue
			}
			both++
			if fmt.Sprint(u.data[t]) != fmt.Sprint(w) {
				c.Failf("contents", "step %d: after Collect(%v) trace %v, one of the last %d traces, holds %v, want %v", i, id, t, max, u.data[t], w)
				return
			}
		}
	}
	c.Count("collections", n)
	c.Count("failed collections", fails)
	c.Count("retained traces compared", both)
	c.Mark(max, trs, n, fails)
	c.Sample("capacity %d, %d collections, %d failed", max, n, fails)
}
