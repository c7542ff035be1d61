package core

import (
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/ad"
	"verif/mon"
)

func init() {
	mon.Reg("C10", "blocked-collector", 64, 800, chunkBlocked)
	mon.Reg("C08", "concurrent", 160, 3000, chunkConc)
	mon.RegV("C08", "virtual-time", 1600, 40000, func(c *mon.Case) { chunkSeq(c, "C08") })
	mon.Reg("C09", "concurrent-limit", 160, 3000, chunkConcLimit)
	mon.RegV("C09", "overlapping-flushes", 600, 12000, chunkOverlap)
	mon.RegV("C09", "virtual-time", 2400, 60000, func(c *mon.Case) { chunkSeq(c, "C09") })
	mon.RegV("C10", "virtual-time", 1600, 40000, func(c *mon.Case) { chunkSeq(c, "C10") })
	mon.RegV("C10", "error-once-and-stop", 400, 8000, chunkErrOnce)
}

// flushRec is one flush as seen by the monitor.
type flushRec struct {
	start    time.Time
	expect   map[appdash.SpanID][]ad.Ann
	done     map[appdash.SpanID]bool
	errs     []string
	timedOut bool
	ended    bool
	inCall   bool
	periodic bool
}

// chunkMon follows a ChunkedCollector step by step in virtual time.
type chunkMon struct {
	c    *mon.Case
	prop string
	bad  atomic.Bool

	mu        sync.Mutex
	cc        *appdash.ChunkedCollector
	timeout   time.Duration
	pending   map[appdash.SpanID][]ad.Ann
	bytes     uint64
	oldest    time.Time // when the oldest pending data was collected
	lastEnd   time.Time // when the last flush ended
	cur       *flushRec
	manual    bool // the driver has called Flush
	lastErr   *flushRec
	stopped   bool
	stoppedAt time.Time
	lat       func() time.Duration
	fail      func() bool
	flushes   int
	calls     int
	timeouts  int
	failures  int

	slow      func() time.Duration // how long the flush callback takes
	callbacks int                  // slow callbacks
}

func (m *chunkMon) violate(props, key, f string, a ...any) {
	m.bad.Store(true)
	if strings.Contains(props, m.prop) {
		m.c.Failf(key, f, a...)
	}
}

func (m *chunkMon) onFlush(n int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	now := time.Now()
	m.flushes++
	if m.cur != nil && !m.cur.ended {
		m.early("when the next flush began")
	}
	if n != len(m.pending) {
		m.violate("C10", "callback-count", "the flush callback was told %d spans, %d are pending", n, len(m.pending))
	}
	if m.stopped && !m.manual && now.After(m.stoppedAt) {
		m.violate("C10", "flush-after-stop", "a periodic flush began %v after Stop", now.Sub(m.stoppedAt))
	}
	if len(m.pending) > 0 && !m.stopped {
		if d := now.Sub(m.base()); d > m.cc.MinInterval {
			m.violate("C10", "late", "data was flushed %v after it was collected (or the flush before had ended), the interval is %v", d, m.cc.MinInterval)
		}
	}
	m.cur = &flushRec{start: now, expect: m.pending, done: map[appdash.SpanID]bool{}, periodic: !m.manual}
	m.pending = map[appdash.SpanID][]ad.Ann{}
	m.bytes = 0
	f := m.cur
	if m.slow != nil {
		if d := m.slow(); d > 0 { // a callback that takes time
			m.callbacks++
			f.inCall = true
			m.mu.Unlock()
			time.Sleep(d)
			m.mu.Lock()
			f.inCall = false
		}
	}
	if n == 0 {
		f.ended = true
		m.lastEnd = time.Now()
	}
}

func (m *chunkMon) base() time.Time {
	if m.lastEnd.After(m.oldest) {
		return m.lastEnd
	}
	return m.oldest
}

// early reports a flush that stopped before all spans were forwarded.
func (m *chunkMon) early(when string) {
	f := m.cur
	f.ended = true
	if m.stopped {
		return
	}
	m.violate("C08 C09", "not-forwarded", "%s, only %d of %d spans had been forwarded by a flush that did not time out (%d calls failed)", when, len(f.done), len(f.expect), len(f.errs))
}

// Collect is the underlying collector.
func (m *chunkMon) Collect(id appdash.SpanID, as ...ad.Ann) error {
	m.mu.Lock()
	m.calls++
	f := m.cur
	switch {
	case f == nil:
		m.violate("C08 C10", "no-callback", "span %v was forwarded before any flush callback", id)
	case f.timedOut:
		m.violate("C09", "after-timeout", "span %v was forwarded %v after the flush began, the timeout %v had passed after an earlier call", id, time.Since(f.start), m.timeout)
	case f.done[id]:
		m.violate("C08", "twice", "span %v was forwarded twice in one flush", id)
	case f.ended || f.expect[id] == nil:
		m.violate("C08", "invented", "span %v was forwarded but is not part of the flush", id)
	case !ad.AnnsEqual(f.expect[id], as):
		m.violate("C08", "content", "span %v was forwarded with %s, want %s", id, ad.AnnString(as), ad.AnnString(f.expect[id]))
	}
	if m.bad.Load() {
		m.mu.Unlock()
		return nil
	}
	f.done[id] = true
	f.inCall = true
	d := m.lat()
	bad := m.fail()
	n := m.calls
	m.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	f.inCall = false
	var err error
	if bad {
		m.failures++
		text := fmt.Sprintf("injected error %d", n)
		err = ad.FaultOf(text)
		f.errs = append(f.errs, text)
	}
	if m.timeout != 0 && time.Since(f.start) > m.timeout {
		f.timedOut = true
		m.timeouts++
	}
	if f.timedOut || len(f.done) == len(f.expect) {
		f.ended = true
		m.lastEnd = time.Now()
		if f.periodic && (f.timedOut || len(f.errs) > 0) {
			m.lastErr = f
		}
	}
	return err
}

// judge checks the error reported for a flush.
func (m *chunkMon) judge(f *flushRec, err error, props, how string) {
	switch {
	case f.timedOut:
		if err == nil || !strings.Contains(err.Error(), appdash.ErrQueueDropped.Error()) {
			m.violate(props, "timeout-not-reported", "%s: a flush that timed out reported %v", how, err)
		}
	case len(f.errs) > 0:
		if err == nil {
			m.violate(props, "failure-not-reported", "%s: a flush with errors %v reported none", how, f.errs)
		} else if len(f.errs) == 1 && !strings.Contains(err.Error(), f.errs[0]) {
			m.violate(props, "wrong-error", "%s: a flush with error %q reported %q", how, f.errs[0], err)
		}
	case err != nil:
		m.violate(props, "spurious-error", "%s: a flush without errors reported %v", how, err)
	}
}

func chunkSeq(c *mon.Case, prop string) {
	r := c.R
	m := &chunkMon{c: c, prop: prop, pending: map[appdash.SpanID][]ad.Ann{}}
	mode := r.Intn(3) // 0 manual flushes that take time, 1 periodic ones that take time, 2 both kinds, taking none
	cc := &appdash.ChunkedCollector{Collector: m, OnFlush: m.onFlush}
	m.cc = cc
	cc.MinInterval = time.Duration(1+r.Intn(1000)) * time.Millisecond
	if mode == 0 {
		cc.MinInterval = 1000 * time.Hour
	}
	if r.Intn(3) > 0 {
		m.timeout = time.Duration(1+r.Intn(300)) * time.Millisecond
	}
	cc.FlushTimeout = m.timeout
	if r.Intn(2) == 0 {
		cc.MaxQueueSize = uint64(24 + r.Intn(600))
	} else if r.Intn(4) == 0 { // practically unlimited
		cc.MaxQueueSize = []uint64{1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.Intn(6)]
	}
	if r.Intn(2) == 0 {
		cc.Log = log.New(io.Discard, "", 0)
	}
	lr := rand.New(rand.NewSource(r.Int63()))
	pErr := []int{0, 0, 2, 5, 20}[r.Intn(5)]
	m.fail = func() bool { return pErr > 0 && lr.Intn(pErr) == 0 }
	m.lat = func() time.Duration { return 0 }
	if mode != 2 {
		m.lat = func() time.Duration {
			switch lr.Intn(5) {
			case 0:
				return m.timeout // exactly the timeout when it is the first
			case 1:
				return m.timeout/2 + 1
			case 2:
				return time.Duration(lr.Intn(100)) * time.Millisecond
			}
			return 0
		}
	}
	if mode != 2 && r.Intn(3) == 0 {
		sr := rand.New(rand.NewSource(r.Int63()))
		m.slow = func() time.Duration {
			switch sr.Intn(4) {
			case 0:
				return cc.MinInterval / time.Duration(1+sr.Intn(20)) % (10 * time.Second)
			case 1:
				return time.Duration(sr.Intn(100)) * time.Millisecond
			}
			return 0
		}
	}
	ids := make([]appdash.SpanID, 1+r.Intn(8))
	for i := range ids {
		ids[i] = appdash.SpanID{Trace: ad.ID(r), Span: appdash.ID(i + 1), Parent: ad.ID(r)}
	}
	if len(ids) > 2 { // same span ID in another trace, another parent
		ids[1] = appdash.SpanID{Trace: ids[0].Trace, Span: ids[0].Span, Parent: ids[0].Parent + 1}
		ids[2] = appdash.SpanID{Trace: ids[0].Trace + 1, Span: ids[0].Span, Parent: ids[0].Parent}
	}
	collects, drops, exact, u := 0, 0, 0, 0
	steps := 10 + r.Intn(50)
	stopAt := steps * (3 + r.Intn(6)) / 4
	var sig []string
	var flushing chan error
	check := func() {
		synctest.Wait()
		m.mu.Lock()
		defer m.mu.Unlock()
		if m.cur != nil && !m.cur.ended && !m.cur.inCall {
			m.early("when nothing was left to do")
		}
		if mode != 0 && !m.stopped && len(m.pending) > 0 && (m.cur == nil || m.cur.ended) && time.Since(m.base()) > cc.MinInterval {
			m.violate("C10", "late", "data is still queued %v after it was collected, the interval is %v", time.Since(m.base()), cc.MinInterval)
		}
	}
	collect := func() {
		id := ids[r.Intn(len(ids))]
		var as []ad.Ann
		for k := r.Intn(4); k > 0; k-- {
			u++
			as = append(as, ad.Uniq(ad.Str(r), u))
		}
		size := func() (n uint64) {
			n = 24
			for _, a := range as {
				n += uint64(len(a.Key) + len(a.Value))
			}
			return
		}
		m.mu.Lock()
		bytes := m.bytes
		m.mu.Unlock()
		if cc.MaxQueueSize > 0 && cc.MaxQueueSize < 1<<20 && r.Intn(3) == 0 && bytes+size() < cc.MaxQueueSize { // reach the limit, or go just past it
			pad := int(cc.MaxQueueSize - bytes - size())
			pad += r.Intn(2)
			as = append(as, ad.Ann{Key: strings.Repeat("p", pad/2), Value: []byte(strings.Repeat("v", pad-pad/2))})
			exact++
		}
		given := ad.CopyAnns(as)
		t0 := time.Now()
		err := cc.Collect(id, as...)
		collects++
		m.mu.Lock()
		defer m.mu.Unlock()
		if d := time.Since(t0); d != 0 {
			m.violate("C10", "collect-waits", "Collect took %v", d)
		}
		c.Note("%v collect %v %d bytes = %v", t0, id, size(), err)
		if m.stopped {
			if err == nil {
				m.violate("C10", "collect-after-stop", "Collect succeeded after Stop")
			}
			return
		}
		if cc.MaxQueueSize != 0 && m.bytes+size() > cc.MaxQueueSize {
			drops++
			if err != appdash.ErrQueueDropped {
				m.violate("C09", "over-limit", "queue of %d bytes + %d exceeds the limit %d, but Collect returned %v", m.bytes, size(), cc.MaxQueueSize, err)
			}
			m.pending, m.bytes = map[appdash.SpanID][]ad.Ann{}, 0
			return
		}
		if err == appdash.ErrQueueDropped && m.lastErr == nil {
			m.violate("C09", "dropped-within-limit", "queue of %d bytes + %d is within the limit %d, but it was dropped", m.bytes, size(), cc.MaxQueueSize)
		}
		if f := m.lastErr; f != nil {
			m.lastErr = nil
			m.judge(f, err, "C10", "the collection after a periodic flush")
		} else if err != nil {
			m.violate("C10", "spurious-error", "Collect returned %v", err)
		}
		if len(m.pending) == 0 {
			m.oldest = t0
		}
		p := m.pending[id]
		if p == nil {
			p = []ad.Ann{}
		}
		m.pending[id] = append(p, given...)
		m.bytes += size()
	}
	for i := 0; i < steps && !m.bad.Load(); i++ {
		switch x := r.Intn(10); {
		case x < 6:
			collect()
			sig = append(sig, "c")
		case x < 8 || mode == 1:
			d := time.Duration(r.Int63n(int64(cc.MinInterval)*3 + 1))
			switch {
			case mode == 0:
				d = time.Duration(r.Intn(200)) * time.Millisecond
			case r.Intn(3) == 0:
				d = cc.MinInterval
			case r.Intn(3) == 0:
				d = time.Duration(r.Intn(1000))
			}
			time.Sleep(d)
			sig = append(sig, fmt.Sprint(d))
		default:
			if flushing != nil {
				select {
				case err := <-flushing:
					m.mu.Lock()
					m.judge(m.cur, err, "C09", "manual flush")
					m.manual, flushing = false, nil
					m.mu.Unlock()
				default:
				}
				break
			}
			m.mu.Lock()
			busy := m.cur != nil && !m.cur.ended || m.stopped
			m.manual = !busy
			m.mu.Unlock()
			if !busy {
				m.mu.Lock()
				n := m.flushes
				m.mu.Unlock()
				ch := make(chan error, 1)
				flushing = ch
				go func() { ch <- cc.Flush() }()
				synctest.Wait()
				sig = append(sig, "f")
				m.mu.Lock()
				if m.flushes == n {
					m.violate("C10", "no-callback", "Flush did not call the flush callback")
				}
				m.mu.Unlock()
				if mode == 2 {
					m.mu.Lock()
					m.judge(m.cur, <-ch, "C09", "manual flush")
					m.manual, flushing = false, nil
					m.mu.Unlock()
				}
			}
		}
		check()
		if i == stopAt && flushing == nil {
			t0 := time.Now()
			cc.Stop()
			m.mu.Lock()
			m.stopped, m.stoppedAt = true, time.Now()
			if d := time.Since(t0); d != 0 {
				m.violate("C10", "stop-waits", "Stop took %v", d)
			}
			m.mu.Unlock()
			sig = append(sig, "s")
		}
	}
	if flushing != nil {
		err := <-flushing
		m.mu.Lock()
		if !m.bad.Load() {
			m.judge(m.cur, err, "C09", "manual flush")
		}
		m.manual = false
		m.mu.Unlock()
	}
	if !m.bad.Load() && !m.stopped && mode != 0 {
		time.Sleep(cc.MinInterval + 1)
		check()
		// Let flushes that take long end.
		left := func() int { m.mu.Lock(); defer m.mu.Unlock(); return len(m.pending) }
		for k := 0; k < 50 && left() > 0; k++ {
			time.Sleep(max(cc.MinInterval, time.Second))
			check()
		}
		if n := left(); n > 0 && !m.bad.Load() {
			m.violate("C08 C10", "never-flushed", "%d spans are still queued", n)
		}
	}
	cc.Stop()
	m.mu.Lock()
	m.stopped, m.stoppedAt = true, time.Now()
	m.mu.Unlock()
	time.Sleep(3*cc.MinInterval + time.Hour)
	check()
	if !m.bad.Load() {
		collect()
	}
	if m.bad.Load() && !c.Failed() {
		c.Count("cases cut short by another property's violation", 1)
	}
	c.Count("collections", collects)
	c.Count("flushes", m.flushes)
	c.Count("underlying calls", m.calls)
	c.Count("flushes timed out", m.timeouts)
	c.Count("slow flush callbacks", m.callbacks)
	c.Count("underlying calls failed", m.failures)
	c.Count("queue drops", drops)
	c.Count("collections sized to the limit", exact)
	if m.calls > 0 {
		c.Mark(mode, cc.MinInterval, m.timeout, cc.MaxQueueSize, sig)
	}
	c.Sample("mode %d, interval %v, timeout %v, limit %d: %d collections, %d flushes, %d calls (%d failed), %d timeouts, %d drops", mode, cc.MinInterval, m.timeout, cc.MaxQueueSize, collects, m.flushes, m.calls, m.failures, m.timeouts, drops)
}

// chunkConc runs producers, manual flushes and the periodic flush together.
func chunkConc(c *mon.Case) {
	r := c.R
	nprod, per := 1+r.Intn(5), 40+r.Intn(80)
	nflush := r.Intn(4)
	nspan := 1 + r.Intn(6)
	sink := &ad.Sink{}
	er := rand.New(rand.NewSource(r.Int63()))
	var emu sync.Mutex
	pErr := []int{0, 0, 3, 12}[r.Intn(4)]
	slow := r.Intn(3) == 0
	var failed atomic.Int64
	sink.Err = func(n int, id appdash.SpanID, as []ad.Ann) error {
		emu.Lock()
		e, d := pErr > 0 && er.Intn(pErr) == 0, time.Duration(er.Intn(200))*time.Microsecond
		emu.Unlock()
		if slow {
			time.Sleep(d)
		}
		if e {
			failed.Add(1)
			return errSave
		}
		return nil
	}
	var announced, flushes, nonEmpty atomic.Int64
	cc := &appdash.ChunkedCollector{Collector: sink, MinInterval: time.Duration(1+r.Intn(2000)) * time.Microsecond}
	// The callback and the underlying collector may collect themselves.
	var nested atomic.Int64
	nest := func() {}
	if r.Intn(3) == 0 {
		nest = func() {
			if k := nested.Add(1); k <= 20 {
				cc.Collect(appdash.SpanID{Trace: 2, Span: appdash.ID(1000000 + k)})
			}
		}
	}
	slowCallback := time.Duration(r.Intn(3)*r.Intn(200)) * time.Microsecond
	cc.OnFlush = func(n int) {
		announced.Add(int64(n))
		flushes.Add(1)
		if n > 0 {
			nonEmpty.Add(1)
		}
		time.Sleep(slowCallback)
		nest()
	}
	sinkErr := sink.Err
	sink.Err = func(n int, id appdash.SpanID, as []ad.Ann) error {
		if id.Trace == 1 {
			nest()
		}
		return sinkErr(n, id, as)
	}
	if r.Intn(4) == 0 {
		cc.MinInterval = time.Hour
	}
	type rec struct {
		prod, k     int
		id          appdash.SpanID
		start, ret  int64
		given, gone bool
	}
	recs := make([][]rec, nprod)
	empties := make([]map[appdash.SpanID]bool, nprod)
	stop := make(chan struct{})
	var wg, fg sync.WaitGroup
	for f := 0; f < nflush; f++ {
		fr := rand.New(rand.NewSource(r.Int63()))
		fg.Add(1)
		go func() {
			defer fg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				cc.Flush()
				time.Sleep(time.Duration(fr.Intn(150)) * time.Microsecond)
			}
		}()
	}
	for p := 0; p < nprod; p++ {
		pr := rand.New(rand.NewSource(r.Int63()))
		empties[p] = map[appdash.SpanID]bool{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < per; k++ {
				id := appdash.SpanID{Trace: 1, Span: appdash.ID(pr.Intn(nspan))}
				if pr.Intn(10) == 0 { // a span without annotations
					e := appdash.SpanID{Trace: 2, Span: appdash.ID(p*1000 + k)}
					cc.Collect(e)
					empties[p][e] = true
				}
				x := rec{prod: p, k: k, id: id, start: callStamp()}
				err := cc.Collect(id, ad.Ann{Key: fmt.Sprint(p), Value: []byte(fmt.Sprint(k))}, ad.Ann{Key: fmt.Sprint(p), Value: []byte(fmt.Sprint(k, "b"))})
				x.ret = retStamp()
				if err != nil && (pErr == 0 || !strings.Contains(err.Error(), errSave.Error())) {
					c.Failf("collect-error", "Collect: %v", err)
				}
				recs[p] = append(recs[p], x)
				if pr.Intn(6) == 0 {
					time.Sleep(time.Duration(pr.Intn(200)) * time.Microsecond)
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	fg.Wait()
	cc.Flush()
	for k := 0; nested.Load() > 0 && k < 25; k++ {
		cc.Flush() // every flush may collect something
	}
	// A periodic flush may still be under way.
	wantAnns := 2 * nprod * per
	c.AwaitOr("lost", "forwarding of everything collected", func() bool {
		have, empty := 0, 0
		for _, call := range sink.Snapshot() {
			have += len(call.Anns)
			if call.Span.Trace == 2 {
				empty++
			}
		}
		for _, e := range empties {
			empty -= len(e)
		}
		empty -= int(min(nested.Load(), 20))
		return have >= wantAnns && empty >= 0 && int64(sink.Len()) >= announced.Load()
	})
	cc.Stop()
	calls := sink.Snapshot()
	if int64(len(calls)) != announced.Load() {
		c.Failf("call-count", "flushes announced %d spans and made %d underlying calls", announced.Load(), len(calls))
	}
	type key struct {
		p, k int
		id   appdash.SpanID
	}
	type pos struct{ call, at int }
	seen := map[key]pos{}
	got := map[appdash.SpanID]int{}
	for ci, call := range calls {
		got[call.Span]++
		for i := 0; i < len(call.Anns); i += 2 {
			var k key
			fmt.Sscan(call.Anns[i].Key, &k.p)
			fmt.Sscan(string(call.Anns[i].Value), &k.k)
			k.id = call.Span
			if i+1 >= len(call.Anns) || string(call.Anns[i+1].Value) != fmt.Sprint(k.k, "b") || call.Anns[i+1].Key != call.Anns[i].Key {
				c.Failf("torn", "the annotations of one collection are not together: %s", ad.AnnString(call.Anns))
				return
			}
			if _, dup := seen[k]; dup {
				c.Failf("twice", "annotation %v was forwarded twice", k)
			}
			seen[k] = pos{ci, i}
		}
	}
	total := 0
	var all []rec
	for p := range recs {
		for _, x := range recs[p] {
			total++
			all = append(all, x)
			if _, ok := seen[key{x.prod, x.k, x.id}]; !ok {
				c.Failf("lost", "annotation %d of producer %d on %v was never forwarded", x.k, x.prod, x.id)
				return
			}
		}
		for e := range empties[p] {
			total++
			if got[e] != 1 {
				c.Failf("empty-span", "span %v, collected once without annotations, was forwarded %d times", e, got[e])
			}
		}
	}
	for k := int64(1); k <= min(nested.Load(), 20); k++ {
		total++
		if e := (appdash.SpanID{Trace: 2, Span: appdash.ID(1000000 + k)}); got[e] != 1 {
			c.Failf("nested-span", "span %v, collected by the callback or the underlying collector, was forwarded %d times", e, got[e])
		}
	}
	c.Count("collections from within a flush", int(min(nested.Load(), 20)))
	if len(seen) != len(all) {
		c.Failf("invented", "%d annotation pairs forwarded, %d collected", len(seen), len(all))
	}
	// Within one underlying call annotations are in completion order.
	sort.Slice(all, func(i, j int) bool { return all[i].start < all[j].start })
	ordered := 0
	for i, a := range all {
		for _, b := range all[i+1:] {
			if a.ret < b.start && a.id == b.id {
				pa, pb := seen[key{a.prod, a.k, a.id}], seen[key{b.prod, b.k, b.id}]
				if pa.call == pb.call {
					ordered++
					if pa.at > pb.at {
						c.Failf("order", "on %v, what producer %d collected as its #%d before #%d of producer %d comes after it", a.id, a.prod, a.k, b.k, b.prod)
						return
					}
				}
			}
		}
	}
	c.Count("collections", total)
	c.Count("flushes", int(flushes.Load()))
	c.Count("underlying calls", len(calls))
	c.Count("underlying calls failed", int(failed.Load()))
	c.Count("ordered pairs compared", ordered)
	c.Mark(nprod, per, nflush, nspan, nonEmpty.Load(), len(calls))
	c.Sample("%d producers x %d, %d flushers, %d spans: %d flushes with data, %d underlying calls", nprod, per, nflush, nspan, nonEmpty.Load(), len(calls))
}

// chunkConcLimit checks the size limit while several goroutines collect.
func chunkConcLimit(c *mon.Case) {
	r := c.R
	limit := uint64(100 + r.Intn(4000))
	sink := &ad.Sink{}
	cc := &appdash.ChunkedCollector{Collector: sink, MinInterval: time.Hour, MaxQueueSize: limit}
	if r.Intn(4) == 0 {
		cc.MaxQueueSize = 0
	}
	g, per := 2+r.Intn(5), 60
	var drops, okc atomic.Int64
	stop := make(chan struct{})
	done := make(chan struct{})
	var most uint64
	flushed := 0
	look := func() {
		n := sink.Len()
		cc.Flush()
		var b uint64
		for _, call := range sink.Snapshot()[n:] {
			for _, a := range call.Anns { // one annotation per collection
				b += 24 + uint64(len(a.Key)+len(a.Value))
			}
		}
		most = max(most, b)
		flushed++
		if cc.MaxQueueSize != 0 && b > limit {
			c.Failf("limit-exceeded", "%d bytes were queued, the limit is %d", b, limit)
		}
	}
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			default:
			}
			time.Sleep(100 * time.Microsecond)
			look()
		}
	}()
	var wg sync.WaitGroup
	for w := 0; w < g; w++ {
		wr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < per; k++ {
				err := cc.Collect(appdash.SpanID{Trace: 1, Span: appdash.ID(wr.Intn(5))}, ad.Ann{Key: fmt.Sprint(w, ".", k), Value: make([]byte, wr.Intn(100))})
				switch {
				case err == nil:
					okc.Add(1)
				case errors.Is(err, appdash.ErrQueueDropped):
					drops.Add(1)
				default:
					c.Failf("error", "Collect: %v", err)
				}
				if k%16 == 0 {
					time.Sleep(50 * time.Microsecond)
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	<-done
	look()
	cc.Stop()
	forwarded := 0
	seen := map[string]bool{}
	for _, call := range sink.Snapshot() {
		for _, a := range call.Anns {
			forwarded++
			if seen[a.Key] {
				c.Failf("twice", "%s was forwarded twice", a.Key)
			}
			seen[a.Key] = true
		}
	}
	if drops.Load() == 0 && forwarded != int(okc.Load()) {
		c.Failf("silent-drop", "no collection reported a drop, yet %d of %d collections were forwarded", forwarded, okc.Load())
	}
	if forwarded > int(okc.Load()) {
		c.Failf("dropped-forwarded", "%d collections succeeded, %d were forwarded", okc.Load(), forwarded)
	}
	if cc.MaxQueueSize == 0 && drops.Load() > 0 {
		c.Failf("dropped-without-limit", "%d drops without a limit", drops.Load())
	}
	c.Count("collections", g*per)
	c.Count("queue drops", int(drops.Load()))
	c.Count("flushes", flushed)
	c.Mark(limit, g, drops.Load(), flushed, forwarded)
	c.Sample("limit %d (on: %v), %d goroutines: %d accepted, %d drops, %d forwarded, at most %d bytes in a flush", limit, cc.MaxQueueSize != 0, g, okc.Load(), drops.Load(), forwarded, most)
}

// chunkBlocked checks that nothing but the flush waits for the underlying
// collector.
func chunkBlocked(c *mon.Case) {
	r := c.R
	gate := make(chan struct{})
	var entered, calls, flushes atomic.Int64
	under := collFunc(func(appdash.SpanID, []ad.Ann) error {
		calls.Add(1)
		entered.Store(1)
		<-gate
		return nil
	})
	cc := &appdash.ChunkedCollector{Collector: under, MinInterval: time.Duration(1+r.Intn(5)) * time.Millisecond, OnFlush: func(int) { flushes.Add(1) }}
	if r.Intn(2) == 0 {
		cc.MaxQueueSize = 200
	}
	if r.Intn(2) == 0 {
		cc.FlushTimeout = time.Duration(1+r.Intn(10)) * time.Millisecond
	}
	opened := false
	open := func() {
		if !opened {
			opened = true
			close(gate)
		}
	}
	defer open()
	first := 1 + r.Intn(3)
	for i := 0; i < first; i++ {
		cc.Collect(appdash.SpanID{Trace: 1, Span: appdash.ID(i)})
	}
	if !c.AwaitOr("never-flushed", "the periodic flush", func() bool { return entered.Load() == 1 }) {
		return
	}
	time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
	var did, stops atomic.Int64
	n, ns := int64(10+r.Intn(20)), int64(1+r.Intn(3))
	for w := 0; w < 2; w++ {
		go func() {
			for i := int64(0); i < n; i++ {
				cc.Collect(appdash.SpanID{Trace: appdash.ID(10 + w), Span: appdash.ID(i)}, ad.Ann{Key: "k"})
				did.Add(1)
			}
		}()
	}
	if !c.AwaitOr("collect-waits", "the return of Collect while the underlying collector is blocked", func() bool { return did.Load() == 2*n }) {
		return
	}
	for w := int64(0); w < ns; w++ {
		go func() { cc.Stop(); stops.Add(1) }()
	}
	if !c.AwaitOr("stop-waits", "the return of Stop while the underlying collector is blocked", func() bool { return stops.Load() == ns }) {
		return
	}
	if err := cc.Collect(appdash.SpanID{Trace: 1}); err == nil {
		c.Failf("collect-after-stop", "Collect succeeded after Stop")
	}
	f := flushes.Load()
	open()
	time.Sleep(8 * cc.MinInterval)
	if now := flushes.Load(); now != f {
		c.Failf("flush-after-stop", "%d flushes began after Stop", now-f)
	}
	c.Count("collections while blocked", int(2*n))
	c.Count("flushes", int(f))
	c.Mark(n, ns, first, cc.MinInterval, cc.MaxQueueSize, f, calls.Load())
	c.Sample("%d collections and %d Stops while an underlying call was blocked", 2*n, ns)
}

type collFunc func(appdash.SpanID, []ad.Ann) error

func (f collFunc) Collect(id appdash.SpanID, as ...ad.Ann) error { return f(id, as) }

// chunkErrOnce checks that concurrent collections share one error between
// them, and concurrent or early Stops.
func chunkErrOnce(c *mon.Case) {
	r := c.R
	bad := false
	var n atomic.Int64
	under := collFunc(func(appdash.SpanID, []ad.Ann) error {
		n.Add(1)
		if bad {
			return errSave
		}
		return nil
	})
	cc := &appdash.ChunkedCollector{Collector: under, MinInterval: time.Second}
	if r.Intn(3) == 0 { // before the first collection
		for k := 1 + r.Intn(3); k > 0; k-- {
			cc.Stop()
		}
		if err := cc.Collect(appdash.SpanID{Trace: 1}); err == nil {
			c.Failf("collect-after-stop", "Collect succeeded after Stop")
		}
		time.Sleep(5 * time.Second)
		synctest.Wait()
		if n.Load() != 0 {
			c.Failf("sent-after-stop", "%d underlying calls although it was stopped before the first collection", n.Load())
		}
		c.Count("stopped before the first collection", 1)
		c.Mark("early")
		return
	}
	rounds := 1 + r.Intn(4)
	got := 0
	for i := 0; i < rounds; i++ {
		bad = r.Intn(3) > 0
		cc.Collect(appdash.SpanID{Trace: 1, Span: appdash.ID(i)}, ad.Ann{Key: "a"})
		before := n.Load()
		time.Sleep(time.Second)
		synctest.Wait()
		if n.Load() == before {
			c.Failf("late", "nothing was flushed within an interval")
			break
		}
		want := int64(0)
		if bad {
			want = 1
		}
		bad = false
		var errs atomic.Int64
		var wg sync.WaitGroup
		g := 2 + r.Intn(6)
		for w := 0; w < g; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := cc.Collect(appdash.SpanID{Trace: 2, Span: appdash.ID(w)}, ad.Ann{Key: "b"}); err != nil {
					errs.Add(1)
				}
			}()
		}
		wg.Wait()
		got += int(errs.Load())
		if errs.Load() != want {
			c.Failf("error-once", "after a periodic flush with %d failures, %d of %d concurrent collections returned an error, want %d", want, errs.Load(), g, want)
		}
		before = n.Load()
		time.Sleep(time.Second)
		synctest.Wait()
		if n.Load()-before != int64(g) {
			c.Failf("not-queued", "%d spans collected (one with an error) but %d forwarded", g, n.Load()-before)
		}
	}
	var wg sync.WaitGroup
	for k := 1 + r.Intn(4); k > 0; k-- {
		wg.Add(1)
		go func() { defer wg.Done(); cc.Stop() }()
	}
	wg.Wait()
	at := n.Load()
	if err := cc.Collect(appdash.SpanID{Trace: 9}); err == nil {
		c.Failf("collect-after-stop", "Collect succeeded after Stop")
	}
	time.Sleep(10 * time.Second)
	synctest.Wait()
	if n.Load() != at {
		c.Failf("flush-after-stop", "%d underlying calls after Stop", n.Load()-at)
	}
	c.Count("periodic errors", got)
	c.Mark(rounds, got, at)
}

// chunkOverlap runs several flushes of slow collections at once, in virtual
// time. Each flushes a batch of its own.
func chunkOverlap(c *mon.Case) {
	r := c.R
	timeout := time.Duration(20+r.Intn(200)) * time.Millisecond
	type batch struct {
		n             int
		called, ended time.Time // of Flush
		err           error
		first, last   time.Time // begin of the first and end of the last underlying call
		late          bool      // a call began after an earlier one ended past the timeout
		got           map[appdash.ID]int
	}
	var mu sync.Mutex
	bs := make([]*batch, 2+r.Intn(5))
	durs := map[appdash.SpanID]time.Duration{}
	cc := &appdash.ChunkedCollector{MinInterval: 1000 * time.Hour, FlushTimeout: timeout}
	cc.Collector = collFunc(func(id appdash.SpanID, as []ad.Ann) error {
		mu.Lock()
		b := bs[id.Trace-1]
		if b.first.IsZero() {
			b.first = time.Now()
		}
		if !b.last.IsZero() && b.last.Sub(b.first) > timeout {
			b.late = true
		}
		b.got[id.Span]++
		d := durs[id]
		mu.Unlock()
		time.Sleep(d)
		mu.Lock()
		if t := time.Now(); t.After(b.last) {
			b.last = t
		}
		mu.Unlock()
		return nil
	})
	at := time.Duration(0)
	var wg sync.WaitGroup
	begin := time.Now()
	for i := range bs {
		b := &batch{n: 1 + r.Intn(6), got: map[appdash.ID]int{}}
		bs[i] = b
		per := timeout / time.Duration(1+r.Intn(2*b.n+2))
		for k := 1; k <= b.n; k++ {
			durs[appdash.SpanID{Trace: appdash.ID(i + 1), Span: appdash.ID(k)}] = time.Duration(r.Int63n(int64(per) + 1))
		}
		at += time.Duration(1 + r.Int63n(int64(timeout)))
		when := begin.Add(at)
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Until(when))
			for k := 1; k <= b.n; k++ {
				if err := cc.Collect(appdash.SpanID{Trace: appdash.ID(i + 1), Span: appdash.ID(k)}); err != nil {
					c.Failf("error", "Collect: %v", err)
				}
			}
			b.called = time.Now()
			b.err = cc.Flush()
			b.ended = time.Now()
		}()
	}
	wg.Wait()
	cc.Stop()
	mu.Lock()
	defer mu.Unlock()
	for i, b := range bs {
		for id, n := range b.got {
			if n > 1 {
				c.Failf("twice", "span %v of batch %d was forwarded %d times", id, i, n)
			}
		}
		within := b.ended.Sub(b.called) <= timeout // also if it waited for others
		switch {
		case b.late:
			c.Failf("after-timeout", "flush %d of %d went on calling more than %v after it began calling", i, len(bs), timeout)
		case len(b.got) < b.n && within:
			c.Failf("dropped-in-time", "flush %d of %d took %v, its timeout is %v, but %d of its %d spans were not forwarded (%v)", i, len(bs), b.ended.Sub(b.called), timeout, b.n-len(b.got), b.n, b.err)
		case len(b.got) == 0:
			c.Failf("dropped-in-time", "flush %d of %d forwarded nothing", i, len(bs))
		case len(b.got) == b.n && within && b.err != nil:
			c.Failf("spurious-error", "flush %d of %d took %v, its timeout is %v, and forwarded all, but returned %v", i, len(bs), b.ended.Sub(b.called), timeout, b.err)
		case len(b.got) < b.n && b.err == nil:
			c.Failf("silent-drop", "flush %d of %d returned nil, but %d of its %d spans were not forwarded", i, len(bs), b.n-len(b.got), b.n)
		}
		c.Count("flushes", 1)
		if len(b.got) < b.n {
			c.Count("flushes that timed out", 1)
		} else if within {
			c.Count("flushes in time", 1)
		}
		c.Mark(b.n, len(b.got), b.ended.Sub(b.called), timeout)
	}
	over := 0
	for i := range bs[1:] {
		if bs[i+1].called.Before(bs[i].ended) {
			over++
		}
	}
	c.Count("flushes begun during another", over)
	c.Sample("%d flushes, %d begun during the one before, timeout %v", len(bs), over, timeout)
}
