package core

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing/iotest"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/ad"
	"verif/mon"
)

func init() {
	mon.Reg("C03", "save-load-continue", 1200, 30000, saveCase)
	mon.Reg("C03", "truncated", 240, 6000, truncCase)
	mon.Reg("C03", "history", 400, 10000, saveHistory)
}

// saveHistory runs a long history of operations, saves (some to writers that fail), loads and reads over several stores
// and files. What is in a store is what a new store has after the operations that led to it.
func saveHistory(c *mon.Case) {
	r := c.R
	type file struct {
		data []byte
		ops  []sop
	}
	stores := make([]*appdash.MemoryStore, 1+r.Intn(3))
	done := make([][]sop, len(stores))
	for i := range stores {
		stores[i] = appdash.NewMemoryStore()
	}
	var files []file
	pool, trs := genOps(c, 6, true)
	// Further annotations for the same spans, so that an operation need not change the number of spans or traces.
	u := 1 << 20
	op := func() sop {
		o := pool[r.Intn(len(pool))]
		if o.del && r.Intn(2) == 0 {
			o.del = false
		}
		o.as = append([]ad.Ann(nil), o.as...)
		if !o.del && r.Intn(2) == 0 {
			u++
			o.as = append(o.as, ad.Uniq("k", u))
		}
		return o
	}
	cmps, saves, loads := 0, 0, 0
	check := func(i int, what string) bool {
		ref := appdash.NewMemoryStore()
		for _, o := range done[i] {
			o.apply(ref)
		}
		cmps++
		if err := sameStores(stores[i], ref, trs); err != nil {
			c.Failf("history-differs", "store %d after %s: %v", i, what, err)
			return false
		}
		return true
	}
	var trace []string
	for n := 10 + r.Intn(40); n > 0; n-- {
		i := r.Intn(len(stores))
		ms := stores[i]
		switch k := r.Intn(10); {
		case k < 5:
			o := op()
			c.Note("store %d: %v", i, o)
			trace = append(trace, o.String())
			if err := o.apply(ms); err != nil {
				c.Failf("op-error", "%v: %v", o, err)
			}
			done[i] = append(done[i], o)
		case k < 7:
			var buf bytes.Buffer
			if r.Intn(5) == 0 { // a writer that fails: no trace of it may stay
				c.Note("store %d: save to a writer that fails", i)
				ms.Write(&failWriter{left: r.Intn(200)})
				c.Count("saves to failing writers", 1)
			}
			c.Note("store %d: save as file %d", i, len(files))
			trace = append(trace, "save")
			if err := ms.Write(&buf); err != nil {
				c.Failf("write-error", "Write: %v", err)
				return
			}
			files = append(files, file{buf.Bytes(), append([]sop(nil), done[i]...)})
			saves++
		case k < 9:
			if len(files) == 0 {
				continue
			}
			j := len(files) - 1
			if r.Intn(3) == 0 {
				j = r.Intn(len(files))
			}
			f := files[j]
			c.Note("store %d: load file %d", i, j)
			trace = append(trace, "load")
			data := append([]byte(nil), f.data...)
			if r.Intn(4) == 0 { // a load that fails first
				if _, err := ms.ReadFrom(bytes.NewReader(data[:r.Intn(len(data))])); err == nil {
					c.Failf("truncated-loaded", "a truncated file was loaded")
					return
				}
				if !check(i, "failing to load") {
					return
				}
			}
			if _, err := ms.ReadFrom(bytes.NewReader(data)); err != nil {
				c.Failf("load-error", "ReadFrom: %v", err)
				return
			}
			for k := range data {
				data[k] = 0xff // the reader's memory is not the store's
			}
			done[i] = append([]sop(nil), f.ops...)
			loads++
		default:
			t := trs[r.Intn(len(trs))]
			ms.Trace(t)
		}
		if r.Intn(3) == 0 && !check(i, fmt.Sprint("step ", n)) {
			return
		}
	}
	for i := range stores {
		if !check(i, "the end") {
			return
		}
	}
	for j, f := range files {
		l := appdash.NewMemoryStore()
		if _, err := l.ReadFrom(bytes.NewReader(f.data)); err != nil {
			c.Failf("load-error", "ReadFrom of file %d: %v", j, err)
			return
		}
		ref := appdash.NewMemoryStore()
		for _, o := range f.ops {
			o.apply(ref)
		}
		if err := sameStores(l, ref, trs); err != nil {
			c.Failf("file-differs", "file %d: %v", j, err)
			return
		}
	}
	c.Count("comparisons", cmps+len(files))
	c.Count("saves in histories", saves)
	c.Count("loads in histories", loads)
	if saves > 0 {
		c.Mark(fmt.Sprint(trace))
	}
	c.Sample("%d stores, %d saves, %d loads, %d comparisons", len(stores), saves, loads, cmps)
}

// failWriter fails once it has written so many bytes.
type failWriter struct{ left int }

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, errors.New("disk full")
	}
	w.left -= len(p)
	return len(p), nil
}

type sop struct {
	del bool
	id  appdash.SpanID
	as  []ad.Ann
}

func (o sop) apply(ms *appdash.MemoryStore) error {
	if o.del {
		return ms.Delete(o.id.Trace)
	}
	return ms.Collect(o.id, o.as...)
}

func (o sop) String() string {
	if o.del {
		return fmt.Sprintf("delete %v", o.id.Trace)
	}
	return fmt.Sprintf("collect %v %s", o.id, ad.AnnString(o.as))
}

// genOps generates collections over several traces, with deletions.
func genOps(c *mon.Case, maxSpans int, del bool) ([]sop, []appdash.ID) {
	r := c.R
	trs := ad.IDs(r, 1+r.Intn(4))
	if r.Intn(8) == 0 {
		trs[0] = 0
	}
	var ops []sop
	u := 0
	for _, tr := range trs {
		spans, _ := genSpans(r, tr, 1+r.Intn(maxSpans))
		for _, s := range spans {
			for p := 1 + r.Intn(2); p > 0; p-- {
				o := sop{id: s}
				for k := r.Intn(3); k > 0; k-- {
					u++
					o.as = append(o.as, ad.Uniq("k", u))
				}
				if r.Intn(4) == 0 {
					o.as = append(o.as, ad.Anns(r, 1+r.Intn(2))...)
				}
				ops = append(ops, o)
			}
		}
	}
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	if del {
		for i := range ops {
			if r.Intn(15) == 0 {
				ops[i].del = true
			}
		}
	}
	return ops, trs
}

// sameStores compares everything two stores answer.
func sameStores(a, b *appdash.MemoryStore, trs []appdash.ID) error {
	ta, ea := a.Traces(appdash.TracesOpts{})
	tb, eb := b.Traces(appdash.TracesOpts{})
	if ea != nil || eb != nil {
		return fmt.Errorf("Traces: %v / %v", ea, eb)
	}
	if x, y := ad.CanonAll(ta), ad.CanonAll(tb); x != y {
		return fmt.Errorf("listings differ (+ got, - want):\n%s", ad.Diff(x, y))
	}
	for _, t := range trs {
		x, ea := a.Trace(t)
		y, eb := b.Trace(t)
		if ea != eb {
			return fmt.Errorf("Trace(%v): error %v, want %v", t, ea, eb)
		}
		if ea == nil && ad.Canon(x) != ad.Canon(y) {
			return fmt.Errorf("Trace(%v) differs (+ got, - want):\n%s", t, ad.Diff(ad.Canon(x), ad.Canon(y)))
		}
	}
	return nil
}

type chunkReader struct {
	r io.Reader
	f func() int
}

func (c chunkReader) Read(p []byte) (int, error) {
	if n := c.f(); n < len(p) {
		p = p[:n]
	}
	return c.r.Read(p)
}

func saveCase(c *mon.Case) {
	r := c.R
	ops, trs := genOps(c, 10, true)
	trs = append(trs, 123456789)
	orig := appdash.NewMemoryStore()
	k := r.Intn(len(ops) + 1)
	for _, o := range ops[:k] {
		c.Note("%v", o)
		o.apply(orig)
	}
	if r.Intn(12) == 0 { // an emptied store
		orig.Delete(trs...)
	}
	c.Note("save, load")
	var buf bytes.Buffer
	if err := orig.Write(&buf); err != nil {
		c.Failf("write-error", "Write: %v", err)
		return
	}
	loaded := appdash.NewMemoryStore()
	if r.Intn(3) == 0 { // loading replaces what was there
		pre, _ := genOps(c, 4, false)
		for _, o := range pre {
			o.apply(loaded)
		}
	}
	rd := io.Reader(bytes.NewReader(buf.Bytes()))
	switch r.Intn(3) {
	case 0:
		rd = chunkReader{rd, func() int { return 1 + r.Intn(20) }}
	case 1:
		rd = iotest.DataErrReader(rd)
	}
	n, err := loaded.ReadFrom(rd)
	if err != nil {
		c.Failf("load-error", "ReadFrom: %v", err)
		return
	}
	ts, _ := orig.Traces(appdash.TracesOpts{})
	if int(n) != len(ts) {
		c.Failf("count", "ReadFrom reports %d traces, %d were saved", n, len(ts))
	}
	if err := sameStores(loaded, orig, trs); err != nil {
		c.Failf("loaded-differs", "after loading: %v", err)
		return
	}
	cmp := 1
	for _, o := range ops[k:] {
		c.Note("%v", o)
		e1, e2 := o.apply(orig), o.apply(loaded)
		if (e1 == nil) != (e2 == nil) {
			c.Failf("continue-error", "%v: %v on the loaded store, %v on the original", o, e2, e1)
		}
		if err := sameStores(loaded, orig, trs); err != nil {
			c.Failf("continue-differs", "after loading and then %v: %v", o, err)
			return
		}
		cmp++
	}
	// A second generation.
	var b1 bytes.Buffer
	if err := loaded.Write(&b1); err != nil {
		c.Failf("write-error", "second Write: %v", err)
		return
	}
	l2 := appdash.NewMemoryStore()
	if _, err := l2.ReadFrom(&b1); err != nil {
		c.Failf("load-error", "second ReadFrom: %v", err)
		return
	}
	if err := sameStores(l2, orig, trs); err != nil {
		c.Failf("second-generation", "after saving and loading again: %v", err)
	}
	c.Count("comparisons", cmp+1)
	c.Count("bytes saved", buf.Len())
	c.Count("operations after loading", len(ops)-k)
	if len(ts) > 0 {
		c.Mark(fmt.Sprint(ops), k)
	}
	c.Sample("%d ops, saved after %d, %d bytes, %d traces", len(ops), k, buf.Len(), len(ts))
}

func truncCase(c *mon.Case) {
	r := c.R
	ops, _ := genOps(c, 5, false)
	src := appdash.NewMemoryStore()
	for _, o := range ops {
		o.apply(src)
	}
	var buf bytes.Buffer
	if err := src.Write(&buf); err != nil {
		c.Failf("write-error", "Write: %v", err)
		return
	}
	data := buf.Bytes()
	pre, ptrs := genOps(c, 4, true)
	half := len(pre) / 2
	mk := func() (*appdash.MemoryStore, *appdash.MemoryStore) {
		a, b := appdash.NewMemoryStore(), appdash.NewMemoryStore()
		for _, o := range pre[:half] {
			o.apply(a)
			o.apply(b)
		}
		return a, b
	}
	got, ref := mk()
	tries, errs := 0, 0
	fail := func(what string, rd io.Reader, mustFail bool) bool {
		tries++
		_, err := got.ReadFrom(rd)
		if err == nil {
			if mustFail {
				c.Failf("accepted", "%s was loaded without an error", what)
				return false
			}
			got, ref = mk()
			return true
		}
		errs++
		if e := sameStores(got, ref, ptrs); e != nil {
			c.Failf("changed", "failed load (%s: %v) changed the store: %v", what, err, e)
			return false
		}
		return true
	}
	step := 1
	if len(data) > 1500 {
		step = 1 + r.Intn(len(data)/700+1)
	}
	for k := r.Intn(step); k < len(data); k += step {
		if !fail(fmt.Sprintf("%d of %d bytes", k, len(data)), bytes.NewReader(data[:k]), true) {
			return
		}
		if r.Intn(12) == 0 {
			e := errors.New("read failed")
			if !fail(fmt.Sprintf("read error after %d bytes", k), io.MultiReader(bytes.NewReader(data[:k]), iotest.ErrReader(e)), true) {
				return
			}
		}
	}
	for k := 0; k < 60; k++ {
		d := append([]byte(nil), data...)
		for q := 1 + r.Intn(3); q > 0; q-- {
			d[r.Intn(len(d))] = byte(r.Intn(256))
		}
		if !fail("altered data", bytes.NewReader(d), false) {
			return
		}
	}
	junk := make([]byte, r.Intn(200))
	r.Read(junk)
	fail("junk", bytes.NewReader(junk), false)
	// The receiving store still works as before.
	for _, o := range pre[half:] {
		o.apply(got)
		o.apply(ref)
		if e := sameStores(got, ref, ptrs); e != nil {
			c.Failf("changed-later", "after failed loads, %v: %v", o, e)
			return
		}
	}
	c.Count("loads of damaged data", tries)
	c.Count("loads that failed", errs)
	c.Mark(fmt.Sprint(ops), len(data))
	c.Sample("%d bytes, %d damaged loads", len(data), tries)
}
