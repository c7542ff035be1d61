package core

import (
	"fmt"
	"sort"
	"strings"

	"verif/ad"
	"verif/mon"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() {
	mon.Reg("C07", "multistore", 2400, 60000, multiStoreCase)
	mon.Reg("C07", "multiqueryer", 2400, 60000, multiQueryCase)
	mon.Reg("C07", "memory-listing", 1600, 40000, listingCase)
}

// member is a store whose answers the monitor decides.
type member struct {
	name   string
	log    *[]string
	colErr error
	traces map[appdash.ID]*appdash.Trace
	trErr  map[appdash.ID]error
	list   []*appdash.Trace
	lErr   error
	opts   []appdash.TracesOpts
}

func (m *member) Collect(id appdash.SpanID, as ...ad.Ann) error {
	*m.log = append(*m.log, fmt.Sprintf("%s %v %s", m.name, id, ad.AnnString(as)))
	return m.colErr
}
func (m *member) Trace(id appdash.ID) (*appdash.Trace, error) {
	*m.log = append(*m.log, fmt.Sprintf("%s trace %v", m.name, id))
	if err := m.trErr[id]; err != nil {
		return nil, err
	}
	if t := m.traces[id]; t != nil {
		return t, nil
	}
	return nil, appdash.ErrTraceNotFound
}
func (m *member) Traces(o appdash.TracesOpts) ([]*appdash.Trace, error) {
	m.opts = append(m.opts, o)
	return m.list, m.lErr
}

// nest combines stores in a random shape that keeps their order.
func nestStores(c *mon.Case, ms []*member, depth int) appdash.Store {
	var parts []appdash.Store
	for i := 0; i < len(ms); {
		if depth < 3 && c.R.Intn(3) == 0 {
			k := i + c.R.Intn(len(ms)-i+1)
			parts = append(parts, nestStores(c, ms[i:k], depth+1))
			i = k
			continue
		}
		parts = append(parts, ms[i])
		i++
	}
	return appdash.MultiStore(parts...)
}

func nestQueryers(c *mon.Case, ms []*member, depth int) appdash.Queryer {
	var parts []appdash.Queryer
	for i := 0; i < len(ms); {
		if depth < 3 && c.R.Intn(3) == 0 {
			k := i + c.R.Intn(len(ms)-i+1)
			parts = append(parts, nestQueryers(c, ms[i:k], depth+1))
			i = k
			continue
		}
		parts = append(parts, ms[i])
		i++
	}
	return appdash.MultiQueryer(parts...)
}

func mkTrace(id appdash.ID, who string) *appdash.Trace {
	return &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: id, Span: 1}, Annotations: appdash.Annotations{{Key: who}}}}
}

func multiStoreCase(c *mon.Case) {
	r := c.R
	n := r.Intn(5)
	var log []string
	ids := ad.IDs(r, 4)
	var ms []*member
	for i := 0; i < n; i++ {
		m := &member{name: fmt.Sprint("m", i), log: &log, traces: map[appdash.ID]*appdash.Trace{}, trErr: map[appdash.ID]error{}}
		if r.Intn(5) == 0 {
			m.colErr = ad.Fault(r.Int(), fmt.Sprint("collect error of m", i))
		}
		for _, id := range ids {
			switch r.Intn(6) {
			case 0, 1:
				m.traces[id] = mkTrace(id, m.name)
			case 2:
				if r.Intn(2) == 0 {
					m.trErr[id] = ad.Fault(r.Int(), fmt.Sprint("trace error of m", i))
				}
			}
		}
		ms = append(ms, m)
	}
	s := nestStores(c, ms, 0)
	for k := 0; k < 3; k++ {
		id := appdash.SpanID{Trace: ad.ID(r), Span: ad.ID(r), Parent: ad.ID(r)}
		as := ad.Anns(r, r.Intn(4))
		log = nil
		err := s.Collect(id, as...)
		var want []string
		var wantErr error
		for _, m := range ms {
			want = append(want, fmt.Sprintf("%s %v %s", m.name, id, ad.AnnString(as)))
			if m.colErr != nil {
				wantErr = m.colErr
				break
			}
		}
		if err != wantErr {
			c.Failf("collect-error", "Collect = %v, want %v", err, wantErr)
		}
		if strings.Join(log, "|") != strings.Join(want, "|") {
			c.Failf("fan-out", "members received\n%s\nwant\n%s", strings.Join(log, "\n"), strings.Join(want, "\n"))
		}
	}
	hits := 0
	for _, id := range append(ids, 77) {
		t, err := s.Trace(id)
		var wantT *appdash.Trace
		wantErr := appdash.ErrTraceNotFound
		for _, m := range ms {
			if m.trErr[id] != nil {
				wantErr = m.trErr[id]
				break
			}
			if m.traces[id] != nil {
				wantT, wantErr = m.traces[id], nil
				break
			}
		}
		if err != wantErr || (wantErr == nil && (t == nil || ad.Canon(t) != ad.Canon(wantT))) {
			c.Failf("lookup", "Trace(%v) = %v, %v; want %v, %v", id, t, err, wantT, wantErr)
		}
		if wantErr == nil {
			hits++
		}
	}
	c.Count("lookups answered by a member", hits)
	c.Count("calls", 3+len(ids)+1)
	if n > 0 {
		c.Mark(n, hits, fmt.Sprint(log), ids)
	}
	c.Sample("%d members, %d of %d lookups hit", n, hits, len(ids)+1)
}

func multiQueryCase(c *mon.Case) {
	r := c.R
	n := r.Intn(5)
	ids := ad.IDs(r, 6)
	if r.Intn(3) == 0 {
		ids[0] = 0
	}
	var ms []*member
	for i := 0; i < n; i++ {
		m := &member{name: fmt.Sprint("m", i)}
		for _, k := range r.Perm(len(ids)) {
			if r.Intn(2) == 0 {
				m.list = append(m.list, mkTrace(ids[k], m.name))
			}
		}
		if r.Intn(8) == 0 {
			m.list, m.lErr = nil, ad.Fault(r.Int(), "list error of "+m.name)
		}
		ms = append(ms, m)
	}
	q := nestQueryers(c, ms, 0)
	var o appdash.TracesOpts
	if r.Intn(2) == 0 {
		o.TraceIDs = []appdash.ID{} // asks for as little as none
	}
	for k := r.Intn(4); k > 0; k-- {
		o.TraceIDs = append(o.TraceIDs, ids[r.Intn(len(ids))])
	}
	o.Timespan = appdash.Timespan{S: randTime(r), E: randTime(r)}
	got, err := q.Traces(o)
	var want []*appdash.Trace
	var wantErr error
	seen := map[appdash.ID]bool{}
	asked := 0
	for _, m := range ms {
		asked++
		if m.lErr != nil {
			want, wantErr = nil, m.lErr
			break
		}
		for _, t := range m.list {
			if !seen[t.ID.Trace] {
				seen[t.ID.Trace] = true
				want = append(want, t)
			}
		}
	}
	if err != wantErr {
		c.Failf("error", "Traces = %v, want error %v", err, wantErr)
		return
	}
	if err == nil && ad.CanonAll(got) != ad.CanonAll(want) {
		c.Failf("union", "listing differs (+ got, - want):\n%s", ad.Diff(ad.CanonAll(got), ad.CanonAll(want)))
	}
	for i, m := range ms[:asked] {
		if len(m.opts) == 0 {
			c.Failf("not-asked", "member %d was not asked", i)
		}
		for _, x := range m.opts {
			if fmt.Sprint(x) != fmt.Sprint(o) {
				c.Failf("options", "member %d was asked with %v, the caller said %v", i, x, o)
			}
		}
	}
	c.Count("members asked", asked)
	c.Count("traces listed", len(got))
	if n > 0 {
		c.Mark(n, ids, len(want), fmt.Sprint(o))
	}
	c.Sample("%d members, options %v: %d traces, error %v", n, o.TraceIDs, len(got), err)
}

func listingCase(c *mon.Case) {
	r := c.R
	ops, trs := genOps(c, 5, true)
	mk := func() *appdash.MemoryStore { return appdash.NewMemoryStore() }
	nm := 1 + r.Intn(3)
	var mems []*appdash.MemoryStore
	var qs []appdash.Queryer
	var ss []appdash.Store
	for i := 0; i < nm; i++ {
		m := mk()
		mems = append(mems, m)
		qs = append(qs, m)
		ss = append(ss, m)
	}
	// Each store gets some of the operations, and stored says what it must list.
	stored := make([]map[appdash.ID]bool, nm)
	for i := range stored {
		stored[i] = map[appdash.ID]bool{}
	}
	for _, o := range ops {
		i := r.Intn(nm)
		o.apply(mems[i])
		if o.del {
			delete(stored[i], o.id.Trace)
		} else {
			stored[i][o.id.Trace] = true
		}
	}
	all := append([]appdash.ID(nil), trs...)
	all = append(all, 5551, 5552)
	for k := 0; k < 6; k++ {
		var o appdash.TracesOpts
		just := map[appdash.ID]bool{}
		if r.Intn(2) == 0 {
			o.TraceIDs = []appdash.ID{} // asks for as little as none
		}
		for q := r.Intn(4); q > 0; q-- {
			id := all[r.Intn(len(all))]
			o.TraceIDs = append(o.TraceIDs, id)
			just[id] = true
		}
		check := func(what string, q appdash.Queryer, has func(appdash.ID) bool, tr func(appdash.ID) (*appdash.Trace, error)) {
			got, err := q.Traces(o)
			if err != nil {
				c.Failf("error", "%s: Traces(%v): %v", what, o.TraceIDs, err)
				return
			}
			var g, w []string
			for _, t := range got {
				g = append(g, fmt.Sprint(t.ID.Trace))
				one, err := tr(t.ID.Trace)
				if err != nil || ad.Canon(one) != ad.Canon(t) {
					c.Failf("listing-differs", "%s: the listed trace %v is not the one looked up (%v)", what, t.ID.Trace, err)
				}
			}
			for _, id := range trs {
				if has(id) && (len(just) == 0 || just[id]) {
					w = append(w, fmt.Sprint(id))
				}
			}
			sort.Strings(g)
			sort.Strings(w)
			if strings.Join(g, " ") != strings.Join(w, " ") {
				c.Failf("listing", "%s: Traces(%v) lists %v, want %v", what, o.TraceIDs, g, w)
			}
			c.Count("listings", 1)
			c.Count("traces listed", len(g))
		}
		for i := range mems {
			check("memory store", mems[i], func(id appdash.ID) bool { return stored[i][id] }, mems[i].Trace)
		}
		check("combined stores", appdash.MultiQueryer(qs...), func(id appdash.ID) bool {
			for i := range mems {
				if stored[i][id] {
					return true
				}
			}
			return false
		}, appdash.MultiStore(ss...).Trace)
	}
	c.Mark(fmt.Sprint(ops), nm)
	c.Sample("%d stores, %d operations over traces %v", nm, len(ops), trs)
}
