package core

import (
	"fmt"
	"math/rand"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/ad"
	"verif/mon"
)

func init() {
	mon.Reg("C01", "tree-small", 2400, 60000, func(c *mon.Case) { treeCase(c, false) })
	mon.Reg("C01", "tree-large", 48, 900, func(c *mon.Case) { treeCase(c, true) })
}

// genSpans generates the spans of one trace. simple is true when the trace has exactly one root and no span is
// named twice with different parents.
func genSpans(r *rand.Rand, tr appdash.ID, n int) (spans []appdash.SpanID, kind string) {
	ids := ad.IDs(r, n+4)
	extra := ids[n:]
	ids = ids[:n]
	kind = []string{"tree", "tree", "tree", "chain", "star", "orphans", "orphans", "cycle", "cycle", "self", "multiroot", "rootless", "zerospan", "zeroroot", "tworing", "chaos", "chaos"}[r.Intn(17)]
	mk := func(s, p appdash.ID) { spans = append(spans, appdash.SpanID{Trace: tr, Span: s, Parent: p}) }
	for i, id := range ids {
		p := appdash.ID(0)
		if i > 0 {
			switch kind {
			case "chain":
				p = ids[i-1]
			case "star":
				p = ids[0]
			default:
				p = ids[r.Intn(i)]
				if r.Intn(3) == 0 {
					p = ids[max(0, i-1-r.Intn(2))]
				}
			}
			if kind == "orphans" && r.Intn(3) == 0 {
				p = extra[r.Intn(len(extra))]
			}
		}
		mk(id, p)
	}
	switch kind {
	case "cycle":
		// Turn a stretch of spans into a ring; others may hang off it.
		if n > 2 {
			k := 1 + r.Intn(min(n-1, 5))
			if r.Intn(3) == 0 {
				k = 1 + r.Intn(n-1)
			}
			at := 1 + r.Intn(n-k)
			for j := 0; j < k; j++ {
				spans[at+j].Parent = ids[at+(j+1)%k]
			}
			if r.Intn(3) == 0 { // no root at all
				spans = spans[1:]
			}
		}
	case "tworing":
		if n > 5 {
			spans[1].Parent, spans[2].Parent = ids[2], ids[1]
			spans[3].Parent, spans[4].Parent = ids[4], ids[3]
		}
	case "self":
		for i := range spans {
			if i > 0 && r.Intn(3) == 0 {
				spans[i].Parent = spans[i].Span
			}
		}
		if r.Intn(4) == 0 {
			spans[0].Parent = spans[0].Span
		}
	case "multiroot":
		for i := range spans {
			if i > 0 && r.Intn(3) == 0 {
				spans[i].Parent = 0
			}
		}
	case "chaos": // any parent relation, including span ID 0 and several roots
		for i := range spans {
			switch r.Intn(6) {
			case 0:
				spans[i].Parent = 0
			case 1:
				spans[i].Parent = extra[r.Intn(len(extra))]
			case 2:
				spans[i].Parent = spans[i].Span
			default:
				spans[i].Parent = ids[r.Intn(n)]
			}
		}
		if r.Intn(2) == 0 {
			spans[r.Intn(n)].Span = 0
		}
	case "rootless":
		spans[0].Parent = extra[0]
	case "zerospan": // a span whose ID is 0, below the root
		if n > 1 {
			i := 1 + r.Intn(n-1)
			old := spans[i].Span
			spans[i].Span = 0
			for j := range spans {
				if spans[j].Parent == old {
					spans[j].Parent = ids[0]
				}
			}
		}
	case "zeroroot": // the root's span ID is 0: nobody can name it as parent
		old := spans[0].Span
		spans[0].Span = 0
		for j := range spans {
			if j > 0 && spans[j].Parent == old {
				spans[j].Parent = extra[r.Intn(len(extra))]
			}
		}
	}
	return spans, kind
}

// treeRef is the reference for one trace: what was collected so far.
type treeRef struct {
	order []appdash.ID
	id    map[appdash.ID]appdash.SpanID
	anns  map[appdash.ID][]ad.Ann
	fuzzy bool // a span was collected with differing parents
}

func newTreeRef() *treeRef {
	return &treeRef{id: map[appdash.ID]appdash.SpanID{}, anns: map[appdash.ID][]ad.Ann{}}
}

func (t *treeRef) collect(id appdash.SpanID, as []ad.Ann) {
	if old, ok := t.id[id.Span]; ok {
		if old != id {
			t.fuzzy = true
		}
	} else {
		t.id[id.Span] = id
		t.order = append(t.order, id.Span)
	}
	t.anns[id.Span] = append(t.anns[id.Span], as...)
}

// ring returns the spans from which following parents leads back to themselves.
func (t *treeRef) ring() map[appdash.ID]bool {
	out := map[appdash.ID]bool{}
	state := map[appdash.ID]int{} // 1 + index of the walk that visited it
	for i, s := range t.order {
		var path []appdash.ID
		cur := s
		for {
			x, ok := t.id[cur]
			if !ok || state[cur] != 0 {
				break
			}
			state[cur] = i + 1
			path = append(path, cur)
			if x.Parent == 0 {
				break
			}
			cur = x.Parent
		}
		if x, ok := t.id[cur]; ok && x.Parent != 0 && state[cur] == i+1 {
			in := false
			for _, p := range path {
				if p == cur {
					in = true
				}
				if in {
					out[p] = true
				}
			}
		}
	}
	return out
}

// check compares a returned trace with the reference.
func (t *treeRef) check(got *appdash.Trace) error {
	ns, err := ad.Flatten(got, 4*len(t.id)+16)
	if err != nil {
		return err
	}
	seen := map[appdash.ID]ad.Node{}
	for _, n := range ns {
		if _, dup := seen[n.ID.Span]; dup {
			return fmt.Errorf("span %v appears twice", n.ID)
		}
		seen[n.ID.Span] = n
		want, ok := t.id[n.ID.Span]
		if !ok {
			return fmt.Errorf("span %v was never collected", n.ID)
		}
		if !t.fuzzy && want != n.ID {
			return fmt.Errorf("span %v has ID %v in the tree", want, n.ID)
		}
		if !ad.AnnsEqual(n.Anns, t.anns[n.ID.Span]) {
			return fmt.Errorf("span %v has annotations %s, collected %s", n.ID, ad.AnnString(n.Anns), ad.AnnString(t.anns[n.ID.Span]))
		}
	}
	for s, id := range t.id {
		if _, ok := seen[s]; !ok {
			return fmt.Errorf("collected span %v is missing from the tree (%d of %d spans present)", id, len(seen), len(t.id))
		}
	}
	if t.fuzzy {
		return nil
	}
	roots := 0
	var root appdash.SpanID
	for _, id := range t.id {
		if id.Parent == 0 {
			roots++
			root = id
		}
	}
	if roots != 1 {
		return nil
	}
	if !ns[0].Top || ns[0].ID != root {
		return fmt.Errorf("top of the tree is %v, root span is %v", ns[0].ID, root)
	}
	ring := t.ring()
	for s, n := range seen {
		id := t.id[s]
		if id == root || ring[s] {
			continue
		}
		if _, ok := t.id[id.Parent]; ok {
			if n.Up.Span != id.Parent {
				return fmt.Errorf("span %v hangs under %v although its parent was collected", id, n.Up)
			}
		} else if n.Up != root {
			return fmt.Errorf("span %v, whose parent was not collected, hangs under %v and not under the root", id, n.Up)
		}
	}
	return nil
}

func treeCase(c *mon.Case, large bool) {
	r := c.R
	ms := appdash.NewMemoryStore()
	nt := 1 + r.Intn(3)
	trIDs := ad.IDs(r, nt)
	if r.Intn(6) == 0 {
		trIDs[0] = 0
	}
	type op struct {
		id appdash.SpanID
		as []ad.Ann
	}
	var ops []op
	kinds := ""
	uniq := 0
	for _, tr := range trIDs {
		n := 1 + r.Intn(8)
		if r.Intn(5) == 0 {
			n = 1 + r.Intn(40)
		}
		if large {
			n = []int{200, 700, 1500, 2500}[r.Intn(4)]
		}
		spans, kind := genSpans(r, tr, n)
		kinds += fmt.Sprintf("%s/%d ", kind, n)
		var to []op
		for _, s := range spans {
			pieces := 1
			if r.Intn(3) == 0 {
				pieces = 1 + r.Intn(4)
			}
			var prev []ad.Ann
			for p := 0; p < pieces; p++ {
				var as []ad.Ann
				for k := r.Intn(4); k > 0; k-- {
					uniq++
					as = append(as, ad.Uniq("k", uniq))
				}
				if r.Intn(6) == 0 {
					as = append(as, ad.Anns(r, 2)...)
				}
				switch {
				case r.Intn(6) == 0:
					as = append([]ad.Ann(nil), prev...) // the same once more
				case len(as) > 0 && r.Intn(6) == 0:
					as = append(as, as[r.Intn(len(as))])
				}
				prev = as
				id := s
				if p > 0 && kind == "multiroot" && r.Intn(3) == 0 {
					id.Parent = ad.ID(r) // the same span named with another parent
				}
				to = append(to, op{id, as})
			}
		}
		switch r.Intn(5) {
		case 0: // children first
			for i, j := 0, len(to)-1; i < j; i, j = i+1, j-1 {
				to[i], to[j] = to[j], to[i]
			}
		case 1: // in order
		case 2: // root last
			r.Shuffle(len(to), func(i, j int) { to[i], to[j] = to[j], to[i] })
			for i := range to {
				if to[i].id.Parent == 0 {
					to = append(append(append([]op{}, to[:i]...), to[i+1:]...), to[i])
					break
				}
			}
		default:
			r.Shuffle(len(to), func(i, j int) { to[i], to[j] = to[j], to[i] })
		}
		ops = append(ops, to...)
	}
	if nt > 1 && r.Intn(3) > 0 {
		// Interleave the traces, keeping each trace's order.
		per := map[appdash.ID][]op{}
		for _, o := range ops {
			per[o.id.Trace] = append(per[o.id.Trace], o)
		}
		var mix []op
		for len(mix) < len(ops) {
			t := trIDs[r.Intn(nt)]
			if len(per[t]) > 0 {
				mix = append(mix, per[t][0])
				per[t] = per[t][1:]
			}
		}
		ops = mix
	}
	refs := map[appdash.ID]*treeRef{}
	c.Sample("%d collections: %s", len(ops), kinds)
	checks := 0
	for i, o := range ops {
		if refs[o.id.Trace] == nil {
			refs[o.id.Trace] = newTreeRef()
		}
		refs[o.id.Trace].collect(o.id, o.as)
		c.Note("collect %v %s", o.id, ad.AnnString(o.as))
		if err := ms.Collect(o.id, o.as...); err != nil {
			c.Failf("collect-error", "Collect(%v): %v", o.id, err)
			return
		}
		c.Mark(o.id)
		if large && i != len(ops)-1 && r.Intn(len(ops)/4+1) != 0 {
			continue
		}
		got, err := ms.Trace(o.id.Trace)
		if err != nil {
			c.Failf("lost-trace", "Trace(%v) after collecting %v: %v", o.id.Trace, o.id, err)
			return
		}
		checks++
		if err := refs[o.id.Trace].check(got); err != nil {
			c.Failf("tree", "after %d of %d collections (%s), trace %v: %v", i+1, len(ops), kinds, o.id.Trace, err)
			return
		}
	}
	all, err := ms.Traces(appdash.TracesOpts{})
	if err != nil || len(all) != len(refs) {
		c.Failf("listing", "Traces() = %d traces, %v; %d were collected", len(all), err, len(refs))
		return
	}
	for _, t := range all {
		if t == nil || refs[t.ID.Trace] == nil {
			c.Failf("listing", "Traces() lists an unknown trace")
			return
		}
		if err := refs[t.ID.Trace].check(t); err != nil {
			c.Failf("tree", "in the final listing (%s), trace %v: %v", kinds, t.ID.Trace, err)
			return
		}
		checks++
	}
	c.Count("collections", len(ops))
	c.Count("tree comparisons", checks)
}
