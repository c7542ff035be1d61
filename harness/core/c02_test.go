package core

import (
	"fmt"
	"maps"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"
	"sourcegraph.com/sourcegraph/appdash"
	"verif/ad"
	"verif/mon"
)

func init() {
	mon.Reg("C02", "linearizable", 900, 24000, linCase)
	mon.Reg("C02", "sessions", 80, 1600, sessionCase)
}

var epoch = time.Now()

// stamps are doubled so that an equal clock reading counts as overlap.
func callStamp() int64 { return 2 * int64(time.Since(epoch)) }
func retStamp() int64  { return 2*int64(time.Since(epoch)) + 1 }

type storeIn struct {
	op  string // collect, trace, traces, delete
	id  appdash.SpanID
	ids []appdash.ID
	val string
}

// storeState maps "trace" -> "" and "trace/span" -> annotation values.
type storeState map[string]string

func spanKey(id appdash.SpanID) string {
	return fmt.Sprintf("%016x/%016x", uint64(id.Trace), uint64(id.Span))
}

func renderTrace(t *appdash.Trace) (string, error) {
	ns, err := ad.Flatten(t, 100000)
	if err != nil {
		return "", err
	}
	var ls []string
	for _, n := range ns {
		l := spanKey(n.ID) + "="
		for _, a := range n.Anns {
			l += string(a.Value) + ","
		}
		ls = append(ls, l)
	}
	sort.Strings(ls)
	return strings.Join(ls, ";"), nil
}

func (s storeState) trace(id appdash.ID) string {
	p := fmt.Sprintf("%016x/", uint64(id))
	var ls []string
	for k, v := range s {
		if strings.HasPrefix(k, p) {
			ls = append(ls, k+"="+v)
		}
	}
	sort.Strings(ls)
	return strings.Join(ls, ";")
}

func (s storeState) traces() string {
	ids := map[string]bool{}
	for k := range s {
		ids[k[:16]] = true
	}
	var out []string
	for id := range ids {
		var n uint64
		fmt.Sscanf(id, "%x", &n)
		out = append(out, s.trace(appdash.ID(n)))
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

var storeModel = porcupine.Model{
	Init: func() any { return storeState{} },
	Step: func(st, in, out any) (bool, any) {
		s, i := st.(storeState), in.(storeIn)
		switch i.op {
		case "collect":
			n := maps.Clone(s)
			n[spanKey(i.id)] += i.val
			return true, n
		case "delete":
			n := storeState{}
			for k, v := range s {
				keep := true
				for _, d := range i.ids {
					if strings.HasPrefix(k, fmt.Sprintf("%016x/", uint64(d))) {
						keep = false
					}
				}
				if keep {
					n[k] = v
				}
			}
			return true, n
		case "trace":
			return s.trace(i.id.Trace) == out.(string), s
		}
		return s.traces() == out.(string), s
	},
	Equal: func(a, b any) bool { return maps.Equal(a.(storeState), b.(storeState)) },
	DescribeOperation: func(in, out any) string {
		i := in.(storeIn)
		return fmt.Sprintf("%s %v %v %s -> %v", i.op, i.id, i.ids, i.val, out)
	},
}

func linCase(c *mon.Case) {
	r := c.R
	ms := appdash.NewMemoryStore()
	trs := []appdash.ID{1, appdash.ID(1 << 63)}
	spans := []appdash.SpanID{}
	for _, t := range trs[:1+r.Intn(2)] {
		spans = append(spans, appdash.SpanID{Trace: t, Span: 10}, appdash.SpanID{Trace: t, Span: 11, Parent: 10}, appdash.SpanID{Trace: t, Span: 12, Parent: 11}, appdash.SpanID{Trace: t, Span: 13, Parent: 99})
	}
	g := 2 + r.Intn(4)
	type plan struct{ ops []storeIn }
	plans := make([]plan, g)
	uniq := 0
	for i := range plans {
		n := 3 + r.Intn(4)
		for k := 0; k < n; k++ {
			sp := spans[r.Intn(len(spans))]
			switch x := r.Intn(20); {
			case x < 9:
				uniq++
				v := ""
				for q := 1 + r.Intn(2); q > 0; q-- {
					v += fmt.Sprintf("%d.%d,", uniq, q)
				}
				plans[i].ops = append(plans[i].ops, storeIn{op: "collect", id: sp, val: v})
			case x < 14:
				plans[i].ops = append(plans[i].ops, storeIn{op: "trace", id: sp})
			case x < 17:
				plans[i].ops = append(plans[i].ops, storeIn{op: "traces"})
			default:
				ids := []appdash.ID{sp.Trace}
				if r.Intn(4) == 0 {
					ids = trs
				}
				plans[i].ops = append(plans[i].ops, storeIn{op: "delete", ids: ids})
			}
		}
	}
	type held struct {
		ts   []*appdash.Trace
		want string
	}
	var wg sync.WaitGroup
	hist := make([][]porcupine.Operation, g)
	helds := make([][]held, g)
	start := make(chan struct{})
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, op := range plans[i].ops {
				o := porcupine.Operation{ClientId: i, Input: op, Output: ""}
				var as []ad.Ann
				if op.op == "collect" {
					for _, v := range strings.Split(strings.TrimSuffix(op.val, ","), ",") {
						as = append(as, ad.Ann{Key: "v", Value: []byte(v)})
					}
				}
				o.Call = callStamp()
				switch op.op {
				case "collect":
					err := ms.Collect(op.id, as...)
					o.Return = retStamp()
					if err != nil {
						c.Failf("collect-error", "%v", err)
					}
				case "delete":
					err := ms.Delete(op.ids...)
					o.Return = retStamp()
					if err != nil {
						c.Failf("delete-error", "%v", err)
					}
				case "trace":
					t, err := ms.Trace(op.id.Trace)
					o.Return = retStamp()
					if err == nil && t != nil {
						s, ferr := renderTrace(t)
						if ferr != nil {
							c.Failf("bad-tree", "%v", ferr)
						}
						o.Output = s
						helds[i] = append(helds[i], held{[]*appdash.Trace{t}, s})
					} else if err != appdash.ErrTraceNotFound {
						c.Failf("trace-error", "Trace: %v, %v", t, err)
					}
				case "traces":
					ts, err := ms.Traces(appdash.TracesOpts{TraceIDs: [][]appdash.ID{nil, {}}[r.Intn(2)]})
					o.Return = retStamp()
					if err != nil {
						c.Failf("traces-error", "%v", err)
					}
					out := renderAll(c, ts)
					o.Output = out
					helds[i] = append(helds[i], held{ts, out})
				}
				hist[i] = append(hist[i], o)
			}
		}()
	}
	close(start)
	wg.Wait()
	if c.Failed() {
		return
	}
	var all []porcupine.Operation
	for _, h := range hist {
		all = append(all, h...)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].Call < all[j].Call })
	var order, sig []string
	for _, o := range all {
		order = append(order, fmt.Sprintf("client %d [%d,%d] %s", o.ClientId, o.Call, o.Return, storeModel.DescribeOperation(o.Input, o.Output)))
		sig = append(sig, fmt.Sprint(o.ClientId, o.Input.(storeIn).op))
	}
	overlap := 0
	for i := 1; i < len(all); i++ {
		for j := 0; j < i; j++ {
			if all[j].Return > all[i].Call {
				overlap++
				break
			}
		}
	}
	c.Count("operations", len(all))
	c.Count("operations overlapping an earlier one", overlap)
	if len(all) > 2 {
		c.Mark(sig)
	}
	c.Sample("%d clients: %s", g, strings.Join(sig, " "))
	switch porcupine.CheckOperationsTimeout(storeModel, all, 30*time.Second) {
	case porcupine.Illegal:
		c.Failf("not-linearizable", "no sequential order explains this history:\n%s", strings.Join(order, "\n"))
	case porcupine.Unknown:
		c.Count("histories too hard to check", 1)
	default:
		c.Count("histories linearizable", 1)
	}
	// Snapshots must survive anything that happens later.
	for _, s := range spans {
		ms.Collect(s, ad.Ann{Key: "v", Value: []byte("late")})
	}
	ms.Collect(appdash.SpanID{Trace: 1, Span: 99, Parent: 10})
	ms.Delete(trs[r.Intn(2)])
	for _, hs := range helds {
		for _, h := range hs {
			c.Count("snapshots re-read", 1)
			var got string
			if len(h.ts) == 1 && !strings.Contains(h.want, "|") {
				got, _ = renderTrace(h.ts[0])
			} else {
				got = renderAll(c, h.ts)
			}
			if got != h.want {
				c.Failf("snapshot-changed", "a returned trace changed from\n%s\nto\n%s", h.want, got)
			}
		}
	}
}

func renderAll(c *mon.Case, ts []*appdash.Trace) string {
	var ss []string
	for _, t := range ts {
		s, err := renderTrace(t)
		if err != nil {
			c.Failf("bad-tree", "%v", err)
		}
		ss = append(ss, s)
	}
	sort.Strings(ss)
	return strings.Join(ss, "|")
}

// sessionCase runs many writers and readers: every reader sees each span's
// annotations grow monotonically and never misses what was collected before.
func sessionCase(c *mon.Case) {
	r := c.R
	ms := appdash.NewMemoryStore()
	const tr = appdash.ID(7)
	writers, per := 2+r.Intn(5), 30+r.Intn(60)
	nspan := 1 + r.Intn(8)
	spans := make([]appdash.SpanID, nspan)
	for i := range spans {
		p := appdash.ID(0)
		if i > 0 {
			p = appdash.ID(100 + r.Intn(nspan))
		}
		spans[i] = appdash.SpanID{Trace: tr, Span: appdash.ID(100 + i), Parent: p}
	}
	seeds := make([]int64, writers+3)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	var wg, rg sync.WaitGroup
	stop := make(chan struct{})
	for rd := 0; rd < 3; rd++ {
		rg.Add(1)
		go func() {
			defer rg.Done()
			last := map[appdash.ID][]ad.Ann{}
			reads, grew := 0, 0
			for {
				select {
				case <-stop:
					c.Count("reads", reads)
					c.Count("reads that saw growth", grew)
					return
				default:
				}
				var t *appdash.Trace
				if rd == 0 {
					ts, _ := ms.Traces(appdash.TracesOpts{})
					if len(ts) == 0 {
						continue
					}
					t = ts[0]
				} else {
					t, _ = ms.Trace(tr)
				}
				if t == nil {
					continue
				}
				ns, err := ad.Flatten(t, 10000)
				if err != nil {
					c.Failf("bad-tree", "%v", err)
					return
				}
				cur := map[appdash.ID][]ad.Ann{}
				g := false
				for _, n := range ns {
					cur[n.ID.Span] = ad.CopyAnns(n.Anns)
				}
				for s, as := range last {
					if len(cur[s]) < len(as) || !ad.AnnsEqual(cur[s][:len(as)], as) {
						c.Failf("went-back", "span %v had %d annotations and now has %d, or they differ", s, len(as), len(cur[s]))
						return
					}
					g = g || len(cur[s]) > len(as)
				}
				last = cur
				reads++
				if g {
					grew++
				}
			}
		}()
	}
	for w := 0; w < writers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := randNew(seeds[w])
			mine := map[appdash.ID]int{}
			for k := 0; k < per; k++ {
				s := spans[rr.Intn(nspan)]
				a := ad.Ann{Key: fmt.Sprintf("w%d", w), Value: []byte(fmt.Sprint(mine[s.Span]))}
				mine[s.Span]++
				ms.Collect(s, a)
				if k%7 == 0 { // read your own writes
					t, err := ms.Trace(tr)
					if err != nil {
						c.Failf("lost-write", "Trace: %v", err)
						return
					}
					ns, err := ad.Flatten(t, 10000)
					if err != nil {
						c.Failf("bad-tree", "%v", err)
						return
					}
					for _, n := range ns {
						next := 0
						for _, x := range n.Anns {
							if x.Key == a.Key {
								if string(x.Value) != fmt.Sprint(next) {
									c.Failf("order", "writer %d's annotations on span %v are out of order at %d: %s", w, n.ID, next, x.Value)
								}
								next++
							}
						}
						if next != mine[n.ID.Span] {
							c.Failf("lost-write", "writer %d collected %d annotations on %v and reads back %d", w, mine[n.ID.Span], n.ID, next)
						}
					}
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	rg.Wait()
	t, err := ms.Trace(tr)
	if err != nil {
		c.Failf("lost-trace", "%v", err)
		return
	}
	ns, _ := ad.Flatten(t, 10000)
	total := 0
	for _, n := range ns {
		total += len(n.Anns)
	}
	if total != writers*per {
		c.Failf("conservation", "%d annotations collected, %d present", writers*per, total)
	}
	c.Count("collections", total)
	c.Mark(writers, per, nspan, seeds)
	c.Sample("%d writers x %d collections on %d spans, 3 readers", writers, per, nspan)
}
