package app

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	"verif/ad"
	"verif/mon"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
)

func init() {
	mon.Reg("C24", "profile", 1500, 30000, profiles)
	mon.Reg("C24", "aggregate", 500, 10000, aggregates)
	mon.Reg("C24", "timeline", 500, 10000, timelines)
	mon.Reg("C24", "scale", 12, 120, func(c *mon.Case) {
		n := 300 + c.R.Intn(2000)
		switch c.Idx % 3 {
		case 0:
			profilesOf(c, n)
		case 1:
			aggregatesOf(c, n/2)
		default:
			timelinesOf(c, n/2) // (encoding deep ones takes quadratic time)
		}
	})
	mon.Reg("C24", "changing", 250, 5000, changing)
	mon.Reg("C24", "dashboard", 400, 8000, dashboards)
}

// timed is what was recorded about one span.
type timed struct {
	name  string
	spans [][2]time.Time
}

// times generates the start and end of events.
func times(r *rand.Rand) func() (time.Time, time.Time) {
	base := time.Date(2016, 3, 1+r.Intn(20), r.Intn(24), r.Intn(60), 0, 0, time.UTC)
	if r.Intn(6) == 0 {
		base = time.Date(1971+r.Intn(150), 3, 1+r.Intn(20), r.Intn(24), r.Intn(60), 0, 0, time.UTC)
	}
	zone := time.UTC
	if r.Intn(3) == 0 {
		zone = time.FixedZone("", (r.Intn(27)-13)*3600)
	}
	return func() (time.Time, time.Time) {
		s := base.Add(time.Duration(r.Int63n(int64(10 * time.Second))))
		var d time.Duration
		switch r.Intn(8) {
		case 0:
		case 1: // rounds down to 0 or up to 1
			d = time.Duration(r.Int63n(int64(time.Millisecond)))
		case 2:
			d = time.Duration(r.Int63n(1000))*time.Millisecond + 500*time.Microsecond + time.Duration(r.Intn(3)-1)
		case 3:
			d = time.Duration(r.Int63n(1000)) * time.Millisecond
		case 4:
			d = time.Duration(r.Int63n(int64(100 * 24 * time.Hour)))
		case 5:
			d = -time.Duration(r.Int63n(int64(time.Second))) // clocks differ
		default:
			d = time.Duration(r.Int63n(int64(2 * time.Second)))
		}
		return s.In(zone), s.Add(d).In(zone)
	}
}

// halfSet are the annotations of a timespan event of which a time is not set.
func halfSet(r *rand.Rand, t func() (s, e time.Time), used []ad.Ann) []ad.Ann {
	s, e := t()
	switch r.Intn(3) {
	case 0:
		s = time.Time{}
	case 1:
		e = time.Time{}
	default:
		s, e = time.Time{}, time.Time{}
	}
	var as []ad.Ann
	switch r.Intn(4) {
	case 0:
		as = evAnns(appdash.Timespan{S: s, E: e})
	case 1:
		as = evAnns(&httptrace.ServerEvent{ServerRecv: s, ServerSend: e})
	case 2:
		as = evAnns(&httptrace.ClientEvent{ClientSend: s, ClientRecv: e})
	case 3:
		as = evAnns(&sqltrace.SQLEvent{SQL: "SELECT", ClientSend: s, ClientRecv: e})
	}
	for _, a := range as {
		for _, u := range used {
			if strings.HasPrefix(a.Key, "_schema:") && strings.EqualFold(a.Key, u.Key) || a.Key == u.Key {
				return nil // there is one of this schema
			}
		}
	}
	return as
}

// genTimed generates a trace with timespans and what they are.
func genTimed(r *rand.Rand, trace appdash.ID, n int, complete bool, rec map[appdash.SpanID]timed) []node {
	t := times(r)
	names := []string{"a", "b", " ", "GET /", "<b>\"x\"</b>", "日本", "x: y"}
	if r.Intn(4) == 0 {
		// Long names, of which some differ in their last character only.
		l := strings.Repeat("long ", 1+r.Intn(400))
		names = append(names, l+"1", l+"2", strings.Repeat("é", r.Intn(300))+".")
	}
	var infos []timed
	ns := genTrace(r, trace, n, !complete, func(i int) []ad.Ann {
		k := r.Intn(4)
		if complete && k == 0 {
			k = 1
		}
		as, sp := timespans(r, k, t)
		in := timed{spans: sp}
		if complete || r.Intn(4) > 0 {
			in.name = names[r.Intn(len(names))]
			as = append(as, evAnns(appdash.SpanName(in.name))...)
		}
		infos = append(infos, in)
		return as
	})
	for i := range ns {
		rec[ns[i].id] = infos[i]
	}
	return ns
}

// prof is one row of a profile.
type prof struct {
	Name                        string
	URL                         string
	Time, TimeChildren, TimeCum int64
}

// longest is the longest of the timespans, in milliseconds, rounded.
func longest(spans [][2]time.Time) int64 {
	var ms int64
	for _, s := range spans {
		d := int64(s[1].Sub(s[0]))
		if d < 0 {
			continue
		}
		if v := (d + 500000) / 1000000; v > ms {
			ms = v
		}
	}
	return ms
}

// wantProf computes the profile of a tree from what was recorded.
func wantProf(t *appdash.Trace, rec map[appdash.SpanID]timed) (rows []prof, cum int64) {
	in := rec[t.ID]
	p := prof{Name: in.name, Time: longest(in.spans)}
	if p.Name == "" {
		p.Name = t.ID.Span.String()
	}
	p.TimeChildren, p.TimeCum = p.Time, p.Time
	rows = append(rows, p)
	for _, s := range t.Sub {
		rs, c := wantProf(s, rec)
		rows = append(rows, rs...)
		p.TimeChildren += rs[0].Time
		p.TimeCum += c
	}
	rows[0] = p
	return rows, p.TimeCum
}

func profiles(c *mon.Case) {
	n := 1 + c.R.Intn(8)
	if c.R.Intn(10) == 0 {
		n = 1 + c.R.Intn(60)
	}
	profilesOf(c, n)
}

func profilesOf(c *mon.Case, n int) {
	r := c.R
	a, s := memApp()
	rec := map[appdash.SpanID]timed{}
	id := distinct(r, 1)[0]
	collect(c, s, genTimed(r, id, n, false, rec))
	tr, err := s.Trace(id)
	if err != nil {
		panic("harness: " + err.Error())
	}
	profileOf(c, a, tr, rec, 3)
	c.Sample("profile of %d spans", len(flat(tr)))
}

// profileOf compares the profiles of the trace and of spans of it.
func profileOf(c *mon.Case, a http.Handler, tr *appdash.Trace, rec map[appdash.SpanID]timed, times int) {
	r := c.R
	id := tr.ID.Trace
	all := flat(tr)
	for k := 0; k < times; k++ {
		t, u := tr, "/traces/"+id.String()+"/profile"
		if k > 0 {
			t = all[r.Intn(len(all))]
			u = fmt.Sprintf("/traces/%v/%v/profile", id, t.ID.Span)
		}
		p := get(a, u)
		var got []prof
		if err := json.Unmarshal([]byte(p.body), &got); !p.ok() || err != nil {
			c.Failf("profile", "GET %s is answered with status %d and %s (%v)", u, p.status, cut(p.body), err)
			return
		}
		want, _ := wantProf(t, rec)
		if len(got) != len(want) {
			c.Failf("profile", "the profile lists %d spans of a tree of %d", len(got), len(want))
			return
		}
		for i := range want {
			g := got[i]
			g.URL = ""
			if g != want[i] {
				c.Failf("profile", "row %d of the profile is %+v, should be %+v", i, g, want[i])
				return
			}
		}
		// The rows lead to the pages of their spans.
		i := r.Intn(len(got))
		if q := get(a, got[i].URL); !q.ok() {
			c.Failf("profile", "the link %s of profile row %d is answered with status %d", got[i].URL, i, q.status)
		} else if doc := parse(q.body); byID(doc, "span-"+flat(t)[i].ID.Span.String()) == nil {
			c.Failf("profile", "the link %s of profile row %d does not lead to span %v", got[i].URL, i, flat(t)[i].ID)
		}
		c.Count("profile rows compared", len(got))
		c.Mark(fmt.Sprint(want))
	}
}

func flat(t *appdash.Trace) []*appdash.Trace {
	out := []*appdash.Trace{t}
	for _, s := range t.Sub {
		out = append(out, flat(s)...)
	}
	return out
}

func aggregates(c *mon.Case) {
	n := 1 + c.R.Intn(6)
	if c.R.Intn(20) == 0 {
		n = 0
	}
	aggregatesOf(c, n)
}

func aggregatesOf(c *mon.Case, n int) {
	r := c.R
	a, s := memApp()
	rec := map[appdash.SpanID]timed{}
	ids := distinct(r, n)
	trees := map[appdash.ID]*appdash.Trace{}
	for _, id := range ids {
		collect(c, s, genTimed(r, id, 1+r.Intn(5), false, rec))
	}
	for _, id := range ids {
		trees[id], _ = s.Trace(id)
	}
	aggregateOf(c, a, ids, trees, rec, 4)
	c.Sample("aggregates over %d traces", len(ids))
}

// aggregateOf compares the aggregates of some of the traces.
func aggregateOf(c *mon.Case, a http.Handler, ids []appdash.ID, trees map[appdash.ID]*appdash.Trace, rec map[appdash.SpanID]timed, times int) {
	r := c.R
	for k := 0; k < times; k++ {
		q := url.Values{}
		sel := map[appdash.ID]bool{}
		if len(ids) > 0 && r.Intn(4) > 0 {
			var l []string
			for n := 1 + r.Intn(len(ids)); n > 0; n-- {
				id := ids[r.Intn(len(ids))]
				sel[id] = true
				l = append(l, spellID(r, id))
			}
			if r.Intn(4) == 0 {
				l = append(l, ad.NZ(r).String()) // most likely unknown
				if id, _ := appdash.ParseID(l[len(l)-1]); trees[id] != nil {
					sel[id] = true
				}
			}
			r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			q.Set("selection", strings.Join(l, ","))
		} else {
			for _, id := range ids {
				sel[id] = true
			}
		}
		mode := []string{"trace-only", "span-only", "trace-and-span", ""}[r.Intn(4)]
		if mode != "" {
			q.Set("view-mode", mode)
		}
		want := map[string]int64{}
		for id := range sel {
			rows, cum := wantProf(trees[id], rec)
			switch mode {
			case "span-only":
				for _, p := range rows[1:] {
					want[p.Name] += p.Time
				}
			case "trace-and-span":
				for _, p := range rows[1:] {
					want[rows[0].Name+": "+p.Name] += p.Time
				}
			default:
				want[rows[0].Name] += cum
			}
		}
		for l, v := range want {
			if v == 0 {
				want[l] = 1
			}
		}
		u := "/aggregate"
		if len(q) > 0 {
			u += "?" + q.Encode()
		}
		p := get(a, u)
		var items []struct {
			Label string
			Value int64
		}
		if !p.ok() {
			c.Failf("aggregate", "GET %s is answered with status %d: %s", u, p.status, cut(p.body))
			return
		}
		if err := scriptValue(parse(p.body), "data", &items); err != nil {
			c.Failf("aggregate", "the aggregate page has no data: %v", err)
			return
		}
		got := map[string]int64{}
		for _, it := range items {
			if _, dup := got[it.Label]; dup {
				c.Failf("aggregate", "label %q appears twice", it.Label)
			}
			got[it.Label] = it.Value
		}
		if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
			c.Failf("aggregate", "GET %s (%d of %d traces) shows %s, should show %s", u, len(sel), len(ids), g, w)
			return
		}
		c.Count("aggregate labels compared", len(want))
		c.Mark(u, fmt.Sprint(want))
	}
}

// changing reads the pages of a store again and again while spans,
// annotations, and traces are added and traces are deleted and replaced.
func changing(c *mon.Case) {
	r := c.R
	a, s := memApp()
	bs := []http.Handler{a, a, newApp(s, s), browse(a)}
	if r.Intn(2) == 0 {
		bs = bs[3:]
	}
	rec := map[appdash.SpanID]timed{}
	t := times(r)
	all := distinct(r, 2+r.Intn(4))
	complete := map[appdash.ID]bool{}
	trees := map[appdash.ID]*appdash.Trace{}
	var ids []appdash.ID
	refresh := func() {
		ids = ids[:0]
		trees = map[appdash.ID]*appdash.Trace{}
		for _, id := range all {
			if tr, err := s.Trace(id); err == nil {
				ids, trees[id] = append(ids, id), tr
			}
		}
	}
	begin := func(id appdash.ID) {
		complete[id] = r.Intn(3) > 0
		collect(c, s, genTimed(r, id, 1+r.Intn(5), complete[id], rec))
	}
	for _, id := range all[1:] {
		begin(id)
	}
	refresh()
	log := ""
	for step := 3 + r.Intn(6); step > 0; step-- {
		for k := 1 + r.Intn(2); k > 0; k-- {
			id := all[r.Intn(len(all))]
			switch n := r.Intn(6); {
			case trees[id] == nil:
				begin(id)
				log += "new "
			case n == 0: // gone, perhaps back
				if err := s.Delete(id); err != nil {
					panic("harness: " + err.Error())
				}
				log += "delete "
				for sp := range rec {
					if sp.Trace == id {
						delete(rec, sp)
					}
				}
				if r.Intn(2) == 0 {
					// The same spans, other times.
					complete[id] = true
					var ns []node
					for _, x := range flat(trees[id]) {
						as, sp := timespans(r, 1+r.Intn(3), t)
						rec[x.ID] = timed{"again", sp}
						ns = append(ns, node{x.ID, append(as, evAnns(appdash.SpanName("again"))...)})
					}
					collect(c, s, ns)
					log += "replace "
				}
			case n < 3: // another span
				x := flat(trees[id])[r.Intn(len(flat(trees[id])))]
				as, sp := timespans(r, 1+r.Intn(2), t)
				nid := appdash.SpanID{Trace: id, Span: ad.NZ(r), Parent: x.ID.Span}
				if nid.Parent == 0 || trees[id].FindSpan(nid.Span) != nil {
					continue
				}
				rec[nid] = timed{"added", sp}
				collect(c, s, []node{{nid, append(as, evAnns(appdash.SpanName("added"))...)}})
				log += "span "
			default: // another timespan, perhaps a name
				x := flat(trees[id])[r.Intn(len(flat(trees[id])))]
				in := rec[x.ID]
				as, sp := timespans(r, 1, t)
				for _, an := range as {
					for _, o := range x.Annotations {
						if strings.HasPrefix(an.Key, "_schema:") && strings.EqualFold(an.Key, o.Key) || an.Key == o.Key {
							as, sp = []ad.Ann{{Key: "more", Value: []byte(fmt.Sprint(step))}}, nil
						}
					}
				}
				in.spans = append(in.spans[:len(in.spans):len(in.spans)], sp...)
				if in.name == "" {
					in.name = "named later"
					as = append(as, evAnns(appdash.SpanName(in.name))...)
				}
				rec[x.ID] = in
				collect(c, s, []node{{x.ID, as}})
				log += "annotate "
			}
			refresh()
		}
		app := bs[r.Intn(len(bs))]
		if len(ids) > 0 {
			for k := 0; k < 2 && !c.Failed(); k++ {
				id := ids[r.Intn(len(ids))]
				timelineOf(c, app, trees[id], rec, complete[id], 1+r.Intn(2))
				profileOf(c, app, trees[id], rec, 1+r.Intn(2))
			}
		}
		if !c.Failed() {
			aggregateOf(c, app, ids, trees, rec, 1)
		}
		if c.Failed() {
			c.Failf("changing", "(after %s)", log)
			return
		}
		c.Count("changes between pages", 1)
	}
	c.Mark(log)
	c.Sample("pages after %s", log)
}

// tlItem is an item of the timeline.
type tlItem struct {
	Label, FullLabel     string
	Times                []tlTime
	SpanID, ParentSpanID string
	URL                  string
	Data                 map[string]string `json:"rawData"`
	Visible              bool
}

type tlTime struct {
	Label    string
	Start    int64 `json:"starting_time"`
	End      int64 `json:"ending_time"`
	Duration int64
}

// near: a time in milliseconds, whichever way it was rounded.
func near(ms int64, t time.Time) bool {
	d := ms*1000000 - t.UnixNano()
	return d > -1000000 && d < 1000000
}

func timelines(c *mon.Case) { timelinesOf(c, 1+c.R.Intn(8)) }

func timelinesOf(c *mon.Case, n int) {
	r := c.R
	half := r.Intn(2) == 0
	a, s := memApp()
	rec := map[appdash.SpanID]timed{}
	id := distinct(r, 1)[0]
	complete := r.Intn(3) > 0
	ns := genTimed(r, id, n, complete, rec)
	if half {
		t := times(r)
		for i := range ns {
			if h := halfSet(r, t, ns[i].anns); h != nil && r.Intn(2) == 0 {
				if r.Intn(2) == 0 {
					ns[i].anns = append(h, ns[i].anns...)
				} else {
					ns[i].anns = append(ns[i].anns, h...)
				}
				c.Count("timespans with unset times", 1)
			}
		}
	}
	collect(c, s, ns)
	tr, err := s.Trace(id)
	if err != nil {
		panic("harness: " + err.Error())
	}
	timelineOf(c, a, tr, rec, complete, 2)
	c.Sample("timeline of %d spans", len(ns))
}

// timelineOf compares the timelines of the trace and of spans of it.
func timelineOf(c *mon.Case, a http.Handler, tr *appdash.Trace, rec map[appdash.SpanID]timed, complete bool, times int) {
	r := c.R
	id := tr.ID.Trace
	for k := 0; k < times; k++ {
		t, u := tr, "/traces/"+id.String()
		if k > 0 {
			t = flat(tr)[r.Intn(len(flat(tr)))]
			u += "/" + t.ID.Span.String()
		}
		p := get(a, u)
		if !p.ok() {
			c.Failf("timeline", "GET %s is answered with status %d: %s", u, p.status, cut(p.body))
			return
		}
		var items []tlItem
		doc := parse(p.body)
		if err := scriptValue(doc, "data", &items); err != nil {
			c.Failf("timeline", "the trace page has no timeline data: %v", err)
			return
		}
		var show bool
		if err := scriptValue(doc, "showTimelineChart", &show); err != nil {
			c.Failf("timeline", "the trace page does not say whether to show the timeline: %v", err)
			return
		}
		if !show && !complete {
			c.Count("timelines not shown", 1)
			c.Mark(u, mustJSON(tr.Annotations))
			continue
		}
		spans := map[string]*appdash.Trace{}
		for _, x := range flat(t) {
			spans[x.ID.Span.String()] = x
		}
		shown := map[string]bool{}
		for _, it := range items {
			x := spans[it.SpanID]
			if x == nil {
				c.Failf("timeline", "the timeline shows span %q, which is not in the tree", it.SpanID)
				return
			}
			if shown[it.SpanID] {
				c.Failf("timeline", "the timeline shows span %q twice", it.SpanID)
			}
			shown[it.SpanID] = true
			in := rec[x.ID]
			if it.Label != in.name || it.FullLabel != in.name {
				c.Failf("timeline", "span %v (%q) is labelled %q, %q", x.ID, in.name, it.Label, it.FullLabel)
			}
			if d := rawData(it.Data, x); d != "" {
				c.Failf("timeline", "the timeline's data of span %v %s", x.ID, d)
			}
			wantP := ""
			if x.ID.Parent != 0 {
				wantP = x.ID.Parent.String()
			}
			first := x == t
			for _, sub := range t.Sub {
				first = first || x == sub
			}
			if it.Visible != first {
				c.Failf("timeline", "on the page of %v, span %v is visible at first: %v", t.ID, x.ID, it.Visible)
			}
			if it.ParentSpanID != wantP {
				c.Failf("timeline", "span %v is shown with parent %q", x.ID, it.ParentSpanID)
			}
			if q := get(a, it.URL); k == 0 && r.Intn(6) == 0 && (!q.ok() || byID(parse(q.body), "span-"+it.SpanID) == nil) {
				c.Failf("timeline", "the link %s does not lead to span %v (status %d)", it.URL, x.ID, q.status)
			}
			if x.ID.Parent == 0 {
				// Each timespan by itself.
				if len(it.Times) != len(in.spans) {
					c.Failf("timeline", "the root has %d timespans, the timeline shows %d", len(in.spans), len(it.Times))
					return
				}
				used := make([]bool, len(in.spans))
			next:
				for _, tm := range it.Times {
					for i, sp := range in.spans {
						if !used[i] && near(tm.Start, sp[0]) && near(tm.End, sp[1]) && rightLabel(tm, in.name) {
							used[i] = true
							continue next
						}
					}
					c.Failf("timeline", "the root's timespan %+v is not one of those recorded: %v", tm, in.spans)
				}
			} else if len(in.spans) > 0 {
				s, e := in.spans[0][0], in.spans[0][1]
				for _, sp := range in.spans[1:] {
					if sp[0].Before(s) {
						s = sp[0]
					}
					if sp[1].After(e) {
						e = sp[1]
					}
				}
				if len(it.Times) != 1 || !near(it.Times[0].Start, s) || !near(it.Times[0].End, e) || !rightLabel(it.Times[0], in.name) {
					c.Failf("timeline", "span %v from %v to %v (%q) is shown as %+v", x.ID, s, e, in.name, it.Times)
				}
			}
			c.Count("timeline items compared", 1)
		}
		if complete && len(shown) != len(spans) {
			c.Failf("timeline", "%d of %d spans, all with names and timespans, are shown", len(shown), len(spans))
		}
		if complete && !show {
			c.Failf("timeline", "the timeline of spans with names and timespans is not shown")
		}
		c.Mark(u, fmt.Sprint(items))
	}
}

// rawData says what is wrong with the data of a timeline item.
func rawData(got map[string]string, x *appdash.Trace) string {
	keys := map[string]bool{}
	for _, an := range x.Annotations {
		k := jsonText(an.Key)
		v, ok := got[k]
		if !ok {
			return fmt.Sprintf("lacks annotation %q", k)
		}
		keys[k] = true
		found := false
		for _, o := range x.Annotations {
			found = found || jsonText(o.Key) == k && jsonText(string(o.Value)) == v
		}
		if !found {
			return fmt.Sprintf("has annotation %q as %q", k, v)
		}
	}
	if len(keys) != len(got) {
		return fmt.Sprintf("has annotations not recorded: %q", got)
	}
	return ""
}

// jsonText is what JSON preserves of a string.
func jsonText(s string) string {
	b, _ := json.Marshal(s)
	var v string
	json.Unmarshal(b, &v)
	return v
}

// rightLabel: a timespan of some length carries the span's name and its own
// length.
func rightLabel(t tlTime, name string) bool {
	d := t.End - t.Start
	return d <= 0 || t.Label == fmt.Sprintf("%s (%v)", name, time.Duration(d)*time.Millisecond)
}

// fakeAgg is an aggregator with given results.
type fakeAgg struct {
	start, end time.Duration
	calls      int
	res        []*appdash.AggregatedResult
	err        error
}

func (f *fakeAgg) Aggregate(start, end time.Duration) ([]*appdash.AggregatedResult, error) {
	f.start, f.end = start, end
	f.calls++
	return f.res, f.err
}

func dashboards(c *mon.Case) {
	r := c.R
	a, s := memApp()
	ids := distinct(r, 3+r.Intn(4))
	for _, id := range ids {
		collect(c, s, genTrace(r, id, 1, false, func(int) []ad.Ann { return nil }))
	}
	f := &fakeAgg{}
	a.Aggregator = f
	dur := func() time.Duration { return time.Duration(r.Int63n(int64(10 * time.Second))) }
	for n := r.Intn(5); n > 0; n-- {
		res := &appdash.AggregatedResult{RootSpanName: ad.UStr(r), Average: dur(), Min: dur(), Max: dur(), StdDev: dur(), Samples: r.Int63n(100)}
		for _, i := range r.Perm(len(ids))[:min(r.Intn(4), 1+r.Intn(3))] {
			res.Slowest = append(res.Slowest, ids[i])
		}
		f.res = append(f.res, res)
	}
	q := url.Values{}
	var ws, we time.Duration
	if r.Intn(4) > 0 {
		x, y := r.Intn(73), r.Intn(73)
		q.Set("start", fmt.Sprint(x))
		q.Set("end", fmt.Sprint(y))
		ws, we = time.Duration(x-72)*time.Hour, time.Duration(y-72)*time.Hour
	}
	if r.Intn(8) == 0 {
		f.err = ad.Fault(r.Int(), "aggregation failed")
	}
	p := get(a, "/dashboard")
	u := ""
	for _, n := range tag(parse(p.body), "table") {
		if x := attr(n, "data-url"); x != "" {
			u = x
		}
	}
	if !p.ok() || u == "" {
		c.Failf("dashboard", "GET /dashboard is answered with status %d, data at %q", p.status, u)
		return
	}
	if len(q) > 0 {
		u += "?" + q.Encode()
	}
	p = get(a, u)
	c.Mark(u, fmt.Sprint(f.res), f.err)
	c.Sample("dashboard of %d rows", len(f.res))
	if f.calls != 1 || (len(q) > 0 && (f.start != ws || f.end != we)) {
		c.Failf("dashboard", "GET %s asked for the aggregates from %v to %v (%d times), should from %v to %v", u, f.start, f.end, f.calls, ws, we)
	}
	if f.err != nil {
		if !p.bad() {
			c.Failf("dashboard", "a failing aggregation is answered with status %d", p.status)
		}
		return
	}
	type row struct {
		Name                      string
		Average, Min, Max, StdDev int64
		Timespans                 int64
		URL                       string
	}
	var rows []row
	if err := json.Unmarshal([]byte(p.body), &rows); err != nil || !p.ok() {
		c.Failf("dashboard", "GET %s is answered with status %d and %s (%v)", u, p.status, cut(p.body), err)
		return
	}
	if len(rows) != len(f.res) {
		c.Failf("dashboard", "%d aggregates are shown in %d rows", len(f.res), len(rows))
		return
	}
	for i, g := range rows {
		w := f.res[i]
		ms := func(d time.Duration) int64 { return int64(d / time.Millisecond) }
		if g.Name != w.RootSpanName || g.Average != ms(w.Average) || g.Min != ms(w.Min) || g.Max != ms(w.Max) || g.StdDev != ms(w.StdDev) || g.Timespans != w.Samples {
			c.Failf("dashboard", "aggregate %+v is shown as %+v", *w, g)
		}
		// The link shows the slowest traces.
		if len(w.Slowest) == 0 {
			for _, id := range ids {
				if strings.Contains(g.URL, id.String()) {
					c.Failf("dashboard", "the row of an aggregate without slowest traces links to %s", g.URL)
				}
			}
			continue
		}
		doc := parse(get(a, g.URL).body)
		var got, want []string
		for _, id := range ids {
			if links(doc, "traces/"+id.String()) > 0 {
				got = append(got, id.String())
			}
		}
		for _, id := range w.Slowest {
			want = append(want, id.String())
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Failf("dashboard", "the row of the aggregate with slowest traces %v links to %s, which shows %v", want, g.URL, got)
		}
		c.Count("dashboard rows compared", 1)
	}
}

// links counts the links ending in the given path.
func links(doc *htmlNode, path string) int {
	return len(find(doc, func(n *htmlNode) bool { return n.Data == "a" && strings.HasSuffix(attr(n, "href"), path) }))
}
