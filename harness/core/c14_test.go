package core

import (
	"bytes"
	"errors"
	"fmt"
	"log"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/ad"
	"verif/mon"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() {
	mon.RegV("C14", "sequences", 3000, 60000, recorderSeq)
	mon.Reg("C14", "concurrent-recorders", 64, 1200, recorderConc)
}

type recEvent struct {
	A int
	B string
}

func (recEvent) Schema() string { return "verif-rec" }

// marshalEvent marshals itself, or fails.
type marshalEvent struct {
	as  appdash.Annotations
	err error
}

func (marshalEvent) Schema() string                               { return "verif-marshal" }
func (e marshalEvent) MarshalEvent() (appdash.Annotations, error) { return e.as, e.err }

// recModel is what one recorder should do.
type recModel struct {
	rec      *appdash.Recorder
	id       appdash.SpanID
	want     []ad.Ann // annotations of the recorded events
	groups   []int    // and how many of them each event has
	raw      [][]ad.Ann
	counted  int
	finished int
	errs     []string // text of each error not yet reported through Errors
	logged   []string // text of each error to be reported to the logger
	log      *bytes.Buffer
	allErrs  []string
	late     int // events recorded after Finish: what becomes of them is left open
	kept     []keptErrors
}

// keptErrors is a list Errors returned and what it held then.
type keptErrors struct {
	list []error
	copy []error
}

// sameEvents compares annotations event by event; the order of an event's own
// annotations does not matter.
func (m *recModel) sameEvents(got, want []ad.Ann) bool {
	if len(got) != len(want) {
		return false
	}
	i := 0
	for _, k := range m.groups {
		if !sameSet(got[i:i+k], want[i:i+k]) {
			return false
		}
		i += k
	}
	return true
}

func sameSet(a, b []ad.Ann) bool {
	n := map[string]int{}
	for _, x := range a {
		n[ad.AnnString([]ad.Ann{x})]++
	}
	for _, x := range b {
		n[ad.AnnString([]ad.Ann{x})]--
	}
	for _, v := range n {
		if v != 0 {
			return false
		}
	}
	return true
}

func (m *recModel) err(text string) {
	m.allErrs = append(m.allErrs, text)
	if m.log != nil {
		m.logged = append(m.logged, text)
	} else {
		m.errs = append(m.errs, text)
	}
}

const finishTwice = "\x00finish-twice"

func recorderSeq(c *mon.Case) {
	r := c.R
	failRate := []int{0, 0, 3, 8}[r.Intn(4)]
	sink := &ad.Sink{}
	nerr := 0
	armed := true
	var lastErr string
	var during func() // called once while the collector is called
	sink.Err = func(n int, s appdash.SpanID, as []ad.Ann) error {
		if f := during; f != nil {
			during = nil
			f()
		}
		if armed && failRate > 0 && r.Intn(failRate) == 0 {
			nerr++
			lastErr = fmt.Sprintf("collector-error<%d>", nerr)
			armed = false // the report of the error may itself be collected
			return ad.FaultOf(lastErr)
		}
		return nil
	}
	newModel := func(rec *appdash.Recorder) *recModel {
		m := &recModel{rec: rec, id: rec.SpanID}
		if r.Intn(3) == 0 {
			m.log = &bytes.Buffer{}
			rec.Logger = log.New(m.log, "", 0)
		}
		return m
	}
	root := appdash.SpanID{Trace: ad.ID(r), Span: ad.ID(r), Parent: ad.ID(r)}
	ms := []*recModel{newModel(appdash.NewRecorder(root, sink))}
	if ms[0].id != root {
		c.Failf("id", "NewRecorder(%v) has span %v", root, ms[0].id)
	}
	ids := map[appdash.ID]bool{root.Span: true}
	var desc []string
	ops := 1 + r.Intn(25)
	calls := 0
	// expectCalls checks the calls one operation made: main is the call that must be among them (nil: none), errs the number of errors it should have caused.
	step := func(m *recModel, op string, main []ad.Ann, hasMain bool, f func(), ownErr string) {
		same := ad.AnnsEqual
		if strings.HasPrefix(op, "Finish") {
			same = m.sameEvents
		} else if k := len(m.want) - m.counted; k > 0 {
			m.groups = append(m.groups, k)
			m.counted = len(m.want)
		}
		armed, lastErr = hasMain, ""
		f()
		desc = append(desc, op)
		got := sink.Snapshot()[calls:]
		calls += len(got)
		if ownErr != "" {
			m.err(ownErr)
		}
		if lastErr != "" {
			m.err(lastErr)
		}
		mains := 0
		for i, k := range got {
			if k.Span != m.id {
				c.Failf("wrong-span", "%s on the recorder of %v collected under %v", op, m.id, k.Span)
			}
			if hasMain && mains == 0 && same(k.Anns, main) {
				mains++
				continue
			}
			// Reports of errors may be collected as log events.
			rep := false
			if ownErr != "" || lastErr != "" {
				for _, a := range k.Anns {
					rep = rep || a.Key == "_schema:log"
				}
			}
			if !rep {
				c.Failf("call", "%s: call %d of the collector carried %s, want %s", op, i, ad.AnnString(k.Anns), ad.AnnString(main))
			}
		}
		if hasMain && mains == 0 {
			c.Failf("not-collected", "%s did not collect %s (calls: %v)", op, ad.AnnString(main), got)
		}
	}
	for i := 0; i < ops && !c.Failed(); i++ {
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		m := ms[r.Intn(len(ms))]
		k := r.Intn(13)
		if m.finished > 0 && k < 7 {
			if r.Intn(2) == 0 {
				k = 8 + r.Intn(5)
			} else {
				// An event recorded late must not show up anywhere else.
				m.late++
				armed = false
				desc = append(desc, "late event")
				late := ad.Str(r)
				switch r.Intn(4) {
				case 0:
					m.rec.Name(late)
				case 1:
					m.rec.Event(marshalEvent{as: ad.Anns(r, 1+r.Intn(4))})
				case 2:
					m.rec.Log(late)
				case 3:
					m.rec.Event(recEvent{r.Intn(100), late})
				}
				got := sink.Snapshot()[calls:]
				calls += len(got)
				for _, k := range got {
					if k.Span != m.id {
						c.Failf("wrong-span", "a late event on the recorder of %v was collected under %v", m.id, k.Span)
					}
				}
				continue
			}
		}
		switch k {
		case 0:
			n := ad.Str(r)
			m.want = append(m.want, ad.Ann{Key: "Name", Value: []byte(n)}, ad.Ann{Key: "_schema:name"})
			step(m, "Name", nil, false, func() { m.rec.Name(n) }, "")
		case 1:
			n := ad.Str(r)
			m.want = append(m.want, ad.Ann{Key: "Msg", Value: []byte(n)}, ad.Ann{Key: "_schema:msg"})
			step(m, "Msg", nil, false, func() { m.rec.Msg(n) }, "")
		case 2, 3:
			n, t := ad.Str(r), time.Now()
			if k == 3 {
				t = time.Unix(r.Int63n(4e9), r.Int63n(1e9)).UTC()
			}
			m.want = append(m.want, ad.Ann{Key: "Msg", Value: []byte(n)}, ad.Ann{Key: "Time", Value: []byte(t.Format(time.RFC3339Nano))}, ad.Ann{Key: "_schema:log"})
			step(m, "Log", nil, false, func() {
				if k == 3 {
					m.rec.LogWithTimestamp(n, t)
				} else {
					m.rec.Log(n)
				}
			}, "")
		case 4:
			e := recEvent{r.Intn(100), ad.Str(r)}
			m.want = append(m.want, ad.Ann{Key: "A", Value: []byte(fmt.Sprint(e.A))}, ad.Ann{Key: "B", Value: []byte(e.B)}, ad.Ann{Key: "_schema:verif-rec"})
			step(m, "Event", nil, false, func() { m.rec.Event(e) }, "")
		case 5:
			e := marshalEvent{as: ad.Anns(r, r.Intn(4))}
			m.want = append(append(m.want, ad.CopyAnns(e.as)...), ad.Ann{Key: "_schema:verif-marshal"})
			step(m, "Event of an event marshaler", nil, false, func() { m.rec.Event(e) }, "")
		case 6:
			nerr++
			t := fmt.Sprintf("marshal-error<%d>", nerr)
			step(m, "Event failing to marshal", nil, false, func() { m.rec.Event(marshalEvent{err: errors.New(t)}) }, t)
		case 7, 8:
			as := ad.Anns(r, r.Intn(4))
			step(m, "Annotation", ad.CopyAnns(as), true, func() { m.rec.Annotation(as...) }, "")
		case 9:
			child := m.rec.Child()
			if child.SpanID.Trace != m.id.Trace || child.SpanID.Parent != m.id.Span || ids[child.SpanID.Span] || child.SpanID.Span == 0 {
				c.Failf("child", "the child of the recorder of %v has span %v", m.id, child.SpanID)
			}
			ids[child.SpanID.Span] = true
			if len(ms) < 5 {
				ms = append(ms, newModel(child))
			}
		case 10:
			checkErrors(c, m)
		default:
			m.finished++
			if m.finished == 1 && r.Intn(6) == 0 {
				// The collector leads back to another Finish.
				m.finished++
				step(m, "Finish while finishing", m.want, true, func() {
					during = func() {
						was := armed
						armed = false
						m.rec.Finish()
						armed = was
					}
					m.rec.Finish()
				}, finishTwice)
			} else if m.finished == 1 {
				step(m, "Finish", m.want, true, m.rec.Finish, "")
			} else {
				step(m, "Finish again", nil, false, m.rec.Finish, finishTwice)
			}
		}
	}
	for _, m := range ms {
		if m.finished == 0 && !c.Failed() {
			m.finished++
			step(m, "Finish", m.want, true, m.rec.Finish, "")
		}
		checkErrors(c, m)
		checkErrors(c, m)
		if m.log != nil && !c.Failed() {
			text := m.log.String()
			lines := strings.Count(text, "\n")
			for _, e := range m.logged {
				if e != finishTwice && strings.Count(text, e) != 1 {
					c.Failf("log", "error %q was written %d times to the logger: %q", e, strings.Count(text, e), text)
				}
			}
			if lines != len(m.logged) && !(m.late > 0 && lines > len(m.logged)) {
				c.Failf("log", "%d errors occurred, the logger got %d lines: %q", len(m.logged), lines, text)
			}
		}
		for _, k := range m.kept {
			for i := range k.list {
				if k.list[i] != k.copy[i] {
					c.Failf("errors", "error %d of a list that Errors returned changed from %v to %v", i, k.copy[i], k.list[i])
				}
			}
		}
		if m.rec.SpanID != m.id {
			c.Failf("id", "the recorder's span changed from %v to %v", m.id, m.rec.SpanID)
		}
	}
	// Every event is still recognisable by its schema.
	for _, m := range ms {
		var n, schemas int
		for _, a := range m.want {
			if strings.HasPrefix(a.Key, appdash.SchemaPrefix) {
				n++
			}
		}
		for _, k := range sink.Snapshot() {
			if k.Span == m.id && n > 0 && m.sameEvents(k.Anns, m.want) {
				for _, a := range k.Anns {
					if strings.HasPrefix(a.Key, appdash.SchemaPrefix) {
						schemas++
					}
				}
				break
			}
		}
		if schemas != n && !c.Failed() {
			c.Failf("schema", "%d schema marks of %d arrived", schemas, n)
		}
	}
	c.Mark(desc, failRate, len(ms), nerr)
	c.Count("collector_calls", calls)
	c.Count("errors_injected", nerr)
	c.Count("recorders", len(ms))
	c.Sample("%v (%d recorders, %d errors injected)", desc, len(ms), nerr)
}

func checkErrors(c *mon.Case, m *recModel) {
	got := m.rec.Errors()
	// Lists returned earlier belong to the caller.
	m.kept = append(m.kept, keptErrors{got, append([]error(nil), got...)})
	defer func() {
		for _, k := range m.kept {
			for i := range k.list {
				if k.list[i] != k.copy[i] {
					c.Failf("errors", "error %d of a list that Errors returned changed from %v to %v", i, k.copy[i], k.list[i])
					return
				}
			}
		}
	}()
	if len(got) != len(m.errs) && !(m.late > 0 && len(got) > len(m.errs)) {
		c.Failf("errors", "Errors returned %v, %d errors occurred since it was last called: %q", got, len(m.errs), m.errs)
		return
	}
	left := append([]error(nil), got...)
	for _, want := range m.errs {
		ok := false
		for i, g := range left {
			if g != nil && (want == finishTwice && !strings.Contains(g.Error(), "-error<") || strings.Contains(g.Error(), want)) {
				left = append(left[:i], left[i+1:]...)
				ok = true
				break
			}
		}
		if !ok {
			c.Failf("errors", "Errors returned %v without the error %q", got, want)
			return
		}
	}
	m.errs = nil
}

// recorderConc uses one recorder per goroutine over one collector.
func recorderConc(c *mon.Case) {
	sink := &ad.Sink{}
	n := 2 + c.R.Intn(6)
	var failed atomic.Int64
	fr := randNew(c.R.Int63())
	var mu sync.Mutex
	failing := c.R.Intn(2) == 0
	sink.Err = func(i int, s appdash.SpanID, as []ad.Ann) error {
		if !failing || len(as) == 0 || as[0].Key != "n" {
			return nil
		}
		mu.Lock()
		defer mu.Unlock()
		if fr.Intn(4) == 0 {
			failed.Add(1)
			return ad.FaultOf(fmt.Sprintf("failure for %v", s))
		}
		return nil
	}
	root := appdash.NewRecorder(appdash.NewRootSpanID(), sink)
	type res struct {
		id   appdash.SpanID
		want []ad.Ann
		errs []error
	}
	var wg sync.WaitGroup
	out := make([][]res, n)
	for g := 0; g < n; g++ {
		r := rand.New(rand.NewSource(c.R.Int63()))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 1+r.Intn(12); k++ {
				rec := root.Child()
				var want []ad.Ann
				for e := 0; e < 1+r.Intn(6); e++ {
					ev := marshalEvent{as: appdash.Annotations{{Key: "n", Value: []byte(fmt.Sprintf("%d.%d.%d", g, k, e))}}}
					rec.Event(ev)
					want = append(append(want, ev.as...), ad.Ann{Key: "_schema:verif-marshal"})
				}
				rec.Finish()
				out[g] = append(out[g], res{rec.SpanID, want, rec.Errors()})
			}
		}(g)
	}
	wg.Wait()
	got := map[appdash.SpanID][][]ad.Ann{}
	for _, k := range sink.Snapshot() {
		if len(k.Anns) > 0 && k.Anns[0].Key == "n" {
			got[k.Span] = append(got[k.Span], k.Anns)
		}
	}
	nrec, nerr := 0, 0
	for _, rs := range out {
		for _, x := range rs {
			nrec++
			nerr += len(x.errs)
			for _, e := range x.errs {
				if !strings.Contains(e.Error(), x.id.String()) {
					c.Failf("mixed", "recorder of %v reported %v", x.id, e)
				}
			}
			if len(got[x.id]) != 1 || !ad.AnnsEqual(got[x.id][0], x.want) {
				c.Failf("mixed", "recorder of %v recorded %s, collected %v", x.id, ad.AnnString(x.want), got[x.id])
				return
			}
			if x.id.Trace != root.SpanID.Trace || x.id.Parent != root.SpanID.Span {
				c.Failf("child", "the child of %v has span %v", root.SpanID, x.id)
			}
		}
	}
	if len(got) != nrec || int(failed.Load()) != nerr {
		c.Failf("mixed", "%d recorders finished, %d spans collected; %d failures, %d reported", nrec, len(got), failed.Load(), nerr)
	}
	c.Mark(n, nrec, nerr, len(got))
	c.Count("recorders", nrec)
	c.Sample("%d goroutines, %d recorders, %d errors", n, nrec, nerr)
}
