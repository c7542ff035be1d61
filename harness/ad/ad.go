// Package ad holds what the monitors share: generators of hostile inputs,
// reference representations of traces, and recording collaborators.
package ad

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"sourcegraph.com/sourcegraph/appdash"
)

// Ann is a short name.
type Ann = appdash.Annotation

var edge = []uint64{0, 1, 2, 9, 10, 15, 16, 255, 1 << 31, 1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, ^uint64(0) - 1, ^uint64(0), 0x0123456789abcdef}

// ID generates an ID: extreme, small or arbitrary.
func ID(r *rand.Rand) appdash.ID {
	switch r.Intn(4) {
	case 0:
		return appdash.ID(edge[r.Intn(len(edge))])
	case 1:
		return appdash.ID(r.Intn(50))
	case 2:
		return appdash.ID(r.Uint64() >> uint(r.Intn(64)))
	}
	return appdash.ID(r.Uint64())
}

// NZ generates a nonzero ID.
func NZ(r *rand.Rand) appdash.ID {
	for {
		if i := ID(r); i != 0 {
			return i
		}
	}
}

// IDs generates n distinct nonzero IDs.
func IDs(r *rand.Rand, n int) []appdash.ID {
	seen := map[appdash.ID]bool{}
	var out []appdash.ID
	for len(out) < n {
		i := NZ(r)
		if n > 60 {
			i = appdash.ID(r.Uint64())
		}
		if i != 0 && !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	return out
}

var hostile = []string{"", " ", "a", "Name", "_schema:name", "_schema:", "_schema:log", "Msg", "Time", "Span.Start", "a.b.c", ".", "..", "\x00", "\xff\xfe", "é", "日本", "<script>", "\"", "'", "\\", "\n", "%s%d", "</script>", "Server.Recv", "Client.Send", "S", "E"}

// Str generates a string.
func Str(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return hostile[r.Intn(len(hostile))]
	case 1:
		b := make([]byte, r.Intn(40))
		r.Read(b)
		return string(b)
	case 2:
		return strings.Repeat(hostile[r.Intn(len(hostile))], r.Intn(8))
	}
	n := r.Intn(12)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + r.Intn(26))
	}
	return string(b)
}

// UStr generates a valid UTF-8 string (protobuf strings must be).
func UStr(r *rand.Rand) string { return strings.ToValidUTF8(Str(r), "?") }

// Val generates an annotation value: nil, empty or bytes.
func Val(r *rand.Rand) []byte {
	switch r.Intn(8) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	return []byte(Str(r))
}

// Anns generates n annotations.
func Anns(r *rand.Rand, n int) []Ann {
	var as []Ann
	for i := 0; i < n; i++ {
		as = append(as, Ann{Key: Str(r), Value: Val(r)})
	}
	return as
}

// Uniq returns an annotation unique in the run.
func Uniq(tag string, n int) Ann {
	return Ann{Key: tag, Value: []byte(fmt.Sprintf("%s#%d", tag, n))}
}

// CopyAnns copies annotations deeply.
func CopyAnns(as []Ann) []Ann {
	var out []Ann
	for _, a := range as {
		out = append(out, Ann{Key: a.Key, Value: append([]byte(nil), a.Value...)})
	}
	return out
}

// AnnString renders annotations injectively (nil and empty values alike).
func AnnString(as []Ann) string {
	var b strings.Builder
	for _, a := range as {
		fmt.Fprintf(&b, "%q=%q;", a.Key, a.Value)
	}
	return b.String()
}

// AnnsEqual compares annotations, treating nil and empty values alike.
func AnnsEqual(a, b []Ann) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key != b[i].Key || !bytes.Equal(a[i].Value, b[i].Value) {
			return false
		}
	}
	return true
}

// Node is one span of a flattened trace.
type Node struct {
	ID    appdash.SpanID
	Up    appdash.SpanID // ID of the node it hangs under
	Top   bool
	Depth int
	Anns  []Ann
}

// Flatten lists the nodes of a trace in depth-first order. It fails on nil
// nodes, on nodes reached twice, and on trees with more than max nodes.
func Flatten(t *appdash.Trace, max int) ([]Node, error) {
	if t == nil {
		return nil, fmt.Errorf("nil trace")
	}
	type fr struct {
		t, up *appdash.Trace
		d     int
	}
	seen := map[*appdash.Trace]bool{}
	st := []fr{{t, nil, 0}}
	var out []Node
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		if f.t == nil {
			return nil, fmt.Errorf("nil node in tree")
		}
		if seen[f.t] {
			return nil, fmt.Errorf("span %v is reached twice (cycle or shared node)", f.t.ID)
		}
		seen[f.t] = true
		n := Node{ID: f.t.ID, Depth: f.d, Anns: f.t.Annotations}
		if f.up == nil {
			n.Top = true
		} else {
			n.Up = f.up.ID
		}
		out = append(out, n)
		if max > 0 && len(out) > max {
			return nil, fmt.Errorf("more than %d nodes in tree", max)
		}
		for i := len(f.t.Sub) - 1; i >= 0; i-- {
			st = append(st, fr{f.t.Sub[i], f.t, f.d + 1})
		}
	}
	return out, nil
}

// Canon renders a trace canonically, ignoring the order of siblings.
func Canon(t *appdash.Trace) string {
	ns, err := Flatten(t, 1000000)
	if err != nil {
		return "BAD TREE: " + err.Error()
	}
	lines := make([]string, len(ns))
	for i, n := range ns {
		up := "TOP"
		if !n.Top {
			up = fmt.Sprint(n.Up)
		}
		lines[i] = fmt.Sprintf("%v<%s %s", n.ID, up, AnnString(n.Anns))
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

// CanonAll renders a listing, ignoring its order.
func CanonAll(ts []*appdash.Trace) string {
	var s []string
	for _, t := range ts {
		s = append(s, Canon(t))
	}
	sort.Strings(s)
	return strings.Join(s, "\n----\n")
}

// Diff shows where two canonical renderings differ.
func Diff(got, want string) string {
	g, w := map[string]int{}, map[string]int{}
	for _, l := range strings.Split(got, "\n") {
		g[l]++
	}
	for _, l := range strings.Split(want, "\n") {
		w[l]++
	}
	var out []string
	for l, n := range g {
		if w[l] < n {
			out = append(out, "+ "+l)
		}
	}
	for l, n := range w {
		if g[l] < n {
			out = append(out, "- "+l)
		}
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = append(out[:12], fmt.Sprintf("... %d more", len(out)-12))
	}
	return strings.Join(out, "\n")
}

// Call is one recorded Collect call.
type Call struct {
	Span appdash.SpanID
	Anns []Ann
}

// Sink is a recording collector. It copies what it is given at once.
type Sink struct {
	mu    sync.Mutex
	Calls []Call
	// Err, if set, decides the outcome of each call (called without the lock).
	Err func(n int, s appdash.SpanID, as []Ann) error
	n   int
}

// Collect implements appdash.Collector.
func (s *Sink) Collect(id appdash.SpanID, as ...Ann) error {
	s.mu.Lock()
	s.Calls = append(s.Calls, Call{id, CopyAnns(as)})
	n := s.n
	s.n++
	e := s.Err
	s.mu.Unlock()
	if e != nil {
		return e(n, id, as)
	}
	return nil
}

// Len returns the number of calls so far.
func (s *Sink) Len() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.Calls) }

// Snapshot copies the calls so far.
func (s *Sink) Snapshot() []Call {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Call(nil), s.Calls...)
}

// BySpan concatenates the annotations per span in call order.
func BySpan(cs []Call) map[appdash.SpanID][]Ann {
	m := map[appdash.SpanID][]Ann{}
	for _, c := range cs {
		m[c.Span] = append(m[c.Span], c.Anns...)
	}
	return m
}
