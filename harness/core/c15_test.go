package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/ad"
	"verif/mon"
)

func init() {
	mon.Reg("C15", "round-trip", 400, 8000, idRoundTrip)
	mon.Reg("C15", "parsing", 400, 8000, idParse)
	mon.Reg("C15", "uniqueness", 24, 200, idUnique)
	mon.Reg("C15", "period", 1, 4, idPeriod)
	mon.Reg("C15", "processes", 2, 20, idProcesses)
	mon.RegChild("ids", func([]string) {
		for i := 0; i < 400; i++ {
			s := appdash.NewRootSpanID()
			fmt.Println(s.Trace, s.Span)
		}
	})
}

func hexText(v uint64) string {
	const d = "0123456789abcdef"
	var b [16]byte
	for i := 15; i >= 0; i-- {
		b[i] = d[v&15]
		v >>= 4
	}
	return string(b[:])
}

func idRoundTrip(c *mon.Case) {
	r := c.R
	for i := 0; i < 120; i++ {
		id := ad.ID(r)
		if i < 64 {
			id = appdash.ID(1) << uint(i)
		}
		want := hexText(uint64(id))
		if id.String() != want {
			c.Failf("text", "ID %d is written %q, want %q", uint64(id), id.String(), want)
		}
		if p, err := appdash.ParseID(id.String()); err != nil || p != id {
			c.Failf("text", "ID %d is written %q, which parses as %d, %v", uint64(id), id.String(), uint64(p), err)
		}
		b, err := json.Marshal(id)
		var back appdash.ID = 77
		if err == nil {
			err = json.Unmarshal(b, &back)
		}
		if err != nil || back != id {
			c.Failf("json", "ID %v as JSON %s comes back as %v, %v", id, b, back, err)
		}
		back = 77
		if err := json.Unmarshal([]byte(fmt.Sprintf("%d", uint64(id))), &back); err != nil || back != id {
			c.Failf("json-integer", "the JSON integer %d is read as %d, %v", uint64(id), uint64(back), err)
		}
		back = 77
		if err := json.Unmarshal([]byte(`"`+want+`"`), &back); err != nil || back != id {
			c.Failf("json-hex", "the JSON string %q is read as %d, %v", want, uint64(back), err)
		}
		s := appdash.SpanID{Trace: ad.ID(r), Span: ad.ID(r)}
		text := hexText(uint64(s.Trace)) + "/" + hexText(uint64(s.Span))
		if r.Intn(3) > 0 {
			s.Parent = ad.NZ(r)
			text += "/" + hexText(uint64(s.Parent))
		}
		if s.String() != text {
			c.Failf("text", "span ID %#v is written %q, want %q", s, s.String(), text)
		}
		if s.IsRoot() != (s.Parent == 0) {
			c.Failf("root", "span ID %v: IsRoot %v", s, s.IsRoot())
		}
		if p, err := appdash.ParseSpanID(text); err != nil || p == nil || *p != s {
			c.Failf("text", "%q parses as %v, %v", text, p, err)
		}
		b, err = json.Marshal(s)
		var sb appdash.SpanID
		if err == nil {
			err = json.Unmarshal(b, &sb)
		}
		if err != nil || sb != s {
			c.Failf("json", "span ID %v as JSON %s comes back as %v, %v", s, b, sb, err)
		}
		c.Mark(uint64(id), s)
	}
	c.Count("ids", 240)
	c.Sample("120 IDs and 120 span IDs through text and JSON")
}

var parseParts = []string{"", "0", "1", "f", "F", "abc", "ABC", "0000000000000001", "00000000000000001", "ffffffffffffffff", "FFFFFFFFFFFFFFFF", "10000000000000000", "fffffffffffffffff",
	"-1", "+1", "0x1", "1_0", " 1", "1 ", "g", "1g", "1.0", "\x00", "é", "١", "1e5", "\n1", "8000000000000000", "7fffffffffffffff"}

// idParse parses arbitrary strings and compares with an independent reading.
func idParse(c *mon.Case) {
	r := c.R
	hexVal := func(s string) (uint64, bool) {
		if s == "" {
			return 0, false
		}
		for _, ch := range []byte(s) {
			if !strings.ContainsRune("0123456789abcdefABCDEF", rune(ch)) || ch >= 0x80 {
				return 0, false
			}
		}
		v, ok := new(big.Int).SetString(s, 16)
		if !ok || v.BitLen() > 64 {
			return 0, false
		}
		return v.Uint64(), true
	}
	part := func() string {
		if r.Intn(2) == 0 {
			return parseParts[r.Intn(len(parseParts))]
		}
		n := r.Intn(19)
		b := make([]byte, n)
		for i := range b {
			b[i] = "0123456789abcdefABCDEF"[r.Intn(22)]
		}
		if r.Intn(6) == 0 && n > 0 {
			b[r.Intn(n)] = byte(r.Intn(256))
		}
		if r.Intn(8) == 0 {
			return strings.Repeat("0", r.Intn(400)) + string(b) // leading zeros
		}
		return string(b)
	}
	good, bad := 0, 0
	for i := 0; i < 150; i++ {
		n := 1 + r.Intn(4)
		if r.Intn(2) == 0 {
			n = 2 + r.Intn(2)
		}
		var ps []string
		for k := 0; k < n; k++ {
			ps = append(ps, part())
		}
		s := strings.Join(ps, "/")
		if r.Intn(20) == 0 {
			s = ad.Str(r)
		}
		ps = strings.Split(s, "/")
		got, err := appdash.ParseSpanID(s)
		var want appdash.SpanID
		ok := len(ps) == 2 || len(ps) == 3
		for k, p := range ps {
			v, o := hexVal(p)
			ok = ok && o
			switch k {
			case 0:
				want.Trace = appdash.ID(v)
			case 1:
				want.Span = appdash.ID(v)
			case 2:
				want.Parent = appdash.ID(v)
			}
		}
		switch {
		case err == nil && got == nil:
			c.Failf("parse", "%q parses to nothing without an error", s)
		case err == nil && !ok:
			c.Failf("parse", "%q does not consist of 2 or 3 hex fields but parses as %v", s, *got)
		case err == nil && *got != want:
			c.Failf("parse", "%q parses as %#v, want %#v", s, *got, want)
		case err == nil:
			good++
		default:
			bad++
		}
		p := ps[0]
		v, o := hexVal(p)
		id, err := appdash.ParseID(p)
		if err == nil && (!o || uint64(id) != v) {
			c.Failf("parse", "ParseID(%q) is %d, want %d, valid %v", p, uint64(id), v, o)
		}
		// JSON of any form: an integer or hex string, or an error.
		js := []string{p, `"` + p + `"`, fmt.Sprint(r.Int63()), "-5", "1.5", "1e3", "true", "{}", "[]", "18446744073709551616", `"18446744073709551616"`}[r.Intn(11)]
		var raw any
		d := json.NewDecoder(strings.NewReader(js))
		d.UseNumber()
		if d.Decode(&raw) == nil && raw != nil {
			var back appdash.ID
			if err := json.Unmarshal([]byte(js), &back); err == nil {
				switch x := raw.(type) {
				case string:
					if v, o := hexVal(x); !o || v != uint64(back) {
						c.Failf("json", "the JSON string %s is read as %d", js, uint64(back))
					}
				case json.Number:
					f, ok := new(big.Rat).SetString(x.String())
					if !ok || f.Cmp(new(big.Rat).SetInt(new(big.Int).SetUint64(uint64(back)))) != 0 {
						c.Failf("json", "the JSON number %s is read as %d", js, uint64(back))
					}
				default:
					c.Failf("json", "the JSON value %s is read as ID %d", js, uint64(back))
				}
			}
		}
		c.Mark(s, js)
	}
	c.Count("strings_parsed", good)
	c.Count("strings_rejected", bad)
	c.Sample("%d strings parsed, %d rejected", good, bad)
}

// idUnique generates IDs concurrently.
func idUnique(c *mon.Case) {
	n := 1 + c.R.Intn(8)
	per := 3000 + c.R.Intn(20000)
	out := make([][]appdash.SpanID, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		r := rand.New(rand.NewSource(c.R.Int63()))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			ids := make([]appdash.SpanID, 0, per)
			<-start
			for len(ids) < per {
				s := appdash.NewRootSpanID()
				if r.Intn(2) == 0 {
					s = appdash.NewSpanID(appdash.SpanID{Trace: 5, Span: 6, Parent: 7})
				}
				ids = append(ids, s)
			}
			out[g] = ids
		}(g)
	}
	close(start)
	wg.Wait()
	seen := make(map[appdash.ID]bool, n*per*2)
	add := func(id appdash.ID) {
		if seen[id] {
			c.Failf("repeated", "the ID %v was generated twice", id)
		}
		if id == 0 {
			c.Failf("zero", "the ID 0 was generated")
		}
		seen[id] = true
	}
	for _, ids := range out {
		for _, s := range ids {
			if s.Trace == 5 {
				if s.Parent != 6 {
					c.Failf("child", "the child of 5/6/7 is %v", s)
				}
				add(s.Span)
			} else {
				if s.Parent != 0 {
					c.Failf("root", "a new root is %v", s)
				}
				add(s.Trace)
				add(s.Span)
			}
		}
	}
	c.Mark(out[0][0])
	c.Count("ids", len(seen))
	c.Sample("%d goroutines, %d IDs", n, len(seen))
}

// idPeriod generates one long sequence and looks for a return of its beginning.
func idPeriod(c *mon.Case) {
	n := 18 << 20
	if c.Thorough {
		n = 400 << 20
	}
	first := appdash.NewRootSpanID()
	for i := 0; i < n; i++ {
		if i&(1<<20-1) == 0 {
			mon.Beat()
		}
		if s := appdash.NewRootSpanID(); s.Trace == first.Trace || s.Span == first.Span || s.Trace == first.Span || s.Span == first.Trace {
			c.Failf("repeated", "after %d root span IDs an ID of %v was generated again: %v", i+1, first, s)
			return
		}
	}
	c.Mark(first)
	c.Count("ids", 2*n)
	c.Sample("%d consecutive IDs", 2*n)
}

// idProcesses compares the IDs of several processes.
func idProcesses(c *mon.Case) {
	seen := map[string]int{}
	for p := 0; p < 4; p++ {
		out, err := mon.Child("ids").Output()
		if err != nil {
			c.Inconclusive("child: %v", err)
			return
		}
		sc := bufio.NewScanner(strings.NewReader(string(out)))
		for sc.Scan() {
			for _, f := range strings.Fields(sc.Text()) {
				if q, ok := seen[f]; ok {
					c.Failf("repeated", "processes %d and %d both generated the ID %s", q, p, f)
					return
				}
				seen[f] = p
			}
		}
		c.Mark(string(out[:33]))
	}
	if len(seen) < 3200 {
		c.Failf("repeated", "4 processes generated only %d distinct IDs", len(seen))
	}
	c.Count("ids", len(seen))
	c.Sample("4 processes, %d distinct IDs", len(seen))
}
