package core

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"net/url"
	"reflect"
	"strings"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"sourcegraph.com/sourcegraph/appdash/httptrace"
	"sourcegraph.com/sourcegraph/appdash/sqltrace"
	"verif/ad"
	"verif/mon"
)

func init() {
	mon.Reg("C16", "round-trip", 8000, 100000, eventRoundTrip)
	mon.Reg("C16", "all-events", 4000, 50000, eventAll)
	mon.Reg("C16", "hostile-annotations", 8000, 40000, eventHostile)
	mon.Reg("C16", "marshal-anything", 4000, 20000, eventMarshalAny)
	for _, e := range []appdash.Event{evScalars{}, evNames{}, evNested{}, evLists{}, evNamed{}} {
		appdash.RegisterEvent(e)
	}
}

type evScalars struct {
	B   bool
	I   int
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U   uint
	U8  uint8
	U16 uint16
	U32 uint32
	U64 uint64
	F32 float32
	F64 float64
	S   string
	T   time.Time
	D   time.Duration
}

func (evScalars) Schema() string { return "verif-scalars" }

// evNames has fields whose names are prefixes of each other or sort around '.'.
type evNames struct {
	N      string
	Na     string
	Nam    map[string]string
	Name2  string `trace:"Na-me"`
	Named  int    `trace:"Na!"`
	Dotted string `trace:"Z.y"`
	Z2     int    `trace:"Z.yy"`
	Z3     struct {
		Q  string
		Qq map[string]string
		Q2 string `trace:"Q#"`
	} `trace:"Z.x"`
	ZZ      []string
	ZZZ     string
	z       int
	Unicode string `trace:"é"`
}

func (evNames) Schema() string { return "verif-names" }

type inner struct {
	M map[string]string
	L []int
	X string
	T time.Time
}

type evNested struct {
	A  inner
	AA inner `trace:"A2"`
	B  struct {
		C struct {
			D inner
			E string
		}
		F map[string]string
	}
	G  bool
	GT time.Time
}

func (evNested) Schema() string { return "verif-nested" }

type evLists struct {
	Bools  []bool
	Ints   []int
	Int8s  []int8
	Uints  []uint64
	Floats []float64
	F32s   []float32
	Strs   []string
	Times  []time.Time
	M1     map[string]string
	M2     map[string]int
	M3     map[string]float64
	M4     map[string]bool
	M5     map[string]time.Time
	After  string
}

func (evLists) Schema() string { return "verif-lists" }

type (
	myString string
	myInt    int16
	myFloat  float64
	myMap    map[string]string
	myList   []string
)

type evNamed struct {
	S myString
	I myInt
	F myFloat
	M myMap
	L myList
	N map[myString]myInt
}

func (evNamed) Schema() string { return "verif-named" }

// evAny holds what marshalling must survive.
type evAny struct {
	P   *int
	PP  **string
	PS  *inner
	U   *url.URL
	I   any
	Str fmt.Stringer
	E   error
	F   func()
	C   chan int
	Cx  complex128
	A   [3]int
	AP  [2]*int
	LP  []*inner
	LI  []any
	MI  map[int]any
	MP  map[string]*url.URL
	MS  map[inner2]string
	By  []byte
	UP  uintptr
	Emb
	Rec  *evAny
	priv *int
}

type inner2 struct{ A, B int }

// Emb is embedded.
type Emb struct {
	EmbS string
	EmbP *time.Time
}

func (evAny) Schema() string { return "verif-any" }

func fill(r *rand.Rand, v reflect.Value, depth int) {
	if _, ok := v.Interface().(time.Time); ok {
		v.Set(reflect.ValueOf(evTime(r)))
		return
	}
	if _, ok := v.Interface().(time.Duration); ok {
		d := time.Duration(r.Int63n(int64(240 * time.Hour)))
		switch r.Intn(3) {
		case 0:
			d = time.Duration(r.Intn(100000))
		case 1:
			d = -d
		}
		v.SetInt(int64(d))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits := uint(v.Type().Bits())
		x := int64(r.Uint64()) >> (64 - bits) >> uint(r.Intn(int(bits)))
		switch r.Intn(5) {
		case 0:
			x = math.MinInt64 >> (64 - bits)
		case 1:
			x = math.MaxInt64 >> (64 - bits)
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		bits := uint(v.Type().Bits())
		x := r.Uint64() >> (64 - bits) >> uint(r.Intn(int(bits)))
		if r.Intn(4) == 0 {
			x = math.MaxUint64 >> (64 - bits)
		}
		v.SetUint(x)
	case reflect.Float32:
		f := math.Float32frombits(r.Uint32())
		if r.Intn(2) == 0 {
			f = []float32{0, 0.1, 1e-45, 3.4028235e38, float32(math.Inf(1)), float32(math.Inf(-1)), -0.5, 16777217}[r.Intn(8)]
		}
		v.SetFloat(float64(f))
	case reflect.Float64:
		f := math.Float64frombits(r.Uint64())
		if r.Intn(2) == 0 {
			f = []float64{0, 0.1, 500.3, 5e-324, math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1 << 53, 1.0 / 3, 1e300}[r.Intn(11)]
		}
		v.SetFloat(f)
	case reflect.String:
		v.SetString(ad.Str(r))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				if r.Intn(3) > 0 {
					fill(r, v.Field(i), depth+1)
				}
			}
		}
	case reflect.Map:
		n := r.Intn(4)
		if r.Intn(4) == 0 {
			n = 0
		}
		if n == 0 && r.Intn(2) == 0 {
			return
		}
		m := reflect.MakeMap(v.Type())
		for i := 0; i < n; i++ {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			fill(r, k, depth+1)
			fill(r, e, depth+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Slice:
		n := []int{0, 0, 1, 2, 3, 5, 12, 101}[r.Intn(8)]
		if depth > 2 {
			n = r.Intn(3)
		}
		if n == 0 && r.Intn(2) == 0 {
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			fill(r, s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(r, v.Index(i), depth+1)
		}
	case reflect.Ptr:
		if r.Intn(2) == 0 || depth > 4 {
			return
		}
		p := reflect.New(v.Type().Elem())
		fill(r, p.Elem(), depth+1)
		v.Set(p)
	case reflect.Interface:
		var xs = []any{nil, (*url.URL)(nil), (*int)(nil), &url.URL{Path: "/x"}, time.Second, errors.New("e"), (*myErr)(nil), 5, []int{1}, map[string]int{"a": 1}, (*inner)(nil), stringerVal(3)}
		x := reflect.ValueOf(xs[r.Intn(len(xs))])
		if x.IsValid() && x.Type().Implements(v.Type()) {
			v.Set(x)
		}
	}
}

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

type stringerVal int

func (stringerVal) String() string { return "stringer" }

// evTime generates a time of the years 0 to 9999 in any zone.
func evTime(r *rand.Rand) time.Time {
	switch r.Intn(8) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(r.Int63n(4e9), 0).UTC()
	case 2:
		return time.Date(1+r.Intn(9998), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1e9), time.UTC)
	case 3:
		return time.Unix(r.Int63n(4e9), r.Int63n(1e9)).In(time.FixedZone("", (r.Intn(23*60*2)-23*60)*60))
	case 4:
		return time.Unix(r.Int63n(4e9), r.Int63n(1000)*1e6)
	case 5: // local mean times have seconds
		return time.Unix(r.Int63n(4e9)-4e9, r.Int63n(1e9)).In(time.FixedZone("LMT", r.Intn(2*86400)-86400))
	case 6:
		return time.Unix(r.Int63n(4e9), 0).In(time.FixedZone("", []int{86399, 86400, -86400, -86399, 86340, 90000, -100000, 1172, -2670}[r.Intn(9)]))
	}
	return time.Now()
}

// same compares values, with times as instants and empty maps and slices like nil ones. It returns where they differ.
func same(path string, a, b reflect.Value) string {
	if a.Type() != b.Type() {
		return path + ": types differ"
	}
	if x, ok := a.Interface().(time.Time); ok {
		if y := b.Interface().(time.Time); !x.Equal(y) {
			return fmt.Sprintf("%s: %v, want %v", path, x, y)
		}
		return ""
	}
	diff := func() string { return fmt.Sprintf("%s: %#v, want %#v", path, a.Interface(), b.Interface()) }
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if math.IsNaN(x) != math.IsNaN(y) || !math.IsNaN(x) && math.Float64bits(x) != math.Float64bits(y) && !(x == 0 && y == 0) {
			return diff()
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath == "" {
				if d := same(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i)); d != "" {
					return d
				}
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() || a.Len() == 0 && !a.IsNil() {
			return diff()
		}
		for _, k := range b.MapKeys() {
			x := a.MapIndex(k)
			if !x.IsValid() {
				return diff()
			}
			if d := same(fmt.Sprintf("%s[%q]", path, k.String()), x, b.MapIndex(k)); d != "" {
				return d
			}
		}
	case reflect.Slice:
		if a.Len() != b.Len() || a.Len() == 0 && !a.IsNil() {
			return diff()
		}
		for i := 0; i < a.Len(); i++ {
			if d := same(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return diff()
		}
	}
	return ""
}

var evTypes = []reflect.Type{
	reflect.TypeOf(evScalars{}), reflect.TypeOf(evNames{}), reflect.TypeOf(evNested{}), reflect.TypeOf(evLists{}), reflect.TypeOf(evNamed{}),
	reflect.TypeOf(httptrace.ClientEvent{}), reflect.TypeOf(httptrace.ServerEvent{}), reflect.TypeOf(sqltrace.SQLEvent{}),
	reflect.TypeOf(appdash.Timespan{}), reflect.TypeOf(appdash.SpanNameEvent{}),
	reflect.TypeOf(appdash.Msg("")), reflect.TypeOf(appdash.LogWithTimestamp("", time.Time{})),
}

// ownKeys lists the keys of an event's fields.
func ownKeys(t reflect.Type) (ks []string) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		n := f.Tag.Get("trace")
		if n == "" {
			n = f.Name
		}
		ks = append(ks, n)
	}
	return
}

func clashes(key string, ks []string) bool {
	for _, k := range ks {
		if key == k || strings.HasPrefix(key, k+".") || strings.HasPrefix(k, key+".") {
			return true
		}
	}
	return false
}

// otherAnns generates annotations whose keys do not clash with ks but look
// and sort like them.
func otherAnns(r *rand.Rand, ks []string, n int) (as []ad.Ann) {
	for i := 0; i < n; i++ {
		k := ad.Str(r)
		if len(ks) > 0 && r.Intn(3) > 0 {
			k = ks[r.Intn(len(ks))]
			switch r.Intn(5) {
			case 0:
				k += []string{"x", "-", "!", "é", "0", "..", "\x00"}[r.Intn(7)]
			case 1:
				k = k[:len(k)-1]
			case 2:
				k = strings.ToLower(k)
			case 3:
				k = " " + k
			case 4:
				k = strings.Split(k, ".")[0]
			}
		}
		if clashes(k, ks) || strings.HasPrefix(k, appdash.SchemaPrefix) {
			continue
		}
		as = append(as, ad.Ann{Key: k, Value: ad.Val(r)})
	}
	return
}

func shuffle(r *rand.Rand, as []ad.Ann) {
	r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
}

func eventRoundTrip(c *mon.Case) {
	r := c.R
	t := evTypes[r.Intn(len(evTypes))]
	ev := reflect.New(t).Elem()
	fill(r, ev, 0)
	e := ev.Interface().(appdash.Event)
	as, err := appdash.MarshalEvent(e)
	if err != nil {
		c.Failf("marshal", "%#v: %v", e, err)
		return
	}
	own := len(as)
	all := ad.CopyAnns(as)
	ks := ownKeys(t)
	if r.Intn(4) > 0 {
		all = append(all, otherAnns(r, ks, r.Intn(8))...)
	}
	// Annotations of other events whose keys do not clash.
	for k := r.Intn(3); k > 0; k-- {
		o := evTypes[r.Intn(len(evTypes))]
		clash := o == t
		for _, x := range ownKeys(o) {
			clash = clash || clashes(x, ks)
		}
		if clash {
			continue
		}
		ov := reflect.New(o).Elem()
		fill(r, ov, 0)
		oas, err := appdash.MarshalEvent(ov.Interface().(appdash.Event))
		if err != nil {
			c.Failf("marshal", "%v: %v", o, err)
		}
		all = append(all, oas...)
	}
	if r.Intn(3) > 0 {
		shuffle(r, all)
	}
	back := reflect.New(t)
	err = appdash.UnmarshalEvent(all, back.Interface().(appdash.Event))
	if err != nil {
		c.Failf("unmarshal", "%#v: %v", e, err)
		return
	}
	if d := same(t.Name(), back.Elem(), ev); d != "" {
		c.Failf("differs", "after marshalling and unmarshalling, %s\nannotations: %s", d, cut(ad.AnnString(all)))
	}
	// Its schema absent.
	var without []ad.Ann
	for _, a := range all {
		if a.Key != appdash.SchemaPrefix+e.Schema() {
			without = append(without, a)
		}
	}
	err = appdash.UnmarshalEvent(without, reflect.New(t).Interface().(appdash.Event))
	var se *appdash.EventSchemaUnmarshalError
	if !errors.As(err, &se) || se.Target != e.Schema() || !strings.Contains(err.Error(), e.Schema()) {
		c.Failf("schema-error", "without its schema mark, unmarshalling %s gives %v", e.Schema(), err)
	}
	c.Mark(t.Name(), ad.AnnString(all))
	c.Count("fields_annotated", own)
	c.Count("other_annotations", len(all)-own)
	c.Sample("%s with %d annotations of its own among %d", t.Name(), own, len(all))
}

func eventAll(c *mon.Case) {
	r := c.R
	var as []ad.Ann
	var want []reflect.Value
	var used []string
	var names []string
	n := r.Intn(7)
	for i := 0; i < n; i++ {
		if r.Intn(4) == 0 {
			as = append(as, ad.Ann{Key: appdash.SchemaPrefix + "unknown-" + ad.Str(r), Value: ad.Val(r)})
			continue
		}
		t := evTypes[r.Intn(len(evTypes))]
		ks := ownKeys(t)
		clash := false
		for _, k := range ks {
			clash = clash || clashes(k, used)
		}
		ev := reflect.New(t).Elem()
		fill(r, ev, 0)
		e := ev.Interface().(appdash.Event)
		if clash {
			// The same kind of event once more: only its mark.
			for j, w := range want {
				if w.Type() == t {
					as = append(as, ad.Ann{Key: appdash.SchemaPrefix + e.Schema()})
					want = append(want, want[j])
					names = append(names, "again "+t.Name())
					break
				}
			}
			continue
		}
		used = append(used, ks...)
		eas, err := appdash.MarshalEvent(e)
		if err != nil {
			c.Failf("marshal", "%#v: %v", e, err)
			return
		}
		as = append(as, eas...)
		want = append(want, ev)
		names = append(names, t.Name())
	}
	as = append(as, otherAnns(r, used, r.Intn(4))...)
	var got []appdash.Event
	if r.Intn(3) == 0 {
		got = []appdash.Event{appdash.SpanName("before")}
	}
	off := len(got)
	if err := appdash.UnmarshalEvents(as, &got); err != nil {
		c.Failf("unmarshal", "UnmarshalEvents of %v: %v", names, err)
		return
	}
	if len(got) != off+len(want) {
		c.Failf("events", "%d events found, want %v (%s)", len(got)-off, names, cut(ad.AnnString(as)))
		return
	}
	for i, w := range want {
		g := reflect.ValueOf(got[off+i])
		if g.Kind() == reflect.Ptr {
			g = g.Elem()
		}
		if d := same(fmt.Sprintf("event %d", i), g, w); d != "" {
			c.Failf("differs", "%s (events %v)\nannotations: %s", d, names, cut(ad.AnnString(as)))
		}
	}
	c.Mark(names, ad.AnnString(as))
	c.Count("events", len(want))
	c.Sample("events %v in %d annotations", names, len(as))
}

var hostileValues = []string{"", "NaN", "1e999", "-1", "99999999999999999999", "0x10", "true", "2014-01-01T00:00:00Z", "0000-00-00T00:00:00Z", "9999-12-31T23:59:59.999999999Z", "2014-13-01T00:00:00Z", "\x00", "\xff", "1_000", " 1", "+1", "-0", "<nil>", "%s"}

func eventHostile(c *mon.Case) {
	r := c.R
	types := []reflect.Type{reflect.TypeOf(httptrace.ClientEvent{}), reflect.TypeOf(httptrace.ServerEvent{}), reflect.TypeOf(sqltrace.SQLEvent{}), reflect.TypeOf(appdash.Timespan{}),
		reflect.TypeOf(appdash.SpanNameEvent{}), reflect.TypeOf(appdash.Msg("")), reflect.TypeOf(appdash.LogWithTimestamp("", time.Time{}))}
	t := types[r.Intn(len(types))]
	e := reflect.New(t)
	var keys []string
	var walk func(prefix string, t reflect.Type)
	walk = func(prefix string, t reflect.Type) {
		if prefix != "" {
			keys = append(keys, prefix)
		}
		if t.Kind() != reflect.Struct || t == reflect.TypeOf(time.Time{}) {
			return
		}
		for i := 0; i < t.NumField(); i++ {
			n := t.Field(i).Tag.Get("trace")
			if n == "" {
				n = t.Field(i).Name
			}
			if prefix != "" {
				n = prefix + "." + n
			}
			walk(n, t.Field(i).Type)
		}
	}
	walk("", t)
	var as []ad.Ann
	for i := r.Intn(15); i > 0; i-- {
		k := keys[r.Intn(len(keys))]
		switch r.Intn(6) {
		case 0:
			k += "." + ad.Str(r)
		case 1:
			k += []string{".0", ".-1", ".999999999999", ".", "..", ".1.2"}[r.Intn(6)]
		case 2:
			k = k[:r.Intn(len(k)+1)]
		case 3:
			k = ad.Str(r)
		}
		v := []byte(hostileValues[r.Intn(len(hostileValues))])
		if r.Intn(3) == 0 {
			v = ad.Val(r)
		}
		as = append(as, ad.Ann{Key: k, Value: v})
	}
	schema := e.Interface().(appdash.Event).Schema()
	for i := 1 + r.Intn(2); i > 0; i-- {
		as = append(as, ad.Ann{Key: appdash.SchemaPrefix + schema, Value: ad.Val(r)})
	}
	if r.Intn(3) == 0 {
		as = append(as, ad.Ann{Key: appdash.SchemaPrefix + types[r.Intn(len(types))].Name()})
	}
	shuffle(r, as)
	guard := func(what string, f func()) {
		defer func() {
			if p := recover(); p != nil {
				c.Failf("panic", "%s: panic: %v\nannotations: %s", what, p, ad.AnnString(as))
			}
		}()
		f()
	}
	guard("UnmarshalEvent into "+schema, func() { appdash.UnmarshalEvent(as, e.Interface().(appdash.Event)) })
	guard("UnmarshalEvents", func() {
		var evs []appdash.Event
		appdash.UnmarshalEvents(as, &evs)
	})
	c.Mark(schema, ad.AnnString(as))
	c.Count("annotations", len(as))
	c.Sample("%s from %s", schema, cut(ad.AnnString(as)))
}

func eventMarshalAny(c *mon.Case) {
	r := c.R
	e := &evAny{}
	fill(r, reflect.ValueOf(e).Elem(), 0)
	var ev appdash.Event = e
	if r.Intn(2) == 0 {
		ev = *e
	}
	defer func() {
		if p := recover(); p != nil {
			c.Failf("panic", "MarshalEvent(%+v): panic: %v", e, p)
		}
	}()
	as, err := appdash.MarshalEvent(ev)
	if err == nil && (len(as) == 0 || as[len(as)-1].Key != appdash.SchemaPrefix+"verif-any") {
		found := false
		for _, a := range as {
			found = found || a.Key == appdash.SchemaPrefix+"verif-any"
		}
		if !found {
			c.Failf("schema", "MarshalEvent(%+v) returned no schema mark", e)
		}
	}
	c.Mark(len(as), fmt.Sprintf("%#v", e.A), e.I != nil, e.Str != nil, e.P != nil, e.U != nil, len(e.LI), len(e.MI), e.Rec != nil)
	c.Count("annotations", len(as))
	c.Sample("%d annotations", len(as))
}
