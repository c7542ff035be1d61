R('r-recorder', 'recorder.go', ('''	as, err := MarshalEvent(e)
	if err != nil {
		r.error("Event", err)
		return
	}
	r.annotations = append(r.annotations, as...)
}
''', '''	if as, err := MarshalEvent(e); err == nil {
		for i := range as {
			r.annotations = append(r.annotations, as[i])
		}
	} else {
		r.error("Event", err)
	}
}
'''), ('''	r.errorsMu.Lock()
	errs := r.errors
	r.errors = nil
	r.errorsMu.Unlock()
	return errs
''', '''	r.errorsMu.Lock()
	defer r.errorsMu.Unlock()
	var errs []error
	errs, r.errors = r.errors, nil
	return errs
'''), ('''	r.finished = true
	r.Annotation(r.annotations...)
''', '''	r.finished = true
	if err := r.collector.Collect(r.SpanID, r.annotations...); err != nil {
		r.error("Annotation", err)
	}
'''), ('''	if r.Logger != nil {
		r.Logger.Println(logMsg)
		return
	}

	r.errorsMu.Lock()
	r.errors = append(r.errors, err)
	r.errorsMu.Unlock()
''', '''	if l := r.Logger; l == nil {
		r.errorsMu.Lock()
		defer r.errorsMu.Unlock()
		r.errors = append(r.errors, err)
	} else {
		l.Println(logMsg)
	}
'''))

R('r-event', 'event.go', ('''	var as Annotations
	flattenValue("", reflect.ValueOf(e), func(k, v string) {
		as = append(as, Annotation{Key: k, Value: []byte(v)})
	})
	as = append(as, Annotation{Key: SchemaPrefix + e.Schema()})
	return as, nil
''', '''	as := make(Annotations, 0, 8)
	add := func(k string, v []byte) { as = append(as, Annotation{Key: k, Value: v}) }
	flattenValue("", reflect.ValueOf(e), func(k, v string) { add(k, []byte(v)) })
	add(SchemaPrefix+e.Schema(), nil)
	return as, nil
'''), ('''	schemaOK := false
	for _, s := range aSchemas {
		if s == e.Schema() {
			schemaOK = true
			break
		}
	}
	if !schemaOK {
		return &EventSchemaUnmarshalError{Found: aSchemas, Target: e.Schema()}
	}
''', '''	if target := e.Schema(); !contains(aSchemas, target) {
		return &EventSchemaUnmarshalError{Found: aSchemas, Target: target}
	}
'''), ('''// RegisterEvent registers an''', '''func contains(list []string, s string) bool {
	for i := len(list) - 1; i >= 0; i-- {
		if list[i] == s {
			return true
		}
	}
	return false
}

// RegisterEvent registers an'''), ('''	schemas := anns.schemas()
	for _, schema := range schemas {
		ev := registeredEvents[schema]
		if ev == nil {
			continue
		}
		evv := reflect.New(reflect.TypeOf(ev))
		if err := UnmarshalEvent(anns, evv.Interface().(Event)); err != nil {
			return err
		}
		*events = append(*events, evv.Elem().Interface().(Event))
	}
	return nil
''', '''	for _, schema := range anns.schemas() {
		ev, registered := registeredEvents[schema]
		if registered {
			evv := reflect.New(reflect.TypeOf(ev))
			err := UnmarshalEvent(anns, evv.Interface().(Event))
			if err != nil {
				return err
			}
			*events = append(*events, evv.Elem().Interface().(Event))
		}
	}
	return nil
'''))
R('r-event', 'reflect.go', ('''		for _, key := range v.MapKeys() {
			// small bit''', '''		keys := v.MapKeys()
		for i := len(keys) - 1; i >= 0; i-- {
			key := keys[i]
			// small bit'''), ('''	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		vv, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return reflect.Value{}, err
		}
		switch as.Kind() {
		case reflect.Int:
			vvv := int(vv)
			return reflect.ValueOf(&vvv), nil
		case reflect.Int8:
			vvv := int8(vv)
			return reflect.ValueOf(&vvv), nil
		case reflect.Int16:
			vvv := int16(vv)
			return reflect.ValueOf(&vvv), nil
		case reflect.Int32:
			vvv := int32(vv)
			return reflect.ValueOf(&vvv), nil
		case reflect.Int64:
			return reflect.ValueOf(&vv), nil
		}
''', '''	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		vv, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return reflect.Value{}, err
		}
		for _, p := range []interface{}{new(int), new(int8), new(int16), new(int32), new(int64)} {
			if pv := reflect.ValueOf(p); pv.Elem().Kind() == as.Kind() {
				pv.Elem().SetInt(vv)
				return pv, nil
			}
		}
'''), ('''	var kvs [][2]string
	for k, v := range m {
		kvs = append(kvs, [2]string{k, v})
	}
	sort.Sort(kvsByKey(kvs))
	return &kvs
''', '''	kvs := make([][2]string, 0, len(m))
	for k, v := range m {
		kvs = append(kvs, [2]string{k, v})
	}
	sort.Slice(kvs, func(i, j int) bool { return kvs[i][0] < kvs[j][0] })
	return &kvs
'''))

R('r-span', 'span.go', ('''	parts := strings.Split(s, SpanIDDelimiter)
	if len(parts) != 2 && len(parts) != 3 {
		return nil, ErrBadSpanID
	}
	root, err := ParseID(parts[0])
	if err != nil {
		return nil, ErrBadSpanID
	}
	id, err := ParseID(parts[1])
	if err != nil {
		return nil, ErrBadSpanID
	}
	var parent ID
	if len(parts) == 3 {
		i, err := ParseID(parts[2])
		if err != nil {
			return nil, ErrBadSpanID
		}
		parent = i
	}
	return &SpanID{
		Trace:  root,
		Span:   id,
		Parent: parent,
	}, nil
''', '''	var ids [3]ID
	parts := strings.SplitN(s, SpanIDDelimiter, len(ids)+1)
	if n := len(parts); n < 2 || n > len(ids) {
		return nil, ErrBadSpanID
	}
	for i, part := range parts {
		id, err := ParseID(part)
		if err != nil {
			return nil, ErrBadSpanID
		}
		ids[i] = id
	}
	return &SpanID{Trace: ids[0], Span: ids[1], Parent: ids[2]}, nil
'''), ('''	if id.Parent == 0 {
		return fmt.Sprintf("%s%s%s", id.Trace, SpanIDDelimiter, id.Span)
	}
	return fmt.Sprintf(
		"%s%s%s%s%s",
		id.Trace,
		SpanIDDelimiter,
		id.Span,
		SpanIDDelimiter,
		id.Parent,
	)
''', '''	parts := []string{id.Trace.String(), id.Span.String()}
	if !id.IsRoot() {
		parts = append(parts, id.Parent.String())
	}
	return strings.Join(parts, SpanIDDelimiter)
'''), ('''	for _, ann := range s.Annotations {
		if ann.Key == "Name" {
			return string(ann.Value)
		}
	}
	return ""
''', '''	return string(s.Annotations.get("Name"))
'''), ('''	for _, a := range as {
		// Important: Make a copy of a that we can retain a pointer to that
		// doesn't change after each iteration. Otherwise all wire annotations
		// would have the same key.
		cpy := a
		w = append(w, &wire.CollectPacket_Annotation{
			Key:   &cpy.Key,
			Value: cpy.Value,
		})
	}
	return
''', '''	for i := range as {
		key := as[i].Key
		w = append(w, &wire.CollectPacket_Annotation{Key: &key, Value: as[i].Value})
	}
	return w
'''))
R('r-span', 'id.go', ('''	m.Lock()
	if n == aes.BlockSize {
		c.Encrypt(b, ctr)
		for i := aes.BlockSize - 1; i >= 0; i-- { // increment ctr
			ctr[i]++
			if ctr[i] != 0 {
				break
			}
		}
		n = 0
	}
	id := *(*ID)(unsafe.Pointer(&b[n])) // zero-copy b/c we're arch-neutral
	n += idSize
	m.Unlock()
	return id
}
''', '''	m.Lock()
	defer m.Unlock()
	if n >= aes.BlockSize {
		c.Encrypt(b, ctr)
		increment(ctr)
		n = 0
	}
	id := ID(binary.LittleEndian.Uint64(b[n : n+idSize]))
	n += idSize
	return id
}

// increment adds 1 to the big-endian counter.
func increment(ctr []byte) {
	i := len(ctr)
	for carry := true; carry && i > 0; carry = ctr[i] == 0 {
		i--
		ctr[i]++
	}
}
'''), ('''	"crypto/rand"
	"encoding/json"
''', '''	"crypto/rand"
	"encoding/binary"
	"encoding/json"
'''), ('''	"sync"
	"unsafe"
''', '''	"sync"
'''), ('''	i, err := parseJSONString(data)
	if err == nil {
		*id = i
		return nil
	}
	i, err = parseJSONInt(data)
	if err == nil {
		*id = i
		return nil
	}
	return fmt.Errorf("%s is not a valid ID", data)
''', '''	for _, parse := range []func([]byte) (ID, error){parseJSONString, parseJSONInt} {
		if i, err := parse(data); err == nil {
			*id = i
			return nil
		}
	}
	return fmt.Errorf("%s is not a valid ID", data)
'''))
R('r-span', 'trace.go', ('''	if t.ID.Span == spanID {
		return t
	}
	for _, sub := range t.Sub {
		if s := sub.FindSpan(spanID); s != nil {
			return s
		}
	}
	return nil
''', '''	stack := []*Trace{t}
	for len(stack) > 0 {
		last := len(stack) - 1
		x := stack[last]
		stack = stack[:last]
		if x.ID.Span == spanID {
			return x
		}
		for i := len(x.Sub) - 1; i >= 0; i-- {
			stack = append(stack, x.Sub[i])
		}
	}
	return nil
'''), ('''		if v := e.Start(); v.Before(start) {
			start = v
		}
		if v := e.End(); v.After(end) {
			end = v
		}
''', '''		start, end = earlier(start, e.Start()), later(end, e.End())
'''), ('''type tracesByIDSpan''', '''func earlier(a, b time.Time) time.Time {
	if b.Before(a) {
		return b
	}
	return a
}

func later(a, b time.Time) time.Time {
	if a.Before(b) {
		return b
	}
	return a
}

type tracesByIDSpan'''))
R('r-span', 'multi.go', ('''		trace, err := s.Trace(t)
		if err == ErrTraceNotFound {
			continue
		} else if err != nil {
			return nil, err
		}
		return trace, nil
	}
''', '''		switch trace, err := s.Trace(t); err {
		case nil:
			return trace, nil
		case ErrTraceNotFound:
		default:
			return nil, err
		}
	}
'''), ('''		for _, t := range traces {
			if _, ok := union[t.ID.Trace]; !ok {
				union[t.ID.Trace] = struct{}{}
				all = append(all, t)
			}
		}
	}
	return all, nil
''', '''		all = append(all, unseen(union, traces)...)
	}
	return all, nil
'''), ('''// MultiQueryer returns''', '''// unseen returns the traces that are not in seen, and adds them.
func unseen(seen map[ID]struct{}, traces []*Trace) (list []*Trace) {
	for _, t := range traces {
		before := len(seen)
		seen[t.ID.Trace] = struct{}{}
		if len(seen) > before {
			list = append(list, t)
		}
	}
	return list
}

// MultiQueryer returns'''))

R('r-httptrace', 'httptrace/server.go', ('''		if conf.SetContextSpan != nil {
			conf.SetContextSpan(r, *spanID)
		} else {
			ctx := context.WithValue(r.Context(), contextKeySpanID, *spanID)
			r = r.WithContext(ctx)
		}

		e := NewServerEvent(r)
		e.ServerRecv = time.Now()
''', '''		r = conf.withSpan(r, *spanID)
		recv := time.Now()
		e := NewServerEvent(r)
		e.ServerRecv = recv
'''), ('''		e.Response = responseInfo(rr.partialResponse())
		e.ServerSend = time.Now()

		rec := appdash.NewRecorder(*spanID, c)
		if e.Route != "" {
			rec.Name("Serve " + e.Route)
		} else {
			rec.Name("Serve " + r.URL.Host + r.URL.Path)
		}
		rec.Event(e)
		rec.Finish()
	}
}
''', '''		e.Response = responseInfo(rr.partialResponse())
		e.ServerSend = time.Now()

		name := e.Route
		if name == "" {
			name = r.URL.Host + r.URL.Path
		}
		rec := appdash.NewRecorder(*spanID, c)
		defer rec.Finish()
		rec.Name("Serve " + name)
		rec.Event(e)
	}
}

// withSpan makes the span known to the handlers of r.
func (conf *MiddlewareConfig) withSpan(r *http.Request, id appdash.SpanID) *http.Request {
	if set := conf.SetContextSpan; set != nil {
		set(r, id)
		return r
	}
	return r.WithContext(context.WithValue(r.Context(), contextKeySpanID, id))
}
'''), ('''	n, err := r.ResponseWriter.Write(b)
	r.ContentLength += int64(n)
	return n, err
''', '''	n, err := r.ResponseWriter.Write(b)
	defer func() { r.ContentLength = r.ContentLength + int64(n) }()
	return n, err
'''))
R('r-httptrace', 'httptrace/client.go', ('''	h := make(http.Header, len(header)+len(trailer))
	for _, hdr := range []http.Header{header, trailer} {
		for k, v := range hdr {
			if k = http.CanonicalHeaderKey(k); isRedacted(k) {
				h[k] = redacted
			} else {
				h[k] = append(h[k], v...) // a copy, v is the caller's
			}
		}
	}
	m := make(map[string]string, len(h))
	for k, v := range h {
		m[k] = strings.Join(v, ",")
	}
	return m
}
''', '''	values := map[string][]string{}
	addTo(values, header)
	addTo(values, trailer)
	m := map[string]string{}
	for k := range values {
		m[k] = strings.Join(values[k], ",")
	}
	return m
}

// addTo adds the headers, redacted, to values.
func addTo(values map[string][]string, hdr http.Header) {
	for name, v := range hdr {
		k := http.CanonicalHeaderKey(name)
		if isRedacted(k) {
			values[k] = redacted
			continue
		}
		values[k] = append(values[k], v...) // a copy, v is the caller's
	}
}
'''), ('''	req := cloneRequest(original)
	t.setCloneRequest(original, req)
	defer t.setCloneRequest(original, nil)

	child := t.Recorder.Child()
	if t.SetName {
		child.Name("Request " + req.URL.Host)
	}

	// New child span is created and set as HTTP header instead of using `child`
	// in order to have a single span recording operation per httptrace event
	// (HTTPClient or HTTPServer).
	span := appdash.NewSpanID(t.Recorder.SpanID)

	SetSpanIDHeader(req.Header, span)
''', '''	req := cloneRequest(original)
	SetSpanIDHeader(req.Header, appdash.NewSpanID(t.Recorder.SpanID))
	t.setCloneRequest(original, req)
	defer func() { t.setCloneRequest(original, nil) }()

	child := t.Recorder.Child()
	if t.SetName {
		child.Name("Request " + req.URL.Host)
	}
'''), ('''	if err == nil {
		e.Response = responseInfo(resp)
	} else {
		e.Response.StatusCode = -1
	}
	child.Event(e)
''', '''	if err != nil {
		e.Response = ResponseInfo{StatusCode: -1}
	} else {
		e.Response = responseInfo(resp)
	}
	child.Event(e)
'''), ('''	r2 := new(http.Request)
	*r2 = *r
	// deep copy of the Header
	r2.Header = make(http.Header)
	for k, s := range r.Header {
		r2.Header[k] = s
	}
	return r2
''', '''	r2 := *r
	// deep copy of the Header
	r2.Header = make(http.Header, len(r.Header)+1)
	for k, s := range r.Header {
		r2.Header[k] = append([]string(nil), s...)
	}
	return &r2
'''), ('''	t.reqMu.RLock()
	newReq, ok := t.requests[req]
	t.reqMu.RUnlock()
	if !ok {
		return
	}

	transport := t.getTransport()
	if ts, ok := transport.(canceler); ok {
		ts.CancelRequest(newReq)
	}
''', '''	ts, ok := t.getTransport().(canceler)
	if !ok {
		return
	}
	t.reqMu.RLock()
	newReq := t.requests[req]
	t.reqMu.RUnlock()
	if newReq != nil {
		ts.CancelRequest(newReq)
	}
'''))
R('r-httptrace', 'httptrace/header.go', ('''	// Check for Span-ID.
	fromHeader = HeaderSpanID
	spanID, err = getSpanIDHeader(h, HeaderSpanID)
	if err != nil {
		return nil, fromHeader, err
	}

	// Check for Parent-Span-ID.
	if spanID == nil {
		fromHeader = HeaderParentSpanID
		spanID, err = getSpanIDHeader(h, HeaderParentSpanID)
		if err != nil {
			return nil, fromHeader, err
		}
		if spanID != nil {
			newSpanID := appdash.NewSpanID(*spanID)
			spanID = &newSpanID
		}
	}

	// Create a new root span ID.
	if spanID == nil {
		fromHeader = ""
		newSpanID := appdash.NewRootSpanID()
		spanID = &newSpanID
	}
	return spanID, fromHeader, nil
''', '''	for _, name := range []string{HeaderSpanID, HeaderParentSpanID} {
		id, err := getSpanIDHeader(h, name)
		if err != nil {
			return nil, name, err
		}
		if id == nil {
			continue
		}
		if name == HeaderParentSpanID {
			child := appdash.NewSpanID(*id)
			id = &child
		}
		return id, name, nil
	}
	// Create a new root span ID.
	root := appdash.NewRootSpanID()
	return &root, "", nil
'''))

R('r-ot', 'opentracing/recorder.go', ('''	r.collectEvent(spanID, appdash.SpanName(sp.Operation))

	// Record all of the logs.
	for _, log := range sp.Logs {
		if logs, err := materializeWithJSON(log.Fields); err != nil {
			r.logError(spanID, err)
		} else {
			r.collectEvent(spanID, appdash.LogWithTimestamp(string(logs), log.Timestamp))
		}
	}

	for key, value := range sp.Tags {
		val := []byte(fmt.Sprintf("%+v", value))
		r.collectAnnotation(spanID, appdash.Annotation{Key: key, Value: val})
	}

	for key, val := range sp.Context.Baggage {
		r.collectAnnotation(spanID, appdash.Annotation{Key: key, Value: []byte(val)})
	}

	// Add the duration to the start time to get an approximate end time.
	approxEndTime := sp.Start.Add(sp.Duration)
	r.collectEvent(spanID, appdash.Timespan{S: sp.Start, E: approxEndTime})
}
''', '''	r.collectEvent(spanID, appdash.SpanName(sp.Operation))

	// Add the duration to the start time to get an approximate end time.
	r.collectEvent(spanID, appdash.Timespan{S: sp.Start, E: sp.Start.Add(sp.Duration)})

	var anns []appdash.Annotation
	for key, val := range sp.Context.Baggage {
		anns = append(anns, appdash.Annotation{Key: key, Value: []byte(val)})
	}
	for key, value := range sp.Tags {
		anns = append(anns, appdash.Annotation{Key: key, Value: []byte(fmt.Sprintf("%+v", value))})
	}
	for i := range anns {
		r.collectAnnotation(spanID, anns[i])
	}

	r.recordLogs(spanID, sp)
}

// recordLogs records all of the logs.
func (r *Recorder) recordLogs(spanID appdash.SpanID, sp basictracer.RawSpan) {
	for _, log := range sp.Logs {
		logs, err := materializeWithJSON(log.Fields)
		if err != nil {
			r.logError(spanID, err)
			continue
		}
		r.collectEvent(spanID, appdash.LogWithTimestamp(string(logs), log.Timestamp))
	}
}
'''), ('''	if err := r.collector.Collect(spanID, ans...); err != nil && r.Log != nil {
		if r.verbose {
			r.Log.Printf("Appdash Recorder collect error: %v\\n", err)
		} else {
			r.logOnce.Do(func() { r.Log.Printf("Appdash Recorder collect error: %v\\n", err) })
		}
	}
''', '''	err = r.collector.Collect(spanID, ans...)
	if err == nil || r.Log == nil {
		return
	}
	print := func() { r.Log.Printf("Appdash Recorder collect error: %v\\n", err) }
	if !r.verbose {
		r.logOnce.Do(print)
		return
	}
	print()
'''))
R('r-ot', 'opentracing/json.go', ('''	if len(fields) == 1 {
		if event, ok := fields["event"]; ok {
			return []byte(event), nil
		}
	}
''', '''	if event, ok := fields["event"]; ok && len(fields) == 1 {
		return []byte(event), nil
	}
'''), ('''	ml[key] = fmt.Sprintf("%t", value)
''', '''	ml[key] = strconv.FormatBool(value)
'''), ('''	"fmt"

	"github''', '''	"fmt"
	"strconv"

	"github'''))

R('r-app', 'traceapp/app.go', ('''	if permalink := r.URL.Query().Get("permalink"); permalink != "" {
		// If the user specified a permalink, then decode it directly into a
		// trace structure and place it into storage for viewing.
		gz, err := gzip.NewReader(base64.NewDecoder(base64.RawURLEncoding, strings.NewReader(permalink)))
		if err != nil {
			return err
		}
		var upload *appdash.Trace
		if err := json.NewDecoder(gz).Decode(&upload); err != nil {
			return err
		}
		if err := a.uploadTraces(upload); err != nil {
			return err
		}
	}
''', '''	if permalink := r.URL.Query().Get("permalink"); len(permalink) > 0 {
		// If the user specified a permalink, then decode it directly into a
		// trace structure and place it into storage for viewing.
		upload, err := decodePermalink(permalink)
		if err == nil {
			err = a.uploadTraces(upload)
		}
		if err != nil {
			return err
		}
	}
'''), ('''func (a *App) serveTraces(w''', '''// decodePermalink decodes the trace in a permalink.
func decodePermalink(permalink string) (*appdash.Trace, error) {
	b64 := base64.NewDecoder(base64.RawURLEncoding, strings.NewReader(permalink))
	gz, err := gzip.NewReader(b64)
	if err != nil {
		return nil, err
	}
	var upload *appdash.Trace
	err = json.NewDecoder(gz).Decode(&upload)
	return upload, err
}

func (a *App) serveTraces(w'''), ('''	var showTimelineChart bool = true
	visData, err := a.d3timeline(trace)
	switch err {
	case errTimelineItemValidation:
		showTimelineChart = false
	case nil:
		break
	default:
		return err
	}
''', '''	visData, err := a.d3timeline(trace)
	showTimelineChart := err != errTimelineItemValidation
	if showTimelineChart && err != nil {
		return err
	}
'''), ('''		for _, idStr := range strings.Split(show, ",") {
			id, err := appdash.ParseID(idStr)
			if err == nil {
				showJust = append(showJust, id)
			}
		}
	}

	traces, err''', '''		seen := map[appdash.ID]bool{}
		for _, idStr := range strings.Split(show, ",") {
			if id, err := appdash.ParseID(idStr); err == nil && !seen[id] {
				seen[id] = true
				showJust = append(showJust, id)
			}
		}
	}

	traces, err'''), ('''	selection := q.Get("selection")
	if len(selection) > 0 {
		ids := make(map[appdash.ID]bool)
		for _, idStr := range strings.Split(selection, ",") {
			id, err := appdash.ParseID(idStr)
			if err != nil {
				return err
			}
			ids[id] = true
		}
		var selected []*appdash.Trace
		for _, t := range traces {
			if ids[t.Span.ID.Trace] {
				selected = append(selected, t)
			}
		}
		traces = selected
	}
''', '''	if selection := q.Get("selection"); selection != "" {
		if traces, err = selectTraces(traces, selection); err != nil {
			return err
		}
	}
'''), ('''func (a *App) serveTraceUpload(w''', '''// selectTraces returns those of the traces whose IDs are listed.
func selectTraces(traces []*appdash.Trace, list string) (selected []*appdash.Trace, err error) {
	ids := map[appdash.ID]struct{}{}
	for _, idStr := range strings.Split(list, ",") {
		id, err := appdash.ParseID(idStr)
		if err != nil {
			return nil, err
		}
		ids[id] = struct{}{}
	}
	for i := range traces {
		if _, ok := ids[traces[i].Span.ID.Trace]; ok {
			selected = append(selected, traces[i])
		}
	}
	return selected, nil
}

func (a *App) serveTraceUpload(w'''), ('''	defer r.Body.Close()
	data, err := ioutil.ReadAll(r.Body)
	if err != nil {
		return err
	}

	// Unmarshal the trace.
	var traces []*appdash.Trace
	err = json.Unmarshal(data, &traces)
	if err != nil {
		return err
	}
	return a.uploadTraces(traces...)
''', '''	defer r.Body.Close()
	var traces []*appdash.Trace
	data, err := ioutil.ReadAll(r.Body)
	if err == nil {
		// Unmarshal the trace.
		err = json.Unmarshal(data, &traces)
	}
	if err == nil {
		err = a.uploadTraces(traces...)
	}
	return err
'''), ('''		_, err := a.Store.Trace(trace.Span.ID.Trace)
		if err == nil {
			// The trace collides with an existing trace, ignore it.
			continue
		}
		if err != appdash.ErrTraceNotFound {
			return err
		}

		// Collect the trace (store it for later viewing).
		if err = collectTrace(a.Store, trace); err != nil {
			return err
		}
	}
	return nil
''', '''		switch _, err := a.Store.Trace(trace.Span.ID.Trace); err {
		case nil:
			// The trace collides with an existing trace, ignore it.
		case appdash.ErrTraceNotFound:
			// Collect the trace (store it for later viewing).
			if err := collectTrace(a.Store, trace); err != nil {
				return err
			}
		default:
			return err
		}
	}
	return nil
'''))
R('r-app', 'traceapp/prof.go', ('''	var u *url.URL
	if t.ID.Parent == 0 {
		u, err = a.URLToTrace(t.ID.Trace)
		if err != nil {
			return nil, nil, err
		}
	} else {
		u, err = a.URLToTraceSpan(t.ID.Trace, t.ID.Span)
		if err != nil {
			return nil, nil, err
		}
	}
''', '''	u, err := a.urlOf(t)
	if err != nil {
		return nil, nil, err
	}
'''), ('''		ts, ok := ev.(appdash.TimespanEvent)
		if !ok {
			continue
		}
		// To match the timeline properly we use floats and round up.
		msf := float64(ts.End().Sub(ts.Start())) / float64(time.Millisecond)
		ms := int64(msf + 0.5)
		if ms > p.Time {
			p.Time = ms
		}
	}

	// TimeChildren is our time + the children's time.
	p.TimeChildren = p.Time

	// The cumulative time is our time + all children's time.
	p.TimeCum = p.Time
''', '''		if ts, ok := ev.(appdash.TimespanEvent); ok {
			if ms := msecs(ts); p.Time < ms {
				p.Time = ms
			}
		}
	}

	// TimeChildren is our time + the children's time, and the cumulative
	// time is our time + all children's time.
	p.TimeChildren, p.TimeCum = p.Time, p.Time
'''), ('''// profile generates''', '''// urlOf is the URL of the page of a (sub)trace.
func (a *App) urlOf(t *appdash.Trace) (*url.URL, error) {
	if t.ID.IsRoot() {
		return a.URLToTrace(t.ID.Trace)
	}
	return a.URLToTraceSpan(t.ID.Trace, t.ID.Span)
}

// msecs is the event's rounded length. To match the timeline properly we use
// floats and round up.
func msecs(ts appdash.TimespanEvent) int64 {
	d := ts.End().Sub(ts.Start())
	return int64(float64(d)/float64(time.Millisecond) + 0.5)
}

// profile generates'''), ('''	_, err = io.Copy(out, bytes.NewReader(j))
	return err
''', '''	if _, err := out.Write(j); err != nil {
		return err
	}
	return nil
'''), ('''	"bytes"
''', ''))
R('r-app', 'traceapp/vis.go', ('''	var u *url.URL
	if t.ID.Parent == 0 {
		var err error
		u, err = a.URLToTrace(t.ID.Trace)
		if err != nil {
			return nil, err
		}
	} else {
		var err error
		u, err = a.URLToTraceSpan(t.ID.Trace, t.ID.Span)
		if err != nil {
			return nil, err
		}
	}
''', '''	u, err := a.urlOf(t)
	if err != nil {
		return nil, err
	}
'''), ('''	"net/url"
''', ''), ('''			if t.Span.ID.Parent == 0 {
				ts.Label = e.Schema()
				item.Times = append(item.Times, &ts)
			} else {
				if item.Times == nil {
					item.Times = append(item.Times, &ts)
				} else {
					if item.Times[0].Start > start {
						item.Times[0].Start = start
					}
					if item.Times[0].End < end {
						item.Times[0].End = end
					}
				}
			}
''', '''			switch {
			case t.Span.ID.IsRoot():
				ts.Label = e.Schema()
				item.Times = append(item.Times, &ts)
			case len(item.Times) == 0:
				item.Times = append(item.Times, &ts)
			default:
				first := item.Times[0]
				if start < first.Start {
					first.Start = start
				}
				if end > first.End {
					first.End = end
				}
			}
'''))
R('r-app', 'traceapp/aggregate.go', ('''		if mode == traceOnly {
			up(childProf.Name, childProf.TimeCum)
		} else if mode == spanOnly {
			for _, spanProf := range profiles[1:] {
				up(spanProf.Name, spanProf.Time)
			}
		} else if mode == traceAndSpan {
			for _, spanProf := range profiles[1:] {
				up(fmt.Sprintf("%s: %s", childProf.Name, spanProf.Name), spanProf.Time)
			}
		}
''', '''		if mode == traceOnly {
			up(childProf.Name, childProf.TimeCum)
			continue
		}
		for i := 1; i < len(profiles); i++ {
			label := profiles[i].Name
			if mode == traceAndSpan {
				label = childProf.Name + ": " + label
			}
			up(label, profiles[i].Time)
		}
'''), ('''import (
	"fmt"

''', '''import (
'''))
R('r-app', 'traceapp/dashboard.go', ('''	rows := make([]*dashboardRow, len(results))
	for i, r := range results {
		var stringIDs []string
		for _, slowest := range r.Slowest {
			stringIDs = append(stringIDs, slowest.String())
		}
		tracesURL.RawQuery = "show=" + strings.Join(stringIDs, ",")

		rows[i] = &dashboardRow{
''', '''	rows := []*dashboardRow{}
	for _, r := range results {
		stringIDs := make([]string, len(r.Slowest))
		for i := range r.Slowest {
			stringIDs[i] = r.Slowest[i].String()
		}
		tracesURL.RawQuery = "show=" + strings.Join(stringIDs, ",")

		rows = append(rows, &dashboardRow{
'''), ('''			URL:       tracesURL.String(),
		}
''', '''			URL:       tracesURL.String(),
		})
'''))
R('r-app', 'traceapp/trace.go', ('''	if t == nil || t.Span.ID.Trace != id {
		return errMalformedTrace
	}
	for _, sub := range t.Sub {
		if err := validateTrace(sub, id); err != nil {
			return err
		}
	}
	return nil
''', '''	for stack := []*appdash.Trace{t}; len(stack) > 0; {
		x := stack[0]
		stack = stack[1:]
		if x == nil || x.Span.ID.Trace != id {
			return errMalformedTrace
		}
		stack = append(stack, x.Sub...)
	}
	return nil
'''))

R('r-serve', 'cmd/appdash/serve_cmd.go', ('''	if c.StoreFile != "" {
		f, err := os.Open(c.StoreFile)
		if err != nil && !os.IsNotExist(err) {
			return err
		}
		if f != nil {
			if n, err := memStore.ReadFrom(f); err == nil {
				log.Printf("Read %d traces from file %s", n, c.StoreFile)
			} else if err != nil {
				f.Close()
				return err
			}
			if err := f.Close(); err != nil {
				return err
			}
		}
		if c.''', '''	if c.StoreFile != "" {
		if err := loadStore(memStore, c.StoreFile); err != nil {
			return err
		}
		if c.'''), ('''// urlOrDefault returns''', '''// loadStore loads what an earlier run has saved, if anything.
func loadStore(s *appdash.MemoryStore, file string) error {
	f, err := os.Open(file)
	if os.IsNotExist(err) {
		return nil
	}
	if err != nil {
		return err
	}
	defer f.Close()
	n, err := s.ReadFrom(bufio.NewReader(f))
	if err == nil {
		log.Printf("Read %d traces from file %s", n, file)
	}
	return err
}

// urlOrDefault returns'''), ('''import (
''', '''import (
	"bufio"
'''), ('''	if len(h.want) == len(authHdr) && subtle.ConstantTimeCompare(h.want, []byte(authHdr)) == 1 {
		h.Handler.ServeHTTP(w, r)
		return
	}
	w.Header().Set("WWW-Authenticate", `Basic realm="appdash"`)
	http.Error(w, "unauthorized", http.StatusUnauthorized)
''', '''	if subtle.ConstantTimeCompare([]byte(authHdr), h.want) != 1 {
		w.Header().Set("WWW-Authenticate", `Basic realm="appdash traces"`)
		http.Error(w, "401 unauthorized", http.StatusUnauthorized)
		return
	}
	h.Handler.ServeHTTP(w, r)
'''), ('''		parts := strings.SplitN(c.BasicAuth, ":", 2)
		if len(parts) != 2 {
			log.Fatalf("Basic auth must be specified as 'user:passwd'.")
		}
		user, passwd := parts[0], parts[1]
		if user == "" || passwd == "" {
''', '''		colon := strings.Index(c.BasicAuth, ":")
		if colon < 0 {
			log.Fatalf("Basic auth must be specified as 'user:passwd'.")
		}
		user, passwd := c.BasicAuth[:colon], c.BasicAuth[colon+1:]
		if user == "" || passwd == "" {
'''))
