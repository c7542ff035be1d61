# The batching collector: helpers extracted, loops and conditions rewritten.
R('r-chunked', 'collector.go', ('''	if cc.stopped {
		return errors.New("ChunkedCollector is stopped")
	}
	if !cc.started {
		cc.start()
	}
''', '''	switch {
	case cc.stopped:
		return errors.New("ChunkedCollector is stopped")
	case !cc.started:
		cc.start()
	}
'''), ('''	var collectionSize uint64 = 3 * 8 // SpanID is 3 * uint64 ID's.
	for _, ann := range anns {
		collectionSize += uint64(len(ann.Key))
		collectionSize += uint64(len(ann.Value))
	}
''', '''	collectionSize := sizeOfCollection(anns)
'''), ('''	if cc.MaxQueueSize != 0 && cc.queueSizeBytes+collectionSize > cc.MaxQueueSize {
		if cc.Log''', '''	newSize := cc.queueSizeBytes + collectionSize
	if max := cc.MaxQueueSize; max > 0 && newSize > max {
		if cc.Log'''), ('''		cc.pendingBySpanID = nil
		cc.queueSizeBytes = 0
		return ErrQueueDropped
	}
	cc.queueSizeBytes += collectionSize

	if cc.pendingBySpanID == nil {
		cc.pendingBySpanID = make(map[SpanID]Annotations)
	}
	if p, present := cc.pendingBySpanID[span]; present {
		if len(anns) > 0 {
			cc.pendingBySpanID[span] = append(p, anns...)
		}
	} else {
		// Copy the annotations, the slice is the caller's.
		cc.pendingBySpanID[span] = Annotations(anns).copy()
	}

	if err := cc.lastErr; err != nil {
		cc.lastErr = nil
		return err
	}
	return nil
}
''', '''		cc.takePending()
		return ErrQueueDropped
	}
	cc.enqueue(span, anns)
	cc.queueSizeBytes = newSize

	err := cc.lastErr
	cc.lastErr = nil
	return err
}

// sizeOfCollection is the approximate size of a collection.
func sizeOfCollection(anns []Annotation) uint64 {
	size := 3 * 8 // SpanID is 3 * uint64 ID's.
	for i := 0; i < len(anns); i++ {
		size += len(anns[i].Key) + len(anns[i].Value)
	}
	return uint64(size)
}

// enqueue adds the annotations to the pending ones. cc.mu must be held.
func (cc *ChunkedCollector) enqueue(span SpanID, anns []Annotation) {
	if cc.pendingBySpanID == nil {
		cc.pendingBySpanID = map[SpanID]Annotations{}
	}
	p := cc.pendingBySpanID[span]
	n := make(Annotations, 0, len(p)+len(anns))
	n = append(n, p...)
	n = append(n, anns...)
	cc.pendingBySpanID[span] = n
}

// takePending empties the queue. cc.mu must be held.
func (cc *ChunkedCollector) takePending() (map[SpanID]Annotations, uint64) {
	p, n := cc.pendingBySpanID, cc.queueSizeBytes
	cc.pendingBySpanID, cc.queueSizeBytes = nil, 0
	return p, n
}
'''), ('''	pendingBySpanID := cc.pendingBySpanID
	queueSizeBytes := cc.queueSizeBytes
	cc.pendingBySpanID = nil
	cc.queueSizeBytes = 0
	cc.mu.Unlock()

	if cc.OnFlush != nil {
		cc.OnFlush(len(pendingBySpanID))
	}

	var errs []error
	for spanID, p := range pendingBySpanID {
		if err := cc.Collector.Collect(spanID, p...); err != nil {
			errs = append(errs, err)
		}
		if cc.FlushTimeout != 0 && time.Since(start) > cc.FlushTimeout {
			cc.mu.Lock()
			if cc.Log != nil {
				cc.Log.Println("ChunkedCollector: queue entirely dropped (trace data will be missing)")
				cc.Log.Printf("ChunkedCollector: queueSize:%v queueSizeBytes:%v\\n", len(pendingBySpanID), queueSizeBytes)
			}
			cc.mu.Unlock()
			errs = append(errs, ErrQueueDropped)
			break
		}
	}

	if len(errs) == 1 {
		return errs[0]
	} else if len(errs) > 1 {
		return fmt.Errorf("ChunkedCollector: multiple errors: %v", errs)
	}
	return nil
}
''', '''	pendingBySpanID, queueSizeBytes := cc.takePending()
	cc.mu.Unlock()

	onFlush := cc.OnFlush
	if onFlush != nil {
		onFlush(len(pendingBySpanID))
	}

	order := make([]SpanID, 0, len(pendingBySpanID))
	for spanID := range pendingBySpanID {
		order = append(order, spanID)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Trace < order[j].Trace })

	errs := []error{}
	for i := 0; i < len(order); i++ {
		err := cc.Collector.Collect(order[i], pendingBySpanID[order[i]]...)
		if err != nil {
			errs = append(errs, err)
		}
		if !cc.timedOut(start) {
			continue
		}
		cc.mu.Lock()
		if cc.Log != nil {
			cc.Log.Println("ChunkedCollector: queue entirely dropped (trace data will be missing)")
			cc.Log.Printf("ChunkedCollector: queueSize:%v queueSizeBytes:%v\\n", len(pendingBySpanID), queueSizeBytes)
		}
		cc.mu.Unlock()
		errs = append(errs, ErrQueueDropped)
		break
	}
	return joinErrors(errs)
}

// timedOut tells whether a flush that was begun at start takes too long.
func (cc *ChunkedCollector) timedOut(start time.Time) bool {
	if cc.FlushTimeout == 0 {
		return false
	}
	return time.Now().Sub(start) > cc.FlushTimeout
}

// joinErrors makes one error out of many.
func joinErrors(errs []error) error {
	switch len(errs) {
	case 0:
		return nil
	case 1:
		return errs[0]
	}
	return fmt.Errorf("ChunkedCollector: multiple errors: %v", errs)
}
'''), ('''	cc.stopChan = make(chan struct{})
	cc.started = true
	go func() {
		for {
			t := time.After(cc.MinInterval)
			select {
			case <-t:
				if err := cc.Flush(); err != nil {
					cc.mu.Lock()
					cc.lastErr = err
					cc.mu.Unlock()
				}
			case <-cc.stopChan:
				return // stop
			}
		}
	}()
}
''', '''	cc.started = true
	stop := make(chan struct{})
	cc.stopChan = stop
	go cc.flushPeriodically(stop)
}

// flushPeriodically flushes until stop is closed.
func (cc *ChunkedCollector) flushPeriodically(stop <-chan struct{}) {
	timer := time.NewTimer(cc.MinInterval)
	defer timer.Stop()
	for {
		select {
		case <-stop:
			return
		case <-timer.C:
		}
		err := cc.Flush()
		if err != nil {
			cc.mu.Lock()
			cc.lastErr = err
			cc.mu.Unlock()
		}
		timer.Reset(cc.MinInterval)
	}
}
'''), ('''	if cc.started && !cc.stopped {
		close(cc.stopChan)
	}
	cc.stopped = true
}
''', '''	if cc.stopped {
		return
	}
	cc.stopped = true
	if cc.started {
		close(cc.stopChan)
	}
}
'''), ('''	"os"
	"sync"
''', '''	"os"
	"sort"
	"sync"
'''))

R('r-remote', 'collector.go', ('''	return &RemoteCollector{
		addr: addr,
		dial: func() (net.Conn, error) {
			return net.Dial("tcp", addr)
		},
	}
''', '''	rc := &RemoteCollector{addr: addr}
	rc.dial = rc.dialPlain
	return rc
'''), ('''// NewTLSRemoteCollector creates''', '''func (rc *RemoteCollector) dialPlain() (net.Conn, error) {
	d := net.Dialer{}
	return d.Dial("tcp", rc.addr)
}

// NewTLSRemoteCollector creates'''), ('''	if size := proto.Size(p); size > maxMessageSize {
		// The server would drop the message and the connection.
		return fmt.Errorf("collect %v: message size %d exceeds the maximum of %d", span, size, maxMessageSize)
	}
	return rc.collectAndRetry(p)
''', '''	size := proto.Size(p)
	if size <= maxMessageSize {
		return rc.collectAndRetry(p)
	}
	// The server would drop the message and the connection.
	return fmt.Errorf("collect %v: message size %d exceeds the maximum of %d", span, size, maxMessageSize)
'''), ('''	if rc.pconn != nil {
		rc.pconn.Close()
		rc.pconn = nil
	}

	c, err := rc.dial()
	if err == nil {
		// Create''', '''	rc.disconnect()
	c, err := rc.dial()
	if err == nil {
		// Create'''), ('''	if rc.pconn != nil {
		err := rc.pconn.Close()
		rc.pconn = nil
		return err
	}
	return nil
}

func (rc *RemoteCollector) collectAndRetry(p *wire.CollectPacket) error {
	rc.mu.Lock()
	defer rc.mu.Unlock()

	if rc.pconn != nil {
		if err := rc.collect(p); err == nil {
			return nil
		}
		if rc.Debug {
			rc.log().Printf("Reconnecting to send %v", spanIDFromWire(p.Spanid))
		}
	}
	if err := rc.connect(); err != nil {
		return err
	}
	return rc.collect(p)
}
''', '''	return rc.disconnect()
}

// disconnect closes the connection, if there is one.
func (rc *RemoteCollector) disconnect() (err error) {
	if c := rc.pconn; c != nil {
		rc.pconn = nil
		err = c.Close()
	}
	return err
}

func (rc *RemoteCollector) collectAndRetry(p *wire.CollectPacket) (err error) {
	rc.mu.Lock()
	defer rc.mu.Unlock()

	for fresh := false; ; {
		if rc.pconn != nil {
			err = rc.collect(p)
			if err == nil || fresh {
				return err
			}
			if rc.Debug {
				rc.log().Printf("Reconnecting to send %v", spanIDFromWire(p.Spanid))
			}
		}
		if err = rc.connect(); err != nil {
			return err
		}
		fresh = true
	}
}
'''), ('''		conn, err := cs.l.Accept()
		if err != nil {
			cs.log().Printf("Accept: %s", err)
			if errors.Is(err, net.ErrClosed) {
				return
			}
			continue
		}

		if cs.Debug {
			cs.log().Printf("Client %s connected", conn.RemoteAddr())
		}

		go cs.handleConn(conn)
	}
''', '''		conn, err := cs.l.Accept()
		switch {
		case err == nil:
			if cs.Debug {
				cs.log().Printf("Client %s connected", conn.RemoteAddr())
			}
			go func() { _ = cs.handleConn(conn) }()
		case errors.Is(err, net.ErrClosed):
			cs.log().Printf("Accept: %s", err)
			return
		default:
			cs.log().Printf("Accept: %s", err)
		}
	}
'''), ('''		if err = rdr.ReadMsg(p); err != nil {
			if err == io.EOF {
				return nil
			}
			return fmt.Errorf("ReadMsg: %s", err)
		}

		spanID := spanIDFromWire(p.Spanid)
		if cs.Debug || cs.Trace {
			cs.log().Printf("Client %s: received span %v with %d annotations", conn.RemoteAddr(), spanID, len(p.Annotation))
		}
		if cs.Trace {
			for i, ann := range p.Annotation {
				cs.log().Printf("Client %s: span %v: annotation %d: %s=%q", conn.RemoteAddr(), p.Spanid.Span, i, *ann.Key, ann.Value)
			}
		}

		if err = cs.c.Collect(spanID, annotationsFromWire(p.Annotation)...); err != nil {
			return fmt.Errorf("Collect %v: %s", spanID, err)
		}
	}
}
''', '''		err = rdr.ReadMsg(p)
		if err == io.EOF {
			err = nil
			return
		}
		if err != nil {
			err = fmt.Errorf("ReadMsg: %s", err)
			return
		}
		if err = cs.handlePacket(conn, p); err != nil {
			return
		}
	}
}

// handlePacket collects what a client sent.
func (cs *CollectorServer) handlePacket(conn net.Conn, p *wire.CollectPacket) error {
	spanID, anns := spanIDFromWire(p.Spanid), annotationsFromWire(p.Annotation)
	if cs.Debug || cs.Trace {
		cs.log().Printf("Client %s: received span %v with %d annotations", conn.RemoteAddr(), spanID, len(p.Annotation))
	}
	if cs.Trace {
		for i := range anns {
			cs.log().Printf("Client %s: span %v: annotation %d: %s=%q", conn.RemoteAddr(), p.Spanid.Span, i, anns[i].Key, anns[i].Value)
		}
	}
	err := cs.c.Collect(spanID, anns...)
	if err != nil {
		err = fmt.Errorf("Collect %v: %s", spanID, err)
	}
	return err
}
'''))

R('r-memory', 'store.go', ('''	// Initialize span map if needed.
	if _, present := ms.span[id.Trace]; !present {
		ms.span[id.Trace] = map[ID]*Trace{}
	}

	// Create or update span.
	s, present := ms.span[id.Trace][id.Span]
	if !present {
		// Copy the annotations, the slice is the caller's.
		s = &Trace{Span: Span{ID: id, Annotations: Annotations(as).copy()}}
		ms.span[id.Trace][id.Span] = s
	} else {
		if ms.log {
			if len(as) > 0 {
				log.Printf("Add %d annotations to %v", len(as), id)
			}
		}
		s.Annotations = append(s.Annotations, as...)
		return nil
	}

	// Create trace tree if it doesn't already exist.
''', '''	// Initialize span map if needed.
	spans := ms.span[id.Trace]
	if spans == nil {
		spans = make(map[ID]*Trace)
		ms.span[id.Trace] = spans
	}

	// Create or update span.
	if s := spans[id.Span]; s != nil {
		if ms.log && len(as) > 0 {
			log.Printf("Add %d annotations to %v", len(as), id)
		}
		for _, a := range as {
			s.Annotations = append(s.Annotations, a)
		}
		return nil
	}
	// Copy the annotations, the slice is the caller's.
	s := &Trace{}
	s.Span.ID = id
	s.Span.Annotations = Annotations(as).copy()
	spans[id.Span] = s
	ms.place(s)
	return nil
}

// place puts the new span into its trace's tree.
func (ms *MemoryStore) place(s *Trace) {
	id := s.Span.ID

	// Create trace tree if it doesn't already exist.
'''), ('''	if !id.IsRoot() && s != root {
		ms.insert(root, s)
	}

	// See if we're the parent of any of the root's temporary
	// children.
	if s != root {
		ms.reattachChildren(s, root)
	}

	return nil
}
''', '''	if s == root {
		return
	}
	if !id.IsRoot() {
		ms.insert(root, s)
	}

	// See if we're the parent of any of the root's temporary
	// children.
	ms.reattachChildren(s, root)
}
'''), ('''	spans := ms.span[a.ID.Trace]
	for n := 0; n <= len(spans); n++ {
		if t == a {
			return true
		}
		p, present := spans[t.ID.Parent]
		if !present || t.ID.IsRoot() {
			return false
		}
		t = p
	}
	return false // t is below a cycle, but not on one through a
''', '''	spans := ms.span[a.ID.Trace]
	seen := map[*Trace]bool{}
	for ; t != nil && !seen[t]; t = spans[t.ID.Parent] {
		if t == a {
			return true
		}
		if t.ID.IsRoot() {
			break
		}
		seen[t] = true
	}
	return false
'''), ('''	var sub2 []*Trace
	for _, c := range src.Sub {
		if c.Span.ID.Parent == dst.Span.ID.Span && !c.ID.IsRoot() && c != dst {
			if ms.log {
				log.Printf("Move %v from src %v to dst %v", c.Span.ID, src.Span.ID, dst.Span.ID)
			}
			dst.Sub = append(dst.Sub, c)
		} else {
			sub2 = append(sub2, c)
		}
	}
	src.Sub = sub2
''', '''	stay, move := []*Trace(nil), []*Trace(nil)
	for i := range src.Sub {
		c := src.Sub[i]
		if c == dst || c.ID.IsRoot() || c.Span.ID.Parent != dst.Span.ID.Span {
			stay = append(stay, c)
			continue
		}
		if ms.log {
			log.Printf("Move %v from src %v to dst %v", c.Span.ID, src.Span.ID, dst.Span.ID)
		}
		move = append(move, c)
	}
	src.Sub = stay
	dst.Sub = append(dst.Sub, move...)
'''), ('''	ms.Lock()
	defer ms.Unlock()

	return ms.traceNoLock(id)
}

func (ms *MemoryStore) traceNoLock(id ID) (*Trace, error) {
	t, present := ms.trace[id]
	if !present {
		return nil, ErrTraceNotFound
	}
	return t.copy(), nil
}
''', '''	ms.Lock()
	t, err := ms.traceNoLock(id)
	ms.Unlock()
	return t, err
}

func (ms *MemoryStore) traceNoLock(id ID) (*Trace, error) {
	if t := ms.trace[id]; t != nil {
		return t.copy(), nil
	}
	return nil, ErrTraceNotFound
}
'''), ('''	just := map[ID]bool{}
	for _, id := range opts.TraceIDs {
		just[id] = true
	}
	var ts []*Trace
	for id := range ms.trace {
		if len(just) > 0 && !just[id] {
			continue
		}
		t, err := ms.traceNoLock(id)
		if err != nil {
			return nil, err
		}
		ts = append(ts, t)
	}
	return ts, nil
''', '''	if len(opts.TraceIDs) == 0 {
		all := make([]*Trace, 0, len(ms.trace))
		for _, t := range ms.trace {
			all = append(all, t.copy())
		}
		return all, nil
	}
	var ts []*Trace
	done := make(map[ID]struct{}, len(opts.TraceIDs))
	for _, id := range opts.TraceIDs {
		if _, dup := done[id]; dup {
			continue
		}
		done[id] = struct{}{}
		if t, ok := ms.trace[id]; ok {
			ts = append(ts, t.copy())
		}
	}
	return ts, nil
'''), ('''	ms.Lock()
	defer ms.Unlock()

	data := memoryStoreData{ms.trace, ms.span}
	return gob.NewEncoder(w).Encode(data)
''', '''	ms.Lock()
	defer ms.Unlock()

	enc := gob.NewEncoder(w)
	if err := enc.Encode(&memoryStoreData{Trace: ms.trace, Span: ms.span}); err != nil {
		return err
	}
	return nil
'''), ('''	ms.Lock()
	defer ms.Unlock()

	var data memoryStoreData
	if err := gob.NewDecoder(r).Decode(&data); err != nil {
		return 0, err
	}
''', '''	ms.Lock()
	defer ms.Unlock()

	data := &memoryStoreData{}
	if err := gob.NewDecoder(r).Decode(data); err != nil {
		return 0, err
	}
'''), ('''	for id, t := range data.Trace {
		data.Span[id] = map[ID]*Trace{}
		t.addTo(data.Span[id])
	}
	ms.trace = data.Trace
	ms.span = data.Span
	return int64(len(ms.trace)), nil
''', '''	for id, t := range data.Trace {
		spans := map[ID]*Trace{}
		t.addTo(spans)
		data.Span[id] = spans
	}
	ms.trace, ms.span = data.Trace, data.Span
	n := len(data.Trace)
	return int64(n), nil
'''))

R('r-stores', 'store.go', ('''		f, err := ioutil.TempFile(filepath.Dir(file), "appdash")
		if err != nil {
			return err
		}
		if err := s.Write(f); err != nil {
			f.Close()
			os.Remove(f.Name())
			return err
		}
		if err := f.Close(); err != nil {
			os.Remove(f.Name())
			return err
		}
		if err := os.Rename(f.Name(), file); err != nil {
			os.Remove(f.Name())
			return err
		}
	}
}
''', '''		if err := persist(s, file); err != nil {
			return err
		}
	}
}

// persist persists s's data to a file.
func persist(s PersistentStore, file string) (err error) {
	f, err := ioutil.TempFile(filepath.Dir(file), "."+filepath.Base(file)+".tmp")
	if err != nil {
		return err
	}
	defer func() {
		if err != nil {
			os.Remove(f.Name())
		}
	}()
	w := bufio.NewWriterSize(f, 1<<12)
	if err = s.Write(w); err == nil {
		err = w.Flush()
	}
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	if err == nil {
		err = os.Rename(f.Name(), file)
	}
	return err
}
'''), ('''import (
''', '''import (
	"bufio"
'''), ('''	if rs.created == nil {
		rs.created = map[ID]int64{}
	}
	// Evict before recording the trace, which may be an evicted one.
	if time.Since(rs.lastEvicted) > rs.MinEvictAge {
		rs.evictBefore(time.Now().Add(-1 * rs.MinEvictAge))
	}
	if _, present := rs.created[id.Trace]; !present {
		rs.created[id.Trace] = time.Now().UnixNano()
	}
''', '''	// Evict before recording the trace, which may be an evicted one.
	now := time.Now()
	if age := rs.MinEvictAge; now.Sub(rs.lastEvicted) > age {
		rs.evictBefore(now.Add(-age))
	}
	rs.see(id.Trace)
'''), ('''	return rs.DeleteStore.Collect(id, anns...)
}

// evictBefore evicts''', '''	return rs.DeleteStore.Collect(id, anns...)
}

// see records when a trace was first seen.
func (rs *RecentStore) see(id ID) {
	if rs.created == nil {
		rs.created = make(map[ID]int64)
	}
	if rs.created[id] == 0 {
		rs.created[id] = time.Now().UnixNano()
	}
}

// evictBefore evicts'''), ('''	var toEvict []ID
	for id, ct := range rs.created {
		if ct < tnano {
			toEvict = append(toEvict, id)
			delete(rs.created, id)
		}
	}
	if len(toEvict) == 0 {
		return
	}
''', '''	toEvict := make([]ID, 0, len(rs.created))
	for id, ct := range rs.created {
		if ct >= tnano {
			continue
		}
		toEvict = append(toEvict, id)
	}
	for _, id := range toEvict {
		delete(rs.created, id)
	}
	if len(toEvict) < 1 {
		return
	}
'''), ('''	if ls.Max == 0 {
		return nil
	}
	ls.mu.Lock()
	defer ls.mu.Unlock()
	if ls.ring == nil {
		ls.ring = make([]int64, ls.Max)
		ls.traces = make(map[ID]struct{}, ls.Max)
	}

	// Check''', '''	if ls.Max == 0 {
		return nil
	}
	ls.mu.Lock()
	defer ls.mu.Unlock()
	if err := ls.admit(id.Trace); err != nil {
		return err
	}
	return ls.DeleteStore.Collect(id, anns...)
}

// admit makes room for the trace. ls.mu must be held.
func (ls *LimitStore) admit(trace ID) error {
	if ls.traces == nil {
		ls.traces = map[ID]struct{}{}
		ls.ring = make([]int64, ls.Max, ls.Max)
	}

	// Check'''), ('''	if _, ok := ls.traces[id.Trace]; ok {
		return ls.DeleteStore.Collect(id, anns...)
	}

	if len(ls.traces) == len(ls.ring) {''', '''	if _, ok := ls.traces[trace]; ok {
		return nil
	}

	if len(ls.traces) >= ls.Max {'''), ('''	ls.traces[id.Trace] = struct{}{}
	ls.ring[ls.nextInsertIdx] = int64(id.Trace)
	ls.nextInsertIdx = (ls.nextInsertIdx + 1) % ls.Max // increment & wrap

	return ls.DeleteStore.Collect(id, anns...)
}''', '''	ls.ring[ls.nextInsertIdx] = int64(trace)
	ls.traces[trace] = struct{}{}
	if ls.nextInsertIdx++; ls.nextInsertIdx == ls.Max {
		ls.nextInsertIdx = 0 // wrap
	}
	return nil
}'''))
