package core

import (
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"

	"verif/ad"
	"verif/mon"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() {
	mon.Reg("C13", "hostile-clients", 320, 8000, serverHostile)
	mon.Reg("C13", "oversized-prefix", 48, 800, serverOversized)
	mon.Reg("C13", "accept-errors", 64, 1200, serverAccept)
	mon.RegV("C13", "accept-errors-many", 16, 200, serverAcceptMany)
	mon.Reg("C13", "isolation", 64, 1200, serverIsolation)
}

// hostileTail makes bytes that follow the valid messages of a client and
// contain no valid message, and says what they are.
func hostileTail(r *rand.Rand, id appdash.SpanID, as []ad.Ann) (string, []byte) {
	body := encBody(id, as, encOpt{})
	group := func(f int, in []byte) []byte { return putTag(append(putTag(nil, f, 3), in...), f, 4) }
	switch r.Intn(16) {
	case 0:
		return "nothing", nil
	case 1:
		f := frame(body)
		return "truncated message", f[:1+r.Intn(len(f)-1)]
	case 2:
		return "no trace ID", frame(append(group(1, putFixed(nil, 3, 7)), group(5, putBytes(nil, 6, []byte("k")))...))
	case 3:
		return "no span ID", frame(group(1, putFixed(nil, 2, 7)))
	case 4:
		return "no span ID group", frame(group(5, putBytes(nil, 6, []byte("k"))))
	case 5:
		return "annotation without key", frame(append(group(1, putFixed(putFixed(nil, 2, 7), 3, 8)), group(5, putBytes(nil, 7, []byte("v")))...))
	case 6:
		return "group never ended", frame(body[:len(body)-1])
	case 7:
		return "empty message", frame(nil)
	case 8:
		b := make([]byte, 1+r.Intn(100))
		r.Read(b)
		b[0] = 7 // wire type 7 does not exist
		return "garbage message", frame(b)
	case 9:
		b := make([]byte, 1+r.Intn(300))
		r.Read(b)
		return "garbage bytes", b
	case 10:
		return "IDs of the wrong type", frame(group(1, binary.AppendUvarint(putTag(binary.AppendUvarint(putTag(nil, 2, 0), 5), 3, 0), 5)))
	case 11:
		return "text protocol", []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
	case 12:
		b := append([]byte(nil), body...)
		for i := 0; i < 1+r.Intn(4); i++ {
			b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
		}
		return "altered message", frame(b)
	case 13:
		b := putTag(nil, 6, 2)
		return "field longer than the message", frame(append(binary.AppendUvarint(b, uint64(1)<<uint(r.Intn(64))), 1, 2, 3))
	case 14:
		// deep nesting of an unknown group
		n := 1000 + r.Intn(100000)
		var b []byte
		for i := 0; i < n; i++ {
			b = putTag(b, 20, 3)
		}
		return "deeply nested groups", frame(b)
	}
	return "zero bytes", make([]byte, 1+r.Intn(50))
}

// clientHello is what a TLS client sends first.
var clientHello = sync.OnceValue(func() []byte {
	a, b := net.Pipe()
	go func() { tls.Client(a, clientTLSAny()).Handshake(); a.Close() }()
	buf := make([]byte, 4096)
	n, err := b.Read(buf)
	if err != nil {
		panic("harness: " + err.Error())
	}
	b.Close()
	return buf[:n]
})

func dialTo(fl *fragListener, useTLS bool) (net.Conn, error) {
	if useTLS {
		return tls.Dial("tcp", fl.Addr().String(), clientTLS())
	}
	return net.Dial("tcp", fl.Addr().String())
}

// judgeHostile checks what the server collected from a client that sent the
// messages valid and then tail (whose messages, if any, came in junk).
func judgeHostile(c *mon.Case, who int, got []ad.Call, valid []sent, kind string, tail []byte, complete bool) {
	for i := range valid {
		if i >= len(got) {
			if complete {
				c.Failf("lost", "client %d: valid message %d of %d, which precede %q, was not collected: %s", who, i, len(valid), kind, cut(valid[i].String()))
			}
			return
		}
		if got[i].Span != valid[i].id || !ad.AnnsEqual(got[i].Anns, valid[i].as) {
			c.Failf("altered", "client %d: valid message %d was collected as %v %s, sent %s", who, i, got[i].Span, cut(ad.AnnString(got[i].Anns)), cut(valid[i].String()))
			return
		}
	}
	// Anything further must be a complete and valid message within the tail.
	bodies, _ := split(tail)
	k := 0
	for _, g := range got[len(valid):] {
		ok := false
		for ; k < len(bodies) && !ok; k++ {
			// (The protobuf library does not compare group end tags.)
			id, as, err := decBodyL(bodies[k], true)
			ok = err == nil && id == g.Span && ad.AnnsEqual(as, g.Anns)
		}
		if !ok {
			c.Failf("invented", "client %d: the server collected %v %s, which is not in what the client validly sent (%d valid messages, then %s: %q)", who, g.Span, cut(ad.AnnString(g.Anns)), len(valid), kind, cut(string(tail)))
			return
		}
	}
}

// perClient keeps what was collected apart by client: every span of client w
// has w in the upper bits of its trace ID... for valid messages; the rest is
// matched by the spans nobody else sent.
func serverHostile(c *mon.Case) {
	// One hostile client at a time per server, so that whatever is collected
	// came from it; several servers and healthy clients run beside it.
	n := 1 + c.R.Intn(4)
	var wg sync.WaitGroup
	kinds := make([]string, n)
	marks := make([]any, 0, n)
	var mu sync.Mutex
	for w := 0; w < n; w++ {
		sink := &ad.Sink{}
		useTLS := c.R.Intn(4) == 0
		fl := startServer(c, sink, useTLS, []int{0, 1, 7}[c.R.Intn(3)])
		r := randNew(c.R.Int63())
		var valid []sent
		if r.Intn(5) > 0 {
			valid = genSent(c, w, r.Intn(8))
		}
		kind, tail := hostileTail(r, appdash.SpanID{Trace: ad.NZ(r), Span: ad.NZ(r), Parent: ad.NZ(r)}, ad.Anns(r, 1+r.Intn(4)))
		kinds[w] = kind
		h := genSent(c, 1000+w, 2)
		plain := useTLS && r.Intn(2) == 0 // none of it comes with a handshake
		if plain {
			kind, tail = kind+" without TLS", append(func() []byte {
				var b []byte
				for _, m := range valid {
					b = append(b, enc(m.id, m.as)...)
				}
				return b
			}(), tail...)
			valid = nil
		}
		abrupt := r.Intn(3) == 0 && (!useTLS || plain)
		hold := r.Intn(3) == 0
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var buf bytes.Buffer
			for _, m := range valid {
				buf.Write(enc(m.id, m.as))
			}
			buf.Write(tail)
			k, err := dialTo(fl, useTLS && !plain)
			if err != nil {
				c.Inconclusive("dial: %v", err)
				return
			}
			size := 1 + r.Intn(400)
			writeChunks(k, buf.Bytes(), func() int { return size }) // the server may rightly close on us
			if hold {
				// Keep the connection open: all valid messages must be collected without its end.
				if !c.AwaitOr("lost", fmt.Sprintf("collection of the %d valid messages before %q", len(valid), kind), func() bool { return sink.Len() >= len(valid) }) {
					k.Close()
					return
				}
			}
			if abrupt {
				reset(k)
			} else {
				k.Close()
			}
			if !c.AwaitOr("hang", "the server closing the connection of a client that sent "+kind+" and closed", func() bool { return fl.allClosed(1) }) {
				return
			}
			got := sink.Snapshot()
			if plain {
				if len(got) > 0 {
					c.Failf("invented", "client %d: the TLS server collected %v %s from a client that made no handshake", w, got[0].Span, cut(ad.AnnString(got[0].Anns)))
				}
			} else {
				judgeHostile(c, w, got, valid, kind, tail, !abrupt || hold)
			}
			// The server still serves.
			k2, err := dialTo(fl, useTLS)
			if err != nil {
				c.Failf("refused", "after %s the server does not accept a connection: %v", kind, err)
				return
			}
			for _, m := range h {
				k2.Write(enc(m.id, m.as))
			}
			k2.Close()
			if c.AwaitOr("dead", "the server serving the next client after "+kind, func() bool { return fl.allClosed(2) }) {
				all := sink.Snapshot()
				judgeHostile(c, 1000+w, all[len(got):], h, "nothing", nil, true)
			}
			mu.Lock()
			marks = append(marks, kind, len(valid), len(tail), abrupt, hold, useTLS, len(got))
			mu.Unlock()
			c.Count("valid_messages", len(valid)+len(h))
			c.Count("tail: "+kind, 1)
		}(w)
	}
	wg.Wait()
	c.Mark(marks...)
	c.Sample("hostile clients: %q", kinds)
}

func totalAlloc() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func serverOversized(c *mon.Case) {
	sink := &ad.Sink{}
	useTLS := c.R.Intn(5) == 0
	fl := startServer(c, sink, useTLS, 0)
	valid := genSent(c, 0, c.R.Intn(4))
	k, err := dialTo(fl, useTLS)
	if err != nil {
		c.Inconclusive("dial: %v", err)
		return
	}
	defer k.Close()
	for _, m := range valid {
		k.Write(enc(m.id, m.as))
	}
	c.AwaitOr("lost", "collection of the valid messages", func() bool { return sink.Len() >= len(valid) })
	lens := []uint64{1<<20 + 1, 1<<20 + 2, 1 << 21, 1 << 30, 1 << 31, 1<<32 + 5, 1 << 40, 1<<63 - 1, 1 << 63, 1<<63 + 10, ^uint64(0), ^uint64(0) - 100}
	l := lens[c.R.Intn(len(lens))]
	prefix := binary.AppendUvarint(nil, l)
	if c.R.Intn(8) == 0 {
		prefix, l = bytes.Repeat([]byte{0xff}, 10+c.R.Intn(5)), 0
	}
	// The client holds the connection open and sends nothing else.
	a0 := totalAlloc()
	k.Write(prefix)
	ok := c.AwaitOr("waits", fmt.Sprintf("the server rejecting the length prefix %d (%x)", l, prefix), func() bool { return fl.allClosed(1) })
	if a := totalAlloc() - a0; ok && l > 1<<27 && a > 1<<27 {
		c.Failf("buffers", "the server allocated %d bytes for the length prefix %d", a, l)
	}
	got := sink.Snapshot()
	judgeHostile(c, 0, got, valid, "oversized prefix", nil, true)
	h := genSent(c, 1, 2)
	k2, err := dialTo(fl, useTLS)
	if err != nil {
		c.Failf("refused", "after a length prefix of %d the server does not accept a connection: %v", l, err)
		return
	}
	for _, m := range h {
		k2.Write(enc(m.id, m.as))
	}
	k2.Close()
	if c.AwaitOr("dead", "the server serving the next client", func() bool { return fl.allClosed(2) }) {
		judgeHostile(c, 1, sink.Snapshot()[len(got):], h, "nothing", nil, true)
	}
	c.Mark(useTLS, len(valid), prefix)
	c.Count("prefixes_rejected", 1)
	c.Sample("length prefix %x after %d valid messages", prefix, len(valid))
}

// scriptListener hands out connections and errors as told.
type scriptListener struct {
	ch     chan any
	once   sync.Once
	done   chan struct{}
	calls  atomic.Int64
	closed atomic.Int64 // Accept calls after Close
}

func (l *scriptListener) Accept() (net.Conn, error) {
	l.calls.Add(1)
	select {
	case <-l.done:
		if l.closed.Add(1) > 20000 {
			select {} // it is spinning; stop it here
		}
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	default:
	}
	select {
	case v := <-l.ch:
		if e, ok := v.(error); ok {
			return nil, e
		}
		return v.(net.Conn), nil
	case <-l.done:
		l.closed.Add(1)
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
}
func (l *scriptListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *scriptListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }

type tempErr struct{ timeout bool }

func (tempErr) Error() string   { return "temporary failure" }
func (tempErr) Temporary() bool { return true }
func (e tempErr) Timeout() bool { return e.timeout }

func acceptErr(r *rand.Rand) error {
	switch r.Intn(5) {
	case 0:
		return &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EMFILE)}
	case 1:
		return &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.ECONNABORTED)}
	case 2:
		return tempErr{true}
	case 3:
		return tempErr{false}
	}
	return &net.OpError{Op: "accept", Net: "tcp", Err: errors.New("some failure of this connection")}
}

func serverAccept(c *mon.Case) {
	sink := &ad.Sink{}
	realL := c.R.Intn(3) == 0
	var l net.Listener
	sl := &scriptListener{ch: make(chan any), done: make(chan struct{})}
	l = sl
	useTLS := false
	if realL {
		tl, err := listen("127.0.0.1:0")
		if err != nil {
			panic("harness: " + err.Error())
		}
		l = tl
		if useTLS = c.R.Intn(2) == 0; useTLS {
			l = tls.NewListener(tl, serverTLS())
		}
	}
	s := newServer(c, l, sink)
	var ret atomic.Bool
	go func() { s.Start(); ret.Store(true) }()
	want := 0
	nerr := 0
	n := 1 + c.R.Intn(8)
	var ends []net.Conn
	defer func() {
		for _, k := range ends {
			k.Close()
		}
	}()
	for i := 0; i < n; i++ {
		if realL {
			var k net.Conn
			var err error
			if useTLS {
				k, err = tls.Dial("tcp", l.Addr().String(), clientTLS())
			} else {
				k, err = net.Dial("tcp", l.Addr().String())
			}
			if err != nil {
				c.Inconclusive("dial: %v", err)
				l.Close()
				return
			}
			ends = append(ends, k)
			for _, m := range genSent(c, i, 2) {
				k.Write(enc(m.id, m.as))
				want++
			}
			continue
		}
		for k := c.R.Intn(6); k > 0; k-- {
			e := acceptErr(c.R)
			nerr++
			var sentErr atomic.Bool
			go func() {
				select {
				case sl.ch <- e:
					sentErr.Store(true)
				case <-sl.done:
				}
			}()
			if !c.AwaitOr("stopped", fmt.Sprintf("the server accepting again after %d accept errors", nerr-1), sentErr.Load) {
				l.Close()
				return
			}
		}
		a, b := net.Pipe()
		ends = append(ends, a)
		var took atomic.Bool
		go func() {
			select {
			case sl.ch <- b:
				took.Store(true)
			case <-sl.done:
			}
		}()
		if !c.AwaitOr("stopped", fmt.Sprintf("the server accepting a connection after %d accept errors", nerr), took.Load) {
			l.Close()
			return
		}
		ms := genSent(c, i, 2)
		want += len(ms)
		var done atomic.Bool
		go func() {
			for _, m := range ms {
				a.Write(enc(m.id, m.as))
			}
			done.Store(true)
		}()
		if !c.AwaitOr("dead", "the server reading from the accepted connection", done.Load) {
			l.Close()
			return
		}
	}
	c.AwaitOr("lost", "the messages of all accepted connections being collected", func() bool { return sink.Len() >= want })
	l.Close()
	if !realL {
		if mon.Await(func() bool { return ret.Load() || sl.closed.Load() > 10000 }) == "ok" && !ret.Load() {
			c.Failf("spins", "the server called Accept %d times after its listener was closed", sl.closed.Load())
			return
		}
	} else {
		cpu := mon.CPU()
		if mon.Await(func() bool { return ret.Load() || mon.CPU()-cpu > int64(3*time.Second) }) == "ok" && !ret.Load() {
			c.Failf("spins", "the server used 3 s of processor time after its listener was closed and has not stopped")
			return
		}
	}
	c.AwaitOr("no-stop", "Start returning after the listener was closed", ret.Load)
	// Connections already accepted may still be served; nothing is made up.
	if got := sink.Len(); got != want {
		c.Failf("invented", "%d messages were sent, %d collected", want, got)
	}
	c.Mark(realL, useTLS, n, nerr, want)
	c.Count("accept_errors", nerr)
	c.Count("connections", n)
	c.Sample("%d connections, %d accept errors, real listener %v", n, nerr, realL)
}

// serverAcceptMany lets accepting fail very often, in virtual time: the server may wait between its attempts.
func serverAcceptMany(c *mon.Case) {
	r := c.R
	sink := &ad.Sink{}
	sl := &scriptListener{ch: make(chan any), done: make(chan struct{})}
	s := newServer(c, sl, sink)
	ret := make(chan struct{})
	go func() { s.Start(); close(ret) }()
	nerr, nconn, want := 0, 0, 0
	run := []int{50, 300, 1200}[r.Intn(3)] // errors in a row
	same := r.Intn(2) == 0                 // always the same error
	e := acceptErr(r)
	var conns []net.Conn
	for total := 200 + r.Intn(2000); nerr < total; {
		for k := 1 + r.Intn(run); k > 0; k-- {
			if !same {
				e = acceptErr(r)
			}
			nerr++
			select {
			case sl.ch <- e:
			case <-ret:
				c.Failf("stopped", "the server stopped after %d accept errors (%d connections), the last one %v, but its listener is open", nerr-1, nconn, e)
				return
			case <-time.After(24 * time.Hour):
				c.Failf("stopped", "the server did not accept again within a day after %d accept errors (%d connections)", nerr-1, nconn)
				return
			}
		}
		a, b := net.Pipe()
		conns = append(conns, a)
		select {
		case sl.ch <- b:
		case <-ret:
			c.Failf("stopped", "the server stopped after %d accept errors (%d connections), but its listener is open", nerr, nconn)
			return
		case <-time.After(24 * time.Hour):
			c.Failf("stopped", "the server did not accept a connection within a day after %d accept errors (%d connections)", nerr, nconn)
			return
		}
		nconn++
		for _, m := range genSent(c, nconn, 2) {
			want++
			a.SetWriteDeadline(time.Now().Add(24 * time.Hour))
			if _, err := a.Write(enc(m.id, m.as)); err != nil {
				c.Failf("dead", "connection %d, accepted after %d accept errors, is not read: %v", nconn, nerr, err)
				return
			}
		}
		synctest.Wait()
		if got := sink.Len(); got != want {
			c.Failf("lost", "%d messages were sent over %d connections, %d collected", want, nconn, got)
			return
		}
	}
	sl.Close()
	for _, k := range conns {
		k.Close()
	}
	select {
	case <-ret:
	case <-time.After(24 * time.Hour):
		c.Failf("no-stop", "Start did not return after the listener was closed")
	}
	c.Mark(nerr, nconn, want)
	c.Count("accept_errors", nerr)
	c.Count("connections", nconn)
	c.Sample("%d connections, %d accept errors, at most %d in a row", nconn, nerr, run)
}

// serverIsolation runs healthy clients next to stalling ones and ones whose
// collections fail or block.
func serverIsolation(c *mon.Case) {
	sink := &ad.Sink{}
	block := make(chan struct{})
	var once sync.Once
	release := func() { once.Do(func() { close(block) }) }
	defer release()
	var blocked atomic.Int64
	sink.Err = func(n int, s appdash.SpanID, as []ad.Ann) error {
		for _, a := range as {
			if a.Key == "fail" {
				if n%4 == 0 {
					return appdash.ErrQueueDropped // a collector there is
				}
				return ad.Fault(n, "no")
			}
			if a.Key == "block" {
				blocked.Add(1)
				<-block
			}
		}
		return nil
	}
	useTLS := c.R.Intn(3) == 0
	fl := startServer(c, sink, useTLS, []int{0, 3}[c.R.Intn(2)])
	var bad []net.Conn
	nbad := c.R.Intn(5)
	if c.R.Intn(8) == 0 {
		nbad = 60 + c.R.Intn(1000)
	}
	nblock := 0
	var desc []string
	// With TLS, some never get as far as a handshake. (They come last: who
	// connects after them is one of the correct clients.)
	nplain := 0
	if useTLS && nbad > 0 {
		nplain = c.R.Intn(min(nbad, 4) + 1)
	}
	for i := 0; i < nbad; i++ {
		plain := i >= nbad-nplain
		k, err := dialTo(fl, useTLS && !plain)
		if err != nil {
			c.Inconclusive("dial: %v", err)
			return
		}
		bad = append(bad, k)
		m := genSent(c, 9000000+i, 1)[0]
		if plain {
			b := clientHello()
			switch c.R.Intn(5) {
			case 0:
				b = nil
				desc = append(desc, "connects without a handshake")
			case 1:
				b = b[:1+c.R.Intn(len(b)-1)]
				desc = append(desc, "stalls in its ClientHello")
			case 2:
				desc = append(desc, "stalls after its ClientHello")
			case 3:
				b = enc(m.id, m.as)
				desc = append(desc, "does not speak TLS")
			case 4:
				b = make([]byte, 1+c.R.Intn(40))
				c.R.Read(b)
				desc = append(desc, "sends garbage for a handshake")
			}
			k.Write(b)
			continue
		}
		switch c.R.Intn(4) {
		case 0:
			desc = append(desc, "silent")
		case 1:
			e := enc(m.id, m.as)
			k.Write(e[:len(e)/2])
			desc = append(desc, "stalls in a message")
		case 2:
			m.as = append(m.as, ad.Ann{Key: "fail"})
			k.Write(enc(m.id, m.as))
			desc = append(desc, "collector fails")
		case 3:
			m.as = append(m.as, ad.Ann{Key: "block"})
			k.Write(enc(m.id, m.as))
			nblock++
			desc = append(desc, "collector blocks")
		}
	}
	if nbad > 5 {
		desc = []string{fmt.Sprintf("%d clients: %v ...", nbad, desc[:6])}
	}
	c.AwaitOr("stalled", "the server serving all the clients whose collections block", func() bool { return int(blocked.Load()) >= nblock })
	n := 1 + c.R.Intn(3)
	want := map[string][]sent{}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		ms := genSent(c, i, 1+c.R.Intn(15))
		want[fmt.Sprint(i)] = ms
		wg.Add(1)
		go func() {
			defer wg.Done()
			k, err := dialTo(fl, useTLS)
			if err != nil {
				c.Inconclusive("dial: %v", err)
				return
			}
			defer k.Close()
			for _, m := range ms {
				if _, err := k.Write(enc(m.id, m.as)); err != nil {
					c.Failf("affected", "the server closed the connection of a correct client while others are %v: %v", desc, err)
					return
				}
			}
		}()
	}
	var fin atomic.Bool
	go func() { wg.Wait(); fin.Store(true) }()
	healthy := func() []ad.Call {
		var out []ad.Call
		for _, g := range sink.Snapshot() {
			for _, a := range g.Anns {
				if a.Key == "verif-who" && !bytes.HasPrefix(a.Value, []byte("900")) {
					out = append(out, g)
				}
			}
		}
		return out
	}
	if c.AwaitOr("affected", fmt.Sprintf("all messages of correct clients being collected while others are %v", desc), func() bool { return fin.Load() && len(healthy()) >= total(want) }) {
		judgeArrivals(c, healthy(), want)
	}
	release()
	for _, k := range bad {
		k.Close()
	}
	if !c.Failed() {
		c.AwaitOr("hang", "the server closing all connections", func() bool { return fl.allClosed(n + nbad) })
	}
	// What the collector refused or kept waiting was not given to it again.
	times := map[string]int{}
	for _, g := range sink.Snapshot() {
		for _, a := range g.Anns {
			if a.Key == "verif-who" {
				if times[string(a.Value)]++; times[string(a.Value)] > 1 {
					c.Failf("twice", "message %q, sent once, was collected twice", a.Value)
				}
			}
		}
	}
	c.Mark(desc, n, total(want), orderOf(healthy()))
	c.Count("bad_clients", nbad)
	c.Sample("%d correct clients next to %v", n, desc)
}
