package core

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"math/rand"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/ad"
	"verif/mon"
)

func init() {
	mon.Reg("C12", "faults", 240, 5000, remoteFaults)
}

// hubConn is one connection the hub accepted.
type hubConn struct {
	mu     sync.Mutex
	n      int
	k      net.Conn // the TCP connection
	data   []byte
	done   bool
	failed bool // ended by the hub
}

func (h *hubConn) len() int { h.mu.Lock(); defer h.mu.Unlock(); return len(h.data) }

// hub is a server under the monitor's control, always on the same address.
type hub struct {
	mu    sync.Mutex
	addr  string
	tls   bool
	l     net.Listener
	conns []*hubConn
	gone  chan struct{} // closed when the accept loop has ended
	// plan returns after how many bytes the next connection is ended (<0:
	// never) and how (fin, rst).
	plan func() (int, string)
}

// loopIP is an address of this process's own on the loopback network.
func loopIP() string {
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 2+p>>15&63, p>>8&127, p&255)
}

func (h *hub) up() error {
	addr := h.addr
	if addr == "" {
		addr = loopIP() + ":0"
	}
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return err
	}
	h.mu.Lock()
	gone := make(chan struct{})
	h.addr, h.l, h.gone = l.Addr().String(), l, gone
	h.mu.Unlock()
	go func() {
		defer close(gone)
		for {
			k, err := l.Accept()
			if err != nil {
				return
			}
			h.mu.Lock()
			hc := &hubConn{n: len(h.conns), k: k}
			h.conns = append(h.conns, hc)
			max, how := h.plan()
			h.mu.Unlock()
			go h.serve(hc, max, how)
		}
	}()
	return nil
}

func (h *hub) serve(hc *hubConn, max int, how string) {
	var k net.Conn = hc.k
	if h.tls {
		k = tls.Server(hc.k, serverTLS())
	}
	buf := make([]byte, 8192)
	for {
		if max >= 0 && hc.len() >= max {
			hc.end(how)
			break
		}
		n := len(buf)
		if max >= 0 && max-hc.len() < n {
			n = max - hc.len()
		}
		m, err := k.Read(buf[:n])
		hc.mu.Lock()
		hc.data = append(hc.data, buf[:m]...)
		hc.mu.Unlock()
		if err != nil {
			break
		}
	}
	hc.k.Close()
	hc.mu.Lock()
	hc.done = true
	hc.mu.Unlock()
}

func (hc *hubConn) end(how string) {
	hc.mu.Lock()
	hc.failed = true
	hc.mu.Unlock()
	if how == "rst" {
		reset(hc.k)
	} else {
		hc.k.Close()
	}
}

func (h *hub) setPlan(f func() (int, string)) { h.mu.Lock(); h.plan = f; h.mu.Unlock() }

func (h *hub) list() []*hubConn {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]*hubConn(nil), h.conns...)
}

// endAll ends every open connection.
func (h *hub) endAll(how string) {
	for _, k := range h.list() {
		k.mu.Lock()
		d := k.done
		k.mu.Unlock()
		if !d {
			k.end(how)
		}
	}
}

func (h *hub) down() {
	h.mu.Lock()
	l := h.l
	h.l = nil
	gone := h.gone
	h.mu.Unlock()
	if l != nil {
		l.Close()
		<-gone
	}
}

func clientTLSAny() *tls.Config {
	t := clientTLS()
	t.ServerName = "127.0.0.1"
	return t
}

func remoteFaults(c *mon.Case) {
	h := &hub{tls: c.R.Intn(3) == 0}
	healthy := func() (int, string) { return -1, "" }
	h.plan = healthy
	if err := h.up(); err != nil {
		c.Inconclusive("listen: %v", err)
		return
	}
	defer func() { h.down(); h.endAll("rst") }()
	var rc *appdash.RemoteCollector
	if h.tls {
		rc = appdash.NewTLSRemoteCollector(h.addr, clientTLSAny())
	} else {
		rc = appdash.NewRemoteCollector(h.addr)
	}
	rc.Log = quiet
	rc.Debug = c.R.Intn(4) == 0

	var mu sync.Mutex
	all := map[string]sent{} // every message whose Collect was begun, by mark
	seq := map[int]int{}
	collect := func(r *rand.Rand, who int) (string, error) {
		mu.Lock()
		i := seq[who]
		seq[who]++
		mark := fmt.Sprintf("%d/%d", who, i)
		m := sent{appdash.SpanID{Trace: ad.NZ(r), Span: ad.NZ(r), Parent: ad.NZ(r)}, []ad.Ann{{Key: "verif-who", Value: []byte(mark)}}}
		n := []int{1, 5, 40, 300, 20000, 300000}[r.Intn(6)]
		if r.Intn(3) > 0 {
			n = 30
		}
		b := make([]byte, n)
		r.Read(b)
		m.as = append(m.as, ad.Ann{Key: "data", Value: b})
		all[mark] = m
		mu.Unlock()
		return mark, rc.Collect(m.id, m.as...)
	}

	ng := 1 + c.R.Intn(4)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var nils, errs, active atomic.Int64
	for g := 0; g < ng; g++ {
		r := randNew(c.R.Int63())
		wg.Add(1)
		active.Add(1)
		go func(g int) {
			defer wg.Done()
			defer active.Add(-1)
			for i := 0; i < 400; i++ {
				select {
				case <-stop:
					return
				default:
				}
				if _, err := collect(r, g); err != nil {
					errs.Add(1)
					time.Sleep(time.Millisecond)
				} else {
					nils.Add(1)
				}
				if r.Intn(30) == 0 {
					rc.Close()
				}
				if r.Intn(4) == 0 {
					time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
				}
			}
		}(g)
	}
	// Faults while they collect.
	phases := 1 + c.R.Intn(5)
	var log []string
	fr := randNew(c.R.Int63())
	faulty := func() (int, string) {
		return []int{0, 1, 10, 60, 100, 1000, 50000}[fr.Intn(7)] + fr.Intn(30), []string{"fin", "rst"}[fr.Intn(2)]
	}
	for p := 0; p < phases; p++ {
		how := []string{"fin", "rst"}[c.R.Intn(2)]
		switch k := c.R.Intn(4); k {
		case 0:
			h.endAll(how)
			log = append(log, "end "+how)
		case 1:
			h.setPlan(faulty)
			h.endAll(how)
			log = append(log, "every new connection ends early")
		case 2:
			h.down()
			h.endAll(how)
			log = append(log, "down "+how)
		case 3:
			h.setPlan(healthy)
			log = append(log, "healthy")
		}
		time.Sleep(time.Duration(c.R.Intn(8000)) * time.Microsecond)
		h.mu.Lock()
		isDown := h.l == nil
		h.mu.Unlock()
		if isDown {
			if err := h.up(); err != nil {
				c.Inconclusive("listen again: %v", err)
				close(stop)
				wg.Wait()
				return
			}
		}
	}
	close(stop)
	if !c.AwaitOr("hang", "every Collect call returning", func() bool { return active.Load() == 0 }) {
		return
	}
	wg.Wait()

	// No server at all: collections must fail.
	r := randNew(c.R.Int63())
	if c.R.Intn(6) == 0 {
		noSuchServer(c, h, r)
	}
	if c.R.Intn(2) == 0 {
		h.down()
		h.endAll([]string{"fin", "rst"}[c.R.Intn(2)])
		failed := false
		for i := 0; i < 200 && !failed; i++ {
			_, err := collect(r, 100)
			failed = err != nil
			if i > 3 {
				time.Sleep(10 * time.Millisecond)
			}
		}
		if !failed {
			c.Failf("unreachable", "200 collections were reported as sent while nothing was listening")
		}
		for i := 0; i < 4; i++ {
			if _, err := collect(r, 100); err == nil && failed {
				c.Failf("unreachable", "a collection was reported as sent while nothing was listening (an earlier one had noticed)")
			}
		}
		if err := h.up(); err != nil {
			c.Inconclusive("listen again: %v", err)
			return
		}
		log = append(log, "down, then up")
	}
	// Recovery.
	h.setPlan(healthy)
	h.endAll([]string{"fin", "rst"}[c.R.Intn(2)])
	rec := -1
	for i := 0; i < 12 && rec < 0; i++ {
		if i > 2 {
			time.Sleep(3 * time.Millisecond)
		}
		mark, err := collect(r, 101)
		if err != nil {
			continue
		}
		// Sent; whether it went to a dead connection shows in whether it arrives on a connection that was not ended.
		if mon.Await(func() bool { return h.has(mark) || h.fresh() == 0 && i < 11 }) == "ok" && h.has(mark) {
			rec = i
		}
	}
	if rec < 0 {
		c.Failf("no-recovery", "the server is reachable again, but of 12 collections none succeeded and arrived (phases: %v)", log)
	} else {
		var last string
		for i := 0; i < 5; i++ {
			mark, err := collect(r, 102)
			if err != nil {
				c.Failf("no-recovery", "a collection over the re-established connection failed: %v", err)
			}
			last = mark
		}
		if !c.Failed() {
			c.AwaitOr("lost", "collections over the re-established connection arriving", func() bool { return h.has(last) })
			for i := 0; i < 5; i++ {
				if !c.Failed() && !h.has(fmt.Sprintf("102/%d", i)) {
					c.Failf("lost", "collection 102/%d over the re-established connection did not arrive although a later one did", i)
				}
			}
		}
	}
	rc.Close()
	if c.Failed() {
		return
	}
	c.AwaitOr("hang", "the connection ending after Close", func() bool {
		for _, k := range h.list() {
			k.mu.Lock()
			d := k.done
			k.mu.Unlock()
			if !d {
				return false
			}
		}
		return true
	})
	nm := judgeConns(c, h, all)
	c.Mark(h.tls, ng, log, len(h.list()), nm, rec)
	c.Count("connections", len(h.list()))
	c.Count("whole_messages", nm)
	c.Count("collections_ok", int(nils.Load()))
	c.Count("collections_failed", int(errs.Load()))
	c.Sample("tls=%v, %d callers, phases %v: %d connections, %d whole messages, %d ok, %d errors, recovered after %d collections", h.tls, ng, log, len(h.list()), nm, nils.Load(), errs.Load(), rec+1)
}

// noSuchServer collects to addresses at which there can be no server, and to
// one that is not who the client trusts.
func noSuchServer(c *mon.Case, h *hub, r *rand.Rand) {
	type target struct {
		what string
		rc   *appdash.RemoteCollector
	}
	var ts []target
	for _, a := range []string{"", "127.0.0.1", "127.0.0.1:", "127.0.0.1:0", "127.0.0.1:99999999", "[::1", "::1:5", "127.0.0.1:-1"} {
		ts = append(ts, target{fmt.Sprintf("%q", a), appdash.NewRemoteCollector(a)}, target{fmt.Sprintf("%q (TLS)", a), appdash.NewTLSRemoteCollector(a, clientTLSAny())})
	}
	if h.tls {
		ts = append(ts, target{"a server whose certificate is not trusted", appdash.NewTLSRemoteCollector(h.addr, &tls.Config{ServerName: "127.0.0.1"})},
			target{"a server of another name", appdash.NewTLSRemoteCollector(h.addr, func() *tls.Config { t := clientTLS(); t.ServerName = "other.invalid"; return t }())})
	}
	for k := 0; k < 4; k++ {
		t := ts[r.Intn(len(ts))]
		t.rc.Log = quiet
		t.rc.Debug = r.Intn(2) == 0
		for i := 0; i < 2; i++ {
			if err := t.rc.Collect(appdash.SpanID{Trace: 1, Span: 2}, appdash.Annotation{Key: "k"}); err == nil {
				c.Failf("unreachable", "a collection to %s was reported as sent", t.what)
			}
		}
		t.rc.Close()
	}
}

// has reports whether some connection carried the message marked.
func (h *hub) has(mark string) bool {
	for _, k := range h.list() {
		k.mu.Lock()
		d := k.data
		k.mu.Unlock()
		if len(d) > 0 && bytes.Contains(d, append([]byte{byte(len(mark))}, mark...)) {
			bodies, _ := split(d)
			for _, b := range bodies {
				if markOf(b) == mark {
					return true
				}
			}
		}
	}
	return false
}

// fresh counts the connections that are still open.
func (h *hub) fresh() (n int) {
	for _, k := range h.list() {
		k.mu.Lock()
		if !k.done && !k.failed {
			n++
		}
		k.mu.Unlock()
	}
	return
}

func markOf(body []byte) string {
	_, as, err := decBody(body)
	if err != nil {
		return ""
	}
	for _, a := range as {
		if a.Key == "verif-who" {
			return string(a.Value)
		}
	}
	return ""
}

// judgeConns checks what each connection carried.
func judgeConns(c *mon.Case, h *hub, all map[string]sent) int {
	whole := 0
	type at struct{ conn, pos, of int }
	seen := map[string]at{}
	lastIdx := map[int]int{}
	for ci, k := range h.list() {
		bodies, tail := split(k.data)
		canonical := true
		for bi, b := range bodies {
			id, as, err := decBody(b)
			if err != nil {
				c.Failf("altered", "connection %d carried a message that is not in the published format: %q", ci, cut(string(b)))
				return whole
			}
			m, ok := all[markOf(b)]
			if !ok || m.id != id || !ad.AnnsEqual(m.as, as) {
				c.Failf("altered", "connection %d carried %v %s, which was not collected like that", ci, id, cut(ad.AnnString(as)))
				return whole
			}
			whole++
			canonical = canonical && bytes.Equal(frame(b), enc(m.id, m.as))
			mk := markOf(b)
			var who, i int
			fmt.Sscanf(mk, "%d/%d", &who, &i)
			if p, ok := seen[mk]; ok {
				if p.conn == ci || p.pos != p.of-1 {
					c.Failf("twice", "message %s was delivered on connection %d (message %d of %d) and again on connection %d", mk, p.conn, p.pos+1, p.of, ci)
				}
			} else if last, ok := lastIdx[who]; ok && i <= last {
				c.Failf("order", "message %s was delivered after a later one of the same caller", mk)
			}
			if i > lastIdx[who] || lastIdx[who] == 0 {
				lastIdx[who] = i
			}
			seen[mk] = at{ci, bi, len(bodies)}
			if len(tail) > 0 { // then the last whole message was not the one being sent
				seen[mk] = at{ci, bi, len(bodies) + 1}
			}
		}
		if len(tail) > 0 && canonical {
			found := false
			for _, m := range all {
				if e := enc(m.id, m.as); len(e) > len(tail) && bytes.Equal(e[:len(tail)], tail) {
					found = true
					break
				}
			}
			if !found {
				c.Failf("altered", "connection %d ended in %d bytes that are not the beginning of any message: %q", ci, len(tail), cut(string(tail)))
			}
		}
	}
	return whole
}
