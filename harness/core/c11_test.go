package core

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"sort"
	"strings"
	"sync"

	"verif/ad"
	"verif/mon"

	"sourcegraph.com/sourcegraph/appdash"
)

func init() {
	mon.Reg("C11", "pipeline", 160, 4000, remotePipe)
	mon.Reg("C11", "raw-server", 160, 4000, remoteRawServer)
	mon.Reg("C11", "raw-client", 400, 8000, remoteRawClient)
	mon.Reg("C11", "size-limit", 48, 600, remoteSize)
}

var quiet = log.New(io.Discard, "", 0)

// stderr keeps file descriptor 2 open: the runtime writes there.
var stderr = os.Stderr

func init() {
	// Loggers that components make for themselves write there.
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
}

func newServer(c *mon.Case, l net.Listener, sink appdash.Collector) *appdash.CollectorServer {
	s := appdash.NewServer(l, sink)
	if c.R.Intn(2) == 0 {
		s.Log = quiet
	}
	s.Debug = c.R.Intn(4) == 0
	s.Trace = c.R.Intn(4) == 0
	return s
}

func newRemote(c *mon.Case, addr string, useTLS bool) *appdash.RemoteCollector {
	var rc *appdash.RemoteCollector
	if useTLS {
		rc = appdash.NewTLSRemoteCollector(addr, clientTLS())
	} else {
		rc = appdash.NewRemoteCollector(addr)
	}
	if c.R.Intn(2) == 0 {
		rc.Log = quiet
	}
	rc.Debug = c.R.Intn(4) == 0
	return rc
}

// startServer runs a collector server behind a fragmenting listener.
func startServer(c *mon.Case, sink appdash.Collector, useTLS bool, frag int) *fragListener {
	tl, err := listen("127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	fl := &fragListener{Listener: tl, r: randNew(c.R.Int63()), max: frag}
	var l net.Listener = fl
	if useTLS {
		l = tls.NewListener(fl, serverTLS())
	}
	s := newServer(c, l, sink)
	stopped := make(chan struct{})
	go func() { s.Start(); close(stopped) }()
	c.Cleanup(func() {
		l.Close()
		fl.mu.Lock()
		for _, k := range fl.conns {
			k.Conn.Close()
		}
		fl.mu.Unlock()
	})
	return fl
}

// spanFor makes a span ID that names its producer.
func spanFor(c *mon.Case, r interface{ Uint64() uint64 }, who int) appdash.SpanID {
	id := appdash.SpanID{Trace: ad.ID(c.R), Span: ad.ID(c.R), Parent: ad.ID(c.R)}
	return id
}

type sent struct {
	id appdash.SpanID
	as []ad.Ann
}

func (s sent) String() string { return fmt.Sprintf("%v %s", s.id, ad.AnnString(s.as)) }

// genSent generates n messages of producer who; each carries a unique mark.
func genSent(c *mon.Case, who, n int) []sent {
	r := randNew(c.R.Int63())
	var out []sent
	for i := 0; i < n; i++ {
		id := appdash.SpanID{Trace: ad.ID(r), Span: ad.ID(r)}
		if r.Intn(3) > 0 {
			id.Parent = ad.ID(r)
		}
		as := ad.Anns(r, r.Intn(5))
		if r.Intn(12) == 0 {
			b := make([]byte, 1<<uint(r.Intn(18)))
			r.Read(b)
			as = append(as, ad.Ann{Key: ad.Str(r), Value: b})
		}
		if r.Intn(15) == 0 {
			as = append(as, ad.Anns(r, 200)...)
		}
		k := r.Intn(len(as) + 1)
		as = append(as[:k:k], append([]ad.Ann{{Key: "verif-who", Value: []byte(fmt.Sprintf("%d/%d", who, i))}}, as[k:]...)...)
		out = append(out, sent{id, as})
	}
	return out
}

// judge compares what arrived with what the producers sent, in order per producer.
func judgeArrivals(c *mon.Case, got []ad.Call, want map[string][]sent) {
	per := map[string][]ad.Call{}
	n := 0
	for _, g := range got {
		w := ""
		for _, a := range g.Anns {
			if a.Key == "verif-who" {
				w = string(a.Value)
			}
		}
		p := strings.SplitN(w, "/", 2)[0]
		if _, ok := want[p]; !ok {
			c.Failf("invented", "the collector behind the server got %v %s, which nobody sent", g.Span, cut(ad.AnnString(g.Anns)))
			return
		}
		per[p] = append(per[p], g)
	}
	for p, ws := range want {
		n += len(ws)
		gs := per[p]
		for i := 0; i < len(gs) || i < len(ws); i++ {
			switch {
			case i >= len(gs):
				c.Failf("lost", "producer %s: message %d never arrived: %s", p, i, cut(ws[i].String()))
			case i >= len(ws):
				c.Failf("twice", "producer %s: an extra message arrived: %v %s", p, gs[i].Span, cut(ad.AnnString(gs[i].Anns)))
			case gs[i].Span != ws[i].id || !ad.AnnsEqual(gs[i].Anns, ws[i].as):
				c.Failf("altered", "producer %s: message %d arrived as %v %s, sent as %s", p, i, gs[i].Span, cut(ad.AnnString(gs[i].Anns)), cut(ws[i].String()))
			default:
				continue
			}
			return
		}
	}
	c.Count("messages_compared", n)
}

func cut(s string) string {
	if len(s) > 500 {
		return s[:500] + "..."
	}
	return s
}

func total(want map[string][]sent) (n int) {
	for _, w := range want {
		n += len(w)
	}
	return
}

func remotePipe(c *mon.Case) {
	sink := &ad.Sink{}
	useTLS := c.R.Intn(3) == 0
	frag := []int{0, 1, 3, 17, 400}[c.R.Intn(5)]
	fl := startServer(c, sink, useTLS, frag)
	addr := fl.Addr().String()
	clients, per := 1+c.R.Intn(4), 1+c.R.Intn(4)
	want := map[string][]sent{}
	var wg sync.WaitGroup
	var rcs []*appdash.RemoteCollector
	who := 0
	for i := 0; i < clients; i++ {
		rc := newRemote(c, addr, useTLS)
		rcs = append(rcs, rc)
		for j := 0; j < per; j++ {
			who++
			ms := genSent(c, who, 1+c.R.Intn(25))
			want[fmt.Sprint(who)] = ms
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				for _, m := range ms {
					if err := rc.Collect(m.id, m.as...); err != nil {
						c.Failf("error", "Collect over a healthy connection failed: %v", err)
						return
					}
				}
			}(who)
		}
	}
	wg.Wait()
	for _, rc := range rcs {
		if err := rc.Close(); err != nil {
			c.Failf("close", "Close: %v", err)
		}
	}
	if !c.AwaitOr("lost", "the server taking in every connection's data to its end", func() bool { return fl.allClosed(clients) }) {
		return
	}
	judgeArrivals(c, sink.Snapshot(), want)
	c.Mark(useTLS, frag, clients, per, total(want), orderOf(sink.Snapshot()))
	c.Count("connections", clients)
	c.Sample("tls=%v, reads of at most %d bytes, %d clients with %d callers each, %d messages", useTLS, frag, clients, per, total(want))
}

// orderOf fingerprints the order in which producers' messages arrived.
func orderOf(cs []ad.Call) string {
	var b strings.Builder
	for _, g := range cs {
		for _, a := range g.Anns {
			if a.Key == "verif-who" {
				b.Write(a.Value)
				b.WriteByte(' ')
			}
		}
	}
	return b.String()
}

// remoteRawServer reads what a RemoteCollector sends with an independent decoder.
func remoteRawServer(c *mon.Case) {
	useTLS := c.R.Intn(3) == 0
	tl, err := listen("127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	var l net.Listener = tl
	if useTLS {
		l = tls.NewListener(tl, serverTLS())
	}
	defer l.Close()
	res := make(chan []byte, 8)
	go func() {
		for {
			k, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				b, _ := io.ReadAll(k)
				k.Close()
				res <- b
			}()
		}
	}()
	rc := newRemote(c, tl.Addr().String(), useTLS)
	ng := 1 + c.R.Intn(3)
	want := map[string][]sent{}
	var wg sync.WaitGroup
	for g := 0; g < ng; g++ {
		ms := genSent(c, g, 1+c.R.Intn(30))
		want[fmt.Sprint(g)] = ms
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, m := range ms {
				if err := rc.Collect(m.id, m.as...); err != nil {
					c.Failf("error", "Collect over a healthy connection failed: %v", err)
					return
				}
			}
		}()
	}
	wg.Wait()
	rc.Close()
	b := <-res
	bodies, tail := split(b)
	if len(tail) > 0 {
		c.Failf("format", "the connection carried %d bytes that are not length-delimited messages: %q", len(tail), cut(string(tail)))
	}
	var got []ad.Call
	for i, body := range bodies {
		id, as, err := decBody(body)
		if err != nil {
			c.Failf("format", "message %d is not in the published format: %q", i, cut(string(body)))
			return
		}
		got = append(got, ad.Call{Span: id, Anns: as})
	}
	if c.Failed() {
		return
	}
	judgeArrivals(c, got, want)
	c.Mark(useTLS, ng, orderOf(got), len(b))
	c.Count("bytes_decoded", len(b))
	c.Sample("tls=%v, %d callers, %d messages in %d bytes decoded independently", useTLS, ng, len(bodies), len(b))
}

// writeChunks writes b in chunks chosen by the case.
func writeChunks(k net.Conn, b []byte, next func() int) error {
	for len(b) > 0 {
		n := next()
		if n <= 0 || n > len(b) {
			n = len(b)
		}
		if _, err := k.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

// remoteRawClient sends independently encoded messages to the server.
func remoteRawClient(c *mon.Case) {
	sink := &ad.Sink{}
	useTLS := c.R.Intn(4) == 0
	fl := startServer(c, sink, useTLS, []int{0, 1, 5, 100}[c.R.Intn(4)])
	n := 1 + c.R.Intn(3)
	want := map[string][]sent{}
	omitted := 0
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		ms := genSent(c, i, 1+c.R.Intn(20))
		want[fmt.Sprint(i)] = ms
		r := randNew(c.R.Int63())
		var buf bytes.Buffer
		for _, m := range ms {
			o := encOpt{omitParent: r.Intn(2) == 0, omitValue: r.Intn(2) == 0}
			if r.Intn(2) == 0 {
				o.r = r
			}
			if o.omitParent && m.id.Parent == 0 {
				omitted++
			}
			buf.Write(frame(encBody(m.id, m.as, o)))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			var k net.Conn
			var err error
			if useTLS {
				k, err = tls.Dial("tcp", fl.Addr().String(), clientTLS())
			} else {
				k, err = net.Dial("tcp", fl.Addr().String())
			}
			if err != nil {
				c.Inconclusive("dial: %v", err)
				return
			}
			defer k.Close()
			mode := r.Intn(3)
			if err := writeChunks(k, buf.Bytes(), func() int {
				switch mode {
				case 0:
					return 0
				case 1:
					return 1 + r.Intn(50)
				}
				return 1 + r.Intn(3000)
			}); err != nil {
				c.Failf("refused", "the server closed the connection of a correct client: %v", err)
			}
		}()
	}
	wg.Wait()
	if !c.AwaitOr("lost", "the server taking in every connection's data to its end", func() bool { return fl.allClosed(n) }) {
		return
	}
	judgeArrivals(c, sink.Snapshot(), want)
	c.Count("messages_without_parent", omitted)
	c.Mark(useTLS, n, orderOf(sink.Snapshot()), omitted)
	c.Sample("tls=%v, %d independent clients, %d messages, %d without parent field", useTLS, n, total(want), omitted)
}

// remoteSize probes the message size limit from both sides.
func remoteSize(c *mon.Case) {
	const limit = 1 << 20
	sink := &ad.Sink{}
	useTLS := c.R.Intn(4) == 0
	fl := startServer(c, sink, useTLS, []int{0, 0, 4000}[c.R.Intn(3)])
	rc := newRemote(c, fl.Addr().String(), useTLS)
	want := map[string][]sent{}
	var sizes []int
	for i := 0; i < 1+c.R.Intn(6); i++ {
		size := limit
		switch c.R.Intn(6) {
		case 0:
			size = limit + 1
		case 1:
			size = limit + 2 + c.R.Intn(40)
		case 2:
			size = limit - c.R.Intn(40)
		case 3:
			size = limit + 1 + c.R.Intn(2*limit)
		case 4:
			size = 100 + c.R.Intn(2000)
		}
		m := sent{appdash.SpanID{Trace: ad.NZ(c.R), Span: ad.NZ(c.R), Parent: ad.NZ(c.R)}, []ad.Ann{{Key: "verif-who", Value: []byte(fmt.Sprintf("0/%d", i))}}}
		// Fill up with one or several annotations to exactly size bytes.
		have := len(encBody(m.id, m.as, encOpt{}))
		for have < size {
			n := size - have
			if n > 200 && c.R.Intn(3) == 0 {
				n = 100 + c.R.Intn(n-100)
			}
			// An annotation takes 5+k+v bytes and the bytes of the value's length.
			for k := 1; k <= 3; k++ {
				for d := 1; d <= 4; d++ {
					if v := n - 5 - k - d; v >= 1 && uvlen(v) == d {
						b := make([]byte, v)
						c.R.Read(b)
						m.as = append(m.as, ad.Ann{Key: strings.Repeat("k", k), Value: b})
						have += n
						k, n = 9, 0
						break
					}
				}
			}
			if n > 0 { // too little room left
				m.as = append(m.as, ad.Ann{Key: "kk", Value: []byte{1}})
				have += 9
			}
		}
		real := len(encBody(m.id, m.as, encOpt{}))
		sizes = append(sizes, real)
		err := rc.Collect(m.id, m.as...)
		switch {
		case real <= limit && err != nil:
			c.Failf("error", "a message of %d bytes (limit %d) was not sent: %v", real, limit, err)
		case real > limit && err == nil:
			c.Failf("too-large", "a message of %d bytes (limit %d) was reported as sent", real, limit)
		}
		if real <= limit {
			want["0"] = append(want["0"], m)
		}
	}
	last := sent{appdash.SpanID{Trace: 1, Span: 2, Parent: 3}, []ad.Ann{{Key: "verif-who", Value: []byte("0/last")}}}
	if err := rc.Collect(last.id, last.as...); err != nil {
		c.Failf("later", "a collection after messages of %v bytes failed: %v", sizes, err)
	}
	want["0"] = append(want["0"], last)
	if c.Failed() {
		rc.Close()
		return
	}
	if !c.AwaitOr("later", "the last message arriving", func() bool { return sink.Len() >= len(want["0"]) }) {
		rc.Close()
		return
	}
	rc.Close()
	c.AwaitOr("lost", "the server taking in every connection's data to its end", func() bool { return fl.allClosed(1) })
	judgeArrivals(c, sink.Snapshot(), want)
	sort.Ints(sizes)
	c.Mark(useTLS, sizes)
	c.Sample("message sizes %v", sizes)
}

func uvlen(v int) int {
	n := 1
	for v >= 128 {
		v >>= 7
		n++
	}
	return n
}
