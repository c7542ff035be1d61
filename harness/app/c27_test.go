package app

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/ad"
	"verif/mon"
)

func init() {
	mon.Reg("C27", "kill-restart", 40, 1200, cmdKill)
	mon.Reg("C27", "age-limit", 12, 200, cmdAge)
	mon.Reg("C27", "tls", 16, 300, cmdTLS)
	mon.Reg("C27", "corrupt", 40, 1000, cmdCorrupt)
	mon.Reg("C27", "links", 16, 300, cmdLinks)
}

// sent is one span given to the command.
type sent struct {
	id   appdash.SpanID
	anns []ad.Ann
}

// feeder sends spans of its own traces over one connection and remembers them.
type feeder struct {
	rc   *appdash.RemoteCollector
	mu   sync.Mutex
	sent []sent
}

func (f *feeder) send(id appdash.SpanID, as []ad.Ann) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.sent = append(f.sent, sent{id, as})
	return f.rc.Collect(id, ad.CopyAnns(as)...)
}

func storeOf(base *appdash.MemoryStore, sents ...[]sent) *appdash.MemoryStore {
	ms := appdash.NewMemoryStore()
	if base != nil {
		var b bytes.Buffer
		if err := base.Write(&b); err != nil {
			panic("harness: " + err.Error())
		}
		if _, err := ms.ReadFrom(&b); err != nil {
			panic("harness: " + err.Error())
		}
	}
	for _, l := range sents {
		for _, s := range l {
			if err := ms.Collect(s.id, ad.CopyAnns(s.anns)...); err != nil {
				panic("harness: " + err.Error())
			}
		}
	}
	return ms
}

// byTrace renders the traces of a listing.
func byTrace(ts []*appdash.Trace) map[appdash.ID]string {
	m := map[appdash.ID]string{}
	for _, t := range ts {
		m[t.ID.Trace] += ad.Canon(t) + "\n"
	}
	return m
}

func tracesOf(ms *appdash.MemoryStore) []*appdash.Trace {
	ts, err := ms.Traces(appdash.TracesOpts{})
	if err != nil {
		panic("harness: " + err.Error())
	}
	return ts
}

// prefixOf reports whether got is what base and the first k spans of the list
// give, for some k.
func prefixOf(base *appdash.MemoryStore, id appdash.ID, list []sent, got *appdash.Trace) (int, bool) {
	ms := storeOf(base)
	g := ""
	if got != nil {
		g = ad.Canon(got)
	}
	for k := 0; ; k++ {
		t, err := ms.Trace(id)
		if err != nil && got == nil || err == nil && ad.Canon(t) == g {
			return k, true
		}
		if k == len(list) {
			return 0, false
		}
		if err := ms.Collect(list[k].id, ad.CopyAnns(list[k].anns)...); err != nil {
			panic("harness: " + err.Error())
		}
	}
}

func cmdKill(c *mon.Case) {
	r := c.R
	file := filepath.Join(c.Scratch(), "store.gob")
	interval := []string{"1ms", "5ms", "20ms", "100ms"}[r.Intn(4)]
	args := []string{"--store-file=" + file, "--persist-interval=" + interval, "--delete-after=" + []string{"0", "30m", "1h"}[r.Intn(3)]}
	tlsOn := r.Intn(6) == 0
	if tlsOn {
		crt, key := certFiles(c)
		args = append(args, "--tls-cert="+crt, "--tls-key="+key)
	}
	ids := distinct(r, 2+r.Intn(4))
	saved := appdash.NewMemoryStore() // what the last completed save holds
	jAnns := jsonAnns(r)
	spans := map[appdash.ID][]node{} // spans not yet sent
	seq := 0
	for _, id := range ids {
		spans[id] = genTrace(r, id, 20+r.Intn(60), true, func(i int) []ad.Ann {
			seq++
			return append(jAnns(i), ad.Uniq("u", seq))
		})
	}
	rounds := 2 + r.Intn(3)
	for round := 0; round < rounds; round++ {
		// Some starts are killed at once: the file must keep what it holds.
		for r.Intn(3) == 0 {
			cm := startCommand(c, tlsOn, args...)
			time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
			cm.kill()
			c.Count("kills during start-up", 1)
			now, err := loadStore(file)
			if err != nil {
				c.Failf("store file", "after a kill during start-up the store file does not load: %v", err)
				return
			}
			if g, w := canonStore(now), canonStore(saved); g != w {
				c.Failf("store file", "a kill during start-up changed the store file: %s", ad.Diff(g, w))
				return
			}
		}
		cm := serve(c, tlsOn, args...)
		if cm == nil {
			return
		}
		// Exactly what was saved is served.
		ts, err := cm.shown()
		if err != nil {
			c.Failf("list", "the list after a start: %v", err)
			return
		}
		if g, w := canonTraces(ts), canonStore(saved); g != w {
			c.Failf("restart", "started with a store file, the command does not show exactly what it holds (round %d): %s", round, ad.Diff(g, w))
			return
		}
		for _, t := range tracesOf(saved) {
			if t.ID.Parent != 0 {
				// The root is not there (yet); such pages have no export.
				if p := cm.get("/traces/" + t.ID.Trace.String()); !p.ok() {
					c.Failf("restart", "the page of trace %v after a restart is answered with %d", t.ID.Trace, p.status)
				}
				continue
			}
			if ex, ok := exportsOf(c, cm, t.ID.Trace); ok {
				var got []*appdash.Trace
				if err := json.Unmarshal([]byte(ex.json["button"]), &got); err != nil || len(got) != 1 || ad.Canon(got[0]) != ad.Canon(t) {
					c.Failf("restart", "the page of trace %v after a restart is not of the saved trace (%v)", t.ID.Trace, err)
				}
			}
		}
		c.Count("traces served after restart", len(tracesOf(saved)))
		if c.Failed() {
			return
		}

		feeders := map[appdash.ID]*feeder{}
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for _, id := range ids {
			f := &feeder{rc: cm.collector()}
			feeders[id] = f
			n := r.Intn(len(spans[id]) + 1)
			if round == rounds-1 {
				n = len(spans[id])
			}
			batch := spans[id][:n]
			spans[id] = spans[id][n:]
			// Parts of spans, in any order.
			var list []sent
			for _, i := range r.Perm(len(batch)) {
				as := batch[i].anns
				if k := r.Intn(len(as) + 1); k > 0 && k < len(as) {
					list = append(list, sent{batch[i].id, as[:k]})
					as = as[k:]
				}
				list = append(list, sent{batch[i].id, as})
			}
			delay := time.Duration(r.Intn(3)) * time.Millisecond
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, s := range list {
					select {
					case <-stop:
						return
					default:
					}
					if f.send(s.id, s.anns) != nil {
						return // killed
					}
					time.Sleep(delay)
				}
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				p, err := cm.request("GET", []string{"/traces", "/traces/" + ids[0].String(), "/aggregate"}[i%3], "")
				if err != nil && !cm.killing.Load() {
					select {
					case <-stop:
					default:
						cm.trouble("GET: %v", err)
					}
					return
				}
				if err == nil && i%3 == 0 && !p.ok() {
					c.Failf("list", "the web UI answers with %d while spans arrive: %s", p.status, cut(p.body))
				}
				time.Sleep(time.Millisecond)
			}
		}()
		full := round == rounds-1 || r.Intn(3) == 0
		if full {
			// Everything sent is shown and saved.
			want := func() (string, bool) {
				var l [][]sent
				n := 0
				for _, id := range ids {
					f := feeders[id]
					f.mu.Lock()
					l = append(l, append([]sent(nil), f.sent...))
					n += len(f.sent)
					f.mu.Unlock()
				}
				return canonStore(storeOf(saved, l...)), true
			}
			ok := cm.eventually("shown", "everything collected is shown", func() (bool, string) {
				w, _ := want()
				ts, err := cm.shown()
				if err != nil {
					return false, err.Error()
				}
				g := canonTraces(ts)
				w2, _ := want()
				return g == w && w == w2, ad.Diff(g, w)
			})
			ok = ok && cm.eventually("saved", "everything collected is saved", func() (bool, string) {
				w, _ := want()
				s, err := loadStore(file)
				if err != nil {
					return false, err.Error()
				}
				g := canonStore(s)
				cm.get("/") // shows that the command is alive
				return g == w, ad.Diff(g, w)
			})
			if !ok {
				close(stop)
				wg.Wait()
				return
			}
			c.Count("rounds saved completely", 1)
			if r.Intn(2) == 0 {
				// Uploaded traces are saved too.
				up := appdash.ID(r.Uint64() | 1)
				t := &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: up, Span: 7}, Annotations: []ad.Ann{{Key: "k", Value: []byte("v")}}}}
				if rs, err := cm.request("POST", "/traces/upload", "["+mustJSON(t)+"]"); err != nil || rs.bad() {
					cm.trouble("upload: %v %d", err, rs.status)
				} else if !cm.eventually("saved", "an uploaded trace is saved", func() (bool, string) {
					s, err := loadStore(file)
					if err != nil {
						return false, err.Error()
					}
					got, err := s.Trace(up)
					cm.get("/")
					return err == nil && ad.Canon(got) == ad.Canon(t), fmt.Sprint(err)
				}) {
					close(stop)
					wg.Wait()
					return
				} else {
					storeAdd(saved, t)
				}
			}
		} else {
			time.Sleep(time.Duration(r.Intn(150)) * time.Millisecond)
		}
		cm.kill()
		close(stop)
		wg.Wait()
		c.Count("kills", 1)
		now, err := loadStore(file)
		if err != nil {
			c.Failf("store file", "after a kill the store file does not load: %v", err)
			return
		}
		got := byIDs(tracesOf(now))
		for _, id := range ids {
			k, ok := prefixOf(saved, id, feeders[id].sent, got[id])
			if !ok {
				c.Failf("store file", "after a kill the store file holds of trace %v neither what it held plus the first spans sent: %s", id, ad.Diff(canonOf(got[id]), canonStore(storeOf(saved, feeders[id].sent))))
			}
			if full && k != len(feeders[id].sent) {
				t, _ := storeOf(saved, feeders[id].sent).Trace(id)
				if canonOf(t) != canonOf(got[id]) {
					c.Failf("store file", "trace %v was saved with %d spans and has %d after the kill", id, len(feeders[id].sent), k)
				}
			}
			c.Count("spans sent", len(feeders[id].sent))
			c.Count("spans saved", k)
			c.Mark(id, k, len(feeders[id].sent))
			delete(got, id)
		}
		for id := range got {
			if _, err := saved.Trace(id); err != nil {
				c.Failf("store file", "the store file holds trace %v, which nobody sent", id)
			}
		}
		for _, t := range tracesOf(saved) {
			if _, err := now.Trace(t.ID.Trace); err != nil {
				c.Failf("store file", "trace %v was saved before and is not any more", t.ID.Trace)
			}
		}
		if c.Failed() {
			return
		}
		saved = now
		// What was sent and not saved by a kill is lost; its spans may be sent
		// again as new parts.
	}
	c.Sample("%d rounds, %d traces, save every %s", rounds, len(ids), interval)
}

func storeAdd(s *appdash.MemoryStore, t *appdash.Trace) {
	if err := s.Collect(t.ID, t.Annotations...); err != nil {
		panic("harness: " + err.Error())
	}
}

func byIDs(ts []*appdash.Trace) map[appdash.ID]*appdash.Trace {
	m := map[appdash.ID]*appdash.Trace{}
	for _, t := range ts {
		m[t.ID.Trace] = t
	}
	return m
}

func canonOf(t *appdash.Trace) string {
	if t == nil {
		return ""
	}
	return ad.Canon(t)
}

// cmdAge watches traces of a command with an age limit.
func cmdAge(c *mon.Case) {
	r := c.R
	limit := time.Duration(1200+r.Intn(1300)) * time.Millisecond
	file := filepath.Join(c.Scratch(), "store.gob")
	cm := serve(c, false, "--store-file="+file, "--persist-interval=30ms", fmt.Sprintf("--delete-after=%v", limit))
	if cm == nil {
		return
	}
	rc := cm.collector()
	type life struct {
		sent time.Time // before the first span was sent
		seen bool
		n    int
	}
	var mu sync.Mutex
	lives := map[appdash.ID]*life{}
	ids := distinct(r, 400)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	upload := make([]bool, 400)
	gaps := make([]int, 400)
	for i := range gaps {
		upload[i] = r.Intn(8) == 0
		gaps[i] = r.Intn(60)
		if r.Intn(20) == 0 {
			gaps[i] = r.Intn(900)
		}
	}
	go func() {
		defer wg.Done()
		for i, id := range ids {
			mu.Lock()
			lives[id] = &life{sent: time.Now()}
			mu.Unlock()
			for k := 0; k < 1+i%3; k++ {
				if upload[i] {
					// Uploaded traces are collected like others.
					t := &appdash.Trace{Span: appdash.Span{ID: appdash.SpanID{Trace: id, Span: 1}, Annotations: appdash.Annotations{{Key: "k", Value: []byte("up")}}}}
					if rs, err := cm.request("POST", "/traces/upload", "["+mustJSON(t)+"]"); err != nil || rs.bad() {
						cm.trouble("upload: %v %d", err, rs.status)
						return
					}
					break
				}
				if err := rc.Collect(appdash.SpanID{Trace: id, Span: appdash.ID(k + 1), Parent: appdash.ID(k)}, appdash.Annotation{Key: "k", Value: []byte{byte(k)}}); err != nil {
					cm.trouble("collect: %v", err)
					return
				}
			}
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(gaps[i]) * time.Millisecond):
			}
		}
	}()
	t0 := time.Now()
	gone := 0
	for time.Since(t0) < 3*limit {
		ts, err := cm.shown()
		done := time.Now()
		if err != nil {
			c.Failf("list", "the list: %v", err)
			break
		}
		m := byIDs(ts)
		mu.Lock()
		for id, l := range lives {
			n := 0
			if m[id] != nil {
				fl, _ := ad.Flatten(m[id], 0)
				n = len(fl)
			}
			if age := done.Sub(l.sent); age < limit {
				c.Count("listings of young traces", 1)
				if n < l.n {
					c.Failf("too early", "trace %v is younger than %v (limit %v) and was shown with %d spans before, now with %d", id, age, limit, l.n, n)
				}
			}
			if n > 0 {
				l.seen = true
			} else if l.seen && l.n > 0 {
				gone++
			}
			l.n = n
		}
		mu.Unlock()
		mon.Beat()
		if c.Failed() {
			break
		}
	}
	close(stop)
	wg.Wait()
	c.Count("deletions seen", gone)
	c.Mark(limit, gone)
	if c.Failed() {
		return
	}
	// Old traces go as further spans arrive.
	old := map[appdash.ID]bool{}
	mu.Lock()
	for id, l := range lives {
		if l.seen {
			old[id] = true
		}
	}
	mu.Unlock()
	last := distinct(r, 1)[0]
	for old[last] {
		last++
	}
	cm.eventually("never deleted", "traces older than the limit are deleted", func() (bool, string) {
		if err := rc.Collect(appdash.SpanID{Trace: last, Span: 1}, appdash.Annotation{Key: "k"}); err != nil {
			return false, err.Error()
		}
		ts, err := cm.shown()
		if err != nil {
			return false, err.Error()
		}
		n := 0
		for _, t := range ts {
			if old[t.ID.Trace] {
				n++
			}
		}
		return n == 0, fmt.Sprintf("%d left", n)
	})
	c.Sample("limit %v, %d traces, %d deletions seen", limit, len(lives), gone)
}

// cmdTLS talks plain text to a command with TLS.
func cmdTLS(c *mon.Case) {
	r := c.R
	crt, key := certFiles(c)
	if c.Idx%4 == 3 {
		// Only one of the two options: TLS was asked for and cannot be had.
		a := []string{"--tls-cert=" + crt}
		if r.Intn(2) == 0 {
			a = []string{"--tls-key=" + key}
		}
		cm := startCommand(c, false, append(a, "--store-file="+filepath.Join(c.Scratch(), "s.gob"))...)
		t0 := time.Now()
		for !cm.exited() {
			for _, addr := range []string{cm.http, cm.coll} {
				n, err := net.DialTimeout("tcp", addr, time.Second)
				if err != nil {
					continue
				}
				n.SetDeadline(time.Now().Add(5 * time.Second))
				fmt.Fprintf(n, "GET / HTTP/1.1\r\nHost: x\r\n\r\n")
				b, _ := io.ReadAll(n)
				n.Close()
				if addr == cm.http && (bytes.Contains(b, []byte(" 200 ")) || bytes.Contains(b, []byte(" 302 "))) {
					c.Failf("plain text", "started with %q only, the command serves in plain text: %s", a, cut(string(b)))
					return
				}
			}
			if time.Since(t0) > 30*time.Second {
				break // neither serves nor exits
			}
			mon.Beat()
			time.Sleep(2 * time.Millisecond)
		}
		c.Mark(a)
		c.Count("incomplete TLS settings", 1)
		return
	}
	cm := serve(c, true, "--store-file="+filepath.Join(c.Scratch(), "s.gob"), "--tls-cert="+crt, "--tls-key="+key)
	if cm == nil {
		return
	}
	const secret = "zqsecretqz"
	rc := cm.collector()
	id := appdash.SpanID{Trace: appdash.ID(0xfeed000000000000 + uint64(r.Uint32())), Span: 1}
	if err := rc.Collect(id, evAnns(appdash.SpanName(secret))...); err != nil {
		c.Failf("tls", "a TLS collector cannot send: %v", err)
		return
	}
	if !cm.eventually("shown", "a span collected over TLS is shown over HTTPS", func() (bool, string) {
		ts, err := cm.shown()
		return err == nil && len(ts) == 1, fmt.Sprint(err, len(ts))
	}) {
		return
	}
	// Plain-text collectors, mixed with others over TLS.
	n := 2 + r.Intn(4)
	for i := 0; i < n; i++ {
		pid := appdash.SpanID{Trace: appdash.ID(0xbad0000000000000 + uint64(i)), Span: 1}
		pc := appdash.NewRemoteCollector(cm.coll)
		for k := 0; k < 1+r.Intn(4); k++ {
			pc.Collect(pid, appdash.Annotation{Key: "k", Value: bytes.Repeat([]byte("x"), r.Intn(3000))})
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		}
		pc.Close()
		c.Count("plain-text collectors", 1)
		ok := appdash.SpanID{Trace: appdash.ID(0xfeed000000000000 + uint64(r.Uint32())<<8), Span: appdash.ID(i + 1)}
		if err := rc.Collect(ok, appdash.Annotation{Key: "k"}); err != nil {
			c.Failf("tls", "a TLS collector cannot send after others spoke plain text: %v", err)
			return
		}
	}
	// Plain-text requests.
	for i := 0; i < 2+r.Intn(6); i++ {
		pn, err := net.DialTimeout("tcp", cm.http, 30*time.Second)
		if err != nil {
			cm.trouble("dial: %v", err)
			return
		}
		path := []string{"/", "/traces", "/traces/" + id.Trace.String(), "/aggregate"}[r.Intn(4)]
		proto := []string{"HTTP/1.1", "HTTP/1.0"}[r.Intn(2)]
		pn.SetDeadline(time.Now().Add(60 * time.Second))
		if r.Intn(2) == 0 {
			fmt.Fprintf(pn, "GET %s %s\r\nHost: x\r\nConnection: close\r\n\r\n", path, proto)
		} else {
			up := fmt.Sprintf(`[{"ID":{"Trace":"bad1000000000000","Span":"1","Parent":"0"},"Annotations":[],"Sub":null}]`)
			fmt.Fprintf(pn, "POST /traces/upload %s\r\nHost: x\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", proto, len(up), up)
		}
		b, _ := io.ReadAll(bufio.NewReader(pn))
		pn.Close()
		c.Count("plain-text requests", 1)
		if s := string(b); strings.Contains(s, secret) || strings.Contains(s, id.Trace.String()) || strings.Contains(s, " 200 ") {
			c.Failf("plain text", "the web port of a command with TLS answers a plain-text request: %s", cut(s))
		}
	}
	cm.eventually("shown", "what TLS collectors sent is shown", func() (bool, string) {
		ts, err := cm.shown()
		if err != nil {
			return false, err.Error()
		}
		good := 0
		for _, t := range ts {
			if uint64(t.ID.Trace)>>48 == 0xbad0 || uint64(t.ID.Trace)>>48 == 0xbad1 {
				c.Failf("plain text", "trace %v was sent in plain text to a command with TLS and is collected", t.ID.Trace)
			} else {
				good++
			}
		}
		return good == n+1, fmt.Sprintf("%d of %d", good, n+1)
	})
	c.Mark(id, n)
	c.Sample("%d plain-text collectors against TLS", n)
}

// cmdCorrupt starts the command with a damaged store file.
// cmdLinks follows the links of the pages that the command serves, as a
// browser does, from page to page.
func cmdLinks(c *mon.Case) {
	r := c.R
	tlsOn := r.Intn(2) == 0
	scheme := "http"
	args := []string{"--store-file=" + filepath.Join(c.Scratch(), "s.gob")}
	if tlsOn {
		crt, key := certFiles(c)
		args = append(args, "--tls-cert="+crt, "--tls-key="+key)
		scheme = "https"
	}
	kind := r.Intn(5)
	var cm *command
	var host string // where the browser goes
	for try := 0; ; try++ {
		port := 10000 + r.Intn(20000)
		listen := ""
		switch kind {
		case 0: // all addresses
			listen = fmt.Sprintf(":%d", port)
			host = fmt.Sprintf("localhost:%d", port)
		case 1:
			listen = fmt.Sprintf("localhost:%d", port)
			host = listen
		case 2:
			listen = fmt.Sprintf("[::1]:%d", port)
			host = listen
		}
		a := args
		if listen != "" {
			l, err := net.Listen("tcp", listen)
			if err != nil {
				if try < 20 {
					continue
				}
				kind = 3 // no such addresses here
				continue
			}
			l.Close()
			a = append(a[:len(a):len(a)], "--http="+listen)
		} else if kind == 4 {
			port = 10000 + r.Intn(20000)
			host = fmt.Sprintf("127.9.%d.%d:%d", r.Intn(250), 1+r.Intn(250), port)
			a = append(a[:len(a):len(a)], "--http="+host, "--url="+scheme+"://"+host+[]string{"", "/"}[r.Intn(2)])
		}
		cm = startCommand(c, tlsOn, a...)
		if host == "" {
			host = cm.http
		}
		cm.http = host
		if cm.ready() {
			break
		}
		if o := cm.out.String(); !cm.exited() {
			return
		} else if try < 25 && strings.Contains(o, "address already in use") {
			host = ""
			continue
		} else {
			c.Failf("start", "the command does not start with %q: %v %s", a, cm.err, cut(o))
			return
		}
	}
	rc := cm.collector()
	id := appdash.SpanID{Trace: ad.NZ(r), Span: ad.NZ(r)}
	sub := appdash.NewSpanID(id)
	for _, s := range []appdash.SpanID{id, sub} {
		t := time.Unix(1e9, 0)
		if err := rc.Collect(s, append(evAnns(appdash.SpanName("linked")), evAnns(appdash.Timespan{S: t, E: t.Add(time.Second)})...)...); err != nil {
			c.Failf("collect", "a collector cannot send: %v", err)
			return
		}
	}
	if !cm.eventually("shown", "a collected trace is shown", func() (bool, string) {
		ts, err := cm.shown()
		return err == nil && len(ts) == 1 && len(ts[0].Sub) == 1, fmt.Sprint(err, len(ts))
	}) {
		return
	}
	start := scheme + "://" + host + "/traces"
	todo, seen := []string{start}, map[string]string{start: "(start)"}
	followed := 0
	for len(todo) > 0 && followed < 40 {
		at := todo[0]
		todo = todo[1:]
		cl := plainClient
		if strings.HasPrefix(at, "https:") {
			cl = tlsClient
		}
		followed++
		rs, err := cl.Get(at)
		if err != nil {
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				c.Inconclusive("GET %s: %v", at, err)
			} else {
				c.Failf("link", "the link %s on page %s, served at %s, leads nowhere: %v", at, seen[at], host, err)
			}
			return
		}
		b, err := io.ReadAll(rs.Body)
		rs.Body.Close()
		mon.Beat()
		if err != nil || rs.StatusCode == 400 || rs.StatusCode == 404 {
			c.Failf("link", "the link %s on page %s, served at %s, leads to: status %d, %v, %s", at, seen[at], host, rs.StatusCode, err, cut(string(b)))
			return
		}
		if !strings.HasPrefix(rs.Header.Get("Content-Type"), "text/html") {
			continue
		}
		doc := parse(string(b))
		base := rs.Request.URL
		for _, n := range tag(doc, "base") {
			u, err := base.Parse(attr(n, "href"))
			if err != nil {
				c.Failf("base", "the page %s has a base that is not a URL: %v", at, err)
				return
			}
			base = u
			break
		}
		for _, n := range tag(doc, "a") {
			h, ok := attrOK(n, "href")
			if !ok || strings.HasPrefix(h, "#") || strings.HasPrefix(h, "javascript:") || strings.HasPrefix(h, "http") && !strings.Contains(h, "127.0.0.1") && !strings.Contains(h, "localhost") && !strings.Contains(h, host) {
				continue
			}
			u, err := base.Parse(h)
			if err != nil {
				c.Failf("link", "the page %s links to %q, which is not a URL: %v", at, h, err)
				return
			}
			u.Fragment = ""
			if s := u.String(); seen[s] == "" {
				seen[s] = at
				todo = append(todo, s)
			}
		}
	}
	led := false
	for s := range seen {
		led = led || strings.HasSuffix(s, "/traces/"+id.Trace.String())
	}
	if !led {
		c.Failf("link", "following the links from %s does not lead to trace %s: %v", start, id.Trace, seen)
	}
	c.Mark(kind, tlsOn, followed, len(seen), id)
	c.Count("links followed", followed)
	c.Sample("%s from %s: %d links followed", []string{"all addresses", "localhost", "IPv6", "its own address", "a configured URL"}[kind], start, followed)
}

func cmdCorrupt(c *mon.Case) {
	r := c.R
	file := filepath.Join(c.Scratch(), "store.gob")
	ms := appdash.NewMemoryStore()
	for _, id := range distinct(r, 1+r.Intn(4)) {
		collect(c, ms, genTrace(r, id, 1+r.Intn(10), true, jsonAnns(r)))
	}
	var good bytes.Buffer
	if err := ms.Write(&good); err != nil {
		panic("harness: " + err.Error())
	}
	var data []byte
	switch r.Intn(4) {
	case 0:
		data = good.Bytes()[:1+r.Intn(good.Len()-1)]
	case 1:
		data = make([]byte, 1+r.Intn(200))
		r.Read(data)
	case 2:
		data = bytes.Clone(good.Bytes())
		for k := 1 + r.Intn(5); k > 0; k-- {
			data[r.Intn(len(data))] ^= byte(1 + r.Intn(255))
		}
	case 3:
		data = []byte([]string{"{}", "[]\n", "\x00", "appdash", "<html>", strings.Repeat("\xff", 100)}[r.Intn(6)])
	}
	if _, err := appdash.NewMemoryStore().ReadFrom(bytes.NewReader(data)); err == nil {
		c.Count("damaged files that still load", 1)
		return // the damage cannot be noticed
	}
	write(file, data)
	c.Mark(string(data))
	dir := filepath.Dir(file)
	cm := startCommand(c, false, "--store-file="+file, "--persist-interval=1ms")
	t0 := time.Now()
	for !cm.exited() {
		if n, err := cm.dial(); err == nil {
			n.Close()
			time.Sleep(20 * time.Millisecond)
			now, err := os.ReadFile(file)
			c.Failf("corrupt", "the command serves with a store file that does not load; the file is as it was: %v (%v)", bytes.Equal(now, data), err)
			return
		}
		if time.Since(t0) > 100*time.Second {
			c.Inconclusive("the command neither serves nor exits")
			return
		}
		mon.Beat()
		time.Sleep(2 * time.Millisecond)
	}
	if cm.err == nil {
		c.Failf("corrupt", "with a store file that does not load the command exits with status 0: %s", cut(cm.out.String()))
	}
	now, err := os.ReadFile(file)
	if err != nil || !bytes.Equal(now, data) {
		c.Failf("corrupt", "the store file that does not load was changed: %v, %d bytes before, %d now", err, len(data), len(now))
	}
	c.Count("corrupt files refused", 1)
	es, _ := os.ReadDir(dir)
	var names []string
	for _, e := range es {
		names = append(names, e.Name())
	}
	sort.Strings(names)
	c.Sample("%d bytes, directory %v", len(data), names)
}
