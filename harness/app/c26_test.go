package app

import (
	"bufio"
	"encoding/base64"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/mon"
)

func init() {
	mon.Reg("C26", "auth", 40, 800, cmdAuth)
	mon.Reg("C26", "bad-setting", 16, 200, cmdBadAuth)
}

func credential(r *rand.Rand, user bool) string {
	parts := []string{"admin", "a", "u", "p", "päss", "日本", " ", "x y", "\xff\xfe", "%41", "+", "/", "=", "&", "\"q\"", "'", "\t", "A", "0", "Basic", "Pass word", strings.Repeat("long", 60)}
	if !user {
		parts = append(parts, ":", "::", "a:b")
	}
	s := ""
	for n := 1 + r.Intn(3); n > 0; n-- {
		s += parts[r.Intn(len(parts))]
	}
	if s[0] == '"' {
		s = "x" + s // the command line parser unquotes such values
	}
	return s
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

// nearMiss is an authorization header line (or other credentials) that is not
// exactly user and password.
func nearMiss(r *rand.Rand, u, p string) string {
	flip := func(s string) string {
		b := []byte(s)
		i := r.Intn(len(b))
		b[i] ^= 1 << uint(r.Intn(7))
		return string(b)
	}
	basic := func(s string) string {
		if s == u+":"+p {
			s += "x"
		}
		return "Authorization: Basic " + b64(s) + "\r\n"
	}
	switch r.Intn(32) {
	case 28, 29, 30, 31: // the encoded form in other letters
		b := []byte(b64(u + ":" + p))
		for k, n := 0, 1+r.Intn(3); k < 400 && n > 0; k++ {
			i := r.Intn(len(b))
			if b[i] >= 'a' && b[i] <= 'z' || b[i] >= 'A' && b[i] <= 'Z' {
				b[i] ^= 0x20
				n--
			}
		}
		switch r.Intn(8) {
		case 0:
			return "Authorization: Basic " + strings.ToLower(b64(u+":"+p)) + "\r\n"
		case 1:
			return "Authorization: Basic " + strings.ToUpper(b64(u+":"+p)) + "\r\n"
		}
		return "Authorization: Basic " + string(b) + "\r\n"
	case 0:
		return ""
	case 1:
		return "Authorization: \r\n"
	case 2:
		return "Authorization: Basic \r\n"
	case 3:
		return "Authorization: Basic\r\n"
	case 4:
		return "Authorization: " + b64(u+":"+p) + "\r\n"
	case 5:
		return "Authorization: Bearer " + b64(u+":"+p) + "\r\n"
	case 6:
		return "Authorization: Digest username=\"" + b64(u) + "\", response=\"" + b64(p) + "\"\r\n"
	case 7:
		return "Proxy-Authorization: Basic " + b64(u+":"+p) + "\r\n"
	case 8:
		return "Cookie: Authorization=Basic " + b64(u+":"+p) + "\r\n"
	case 9:
		return "X-Authorization: Basic " + b64(u+":"+p) + "\r\nX-Forwarded-For: 127.0.0.1\r\nX-Forwarded-User: admin\r\n"
	case 10:
		return basic(p + ":" + u)
	case 11:
		return basic(u)
	case 12:
		return basic(u + ":")
	case 13:
		return basic(":" + p)
	case 14:
		return basic(":")
	case 15:
		return basic(strings.ToUpper(u) + ":" + p)
	case 16:
		return basic(u + ":" + strings.ToLower(p))
	case 17:
		return basic(u + ":" + p + "x")
	case 18:
		return basic(u + ":" + p[:len(p)-1])
	case 19:
		return basic("x" + u + ":" + p)
	case 20:
		return basic(u[1:] + ":" + p)
	case 21:
		return basic(flip(u) + ":" + p)
	case 22:
		return basic(u + ":" + flip(p))
	case 23:
		return basic(u + ":" + p + "\x00")
	case 24:
		return basic(u + p)
	case 25:
		return basic(u + " :" + p)
	case 26:
		return basic(flip(u + ":" + p))
	}
	h := b64(u + ":" + p)
	i := r.Intn(len(h))
	for h[i] == '=' {
		i--
	}
	return "Authorization: Basic " + h[:i] + "\r\n" // cut off
}

// sameCreds tells whether a lenient reader would find the credentials in the
// near miss after all (a cut header that only loses padding).
func sameCreds(line, u, p string) bool {
	rest, ok := strings.CutPrefix(line, "Authorization: Basic ")
	if !ok {
		return false
	}
	b, err := base64.RawStdEncoding.DecodeString(strings.TrimRight(strings.TrimSpace(rest), "="))
	return err == nil && string(b) == u+":"+p
}

// otherHeaders are headers that say nothing about who asks.
var otherHeaders = []string{
	"Access-Control-Request-Method: GET", "Access-Control-Request-Method: POST", "Access-Control-Request-Headers: authorization", "Origin: http://x", "Origin: null",
	"X-Forwarded-For: 127.0.0.1", "X-Real-Ip: 127.0.0.1", "Forwarded: for=127.0.0.1", "X-Forwarded-Proto: https", "X-Forwarded-User: admin", "X-Forwarded-Host: localhost", "Remote-User: admin",
	"X-Http-Method-Override: OPTIONS", "X-Original-Url: /", "X-Rewrite-Url: /static/", "X-Requested-With: XMLHttpRequest", "Upgrade: websocket", "Sec-Fetch-Mode: cors",
	"User-Agent: kube-probe/1.29", "User-Agent: ELB-HealthChecker/2.0", "User-Agent: Go-http-client/1.1", "Referer: http://x/traces", "Cookie: session=1; auth=1", "Accept: text/html", "Accept: application/json",
	"Content-Type: application/json", "Range: bytes=0-3", "If-None-Match: *", "If-Modified-Since: Thu, 01 Jan 2099 00:00:00 GMT", "Cache-Control: no-cache", "Purpose: prefetch", "Sec-Purpose: prefetch",
	"X-Api-Key: 1", "Span-ID: 1/2", "Parent-Span-ID: 1/2", "X-Health-Check: 1", "Accept-Encoding: gzip",
}

func cmdAuth(c *mon.Case) {
	r := c.R
	u, p := credential(r, true), credential(r, false)
	args := []string{"--basic-auth=" + u + ":" + p, "--store-file=" + filepath.Join(c.Scratch(), "s.gob")}
	if r.Intn(3) == 0 {
		args = append(args, "--delete-after=0")
	}
	tlsOn := r.Intn(4) == 0
	if tlsOn {
		crt, key := certFiles(c)
		args = append(args, "--tls-cert="+crt, "--tls-key="+key)
	}
	cm := serve(c, tlsOn, args...)
	if cm == nil {
		return
	}
	const secret = "zqsecretqz"
	ids := []appdash.ID{appdash.ID(0xfeed000000000000 + uint64(r.Uint32())), appdash.ID(0xfeed000000000000 + uint64(r.Uint32())<<8)}
	rc := cm.collector()
	ref, rs := memApp()
	for _, id := range ids {
		sp := appdash.SpanID{Trace: id, Span: appdash.ID(1 + r.Intn(1000))}
		as := append(evAnns(appdash.SpanName(secret+"name")), appdash.Annotation{Key: secret + "key", Value: []byte(secret + "value")})
		if err := rc.Collect(sp, as...); err != nil {
			cm.trouble("collect: %v", err)
			return
		}
		rs.Collect(sp, as...)
	}
	good := "Authorization: Basic " + b64(u+":"+p) + "\r\n"
	ask := func(method, target, hdr, body string) (resp, bool) {
		n, err := cm.dial()
		if err != nil {
			c.Inconclusive("dial: %v", err)
			return resp{}, false
		}
		defer n.Close()
		raw := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: %d\r\n%s\r\n%s", method, target, len(body), hdr, body)
		rs, _, err := exchange(n, bufio.NewReader(n), method, []byte(raw))
		if err != nil {
			cm.trouble("%s %s: %v", method, target, err)
			return resp{}, false
		}
		return rs, true
	}
	list := func() (map[string]bool, bool) {
		rs, ok := ask("GET", "/traces", good, "")
		if !ok {
			return nil, false
		}
		if !rs.ok() {
			c.Failf("refused", "with the credentials %q:%q the list is answered with %d", u, p, rs.status)
			return nil, false
		}
		m := map[string]bool{}
		ls, _ := listed(c, rs)
		for _, l := range ls {
			m[l] = true
		}
		return m, true
	}
	if !cm.eventually("served", "the collected traces are listed", func() (bool, string) {
		m, ok := list()
		return !ok || len(m) == len(ids), fmt.Sprint(len(m))
	}) || c.Failed() {
		return
	}
	uploaded := func() appdash.ID { return appdash.ID(0xbad0000000000000 + uint64(r.Uint32())) }
	paths := []string{"/", "/traces", "/traces/" + ids[0].String(), "/traces/" + ids[0].String() + "/profile", "/traces/" + ids[1].String() + "/1", "/aggregate", "/dashboard", "/dashboard/data",
		"/static/", "/static/js/x.js", "/favicon.ico", "/debug/pprof/", "/debug/vars", "/nope", "//", "//traces", "/traces/../traces", "/static/../traces", "/traces?show=" + ids[0].String(),
		"/%74races", "/traces/", "/traces?user=" + "x", "/traces/upload"}
	permalink := func(id appdash.ID) string {
		return permalinkTo(id, fmt.Sprintf(`{"ID":{"Trace":%q,"Span":"1","Parent":"0"},"Annotations":[],"Sub":null}`, id))
	}
	upload := func(id appdash.ID) string {
		return fmt.Sprintf(`[{"ID":{"Trace":%q,"Span":"1","Parent":"0"},"Annotations":[],"Sub":null}]`, id)
	}
	clients := 1 + r.Intn(3)
	type rq struct {
		method, target, hdr, body string
		auth                      bool
	}
	scripts := make([][]rq, clients)
	for i := range scripts {
		for n := 20 + r.Intn(30); n > 0; n-- {
			q := rq{method: "GET", target: paths[r.Intn(len(paths))], auth: r.Intn(4) == 0}
			if r.Intn(3) == 0 {
				q.method = []string{"POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "PROPFIND", "get", "OPTIONS", "OPTIONS"}[r.Intn(11)]
			}
			switch r.Intn(5) {
			case 0:
				q.method, q.target, q.body = "POST", "/traces/upload", upload(uploaded())
			case 1:
				q.method, q.target = "GET", permalink(uploaded())
			}
			if q.auth {
				q.hdr = good
				if q.method != "GET" || strings.Contains(q.target, "permalink") {
					q.method, q.target, q.body = "GET", "/traces/"+ids[0].String(), ""
				}
			} else {
				for {
					if q.hdr = nearMiss(r, u, p); !sameCreds(q.hdr, u, p) {
						break
					}
				}
				// What else is in the request doesn't matter.
				if r.Intn(2) == 0 {
					for n := 1 + r.Intn(5); n > 0; n-- {
						q.hdr += otherHeaders[r.Intn(len(otherHeaders))] + "\r\n"
					}
				}
				if r.Intn(10) == 0 && !strings.Contains(q.target, "?") {
					q.target += "?authorization=Basic+" + b64(u+":"+p) + "&user=" + "u"
				}
				if r.Intn(12) == 0 && q.target[0] == '/' {
					q.target = "http://" + cm.http + q.target
				}
			}
			scripts[i] = append(scripts[i], q)
			c.Mark(q.method, q.target, q.hdr)
		}
	}
	var wg sync.WaitGroup
	for i := range scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var n net.Conn
			var br *bufio.Reader
			defer func() {
				if n != nil {
					n.Close()
				}
			}()
			prev := "none"
			given := map[string]string{} // what the server gave this client, to be sent back
			for k, q := range scripts[i] {
				if k%3 != 0 {
					var back []string
					for h := range given {
						back = append(back, h)
					}
					sort.Strings(back)
					for _, h := range back {
						q.hdr += h + ": " + given[h] + "\r\n"
					}
				}
				if n == nil {
					var err error
					if n, err = cm.dial(); err != nil {
						c.Inconclusive("dial: %v", err)
						return
					}
					br = bufio.NewReader(n)
				}
				raw := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: %s\r\n%s", q.method, q.target, cm.http, q.hdr)
				if q.body != "" {
					raw += fmt.Sprintf("Content-Length: %d\r\n", len(q.body))
				}
				rs, closed, err := exchange(n, br, q.method, []byte(raw+"\r\n"+q.body))
				if err != nil {
					c.Failf("answer", "%s %s with %q gets no response: %v", q.method, q.target, q.hdr, err)
					return
				}
				if q.auth {
					c.Count("requests with the credentials", 1)
					if want := get(ref, q.target); rs.status != want.status {
						c.Failf("refused", "GET %s with the credentials %q:%q is answered with %d, without authentication with %d (request before on the connection: %s)", q.target, u, p, rs.status, want.status, prev)
					}
					if q.target == "/traces/"+ids[0].String() && !strings.Contains(rs.body, secret) {
						c.Failf("refused", "the page of a trace lacks its data with the credentials")
					}
				} else {
					c.Count("requests without", 1)
					if rs.status != 401 {
						c.Failf("let in", "%s %s with %q is answered with %d for the credentials %q:%q (request before on the connection: %s)", q.method, q.target, q.hdr, rs.status, u, p, prev)
					}
					if ch := rs.header.Get("WWW-Authenticate"); rs.status == 401 && !strings.HasPrefix(strings.ToLower(ch), "basic ") {
						c.Failf("challenge", "%s %s without the credentials gets the challenge %q", q.method, q.target, ch)
					}
					all := rs.body + fmt.Sprint(rs.header)
					if strings.Contains(all, secret) || strings.Contains(all, ids[0].String()) || strings.Contains(all, ids[1].String()) {
						c.Failf("revealed", "%s %s without the credentials reveals %s", q.method, q.target, cut(all))
					}
				}
				for _, ck := range (&http.Response{Header: rs.header}).Cookies() {
					given["Cookie"] = ck.Name + "=" + ck.Value
					c.Count("cookies kept", 1)
				}
				for h := range rs.header {
					if strings.HasPrefix(h, "X-") {
						given[h] = rs.header.Get(h)
					}
				}
				prev = fmt.Sprintf("%s %s %q", q.method, q.target, q.hdr)
				if closed {
					n.Close()
					n = nil
				}
			}
		}()
	}
	wg.Wait()
	if m, ok := list(); ok {
		for l := range m {
			if strings.HasPrefix(l, "bad0") {
				c.Failf("changed", "a request without the credentials stored trace %s", l)
			}
		}
		if len(m) < len(ids) {
			c.Failf("changed", "%d of %d traces left after requests without the credentials", len(m), len(ids))
		}
	}
	// With them, an upload works.
	id := uploaded()
	if rs, ok := ask("POST", "/traces/upload", good, upload(id)); ok && rs.bad() {
		c.Failf("refused", "an upload with the credentials is answered with %d", rs.status)
	} else if m, ok2 := list(); ok && ok2 && !m[id.String()] {
		c.Failf("refused", "an upload with the credentials stores nothing")
	}
	c.Sample("credentials %q:%q tls %v, %d clients", u, p, tlsOn, clients)
}

func cmdBadAuth(c *mon.Case) {
	r := c.R
	var set string
	switch c.Idx % 5 {
	case 0:
		set = strings.ReplaceAll(credential(r, true), ":", "")
	case 1:
		set = ":" + credential(r, false)
	case 2:
		set = credential(r, true) + ":"
	case 3:
		set = ":"
	case 4:
		set = " "
	}
	if set[0] == '"' {
		set = "x" + set
	}
	c.Mark(set)
	args := []string{"--basic-auth=" + set, "--store-file=" + filepath.Join(c.Scratch(), "s.gob")}
	if r.Intn(2) == 0 {
		args = append(args, "--sample-data")
	}
	cm := startCommand(c, false, args...)
	t0 := time.Now()
	for !cm.exited() {
		if n, err := cm.dial(); err == nil {
			rs, _, err := exchange(n, bufio.NewReader(n), "GET", []byte("GET /traces HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n"))
			n.Close()
			if err == nil && rs.status != 401 {
				c.Failf("unprotected", "started with --basic-auth=%q, GET /traces without credentials is answered with %d", set, rs.status)
				return
			} else if err == nil {
				c.Failf("not refused", "the command serves with --basic-auth=%q", set)
				return
			}
		}
		if time.Since(t0) > 100*time.Second {
			c.Inconclusive("the command neither serves nor exits with --basic-auth=%q", set)
			return
		}
		mon.Beat()
		time.Sleep(3 * time.Millisecond)
	}
	if strings.Contains(cm.out.String(), "address already in use") {
		c.Count("skipped, address in use", 1)
		return
	}
	c.Count("bad settings refused", 1)
	if cm.err == nil {
		c.Failf("not refused", "with --basic-auth=%q the command exits with status 0: %s", set, cut(cm.out.String()))
	}
	c.Sample("setting %q", set)
}
