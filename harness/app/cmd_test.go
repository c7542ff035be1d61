package app

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/ad"
	"verif/mon"
)

// lockedBuf collects a process's output.
type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *lockedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

// command is a running "appdash serve".
type command struct {
	c          *mon.Case
	p          *exec.Cmd
	out        *lockedBuf
	http, coll string
	tls        bool
	gone       chan struct{}
	killing    atomic.Bool
	err        error
}

// startCommand starts the command with the given arguments on addresses of
// its own.
func startCommand(c *mon.Case, tlsOn bool, args ...string) *command {
	// Loopback addresses nobody else uses, and a port outside the range for
	// outgoing connections.
	ip := func() string {
		return fmt.Sprintf("127.%d.%d.%d", 1+rand.Intn(250), rand.Intn(250), 1+rand.Intn(250))
	}
	cm := &command{c: c, out: &lockedBuf{}, tls: tlsOn, gone: make(chan struct{})}
	cm.http, cm.coll = fmt.Sprintf("%s:%d", ip(), 10000+rand.Intn(20000)), fmt.Sprintf("%s:%d", ip(), 10000+rand.Intn(20000))
	cm.p = exec.Command(os.Getenv("VERIF_CMD"), append([]string{"serve", "--http=" + cm.http, "--collector=" + cm.coll}, args...)...)
	cm.p.Stdout, cm.p.Stderr = cm.out, cm.out
	cm.p.Dir = c.Scratch()
	cm.p.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cm.p.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	c.Cleanup(cm.kill)
	go func() { cm.err = cm.p.Wait(); close(cm.gone) }()
	return cm
}

func (cm *command) exited() bool {
	select {
	case <-cm.gone:
		return true
	default:
		return false
	}
}

func (cm *command) kill() {
	cm.killing.Store(true)
	cm.p.Process.Kill()
	<-cm.gone
	if o := cm.out.String(); strings.Contains(o, "panic: ") || strings.Contains(o, "fatal error: ") {
		cm.c.Failf("crash", "the server command crashed: %s", cut(o[max(0, strings.Index(o, "panic: ")):]))
	}
}

// trouble judges an exchange with the command that failed: the command must
// not have exited by itself.
func (cm *command) trouble(format string, args ...any) {
	time.Sleep(200 * time.Millisecond)
	var ne net.Error
	switch err := lastErr(args); {
	case cm.killing.Load():
	case cm.exited():
		cm.c.Failf("exit", "the command exited by itself: %v %s", cm.err, cut(cm.out.String()))
	case errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF):
		// It runs, but it hung up (a handler that panics does that).
		cm.c.Failf("hung up", "the command hangs up without an answer: "+format, args...)
	case errors.As(err, &ne) && ne.Timeout():
		cm.c.Inconclusive(format, args...)
	default:
		cm.c.Inconclusive(format, args...)
	}
}

func lastErr(args []any) error {
	for i := len(args) - 1; i >= 0; i-- {
		if err, ok := args[i].(error); ok {
			return err
		}
	}
	return nil
}

// ready waits until the command accepts connections on both ports. It reports
// false if it exited.
func (cm *command) ready() bool {
	t0 := time.Now()
	up := func(addr string) bool {
		n, err := net.DialTimeout("tcp", addr, 5*time.Second)
		if err == nil {
			n.Close()
		}
		return err == nil
	}
	for !up(cm.http) || !up(cm.coll) {
		if cm.exited() {
			return false
		}
		if time.Since(t0) > 100*time.Second {
			cm.c.Inconclusive("the command does not listen after %v: %s", time.Since(t0), cut(cm.out.String()))
			return false
		}
		mon.Beat()
		time.Sleep(3 * time.Millisecond)
	}
	return true
}

// serve starts the command until it serves (addresses may be taken).
func serve(c *mon.Case, tlsOn bool, args ...string) *command {
	for try := 0; ; try++ {
		cm := startCommand(c, tlsOn, args...)
		if cm.ready() {
			c.Count("processes served", 1)
			return cm
		}
		o := cm.out.String()
		if try < 5 && strings.Contains(o, "address already in use") {
			continue
		}
		if cm.exited() {
			c.Failf("start", "the command does not start with %q: %v %s", args, cm.err, cut(o))
		}
		return nil
	}
}

func (cm *command) dial() (net.Conn, error) {
	if cm.tls {
		return tls.DialWithDialer(&net.Dialer{Timeout: 30 * time.Second}, "tcp", cm.http, &tls.Config{InsecureSkipVerify: true})
	}
	return net.DialTimeout("tcp", cm.http, 30*time.Second)
}

func (cm *command) collector() *appdash.RemoteCollector {
	var rc *appdash.RemoteCollector
	if cm.tls {
		rc = appdash.NewTLSRemoteCollector(cm.coll, &tls.Config{InsecureSkipVerify: true})
	} else {
		rc = appdash.NewRemoteCollector(cm.coll)
	}
	cm.c.Cleanup(func() { rc.Close() })
	return rc
}

var (
	plainClient = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 4, IdleConnTimeout: 10 * time.Second}}
	tlsClient   = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 4, IdleConnTimeout: 10 * time.Second,
		TLSClientConfig: &tls.Config{InsecureSkipVerify: true}}}
)

func (cm *command) request(method, target, body string) (resp, error) {
	s, cl := "http://", plainClient
	if cm.tls {
		s, cl = "https://", tlsClient
	}
	rq, err := http.NewRequest(method, s+cm.http+target, strings.NewReader(body))
	if err != nil {
		panic("harness: " + err.Error())
	}
	rs, err := cl.Do(rq)
	if err != nil {
		return resp{}, err
	}
	defer rs.Body.Close()
	b, err := io.ReadAll(rs.Body)
	return resp{rs.StatusCode, rs.Header.Get("Content-Type"), string(b), rs.Header}, err
}

// get implements what exportsOf needs.
func (cm *command) get(target string) resp {
	p, err := cm.request("GET", target, "")
	if err != nil {
		return resp{status: 599, body: err.Error()}
	}
	return p
}

// shown reads every trace the command's web UI shows.
func (cm *command) shown() ([]*appdash.Trace, error) {
	p, err := cm.request("GET", "/traces", "")
	if err != nil {
		return nil, err
	}
	if !p.ok() {
		return nil, fmt.Errorf("status %d: %s", p.status, cut(p.body))
	}
	var out []*appdash.Trace
	for _, n := range tag(parse(p.body), "input") {
		if j, ok := attrOK(n, "data-json-trace"); ok {
			t := new(appdash.Trace)
			if err := json.Unmarshal([]byte(j), t); err != nil {
				return nil, err
			}
			out = append(out, t)
		}
	}
	return out, nil
}

// eventually polls the running command. The condition counts as never true
// only after the command has answered many polls over a long time.
func (cm *command) eventually(key, what string, cond func() (bool, string)) bool {
	t0 := time.Now()
	answered := 0
	var why string
	for d := time.Millisecond; ; {
		var ok bool
		ok, why = cond()
		if ok {
			return true
		}
		answered++
		mon.Beat()
		if cm.exited() {
			cm.c.Failf("exit", "the command exited by itself: %v %s", cm.err, cut(cm.out.String()))
			return false
		}
		if t := time.Since(t0); t > 20*time.Second && answered > 100 {
			cm.c.Failf(key, "%s: not so after %v and %d polls: %s\noutput: %s", what, t.Round(time.Second), answered, why, cut(cm.out.String()))
			return false
		} else if t > 200*time.Second {
			cm.c.Inconclusive("gave up waiting: %s", what)
			return false
		}
		time.Sleep(d)
		d = min(2*d, 100*time.Millisecond)
	}
}

// certFiles writes a key pair.
func certFiles(c *mon.Case) (cert, key string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	tm := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(4e9, 0)}
	der, err := x509.CreateCertificate(crand.Reader, tm, tm, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	kb, err := x509.MarshalECPrivateKey(k)
	if err != nil {
		panic(err)
	}
	d := c.Scratch()
	cert, key = filepath.Join(d, "cert.pem"), filepath.Join(d, "key.pem")
	write(cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
	write(key, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb}))
	return
}

func write(f string, b []byte) {
	if err := os.WriteFile(f, b, 0o644); err != nil {
		panic("harness: " + err.Error())
	}
}

// exchange sends one raw request over a connection and reads the response.
func exchange(n net.Conn, br *bufio.Reader, method string, raw []byte) (resp, bool, error) {
	n.SetDeadline(time.Now().Add(100 * time.Second))
	if _, err := n.Write(raw); err != nil {
		return resp{}, true, err
	}
	rs, err := http.ReadResponse(br, &http.Request{Method: method})
	if err != nil {
		return resp{}, true, err
	}
	b, err := io.ReadAll(rs.Body)
	rs.Body.Close()
	return resp{rs.StatusCode, rs.Header.Get("Content-Type"), string(b), rs.Header}, rs.Close, err
}

// loadStore reads a store file; a missing one holds nothing.
func loadStore(file string) (*appdash.MemoryStore, error) {
	ms := appdash.NewMemoryStore()
	b, err := os.ReadFile(file)
	if errors.Is(err, os.ErrNotExist) {
		return ms, nil
	}
	if err != nil {
		return nil, err
	}
	_, err = ms.ReadFrom(bytes.NewReader(b))
	return ms, err
}

func canonTraces(ts []*appdash.Trace) string { return ad.CanonAll(ts) }
