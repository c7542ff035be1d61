package core

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"net"
	"sync"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/ad"
)

// An encoder and decoder of the published message format, written from the
// .proto file and the encoding rules alone.

func putTag(b []byte, field, wt int) []byte {
	return binary.AppendUvarint(b, uint64(field)<<3|uint64(wt))
}

func putFixed(b []byte, field int, v uint64) []byte {
	return binary.LittleEndian.AppendUint64(putTag(b, field, 1), v)
}

func putBytes(b []byte, field int, v []byte) []byte {
	return append(binary.AppendUvarint(putTag(b, field, 2), uint64(len(v))), v...)
}

// encOpt varies an encoding within what the format allows.
type encOpt struct {
	omitParent bool // leave out a zero parent
	omitValue  bool // leave out empty values
	r          *mrand.Rand
}

func (o encOpt) unknown(b []byte) []byte {
	if o.r == nil || o.r.Intn(6) > 0 {
		return b
	}
	f := 100 + o.r.Intn(50)
	switch o.r.Intn(4) {
	case 0:
		return binary.AppendUvarint(putTag(b, f, 0), o.r.Uint64())
	case 1:
		return putFixed(b, f, o.r.Uint64())
	case 2:
		return putBytes(b, f, []byte(ad.Str(o.r)))
	}
	return binary.LittleEndian.AppendUint32(putTag(b, f, 5), o.r.Uint32())
}

// encBody encodes a message without its length.
func encBody(id appdash.SpanID, as []ad.Ann, o encOpt) []byte {
	var sp []byte
	sp = putTag(sp, 1, 3)
	fs := []func(){
		func() { sp = putFixed(sp, 2, uint64(id.Trace)) },
		func() { sp = putFixed(sp, 3, uint64(id.Span)) },
		func() {
			if id.Parent != 0 || !o.omitParent {
				sp = putFixed(sp, 4, uint64(id.Parent))
			}
		},
	}
	perm := []int{0, 1, 2}
	if o.r != nil {
		perm = o.r.Perm(3)
	}
	for _, i := range perm {
		fs[i]()
		sp = o.unknown(sp)
	}
	sp = putTag(sp, 1, 4)
	var an []byte
	for _, a := range as {
		an = putTag(an, 5, 3)
		k := func() { an = putBytes(an, 6, []byte(a.Key)) }
		v := func() {
			if len(a.Value) > 0 || !o.omitValue {
				an = putBytes(an, 7, a.Value)
			}
		}
		if o.r != nil && o.r.Intn(3) == 0 {
			v()
			k()
		} else {
			k()
			v()
		}
		an = o.unknown(an)
		an = putTag(an, 5, 4)
	}
	if o.r != nil && o.r.Intn(4) == 0 {
		return o.unknown(append(an, sp...))
	}
	return o.unknown(append(sp, an...))
}

func frame(body []byte) []byte {
	return append(binary.AppendUvarint(nil, uint64(len(body))), body...)
}

func enc(id appdash.SpanID, as []ad.Ann) []byte { return frame(encBody(id, as, encOpt{})) }

var errWire = fmt.Errorf("not a valid message")

type field struct {
	num, wt int
	v       uint64
	b       []byte
	sub     []field
}

// decFields decodes fields until the end of b or the end tag of group.
func decFields(b []byte, group int, depth int, lenient bool) ([]field, []byte, error) {
	var out []field
	for {
		if len(b) == 0 {
			if group != 0 {
				return nil, nil, errWire
			}
			return out, nil, nil
		}
		t, n := binary.Uvarint(b)
		if n <= 0 || !lenient && (t>>3 == 0 || t>>3 > 1<<29-1) || depth > 50 {
			return nil, nil, errWire
		}
		b = b[n:]
		f := field{num: int(t >> 3), wt: int(t & 7)}
		switch f.wt {
		case 0:
			v, n := binary.Uvarint(b)
			if n <= 0 {
				return nil, nil, errWire
			}
			f.v, b = v, b[n:]
		case 1:
			if len(b) < 8 {
				return nil, nil, errWire
			}
			f.v, b = binary.LittleEndian.Uint64(b), b[8:]
		case 5:
			if len(b) < 4 {
				return nil, nil, errWire
			}
			f.v, b = uint64(binary.LittleEndian.Uint32(b)), b[4:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || l > uint64(len(b)-n) {
				return nil, nil, errWire
			}
			f.b, b = b[n:n+int(l)], b[n+int(l):]
		case 3:
			sub, rest, err := decFields(b, f.num, depth+1, lenient)
			if err != nil {
				return nil, nil, err
			}
			f.sub, b = sub, rest
		case 4:
			if group == 0 || f.num != group && !lenient {
				return nil, nil, errWire
			}
			return out, b, nil
		default:
			return nil, nil, errWire
		}
		out = append(out, f)
	}
}

// decBody decodes a message body.
func decBody(b []byte) (appdash.SpanID, []ad.Ann, error) { return decBodyL(b, false) }

// decBodyL optionally lets a group end with another group's end tag.
func decBodyL(b []byte, lenient bool) (id appdash.SpanID, as []ad.Ann, err error) {
	fs, _, err := decFields(b, 0, 0, lenient)
	if err != nil {
		return id, nil, err
	}
	var tr, sp bool
	for _, f := range fs {
		switch {
		case f.num == 1 && f.wt == 3:
			for _, g := range f.sub {
				if g.wt != 1 {
					continue
				}
				switch g.num {
				case 2:
					id.Trace, tr = appdash.ID(g.v), true
				case 3:
					id.Span, sp = appdash.ID(g.v), true
				case 4:
					id.Parent = appdash.ID(g.v)
				}
			}
		case f.num == 5 && f.wt == 3:
			var a ad.Ann
			key := false
			for _, g := range f.sub {
				if g.wt != 2 {
					continue
				}
				switch g.num {
				case 6:
					a.Key, key = string(g.b), true
				case 7:
					a.Value = append([]byte(nil), g.b...)
				}
			}
			if !key {
				return id, nil, errWire
			}
			as = append(as, a)
		}
	}
	if !tr || !sp {
		return id, nil, errWire
	}
	return id, as, nil
}

// split cuts a byte stream into framed message bodies and the remaining tail.
func split(b []byte) (bodies [][]byte, tail []byte) {
	for {
		l, n := binary.Uvarint(b)
		if n <= 0 || l > uint64(len(b)-n) {
			return bodies, b
		}
		bodies = append(bodies, b[n:n+int(l)])
		b = b[n+int(l):]
	}
}

// ---------------------------------------------------------------------------

var (
	certOnce sync.Once
	tlsCert  tls.Certificate
	tlsPool  *x509.CertPool
)

func makeCert() {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	tm := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(4e9, 0),
		IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, tm, tm, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	leaf, _ := x509.ParseCertificate(der)
	tlsPool = x509.NewCertPool()
	tlsPool.AddCert(leaf)
	tlsCert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

func serverTLS() *tls.Config {
	certOnce.Do(makeCert)
	return &tls.Config{Certificates: []tls.Certificate{tlsCert}}
}

func clientTLS() *tls.Config {
	certOnce.Do(makeCert)
	return &tls.Config{RootCAs: tlsPool}
}

func listen(addr string) (net.Listener, error) { return net.Listen("tcp", addr) }

// fragConn returns short reads and counts what it saw.
type fragConn struct {
	net.Conn
	mu     sync.Mutex
	r      *mrand.Rand
	max    int
	closed chan struct{}
	once   sync.Once
	reads  int
}

func (f *fragConn) Read(b []byte) (int, error) {
	f.mu.Lock()
	n := len(b)
	if f.max > 0 && n > 1 {
		m := 1 + f.r.Intn(f.max)
		if f.r.Intn(20) == 0 {
			m = 1 + f.r.Intn(5000)
		}
		if m < n {
			n = m
		}
	}
	f.reads++
	f.mu.Unlock()
	return f.Conn.Read(b[:n])
}

func (f *fragConn) Close() error {
	f.once.Do(func() { close(f.closed) })
	return f.Conn.Close()
}

// fragListener wraps the accepted connections and counts accepts.
type fragListener struct {
	net.Listener
	mu    sync.Mutex
	r     *mrand.Rand
	max   int
	conns []*fragConn
}

func (l *fragListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	f := &fragConn{Conn: c, r: randNew(l.r.Int63()), max: l.max, closed: make(chan struct{})}
	l.conns = append(l.conns, f)
	return f, nil
}

// allClosed reports whether n connections were accepted and all were closed
// by the server.
func (l *fragListener) allClosed(n int) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.conns) < n {
		return false
	}
	for _, c := range l.conns {
		select {
		case <-c.closed:
		default:
			return false
		}
	}
	return true
}

// reset closes a TCP connection abruptly.
func reset(c net.Conn) {
	if t, ok := c.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.Close()
}

var _ = io.EOF
