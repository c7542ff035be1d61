package ad

import (
	"context"
	"errors"
	"hash/fnv"
	"io"
	"net"
	"os"
	"syscall"
)

// fault is an error that looks like one of many: code may treat errors
// differently that it should treat the same.
type fault struct {
	msg                string
	timeout, temporary bool
	wraps              error
}

func (f *fault) Error() string   { return f.msg }
func (f *fault) Timeout() bool   { return f.timeout }
func (f *fault) Temporary() bool { return f.temporary }
func (f *fault) Unwrap() error   { return f.wraps }

var faultKinds = []error{nil, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, context.Canceled, context.DeadlineExceeded, net.ErrClosed, os.ErrDeadlineExceeded,
	os.ErrNotExist, os.ErrPermission, os.ErrClosed, syscall.EPIPE, syscall.ECONNRESET, syscall.ECONNREFUSED, syscall.EAGAIN, syscall.EINTR, syscall.ENOSPC}

// Fault returns an error with the given text, of the kind that n selects:
// a plain one, a network timeout, one that wraps a well-known error, ...
func Fault(n int, msg string) error {
	if n < 0 {
		n = -(n + 1)
	}
	switch n % 4 {
	case 0:
		return errors.New(msg)
	case 1:
		return &net.OpError{Op: "write", Net: "tcp", Err: &fault{msg: msg, timeout: n/4%2 == 0, temporary: n/8%2 == 0}}
	default:
		return &fault{msg: msg, timeout: n/4%2 == 0, temporary: n/8%2 == 0, wraps: faultKinds[n/16%len(faultKinds)]}
	}
}

// FaultOf is Fault with the kind depending on the text.
func FaultOf(msg string) error {
	h := fnv.New32a()
	io.WriteString(h, msg)
	return Fault(int(h.Sum32()>>1), msg)
}
