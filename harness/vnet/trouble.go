package vnet

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"syscall"
)

// Trouble is a reply that a server in trouble, something between it and us, or the network gives.
func Trouble(g *rand.Rand) Reply {
	if g.IntN(3) == 0 {
		op := func(what string, err error) error { return &net.OpError{Op: what, Net: "tcp", Err: err} }
		return Reply{Err: []error{
			op("dial", os.NewSyscallError("connect", syscall.ECONNREFUSED)),
			op("read", os.NewSyscallError("read", syscall.ECONNRESET)),
			op("write", os.NewSyscallError("write", syscall.EPIPE)),
			op("dial", os.NewSyscallError("connect", syscall.ETIMEDOUT)),
			op("dial", os.NewSyscallError("connect", syscall.EHOSTUNREACH)),
			op("dial", &net.DNSError{Err: "no such host", Name: "endpoint", IsNotFound: true}),
			op("dial", &net.DNSError{Err: "i/o timeout", Name: "endpoint", IsTimeout: true, IsTemporary: true}),
			op("read", os.ErrDeadlineExceeded),
			io.EOF, io.ErrUnexpectedEOF,
			errors.New("http: server closed idle connection"),
			errors.New("net/http: TLS handshake timeout"),
		}[g.IntN(12)]}
	}
	code := []int{201, 202, 204, 206, 400, 401, 403, 404, 405, 406, 408, 409, 410, 411, 413, 415, 417, 418, 421, 422, 423, 425, 429, 431, 500, 501, 502, 503, 504, 507, 511, 520, 529, 599}[g.IntN(34)]
	rep := Reply{Code: code, Header: http.Header{}, Body: []byte([]string{"", "OK", "{}", `{"errors":{}}`, "<html>" + http.StatusText(code) + "</html>", "too many"}[g.IntN(6)])}
	if code == 204 {
		rep.Body = nil
	}
	if g.IntN(2) == 0 {
		rep.Header.Set("Retry-After", fmt.Sprint(g.IntN(3)))
	}
	if g.IntN(4) == 0 {
		rep.Header.Set("Connection", "close")
	}
	if g.IntN(6) == 0 {
		rep.ReadErr = io.ErrUnexpectedEOF
	}
	return rep
}
