// Package manners stands in for github.com/braintree/manners in the virtual-time
// harness: a server registers its handler under its address instead of opening a
// socket (a goroutine blocked in accept(2) would keep the virtual clock from moving).
// The end-to-end harness uses the real package.
package manners

import (
	"net"
	"net/http"
	"sync"
)

var (
	mu    sync.Mutex
	byKey = map[string]*GracefulServer{}
)

// Lookup returns the handler listening on addr, or nil.
func Lookup(addr string) http.Handler {
	mu.Lock()
	defer mu.Unlock()
	if s := byKey[addr]; s != nil && !s.closed {
		return s.Server.Handler
	}
	return nil
}

// LookupAny returns the handler registered on addr even after Close.
func LookupAny(addr string) http.Handler {
	mu.Lock()
	defer mu.Unlock()
	if s := byKey[addr]; s != nil {
		return s.Server.Handler
	}
	return nil
}

type Options struct {
	Server       *http.Server
	StateHandler func(net.Conn, http.ConnState)
}

type GracefulServer struct {
	*http.Server
	closed bool
	once   sync.Once
	done   chan struct{}
}

func NewServer() *GracefulServer { return NewWithServer(new(http.Server)) }

func NewWithServer(s *http.Server) *GracefulServer {
	return &GracefulServer{Server: s, done: make(chan struct{})}
}

func NewWithOptions(o Options) *GracefulServer { return NewWithServer(o.Server) }

func (s *GracefulServer) Close() bool {
	first := false
	s.once.Do(func() {
		first = true
		mu.Lock()
		s.closed = true
		mu.Unlock()
		close(s.done)
	})
	return first
}

func (s *GracefulServer) BlockingClose() bool { return s.Close() }

func (s *GracefulServer) ListenAndServe() error {
	mu.Lock()
	byKey[s.Addr] = s
	mu.Unlock()
	<-s.done
	return nil
}

var defaultServer *GracefulServer

func ListenAndServe(addr string, handler http.Handler) error {
	s := NewWithServer(&http.Server{Addr: addr, Handler: handler})
	mu.Lock()
	defaultServer = s
	mu.Unlock()
	return s.ListenAndServe()
}

func Close() bool {
	mu.Lock()
	s := defaultServer
	mu.Unlock()
	if s == nil {
		return false
	}
	return s.Close()
}
