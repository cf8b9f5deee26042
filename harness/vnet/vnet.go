// Package vnet replaces http.DefaultTransport by an in-memory network, so that HTTP
// clients of the code under test can be observed, delayed and made to fail in virtual time.
package vnet

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"sync"
	"sync/atomic"
)

// Request is one request as received.
type Request struct {
	Method, URL string
	Header      http.Header
	User, Pass  string
	HasAuth     bool
	Body        []byte
	Req         *http.Request
}

// Reply tells how a request is answered.
type Reply struct {
	Err     error // transport failure
	Code    int   // default 200
	Header  http.Header
	Body    []byte
	ReadErr error  // body fails after Body was read
	Wait    func() // called before each body chunk is read
	Chunk   int    // body chunk size, 0 = all
}

type Handler func(r *Request) Reply

type Net struct {
	h      Handler
	Opened atomic.Int64 // response bodies handed out
	Closed atomic.Int64 // response bodies closed, or read to their end or to a failure
}

var saved = http.DefaultTransport
var mu sync.Mutex

// Install routes http.DefaultTransport to h; call the returned function to restore it.
func Install(h Handler) (*Net, func()) {
	mu.Lock()
	defer mu.Unlock()
	n := &Net{h: h}
	http.DefaultTransport = n
	return n, func() {
		mu.Lock()
		defer mu.Unlock()
		http.DefaultTransport = saved
	}
}

type body struct {
	n      *Net
	rep    *Reply
	r      *bytes.Reader
	done   atomic.Bool
	closed atomic.Bool
	ctx    context.Context
}

func (b *body) finish() {
	if !b.done.Swap(true) {
		b.n.Closed.Add(1)
	}
}

func (b *body) Read(p []byte) (int, error) {
	if b.closed.Load() {
		return 0, errors.New("http: read on closed response body")
	}
	if b.rep.Wait != nil {
		w := make(chan struct{})
		go func() { b.rep.Wait(); close(w) }()
		select {
		case <-w:
		case <-b.ctx.Done():
		}
	}
	if err := b.ctx.Err(); err != nil {
		b.finish()
		return 0, err
	}
	if b.rep.Chunk > 0 && len(p) > b.rep.Chunk {
		p = p[:b.rep.Chunk]
	}
	k, err := b.r.Read(p)
	if err == io.EOF {
		if b.rep.ReadErr != nil {
			b.finish() // a broken connection is not kept
			return k, b.rep.ReadErr
		}
		b.finish()
	}
	return k, err
}

func (b *body) Close() error {
	b.closed.Store(true)
	b.finish()
	return nil
}

func (n *Net) RoundTrip(req *http.Request) (*http.Response, error) {
	r := &Request{Method: req.Method, URL: req.URL.String(), Header: req.Header.Clone(), Req: req}
	r.User, r.Pass, r.HasAuth = req.BasicAuth()
	if req.Body != nil {
		r.Body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	// The caller gives up when its context ends (client timeouts), as with a real connection.
	type res struct{ rep Reply }
	ch := make(chan res, 1)
	go func() { ch <- res{n.h(r)} }()
	var rep Reply
	select {
	case x := <-ch:
		rep = x.rep
	case <-req.Context().Done():
		return nil, req.Context().Err()
	}
	if rep.Err != nil {
		return nil, rep.Err
	}
	if rep.Code == 0 {
		rep.Code = 200
	}
	if rep.Header == nil {
		rep.Header = http.Header{}
	}
	n.Opened.Add(1)
	return &http.Response{StatusCode: rep.Code, Status: http.StatusText(rep.Code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: rep.Header, ContentLength: -1, Request: req,
		Body: &body{n: n, rep: &rep, r: bytes.NewReader(rep.Body), ctx: req.Context()}}, nil
}
