// Package web is a stand-in for github.com/gocraft/web, which the sandbox lacks.
// It implements the router API that healthd uses (and the rest of the common API,
// so that a refactored healthd still builds): typed contexts, subrouters,
// middleware chains, method routes with :params, not-found and error handlers.
package web

import (
	"bufio"
	"fmt"
	"net"
	"net/http"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"sync/atomic"
)

// Panics counts handler panics turned into 500 responses.
var Panics atomic.Int64

type ResponseWriter interface {
	http.ResponseWriter
	http.Flusher
	http.Hijacker
	StatusCode() int
	Written() bool
	Size() int
}

type NextMiddlewareFunc func(ResponseWriter, *Request)
type GenericMiddleware func(ResponseWriter, *Request, NextMiddlewareFunc)
type GenericHandler func(ResponseWriter, *Request)

type Request struct {
	*http.Request
	PathParams map[string]string
	route      *route
}

func (r *Request) IsRouted() bool { return r.route != nil }
func (r *Request) RoutePath() string {
	if r.route == nil {
		return ""
	}
	return r.route.path
}

type appResponseWriter struct {
	http.ResponseWriter
	statusCode int
	size       int
}

func (w *appResponseWriter) Write(b []byte) (int, error) {
	if w.statusCode == 0 {
		w.statusCode = http.StatusOK
	}
	n, err := w.ResponseWriter.Write(b)
	w.size += n
	return n, err
}
func (w *appResponseWriter) StatusCode() int { return w.statusCode }
func (w *appResponseWriter) Written() bool   { return w.statusCode != 0 }
func (w *appResponseWriter) Size() int       { return w.size }
func (w *appResponseWriter) WriteHeader(c int) {
	w.statusCode = c
	w.ResponseWriter.WriteHeader(c)
}
func (w *appResponseWriter) Flush() {
	if f, ok := w.ResponseWriter.(http.Flusher); ok {
		f.Flush()
	}
}
func (w *appResponseWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if h, ok := w.ResponseWriter.(http.Hijacker); ok {
		return h.Hijack()
	}
	return nil, nil, fmt.Errorf("not a Hijacker")
}

type route struct {
	router  *Router
	method  string
	path    string
	handler reflect.Value
	hasCtx  bool
}

type Router struct {
	parent      *Router
	contextType reflect.Type
	prefix      string
	middleware  []reflect.Value
	routes      []*route // root only
	notFound    reflect.Value
	errHandler  reflect.Value
}

func New(ctx interface{}) *Router { return &Router{contextType: reflect.TypeOf(ctx)} }

func NewWithPrefix(ctx interface{}, prefix string) *Router {
	r := New(ctx)
	r.prefix = prefix
	return r
}

func (r *Router) Subrouter(ctx interface{}, prefix string) *Router {
	return &Router{parent: r, contextType: reflect.TypeOf(ctx), prefix: r.prefix + prefix}
}

func (r *Router) root() *Router {
	for r.parent != nil {
		r = r.parent
	}
	return r
}

func (r *Router) Middleware(fn interface{}) *Router {
	r.middleware = append(r.middleware, reflect.ValueOf(fn))
	return r
}
func (r *Router) Error(fn interface{})    { r.errHandler = reflect.ValueOf(fn) }
func (r *Router) NotFound(fn interface{}) { r.notFound = reflect.ValueOf(fn) }

func (r *Router) OptionsHandler(fn interface{}) {}

func (r *Router) add(method, path string, fn interface{}) *Router {
	v := reflect.ValueOf(fn)
	full := r.prefix + path
	if len(full) > 1 && strings.HasSuffix(full, "/") {
		full = full[:len(full)-1]
	}
	root := r.root()
	root.routes = append(root.routes, &route{router: r, method: method, path: full, handler: v, hasCtx: v.Type().NumIn() == 3})
	return r
}
func (r *Router) Get(p string, fn interface{}) *Router     { return r.add("GET", p, fn) }
func (r *Router) Post(p string, fn interface{}) *Router    { return r.add("POST", p, fn) }
func (r *Router) Put(p string, fn interface{}) *Router     { return r.add("PUT", p, fn) }
func (r *Router) Delete(p string, fn interface{}) *Router  { return r.add("DELETE", p, fn) }
func (r *Router) Patch(p string, fn interface{}) *Router   { return r.add("PATCH", p, fn) }
func (r *Router) Head(p string, fn interface{}) *Router    { return r.add("HEAD", p, fn) }
func (r *Router) Options(p string, fn interface{}) *Router { return r.add("OPTIONS", p, fn) }

func matchPath(pat, path string) (map[string]string, bool) {
	if len(path) > 1 && strings.HasSuffix(path, "/") {
		path = path[:len(path)-1]
	}
	ps, xs := strings.Split(pat, "/"), strings.Split(path, "/")
	params := map[string]string{}
	for i, p := range ps {
		if p == "*" || (strings.HasPrefix(p, ":*")) {
			return params, true
		}
		if i >= len(xs) {
			return nil, false
		}
		if strings.HasPrefix(p, ":") {
			if xs[i] == "" {
				return nil, false
			}
			params[strings.SplitN(p[1:], ":", 2)[0]] = xs[i]
		} else if p != xs[i] {
			return nil, false
		}
	}
	return params, len(ps) == len(xs)
}

func (r *Router) ServeHTTP(hw http.ResponseWriter, hr *http.Request) {
	rw := &appResponseWriter{ResponseWriter: hw}
	req := &Request{Request: hr}
	defer func() {
		if p := recover(); p != nil {
			Panics.Add(1)
			fmt.Fprintf(os.Stderr, "web: handler panic: %v\n%s", p, debug.Stack())
			if !rw.Written() {
				http.Error(rw, "Application Error", http.StatusInternalServerError)
			}
		}
	}()
	var found *route
	for _, rt := range r.routes {
		if rt.method != hr.Method && !(hr.Method == "HEAD" && rt.method == "GET") {
			continue
		}
		if params, ok := matchPath(rt.path, hr.URL.Path); ok {
			found, req.PathParams = rt, params
			break
		}
	}
	target := r
	if found != nil {
		req.route = found
		target = found.router
	}
	// Routers from the root down to the target, and a context for each.
	var chain []*Router
	for x := target; x != nil; x = x.parent {
		chain = append([]*Router{x}, chain...)
	}
	ctxs := make([]reflect.Value, len(chain))
	for i, x := range chain {
		if i > 0 && x.contextType == chain[i-1].contextType {
			ctxs[i] = ctxs[i-1]
			continue
		}
		ctxs[i] = reflect.New(x.contextType)
		if i > 0 && x.contextType.NumField() > 0 {
			if f := ctxs[i].Elem().Field(0); f.CanSet() && f.Type() == ctxs[i-1].Type() {
				f.Set(ctxs[i-1])
			}
		}
	}
	type step struct{ ctx, fn reflect.Value }
	var steps []step
	for i, x := range chain {
		for _, m := range x.middleware {
			steps = append(steps, step{ctxs[i], m})
		}
	}
	var run func(i int) NextMiddlewareFunc
	run = func(i int) NextMiddlewareFunc {
		return func(rw ResponseWriter, req *Request) {
			if i < len(steps) {
				s := steps[i]
				args := []reflect.Value{reflect.ValueOf(rw), reflect.ValueOf(req), reflect.ValueOf(run(i + 1))}
				if s.fn.Type().NumIn() == 4 {
					args = append([]reflect.Value{s.ctx}, args...)
				}
				s.fn.Call(args)
				return
			}
			if found != nil {
				args := []reflect.Value{reflect.ValueOf(rw), reflect.ValueOf(req)}
				if found.hasCtx {
					args = append([]reflect.Value{ctxs[len(ctxs)-1]}, args...)
				}
				found.handler.Call(args)
				return
			}
			if r.notFound.IsValid() {
				args := []reflect.Value{reflect.ValueOf(rw), reflect.ValueOf(req)}
				if r.notFound.Type().NumIn() == 3 {
					args = append([]reflect.Value{ctxs[0]}, args...)
				}
				r.notFound.Call(args)
				return
			}
			http.Error(rw, "Not Found", http.StatusNotFound)
		}
	}
	run(0)(rw, req)
}
