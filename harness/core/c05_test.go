package core

import (
	"bytes"
	"compress/gzip"
	"container/heap"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"go/ast"
	"hash"
	"io"
	"io/fs"
	"iter"
	"maps"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"net/http/httputil"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"text/template"

	"example.com/verif/kit"
	"github.com/gocraft/health/stack"
	"shop"
	shopnet "shop/net"
	"shop/rt"
	"shop/yaml.v2"
)

// truth is what the Go runtime says is active at the caller, expanded by its own symbolizer.
func truth() []runtime.Frame {
	pcs := make([]uintptr, 4096)
	n := runtime.Callers(2, pcs)
	var out []runtime.Frame
	if n == 0 {
		return nil
	}
	it := runtime.CallersFrames(pcs[:n])
	for {
		f, more := it.Next()
		out = append(out, f)
		if !more {
			return out
		}
	}
}

type cap5 struct {
	tr   *stack.Trace
	want []runtime.Frame
	skip int
	max  int
}

// The call shapes. Each calls next at its innermost point; leafs capture.
type shape func(next func() cap5) cap5

func plainShape(next func() cap5) cap5 { return next() }

type vt struct{ a, b int }

func (v vt) value(next func() cap5) cap5   { return next() }
func (v *vt) ptr(next func() cap5) cap5    { return next() }
func (v vt) deep(next func() cap5) cap5    { return v.value(next) }
func (v *vt) deeper(next func() cap5) cap5 { x := v.deep(next); return x }

type caller interface{ value(func() cap5) cap5 }

//go:noinline
func viaIface(c caller, next func() cap5) cap5 { return c.value(next) }

func generic[T any](x T, next func() cap5) cap5 { return next() }

type gen[T any] struct{ x T }

func (g *gen[T]) method(next func() cap5) cap5 { return next() }

//go:noinline
func recurse(n int, next func() cap5) cap5 {
	if n == 0 {
		return next()
	}
	return recurse(n-1, next)
}

func inl1(next func() cap5) cap5 { return inl2(next) }
func inl2(next func() cap5) cap5 { return inl3(next) }
func inl3(next func() cap5) cap5 { return next() }

func deferred(next func() cap5) (c cap5) {
	defer func() { c = next() }()
	return
}

func deferredLoop(next func() cap5) (c cap5) {
	for i := 0; i < 2; i++ {
		defer func() {
			if i == 0 {
				c = next()
			}
		}()
	}
	return
}

func panicking(next func() cap5) (c cap5) {
	defer func() {
		recover()
	}()
	defer func() { c = next() }()
	panic("x")
}

func runtimePanic(next func() cap5) (c cap5) {
	defer func() {
		c = next()
		recover()
	}()
	var p *vt
	p.a = 1
	return
}

func inGoroutine(next func() cap5) (c cap5) {
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		c = next()
	}()
	wg.Wait()
	return
}

func goNamed(next func() cap5) (c cap5) {
	ch := make(chan cap5)
	go namedGoroutine(next, ch)
	return <-ch
}

func namedGoroutine(next func() cap5, ch chan cap5) { ch <- next() }

func viaOnce(next func() cap5) (c cap5) {
	var o sync.Once
	o.Do(func() { c = next() })
	return
}

func viaMap(next func() cap5) (c cap5) {
	strings.Map(func(r rune) rune { c = next(); return r }, "x")
	return
}

// std calls f from inside the standard library, in many packages of it.
func std(i int) shape {
	return func(next func() cap5) (c cap5) {
		done := false
		f := func() {
			if !done {
				done = true
				c = next()
			}
		}
		switch i {
		case 0:
			sort.Slice([]int{2, 1}, func(a, b int) bool { f(); return false })
		case 1:
			slices.SortFunc([]int{3, 2, 1}, func(a, b int) int { f(); return 0 })
		case 2:
			var m sync.Map
			m.Store(1, 1)
			m.Range(func(k, v any) bool { f(); return true })
		case 3:
			_ = fmt.Sprint(fmtCb{f})
		case 4:
			json.Marshal(fmtCb{f})
		case 5:
			regexp.MustCompile("x").ReplaceAllStringFunc("axb", func(s string) string { f(); return s })
		case 6:
			t := template.Must(template.New("t").Funcs(template.FuncMap{"cb": func() string { f(); return "" }}).Parse("{{cb}}"))
			t.Execute(io.Discard, nil)
		case 7:
			reflect.ValueOf(f).Call(nil)
		case 8:
			http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { f() }).ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/", nil))
		case 9:
			rq := httptest.NewRequest("GET", "/a", nil)
			m := http.NewServeMux()
			m.HandleFunc("/a", func(w http.ResponseWriter, r *http.Request) { f() })
			m.ServeHTTP(httptest.NewRecorder(), rq)
		case 10:
			filepath.WalkDir(".", func(string, fs.DirEntry, error) error { f(); return filepath.SkipAll })
		case 11:
			io.Copy(writerCb{f}, io.LimitReader(strings.NewReader("abc"), 2))
		case 12:
			_ = maps.Collect(func(yield func(int, int) bool) { f(); yield(1, 2) })
		case 13:
			sync.OnceFunc(f)()
		case 14:
			strings.FieldsFunc("a b", func(rune) bool { f(); return false })
		case 15:
			gob.NewEncoder(writerCb{f}).Encode(3)
		case 16:
			zw := gzip.NewWriter(writerCb{f})
			zw.Write([]byte("abc"))
			zw.Close()
		case 17:
			ast.Inspect(&ast.Ident{Name: "x"}, func(ast.Node) bool { f(); return false })
		case 18:
			heap.Init(&heapCb{sort.IntSlice{2, 1}, f})
		case 20:
			hmac.New(func() hash.Hash { f(); return sha256.New() }, []byte("k"))
		case 21:
			httputil.NewChunkedWriter(writerCb{f}).Write([]byte("abc"))
		case 19:
			for range iterCb(f) {
			}
		}
		if !done {
			c = next()
		}
		return
	}
}

type fmtCb struct{ f func() }

func (x fmtCb) String() string               { x.f(); return "" }
func (x fmtCb) MarshalJSON() ([]byte, error) { x.f(); return []byte("1"), nil }

type writerCb struct{ f func() }

func (w writerCb) Write(p []byte) (int, error) { w.f(); return len(p), nil }

type heapCb struct {
	sort.IntSlice
	f func()
}

func (h *heapCb) Less(i, j int) bool { h.f(); return h.IntSlice.Less(i, j) }
func (h *heapCb) Push(any)           {}
func (h *heapCb) Pop() any           { return 0 }

func iterCb(f func()) iter.Seq[int] {
	return func(yield func(int) bool) {
		if !yield(1) {
			return
		}
		f()
	}
}

func methodValue(next func() cap5) cap5 {
	v := vt{1, 2}
	f := v.value
	return f(next)
}

func methodExpr(next func() cap5) cap5 { return (*vt).ptr(&vt{}, next) }

type embedOuter struct{ *embedMid }
type embedMid struct{ vt }

func embedded(next func() cap5) cap5 { return embedOuter{&embedMid{}}.deep(next) }

func viaEmbeddedIface(next func() cap5) cap5 { return viaIface(embedOuter{&embedMid{}}, next) }

// User code whose import path has no host name, ends in a version, or looks like the standard library's.
func shopShape(i int) shape {
	return func(next func() cap5) (c cap5) {
		f := func() { c = next() }
		switch i {
		case 0:
			return shop.Call(next)
		case 1:
			return shop.Plain(next)
		case 2:
			(&shop.Order{Lines: []int{1}}).Each(func(int) { f() })
		case 3:
			rt.Do(f)
		case 4:
			rt.Inline(f)
		case 5:
			shopnet.Do(f)
		case 6:
			shopnet.Inline(f)
		case 7:
			yaml.Do(f)
		case 8:
			yaml.Inline(f)
		}
		return
	}
}

type namedShape struct {
	name string
	f    shape
}

var shapes = []namedShape{
	{"plain", plainShape}, {"value", vt{}.value}, {"ptr", (&vt{}).ptr}, {"deeper", (&vt{}).deeper},
	{"iface", func(n func() cap5) cap5 { return viaIface(vt{}, n) }},
	{"ifaceptr", func(n func() cap5) cap5 { return viaIface(&vt{}, n) }},
	{"generic", func(n func() cap5) cap5 { return generic(3, n) }},
	{"genericstr", func(n func() cap5) cap5 { return generic("s", n) }},
	{"genmethod", func(n func() cap5) cap5 { return (&gen[map[string]int]{}).method(n) }},
	{"recurse", func(n func() cap5) cap5 { return recurse(7, n) }},
	{"recurse60", func(n func() cap5) cap5 { return recurse(60, n) }},
	{"inlined", inl1}, {"deferred", deferred}, {"deferloop", deferredLoop}, {"panicking", panicking}, {"runtimepanic", runtimePanic},
	{"goroutine", inGoroutine}, {"gonamed", goNamed}, {"once", viaOnce}, {"stdlib", viaMap}, {"methodvalue", methodValue},
	{"methodexpr", methodExpr}, {"embedded", embedded}, {"embeddediface", viaEmbeddedIface},
}

// The captures: trace and truth are taken by calls on the same source line.
func leaf(g *rand.Rand, skip, max int) func() cap5 {
	switch g.IntN(3) {
	case 0:
		return func() cap5 {
			tr, w := stack.NewTrace(skip), truth()
			return cap5{tr, w, skip, max}
		}
	case 1:
		return func() cap5 { return leafFn(skip, max) }
	default:
		return func() cap5 { return leafInl(skip, max) }
	}
}

//go:noinline
func leafFn(skip, max int) cap5 {
	tr, w := stack.NewTrace(skip), truth()
	return cap5{tr, w, skip, max}
}

func leafInl(skip, max int) cap5 {
	tr, w := stack.NewTrace(skip), truth()
	return cap5{tr, w, skip, max}
}

func stdFile(f string) bool { return strings.HasPrefix(f, runtime.GOROOT()+string(os.PathSeparator)) }

// unescape: in the linker's names a dot in the last part of an import path is %2e; either form names the package.
func unescape(s string) string { return strings.ReplaceAll(s, "%2e", ".") }

func checkTrace(x cap5) string {
	want := x.want
	if x.skip >= len(want) {
		want = nil
	} else {
		want = want[x.skip:]
	}
	if len(want) > x.max {
		want = want[:x.max]
	}
	got := x.tr.Frames()
	if len(got) != len(want) {
		return fmt.Sprintf("%d frames, want %d (skip %d, maximum depth %d, true depth %d)", len(got), len(want), x.skip, x.max, len(x.want))
	}
	var text bytes.Buffer
	for i, w := range want {
		f := got[i]
		if f.File != w.File || f.LineNumber != w.Line || unescape(f.Package+"."+f.Name) != unescape(w.Function) {
			return fmt.Sprintf("frame %d is %s:%d package %q name %q, the call active there is %s:%d %s", i, f.File, f.LineNumber, f.Package, f.Name, w.File, w.Line, w.Function)
		}
		// package: everything up to the first dot after the last slash
		p := w.Function
		sl := strings.LastIndex(p, "/") + 1
		if d := strings.Index(p[sl:], "."); d >= 0 && unescape(f.Package) != unescape(p[:sl+d]) {
			return fmt.Sprintf("frame %d: package %q, function is %s", i, f.Package, p)
		}
		if f.IsSystemPackage != stdFile(w.File) {
			return fmt.Sprintf("frame %d (%s in %s): flagged as system frame: %v", i, w.Function, w.File, f.IsSystemPackage)
		}
		fmt.Fprintf(&text, "%s:%d %s\n", w.File, w.Line, f.Name)
	}
	if s := x.tr.Stack(); !bytes.Equal(s, text.Bytes()) {
		return fmt.Sprintf("printed form:\n%s\nwant\n%s", s, text.Bytes())
	}
	again := x.tr.Frames()
	for i := range got {
		if again[i] != got[i] {
			return fmt.Sprintf("frame %d differs when read again", i)
		}
	}
	return ""
}

func TestC05(t *testing.T) {
	kit.Run(t, "C05", func(r *kit.Rep) {
		saved := stack.MaxStackDepth
		defer func() { stack.MaxStackDepth = saved }()
		for i := 0; i < 22; i++ {
			shapes = append(shapes, namedShape{fmt.Sprint("std", i), std(i)})
		}
		for i := 0; i < 9; i++ {
			shapes = append(shapes, namedShape{fmt.Sprint("shop", i), shopShape(i)})
		}
		r.Cases("shapes", r.Pick(30000, 240000), func(c *kit.Case) {
			g := c.Rng
			max := saved
			switch g.IntN(4) {
			case 0:
				max = 1 + g.IntN(12)
			case 1:
				max = 100 + g.IntN(400)
			}
			stack.MaxStackDepth = max
			skip := 0
			if g.IntN(2) == 0 {
				skip = g.IntN(8)
				if g.IntN(20) == 0 {
					skip = 1000
				}
			}
			next := leaf(g, skip, max)
			names := ""
			for i, last := 0, g.IntN(6); i < last; i++ {
				s := shapes[g.IntN(len(shapes))]
				inner := next
				next = func() cap5 { return s.f(inner) }
				names = s.name + ">" + names
			}
			c.Tracef("shapes %s skip=%d max=%d", names, skip, max)
			x := next()
			c.Count("traces_compared", 1)
			c.Count("frames_compared", len(x.tr.Frames()))
			c.Max("depth_seen", len(x.want))
			if d := checkTrace(x); d != "" {
				c.Failf("%s (skip %d): %s", names, skip, d)
			}
		})
		// A program kept beside the Go tree, in a directory whose name starts like it.
		r.Cases("paths", 1, func(c *kit.Case) {
			stack.MaxStackDepth = saved
			c.Sig("paths")
			for i, tr := range besideGoroot() {
				f := tr.Frames()[0]
				c.Tracef("code in %s flagged system=%v", f.File, f.IsSystemPackage)
				if f.IsSystemPackage {
					c.Failf("path %d: a user's function in %s (Go tree at %s) is flagged as a system frame", i, f.File, runtime.GOROOT())
					return
				}
			}
		})
	})
}
