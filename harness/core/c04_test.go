package core

import (
	"errors"
	"fmt"
	"path/filepath"
	"runtime"
	"strings"
	"testing"

	"example.com/verif/kit"
	"example.com/verif/model"
	"github.com/gocraft/health"
)

type site struct {
	file string
	line int
	fn   string
}

// here is the caller's position.
func here() site {
	var pcs [1]uintptr
	runtime.Callers(2, pcs[:])
	f, _ := runtime.CallersFrames(pcs[:]).Next()
	return site{f.File, f.Line, f.Function}
}

// logAt logs err in one of several ways and call shapes, returning what came back and where the call was made.
func logAt(rc receiver, s *health.Stream, j *health.Job, event string, err error, kvs map[string]string, how int) (got error, at site) {
	switch how % 9 {
	case 0:
		got, at = rc.EventErr(event, err), here()
	case 1:
		got, at = rc.EventErrKv(event, err, kvs), here()
	case 2:
		got, at = s.EventErr(event, err), here()
	case 3:
		got, at = s.EventErrKv(event, err, kvs), here()
	case 4:
		got, at = j.EventErr(event, err), here()
	case 5:
		func() {
			got, at = j.EventErrKv(event, err, kvs), here()
		}()
	case 6:
		func() {
			defer func() { got, at = j.EventErr(event, err), here() }()
		}()
	case 8:
		// from the outermost function of a goroutine
		ch := make(chan error, 1)
		go outermostLog(ch, rc, event, err, &at)
		got = <-ch
	case 7:
		got, at = smallLog(j, event, err)
	}
	return
}

func outermostLog(ch chan error, rc receiver, event string, err error, at *site) {
	got, a := rc.EventErr(event, err), here()
	*at = a
	ch <- got
}

// smallLog is small enough to be inlined into its caller.
func smallLog(j *health.Job, event string, err error) (error, site) {
	return j.EventErr(event, err), here()
}

func TestC04(t *testing.T) {
	kit.Run(t, "C04", func(r *kit.Rep) {
		r.Cases("chains", r.Pick(24000, 192000), func(c *kit.Case) {
			g := c.Rng
			type st struct {
				s     *health.Stream
				j     *health.Job
				sinks []*rec
			}
			var ss []*st
			for i, last := 0, 1+g.IntN(3); i < last; i++ {
				s := &st{s: health.NewStream()}
				for x, last := 0, g.IntN(4); x < last; x++ {
					k := &rec{}
					s.sinks = append(s.sinks, k)
					s.s.AddSink(k)
				}
				if g.IntN(2) == 0 {
					s.s.KeyValue("host", "h")
				}
				s.j = s.s.NewJob(kit.Name(g))
				if g.IntN(2) == 0 {
					s.j.KeyValue("k", "v")
				}
				ss = append(ss, s)
			}
			type known struct {
				cur    error // what the program would log next
				plain  error // nil for muted
				logged bool
				stack  string
				msg    string
			}
			var es []*known
			for i, last := 0, 8+g.IntN(25); i < last; i++ {
				var k *known
				if len(es) > 0 && g.IntN(3) > 0 {
					k = es[g.IntN(len(es))]
				} else {
					e := genErr(g, i)
					switch g.IntN(6) {
					case 0:
						e = errors.New("")
					case 1:
						e = fmt.Errorf("multi\nline %%s %d", i)
					}
					k = &known{cur: e, plain: e, msg: e.Error()}
					switch g.IntN(4) {
					case 0:
						m := health.Mute(e)
						switch g.IntN(5) {
						case 0:
							m = health.Mute(m)
						case 1:
							m = health.Mute(&health.UnmutedError{Err: e})
						case 2:
							if len(es) > 0 {
								// muting an error that was reported, or an error of that kind
								o := es[g.IntN(len(es))]
								m, k.msg = health.Mute(o.cur), o.msg
							}
						}
						k.cur, k.plain = m, nil
					case 1:
						// an error that wraps one already logged is an error of its own
						if len(es) > 0 {
							e = fmt.Errorf("wrapped: %w", es[g.IntN(len(es))].cur)
							k.cur, k.plain, k.msg = e, e, e.Error()
						}
					}
					es = append(es, k)
				}
				s := ss[g.IntN(len(ss))]
				var rc receiver = s.s
				if g.IntN(2) == 0 {
					rc = s.j
				}
				how := g.IntN(8)
				if g.IntN(10) == 0 {
					how = 8
				}
				ev := kit.Name(g)
				before := k.cur
				first := !k.logged
				c.Tracef("log %d (%T %q) how=%d sinks=%d first=%v", indexOf(es, k), k.cur, k.msg, how, len(s.sinks), first)
				got, at := logAt(rc, s.s, s.j, ev, k.cur, kit.Kvs(g, kit.Name), how)
				c.Count("error_loggings", 1)
				if got == nil || got.Error() != k.msg {
					c.Failf("logging an error with message %q gave back %v", k.msg, got)
					return
				}
				for _, sk := range s.sinks {
					l := sk.take()
					if len(l) != 1 || l[0].Kind != model.EventErr {
						c.Failf("a sink received %d deliveries for one logged error", len(l))
						return
					}
					if l[0].Err != got {
						c.Failf("sink received %T %p, the call returned %T %p", l[0].Err, l[0].Err, got, got)
						return
					}
					if k.plain != nil && l[0].emitted == first {
						c.Failf("first logging=%v but the sink saw already-reported=%v", first, l[0].emitted)
						return
					}
					c.Count("error_deliveries", 1)
				}
				if k.plain == nil {
					if got != before {
						c.Failf("muted error came back as %T %v, not the same value", got, got)
						return
					}
					c.Count("muted_loggings", 1)
					continue
				}
				u, ok := got.(*health.UnmutedError)
				if !ok {
					c.Failf("a plain error came back as %T", got)
					return
				}
				if u.Err != k.plain {
					c.Failf("the original error is not kept: %v", u.Err)
					return
				}
				if u.Stack == nil {
					c.Failf("no stack trace on a logged plain error")
					return
				}
				dump := string(u.Stack.Stack())
				if first {
					fr := u.Stack.Frames()
					if len(fr) == 0 {
						c.Failf("empty stack trace")
						return
					}
					f := fr[0]
					if f.File != at.file || f.LineNumber != at.line || f.Package+"."+f.Name != at.fn {
						c.Failf("trace starts at %s:%d %s.%s, the logging call (form %d) is at %s:%d %s", filepath.Base(f.File), f.LineNumber, f.Package, f.Name, how, filepath.Base(at.file), at.line, at.fn)
						return
					}
					k.logged, k.stack, k.cur = true, dump, got
					c.Count("first_traces_checked", 1)
				} else {
					if got != before {
						c.Failf("re-logging returned a different value %p, was %p", got, before)
						return
					}
					if dump != k.stack {
						c.Failf("trace changed on re-logging:\n%s\nwas\n%s", dump, k.stack)
						return
					}
					if !u.Emitted {
						c.Failf("re-logged error is not marked as reported")
						return
					}
					c.Count("relogs_checked", 1)
				}
			}
		})

		// An error on its way up through nested jobs: the trace reported is that of the innermost logging.
		r.Cases("propagate", r.Pick(4000, 32000), func(c *kit.Case) {
			g := c.Rng
			s := health.NewStream()
			k := &rec{}
			s.AddSink(k)
			depth := 1 + g.IntN(6)
			muted := g.IntN(4) == 0
			var inner site
			var up func(d int) error
			up = func(d int) error {
				return s.Run(fmt.Sprintf("level%d", d), func() error {
					j := s.NewJob(fmt.Sprintf("inner%d", d))
					if d == 0 {
						var e error = genErr(g, 1)
						if muted {
							e = health.Mute(e)
						}
						ret, at := j.EventErr("deep", e), here()
						inner = at
						return ret
					}
					e := up(d - 1)
					if g.IntN(3) > 0 {
						return j.EventErrKv("up", e, map[string]string{"d": fmt.Sprint(d)})
					}
					return e
				})
			}
			ret := up(depth)
			reports := 0
			for _, e := range k.take() {
				if e.Kind != model.EventErr {
					continue
				}
				if e.Err != ret {
					c.Failf("a level logged a different error value")
					return
				}
				if !muted && !e.emitted {
					reports++
				}
			}
			c.Sig(depth, muted)
			c.Count("propagations", 1)
			if muted {
				if _, ok := ret.(*health.MutedError); !ok {
					c.Failf("muted error came up as %T", ret)
				}
				return
			}
			if reports != 1 {
				c.Failf("one error seen as not-yet-reported %d times", reports)
				return
			}
			st := string(ret.(*health.UnmutedError).Stack.Stack())
			first := strings.SplitN(st, "\n", 2)[0]
			if !strings.HasPrefix(first, fmt.Sprintf("%s:%d ", inner.file, inner.line)) {
				c.Failf("trace starts at %q, innermost logging was at %s:%d", first, inner.file, inner.line)
			}
		})
	})
}
