package core

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"strings"
	"sync"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"github.com/gocraft/health"
)

type nilErr struct{}

func (*nilErr) Error() string { return "a nil pointer that is an error" }

type stringer struct{ n int }

func (s stringer) String() string { return fmt.Sprintf("stringer-%d", s.n) }

type structPanic struct {
	A int
	B string
}

// The panic sites: each is a named function so that the logged stack can be checked for it.
//
//go:noinline
func panicSiteValue(v any) { panic(v) }

//go:noinline
func panicSiteNil(p *structPanic) int { return p.A }

//go:noinline
func panicSiteIndex(s []int, i int) int { return s[i] }

//go:noinline
func panicSiteMap(m map[string]int) { m["a"] = 1 }

//go:noinline
func panicSiteDiv(a, b int) int { return a / b }

//go:noinline
func panicSiteDeep(n int, v any) {
	if n == 0 {
		panicSiteValue(v)
	}
	panicSiteDeep(n-1, v)
}

//go:noinline
func panicSiteDefer(v any) {
	defer panicSiteValue(v)
}

type outcome struct {
	kind  int // 0 nil, 1 error, 2 panic
	err   error
	text  string
	site  string
	doit  func()
	label string
	deep  bool // the stack logged may be cut off before it reaches Run
}

func genOutcome(g *rand.Rand, id int) outcome {
	switch g.IntN(5) {
	case 0, 1:
		return outcome{kind: 0, label: "nil"}
	case 2:
		var err error
		switch g.IntN(6) {
		case 4:
			err = (*nilErr)(nil) // not nil as an error
		case 5:
			err = []error{errors.New(""), io.EOF, errors.New("<nil>"), errors.New("panic"), context.Canceled, valErr{}}[g.IntN(6)]
		case 0:
			err = health.Mute(fmt.Errorf("muted%d", id))
		case 1:
			err = &health.UnmutedError{Err: fmt.Errorf("unmuted%d", id)}
		default:
			err = genErr(g, id)
		}
		return outcome{kind: 1, err: err, label: fmt.Sprintf("error %T", err)}
	}
	vals := []any{"str", fmt.Sprintf("pct%%d %d", id), "", id, 3.5, errors.New(fmt.Sprint("e", id)), valErr{"val"}, &ptrErr{"ptr"},
		stringer{id}, structPanic{id, "b"}, &health.MutedError{Err: errors.New("m")}, &health.UnmutedError{Err: errors.New("u")},
		[]int{1, 2}, map[string]int{"a": 1}, true, 'x', struct{}{}, error(nil), strings.Repeat("long", 3000)}
	i := g.IntN(len(vals) + 5)
	o := outcome{kind: 2}
	switch {
	case i < len(vals):
		v := vals[i]
		o.text = fmt.Sprint(v)
		if v == nil {
			func() {
				defer func() { o.text = fmt.Sprint(recover()) }()
				panic(v)
			}()
		}
		o.label = fmt.Sprintf("panic %T", v)
		o.site = "panicSiteValue"
		switch g.IntN(3) {
		case 0:
			n := g.IntN(30)
			o.deep = n > 2
			o.doit = func() { panicSiteDeep(n, v) }
		case 1:
			o.doit = func() { panicSiteDefer(v) }
		default:
			o.doit = func() { panicSiteValue(v) }
		}
	default:
		switch i - len(vals) {
		case 0:
			o.doit, o.site = func() { panicSiteNil(nil) }, "panicSiteNil"
		case 1:
			o.doit, o.site = func() { panicSiteIndex([]int{1}, 5) }, "panicSiteIndex"
		case 2:
			o.doit, o.site = func() { panicSiteMap(nil) }, "panicSiteMap"
		case 3:
			o.doit, o.site = func() { panicSiteDiv(1, 0) }, "panicSiteDiv"
		default:
			// A panic while panicking: the later value is the one recovered.
			o.doit, o.site = func() { defer panicSiteValue("second"); panic("first") }, "panicSiteValue"
		}
		func() {
			defer func() { o.text = fmt.Sprint(recover()) }()
			o.doit()
		}()
		o.label = "panic " + o.site
	}
	return o
}

// runOne runs one job function and checks everything a sink saw for that job name.
// It returns "" or what was wrong. slept is the virtual time the function takes.
func runOne(s *health.Stream, sinks []*rec, name string, o outcome, extra []model.Em, slept time.Duration, late time.Duration, viaStream bool) (func() string, error) {
	created := time.Now()
	var j *health.Job
	if !viaStream {
		j = s.NewJob(name)
		if late > 0 {
			time.Sleep(late)
		}
	}
	inner := s.NewJob(name + "/in")
	f := func() error {
		for _, e := range extra {
			emitThrough(inner, e, false)
		}
		if slept > 0 {
			time.Sleep(slept)
		}
		switch o.kind {
		case 1:
			return o.err
		case 2:
			o.doit()
		}
		return nil
	}
	var err error
	escaped := any(nil)
	func() {
		defer func() { escaped = recover() }()
		if viaStream {
			err = s.Run(name, f)
		} else {
			err = j.Run(f)
		}
	}()
	elapsed := time.Since(created)
	check := func() string {
		if escaped != nil {
			return fmt.Sprintf("panic escaped from Run: %v", escaped)
		}
		switch o.kind {
		case 0:
			if err != nil {
				return fmt.Sprintf("Run of a successful function returned %v", err)
			}
		case 1:
			if err != o.err {
				return fmt.Sprintf("Run returned %#v instead of the function's error %#v", err, o.err)
			}
		case 2:
			if err == nil || err.Error() != o.text {
				return fmt.Sprintf("Run returned %v, want an error with text %q", err, o.text)
			}
		}
		for si, k := range sinks {
			var mine []entry
			for _, e := range k.snapshot() {
				if e.Job == name {
					mine = append(mine, e)
				}
			}
			wantStatus := []health.CompletionStatus{health.Success, health.Error, health.Panic}[o.kind]
			n := 1
			if o.kind == 2 {
				n = 2
			}
			if len(mine) != n {
				return fmt.Sprintf("sink %d: want %d emissions for the run, got %d: %v", si, n, len(mine), mine)
			}
			last := mine[n-1]
			if last.Kind != model.Complete || last.Status != wantStatus {
				return fmt.Sprintf("sink %d: want completion %v last, got %v", si, wantStatus, last.Em)
			}
			if last.Nanos != elapsed.Nanoseconds() {
				return fmt.Sprintf("sink %d: job took %d ns of virtual time, completion says %d", si, elapsed.Nanoseconds(), last.Nanos)
			}
			if o.kind == 2 {
				p := mine[0]
				if p.Kind != model.EventErr || p.Event != "panic" || p.Err.Error() != o.text {
					return fmt.Sprintf("sink %d: want error event \"panic\" with text %q, got %v", si, o.text, p.Em)
				}
				if !o.deep && !strings.Contains(p.Kvs["stack"], "runOne") {
					return fmt.Sprintf("sink %d: the panic's stack does not reach the function that was run:\n%s", si, p.Kvs["stack"])
				}
				if !strings.Contains(p.Kvs["stack"], o.site) {
					return fmt.Sprintf("sink %d: the panic's stack does not show the panic site %s:\n%s", si, o.site, p.Kvs["stack"])
				}
			}
		}
		return ""
	}
	return check, err
}

// C03: Run and Complete against the outcome chosen, in virtual time so that durations are exact.
func TestC03(t *testing.T) {
	kit.Run(t, "C03", func(r *kit.Rep) {
		setup := func(g *rand.Rand) (*health.Stream, []*rec) {
			s := health.NewStream()
			var ks []*rec
			for i, last := 0, 1+g.IntN(3); i < last; i++ {
				k := &rec{}
				ks = append(ks, k)
				s.AddSink(k)
			}
			return s, ks
		}
		r.Cases("run", r.Pick(24000, 192000), func(c *kit.Case) {
			c.Bubble(1000*time.Hour, func() {
				g := c.Rng
				s, ks := setup(g)
				for i, last := 0, 1+g.IntN(6); i < last; i++ {
					o := genOutcome(g, i)
					var extra []model.Em
					for x, last := 0, g.IntN(3); x < last; x++ {
						extra = append(extra, model.Gen(g, kit.PlainName))
					}
					slept := time.Duration(kit.PosNanos(g))
					late := time.Duration(g.Int64N(3)) * time.Millisecond
					if g.IntN(3) == 0 {
						late = time.Duration(kit.PosNanos(g)) // the job waits its turn
					}
					via := g.IntN(2) == 0
					c.Tracef("run %d %s slept=%v late=%v", i, o.label, slept, late)
					c.Sig(o.label, slept, via)
					check, _ := runOne(s, ks, fmt.Sprintf("job%d", i), o, extra, slept, late, via)
					if d := check(); d != "" {
						c.Failf("%s: %s", o.label, d)
						return
					}
					c.Count("runs_checked", 1)
					c.Count([]string{"outcome_nil", "outcome_error", "outcome_panic"}[o.kind], 1)
				}
			})
		})
		r.Cases("nested", r.Pick(3200, 25600), func(c *kit.Case) {
			c.Bubble(1000*time.Hour, func() {
				g := c.Rng
				s, ks := setup(g)
				depth := 1 + g.IntN(4)
				var checks []func() string
				// Simple explicit nesting: each level runs the next inside its function.
				var level func(d int) error
				level = func(d int) error {
					o := genOutcome(g, d)
					name := fmt.Sprintf("n%d", d)
					if d == 0 {
						chk, err := runOne(s, ks, name, o, nil, time.Duration(g.IntN(1e6)), 0, true)
						checks = append(checks, chk)
						return err
					}
					created := time.Now()
					var innerErr error
					err := s.Run(name, func() error {
						time.Sleep(time.Duration(g.IntN(1000)))
						innerErr = level(d - 1)
						if o.kind == 2 {
							o.doit()
						}
						return innerErr
					})
					el := time.Since(created)
					checks = append(checks, func() string {
						want := health.Success
						if o.kind == 2 {
							want = health.Panic
							if err == nil || err.Error() != o.text {
								return fmt.Sprintf("outer run returned %v, want text %q", err, o.text)
							}
						} else {
							if innerErr != nil {
								want = health.Error
							}
							if err != innerErr {
								return fmt.Sprintf("outer run returned %v, its function returned %v", err, innerErr)
							}
						}
						for _, k := range ks {
							n := 0
							for _, e := range k.snapshot() {
								if e.Job == name && e.Kind == model.Complete {
									n++
									if e.Status != want || e.Nanos != el.Nanoseconds() {
										return fmt.Sprintf("outer completion %v, want %v after %d ns", e.Em, want, el.Nanoseconds())
									}
								}
							}
							if n != 1 {
								return fmt.Sprintf("%d completions for one run of %s", n, name)
							}
						}
						return ""
					})
					return err
				}
				level(depth)
				for _, chk := range checks {
					if d := chk(); d != "" {
						c.Failf("nested: %s", d)
						return
					}
					c.Count("runs_checked", 1)
				}
				c.Sig("nested", depth)
			})
		})
		r.Cases("concurrent", r.Pick(1200, 9600), func(c *kit.Case) {
			c.Bubble(1000*time.Hour, func() {
				g := c.Rng
				s, ks := setup(g)
				ng := 2 + g.IntN(12)
				var mu sync.Mutex
				var checks []func() string
				var wg sync.WaitGroup
				for i := 0; i < ng; i++ {
					o := genOutcome(g, i)
					if o.kind == 2 {
						// no shared generator inside goroutines
						site := o.site
						if site == "panicSiteValue" {
							txt := fmt.Sprintf("boom %d", i)
							o.text = txt
							o.doit = func() { panicSiteValue(txt) }
						}
					}
					slept := time.Duration(g.IntN(5)) * time.Millisecond
					wg.Add(1)
					go func() {
						defer wg.Done()
						chk, _ := runOne(s, ks, fmt.Sprintf("c%d", i), o, nil, slept, 0, true)
						mu.Lock()
						checks = append(checks, chk)
						mu.Unlock()
					}()
				}
				wg.Wait()
				for _, chk := range checks {
					if d := chk(); d != "" {
						c.Failf("concurrent: %s", d)
						return
					}
					c.Count("runs_checked", 1)
				}
				c.Sig("conc", ng)
			})
		})
		// Completions made by hand: status and elapsed time, several per job.
		r.Cases("complete", r.Pick(4800, 38400), func(c *kit.Case) {
			c.Bubble(1000*time.Hour, func() {
				g := c.Rng
				s, ks := setup(g)
				type jb struct {
					j       *health.Job
					name    string
					created time.Time
				}
				jobs := []jb{{s.Job, "general", time.Now()}}
				for i := 0; i < 20; i++ {
					if g.IntN(3) == 0 {
						name := kit.Name(g)
						jobs = append(jobs, jb{s.NewJob(name), name, time.Now()})
					}
					time.Sleep(time.Duration(kit.PosNanos(g)))
					q := jobs[g.IntN(len(jobs))]
					st := health.CompletionStatus(g.IntN(5))
					if g.IntN(2) == 0 {
						q.j.Complete(st)
					} else {
						q.j.CompleteKv(st, health.Kvs{"a": "b"})
					}
					want := time.Since(q.created).Nanoseconds()
					for _, k := range ks {
						l := k.take()
						if len(l) != 1 || l[0].Kind != model.Complete || l[0].Status != st || l[0].Job != q.name || l[0].Nanos != want {
							c.Failf("completing %q with %v after %d ns: sink saw %v", q.j.JobName, st, want, l)
							return
						}
						c.Count("completions_checked", 1)
					}
					c.Sig(st, want)
				}
			})
		})
	})
}
