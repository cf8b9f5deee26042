package core

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"github.com/gocraft/health"
)

// defaultSanitize: every byte outside A-Z a-z 0-9 _ . becomes $.
func defaultSanitize(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c == '.') {
			b[i] = '$'
		}
	}
	return string(b)
}

func timingText(n int64) string {
	if n >= 10e6 {
		return strconv.FormatInt(n/1000000, 10)
	}
	return fmt.Sprintf("%.2f", float64(n)/1e6)
}

func gaugeText(v float64) string {
	if v < 0.1 && v > -0.1 {
		return strconv.FormatFloat(v, 'f', -1, 64)
	}
	return fmt.Sprintf("%.2f", v)
}

type statsdOpts struct {
	prefix            string
	skipTop, skipNest bool
	san               func(string) string // nil: default
	sanName           string
	useNilOptions     bool
	noLimit           bool
}

func (o *statsdOpts) options() *health.StatsDSinkOptions {
	if o.useNilOptions {
		return nil
	}
	so := &health.StatsDSinkOptions{Prefix: o.prefix, SkipNestedEvents: o.skipNest, SkipTopLevelEvents: o.skipTop}
	if o.san != nil {
		f := o.san
		so.SanitizationFunc = func(b *bytes.Buffer, s string) { b.WriteString(f(s)) }
	}
	return so
}

func (o *statsdOpts) name(parts ...string) string {
	san := o.san
	if san == nil {
		san = defaultSanitize
	}
	var out []string
	for _, p := range append([]string{o.prefix}, parts...) {
		if p != "" {
			out = append(out, san(p))
		}
	}
	return strings.Join(out, ".")
}

// lines are the StatsD lines an emission must produce.
func (o *statsdOpts) lines(e model.Em) []string {
	var suffix, tail string
	switch e.Kind {
	case model.Event:
		tail = "1|c"
	case model.EventErr:
		suffix, tail = "error", "1|c"
	case model.Timing:
		tail = timingText(e.Nanos) + "|ms"
	case model.Gauge:
		tail = gaugeText(e.Value) + "|g"
	case model.Complete:
		return o.limit([]string{o.name(e.Job, e.Status.String()) + ":" + timingText(e.Nanos) + "|ms"})
	}
	var out []string
	if !o.skipTop {
		out = append(out, o.name(e.Event, suffix)+":"+tail)
	}
	if !o.skipNest {
		out = append(out, o.name(e.Job, e.Event, suffix)+":"+tail)
	}
	return o.limit(out)
}

func (o *statsdOpts) limit(l []string) []string {
	var out []string
	for _, s := range l {
		if o.noLimit || len(s)+1 <= 1440 {
			out = append(out, s)
		}
	}
	return out
}

func genStatsd(g *rand.Rand) *statsdOpts {
	o := &statsdOpts{prefix: []string{"", "metroid", "a.b", "my app/1", "x", "%s"}[g.IntN(6)], skipTop: g.IntN(3) == 0, skipNest: g.IntN(3) == 0}
	switch g.IntN(6) {
	case 0:
		o.san, o.sanName = strings.ToUpper, "upper"
	case 1:
		o.san, o.sanName = func(s string) string { return fmt.Sprintf("%x", s) }, "hex"
	case 2:
		o.useNilOptions, o.prefix, o.skipTop, o.skipNest = true, "", false, false
	}
	if o.sanName == "upper" {
		// upper leaves control characters in; those would be the caller's choice, not a fault
		f := o.san
		o.san = func(s string) string { return f(defaultSanitize(s)) }
	}
	return o
}

// names that share text, prefixes or keys with each other
func statsdName(g *rand.Rand) string {
	switch g.IntN(3) {
	case 0:
		return []string{"a", "a.b", "b", "a.b.c", "b.c", "c", "error", "a.error", "success", "panic", "A", "a$b", "a b", ""}[g.IntN(14)]
	default:
		return kit.Name(g)
	}
}

func TestC12(t *testing.T) {
	kit.Run(t, "C12", func(r *kit.Rep) {
		// once runs one attempt; reorder says the only fault is the order of whole datagrams, which UDP does not promise.
		type verdict struct {
			bad   string
			retry bool
		}
		attempt := func(c *kit.Case, f func() verdict) {
			for try := 0; ; try++ {
				v := f()
				if v.bad == "" || c.Failed() {
					return
				}
				if v.retry && try < 3 {
					c.Count("retried_for_network", 1)
					continue
				}
				if v.retry && strings.HasPrefix(v.bad, "kernel") {
					c.Inconclusive("%s", v.bad)
					return
				}
				c.Failf("%s", v.bad)
				return
			}
		}
		// many is how many distinct names a case goes through before it comes back to earlier ones (0: a few)
		history := func(c *kit.Case, many int) {
			g := c.Rng
			o := genStatsd(g)
			var ems []model.Em
			for i, last := 0, 1+g.IntN(150); i < last; i++ {
				e := model.Gen(g, statsdName)
				if e.Kind == model.EventErr && g.IntN(2) == 0 {
					e.Err = health.Mute(e.Err)
				}
				if len(ems) > 0 && g.IntN(3) == 0 { // an earlier key again, with another kind or value
					p := ems[g.IntN(len(ems))]
					e.Job, e.Event = p.Job, p.Event
				}
				ems = append(ems, e)
				c.Tracef("%v", e)
			}
			for x := 0; x < many; x++ {
				e := model.Gen(g, statsdName)
				e.Job, e.Event = fmt.Sprintf("%s%d", e.Job, x/3), fmt.Sprintf("%s%d", e.Event, x)
				ems = append(ems, e)
			}
			for x := 0; x < many/2; x++ {
				e := model.Gen(g, statsdName)
				p := ems[g.IntN(len(ems))]
				e.Kind, e.Job, e.Event, e.Status = p.Kind, p.Job, p.Event, p.Status
				ems = append(ems, e)
			}
			c.Max("names_in_a_case", many)
			drains := map[int]bool{len(ems) - 1: true}
			for x := 400; x < len(ems); x += 400 {
				drains[x] = true
			}
			for i, last := 0, g.IntN(4); i < last; i++ {
				drains[g.IntN(len(ems))] = true
			}
			pause := map[int]time.Duration{}
			for i, last := 0, g.IntN(4); i < last; i++ {
				pause[g.IntN(len(ems))] = time.Duration(g.IntN(250)) * time.Millisecond
			}
			c.Sig(o.prefix, o.sanName, o.skipTop, o.skipNest)
			attempt(c, func() (v verdict) {
				u := newUDP()
				defer u.close()
				c.Bubble(time.Hour, func() {
					sink, err := health.NewStatsDSink(u.addr, o.options())
					if err != nil {
						panic("HARNESS: " + err.Error())
					}
					defer sink.Stop()
					s := health.NewStream().AddSink(sink)
					var want []string
					for i, e := range ems {
						if e.Kind == model.Complete || i%2 == 0 {
							e.To(sink)
						} else {
							emitThrough(s.NewJob(e.Job), e, i%4 == 1)
						}
						want = append(want, o.lines(e)...)
						if d := pause[i]; d > 0 {
							time.Sleep(d)
						}
						if !drains[i] {
							continue
						}
						sink.Drain()
						grams := u.wait(len(want))
						got, bad := splitLines(grams)
						if bad == "" {
							bad = diffLines(want, got)
						}
						if bad != "" {
							if u.drops() > 0 {
								v = verdict{"kernel dropped datagrams", true}
							} else {
								v = verdict{fmt.Sprintf("prefix %q sanitizer %q skip top %v nested %v: %s", o.prefix, o.sanName, o.skipTop, o.skipNest, bad), len(got) == len(want)}
							}
							return
						}
						c.Count("lines_compared", len(got))
					}
				})
				return
			})
		}
		r.Cases("history", r.Pick(12000, 120000), func(c *kit.Case) { history(c, 0) })
		r.Cases("names", r.Pick(40, 400), func(c *kit.Case) { history(c, []int{300, 1100, 2500, 5000, 10000}[c.Rng.IntN(5)]) })
		r.Cases("concurrent", r.Pick(80, 1200), func(c *kit.Case) {
			g := c.Rng
			o := genStatsd(g)
			o.san, o.sanName = nil, ""
			if o.skipTop && o.skipNest {
				o.skipNest = false
			}
			ng := 2 + g.IntN(6)
			per := 20 + g.IntN(150)
			plans := make([][]model.Em, ng)
			want := map[string]int{}
			total := 0
			for i := range plans {
				for x := 0; x < per; x++ {
					e := model.Gen(g, kit.PlainName)
					e.Job = fmt.Sprintf("g%d", i)
					plans[i] = append(plans[i], e)
					for _, l := range o.lines(e) {
						want[l]++
						total++
					}
				}
			}
			c.Tracef("goroutines=%d per=%d options=%+v", ng, per, *o)
			attempt(c, func() (v verdict) {
				u := newUDP()
				defer u.close()
				c.Bubble(time.Hour, func() {
					sink, err := health.NewStatsDSink(u.addr, o.options())
					if err != nil {
						panic("HARNESS: " + err.Error())
					}
					defer sink.Stop()
					var wg sync.WaitGroup
					for i := range plans {
						wg.Add(1)
						go func() {
							defer wg.Done()
							for _, e := range plans[i] {
								e.To(sink)
							}
						}()
					}
					wg.Wait()
					sink.Drain()
					got, bad := splitLines(u.wait(total))
					if u.drops() > 0 {
						v = verdict{"kernel dropped datagrams", true}
						return
					}
					if bad != "" {
						v = verdict{bad, false}
						return
					}
					have := map[string]int{}
					for _, l := range got {
						have[l]++
					}
					for l, n := range want {
						if have[l] != n {
							v = verdict{fmt.Sprintf("line %q: %d emitted, %d received", l, n, have[l]), false}
							return
						}
					}
					if len(got) != total {
						v = verdict{fmt.Sprintf("%d lines expected, %d received", total, len(got)), false}
						return
					}
					c.Count("lines_compared", total)
					// each goroutine's nested lines arrive in its order
					if !o.skipNest {
						for i := range plans {
							key := o.name(fmt.Sprintf("g%d", i)) + "."
							var w, h []string
							for _, e := range plans[i] {
								for _, l := range o.lines(e) {
									if strings.HasPrefix(l, key) {
										w = append(w, l)
									}
								}
							}
							for _, l := range got {
								if strings.HasPrefix(l, key) {
									h = append(h, l)
								}
							}
							if d := diffLines(w, h); d != "" {
								v = verdict{fmt.Sprintf("goroutine %d: %s", i, d), true}
								return
							}
						}
					}
				})
				return
			})
		})
	})
}

func diffLines(want, got []string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("%d lines expected, %d received; first missing %q", len(want), len(got), want[i])
		}
		if got[i] != want[i] {
			return fmt.Sprintf("line %d is %q, want %q", i, got[i], want[i])
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%d lines expected, %d received; first extra %q", len(want), len(got), got[len(want)])
	}
	return ""
}
