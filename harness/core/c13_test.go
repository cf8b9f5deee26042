package core

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"github.com/gocraft/health"
)

// tick is the documented flush period plus slack.
const tick = 125 * time.Millisecond

func TestC13(t *testing.T) {
	kit.Run(t, "C13", func(r *kit.Rep) {
		// run makes the emissions at their virtual times and checks that each line is out a tick later.
		type step struct {
			e     model.Em
			pause time.Duration
		}
		run := func(c *kit.Case, o *statsdOpts, steps []step) {
			for try := 0; ; try++ {
				bad, net := "", false
				u := newUDP()
				c.Bubble(time.Hour, func() {
					sink, err := health.NewStatsDSink(u.addr, o.options())
					if err != nil {
						panic("HARNESS: " + err.Error())
					}
					defer sink.Stop()
					var want []string
					type due struct {
						at time.Time
						n  int
					}
					var dues []due
					check := func(final bool) {
						n := 0
						for _, d := range dues {
							if !time.Now().Before(d.at.Add(tick)) {
								n = d.n
							}
						}
						kit.Wait()
						u.settle()
						grams := u.all()
						for i := 0; countLines(grams) < n && i < 5; i++ { // never needed; the kernel queues before the send returns
							nap(10 * time.Millisecond)
							u.settle()
							grams = u.all()
						}
						got, b := splitLines(grams)
						if b == "" && len(got) < n {
							b = fmt.Sprintf("%d ms after it was emitted, line %q has not been sent (%d of %d lines sent)", tick.Milliseconds(), short(want[len(got)]), len(got), n)
						}
						if b == "" && len(got) > len(want) {
							b = fmt.Sprintf("extra line %q", short(got[len(want)]))
						}
						if b == "" {
							b = diffLines(want[:len(got)], got)
						}
						if b != "" {
							bad = b
							net = u.drops() > 0
							return
						}
						if final {
							c.Count("datagrams_checked", len(grams))
							c.Count("lines_checked", len(got))
							for _, g := range grams {
								c.Max("datagram_bytes", len(g))
								if len(g) == 1440 {
									c.Count("full_datagrams", 1)
								}
							}
						}
					}
					for _, s := range steps {
						s.e.To(sink)
						want = append(want, o.lines(s.e)...)
						full := 2
						if o.skipTop {
							full--
						}
						if o.skipNest {
							full--
						}
						if s.e.Kind == model.Complete {
							full = 1
						}
						if len(o.lines(s.e)) < full {
							c.Count("oversized_lines", full-len(o.lines(s.e)))
						}
						dues = append(dues, due{time.Now(), len(want)})
						if s.pause > 0 {
							kit.Wait()
							time.Sleep(s.pause)
							check(false)
							if bad != "" {
								return
							}
						}
					}
					kit.Wait()
					time.Sleep(tick)
					check(true)
				})
				u.close()
				if bad == "" || c.Failed() {
					return
				}
				if net && try < 3 {
					c.Count("retried_for_network", 1)
					continue
				}
				if net {
					c.Inconclusive("kernel dropped datagrams")
					return
				}
				c.Failf("%s", bad)
				return
			}
		}
		opts := func(c *kit.Case) *statsdOpts {
			o := genStatsd(c.Rng)
			if o.skipTop && o.skipNest {
				o.skipTop = false
			}
			switch c.Rng.IntN(5) {
			case 0:
				if !o.useNilOptions {
					o.prefix = strings.Repeat("p", c.Rng.IntN(1500))
				}
			}
			return o
		}
		// names of lengths that make lines and their sums land on and around the limit
		r.Cases("packing", r.Pick(9000, 72000), func(c *kit.Case) {
			g := c.Rng
			o := opts(c)
			var steps []step
			name := func() string {
				var n int
				switch g.IntN(8) {
				case 0:
					n = 1425 + g.IntN(24)
				case 1:
					n = 700 + g.IntN(40)
				case 2:
					n = 470 + g.IntN(20)
				case 3:
					n = g.IntN(1500)
				case 4:
					n = 1440 * (1 + g.IntN(3))
				case 5:
					n = 20 + g.IntN(40)
				default:
					n = 1 + g.IntN(12)
				}
				return strings.Repeat(string(rune('a'+g.IntN(26))), n)
			}
			for i, last := 0, 5+g.IntN(60); i < last; i++ {
				e := model.Gen(g, kit.PlainName)
				if g.IntN(2) == 0 {
					e.Job = name()
				}
				if g.IntN(2) == 0 {
					e.Event = name()
				}
				if e.Kind == model.Gauge && g.IntN(4) == 0 {
					e.Value = math.Pow(10, float64(g.IntN(308)))
				}
				if g.IntN(4) == 0 { // make one of its lines exactly 1438..1442 bytes including the newline
					if ls := o.limitless(e); len(ls) > 0 && o.sanName == "" {
						l := ls[g.IntN(len(ls))]
						if pad := 1438 + g.IntN(5) - 1 - len(l); pad > 0 {
							if e.Kind == model.Complete || g.IntN(2) == 0 && strings.Contains(l, e.Job+"."+e.Event) && e.Job != "" {
								e.Job += strings.Repeat("z", pad)
							} else {
								e.Event += strings.Repeat("z", pad)
							}
						}
					}
				}
				if len(steps) > 0 && g.IntN(4) == 0 {
					p := steps[g.IntN(len(steps))].e
					e.Job, e.Event = p.Job, p.Event
				}
				var d time.Duration
				if g.IntN(12) == 0 {
					d = time.Duration(g.IntN(260)) * time.Millisecond
				}
				steps = append(steps, step{e, d})
				c.Tracef("%d/%d %v +%v", len(e.Job), len(e.Event), e.Kind, d)
			}
			c.Sig(len(o.prefix), o.sanName, o.skipTop, o.skipNest)
			run(c, o, steps)
		})
		// a steady trickle, never quiet for a flush period, also goes out promptly
		r.Cases("trickle", r.Pick(720, 5760), func(c *kit.Case) {
			g := c.Rng
			o := opts(c)
			maxPause := 1 + g.IntN(90)
			var steps []step
			for i, last := 0, 30+g.IntN(120); i < last; i++ {
				steps = append(steps, step{model.Gen(g, statsdName), time.Duration(1+g.IntN(maxPause*1000)) * time.Microsecond})
				if g.IntN(30) == 0 {
					steps[i].pause = time.Duration(g.IntN(3000)) * time.Millisecond
				}
				c.Tracef("%v +%v", steps[i].e, steps[i].pause)
			}
			run(c, o, steps)
		})
		// several emitters at the very moments of the flush ticks, also after the queue overflowed for a while
		r.Cases("lockstep", r.Pick(720, 5760), func(c *kit.Case) {
			g := c.Rng
			ne := 1 + g.IntN(6)
			rounds := 5 + g.IntN(25)
			jammed := g.IntN(4) == 0
			var offs []time.Duration
			for i := 0; i < ne; i++ {
				var o time.Duration
				if g.IntN(3) == 0 {
					o = time.Duration(g.IntN(3)-1) * time.Nanosecond
				}
				offs = append(offs, o)
			}
			per := make([][]int, ne)
			for i := range per {
				for k := 0; k < rounds; k++ {
					per[i] = append(per[i], []int{0, 1, 1, 2, 5, 40}[g.IntN(6)])
				}
			}
			// the burst of a jam comes in several parts, with flush ticks between them
			jam := []int{8192 + 300}
			switch g.IntN(3) {
			case 0:
				jam = []int{1 + g.IntN(20), 1 + g.IntN(8000)}
			case 1:
				jam = nil
				for i, n := 0, 1+g.IntN(4); i < n; i++ {
					jam = append(jam, 1+g.IntN(4000))
				}
			}
			c.Tracef("emitters=%d offsets=%v jammed=%v %v %v", ne, offs, jammed, jam, per)
			for try := 0; ; try++ {
				bad := ""
				u := newUDP()
				c.Bubble(time.Hour, func() {
					var gt gate
					start := time.Now()
					sink, err := health.NewStatsDSink(u.addr, &health.StatsDSinkOptions{SkipTopLevelEvents: true, SanitizationFunc: gt.san})
					if err != nil {
						panic("HARNESS: " + err.Error())
					}
					defer sink.Stop()
					pre := 0
					if jammed {
						gt.close()
						for _, n := range jam {
							pre += n
							go func() {
								for i := 0; i < n; i++ {
									sink.EmitEvent("jam", "j", nil)
								}
							}()
							time.Sleep(450 / time.Duration(len(jam)) * time.Millisecond)
						}
						gt.open()
						c.Count("queues_jammed", 1)
						kit.Wait()
					}
					var mu sync.Mutex
					sent := map[string]time.Time{}
					for i := 0; i < ne; i++ {
						go func() {
							for k := 0; k < rounds; k++ {
								at := start.Add(time.Duration(k+6)*100*time.Millisecond + offs[i])
								time.Sleep(time.Until(at))
								for x := 0; x < per[i][k]; x++ {
									name := fmt.Sprintf("%d_%d", k, x)
									sink.EmitEvent(fmt.Sprintf("e%d", i), name, nil)
									mu.Lock()
									sent[fmt.Sprintf("e%d.%s:1|c", i, name)] = time.Now()
									mu.Unlock()
								}
							}
						}()
					}
					for k := 0; k < rounds+3; k++ {
						time.Sleep(time.Until(start.Add(time.Duration(k+6)*100*time.Millisecond + 30*time.Millisecond)))
						kit.Wait()
						u.settle()
						lines, b := splitLines(u.all())
						if b != "" {
							bad = b
							return
						}
						got := map[string]int{}
						for _, l := range lines {
							got[l]++
						}
						if n := got["jam.j:1|c"]; n != pre {
							bad = fmt.Sprintf("%d of %d lines of a burst larger than the queue were sent more than 100 ms after it was processed", n, pre)
							return
						}
						mu.Lock()
						for l, at := range sent {
							if time.Since(at) >= tick && got[l] != 1 {
								bad = fmt.Sprintf("%v after it was emitted, line %q has been sent %d times", time.Since(at), l, got[l])
							}
						}
						mu.Unlock()
						if bad != "" {
							return
						}
						if k == rounds+2 {
							c.Count("lines_checked", len(lines))
						}
					}
				})
				drops := u.drops()
				u.close()
				if bad == "" || c.Failed() {
					return
				}
				if drops == 0 {
					c.Failf("%s", bad)
					return
				}
				if try > 3 {
					c.Inconclusive("kernel dropped datagrams")
					return
				}
			}
		})
	})
}

func short(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%s...(%d bytes)", s[:60], len(s))
	}
	return s
}

// limitless: the lines before oversized ones are left out.
func (o *statsdOpts) limitless(e model.Em) []string {
	p := *o
	p.noLimit = true
	return p.lines(e)
}
