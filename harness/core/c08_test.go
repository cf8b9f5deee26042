package core

import (
	"fmt"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"github.com/gocraft/health"
)

func TestC08(t *testing.T) {
	kit.Run(t, "C08", func(r *kit.Rep) {
		ivals := []time.Duration{time.Second, 2 * time.Second, 1500 * time.Millisecond, 7 * time.Second, 10 * time.Second, time.Minute, 5 * time.Minute, time.Hour, 300 * time.Millisecond, 100 * time.Millisecond, 10 * time.Millisecond, 61 * time.Second, 2999 * time.Millisecond}
		r.Cases("timeline", r.Pick(6000, 50000), func(c *kit.Case) {
			c.Bubble(100000*time.Hour, func() {
				g := c.Rng
				d := ivals[g.IntN(len(ivals))]
				n := 1 + g.IntN(8)
				if d < time.Minute && g.IntN(6) == 0 {
					n = 20 + g.IntN(60)
				}
				retain := time.Duration(n)*d + time.Duration(g.Int64N(int64(d)))*time.Duration(g.IntN(2))
				time.Sleep(time.Duration(g.Int64N(int64(3 * d)))) // start anywhere in an interval
				start := time.Now()
				sink := health.NewJsonPollingSink(d, retain)
				defer sink.ShutdownServer()
				m := map[int64]*model.Agg{} // by interval start
				steps := 10 + g.IntN(60)
				if d >= time.Minute {
					steps = 6 + g.IntN(12)
				}
				for i := 0; i < steps; i++ {
					// move on in time
					switch g.IntN(7) {
					case 0: // to the very start of an interval, or one nanosecond before it
						to := time.Now().Truncate(d).Add(d)
						time.Sleep(time.Until(to) - time.Duration(g.IntN(2)))
					case 1:
						time.Sleep(time.Duration(g.Int64N(int64(2 * d))))
					case 2:
						time.Sleep(time.Duration(g.Int64N(int64(time.Duration(n+2) * d))))
					case 3:
						time.Sleep(d)
					case 4:
						time.Sleep(time.Duration(g.Int64N(int64(d))) / 8)
					case 5:
						if g.IntN(8) == 0 {
							time.Sleep(time.Duration(g.IntN(3*n+3)) * d)
						}
					}
					for x, last := 0, g.IntN(4); x < last; x++ {
						e := genAgg(g)
						st := time.Now().Truncate(d)
						if m[st.UnixNano()] == nil {
							m[st.UnixNano()] = model.New(st)
						}
						m[st.UnixNano()].Apply(e)
						e.To(sink)
						c.Tracef("+%v %v", time.Since(start), e)
						c.Count("emissions_placed", 1)
					}
					kit.Wait()
					if g.IntN(3) > 0 {
						continue
					}
					now := time.Now()
					cur := now.Truncate(d)
					ms := sink.GetMetrics()
					kit.Wait()
					c.Count("reads_compared", 1)
					c.Count("intervals_compared", len(ms))
					c.Tracef("+%v read %d intervals (d=%v n=%d)", now.Sub(start), len(ms), d, n)
					if len(ms) == 0 || len(ms) > n {
						c.Failf("interval %v retain %v: %d intervals reported, at most %d may be", d, retain, len(ms), n)
						return
					}
					got := map[int64]*health.IntervalAggregation{}
					var desc []string
					for x, ia := range ms {
						desc = append(desc, ia.IntervalStart.Sub(cur).String())
						if !ia.IntervalStart.Equal(ia.IntervalStart.Truncate(d)) {
							c.Failf("interval start %v is not a multiple of %v", ia.IntervalStart, d)
							return
						}
						if x > 0 && !ms[x-1].IntervalStart.Before(ia.IntervalStart) {
							c.Failf("interval starts not strictly increasing: %v", desc)
							return
						}
						got[ia.IntervalStart.UnixNano()] = ia
						w := m[ia.IntervalStart.UnixNano()]
						if w == nil {
							w = model.New(ia.IntervalStart)
						}
						if df := w.Diff(ia, model.Opts{Serial: true}); df != "" {
							c.Failf("interval %v before the current one (of %v, at most %d): %s", cur.Sub(ia.IntervalStart), d, n, df)
							return
						}
					}
					if !ms[len(ms)-1].IntervalStart.Equal(cur) {
						c.Failf("last interval starts %v, now is %v", ms[len(ms)-1].IntervalStart, now)
						return
					}
					// what must still be there
					oldest := cur.Add(-time.Duration(n-1) * d)
					for k, w := range m {
						if !w.Start.Before(oldest) && got[k] == nil {
							c.Failf("the interval %v before the current one had emissions and is within the last %d, but is not reported (reported: %v)", cur.Sub(w.Start), n, desc)
							return
						}
					}
					// what must be gone
					slack := d
					if slack < time.Second {
						slack = time.Second
					}
					for _, ia := range ms {
						if d >= time.Second && ia.IntervalStart.Before(oldest) {
							c.Failf("interval %v before the current one still reported with retention of %d x %v", cur.Sub(ia.IntervalStart), n, d)
							return
						}
						if now.Sub(ia.IntervalStart) > time.Duration(n+2)*slack {
							c.Failf("interval %v old still reported with retention of %d x %v", now.Sub(ia.IntervalStart), n, d)
							return
						}
					}
				}
				c.Sig(d, n, fmt.Sprint(steps))
			})
		})
		// Idle: the window slides on its own, emptying after everything has aged out.
		r.Cases("idle", r.Pick(800, 6400), func(c *kit.Case) {
			c.Bubble(100000*time.Hour, func() {
				g := c.Rng
				d := ivals[g.IntN(8)]
				n := 1 + g.IntN(6)
				time.Sleep(time.Duration(g.Int64N(int64(3 * d))))
				sink := health.NewJsonPollingSink(d, time.Duration(n)*d)
				defer sink.ShutdownServer()
				sink.EmitEvent("j", "e", nil)
				kit.Wait()
				st := time.Now().Truncate(d)
				k := g.IntN(2*n + 2)
				time.Sleep(time.Duration(k) * d)
				kit.Wait()
				ms := sink.GetMetrics()
				var total int64
				for _, ia := range ms {
					total += ia.Events["e"]
				}
				want := int64(1)
				if k >= n {
					want = 0
				}
				c.Tracef("d=%v n=%d idle for %d intervals: %d reported, events %d", d, n, k, len(ms), total)
				c.Count("reads_compared", 1)
				if total != want {
					c.Failf("event emitted in %v; %d intervals of %v later (%d kept) %d events are reported", st, k, d, n, total)
					return
				}
				if len(ms) != min(n, k+1) {
					c.Failf("%d intervals of %v after the first, %d are kept, %d reported", k, d, n, len(ms))
				}
			})
		})
	})
}
