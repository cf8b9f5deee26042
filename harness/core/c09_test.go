package core

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"example.com/verif/kit"
	"example.com/verif/model"
	"github.com/gocraft/health"
)

// The emitters' cycle: step i of a goroutine is of kind i%5, and gauges carry i.
func cycle(gi, i int) model.Em {
	e := model.Em{Kind: model.Kind(i % 5), Job: fmt.Sprintf("g%d", gi), Event: "e"}
	switch e.Kind {
	case model.EventErr:
		e.Err = errors.New("x")
	case model.Timing:
		e.Nanos = int64(i)
	case model.Gauge:
		e.Value = float64(i)
	case model.Complete:
		e.Nanos = int64(i)
		e.Status = health.CompletionStatus(i / 5 % 5)
	}
	return e
}

type snap struct {
	ms   []*health.IntervalAggregation
	dump []string
}

func takeSnap(sink *health.JsonPollingSink) snap {
	s := snap{ms: sink.GetMetrics()}
	for _, m := range s.ms {
		s.dump = append(s.dump, model.Dump(m))
	}
	return s
}

// consistent checks one snapshot by itself.
func consistent(s snap) string {
	for _, ia := range s.ms {
		a := model.FromReal(ia)
		sum := model.New(a.Start)
		var serial int64
		gauges := int64(0)
		for name, j := range a.Jobs {
			one := model.New(a.Start)
			one.Maps = j.Maps
			sum.Merge(one)
			for _, v := range j.Events {
				serial += v
			}
			for _, v := range j.Errs {
				serial += v
			}
			for _, v := range j.Timers {
				serial += v.Count
			}
			var st int64
			for _, v := range j.Status {
				st += v
			}
			if st != j.Count {
				return fmt.Sprintf("job %s: statuses %v do not add up to count %d", name, j.Status, j.Count)
			}
			serial += j.Count
			gauges += int64(len(j.Gauges))
		}
		if serial+gauges > a.Serial || (gauges == 0 && serial != a.Serial) {
			return fmt.Sprintf("serial number %d does not match the %d emissions seen", a.Serial, serial+gauges)
		}
		sum.Serial = a.Serial
		for k, v := range a.Gauges {
			ok := false
			for _, j := range a.Jobs {
				if w, has := j.Gauges[k]; has && w == v {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("total gauge %s=%v is no job's value", k, v)
			}
			sum.Gauges[k] = v
		}
		tot := model.New(a.Start)
		tot.Maps = a.Maps
		if d := sum.Diff(tot.Real(), model.Opts{NoStart: true}); d == "" {
			continue
		} else if len(a.Jobs) > 0 {
			// Diff also compares jobs, of which tot has none: compare the totals only
			sum.Jobs = nil
			if d := sum.Diff(tot.Real(), model.Opts{NoStart: true}); d != "" {
				return "totals are not the sums over the jobs: " + d
			}
		}
	}
	return ""
}

// prefixes checks that every goroutine's contribution, over all intervals, is a prefix of what it emitted.
func prefixes(s snap, ng int) ([]int, string) {
	out := make([]int, ng)
	for gi := 0; gi < ng; gi++ {
		var c [5]int64 // event err timing gauge complete
		lastGauge := -1.0
		var tsum, csum int64
		for _, ia := range s.ms {
			j := ia.Jobs[fmt.Sprintf("g%d", gi)]
			if j == nil {
				continue
			}
			c[0] += j.Events["e"]
			if x := j.EventErrs["e"]; x != nil {
				c[1] += x.Count
			}
			if x := j.Timers["e"]; x != nil {
				c[2] += x.Count
				tsum += x.NanosSum
			}
			if v, ok := j.Gauges["e"]; ok {
				if v < lastGauge {
					return nil, fmt.Sprintf("goroutine %d: gauge went back from %v to %v", gi, lastGauge, v)
				}
				lastGauge = v
			}
			c[4] += j.Count
			csum += j.NanosSum
		}
		// gauges are latest-value; the value gives how many there were
		if lastGauge >= 0 {
			c[3] = (int64(lastGauge)-3)/5 + 1
		}
		k := c[0] + c[1] + c[2] + c[3] + c[4]
		for i := int64(0); i < 5; i++ {
			want := (k - i + 4) / 5
			if want < 0 {
				want = 0
			}
			if c[i] != want {
				return nil, fmt.Sprintf("goroutine %d: counts by kind %v are not those of the first %d of its emissions", gi, c, k)
			}
		}
		var wt, wc int64
		for i := int64(0); i < c[2]; i++ {
			wt += 5*i + 2
		}
		for i := int64(0); i < c[4]; i++ {
			wc += 5*i + 4
		}
		if wt != tsum || wc != csum {
			return nil, fmt.Sprintf("goroutine %d: sums %d/%d, the first %d emissions have %d/%d", gi, tsum, csum, k, wt, wc)
		}
		out[gi] = int(k)
	}
	return out, ""
}

func TestC09(t *testing.T) {
	kit.Run(t, "C09", func(r *kit.Rep) {
		// Real time, very short intervals: reads happen before, at and after interval changes.
		run := func(c *kit.Case, d time.Duration, ng, per, nread int, nap bool) {
			g := c.Rng
			sink := health.NewJsonPollingSink(d, time.Hour)
			defer sink.ShutdownServer()
			var done atomic.Bool
			var emitters, readers sync.WaitGroup
			naps := make([]uint64, ng)
			for i := range naps {
				naps[i] = g.Uint64()
			}
			for gi := 0; gi < ng; gi++ {
				emitters.Add(1)
				go func() {
					defer emitters.Done()
					x := naps[gi]
					for i := 0; i < per; i++ {
						cycle(gi, i).To(sink)
						x = x*6364136223846793005 + 1442695040888963407
						if nap && x>>60 == 0 {
							time.Sleep(time.Duration(x >> 44 & 0xffff)) // up to 65 µs
						}
					}
				}()
			}
			hist := make([][]snap, nread)
			for ri := 0; ri < nread; ri++ {
				readers.Add(1)
				go func() {
					defer readers.Done()
					for n := 0; !done.Load(); n++ {
						if n%8 == 7 { // on one processor, readers and aggregator could otherwise keep it to themselves
							time.Sleep(30 * time.Microsecond)
						}
						if len(hist[ri]) < 40 {
							hist[ri] = append(hist[ri], takeSnap(sink))
						} else {
							sink.GetMetrics()
						}
						if nap {
							time.Sleep(time.Duration(20+ri*30) * time.Microsecond)
						}
					}
				}()
			}
			emitters.Wait()
			done.Store(true)
			readers.Wait()
			// one more read by everyone, long after: all emitted must show up
			final := snap{}
			for i := 0; ; i++ {
				final = takeSnap(sink)
				ks, bad := prefixes(final, ng)
				if bad != "" {
					c.Failf("final read: %s", bad)
					return
				}
				all := true
				for _, k := range ks {
					all = all && k == per
				}
				if all {
					break
				}
				if i > 20000 {
					c.Inconclusive("emissions never arrived")
					return
				}
				time.Sleep(time.Millisecond)
			}
			distinct := map[string]bool{}
			for ri := range hist {
				hist[ri] = append(hist[ri], final)
				var prev []int
				sealed := map[int64]string{}
				for si, s := range hist[ri] {
					c.Count("snapshots_checked", 1)
					for x, m := range s.ms {
						if now := model.Dump(m); now != s.dump[x] {
							c.Failf("reader %d snapshot %d interval %d changed after it was returned:\nwas %s\nnow %s", ri, si, x, s.dump[x], now)
							return
						}
						// an interval that is not the latest can never change again
						key := m.IntervalStart.UnixNano()
						if old, ok := sealed[key]; ok && old != s.dump[x] {
							c.Failf("reader %d snapshot %d: a past interval changed:\nwas %s\nnow %s", ri, si, old, s.dump[x])
							return
						}
						if x < len(s.ms)-1 {
							sealed[key] = s.dump[x]
						}
						if x > 0 && !s.ms[x-1].IntervalStart.Before(m.IntervalStart) {
							c.Failf("intervals out of order in a snapshot")
							return
						}
					}
					if bad := consistent(s); bad != "" {
						c.Failf("reader %d snapshot %d: %s", ri, si, bad)
						return
					}
					ks, bad := prefixes(s, ng)
					if bad != "" {
						c.Failf("reader %d snapshot %d: %s", ri, si, bad)
						return
					}
					for gi := range ks {
						if prev != nil && ks[gi] < prev[gi] {
							c.Failf("reader %d snapshot %d went back: goroutine %d from %d to %d emissions", ri, si, gi, prev[gi], ks[gi])
							return
						}
					}
					prev = ks
					distinct[fmt.Sprint(ks)] = true
					c.Max("intervals_in_snapshot", len(s.ms))
				}
			}
			c.Count("distinct_cut_points_observed", len(distinct))
			c.Tracef("d=%v emitters=%d per=%d readers=%d cuts=%d", d, ng, per, nread, len(distinct))
			for k := range distinct {
				c.Sig(k)
			}
		}
		r.Cases("one interval", r.Pick(180, 2000), func(c *kit.Case) {
			run(c, time.Hour, 1+c.Rng.IntN(6), 200+c.Rng.IntN(2000), 1+c.Rng.IntN(3), c.Rng.IntN(2) == 0)
		})
		r.Cases("rotating", r.Pick(240, 3000), func(c *kit.Case) {
			run(c, time.Duration(50+c.Rng.IntN(2000))*time.Microsecond, 1+c.Rng.IntN(6), 200+c.Rng.IntN(2000), 1+c.Rng.IntN(3), true)
		})
		// Virtual time: snapshots kept across many interval changes and retention shifts.
		r.Cases("kept", r.Pick(1200, 16000), func(c *kit.Case) {
			c.Bubble(1000*time.Hour, func() {
				g := c.Rng
				d := time.Duration(1+g.IntN(5)) * time.Second
				sink := health.NewJsonPollingSink(d, time.Duration(1+g.IntN(4))*d)
				defer sink.ShutdownServer()
				// sometimes a few jobs with a great many names each
				many := 0
				if g.IntN(3) == 0 {
					many = 1 + g.IntN(300)
				}
				var kept []snap
				for i, last := 0, 10+g.IntN(50); i < last; i++ {
					switch g.IntN(5) {
					case 0:
						time.Sleep(time.Until(time.Now().Truncate(d).Add(d)) - time.Duration(g.IntN(2)))
					case 1:
						time.Sleep(time.Duration(g.Int64N(int64(3 * d))))
					}
					for x, last := 0, g.IntN(6+many); x < last; x++ {
						e := genAgg(g)
						if many > 0 {
							e.Job = []string{"a", "b"}[g.IntN(2)]
							e.Event = fmt.Sprint("e", g.IntN(many))
						}
						c.Tracef("%v", e)
						e.To(sink)
					}
					if g.IntN(2) == 0 {
						kit.Wait()
					}
					if g.IntN(2) == 0 {
						s := takeSnap(sink)
						kept = append(kept, s)
						c.Count("snapshots_checked", 1)
						if bad := consistent(s); bad != "" {
							c.Failf("%s", bad)
							return
						}
						// a reader may do what it likes with its snapshot's current interval
						// only if nobody else sees it: change a clone instead
						if len(s.ms) > 0 && g.IntN(4) == 0 {
							cl := s.ms[len(s.ms)-1].Clone()
							scramble(cl)
						}
					}
				}
				time.Sleep(d)
				kit.Wait()
				for si, s := range kept {
					for x, m := range s.ms {
						if now := model.Dump(m); now != s.dump[x] {
							c.Failf("snapshot %d interval %d changed after it was returned:\nwas %s\nnow %s", si, x, s.dump[x], now)
							return
						}
					}
				}
			})
		})
	})
}

// scramble changes everything reachable through exported fields.
func scramble(ia *health.IntervalAggregation) {
	ia.SerialNumber += 1000
	ia.Events["scrambled"] = 77
	ia.Gauges["scrambled"] = 77
	ia.Timers["scrambled"] = &health.TimerAggregation{Count: 5}
	ia.EventErrs["scrambled"] = &health.ErrorCounter{Count: 5}
	for k := range ia.Events {
		ia.Events[k] += 1000
	}
	for k := range ia.Gauges {
		ia.Gauges[k] += 1000
	}
	for _, v := range ia.Timers {
		v.Count, v.NanosSum, v.NanosSumSquares, v.NanosMin, v.NanosMax = v.Count+1000, v.NanosSum+1000, v.NanosSumSquares+1e9, v.NanosMin-1000, v.NanosMax+1000
	}
	for _, v := range ia.EventErrs {
		v.Count += 1000
	}
	for _, j := range ia.Jobs {
		j.Count, j.NanosSum, j.NanosSumSquares, j.NanosMin, j.NanosMax = j.Count+1000, j.NanosSum+1000, j.NanosSumSquares+1e9, j.NanosMin-1000, j.NanosMax+1000
		j.CountSuccess, j.CountError, j.CountPanic, j.CountJunk, j.CountValidationError = j.CountSuccess+1, j.CountError+1, j.CountPanic+1, j.CountJunk+1, j.CountValidationError+1
		for k := range j.Events {
			j.Events[k] += 1000
		}
		for k := range j.Gauges {
			j.Gauges[k] += 1000
		}
		for _, v := range j.Timers {
			v.Count, v.NanosSum, v.NanosSumSquares, v.NanosMin, v.NanosMax = v.Count+1000, v.NanosSum+1000, v.NanosSumSquares+1e9, v.NanosMin-1000, v.NanosMax+1000
		}
		for _, v := range j.EventErrs {
			v.Count += 1000
		}
		j.Events["scrambled"] = 77
	}
	ia.Jobs["scrambled"] = &health.JobAggregation{CountSuccess: 3}
}
